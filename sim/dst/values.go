package dst

import (
	"errors"
	"fmt"
	"strconv"
	"strings"
	"time"

	"dashsim/simrt"

	"github.com/Eyevinn/dash-mpd/xml"
)

// Tree is a generic value for the xml package: any element.
type Tree struct {
	XMLName xml.Name
	Attrs   []xml.Attr `xml:",any,attr"`
	Text    string     `xml:",chardata"`
	Kids    []*Tree    `xml:",any"`
}

// Rich is a value that uses many features of the xml package. It does not
// depend on namespaces.
type Rich struct {
	XMLName xml.Name   `xml:"rich"`
	ID      int        `xml:"id,attr"`
	Opt     string     `xml:"opt,attr,omitempty"`
	Flag    bool       `xml:"flag,attr"`
	Num     *float64   `xml:"num,attr"`
	Any     []xml.Attr `xml:",any,attr"`
	Comment string     `xml:",comment"`
	First   string     `xml:"name>first"`
	Last    string     `xml:"name>last"`
	Deep    []int      `xml:"a>b>c"`
	Bytes   []byte     `xml:"bytes"`
	When    time.Time  `xml:"when"`
	Kids    []Sub      `xml:"sub"`
	Ptr     *Sub       `xml:"ptr"`
	Text    TextVal    `xml:"text"`
	Sc      *Scalars   `xml:"sc"`
	Embedded
}

// Scalars holds every kind of simple value as attribute, element and text.
type Scalars struct {
	AI  int64    `xml:"ai,attr"`
	AU  *uint16  `xml:"au,attr"`
	AF  float32  `xml:"af,attr,omitempty"`
	AB  *bool    `xml:"ab,attr"`
	ABy []byte   `xml:"aby,attr"`
	I   []SInt   `xml:"i"`
	U   []SUint  `xml:"u"`
	B   []SBool  `xml:"b"`
	F   []SF64   `xml:"f"`
	G   []SF32   `xml:"g"`
	Y   []SBytes `xml:"y"`
	C   []SCData `xml:"c"`
	D   []SCInt  `xml:"d"`
	N   []int8   `xml:"n"`
	M   []bool   `xml:"w>m"`
	Arr [3]uint8 `xml:"arr"`
}

type SInt struct {
	V int64 `xml:",chardata"`
}
type SUint struct {
	V uint16 `xml:",chardata"`
	K string `xml:"k,attr"`
}
type SBool struct {
	V bool `xml:",chardata"`
}
type SF64 struct {
	V *float64 `xml:",chardata"`
}
type SF32 struct {
	V float32 `xml:",chardata"`
}
type SBytes struct {
	V []byte `xml:",chardata"`
}
type SCData struct {
	V string `xml:",cdata"`
}
type SCInt struct {
	V int `xml:",cdata"`
}

func (g *docGen) genScalars() *Scalars {
	v := &Scalars{AI: int64(g.uintN(64)), AF: float32(g.float())}
	if ops(2) == 1 {
		u, b := uint16(ops(1<<16)), ops(2) == 1
		v.AU, v.AB = &u, &b
	}
	v.ABy = []byte(g.word())
	for k := 1 + ops(6); k > 0; k-- {
		switch ops(10) {
		case 0:
			v.I = append(v.I, SInt{int64(g.uintN(64))})
		case 1:
			v.U = append(v.U, SUint{uint16(ops(1 << 16)), g.word()})
		case 2:
			v.B = append(v.B, SBool{ops(2) == 1})
		case 3:
			f := g.float()
			v.F = append(v.F, SF64{&f})
		case 4:
			v.G = append(v.G, SF32{float32(g.float())})
		case 5:
			v.Y = append(v.Y, SBytes{[]byte(g.str(true))})
		case 6:
			v.C = append(v.C, SCData{g.str(true) + pick([]string{"", "]]>", "a]]>b"})})
		case 7:
			v.D = append(v.D, SCInt{ops(100000) - 50000})
		case 8:
			v.N = append(v.N, int8(ops(256)-128))
		case 9:
			v.M = append(v.M, ops(2) == 1)
		}
	}
	return v
}

type Embedded struct {
	E1 string `xml:"e1"`
	E2 uint8  `xml:"e2,attr"`
}

type Sub struct {
	K    string   `xml:"k,attr"`
	V    string   `xml:",chardata"`
	More []string `xml:"more"`
}

// TextVal is a text marshaler and unmarshaler.
type TextVal struct{ S string }

func (t TextVal) MarshalText() ([]byte, error) { return []byte("<" + t.S + ">"), nil }
func (t *TextVal) UnmarshalText(b []byte) error {
	t.S = strings.TrimSuffix(strings.TrimPrefix(string(b), "<"), ">")
	return nil
}

// RawXML captures verbatim content.
type RawXML struct {
	XMLName xml.Name
	Attrs   []xml.Attr `xml:",any,attr"`
	Inner   string     `xml:",innerxml"`
}

var errCallback = errors.New("simulated callback error")

// cbMode is how a simulated user callback behaves.
type cbMode int

const (
	cbGood cbMode = iota
	cbError
	cbPanic
	cbUnclosed // leaves an element open
	cbOverclose
	cbIllegal // writes an illegal token and returns that error
	cbSwallow // writes an illegal token and ignores the error
	cbLate    // writes good content and then fails
	cbModes
)

var cbNames = []string{"good", "error", "panic", "unclosed", "overclose", "illegal-token", "illegal-swallowed", "late-error"}

// CB is a value with a scripted MarshalXML.
type CB struct {
	Mode cbMode
	N    int
}

func (c *CB) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	simrt.Point(110)
	n := xml.Name{Space: "urn:cb", Local: "in"}
	switch c.Mode {
	case cbError:
		return errCallback
	case cbPanic:
		if c.N%2 == 1 {
			e.EncodeToken(xml.StartElement{Name: n})
		}
		panic(&envPanic{"marshaler"})
	case cbUnclosed:
		return e.EncodeToken(xml.StartElement{Name: n})
	case cbOverclose:
		if err := e.EncodeToken(xml.EndElement{Name: start.Name}); err != nil {
			return err
		}
		return nil
	case cbIllegal:
		return e.EncodeToken(xml.Comment("a--b-->"))
	case cbSwallow:
		_ = e.EncodeToken(xml.EndElement{Name: xml.Name{Local: "nope"}})
		_ = e.EncodeToken(xml.Comment("a-->"))
		_ = e.EncodeToken(xml.ProcInst{Target: "xml", Inst: []byte(`version="1.0"`)})
		return e.EncodeElement(c.N, start)
	case cbLate:
		if err := e.EncodeElement(c.N, start); err != nil {
			return err
		}
		return errCallback
	}
	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: "urn:cb", Local: "n"}, Value: strconv.Itoa(c.N)})
	if err := e.EncodeToken(start); err != nil {
		return err
	}
	if err := e.EncodeToken(xml.CharData("x<" + strconv.Itoa(c.N))); err != nil {
		return err
	}
	if err := e.EncodeElement(c.N, xml.StartElement{Name: n}); err != nil {
		return err
	}
	return e.EncodeToken(start.End())
}

// CBText is a value with a scripted MarshalText.
type CBText struct {
	Mode cbMode
	S    string
}

func (c CBText) MarshalText() ([]byte, error) {
	simrt.Point(111)
	switch c.Mode {
	case cbError:
		return nil, errCallback
	case cbPanic:
		panic(&envPanic{"text-marshaler"})
	case cbLate:
		return []byte(c.S), errCallback
	}
	return []byte(c.S), nil
}

// CBAttr is a value with a scripted MarshalXMLAttr.
type CBAttr struct {
	Mode cbMode
	S    string
}

func (c CBAttr) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	simrt.Point(112)
	switch c.Mode {
	case cbError:
		return xml.Attr{}, errCallback
	case cbPanic:
		panic(&envPanic{"attr-marshaler"})
	case cbLate:
		return xml.Attr{Name: name, Value: c.S}, errCallback
	case cbUnclosed:
		return xml.Attr{}, nil // no attribute
	}
	return xml.Attr{Name: name, Value: c.S}, nil
}

// Holder surrounds callbacks with ordinary siblings.
type Holder struct {
	XMLName xml.Name `xml:"urn:h holder"`
	A       CBAttr   `xml:"a,attr"`
	B       string   `xml:"b,attr"`
	Before  string   `xml:"before"`
	Cb      *CB      `xml:"cb"`
	Mid     []string `xml:"mid>m"`
	Tx      *CBText  `xml:"tx"`
	After   Sub      `xml:"after"`
}

// Bad cannot be encoded.
type Bad struct {
	XMLName xml.Name `xml:"bad"`
	S       string   `xml:"s"`
	C       chan int `xml:"c"`
}

func (g *docGen) xmlIdent() string { return pick([]string{"a", "b", "c1", "x-y", "Ab", "_z"}) }

var treeSpaces = []string{"", "", "urn:a", "http://e.x/n/x", "http://f.y/m/x", nsDASH}

// genTree draws a generic element. With ns, namespaces are used.
func (g *docGen) genTree(depth int, ns bool, space string) *Tree {
	g.budget--
	t := &Tree{XMLName: xml.Name{Space: space, Local: g.xmlIdent()}}
	if ns && (space == "" || ops(3) == 2) {
		t.XMLName.Space = treeSpaces[2+ops(len(treeSpaces)-2)]
		if ops(4) == 0 && space == "" && depth == 0 {
			t.XMLName.Space = ""
		}
	}
	seen := map[xml.Name]bool{}
	for k := ops(4); k > 0; k-- {
		a := xml.Attr{Name: xml.Name{Local: g.xmlIdent()}, Value: g.str(false)}
		if ns {
			a.Name.Space = treeSpaces[ops(len(treeSpaces))]
		}
		if !seen[a.Name] {
			seen[a.Name] = true
			t.Attrs = append(t.Attrs, a)
		}
	}
	if ops(2) == 1 {
		t.Text = g.str(true)
	}
	for k := ops(4); k > 0 && g.budget > 0 && depth < 7; k-- {
		t.Kids = append(t.Kids, g.genTree(depth+1, ns, t.XMLName.Space))
	}
	return t
}

func (g *docGen) genRich() *Rich {
	v := &Rich{XMLName: xml.Name{Local: "rich"}, ID: ops(1000), Opt: g.str(false), Flag: ops(2) == 1, First: g.str(true), Last: g.word()}
	if ops(2) == 1 {
		f := g.float()
		v.Num = &f
	}
	for k := ops(3); k > 0; k-- {
		v.Any = append(v.Any, xml.Attr{Name: xml.Name{Local: "u" + strconv.Itoa(k)}, Value: g.str(false)})
	}
	if ops(3) == 2 {
		v.Comment = " note "
	}
	for k := ops(4); k > 0; k-- {
		v.Deep = append(v.Deep, ops(100))
	}
	v.Bytes = []byte(g.word())
	v.When = time.Unix(int64(ops(1<<30)), 0).UTC()
	for k := ops(4); k > 0; k-- {
		s := Sub{K: g.str(false), V: g.str(true)}
		for j := ops(3); j > 0; j-- {
			s.More = append(s.More, g.word())
		}
		v.Kids = append(v.Kids, s)
	}
	if ops(3) == 2 {
		v.Ptr = &Sub{K: "p", V: g.str(true)}
	}
	v.Text = TextVal{g.word()}
	if ops(2) == 1 {
		v.Sc = g.genScalars()
	}
	v.E1, v.E2 = g.word(), uint8(ops(256))
	return v
}

// genHolder draws a value with user callbacks; one of them may misbehave.
func (g *docGen) genHolder(bad bool) (*Holder, string) {
	h := &Holder{B: g.str(false), Before: g.str(true), After: Sub{K: g.word(), V: g.str(true)}, A: CBAttr{cbGood, g.word()}}
	if ops(4) > 0 {
		h.Cb = &CB{cbGood, ops(100)}
	}
	for k := ops(3); k > 0; k-- {
		h.Mid = append(h.Mid, g.word())
	}
	if ops(2) == 1 {
		h.Tx = &CBText{cbGood, g.str(true)}
	}
	what := "good"
	if bad {
		m := cbMode(1 + ops(int(cbModes)-1))
		switch ops(3) {
		case 0:
			if h.Cb == nil {
				h.Cb = &CB{N: ops(10)}
			}
			h.Cb.Mode = m
			what = "marshaler-" + cbNames[m]
		case 1:
			if h.Tx == nil {
				h.Tx = &CBText{S: "t"}
			}
			m = []cbMode{cbError, cbPanic, cbLate}[int(m)%3]
			h.Tx.Mode = m
			what = "text-marshaler-" + cbNames[m]
		case 2:
			m = []cbMode{cbError, cbPanic, cbLate, cbUnclosed}[int(m)%4]
			h.A.Mode = m
			what = "attr-marshaler-" + cbNames[m]
		}
	}
	return h, what
}

func (h *Holder) String() string { return fmt.Sprintf("holder{%v %v %v}", h.A.Mode, h.Cb, h.Tx) }
