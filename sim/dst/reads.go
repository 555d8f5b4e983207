package dst

import (
	"fmt"
	"io"
	"strings"

	"dashsim/simrt"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

// UCB is a value with a scripted UnmarshalXML; the document chooses the script.
type UCB struct {
	Mode string
	Got  string
}

func (u *UCB) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	simrt.Point(120)
	for _, a := range start.Attr {
		if a.Name.Local == "mode" {
			u.Mode = a.Value
		}
	}
	switch u.Mode {
	case "error":
		return errCallback
	case "panic":
		panic(&envPanic{"unmarshaler"})
	case "none": // consumes nothing
		return nil
	case "one": // consumes one token
		t, err := d.Token()
		if err != nil {
			return err
		}
		u.Got = tokText(t)
		return nil
	case "greedy": // reads for as long as there is something
		for i := 0; ; i++ {
			t, err := d.Token()
			if err != nil || i > 10000 {
				u.Got += " ended:" + errStr(err)
				if _, err2 := d.Token(); err2 != io.EOF {
					u.Got += " then:" + errStr(err2)
				}
				if err == io.EOF {
					return nil
				}
				return err
			}
			u.Got += tokText(t)
		}
	case "greedy-skip":
		for i := 0; i < 1000; i++ {
			if err := d.Skip(); err != nil {
				u.Got = "skip:" + errStr(err)
				break
			}
		}
		return nil
	case "raw":
		_, err := d.RawToken()
		u.Got = "raw:" + errStr(err)
		return d.Skip()
	case "late-error":
		var t Tree
		if err := d.DecodeElement(&t, &start); err != nil {
			return err
		}
		return errCallback
	case "skip":
		return d.Skip()
	case "partial-error":
		d.Token()
		d.Token()
		return errCallback
	case "again": // decodes its element and then tries to decode a sibling
		var t, t2 Tree
		if err := d.DecodeElement(&t, &start); err != nil {
			return err
		}
		u.Got = exportedOf(&t)
		err := d.Decode(&t2)
		u.Got += " again:" + errStr(err)
		return nil
	}
	var t Tree
	if err := d.DecodeElement(&t, &start); err != nil {
		return err
	}
	u.Got = exportedOf(&t)
	return nil
}

// UText is a value with a scripted UnmarshalText.
type UText struct{ S string }

func (u *UText) UnmarshalText(b []byte) error {
	simrt.Point(121)
	s := string(b)
	switch s {
	case "error":
		return errCallback
	case "panic":
		panic(&envPanic{"text-unmarshaler"})
	}
	u.S = "t:" + s
	for i := range b { // the callee owns b for the call
		b[i] = '#'
	}
	return nil
}

// UAttr is a value with a scripted UnmarshalXMLAttr.
type UAttr struct{ S string }

func (u *UAttr) UnmarshalXMLAttr(a xml.Attr) error {
	simrt.Point(122)
	switch a.Value {
	case "error":
		return errCallback
	case "panic":
		panic(&envPanic{"attr-unmarshaler"})
	}
	u.S = "a:" + a.Value
	return nil
}

// UHolder surrounds unmarshaler callbacks with ordinary siblings.
type UHolder struct {
	XMLName xml.Name `xml:"holder"`
	A       *UAttr   `xml:"a,attr"`
	B       string   `xml:"b,attr"`
	Before  string   `xml:"before"`
	Cb      []*UCB   `xml:"cb"`
	Mid     []string `xml:"mid>m"`
	Tx      []*UText `xml:"tx"`
	After   []Sub    `xml:"after"`
	Rest    []RawXML `xml:",any"`
}

func tokText(t xml.Token) string {
	switch t := t.(type) {
	case xml.StartElement:
		s := "<{" + t.Name.Space + "}" + t.Name.Local
		for _, a := range t.Attr {
			s += fmt.Sprintf(" {%s}%s=%q", a.Name.Space, a.Name.Local, a.Value)
		}
		return s + ">"
	case xml.EndElement:
		return "</{" + t.Name.Space + "}" + t.Name.Local + ">"
	case xml.CharData:
		return fmt.Sprintf("text %q", string(t))
	case xml.Comment:
		return fmt.Sprintf("comment %q", string(t))
	case xml.ProcInst:
		return fmt.Sprintf("pi %s %q", t.Target, string(t.Inst))
	case xml.Directive:
		return fmt.Sprintf("directive %q", string(t))
	case nil:
		return "nil"
	}
	return fmt.Sprintf("%T", t)
}

// plan is a way to read an input; it contains no further choices.
type plan struct {
	kind    int
	target  int
	every   int // in mixed reading, decode or skip every n-th element
	relaxed bool
	html    bool // the maps for HTML
	dspace  string
	entity  bool
	charset int // 0: none, 1: latin-1, 2: failing
	pos     bool
	once    bool // stop at the first error
}

const (
	rdDecode = iota // one value
	rdTokens
	rdRaw
	rdMixed  // tokens, with some elements decoded or skipped
	rdStream // values until an error
	nPlanKinds
)

var planNames = []string{"Decode", "Token", "RawToken", "mixed", "Decode-repeatedly"}

var targetNames = []string{"MPD", "Tree", "Rich", "RawXML", "UHolder", "Period", "string", "EventType"}

func newTarget(i int) any {
	switch i {
	case 0:
		return new(mpd.MPD)
	case 1:
		return new(Tree)
	case 2:
		return new(Rich)
	case 3:
		return new(RawXML)
	case 4:
		return new(UHolder)
	case 5:
		return new(mpd.Period)
	case 6:
		return new(string)
	case 7:
		return new(mpd.EventType)
	}
	return nil
}

func drawPlan(kind string) plan {
	p := plan{kind: ops(nPlanKinds), pos: true, every: 2 + ops(3)}
	switch kind {
	case "mpd", "corpus":
		p.target = []int{0, 0, 0, 1, 3}[ops(5)]
	case "rich-soup":
		p.target = 2
		if ops(4) == 3 {
			p.target = 1
		}
	default:
		p.target = []int{1, 3, 6, 2, 7, 4}[ops(6)]
	}
	if ops(6) == 5 {
		p.relaxed = true
	}
	if ops(6) == 5 {
		p.dspace = "urn:default"
	}
	if ops(4) == 3 {
		p.entity = true
	}
	p.charset = ops(3)
	p.html = ops(2) == 1
	if kind == "html" {
		p.relaxed = ops(4) > 0
		p.entity = ops(2) == 1
	}
	return p
}

func (p plan) String() string {
	s := planNames[p.kind]
	if p.kind == rdDecode || p.kind >= rdMixed {
		s += " into " + targetNames[p.target]
	}
	if p.relaxed {
		s += " relaxed"
	}
	if p.dspace != "" {
		s += " default-space"
	}
	return s
}

var relaxedClose = []string{"br", "x-y", "sub"}

func (p plan) setup(d *xml.Decoder) {
	if p.relaxed {
		d.Strict = false
		d.AutoClose = relaxedClose
		if p.html {
			d.AutoClose = xml.HTMLAutoClose
		}
	}
	d.DefaultSpace = p.dspace
	if p.entity {
		d.Entity = map[string]string{"bogus": "<bo>", "copy": "©"}
		if p.html {
			d.Entity = xml.HTMLEntity
		}
	}
	switch p.charset {
	case 1:
		d.CharsetReader = func(cs string, in io.Reader) (io.Reader, error) { return &latin1{in: in}, nil }
	case 2:
		d.CharsetReader = func(cs string, in io.Reader) (io.Reader, error) { return nil, errCallback }
	}
}

// latin1 converts a byte at a time.
type latin1 struct {
	in  io.Reader
	pnd byte
	has bool
}

func (l *latin1) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if l.has {
		l.has = false
		p[0] = l.pnd
		return 1, nil
	}
	var b [1]byte
	n, err := l.in.Read(b[:])
	if n == 0 {
		return 0, err
	}
	if b[0] < 0x80 {
		p[0] = b[0]
		return 1, err
	}
	p[0] = 0xc0 | b[0]>>6
	l.pnd, l.has = 0x80|b[0]&0x3f, true
	return 1, nil
}

// perform reads by the plan and writes down all that a caller can see.
func (p plan) perform(r *Run, d *xml.Decoder) string {
	var out strings.Builder
	p.setup(d)
	at := func() {
		if p.pos {
			l, c := d.InputPos()
			fmt.Fprintf(&out, " @%d %d:%d", d.InputOffset(), l, c)
		}
		out.WriteByte('\n')
	}
	value := func(v any, err error) {
		out.WriteString(snapshot(v))
		fmt.Fprintf(&out, " error %v", errStr(err))
		at()
	}
	ep := r.call(p.String(), func() {
		switch p.kind {
		case rdDecode:
			v := newTarget(p.target)
			err := d.Decode(v)
			if m, ok := v.(*mpd.MPD); ok && err == nil {
				m.SetParents()
			}
			value(v, err)
		case rdStream:
			for i := 0; i < 60; i++ {
				v := newTarget(p.target)
				err := d.Decode(v)
				value(v, err)
				if err == io.EOF || (i > 3 || p.once) && err != nil {
					break
				}
			}
		case rdTokens, rdRaw, rdMixed:
			n, stop := 0, 0
			for i := 0; i < 200000; i++ {
				var t xml.Token
				var err error
				if p.kind == rdRaw {
					t, err = d.RawToken()
				} else {
					t, err = d.Token()
				}
				if err != nil {
					if t != nil {
						out.WriteString(tokText(t))
					}
					fmt.Fprintf(&out, "error %v", err)
					at()
					if stop++; stop == 2 || p.once { // errors stay
						return
					}
					continue
				}
				out.WriteString(tokText(t))
				at()
				if st, ok := t.(xml.StartElement); ok && p.kind == rdMixed {
					n++
					if n%p.every == 0 {
						if n%(2*p.every) == 0 {
							err := d.Skip()
							fmt.Fprintf(&out, "skip %v", errStr(err))
							at()
							if err != nil && p.once {
								return
							}
						} else {
							v := newTarget(p.target)
							err := d.DecodeElement(v, &st)
							value(v, err)
							if err != nil && p.once {
								return
							}
						}
					}
				}
			}
			r.fail("nontermination", p.String(), "more tokens than input")
		}
	})
	if ep != nil {
		fmt.Fprintf(&out, "panic %s\n", ep.tag)
	}
	return out.String()
}

// rawSource offers the raw tokens of a decoder as a token source.
type rawSource struct {
	toks    []xml.Token
	i       int
	err     error
	eofWith bool
}

func (s *rawSource) Token() (xml.Token, error) {
	simrt.Point(123)
	if s.i == len(s.toks) {
		return nil, s.err
	}
	t := s.toks[s.i]
	s.i++
	if s.eofWith && s.i == len(s.toks) {
		return t, s.err
	}
	return t, nil
}
