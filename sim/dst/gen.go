package dst

import (
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

// Node is the expected information content of one XML element.
type Node struct {
	Space, Local string
	Pre          string // preferred prefix of the table ("" = default namespace)
	Attrs        []NAttr
	Kids         []*Node
	Text         string
	HasText      bool // character data is content here
	IsInner      bool
	Inner        string // verbatim content
	typ          string
}

type NAttr struct {
	Space, Local string
	Pre          string
	Val          string
	Kind         string
}

// docGen generates a value of the API together with its expected content.
type docGen struct {
	budget  int
	density int // out of 8: chance that an optional field is set
	wild    bool
	route   []string
	scteNS  []string
	simple  bool // no SCTE-35, no Ext
	feats   map[string]bool
	noEvent bool
	modest  bool // a long list is not very long
	big     int  // 1: one long text, 2: one long list, 3: many foreign attributes
}

func newGen() *docGen {
	g := &docGen{feats: map[string]bool{}}
	g.budget = 6 + ops(40)
	g.density = 1 + ops(4)
	g.wild = ops(3) == 1
	g.scteNS = []string{mpd.SCTE35Namespace, mpd.SCTE35Namespace2016}
	if ops(160) == 159 {
		g.big = 1 + ops(3)
	}
	return g
}

// bigLen draws a length at or near a power of two.
func bigLen(lo, hi int) int {
	n := 1<<(lo+ops(hi-lo+1)) + ops(5) - 2
	if ops(4) == 3 {
		n += ops(n)
	}
	return n
}

// longText draws a long text in which characters of several bytes are everywhere.
func longText() string {
	n := bigLen(8, 16)
	unit := pick([]string{"é", "日", "𝄞", "aé", "<", "x&", "ab\"", "z", "\n日"})
	return strings.Repeat("a", ops(4)) + strings.Repeat(unit, n/len(unit)+1) + strings.Repeat("b", ops(4))
}

// bigLists are the types of which a manifest may hold many.
var bigLists = []string{"S", "S", "S", "Period", "AdaptationSetType", "RepresentationType", "EventType", "SegmentURLType"}

// genMPD builds a whole MPD. Half of the runs head for a drawn element type.
func (g *docGen) genMPD() (*mpd.MPD, *Node) {
	if g.big == 2 {
		g.route = route(pick(bigLists), 2)
	} else if ops(8) >= 2 {
		g.route = route(pick(schemaNames), 1)
	}
	ns := nsDASH
	if ops(8) == 7 { // the namespace is the document's own
		ns = pick(rootSpaces)
	}
	m := &mpd.MPD{XMLNs: ns}
	n := &Node{Space: ns, Local: "MPD", typ: "MPD"}
	g.fill(reflect.ValueOf(m).Elem(), "MPD", n, g.route, 0, ns)
	return m, n
}

// rootSpaces are namespaces an MPD element may be in.
var rootSpaces = []string{"", "urn:mpeg:DASH:schema:MPD:2011", "http://e.x/dash/", "urn:mpeg:dash:schema:mpd:2011/", "urn:x&y"}

// genValue builds a value of a named element type for element local name.
func (g *docGen) genType(typ, local, space string) (reflect.Value, *Node) {
	v := reflect.New(goTypes[typ])
	n := &Node{Space: space, Local: local, typ: typ}
	g.fill(v.Elem(), typ, n, nil, 0, space)
	return v, n
}

func (g *docGen) fill(v reflect.Value, typ string, n *Node, route []string, depth int, dflt string) {
	st := schema[typ]
	g.budget--
	var next string
	if len(route) > 1 {
		next = route[1]
	}
	onGoal := len(route) == 1
	dens := g.density
	if onGoal {
		dens = 5
	}
	if st.pass {
		if xn := v.FieldByName("XMLName"); xn.IsValid() {
			xn.Set(reflect.ValueOf(xml.Name{Space: n.Space, Local: n.Local}))
		}
	}
	without := "" // an embedded pointer left nil
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.Anonymous && f.Type.Kind() == reflect.Pointer && v.Field(i).IsNil() {
			if f.Type.Elem().Kind() == reflect.Struct && next == "" && ops(5) == 4 {
				without = f.Name
				continue
			}
			v.Field(i).Set(reflect.New(f.Type.Elem()))
		}
	}
	var nextFields []*sField
	for _, f := range st.fields {
		if next != "" && f.typ == next && f.kind == fElem {
			nextFields = append(nextFields, f)
		}
	}
	var follow *sField
	if len(nextFields) > 0 {
		follow = pick(nextFields)
	}
	textDrawn := ""
	for _, f := range st.fields {
		if typ == "MPD" && f.name == "xmlns" || without != "" && f.path[0] == without {
			continue
		}
		fv, ok := fieldAt(v, f.path, true)
		if !ok {
			continue
		}
		switch f.kind {
		case fAttr:
			g.attr(fv, f, n, ops(8) >= 8-dens)
		case fText:
			if ops(8) >= 3 {
				s := g.str(true)
				if f.vk == "str" && !g.wild {
					s = g.word()
				}
				textDrawn = s
				setString(fv, s)
				n.Text = s
			}
			n.HasText = true
		case fAnyAttr:
			if ops(8) >= 6 {
				k := 1 + ops(2)
				if g.big == 3 {
					g.big = 0
					k = bigLen(3, 8)
					g.feats["big-attrs"] = true
				}
				for i := 0; i < k; i++ {
					a := xml.Attr{Name: xml.Name{Local: "x-" + g.ident() + strconv.Itoa(i)}, Value: g.str(false)}
					if ops(2) == 1 {
						a.Name.Space = "urn:ext:" + strconv.Itoa(ops(3))
					}
					fv.Set(reflect.Append(fv, reflect.ValueOf(a)))
					n.Attrs = append(n.Attrs, NAttr{a.Name.Space, a.Name.Local, "", a.Value, "string"})
				}
				g.feats["anyattr"] = true
			}
		case fInner:
			s := g.inner()
			setString(fv, s)
			n.Inner = s
			n.IsInner = true
			g.feats["inner"] = true
		case fElem:
			g.elem(fv, f, n, f == follow, route, dens, depth, dflt)
		}
	}
	if st.hasText && st.hasElems && len(n.Kids) > 0 {
		// white space around child elements is not content
		t := strings.Trim(textDrawn, " \t\r\n")
		n.Text = t
		for _, f := range st.fields {
			if f.kind == fText {
				if fv, ok := fieldAt(v, f.path, true); ok {
					setString(fv, t)
				}
			}
		}
	}
}

func (g *docGen) elem(fv reflect.Value, f *sField, n *Node, must bool, route []string, dens, depth int, dflt string) {
	space := f.ns
	if space == "" {
		space = dflt
	}
	if f.typ == "" { // string child element
		if must || ops(8) >= 8-dens {
			s := g.str(true)
			if s == "" && f.omit {
				return
			}
			setString(fv, s)
			n.Kids = append(n.Kids, &Node{Space: space, Local: f.name, Pre: f.pre, Text: s, HasText: true})
		}
		return
	}
	cnt := 0
	switch {
	case must:
		cnt = 1
	case g.budget <= 0 || depth > 8:
	case f.typ == "Period" || f.typ == "AdaptationSetType" && f.name == "AdaptationSet" || f.typ == "RepresentationType":
		if ops(8) >= 2 {
			cnt = 1
		}
	case ops(40) >= 40-dens*2:
		cnt = 1
	}
	if g.simple && (f.typ == "SignalType" || f.typ == "SpliceInfoSectionType" || f.typ == "ExtType") && !must {
		cnt = 0
	}
	if g.noEvent && f.typ == "EventType" {
		cnt = 0
	}
	if cnt == 1 && f.slice && ops(4) == 3 {
		cnt += 1 + ops(2)
	}
	if g.big == 2 && must && f.slice && len(route) == 2 { // the goal
		g.big = 0
		switch {
		case g.modest:
			cnt = bigLen(4, 6)
		case f.typ == "S" || f.typ == "SegmentURLType":
			cnt = bigLen(5, 11)
		default:
			cnt = bigLen(5, 9)
		}
		g.budget = min(g.budget, 8)
		g.feats["big-list"] = true
	}
	for i := 0; i < cnt; i++ {
		child := &Node{Space: space, Local: f.name, Pre: f.pre, typ: f.typ}
		cd := dflt
		if schema[f.typ] != nil && schema[f.typ].pass {
			if n.typ == "EventType" || schema[n.typ] == nil || !schema[n.typ].pass {
				child.Space = pick(g.scteNS)
			} else {
				child.Space = n.Space
				if ops(12) == 11 { // a mix of both URIs inside one message
					child.Space = pick(g.scteNS)
				}
			}
			cd = child.Space
			g.feats["scte35"] = true
		} else if f.ns != "" {
			cd = dflt
		}
		if goTypes[f.typ] == nil {
			return
		}
		nv := reflect.New(goTypes[f.typ])
		var rt []string
		if must && i == 0 {
			rt = route[1:]
		}
		g.fill(nv.Elem(), f.typ, child, rt, depth+1, cd)
		switch {
		case f.slice:
			if fv.Type().Elem().Kind() == reflect.Pointer {
				fv.Set(reflect.Append(fv, nv))
			} else {
				fv.Set(reflect.Append(fv, nv.Elem()))
			}
		case fv.Kind() == reflect.Pointer:
			fv.Set(nv)
		default:
			fv.Set(nv.Elem())
		}
		n.Kids = append(n.Kids, child)
	}
	if cnt == 0 && !f.slice && !f.ptr { // a struct value is always written
		child := &Node{Space: space, Local: f.name, Pre: f.pre, typ: f.typ}
		nv := reflect.New(goTypes[f.typ])
		sub := *g
		sub.budget, sub.density = 0, 0
		sub.fill(nv.Elem(), f.typ, child, nil, depth+1, dflt)
		fv.Set(nv.Elem())
		n.Kids = append(n.Kids, child)
	}
}

func setString(fv reflect.Value, s string) {
	if fv.Kind() == reflect.Pointer {
		p := reflect.New(fv.Type().Elem())
		p.Elem().SetString(s)
		fv.Set(p)
		return
	}
	fv.SetString(s)
}

// attr sets one attribute field (or leaves it unset) and notes what must appear.
func (g *docGen) attr(fv reflect.Value, f *sField, n *Node, set bool) {
	add := func(val string) {
		n.Attrs = append(n.Attrs, NAttr{f.ns, f.name, f.pre, val, f.vk})
	}
	if f.listAt {
		if set {
			k := 1 + ops(3)
			var ws []string
			for i := 0; i < k; i++ {
				w := g.word()
				ws = append(ws, w)
			}
			t := fv.Type()
			if t.Kind() == reflect.Pointer {
				p := reflect.New(t.Elem())
				for _, w := range ws {
					p.Elem().Set(reflect.Append(p.Elem(), reflect.ValueOf(w).Convert(t.Elem().Elem())))
				}
				fv.Set(p)
			} else {
				for _, w := range ws {
					fv.Set(reflect.Append(fv, reflect.ValueOf(w).Convert(t.Elem())))
				}
			}
			n.Attrs = append(n.Attrs, NAttr{f.ns, f.name, f.pre, strings.Join(ws, " "), "list"})
		}
		return
	}
	isPtr := fv.Kind() == reflect.Pointer
	if !set && (isPtr || f.omit) {
		return
	}
	t := fv.Type()
	if isPtr {
		t = t.Elem()
	}
	x := reflect.New(t).Elem()
	var txt string
	if set {
		txt = g.scalar(x, f.vk)
	} else {
		txt = zeroText(f.vk)
	}
	if f.omit && !isPtr && x.IsZero() {
		return
	}
	if isPtr {
		p := reflect.New(t)
		p.Elem().Set(x)
		fv.Set(p)
	} else {
		fv.Set(x)
	}
	add(txt)
}

func zeroText(vk string) string {
	switch vk {
	case "string", "str", "dt":
		return ""
	case "bool":
		return "false"
	case "dur":
		return "PT0S"
	}
	return "0"
}

func (g *docGen) uintN(bits int) uint64 {
	max := uint64(math.MaxUint64)
	if bits < 64 {
		max = 1<<bits - 1
	}
	switch ops(6) {
	case 0:
		return 1 + uint64(ops(9))
	case 1:
		return 0
	case 2:
		return max
	case 3:
		return max - uint64(ops(3))
	case 4:
		return (uint64(ops(1<<30))<<32 | uint64(ops(1<<30))) & max
	}
	return uint64(ops(100000)) & max
}

func (g *docGen) scalar(x reflect.Value, vk string) string {
	switch vk {
	case "string", "str":
		s := g.word()
		if ops(3) == 1 {
			s = g.str(false)
		}
		x.SetString(s)
		return s
	case "bool":
		b := ops(4) < 3
		x.SetBool(b)
		return strconv.FormatBool(b)
	case "uint8":
		u := g.uintN(8)
		x.SetUint(u)
		return strconv.FormatUint(u, 10)
	case "uint16":
		u := g.uintN(16)
		x.SetUint(u)
		return strconv.FormatUint(u, 10)
	case "uint32":
		u := g.uintN(32)
		x.SetUint(u)
		return strconv.FormatUint(u, 10)
	case "uint64", "uint":
		u := g.uintN(64)
		x.SetUint(u)
		return strconv.FormatUint(u, 10)
	case "int", "int64":
		i := int64(g.uintN(64))
		x.SetInt(i)
		return strconv.FormatInt(i, 10)
	case "int32":
		i := int64(int32(g.uintN(32)))
		x.SetInt(i)
		return strconv.FormatInt(i, 10)
	case "float64", "float32":
		f := g.anyFloat()
		if vk == "float32" {
			f = float64(float32(f))
		}
		x.SetFloat(f)
		return floatText(f)
	case "inf":
		f := g.anyFloat()
		if ops(4) == 3 {
			f = math.Inf(1)
		}
		x.SetFloat(f)
		return floatText(f)
	case "dur":
		d := genDuration()
		x.SetInt(int64(d))
		return durText(roundDur(d))
	case "dt":
		s := g.dateTime()
		x.SetString(s)
		return s
	}
	harness("scalar kind %q", vk)
	return ""
}

// floatText spells a number as xs:double does.
func floatText(f float64) string {
	switch {
	case math.IsInf(f, 1):
		return "INF"
	case math.IsInf(f, -1):
		return "-INF"
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

// anyFloat also draws the ends of the range and what is beyond them.
func (g *docGen) anyFloat() float64 {
	if ops(5) < 4 {
		return g.float()
	}
	return []float64{math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32,
		math.SmallestNonzeroFloat32, 1e300, -1e-300, 1e21, 999999999999999999999, 16777217, 9007199254740993, 0.1, 1.0 / 3, 29.97002997002997}[ops(16)]
}

func (g *docGen) float() float64 {
	switch ops(6) {
	case 0:
		return float64(1 + ops(20))
	case 1:
		return 0
	case 2:
		return float64(ops(100000)) / 1000
	case 3:
		return float64(ops(1<<30)) * 1e-12
	case 4:
		return float64(ops(1<<30)) * 1e15
	}
	return -float64(ops(1000)) / 7
}

func (g *docGen) dateTime() string {
	t := time.Unix(int64(ops(2_000_000_000)), int64(ops(1000))*1_000_000).UTC()
	if ops(2) == 1 {
		return t.Format("2006-01-02T15:04:05Z")
	}
	return t.Format("2006-01-02T15:04:05.999Z07:00")
}

// genDuration draws a non-negative duration across all magnitudes and edges.
func genDuration() time.Duration {
	switch ops(9) {
	case 0:
		return time.Duration(1+ops(10)) * time.Second
	case 1:
		return 0
	case 2:
		return time.Duration(ops(7_200_000)) * time.Millisecond
	case 3:
		return time.Duration(ops(2_000_000_000))
	case 4:
		return time.Duration(ops(1000000)) // below one millisecond
	case 5: // around carries
		unit := []time.Duration{time.Millisecond, time.Second, time.Minute, time.Hour, 24 * time.Hour}[ops(5)]
		d := unit*time.Duration(1+ops(100)) + time.Duration(ops(2_000_003)-1_000_001)
		if d < 0 {
			d = 0
		}
		return d
	case 6:
		return time.Duration(math.MaxInt64 - int64(ops(2_000_000_000)))
	case 7:
		return time.Duration(ops(1<<31)) * time.Duration(1+ops(1<<31))
	}
	return time.Duration(ops(1<<20)) * time.Hour
}

// roundDur is the value the written text of d denotes: milliseconds from one
// millisecond up, full precision below.
func roundDur(d time.Duration) time.Duration {
	if d < time.Millisecond {
		return d
	}
	ms := uint64(time.Millisecond)
	r := (uint64(d) + ms/2) / ms * ms
	if r > math.MaxInt64 {
		r -= ms
	}
	return time.Duration(r)
}

// durText spells a duration independently of the code under test.
func durText(d time.Duration) string {
	n := uint64(d)
	s := n / 1_000_000_000
	f := n % 1_000_000_000
	t := "PT" + strconv.FormatUint(s, 10)
	if f > 0 {
		fs := strconv.FormatUint(1_000_000_000+f, 10)[1:]
		t += "." + strings.TrimRight(fs, "0")
	}
	return t + "S"
}

var words = []string{"a", "1", "video", "audio/mp4", "urn:x:y", "http://e.x/a?b=1&c=2", "$Time$", "avc1.64001f", "QmFzZTY0==", "und", "0-99", "b", "ü", "seg_$Number%05d$.m4s"}

func (g *docGen) word() string { return pick(words) }

func (g *docGen) ident() string { return []string{"k", "id", "name", "Z9"}[ops(4)] }

var wildRunes = []string{"<", ">", "&", "\"", "'", "\t", "\n", " ", "]]>", "é", "日", "𝄞", "\r", "&amp;", "<!--", "{", "\u0085", "\u2028", "�"[0:0], ";", "#"}

// str draws a string of valid XML characters.
func (g *docGen) str(text bool) string {
	if g.big == 1 && ops(4) == 3 {
		g.big = 0
		g.feats["big-text"] = true
		return longText()
	}
	if !g.wild && ops(3) != 2 {
		return g.word()
	}
	if ops(6) == 5 {
		g.feats["empty"] = true
		return ""
	}
	k := 1 + ops(6)
	var sb strings.Builder
	for i := 0; i < k; i++ {
		switch ops(3) {
		case 0:
			sb.WriteString(g.word())
		case 1:
			sb.WriteString(pick(wildRunes))
			g.feats["markup-char"] = true
		case 2:
			if ops(40) == 39 {
				sb.WriteString(strings.Repeat("x", 1+ops(5000)))
			} else {
				sb.WriteString("z")
			}
		}
	}
	return sb.String()
}

// inner draws self-contained extension content.
func (g *docGen) inner() string {
	k := ops(4)
	var sb strings.Builder
	for i := 0; i < k; i++ {
		sb.WriteString(pick([]string{
			`<x:foo xmlns:x="urn:x">bar</x:foo>`,
			`<foo xmlns="urn:ext:1"><b/></foo>`,
			"text",
			`<e:a xmlns:e="urn:e" e:k="v&lt;&quot;"><e:b>1 &gt; 0</e:b></e:a>`,
			"<!-- c -->",
			"\n  ",
			`<![CDATA[a<b]]>`,
			`<q xmlns=""/>`,
			`&#x41;`,
			`<?pi x?>`,
			`<z xmlns:y='urn:y' y:a='"'></z >`,
		}))
	}
	return sb.String()
}

func durOf(v reflect.Value) time.Duration { return time.Duration(v.Int()) }
