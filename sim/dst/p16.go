package dst

import (
	stdxml "encoding/xml"
	"fmt"
	"io"
	"strings"
	"unicode/utf8"

	"dashsim/simrt"

	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&Scenario{
		ID: "P16", Quick: 300000, Thorough: 12000000, Run: runP16,
		Faults: []string{"write-error", "short-write", "write-panic", "write-error-after-full", "illegal-token", "mismatched-end", "use-after-close", "misbehaving-marshaler", "node-restart"},
		Rule: "Each run issues 3-45 calls on one encoder (own or pooled): start, end, text, comment, directive and processing-instruction tokens with drawn names, namespaces, prefixes, attributes and namespace declarations, whole values, flushes, indentation changes, illegal tokens, mismatched ends, early closes and calls after it. A stack model decides what must be accepted and rejected; the bytes are re-read by an independent strict reader with its own namespace resolution, duplicate-attribute and declaration checks and must give exactly the accepted tokens. Each script runs a second time against a destination that fails at a drawn byte: answers must match until the failure, every writing call after it must report it, and what was delivered must be a prefix. " +
			"Distinct by call sequence; trivial if no token was accepted.",
		Real:   []string{"xml encoder (tokens, values, namespaces, indentation, buffering)"},
		Stub:   []string{"destination (io.Writer)", "sync.Pool", "process restart", "user marshalers"},
		Assume: []string{"names are valid XML names and text consists of valid XML characters", "the standard library's raw tokenizer reads the output correctly"},
	})
}

// event is one token as the model expects it or as it was read back.
type event struct {
	kind  byte // s e t c p d
	space string
	local string
	any   bool // the name has no namespace of its own: whatever the default is
	attrs []NAttr
	decls map[string]string
	text  string
	dflt  string // read back: default namespace in scope
	pre   string // read back: prefix
}

func (e event) String() string {
	switch e.kind {
	case 's':
		return fmt.Sprintf("<{%s}%s %v %v>", e.space, e.local, e.attrs, e.decls)
	case 'e':
		return fmt.Sprintf("</{%s}%s>", e.space, e.local)
	}
	return fmt.Sprintf("%c%q", e.kind, e.text)
}

// readEvents reads a fragment strictly. open says how many elements are open at
// the end.
func readEvents(doc string) (evs []event, open int, err error) {
	d := stdxml.NewDecoder(strings.NewReader(doc))
	type frame struct {
		raw, space, local string
		marks             int
	}
	var stack []frame
	ns := []nsFrame{{"", ""}, {"xml", nsXML}}
	lookup := func(p string) (string, bool) {
		for i := len(ns) - 1; i >= 0; i-- {
			if ns[i].prefix == p {
				return ns[i].uri, ns[i].uri != "" || p == ""
			}
		}
		return "", false
	}
	for n := 0; ; n++ {
		t, err := d.RawToken()
		if err == io.EOF {
			return evs, len(stack), nil
		}
		if err != nil {
			return evs, len(stack), err
		}
		switch t := t.(type) {
		case stdxml.StartElement:
			marks := len(ns)
			e := event{kind: 's', decls: map[string]string{}}
			for _, a := range t.Attr {
				switch {
				case a.Name.Space == "" && a.Name.Local == "xmlns":
					ns = append(ns, nsFrame{"", a.Value})
				case a.Name.Space == "xmlns":
					if a.Value == "" || a.Name.Local == "xmlns" || (a.Name.Local == "xml") != (a.Value == nsXML) {
						return evs, 0, fmt.Errorf("illegal declaration xmlns:%s=%q", a.Name.Local, a.Value)
					}
					ns = append(ns, nsFrame{a.Name.Local, a.Value})
				default:
					continue
				}
				k := a.Name.Local
				if a.Name.Space == "" {
					k = ""
				}
				if _, dup := e.decls[k]; dup {
					return evs, 0, fmt.Errorf("declaration of %q repeated on <%s>", k, t.Name.Local)
				}
				e.decls[k] = a.Value
			}
			uri, ok := lookup(t.Name.Space)
			if !ok {
				return evs, 0, fmt.Errorf("element prefix %q is not declared", t.Name.Space)
			}
			e.space, e.local, e.pre = uri, t.Name.Local, t.Name.Space
			e.dflt, _ = lookup("")
			seen := map[string]bool{}
			for _, a := range t.Attr {
				if a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" {
					continue
				}
				auri := ""
				if a.Name.Space != "" {
					if auri, ok = lookup(a.Name.Space); !ok {
						return evs, 0, fmt.Errorf("attribute prefix %q is not declared", a.Name.Space)
					}
				}
				k := auri + " " + a.Name.Local
				if seen[k] {
					return evs, 0, fmt.Errorf("attribute {%s}%s repeated on <%s>", auri, a.Name.Local, t.Name.Local)
				}
				seen[k] = true
				e.attrs = append(e.attrs, NAttr{Space: auri, Local: a.Name.Local, Val: a.Value})
			}
			evs = append(evs, e)
			stack = append(stack, frame{t.Name.Space + ":" + t.Name.Local, e.space, e.local, marks})
		case stdxml.EndElement:
			if len(stack) == 0 || stack[len(stack)-1].raw != t.Name.Space+":"+t.Name.Local {
				return evs, 0, fmt.Errorf("end tag </%s:%s> does not match", t.Name.Space, t.Name.Local)
			}
			f := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			ns = ns[:f.marks]
			evs = append(evs, event{kind: 'e', space: f.space, local: f.local})
		case stdxml.CharData:
			evs = append(evs, event{kind: 't', text: string(t)})
		case stdxml.Comment:
			if strings.Contains(string(t), "--") || strings.HasSuffix(string(t), "-") {
				return evs, 0, fmt.Errorf("illegal comment %q", t)
			}
			evs = append(evs, event{kind: 'c', text: string(t)})
		case stdxml.ProcInst:
			if strings.EqualFold(t.Target, "xml") && n > 0 {
				return evs, 0, fmt.Errorf("late xml declaration")
			}
			evs = append(evs, event{kind: 'p', local: t.Target, text: string(t.Inst)})
		case stdxml.Directive:
			evs = append(evs, event{kind: 'd', text: string(t)})
		}
	}
}

// mergeText joins adjacent texts; with indentation, white space at the borders
// of texts does not count.
func mergeText(evs []event, indented bool) []event {
	var out []event
	for _, e := range evs {
		if e.kind == 't' && len(out) > 0 && out[len(out)-1].kind == 't' {
			out[len(out)-1].text += e.text
			continue
		}
		out = append(out, e)
	}
	k := 0
	for _, e := range out {
		if e.kind == 't' {
			if indented {
				e.text = strings.Trim(e.text, " \t\n")
			}
			if e.text == "" {
				continue
			}
		}
		out[k] = e
		k++
	}
	return out[:k]
}

// sameEvents compares what was read with what was accepted.
func sameEvents(got, want []event) string {
	for i := range want {
		if i >= len(got) {
			return fmt.Sprintf("token %d, %v, is missing", i, want[i])
		}
		g, w := got[i], want[i]
		if w.kind == 't' {
			w.text = legal(w.text)
		}
		if g.kind != w.kind || g.text != w.text {
			return fmt.Sprintf("token %d is %v, not %v", i, g, w)
		}
		if g.local != w.local && g.kind != 'e' {
			return fmt.Sprintf("token %d is %v, not %v", i, g, w)
		}
		if g.kind != 's' {
			continue
		}
		if w.any {
			if g.pre != "" {
				return fmt.Sprintf("token %d, %v, got a prefix %q", i, w, g.pre)
			}
		} else if g.space != w.space {
			return fmt.Sprintf("token %d is %v, not %v", i, g, w)
		}
		if len(g.attrs) != len(w.attrs) {
			return fmt.Sprintf("token %d is %v, not %v", i, g, w)
		}
		for j := range w.attrs {
			a, b := g.attrs[j], w.attrs[j]
			if a.Space != b.Space || a.Local != b.Local || a.Val != b.Val {
				return fmt.Sprintf("token %d is %v, not %v (attribute %d)", i, g, w, j)
			}
		}
		for p, u := range w.decls {
			if v, ok := g.decls[p]; !ok || v != u {
				return fmt.Sprintf("token %d is %v: the declaration of %q as %q is not there", i, g, p, u)
			}
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("%v was never accepted", got[len(want)])
	}
	return ""
}

var encSpaces = []string{"", "urn:a", "urn:b", "http://x/y/", "http://x/y", "http://h/xmlfoo", "http://q/p", "a<b&\"c", "http://h/\xff\x01"}
var encPrefixes = []string{"", "", "p", "q", "y", "_", "y_1", "__1"}
var encNames = []string{"e", "f", "g-h", "ü", "Z.9"}
var encTexts = []string{"t", "", " ", "a<b", "]]>", "x\ny", "\r", "\t", "&amp;", "日𝄞", "\"'", "-", "\xff", "a\x00b", "\x01\x1f", "\ufffe", "\xed\xa0\x80z", "日\xe6\x97", "\ufffd"}

// legal is what s reads back as: what no document can hold is replaced.
func legal(s string) string {
	var sb strings.Builder
	for i := 0; i < len(s); {
		c, n := utf8.DecodeRuneInString(s[i:])
		i += n
		if c < 32 && c != '\t' && c != '\n' && c != '\r' || c == 0xfffe || c == 0xffff {
			c = utf8.RuneError
		}
		sb.WriteRune(c)
	}
	return sb.String()
}

func joinName(pre, local string) string {
	if pre == "" {
		return local
	}
	return pre + ":" + local
}

// encVal is a value with attributes.
type encVal struct {
	A string `xml:"va,attr"`
	B string `xml:"vb,attr"`
	T int    `xml:",chardata"`
}

func i2s(n int) string { return fmt.Sprint(n) }

// drawStart draws a start token and what it must read back as.
func drawStart(r *Run) (xml.StartElement, event) {
	var t xml.StartElement
	e := event{kind: 's', decls: map[string]string{}}
	sp0 := pick(encSpaces)
	e.space, e.local = legal(sp0), pick(encNames)
	pre := ""
	if e.space != "" {
		pre = pick(encPrefixes)
	}
	e.any = e.space == ""
	t.Name = xml.Name{Space: sp0, Local: joinName(pre, e.local)}
	seen := map[string]bool{}
	for k := ops(4); k > 0; k-- {
		switch ops(5) {
		default:
			sp := pick(append(encSpaces[:len(encSpaces):len(encSpaces)], nsXML))
			l := pick(encNames)
			if sp == nsXML {
				l = "lang"
			}
			if seen[sp+" "+l] {
				continue
			}
			seen[sp+" "+l] = true
			p := ""
			if sp != "" && sp != nsXML {
				p = pick(encPrefixes)
			}
			v := pick(encTexts)
			t.Attr = append(t.Attr, xml.Attr{Name: xml.Name{Space: sp, Local: joinName(p, l)}, Value: v})
			e.attrs = append(e.attrs, NAttr{Space: legal(sp), Local: l, Val: legal(v)})
		case 3: // a prefix declaration
			p := pick(encPrefixes[2:])
			if _, ok := e.decls[p]; ok {
				continue
			}
			u := pick(encSpaces[1:])
			e.decls[p] = legal(u)
			t.Attr = append(t.Attr, xml.Attr{Name: xml.Name{Space: "http://www.w3.org/2000/xmlns/", Local: p}, Value: u})
		case 4: // a default namespace declaration
			if _, ok := e.decls[""]; ok {
				continue
			}
			u := pick(encSpaces)
			e.decls[""] = legal(u)
			t.Attr = append(t.Attr, xml.Attr{Name: xml.Name{Local: "xmlns"}, Value: u})
		}
	}
	if ops(60) == 59 { // many namespaces that would like the same prefix
		for k := 8 + ops(30); k > 0; k-- {
			sp, l := fmt.Sprintf("http://n%d/%s", k, []string{"y", "y", "xmly", "p"}[k%4]), pick(encNames)
			if seen[sp+" "+l] {
				continue
			}
			seen[sp+" "+l] = true
			t.Attr = append(t.Attr, xml.Attr{Name: xml.Name{Space: sp, Local: l}, Value: "v"})
			e.attrs = append(e.attrs, NAttr{Space: sp, Local: l, Val: "v"})
		}
	}
	return t, e
}

// treeEvents is what an encoded tree must read back as.
func treeEvents(t *Tree, out []event) []event {
	e := event{kind: 's', space: t.XMLName.Space, local: t.XMLName.Local}
	for _, a := range t.Attrs {
		e.attrs = append(e.attrs, NAttr{Space: a.Name.Space, Local: a.Name.Local, Val: a.Value})
	}
	out = append(out, e, event{kind: 't', text: t.Text})
	for _, k := range t.Kids {
		out = treeEvents(k, out)
	}
	return append(out, event{kind: 'e'})
}

// encCall is one call of the script.
type encCall struct {
	name   string
	do     func(e *xml.Encoder) error
	must   int // 1 must be accepted, -1 must be rejected, 0 either
	expect []event
	start  xml.Name // of the element opened
	pop    bool
	flush  bool // what was accepted has arrived afterwards
	close  bool
	writes bool // sends bytes when accepted
	final  bool // after an error the encoder is not used any more
}

type encModel struct {
	stack   []xml.Name
	started bool
	closed  bool
	indent  bool
}

// next draws the next call, given what was accepted so far.
func (m *encModel) next(r *Run) encCall {
	tok := func(name string, t xml.Token, must int, evs ...event) encCall {
		return encCall{name: name, do: func(e *xml.Encoder) error { return e.EncodeToken(t) }, must: must, expect: evs, writes: true}
	}
	depth := len(m.stack)
	if m.closed {
		r.fault("use-after-close")
	}
	k := ops(32)
	switch {
	case k < 8:
		t, e := drawStart(r)
		c := tok(fmt.Sprintf("start %v %v", t.Name, t.Attr), t, 1, e)
		c.start = t.Name
		return c
	case k < 15 && depth > 0:
		n := m.stack[depth-1]
		must := 1
		if ops(5) == 4 {
			if i := strings.Index(n.Local, ":"); i >= 0 { // the prefix need not be given
				n.Local = n.Local[i+1:]
			}
		}
		c := tok(fmt.Sprintf("end %v", n), xml.EndElement{Name: n}, must, event{kind: 'e'})
		c.pop = true
		return c
	case k < 19:
		s := pick(encTexts)
		c := tok(fmt.Sprintf("text %q", s), xml.CharData(s), 1, event{kind: 't', text: legal(s)})
		c.writes = s != ""
		return c
	case k == 19:
		s := pick([]string{"", " c ", "a<b>&", "- x", "日"})
		return tok(fmt.Sprintf("comment %q", s), xml.Comment(s), 1, event{kind: 'c', text: s})
	case k == 20:
		s := pick([]string{"DOCTYPE e", "DOCTYPE e SYSTEM 'a>b'", "DOCTYPE e [<!ENTITY a \"b\">]", "X <a <b> c> d"})
		return tok(fmt.Sprintf("directive %q", s), xml.Directive(s), 1, event{kind: 'd', text: s})
	case k == 21:
		s := pick([]string{"", "a='b'", "x<y>?", "日"})
		n := pick([]string{"pi", "x-y"})
		return tok(fmt.Sprintf("PI %s %q", n, s), xml.ProcInst{Target: n, Inst: []byte(s)}, 1, event{kind: 'p', local: n, text: s})
	case k == 22:
		s := `version="1.0" encoding="UTF-8"`
		must := 1
		if m.started {
			must = -1
			r.fault("illegal-token")
		}
		return tok("xml declaration", xml.ProcInst{Target: "xml", Inst: []byte(s)}, must, event{kind: 'p', local: "xml", text: s})
	case k == 23: // a whole tree
		g := newGen()
		g.budget = 8
		t := g.genTree(1, true, "urn:a")
		return encCall{name: "Encode tree", do: func(e *xml.Encoder) error { return e.Encode(t) }, must: 1, expect: treeEvents(t, nil), flush: true, writes: true, final: true}
	case k == 24:
		t, s := drawStart(r)
		n := ops(4)
		var evs []event
		vals := []int{}
		if ops(3) == 2 { // with attributes of its own
			v := encVal{A: pick(encTexts), B: i2s(n), T: n}
			s.attrs = append(s.attrs[:len(s.attrs):len(s.attrs)], NAttr{Local: "va", Val: legal(v.A)}, NAttr{Local: "vb", Val: v.B})
			return encCall{name: fmt.Sprintf("EncodeElement of %v as %v", v, t), do: func(e *xml.Encoder) error { return e.EncodeElement(v, t) }, must: 1, expect: []event{s, {kind: 't', text: i2s(n)}, {kind: 'e'}}, flush: true, writes: true, final: true}
		}
		for i := 0; i < n; i++ {
			vals = append(vals, i*7)
			evs = append(evs, s, event{kind: 't', text: fmt.Sprint(i * 7)}, event{kind: 'e'})
		}
		c := encCall{name: fmt.Sprintf("EncodeElement of %v as %v", vals, t), do: func(e *xml.Encoder) error { return e.EncodeElement(vals, t) }, must: 1, expect: evs, flush: true, writes: n > 0, final: true}
		return c
	case k == 25: // a value with a marshaler
		t, s := drawStart(r)
		s.attrs = append(s.attrs[:len(s.attrs):len(s.attrs)], NAttr{Space: "urn:cb", Local: "n", Val: "5"})
		cb := &CB{Mode: cbGood, N: 5}
		evs := []event{s, {kind: 't', text: "x<5"}, {kind: 's', space: "urn:cb", local: "in"}, {kind: 't', text: "5"}, {kind: 'e'}, {kind: 'e'}}
		if ops(3) == 2 {
			r.fault("misbehaving-marshaler")
			cb.Mode = cbSwallow
			s.attrs = s.attrs[:len(s.attrs)-1]
			evs = []event{s, {kind: 't', text: "5"}, {kind: 'e'}}
			if !m.started { // its xml declaration is then a legal one
				evs = append([]event{{kind: 'p', local: "xml", text: `version="1.0"`}}, evs...)
			}
		} else if ops(3) == 2 {
			r.fault("misbehaving-marshaler")
			cb.Mode = []cbMode{cbError, cbUnclosed, cbOverclose, cbIllegal, cbLate}[ops(5)]
			return encCall{name: "EncodeElement of marshaler " + cbNames[cb.Mode], do: func(e *xml.Encoder) error { return e.EncodeElement(cb, t) }, must: -1, writes: false, final: true}
		}
		return encCall{name: "EncodeElement of marshaler " + cbNames[cb.Mode] + fmt.Sprint(t), do: func(e *xml.Encoder) error { return e.EncodeElement(cb, t) }, must: 1, expect: evs, flush: true, writes: true, final: true}
	case k == 26:
		return encCall{name: "Flush", do: func(e *xml.Encoder) error { return e.Flush() }, must: 1, flush: true}
	case k == 27:
		in := pick([]string{"", " ", "\t", "    "})
		pre := pick([]string{"", "", " "})
		if in != "" || pre != "" {
			m.indent = true
		}
		return encCall{name: fmt.Sprintf("Indent %q %q", pre, in), do: func(e *xml.Encoder) error { e.Indent(pre, in); return nil }, must: 1}
	case k == 28 && ops(4) == 3:
		must := 1
		if depth > 0 && !m.closed {
			must = -1
		}
		return encCall{name: "Close", do: func(e *xml.Encoder) error { return e.Close() }, must: must, flush: true, close: true}
	case k == 29 && depth > 0: // the wrong end
		r.fault("mismatched-end")
		n := m.stack[depth-1]
		switch ops(7) {
		case 0:
			n.Local = "other"
		case 1:
			n.Space += "x"
		case 2:
			if depth < 2 || m.stack[depth-2] == n || strings.HasSuffix(":"+n.Local, ":"+afterColon(m.stack[depth-2].Local)) && n.Space == m.stack[depth-2].Space {
				n.Local = "outer"
			} else {
				n = m.stack[depth-2]
				n.Local = afterColon(n.Local)
			}
		case 3:
			n.Local = ""
		case 4:
			n.Local += "x"
		case 5:
			n.Local += ":zz"
		case 6:
			if i := strings.Index(n.Local, ":"); i > 0 {
				n.Local = "zz" + n.Local[i:]
			} else {
				n.Local = "zz:zz"
			}
		}
		return tok(fmt.Sprintf("wrong end %v", n), xml.EndElement{Name: n}, -1)
	case k == 30 && ops(12) == 11: // cannot be encoded at all
		v := []any{make(chan int), func() {}, map[string]int{"a": 1}, &Bad{S: "s"}}[ops(4)]
		c := encCall{name: fmt.Sprintf("Encode %T", v), do: func(e *xml.Encoder) error { return e.EncodeElement(v, xml.StartElement{Name: xml.Name{Local: "bad"}}) }, must: -1, final: true}
		if b, ok := v.(*Bad); ok && b.C == nil {
			b.C = make(chan int)
		}
		return c
	}
	r.fault("illegal-token")
	var t xml.Token
	switch ops(14) {
	case 0:
		t = xml.Comment(pick([]string{"a--b", "--", "--x", "x--", "\n--\n"}))
	case 1:
		t = xml.Comment(pick([]string{"a-->b", "-->", "-->b", "a-->"}))
	case 2:
		t = xml.Comment(pick([]string{"a-", "-", "日-"}))
	case 3:
		t = xml.ProcInst{Target: "x", Inst: []byte(pick([]string{"a?>b", "a?>", "?>", "?>b", "??>", "?>?>"}))}
	case 4:
		t = xml.ProcInst{Target: "", Inst: []byte("a")}
	case 5:
		t = xml.ProcInst{Target: pick([]string{"1 x", "1", "-", "a b", "a?>b", "a\x00", "a<", "?>", "a\xff", " "}), Inst: []byte("a")}
	case 6:
		t = xml.Directive(pick([]string{"DOCTYPE a [<!ENTITY", "DOCTYPE a [<!-- x", "DOCTYPE a [<!-- x --", "A <!-- x ->", "A <!-- > -- >", "<", "A <<>"}))
	case 7:
		t = xml.Directive(pick([]string{"DOCTYPE a > b", ">", "A <>>", "A '>' >", "A <!-- > --> >", "A <!-->>"}))
	case 8:
		t = xml.Directive(pick([]string{"DOCTYPE 'a", "DOCTYPE \"a", "A \"'", "A '>", "A [<!E '>]", "A [<!E \">'>]", "A '\"' \""}))
	case 9:
		t = xml.StartElement{}
	case 10:
		t = xml.StartElement{Name: xml.Name{Space: "urn:a"}, Attr: []xml.Attr{{Name: xml.Name{Local: "k"}, Value: "v"}}}
	case 11:
		t = nil
	case 12:
		t = &xml.StartElement{Name: xml.Name{Local: "ptr"}}
	case 13:
		if len(m.stack) == 0 {
			t = xml.EndElement{Name: xml.Name{Local: "never"}}
		} else {
			t = "a string"
		}
	}
	return tok(fmt.Sprintf("illegal %T %v", t, t), t, -1)
}

func afterColon(s string) string {
	if i := strings.Index(s, ":"); i >= 0 {
		return s[i+1:]
	}
	return s
}

func runP16(r *Run) {
	r.Trivial = true
	simrt.SetPoolMode(uint32(ops(3)))
	for docs := 1 + ops(2); docs > 0; docs-- {
		oneEncoder(r)
		if fltP(1, 10) {
			r.fault("node-restart")
			simrt.Restart()
		}
	}
	r.SimNanos += 1_000_000
}

func oneEncoder(r *Run) {
	pooled := ops(3) == 2
	open := func(w io.Writer) *xml.Encoder {
		if pooled {
			return xml.AcquireEncoder(w)
		}
		return xml.NewEncoder(w)
	}
	wa := &simWriter{r: r}
	ea := open(wa)
	wb := &simWriter{r: r, polite: true}
	var eb *xml.Encoder
	if flt(3) == 2 {
		wb.mode = wMode(1 + flt(int(wModes)-1))
		wb.at = []int{flt(60), flt(400), 4000 + flt(300)}[flt(3)]
		eb = open(wb)
	}
	m := &encModel{}
	var want []event
	var history []string
	fail := func(key, f string, a ...any) {
		r.fail("encoder", key, "%s\nafter %s\nbytes %q", fmt.Sprintf(f, a...), strings.Join(history, "; "), clip(string(wa.buf)))
	}
	verify := func() {
		evs, open, err := readEvents(string(wa.buf))
		if err != nil {
			fail("malformed", "the bytes of the accepted calls are not well-formed: %v", err)
		}
		if open != len(m.stack) {
			fail("nesting", "%d elements are open in the bytes, not %d", open, len(m.stack))
		}
		if d := sameEvents(mergeText(evs, m.indent), mergeText(append([]event(nil), want...), m.indent)); d != "" {
			fail("content", "the bytes do not read as the accepted tokens: %s", d)
		}
	}
	big := ops(12) == 11
	usable := true
	for k := 3 + ops(43); k > 0 && usable; k-- {
		c := m.next(r)
		if big && c.writes && !m.closed && c.expect != nil && c.expect[0].kind == 't' { // beyond the buffer
			s := strings.Repeat("0123456789", 300+ops(300))
			if ops(3) > 0 {
				s = longText()
			}
			c = encCall{name: "long text", do: func(e *xml.Encoder) error { return e.EncodeToken(xml.CharData(s)) }, must: 1, expect: []event{{kind: 't', text: s}}, writes: true}
			big = ops(4) > 0
		}
		var err error
		before := len(wa.buf)
		ep := r.call("encoder", func() { err = c.do(ea) })
		if ep != nil {
			return
		}
		history = append(history, fmt.Sprintf("%s = %v", c.name, err))
		r.ev(strings.SplitN(c.name, " ", 2)[0], "%s = %v", c.name, err)
		r.record(errStr(err))
		switch {
		case m.closed && c.writes && err == nil && c.must >= 0 && len(c.expect) > 0:
			fail("closed", "%s was accepted after Close", c.name)
		case m.closed:
			if len(wa.buf) != before {
				fail("closed", "%s sent bytes after Close", c.name)
			}
		case c.must < 0 && err == nil:
			fail("accepted", "%s was accepted", c.name)
		case c.must > 0 && err != nil:
			fail("rejected", "%s was rejected: %v", c.name, err)
		}
		if c.final && err != nil && !m.closed {
			usable = false // part of the value may have been written
		}
		if err == nil && !m.closed && usable {
			if c.writes {
				m.started = true
				r.Trivial = false
			}
			want = append(want, c.expect...)
			if len(c.expect) == 1 && c.expect[0].kind == 's' {
				m.stack = append(m.stack, c.start)
			}
			if c.pop {
				m.stack = m.stack[:len(m.stack)-1]
			}
		}
		if c.close {
			m.closed = true
			if k > 6 {
				k = 6
			}
		}
		if c.flush && err == nil && ops(2) == 0 && usable {
			verify()
		}
		if eb == nil {
			continue
		}
		fired := wb.fired
		var errB error
		ep = r.call("encoder", func() { errB = c.do(eb) })
		switch {
		case ep != nil:
			r.fault(wModeNames[wb.mode])
			eb = nil // nothing is promised after a panic
		case !wb.fired && errStr(err) != errStr(errB):
			fail("twin", "%s gave %v, and %v with another destination", c.name, err, errB)
		case wb.fired && !fired:
			r.fault(wModeNames[wb.mode])
			if errB == nil {
				fail("unreported", "%s: the destination failed but the call reported nothing", c.name)
			}
		case fired && errB == nil && (c.writes && err == nil || c.flush && !c.close && err == nil && c.name == "Flush" || c.close && err == nil && !contains(history[:len(history)-1], "Close = ")):
			fail("unreported", "%s: the destination had failed but the call reported nothing", c.name)
		}
		if wb.after > 0 {
			fail("after-failure", "%s wrote to a destination that had failed", c.name)
		}
	}
	if usable && !m.closed {
		var err error
		closing := ops(2) == 1
		r.call("encoder", func() {
			if closing {
				err = ea.Close()
			} else {
				err = ea.Flush()
			}
		})
		if (err != nil) != (closing && len(m.stack) > 0) {
			fail("close", "with %d open elements, closing=%v gave %v", len(m.stack), closing, err)
		}
		verify()
	} else if m.closed && usable {
		verify()
	}
	if !strings.HasPrefix(string(wa.buf), string(wb.buf)) && usable {
		fail("delivered", "what the failing destination got is not a prefix: %s", diffAt(string(wa.buf), string(wb.buf)))
	}
	if pooled {
		r.call("ReleaseEncoder", func() {
			xml.ReleaseEncoder(ea)
			if eb != nil {
				xml.ReleaseEncoder(eb)
			}
		})
	}
}

func contains(ss []string, pre string) bool {
	for _, s := range ss {
		if strings.HasPrefix(s, pre) {
			return true
		}
	}
	return false
}
