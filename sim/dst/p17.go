package dst

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"dashsim/simrt"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&Scenario{
		ID: "P17", Quick: 250000, Thorough: 5000000, Run: runP17,
		Faults: []string{"callback-error", "callback-panic", "reads-too-little", "reads-too-much", "raw-token", "swallowed-error", "unclosed-element", "closes-too-much", "illegal-token", "closes-encoder", "text-callback-error", "text-callback-panic", "scribbled-argument", "token-source", "self-closing-element", "node-restart", "pool-purge",
			"byte-at-a-time", "split-read", "empty-read", "eof-with-data", "byte-reader", "scribbled-buffer"},
		Rule: "Each run decodes or encodes 1-3 documents whose elements include user types with scripted UnmarshalXML, UnmarshalText, UnmarshalXMLAttr, MarshalXML, MarshalText and MarshalXMLAttr at several depths. Scripts are programs of up to 8 steps: read tokens, skip, decode nested values (with further callbacks), raw tokens, read until refused, write tokens, nested values, illegal or foreign end tokens, flush, close, swallow or return errors, return early, panic. A model interprets the programs over the token sequence of each callback's own element and predicts every answer a callback may see, the siblings' values or the written tokens, and the outcome of the enclosing call; afterwards well-behaved documents through the same process must be unaffected. " +
			"Distinct by event sequence and programs; trivial if no callback ran.",
		Real:   []string{"xml decoder and encoder (callbacks, nesting, token stacks)", "mpd.WriteXML"},
		Stub:   []string{"user callbacks", "readers and destinations", "sync.Pool", "process restart"},
		Assume: []string{"after an error or panic has come out of the outermost call its decoder or encoder is not used again"},
	})
}

// ---- decoding ----

// PCB is an element with a scripted UnmarshalXML; the document holds the script.
type PCB struct{ Log string }

// PHolder surrounds scripted elements with ordinary siblings.
type PHolder struct {
	XMLName xml.Name
	A       *PAttr   `xml:"a,attr"`
	B       string   `xml:"b,attr"`
	Any     []PAny   `xml:",any,attr"`
	Before  string   `xml:"before"`
	Cb      []*PCB   `xml:"cb"`
	Br      []*PCB   `xml:"br"`
	Mid     []string `xml:"mid>m"`
	Tx      []*PText `xml:"tx"`
	Ch      []PChar  `xml:"ch"`
	Ck      []PCk    `xml:"ck"`
	T       PText    `xml:"t,attr"`
	V       PCheck   `xml:"v,attr"`
	After   []Sub    `xml:"after"`
	Rest    []RawXML `xml:",any"`
	Inner   string   `xml:",innerxml"`
}

// PChar takes its character data through a callback.
type PChar struct {
	T PText  `xml:",chardata"`
	K string `xml:"k,attr"`
}

// PCk has its character data checked by a callback that has nothing to keep.
type PCk struct {
	T PCheck `xml:",chardata"`
	K string `xml:"k,attr"`
}

type PCheck string

func (u PCheck) UnmarshalText(b []byte) error {
	var t PText
	return t.UnmarshalText(b)
}

type PText struct{ S string }

func (u *PText) UnmarshalText(b []byte) error {
	simrt.Point(121)
	s := string(b)
	for i := range b { // the callee may use b as it likes
		b[i] = '#'
	}
	switch {
	case strings.HasPrefix(s, "error"):
		return errCallback
	case strings.HasPrefix(s, "panic"):
		panic(&envPanic{"text-unmarshaler"})
	}
	u.S = s
	return nil
}

type PAttr struct{ S string }

func (u *PAttr) UnmarshalXMLAttr(a xml.Attr) error {
	switch a.Value {
	case "error":
		return errCallback
	case "panic":
		panic(&envPanic{"attr-unmarshaler"})
	}
	u.S = a.Name.Local + "=" + a.Value
	return nil
}

// PAny takes one of the attributes no other field takes.
type PAny struct{ S string }

func (u *PAny) UnmarshalXMLAttr(a xml.Attr) error {
	switch a.Value {
	case "error":
		return errCallback
	case "panic":
		panic(&envPanic{"attr-unmarshaler"})
	}
	u.S = a.Name.Space + " " + a.Name.Local + "=" + a.Value
	return nil
}

func (u *PCB) lenient(d *xml.Decoder) bool { return !d.Strict }

func short(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == io.EOF:
		return "EOF"
	case errors.Is(err, errCallback):
		return "callback"
	}
	return "err"
}

func (u *PCB) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	simrt.Point(120)
	do := ""
	for _, a := range start.Attr {
		if a.Name.Local == "do" {
			do = a.Value
		}
	}
	for i := range start.Attr { // the callee owns what it was given
		start.Attr[i].Value = "overwritten"
	}
	var sb strings.Builder
	defer func() { u.Log += sb.String() }()
	for _, op := range do {
		switch op {
		case 't':
			t, err := d.Token()
			if err != nil {
				sb.WriteString(" t:" + short(err))
			} else {
				sb.WriteString(" " + tokText(t))
			}
		case 'g':
			for i := 0; i < 5000; i++ {
				t, err := d.Token()
				if err != nil {
					sb.WriteString(" g:" + short(err))
					break
				}
				sb.WriteString(" " + tokText(t))
			}
		case 's':
			sb.WriteString(" s:" + short(d.Skip()))
		case 'r':
			_, err := d.RawToken()
			sb.WriteString(" r:" + short(err))
		case 'd':
			var t Tree
			err := d.Decode(&t)
			sb.WriteString(" d:" + short(err))
			if err == nil {
				sb.WriteString(exportedOf(&t))
			}
		case 'h', 'H':
			var h PHolder
			err := d.Decode(&h)
			sb.WriteString(" h:" + short(err))
			if err == nil {
				if u.lenient(d) {
					h.Inner = ""
					for i := range h.Rest {
						h.Rest[i].Inner = ""
					}
				}
				sb.WriteString(exportedOf(&h))
			} else if op == 'H' {
				return err
			}
		case 'c', 'C':
			var c PCB
			err := d.Decode(&c)
			sb.WriteString(" c:" + short(err) + "[" + c.Log + "]")
			if err != nil && op == 'C' {
				return err
			}
		case 'e':
			var t Tree
			err := d.DecodeElement(&t, &start)
			sb.WriteString(" e:" + short(err))
			if err == nil {
				sb.WriteString(exportedOf(t.Kids) + t.Text)
			}
		case 'x':
			return errCallback
		case 'p':
			panic(&envPanic{"unmarshaler"})
		case 'n':
			return nil
		}
	}
	return nil
}

// dtok is a token of the document, taken from a fresh decoder.
type dtok struct {
	text  string
	kind  byte
	start xml.StartElement
	data  string
	lo    int64
	hi    int64
	match int
}

type dout struct {
	kind string // "callback", "incomplete", "EOF" or a panic's tag
}

func (o *dout) short() string {
	switch o.kind {
	case "callback", "EOF":
		return o.kind
	case "incomplete":
		return "err"
	}
	harness("short of %s", o.kind)
	return ""
}

type dmodel struct {
	doc  string
	toks []dtok
	pos  int
	lim  int // index of the last token that may be read
	r    *Run

	noInner bool // no raw content to be had
}

// lenientSetup makes br elements close themselves.
func lenientSetup(d *xml.Decoder) *xml.Decoder {
	d.Strict = false
	d.AutoClose = []string{"hr", "BR"}
	return d
}

// rawWrap is a token source with the lifetimes of a decoder's tokens.
type rawWrap struct{ d *xml.Decoder }

func (w rawWrap) Token() (xml.Token, error) { return w.d.RawToken() }

func lexDoc(r *Run, doc string, lenient bool) []dtok {
	d := xml.NewDecoder(strings.NewReader(doc))
	if lenient {
		lenientSetup(d)
	}
	var ts []dtok
	var open []int
	for {
		lo := d.InputOffset()
		t, err := d.Token()
		if err == io.EOF {
			return ts
		}
		if err != nil {
			r.fail("decode", "tokens", "well-formed document: %v\n%s", err, doc)
		}
		k := dtok{text: tokText(t), lo: lo, hi: d.InputOffset()}
		switch t := t.(type) {
		case xml.StartElement:
			k.kind, k.start = 's', t.Copy()
			open = append(open, len(ts))
		case xml.EndElement:
			k.kind = 'e'
			o := open[len(open)-1]
			open = open[:len(open)-1]
			ts[o].match, k.match = len(ts), o
		case xml.CharData:
			k.kind, k.data = 't', string(t)
		default:
			k.kind = 'o'
		}
		ts = append(ts, k)
	}
}

func (m *dmodel) next() (*dtok, bool) {
	if m.pos > m.lim {
		return nil, false
	}
	t := &m.toks[m.pos]
	m.pos++
	return t, true
}

// nextStart is how Decode finds its element.
func (m *dmodel) nextStart() (int, bool) {
	for {
		t, ok := m.next()
		if !ok {
			return 0, false
		}
		if t.kind == 's' {
			return m.pos - 1, true
		}
	}
}

func (m *dmodel) skip() string {
	depth := 0
	for {
		t, ok := m.next()
		if !ok {
			return "EOF"
		}
		switch t.kind {
		case 's':
			depth++
		case 'e':
			if depth == 0 {
				return "ok"
			}
			depth--
		}
	}
}

// tree decodes the rest of an element as a Tree. It stops with the element that
// is open at the current position.
func (m *dmodel) tree(start xml.StartElement, t *Tree) bool {
	t.XMLName = start.Name
	t.Attrs = append([]xml.Attr(nil), start.Attr...)
	for {
		k, ok := m.next()
		if !ok {
			return false
		}
		switch k.kind {
		case 's':
			c := &Tree{}
			if !m.tree(k.start, c) {
				return false
			}
			t.Kids = append(t.Kids, c)
		case 'e':
			return true
		case 't':
			t.Text += k.data
		}
	}
}

// textOf reads the direct text of the element that was just opened.
func (m *dmodel) textOf() (string, bool) {
	s, depth := "", 0
	for {
		k, ok := m.next()
		if !ok {
			return s, false
		}
		switch k.kind {
		case 's':
			depth++
		case 'e':
			if depth == 0 {
				return s, true
			}
			depth--
		case 't':
			if depth == 0 {
				s += k.data
			}
		}
	}
}

// pcb runs a scripted callback on the element that starts at token i.
func (m *dmodel) pcb(i int) (log string, out *dout) {
	m.r.Trivial = false
	lim := m.lim
	own := m.toks[i].match
	m.lim = own
	defer func() {
		m.lim = lim
	}()
	done := func() *dout {
		if m.pos <= own {
			m.r.fault("reads-too-little")
			return &dout{"incomplete"}
		}
		return nil
	}
	do := ""
	for _, a := range m.toks[i].start.Attr {
		if a.Name.Local == "do" {
			do = a.Value
		}
	}
	refused := func() {
		m.r.fault("reads-too-much")
	}
	for _, op := range do {
		switch op {
		case 't':
			if k, ok := m.next(); ok {
				log += " " + k.text
			} else {
				refused()
				log += " t:EOF"
			}
		case 'g':
			for {
				k, ok := m.next()
				if !ok {
					refused()
					log += " g:EOF"
					break
				}
				log += " " + k.text
			}
		case 's':
			s := m.skip()
			if s == "EOF" {
				refused()
			}
			log += " s:" + s
		case 'r':
			m.r.fault("raw-token")
			log += " r:err"
		case 'd':
			j, ok := m.nextStart()
			if !ok {
				refused()
				log += " d:EOF"
				break
			}
			var t Tree
			m.tree(m.toks[j].start, &t)
			log += " d:ok" + exportedOf(&t)
		case 'h', 'H':
			j, ok := m.nextStart()
			if !ok {
				refused()
				log += " h:EOF"
				if op == 'H' {
					return log, &dout{"EOF"}
				}
				break
			}
			var h PHolder
			if o := m.holder(j, &h); o != nil {
				if o.isPanic() {
					return log, o
				}
				log += " h:" + o.short()
				if op == 'H' {
					return log, o
				}
				m.r.fault("swallowed-error")
				break
			}
			log += " h:ok" + exportedOf(&h)
		case 'c', 'C':
			j, ok := m.nextStart()
			if !ok {
				refused()
				log += " c:EOF[]"
				if op == 'C' {
					return log, &dout{"EOF"}
				}
				break
			}
			l, o := m.pcb(j)
			if o != nil {
				if o.isPanic() {
					return log, o
				}
				log += " c:" + o.short() + "[" + l + "]"
				if op == 'C' {
					return log, o
				}
				m.r.fault("swallowed-error")
				break
			}
			log += " c:ok[" + l + "]"
		case 'e':
			var t Tree
			if !m.tree(m.toks[i].start, &t) {
				refused()
				log += " e:EOF"
				break
			}
			log += " e:ok" + exportedOf(t.Kids) + t.Text
		case 'x':
			m.r.fault("callback-error")
			return log, &dout{"callback"}
		case 'p':
			m.r.fault("callback-panic")
			return log, &dout{"panic unmarshaler"}
		case 'n':
			return log, done()
		}
	}
	return log, done()
}

func (o *dout) isPanic() bool { return strings.HasPrefix(o.kind, "panic") }

// textCall is the outcome of a text callback.
func (m *dmodel) textCall(s string) *dout {
	switch {
	case strings.HasPrefix(s, "error"):
		m.r.fault("text-callback-error")
		return &dout{"callback"}
	case strings.HasPrefix(s, "panic"):
		m.r.fault("text-callback-panic")
		return &dout{"panic text-unmarshaler"}
	}
	if s != "" {
		m.r.fault("scribbled-argument")
	}
	return nil
}

// holder decodes the element that starts at token i.
func (m *dmodel) holder(i int, h *PHolder) *dout {
	st := m.toks[i].start
	h.XMLName = st.Name
	m.pos = i + 1
	for _, a := range st.Attr {
		if a.Name.Local == "a" {
			switch a.Value {
			case "error":
				m.r.fault("text-callback-error")
				return &dout{"callback"}
			case "panic":
				m.r.fault("text-callback-panic")
				return &dout{"panic attr-unmarshaler"}
			}
			h.A = &PAttr{"a=" + a.Value}
		}
		if a.Name.Local == "b" {
			h.B = a.Value
		}
		if a.Name.Local == "t" || a.Name.Local == "v" {
			if o := m.textCall(a.Value); o != nil {
				return o
			}
			if a.Name.Local == "t" {
				h.T.S = a.Value
			}
			continue
		}
		if a.Name.Local != "a" && a.Name.Local != "b" {
			switch a.Value {
			case "error":
				m.r.fault("text-callback-error")
				return &dout{"callback"}
			case "panic":
				m.r.fault("text-callback-panic")
				return &dout{"panic attr-unmarshaler"}
			}
			h.Any = append(h.Any, PAny{a.Name.Space + " " + a.Name.Local + "=" + a.Value})
		}
	}
	first := m.toks[i].hi
	for {
		k, ok := m.next()
		if !ok {
			return &dout{"EOF"}
		}
		if k.kind == 'e' {
			if k.lo > first && !m.noInner {
				h.Inner = m.doc[first:k.lo]
			}
			return nil
		}
		if k.kind != 's' {
			continue
		}
		j := m.pos - 1
		switch k.start.Name.Local {
		case "before":
			h.Before, _ = m.textOf()
		case "cb", "br":
			l, o := m.pcb(j)
			if o != nil {
				return o
			}
			if k.start.Name.Local == "br" {
				h.Br = append(h.Br, &PCB{l})
				break
			}
			h.Cb = append(h.Cb, &PCB{l})
		case "mid":
			for {
				k, _ := m.next()
				if k.kind == 'e' {
					break
				}
				if k.kind == 's' {
					if s, _ := m.textOf(); k.start.Name.Local == "m" {
						h.Mid = append(h.Mid, s)
					}
				}
			}
		case "tx", "ch", "ck":
			key := ""
			for _, a := range k.start.Attr {
				if a.Name.Local == "k" {
					key = a.Value
				}
			}
			s, _ := m.textOf()
			if o := m.textCall(s); o != nil {
				return o
			}
			switch k.start.Name.Local {
			case "tx":
				h.Tx = append(h.Tx, &PText{s})
			case "ch":
				h.Ch = append(h.Ch, PChar{T: PText{s}, K: key})
			case "ck":
				h.Ck = append(h.Ck, PCk{K: key})
			}
		case "after":
			s := Sub{}
			for _, a := range k.start.Attr {
				if a.Name.Local == "k" {
					s.K = a.Value
				}
			}
			for {
				k, _ := m.next()
				if k.kind == 'e' {
					break
				}
				if k.kind == 't' {
					s.V += k.data
				}
				if k.kind == 's' {
					if x, _ := m.textOf(); k.start.Name.Local == "more" {
						s.More = append(s.More, x)
					}
				}
			}
			h.After = append(h.After, s)
		default:
			x := RawXML{XMLName: k.start.Name, Attrs: append([]xml.Attr(nil), k.start.Attr...)}
			e := &m.toks[k.match]
			if e.lo > k.hi && !m.noInner {
				x.Inner = m.doc[k.hi:e.lo]
			}
			m.pos = k.match + 1
			h.Rest = append(h.Rest, x)
		}
	}
}

// genPDoc writes an element for PHolder. good asks for well-behaved callbacks only.
type pdocGen struct {
	sb      strings.Builder
	left    int
	bad     bool
	lenient bool // some elements close themselves
	r       *Run
}

func (g *pdocGen) text() string {
	return pick([]string{"t", " ", "", "x &amp; y", "<![CDATA[a<b]]>", "é", "&#10;", "<!--c-->u", "<?pi z?>", "v"})
}

var cbScriptsGood = []string{"s", "e", "g", "gt", "ed", "sg", "tg", "rg", "rs", "tttttg", "dg", "hg", "cg", "gs"}

func (g *pdocGen) script() string {
	if !g.bad || ops(2) == 0 {
		return pick(cbScriptsGood)
	}
	n := 1 + ops(8)
	var s []byte
	for i := 0; i < n; i++ {
		s = append(s, "ttsrdhHcCgxpn"[ops(13)])
	}
	if ops(3) > 0 {
		s = append(s, 'g')
	}
	return string(s)
}

func (g *pdocGen) name() string {
	return pick([]string{"u", "p:u", "w", "p:w", "q"})
}

func (g *pdocGen) junk(depth int) {
	g.left--
	if g.lenient && ops(4) == 3 {
		g.r.fault("self-closing-element")
		g.sb.WriteString(pick([]string{"<hr>", "<HR>", "<hr/>", "<hr a='1'><hr>", "<br></br>"}))
		return
	}
	n := g.name()
	g.sb.WriteString("<" + n)
	switch ops(6) {
	case 3:
		g.sb.WriteString(` xmlns:p="urn:p` + pick([]string{"1", "2"}) + `"`)
	case 4:
		g.sb.WriteString(` xmlns="urn:d` + pick([]string{"1", "2"}) + `"`)
	case 5:
		g.sb.WriteString(` xmlns=""`)
	}
	if ops(3) == 2 {
		g.sb.WriteString(` p:k="` + pick([]string{"v", "", "&lt;"}) + `"`)
	}
	if ops(4) == 3 {
		g.sb.WriteString("/>")
		return
	}
	g.sb.WriteString(">" + g.text())
	for k := ops(3); k > 0 && g.left > 0 && depth < 4; k-- {
		g.junk(depth + 1)
		g.sb.WriteString(g.text())
	}
	g.sb.WriteString("</" + n + ">")
}

func (g *pdocGen) decls() {
	switch ops(7) {
	case 4:
		g.sb.WriteString(` xmlns:p="urn:p3"`)
	case 5:
		g.sb.WriteString(` xmlns="urn:d3"`)
	case 6:
		g.sb.WriteString(` xmlns:q="urn:q" xmlns:p="urn:p4" xmlns=""`)
	}
}

func (g *pdocGen) cb(depth int) {
	g.left--
	if g.lenient && ops(3) == 2 {
		g.r.fault("self-closing-element")
		g.sb.WriteString(`<br do="` + g.script() + `"` + pick([]string{">", ">", "/>", "></br>"}))
		return
	}
	g.sb.WriteString(`<cb do="` + g.script() + `"`)
	g.decls()
	g.sb.WriteString(">")
	for k := ops(5); k > 0 && g.left > 0; k-- {
		switch ops(5) {
		case 0:
			g.sb.WriteString(g.text())
		case 1, 2:
			g.junk(depth)
		case 3:
			if depth < 3 {
				g.holder("holder", depth+1)
			}
		case 4:
			if depth < 3 {
				g.cb(depth + 1)
			}
		}
	}
	g.sb.WriteString("</cb>")
}

func (g *pdocGen) holder(name string, depth int) {
	g.left--
	g.sb.WriteString("<" + name)
	if depth == 0 {
		g.sb.WriteString(` xmlns:p="urn:p0"`)
	} else {
		g.decls()
	}
	if ops(3) == 2 {
		v := pick([]string{"1", "", "z"})
		if g.bad && ops(12) == 11 {
			v = pick([]string{"error", "panic"})
		}
		g.sb.WriteString(` a="` + v + `"`)
	}
	if ops(3) == 2 {
		g.sb.WriteString(` b="x"`)
	}
	for _, nm := range []string{"t", "v"} {
		if ops(8) == 7 {
			v := pick([]string{"1", "", "z"})
			if g.bad && ops(8) == 7 {
				v = pick([]string{"error", "panic"})
			}
			g.sb.WriteString(" " + nm + `="` + v + `"`)
		}
	}
	for k := ops(5); k > 1; k-- {
		v := pick([]string{"1", "", "z"})
		if g.bad && ops(12) == 11 {
			v = pick([]string{"error", "panic"})
		}
		fmt.Fprintf(&g.sb, ` y%d="%s"`, k, v)
	}
	g.sb.WriteString(">")
	before := false
	for k := ops(7); k > 0 && g.left > 0; k-- {
		g.sb.WriteString(pick([]string{"", " ", "\n", "<!--c-->"}))
		switch ops(8) {
		case 0, 1, 2:
			g.cb(depth)
		case 3:
			if !before {
				before = true
				g.sb.WriteString("<before>" + g.text() + "</before>")
			}
		case 4:
			g.sb.WriteString("<mid><m>" + g.text() + "</m>" + pick([]string{"", "<m/>", "<n><m>no</m></n>"}) + "</mid>")
		case 5:
			s := g.text()
			if g.bad && ops(10) == 9 {
				s = pick([]string{"error", "panic"})
			}
			nm := pick([]string{"tx", "tx", "ch", "ck"})
			g.sb.WriteString("<" + nm + pick([]string{"", "", ` k="1"`, ` t="error"`}) + ">" + s + pick([]string{"", "", "", "<n>no</n>", "<n>no<k/>no</n>end", "<tx>no</tx>", "<n><n/>no</n><n/>end"}) + "</" + nm + ">")
		case 6:
			g.sb.WriteString(`<after k="` + pick([]string{"1", ""}) + `">` + g.text() + pick([]string{"", "<more>m</more>", "<other/>"}) + "</after>")
		case 7:
			g.junk(depth)
		}
	}
	g.sb.WriteString("</" + name + ">")
}

func decodeP17(r *Run) {
	g := &pdocGen{left: 25, bad: flt(4) > 0, lenient: ops(5) == 4, r: r}
	fromTokens := style(5) == 4
	var starts []int
	n := 1 + ops(3)
	for i := 0; i < n; i++ {
		starts = append(starts, g.sb.Len())
		g.left = 10 + ops(25)
		g.holder("holder", 0)
		g.sb.WriteString(pick([]string{"", "\n", " "}))
	}
	doc := g.sb.String()
	m := &dmodel{doc: doc, toks: lexDoc(r, doc, g.lenient), noInner: g.lenient || fromTokens, r: r}
	m.lim = len(m.toks) - 1
	d := xml.NewDecoder(deliver(r, drawDelivery(r), []byte(doc), nil))
	if fromTokens {
		r.fault("token-source")
		d = xml.NewTokenDecoder(rawWrap{d})
	}
	if g.lenient {
		lenientSetup(d)
	}
	inner := func(h *PHolder) *PHolder {
		if g.lenient { // how far it reaches is not specified
			h.Inner = ""
			for i := range h.Rest {
				h.Rest[i].Inner = ""
			}
		}
		return h
	}
	r.ev("decode", "%s", doc)
	for i := 0; i < n; i++ {
		if m.pos < len(m.toks) && m.toks[m.pos].kind == 't' && ops(2) == 1 {
			k, _ := m.next()
			var t xml.Token
			var err error
			r.call("RawToken", func() { t, err = d.RawToken() })
			if err != nil || tokText(t) != k.text {
				r.fail("decode", "later", "%s\nbefore document %d RawToken gives %v, %v, not %s", doc, i, t, err, k.text)
			}
		}
		var want, got PHolder
		j, ok := m.nextStart()
		if !ok {
			r.fail("decode", "tokens", "document %d of %d not found", i, n)
		}
		o := m.holder(j, &want)
		var err error
		ep := r.call("Decode", func() { err = d.Decode(&got) })
		r.record(fmt.Sprint(errStr(err), exportedOf(&got)))
		what := "nothing"
		switch {
		case o == nil:
		default:
			what = o.kind
		}
		r.ev("outcome", "document %d: expected %s, got %v %v", i, what, err, ep)
		switch {
		case o == nil && (err != nil || ep != nil):
			r.fail("decode", "error", "document %d of %s\nevery callback read its own element, but Decode says %v %v", i, doc, err, ep)
		case o != nil && o.isPanic():
			if ep == nil || "panic "+ep.tag != o.kind {
				r.fail("decode", "panic", "document %d of %s\na callback panicked (%s), but Decode gave %v, %v", i, doc, o.kind, err, ep)
			}
		case o != nil && (err == nil || ep != nil || o.kind == "callback" && !errors.Is(err, errCallback)):
			r.fail("decode", "swallowed", "document %d of %s\na callback's outcome was %s, but Decode gave %v, %v", i, doc, o.kind, err, ep)
		}
		if o != nil {
			break // nothing is promised about this decoder
		}
		if a, b := exportedOf(inner(&got)), exportedOf(&want); a != b {
			r.fail("decode", "siblings", "document %d of %s\ndecodes differently than if the callbacks only touched their own elements: %s", i, doc, diffAt(a, b))
		}
	}
}

// ---- encoding ----

// mop is one step of a scripted MarshalXML.
type mop struct {
	kind  byte
	start xml.StartElement
	ev    event
	text  string
	sub   *MProg
	subs  []*MProg // more of them, written as one slice
	end   xml.Name
	pass  bool // return the error instead of going on
}

// MProg is a value with a scripted MarshalXML. own wraps the content in the start
// element it is given.
type MProg struct {
	ops   []mop
	own   bool
	edits bool
	r     *Run
}

func (p *MProg) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	simrt.Point(110)
	if p.edits { // the callee owns what it was given
		defer func() {
			all := start.Attr[:cap(start.Attr)]
			for i := range all {
				all[i] = xml.Attr{Name: xml.Name{Local: "overwritten"}, Value: "overwritten"}
			}
		}()
	}
	ret := func(err error, o mop) error {
		if err != nil && o.pass {
			return err
		}
		return nil
	}
	if p.own {
		if err := e.EncodeToken(start); err != nil {
			return err
		}
	}
	for _, o := range p.ops {
		var err error
		switch o.kind {
		case 's':
			err = e.EncodeToken(o.start)
		case 'e', 'E':
			err = e.EncodeToken(xml.EndElement{Name: o.end})
		case 't':
			err = e.EncodeToken(xml.CharData(o.text))
		case 'c':
			err = e.EncodeToken(xml.Comment(o.text))
		case 'v':
			err = e.EncodeElement(42, o.start)
		case 'm':
			given := o.start.Copy()
			if o.subs != nil {
				err = e.EncodeElement(o.subs, o.start)
			} else {
				err = e.EncodeElement(o.sub, o.start)
			}
			if tokText(given) != tokText(o.start) {
				return errors.New("the start element given to EncodeElement was changed")
			}
		case 'i':
			switch o.text {
			case "comment":
				err = e.EncodeToken(xml.Comment("a--b"))
			case "directive":
				err = e.EncodeToken(xml.Directive("<"))
			case "nil":
				err = e.EncodeToken(nil)
			case "start":
				err = e.EncodeToken(xml.StartElement{})
			case "decl":
				err = e.EncodeToken(xml.ProcInst{Target: "xml", Inst: []byte(`version="1.0"`)})
			}
			if err == nil {
				return errors.New("illegal token accepted: " + o.text)
			}
		case 'f':
			err = e.Flush()
		case 'z':
			e.Close()
		case 'x':
			return errCallback
		case 'p':
			panic(&envPanic{"marshaler"})
		}
		if err := ret(err, o); err != nil {
			return err
		}
	}
	if p.own {
		return e.EncodeToken(start.End())
	}
	return nil
}

type PMAttr struct {
	Mode cbMode
	S    string
}

func (c PMAttr) MarshalXMLAttr(name xml.Name) (xml.Attr, error) {
	return CBAttr(c).MarshalXMLAttr(name)
}

// PEnc surrounds scripted values with ordinary siblings.
type PEnc struct {
	XMLName xml.Name `xml:"urn:h penc"`
	A       CBAttr   `xml:"a,attr"`
	B       string   `xml:"b,attr"`
	Before  string   `xml:"before"`
	Cb      []*MProg `xml:"cb"`
	Mid     []string `xml:"mid>m"`
	Ns      *MProg   `xml:"urn:x x:ns"`
	Tx      []CBText `xml:"tx"`
	After   Sub      `xml:"after"`
}

// progGen draws programs together with what they write.
type progGen struct {
	r   *Run
	bad bool
	n   int
}

// mout is the outcome: "" is success.
type mout string

func (g *progGen) draw(start event, startName xml.Name, depth int) (p *MProg, evs []event, out mout) {
	g.r.Trivial = false
	p = &MProg{r: g.r, own: ops(4) > 0, edits: ops(3) == 2}
	if p.edits {
		g.r.fault("scribbled-argument")
	}
	var stack []xml.Name
	if p.own {
		evs = append(evs, start)
		stack = append(stack, startName)
	}
	base := len(stack)
	step := func(o mop) { p.ops = append(p.ops, o) }
	for k := ops(7); k > 0 && out == ""; k-- {
		g.n++
		op := ops(9)
		if g.bad && ops(6) == 5 {
			op = 9 + ops(7)
		}
		switch op {
		case 0, 1:
			t, e := drawStart(g.r)
			step(mop{kind: 's', start: t, pass: true})
			evs = append(evs, e)
			stack = append(stack, t.Name)
		case 2, 3:
			if len(stack) > base {
				step(mop{kind: 'e', end: stack[len(stack)-1], pass: true})
				stack = stack[:len(stack)-1]
				evs = append(evs, event{kind: 'e'})
			}
		case 4:
			s := pick(encTexts)
			step(mop{kind: 't', text: s, pass: true})
			evs = append(evs, event{kind: 't', text: s})
		case 5:
			step(mop{kind: 'c', text: " c ", pass: true})
			evs = append(evs, event{kind: 'c', text: " c "})
		case 6:
			t, e := drawStart(g.r)
			step(mop{kind: 'v', start: t, pass: true})
			evs = append(evs, e, event{kind: 't', text: "42"}, event{kind: 'e'})
		case 7, 8:
			if depth > 2 {
				break
			}
			t, e := drawStart(g.r)
			sub, es, o := g.draw(e, t.Name, depth+1)
			var subs []*MProg
			for ; o == "" && ops(3) == 2; sub = nil {
				if subs == nil {
					subs = append(subs, sub)
				}
				s, es2, o2 := g.draw(e, t.Name, depth+1)
				subs, es, o = append(subs, s), append(es, es2...), o2
			}
			pass := !g.bad || ops(3) > 0
			step(mop{kind: 'm', start: t, sub: sub, subs: subs, pass: pass})
			evs = append(evs, es...)
			if o != "" {
				out = o
				if !pass && !strings.HasPrefix(string(o), "panic") {
					// the nested value may have left anything behind, so the
					// document must be refused, whoever says so
					g.r.fault("swallowed-error")
					out = "any"
				}
			}
		case 9:
			g.r.fault("illegal-token")
			step(mop{kind: 'i', text: pick([]string{"comment", "directive", "nil", "start", "decl"})})
		case 10: // an end that is not its own
			g.r.fault("closes-too-much")
			n := xml.Name{Space: "urn:h", Local: "penc"}
			if ops(2) == 1 {
				n = startName
			}
			if ops(3) == 2 {
				n = xml.Name{Local: "mid"}
			}
			if len(stack) > 0 && strings.HasSuffix(":"+stack[len(stack)-1].Local, ":"+afterColon(n.Local)) {
				n = xml.Name{Space: "urn:none", Local: "none"}
			}
			step(mop{kind: 'E', end: n, pass: ops(2) == 1})
			if p.ops[len(p.ops)-1].pass {
				out = "any"
			}
		case 11:
			step(mop{kind: 'f', pass: true})
		case 12:
			g.r.fault("closes-encoder")
			step(mop{kind: 'z'})
			out = "any" // the enclosing element is still to be ended
		case 13:
			g.r.fault("callback-error")
			step(mop{kind: 'x'})
			out = "callback"
		case 14:
			g.r.fault("callback-panic")
			step(mop{kind: 'p'})
			out = "panic marshaler"
		case 15:
			if len(stack) > base { // returns with elements open
				g.r.fault("unclosed-element")
				out = "any"
				p.own = p.own && ops(2) == 1
				if p.own {
					return p, evs, out
				}
				if base == 1 { // the start was never written
					evs, base = evs[1:], 0
				}
				return p, evs, out
			}
		}
	}
	if out != "" {
		return p, evs, out
	}
	for len(stack) > base {
		step(mop{kind: 'e', end: stack[len(stack)-1], pass: true})
		stack = stack[:len(stack)-1]
		evs = append(evs, event{kind: 'e'})
	}
	if p.own {
		evs = append(evs, event{kind: 'e'})
	}
	return p, evs, out
}

func encodeP17(r *Run) {
	g := &progGen{r: r, bad: flt(4) > 0}
	v := &PEnc{A: CBAttr{cbGood, "av"}, B: "bv", Before: pick(encTexts), After: Sub{K: "k", V: pick(encTexts)}}
	var out mout
	evs := []event{{kind: 's', space: "urn:h", local: "penc", attrs: []NAttr{{Local: "a", Val: "av"}, {Local: "b", Val: "bv"}}}}
	if g.bad && ops(20) == 19 {
		v.A.Mode = pick([]cbMode{cbError, cbPanic, cbUnclosed, cbLate})
		switch v.A.Mode {
		case cbPanic:
			r.fault("text-callback-panic")
			out = "panic attr-marshaler"
		case cbUnclosed: // no attribute
			evs[0].attrs = evs[0].attrs[1:]
		default:
			r.fault("text-callback-error")
			out = "callback"
		}
	}
	add := func(e ...event) {
		if out == "" {
			evs = append(evs, e...)
		}
	}
	elem := func(local, text string) {
		add(event{kind: 's', any: true, local: local}, event{kind: 't', text: text}, event{kind: 'e'})
	}
	elem("before", v.Before)
	for k := ops(4); k > 0; k-- {
		p, es, o := g.draw(event{kind: 's', any: true, local: "cb"}, xml.Name{Local: "cb"}, 0)
		v.Cb = append(v.Cb, p)
		add(es...)
		if out == "" {
			out = o
		}
	}
	add(event{kind: 's', any: true, local: "mid"})
	for i := 1 + ops(2); i > 0; i-- {
		v.Mid = append(v.Mid, "m")
		elem("m", "m")
	}
	add(event{kind: 'e'})
	if ops(3) == 2 {
		p, es, o := g.draw(event{kind: 's', space: "urn:x", local: "ns"}, xml.Name{Space: "urn:x", Local: "x:ns"}, 0)
		v.Ns = p
		add(es...)
		if out == "" {
			out = o
		}
	}
	for k := ops(3); k > 0; k-- {
		t := CBText{cbGood, pick(encTexts)}
		if g.bad && ops(10) == 9 {
			t.Mode = pick([]cbMode{cbError, cbPanic, cbLate})
		}
		v.Tx = append(v.Tx, t)
		elem("tx", t.S)
		if t.Mode != cbGood && out == "" {
			if out = "callback"; t.Mode == cbPanic {
				r.fault("text-callback-panic")
				out = "panic text-marshaler"
			} else {
				r.fault("text-callback-error")
			}
		}
	}
	add(event{kind: 's', any: true, local: "after", attrs: []NAttr{{Local: "k", Val: "k"}}}, event{kind: 't', text: v.After.V}, event{kind: 'e'}, event{kind: 'e'})
	indent := ""
	if ops(4) == 3 {
		indent = pick([]string{" ", "\t"})
	}
	var b bytes.Buffer
	var err error
	way := ops(6)
	ep := r.call("encode", func() {
		switch way {
		case 0:
			_, err = mpd.WriteXML(v, &b, indent, false)
		case 1:
			var bs []byte
			bs, err = xml.MarshalIndent(v, "", indent)
			b.Write(bs)
		case 2:
			e := xml.NewEncoder(&b)
			e.Indent("", indent)
			err = e.Encode(v)
		case 3:
			e := xml.AcquireEncoder(&b)
			e.Indent("", indent)
			err = e.Encode(v)
			xml.ReleaseEncoder(e)
		case 4: // inside tokens
			e := xml.NewEncoder(&b)
			e.Indent("", indent)
			err = errors.Join(e.EncodeToken(xml.StartElement{Name: xml.Name{Space: "urn:o", Local: "outer"}}), e.Encode(v))
			if err == nil {
				err = errors.Join(e.EncodeToken(xml.EndElement{Name: xml.Name{Space: "urn:o", Local: "outer"}}), e.Close())
			}
		case 5: // by value
			var bs []byte
			bs, err = xml.MarshalIndent(*v, "", indent)
			b.Write(bs)
		}
	})
	if way == 4 {
		evs = append(append([]event{{kind: 's', space: "urn:o", local: "outer"}}, evs...), event{kind: 'e'})
	}
	r.ev("encode", "way %d: expected %q, got %v %v: %s", way, out, err, ep, b.String())
	for _, p := range v.Cb {
		r.note(p.shape())
		r.logf("  program %s", p.shape())
	}
	r.record(errStr(err) + b.String())
	switch {
	case strings.HasPrefix(string(out), "panic"):
		if ep == nil || "panic "+ep.tag != string(out) {
			r.fail("encode", "panic", "a marshaler panicked (%s), but the call gave %v, %v", out, err, ep)
		}
		return
	case out != "":
		if err == nil && ep == nil || out == "callback" && !errors.Is(err, errCallback) {
			r.fail("encode", "swallowed", "a marshaler's outcome was %q, but the call gave %v, %v\n%s", out, err, ep, b.String())
		}
		return
	case err != nil || ep != nil:
		r.fail("encode", "error", "every marshaler wrote balanced elements, but the call gave %v, %v\n%s", err, ep, b.String())
	}
	got, open, err := readEvents(b.String())
	if err != nil || open != 0 {
		r.fail("encode", "malformed", "%v, %d open\n%s", err, open, b.String())
	}
	if d := sameEvents(mergeText(got, indent != ""), mergeText(evs, indent != "")); d != "" {
		r.fail("encode", "siblings", "%s\n%s", d, b.String())
	}
}

func (p *MProg) shape() string {
	s := ""
	if p.own {
		s = "<"
	}
	for _, o := range p.ops {
		s += string(o.kind)
		if o.sub != nil {
			s += "(" + o.sub.shape() + ")"
		}
		for _, p := range o.subs {
			s += "(" + p.shape() + ")"
		}
	}
	return s
}

// canary is a well-behaved document in both directions.
func canary(r *Run) string {
	s := ""
	r.call("canary", func() {
		var b bytes.Buffer
		n, err := mpd.WriteXML(&Holder{A: CBAttr{cbGood, "a"}, B: "b", Cb: &CB{cbGood, 7}, Mid: []string{"m"}, Tx: &CBText{cbGood, "t"}}, &b, " ", true)
		s = fmt.Sprint(n, err, b.String())
		var h PHolder
		err = xml.Unmarshal([]byte(`<h xmlns="urn:h" xmlns:p="urn:p" a="1"><cb do="tg"><p:x xmlns:p="urn:pp"/></cb><p:y/><tx>t</tx></h>`), &h)
		s += fmt.Sprint(err, exportedOf(&h))
	})
	return s
}

var canaryRef string

func runP17(r *Run) {
	r.Trivial = true
	if canaryRef == "" {
		simrt.Restart()
		canaryRef = canary(r)
	}
	simrt.SetPoolMode(uint32(ops(3)))
	k := 1 + ops(3)
	long := opsP(1, 1500)
	if long {
		r.probe("long-history")
		k = 8 << ops(8)
	}
	for ; k > 0; k-- {
		if ops(2) == 0 {
			decodeP17(r)
		} else {
			encodeP17(r)
		}
		if !long && fltP(1, 12) {
			r.fault("node-restart")
			simrt.Restart()
		}
		if fltP(1, 12) {
			r.fault("pool-purge")
			simrt.PurgePools()
		}
		r.SimNanos += 1_000_000
	}
	if c := canary(r); c != canaryRef {
		r.fail("later", "canary", "a well-behaved document is affected by earlier ones: %s", diffAt(c, canaryRef))
	}
}
