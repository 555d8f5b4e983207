package dst

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"runtime"
	"strings"

	"dashsim/simrt"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&Scenario{
		ID: "P20", Quick: 3500, Thorough: 200000, Run: runP20,
		Faults: []string{"enlarged", "read-error", "cut", "write-error", "short-write", "write-panic", "write-error-after-full", "misbehaving-value", "abandoned", "damaged", "pool-purge", "pool-never-reuses", "pool-reorders"},
		Rule: "Most runs take a document made of one part repeated n and 8n times (a drawn list of a generated manifest, a drawn piece of XML, one long or much divided token, many attributes, deep nesting) and read or write it in a drawn way and delivery; the library's executed statements and allocated bytes of the large case are compared with those of the small one (and with the bytes that go in and come out). " +
			"One run in twelve is the life of a process: hundreds to thousands of distinct documents with names, namespaces and texts of their own, read and written in all ways, some failing, panicking, cut or abandoned; between the thirds of it the live heap is measured with all results dropped, and the cost of a fixed set of operations is compared with what it was at first. " +
			"Distinct by event sequence.",
		Real:   []string{"mpd (readers, writers, Clone, Append*)", "xml encoder and decoder (all)"},
		Stub:   []string{"byte sources and destinations", "sync.Pool", "user callbacks"},
		Assume: []string{"work is counted in executed statements of the library and in allocated bytes; work inside one call of the standard library is not counted", "live heap is measured after two collections, by the Go runtime"},
	})
}

// cost of one operation.
type cost struct{ steps, bytes, in, out int64 }

func (c cost) String() string {
	return fmt.Sprintf("%d statements, %d bytes allocated, %d bytes in, %d out", c.steps, c.bytes, c.in, c.out)
}

// nullWriter counts.
type nullWriter struct{ n int64 }

func (w *nullWriter) Write(p []byte) (int, error) { w.n += int64(len(p)); return len(p), nil }

// pieces delivers data without allocating.
type pieces struct {
	b []byte
	n int
}

func (s *pieces) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	k := len(s.b)
	if s.n > 0 && k > s.n {
		k = s.n
	}
	k = copy(p, s.b[:k])
	s.b = s.b[k:]
	return k, nil
}

// measure runs one operation; f returns how much it produced.
func (r *Run) measure(what string, in int, f func() int64) (c cost) {
	var a, b runtime.MemStats
	save := r.budget
	r.budget = 1 << 31
	defer func() { r.budget = save }()
	runtime.ReadMemStats(&a)
	s := simrt.Steps()
	var out int64
	r.call(what, func() { out = f() })
	c.steps = simrt.Steps() - s
	runtime.ReadMemStats(&b)
	c.bytes = int64(b.TotalAlloc - a.TotalAlloc)
	c.in, c.out = int64(in), out
	return
}

// way is one way of reading a text or of writing a value.
type way struct {
	name string
	f    func(r *Run, doc []byte, v any) int64
}

func readTo(mk func() any) func(r *Run, doc []byte, v any) int64 {
	return func(r *Run, doc []byte, v any) int64 {
		d := xml.NewDecoder(&pieces{doc, 1000})
		for {
			x := mk()
			if err := d.Decode(x); err != nil {
				return 0
			}
		}
	}
}

func tokensOnly(raw bool) func(r *Run, doc []byte, v any) int64 {
	return func(r *Run, doc []byte, v any) int64 {
		d := xml.NewDecoder(&pieces{doc, 700})
		if raw {
			d.Strict = false
		}
		for {
			var err error
			if raw {
				_, err = d.RawToken()
			} else {
				_, err = d.Token()
			}
			if err != nil {
				return 0
			}
		}
	}
}

// Inn keeps its content verbatim.
type Inn struct {
	Kids  []Inn1 `xml:"sub"`
	Inner string `xml:",innerxml"`
}
type Inn1 struct {
	Inner []byte `xml:",innerxml"`
}

// Kept keeps all that is in an element.
type Kept struct {
	Comment string `xml:",comment"`
	Text    []byte `xml:",chardata"`
	Any     []Kept `xml:",any"`
}

var wayIn = []way{
	{"MPDFromBytes", func(r *Run, doc []byte, v any) int64 { mpd.MPDFromBytes(doc); return 0 }},
	{"ReadFromString", func(r *Run, doc []byte, v any) int64 { mpd.ReadFromString(string(doc)); return 0 }},
	{"Decode MPD", readTo(func() any { return new(mpd.MPD) })},
	{"Decode Tree", readTo(func() any { return new(Tree) })},
	{"Decode RawB", readTo(func() any { return new(RawB) })},
	{"Decode innerxml", readTo(func() any { return new(Inn) })},
	{"Decode Kept", readTo(func() any { return new(Kept) })},
	{"Decode Rich", readTo(func() any { return new(Rich) })},
	{"Unmarshal Tree", func(r *Run, doc []byte, v any) int64 { xml.Unmarshal(doc, new(Tree)); return 0 }},
	{"Token", tokensOnly(false)},
	{"RawToken", tokensOnly(true)},
	{"InputPos", func(r *Run, doc []byte, v any) int64 {
		d := xml.NewDecoder(bytes.NewReader(doc))
		for {
			if _, err := d.Token(); err != nil {
				return 0
			}
			d.InputPos()
			d.InputOffset()
		}
	}},
	{"Skip", func(r *Run, doc []byte, v any) int64 {
		d := xml.NewDecoder(&pieces{doc, 0})
		d.Token()
		d.Token()
		for d.Skip() == nil {
		}
		return 0
	}},
	{"DecodeElement of children", func(r *Run, doc []byte, v any) int64 {
		d := xml.NewDecoder(&pieces{doc, 3000})
		for n := 0; ; n++ {
			t, err := d.Token()
			if err != nil {
				return 0
			}
			if st, ok := t.(xml.StartElement); ok && n > 3 {
				var x Tree
				if d.DecodeElement(&x, &st) != nil {
					return 0
				}
			}
		}
	}},
	{"NewTokenDecoder", func(r *Run, doc []byte, v any) int64 {
		d := xml.NewTokenDecoder(xml.NewDecoder(&pieces{doc, 0}))
		d.Decode(new(Tree))
		return 0
	}},
	{"copy tokens", func(r *Run, doc []byte, v any) int64 {
		var w nullWriter
		d, e := xml.NewDecoder(&pieces{doc, 0}), xml.NewEncoder(&w)
		for {
			t, err := d.Token()
			if err != nil {
				break
			}
			if e.EncodeToken(xml.CopyToken(t)) != nil {
				break
			}
		}
		e.Flush()
		return w.n
	}},
}

var wayOut = []way{
	{"WriteXML", func(r *Run, doc []byte, v any) int64 { var w nullWriter; mpd.WriteXML(v, &w, "", true); return w.n }},
	{"WriteXML indented", func(r *Run, doc []byte, v any) int64 { var w nullWriter; mpd.WriteXML(v, &w, "  ", true); return w.n }},
	{"Marshal", func(r *Run, doc []byte, v any) int64 { b, _ := xml.Marshal(v); return int64(len(b)) }},
	{"MarshalIndent", func(r *Run, doc []byte, v any) int64 { b, _ := xml.MarshalIndent(v, "", "\t"); return int64(len(b)) }},
	{"WriteToString", func(r *Run, doc []byte, v any) int64 {
		if m, ok := v.(*mpd.MPD); ok {
			s, _ := m.WriteToString(" ", true)
			return int64(len(s))
		}
		b, _ := xml.Marshal(v)
		return int64(len(b))
	}},
	{"Encoder", func(r *Run, doc []byte, v any) int64 {
		var w nullWriter
		e := xml.NewEncoder(&w)
		e.Encode(v)
		e.Close()
		return w.n
	}},
	{"pooled Encoder", func(r *Run, doc []byte, v any) int64 {
		var w nullWriter
		e := xml.AcquireEncoder(&w)
		e.Encode(v)
		xml.ReleaseEncoder(e)
		return w.n
	}},
}

// compareCost is the oracle of growth: the large case may cost 1.5 times its share
// in statements, and 3 times in bytes (slices double).
func compareCost(r *Run, what string, a, b cost) {
	r.logf("%s: small %v; large %v", what, a, b)
	grow := func(x, y int64) float64 { return float64(y+1) / float64(x+1) }
	g := max(8, grow(a.in+a.out, b.in+b.out))
	if float64(b.steps) > 1.5*g*float64(a.steps+200) {
		r.fail("work-grows-faster", what, "%.1f times as much to do takes %.1f times the statements\nsmall: %v\nlarge: %v", g, grow(a.steps, b.steps), a, b)
	}
	if float64(b.bytes) > 3*g*float64(a.bytes+4096) {
		r.fail("memory-grows-faster", what, "%.1f times as much to do allocates %.1f times the bytes\nsmall: %v\nlarge: %v", g, grow(a.bytes, b.bytes), a, b)
	}
}

// longLists finds the slices of pointers or strings in a value.
func longLists(v reflect.Value, depth int, out *[]reflect.Value) {
	if depth > 14 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			longLists(v.Elem(), depth+1, out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				longLists(v.Field(i), depth+1, out)
			}
		}
	case reflect.Slice:
		if v.Len() == 0 || !v.CanSet() {
			return
		}
		switch v.Type().Elem().Kind() {
		case reflect.Pointer, reflect.String, reflect.Struct:
			*out = append(*out, v)
		}
		for i := 0; i < v.Len(); i++ {
			longLists(v.Index(i), depth+1, out)
		}
	}
}

// repeated is the slice n times over.
func repeated(v reflect.Value, n int) reflect.Value {
	o := reflect.MakeSlice(v.Type(), 0, n*v.Len())
	for i := 0; i < n; i++ {
		o = reflect.AppendSlice(o, v)
	}
	return o
}

// bigText draws a shape; the result builds it with n repetitions.
func bigText(r *Run) (string, func(n int) string) {
	rep := strings.Repeat
	seq := func(n int, f string) string {
		var sb strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&sb, f, i)
		}
		return sb.String()
	}
	mp := func(in string) string {
		return `<MPD xmlns="` + nsDASH + `" xmlns:x="urn:x"><Period>` + in + `</Period></MPD>`
	}
	switch k := ops(21); k {
	case 20:
		return "mixed", func(n int) string {
			return "<a>" + rep("some text<!-- a comment --><b>x<![CDATA[y]]></b>&amp;<?pi?>", n) + "</a>"
		}
	case 0:
		return "text", func(n int) string { return "<a>" + rep("some text ", n) + "</a>" }
	case 1:
		return "references", func(n int) string { return "<a>" + rep("&lt;x&#x41;&amp;", n) + "</a>" }
	case 2:
		return "lines", func(n int) string { return "<a>" + rep("\r\n x\n", n) + "</a>" }
	case 3:
		return "cdata", func(n int) string { return "<a>" + rep("<![CDATA[ ]] > ]]>t", n) + "</a>" }
	case 4:
		return "one cdata", func(n int) string { return "<a><![CDATA[" + rep("]] > <", n) + "]]></a>" }
	case 5:
		return "comments", func(n int) string {
			return rep("<!-- c - -->\n", n) + "<a>" + rep("<!---->", n) + rep("<!--kept or not-->", n) + "</a>"
		}
	case 6:
		return "one comment", func(n int) string { return "<a><!--" + rep(" - x", n) + "--></a>" }
	case 7:
		return "instructions", func(n int) string { return rep("<?pi ? >?>", n) + "<a/>" }
	case 8:
		return "directive", func(n int) string {
			return "<!DOCTYPE a [" + rep("<!ENTITY b '>'><!-- < -->", n) + "]><a/>"
		}
	case 9:
		return "attribute value", func(n int) string { return "<a k='" + rep("v &amp; w\n", n) + "' id='1'/>" }
	case 10:
		return "attributes", func(n int) string { return "<a" + seq(n, " k%d='v'") + "/>" }
	case 11:
		return "empty elements", func(n int) string { return "<a>" + rep("<sub/>", n) + "</a>" }
	case 12:
		return "distinct names", func(n int) string { return "<a>" + seq(n, "<n%d k='1'/>") + "</a>" }
	case 13:
		return "prefixed", func(n int) string {
			return "<p:a xmlns:p='urn:p' xmlns='urn:d'>" + rep("<p:sub p:k='1'><sub xmlns='urn:e'/></p:sub>", n) + "</p:a>"
		}
	case 14:
		return "declared again and again", func(n int) string {
			return "<a>" + seq(n, "<q:sub xmlns:q='urn:q%d' q:k=''>t</q:sub>") + "</a>"
		}
	case 15:
		return "many documents", func(n int) string { return rep("<a k='1'><sub>t</sub></a>\n", n) }
	case 16:
		return "long names", func(n int) string { return "<a" + rep("n", n) + " v" + rep("v", n) + "=''></a" + rep("n", n) + ">" }
	case 17:
		return "timeline", func(n int) string {
			return mp(`<AdaptationSet><SegmentTemplate timescale="90000"><SegmentTimeline>` + seq(n, `<S t="%d" d="180000" r="3"/>`) + `</SegmentTimeline></SegmentTemplate></AdaptationSet>`)
		}
	case 18:
		return "events", func(n int) string {
			return mp(`<EventStream schemeIdUri="urn:s">` + seq(n, `<Event id="%d"><x:e k="1">t</x:e> t </Event>`) + `</EventStream>`)
		}
	default:
		g := newGen()
		g.budget = 12
		el := render(g.genTree(0, true, "").node())
		if i := strings.Index(el, "?>"); strings.HasPrefix(el, "<?xml") && i > 0 {
			el = el[i+2:]
		}
		return "trees", func(n int) string { return "<a>" + rep(el, n) + "</a>" }
	}
}

// deepText nests.
func deepText(r *Run) (string, func(n int) string) {
	rep := strings.Repeat
	switch ops(3) {
	case 0:
		return "depth", func(n int) string { return rep("<sub>t", n) + rep("</sub>", n) }
	case 1:
		return "depth with a namespace each", func(n int) string {
			var a, b strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&a, "<p:sub xmlns:p='urn:%d'>", i%5)
				b.WriteString("</p:sub>")
			}
			return a.String() + b.String()
		}
	}
	return "depth with attributes", func(n int) string { return rep("<sub k='1' xml:lang='en'>", n) + rep("</sub>", n) }
}

func runP20(r *Run) {
	mode := uint32(ops(3))
	simrt.SetPoolMode(mode)
	switch mode {
	case 1:
		r.fault("pool-reorders")
	case 2:
		r.fault("pool-never-reuses")
	}
	if fltP(1, 12) {
		ageing(r)
		return
	}
	r.fault("enlarged")
	n := []int{60, 250, 700, 1500}[flt(4)]
	switch ops(5) {
	case 0, 1: // text
		what, mk := bigText(r)
		deep := false
		if ops(6) == 5 {
			what, mk = deepText(r)
			n, deep = 10+min(n, 2000)/2, true
		}
		w := wayIn[ops(len(wayIn))]
		if deep && (strings.Contains(w.name, "RawB") || w.name == "copy tokens") {
			w = wayIn[3] // verbatim content of every level is more than linear by contract, as is the choice of prefixes against all levels
		}
		n = sized(n, len(mk(2))-len(mk(1)))
		growth(r, w.name+" of "+what, func(n int) (int, func() int64) {
			doc := []byte(mk(n))
			return len(doc), func() int64 { return w.f(r, doc, nil) }
		}, n)
	case 2, 3: // values
		var v any
		if ops(3) > 0 {
			g := newGen()
			m, _ := g.genMPD()
			v = m
		} else {
			v, _ = genValue(r, jobOpts{small: true})
		}
		var ls []reflect.Value
		longLists(reflect.ValueOf(v), 0, &ls)
		if len(ls) == 0 {
			r.Trivial = true
			return
		}
		l := ls[ops(len(ls))]
		orig := reflect.ValueOf(l.Interface())
		if l.Len() > 20 {
			orig = orig.Slice(0, 20)
		}
		if b, err := xml.Marshal(v); err == nil {
			n = sized(n, len(b))
		}
		name := fmt.Sprintf("%T with long %s", v, l.Type())
		back := ops(3)
		w := wayOut[ops(len(wayOut))]
		rw := wayIn[ops(len(wayIn))]
		growth(r, w.name+" of "+name, func(n int) (int, func() int64) {
			l.Set(repeated(orig, n))
			return 0, func() int64 { return w.f(r, nil, v) }
		}, n)
		if back == 0 {
			return
		}
		if m, ok := v.(*mpd.MPD); ok && back == 1 {
			growth(r, "Clone of "+name, func(n int) (int, func() int64) {
				l.Set(repeated(orig, n))
				m2 := m
				if doc, err := xml.Marshal(m); err == nil { // every element one of its own
					var m3 mpd.MPD
					if xml.Unmarshal(doc, &m3) == nil {
						m3.SetParents()
						m2 = &m3
					}
				}
				return n, func() int64 { mpd.Clone(m2); return int64(n) }
			}, n)
			return
		}
		growth(r, rw.name+" of written "+name, func(n int) (int, func() int64) {
			l.Set(repeated(orig, n))
			doc, _ := xml.Marshal(v)
			return len(doc), func() int64 { return rw.f(r, doc, nil) }
		}, n)
	case 4: // streams and building
		building(r, n)
	}
}

// sized keeps the large case below some megabytes.
func sized(n, unit int) int {
	const most = 2 << 20
	if 8*n*unit > most {
		n = max(12, most/(8*unit))
	}
	return n
}

func growth(r *Run, what string, mk func(n int) (int, func() int64), n int) {
	r.ev("growth", "%s n=%d", what, n)
	r.note(what)
	in, f := mk(n)
	r.measure(what, in, f) // one-time preparation
	a := r.measure(what, in, f)
	in, f = mk(8 * n)
	b := r.measure(what, in, f)
	compareCost(r, what, a, b)
}

func building(r *Run, n int) {
	k := ops(9)
	indent := ops(2) == 1
	names := []string{"AppendPeriod", "AppendAdaptationSet", "AppendRepresentation", "AppendSubRepresentation", "EncodeToken", "Encode again and again", "EncodeElement", "Flush after every token", "pooled encoders"}
	growth(r, names[k], func(n int) (int, func() int64) {
		return n, func() int64 {
			var w nullWriter
			e := xml.NewEncoder(&w)
			if indent {
				e.Indent("", " ")
			}
			m, p, a, rp := mpd.NewMPD("static"), mpd.NewPeriod(), mpd.NewAdaptationSet(), mpd.NewRepresentation()
			st := xml.StartElement{Name: xml.Name{Space: "urn:a", Local: "b"}, Attr: []xml.Attr{{Name: xml.Name{Space: "urn:p", Local: "k"}, Value: "v"}}}
			if k == 4 || k == 7 {
				e.EncodeToken(xml.StartElement{Name: xml.Name{Local: "root"}})
			}
			for i := 0; i < n; i++ {
				switch k {
				case 0:
					m.AppendPeriod(&mpd.Period{})
				case 1:
					p.AppendAdaptationSet(&mpd.AdaptationSetType{})
				case 2:
					a.AppendRepresentation(&mpd.RepresentationType{})
				case 3:
					rp.AppendSubRepresentation(&mpd.SubRepresentationType{})
				case 4, 7:
					e.EncodeToken(st)
					e.EncodeToken(xml.CharData("text & more"))
					e.EncodeToken(xml.Comment(" c "))
					e.EncodeToken(st.End())
					if k == 7 {
						e.Flush()
					}
				case 5:
					e.Encode(&Tree{XMLName: st.Name, Attrs: st.Attr, Text: "t"})
				case 6:
					e.EncodeElement("text", st)
				case 8:
					pe := xml.AcquireEncoder(&w)
					pe.EncodeElement(i, st)
					xml.ReleaseEncoder(pe)
				}
			}
			e.Close()
			return w.n
		}
	}, n)
}

// lcg is the generator of a life's documents: a whole life takes few choices.
type lcg uint64

func (l *lcg) n(k int) int {
	*l = *l*6364136223846793005 + 1442695040888963407
	return int(uint64(*l) >> 33 % uint64(k))
}

func (l *lcg) word(k int) string {
	b := make([]byte, k)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz"[l.n(26)]
	}
	return string(b)
}

// lifeDoc is a document unlike all others, of about size bytes.
func (l *lcg) lifeDoc(size int) string {
	var sb strings.Builder
	if l.n(2) == 0 {
		fmt.Fprintf(&sb, `<MPD xmlns="%s" xmlns:%s="urn:%s" profiles="%s">`, nsDASH, l.word(12), l.word(30), l.word(20))
		for sb.Len() < size {
			fmt.Fprintf(&sb, `<Period id="%s" %s="1"><AdaptationSet lang="%s" mimeType="%s"><%s %s="x"/><Role schemeIdUri="urn:%s" value="%s"/></AdaptationSet></Period>`,
				l.word(20), l.word(15), l.word(9), l.word(9), l.word(16), l.word(11), l.word(20), l.word(8))
		}
		return sb.String() + "</MPD>"
	}
	root := l.word(14)
	fmt.Fprintf(&sb, `<%s xmlns="urn:%s">`, root, l.word(20))
	for sb.Len() < size {
		a, p := l.word(25), l.word(13)
		fmt.Fprintf(&sb, `<%s %s="%s"><%s:%s xmlns:%s="urn:%s" %s:k="v"/>%s<!--%s--></%s>`, a, l.word(18), l.word(12), p, l.word(9), p, l.word(22), p, l.word(10), l.word(8), a)
	}
	return sb.String() + "</" + root + ">"
}

var lifeErr = fmt.Errorf("life: failing environment")

// failAfter fails, is short or panics after some bytes.
type failAfter struct {
	n, how int
}

func (w *failAfter) Write(p []byte) (int, error) {
	w.n -= len(p)
	if w.n > 0 {
		return len(p), nil
	}
	switch w.how {
	case 0:
		return 0, lifeErr
	case 1:
		return len(p) / 2, nil
	case 2:
		return len(p), lifeErr
	}
	panic(&envPanic{"life"})
}

// endsWith fails after its data.
type endsWith struct {
	pieces
	err error
}

func (s *endsWith) Read(p []byte) (int, error) {
	n, err := s.pieces.Read(p)
	if err != nil {
		err = s.err
	}
	return n, err
}

// Quitter is a marshaler that stops somewhere.
type Quitter struct{ Name, How string }

func (q *Quitter) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	st := xml.StartElement{Name: xml.Name{Space: "urn:" + q.Name, Local: q.Name}}
	e.EncodeToken(st)
	e.EncodeToken(xml.CharData(q.Name))
	switch q.How {
	case "error":
		return lifeErr
	case "panic":
		panic(&envPanic{"life"})
	}
	return e.EncodeToken(st.End())
}

// liveOne is one step of a process's life.
func liveOne(r *Run, l *lcg, size int) int64 {
	doc := l.lifeDoc(size)
	how := l.n(10)
	if l.n(60) == 0 {
		r.Faults["pool-purge"]++
		simrt.PurgePools()
	}
	switch {
	case how < 3: // clean
	case how == 3:
		r.Faults["cut"]++
		doc = doc[:l.n(len(doc))]
	case how == 4:
		r.Faults["damaged"]++
		i := l.n(len(doc))
		doc = doc[:i] + "<&" + doc[i:]
	}
	if how < 5 {
		w := wayIn[l.n(len(wayIn))]
		if l.n(4) == 0 { // given up half way
			r.Faults["abandoned"]++
			r.Faults["read-error"]++
			d := xml.NewDecoder(&endsWith{pieces{[]byte(doc), 0}, lifeErr})
			r.call("abandoned decoder", func() {
				for k := l.n(20); k > 0; k-- {
					if _, err := d.Token(); err != nil {
						break
					}
				}
			})
			return int64(len(doc))
		}
		r.call(w.name, func() { w.f(r, []byte(doc), nil) })
		return int64(len(doc))
	}
	var t Tree
	if xml.Unmarshal([]byte(doc), &t) != nil {
		harness("life document %q", clip(doc))
	}
	var v any = &t
	var m mpd.MPD
	if xml.Unmarshal([]byte(doc), &m) == nil {
		v = &m
	}
	switch how {
	case 5:
		w := wayOut[l.n(len(wayOut))]
		r.call(w.name, func() { w.f(r, nil, v) })
	case 6:
		r.Faults[[]string{"write-error", "short-write", "write-error-after-full", "write-panic"}[l.n(4)]]++
		r.call("failing write", func() { mpd.WriteXML(v, &failAfter{l.n(len(doc) + 1), l.n(4)}, " ", true) })
	case 7:
		r.Faults["misbehaving-value"]++
		q := &Quitter{l.word(20), pick3(l.n(3))}
		r.call("misbehaving value", func() { mpd.WriteXML(q, io.Discard, "", false) })
		r.call("misbehaving value", func() { xml.Marshal(q) })
	case 8:
		r.Faults["abandoned"]++
		r.call("abandoned encoder", func() {
			e := xml.NewEncoder(io.Discard)
			if l.n(2) == 0 {
				e = xml.AcquireEncoder(io.Discard)
			}
			ts := tokensOf(&t, nil)
			for _, tk := range ts[:1+l.n(len(ts))] {
				e.EncodeToken(tk)
			}
		})
	case 9:
		r.call("token writing", func() {
			e := xml.AcquireEncoder(&failAfter{l.n(2 * len(doc)), l.n(3)})
			for _, tk := range tokensOf(&t, nil) {
				if e.EncodeToken(tk) != nil {
					break
				}
			}
			xml.ReleaseEncoder(e)
			if m.XMLName.Local != "" {
				mpd.Clone(&m)
			}
		})
	}
	return int64(len(doc))
}

func pick3(i int) string { return []string{"error", "panic", "good"}[i] }

// live is the heap in use when everything that can be dropped has been.
func live() (heap int64, objects int64) {
	var m runtime.MemStats
	simrt.PurgePools() // as collections do
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc), int64(m.HeapObjects)
}

// endless is a stream of documents.
type endless struct {
	l     *lcg
	size  int
	rest  string
	total int64
}

func (s *endless) Read(p []byte) (int, error) {
	if s.rest == "" {
		s.rest = s.l.lifeDoc(s.size) + "\n"
		s.total += int64(len(s.rest))
	}
	n := copy(p, s.rest)
	s.rest = s.rest[n:]
	return n, nil
}

// longLived takes a document from the decoder and gives one to the encoder.
func longLived(r *Run, l *lcg, d *xml.Decoder, e *xml.Encoder) {
	var t *Tree
	var err error
	r.call("decoder in use for long", func() {
		switch l.n(4) {
		case 0, 1:
			t = new(Tree)
			err = d.Decode(t)
		case 2:
			err = d.Decode(new(RawB))
		case 3:
			for err == nil {
				var tk xml.Token
				tk, err = d.Token()
				if _, ok := tk.(xml.StartElement); ok {
					err = d.Skip()
					return
				}
			}
		}
	})
	if err != nil {
		r.fail("stream", "decode", "document of an endless stream: %v", err)
	}
	r.call("encoder in use for long", func() {
		switch {
		case t == nil:
			err = e.EncodeElement(l.n(1000), xml.StartElement{Name: xml.Name{Space: "urn:" + l.word(20), Local: l.word(15)}, Attr: []xml.Attr{{Name: xml.Name{Space: "urn:" + l.word(10) + "/" + l.word(9), Local: l.word(12)}, Value: "v"}}})
		case l.n(2) == 0:
			err = e.Encode(t)
		default:
			for _, tk := range tokensOf(t, nil) {
				if err = e.EncodeToken(tk); err != nil {
					return
				}
			}
			err = e.Flush()
		}
	})
	if err != nil {
		r.fail("stream", "encode", "value after many others: %v", err)
	}
}

// ageing is the life of a process.
func ageing(r *Run) {
	r.ev("life", "")
	l := lcg(uint64(ops(1<<16)) | 1)
	size := []int{150, 600, 4000}[ops(3)]
	count := []int{1500, 800, 250}[ops(3)]
	if size == 4000 {
		count = min(count, 400)
	}
	// The same operations at every age.
	var canary []func() int64
	var names []string
	for i := 0; i < 3; i++ {
		doc := []byte(l.lifeDoc(1500))
		w := wayIn[l.n(len(wayIn))]
		names = append(names, w.name)
		canary = append(canary, func() int64 { return w.f(r, doc, nil) })
		var m mpd.MPD
		var t Tree
		var v any = &m
		if xml.Unmarshal(doc, &m) != nil {
			xml.Unmarshal(doc, &t)
			v = &t
		}
		ww := wayOut[l.n(len(wayOut))]
		names = append(names, ww.name)
		canary = append(canary, func() int64 { return ww.f(r, nil, v) })
	}
	// One decoder and one encoder that are in use all the time.
	src := &endless{l: &l, size: size}
	dec, enc := xml.NewDecoder(src), xml.NewEncoder(io.Discard)
	if ops(2) == 1 {
		enc = xml.AcquireEncoder(io.Discard)
	}
	if ops(2) == 1 {
		enc.Indent("", " ")
	}
	age := func(n int) int64 {
		src.total = 0
		var b int64
		for i := 0; i < n; i++ {
			if l.n(3) == 0 {
				longLived(r, &l, dec, enc)
				continue
			}
			b += liveOne(r, &l, size/2+l.n(size))
		}
		return b + src.total
	}
	age(120) // one-time preparation
	first := make([]cost, len(canary))
	for i, f := range canary {
		r.measure(names[i], 0, f)
		first[i] = r.measure(names[i], 0, f)
	}
	h0, o0 := live()
	g0 := runtime.NumGoroutine()
	b1 := age(count)
	h1, o1 := live()
	b2 := age(count)
	h2, o2 := live()
	g2 := runtime.NumGoroutine()
	r.logf("live heap %d, %d after %d bytes, %d after %d bytes; objects %d %d %d", h0, h1, b1, h2, b2, o0, o1, o2)
	lim := func(b int64) int64 { return 48<<10 + b/8 }
	if h1-h0 > lim(b1) && h2-h1 > lim(b2) {
		r.fail("memory-retained", "", "live heap was %d bytes, %d after %d documents of %d bytes, %d after as many again", h0, h1, count, b1, h2)
	}
	// a leak of small objects: about one or more per document, twice in a row
	if per := int64(count) * 3 / 4; o1-o0 > per+500 && o2-o1 > per+500 {
		r.fail("objects-retained", "", "live objects were %d, %d after %d documents, %d after as many again", o0, o1, count, o2)
	}
	if g2 > g0+50 {
		r.fail("goroutines-retained", "", "%d goroutines, %d after %d documents", g0, g2, 2*count)
	}
	for i, f := range canary {
		r.measure(names[i], 0, f)
		c := r.measure(names[i], 0, f)
		if c.steps > first[i].steps+first[i].steps/8+300 {
			r.fail("work-grows-with-age", names[i], "at first: %v\nafter %d documents: %v", first[i], 2*count, c)
		}
		if c.bytes > 2*first[i].bytes+1<<16 {
			r.fail("allocation-grows-with-age", names[i], "at first: %v\nafter %d documents: %v", first[i], 2*count, c)
		}
	}
	runtime.KeepAlive(dec)
	runtime.KeepAlive(enc)
	runtime.KeepAlive(src)
	r.probe("lives")
	r.Probes["life-documents"] += int64(2 * count)
}
