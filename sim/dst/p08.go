package dst

import (
	"fmt"
	"io"
	"runtime/debug"
	"strings"
	"time"

	"dashsim/simrt"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&Scenario{
		ID: "P08", Quick: 18000, Thorough: 1000000, Run: runP08,
		Faults: []string{"bit-flip", "span-lost", "span-duplicated", "span-moved", "splice", "byte-replaced", "bogus-token", "cut", "zeroed-block", "value-damaged", "absurd", "reader-error", "unmarshaler-misbehaves", "node-restart", "pool-purge"},
		Rule: "Each run feeds a node 3-8 damaged inputs (manifests, trees, grammar soup with 1-4 drawn corruptions each, and absurd structures: nesting up to 30000 deep, thousands of attributes, declarations, siblings, entities, huge names and numbers) through every reading function and plan under a statement budget linear in the input; after each, 1-3 good documents must be parsed and written exactly as by a fresh node. Damaged single values go to the functions that read those. Some inputs are repeated up to thousands of times. " +
			"Distinct by event sequence and damage kinds; trivial never.",
		Real:   []string{"mpd (readers, writers)", "xml decoder and encoder (all)"},
		Stub:   []string{"byte sources", "sync.Pool", "process restart", "user unmarshalers"},
		Assume: []string{"work is counted in executed statements of the library (calls into the Go runtime and standard library count as one)"},
	})
}

// good is an operation on healthy data with its outcome on a fresh node.
type good struct {
	name string
	f    func(r *Run) string
	want string
}

// settingTexts read differently with and without the settings of a decoder.
var settingTexts = []string{"<a>&copy;</a>", "<a k='&copy;'/>", "<a k='&bogus;'/>", "<a>x&bogus;&copy;y</a>", "<a><b>x<br>y</b></a>", "<a k=v/>", "<a k/>",
	"<?xml version='1.0' encoding='latin1'?><a>\xe9</a>", "<a><sub/>t<x-y>u</a>", "<p:a q:k='1'/>", "<a>&nbsp;</a>"}

func drawGood(r *Run) *good {
	switch ops(4) {
	case 0:
		doc := source(r)
		i := ops(len(readNames))
		return &good{name: "parse " + readNames[i], f: func(r *Run) string {
			m, err := readMPD(r, i, []byte(doc))
			return snapshot(m) + errStr(err)
		}}
	case 1:
		m, _ := newGen().genMPD()
		in := drawIndent()
		return &good{name: "write", f: func(r *Run) (s string) {
			r.call("write", func() {
				var err error
				s, err = m.WriteToString(in, true)
				s += errStr(err)
			})
			return
		}}
	case 2:
		doc, kind := anyText(r, false)
		p := drawPlan(kind)
		if ops(2) == 1 { // what a strict reader without settings must refuse or not resolve
			doc = pick(settingTexts)
			p = plan{kind: ops(nPlanKinds), target: []int{1, 6}[ops(2)], every: 2, pos: true}
		}
		return &good{name: "parse " + p.String(), f: func(r *Run) string {
			return p.perform(r, xml.NewDecoder(strings.NewReader(doc)))
		}}
	}
	j := drawJob(r, jobOpts{small: true})
	return &good{name: j.name, f: func(r *Run) string { return j.start(r).run().outcome() }}
}

// absurd draws a structure no publisher would make.
func absurd(r *Run) (string, string) {
	r.fault("absurd")
	n := []int{50, 400, 3000, 9990, 10010, 30000}[flt(6)]
	var sb strings.Builder
	pre, post := "", ""
	if flt(2) == 1 {
		pre, post = `<MPD xmlns="urn:mpeg:dash:schema:mpd:2011"><Period><AdaptationSet><Representation>`, `</Representation></AdaptationSet></Period></MPD>`
		if flt(3) == 2 {
			pre, post = `<MPD xmlns="urn:mpeg:dash:schema:mpd:2011"><Period><EventStream><Event>`, `</Event></EventStream></Period></MPD>`
		}
	}
	sb.WriteString(pre)
	k := flt(12)
	many := min(n, 3000)
	switch k {
	case 0:
		sb.WriteString(strings.Repeat("<a>", n))
		if flt(2) == 1 {
			sb.WriteString(strings.Repeat("</a>", n))
		}
	case 1:
		nm := pick([]string{"Period", "Representation", "AdaptationSet", "Event", "Signal", "SegmentTemplate", "SubRepresentation", "MPD", "sub", "b"})
		sb.WriteString(strings.Repeat("<"+nm+">", n))
		sb.WriteString(strings.Repeat("</"+nm+">", n))
	case 2:
		sb.WriteString("<a")
		for i := 0; i < many; i++ {
			fmt.Fprintf(&sb, " x%d='%d'", i, i)
		}
		sb.WriteString("/>")
	case 3:
		for i := 0; i < min(n, 9000); i++ {
			fmt.Fprintf(&sb, "<p:a xmlns:p='urn:%d'>", i)
		}
		for i := 0; i < min(n, 9000); i++ {
			sb.WriteString("</p:a>")
		}
	case 4:
		sb.WriteString("<a>" + strings.Repeat("&#x41;&amp;", many) + "</a>")
	case 5:
		sb.WriteString("<" + strings.Repeat("n", n) + " " + strings.Repeat("v", n) + "='" + strings.Repeat("9", n) + "'/>")
	case 6:
		sb.WriteString("<!D " + strings.Repeat("<", n) + strings.Repeat(">", n) + ">")
	case 7:
		sb.WriteString("<a>" + strings.Repeat("]]", n) + ">" + strings.Repeat(">", many) + "</a>")
	case 8:
		sb.WriteString(strings.Repeat("<!---->", many) + "<a>" + strings.Repeat("<![CDATA[]]>", many) + "</a>")
	case 9:
		sb.WriteString(`<SegmentTemplate timescale="` + strings.Repeat("9", 400) + `"><SegmentTimeline>` + strings.Repeat(`<S t="99999999999999999999999" d="-1" r="1e9"/>`, min(n, 500)) + `</SegmentTimeline></SegmentTemplate>`)
	case 10:
		sb.WriteString("<a xmlns='urn:a'>" + strings.Repeat("<b xmlns=''><c xmlns='urn:c' c='&lt;'/></b>", many) + "</a>")
	case 11:
		sb.WriteString(`<a d="P` + strings.Repeat("9", n%500+1) + `DT` + strings.Repeat("1", n%300+1) + `H"/>`)
	}
	sb.WriteString(post)
	return sb.String(), fmt.Sprintf("absurd-%d", k)
}

func runP08(r *Run) {
	simrt.SetPoolMode(uint32(ops(3)))
	var gs []*good
	for k := 1 + ops(3); k > 0; k-- {
		gs = append(gs, drawGood(r))
	}
	for _, g := range gs {
		simrt.Restart()
		simrt.PurgePools()
		g.want = g.f(r)
		r.record(g.want)
	}
	var texts []string
	for k := 3 + ops(6); k > 0; k-- {
		var doc, kind string
		scalars(r)
		if fltP(1, 40) {
			deepest(r)
			continue
		}
		switch flt(5) {
		case 4:
			doc, kind = absurd(r)
			if flt(4) == 3 {
				doc = corrupt(r, doc, append(texts, doc))
			}
		case 3:
			doc, kind = badCallbacks(r), "callbacks"
			r.fault("unmarshaler-misbehaves")
		default:
			doc, kind = anyText(r, true)
			switch flt(60) {
			case 59:
				doc, kind = longRuns(), "long"
			case 50, 51, 52, 53, 54, 55, 56, 57, 58:
				doc, kind = pick(settingTexts), "settings"
			}
			if kind == "settings" && flt(3) > 0 {
				break
			}
			doc = corrupt(r, doc, append(texts, doc))
		}
		texts = append(texts, doc)
		if fltP(1, 10) {
			r.fault("pool-purge")
			simrt.PurgePools()
		}
		if fltP(1, 12) {
			r.fault("node-restart")
			simrt.Restart()
		}
		old := r.budget
		r.budget = 200_000 + 1500*int64(len(doc))
		if ops(2) == 0 && kind != "callbacks" {
			i := ops(len(readNames))
			r.ev("parse", "%s %s: %q", kind, readNames[i], clip(doc))
			m, err := readMPD(r, i, []byte(doc))
			r.record(errStr(err))
			if fltP(1, 500) { // a publisher that goes on sending it
				r.probe("long-history")
				for n := longTurns(len(doc), 0); n > 0; n-- {
					_, again := readMPD(r, i, []byte(doc))
					if errStr(again) != errStr(err) {
						r.fail("aftermath", readNames[i], "the same input, parsed again: %v, then %v; input %q", errStr(err), errStr(again), clip(doc))
					}
				}
			}
			if err == nil {
				r.probe("accepted")
				if m == nil {
					r.fail("neither", readNames[i], "%s returned neither an MPD nor an error for %q", readNames[i], clip(doc))
				}
				r.call("write of accepted input", func() { _, err = m.WriteToString(drawIndent(), false) })
				r.record(errStr(err))
				accessors(r, m)
			}
		} else {
			p := drawPlan(kind)
			if kind == "settings" {
				p.entity, p.target = flt(4) > 0, 1
			} else if kind == "callbacks" {
				p.target = 4
			} else if flt(2) == 1 {
				p.target = flt(len(targetNames))
			}
			var end error
			if fltP(1, 8) {
				end = drawReadError(r)
				r.fault("reader-error")
			}
			r.ev("parse", "%s %s: %q", kind, p, clip(doc))
			var src io.Reader = strings.NewReader(doc)
			if end != nil || style(2) == 1 {
				src = deliver(r, drawDelivery(r), []byte(doc), end)
			}
			r.record(p.perform(r, xml.NewDecoder(src)))
			r.note(p.String())
		}
		r.budget = old
		r.note(kind)
		g := gs[ops(len(gs))]
		if got := g.f(r); got != g.want {
			r.fail("aftermath", g.name, "after parsing %s, %s gives another result than on a fresh node: %s\ninput %q", kind, g.name, diffAt(got, g.want), clip(doc))
		}
		r.SimNanos += 1_000_000
	}
}

// scalars reads texts that are nearly values with what reads single values.
func scalars(r *Run) {
	for k := 1 + flt(4); k > 0; k-- {
		s := ""
		if flt(8) > 0 {
			s = "P"
		}
		for n := flt(8); n > 0; n-- {
			s += pick([]string{"T", "T", "1", "0", "25", "1.5", ".5", "2.", ".", "99999999999", "9223372036.854775807", "99999999999999999999", "D", "H", "M", "S", "S", "Y", "W", "P", "-", "+", " ", "e5", "\x00", "é", "INF", "NaN"})
		}
		if flt(2) == 1 {
			s = damageScalar(durText(time.Duration(flt(1<<30)) * 1_000_003))
		}
		a := xml.Attr{Name: xml.Name{Local: "v"}, Value: s}
		var d mpd.Duration
		var f mpd.FloatInf64
		var v mpd.StringNoWhitespaceVectorType
		r.call(fmt.Sprintf("reading the value %q", s), func() {
			t, err := mpd.ParseDuration(s)
			r.record(t.String() + errStr(err))
			r.record(errStr(d.UnmarshalXMLAttr(a)) + errStr(f.UnmarshalXMLAttr(a)) + errStr(v.UnmarshalXMLAttr(a)))
		})
	}
	r.fault("value-damaged")
}

// Deep is a type a user can nest in itself in every way the xml package knows.
type Deep struct {
	N *Deep   `xml:"n"`
	S []Deep  `xml:"s"`
	P []*Deep `xml:"p"`
	W *Deep   `xml:"w>d"`
	V []*Deep `xml:"v>x>d"`
	Emb
	A []*Deep `xml:",any"`
}

type Emb struct {
	E *Deep  `xml:"e"`
	I *DeepI `xml:"i"`
}

// DeepI decodes itself by a callback.
type DeepI struct {
	D *Deep
	L int
}

func (i *DeepI) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	simrt.Point(123)
	i.D = new(Deep)
	return d.DecodeElement(i.D, &start)
}

// stackBound is the stack a parse may take whatever the input.
const stackBound = 96 << 20

// deepest parses elements nested far beyond reason into a type that nests as deep:
// the answer is an error, not the end of the process. A stack overflow cannot be
// recovered from, so it is recognised by the worker's death.
func deepest(r *Run) {
	r.fault("absurd")
	n := []int{200, 5000, 9000, 12000, 60000, 200000}[flt(6)]
	steps := []struct{ open, shut string }{{"<n>", "</n>"}, {"<s>", "</s>"}, {"<p>", "</p>"}, {"<w><d>", "</d></w>"}, {"<v><x><d>", "</d></x></v>"}, {"<e>", "</e>"}, {"<i>", "</i>"}, {"<zz>", "</zz>"}}
	var mix []int
	for k := 1 + flt(3); k > 0; k-- {
		mix = append(mix, flt(len(steps)))
	}
	var sb strings.Builder
	sb.WriteString("<deep>")
	for i := 0; i < n; i++ {
		sb.WriteString(steps[mix[i%len(mix)]].open)
	}
	if flt(3) > 0 {
		for i := n - 1; i >= 0; i-- {
			sb.WriteString(steps[mix[i%len(mix)]].shut)
		}
		sb.WriteString("</deep>")
	}
	r.ev("deep", "%d levels of %v", n, mix)
	r.note(fmt.Sprintf("deep%d", n))
	old, bound := r.budget, debug.SetMaxStack(stackBound)
	r.budget = 200_000 + 1500*int64(sb.Len())
	var err error
	var v Deep
	r.call("Unmarshal of deep nesting", func() { err = xml.Unmarshal([]byte(sb.String()), &v) })
	r.record(errStr(err))
	if fltP(1, 12) {
		r.probe("long-history")
		for k := flt(24); k > 0; k-- {
			r.call("Unmarshal of deep nesting", func() { xml.Unmarshal([]byte(sb.String()), new(Deep)) })
		}
	}
	if err == nil && n <= 9000 {
		r.probe("deep-accepted")
		r.call("write of deep value", func() { _, err = xml.Marshal(&v) })
		r.record(errStr(err))
	}
	debug.SetMaxStack(bound)
	r.budget = old
}

// accessors calls what an application calls on a parsed manifest.
func accessors(r *Run, m *mpd.MPD) string {
	var sb strings.Builder
	r.call("accessors", func() {
		put := func(name string, v any, err error) {
			fmt.Fprintf(&sb, "%s=%s/%s ", name, snapshotFlat(v), errStr(err))
		}
		put("type", m.GetType(), nil)
		for _, p := range m.Periods {
			if p == nil {
				continue
			}
			i, err := p.GetIndex()
			put("index", i, err)
			t, err := p.GetType()
			put("ptype", t.String(), err)
			s, err := p.GetStart()
			put("start", s, err)
			d, err := p.GetDuration()
			put("duration", d, err)
			a, err := p.AbsoluteStart(m)
			put("abs", a, err)
			for _, a := range p.AdaptationSets {
				if a == nil {
					continue
				}
				put("st", a.GetSegmentTemplate() != nil, nil)
				put("mime", a.GetMimeType(), nil)
				put("codecs", a.GetCodecs(), nil)
				put("cp", len(a.GetContentProtections()), nil)
				for _, rp := range a.Representations {
					if rp == nil {
						continue
					}
					in, err := rp.GetInit()
					put("init", in, err)
					me, err := rp.GetMedia()
					put("media", me, err)
					put("rmime", rp.GetMimeType(), nil)
					put("rcodecs", rp.GetCodecs(), nil)
					put("rcp", len(rp.GetContentProtections()), nil)
					put("rst", rp.GetSegmentTemplate() != nil, nil)
				}
			}
			for _, es := range p.EventStreams {
				if es == nil {
					continue
				}
				put("scte", es.IsSCTE35(), nil)
				for _, e := range es.Events {
					if e != nil {
						put("splice", e.SpliceInfo() != nil, nil)
					}
				}
			}
		}
	})
	return sb.String()
}

func snapshotFlat(v any) string { return fmt.Sprintf("%v", v) }

var cbScripts = []string{"error", "panic", "none", "one", "greedy", "greedy-skip", "raw", "late-error", "skip", "partial-error", "again", ""}

// badCallbacks draws a document whose unmarshalers misbehave.
func badCallbacks(r *Run) string {
	var sb strings.Builder
	sb.WriteString(`<holder a="` + pick([]string{"x", "x", "x", "error", "panic"}) + `" b="y">`)
	for k := 1 + ops(6); k > 0; k-- {
		switch ops(5) {
		case 0, 1:
			sb.WriteString(`<cb mode="` + pick(cbScripts) + `">` + pick([]string{"", "x", "<a/>", "<a>1</a><b>2</b>", "t<a k='1'>u<b/></a>v"}) + `</cb>`)
		case 2:
			sb.WriteString(`<tx>` + pick([]string{"x", "y&lt;", "error", "panic", "a<b>c</b>d"}) + `</tx>`)
		case 3:
			sb.WriteString(`<after k="1">v<more>m</more></after>`)
		case 4:
			sb.WriteString(`<mid><m>1</m></mid><before>b</before>`)
		}
	}
	sb.WriteString("</holder>")
	return sb.String()
}
