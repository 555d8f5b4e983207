package dst

import (
	"fmt"
	"reflect"

	"dashsim/simrt"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&Scenario{
		ID: "P11", Quick: 50000, Thorough: 600000, Run: runP11, Fixed: fixedP11,
		Faults: []string{"node-restart", "pool-purge", "message-dup", "split-read", "empty-read", "byte-at-a-time", "eof-with-data", "byte-reader", "scribbled-buffer"},
		Rule: "Each run puts 1-4 drawn SCTE-35 messages (every SCTE-35 type and field of the frozen table, canonical and 2016 URI and mixes, unknown attributes, extension content; wrapped in Signal, direct, or as Binary; from constructors or from a foreign source with drawn prefix and default-namespace spelling) " +
			"into the events of an MPD, relays it over 2-5 hops with drawn functions, restarts, duplicates and reordering, and checks the whole information content, the values and the uniform accessor at every hop. Distinct by event sequence, content shape and spelling; trivial if no message was carried.",
		Real:   []string{"mpd (all)", "xml encoder and decoder (all)", "go-deepcopy"},
		Stub:   []string{"network between relays", "disk (read chunking)", "sync.Pool", "process restart (package state reset)"},
		Assume: []string{"extension content carries its own namespace declarations (otherwise see known findings)", "unknown attributes on elements whose type has room for them"},
	})
}

var scteTypes []string

var scteSchemes = []string{mpd.SCTE35SchemeIdXML, mpd.SCTE35SchemeIdXMLBin, mpd.SCTE35SchemeIdBin}

// message draws one SCTE-35 message as the child of an event.
func (g *docGen) message(r *Run, ev *mpd.EventType, n *Node) {
	uri := pick(g.scteNS)
	sisT := ""
	if ops(4) > 0 {
		for i := 0; sisT == "" && i < 8; i++ {
			t := pick(schemaNames)
			if schema[t].pass && pathTo("SpliceInfoSectionType", t) != nil {
				sisT = t
			}
		}
	}
	var route []string
	if sisT != "" {
		route = pathTo("SpliceInfoSectionType", sisT)
	}
	sis := func() (*mpd.SpliceInfoSectionType, *Node) {
		v := &mpd.SpliceInfoSectionType{}
		c := &Node{Space: uri, Local: "SpliceInfoSection", typ: "SpliceInfoSectionType"}
		g.fill(reflect.ValueOf(v).Elem(), "SpliceInfoSectionType", c, route, 3, uri)
		return v, c
	}
	form := ops(5)
	signal, direct, binary := form == 0 || form == 3, form == 1 || form == 4, form == 2
	switch form {
	case 3: // any combination of the three
		direct, binary = ops(2) == 1, ops(2) == 1
	case 4:
		binary = ops(2) == 1
		signal = ops(4) == 3
	}
	if signal {
		r.probe("carriage:signal")
		v, c := sis()
		ev.Signal = &mpd.SignalType{XMLName: xml.Name{Space: uri, Local: "Signal"}, SpliceInfoSection: v}
		n.Kids = append(n.Kids, &Node{Space: uri, Local: "Signal", typ: "SignalType", Kids: []*Node{c}})
	}
	if binary {
		r.probe("carriage:binary")
		val := pick([]string{"/DAhAAAAAAAAAP/wEAUAAAABf78A/gASZvAACgAKAAAAAAAAAAAAAA==", "AA==", ""})
		b := &mpd.BinaryType{XMLName: xml.Name{Space: uri, Local: "Binary"}, Value: val}
		c := &Node{Space: uri, Local: "Binary", typ: "BinaryType", Text: val, HasText: true}
		if ops(2) == 1 {
			b.SignalType = "private:x"
			c.Attrs = append(c.Attrs, NAttr{Local: "signalType", Val: "private:x", Kind: "string"})
		}
		if ev.Signal == nil {
			ev.Signal = &mpd.SignalType{XMLName: xml.Name{Space: uri, Local: "Signal"}}
			n.Kids = append(n.Kids, &Node{Space: uri, Local: "Signal", typ: "SignalType"})
		}
		ev.Signal.Binary = b
		sn := n.Kids[len(n.Kids)-1]
		sn.Kids = append(sn.Kids, c)
	}
	if direct {
		r.probe("carriage:direct")
		v, c := sis()
		ev.SpliceInfoSection = v
		n.Kids = append(n.Kids, c)
	}
	if signal && direct || binary && direct {
		r.probe("carriage:both")
	}
}

// built makes a message with the constructors only, with its expected content
// in the canonical namespace.
func built(r *Run, ev *mpd.EventType, n *Node) {
	const u = mpd.SCTE35Namespace
	el := func(l, t string, kids ...*Node) *Node { return &Node{Space: u, Local: l, typ: t, Kids: kids} }
	at := func(e *Node, k, v string) { e.Attrs = append(e.Attrs, NAttr{Local: k, Val: v, Kind: "string"}) }
	if ops(6) == 5 {
		ev.Signal = mpd.NewSignal()
		ev.Signal.Binary = mpd.NewBinary("AAEC")
		b := el("Binary", "BinaryType")
		b.Text, b.HasText = "AAEC", true
		n.Kids = append(n.Kids, el("Signal", "SignalType", b))
		r.probe("built:binary")
		return
	}
	s := mpd.NewSpliceInfoSection()
	c := el("SpliceInfoSection", "SpliceInfoSectionType")
	st := func() (*mpd.SpliceTimeType, *Node) {
		t := mpd.NewSpliceTime()
		e := el("SpliceTime", "SpliceTimeType")
		if ops(2) == 1 {
			p := newGen().uintN(64)
			t.PtsTime = &p
			at(e, "ptsTime", fmt.Sprint(p))
		}
		return t, e
	}
	k := ops(6)
	r.probe(fmt.Sprintf("built:command%d", k))
	switch k {
	case 0:
		s.SpliceNull = mpd.NewSpliceNull()
		c.Kids = append(c.Kids, el("SpliceNull", "SpliceNullType"))
	case 1:
		s.SpliceSchedule = mpd.NewSpliceSchedule()
		c.Kids = append(c.Kids, el("SpliceSchedule", "SpliceScheduleType"))
	case 2:
		x := mpd.NewSpliceInsert()
		e := el("SpliceInsert", "SpliceInsertType")
		b, d := ops(2) == 1, newGen().uintN(64)
		x.BreakDuration = mpd.NewBreakDuration(b, d)
		bd := el("BreakDuration", "BreakDurationType")
		at(bd, "autoReturn", fmt.Sprint(b))
		at(bd, "duration", fmt.Sprint(d))
		e.Kids = append(e.Kids, bd)
		s.SpliceInsert = x
		c.Kids = append(c.Kids, e)
	case 3:
		x := mpd.NewTimeSignal()
		e := el("TimeSignal", "TimeSignalType")
		var sn *Node
		x.SpliceTime, sn = st()
		e.Kids = append(e.Kids, sn)
		s.TimeSignal = x
		c.Kids = append(c.Kids, e)
	case 4:
		s.BandwidthReservation = mpd.NewBandwidthReservation()
		c.Kids = append(c.Kids, el("BandwidthReservation", "BandwidthReservationType"))
	case 5:
		id := uint32(newGen().uintN(32))
		s.PrivateCommand = mpd.NewPrivateCommand(id)
		e := el("PrivateCommand", "PrivateCommandType")
		at(e, "identifier", fmt.Sprint(id))
		if ops(2) == 1 {
			s.PrivateCommand.PrivateBytes = "ABCD"
			pb := el("PrivateBytes", "")
			pb.Text, pb.HasText = "ABCD", true
			e.Kids = append(e.Kids, pb)
		}
		c.Kids = append(c.Kids, e)
	}
	for i := ops(3); i > 0; i-- {
		d := mpd.NewSegmentationDescriptor()
		e := el("SegmentationDescriptor", "SegmentationDescriptorType")
		for j := ops(3); j > 0; j-- {
			up := mpd.NewSegmentationUpid("0102")
			d.SegmentationUpids = append(d.SegmentationUpids, up)
			un := el("SegmentationUpid", "SegmentationUpidType")
			un.Text, un.HasText = "0102", true
			e.Kids = append(e.Kids, un)
		}
		s.SegmentationDescriptors = append(s.SegmentationDescriptors, d)
		c.Kids = append(c.Kids, e)
	}
	if ops(2) == 1 {
		ev.SpliceInfoSection = s
		n.Kids = append(n.Kids, c)
		return
	}
	ev.Signal = mpd.NewSignal()
	ev.Signal.SpliceInfoSection = s
	n.Kids = append(n.Kids, el("Signal", "SignalType", c))
}

func runP11(r *Run) {
	simrt.SetPoolMode(uint32(ops(3)))
	g := newGen()
	g.budget, g.density = 12, 1+ops(5)
	m := &mpd.MPD{XMLNs: nsDASH}
	root := &Node{Space: nsDASH, Local: "MPD", typ: "MPD"}
	root.Attrs = append(root.Attrs, NAttr{Local: "profiles", Kind: "string"})
	p := mpd.NewPeriod()
	pn := &Node{Space: nsDASH, Local: "Period", typ: "Period"}
	m.AppendPeriod(p)
	root.Kids = append(root.Kids, pn)
	scheme := append(append([]string{}, scteSchemes...), "urn:other", "urn:scte:scte35:2013:xml ")[ops(5)]
	es := &mpd.EventStreamType{SchemeIdUri: mpd.AnyURI(scheme)}
	p.EventStreams = append(p.EventStreams, es)
	en := &Node{Space: nsDASH, Local: "EventStream", typ: "EventStreamType"}
	en.Attrs = append(en.Attrs, NAttr{Local: "schemeIdUri", Val: scheme, Kind: "string"})
	pn.Kids = append(pn.Kids, en)
	byHand := ops(3) == 0
	for i := 1 + ops(4); i > 0; i-- {
		ev := &mpd.EventType{}
		n := &Node{Space: nsDASH, Local: "Event", typ: "EventType", HasText: true}
		ev.PresentationTime = uint64(ops(1000))
		n.Attrs = append(n.Attrs, NAttr{Local: "presentationTime", Val: fmt.Sprint(ev.PresentationTime), Kind: "uint64"})
		if byHand {
			built(r, ev, n)
		} else {
			g.message(r, ev, n)
		}
		es.Events = append(es.Events, ev)
		en.Kids = append(en.Kids, n)
	}
	if ops(2) == 1 { // a DASH element after the foreign content
		p.SupplementalProperties = append(p.SupplementalProperties, mpd.NewDescriptor("urn:s", "", ""))
		pn.Kids = append(pn.Kids, &Node{Space: nsDASH, Local: "SupplementalProperty", typ: "DescriptorType", Attrs: []NAttr{{Local: "schemeIdUri", Val: "urn:s", Kind: "string"}}})
	}
	r.note(shapeOf(root))
	want := mpd.Clone(m)
	normDur(reflect.ValueOf(want))

	var doc string
	if byHand || ops(2) == 0 {
		var err error
		w := ops(len(writeNames))
		doc, err = writeMPD(r, w, m, drawIndent())
		if err != nil {
			r.fail("write-error", "publish", "writing failed: %v", err)
		}
		r.ev("publish", "by %s: %s", writeNames[w], doc)
		checkDoc(r, doc, root, "published")
	} else {
		doc = render(root)
		r.ev("publish-foreign", "%s", doc)
	}
	hops := 2 + ops(4)
	for h := 1; h <= hops; h++ {
		if fltP(1, 6) {
			r.fault("node-restart")
			simrt.Restart()
		}
		if fltP(1, 6) {
			r.fault("pool-purge")
			simrt.PurgePools()
		}
		copies := 1
		if fltP(1, 8) {
			r.fault("message-dup")
			copies = 2
		}
		var got *mpd.MPD
		var err error
		for ; copies > 0; copies-- {
			rd := ops(len(readNames))
			got, err = readMPD(r, rd, []byte(doc))
			if err != nil {
				r.fail("read-error", readNames[rd], "hop %d: %v\n%s", h, err, clip(doc))
			}
		}
		if k, mm := diffValues(got, want); k != "" {
			r.fail("field", k, "hop %d: %s (got versus published)\n%s", h, mm, clip(doc))
		}
		r.call("SpliceInfo", func() { checkAccessor(r, got, es) })
		if isS := got.Periods[0].EventStreams[0].IsSCTE35(); isS != (scheme == scteSchemes[0] || scheme == scteSchemes[1] || scheme == scteSchemes[2]) {
			r.fail("accessor", "IsSCTE35", "IsSCTE35 of scheme %q is %v", scheme, isS)
		}
		if ops(4) == 3 {
			r.call("Clone", func() { got = mpd.Clone(got) })
		}
		if ops(6) == 5 && len(got.Periods[0].EventStreams[0].Events) > 0 {
			// the other carriage form of the same message
			i := ops(len(got.Periods[0].EventStreams[0].Events))
			e := got.Periods[0].EventStreams[0].Events[i]
			we, wn := want.Periods[0].EventStreams[0].Events[i], en.Kids[i]
			if s := e.SpliceInfo(); s != nil && (e.Signal == nil || e.SpliceInfoSection == nil && e.Signal.Binary == nil) {
				flip(e, wn, true)
				flip(we, wn, false)
				r.probe("carriage-flip")
				if e.SpliceInfo() != s {
					r.fail("accessor", "SpliceInfo", "the accessor returns another section after changing the carriage form")
				}
			}
		}
		w := ops(len(writeNames))
		doc, err = writeMPD(r, w, got, drawIndent())
		if err != nil {
			r.fail("write-error", "relay", "hop %d by %s: %v", h, writeNames[w], err)
		}
		r.ev("hop", "%d by %s: %s", h, writeNames[w], doc)
		r.record(doc)
		checkDoc(r, doc, root, fmt.Sprintf("relayed (hop %d)", h))
	}
	r.SimNanos += int64(hops) * 50_000_000
}

// flip changes the carriage form of an event: a message in Signal becomes a
// direct one and the other way round.
func flip(e *mpd.EventType, n *Node, tree bool) {
	if e.Signal != nil {
		e.SpliceInfoSection, e.Signal = e.Signal.SpliceInfoSection, nil
		if tree {
			n.Kids = n.Kids[0].Kids
		}
		return
	}
	u := e.SpliceInfoSection.XMLName.Space
	e.Signal, e.SpliceInfoSection = &mpd.SignalType{XMLName: xml.Name{Space: u, Local: "Signal"}, SpliceInfoSection: e.SpliceInfoSection}, nil
	if tree {
		n.Kids = []*Node{{Space: u, Local: "Signal", typ: "SignalType", Kids: n.Kids}}
	}
}

func checkAccessor(r *Run, got *mpd.MPD, es *mpd.EventStreamType) {
	for _, e := range got.Periods[0].EventStreams[0].Events {
		s := e.SpliceInfo()
		var want *mpd.SpliceInfoSectionType
		if e.Signal != nil { // wrapped comes first, as SCTE 214-1 has it
			want = e.Signal.SpliceInfoSection
		}
		if want == nil {
			want = e.SpliceInfoSection
		}
		if s != want {
			r.fail("accessor", "SpliceInfo", "SpliceInfo returned %v for an event with Signal %v and SpliceInfoSection %v", s, e.Signal, e.SpliceInfoSection)
		}
	}
}

// fixedP11 demonstrates the known findings.
func fixedP11(r *Run) {
	c := ops(64)
	const head = `<MPD xmlns="` + nsDASH + `" profiles=""`
	const u = `http://www.scte.org/schemas/35`
	var doc, key string
	switch c {
	case 0:
		key = "prefix-declared-outside"
		doc = head + ` xmlns:x="urn:x"><Period><EventStream schemeIdUri="urn:scte:scte35:2013:xml"><Event presentationTime="0"><Signal xmlns="` + u + `"><SpliceInfoSection><Ext><x:foo/></Ext></SpliceInfoSection></Signal></Event></EventStream></Period></MPD>`
	case 1:
		key = "default-namespace-outside"
		doc = head + `><Period><EventStream schemeIdUri="urn:scte:scte35:2013:xml"><Event presentationTime="0"><s:Signal xmlns:s="` + u + `"><s:SpliceInfoSection><s:Ext><foo/></s:Ext></s:SpliceInfoSection></s:Signal></Event></EventStream></Period></MPD>`
	default:
		harness("fixed-done")
	}
	before, err := parseInfoset(doc)
	if err != nil {
		harness("fixed document: %v", err)
	}
	m, err := readMPD(r, 0, []byte(doc))
	if err != nil {
		r.fail("read-error", "fixed", "%v", err)
	}
	out, err := writeMPD(r, 0, m, "")
	if err != nil {
		r.fail("write-error", "fixed", "%v", err)
	}
	ext := func(n *Node) *Node {
		for _, k := range n.nodes() {
			if k.Local == "Ext" {
				return k
			}
		}
		return nil
	}
	after, err := parseInfoset(out)
	if err != nil {
		r.fail("ext-inner", key, "extension content that relies on a namespace declared outside the message is relayed without it: %v\n%s", err, out)
	}
	a, b := ext(before), ext(after)
	if b == nil || canonKids(a) != canonKids(b) {
		r.fail("ext-inner", key, "extension content that relies on a namespace declared outside the message changes its meaning: %q\n%s", canonKids(b), out)
	}
}

func canonKids(n *Node) string {
	if n == nil {
		return ""
	}
	s := ""
	for _, k := range n.Kids {
		s += canonText(k)
	}
	return s
}
