package dst

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"strings"

	"dashsim/simrt"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&Scenario{
		ID: "P19", Quick: 40000, Thorough: 3000000, Run: runP19,
		Faults: []string{"input-overwritten", "consumed-input-overwritten", "token-argument-overwritten", "attributes-appended", "returned-bytes-overwritten", "document-changed", "result-edited", "file-overwritten", "node-restart", "pool-purge", "pool-reorders", "pool-never-reuses", "write-error", "short-write", "write-panic", "write-error-after-full", "interleaved"},
		Rule: "Each run is a history of 8-30 steps over several decoders, encoders and buffers of one caller: parse a manifest or value out of a buffer, advance one of up to three decoders by a token, a decoded element or a skip, write a document to a string, bytes or a destination, build parts with the constructors and edit one of two results, feed an encoder tokens from the caller's memory, and in between overwrite input buffers (also the part a decoder has already consumed), token arguments, returned byte slices, files and documents, and purge or reorder the pools. Everything that was returned is kept with a deep copy made at once and compared after every step; an uncopied token until its decoder is asked for the next one; inputs and documents passed in must come out of each call as they went in. " +
			"Distinct by event sequence; trivial if nothing was returned.",
		Real: []string{"mpd (readers, writers)", "xml encoder and decoder (all)"},
		Stub: []string{"the caller's memory", "destinations", "files (read layer)", "sync.Pool", "process restart"},
	})
}

// RawB takes content as byte slices.
type RawB struct {
	XMLName xml.Name
	Attrs   []xml.Attr `xml:",any,attr"`
	Text    []byte     `xml:",chardata"`
	Comment []byte     `xml:",comment"`
	Inner   []byte     `xml:",innerxml"`
	Kids    []*RawB    `xml:",any"`
}

// BAttr keeps attribute bytes through a text unmarshaler that may keep what it
// copied only.
type BAttr struct {
	XMLName xml.Name
	K       []byte `xml:"k,attr"`
	ID      string `xml:"id,attr"`
	B       []byte `xml:"b"`
	C       string `xml:"c1"`
}

// BDoc holds its content in byte slices.
type BDoc struct {
	XMLName xml.Name `xml:"bdoc"`
	K       []byte   `xml:"k,attr"`
	T       *BTxt    `xml:"t,attr"`
	B       [][]byte `xml:"b"`
	Arr     [6]byte  `xml:"arr"`
	X       *BTxt    `xml:"x"`
	C       []byte   `xml:",comment"`
	Text    []byte   `xml:",chardata"`
}

// BCDATA is the same with a CDATA section.
type BCDATA struct {
	XMLName xml.Name `xml:"bcdata"`
	Text    []byte   `xml:",cdata"`
}

type BInner struct {
	XMLName xml.Name `xml:"binner"`
	Inner   []byte   `xml:",innerxml"`
}

// BTxt hands out its own memory.
type BTxt struct{ b []byte }

func (t *BTxt) MarshalText() ([]byte, error) { return t.b, nil }

func genBytesDoc() any {
	b := func() []byte {
		s := pick([]string{"a\r\nb", "\r", "<&>\"'", "\x00\x01", "\xff\xfe", " lead", "]]>", "ü\n\t", strings.Repeat("long<\r\n", 1+ops(900)), ""})
		return append(make([]byte, 0, len(s)+8), s...)
	}
	switch ops(6) {
	case 0:
		return &BCDATA{Text: b()}
	case 1:
		return &BInner{Inner: []byte("<i>a\r\nb</i>\r")}
	}
	d := &BDoc{K: b(), T: &BTxt{b()}, X: &BTxt{b()}, Text: b(), C: []byte("c\r\n-")}
	copy(d.Arr[:], b())
	for k := ops(3); k > 0; k-- {
		d.B = append(d.B, b())
	}
	return d
}

// held is something the library returned.
type held struct {
	what string
	want string
	now  func() string
}

type keeper struct {
	r    *Run
	held []held
}

func (k *keeper) hold(what string, now func() string) {
	k.r.Trivial = false
	if len(k.held) > 40 {
		k.held = k.held[1:]
	}
	k.held = append(k.held, held{what, strings.Clone(now()), now})
	k.r.record(k.held[len(k.held)-1].want)
}

func (k *keeper) check(step string) {
	for i, h := range k.held {
		if got := h.now(); got != h.want {
			k.r.fail("changed", h.what, "%s (%d steps old list position %d) changed after %s: %s", h.what, len(k.held)-i, i, step, diffAt(got, h.want))
		}
	}
}

// scribble overwrites a buffer the way a caller that reuses it does.
func scribble(b []byte) {
	c := byte(pick([]string{"\x00", "X", "<", "\xff"})[0])
	for i := range b {
		b[i] = c
	}
}

type liveDec struct {
	d    *xml.Decoder
	buf  []byte // nil if the source is not a plain buffer
	src  *bytes.Reader
	tok  *held // uncopied token
	done bool
	id   int
}

type liveEnc struct {
	e    *xml.Encoder
	w    *simWriter
	ref  *xml.Encoder // given the same, undamaged
	rw   bytes.Buffer
	open []xml.Name
	pool bool
	id   int
}

func docText(r *Run) (string, int) {
	s := drawStreamDoc(r)
	return s.text, s.target
}

func runP19(r *Run) {
	r.Trivial = true
	switch m := uint32(ops(3)); m {
	case 1:
		simrt.SetPoolMode(m)
		r.fault("pool-reorders")
	case 2:
		simrt.SetPoolMode(m)
		r.fault("pool-never-reuses")
	default:
		simrt.SetPoolMode(m)
	}
	k := &keeper{r: r}
	var decs []*liveDec
	var encs []*liveEnc
	var bufs [][]byte // buffers that are the caller's to overwrite
	type doc struct {
		v    *mpd.MPD
		snap string
	}
	var docs []doc
	var slices [][]byte
	id := 0
	// kept wraps a call that must not modify an input
	kept := func(what string, b []byte, f func()) {
		whole := b[:cap(b)]
		before := string(whole)
		r.call(what, f)
		if string(whole) != before {
			r.fail("input-modified", what, "%s modified its input: %s", what, diffAt(string(whole), before))
		}
	}
	newBuf := func(text string) []byte {
		b := make([]byte, len(text)+ops(3)*8)
		copy(b, text)
		for i := len(text); i < len(b); i++ {
			b[i] = '~'
		}
		b = b[:len(text)]
		bufs = append(bufs, b)
		return b
	}
	encode := func(what string, v any, f func()) {
		before := snapshot(v)
		ep := r.call(what, f)
		_ = ep
		if after := snapshot(v); after != before {
			r.fail("document-modified", what, "%s modified what it was given: %s", what, diffAt(after, before))
		}
	}
	for n := 8 + ops(23); n > 0; n-- {
		step := ""
		switch ops(17) {
		case 16:
			step = k.construct()
		case 0, 1: // a manifest out of a buffer, string or file
			text := source(r)
			if len(text) > 30000 {
				text = `<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" id="i"><Period id="p"/></MPD>`
			}
			var m *mpd.MPD
			var err error
			switch ops(4) {
			case 0, 1:
				step = "MPDFromBytes"
				b := newBuf(text)
				kept(step, b, func() { m, err = mpd.MPDFromBytes(b) })
			case 2:
				step = "xml.Unmarshal of an MPD"
				b := newBuf(text)
				m = new(mpd.MPD)
				kept(step, b, func() { err = xml.Unmarshal(b, m) })
			case 3:
				step = "ReadFromFile"
				f := scratchFile("p19.mpd")
				if e := os.WriteFile(f, []byte(text), 0o644); e != nil {
					harness("%v", e)
				}
				r.call(step, func() { m, err = mpd.ReadFromFile(f) })
				r.fault("file-overwritten")
				if e := os.WriteFile(f, []byte(strings.Repeat("<", len(text))), 0o644); e != nil {
					harness("%v", e)
				}
			}
			r.ev(step, "%v", err)
			if err == nil {
				k.hold("MPD from "+step, func() string { return snapshot(m) })
				if ops(3) == 2 {
					docs = append(docs, doc{m, snapshot(m)})
				}
			} else {
				k.hold("error from "+step, func() string { return err.Error() })
			}
		case 2: // a value out of a buffer
			text, target := docText(r)
			b := newBuf(text)
			var v any
			if ops(2) == 0 {
				v = newTarget(target)
			} else {
				v = []any{new(RawB), new(BAttr), new(RawXML), new(Tree)}[ops(4)]
			}
			var err error
			step = "xml.Unmarshal"
			kept(step, b, func() { err = xml.Unmarshal(b, v) })
			r.ev(step, "%T %v", v, err)
			k.hold(fmt.Sprintf("%T from xml.Unmarshal", v), func() string { return exportedOf(v) + errStr(err) })
		case 3: // a new decoder
			if len(decs) >= 3 {
				break
			}
			text := ""
			for j := 1 + ops(3); j > 0; j-- {
				t, _ := docText(r)
				text += t + pick([]string{"", "\n", "<!--c-->"})
			}
			id++
			l := &liveDec{id: id}
			switch ops(4) {
			case 0, 1:
				l.buf = newBuf(text)
				bufs = bufs[:len(bufs)-1] // not to be overwritten before it is read
				l.src = bytes.NewReader(l.buf)
				l.d = xml.NewDecoder(l.src)
			case 2:
				l.d = xml.NewDecoder(deliver(r, drawDelivery(r), []byte(text), nil))
			case 3:
				if src := streamTokens(text, streamSetup{}); src != nil {
					l.d = xml.NewTokenDecoder(src)
				} else {
					l.d = xml.NewDecoder(strings.NewReader(text))
				}
			}
			if len(decs) > 0 {
				r.fault("interleaved")
			}
			decs = append(decs, l)
			step = "NewDecoder"
			r.ev(step, "%d", l.id)
		case 4, 5, 6, 7, 8: // advance a decoder
			if len(decs) == 0 {
				break
			}
			for j := 1 + ops(5); j > 0; j-- {
				i := ops(len(decs))
				l := decs[i]
				step = k.advance(l)
				r.ev(step, "%d", l.id)
				if l.buf != nil && ops(2) == 1 {
					r.fault("consumed-input-overwritten")
					scribble(l.buf[:len(l.buf)-l.src.Len()])
				}
				for _, l := range decs {
					l.check(r, step)
				}
				if l.done {
					decs = append(decs[:i:i], decs[i+1:]...)
					if len(decs) == 0 {
						break
					}
				}
			}
		case 9, 10: // write a document
			var v any
			if len(docs) > 0 && ops(2) == 1 {
				v = docs[ops(len(docs))].v
			} else if ops(4) == 3 {
				v = genBytesDoc()
			} else {
				v, _ = genValue(r, jobOpts{small: ops(2) == 1})
			}
			indent, hdr := drawIndent(), ops(2) == 1
			switch ops(4) {
			case 0:
				step = "MarshalIndent"
				var b []byte
				var err error
				encode(step, v, func() { b, err = xml.MarshalIndent(v, "", indent) })
				if err == nil {
					slices = append(slices, b)
					k.hold("bytes from MarshalIndent", func() string { return string(b) })
				}
			case 1:
				step = "Marshal"
				var b []byte
				var err error
				encode(step, v, func() { b, err = xml.Marshal(v) })
				if err == nil {
					slices = append(slices, b)
					k.hold("bytes from Marshal", func() string { return string(b) })
				}
			case 2:
				var s string
				var err error
				step = "WriteToString"
				switch v := v.(type) {
				case *mpd.MPD:
					encode(step, v, func() { s, err = v.WriteToString(indent, hdr) })
				case *mpd.Period:
					encode(step, v, func() { s, err = v.WriteToString(indent) })
				}
				if err == nil && s != "" {
					k.hold("string from WriteToString", func() string { return s })
				}
			case 3:
				step = "WriteXML"
				w := &simWriter{r: r}
				if fltP(1, 3) {
					w.mode = wMode(1 + flt(int(wModes)-1))
					w.at = flt(3000)
				}
				var cnt int
				var err error
				encode(step, v, func() { cnt, err = mpd.WriteXML(v, w, indent, hdr) })
				if w.fired {
					r.fault(wModeNames[w.mode])
				}
				_, _ = cnt, err
				w.closed = true
				k.hold("destination of WriteXML", func() string { return fmt.Sprint(string(w.buf), w.late) })
			}
			r.ev(step, "%T", v)
		case 11: // a new encoder
			if len(encs) >= 2 {
				break
			}
			id++
			l := &liveEnc{w: &simWriter{r: r}, id: id, pool: ops(2) == 1}
			if l.pool {
				l.e = xml.AcquireEncoder(l.w)
			} else {
				l.e = xml.NewEncoder(l.w)
			}
			l.ref = xml.NewEncoder(&l.rw)
			if ops(2) == 1 {
				l.e.Indent("", " ")
				l.ref.Indent("", " ")
			}
			encs = append(encs, l)
			step = "NewEncoder"
			r.ev(step, "%d", l.id)
		case 12, 13: // feed an encoder
			if len(encs) == 0 {
				break
			}
			i := ops(len(encs))
			l := encs[i]
			for j := 1 + ops(6); j > 0; j-- {
				step = l.feed(k)
			}
			if ops(3) == 0 {
				for len(l.open) > 0 {
					end := xml.EndElement{Name: l.open[len(l.open)-1]}
					l.open = l.open[:len(l.open)-1]
					r.call("EncodeToken", func() { l.both(r, func(e *xml.Encoder) error { return e.EncodeToken(end) }) })
				}
				r.call("Flush", func() { l.both(r, func(e *xml.Encoder) error { return e.Flush() }) })
				if string(l.w.buf) != l.rw.String() {
					r.fail("encoder", "argument", "the encoder wrote something else than it was given, after the caller reused its memory: %s", diffAt(string(l.w.buf), l.rw.String()))
				}
				step = "Flush"
				if l.pool {
					r.call("ReleaseEncoder", func() { xml.ReleaseEncoder(l.e) })
					step = "ReleaseEncoder"
				}
				w := l.w
				w.closed = true
				k.hold("destination of "+step, func() string { return fmt.Sprint(string(w.buf), w.late) })
				encs = append(encs[:i:i], encs[i+1:]...)
			}
			r.ev(step, "%d", l.id)
		case 14: // the caller reuses its memory
			if len(bufs) > 0 && ops(3) > 0 {
				r.fault("input-overwritten")
				step = "overwriting an input buffer"
				i := ops(len(bufs))
				scribble(bufs[i][:cap(bufs[i])])
				bufs = append(bufs[:i:i], bufs[i+1:]...)
			} else if len(slices) > 0 {
				r.fault("returned-bytes-overwritten")
				step = "overwriting returned bytes"
				i := ops(len(slices))
				b := slices[i]
				slices = append(slices[:i:i], slices[i+1:]...)
				k.forget(func() { scribble(b) }, "bytes from")
			}
			r.ev("overwrite", "%s", step)
		case 15:
			switch ops(4) {
			case 0:
				r.fault("pool-purge")
				simrt.PurgePools()
				step = "purging the pools"
			case 1:
				r.fault("node-restart")
				if len(encs) == 0 && len(decs) == 0 {
					simrt.Restart()
				}
				step = "restart"
			case 2:
				noise(r)
				step = "other parsing"
			case 3:
				if len(docs) > 0 { // change a document; what was written from it stays
					r.fault("document-changed")
					i := ops(len(docs))
					m := docs[i].v
					docs = append(docs[:i:i], docs[i+1:]...)
					k.forget(func() {
						m.Id = "changed"
						for _, p := range m.Periods {
							p.Id = "changed"
						}
					}, "MPD from")
					step = "changing a document"
				}
			}
		}
		k.check(step)
		for _, l := range decs {
			l.check(r, step)
		}
		r.SimNanos += 1_000_000
	}
}

var constructors = map[string]any{
	"NewMPD": mpd.NewMPD, "NewPeriod": mpd.NewPeriod, "NewAdaptationSet": mpd.NewAdaptationSet, "NewAdaptationSetWithParams": mpd.NewAdaptationSetWithParams,
	"NewRepresentation": mpd.NewRepresentation, "NewRepresentationWithID": mpd.NewRepresentationWithID, "NewAudioRepresentation": mpd.NewAudioRepresentation, "NewVideoRepresentation": mpd.NewVideoRepresentation,
	"NewSubRepresentation": mpd.NewSubRepresentation, "NewSegmentTemplate": mpd.NewSegmentTemplate, "NewSegmentList": mpd.NewSegmentList, "NewSegmentTimeline": mpd.NewSegmentTimeline,
	"NewInitializationSet": mpd.NewInitializationSet, "NewPreselection": mpd.NewPreselection, "NewContentProtection": mpd.NewContentProtection, "NewProducerReferenceTime": mpd.NewProducerReferenceTime,
	"NewUIntVWithID": mpd.NewUIntVWithID, "NewBaseURL": mpd.NewBaseURL, "NewDescriptor": mpd.NewDescriptor, "NewRole": mpd.NewRole,
	"Ptr": mpd.Ptr[int], "Seconds2DurPtr": mpd.Seconds2DurPtr, "Seconds2DurPtrFloat64": mpd.Seconds2DurPtrFloat64, "NewSCTE214ContentIdentifier": mpd.NewSCTE214ContentIdentifier,
	"NewSignal": mpd.NewSignal, "NewSpliceInfoSection": mpd.NewSpliceInfoSection, "NewBinary": mpd.NewBinary, "NewSpliceNull": mpd.NewSpliceNull, "NewSpliceSchedule": mpd.NewSpliceSchedule,
	"NewSpliceInsert": mpd.NewSpliceInsert, "NewTimeSignal": mpd.NewTimeSignal, "NewBandwidthReservation": mpd.NewBandwidthReservation, "NewPrivateCommand": mpd.NewPrivateCommand,
	"NewSpliceTime": mpd.NewSpliceTime, "NewBreakDuration": mpd.NewBreakDuration, "NewSegmentationDescriptor": mpd.NewSegmentationDescriptor, "NewSegmentationUpid": mpd.NewSegmentationUpid,
	"SetSegmentBase": func(a, b uint32, c bool) *mpd.RepresentationType {
		r := mpd.NewRepresentation()
		r.SetSegmentBase(a, b, c)
		return r
	},
}

var constructorNames = func() (l []string) {
	for n := range constructors {
		l = append(l, n)
	}
	sort.Strings(l)
	return
}()

// construct has something built, edits it, and has the same built again.
func (k *keeper) construct() string {
	name := pick(constructorNames)
	f := reflect.ValueOf(constructors[name])
	var args []reflect.Value
	for i := 0; i < f.Type().NumIn(); i++ {
		a := reflect.New(f.Type().In(i)).Elem()
		switch x := ops(4); a.Kind() {
		case reflect.String:
			a.SetString(pick([]string{"static", "dynamic", "", "x", "main", "video", "audio/mp4", "urn:mpeg:dash:role:2011", "avc1.64001E"}))
		case reflect.Bool:
			a.SetBool(x > 1)
		case reflect.Float64:
			a.SetFloat(float64(x))
		case reflect.Int:
			a.SetInt(int64(x))
		default:
			a.SetUint(uint64(x))
		}
		args = append(args, a)
	}
	mk := func() (v any) {
		k.r.call(name, func() { v = f.Call(args)[0].Interface() })
		return
	}
	dump := func(v any) string {
		if d, ok := v.(*mpd.Duration); ok {
			return fmt.Sprint(int64(*d))
		}
		if i, ok := v.(*int); ok {
			return fmt.Sprint(*i)
		}
		return exportedOf(v)
	}
	kept := mk()
	k.hold("the result of "+name, func() string { return dump(kept) })
	want := dump(kept)
	edited := mk()
	k.r.fault("result-edited")
	for n := 1 + ops(4); n > 0; n-- {
		if i, ok := edited.(*int); ok {
			*i++
		} else {
			edit(edited)
		}
	}
	if again := dump(mk()); again != want {
		k.r.fail("changed", name, "%s gives another result after an earlier one was edited: %s", name, diffAt(again, want))
	}
	return name
}

// forget drops what a deliberate change of the caller's own memory changes, if it
// is of the given kind; anything else it changes shares memory it must not share.
func (k *keeper) forget(change func(), kind string) {
	change()
	n := 0
	var rest []held
	for _, h := range k.held {
		if n == 0 && strings.HasPrefix(h.what, kind) && h.now() != h.want {
			n++
			continue
		}
		rest = append(rest, h)
	}
	k.held = rest
}

func (l *liveDec) check(r *Run, step string) {
	if l.tok == nil {
		return
	}
	if got := l.tok.now(); got != l.tok.want {
		r.fail("token", l.tok.what, "a token (%s) that is still valid changed after %s: %s", l.tok.what, step, diffAt(got, l.tok.want))
	}
}

// advance asks a decoder for something and holds what it returns.
func (k *keeper) advance(l *liveDec) string {
	l.tok = nil
	r := k.r
	var err error
	step := "Token"
	holdTok := func(t xml.Token) {
		h := held{what: fmt.Sprintf("%T", t), want: tokText(t), now: func() string { return tokText(t) }}
		l.tok = &h
		if st, ok := t.(xml.StartElement); ok && ops(2) == 0 {
			// it has no byte slices, so it need not be copied
			k.hold("start element", func() string { return tokText(st) })
			if ops(2) == 0 {
				r.fault("attributes-appended")
				more := append(st.Attr, xml.Attr{Name: xml.Name{Local: "appended"}}, xml.Attr{Name: xml.Name{Local: "appended too"}})
				k.hold("attributes of the caller", func() string { return fmt.Sprint(more) })
			}
		}
		// strings are values of their own
		var ss []string
		switch t := t.(type) {
		case xml.StartElement:
			ss = append(ss, t.Name.Space, t.Name.Local)
			for _, a := range t.Attr {
				ss = append(ss, a.Name.Space, a.Name.Local, a.Value)
			}
		case xml.EndElement:
			ss = append(ss, t.Name.Space, t.Name.Local)
		case xml.ProcInst:
			ss = append(ss, t.Target)
		}
		if ss != nil && ops(2) == 0 {
			k.hold("strings of a token", func() string { return fmt.Sprintf("%q", ss) })
		}
		if ops(2) == 0 {
			c := xml.CopyToken(t)
			if tokText(c) != h.want {
				r.fail("copy", h.what, "CopyToken of %s gives %s", h.want, tokText(c))
			}
			k.hold("copied token", func() string { return tokText(c) })
		}
	}
	r.call("Token", func() {
		switch ops(8) {
		case 7:
			step = "Decode"
			v := []any{new(RawB), new(BAttr), new(RawXML), new(Tree), new(string)}[ops(5)]
			err = l.d.Decode(v)
			k.hold(fmt.Sprintf("%T from Decode", v), func() string { return exportedOf(v) + errStr(err) })
		case 6:
			step = "RawToken"
			var t xml.Token
			if t, err = l.d.RawToken(); err == nil {
				holdTok(t)
			}
		default:
			var t xml.Token
			if t, err = l.d.Token(); err != nil {
				return
			}
			st, ok := t.(xml.StartElement)
			if !ok || ops(3) > 0 {
				holdTok(t)
				return
			}
			switch ops(2) {
			case 0:
				step = "DecodeElement"
				v := []any{new(RawB), new(BAttr), new(RawXML), new(Tree)}[ops(4)]
				st = st.Copy()
				st.Attr = append(make([]xml.Attr, 0, len(st.Attr)+2), st.Attr...)
				spare := func() string { return fmt.Sprintf("%v %q", st, st.Attr[:cap(st.Attr)]) }
				before := spare()
				err = l.d.DecodeElement(v, &st)
				if spare() != before {
					r.fail("input-modified", "DecodeElement", "DecodeElement modified its start element: %s", diffAt(spare(), before))
				}
				k.hold(fmt.Sprintf("%T from DecodeElement", v), func() string { return exportedOf(v) + errStr(err) })
			case 1:
				step = "Skip"
				err = l.d.Skip()
			}
		}
	})
	if err != nil {
		l.done = true
		l.tok = nil
		if err != io.EOF {
			k.hold("error from "+step, func() string { return err.Error() })
		}
	}
	return step
}

// both does the same with the encoder under test and the reference one.
func (l *liveEnc) both(r *Run, f func(e *xml.Encoder) error) {
	a, b := f(l.e), f(l.ref)
	if errStr(a) != errStr(b) {
		r.fail("encoder", "outcome", "an encoder of a caller that reuses its memory says %v, another one %v", a, b)
	}
}

// feed gives an encoder a token in memory that the caller reuses at once.
func (l *liveEnc) feed(k *keeper) string {
	r := k.r
	do := func(mk func() (xml.Token, func())) {
		a, over := mk()
		b, _ := mk()
		before := tokText(a)
		var ea, eb error
		r.call("EncodeToken", func() { ea = l.e.EncodeToken(a) })
		if tokText(a) != before {
			r.fail("input-modified", "EncodeToken", "EncodeToken modified its argument: %s", diffAt(tokText(a), before))
		}
		over()
		r.fault("token-argument-overwritten")
		r.call("EncodeToken", func() { eb = l.ref.EncodeToken(b) })
		if errStr(ea) != errStr(eb) {
			r.fail("encoder", "outcome", "EncodeToken says %v for a caller that reuses its memory, otherwise %v", ea, eb)
		}
	}
	bytesTok := func(f func(b []byte) xml.Token) {
		s := pick([]string{"text", "x<y", " ", "ü日", strings.Repeat("long ", 1+ops(1200))})
		do(func() (xml.Token, func()) {
			b := []byte(s)
			return f(b), func() {
				for i := range b {
					b[i] = 'Z'
				}
			}
		})
	}
	switch ops(6) {
	case 0, 1:
		st, _ := drawStart(r)
		do(func() (xml.Token, func()) {
			c := st.Copy()
			c.Attr = append(make([]xml.Attr, 0, len(c.Attr)+3), c.Attr...)
			return c, func() {
				for i := range c.Attr[:cap(c.Attr)] {
					c.Attr[:cap(c.Attr)][i] = xml.Attr{Name: xml.Name{Local: "overwritten"}, Value: "overwritten"}
				}
			}
		})
		l.open = append(l.open, st.Name)
	case 2:
		bytesTok(func(b []byte) xml.Token { return xml.CharData(b) })
	case 3:
		bytesTok(func(b []byte) xml.Token { return xml.Comment(b) })
	case 4:
		bytesTok(func(b []byte) xml.Token { return xml.ProcInst{Target: "p", Inst: b} })
	case 5:
		if len(l.open) > 0 {
			n := l.open[len(l.open)-1]
			l.open = l.open[:len(l.open)-1]
			do(func() (xml.Token, func()) { return xml.EndElement{Name: n}, func() {} })
		}
	}
	return "EncodeToken"
}
