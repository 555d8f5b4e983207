package dst

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"dashsim/simrt"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&Scenario{
		ID: "P18", Quick: 120000, Thorough: 5000000, Run: runP18,
		Faults: []string{"byte-at-a-time", "split-read", "empty-read", "eof-with-data", "byte-reader", "scribbled-buffer", "cut", "reader-error", "broken-document", "token-source", "node-restart", "skipped-document", "partly-skipped", "write-error", "short-write", "write-panic", "write-error-after-full", "bad-value", "indent-changed", "encoder-reused"},
		Rule: "Each run sends 1-6 documents (grammar soup, generic trees, typed values, manifests, and a family that reuses or forgets one another's prefixes and defaults) with drawn separators over one stream and takes each from one decoder in a drawn way (Decode, tokens, raw tokens, start token then DecodeElement or Skip, children partly skipped or decoded), with drawn chunking, and in half the runs a cut, a reader error or a document broken in place. Each document must come out exactly once, in order, with the same value, tokens, offset and position as alone, then io.EOF; or it encodes 1-6 values by Encode, EncodeElement or tokens through one encoder with flushes and indent changes to a destination that may fail. " +
			"Distinct by event sequence, document kinds and modes; trivial if fewer than two documents are involved.",
		Real:   []string{"xml decoder and encoder (all)", "mpd UnmarshalXML/MarshalXML methods"},
		Stub:   []string{"readers, token source and destinations", "user callbacks", "sync.Pool", "process restart"},
		Assume: []string{"white space between documents written with indentation is insignificant", "after a failed Encode its encoder is not used again"},
	})
}

// ---- decoding ----

type sdoc struct {
	text   string
	kind   string
	target int
	mode   int
	every  int
	start  int // offset in the stream
	root   int // offset of the start tag in text
	broken bool
	want   string
	off    int64
}

const (
	smDecode = iota
	smTokens
	smRaw
	smElement
	smSkip
	smMixed
	nStreamModes
)

var streamModeNames = []string{"Decode", "Token", "RawToken", "DecodeElement", "Skip", "mixed"}

// carried are documents that would show what an earlier one left behind.
var carried = []string{
	`<a xmlns:p="urn:1"><p:b p:k="v"/></a>`, `<p:a p:k="v"/>`, `<a xmlns="urn:d"><b/></a>`, `<a><b/></a>`,
	`<p:a xmlns:p="urn:2"><p:b xmlns:p="urn:3"><p:c/></p:b><p:d/></p:a>`, `<a xmlns="urn:d"><b xmlns=""><c xmlns="urn:e"/></b><d/></a>`,
	`<q:a xmlns:q="urn:q" xmlns="urn:q"><b q:k="1"/>t</q:a>`, `<a p:k="1" q:k="2">t</a>`, `<a/>`, `<a xmlns:p="urn:9"/>`, `<p:a/>`, `<a>text</a>`, `<a><![CDATA[text]]></a>`,
	`<a xmlns:p="urn:1" xmlns:p2="urn:1"><p:b p2:k="v"/><p2:c/></a>`,
}

// longNames are documents whose names differ in little, or are many.
func longNames() string {
	if ops(40) == 39 {
		var sb strings.Builder
		sb.WriteString("<n>")
		at := ops(3) * 600
		for i := at; i < at+600; i++ {
			fmt.Fprintf(&sb, `<n%d n%d=""/>`, i, i+1200)
		}
		return sb.String() + "</n>"
	}
	long := strings.Repeat("x", []int{6, 14, 15, 30, 31, 40, 62, 63, 127, 255}[ops(10)])
	name := func() string {
		return pick([]string{long, "a" + long, "b" + long, long + "a", long + "b", "A" + long, long + "a" + long, long + "b" + long})
	}
	p, a, b, k := name(), name(), name(), name()
	return "<" + p + ":" + a + " xmlns:" + p + `="urn:` + name() + `"><` + b + " " + k + `="v"/><` + k + "/></" + p + ":" + a + ">"
}

// drawStreamDoc draws one document; its text ends with the document element.
func drawStreamDoc(r *Run) *sdoc {
	d := &sdoc{mode: ops(nStreamModes), every: 1 + ops(4)}
	switch ops(9) {
	case 0, 1, 2:
		d.text, d.kind, d.target = pick(carried), "carried", []int{1, 1, 3, 6}[ops(4)]
	case 8:
		d.text, d.kind, d.target = longNames(), "long-names", []int{1, 3}[ops(2)]
	case 3:
		d.text, d.kind, d.target = genSoup(true, false, ""), "soup", []int{1, 3, 4, 6}[ops(4)]
	case 4:
		d.text, d.kind, d.target = genSoup(ops(2) == 1, false, "holder"), "holder-soup", []int{4, 1}[ops(2)]
	case 5:
		d.text, d.kind, d.target = render(newGen().genTree(0, true, "").node()), "tree", []int{1, 3}[ops(2)]
	case 6:
		b, err := xml.MarshalIndent(newGen().genRich(), "", drawIndent())
		if err != nil {
			r.fail("source", "encode", "%v", err)
		}
		d.text, d.kind, d.target = string(b), "rich", []int{2, 2, 1}[ops(3)]
	case 7:
		d.text, d.kind, d.target = source(r), "mpd", []int{0, 0, 1, 3}[ops(4)]
		if len(d.text) > 20000 {
			d.text, d.kind, d.target = pick(carried), "carried", 1
		}
	}
	end := docEnd(d.text)
	if end < 0 && strings.HasSuffix(d.kind, "soup") { // the grammar also knows <!--- -->
		d.text, d.kind, d.target = pick(carried), "carried", 1
		end = len(d.text)
	}
	if end < 0 {
		r.fail("source", "malformed", "source is not well formed: %q", clip(d.text))
	}
	d.text = d.text[:end]
	return d
}

var errMode = errors.New("document not found")

// consume takes the next document from d and writes down what the caller sees.
// ok is false if an error ended it.
func (s *sdoc) consume(r *Run, d *xml.Decoder, setParents bool) (out string, err error) {
	var sb strings.Builder
	value := func(f func(v any) error) error {
		v := newTarget(s.target)
		err := f(v)
		if m, ok := v.(*mpd.MPD); ok && err == nil {
			m.SetParents()
		}
		sb.WriteString(snapshot(v) + " error " + errStr(err) + "\n")
		return err
	}
	tok := d.Token
	if s.mode == smRaw {
		tok = d.RawToken
	}
	start := func() (xml.StartElement, error) {
		for i := 0; i < 100000; i++ {
			t, err := tok()
			if err != nil {
				return xml.StartElement{}, err
			}
			if st, ok := t.(xml.StartElement); ok {
				sb.WriteString(tokText(st) + "\n")
				return st.Copy(), nil
			}
		}
		return xml.StartElement{}, errMode
	}
	ep := r.call(streamModeNames[s.mode], func() {
		if s.mode == smDecode {
			err = value(d.Decode)
			return
		}
		var st xml.StartElement
		if st, err = start(); err != nil {
			return
		}
		switch s.mode {
		case smElement:
			err = value(func(v any) error { return d.DecodeElement(v, &st) })
		case smSkip:
			err = d.Skip()
		case smTokens, smRaw, smMixed:
			n := 0
			for depth := 1; depth > 0; {
				var t xml.Token
				if t, err = tok(); err != nil {
					return
				}
				sb.WriteString(tokText(t) + "\n")
				switch t := t.(type) {
				case xml.StartElement:
					n++
					if s.mode == smMixed && n%s.every == 0 {
						if n/s.every%2 == 0 {
							err = d.Skip()
						} else {
							var x Tree
							err = d.DecodeElement(&x, &t)
							sb.WriteString(exportedOf(&x) + "\n")
						}
						if err != nil {
							return
						}
						continue
					}
					depth++
				case xml.EndElement:
					depth--
				}
			}
		}
	})
	if ep != nil {
		return sb.String() + "panic " + ep.tag, errMode
	}
	return sb.String() + "then " + errStr(err), err
}

var separators = []string{"", "", "\n", " \r\n", "<!--<a/>-->", "<?pi x?>", "text", "\n<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<!DOCTYPE a [<!ENTITY x \"<b>\">]>", "<![CDATA[<z>]]>", "&amp;"}

// setup of a decoder for the whole stream.
type streamSetup struct {
	dspace string
	entity bool
}

func (p streamSetup) apply(d *xml.Decoder) *xml.Decoder {
	d.DefaultSpace = p.dspace
	if p.entity {
		d.Entity = map[string]string{"bogus": "<bo>", "copy": "©"}
	}
	return d
}

// lineCol is where an offset lies in a text.
func lineCol(text string, off int64) string {
	t := text[:off]
	return fmt.Sprint(1+strings.Count(t, "\n"), " ", len(t)-strings.LastIndex(t, "\n"))
}

func decodeP18(r *Run) {
	n := 1 + ops(6)
	r.Trivial = n < 2
	var setup streamSetup
	if ops(6) == 5 {
		setup.dspace = "urn:default"
	}
	setup.entity = ops(4) == 3
	var docs []*sdoc
	var sb strings.Builder
	sep := func() {
		for k := ops(3); k > 0; k-- {
			sb.WriteString(pick(separators))
		}
	}
	brk := -1
	if fltP(1, 5) {
		brk = flt(n)
	}
	for i := 0; i < n; i++ {
		s := drawStreamDoc(r)
		// the reference: this document by itself, before anything is damaged
		d := setup.apply(xml.NewDecoder(strings.NewReader(s.text)))
		var err error
		s.want, err = s.consume(r, d, true)
		s.off = d.InputOffset()
		if err != nil {
			// the target does not fit it; nothing is promised after a failed value
			s.mode = smTokens
			d = setup.apply(xml.NewDecoder(strings.NewReader(s.text)))
			if s.want, err = s.consume(r, d, true); err != nil {
				r.fail("alone", s.kind, "well-formed document %q: %v", clip(s.text), err)
			}
			s.off = d.InputOffset()
		}
		s.root = strings.Index(s.text, "<"+rootName(s.text))
		sep()
		s.start = sb.Len()
		if i == brk && s.mode != smRaw && !strings.HasSuffix(s.text, "/>") {
			if at := strings.LastIndex(s.text, "</"); at > 0 {
				r.fault("broken-document")
				s.broken = true
				s.text = s.text[:at] + pick([]string{"<x></y>", "<q a=1/>", "&nope;", "<", "\x00", "</nope>", "<e f></e>", "<!-- -- -->", "&#0;"}) + s.text[at:]
			}
		}
		sb.WriteString(s.text)
		docs = append(docs, s)
		r.note(s.kind + streamModeNames[s.mode] + fmt.Sprint(s.target, s.broken))
		if s.mode == smSkip {
			r.fault("skipped-document")
		}
		if s.mode == smMixed {
			r.fault("partly-skipped")
		}
	}
	sep()
	stream := sb.String()
	var end error = io.EOF
	cut := len(stream)
	switch flt(6) {
	case 4:
		cut = flt(len(stream) + 1)
		r.fault("cut")
	case 5:
		cut = flt(len(stream) + 1)
		end = drawReadError(r)
		r.fault("reader-error")
	}
	r.ev("stream", "%q ends at %d with %v", stream, cut, end)
	data := stream[:cut]
	var d *xml.Decoder
	tokens := false
	if src := streamTokens(data, setup); src != nil && end == io.EOF && brk < 0 && cut == len(stream) && style(6) == 5 {
		ok := true
		for _, s := range docs {
			ok = ok && s.target != 3 && s.target != 4 && s.target != 0
		}
		if ok {
			tokens = true
			r.fault("token-source")
			d = setup.apply(xml.NewTokenDecoder(src))
		}
	}
	how := "token source"
	if !tokens {
		k := drawDelivery(r)
		how = deliveryNames[k]
		d = setup.apply(xml.NewDecoder(deliver(r, k, []byte(data), end)))
	}
	for i, s := range docs {
		stop := s.start + len(s.text)
		got, err := s.consume(r, d, true)
		r.record(got)
		at := fmt.Sprintf("document %d (%s, %s into %s, delivered by %s) of %q ending at %d with %v", i, clip(s.text), streamModeNames[s.mode], targetNames[s.target], how, stream, cut, end)
		r.ev("consume", "%d by %s: %v", i, streamModeNames[s.mode], err)
		switch {
		case s.broken:
			if err == nil || err == io.EOF && cut > s.start+s.root {
				r.fail("decode", "broken-accepted", "%s\nis malformed, but the result was %s", at, clip(got))
			}
			return
		case stop <= cut:
			if got != s.want {
				r.fail("decode", "differs", "%s\ndiffers from the document alone: %s", at, diffAt(got, s.want))
			}
			if !tokens {
				if off := d.InputOffset(); off != int64(s.start)+s.off {
					r.fail("decode", "offset", "%s\nends at offset %d, not %d", at, off, int64(s.start)+s.off)
				}
				l, c := d.InputPos()
				if p := fmt.Sprint(l, c); p != lineCol(stream, d.InputOffset()) {
					r.fail("decode", "position", "%s\nends at %s, not %s", at, p, lineCol(stream, d.InputOffset()))
				}
			}
			continue
		}
		// cut off inside or before this document
		for k := 0; k < 2; k++ {
			switch {
			case err == nil:
				r.fail("decode", "cut-accepted", "%s\nis cut off, but the result was %s", at, clip(got))
			case end != io.EOF && !errors.Is(err, end) && !(strings.Contains(err.Error(), "syntax error") && isSyntaxElsewhere(err)):
				// a character cut in two may be complained about instead
				r.fail("decode", "reader-error", "%s\nthe reader failed, but the error is %v", at, err)
			case end == io.EOF && err == io.EOF && cut > s.start+s.root && s.mode != smRaw:
				r.fail("decode", "cut-eof", "%s\nis cut off inside the document element, but the error is io.EOF", at)
			}
			var x Tree
			r.call("Decode", func() { err = d.Decode(&x) })
			if s.mode == smRaw {
				return
			}
		}
		return
	}
	for k := 0; k < 3; k++ {
		var err error
		what := "Decode"
		r.call("end", func() {
			switch ops(3) {
			case 0:
				err = d.Decode(new(Tree))
			case 1:
				what = "Token"
				for i := 0; i < 1000 && err == nil; i++ {
					var t xml.Token
					if t, err = d.Token(); err == nil {
						switch t.(type) {
						case xml.StartElement, xml.EndElement:
							r.fail("decode", "extra", "after all documents of %q there is %s", stream, tokText(t))
						}
					}
				}
			case 2:
				what = "RawToken"
				for i := 0; i < 1000 && err == nil; i++ {
					_, err = d.RawToken()
				}
			}
		})
		if tail := data[docs[n-1].start+len(docs[n-1].text):]; err != end && !(end != io.EOF && errors.Is(err, end)) && !cutInside(tail) {
			r.fail("decode", "end", "after all documents of %q ending at %d with %v (delivered by %s) %s says %v", stream, cut, end, how, what, err)
		}
	}
}

// rootName finds the name of the document element.
func rootName(doc string) string {
	d := xml.NewDecoder(strings.NewReader(doc))
	for {
		t, err := d.RawToken()
		if err != nil {
			return "\x00"
		}
		if st, ok := t.(xml.StartElement); ok {
			if st.Name.Space != "" {
				return st.Name.Space + ":" + st.Name.Local
			}
			return st.Name.Local
		}
	}
}

// cutInside tells whether a separator is not whole.
func cutInside(tail string) bool {
	d := xml.NewDecoder(strings.NewReader(tail))
	for {
		if _, err := d.RawToken(); err != nil {
			return err != io.EOF
		}
	}
}

func streamTokens(data string, setup streamSetup) *rawSource {
	d := setup.apply(xml.NewDecoder(strings.NewReader(data)))
	src := &rawSource{err: io.EOF}
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			return src
		}
		if err != nil {
			return nil
		}
		src.toks = append(src.toks, xml.CopyToken(t))
	}
}

// ---- encoding ----

type sval struct {
	name string
	f    func(e *xml.Encoder) error
	whol bool // delivered when f returns
	bad  bool
}

func drawStreamVal(r *Run, bad bool) *sval {
	v, vn := genValue(r, jobOpts{small: true, bad: bad})
	s := &sval{name: vn, bad: vn == "Bad" || strings.HasPrefix(vn, "Holder:") && vn != "Holder:good"}
	switch ops(4) {
	case 0, 1:
		s.name += " by Encode"
		s.whol = true
		s.f = func(e *xml.Encoder) error { return e.Encode(v) }
	case 2:
		n := xml.Name{Space: treeSpaces[ops(len(treeSpaces))], Local: "renamed"}
		var as []xml.Attr
		for k := ops(3); k > 0; k-- {
			as = append(as, xml.Attr{Name: xml.Name{Space: treeSpaces[ops(len(treeSpaces))], Local: fmt.Sprint("k", k)}, Value: "v"})
		}
		s.name += " by EncodeElement"
		s.whol = true
		s.f = func(e *xml.Encoder) error { return e.EncodeElement(v, xml.StartElement{Name: n, Attr: as}) }
	case 3:
		g := newGen()
		g.budget = 15
		toks := tokensOf(g.genTree(0, true, ""), nil)
		s.name, s.bad = "tokens", false
		flush := ops(2) == 0
		s.whol = flush
		s.f = func(e *xml.Encoder) error {
			for _, t := range toks {
				if err := e.EncodeToken(t); err != nil {
					return err
				}
			}
			if flush {
				return e.Flush()
			}
			return nil
		}
	}
	return s
}

func encodeP18(r *Run) {
	n := 1 + ops(6)
	r.Trivial = n < 2
	w := &simWriter{r: r, polite: true}
	if fltP(1, 3) {
		w.mode = wMode(1 + flt(int(wModes)-1))
		w.at = flt([]int{300, 5000, 40}[flt(3)])
	}
	badAt := -1
	if fltP(1, 5) {
		badAt = flt(n)
	}
	indent, prefix := "", ""
	set := func(e *xml.Encoder) {
		if indent != "" || prefix != "" {
			e.Indent(prefix, indent)
		}
	}
	if ops(2) == 1 {
		indent = drawIndent()
	}
	var e *xml.Encoder
	pooled := ops(2) == 1
	if pooled {
		if ops(2) == 1 {
			r.fault("encoder-reused")
			q := xml.AcquireEncoder(io.Discard)
			v := drawStreamVal(r, false)
			r.call("earlier", func() { v.f(q); xml.ReleaseEncoder(q) })
		}
		e = xml.AcquireEncoder(w)
	} else {
		e = xml.NewEncoder(w)
	}
	set(e)
	var want string // all of the documents accepted, with optional line ends between
	var parts []string
	sure := 0 // parts that must have been delivered
	for i := 0; i < n; i++ {
		if i > 0 && ops(6) == 5 {
			r.fault("indent-changed")
			indent = drawIndent()
			e.Indent(prefix, indent)
		}
		s := drawStreamVal(r, i == badAt)
		if s.bad {
			r.fault("bad-value")
		}
		var alone simWriter
		alone.r = r
		var aerr error
		q := xml.NewEncoder(&alone)
		aep := r.call("alone", func() {
			q.Indent(prefix, indent)
			if aerr = s.f(q); aerr == nil {
				aerr = q.Flush()
			}
		})
		if aerr != nil || aep != nil { // how much of a failed value is delivered is a matter of buffering
			r.call("alone", func() { q.Flush() })
		}
		if (aerr != nil || aep != nil) && !s.bad {
			r.fail("alone", "error", "%s: %v %v", s.name, aerr, aep)
		}
		var err error
		ep := r.call("Encode", func() { err = s.f(e) })
		r.ev("encode", "%s: %v %v", s.name, err, ep)
		r.record(errStr(err))
		parts = append(parts, string(alone.buf))
		at := fmt.Sprintf("value %d (%s) with indent %q", i, s.name, indent)
		if w.fired {
			if err == nil && ep == nil {
				r.fail("encode", "swallowed", "%s: the destination failed (%s) but no error came out", at, wModeNames[w.mode])
			}
		} else if (err == nil) != (aerr == nil) || (ep == nil) != (aep == nil) || err != nil && err.Error() != aerr.Error() {
			r.fail("encode", "outcome", "%s: outcome %v %v, alone %v %v", at, err, ep, aerr, aep)
		} else if err == nil && ep == nil && s.whol {
			sure = i + 1
		}
		if msg := matchParts(string(w.buf), parts, sure); msg != "" {
			r.fail("encode", "delivered", "%s: %s\ndelivered %q\nalone %q", at, msg, clipLong(string(w.buf)), parts)
		}
		if w.fired {
			r.fault(wModeNames[w.mode])
		}
		if err != nil || ep != nil {
			break
		}
	}
	_ = want
	if w.fired {
		var x error
		r.call("after", func() { x = e.Encode(&Tree{XMLName: xml.Name{Local: "late"}}) })
		if x == nil {
			r.fail("encode", "after-failure", "a value is accepted after the destination failed")
		}
	} else if sure == len(parts) {
		var x error
		r.call("Close", func() { x = e.Close() })
		if x != nil {
			r.fail("encode", "close", "Close says %v", x)
		}
		if msg := matchParts(string(w.buf), parts, len(parts)); msg != "" {
			r.fail("encode", "delivered", "after Close: %s\ndelivered %q\nalone %q", msg, clipLong(string(w.buf)), parts)
		}
	}
	if pooled {
		r.call("Release", func() { xml.ReleaseEncoder(e) })
	}
}

func clipLong(s string) string {
	if len(s) > 3000 {
		return s[:1500] + "…" + s[len(s)-1500:]
	}
	return s
}

// matchParts checks that got is a prefix of the parts (a line end may precede each)
// and holds the first sure of them.
func matchParts(got string, parts []string, sure int) string {
	for i, p := range parts {
		if i > 0 && p != "" && strings.HasPrefix(got, "\n") && !strings.HasPrefix(p, "\n") {
			got = got[1:]
		}
		if strings.HasPrefix(got, p) {
			got = got[len(p):]
			continue
		}
		if i < sure || !strings.HasPrefix(p, got) {
			return fmt.Sprintf("document %d is not there as it is alone: %s", i, diffAt(got, p))
		}
		return ""
	}
	if got != "" {
		return fmt.Sprintf("%q comes after the documents", clip(got))
	}
	return ""
}

func runP18(r *Run) {
	simrt.SetPoolMode(uint32(ops(3)))
	if ops(3) < 2 {
		decodeP18(r)
	} else {
		encodeP18(r)
	}
	if fltP(1, 12) {
		r.fault("node-restart")
		simrt.Restart()
	}
	r.SimNanos += 1_000_000
}
