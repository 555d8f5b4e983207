package dst

import (
	"fmt"
	"io"
	"strings"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

// job is one use of the writing side, split into steps so that several can be
// in flight at once. Running it again gives a fresh destination.
type job struct {
	name   string
	steps  []func(s *jobState) error
	mode   wMode
	at     int
	polite bool
	errv   error
	hasEnc bool // steps[0] acquires a pooled encoder, to be released by the caller of finish
	leak   bool // never release it
	what   string
}

// jobState is one execution of a job.
type jobState struct {
	j    *job
	r    *Run
	w    *simWriter
	enc  *xml.Encoder
	n    int
	out  strings.Builder // output returned as a value
	next int
	err  error
	ep   *envPanic
	done bool
	rel  bool
	keep []keptBytes
}

type keptBytes struct {
	b []byte
	s string
}

func (j *job) start(r *Run) *jobState {
	return &jobState{j: j, r: r, w: &simWriter{r: r, mode: j.mode, at: j.at, polite: j.polite, errv: j.errv}}
}

// step runs the next call; after an error or panic the job is over.
func (s *jobState) step() {
	if s.done {
		return
	}
	f := s.j.steps[s.next]
	s.next++
	s.ep = s.r.call(s.j.name, func() { s.err = f(s) })
	if s.ep != nil || s.err != nil || s.next == len(s.j.steps) {
		s.done = true
		s.release()
	}
}

func (s *jobState) release() {
	if s.enc != nil && s.j.hasEnc && !s.rel && !s.j.leak {
		s.rel = true
		s.r.call("ReleaseEncoder", func() { xml.ReleaseEncoder(s.enc) })
		s.w.closed = true
	}
	if !s.j.hasEnc {
		s.w.closed = true
	}
}

func (s *jobState) run() *jobState {
	for !s.done {
		s.step()
	}
	return s
}

// outcome is all that a caller can see.
func (s *jobState) outcome() string {
	p := ""
	if s.ep != nil {
		p = s.ep.tag
	}
	return fmt.Sprintf("step %d/%d count %d error %v panic %q\ndelivered %q\nreturned %q", s.next, len(s.j.steps), s.n, errStr(s.err), p, s.w.buf, s.out.String())
}

func (s *jobState) short() string {
	return clip(strings.ReplaceAll(s.outcome(), "\n", " "))
}

// jobOpts restricts what is drawn.
type jobOpts struct {
	bad   bool // misbehaving values, failing destinations, abandoned encoders
	small bool
}

// genValue draws something to encode.
func genValue(r *Run, o jobOpts) (any, string) {
	g := newGen()
	if o.small {
		g.budget = 20
	}
	switch ops(9) {
	case 0, 1:
		m, _ := g.genMPD()
		if ops(5) == 4 {
			m.BaseURL = append(m.BaseURL, mpd.NewBaseURL(strings.Repeat("u", 1+ops(9000))))
		}
		return m, "MPD"
	case 2:
		v, _ := g.genType("Period", "Period", "")
		return v.Interface(), "Period"
	case 3:
		t := pick(schemaNames)
		for goTypes[t] == nil || schema[t].pass {
			t = "AdaptationSetType"
		}
		v, _ := g.genType(t, t, "")
		return v.Interface(), t
	case 4:
		return g.genTree(0, true, ""), "Tree"
	case 5:
		return g.genRich(), "Rich"
	case 6, 7:
		h, w := g.genHolder(o.bad && flt(3) > 0)
		if w != "good" {
			r.fault("bad-" + w)
		}
		return h, "Holder:" + w
	}
	if o.bad && flt(2) == 1 {
		r.fault("unencodable-value")
		return &Bad{S: g.str(true), C: make(chan int)}, "Bad"
	}
	return g.genTree(0, true, ""), "Tree"
}

var tokIllegal = []func() xml.Token{
	func() xml.Token { return xml.Comment("a--b") },
	func() xml.Token { return xml.Comment("a-->") },
	func() xml.Token { return xml.ProcInst{Target: "xml", Inst: []byte(`version="1.0"`)} },
	func() xml.Token { return xml.ProcInst{Target: "x", Inst: []byte(`a?>b`)} },
	func() xml.Token { return xml.Directive("DOCTYPE a [<!ENTITY") },
	func() xml.Token { return xml.EndElement{Name: xml.Name{Local: "other"}} },
	func() xml.Token { return xml.EndElement{} },
	func() xml.Token { return xml.StartElement{} },
	func() xml.Token { return nil },
}

// tokensOf lists the tokens of a tree.
func tokensOf(t *Tree, out []xml.Token) []xml.Token {
	out = append(out, xml.StartElement{Name: t.XMLName, Attr: t.Attrs})
	if t.Text != "" {
		out = append(out, xml.CharData(t.Text))
	}
	for i, k := range t.Kids {
		if i == 0 && len(t.Attrs) == 2 {
			out = append(out, xml.Comment(" c "))
		}
		out = tokensOf(k, out)
	}
	return append(out, xml.EndElement{Name: t.XMLName})
}

// drawRawText draws bytes that need not be text.
func drawRawText() []byte {
	g := newGen()
	g.wild = true
	var b []byte
	for k := ops(6); k >= 0; k-- {
		b = append(b, g.str(true)...)
		if ops(3) == 2 {
			b = append(b, pick([]string{"\x00", "\x1f", "\xff", "\xc3", "\xed\xa0\x80", "\uFFFE", "\uFFFD", "\xf4\x90\x80\x80", "\x7f", "\r\n", "\U0010FFFF", "\x0b"})...)
		}
	}
	return b
}

// drawJob draws a use of the writing side.
func drawJob(r *Run, o jobOpts) *job {
	j := &job{}
	v, vn := genValue(r, o)
	indent := drawIndent()
	hdr := ops(2) == 1
	prefix := ""
	if ops(6) == 5 {
		prefix = pick([]string{" ", "\t", "  "})
	}
	if o.bad && flt(3) > 0 {
		j.mode = wMode(1 + flt(int(wModes)-1))
		j.errv = drawWriteError(r)
		switch flt(3) {
		case 0:
			j.at = flt(300)
		case 1:
			j.at = flt(3)*4096 + flt(60)
		case 2:
			j.at = flt(40)
		}
	}
	way := ops(10)
	one := func(name string, f func(s *jobState) error) *job {
		j.name = name
		j.steps = []func(*jobState) error{f}
		return j
	}
	j.what = vn
	if ops(24) == 23 {
		text := drawRawText()
		kept := string(text)
		j.what, j.polite = "text", true
		return one("EscapeText", func(s *jobState) error {
			err := xml.EscapeText(s.w, text)
			if string(text) != kept {
				s.r.fail("modified", "EscapeText", "EscapeText changed the text it was given: %q, then %q", clip(kept), clip(string(text)))
			}
			return err
		})
	}
	switch way {
	case 0, 1:
		switch v := v.(type) {
		case *mpd.MPD:
			return one("MPD.Write", func(s *jobState) (err error) { s.n, err = v.Write(s.w, indent, hdr); return })
		case *mpd.Period:
			return one("Period.Write", func(s *jobState) (err error) { s.n, err = v.Write(s.w, indent); return })
		}
		return one("WriteXML", func(s *jobState) (err error) { s.n, err = mpd.WriteXML(v, s.w, indent, hdr); return })
	case 2:
		switch v := v.(type) {
		case *mpd.MPD:
			return one("MPD.WriteToString", func(s *jobState) error {
				str, err := v.WriteToString(indent, hdr)
				s.out.WriteString(str)
				return err
			})
		case *mpd.Period:
			return one("Period.WriteToString", func(s *jobState) error {
				str, err := v.WriteToString(indent)
				s.out.WriteString(str)
				return err
			})
		}
		fallthrough
	case 3:
		return one("MarshalIndent", func(s *jobState) error {
			b, err := xml.MarshalIndent(v, prefix, indent)
			s.out.Write(b)
			if len(b) > 0 {
				s.keep = append(s.keep, keptBytes{b, string(b)})
			}
			return err
		})
	case 4:
		return one("Marshal", func(s *jobState) error {
			b, err := xml.Marshal(v)
			s.out.Write(b)
			if len(b) > 0 {
				s.keep = append(s.keep, keptBytes{b, string(b)})
			}
			return err
		})
	case 5:
		j.polite = true
		return one("NewEncoder", func(s *jobState) error {
			e := xml.NewEncoder(s.w)
			if indent != "" {
				e.Indent("", indent)
			}
			if err := e.Encode(v); err != nil {
				return err
			}
			return e.Close()
		})
	}
	// a pooled or own encoder used step by step
	j.polite = true
	pooled := way != 6
	j.hasEnc = pooled
	j.name = "NewEncoder+tokens"
	if pooled {
		j.name = "AcquireEncoder"
	}
	add := func(f func(s *jobState) error) { j.steps = append(j.steps, f) }
	add(func(s *jobState) error {
		if pooled {
			s.enc = xml.AcquireEncoder(s.w)
		} else {
			s.enc = xml.NewEncoder(s.w)
		}
		if indent != "" || prefix != "" {
			s.enc.Indent(prefix, indent)
		}
		return nil
	})
	if ops(3) == 0 {
		add(func(s *jobState) error { return s.enc.Encode(v) })
	} else {
		g := newGen()
		g.budget = 25
		root := g.genTree(0, true, "")
		var toks []xml.Token
		if hdr {
			toks = append(toks, xml.ProcInst{Target: "xml", Inst: []byte(`version="1.0"`)})
		}
		toks = tokensOf(root, toks)
		if o.bad && flt(4) == 3 {
			k := flt(len(toks))
			toks = append(toks[:k:k], append([]xml.Token{tokIllegal[flt(len(tokIllegal))]()}, toks[k:]...)...)
			r.fault("illegal-token")
		}
		if o.bad && flt(5) == 4 {
			toks = toks[:1+flt(len(toks))]
			r.fault("document-abandoned")
		}
		valAt := -1
		if ops(3) == 2 {
			valAt = ops(len(toks))
		}
		for i, t := range toks {
			t := t
			add(func(s *jobState) error { return s.enc.EncodeToken(t) })
			if i == valAt {
				if ops(2) == 0 {
					add(func(s *jobState) error { return s.enc.Encode(v) })
				} else {
					n := xml.Name{Space: treeSpaces[ops(len(treeSpaces))], Local: "renamed"}
					add(func(s *jobState) error { return s.enc.EncodeElement(v, xml.StartElement{Name: n}) })
				}
			}
			switch ops(16) {
			case 13:
				p, in := pick([]string{"", "", " "}), drawIndent()
				add(func(s *jobState) error { s.enc.Indent(p, in); return nil })
			case 14, 15:
				add(func(s *jobState) error { return s.enc.Flush() })
			}
		}
	}
	switch ops(3) {
	case 0:
		add(func(s *jobState) error { return s.enc.Flush() })
	case 1:
		add(func(s *jobState) error { return s.enc.Close() })
	case 2:
		if o.bad && pooled { // released without flushing
			r.fault("released-unflushed")
		} else {
			add(func(s *jobState) error { return s.enc.Flush() })
		}
	}
	if o.bad && pooled && flt(6) == 5 {
		j.leak = true
		r.fault("encoder-leaked")
	}
	return j
}

// noise is a use of the reading side between encodings.
func noise(r *Run) {
	switch ops(4) {
	case 0:
		d := mpds[ops(len(mpds))]
		r.call("parse", func() { _, _ = mpd.ReadFromString(d.text) })
	case 1:
		var t Tree
		r.call("parse", func() { _ = xml.Unmarshal([]byte(`<a xmlns="urn:a" p="1"><b>x</b><c1/>`), &t) })
	case 2:
		var v Rich
		r.call("parse", func() { _ = xml.Unmarshal([]byte(`<rich id="7" flag="x"><sub k="1"/></rich>`), &v) })
	case 3:
		var v Bad
		r.call("parse", func() { _ = xml.NewDecoder(strings.NewReader(`<bad><s>1</s><c>1</c></bad>`)).Decode(&v) })
	}
}

var _ io.Writer = (*simWriter)(nil)
