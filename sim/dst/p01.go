package dst

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"dashsim/simrt"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&Scenario{
		ID: "P01", Quick: 60000, Thorough: 700000, Run: runP01,
		Faults: []string{"write-error", "short-write", "write-panic", "write-error-after-full", "pool-purge", "node-restart"},
		Rule: "Each run draws 1-3 documents (MPD, Period or any nested value; a quarter of them larger than the encoder's buffer), indentation and header choice, and writes them 2-7 times in a row through the writing functions to simulated destinations that fail, come up short or panic at a drawn byte (edges, buffer boundaries, anywhere; in 1 of 30 runs every byte of a small document in turn). " +
			"Distinct by event sequence, document shape, fault kind and position class; trivial if no destination fault fired.",
		Real:   []string{"mpd (all)", "xml encoder (all)"},
		Stub:   []string{"destinations (io.Writer)", "sync.Pool", "process restart"},
		Assume: []string{"destinations obey 0 <= n <= len(p)"},
	})
}

// writable is one document with its reference bytes.
type writable struct {
	name string
	v    any
	ref  map[string]string // indent+header -> bytes
}

func (d *writable) bytes(r *Run, indent string, hdr bool) string {
	k := indent + "|" + fmt.Sprint(hdr)
	if s, ok := d.ref[k]; ok {
		return s
	}
	var s string
	var err error
	r.call("reference", func() {
		switch v := d.v.(type) {
		case *mpd.MPD:
			s, err = v.WriteToString(indent, hdr)
		case *mpd.Period:
			s, err = v.WriteToString(indent)
			if hdr {
				s = xml.Header + s
			}
		default:
			var b []byte
			b, err = xml.MarshalIndent(d.v, "", indent)
			s = string(b)
			if hdr {
				s = xml.Header + s
			}
		}
	})
	if err != nil {
		r.fail("write-error", "reference", "writing to a string failed: %v", err)
	}
	d.ref[k] = s
	return s
}

func drawWritable(r *Run) *writable {
	g := newGen()
	if ops(4) == 3 {
		g.budget = 150
	}
	d := &writable{ref: map[string]string{}}
	switch ops(6) {
	case 0, 1, 2:
		m, n := g.genMPD()
		if ops(4) == 3 { // larger than the buffer of the encoder
			m.BaseURL = append(m.BaseURL, mpd.NewBaseURL(strings.Repeat("u", 1+ops(9000))))
		}
		d.name, d.v = "MPD", m
		r.note(shapeOf(n))
	case 3:
		v, n := g.genType("Period", "Period", "")
		d.name, d.v = "Period", v.Interface()
		r.note(shapeOf(n))
	case 4:
		t := pick(schemaNames)
		for goTypes[t] == nil || schema[t].pass {
			t = "AdaptationSetType"
		}
		v, n := g.genType(t, t, "")
		d.name, d.v = t, v.Interface()
		r.note(shapeOf(n))
	case 5:
		d.name, d.v = "Tree", g.genTree(0, true, "")
	}
	return d
}

func drawOffset(n int) int {
	switch ops(6) {
	case 0:
		return ops(n + 1)
	case 1:
		return []int{0, 1, n - 1, n, len(xml.Header), len(xml.Header) - 1, len(xml.Header) + 1}[ops(7)]
	case 2, 3:
		k := 1 + ops(1+n/4096)
		return k*4096 + ops(3) - 1
	}
	return ops(n + 1)
}

func runP01(r *Run) {
	simrt.SetPoolMode(uint32(ops(3)))
	var docs []*writable
	for i := 1 + ops(3); i > 0; i-- {
		docs = append(docs, drawWritable(r))
	}
	fired := false
	if ops(30) == 29 {
		d := docs[0]
		indent := drawIndent()
		hdr := ops(2) == 1
		ref := d.bytes(r, indent, hdr)
		if len(ref) <= 1500 {
			mode := wMode(1 + ops(int(wModes)-1))
			fn := ops(nWriteWays)
			errv := drawWriteError(r)
			for at := 0; at <= len(ref); at++ {
				writeOnce(r, d, indent, hdr, fn, mode, at, errv)
			}
			r.probe("swept")
			fired = true
		}
	}
	for k := 2 + ops(6); k > 0; k-- {
		if fltP(1, 10) {
			r.fault("pool-purge")
			simrt.PurgePools()
		}
		if fltP(1, 16) {
			r.fault("node-restart")
			simrt.Restart()
		}
		d := docs[ops(len(docs))]
		indent := drawIndent()
		hdr := ops(2) == 1
		ref := d.bytes(r, indent, hdr)
		mode := wOK
		if flt(4) > 0 {
			mode = wMode(1 + flt(int(wModes)-1))
		}
		fn := ops(nWriteWays)
		at := drawOffset(len(ref))
		if at < 0 {
			at = 0
		}
		if writeOnce(r, d, indent, hdr, fn, mode, at, drawWriteError(r)) {
			fired = true
		}
		r.SimNanos += 1_000_000
	}
	if ops(6) == 5 && escapeOnce(r) {
		fired = true
	}
	r.Trivial = !fired
}

// escapeOnce writes escaped text to a simulated destination.
func escapeOnce(r *Run) bool {
	text := drawRawText()
	kept := string(text)
	var b bytes.Buffer
	var err error
	r.call("EscapeText", func() { err = xml.EscapeText(&b, text) })
	ref := b.String()
	if err != nil {
		r.fail("write-error", "EscapeText", "EscapeText to a buffer: %v", err)
	}
	var want strings.Builder
	for _, c := range kept {
		if !validChar(c) {
			c = 0xFFFD
		}
		want.WriteRune(c)
	}
	n, err := parseInfoset("<a>" + ref + "</a>")
	if err != nil || n.Text != want.String() || len(n.Kids) > 0 {
		r.fail("content", "EscapeText", "EscapeText(%q) gives %q, which does not read as that text", clip(kept), clip(ref))
	}
	w := &simWriter{r: r, polite: true, mode: wMode(flt(int(wModes))), at: drawOffset(len(ref)), errv: drawWriteError(r)}
	if w.at < 0 {
		w.at = 0
	}
	quiet := ops(4) == 3
	ep := r.call("EscapeText", func() {
		if quiet {
			xml.Escape(w, text)
		} else {
			err = xml.EscapeText(w, text)
		}
	})
	w.closed = true
	r.ev("write", "EscapeText of %q to a destination with %s at %d: %d of %d bytes, error %v", clip(kept), wModeNames[w.mode], w.at, len(w.buf), len(ref), err)
	r.record(fmt.Sprint(len(w.buf), errStr(err)))
	if w.fired {
		r.fault(wModeNames[w.mode])
		r.note(fmt.Sprintf("%s/EscapeText", posClass(w.at, len(ref))))
	}
	got := string(w.buf)
	switch {
	case string(text) != kept:
		r.fail("modified", "EscapeText", "EscapeText changed the text it was given")
	case !strings.HasPrefix(ref, got) || !w.fired && got != ref:
		r.fail("content", "EscapeText", "EscapeText delivered other bytes: %s", diffAt(got, ref))
	case w.after > 0:
		r.fail("after-failure", "EscapeText", "EscapeText sent %d more writes to the destination after it failed", w.after)
	case w.fired && w.mode == wPanic:
		if ep == nil {
			r.fail("swallowed", "EscapeText", "EscapeText swallowed the destination's panic")
		}
	case ep != nil:
		r.fail("panic", "EscapeText", "unexpected panic %v", ep.tag)
	case quiet:
	case w.fired && !errors.Is(err, w.err), !w.fired && err != nil:
		r.fail("swallowed", "EscapeText", "EscapeText reported %v, the destination %v", err, w.err)
	}
	return w.fired
}

const nWriteWays = 5

var writeWays = []string{"Write", "WriteXML", "Encoder", "AcquireEncoder", "EncodeElement"}

// writeOnce writes d to a simulated destination and checks the outcome. It
// reports whether the fault fired.
func writeOnce(r *Run, d *writable, indent string, hdr bool, fn int, mode wMode, at int, errv error) bool {
	ref := d.bytes(r, indent, hdr)
	w := &simWriter{r: r, mode: mode, at: at, errv: errv}
	var n int
	var err error
	counted := true
	// an Encoder leaves its destination to bufio.Writer, which after a short write
	// without an error (forbidden to writers) may offer the rest again
	w.polite = fn >= 2
	way := writeWays[fn]
	if fn == 4 {
		if _, ok := d.v.(*mpd.MPD); !ok {
			fn, way, w.polite = 1, "WriteXML", false
		}
	}
	fin := ops(4)
	ep := r.call(way, func() {
		switch fn {
		case 0:
			switch v := d.v.(type) {
			case *mpd.MPD:
				n, err = v.Write(w, indent, hdr)
			case *mpd.Period:
				hdr = false
				ref = d.bytes(r, indent, hdr)
				n, err = v.Write(w, indent)
			default:
				n, err = mpd.WriteXML(v, w, indent, hdr)
			}
		case 1:
			n, err = mpd.WriteXML(d.v, w, indent, hdr)
		case 2, 4:
			counted, hdr = false, false
			ref = d.bytes(r, indent, hdr)
			e := xml.NewEncoder(w)
			e.Indent("", indent)
			if fn == 4 {
				err = e.EncodeElement(d.v, xml.StartElement{Name: xml.Name{Local: "MPD"}})
			} else {
				err = e.Encode(d.v)
			}
			// Encode flushes: its answer must stand without Flush and Close
			for _, last := range [][]func() error{{}, {e.Flush}, {e.Close}, {e.Flush, e.Close}}[fin] {
				if e1 := last(); err == nil {
					err = e1
				} else if e1 == nil {
					r.fail("swallowed", way, "after %v was reported, Flush or Close says all went well", err)
				}
			}
		case 3:
			counted, hdr = false, false
			ref = d.bytes(r, indent, hdr)
			e := xml.AcquireEncoder(w)
			defer xml.ReleaseEncoder(e)
			e.Indent("", indent)
			err = e.Encode(d.v)
			if err == nil && fin > 0 {
				err = e.Flush()
			}
		}
	})
	w.closed = true
	r.ev("write", "%s %s indentation %q header %v to a destination with %s at %d: %d of %d bytes, count %d, error %v", d.name, way, indent, hdr, wModeNames[mode], at, len(w.buf), len(ref), n, err)
	r.record(fmt.Sprint(len(w.buf), n, errStr(err)))
	if w.fired {
		r.fault(wModeNames[mode])
		r.note(fmt.Sprintf("%s/%s", posClass(at, len(ref)), way))
	}
	got := string(w.buf)
	if !strings.HasPrefix(ref, got) {
		r.fail("content", way, "%s delivered bytes that are no prefix of the document: %s", way, diffAt(got, ref))
	}
	if w.after > 0 {
		r.fail("after-failure", way, "%s sent %d more writes to the destination after it failed (%s at %d of %d)", way, w.after, wModeNames[mode], at, len(ref))
	}
	if counted && ep == nil && n != len(got) {
		r.fail("count", way, "%s returned count %d, the destination accepted %d bytes (%s at %d of %d, error %v)", way, n, len(got), wModeNames[mode], at, len(ref), err)
	}
	switch {
	case ep != nil:
		if !w.fired || mode != wPanic {
			r.fail("panic", way, "unexpected panic %v", ep.tag)
		}
	case w.fired && mode == wPanic:
		r.fail("swallowed", way, "%s swallowed the destination's panic and returned %v", way, err)
	case w.fired:
		if err == nil {
			r.fail("swallowed", way, "%s reported success although the destination failed (%s at %d of %d bytes)", way, wModeNames[mode], at, len(ref))
		}
		if w.err != nil && !errors.Is(err, w.err) {
			r.fail("other-error", way, "%s reported %v instead of the destination's %v", way, err, w.err)
		}
	default:
		if err != nil {
			r.fail("write-error", way, "%s failed on a healthy destination: %v", way, err)
		}
		if got != ref {
			r.fail("content", way, "%s reported success but delivered %d of %d bytes: %s", way, len(got), len(ref), diffAt(got, ref))
		}
	}
	// nothing may reach the destination later, from a buffer kept somewhere
	if w.fired && ops(4) == 3 {
		var sb strings.Builder
		other := &mpd.MPD{XMLNs: nsDASH}
		r.call("next", func() { _, err = other.Write(&sb, "", false) })
		const want = `<MPD xmlns="` + nsDASH + `" profiles=""></MPD>`
		if err != nil || sb.String() != want {
			r.fail("next", way, "the write after a failed one gave %q, %v", clip(sb.String()), err)
		}
	}
	if w.late > 0 {
		r.fail("late", way, "%s wrote to its destination %d times after it had returned", way, w.late)
	}
	return w.fired
}

func posClass(at, n int) string {
	switch {
	case at == 0:
		return "start"
	case at >= n-1:
		return "end"
	case at%4096 <= 1 || at%4096 == 4095:
		return "buffer-edge"
	}
	return fmt.Sprint(at * 8 / n)
}

// validChar says whether XML has the character.
func validChar(c rune) bool {
	return c == '\t' || c == '\n' || c == '\r' || c >= 0x20 && c <= 0xD7FF || c >= 0xE000 && c <= 0xFFFD || c >= 0x10000 && c <= 0x10FFFF
}
