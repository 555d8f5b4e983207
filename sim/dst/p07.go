package dst

import (
	stdxml "encoding/xml"
	"errors"
	"io"
	"io/fs"
	"os"
	"strings"
	"syscall"

	"dashsim/simrt"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&Scenario{
		ID: "P07", Quick: 50000, Thorough: 1200000, Run: runP07,
		Faults: []string{"cut", "torn-file", "zeroed-tail", "disk-read-error", "open-error", "missing-file", "empty-file", "reader-error", "sweep", "byte-at-a-time", "split-read", "empty-read", "eof-with-data", "byte-reader", "scribbled-buffer"},
		Rule: "Each run draws a whole document (API-written, foreign-spelled, mutated or real manifest; generic tree; rich value) and reads it 4-10 times, each time cut at a drawn byte (anywhere, edges of tags, last bytes, just after the end) or with the reader or disk failing there, through every reading function, drawn chunking, token loops and Skip; 1 run in 40 cuts a small document at every byte. " +
			"Where the document element ends is decided by encoding/xml. Distinct by event sequence, fault kind and position class; trivial if no fault fell inside the document.",
		Real: []string{"mpd readers", "xml decoder", "os file reads of a scratch file"},
		Stub: []string{"disk (open and read faults, chunking)", "byte sources"},
	})
}

// docEnd finds the offset just after the document element's end tag.
func docEnd(doc string) int {
	d := stdxml.NewDecoder(strings.NewReader(doc))
	depth := 0
	for {
		t, err := d.RawToken()
		if err != nil {
			return -1
		}
		switch t.(type) {
		case stdxml.StartElement:
			depth++
		case stdxml.EndElement:
			if depth--; depth == 0 {
				return int(d.InputOffset())
			}
		}
	}
}

func runP07(r *Run) {
	simrt.SetPoolMode(uint32(ops(3)))
	var doc string
	target := 0
	switch ops(6) {
	case 0, 1, 2, 3:
		doc = source(r)
	case 4:
		doc = render(newGen().genTree(0, true, "").node())
		target = 1
	case 5:
		b, err := xml.MarshalIndent(newGen().genRich(), "", drawIndent())
		if err != nil {
			r.fail("source", "encode", "%v", err)
		}
		doc, target = string(b), 2
	}
	if target == 0 && strings.Contains(doc[:min(len(doc), 200)], "<MPD") == false && !strings.Contains(doc, "MPD") {
		r.fail("source", "no-mpd", "no MPD in %q", clip(doc))
	}
	end := docEnd(doc)
	if end < 0 {
		r.fail("source", "malformed", "source is not well formed: %q", doc)
	}
	if ops(4) == 3 { // something after the document
		doc = doc[:end] + pick([]string{"\n", "<!-- x -->", " <?p?>\n", "\n\n\n", "<MPD"})
	}
	// the complete result
	want, werr := readAll(r, target, doc)
	r.ev("document", "target %s, %d bytes, document element ends at %d, whole: %v: %s", targetNames[target], len(doc), end, werr, doc)
	r.note(targetNames[target])
	r.record(errStr(werr))
	if werr != nil { // not a document this type accepts
		r.probe("rejected")
	}
	inside := false
	if ops(40) == 39 && len(doc) < 1500 {
		r.fault("sweep")
		way := ops(nCutWays)
		for at := 0; at <= len(doc); at++ {
			cutOnce(r, doc, end, at, target, way, want, werr)
		}
		inside = true
	}
	for k := 4 + ops(7); k > 0; k-- {
		at := 0
		switch flt(6) {
		case 0, 1:
			at = flt(len(doc) + 1)
		case 2: // near the end of the document element
			at = end - flt(12)
		case 3: // at the edge of a tag
			at = flt(len(doc) + 1)
			if i := strings.IndexAny(doc[at:], "<>"); i >= 0 {
				at += i + flt(2)
			}
		case 4:
			at = end + flt(len(doc)-end+1)
		case 5:
			at = flt(min(len(doc), 80) + 1)
		}
		if at < 0 {
			at = 0
		}
		if cutOnce(r, doc, end, at, target, flt(nCutWays), want, werr) {
			inside = true
		}
		r.SimNanos += 1_000_000
	}
	r.Trivial = !inside
}

func readAll(r *Run, target int, doc string) (string, error) {
	v := newTarget(target)
	var err error
	r.call("read", func() {
		err = xml.Unmarshal([]byte(doc), v)
		if m, ok := v.(*mpd.MPD); ok && err == nil {
			m.SetParents()
		}
	})
	return snapshot(v), err
}

const nCutWays = 12

var cutWays = []string{"MPDFromBytes", "ReadFromString", "ReadFromFile torn", "ReadFromFile disk error", "xml.Unmarshal", "Decoder at end", "Decoder reader error", "Token loop", "Skip", "ReadFromFile cannot open", "ReadFromFile odd file", "ReadFromFile zeroed tail"}

// cutOnce reads doc cut at a byte and checks the outcome. It reports whether the
// fault fell inside the document element.
func cutOnce(r *Run, doc string, end, at, target, way int, want string, werr error) bool {
	if target != 0 && (way <= 3 || way >= 9) {
		way = 4 + way%5
	}
	cut := doc[:at]
	inside := at < end
	var m *mpd.MPD
	var err error
	var val any
	isMPDFunc := way <= 3 || way >= 9
	var own error // the error of the failing reader
	strictEnd := false
	path := scratchFile("p07.mpd")
	put := func(b string) {
		if e := os.WriteFile(path, []byte(b), 0o644); e != nil {
			harness("%v", e)
		}
	}
	r.call(cutWays[way], func() {
		switch way {
		case 0:
			r.fault("cut")
			m, err = mpd.MPDFromBytes([]byte(cut))
		case 1:
			r.fault("cut")
			m, err = mpd.ReadFromString(cut)
		case 2:
			r.fault("torn-file")
			if at == 0 {
				r.fault("empty-file")
			}
			put(cut)
			simrt.FileHook = func(string) *simrt.FileFault {
				return &simrt.FileFault{MaxChunk: func() int { return []int{0, 1, 7, 512}[style(4)] }}
			}
			m, err = mpd.ReadFromFile(path)
			simrt.FileHook = nil
		case 3:
			r.fault("disk-read-error")
			put(doc)
			own = syscall.EIO
			if at >= end {
				strictEnd = true // either complete or the disk's error
			}
			var fired int64
			simrt.FileHook = func(string) *simrt.FileFault {
				return &simrt.FileFault{ReadErr: syscall.EIO, ErrAt: int64(at), Fired: &fired, MaxChunk: func() int { return []int{0, 1, 7, 512}[style(4)] }}
			}
			m, err = mpd.ReadFromFile(path)
			simrt.FileHook = nil
		case 4:
			r.fault("cut")
			val = newTarget(target)
			err = xml.Unmarshal([]byte(cut), val)
		case 5, 6:
			var e error = io.EOF
			if way == 6 {
				r.fault("reader-error")
				own = drawReadError(r)
				e = own
			} else {
				r.fault("cut")
			}
			val = newTarget(target)
			err = xml.NewDecoder(deliver(r, drawDelivery(r), []byte(cut), e)).Decode(val)
		case 7, 8:
			var e error = io.EOF
			if style(2) == 1 {
				r.fault("reader-error")
				own = drawReadError(r)
				e = own
			} else {
				r.fault("cut")
			}
			d := xml.NewDecoder(deliver(r, drawDelivery(r), []byte(cut), e))
			depth, started := 0, false
			for {
				var t xml.Token
				if t, err = d.Token(); err != nil {
					break
				}
				switch t.(type) {
				case xml.StartElement:
					started = true
					depth++
					if way == 8 {
						if err = d.Skip(); err == nil {
							depth--
						}
					}
				case xml.EndElement:
					depth--
				}
				if err != nil || started && depth == 0 {
					break
				}
			}
			if err == io.EOF && started {
				r.fail("clean-end", cutWays[way], "%s reported a clean end of input inside the document (cut at %d of %d)\n%s", cutWays[way], at, end, clip(cut))
			}
			if err == nil && inside {
				r.fail("accepted", cutWays[way], "%s took a document cut at %d of %d for whole\n%s", cutWays[way], at, end, clip(cut))
			}
			if err != nil && !inside && werr == nil {
				r.fail("rejected", cutWays[way], "%s failed with %v although the whole document was delivered (cut at %d, ends at %d)\n%s", cutWays[way], err, at, end, clip(cut))
			}
		case 9:
			e := []error{syscall.EACCES, syscall.EMFILE, syscall.EIO, fs.ErrNotExist}[flt(4)]
			r.fault("open-error")
			put(doc)
			own = e
			inside = true
			simrt.FileHook = func(string) *simrt.FileFault { return &simrt.FileFault{OpenErr: e} }
			m, err = mpd.ReadFromFile(path)
			simrt.FileHook = nil
		case 10:
			inside = true
			p := scratchFile("missing.mpd")
			if flt(2) == 1 {
				p = scratchDir // a directory
			}
			r.fault("missing-file")
			m, err = mpd.ReadFromFile(p)
		case 11: // the length reached the disk, the tail did not
			r.fault("zeroed-tail")
			put(cut + strings.Repeat("\x00", len(doc)-at))
			m, err = mpd.ReadFromFile(path)
		}
	})
	r.ev("read", "%s cut at %d: error %s", cutWays[way], at, strings.ReplaceAll(errStr(err), scratchDir, "DIR"))
	r.record(strings.ReplaceAll(errStr(err), scratchDir, "DIR"))
	r.note(cutWays[way] + posClass(at, end+1))
	switch {
	case way == 7 || way == 8:
	case inside:
		if err == nil {
			r.fail("accepted", cutWays[way], "%s took a document cut at %d of %d for whole\n%s", cutWays[way], at, end, clip(cut))
		}
	case strictEnd && err != nil:
	default:
		if errStr(err) != errStr(werr) {
			r.fail("disagree", cutWays[way], "%s gives error %v for a document delivered whole (cut at %d, ends at %d), the byte reader %v", cutWays[way], err, at, end, werr)
		}
		if err == nil {
			if val == nil {
				val = m
			} else if mm, ok := val.(*mpd.MPD); ok {
				mm.SetParents()
			}
			if got := snapshot(val); got != want {
				r.fail("incomplete", cutWays[way], "%s gives another result for the whole document: %s", cutWays[way], diffAt(got, want))
			}
		}
	}
	if isMPDFunc && (err == nil) != (m != nil) {
		r.fail("both", cutWays[way], "%s returned MPD %v together with error %v", cutWays[way], m != nil, err)
	}
	if err != nil && own != nil && inside && !errors.Is(err, own) {
		// unless the text before the failure was already wrong
		if _, e := readAll(r, target, cut); werr == nil && !isSyntaxElsewhere(e) {
			r.fail("other-error", cutWays[way], "%s reported %q instead of the reader's own %q (cut at %d of %d)", cutWays[way], err, own, at, end)
		}
	}
	return inside
}

// isSyntaxElsewhere tells errors about the text itself from those about its end.
func isSyntaxElsewhere(err error) bool {
	return err != nil && err != io.EOF && !strings.Contains(err.Error(), "unexpected EOF")
}
