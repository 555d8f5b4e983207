package dst

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"dashsim/simrt"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

// ---- reading and writing by every function the API offers ----

var readNames = []string{"MPDFromBytes", "ReadFromString", "ReadFromFile", "xml.Unmarshal", "Decoder"}

var scratchDir string

// ScratchDir is where simulated files live.
func SetScratch(d string) { scratchDir = d }

func scratchFile(name string) string {
	if scratchDir == "" {
		d, err := os.MkdirTemp("", "dashsim")
		if err != nil {
			harness("scratch: %v", err)
		}
		scratchDir = d
	}
	return filepath.Join(scratchDir, name)
}

func CleanScratch() {
	if scratchDir != "" && strings.HasPrefix(filepath.Base(scratchDir), "dashsim") {
		os.RemoveAll(scratchDir)
	}
}

// readMPD parses doc by the i-th reading function.
func readMPD(r *Run, i int, doc []byte) (m *mpd.MPD, err error) {
	r.call(readNames[i], func() {
		switch i {
		case 0:
			m, err = mpd.MPDFromBytes(doc)
		case 1:
			m, err = mpd.ReadFromString(string(doc))
		case 2:
			p := scratchFile("in.mpd")
			if e := os.WriteFile(p, doc, 0o644); e != nil {
				harness("write %s: %v", p, e)
			}
			simrt.FileHook = func(string) *simrt.FileFault {
				return &simrt.FileFault{MaxChunk: func() int { return []int{0, 1, 7, 512}[style(4)] }}
			}
			m, err = mpd.ReadFromFile(p)
			simrt.FileHook = nil
		case 3:
			var v mpd.MPD
			err = xml.Unmarshal(doc, &v)
			if err == nil {
				v.SetParents()
				m = &v
			}
		case 4:
			var v mpd.MPD
			err = xml.NewDecoder(deliver(r, drawDelivery(r), doc, nil)).Decode(&v)
			if err == nil {
				v.SetParents()
				m = &v
			}
		}
	})
	return m, err
}

var writeNames = []string{"WriteToString", "Write", "WriteXML", "Marshal", "MarshalIndent", "Encoder", "AcquireEncoder"}

// writeMPD writes v (an *mpd.MPD) with indentation by the i-th writing function.
// The document is returned without any XML header.
func writeMPD(r *Run, i int, v *mpd.MPD, indent string) (doc string, err error) {
	r.call(writeNames[i], func() {
		hdr := ops(2) == 1
		switch i {
		case 0:
			doc, err = v.WriteToString(indent, hdr)
		case 1:
			var b bytes.Buffer
			_, err = v.Write(&b, indent, hdr)
			doc = b.String()
		case 2:
			var b bytes.Buffer
			_, err = mpd.WriteXML(v, &b, indent, hdr)
			doc = b.String()
		case 3, 4:
			var b []byte
			if indent == "" && i == 3 {
				b, err = xml.Marshal(v)
			} else {
				b, err = xml.MarshalIndent(v, "", indent)
			}
			doc = string(b)
			hdr = false
		case 5:
			var b bytes.Buffer
			e := xml.NewEncoder(&b)
			if indent != "" {
				e.Indent("", indent)
			}
			err = e.Encode(v)
			doc = b.String()
			hdr = false
		case 6:
			var b bytes.Buffer
			e := xml.AcquireEncoder(&b)
			e.Indent("", indent)
			err = e.Encode(v)
			if err == nil {
				err = e.Flush()
			}
			xml.ReleaseEncoder(e)
			doc = b.String()
			hdr = false
		}
		if hdr && err == nil {
			if !strings.HasPrefix(doc, xml.Header) {
				r.fail("header", writeNames[i], "header asked for but document starts %q", clip(doc))
			}
			doc = doc[len(xml.Header):]
		}
	})
	return doc, err
}

var indents = []string{"", "  ", "\t", " ", "    "}

func drawIndent() string { return indents[ops(len(indents))] }

func init() {
	register(&Scenario{
		ID: "P09", Quick: 24000, Thorough: 600000, Run: runP09,
		Faults: []string{"message-drop", "message-dup", "message-reorder", "node-restart", "pool-purge", "split-read", "empty-read", "byte-at-a-time", "eof-with-data", "byte-reader", "scribbled-buffer"},
		Rule: "Each run publishes 1-3 drawn MPD values (drawn over all 95 element types and ~870 fields of the frozen table, half of them steered to a drawn type) through a drawn chain of relay nodes over a link that drops, duplicates and reorders messages, with node restarts; " +
			"every received document is checked against the expected content of its version. Distinct by the hash of the event sequence, the document shape and the spelling; trivial if no document reached the client.",
		Real:   []string{"mpd (all)", "xml encoder and decoder (all)", "go-deepcopy"},
		Stub:   []string{"network link between publisher, relays and client", "disk (read chunking)", "sync.Pool", "process restart (package state reset)"},
		Assume: []string{"the frozen table schema.txt states the specified names, namespaces and kinds", "attribute order is not content", "strings are valid XML characters"},
	})
}

// published is one version put on the wire.
type published struct {
	m    *mpd.MPD
	want *Node
}

func runP09(r *Run) {
	simrt.SetPoolMode(uint32(ops(3)))
	nv := 1 + ops(3)
	var pubs []published
	for i := 0; i < nv; i++ {
		g := newGen()
		m, n := g.genMPD()
		pubs = append(pubs, published{m, n})
		for _, f := range []string{"scte35", "anyattr", "inner", "markup-char", "empty", "big-text", "big-list", "big-attrs"} {
			if g.feats[f] {
				r.probe("doc:" + f)
			}
		}
		r.note(shapeOf(n))
	}
	nodes := 1 + ops(3) // relays between publisher and client
	lossy := ops(2) == 1
	type msg struct {
		ver int
		doc []byte
		hop int
	}
	var wire []msg
	for i, p := range pubs {
		var doc string
		if opsP(1, 3) { // a foreign publisher with its own spelling
			doc = render(p.want)
			r.ev("publish-foreign", "version %d: %s", i, doc)
		} else {
			var err error
			w := ops(len(writeNames))
			doc, err = writeMPD(r, w, p.m, drawIndent())
			if err != nil {
				r.fail("write-error", writeNames[w], "writing a generated MPD failed: %v", err)
			}
			r.ev("publish", "version %d by %s: %s", i, writeNames[w], doc)
			checkDoc(r, doc, p.want, "published")
		}
		wire = append(wire, msg{i, []byte(doc), 0})
	}
	delivered := 0
	steps := 0
	for len(wire) > 0 && steps < 24 {
		steps++
		k := 0
		if len(wire) > 1 && fltP(1, 3) {
			k = flt(len(wire))
			if k > 0 {
				r.fault("message-reorder")
			}
		}
		mg := wire[k]
		wire = append(wire[:k:k], wire[k+1:]...)
		if lossy && fltP(1, 10) {
			r.fault("message-drop")
			r.ev("drop", "version %d at hop %d", mg.ver, mg.hop)
			continue
		}
		if lossy && fltP(1, 10) {
			r.fault("message-dup")
			wire = append(wire, mg)
		}
		if fltP(1, 8) {
			r.fault("node-restart")
			simrt.Restart()
			r.ev("restart", "")
		}
		if fltP(1, 8) {
			r.fault("pool-purge")
			simrt.PurgePools()
		}
		rd := ops(len(readNames))
		in := append([]byte(nil), mg.doc...)
		got, err := readMPD(r, rd, in)
		r.record(errStr(err))
		if err != nil || got == nil {
			r.fail("read-error", readNames[rd], "reading version %d at hop %d failed: %v\n%s", mg.ver, mg.hop, err, clip(string(mg.doc)))
		}
		want := mpd.Clone(pubs[mg.ver].m)
		normDur(reflect.ValueOf(want))
		if k, m := diffValues(got, want); k != "" {
			r.fail("field", k, "after %d hops, read by %s: %s (got versus published)\n%s", mg.hop, readNames[rd], m, clip(string(mg.doc)))
		}
		r.ev("received", "version %d at hop %d by %s", mg.ver, mg.hop, readNames[rd])
		if mg.hop >= nodes {
			delivered++
			continue
		}
		if ops(4) == 3 {
			r.call("Clone", func() { got = mpd.Clone(got) })
		}
		w := ops(len(writeNames))
		doc, err := writeMPD(r, w, got, drawIndent())
		if err != nil {
			r.fail("write-error", writeNames[w], "relaying version %d failed: %v", mg.ver, err)
		}
		checkDoc(r, doc, pubs[mg.ver].want, fmt.Sprintf("relayed (hop %d)", mg.hop+1))
		r.record(doc)
		r.ev("relay", "version %d by %s", mg.ver, writeNames[w])
		wire = append(wire, msg{mg.ver, []byte(doc), mg.hop + 1})
	}
	r.SimNanos += int64(steps) * 50_000_000
	r.Trivial = delivered == 0
}

// shapeOf summarises a document for counting distinct cases.
func shapeOf(n *Node) string {
	var sb strings.Builder
	var f func(n *Node)
	f = func(n *Node) {
		sb.WriteString(n.Local)
		for _, a := range n.Attrs {
			sb.WriteString("@" + a.Local)
		}
		sb.WriteString("(")
		for _, k := range n.Kids {
			f(k)
		}
		sb.WriteString(")")
	}
	f(n)
	return sb.String()
}

func checkDoc(r *Run, doc string, want *Node, what string) {
	got, err := parseInfoset(doc)
	if err != nil {
		r.fail("malformed", "doc", "%s document is not well-formed: %v\n%s", what, err, clip(doc))
	}
	if k, m := compare(got, want, ""); k != "" {
		r.fail("content", k, "%s document: %s\n%s", what, m, clip(doc))
	}
}
