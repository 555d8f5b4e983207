package dst

import (
	"fmt"
	"strings"

	"dashsim/simrt"

	"github.com/Eyevinn/dash-mpd/mpd"
)

func init() {
	register(&Scenario{
		ID: "P10", Quick: 34000, Thorough: 500000, Run: runP10,
		Faults: []string{"node-restart", "pool-purge", "split-read", "empty-read", "byte-at-a-time", "eof-with-data", "byte-reader", "scribbled-buffer", "foreign-structure", "number-out-of-range"},
		Rule: "Each run takes one source manifest (written by the API from a drawn value, spelled by a foreign publisher, or a real manifest; two thirds structurally mutated: values replaced by other lexical forms, attributes and elements dropped, doubled, moved, renamed, grafted, foreign ones added), " +
			"and sends it over 3-7 relay hops with drawn reading and writing functions, indentation, clones, restarts and pool purges. Output after hop 1 must be reproduced byte for byte per indentation; across indentations the whole canonical information content must agree. Distinct by event sequence and document shape; trivial if the source was not accepted.",
		Real:   []string{"mpd (all)", "xml encoder and decoder (all)", "go-deepcopy"},
		Stub:   []string{"network between relays", "disk (read chunking)", "sync.Pool", "process restart (package state reset)"},
		Assume: []string{"extension content carries its own namespace declarations (see known findings)"},
	})
}

// source draws a manifest text.
func source(r *Run) string {
	doc, _ := sourceOf(r)
	return doc
}

// sourceOf also returns what the manifest says if nothing in it is foreign.
func sourceOf(r *Run) (string, *Node) {
	var n *Node
	exact := false
	k := ops(4)
	switch k {
	case 0, 1:
		g := newGen()
		m, tree := g.genMPD()
		if k == 0 {
			doc, err := writeMPD(r, ops(len(writeNames)), m, drawIndent())
			if err != nil {
				r.fail("write-error", "source", "writing a generated MPD failed: %v", err)
			}
			r.ev("source", "written by the API")
			return doc, tree
		}
		n, exact = tree, true
		r.ev("source", "foreign spelling of generated content")
	case 2:
		c := pick(mpds)
		r.ev("source", "%s", c.name)
		if ops(3) == 0 {
			return c.text, nil
		}
		n = c.tree.clone()
	case 3:
		g := newGen()
		_, n = g.genMPD()
		r.ev("source", "generated")
	}
	if opsP(2, 3) || k == 3 {
		exact = false
		for _, m := range mutTree(n, 1+ops(6)) {
			r.fault("foreign-structure")
			r.probe("mut:" + m)
			r.ev("mutate", "%s", m)
		}
	}
	if !exact {
		return render(n), nil
	}
	return render(n), n
}

// misfit puts one number that its field cannot hold into a manifest that is otherwise
// as specified. It returns "" if the drawn manifest has no number.
func misfit(r *Run) (doc, what string) {
	g := newGen()
	_, n := g.genMPD()
	type at struct {
		n *Node
		i int
	}
	var nums []at
	for _, e := range n.nodes() {
		for i, a := range e.Attrs {
			if _, ok := misfits[a.Kind]; ok {
				nums = append(nums, at{e, i})
			}
		}
	}
	if len(nums) == 0 {
		return "", ""
	}
	k := nums[ops(len(nums))]
	a := &k.n.Attrs[k.i]
	a.Val = pick(misfits[a.Kind])
	r.fault("number-out-of-range")
	return render(n), fmt.Sprintf("%s@%s (%s) = %s", k.n.Local, a.Local, a.Kind, a.Val)
}

// misfits are texts that denote nothing a field of the kind can hold.
var misfits = map[string][]string{
	"uint8":   {"0x1F", "0b1", "0o7", "1_0", "1e1", "256", "257", "511", "65537", "4294967301", "18446744073709551617", "-1", "-255", "1.5", "1e2x", "one", "1 2"},
	"uint16":  {"0x1F", "0b1", "0o7", "1_0", "1e1", "65536", "65541", "4294967301", "18446744073709551617", "-1", "-65535", "1.5", "one", "1 2"},
	"uint32":  {"0x1F", "0b1", "0o7", "1_0", "1e1", "4294967296", "4294967301", "281474976710661", "18446744073709551617", "-1", "-4294967295", "1.5", "one", "1 2"},
	"uint64":  {"0x1F", "0b1", "0o7", "1_0", "1e1", "18446744073709551616", "18446744073709551621", "-1", "-18446744073709551615", "1.5", "one", "1 2"},
	"int":     {"0x1F", "0b1", "0o7", "1_0", "1e1", "9223372036854775808", "18446744073709551617", "-9223372036854775809", "1.5", "one", "1 2"},
	"int64":   {"0x1F", "0b1", "0o7", "1_0", "1e1", "9223372036854775808", "18446744073709551617", "-9223372036854775809", "1.5", "one", "1 2"},
	"int32":   {"0x1F", "0b1", "0o7", "1_0", "1e1", "2147483648", "4294967301", "-2147483649", "18446744073709551617", "1.5", "one", "1 2"},
	"float64": {"1e309", "-1e309", "one", "1,5", "1 2"},
	"float32": {"1e39", "-1e39", "3.5e38", "one", "1,5", "1 2"},
	"bool":    {"2", "-1", "yes", "no", "on", "tru", "true false"},
}

func runP10(r *Run) {
	simrt.SetPoolMode(uint32(ops(3)))
	if ops(12) == 11 {
		if doc, what := misfit(r); doc != "" {
			rd := ops(len(readNames))
			r.ev("misfit", "%s: %s", what, doc)
			m, err := readMPD(r, rd, []byte(doc))
			r.record(errStr(err))
			if err == nil {
				out, _ := writeMPD(r, 0, m, "")
				r.fail("accepted", "misfit", "a manifest with %s, which the field cannot hold, was accepted by %s\nand is relayed as %s", what, readNames[rd], clip(out))
			}
			return
		}
	}
	doc, want := sourceOf(r)
	r.logf("source text %s", doc)
	rd := ops(len(readNames))
	m, err := readMPD(r, rd, []byte(doc))
	r.record(errStr(err))
	if err != nil {
		r.probe("rejected")
		r.ev("rejected", "%v", err)
		r.Trivial = true
		return
	}
	r.probe("accepted")
	seen := map[string]string{} // indentation -> bytes
	var canon string
	hops := 3 + ops(5)
	for h := 1; h <= hops; h++ {
		if fltP(1, 6) {
			r.fault("node-restart")
			simrt.Restart()
		}
		if fltP(1, 6) {
			r.fault("pool-purge")
			simrt.PurgePools()
		}
		if ops(4) == 3 {
			r.call("Clone", func() { m = mpd.Clone(m) })
			r.ev("clone", "")
		}
		in := indents[ops(3)]
		w := ops(len(writeNames))
		out, err := writeMPD(r, w, m, in)
		if err != nil {
			r.fail("write-error", writeNames[w], "hop %d: writing a parsed manifest failed: %v\nsource %s", h, err, clip(doc))
		}
		r.ev("hop", "%d by %s with indentation %q: %s", h, writeNames[w], in, out)
		r.record(out)
		tree, err := parseInfoset(out)
		if err != nil {
			r.fail("malformed", "doc", "hop %d wrote a document that is not well-formed: %v\n%s\nsource %s", h, err, clip(out), clip(doc))
		}
		c := canonText(tree)
		if h == 1 {
			canon = c
			if want != nil {
				r.probe("first-hop-compared")
				if k, m := compare(tree, want, ""); k != "" {
					r.fail("first-hop", k, "hop 1 changed what the manifest says: %s\n%s\nsource %s", m, clip(out), clip(doc))
				}
			}
			r.note(shapeOf(tree))
		} else if c != canon {
			r.fail("content", "hop", "hop %d (%s, indentation %q) changed the content: %s\nsource %s", h, writeNames[w], in, diffAt(canon, c), clip(doc))
		}
		if prev, ok := seen[in]; ok && prev != out {
			r.fail("bytes", "hop", "hop %d (%s, indentation %q) did not reproduce the bytes: %s\nsource %s", h, writeNames[w], in, diffAt(prev, out), clip(doc))
		}
		seen[in] = out
		rd = ops(len(readNames))
		in2 := []byte(out)
		nxt, err := readMPD(r, rd, in2)
		if err != nil {
			r.fail("read-error", readNames[rd], "hop %d: reading a relayed manifest failed: %v\n%s\nsource %s", h, err, clip(out), clip(doc))
		}
		m = nxt
	}
	r.SimNanos += int64(hops) * 50_000_000
}

// canonText writes the content of a tree canonically: expanded names, attributes
// in document order, text; white space around child elements and in empty
// elements is dropped. Verbatim content stays as the elements it consists of.
func canonText(n *Node) string {
	var sb strings.Builder
	var f func(n *Node)
	f = func(n *Node) {
		sb.WriteString("<{" + n.Space + "}" + n.Local)
		for _, a := range n.Attrs {
			sb.WriteString(" {" + a.Space + "}" + a.Local + "=" + a.Val + "\x00")
		}
		sb.WriteString(">")
		if n.Local == "Ext" {
			sb.WriteString("\x02" + n.Inner)
			return
		}
		t := n.Text
		if len(n.Kids) > 0 {
			t = strings.Trim(t, " \t\r\n")
		}
		sb.WriteString("\x01" + t)
		for _, k := range n.Kids {
			f(k)
		}
		sb.WriteString("</>")
	}
	f(n)
	return sb.String()
}
