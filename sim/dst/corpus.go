package dst

import (
	"embed"
	"sort"
	"strings"
)

//go:embed corpus
var corpusFS embed.FS

type corpusDoc struct {
	name string
	text string
	tree *Node // nil if not well-formed
}

// corpus holds real manifests; mpds those with an MPD document element.
var corpus, mpds []corpusDoc

func init() {
	es, err := corpusFS.ReadDir("corpus")
	if err != nil {
		panic(err)
	}
	sort.Slice(es, func(i, j int) bool { return es[i].Name() < es[j].Name() })
	for _, e := range es {
		b, err := corpusFS.ReadFile("corpus/" + e.Name())
		if err != nil {
			panic(err)
		}
		c := corpusDoc{name: e.Name(), text: string(b)}
		if !strings.HasPrefix(c.text, "\ufeff") {
			c.tree, _ = parseInfoset(c.text)
		}
		corpus = append(corpus, c)
		if c.tree != nil && c.tree.Local == "MPD" && c.tree.Space == nsDASH {
			mpds = append(mpds, c)
		}
	}
}

func (n *Node) clone() *Node {
	c := *n
	c.Attrs = append([]NAttr(nil), n.Attrs...)
	c.Kids = make([]*Node, len(n.Kids))
	for i, k := range n.Kids {
		c.Kids[i] = k.clone()
	}
	return &c
}

// nodes lists the tree in document order (the root first), not looking into
// verbatim content.
func (n *Node) nodes() []*Node {
	out := []*Node{n}
	for _, k := range n.Kids {
		out = append(out, k.nodes()...)
	}
	return out
}

func (n *Node) size() int { return len(n.nodes()) }

var lexical = []string{"", "0", "1", "+1", " 1 ", "01", "-1", "1e3", "1.5", "TRUE", "true", "0x10", "99999999999999999999", "INF", "-INF", "NaN",
	"PT1S", "PT1M30S", "P1D", "PT0.0005S", "PT0.0015S", "PT1.0004999S", "PT", "P1Y", "PT36H", "PT1H1M1.001S", "P1DT1H", "-PT1S", "PT-1S", "PT1.S", "PT.5S",
	"a b  c", "x\ty", "\n", "2024-01-01T00:00:00Z", "<&>\"'", "]]>", "http://a/b?c=d&e=f", "ü日𝄞", "dynamic", "static"}

var mutSpaces = []string{"", nsDASH, "urn:mpeg:cenc:2013", "http://www.w3.org/1999/xlink", "http://www.scte.org/schemas/35", "http://www.scte.org/schemas/35/2016", "urn:ext:1", nsXML}

// mutTree makes k drawn structural changes: a node is dropped, doubled, moved,
// renamed, or gets other attributes, children or text.
func mutTree(root *Node, k int) []string {
	var done []string
	for ; k > 0; k-- {
		ns := root.nodes()
		n := ns[ops(len(ns))]
		attr := func() int { return ops(len(n.Attrs)) }
		kid := func() int { return ops(len(n.Kids)) }
		switch m := ops(14); m {
		case 0:
			if len(n.Attrs) > 0 {
				n.Attrs[attr()].Val = pick(lexical)
				done = append(done, "value")
			}
		case 1:
			if len(n.Attrs) > 0 {
				i := attr()
				n.Attrs = append(n.Attrs[:i:i], n.Attrs[i+1:]...)
				done = append(done, "drop-attr")
			}
		case 2:
			n.Attrs = append(n.Attrs, NAttr{Space: pick(mutSpaces), Local: "x" + pick([]string{"a", "b", "id", "xmlns"}), Val: pick(lexical)})
			done = append(done, "foreign-attr")
		case 3:
			if len(n.Kids) > 0 {
				i := kid()
				n.Kids = append(n.Kids[:i:i], n.Kids[i+1:]...)
				done = append(done, "drop-element")
			}
		case 4:
			if len(n.Kids) > 0 {
				i := kid()
				j := ops(len(n.Kids) + 1)
				c := n.Kids[i].clone()
				n.Kids = append(n.Kids[:j:j], append([]*Node{c}, n.Kids[j:]...)...)
				done = append(done, "double-element")
			}
		case 5:
			if len(n.Kids) > 1 {
				i, j := kid(), kid()
				n.Kids[i], n.Kids[j] = n.Kids[j], n.Kids[i]
				done = append(done, "reorder")
			}
		case 6:
			c := ns[ops(len(ns))].clone()
			if c.size() < 60 {
				n.Kids = append(n.Kids, c)
				done = append(done, "graft")
			}
		case 7:
			if n != root {
				n.Space = pick(mutSpaces[:7])
				done = append(done, "other-namespace")
			}
		case 8:
			n.Kids = append(n.Kids, &Node{Space: pick(mutSpaces[:7]), Local: pick([]string{"Unknown", "Period", "Event", "Ext", "Signal", "BaseURL"}), Text: pick(lexical), HasText: true})
			done = append(done, "foreign-element")
		case 9:
			n.Text = pick(lexical)
			n.HasText = true
			done = append(done, "text")
		case 10:
			n.Text, n.HasText = "", false
			n.Kids = nil
			done = append(done, "empty")
		case 11:
			for _, a := range ns[ops(len(ns))].Attrs {
				if !hasAttr(n, a) {
					n.Attrs = append(n.Attrs, a)
				}
			}
			done = append(done, "graft-attrs")
		case 12:
			if len(n.Attrs) > 0 {
				a := attr()
				b := n.Attrs[a]
				b.Space = pick(mutSpaces[:7])
				if !hasAttr(n, b) {
					n.Attrs[a] = b
					done = append(done, "attr-namespace")
				}
			}
		case 13:
			if len(n.Attrs) > 1 {
				i, j := attr(), attr()
				n.Attrs[i], n.Attrs[j] = n.Attrs[j], n.Attrs[i]
				done = append(done, "attr-order")
			}
		}
	}
	for _, n := range root.nodes() { // names stay unique per element
		seen := map[string]bool{}
		var out []NAttr
		for _, a := range n.Attrs {
			if !seen[a.Space+" "+a.Local] {
				seen[a.Space+" "+a.Local] = true
				out = append(out, a)
			}
		}
		n.Attrs = out
	}
	return done
}

func hasAttr(n *Node, a NAttr) bool {
	for _, b := range n.Attrs {
		if a.Space == b.Space && a.Local == b.Local {
			return true
		}
	}
	return false
}
