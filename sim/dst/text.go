package dst

import (
	"bytes"
	"strings"
)

// soup writes XML text straight from a grammar, with rare mistakes. It covers the
// lexical level: quoting, entities, line ends, comments, CDATA, processing
// instructions, directives, prefixes, non-ASCII and invalid bytes.
type soup struct {
	sb     strings.Builder
	ns     bool // prefixes and declarations
	wild   bool // mistakes
	dup    bool // duplicate attributes
	html   bool // what only relaxed reading accepts
	long   bool // one run of text is still to be long
	budget int
	names  []string
	attrs  []string
}

var soupText = []string{"x", "hello world", " ", "\n", "\r\n", "\r", "\t\n ", "&lt;", "&gt;", "&amp;", "&apos;", "&quot;", "&#65;", "&#x41;", "&#x1D11E;", "1", "42", "-7", "1.5", "true", "ü日𝄞", ">", "'\"", "a]]b", "&#10;", "&#13;", "&#9;", "2024-01-02T03:04:05Z"}
var soupBad = []string{"&bogus;", "&", "&;", "&#;", "&#x;", "&#0;", "&#x110000;", "&#xD800;", "&#x100000041;", "&#4294967361;", "&#x10000000000000041;", "&#18446744073709551681;", "&#-65;", "&#+65;", "&#0065;", "&#x000041;", "&#X41;", "&#xfffe;", "&# 65;", "&#6_5;", "&#0x41;", "\xff", "\x00", "\x01", "]]>", "<", "&lt", "&#65", "\xed\xa0\x80", "\ufffe", "&copy;", "&nbsp;", "&AElig;", "&thetasym;"}
var soupEntities = []string{"&copy;", "&COPY;", "&Copy;", "&bogus;", "&Bogus;", "&nbsp;", "&AElig;", "&aelig;", "&Aelig;", "&nbsp", "&amp;", "&AMP;", "&Lt;", "&copy ;", "&sup2;", "&there4;"}
var soupNames = []string{"a", "b", "c1", "x-y", "_z", "rich", "sub", "name", "first", "last", "more", "ptr", "text", "when", "bytes", "e1", "Ünï", "long-element-name.with.dots", "br", "img", "HR"}
var soupAttrs = []string{"id", "opt", "flag", "num", "k", "u", "e2", "x-y", "lang"}
var soupPrefixes = []string{"p", "q", "xml", "xmlns", "undeclared"}

func newSoup(ns, wild bool) *soup {
	return &soup{ns: ns, wild: wild, long: opsP(1, 150), budget: 4 + ops(40), names: soupNames, attrs: soupAttrs}
}

func (s *soup) w(x string) { s.sb.WriteString(x) }

func (s *soup) bad(n int) bool { return s.wild && flt(n) == n-1 }

func (s *soup) name(elem bool) string {
	n := pick(s.names)
	if !elem {
		n = pick(s.attrs)
	}
	if s.ns && ops(4) == 3 {
		n = soupPrefixes[ops(2)] + ":" + n
		if s.bad(10) {
			n = pick(soupPrefixes) + ":" + pick(s.names)
		}
	}
	if s.bad(60) {
		n = pick([]string{"", ":", "a:", ":a", "1a", "-a", "a:b:c", "\xff", "a\x00"})
	}
	return n
}

// run draws the long run of text of a document, if it is to have one.
func (s *soup) run() string {
	if !s.long || ops(4) > 0 {
		return ""
	}
	s.long = false
	n, unit := bigLen(6, 13), pick([]string{"x", "é", "日", "a\r\n", "𝄞", "0123456 "})
	return strings.Repeat("y", ops(4)) + strings.Repeat(unit, n/len(unit)+1) + strings.Repeat("z", ops(4))
}

func (s *soup) piece(q string) {
	s.w(s.run())
	t := pick(soupText)
	if s.bad(12) {
		t = pick(soupBad)
	}
	if s.html && ops(5) == 4 {
		t = pick(soupEntities)
	}
	if q != "" {
		t = strings.ReplaceAll(t, q, "")
	}
	s.w(t)
}

func (s *soup) attr(used map[string]bool) {
	n := s.name(false)
	if s.ns && ops(4) == 0 {
		n = pick([]string{"xmlns", "xmlns:p", "xmlns:q", "xmlns:p"})
	}
	if used[n] && !s.dup {
		return
	}
	used[n] = true
	s.w(pick([]string{" ", "\n", "  ", "\r\n\t"}))
	s.w(n)
	if s.bad(30) || s.html && ops(4) == 3 {
		if s.html {
			s.w(pick([]string{"", "", " "}))
		}
		return
	}
	s.w(pick([]string{"=", "=", " = ", "=\n"}))
	q := pick([]string{`"`, `'`})
	if s.bad(40) || s.html && ops(3) == 2 {
		s.w(pick([]string{"bare", "v", "a:b-c_0", "Z9", "", "é", "x.y"}))
		return
	}
	s.w(q)
	if strings.HasPrefix(n, "xmlns") {
		if s.bad(8) {
			s.w(pick([]string{"", "p", "xmlns", nsXML, "\xff"}))
		} else {
			s.w(pick([]string{"urn:a", "urn:b", "http://e.x/n/x"}))
		}
	} else {
		for k := ops(4); k > 0; k-- {
			s.piece(q)
		}
	}
	if !s.bad(60) {
		s.w(q)
	}
}

func (s *soup) misc() {
	switch ops(5) {
	case 0:
		s.w("<!--" + s.run() + pick([]string{"", " c ", "-", "<a>", "&x;", " \r\n ", "a-b"}))
		s.w(pick([]string{"-->", "-->", "-->"}))
		if s.bad(20) {
			s.w("--><!--a--b-->")
		}
	case 1:
		s.w("<![CDATA[" + s.run() + pick([]string{"", "x", "<a>&b;</a>", "]", "]]", " \r\n ", "ü"}) + "]]>")
	case 2:
		s.w("<?" + pick([]string{"p", "xml-stylesheet", "q"}) + " " + s.run() + pick([]string{" ", " x?y ", " a=\"b\"", ""}) + "?>")
	case 3:
		s.w("<!" + pick([]string{"DOCTYPE a", "DOCTYPE a [<!ENTITY x \"y>\"> ]", "ELEMENT b (c) '>'", "DOCTYPE a [<!-- > --> <b>]"}) + ">")
	case 4:
		if s.bad(3) {
			s.w(pick([]string{"<!", "<![CDAT", "<?", "<!--", "<!-", "<", "</", "<?xml version=\"1.1\"?>", "<?xml version=\"1.0\" encoding=\"latin1\"?>", "</nope>", "<a", "<a b", "<a b=", "<a b='", "<!DOCTYPE [", "<? ?>", "<\x00>"}))
		}
	}
}

func (s *soup) elem(name string, depth int) {
	s.budget--
	if name == "" {
		name = s.name(true)
	}
	s.w("<" + name)
	used := map[string]bool{}
	for k := ops(4); k > 0; k-- {
		s.attr(used)
	}
	if ops(5) == 4 {
		s.w(pick([]string{"/>", " />"}))
		return
	}
	s.w(pick([]string{">", " >", "\n>"}))
	for k := ops(6); k > 0; k-- {
		switch ops(4) {
		case 0, 1:
			s.piece("")
		case 2:
			if s.budget > 0 && depth < 12 {
				s.elem("", depth+1)
			}
		case 3:
			s.misc()
		}
	}
	if s.bad(40) || s.html && ops(4) == 3 {
		return
	}
	if s.html && ops(6) == 5 {
		name = pick([]string{strings.ToUpper(name), strings.ToLower(name)})
	}
	if s.bad(60) {
		name = s.name(true)
	}
	s.w("</" + name + pick([]string{">", ">", " >", "\r\n>"}))
}

// genSoup draws one document (with prolog and epilog).
func genSoup(ns, wild bool, root string) string {
	s := newSoup(ns, wild)
	if ops(3) == 2 {
		s.w(pick([]string{"<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0' encoding='utf-8' standalone='yes'?>\r\n"}))
	}
	for k := ops(3); k > 0; k-- {
		s.misc()
	}
	s.elem(root, 0)
	for k := ops(3); k > 0; k-- {
		if ops(2) == 0 {
			s.misc()
		} else {
			s.w(pick([]string{"\n", " ", "\r\n"}))
		}
	}
	return s.sb.String()
}

// corrupt damages text the way storage and networks do.
func corrupt(r *Run, doc string, others []string) string {
	b := []byte(doc)
	for k := 1 + flt(4); k > 0; k-- {
		n := len(b)
		if n == 0 {
			return ""
		}
		i, j := flt(n), flt(n)
		if i > j {
			i, j = j, i
		}
		if j-i > 400 && flt(3) > 0 {
			j = i + flt(400)
		}
		switch flt(10) {
		case 0:
			b[i] ^= 1 << flt(8)
			r.fault("bit-flip")
		case 1:
			b = append(b[:i:i], b[j:]...)
			r.fault("span-lost")
		case 2:
			b = append(b[:j:j], b[i:]...)
			r.fault("span-duplicated")
		case 3:
			x := append([]byte(nil), b[i:j]...)
			b = append(b[:i:i], b[j:]...)
			p := flt(len(b) + 1)
			b = append(b[:p:p], append(x, b[p:]...)...)
			r.fault("span-moved")
		case 4:
			o := pick(others)
			if len(o) > 0 {
				p := flt(len(o))
				q := p + flt(min(len(o)-p, 600)+1)
				b = append(b[:i:i], append([]byte(o[p:q]), b[i:]...)...)
				r.fault("splice")
			}
		case 5:
			b[i] = []byte("<>&\"'/= \x00\xff")[flt(10)]
			r.fault("byte-replaced")
		case 6:
			ins := pick(append(soupBad, "<!--", "-->", "<![CDATA[", "]]>", "<?", "?>", "</", "/>", " xmlns=''", " xmlns:p=''", "P99999999999999Y", "1e999", "-1", "PT1H2H"))
			b = append(b[:i:i], append([]byte(ins), b[i:]...)...)
			r.fault("bogus-token")
		case 7:
			b = b[:i]
			r.fault("cut")
		case 8:
			for p := i; p < j; p++ {
				b[p] = 0
			}
			r.fault("zeroed-block")
		case 9:
			b = damageValue(b, i)
			r.fault("value-damaged")
		}
	}
	return string(b)
}

// damageValue damages the first attribute value that begins behind i.
func damageValue(b []byte, i int) []byte {
	k := bytes.Index(b[i:], []byte(`="`))
	if k < 0 {
		return b
	}
	i += k + 2
	n := bytes.IndexByte(b[i:], '"')
	if n < 0 {
		return b
	}
	v := damageScalar(string(b[i : i+n]))
	return append(b[:i:i], append([]byte(v), b[i+n:]...)...)
}

// damageScalar loses, repeats, replaces or adds a character of s, or cuts it off.
func damageScalar(s string) string {
	const chars = "0123456789.,-+:PTZDHMSYe _/=kKx\n\u00e9"
	if s == "" {
		return string(chars[flt(32)])
	}
	p := flt(len(s))
	switch flt(6) {
	case 0:
		return s[:p]
	case 1:
		return s[:len(s)-1]
	case 2:
		return s[:p] + s[p+1:]
	case 3:
		return s[:p+1] + s[p:]
	case 4:
		return s[:p] + string(chars[flt(32)]) + s[p+1:]
	}
	return s[:p] + string(chars[flt(32)]) + s[p:]
}

// node turns a generic value into an information set node.
func (t *Tree) node() *Node {
	n := &Node{Space: t.XMLName.Space, Local: t.XMLName.Local, Text: t.Text, HasText: t.Text != ""}
	for _, a := range t.Attrs {
		n.Attrs = append(n.Attrs, NAttr{Space: a.Name.Space, Local: a.Name.Local, Val: a.Value})
	}
	for _, k := range t.Kids {
		n.Kids = append(n.Kids, k.node())
	}
	return n
}

// anyText draws input for a parser; kind tells what it is meant to be.
func anyText(r *Run, wild bool) (doc, kind string) {
	switch ops(8) {
	case 0, 1:
		doc, kind = genSoup(true, wild, ""), "soup"
	case 2:
		doc, kind = genSoup(false, wild, ""), "plain-soup"
		if ops(3) == 2 {
			s := newSoup(false, wild)
			s.html = true
			s.names = append([]string{"br", "img", "HR", "p", "BR"}, s.names...)
			s.misc()
			s.elem("", 0)
			doc, kind = s.sb.String(), "html"
		}
	case 3:
		doc, kind = genSoup(ops(2) == 1, wild, "rich"), "rich-soup"
	case 4:
		g := newGen()
		doc, kind = render(g.genTree(0, true, "").node()), "tree"
	case 5, 6:
		doc, kind = source(r), "mpd"
	case 7:
		c := pick(corpus)
		doc, kind = c.text, "corpus"
	}
	return
}
