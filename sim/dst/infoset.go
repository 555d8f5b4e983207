package dst

import (
	stdxml "encoding/xml"
	"fmt"
	"io"
	"math/big"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// ---- independent reader: strict, namespace-well-formed XML into Nodes ----

type nsFrame struct {
	prefix, uri string
}

type rawElem struct {
	name  string
	marks int
	start int64
	node  *Node
}

const nsXML = "http://www.w3.org/XML/1998/namespace"

// parseInfoset reads one document with the standard library's raw tokenizer and
// resolves namespaces itself.
func parseInfoset(doc string) (*Node, error) {
	kids, err := parseFragment(doc, false)
	if err != nil {
		return nil, err
	}
	var root *Node
	for _, k := range kids.Kids {
		if root != nil {
			return nil, fmt.Errorf("more than one document element")
		}
		root = k
	}
	if root == nil {
		return nil, fmt.Errorf("no document element")
	}
	if strings.Trim(kids.Text, " \t\r\n") != "" {
		return nil, fmt.Errorf("text %q outside the document element", kids.Text)
	}
	return root, nil
}

func parseFragment(doc string, frag bool) (*Node, error) {
	if !utf8.ValidString(doc) {
		return nil, fmt.Errorf("invalid UTF-8")
	}
	d := stdxml.NewDecoder(strings.NewReader(doc))
	top := &Node{}
	stack := []rawElem{{node: top}}
	ns := []nsFrame{{"", ""}, {"xml", nsXML}}
	lookup := func(p string) (string, bool) {
		for i := len(ns) - 1; i >= 0; i-- {
			if ns[i].prefix == p {
				return ns[i].uri, ns[i].uri != "" || p == ""
			}
		}
		return "", false
	}
	seenTok := false
	for {
		off := d.InputOffset()
		t, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		cur := stack[len(stack)-1].node
		switch t := t.(type) {
		case stdxml.StartElement:
			marks := len(ns)
			for _, a := range t.Attr {
				if a.Name.Space == "" && a.Name.Local == "xmlns" {
					ns = append(ns, nsFrame{"", a.Value})
				} else if a.Name.Space == "xmlns" {
					if a.Value == "" {
						return nil, fmt.Errorf("prefix %q bound to nothing", a.Name.Local)
					}
					if a.Name.Local == "xml" && a.Value != nsXML || a.Name.Local == "xmlns" {
						return nil, fmt.Errorf("illegal binding of %q", a.Name.Local)
					}
					ns = append(ns, nsFrame{a.Name.Local, a.Value})
				}
			}
			decl := map[string]bool{}
			n := &Node{Local: t.Name.Local}
			uri, ok := lookup(t.Name.Space)
			if !ok {
				return nil, fmt.Errorf("element prefix %q is not declared", t.Name.Space)
			}
			n.Space = uri
			n.Pre = t.Name.Space
			seen := map[string]bool{}
			for _, a := range t.Attr {
				if a.Name.Space == "" && a.Name.Local == "xmlns" || a.Name.Space == "xmlns" {
					k := a.Name.Space + ":" + a.Name.Local
					if decl[k] {
						return nil, fmt.Errorf("namespace declaration %s repeated on <%s>", k, t.Name.Local)
					}
					decl[k] = true
					continue
				}
				auri := ""
				if a.Name.Space != "" {
					if auri, ok = lookup(a.Name.Space); !ok {
						return nil, fmt.Errorf("attribute prefix %q is not declared", a.Name.Space)
					}
				}
				k := auri + " " + a.Name.Local
				if seen[k] {
					return nil, fmt.Errorf("attribute {%s}%s repeated on <%s>", auri, a.Name.Local, t.Name.Local)
				}
				seen[k] = true
				n.Attrs = append(n.Attrs, NAttr{Space: auri, Local: a.Name.Local, Pre: a.Name.Space, Val: a.Value})
			}
			cur.Kids = append(cur.Kids, n)
			stack = append(stack, rawElem{t.Name.Space + ":" + t.Name.Local, marks, d.InputOffset(), n})
		case stdxml.EndElement:
			top := stack[len(stack)-1]
			if len(stack) == 1 || top.name != t.Name.Space+":"+t.Name.Local {
				return nil, fmt.Errorf("end tag </%s:%s> does not match <%s>", t.Name.Space, t.Name.Local, top.name)
			}
			if off >= top.start {
				top.node.Inner = doc[top.start:off]
			}
			ns = ns[:top.marks]
			stack = stack[:len(stack)-1]
		case stdxml.CharData:
			cur.Text += string(t)
			if len(t) > 0 {
				cur.HasText = true
			}
		case stdxml.ProcInst:
			if strings.EqualFold(t.Target, "xml") && seenTok {
				return nil, fmt.Errorf("late xml declaration")
			}
		}
		seenTok = true
	}
	if len(stack) > 1 {
		return nil, fmt.Errorf("unclosed element <%s>", stack[len(stack)-1].name)
	}
	return top, nil
}

// ---- comparison of what was written with what must appear ----

// compare checks got (parsed from output) against want (from the table). The
// returned key names the place in terms of the schema.
func compare(got, want *Node, path string) (key, msg string) {
	p := path + "/" + want.Local
	if got.Local != want.Local || got.Space != want.Space {
		return want.typ + "/name", fmt.Sprintf("%s: element is {%s}%s, expected {%s}%s", p, got.Space, got.Local, want.Space, want.Local)
	}
	for _, w := range want.Attrs {
		found := false
		for _, a := range got.Attrs {
			if a.Space == w.Space && a.Local == w.Local {
				found = true
				if !sameValue(a.Val, w.Val, w.Kind) {
					return want.typ + "@" + w.Local, fmt.Sprintf("%s: attribute %s is %q, expected %q", p, w.Local, clip(a.Val), clip(w.Val))
				}
			}
		}
		if !found {
			return want.typ + "@" + w.Local, fmt.Sprintf("%s: attribute {%s}%s=%q is missing; present: %s", p, w.Space, w.Local, clip(w.Val), attrNames(got))
		}
	}
	for _, a := range got.Attrs {
		found := false
		for _, w := range want.Attrs {
			if a.Space == w.Space && a.Local == w.Local {
				found = true
			}
		}
		if !found {
			return want.typ + "@" + a.Local, fmt.Sprintf("%s: unexpected attribute {%s}%s=%q", p, a.Space, a.Local, clip(a.Val))
		}
	}
	if want.IsInner {
		if got.Inner != want.Inner {
			return want.typ + "/inner", fmt.Sprintf("%s: content %q, expected verbatim %q", p, clip(got.Inner), clip(want.Inner))
		}
		return "", ""
	}
	gt, wt := got.Text, want.Text
	if len(want.Kids) > 0 || !want.HasText {
		gt, wt = strings.Trim(gt, " \t\r\n"), strings.Trim(wt, " \t\r\n")
	}
	if gt != wt {
		return want.typ + "/text", fmt.Sprintf("%s: text %q, expected %q", p, clip(gt), clip(wt))
	}
	for i := 0; i < len(want.Kids) || i < len(got.Kids); i++ {
		if i >= len(got.Kids) {
			return want.typ + "/" + want.Kids[i].Local, fmt.Sprintf("%s: child %s (number %d) is missing; present: %s", p, want.Kids[i].Local, i, kidNames(got))
		}
		if i >= len(want.Kids) {
			return want.typ + "/" + got.Kids[i].Local, fmt.Sprintf("%s: unexpected child %s; expected %s", p, got.Kids[i].Local, kidNames(want))
		}
		if got.Kids[i].Local != want.Kids[i].Local {
			return want.typ + "/" + want.Kids[i].Local, fmt.Sprintf("%s: child %d is %s, expected %s; children are %s, expected %s", p, i,
				got.Kids[i].Local, want.Kids[i].Local, kidNames(got), kidNames(want))
		}
		if k, m := compare(got.Kids[i], want.Kids[i], p); k != "" {
			return k, m
		}
	}
	return "", ""
}

func attrNames(n *Node) string {
	var s []string
	for _, a := range n.Attrs {
		s = append(s, "{"+a.Space+"}"+a.Local)
	}
	return strings.Join(s, " ")
}

func kidNames(n *Node) string {
	var s []string
	for _, k := range n.Kids {
		s = append(s, k.Local)
	}
	return strings.Join(s, " ")
}

func sameValue(got, want, kind string) bool {
	if got == want {
		return true
	}
	switch kind {
	case "bool":
		b1, e1 := strconv.ParseBool(got)
		b2, e2 := strconv.ParseBool(want)
		return e1 == nil && e2 == nil && b1 == b2 && (got == "true" || got == "false" || got == "1" || got == "0")
	case "float64", "inf":
		if strings.ContainsAny(got+want, "IiNn") { // INF, -INF and NaN have one spelling each
			return false
		}
		a, e1 := strconv.ParseFloat(got, 64)
		b, e2 := strconv.ParseFloat(want, 64)
		return e1 == nil && e2 == nil && a == b
	case "float32":
		if strings.ContainsAny(got+want, "IiNn") {
			return false
		}
		a, e1 := strconv.ParseFloat(got, 32)
		b, e2 := strconv.ParseFloat(want, 32)
		return e1 == nil && e2 == nil && a == b
	case "dur":
		a, ok1 := denotedDuration(got)
		b, ok2 := denotedDuration(want)
		return ok1 && ok2 && a.Cmp(b) == 0
	case "list":
		return strings.Join(strings.Fields(got), " ") == strings.Join(strings.Fields(want), " ")
	}
	return false
}

var durRE = regexp.MustCompile(`^(-?)P(?:([0-9]+)Y)?(?:([0-9]+)M)?(?:([0-9]+)D)?(T(?:([0-9]+)H)?(?:([0-9]+)M)?(?:([0-9]+(?:\.[0-9]+)?)S)?)?$`)

// denotedDuration evaluates xs:duration text (without years and months) exactly,
// in nanoseconds.
func denotedDuration(s string) (*big.Rat, bool) {
	m := durRE.FindStringSubmatch(s)
	if m == nil || m[2] != "" || m[3] != "" || m[5] == "T" || m[4] == "" && m[5] == "" {
		return nil, false
	}
	t := new(big.Rat)
	for _, x := range []struct {
		v string
		u int64
	}{{m[4], 86400}, {m[6], 3600}, {m[7], 60}, {m[8], 1}} {
		if x.v == "" {
			continue
		}
		r, ok := new(big.Rat).SetString(x.v)
		if !ok {
			return nil, false
		}
		t.Add(t, r.Mul(r, new(big.Rat).SetInt64(x.u)))
	}
	t.Mul(t, new(big.Rat).SetInt64(1_000_000_000))
	if m[1] == "-" {
		t.Neg(t)
	}
	return t, true
}

// ---- serializer with a drawn spelling ----

type styler struct {
	rootPrefix string            // prefix for the DASH namespace ("" = default namespace)
	pfx        map[string]string // chosen prefixes per namespace, in this document
	used       map[string]bool
	ws         bool
	plain      bool
	misc       bool // comments and processing instructions
	refs       bool
	scteMode   int
	sb         strings.Builder
	nsN        int
	order      bool
	lexical    bool // other spellings of numbers, durations and lists
	noise      bool // content the specification does not know, and other orders
	atRoot     bool
	rootDecls  []string
}

type scope struct {
	dflt string
	p    map[string]string // prefix -> uri
}

func (s scope) with(p, u string) scope {
	m := make(map[string]string, len(s.p)+1)
	for k, v := range s.p {
		m[k] = v
	}
	m[p] = u
	return scope{s.dflt, m}
}

// prefixFor returns a prefix bound to uri in the scope.
func (s scope) prefixFor(uri string) string {
	var ks []string
	for k, v := range s.p {
		if v == uri {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return ""
	}
	sort.Strings(ks)
	return ks[0]
}

// render writes the document n in a drawn spelling; choice 0 everywhere is the
// plain one.
func render(n *Node) string {
	s := &styler{pfx: map[string]string{}, used: map[string]bool{}}
	s.plain = style(4) == 0
	if !s.plain {
		s.ws = styleP(1, 2)
		s.misc = styleP(1, 3)
		s.refs = styleP(1, 3)
		s.order = styleP(1, 2)
		s.atRoot = styleP(1, 3)
		s.lexical = styleP(1, 2)
		s.noise = styleP(1, 3)
		if styleP(1, 4) {
			s.rootPrefix = "d"
		}
	}
	if styleP(1, 2) {
		s.sb.WriteString(`<?xml version="1.0" encoding="UTF-8"?>` + "\n")
	}
	s.miscs(true)
	s.element(n, scope{"", map[string]string{}}, true)
	s.miscs(true)
	if styleP(1, 4) {
		s.sb.WriteString("\n")
	}
	return s.sb.String()
}

func (s *styler) space() {
	if s.ws && styleP(1, 2) {
		s.sb.WriteString([]string{"\n", " ", "\n    ", "\t"}[style(4)])
	}
}

func (s *styler) miscs(outside bool) {
	if !s.misc || !styleP(1, 4) {
		return
	}
	switch style(3) {
	case 0:
		s.sb.WriteString("<!-- a <b> & c -->")
	case 1:
		s.sb.WriteString("<?target some data?>")
	case 2:
		s.sb.WriteString("<!---->")
	}
	if outside {
		s.sb.WriteString("\n")
	}
}

func (s *styler) newPrefix(uri, hint string, sc scope) string {
	cands := []string{hint, "n", "p", "ns0", "x.y", "_q"}
	if s.plain && hint != "" {
		return hint
	}
	p := cands[style(len(cands))]
	if p == "" || p == "xml" || p == "xmlns" {
		s.nsN++
		p = "q" + strconv.Itoa(s.nsN)
	}
	return p
}

func (s *styler) element(n *Node, sc scope, root bool) {
	var decls []string
	name := n.Local
	bind := func(p, u string) {
		decls = append(decls, "xmlns:"+p+"="+s.quote(u))
		sc = sc.with(p, u)
	}
	if root && s.atRoot { // foreign namespaces are declared up front
		for _, pu := range [][2]string{{"cenc", "urn:mpeg:cenc:2013"}, {"xlink", "http://www.w3.org/1999/xlink"}, {"scte35", "http://www.scte.org/schemas/35/2016"}, {"s35", "http://www.scte.org/schemas/35"}} {
			if styleP(1, 2) {
				bind(pu[0], pu[1])
			}
		}
	}
	if root && s.rootPrefix != "" && n.Space != "" {
		bind(s.rootPrefix, n.Space)
		name = s.rootPrefix + ":" + name
	} else if n.Space == sc.dflt && !(n.Space != "" && !s.plain && sc.prefixFor(n.Space) != "" && styleP(1, 4)) {
		if !s.plain && n.Space != "" && styleP(1, 16) { // redundant redeclaration
			decls = append(decls, "xmlns="+s.quote(n.Space))
		}
	} else if p := sc.prefixFor(n.Space); n.Space != "" && p != "" && (s.plain || style(4) != 3) {
		name = p + ":" + name
	} else if n.Space == "" {
		decls = append(decls, `xmlns=""`)
		sc = scope{"", sc.p}
	} else if n.Pre == "" && s.plain || !s.plain && style(2) == 1 {
		decls = append(decls, "xmlns="+s.quote(n.Space))
		sc = scope{n.Space, sc.p}
	} else {
		p := s.newPrefix(n.Space, n.Pre, sc)
		bind(p, n.Space)
		name = p + ":" + name
	}
	var attrs []string
	for _, a := range n.Attrs {
		an := a.Local
		if a.Space != "" {
			p := sc.prefixFor(a.Space)
			if p == "" {
				p = s.newPrefix(a.Space, a.Pre, sc)
				for i := 0; taken(sc, p, a.Space) || takenHere(decls, p); i++ {
					p = "q" + strconv.Itoa(i)
				}
				bind(p, a.Space)
			}
			an = p + ":" + an
		}
		attrs = append(attrs, an+"="+s.quote(s.lex(a.Val, a.Kind)))
	}
	attrs = append(attrs, s.noiseAttrs(n)...)
	all := append(append([]string{}, decls...), attrs...)
	if strings.Contains(name, ":") && !s.plain && style(10) == 9 && !hasDefaultDecl(decls) {
		// an unused default namespace, or one for the descendants
		u := []string{"http://www.scte.org/schemas/35", "http://www.scte.org/schemas/35/2016", nsDASH, "urn:other", ""}[style(5)]
		all = append(all, "xmlns="+s.quote(u))
		sc = scope{u, sc.p}
	}
	if !s.plain && style(24) == 23 {
		// a prefix declared here for whatever comes below
		u := []string{"http://www.scte.org/schemas/35", "http://www.scte.org/schemas/35/2016", nsDASH, "urn:other", "urn:mpeg:cenc:2013"}[style(5)]
		p := []string{"e", "n", "t", "scte35", "id"}[style(5)]
		if _, ok := sc.p[p]; !ok && !takenHere(decls, p) {
			all = append(all, "xmlns:"+p+"="+s.quote(u))
			sc = sc.with(p, u)
		}
	}
	if s.order {
		for i := len(all) - 1; i > 0; i-- {
			j := style(i + 1)
			all[i], all[i-j] = all[i-j], all[i]
		}
	}
	s.sb.WriteString("<" + name)
	for _, a := range all {
		s.sb.WriteString(" ")
		if s.ws && styleP(1, 6) {
			s.sb.WriteString("\n\t")
		}
		s.sb.WriteString(a)
	}
	if s.ws && styleP(1, 6) {
		s.sb.WriteString(" ")
	}
	if n.IsInner {
		s.sb.WriteString(">" + n.Inner + "</" + name + ">")
		return
	}
	if len(n.Kids) == 0 && n.Text == "" && (s.plain || style(2) == 0) {
		s.sb.WriteString("/>")
		return
	}
	s.sb.WriteString(">")
	if kids := s.arrange(n); len(kids) > 0 {
		at := 0
		if n.Text != "" {
			at = style(len(n.Kids) + 1)
		}
		for i, k := range kids {
			if i == at && n.Text != "" {
				s.text(n.Text)
			}
			s.space()
			s.miscs(false)
			s.noiseKid(n)
			s.element(k, sc, false)
		}
		if at == len(n.Kids) && n.Text != "" {
			s.text(n.Text)
		}
		s.space()
		s.miscs(false)
	} else if n.HasText {
		s.text(n.Text)
	} else if n.Text == "" {
		s.space()
	}
	s.sb.WriteString("</" + name)
	if s.ws && styleP(1, 8) {
		s.sb.WriteString(" ")
	}
	s.sb.WriteString(">")
}

// lex draws another spelling of a value of a kind.
func (s *styler) lex(v, kind string) string {
	if s.plain || !s.lexical || style(2) == 0 {
		return v
	}
	around := func(v string) string {
		return pick2([]string{"", "", " ", "\t", "\n", "\r\n  "}) + v + pick2([]string{"", "", " ", "\t", "\n "})
	}
	neg := ""
	if strings.HasPrefix(v, "-") {
		neg, v = "-", v[1:]
	}
	zeros := pick2([]string{"", "0", "00", "0000000000000000000000"})
	switch kind {
	case "uint8", "uint16", "uint32", "uint64", "uint", "int", "int64", "int32":
		return around(neg + zeros + v)
	case "float64", "float32", "inf":
		if strings.ContainsAny(v, "INn") {
			return neg + v
		}
		if !strings.Contains(v, "e") {
			if !strings.Contains(v, ".") {
				v += pick2([]string{"", ".0", ".", ".000"})
			} else {
				v += pick2([]string{"", "0", "000"})
			}
			v += pick2([]string{"", "e0", "E+00", "e-0"})
		}
		if kind == "inf" {
			return neg + zeros + v
		}
		return around(neg + zeros + v)
	case "bool":
		if w, ok := map[string]string{"true": "1", "false": "0"}[v]; ok && style(2) == 1 {
			v = w
		}
		return around(neg + v)
	case "list":
		w := strings.Fields(v)
		out := pick2([]string{"", " ", "\n"})
		for i, x := range w {
			if i > 0 {
				out += pick2([]string{" ", "  ", "\t", "\n", "\r\n", " \n\t "})
			}
			out += x
		}
		return out + pick2([]string{"", " ", "\t"})
	case "dur":
		if strings.HasPrefix(v, "PT") {
			return neg + pick2([]string{"P0DT", "PT0H", "PT0M", "PT00H00M", "P0DT0H0M"}) + v[2:]
		}
	}
	return neg + v
}

func pick2(s []string) string { return s[style(len(s))] }

// plainType tells whether elements of the type drop what the table does not list.
func plainType(typ string) *sType {
	st := schema[typ]
	if st == nil || st.pass {
		return nil
	}
	for _, f := range st.fields {
		if f.kind == fAnyAttr || f.kind == fInner {
			return nil
		}
	}
	return st
}

// noiseAttrs draws attributes the element type does not know, some of which differ from
// known ones only in case or by a few letters.
func (s *styler) noiseAttrs(n *Node) []string {
	st := plainType(n.typ)
	if s.plain || !s.noise || st == nil || style(5) != 4 {
		return nil
	}
	if style(6) == 5 { // looks like a namespace declaration
		v := pick2([]string{"urn:other", nsDASH, "", "zq"})
		a := "zq:" + pick2([]string{"xmlns", "zq", "xml"}) + "=" + s.quote(v)
		d := "xmlns:zq=" + s.quote("urn:zq")
		if style(2) == 1 {
			return []string{a, d}
		}
		return []string{d, a}
	}
	nm := pick2([]string{"vendor-x", "data", "Version", "xMlns", "x-id"})
	if f := st.fields[style(len(st.fields))]; f.kind == fAttr && style(2) == 1 {
		nm = variant(f.name)
	}
	for _, f := range st.fields {
		if f.kind == fAttr && f.name == nm {
			return nil
		}
	}
	return []string{nm + "=" + s.quote(pick2([]string{"77", "zzz", "true", "PT1S", ""}))}
}

// noiseKid draws an element the type does not know.
func (s *styler) noiseKid(n *Node) {
	st := plainType(n.typ)
	if s.plain || !s.noise || st == nil || st.hasText || style(8) != 7 {
		return
	}
	nm := pick2([]string{"Vendor", "foo", "s", "period"})
	if f := st.fields[style(len(st.fields))]; f.kind == fElem && style(2) == 1 {
		nm = variant(f.name)
	}
	for _, f := range st.fields {
		if f.kind == fElem && f.name == nm {
			return
		}
	}
	s.sb.WriteString("<" + nm + pick2([]string{"/>", " id='9'>text</" + nm + ">", "><Period id='9'/><S d='1'/></" + nm + ">", "><a><b/></a></" + nm + ">"}))
}

// variant draws a name close to another.
func variant(nm string) string {
	switch style(5) {
	case 0:
		if up := strings.ToUpper(nm[:1]) + nm[1:]; up != nm {
			return up
		}
		return strings.ToLower(nm[:1]) + nm[1:]
	case 1:
		return strings.ToLower(nm)
	case 2:
		return strings.ToUpper(nm)
	case 3:
		return nm + "s"
	}
	return nm[:len(nm)-1] + "_"
}

// arrange draws another order of the children that keeps the order of those of one name.
func (s *styler) arrange(n *Node) []*Node {
	if s.plain || !s.noise || len(n.Kids) < 2 || plainType(n.typ) == nil || style(3) != 2 {
		return n.Kids
	}
	out := append([]*Node(nil), n.Kids...)
	for k := 0; k < 2*len(out); k++ {
		i := style(len(out) - 1)
		if out[i].Local != out[i+1].Local {
			out[i], out[i+1] = out[i+1], out[i]
		}
	}
	return out
}

func taken(sc scope, p, uri string) bool {
	u, ok := sc.p[p]
	return ok && u != uri
}

func takenHere(decls []string, p string) bool {
	for _, d := range decls {
		if strings.HasPrefix(d, "xmlns:"+p+"=") {
			return true
		}
	}
	return false
}

func hasDefaultDecl(decls []string) bool {
	for _, d := range decls {
		if strings.HasPrefix(d, "xmlns=") {
			return true
		}
	}
	return false
}

func (s *styler) quote(v string) string {
	q := byte('"')
	if !s.plain && style(3) == 1 {
		q = '\''
	}
	var sb strings.Builder
	sb.WriteByte(q)
	for _, r := range v {
		switch {
		case r == '<':
			sb.WriteString("&lt;")
		case r == '&':
			sb.WriteString("&amp;")
		case r == rune(q):
			sb.WriteString([]string{"&#x22;", "&#x27;"}[b2i(q == '\'')])
		case r == '\n' || r == '\r' || r == '\t':
			sb.WriteString("&#" + strconv.Itoa(int(r)) + ";")
		case s.refs && style(8) == 7:
			fmt.Fprintf(&sb, "&#x%X;", r)
		default:
			sb.WriteRune(r)
		}
	}
	sb.WriteByte(q)
	return sb.String()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (s *styler) text(t string) {
	if s.refs && t != "" && style(4) == 3 && !strings.Contains(t, "]]>") && !strings.Contains(t, "\r") {
		s.sb.WriteString("<![CDATA[" + t + "]]>")
		return
	}
	k := 0
	for _, r := range t {
		k++
		switch {
		case r == '<':
			s.sb.WriteString("&lt;")
		case r == '&':
			s.sb.WriteString("&amp;")
		case r == '>' && (s.plain || style(2) == 0 || strings.HasSuffix(s.sb.String()[max(0, s.sb.Len()-2):], "]]")):
			s.sb.WriteString("&gt;")
		case r == '\r':
			s.sb.WriteString("&#xD;")
		case s.refs && style(8) == 7:
			fmt.Fprintf(&s.sb, "&#%d;", r)
		default:
			s.sb.WriteRune(r)
		}
		if s.misc && k == 2 && style(8) == 7 {
			s.sb.WriteString("<!--in text-->")
		}
	}
}

// ---- comparison of API values ----

// diffObj compares two values of the API over their exported fields. XMLName is
// compared only where the type replays it; the MPD's own xmlns text is not.
func diffObj(a, b reflect.Value, path string) (key, msg string) {
	if a.Kind() != b.Kind() || a.Type() != b.Type() {
		return path, "types differ"
	}
	switch a.Kind() {
	case reflect.Pointer:
		if a.IsNil() != b.IsNil() {
			return path, fmt.Sprintf("%s: nil %v versus nil %v", path, a.IsNil(), b.IsNil())
		}
		if a.IsNil() {
			return "", ""
		}
		return diffObj(a.Elem(), b.Elem(), path)
	case reflect.Slice:
		if a.Len() != b.Len() {
			return path, fmt.Sprintf("%s: length %d versus %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if k, m := diffObj(a.Index(i), b.Index(i), path); k != "" {
				return k, m
			}
		}
		return "", ""
	case reflect.Struct:
		t := a.Type()
		if t.Name() == "Attr" {
			if !reflect.DeepEqual(a.Interface(), b.Interface()) {
				return path, fmt.Sprintf("%s: %v versus %v", path, a.Interface(), b.Interface())
			}
			return "", ""
		}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() && !f.Anonymous {
				continue
			}
			if f.Name == "XMLName" {
				if st := schema[t.Name()]; st == nil || !st.pass {
					continue
				}
				if !reflect.DeepEqual(a.Field(i).Interface(), b.Field(i).Interface()) {
					return t.Name() + ".XMLName", fmt.Sprintf("%s.XMLName: %v versus %v", path, a.Field(i).Interface(), b.Field(i).Interface())
				}
				continue
			}
			if f.Name == "XMLNs" {
				continue
			}
			av, bv := a.Field(i), b.Field(i)
			if f.Name == "AnyAttrs" {
				if k, m := diffAny(av, bv); k != "" {
					return t.Name() + ".AnyAttrs", path + "." + m
				}
				continue
			}
			if f.Anonymous && f.Type.Kind() == reflect.Pointer && av.IsNil() != bv.IsNil() {
				if av.IsNil() {
					av = reflect.New(f.Type.Elem())
				} else {
					bv = reflect.New(f.Type.Elem())
				}
			}
			if k, m := diffObj(av, bv, t.Name()+"."+f.Name); k != "" {
				return k, m
			}
		}
		return "", ""
	case reflect.Map:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return path, path + ": maps differ"
		}
		return "", ""
	case reflect.Interface, reflect.Func, reflect.Chan:
		return "", ""
	case reflect.Float32, reflect.Float64:
		if a.Float() != b.Float() && !(a.Float() != a.Float() && b.Float() != b.Float()) {
			return path, fmt.Sprintf("%s: %v versus %v", path, a.Float(), b.Float())
		}
		return "", ""
	default:
		if a.Kind() == reflect.String && a.String() == b.String() {
			return "", ""
		}
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return path, fmt.Sprintf("%s: %#v versus %#v", path, a.Interface(), b.Interface())
		}
		return "", ""
	}
}

// diffAny compares unknown attributes as sets, without namespace declarations.
func diffAny(a, b reflect.Value) (string, string) {
	f := func(v reflect.Value) []string {
		var out []string
		for i := 0; i < v.Len(); i++ {
			sp := v.Index(i).Field(0).Field(0).String()
			lo := v.Index(i).Field(0).Field(1).String()
			if sp == "xmlns" || sp == "http://www.w3.org/2000/xmlns/" || sp == "" && lo == "xmlns" {
				continue
			}
			out = append(out, fmt.Sprintf("{%s}%s=%q", sp, lo, v.Index(i).Field(1).String()))
		}
		sort.Strings(out)
		return out
	}
	x, y := f(a), f(b)
	if !reflect.DeepEqual(x, y) {
		return "any", fmt.Sprintf("AnyAttrs: %v versus %v", x, y)
	}
	return "", ""
}

func diffValues(a, b any) (string, string) {
	return diffObj(reflect.ValueOf(a), reflect.ValueOf(b), "")
}

// normDur puts a value into the form it has after one trip over the wire:
// durations at the documented precision.
func normDur(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			normDur(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			normDur(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() || v.Type().Field(i).Anonymous {
				normDur(v.Field(i))
			}
		}
	case reflect.Int64:
		if v.Type().Name() == "Duration" && v.CanSet() && v.Int() >= 0 {
			v.SetInt(int64(roundDur(durOf(v))))
		}
	}
}
