package dst

import (
	stdxml "encoding/xml"
	"fmt"
	"io"
	"os"
	"regexp"
	"strings"
	"sync"
	"time"

	"dashsim/simrt"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&Scenario{
		ID: "P06", Quick: 90000, Thorough: 1200000, Run: runP06,
		Faults: []string{"byte-at-a-time", "split-read", "empty-read", "eof-with-data", "byte-reader", "scribbled-buffer", "reader-error", "eof-with-token", "token-source", "bit-flip", "span-lost", "span-duplicated", "span-moved", "splice", "byte-replaced", "bogus-token", "cut", "zeroed-block", "value-damaged"},
		Rule: "Each run draws one input (grammar soup with and without namespaces and mistakes, generic trees, generated, mutated and real manifests; a third damaged afterwards; a sixth cut by a reader error) and one way of reading it (one value of eight types, tokens, raw tokens, tokens mixed with DecodeElement and Skip, values until the end; strict or relaxed, default namespace, entity map, charset reader), establishes the transcript of values, tokens, offsets, line:column and errors with the whole input in one piece, and repeats it with 3-6 other deliveries (one byte, small pieces, empty reads, end with data, ReadByte, scribbled buffers, file), as a token source, and for documents without namespaces by encoding/xml. " +
			"Distinct by event sequence, input kind and plan; trivial if the input is empty.",
		Real:   []string{"xml decoder (all)", "mpd (readers, UnmarshalXML methods)"},
		Stub:   []string{"byte sources (io.Reader, io.ByteReader)", "disk (read chunking)", "token source", "user unmarshalers", "charset reader"},
		Assume: []string{"encoding/xml of the installed Go is right for strict documents without namespaces and duplicate attributes"},
	})
}

var lineNo = regexp.MustCompile(`on line \d+`)

func runP06(r *Run) {
	simrt.SetPoolMode(uint32(ops(3)))
	wild := ops(3) > 0
	if ops(8) == 7 {
		characters(r)
		return
	}
	doc, kind := anyText(r, wild)
	if ops(160) == 159 {
		doc, kind = longRuns(), "plain-soup"
		r.budget = 3_000_000 + 1500*int64(len(doc))
	}
	if ops(40) == 39 {
		doc = "\ufeff" + doc // a byte order mark
		r.probe("byte-order-mark")
	}
	if wild && flt(3) == 2 {
		doc = corrupt(r, doc, []string{doc, mpds[0].text, genSoup(true, true, "")})
		kind += "!"
	}
	if len(doc) > 60000 && kind != "plain-soup" {
		doc = doc[:60000]
	}
	p := drawPlan(strings.TrimSuffix(kind, "!"))
	var end error
	if fltP(1, 6) {
		doc = doc[:flt(len(doc)+1)]
		end = drawReadError(r)
		r.fault("reader-error")
	}
	r.note(kind + "/" + p.String())
	r.ev("input", "%s: %q (end %v)", kind, doc, end)
	whole := &simReader{data: []byte(doc), end: io.EOF}
	if end != nil {
		whole.end = end
	}
	ref := p.perform(r, xml.NewDecoder(whole))
	r.record(ref)
	r.logf("%s: %s", p, ref)
	r.Trivial = len(doc) == 0
	for k := 3 + ops(4); k > 0; k-- {
		kind := style(len(deliveryNames))
		var src io.Reader
		name := deliveryNames[kind]
		switch {
		case end == nil && kind == 0:
			src = strings.NewReader(doc)
			name = "strings.Reader"
		case end == nil && kind == 7:
			f := scratchFile("p06.xml")
			if err := os.WriteFile(f, []byte(doc), 0o644); err != nil {
				harness("%v", err)
			}
			fh, err := os.Open(f)
			if err != nil {
				harness("%v", err)
			}
			defer fh.Close()
			src = fh
			name = "file"
		default:
			src = deliver(r, kind, []byte(doc), end)
		}
		got := p.perform(r, xml.NewDecoder(src))
		r.ev("delivery", "%s", name)
		if got != ref {
			r.fail("delivery", p.String(), "reading (%s) gives another result when delivered by %s than in one piece: %s\ninput %q", p, name, diffAt(got, ref), clip(doc))
		}
	}
	if end == nil {
		entryPoints(r, doc)
		if !p.relaxed && p.kind != rdRaw {
			tokenSource(r, p, doc)
		}
		stdlibAgrees(r, p, doc)
	}
}

// edgeRunes are the characters around every change of what XML allows, as
// encoding/xml sees it: in names, at the start of names, and anywhere.
var edgeRunes = sync.OnceValue(func() []rune {
	class := func(c rune) (k int) {
		for i, f := range []string{"<%s/>", "<a%s/>", "<a>%s</a>"} {
			d := stdxml.NewDecoder(strings.NewReader(fmt.Sprintf(f, string(c))))
			ok := true
			for {
				_, err := d.RawToken()
				if err == io.EOF {
					break
				}
				if err != nil {
					ok = false
					break
				}
			}
			k |= b2i(ok) << i
		}
		return k
	}
	var out []rune
	last := -1
	for c := rune(1); c < 0x11000; c++ {
		if c >= 0xd800 && c <= 0xdfff || strings.ContainsRune("<>&/'\"= \t\r\n:", c) {
			continue
		}
		if k := class(c); k != last {
			last = k
			out = append(out, c-1, c)
		}
	}
	return append(out, 0x1d11e, 0xeffff, 0xf0000, 0x10fffd, 0x10ffff, 0xd7ff, 0xe000, 0xfdd0, 0xfffe, 0x7f, 0x84, 0x85, 0x86, 0x2028)
})

// characters reads small documents around the edges of what names and text may
// consist of.
func characters(r *Run) {
	es := edgeRunes()
	var sb strings.Builder
	for k := 3 + ops(10); k > 0; k-- {
		sb.Reset()
		c := es[ops(len(es))] + rune(ops(3)-1)
		if c < 1 || c >= 0xd800 && c <= 0xdfff {
			c = 'b'
		}
		ch := string(c)
		if strings.ContainsAny(ch, "<>&:") {
			ch = "b"
		}
		ref := fmt.Sprintf([]string{"&#%d;", "&#x%x;", "&#x%X;", "&#0%d;", "&#x0000%x;"}[ops(5)], c)
		switch ops(7) {
		case 0:
			fmt.Fprintf(&sb, "<%s>t</%s>", ch+"a", ch+"a")
		case 1:
			fmt.Fprintf(&sb, "<a%sb c='1'>t</a%sb>", ch, ch)
		case 2:
			fmt.Fprintf(&sb, "<a x%s='1'/>", ch)
		case 3:
			fmt.Fprintf(&sb, "<a b='%s%s'>%s%s</a>", ref, ch, ch, ref)
		case 4:
			fmt.Fprintf(&sb, "<a>%s</a>", ref)
		case 5:
			fmt.Fprintf(&sb, "<?p%s x%s?><a/><!--%s-->", ch, ch, ch)
		case 6:
			fmt.Fprintf(&sb, "<a><![CDATA[%s]]>x%s&lt;</a>", ch, ch)
		}
		doc := sb.String()
		r.ev("input", "characters: %q", doc)
		p := plan{kind: []int{rdTokens, rdRaw, rdDecode}[ops(3)], target: 1, pos: true}
		ref2 := p.perform(r, xml.NewDecoder(strings.NewReader(doc)))
		r.record(ref2)
		stdlibAgrees(r, p, doc)
		got := p.perform(r, xml.NewDecoder(deliver(r, drawDelivery(r), []byte(doc), nil)))
		if got != ref2 {
			r.fail("delivery", p.String(), "reading (%s) gives another result in pieces than in one: %s\ninput %q", p, diffAt(got, ref2), clip(doc))
		}
	}
}

// longRuns draws a document with a very long run of one kind, with something special
// near a power of two or the end.
func longRuns() string {
	n := []int{4096, 8192, 32768, 65536, 70000, 131072}[ops(6)]
	fill := pick([]string{"x", "ü", "日", "x\r\n", "&lt;", "𝄞", " "})
	body := []byte(strings.Repeat(fill, n/len(fill)+8))
	at := len(body)
	if ops(2) == 1 {
		at = n + ops(9) - 4
	}
	for at < len(body) && body[at]&0xc0 == 0x80 {
		at++
	}
	sp := pick([]string{"", "\x00", "\x01", "\xff", "\ufffe", "&#1;", "&bogus;", "&", "]]>", "<", "é", "\r", "&#65;", "--"})
	body = append(body[:at:at], append([]byte(sp), body[at:]...)...)
	b := string(body)
	switch ops(5) {
	case 0:
		return "<a>" + b + "</a>"
	case 1:
		return "<a k='" + strings.ReplaceAll(b, "'", "") + "'/>"
	case 2:
		return "<a><!--" + b + "--></a>"
	case 3:
		return "<a><![CDATA[" + b + "]]></a>"
	}
	return "<?p " + b + "?><a/>"
}

// entryPoints compares the reading functions of the mpd package.
func entryPoints(r *Run, doc string) {
	if !strings.Contains(doc, "MPD") {
		return
	}
	var ref string
	for i := range readNames {
		m, err := readMPD(r, i, []byte(doc))
		got := snapshot(m) + " error " + errStr(err)
		if err != nil && m != nil {
			r.fail("entry", readNames[i], "%s returned both an MPD and error %v", readNames[i], err)
		}
		if i == 0 {
			ref = got
		} else if got != ref {
			r.fail("entry", readNames[i], "%s disagrees with %s: %s\ninput %q", readNames[i], readNames[0], diffAt(got, ref), clip(doc))
		}
	}
	_ = mpd.MPD{}
}

func tokenSource(r *Run, p plan, doc string) {
	q := p
	q.pos, q.once = false, true
	verbatim := false
	switch q.kind {
	case rdDecode, rdStream, rdMixed:
		switch q.target {
		case 3, 4, 7: // verbatim content needs bytes
			verbatim = true
		case 0, 5:
			verbatim = strings.Contains(doc, "Ext")
		}
	}
	d := xml.NewDecoder(strings.NewReader(doc))
	p.setup(d)
	src := &rawSource{}
	for {
		t, err := d.RawToken()
		if err != nil {
			if err != io.EOF {
				return
			}
			src.err = err
			break
		}
		src.toks = append(src.toks, xml.CopyToken(t))
	}
	src.eofWith = style(2) == 1
	if src.eofWith {
		r.fault("eof-with-token")
	}
	r.fault("token-source")
	want := q.perform(r, xml.NewDecoder(strings.NewReader(doc)))
	got := q.perform(r, xml.NewTokenDecoder(src))
	want, got = lineNo.ReplaceAllString(want, "on line N"), lineNo.ReplaceAllString(got, "on line N")
	if got != want && !verbatim {
		r.fail("token-source", p.String(), "reading (%s) from a token source differs from reading the bytes: %s\ninput %q", p, diffAt(got, want), clip(doc))
	}
}

// ---- encoding/xml as a reference ----

type StdTree struct {
	XMLName stdxml.Name
	Attrs   []stdxml.Attr `xml:",any,attr"`
	Text    string        `xml:",chardata"`
	Kids    []*StdTree    `xml:",any"`
}

type StdRich struct {
	XMLName stdxml.Name   `xml:"rich"`
	ID      int           `xml:"id,attr"`
	Opt     string        `xml:"opt,attr,omitempty"`
	Flag    bool          `xml:"flag,attr"`
	Num     *float64      `xml:"num,attr"`
	Any     []stdxml.Attr `xml:",any,attr"`
	Comment string        `xml:",comment"`
	First   string        `xml:"name>first"`
	Last    string        `xml:"name>last"`
	Deep    []int         `xml:"a>b>c"`
	Bytes   []byte        `xml:"bytes"`
	When    time.Time     `xml:"when"`
	Kids    []Sub         `xml:"sub"`
	Ptr     *Sub          `xml:"ptr"`
	Text    TextVal       `xml:"text"`
	Sc      *Scalars      `xml:"sc"`
	Embedded
}

type StdRaw struct {
	XMLName stdxml.Name
	Attrs   []stdxml.Attr `xml:",any,attr"`
	Inner   string        `xml:",innerxml"`
}

func stdTok(t stdxml.Token) string {
	switch t := t.(type) {
	case stdxml.StartElement:
		x := xml.StartElement{Name: xml.Name(t.Name)}
		for _, a := range t.Attr {
			x.Attr = append(x.Attr, xml.Attr{Name: xml.Name(a.Name), Value: a.Value})
		}
		return tokText(x)
	case stdxml.EndElement:
		return tokText(xml.EndElement{Name: xml.Name(t.Name)})
	case stdxml.CharData:
		return tokText(xml.CharData(t))
	case stdxml.Comment:
		return tokText(xml.Comment(t))
	case stdxml.ProcInst:
		return tokText(xml.ProcInst{Target: t.Target, Inst: t.Inst})
	case stdxml.Directive:
		return tokText(xml.Directive(t))
	}
	return "nil"
}

func stdTarget(i int) any {
	switch i {
	case 1:
		return new(StdTree)
	case 2:
		return new(StdRich)
	case 3:
		return new(StdRaw)
	case 6:
		return new(string)
	}
	return nil
}

// stdlibAgrees compares with encoding/xml where both are meant to agree.
func stdlibAgrees(r *Run, p plan, doc string) {
	if p.dspace != "" || strings.Contains(doc, "xmlns") {
		return
	}
	// no namespaces and no attribute given twice, as far as the text can be read
	d := xml.NewDecoder(strings.NewReader(doc))
	p.setup(d)
	std := func() *stdxml.Decoder {
		sd := stdxml.NewDecoder(strings.NewReader(doc))
		sd.CharsetReader = d.CharsetReader
		sd.Entity, sd.Strict, sd.AutoClose = d.Entity, d.Strict, d.AutoClose
		return sd
	}
	sd := std()
	for {
		off := sd.InputOffset()
		t, err := sd.RawToken()
		if err != nil {
			if p.charset == 1 {
				off = 0 // offsets are those of the converted text
			}
			if strings.Contains(doc[off:], ":") {
				return
			}
			break
		}
		if en, ok := t.(stdxml.EndElement); ok && colon(en.Name) {
			return
		}
		if st, ok := t.(stdxml.StartElement); ok {
			seen := map[string]bool{}
			if colon(st.Name) {
				return
			}
			for _, a := range st.Attr {
				if colon(a.Name) {
					return
				}
				if seen[a.Name.Local] {
					return
				}
				seen[a.Name.Local] = true
			}
		}
	}
	r.probe("compared-with-encoding/xml")
	sd = std()
	cmp := func(what, got, want string) {
		if got != want {
			r.fail("stdlib", what, "%s differs from encoding/xml: %s\ninput %q", what, diffAt(got, want), clip(doc))
		}
	}
	pos := func() string {
		l, c := d.InputPos()
		return fmt.Sprint(d.InputOffset(), l, c)
	}
	spos := func() string {
		l, c := sd.InputPos()
		return fmt.Sprint(sd.InputOffset(), l, c)
	}
	r.call("encoding/xml comparison", func() {
		raw := p.kind == rdRaw
		if p.kind == rdTokens || raw {
			for i := 0; i < 100000; i++ {
				var t xml.Token
				var st stdxml.Token
				var err, serr error
				if raw {
					t, err = d.RawToken()
					st, serr = sd.RawToken()
				} else {
					t, err = d.Token()
					st, serr = sd.Token()
				}
				cmp("error", errStr(err), errStr(serr))
				if err != nil {
					return
				}
				cmp("token", tokText(t), stdTok(st))
				cmp("position", pos(), spos())
			}
			return
		}
		v, sv := newTarget(p.target), stdTarget(p.target)
		if sv == nil {
			v, sv = new(Tree), new(StdTree)
		}
		err, serr := d.Decode(v), sd.Decode(sv)
		cmp("decode error", strings.ReplaceAll(errStr(err), "dst.Std", "dst."), strings.ReplaceAll(errStr(serr), "dst.Std", "dst."))
		cmp("decoded value", exportedOf(v), exportedOf(sv))
		cmp("position", pos(), spos())
	})
}

func colon(n stdxml.Name) bool { return n.Space != "" || strings.Contains(n.Local, ":") }
