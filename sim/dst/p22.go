package dst

import (
	"bytes"
	stdxml "encoding/xml"
	"errors"
	"fmt"
	"io"
	"math"
	"reflect"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"

	"dashsim/dst/cblib"
	"dashsim/dst/cbstd"
	"dashsim/simrt"

	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&Scenario{
		ID: "P22", Quick: 200000, Thorough: 800000, Run: runP22, MeasureIL: true,
		Faults: []string{"cold-start", "prefilled-target", "reader-error", "damaged-document", "foreign-names", "unencodable-type", "bad-tag", "pool-reorders", "pool-never-reuses", "bit-flip", "span-lost", "span-duplicated", "span-moved", "splice", "byte-replaced", "bogus-token", "cut", "zeroed-block", "value-damaged"},
		Rule: "Each run draws one or two struct types (made at run time: drawn field types, nesting, embedding, tags of every mode, some of them invalid or conflicting; or hand-written ones with recursion, unexported and shadowed fields, generics, and callbacks of every kind) together with their twins for encoding/xml, draws values of them, documents that hold, nearly hold or damage such values, and targets that are empty or already filled, and takes from encoding/xml what encoding and decoding must give. " +
			"The library then does all of it, as the very first use of these types in the process, in one to four tasks under a drawn preemptive schedule. Distinct by event sequence.",
		Real:   []string{"xml (typeinfo, Marshal, Unmarshal, Encoder, Decoder)"},
		Stub:   []string{"goroutine scheduler (statement-level)", "byte sources and destinations", "sync.Map, sync.Mutex, sync.Once, sync.Pool", "process restart", "callbacks"},
		Assume: []string{"encoding/xml of the installed Go is right for types, values and documents without namespaces and repeated attributes; what makes it panic is left out"},
	})
}

// ---- hand-written types ----

// TRec contains itself in every way a type can.
type TRec struct {
	XMLName stdOrLibName `xml:"trec"`
	K       string       `xml:"k,attr,omitempty"`
	Next    *TRec        `xml:"next"`
	Kids    []TRec       `xml:"kids>kid"`
	Any     []*TRec      `xml:",any"`
	T       string       `xml:",chardata"`
}

// stdOrLibName is a field for XMLName that is of neither package.
type stdOrLibName struct{}

type tInner struct {
	E1 string `xml:"e1"`
	A1 int    `xml:"a1,attr"`
	Sh string `xml:"shared"`
}

// TEmb promotes fields of an unexported struct, and hides one.
type TEmb struct {
	tInner
	Sh string `xml:"shared"`
	E2 bool   `xml:"e2,omitempty"`
	x  int
}

// TEmbP embeds through pointers.
type TEmbP struct {
	*EmbX
	EmbY
	Own string `xml:"own"`
}

type EmbX struct {
	X1 string  `xml:"x1"`
	X2 *int    `xml:"x2,attr"`
	X3 []uint8 `xml:"x>y"`
}

type EmbY struct {
	XMLName stdOrLibName `xml:"emby"`
	Y1      []string     `xml:"y1"`
	Y2      string       `xml:"x>z"`
}

// TGen is generic: its name has brackets.
type TGen[T any] struct {
	V T   `xml:"v"`
	L []T `xml:"l"`
	A T   `xml:"a,attr"`
}

// TPath shares paths between fields.
type TPath struct {
	A string   `xml:"p>a"`
	B []string `xml:"p>b"`
	C int      `xml:"p>q>c"`
	D string   `xml:"d"`
	E []bool   `xml:"p>q>e"`
	F *string  `xml:"r>f"`
}

// TPaths has paths that differ only at the start.
type TPaths struct {
	A string   `xml:"a>x>v"`
	B string   `xml:"b>x>v"`
	C []string `xml:"b>x>w"`
	D int      `xml:"b>y>v"`
	E string   `xml:"x>v"`
}

// Types that print alike.
func local1() *tspec {
	type Local struct {
		A string `xml:"a"`
		K string `xml:"k,attr"`
	}
	return typeOf[Local]()
}

func local2() *tspec {
	type Local struct{ TextVal }
	return typeOf[Local]()
}

func local3() *tspec {
	type Local struct {
		PtrText
		A string `xml:"a"`
	}
	return typeOf[Local]()
}

func local4() *tspec {
	type Local []string
	return typeOf[Local]()
}

func local5() *tspec {
	type Local string
	return typeOf[Local]()
}

func local6() *tspec {
	type Local struct {
		A []int `xml:"a,attr"`
		K *bool `xml:"k"`
	}
	return typeOf[Local]()
}

var tLocals = []*tspec{local1(), local2(), local3(), local4(), local5(), local6()}

// TConf has two fields of one name.
type TConf struct {
	A string `xml:"same"`
	B string `xml:"same"`
}

// TMixed uses the special modes.
type TMixed struct {
	C  string   `xml:",comment"`
	T  string   `xml:",cdata"`
	I  string   `xml:",innerxml"`
	N  []int    `xml:"n"`
	An []string `xml:",any"`
}

// PtrText converts only through a pointer.
type PtrText struct{ S string }

func (t *PtrText) MarshalText() ([]byte, error) {
	if t.S == "error" {
		return nil, errCallback
	}
	return []byte("[" + t.S + "]"), nil
}
func (t *PtrText) UnmarshalText(b []byte) error {
	simrt.Point(122)
	if string(b) == "error" {
		return errCallback
	}
	t.S = strings.Trim(string(b), "[]")
	return nil
}

// SliceText is a list that is one text.
type SliceText []string

func (t SliceText) MarshalText() ([]byte, error) { return []byte(strings.Join(t, ",")), nil }
func (t *SliceText) UnmarshalText(b []byte) error {
	*t = strings.Split(string(b), ",")
	return nil
}

// MapText is otherwise unencodable.
type MapText map[string]int

func (t MapText) MarshalText() ([]byte, error) { return []byte(strconv.Itoa(len(t))), nil }

// IntText is a number written as a word.
type IntText int

func (t IntText) MarshalText() ([]byte, error) {
	if t < 0 {
		return nil, errors.New("negative")
	}
	return []byte(strings.Repeat("i", int(t%7))), nil
}
func (t *IntText) UnmarshalText(b []byte) error { *t = IntText(len(b)); return nil }

type (
	NamedString string
	NamedBytes  []byte
	NamedBool   bool
	NamedUint   uint32
)

// ---- drawn types ----

// tspec is a type for the library and its twin for encoding/xml.
type tspec struct {
	a, b   reflect.Type
	fields []tfield // of a struct made here
	elem   *tspec
}

type tfield struct {
	name, tag string
	anon      bool
	t         *tspec
}

func both(t reflect.Type) *tspec { return &tspec{a: t, b: t} }

func typeOf[T any]() *tspec { return both(reflect.TypeOf((*T)(nil)).Elem()) }

var tLeaves = []*tspec{
	typeOf[string](), typeOf[int](), typeOf[bool](), typeOf[string](), typeOf[float64](), typeOf[[]byte](), typeOf[int8](), typeOf[uint16](), typeOf[uint64](), typeOf[float32](), typeOf[int64](), typeOf[uintptr](),
	typeOf[[3]byte](), typeOf[time.Time](), typeOf[TextVal](), typeOf[PtrText](), typeOf[SliceText](), typeOf[IntText](), typeOf[NamedString](), typeOf[NamedBytes](), typeOf[NamedBool](), typeOf[NamedUint](), typeOf[any](), typeOf[MapText](),
}
var tBad = []*tspec{typeOf[chan int](), typeOf[func()](), typeOf[map[string]int](), typeOf[complex128](), typeOf[error](), typeOf[struct{}]()}
var tStatic = []*tspec{
	typeOf[TRec](), typeOf[TEmb](), typeOf[TEmbP](), typeOf[TGen[int]](), typeOf[TGen[string]](), typeOf[TGen[TPath]](), typeOf[TPath](), typeOf[TPaths](), typeOf[TMixed](), typeOf[EmbX](), typeOf[Sub](), typeOf[Embedded](), typeOf[Scalars](), typeOf[TConf](),
}
var tEmbeds = []*tspec{typeOf[EmbX](), typeOf[EmbY](), typeOf[Embedded](), typeOf[TPath](), typeOf[TMixed](), typeOf[*EmbX](), typeOf[*TPath]()}
var tName = &tspec{a: reflect.TypeOf(xml.Name{}), b: reflect.TypeOf(stdxml.Name{})}
var tAttr = &tspec{a: reflect.TypeOf(xml.Attr{}), b: reflect.TypeOf(stdxml.Attr{})}

var tCallbacks = func() (l []*tspec) {
	for i, t := range cblib.Callbacks {
		l = append(l, &tspec{a: t, b: cbstd.Callbacks[i]})
	}
	return
}()

var tElems = []string{"e1", "foo", "bar", "x", "shared", "n"}
var tAttrs = []string{"a1", "id", "k", "x2", "e1"}

// typeGen draws types and collects the names their documents use.
type typeGen struct {
	r      *Run
	elems  []string
	attrs  []string
	left   int
	ns     bool // tags and documents have namespaces (decoding only)
	deep   bool // embedding in embedded structs, with names in conflict
	locals bool // simple types are some that print alike
	cbs    bool // types that convert themselves
	long   int  // lists or texts that may still be long
}

func (g *typeGen) wrap(t *tspec) *tspec {
	switch ops(7) {
	case 4:
		return &tspec{a: reflect.PointerTo(t.a), b: reflect.PointerTo(t.b), elem: t}
	case 5:
		return &tspec{a: reflect.SliceOf(t.a), b: reflect.SliceOf(t.b), elem: t}
	case 6:
		switch ops(4) {
		case 0:
			p := &tspec{a: reflect.PointerTo(t.a), b: reflect.PointerTo(t.b), elem: t}
			return &tspec{a: reflect.SliceOf(p.a), b: reflect.SliceOf(p.b), elem: p}
		case 1:
			p := &tspec{a: reflect.PointerTo(t.a), b: reflect.PointerTo(t.b), elem: t}
			return &tspec{a: reflect.PointerTo(p.a), b: reflect.PointerTo(p.b), elem: p}
		case 2:
			return &tspec{a: reflect.ArrayOf(2, t.a), b: reflect.ArrayOf(2, t.b), elem: t}
		case 3:
			p := &tspec{a: reflect.SliceOf(t.a), b: reflect.SliceOf(t.b), elem: t}
			return &tspec{a: reflect.PointerTo(p.a), b: reflect.PointerTo(p.b), elem: p}
		}
	}
	return t
}

func (g *typeGen) leaf() *tspec {
	if ops(60) == 59 {
		g.r.fault("unencodable-type")
		return pick(tBad)
	}
	if g.locals {
		return pick(tLocals)
	}
	if g.cbs && ops(2) == 1 {
		return pick(tCallbacks)
	}
	return pick(tLeaves)
}

func (g *typeGen) static() *tspec {
	t := pick(tStatic)
	g.names(t.a, 0)
	return t
}

// names collects what the tags of a hand-written type mention.
func (g *typeGen) names(t reflect.Type, depth int) {
	for t.Kind() == reflect.Pointer || t.Kind() == reflect.Slice {
		t = t.Elem()
	}
	if t.Kind() != reflect.Struct || depth > 2 || t.PkgPath() == "time" {
		return
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		nm, opt, _ := strings.Cut(f.Tag.Get("xml"), ",")
		if nm != "" {
			if strings.HasPrefix(opt, "attr") {
				g.attrs = append(g.attrs, nm)
			} else {
				g.elems = append(g.elems, strings.Split(nm, ">")...)
			}
		}
		g.names(f.Type, depth+1)
	}
}

// structType draws a struct. emb tells that it is embedded.
func (g *typeGen) structType(depth int, emb bool) *tspec {
	g.left--
	s := &tspec{}
	if ops(2) == 1 {
		f := tfield{name: "XMLName", t: tName}
		nm := pick([]string{"root", "sub", "foo"})
		switch ops(4) {
		case 0, 1:
			f.tag = nm
			g.elems = append(g.elems, nm)
		case 2:
			if emb {
				f.tag = nm
			}
		case 3:
			f.tag, f.t = nm, pick([]*tspec{typeOf[string](), typeOf[struct{}]()})
			g.elems = append(g.elems, nm)
		}
		if g.ns && f.t == tName && f.tag != "" && ops(2) == 1 {
			f.tag = "urn:a " + f.tag
		}
		s.fields = append(s.fields, f)
	}
	for i, n := 0, 1+ops(5); i < n; i++ {
		f := tfield{name: fmt.Sprintf("F%d", i)}
		if i > 0 && (ops(10) == 9 || g.deep && depth < 4 && ops(2) == 1) { // after one that is not embedded
			f.anon = true
			if ops(3) == 2 && depth < 2 || g.deep && depth < 4 {
				f.t = g.structType(depth+1, true)
				f.name = fmt.Sprintf("Emb%d", i)
				if ops(3) == 2 {
					f.t = &tspec{a: reflect.PointerTo(f.t.a), b: reflect.PointerTo(f.t.b), elem: f.t}
				}
			} else {
				f.t = pick(tEmbeds)
				g.names(f.t.a, 0)
				t := f.t.a
				if t.Kind() == reflect.Pointer {
					t = t.Elem()
				}
				f.name = t.Name()
			}
			dup := false
			for _, o := range s.fields {
				dup = dup || o.name == f.name
			}
			if !dup {
				s.fields = append(s.fields, f)
			}
			continue
		}
		el := func() string {
			x := pick(tElems)
			if g.deep {
				x = pick([]string{"e1", "x", "x"})
			}
			if ops(3) > 0 && (!g.deep || ops(2) == 1) {
				x = fmt.Sprintf("%s%d", x, i)
			}
			g.elems = append(g.elems, x)
			return x
		}
		at := func() string {
			x := pick(tAttrs)
			if ops(3) > 0 || g.ns {
				x = fmt.Sprintf("%s%d", x, i)
			}
			g.attrs = append(g.attrs, x)
			return x
		}
		om := pick([]string{"", "", ",omitempty"})
		switch k := ops(20); {
		case k < 5: // attribute
			f.t = g.wrap(g.leaf())
			f.tag = at() + ",attr" + om
		case k < 10: // element of a simple type
			f.t = g.wrap(g.leaf())
			f.tag = el() + om
		case k < 13: // element of a struct type
			if g.left > 0 && depth < 3 {
				f.t = g.wrap(g.structType(depth+1, false))
			} else {
				f.t = g.wrap(g.static())
			}
			f.tag = el() + om
		case k == 13:
			f.t = g.wrap(g.static())
			if g.cbs {
				f.t = g.wrap(pick(tCallbacks))
			}
			if ops(4) == 3 { // a name or an attribute as an element
				f.t = pick([]*tspec{tName, tAttr})
				g.elems = append(g.elems, "Local", "Space", "Value", "Name")
			}
			f.tag = pick([]string{el(), "", ",omitempty"})
		case k == 14: // path
			f.t = g.wrap(g.leaf())
			f.tag = pick([]string{"p>", "p>q>", "r>", "r>q>", "p>q>r>", "r>q>r>", "p>r>"})
			if ops(2) == 1 {
				f.tag += pick([]string{"v", "w"}) + om
				g.elems = append(g.elems, "v", "w")
			} else {
				f.tag += el() + om
			}
			g.elems = append(g.elems, "p", "q", "r")
		case k == 15:
			f.t = g.wrap(g.leaf())
			f.tag = pick([]string{",chardata", ",cdata"})
		case k == 16:
			f.t = pick([]*tspec{typeOf[string](), typeOf[[]byte](), typeOf[NamedString](), typeOf[NamedBytes]()})
			f.tag = pick([]string{",comment", ",innerxml"})
		case k == 17:
			f.t = pick([]*tspec{tAttr, {a: reflect.SliceOf(tAttr.a), b: reflect.SliceOf(tAttr.b), elem: tAttr}, typeOf[string](), typeOf[[]string](), typeOf[[]PtrText]()})
			f.tag = ",any,attr"
		case k == 18:
			f.t = g.wrap(g.static())
			f.tag = ",any"
			if ops(3) == 2 {
				f.t = pick([]*tspec{typeOf[string](), typeOf[[]string](), typeOf[[]int]()})
			}
		case k == 19:
			f.t = g.wrap(g.leaf())
			f.tag = pick([]string{"-", "", "foo", ",attr"}[:4-b2i(g.ns)])
			if ops(4) == 3 {
				f.tag = pick([]string{",chardata,attr", "a>,attr", "a>b,attr", "a>", "x,chardata", ",any,chardata", ",omitempty,chardata", "x,any", "x,comment", ",innerxml,attr", ",any,omitempty", ">b", ",attr,any,chardata", "x,any,attr", ",cdata,chardata", "a>>b", "urn:a ", "urn:a ,attr", "urn:a ,chardata"})
				g.r.fault("bad-tag")
			}
		}
		// An attribute with fields for its name with and without the namespace
		// goes to the first only; encoding/xml gives it to both.
		name, mode, _ := strings.Cut(f.tag, ",")
		ns := ops(3) > 0
		if strings.Contains(mode, "attr") {
			ns = len(name) > 2 && name[len(name)-1]&1 == 1
		}
		if g.ns && ns && name != "" && name != "-" {
			f.tag = pick([]string{"urn:a ", "urn:a ", "urn:b "}) + f.tag
		}
		s.fields = append(s.fields, f)
	}
	var fa, fb []reflect.StructField
	for _, f := range s.fields {
		tag := reflect.StructTag("")
		if f.tag != "" {
			tag = reflect.StructTag(`xml:"` + f.tag + `"`)
		}
		fa = append(fa, reflect.StructField{Name: f.name, Type: f.t.a, Tag: tag, Anonymous: f.anon})
		fb = append(fb, reflect.StructField{Name: f.name, Type: f.t.b, Tag: tag, Anonymous: f.anon})
	}
	s.a, s.b = reflect.StructOf(fa), reflect.StructOf(fb)
	return s
}

// ---- drawn values ----

var tTexts = []string{"", "x", "7", "a b", "<&>\"'", "]]>", " y ", "true", "\n", "日本", "\xff", "error", "--", "1.5", "<in k='1'>t</in>"}

// fill draws a value into the twins a and b.
func (g *typeGen) fill(s *tspec, a, b reflect.Value, depth int) {
	t := a.Type()
	switch {
	case s == tName:
		n := pick([]string{"", "", "root", "named"})
		a.Set(reflect.ValueOf(xml.Name{Local: n}))
		b.Set(reflect.ValueOf(stdxml.Name{Local: n}))
		return
	case s == tAttr:
		n, v := pick([]string{"z1", "z2", "z3", ""}), pick(tTexts)
		a.Set(reflect.ValueOf(xml.Attr{Name: xml.Name{Local: n}, Value: v}))
		b.Set(reflect.ValueOf(stdxml.Attr{Name: stdxml.Name{Local: n}, Value: v}))
		return
	case t == reflect.TypeOf(time.Time{}):
		v := reflect.ValueOf(time.Date(pick([]int{2024, 1, 9999, 10001}), 3, 4, 5, 6, 7, pick([]int{0, 5000, 123000000}), time.UTC))
		a.Set(v)
		b.Set(v)
		return
	}
	var sub *tspec
	if s != nil {
		sub = s.elem
	}
	set := func(v any) {
		a.Set(reflect.ValueOf(v).Convert(t))
		b.Set(reflect.ValueOf(v).Convert(b.Type()))
	}
	switch t.Kind() {
	case reflect.String:
		if g.long > 0 && ops(3) == 2 {
			g.long--
			set(longText())
			return
		}
		set(pick(tTexts))
	case reflect.Bool:
		set(ops(2) == 1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := int64(pick([]int{0, 1, -1, 42, -128, math.MaxInt64, math.MinInt64}))
		a.SetInt(x)
		b.SetInt(x)
		if a.OverflowInt(x) {
			a.SetInt(5)
			b.SetInt(5)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		x := pick([]uint64{0, 1, 9, 255, 65535, math.MaxUint64})
		if a.OverflowUint(x) {
			x = 7
		}
		a.SetUint(x)
		b.SetUint(x)
	case reflect.Float32, reflect.Float64:
		x := pick([]float64{0, 1, -0.5, 1e21, 3.14159265358979, 1e-9, math.NaN()})
		a.SetFloat(x)
		b.SetFloat(x)
	case reflect.Pointer:
		if ops(3) == 0 || depth > 6 {
			return
		}
		a.Set(reflect.New(t.Elem()))
		b.Set(reflect.New(b.Type().Elem()))
		g.fill(sub, a.Elem(), b.Elem(), depth+1)
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 {
			x := pick(append(tTexts, "bytes"))
			a.Set(reflect.ValueOf([]byte(x)).Convert(t))
			b.Set(reflect.ValueOf([]byte(x)).Convert(t))
			return
		}
		n := ops(4)
		if depth > 6 || n == 0 {
			return
		}
		if g.long > 0 && sub != tAttr {
			g.long = 0
			n = bigLen(4, 9)
			depth = 6
		}
		a.Set(reflect.MakeSlice(t, n, n))
		b.Set(reflect.MakeSlice(b.Type(), n, n))
		for i := 0; i < n; i++ {
			g.fill(sub, a.Index(i), b.Index(i), depth+1)
			if sub == tAttr { // no tag has an attribute twice
				a.Index(i).Field(0).Field(1).SetString(fmt.Sprintf("z%d", i))
				b.Index(i).Field(0).Field(1).SetString(fmt.Sprintf("z%d", i))
			}
		}
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			g.fill(sub, a.Index(i), b.Index(i), depth+1)
		}
	case reflect.Map:
		if t.Key().Kind() == reflect.String && ops(2) == 1 {
			for _, x := range []reflect.Value{a, b} {
				x.Set(reflect.MakeMap(x.Type()))
				x.SetMapIndex(reflect.ValueOf("k"), reflect.ValueOf(1))
			}
		}
	case reflect.Interface:
		if t.NumMethod() > 0 {
			return
		}
		mk := func() any { return nil }
		switch ops(9) {
		case 1:
			mk = func() any { return "iface" }
		case 2:
			mk = func() any { return 77 }
		case 3:
			mk = func() any { return &Sub{K: "i", V: "v", More: []string{"m"}} }
		case 4:
			mk = func() any { return (*Sub)(nil) }
		case 5:
			mk = func() any { return []string{"i", "j"} }
		case 6:
			mk = func() any { return &PtrText{"p"} }
		case 7:
			mk = func() any { return PtrText{"p"} }
		case 8:
			mk = func() any { s := new(string); *s = "ps"; return s }
		}
		if v := mk(); v != nil {
			a.Set(reflect.ValueOf(v))
			b.Set(reflect.ValueOf(mk()))
		}
	case reflect.Struct:
		if s != nil && s.fields != nil {
			for i, f := range s.fields {
				if ops(6) > 0 {
					g.fill(f.t, a.Field(i), b.Field(i), depth+1)
				}
			}
			return
		}
		for i := 0; i < t.NumField(); i++ {
			if a.Field(i).CanSet() && ops(4) > 0 {
				g.fill(nil, a.Field(i), b.Field(i), depth+1)
			}
		}
	}
}

// tdump prints a value so that twins print alike.
func tdump(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 40 {
		sb.WriteString("…")
		return
	}
	if v.IsValid() && v.Type() == reflect.TypeOf(time.Time{}) && v.CanInterface() {
		sb.WriteString(v.Interface().(time.Time).Format(time.RFC3339Nano))
		return
	}
	switch v.Kind() {
	case reflect.Invalid:
		sb.WriteString("nil")
	case reflect.String:
		if s := v.String(); s == "http://www.w3.org/2000/xmlns/" {
			sb.WriteString(`"xmlns"`) // documented: the URI of declarations
		} else {
			fmt.Fprintf(sb, "%q", s)
		}
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(sb, v.Float())
	case reflect.Complex64, reflect.Complex128:
		fmt.Fprint(sb, v.Complex())
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		sb.WriteString("&")
		tdump(sb, v.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Slice {
			fmt.Fprintf(sb, "b%q", v.Bytes())
			return
		}
		sb.WriteString("[")
		if t := v.Type().Elem(); t == tAttr.a || t == tAttr.b {
			// the library replaces what encoding/xml gives again
			var names []string
			last := map[string]string{}
			for i := 0; i < v.Len(); i++ {
				n := v.Index(i).Field(0).Field(0).String() + " " + v.Index(i).Field(0).Field(1).String()
				n = strings.Replace(n, "http://www.w3.org/2000/xmlns/ ", "xmlns ", 1)
				if _, ok := last[n]; !ok {
					names = append(names, n)
				} else if t == tAttr.a {
					sb.WriteString("TWICE ")
				}
				last[n] = v.Index(i).Field(1).String()
			}
			for _, n := range names {
				fmt.Fprintf(sb, "%s %q ", n, last[n])
			}
			sb.WriteString("]")
			return
		}
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				sb.WriteString(" ")
			}
			tdump(sb, v.Index(i), depth+1)
		}
		sb.WriteString("]")
	case reflect.Struct:
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			sf, f := v.Type().Field(i), v.Field(i)
			sb.WriteString(sf.Name + ":")
			if sf.Anonymous && f.Kind() == reflect.Pointer && !f.IsNil() {
				// encoding/xml makes embedded structs it has no content for
				var x, zero strings.Builder
				tdump(&x, f.Elem(), depth+1)
				if tdump(&zero, reflect.Zero(f.Type().Elem()), depth+1); x.String() == zero.String() {
					sb.WriteString("nil ")
					continue
				}
			}
			tdump(sb, f, depth+1)
			sb.WriteString(" ")
		}
		sb.WriteString("}")
	default:
		if v.IsNil() {
			sb.WriteString("nil")
		} else {
			fmt.Fprintf(sb, "%v with %d", v.Kind(), v.Len())
		}
	}
}

func tdumpOf(v any) string {
	var sb strings.Builder
	tdump(&sb, reflect.ValueOf(v), 0)
	return sb.String()
}

// ---- use ----

// typeOp is one encoding or decoding with what it must give.
type typeOp struct {
	name, note, want string
	f                func(r *Run) string
	got              string
}

// crowdTypes are types that differ in the names of their fields only.
var crowdTypes [2048]reflect.Type

// crowdOp uses many types, the first of them again at the end.
func crowdOp(r *Run) *typeOp {
	lo, n := ops(len(crowdTypes)), 1<<ops(11)
	r.probe("many-types")
	var vs []reflect.Value
	var docs []string
	for i := lo; i <= lo+n; i++ {
		k := i % len(crowdTypes)
		if i == lo+n {
			k = lo
		}
		t := &crowdTypes[k]
		if *t == nil {
			*t = reflect.StructOf([]reflect.StructField{
				{Name: "XMLName", Type: reflect.TypeOf(xml.Name{}), Tag: `xml:"c"`},
				{Name: "A", Type: reflect.TypeOf(""), Tag: reflect.StructTag(fmt.Sprintf(`xml:"a%d,attr"`, k))},
				{Name: "E", Type: reflect.TypeOf(0), Tag: reflect.StructTag(fmt.Sprintf(`xml:"e%d"`, k))},
			})
		}
		vs = append(vs, reflect.New(*t))
		docs = append(docs, fmt.Sprintf(`<c a%d="v%d"><e%d>%d</e%d></c>`, k, i, k, i, k))
	}
	return &typeOp{name: "many types", note: fmt.Sprintf("%d types", n), want: strings.Join(docs, "\n"), f: func(r *Run) string {
		var out []string
		for i, v := range vs {
			var b []byte
			var err error
			r.call("Unmarshal and Marshal", func() {
				if err = xml.Unmarshal([]byte(docs[i]), v.Interface()); err == nil {
					b, err = xml.Marshal(v.Interface())
				}
			})
			if err != nil {
				b = []byte(err.Error())
			}
			out = append(out, string(b))
		}
		return strings.Join(out, "\n")
	}}
}

// quietly runs encoding/xml; what makes it panic is not compared.
func quietly(f func() string) (s string, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			s, ok = fmt.Sprint(x), false
		}
	}()
	return f(), true
}

// sameText writes tabs and line feeds of character data in one way.
func sameText(s string) string {
	var sb strings.Builder
	for s != "" {
		i := strings.IndexByte(s, '<')
		if i < 0 {
			i = len(s)
		}
		t := strings.ReplaceAll(s[:i], "&#x9;", "\t")
		sb.WriteString(strings.ReplaceAll(t, "&#xA;", "\n"))
		s = s[i:]
		q := byte(0)
		for i = 0; i < len(s); i++ {
			if c := s[i]; q != 0 {
				if c == q {
					q = 0
				}
			} else if c == '"' {
				q = c
			} else if c == '>' {
				i++
				break
			}
		}
		sb.WriteString(s[:i])
		s = s[i:]
	}
	return sb.String()
}

func outcomeOf(err error, s func() string) string {
	if err != nil {
		return "an error"
	}
	return s()
}

// twin makes two equal values.
func (g *typeGen) twin(s *tspec) (a, b reflect.Value) {
	a, b = reflect.New(s.a), reflect.New(s.b)
	g.fill(s, a.Elem(), b.Elem(), 0)
	return
}

func (g *typeGen) encodeOp(s *tspec) *typeOp {
	va, vb := g.twin(s)
	xa, xb := va.Interface(), vb.Interface()
	switch ops(6) {
	case 4: // not addressable
		xa, xb = va.Elem().Interface(), vb.Elem().Interface()
	case 5:
		la, lb := reflect.MakeSlice(reflect.SliceOf(s.a), 0, 2), reflect.MakeSlice(reflect.SliceOf(s.b), 0, 2)
		wa, wb := g.twin(s)
		xa, xb = reflect.Append(la, va.Elem(), wa.Elem()).Interface(), reflect.Append(lb, vb.Elem(), wb.Elem()).Interface()
	}
	pre, ind := "", ""
	if ops(3) == 2 {
		pre, ind = pick([]string{"", " "}), pick([]string{"", "  ", "\t"})
	}
	way := ops(5)
	var sa xml.StartElement
	var sb stdxml.StartElement
	if way == 3 || way == 4 {
		n, k := pick([]string{"given", "root"}), pick([]string{"", "id", "g"})
		sa.Name.Local, sb.Name.Local = n, n
		if k != "" {
			sa.Attr = []xml.Attr{{Name: xml.Name{Local: k}, Value: "gv"}}
			sb.Attr = []stdxml.Attr{{Name: stdxml.Name{Local: k}, Value: "gv"}}
		}
	}
	op := &typeOp{name: []string{"Marshal", "MarshalIndent", "Encode", "EncodeElement", "EncodeElement (pooled)"}[way], note: fmt.Sprintf("%s of %T", tdumpOf(xa), xa)}
	want, ok := quietly(func() string {
		var b bytes.Buffer
		e := stdxml.NewEncoder(&b)
		var err error
		switch way {
		case 0:
			err = e.Encode(xb)
		case 1, 2:
			e.Indent(pre, ind)
			err = e.Encode(xb)
		default:
			e.Indent(pre, ind)
			err = e.EncodeElement(xb, sb)
		}
		return outcomeOf(err, func() string { return sameText(b.String()) })
	})
	if !ok {
		return nil
	}
	op.want = want
	op.f = func(r *Run) (s string) {
		r.call(op.name, func() {
			var b bytes.Buffer
			var out []byte
			var err error
			switch way {
			case 0:
				out, err = xml.Marshal(xa)
				b.Write(out)
			case 1:
				out, err = xml.MarshalIndent(xa, pre, ind)
				b.Write(out)
			case 2:
				e := xml.NewEncoder(&b)
				e.Indent(pre, ind)
				err = e.Encode(xa)
			case 3:
				e := xml.NewEncoder(&b)
				e.Indent(pre, ind)
				err = e.EncodeElement(xa, sa)
			case 4:
				e := xml.AcquireEncoder(&b)
				e.Indent(pre, ind)
				err = e.EncodeElement(xa, sa)
				xml.ReleaseEncoder(e)
			}
			s = outcomeOf(err, func() string { return sameText(b.String()) })
		})
		return
	}
	return op
}

// plainDoc reports whether no name has a colon and no tag an attribute twice, as far
// as the text can be read.
func plainDoc(doc string) bool {
	if strings.Contains(doc, "xmlns") {
		return false
	}
	d := stdxml.NewDecoder(strings.NewReader(doc))
	d.Strict = false
	for {
		off := d.InputOffset()
		t, err := d.RawToken()
		if err == io.EOF {
			return true
		}
		if err != nil {
			return !strings.Contains(doc[off:], ":")
		}
		switch t := t.(type) {
		case stdxml.EndElement:
			if colon(t.Name) {
				return false
			}
		case stdxml.StartElement:
			if colon(t.Name) {
				return false
			}
			seen := map[string]bool{}
			for _, a := range t.Attr {
				if colon(a.Name) || seen[a.Name.Local] {
					return false
				}
				seen[a.Name.Local] = true
			}
		}
	}
}

// nsDoc reports whether no tag has an attribute twice, in any spelling.
func nsDoc(doc string) bool {
	d := stdxml.NewDecoder(strings.NewReader(doc))
	for {
		t, err := d.Token()
		if err != nil {
			return err == io.EOF
		}
		if t, ok := t.(stdxml.StartElement); ok {
			seen := map[stdxml.Name]bool{}
			for _, a := range t.Attr {
				if seen[a.Name] {
					return false
				}
				seen[a.Name] = true
			}
		}
	}
}

// leafElem matches an element without elements in it.
var leafElem = regexp.MustCompile(`<[A-Za-z0-9]+( [^<>]*[^<>/])?>[^<>]*</[A-Za-z0-9]+>`)

// document draws what is decoded.
func (g *typeGen) document(s *tspec) string {
	doc := ""
	if ops(3) > 0 {
		_, vb := g.twin(s)
		quietly(func() string {
			var b bytes.Buffer
			e := stdxml.NewEncoder(&b)
			if ops(3) == 2 {
				e.Indent("", " ")
			}
			n := "root"
			if len(g.elems) > 0 && ops(3) == 2 {
				n = pick(g.elems)
			}
			if ops(3) == 0 || e.Encode(vb.Interface()) != nil {
				b.Reset()
				e = stdxml.NewEncoder(&b)
				e.EncodeElement(vb.Interface(), stdxml.StartElement{Name: stdxml.Name{Local: n}})
			}
			doc = b.String()
			return ""
		})
	}
	if doc == "" || ops(4) == 3 {
		g.r.fault("foreign-names")
		p := newSoup(g.ns, false)
		p.budget = 4 + ops(14)
		p.names = append(g.elems[:len(g.elems):len(g.elems)], "root", "other")
		p.attrs = append(g.attrs[:len(g.attrs):len(g.attrs)], "id", "other")
		p.elem(pick([]string{"root", "root", ""}), 0)
		doc = p.sb.String()
	}
	if ops(10) == 9 { // the same element again, with many attributes
		g.r.fault("many-attributes")
		at := regexp.MustCompile(`<[A-Za-z0-9]+`).FindAllStringIndex(doc, -1)
		for n := len(at) - 1; n >= 0; n-- {
			var sb strings.Builder
			for k, c := ops(8), ops(13); c > 0; c-- {
				fmt.Fprintf(&sb, ` m%d="%d"`, k+c, n)
			}
			doc = doc[:at[n][1]] + sb.String() + doc[at[n][1]:]
		}
	}
	if at := leafElem.FindAllStringIndex(doc, -1); g.long > 0 && len(at) > 0 { // one element again and again
		g.long--
		g.r.fault("many-elements")
		x := at[ops(len(at))]
		el, n := doc[x[0]:x[1]], bigLen(4, 11)
		var sb strings.Builder
		for k := 0; k < n && sb.Len() < 60000; k++ {
			if ops(2) == 1 && strings.Contains(el, ">7<") { // so that the order shows
				sb.WriteString(strings.Replace(el, ">7<", fmt.Sprintf(">%d<", k%100), 1))
			} else {
				sb.WriteString(el)
			}
		}
		doc = doc[:x[0]] + sb.String() + doc[x[0]:]
	}
	if flt(6) == 5 && !g.ns {
		g.r.fault("damaged-document")
		doc = corrupt(g.r, doc, []string{doc, "<root><x>1</x></root>"})
	}
	return doc
}

func (g *typeGen) decodeOp(s *tspec) *typeOp {
	doc := g.document(s)
	for i := 0; !plainDoc(doc) && !(g.ns && nsDoc(doc)); i++ {
		if doc = "<root/>"; i > 0 {
			return nil
		}
	}
	ta, tb := reflect.New(s.a), reflect.New(s.b)
	if ops(3) == 2 {
		g.r.fault("prefilled-target")
		g.fill(s, ta.Elem(), tb.Elem(), 0)
	}
	if ops(10) == 9 { // into a list
		la, lb := reflect.New(reflect.SliceOf(s.a)), reflect.New(reflect.SliceOf(s.b))
		la.Elem().Set(reflect.Append(la.Elem(), ta.Elem()))
		lb.Elem().Set(reflect.Append(lb.Elem(), tb.Elem()))
		ta, tb = la, lb
	}
	xa, xb := ta.Interface(), tb.Interface()
	way := ops(4)
	errAt := -1
	if flt(8) == 7 && len(doc) > 0 {
		g.r.fault("reader-error")
		errAt = flt(len(doc))
	}
	max := []int{0, 1, 7, 50}[style(4)]
	src := func() *fixedReader {
		f := &fixedReader{data: doc, max: max, empties: way == 2, hk: &hook{}}
		if errAt >= 0 {
			f.data, f.end = doc[:errAt], errDisk
		}
		return f
	}
	op := &typeOp{name: []string{"Unmarshal", "Decode", "Decode", "Decode twice"}[way], note: fmt.Sprintf("%s into %T %s", doc, xa, tdumpOf(xa))}
	if errAt >= 0 && way == 0 {
		way = 1
	}
	want, ok := quietly(func() string {
		var err error
		if way == 0 {
			err = stdxml.Unmarshal([]byte(doc), xb)
		} else {
			d := stdxml.NewDecoder(strings.NewReader(src().data))
			if err = d.Decode(xb); err == nil && way == 3 {
				d = stdxml.NewDecoder(strings.NewReader(src().data))
				err = d.Decode(xb) // on top of what is there
			}
		}
		return outcomeOf(err, func() string { return tdumpOf(xb) })
	})
	if !ok {
		return nil
	}
	op.want = want
	op.f = func(r *Run) (s string) {
		r.call(op.name, func() {
			var err error
			if way == 0 {
				err = xml.Unmarshal([]byte(doc), xa)
			} else {
				d := xml.NewDecoder(src())
				if err = d.Decode(xa); err == nil && way == 3 {
					d = xml.NewDecoder(src())
					err = d.Decode(xa)
				}
			}
			s = outcomeOf(err, func() string { return tdumpOf(xa) })
		})
		return
	}
	return op
}

var lessGarbage sync.Once

func runP22(r *Run) {
	lessGarbage.Do(func() { debug.SetGCPercent(100) }) // types made at run time are never freed
	g := &typeGen{r: r, left: 1 + ops(4)}
	var types []*tspec
	if g.deep = ops(8) == 7; g.deep {
		r.probe("deep-embedding")
		g.left = 8
	}
	if opsP(1, 400) {
		g.long = 1 + ops(3)
		r.probe("long")
	}
	if g.ns = ops(5) == 4; g.ns {
		r.probe("with-namespaces")
	}
	if g.cbs = ops(5) == 4; g.cbs {
		r.probe("callbacks")
		g.elems = append(g.elems, "in", "cb", "e", "f", "p", "g", "h", "i")
		g.attrs = append(g.attrs, "a", "b", "c", "d")
		if ops(2) == 1 {
			types = append(types, pick(tCallbacks))
		}
	}
	if g.locals = ops(12) == 11; g.locals {
		types = append(types, pick(tLocals), pick(tLocals))
		g.elems = append(g.elems, "a", "k", "Local")
		g.attrs = append(g.attrs, "a", "k")
	}
	for k := 1 + ops(2); k > 0; k-- {
		var s *tspec
		if ops(5) == 4 {
			s = g.static()
		} else {
			s = g.structType(0, false)
		}
		types = append(types, s)
		for _, f := range s.fields { // parts are used by themselves as well
			t := f.t
			for t.elem != nil {
				t = t.elem
			}
			if t.fields != nil && ops(2) == 1 {
				types = append(types, t)
			}
		}
	}
	tasks := make([][]*typeOp, []int{1, 1, 2, 3, 4}[ops(5)])
	n := 0
	for t := range tasks {
		for k := 1 + ops(5); k > 0; k-- {
			s := pick(types)
			var op *typeOp
			if ops(2) == 0 && !g.ns {
				op = g.encodeOp(s)
			} else {
				op = g.decodeOp(s)
			}
			if op == nil {
				r.probe("encoding/xml-panics")
				continue
			}
			n++
			r.note(op.name)
			r.ev("reference", "task %d: %s %s: %s", t, op.name, clip(op.note), clip(op.want))
			r.record(op.want)
			if op.want == "an error" {
				r.probe("errors-expected")
			} else {
				r.probe("values-expected")
			}
			tasks[t] = append(tasks[t], op)
		}
		if opsP(1, 1500) {
			tasks[t] = append([]*typeOp{crowdOp(r)}, tasks[t]...)
		}
	}
	if n == 0 {
		r.Trivial = true
		return
	}
	fresh()
	r.fault("cold-start")
	drawPoolMode(r)
	if len(tasks) == 1 {
		for _, op := range tasks[0] {
			op.got = op.f(r)
		}
	} else {
		var fs []func()
		for t := range tasks {
			tr := r.Task()
			fs = append(fs, func() {
				for _, op := range tasks[t] {
					op.got = op.f(tr)
				}
			})
		}
		concurrently(r, fs)
	}
	for t := range tasks {
		for i, op := range tasks[t] {
			if op.got != op.want {
				r.fail("stdlib", op.name, "task %d, operation %d, %s of %s\ndiffers from encoding/xml: %s", t, i, op.name, clip(op.note), diffAt(op.got, op.want))
			}
		}
	}
}
