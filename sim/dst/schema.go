package dst

import (
	_ "embed"
	"reflect"
	"strconv"
	"strings"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

// schema.txt is the frozen table of what the API's fields mean in XML: element or
// attribute, name, namespace, preferred prefix, value kind. It was written down
// once and is the specification side of the oracles; it is not read from the code
// under test at run time.
//
//go:embed schema.txt
var schemaText string

type fKind int

const (
	fAttr fKind = iota
	fElem
	fText
	fAnyAttr
	fInner
)

type sField struct {
	path   []string
	kind   fKind
	vk     string // scalar kind, or "" for struct elements
	typ    string // struct type of an element
	ns     string
	pre    string
	name   string
	omit   bool
	slice  bool
	ptr    bool
	listAt bool // white-space separated list in one attribute
}

type sType struct {
	name     string
	pass     bool // XMLName is captured and replayed
	fields   []*sField
	hasText  bool
	hasElems bool
}

var schema = map[string]*sType{}
var schemaNames []string
var parentsOf = map[string][]string{}
var goTypes = map[string]reflect.Type{}

const nsDASH = "urn:mpeg:dash:schema:mpd:2011"

var typName = reflect.TypeFor[xml.Name]()

func init() {
	var cur *sType
	for _, l := range strings.Split(schemaText, "\n") {
		if l == "" {
			continue
		}
		if l[0] != '\t' {
			cur = &sType{name: l}
			schema[l] = cur
			schemaNames = append(schemaNames, l)
			continue
		}
		l = l[1:]
		if strings.HasPrefix(l, "//passthrough") {
			cur.pass = true
			continue
		}
		w := strings.Fields(l)
		f := &sField{path: strings.Split(w[0], ".")}
		switch w[1] {
		case "Attr":
			f.kind = fAttr
		case "Elem":
			f.kind = fElem
		case "Text":
			f.kind = fText
		case "AnyAttr":
			f.kind = fAnyAttr
		case "Inner":
			f.kind = fInner
		default:
			panic("schema: " + l)
		}
		if strings.HasPrefix(w[2], "*") {
			f.typ = w[2][1:]
		} else {
			f.vk = strings.SplitN(w[2], ":", 2)[0]
		}
		for _, p := range w[3:] {
			i := strings.IndexByte(p, '=')
			switch p[:i] {
			case "ns":
				f.ns, _ = strconv.Unquote(p[i+1:])
			case "pre":
				f.pre, _ = strconv.Unquote(p[i+1:])
			case "name":
				f.name, _ = strconv.Unquote(p[i+1:])
			case "opt":
				f.omit = strings.Contains(p[i+1:], "o")
				f.slice = strings.Contains(p[i+1:], "s")
				f.ptr = strings.Contains(p[i+1:], "p")
			}
		}
		if f.kind == fAttr && f.slice {
			f.listAt = true
		}
		if f.kind == fText {
			cur.hasText = true
		}
		if f.kind == fElem {
			cur.hasElems = true
			if f.typ != "" {
				parentsOf[f.typ] = append(parentsOf[f.typ], cur.name)
			}
		}
		cur.fields = append(cur.fields, f)
	}
	collectTypes(reflect.TypeFor[mpd.MPD]())
}

func collectTypes(t reflect.Type) {
	for t.Kind() == reflect.Pointer || t.Kind() == reflect.Slice {
		t = t.Elem()
	}
	if t.Kind() != reflect.Struct || t == typName || goTypes[t.Name()] != nil {
		return
	}
	goTypes[t.Name()] = t
	for i := 0; i < t.NumField(); i++ {
		if t.Field(i).IsExported() || t.Field(i).Anonymous {
			collectTypes(t.Field(i).Type)
		}
	}
}

// pathTo draws a chain of types from `from` to `to` (nil if there is none).
func pathTo(from, to string) []string {
	if from == to {
		return []string{from}
	}
	// breadth first distances from `from`
	dist := map[string]int{from: 0}
	q := []string{from}
	for len(q) > 0 {
		c := q[0]
		q = q[1:]
		if schema[c] == nil {
			continue
		}
		for _, f := range schema[c].fields {
			if f.typ != "" && f.kind == fElem {
				if _, ok := dist[f.typ]; !ok {
					dist[f.typ] = dist[c] + 1
					q = append(q, f.typ)
				}
			}
		}
	}
	if _, ok := dist[to]; !ok {
		return nil
	}
	path := []string{to}
	for c := to; c != from; {
		var cand []string
		seen := map[string]bool{}
		for _, p := range parentsOf[c] {
			if d, ok := dist[p]; ok && d == dist[c]-1 && !seen[p] {
				seen[p] = true
				cand = append(cand, p)
			}
		}
		c = pick(cand)
		path = append([]string{c}, path...)
	}
	return path
}

// route draws a way from the document element to type t, by a detour in n of 3 cases.
func route(t string, n int) []string {
	if opsP(n, 3) {
		via := pick([]string{"AdaptationSetType", "AdaptationSetType", "RepresentationType", "RepresentationType", "SubRepresentationType", "EventType", "Period"})
		if a, b := pathTo("MPD", via), pathTo(via, t); a != nil && len(b) > 1 {
			return append(a, b[1:]...)
		}
	}
	return pathTo("MPD", t)
}

// fieldAt returns the struct field for a table path, allocating embedded
// pointers when alloc is set.
func fieldAt(v reflect.Value, path []string, alloc bool) (reflect.Value, bool) {
	for i, p := range path {
		if v.Kind() == reflect.Pointer {
			if v.IsNil() {
				if !alloc {
					return reflect.Value{}, false
				}
				v.Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
		}
		f := v.FieldByName(p)
		if !f.IsValid() {
			return f, false
		}
		v = f
		_ = i
	}
	return v, true
}
