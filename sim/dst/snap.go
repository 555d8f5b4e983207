package dst

import (
	"math"
	"reflect"
	"strconv"
	"time"
)

// snapshot writes down everything reachable from v: values, nil-ness, and which
// pointers are shared, including what unexported fields (parent links) hold.
func snapshot(v any) string {
	s := snapper{seen: map[snapKey]int{}, unexported: true}
	s.put(reflect.ValueOf(v))
	return string(s.b)
}

// exportedOf writes down the exported values only (no parent links); nil and
// empty slices are the same.
func exportedOf(v any) string {
	s := snapper{seen: map[snapKey]int{}, norm: true}
	s.put(reflect.ValueOf(v))
	return string(s.b)
}

type snapKey struct {
	p uintptr
	t reflect.Type
}

type snapper struct {
	b          []byte
	seen       map[snapKey]int
	unexported bool
	norm       bool
}

var timeType = reflect.TypeOf(time.Time{})

func (s *snapper) put(v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		s.b = append(s.b, "nil"...)
	case reflect.Bool:
		s.b = strconv.AppendBool(s.b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		s.b = strconv.AppendInt(s.b, v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		s.b = strconv.AppendUint(s.b, v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if f != f {
			f = math.NaN()
		}
		s.b = strconv.AppendUint(s.b, math.Float64bits(f), 16)
	case reflect.String:
		s.b = strconv.AppendQuote(s.b, v.String())
	case reflect.Pointer:
		if v.IsNil() {
			s.b = append(s.b, "nil"...)
			return
		}
		k := snapKey{v.Pointer(), v.Type()}
		if n, ok := s.seen[k]; ok && v.Type().Elem().Size() > 0 {
			if s.norm { // sharing does not matter, but cycles must end
				s.b = append(s.b, '^')
				s.b = strconv.AppendInt(s.b, int64(n), 10)
				return
			}
			s.b = append(s.b, '^')
			s.b = strconv.AppendInt(s.b, int64(n), 10)
			return
		}
		s.seen[k] = len(s.seen)
		s.b = append(s.b, '&')
		s.put(v.Elem())
		if s.norm {
			delete(s.seen, k)
		}
	case reflect.Interface:
		if v.IsNil() {
			s.b = append(s.b, "nil"...)
			return
		}
		s.b = append(s.b, v.Elem().Type().String()...)
		s.put(v.Elem())
	case reflect.Slice:
		if v.IsNil() && !s.norm {
			s.b = append(s.b, "nil"...)
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			s.b = strconv.AppendQuote(s.b, string(v.Bytes()))
			return
		}
		fallthrough
	case reflect.Array:
		s.b = append(s.b, '[')
		for i := 0; i < v.Len(); i++ {
			s.put(v.Index(i))
			s.b = append(s.b, ' ')
		}
		s.b = append(s.b, ']')
	case reflect.Struct:
		t := v.Type()
		if t == timeType {
			if v.CanInterface() {
				s.b = v.Interface().(time.Time).AppendFormat(s.b, time.RFC3339Nano)
			}
			return
		}
		s.b = append(s.b, '{')
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" && !f.Anonymous && !s.unexported {
				continue
			}
			fv := v.Field(i)
			if s.norm && isZeroOrEmpty(fv) {
				continue
			}
			s.b = append(s.b, f.Name...)
			s.b = append(s.b, ':')
			s.put(fv)
			s.b = append(s.b, ' ')
		}
		s.b = append(s.b, '}')
	case reflect.Map:
		s.b = append(s.b, "map"...)
		s.b = strconv.AppendInt(s.b, int64(v.Len()), 10)
	default:
		s.b = append(s.b, v.Type().String()...)
	}
}

func isZeroOrEmpty(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice:
		return v.Len() == 0
	case reflect.Pointer, reflect.Interface:
		return v.IsNil()
	}
	return false
}

// pointersOf collects the addresses of all memory that v owns (everything
// reachable except through the links named in skip).
func pointersOf(v any, into map[uintptr]string) {
	walkPtrs(reflect.ValueOf(v), "", into)
}

func walkPtrs(v reflect.Value, path string, m map[uintptr]string) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || v.Type().Elem().Size() == 0 {
			return
		}
		p := v.Pointer()
		if _, ok := m[p]; ok {
			return
		}
		m[p] = path
		walkPtrs(v.Elem(), path, m)
	case reflect.Interface:
		if !v.IsNil() {
			walkPtrs(v.Elem(), path, m)
		}
	case reflect.Slice:
		if v.Cap() > 0 && v.Type().Elem().Size() > 0 {
			m[v.Pointer()] = path + "[]"
		}
		for i := 0; i < v.Len(); i++ {
			walkPtrs(v.Index(i), path+"["+strconv.Itoa(i)+"]", m)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			walkPtrs(v.Index(i), path, m)
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" && !f.Anonymous {
				continue // parent links are checked separately
			}
			walkPtrs(v.Field(i), path+"."+f.Name, m)
		}
	}
}
