package dst

import (
	"fmt"
	"reflect"

	"dashsim/simrt"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&Scenario{
		ID: "P12", Quick: 15000, Thorough: 400000, Run: runP12,
		Faults: []string{"node-restart", "pool-purge", "foreign-structure"},
		Rule: "Each run takes one MPD (parsed from a generated, mutated or real manifest, or built by the API) and drives a history of 8-30 steps over it and up to 6 clones of it, its Periods and AdaptationSets: further clones of any of them, random edits anywhere in them (in-place writes through pointers, appends within and beyond capacity, truncations, swaps, nil-ing), API appends, re-linking, writes, restarts. A clone must equal its original, link into itself and share no memory with it; after each step every other object must be as before, byte for byte of its full state. " +
			"Distinct by event sequence and document shape; trivial if no edit followed a clone.",
		Real: []string{"mpd (clone, link and append functions, writers)", "go-deepcopy"},
		Stub: []string{"process restart", "sync.Pool"},
	})
}

// leaf is a place that can be edited.
type leaf struct {
	v    reflect.Value
	path string
}

func leaves(v reflect.Value, path string, out []leaf) []leaf {
	switch v.Kind() {
	case reflect.Pointer:
		if v.CanSet() {
			out = append(out, leaf{v, path})
		}
		if !v.IsNil() {
			out = leaves(v.Elem(), path, out)
		}
	case reflect.Struct:
		t := v.Type()
		for i := 0; i < v.NumField(); i++ {
			f := t.Field(i)
			if !f.IsExported() && !f.Anonymous {
				continue
			}
			out = leaves(v.Field(i), path+"."+f.Name, out)
		}
	case reflect.Slice:
		if v.CanSet() {
			out = append(out, leaf{v, path})
		}
		for i := 0; i < v.Len(); i++ {
			out = leaves(v.Index(i), path+"[]", out)
		}
	case reflect.String, reflect.Bool, reflect.Int, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float64, reflect.Float32:
		if v.CanSet() {
			out = append(out, leaf{v, path})
		}
	}
	return out
}

// edit makes one drawn change somewhere in v and says where.
func edit(v any) string {
	ls := leaves(reflect.ValueOf(v), "", nil)
	if len(ls) == 0 {
		return "nothing"
	}
	l := ls[ops(len(ls))]
	x := l.v
	switch x.Kind() {
	case reflect.String:
		x.SetString(x.String() + pick([]string{"!", "x", " ", "<"}))
	case reflect.Bool:
		x.SetBool(!x.Bool())
	case reflect.Int, reflect.Int32, reflect.Int64:
		x.SetInt(x.Int() ^ 1000)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x.SetUint(x.Uint() ^ 1)
	case reflect.Float32, reflect.Float64:
		x.SetFloat(float64(ops(1000)) + 0.5)
	case reflect.Pointer:
		if x.IsNil() {
			x.Set(reflect.New(x.Type().Elem()))
		} else if ops(3) == 0 && x.Type().Elem().Kind() != reflect.Struct {
			x.Set(reflect.Zero(x.Type()))
		} else {
			x.Set(reflect.New(x.Type().Elem()))
		}
	case reflect.Slice:
		n := x.Len()
		switch ops(4) {
		case 0: // append, within the capacity if there is room
			e := reflect.New(x.Type().Elem()).Elem()
			if e.Kind() == reflect.Pointer {
				e.Set(reflect.New(e.Type().Elem()))
			}
			x.Set(reflect.Append(x, e))
			return "append to " + l.path
		case 1:
			if n > 0 {
				x.SetLen(n - 1)
			}
			return "truncate " + l.path
		case 2:
			if n > 1 {
				i, j := ops(n), ops(n)
				t := reflect.New(x.Type().Elem()).Elem()
				t.Set(x.Index(i))
				x.Index(i).Set(x.Index(j))
				x.Index(j).Set(t)
			}
			return "swap in " + l.path
		case 3:
			if n > 0 {
				e := reflect.New(x.Type().Elem()).Elem()
				if e.Kind() == reflect.Pointer {
					e.Set(reflect.New(e.Type().Elem()))
				}
				x.Index(ops(n)).Set(e)
			}
			return "replace in " + l.path
		}
	}
	return "edit " + l.path
}

// badLinks reports parent links inside v that do not lead to the container.
func badLinks(v any) string {
	reps := func(a *mpd.AdaptationSetType) string {
		for i, rp := range a.Representations {
			if rp.Parent() != a {
				return fmt.Sprintf("Representation %d", i)
			}
			for j, s := range rp.SubRepresentations {
				if s.Parent() != rp {
					return fmt.Sprintf("SubRepresentation %d/%d", i, j)
				}
			}
		}
		return ""
	}
	sets := func(p *mpd.Period) string {
		for _, as := range [][]*mpd.AdaptationSetType{p.AdaptationSets, p.EmptyAdaptationSets} {
			for i, a := range as {
				if a.Parent() != p {
					return fmt.Sprintf("AdaptationSet %d", i)
				}
				if s := reps(a); s != "" {
					return s
				}
			}
		}
		return ""
	}
	switch v := v.(type) {
	case *mpd.MPD:
		for i, p := range v.Periods {
			if p.Parent() != v {
				return fmt.Sprintf("Period %d", i)
			}
			if s := sets(p); s != "" {
				return s
			}
		}
	case *mpd.Period:
		return sets(v)
	case *mpd.AdaptationSetType:
		return reps(v)
	}
	return ""
}

type famMember struct {
	v    any
	name string
	snap string
}

func runP12(r *Run) {
	simrt.SetPoolMode(uint32(ops(3)))
	var m *mpd.MPD
	if ops(3) == 2 {
		g := newGen()
		if opsP(1, 10) {
			g.big = 2
		}
		m, _ = g.genMPD()
		if ops(2) == 0 {
			m.SetParents()
		}
	} else {
		var err error
		if m, err = readMPD(r, ops(2), []byte(source(r))); err != nil {
			r.Trivial = true
			r.ev("rejected", "")
			return
		}
	}
	fam := []*famMember{{v: m, name: "original"}}
	fam[0].snap = snapshot(m)
	r.record(fam[0].snap)
	edits := 0
	str := func(v any) (s string) {
		r.call("write", func() {
			switch v := v.(type) {
			case *mpd.MPD:
				o, err := v.WriteToString("", false)
				s = o + errStr(err)
			case *mpd.Period:
				o, err := v.WriteToString("")
				s = o + errStr(err)
			default:
				b, err := xml.Marshal(v)
				s = string(b) + errStr(err)
			}
		})
		return
	}
	steps := 8 + ops(23)
	if len(fam[0].snap) > 60000 {
		steps = 6
		r.probe("large")
	}
	for k := steps; k > 0; k-- {
		if fltP(1, 16) {
			r.fault("node-restart")
			simrt.Restart()
		}
		if fltP(1, 16) {
			r.fault("pool-purge")
			simrt.PurgePools()
		}
		x := fam[ops(len(fam))]
		op := ops(8)
		if op >= 4 && op <= 5 && len(fam) >= 7 {
			op = 0
		}
		if len(fam) == 1 && k > steps-3 {
			op = 4
		}
		what := ""
		switch op {
		case 0, 1, 2:
			what = edit(x.v)
			for n := ops(4); n > 0; n-- {
				what += ", " + edit(x.v)
			}
			if len(fam) > 1 {
				edits++
			}
		case 3:
			what = "append and relink"
			r.call("append", func() {
				switch v := x.v.(type) {
				case *mpd.MPD:
					v.AppendPeriod(mpd.NewPeriod())
					v.SetParents()
				case *mpd.Period:
					v.AppendAdaptationSet(mpd.NewAdaptationSet())
					v.SetParents()
				case *mpd.AdaptationSetType:
					v.AppendRepresentation(mpd.NewRepresentation())
					v.SetParents()
				}
			})
			edits++
		case 4, 5:
			src := x.v
			if mm, ok := src.(*mpd.MPD); ok && len(mm.Periods) > 0 && ops(3) == 2 {
				src = mm.Periods[ops(len(mm.Periods))]
			}
			if pp, ok := src.(*mpd.Period); ok && len(pp.AdaptationSets) > 0 && ops(2) == 1 {
				src = pp.AdaptationSets[ops(len(pp.AdaptationSets))]
			}
			var c any
			r.call("Clone", func() {
				switch v := src.(type) {
				case *mpd.MPD:
					c = mpd.Clone(v)
				case *mpd.Period:
					pc := v.Clone()
					c = pc
					if pc.Parent() != nil {
						r.fail("links", "Period", "the clone of a Period has a parent that does not contain it")
					}
				case *mpd.AdaptationSetType:
					ac := v.Clone()
					c = ac
					if ac.Parent() != nil {
						r.fail("links", "AdaptationSet", "the clone of an AdaptationSet has a parent that does not contain it")
					}
				}
			})
			name := fmt.Sprintf("%T clone of %s", src, x.name)
			what = name
			if a, b := exportedOf(src), exportedOf(c); a != b {
				r.fail("unequal", fmt.Sprintf("%T", src), "a clone differs from its original: %s", diffAt(b, a))
			}
			if s := badLinks(c); s != "" {
				r.fail("links", fmt.Sprintf("%T", src), "in a clone, the parent link of %s does not lead to what contains it", s)
			}
			if a, b := str(src), str(c); a != b {
				r.fail("unequal", "written", "a clone is written differently: %s", diffAt(b, a))
			}
			po, pc := map[uintptr]string{}, map[uintptr]string{}
			pointersOf(src, po)
			pointersOf(c, pc)
			for p, path := range pc {
				if o, ok := po[p]; ok {
					r.fail("shared", path, "a clone shares memory with its original: %s is %s", path, o)
				}
			}
			f := &famMember{v: c, name: name}
			f.snap = snapshot(c)
			fam = append(fam, f)
		case 6:
			what = "relink"
			r.call("SetParents", func() {
				switch v := x.v.(type) {
				case *mpd.MPD:
					v.SetParents()
				case *mpd.Period:
					v.SetParents()
				case *mpd.AdaptationSetType:
					v.SetParents()
				}
			})
		case 7:
			what = "write"
			r.record(str(x.v))
		}
		r.ev(fmt.Sprintf("step-%d", op), "%s: %s", x.name, what)
		if op <= 3 || op == 6 {
			x.snap = snapshot(x.v)
		}
		for _, o := range fam {
			if now := snapshot(o.v); now != o.snap {
				r.fail("leak", what2(op), "%s (%s) changed %s: %s", what, x.name, o.name, diffAt(now, o.snap))
			}
		}
	}
	r.Trivial = edits == 0
}

func what2(op int) string {
	return []string{"edit", "edit", "edit", "append", "clone", "clone", "relink", "write"}[op]
}
