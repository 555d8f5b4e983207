// Package dst holds the simulated worlds: the workload generators, the faulty
// environments (readers, writers, files, clocks, links, user callbacks), the
// reference models and the oracles, one scenario per property.
package dst

import (
	"fmt"
	"runtime"
	"strings"

	"dashsim/simrt"
)

// Violation is what an oracle throws when the property is broken.
type Violation struct {
	Class string // kind of breakage
	Key   string // what exactly broke, stable under shrinking
	Msg   string
}

func (v *Violation) Error() string { return v.Class + " [" + v.Key + "]: " + v.Msg }

// HarnessError marks trouble of the machinery itself (never a verdict).
type HarnessError struct{ Msg string }

func (e *HarnessError) Error() string { return "harness: " + e.Msg }

// Run is the context of one simulated run, or of one task inside it.
type Run struct {
	Faults   map[string]int64
	Probes   map[string]int64
	log      []string
	Trace    bool
	h        uint64
	shape    uint64
	SimNanos int64
	Trivial  bool
	parent   *Run
	kids     []*Run
	budget   int64
	known    func(class, key string) bool
	KnownHit map[string]bool
}

const fnvOff, fnvPrime = 14695981039346656037, 1099511628211

func NewRun(trace bool) *Run {
	return &Run{Faults: map[string]int64{}, Probes: map[string]int64{}, Trace: trace, h: fnvOff, shape: fnvOff, budget: 60_000_000}
}

// Task makes a private context for one concurrent task; merged by Join.
func (r *Run) Task() *Run {
	t := NewRun(r.Trace)
	t.budget = r.budget
	t.parent = r
	r.kids = append(r.kids, t)
	return t
}

// Join merges the tasks' contexts in task order.
func (r *Run) Join() {
	for i, k := range r.kids {
		for n, c := range k.Faults {
			r.Faults[n] += c
		}
		for n, c := range k.Probes {
			r.Probes[n] += c
		}
		r.mix(&r.h, k.h)
		r.mix(&r.shape, k.shape)
		for _, l := range k.log {
			r.log = append(r.log, fmt.Sprintf("task %d: %s", i, l))
		}
	}
	r.kids = nil
}

func (r *Run) mix(h *uint64, v uint64) {
	for i := 0; i < 8; i++ {
		*h = (*h ^ (v & 255)) * fnvPrime
		v >>= 8
	}
}

func hashStr(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * fnvPrime
	}
	return (h ^ 0xff) * fnvPrime
}

func (r *Run) HashV() uint64  { return r.h }
func (r *Run) ShapeV() uint64 { return r.shape }
func (r *Run) Log() []string  { return r.log }
func (r *Run) fault(k string) { r.Faults[k]++; r.shape = hashStr(r.shape, k) }
func (r *Run) faultN(k string, n int64) {
	if n > 0 {
		r.Faults[k] += n
		r.shape = hashStr(r.shape, k)
	}
}
func (r *Run) probe(k string)   { r.Probes[k]++ }
func (r *Run) note(s string)    { r.shape = hashStr(r.shape, s) }
func (r *Run) record(s string)  { r.h = hashStr(r.h, s) }
func (r *Run) recordB(b []byte) { r.h = hashStr(r.h, string(b)) }

// logf records an event of the history. It never draws.
func (r *Run) logf(f string, a ...any) {
	if !r.Trace {
		return
	}
	s := fmt.Sprintf(f, a...)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	r.log = append(r.log, s)
}

// ev records an event kind for the history hash and the trace.
func (r *Run) ev(kind string, f string, a ...any) {
	r.h = hashStr(r.h, kind)
	r.shape = hashStr(r.shape, kind)
	if r.Trace {
		r.logf(kind+" "+f, a...)
	}
}

func (r *Run) fail(class, key, f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	if len(m) > 6000 {
		m = m[:6000] + "..."
	}
	panic(&Violation{class, key, m})
}

func harness(f string, a ...any) { panic(&HarnessError{fmt.Sprintf(f, a...)}) }

// ---- choices (0 is always the simplest) ----

func ops(n int) int   { return int(simrt.Draw(simrt.SOps, uint32(n))) }
func flt(n int) int   { return int(simrt.Draw(simrt.SFault, uint32(n))) }
func style(n int) int { return int(simrt.Draw(simrt.SStyle, uint32(n))) }

// opsP is true with probability num/den; the simplest choice is false.
func opsP(num, den int) bool   { return ops(den) >= den-num }
func fltP(num, den int) bool   { return flt(den) >= den-num }
func styleP(num, den int) bool { return style(den) >= den-num }

func pick[T any](xs []T) T { return xs[ops(len(xs))] }

// ---- calling the code under test ----

// envPanic is thrown by simulated environment callbacks (never by the library).
type envPanic struct{ tag string }

// call runs f under a statement budget. A panic is a violation unless it was
// thrown by the simulated environment, in which case it is returned.
func (r *Run) call(what string, f func()) (ep *envPanic) {
	if simrt.CurTask() < 0 {
		simrt.SetBudget(simrt.Steps() + r.budget)
		defer simrt.SetBudget(1 << 40)
	}
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		switch x := x.(type) {
		case *Violation, *HarnessError:
			panic(x)
		case *envPanic:
			ep = x
		case simrt.StepBudgetError:
			r.fail("nontermination", what, "no result within %d statements", r.budget)
		case simrt.DeadlockError:
			r.fail("deadlock", what, "%v", x)
		default:
			st := Stack()
			if !LibraryFrame(st) {
				panic(x)
			}
			r.fail("panic", what, "panic: %v\n%s", x, trimStack(st))
		}
	}()
	f()
	return nil
}

func Stack() string {
	buf := make([]byte, 1<<14)
	return string(buf[:runtime.Stack(buf, false)])
}

// LibraryFrame reports whether the innermost frame below the panic that belongs
// to either the harness or the library belongs to the library.
func LibraryFrame(st string) bool {
	i := strings.LastIndex(st, "panic(")
	if i < 0 {
		i = 0
	}
	for _, l := range strings.Split(st[i:], "\n") {
		switch {
		case strings.HasPrefix(l, "github.com/Eyevinn/dash-mpd"), strings.HasPrefix(l, "github.com/barkimedes"):
			return true
		case strings.HasPrefix(l, "dashsim/simrt"):
		case strings.HasPrefix(l, "dashsim/"):
			return false
		}
	}
	return false
}

func trimStack(st string) string {
	i := strings.LastIndex(st, "panic(")
	if i < 0 {
		i = 0
	}
	st = st[i:]
	if len(st) > 1500 {
		st = st[:1500]
	}
	return st
}

// ---- scenarios ----

type Scenario struct {
	ID              string
	Race            bool
	Quick, Thorough int
	Run             func(r *Run)
	Faults          []string // fault kinds the scenario can inject
	Real, Stub      []string
	Rule            string
	Assume          []string
	MeasureIL       bool         // interleavings count
	Fixed           func(r *Run) // deterministic demonstrations (known findings), run once
}

var Scenarios = map[string]*Scenario{}

func register(s *Scenario) { Scenarios[s.ID] = s }

func errStr(err error) string {
	if err == nil {
		return "<nil>"
	}
	return err.Error()
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:300] + "…" + s[len(s)-300:]
	}
	return s
}

// diffAt shows where two strings first differ.
func diffAt(a, b string) string {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	i := 0
	for i < n && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 90
		if hi > len(s) {
			hi = len(s)
		}
		if lo > len(s) {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("lengths %d and %d, first difference at %d: %q versus %q", len(a), len(b), i, cut(a), cut(b))
}
