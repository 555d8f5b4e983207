package dst

import (
	"fmt"
	"os"
	"strings"

	"dashsim/simrt"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&Scenario{
		ID: "P03", Race: true, Quick: 10000, Thorough: 300000, Run: runP03, MeasureIL: true,
		Faults: []string{"write-error", "short-write", "write-panic", "write-error-after-full", "stalled-destination", "cold-start", "pool-reorders", "pool-never-reuses", "illegal-token", "document-abandoned", "encoder-leaked", "released-unflushed", "unencodable-value", "reentrant-destination", "destination-waits-for-another"},
		Rule: "Each run draws 2-4 tasks with 1-3 uses of the writing side each (as in P02, different documents), establishes each outcome alone in a fresh library, restarts the library (2 of 3 runs) and runs the tasks under a drawn preemptive schedule (a switch at any statement, mean run length 3 to 1000 statements, or only at destination calls), with stalling and failing destinations and drawn pool behaviour, in a race-detecting build. 1 in 150 runs repeats 1-3 uses up to thousands of times in 1-3 tasks. " +
			"Every destination must hold exactly the outcome it has alone. Distinct by interleaving hash; trivial if no task was preempted.",
		Real:   []string{"mpd (all writers)", "xml encoder (all)", "Go race detector"},
		Stub:   []string{"goroutine scheduler (statement-level)", "destinations (io.Writer)", "sync.Pool, sync.Map, sync.Mutex, sync.Once", "process restart", "user marshalers"},
		Assume: []string{"preemption at statement granularity; the race detector covers interference below it"},
	})
	register(&Scenario{
		ID: "P04", Race: true, Quick: 10000, Thorough: 300000, Run: runP04, MeasureIL: true,
		Faults: []string{"cold-start", "reader-error", "unmarshaler-misbehaves", "bit-flip", "span-lost", "span-duplicated", "span-moved", "splice", "byte-replaced", "bogus-token", "cut", "zeroed-block", "value-damaged", "slow-reader", "pool-reorders", "pool-never-reuses", "reentrant", "waits-for-another"},
		Rule:   "Each run draws 2-4 tasks with 1-3 parses each (manifests through every reading function, plans of P06 on any text, damaged text, misbehaving unmarshalers, reader errors, writes in between), establishes each result alone in a fresh library, restarts it (3 of 4 runs: the concurrent parses are the first use) and runs the tasks under a drawn preemptive schedule in a race-detecting build. 1 in 150 runs repeats 1-3 parses up to thousands of times in 1-3 tasks. Distinct by interleaving hash; trivial if no task was preempted.",
		Real:   []string{"mpd (all readers)", "xml decoder (all)", "Go race detector"},
		Stub:   []string{"goroutine scheduler (statement-level)", "byte sources", "sync.Map, sync.Mutex, sync.Once, sync.Pool", "process restart", "user unmarshalers"},
		Assume: []string{"preemption at statement granularity; the race detector covers interference below it"},
	})
	register(&Scenario{
		ID: "P05", Race: true, Quick: 10000, Thorough: 300000, Run: runP05, MeasureIL: true,
		Faults: []string{"cold-start", "write-error", "short-write", "write-panic", "write-error-after-full", "pool-reorders", "pool-never-reuses", "reentrant", "waits-for-another"},
		Rule:   "Each run shares one MPD (parsed from a generated, mutated or real manifest, or built by the API and linked) between 2-4 tasks that write it or a Period, clone parts of it and call every read accessor, establishes each result alone, and runs them under a drawn preemptive schedule in a race-detecting build; afterwards the shared MPD must be unchanged down to nil-ness and links. Distinct by interleaving hash; trivial if no task was preempted.",
		Real:   []string{"mpd (writers, clones, accessors)", "xml encoder", "go-deepcopy", "Go race detector"},
		Stub:   []string{"goroutine scheduler (statement-level)", "destinations", "sync.Map, sync.Mutex, sync.Once, sync.Pool", "process restart"},
		Assume: []string{"preemption at statement granularity; the race detector covers interference below it"},
	})
}

// concurrently draws a schedule and runs the tasks under it.
func concurrently(r *Run, fs []func()) {
	mean := []uint32{40, 3, 10, 200, 1000, 0}[ops(6)]
	p := []uint32{2, 1, 4, 16}[ops(4)]
	simrt.SetSchedule(mean, p)
	r.ev("schedule", "mean run %d statements, 1/%d at callbacks, %d tasks", mean, p, len(fs))
	before := simrt.Switches()
	simrt.SetBudget(simrt.Steps() + r.budget*int64(len(fs)))
	ps := simrt.RunTasks(fs)
	simrt.SetBudget(1 << 40)
	r.Join()
	for _, tp := range ps {
		switch x := tp.Value.(type) {
		case *Violation, *HarnessError:
			panic(x)
		case simrt.DeadlockError:
			r.fail("deadlock", "tasks", "task %d: %v", tp.Task, x)
		case simrt.StepBudgetError:
			r.fail("nontermination", "tasks", "task %d: %v", tp.Task, x)
		default:
			if LibraryFrame(tp.Stack) {
				r.fail("panic", "task", "task %d: panic: %v\n%s", tp.Task, x, trimStack(tp.Stack))
			}
			r.fail("unexpected", "task", "task %d: what was read or written is not as expected, panic: %v\n%s", tp.Task, x, trimStack(tp.Stack))
		}
	}
	if simrt.Switches()-before < int64(len(fs)) {
		r.Trivial = true
	}
}

func drawPoolMode(r *Run) {
	m := uint32(ops(3))
	simrt.SetPoolMode(m)
	switch m {
	case 1:
		r.fault("pool-reorders")
	case 2:
		r.fault("pool-never-reuses")
	}
}

func fresh() {
	simrt.Restart()
	simrt.PurgePools()
	simrt.SetPoolMode(0)
}

// p03item is one use of the writing side with its outcome alone.
type p03item struct {
	j     *job
	ref   string
	st    *jobState
	inner *p03item // done inside a call of its destination
	id    int
}

func drawP03Item(r *Run, what string, o jobOpts) *p03item {
	it := &p03item{j: drawJob(r, o)}
	fresh()
	s := it.j.start(r).run()
	it.ref = s.outcome()
	if s.w.fired {
		r.fault(wModeNames[it.j.mode])
	}
	r.record(it.ref)
	r.note(it.j.name + "/" + it.j.what)
	r.ev("reference", "%s: %s of %s: %s", what, it.j.name, it.j.what, s.short())
	return it
}

// start prepares the item; its destination does the inner one itself.
func (it *p03item) start(r *Run) {
	it.st = it.j.start(r)
	if in := it.inner; in != nil {
		in.start(r)
		it.st.w.hk = &hook{at: 1, f: func() { in.st.run() }}
	}
}

func (it *p03item) check(r *Run, where string) {
	if it.inner != nil && it.inner.st.next > 0 {
		it.inner.check(r, where+", inside the destination's Write")
	}
	if got := it.st.outcome(); got != it.ref {
		r.fail("isolation", it.j.name+"/"+it.j.what, "%s (%s of %s) gave another result than alone: %s", where, it.j.name, it.j.what, diffAt(got, it.ref))
	}
	if it.st.w.late > 0 {
		r.fail("late", it.j.name, "%s: the destination was written to after the end of that use", where)
	}
	for _, kb := range it.st.keep {
		if string(kb.b) != kb.s {
			r.fail("returned-bytes", it.j.name, "%s: bytes returned changed later: %s", where, diffAt(string(kb.b), kb.s))
		}
	}
}

// chainP03: many writes in progress at once, each begun inside the Write of the one
// before.
func chainP03(r *Run) {
	n := 2 + ops(8)
	if ops(3) == 2 {
		n = 2 + ops(40)
	}
	var its []*p03item
	for i := 0; i < n; i++ {
		if i >= 6 {
			its = append(its, &p03item{j: its[i%6].j, ref: its[i%6].ref})
			continue
		}
		its = append(its, drawP03Item(r, fmt.Sprintf("link %d", i), jobOpts{bad: ops(4) == 3, small: true}))
	}
	for i := 0; i+1 < n; i++ {
		its[i].inner = its[i+1]
	}
	fresh()
	drawPoolMode(r)
	r.faultN("reentrant-destination", int64(n-1))
	r.ev("chain", "%d writes inside each other", n)
	its[0].start(r)
	its[0].st.run()
	its[0].check(r, "chain")
}

// longTurns is how often a long history repeats operations on size bytes that took
// the given number of statements.
func longTurns(size int, steps int64) int {
	return int(min(8<<ops(11), 1+2_000_000/int64(200+size), 1+10_000_000/(1000+steps)))
}

// longP03: a process that has served many uses, most of them alike, before and
// while other uses are served.
func longP03(r *Run) {
	var its []*p03item
	size, steps := 0, simrt.Steps()
	for k := 1 + ops(3); k > 0; k-- {
		it := drawP03Item(r, "kind", jobOpts{bad: ops(3) > 0, small: true})
		size += len(it.ref)
		its = append(its, it)
	}
	steps = simrt.Steps() - steps
	fresh()
	drawPoolMode(r)
	n := longTurns(size, steps)
	r.probe("long-history")
	r.ev("long", "%d times %d uses", n, len(its))
	var fs []func()
	for t := 1 + ops(3); t > 0; t-- {
		tr := r.Task()
		fs = append(fs, func() {
			for i := 0; i < n; i++ {
				it := &p03item{j: its[i%len(its)].j, ref: its[i%len(its)].ref}
				it.start(tr)
				it.st.run()
				it.check(tr, fmt.Sprintf("use %d", i))
			}
		})
	}
	concurrently(r, fs)
}

func runP03(r *Run) {
	switch ops(25) {
	case 24:
		chainP03(r)
		return
	case 23:
		if ops(6) == 0 {
			longP03(r)
			return
		}
	}
	nt := 2 + ops(3)
	tasks := make([][]*p03item, nt)
	n := 0
	for t := range tasks {
		for k := 1 + ops(3); k > 0; k-- {
			it := drawP03Item(r, fmt.Sprintf("task %d", t), jobOpts{bad: ops(2) == 1, small: ops(4) > 0})
			n++
			it.id = n
			if flt(8) == 7 {
				it.inner = drawP03Item(r, fmt.Sprintf("inside task %d", t), jobOpts{bad: ops(2) == 1, small: true})
				r.fault("reentrant-destination")
			}
			tasks[t] = append(tasks[t], it)
		}
	}
	if ops(3) > 0 {
		r.fault("cold-start")
		fresh()
	}
	drawPoolMode(r)
	var fs []func()
	for t := range tasks {
		tr := r.Task()
		its := tasks[t]
		for _, it := range its {
			it.start(tr)
			switch flt(8) {
			case 6, 7:
				it.st.w.stall = flt(8)
				r.fault("stalled-destination")
			case 5:
				if t+1 < len(tasks) {
					on := tasks[t+1+flt(len(tasks)-t-1)]
					h := it.st.w.hk
					if h == nil {
						h = &hook{at: 1 + flt(2)}
						it.st.w.hk = h
					}
					h.wait = on[flt(len(on))].id
					r.fault("destination-waits-for-another")
				}
			}
		}
		fs = append(fs, func() {
			for _, it := range its {
				it.st.run()
				simrt.SetFlag(it.id)
			}
		})
	}
	concurrently(r, fs)
	for t := range tasks {
		for i, it := range tasks[t] {
			it.check(r, fmt.Sprintf("task %d, use %d", t, i))
		}
	}
}

// readOp is one parse whose choices are all made beforehand.
type readOp struct {
	name string
	f    func(r *Run) string
	ref  string
	got  string
	hk   *hook // lets the source or destination act, once armed
	id   int
	in   *readOp
	done bool
}

var nFiles int

func drawReadOp(r *Run) *readOp {
	switch ops(6) {
	case 0, 1:
		doc := source(r)
		if flt(4) == 3 {
			doc = corrupt(r, doc, []string{doc})
		}
		i := ops(4)
		file := ""
		if i == 2 {
			file = scratchFile("shared.mpd")
			if ops(2) == 0 {
				nFiles++
				file = scratchFile(fmt.Sprintf("own%d.mpd", nFiles%16))
			} else {
				doc = mpds[0].text
			}
		}
		if file != "" {
			if e := os.WriteFile(file, []byte(doc), 0o644); e != nil {
				harness("%v", e)
			}
		}
		return &readOp{name: readNames[i], f: func(r *Run) string {
			var m *mpd.MPD
			var err error
			r.call(readNames[i], func() {
				switch i {
				case 0:
					m, err = mpd.MPDFromBytes([]byte(doc))
				case 1:
					m, err = mpd.ReadFromString(doc)
				case 2:
					m, err = mpd.ReadFromFile(file)
				case 3:
					m = new(mpd.MPD)
					err = xml.Unmarshal([]byte(doc), m)
				}
			})
			s := snapshot(m) + errStr(err)
			if m != nil && err == nil {
				s += accessors(r, m)
			}
			return s
		}}
	case 2, 3:
		return drawPlanOp(r)
	case 4:
		doc := badCallbacks(r)
		r.fault("unmarshaler-misbehaves")
		p := plan{kind: rdDecode, target: 4, pos: true}
		return &readOp{name: "callbacks", f: func(r *Run) string {
			return p.perform(r, xml.NewDecoder(strings.NewReader(doc)))
		}}
	}
	j := drawJob(r, jobOpts{small: true})
	return &readOp{name: "write " + j.name, f: func(r *Run) string { return j.start(r).run().outcome() }}
}

// drawPlanOp draws a parse from a reader.
func drawPlanOp(r *Run) *readOp {
	doc, kind := anyText(r, ops(2) == 1)
	if flt(4) == 3 {
		doc = corrupt(r, doc, []string{doc})
	}
	if len(doc) > 20000 {
		doc = doc[:20000]
	}
	p := drawPlan(kind)
	max, empties, eofWith, br := style(40), style(4) == 3, style(2) == 1, style(4) == 3
	var end error
	if fltP(1, 8) {
		end = drawReadError(r)
		r.fault("reader-error")
	}
	r.fault("slow-reader")
	hk := &hook{}
	return &readOp{name: p.String(), hk: hk, f: func(r *Run) string {
		s := fixedReader{data: doc, max: max, empties: empties, eofWith: eofWith, end: end, hk: hk}
		if br {
			return p.perform(r, xml.NewDecoder(&fixedByteReader{s}))
		}
		return p.perform(r, xml.NewDecoder(&s))
	}}
}

// fixedReader delivers data in pieces without drawing (tasks share the streams
// of choices, so what a reader does must not depend on the schedule).
type fixedReader struct {
	data    string
	off     int
	max     int
	n       int
	empties bool
	eofWith bool
	end     error
	hk      *hook
}

func (s *fixedReader) fin() error {
	if s.end != nil {
		return s.end
	}
	return eof
}

func (s *fixedReader) Read(p []byte) (int, error) {
	simrt.Point(130)
	s.n++
	s.hk.fire(s.n)
	if s.empties && s.n%5 == 2 {
		return 0, nil
	}
	if s.off == len(s.data) {
		return 0, s.fin()
	}
	n := len(p)
	if s.max > 0 && n > 1+s.n*7%s.max {
		n = 1 + s.n*7%s.max
	}
	n = copy(p[:n], s.data[s.off:])
	s.off += n
	if s.eofWith && s.off == len(s.data) {
		return n, s.fin()
	}
	return n, nil
}

type fixedByteReader struct{ fixedReader }

func (s *fixedByteReader) ReadByte() (byte, error) {
	if s.n++; s.n%16 == 0 {
		simrt.Point(131)
	}
	s.hk.fire(s.n)
	if s.off == len(s.data) {
		return 0, s.fin()
	}
	b := s.data[s.off]
	s.off++
	return b, nil
}

func runOps(r *Run, tasks [][]*readOp, cold bool) {
	var all []*readOp
	for t := range tasks {
		for _, op := range tasks[t] {
			for o := op; o != nil; o = o.in {
				fresh()
				o.ref = o.f(r)
				r.record(o.ref)
				r.note(o.name)
				r.ev("reference", "task %d: %s: %s", t, o.name, clip(o.ref))
			}
			all = append(all, op)
			op.id = len(all)
		}
	}
	for t := range tasks {
		for _, op := range tasks[t] {
			if op.hk == nil {
				continue
			}
			*op.hk = hook{at: 1 + flt(3)}
			if op.in != nil {
				r.fault("reentrant")
			}
			if flt(5) == 4 && t+1 < len(tasks) {
				on := tasks[t+1+flt(len(tasks)-t-1)]
				op.hk.wait = on[flt(len(on))].id
				r.fault("waits-for-another")
			}
		}
	}
	if cold {
		r.fault("cold-start")
		fresh()
	}
	drawPoolMode(r)
	var fs []func()
	for t := range tasks {
		tr := r.Task()
		os := tasks[t]
		for _, op := range os {
			if in := op.in; in != nil && op.hk != nil {
				op.hk.f = func() { in.got, in.done = in.f(tr), true }
			}
		}
		fs = append(fs, func() {
			for _, op := range os {
				op.got = op.f(tr)
				simrt.SetFlag(op.id)
			}
		})
	}
	concurrently(r, fs)
	for t := range tasks {
		for i, op := range tasks[t] {
			if op.got != op.ref {
				r.fail("isolation", op.name, "task %d, operation %d (%s) gave another result than alone: %s", t, i, op.name, diffAt(op.got, op.ref))
			}
			if op.in != nil && op.in.done && op.in.got != op.in.ref {
				r.fail("isolation", op.in.name, "%s, done from inside operation %d of task %d (%s), gave another result than alone: %s", op.in.name, i, t, op.name, diffAt(op.in.got, op.in.ref))
			}
		}
	}
}

func runP04(r *Run) {
	nFiles = 0
	switch ops(25) {
	case 24:
		chainP04(r)
		return
	case 23:
		if ops(6) == 0 {
			longP04(r)
			return
		}
	}
	tasks := make([][]*readOp, 2+ops(3))
	same := ops(5) == 4
	for t := range tasks {
		for k := 1 + ops(3); k > 0; k-- {
			if same && t > 0 {
				tasks[0][0].hk = nil // its source is shared, and stays plain
				o := *tasks[0][0]
				tasks[t] = append(tasks[t], &o)
				continue
			}
			tasks[t] = append(tasks[t], drawReadOp(r))
		}
	}
	if !same {
		for t := range tasks {
			for _, op := range tasks[t] {
				if op.hk != nil && flt(6) == 5 {
					op.in = drawReadOp(r)
				}
			}
		}
	}
	runOps(r, tasks, ops(4) > 0)
}

// longP04: a process that has parsed many documents, most of them alike, while it
// goes on parsing.
func longP04(r *Run) {
	var os []*readOp
	size, steps := 0, simrt.Steps()
	for k := 1 + ops(3); k > 0; k-- {
		op := drawReadOp(r)
		op.hk = nil
		fresh()
		op.ref = op.f(r)
		r.record(op.ref)
		r.note(op.name)
		r.ev("reference", "%s: %s", op.name, clip(op.ref))
		size += len(op.ref)
		os = append(os, op)
	}
	steps = simrt.Steps() - steps
	fresh()
	drawPoolMode(r)
	n := longTurns(size, steps)
	r.probe("long-history")
	r.ev("long", "%d times %d parses", n, len(os))
	var fs []func()
	for t := 1 + ops(3); t > 0; t-- {
		tr := r.Task()
		fs = append(fs, func() {
			for i := 0; i < n; i++ {
				op := os[i%len(os)]
				if got := op.f(tr); got != op.ref {
					tr.fail("isolation", op.name, "parse %d (%s) gave another result than alone: %s", i, op.name, diffAt(got, op.ref))
				}
			}
		})
	}
	concurrently(r, fs)
}

// chainP04: many parses in progress at once, each begun inside a Read of the one
// before.
func chainP04(r *Run) {
	n := 2 + ops(8)
	if ops(3) == 2 {
		n = 2 + ops(40)
	}
	var chain []*readOp
	for len(chain) < n {
		i := len(chain)
		op := drawPlanOp(r)
		fresh()
		op.ref = op.f(r)
		r.record(op.ref)
		r.note(op.name)
		chain = append(chain, op)
		if i > 0 {
			chain[i-1].in = op
		}
	}
	for i, op := range chain {
		*op.hk = hook{at: 1}
		if i+1 < n {
			in := chain[i+1]
			op.hk.f = func() { in.got, in.done = in.f(r), true }
		}
	}
	fresh()
	drawPoolMode(r)
	r.faultN("reentrant", int64(n-1))
	r.ev("chain", "%d parses inside each other", n)
	chain[0].got, chain[0].done = chain[0].f(r), true
	for i, op := range chain {
		if op.done && op.got != op.ref {
			r.fail("isolation", op.name, "parse %d of %d inside each other gave another result than alone: %s", i, n, diffAt(op.got, op.ref))
		}
	}
}

// drawSharedOp draws a read-only use of m.
func drawSharedOp(r *Run, m *mpd.MPD) *readOp {
	indent := drawIndent()
	mode, at := wOK, 0
	var p *mpd.Period
	var a *mpd.AdaptationSetType
	if len(m.Periods) > 0 {
		p = m.Periods[ops(len(m.Periods))]
		if p != nil && len(p.AdaptationSets) > 0 {
			a = p.AdaptationSets[ops(len(p.AdaptationSets))]
		}
	}
	if flt(4) == 3 {
		mode, at = wMode(1+flt(int(wModes)-1)), flt(400)
		r.fault(wModeNames[mode])
	}
	hk := &hook{}
	var errv error
	if mode != wOK {
		errv = drawWriteError(r)
	}
	dest := func(r *Run, f func(w *simWriter) (int, error)) string {
		w := &simWriter{r: r, mode: mode, at: at, hk: hk, errv: errv}
		var n int
		var err error
		ep := r.call("write", func() { n, err = f(w) })
		return fmt.Sprintf("%d %v %v %q", n, errStr(err), ep, w.buf)
	}
	k := ops(10)
	switch {
	case k == 0:
		return &readOp{name: "MPD.Write", hk: hk, f: func(r *Run) string {
			return dest(r, func(w *simWriter) (int, error) { return m.Write(w, indent, true) })
		}}
	case k == 1:
		return &readOp{name: "MPD.WriteToString", f: func(r *Run) (s string) {
			r.call("WriteToString", func() { s, _ = m.WriteToString(indent, false) })
			return
		}}
	case k == 2 && p != nil:
		return &readOp{name: "Period.Write", hk: hk, f: func(r *Run) string {
			return dest(r, func(w *simWriter) (int, error) { return p.Write(w, indent) })
		}}
	case k == 3 && p != nil:
		return &readOp{name: "Period.WriteToString", f: func(r *Run) (s string) {
			r.call("WriteToString", func() { s, _ = p.WriteToString(indent) })
			return
		}}
	case k == 4:
		return &readOp{name: "Marshal", f: func(r *Run) (s string) {
			r.call("Marshal", func() {
				b, err := xml.MarshalIndent(m, "", indent)
				s = string(b) + errStr(err)
			})
			return
		}}
	case k == 5:
		return &readOp{name: "Clone", f: func(r *Run) (s string) {
			r.call("Clone", func() { s = snapshot(mpd.Clone(m)) })
			return
		}}
	case k == 6 && p != nil:
		return &readOp{name: "Period.Clone", f: func(r *Run) (s string) {
			r.call("Clone", func() { s = snapshot(p.Clone()) })
			return
		}}
	case k == 7 && a != nil:
		return &readOp{name: "AdaptationSet.Clone", f: func(r *Run) (s string) {
			r.call("Clone", func() { s = snapshot(a.Clone()) })
			return
		}}
	}
	return &readOp{name: "accessors", f: func(r *Run) string { return accessors(r, m) }}
}

func runP05(r *Run) {
	var m *mpd.MPD
	if ops(3) == 2 {
		g := newGen()
		if g.modest = true; opsP(1, 50) {
			g.big = 2
			r.probe("long-list")
		}
		m, _ = g.genMPD()
		if ops(3) > 0 {
			m.SetParents()
		}
	} else {
		doc := source(r)
		var err error
		m, err = readMPD(r, ops(2), []byte(doc))
		if err != nil {
			r.ev("rejected", "")
			r.Trivial = true
			return
		}
	}
	before := snapshot(m)
	r.record(before)
	tasks := make([][]*readOp, 2+ops(3))
	for t := range tasks {
		for k := 1 + ops(3); k > 0; k-- {
			op := drawSharedOp(r, m)
			if op.hk != nil && flt(4) == 3 {
				op.in = drawSharedOp(r, m)
			}
			tasks[t] = append(tasks[t], op)
		}
	}
	for t := range tasks { // alone first: one at a time
		for _, op := range tasks[t] {
			op.f(r)
			if now := snapshot(m); now != before {
				r.fail("changed", op.name, "%s changed the MPD: %s", op.name, diffAt(now, before))
			}
		}
	}
	runOps(r, tasks, ops(3) > 0)
	if now := snapshot(m); now != before {
		r.fail("changed", "concurrent", "concurrent reading changed the MPD: %s", diffAt(now, before))
	}
}
