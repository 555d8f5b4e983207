package dst

import (
	"fmt"

	"dashsim/simrt"
)

func init() {
	register(&Scenario{
		ID: "P02", Quick: 50000, Thorough: 500000, Run: runP02,
		Faults: []string{"write-error", "short-write", "write-panic", "write-error-after-full", "pool-purge", "node-restart", "illegal-token", "document-abandoned", "encoder-leaked", "released-unflushed", "unencodable-value", "interleaved", "pool-never-reuses", "pool-reorders"},
		Rule: "Each run draws 3-6 uses of the writing side (values of the mpd package, generic trees with namespaces, values with good and misbehaving marshalers, token sequences, through every writing function and through own, pooled, abandoned and leaked encoders, with failing destinations), establishes the outcome of each in a freshly restarted library, and then replays them 4-12 times in a drawn, possibly interleaved history with parses, pool purges, restarts and drawn pool behaviour in between; every outcome must equal the fresh one. 1 in 150 histories is long (up to thousands of uses, most of them alike). " +
			"Distinct by event sequence and job kinds; trivial if nothing ran before a compared encoding.",
		Real: []string{"mpd (all writers)", "xml encoder (all)", "xml decoder (as history)"},
		Stub: []string{"destinations (io.Writer)", "sync.Pool", "process restart", "user marshalers"},
	})
}

func runP02(r *Run) {
	type entry struct {
		j   *job
		ref string
	}
	var es []entry
	steps := simrt.Steps()
	for k := 3 + ops(4); k > 0; k-- {
		es = append(es, entry{j: drawJob(r, jobOpts{bad: ops(2) == 1, small: ops(2) == 1})})
	}
	for i := range es {
		simrt.Restart()
		simrt.PurgePools()
		simrt.SetPoolMode(0)
		s := es[i].j.start(r).run()
		es[i].ref = s.outcome()
		r.note(es[i].j.name + "/" + es[i].j.what)
		r.ev("reference", "job %d: %s of %s, destination %s at %d: %s", i, es[i].j.name, es[i].j.what, wModeNames[es[i].j.mode], es[i].j.at, s.short())
		r.record(es[i].ref)
		if s.w.fired {
			r.fault(wModeNames[es[i].j.mode])
		}
	}
	steps = simrt.Steps() - steps
	mode := uint32(ops(3))
	simrt.SetPoolMode(mode)
	switch mode {
	case 1:
		r.fault("pool-reorders")
	case 2:
		r.fault("pool-never-reuses")
	}
	type live struct {
		s *jobState
		i int
	}
	var running []live
	var all []live
	check := func(l live) {
		if got := l.s.outcome(); got != es[l.i].ref {
			r.fail("history", es[l.i].j.name+"/"+es[l.i].j.what, "job %d (%s of %s) gave a different result after this history than in a fresh process: %s", l.i, es[l.i].j.name, es[l.i].j.what, diffAt(got, es[l.i].ref))
		}
	}
	events := 4 + ops(9)
	long := ops(150) == 149
	if long {
		size := 0
		for i := range es {
			size += len(es[i].ref)
		}
		events = longTurns(size, steps)
		r.probe("long-history")
	}
	for events > 0 || len(running) > 0 {
		if events > 0 && (len(running) == 0 || ops(3) > 0) {
			events--
			switch {
			case fltP(1, 8):
				r.fault("pool-purge")
				simrt.PurgePools()
			case !long && fltP(1, 16):
				r.fault("node-restart")
				simrt.Restart()
			case ops(6) == 5:
				noise(r)
			}
			i := ops(len(es))
			if long && ops(4) > 0 {
				i = ops(2) // most of them alike
			}
			l := live{es[i].j.start(r), i}
			all = append(all, l)
			r.ev("start", "job %d", i)
			if len(l.s.j.steps) > 1 && len(running) < 3 && ops(2) == 1 {
				running = append(running, l)
				if len(running) > 1 {
					r.fault("interleaved")
				}
				continue
			}
			l.s.run()
			check(l)
			r.SimNanos += 1_000_000
			continue
		}
		k := ops(len(running))
		l := running[k]
		for n := 1 + ops(6); n > 0 && !l.s.done; n-- {
			l.s.step()
		}
		if l.s.done {
			r.ev("end", "job %d", l.i)
			check(l)
			running = append(running[:k:k], running[k+1:]...)
		}
	}
	for _, l := range all {
		if l.s.w.late > 0 {
			r.fail("late", l.s.j.name, "the destination of job %d was written to after its call returned or its encoder was released", l.i)
		}
		check(l)
		for _, kb := range l.s.keep {
			if string(kb.b) != kb.s {
				r.fail("returned-bytes", l.s.j.name, "bytes returned by job %d changed later: %s", l.i, diffAt(string(kb.b), kb.s))
			}
		}
	}
	r.record(fmt.Sprint(len(all)))
	r.Trivial = len(all) < 2
}
