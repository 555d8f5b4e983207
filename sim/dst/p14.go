package dst

import (
	"fmt"
	"math"
	"time"

	"dashsim/simrt"

	"github.com/Eyevinn/dash-mpd/mpd"
)

func init() {
	register(&Scenario{
		ID: "P14", Quick: 400000, Thorough: 12000000, Run: runP14,
		Faults: []string{"clock-step", "message-loss", "message-duplicate", "message-reorder", "node-restart", "relay-hop", "periods-reordered", "period-held-after-removal"},
		Rule: "Each run drives the life of one presentation (live or on demand) through 8-40 updates by a publisher whose clock may step: periods announced early, inserted, given or deprived of starts and durations, appended, removed, reordered, the manifest turned static or dynamic, minimumUpdatePeriod, mediaPresentationDuration and availabilityStartTime set or dropped, clones, relay hops, restarts, manifests sent to two clients over a link that loses, duplicates and reorders. After each step every period of every node is asked for start, duration, type and absolute start, and each answer must equal what ISO/IEC 23009-1 5.3.2.1 derives from an independent record of that node's manifest, or be an error where nothing follows. " +
			"Distinct by event sequence; trivial if no manifest ever had a period.",
		Real: []string{"mpd (timeline accessors, append, clone, link functions, readers, writers, time conversion)", "xml"},
		Stub: []string{"clock", "network", "process restart"},
	})
}

type perRec struct{ start, dur *time.Duration }

// timeline is one node's manifest and the independent record of what it states.
type timeline struct {
	m      *mpd.MPD
	recs   []perRec
	static bool
	mup    bool
	mpdDur *time.Duration
	ast    string
	astAt  time.Time
}

func (t *timeline) copyRec() *timeline {
	c := *t
	c.recs = append([]perRec(nil), t.recs...)
	return &c
}

// hop is the record after the manifest has been written and read.
func (t *timeline) hop() *timeline {
	c := t.copyRec()
	round := func(d *time.Duration) *time.Duration {
		if d == nil {
			return nil
		}
		x := roundDur(*d)
		return &x
	}
	for i := range c.recs {
		c.recs[i] = perRec{round(c.recs[i].start), round(c.recs[i].dur)}
	}
	c.mpdDur = round(c.mpdDur)
	return c
}

func mdur(d *time.Duration) *mpd.Duration {
	if d == nil {
		return nil
	}
	x := mpd.Duration(*d)
	return &x
}

// start is PeriodStart as far as the manifest determines it.
func (t *timeline) start(i int) (time.Duration, bool) {
	base := time.Duration(0)
	for ; ; i-- {
		switch {
		case t.recs[i].start != nil:
			return *t.recs[i].start + base, true
		case i == 0:
			return base, t.static
		case t.recs[i-1].dur == nil:
			return 0, false
		}
		base += *t.recs[i-1].dur
	}
}

type known int

const (
	knowNot    known = iota // must be an error
	knowValue               // must be the value
	knowEither              // the value or an error
	knowSkip                // not specified
)

func (t *timeline) duration(i int) (time.Duration, known) {
	if d := t.recs[i].dur; d != nil {
		return *d, knowValue
	}
	s, ok := t.start(i)
	if !ok {
		return 0, knowNot
	}
	diff := func(end time.Duration, k known) (time.Duration, known) {
		if end < s {
			return 0, knowSkip
		}
		return end - s, k
	}
	if i < len(t.recs)-1 {
		if n := t.recs[i+1].start; n != nil {
			return diff(*n, knowValue)
		}
		return 0, knowNot
	}
	switch {
	case t.mpdDur == nil:
		return 0, knowNot
	case t.static:
		return diff(*t.mpdDur, knowValue)
	}
	return diff(*t.mpdDur, knowEither)
}

func (t *timeline) ptype(i int) (mpd.PeriodType, bool) {
	p := t.recs[i]
	early := p.dur != nil && (t.mup || i < len(t.recs)-1 && t.recs[i+1].start != nil)
	switch {
	case p.start != nil && early:
		return mpd.PTEarlyTerminated, true
	case p.start != nil:
		return mpd.PTRegular, true
	case i > 0 && t.recs[i-1].dur != nil && early:
		return mpd.PTEarlyTerminated, true
	case i > 0 && t.recs[i-1].dur != nil:
		return mpd.PTRegularOrEarlyTerminated, true
	case !t.static:
		return mpd.PTEarlyAvailable, true
	case i == 0 && early:
		return mpd.PTBad, false // regular or early terminated
	case i == 0:
		return mpd.PTRegular, true
	}
	return mpd.PTBad, false // a static manifest that does not place the period
}

func (t *timeline) check(r *Run, who string) {
	m := t.m
	if len(m.Periods) != len(t.recs) {
		r.fail("periods", "count", "%s has %d periods, not %d", who, len(m.Periods), len(t.recs))
	}
	for i, p := range m.Periods {
		at := fmt.Sprintf("%s, period %d of %d (%s)", who, i, len(t.recs), t.describe())
		var st, du mpd.Duration
		var ty mpd.PeriodType
		var ab float64
		var e1, e2, e3, e4 error
		r.call("timeline", func() {
			st, e1 = p.GetStart()
			du, e2 = p.GetDuration()
			ty, e3 = p.GetType()
			ab, e4 = p.AbsoluteStart(m)
		})
		want, ok := t.start(i)
		switch {
		case ok && e1 != nil:
			r.fail("start", "error", "%s: GetStart says %v, the start is %v", at, e1, want)
		case ok && time.Duration(st) != want:
			r.fail("start", "value", "%s: GetStart says %v, the start is %v", at, time.Duration(st), want)
		case !ok && e1 == nil:
			r.fail("start", "invented", "%s: GetStart says %v, but the manifest does not determine it", at, time.Duration(st))
		}
		wd, k := t.duration(i)
		switch {
		case k == knowValue && e2 != nil:
			r.fail("duration", "error", "%s: GetDuration says %v, the duration is %v", at, e2, wd)
		case (k == knowValue || k == knowEither && e2 == nil) && time.Duration(du) != wd:
			r.fail("duration", "value", "%s: GetDuration says %v, the duration is %v", at, time.Duration(du), wd)
		case k == knowNot && e2 == nil:
			r.fail("duration", "invented", "%s: GetDuration says %v, but the manifest does not determine it", at, time.Duration(du))
		}
		if e3 != nil {
			r.fail("type", "error", "%s: GetType says %v", at, e3)
		}
		if wt, ok := t.ptype(i); ok && ty != wt {
			r.fail("type", "value", "%s: GetType says %d (%v), it is %d (%v)", at, ty, ty, wt, wt)
		}
		if t.ast == "" || !ok {
			if e4 == nil {
				r.fail("absolute", "invented", "%s: AbsoluteStart says %v, but the manifest does not determine it", at, ab)
			}
		} else {
			exact := float64(t.astAt.Unix()) + float64(t.astAt.Nanosecond())/1e9 + float64(want)/1e9
			tol := 4 * (math.Nextafter(math.Abs(exact), math.Inf(1)) - math.Abs(exact))
			if e4 != nil {
				r.fail("absolute", "error", "%s: AbsoluteStart says %v, it is %v", at, e4, exact)
			}
			if math.Abs(ab-exact) > tol+1e-6 {
				r.fail("absolute", "value", "%s: AbsoluteStart says %v, it is %v", at, ab, exact)
			}
		}
		if r.Trace {
			r.logf("  %s: start %v %v duration %v %v type %v absolute %v %v", who, time.Duration(st), e1, time.Duration(du), e2, ty, ab, e4)
		}
		r.record(fmt.Sprint(st, e1, du, e2, ty, ab, e4))
	}
}

// checkGone asks a period that is no longer part of its manifest: it still states
// what it states, and the manifest says nothing else about it.
func (p perRec) checkGone(r *Run, per *mpd.Period, t *timeline) {
	var st, du mpd.Duration
	var e1, e2, e3 error
	r.call("timeline of a removed period", func() {
		st, e1 = per.GetStart()
		du, e2 = per.GetDuration()
		_, e3 = per.GetType()
	})
	switch {
	case p.start != nil && (e1 != nil || time.Duration(st) != *p.start):
		r.fail("removed", "start", "a removed period that states start %v says %v, %v (%s)", *p.start, time.Duration(st), e1, t.describe())
	case p.start == nil && e1 == nil:
		r.fail("removed", "start", "a removed period that states no start says %v (%s)", time.Duration(st), t.describe())
	case p.dur != nil && (e2 != nil || time.Duration(du) != *p.dur):
		r.fail("removed", "duration", "a removed period that states duration %v says %v, %v (%s)", *p.dur, time.Duration(du), e2, t.describe())
	case p.dur == nil && e2 == nil:
		r.fail("removed", "duration", "a removed period that states no duration says %v (%s)", time.Duration(du), t.describe())
	case e3 == nil:
		r.fail("removed", "type", "a removed period has a type (%s)", t.describe())
	}
}

func (t *timeline) describe() string {
	s := "dynamic"
	if t.static {
		s = "static"
	}
	if t.mup {
		s += " mup"
	}
	if t.mpdDur != nil {
		s += fmt.Sprintf(" duration=%v", *t.mpdDur)
	}
	if t.ast != "" {
		s += " ast=" + t.ast
	}
	for _, p := range t.recs {
		s += " ["
		if p.start != nil {
			s += fmt.Sprintf("@%v", *p.start)
		}
		if p.dur != nil {
			s += fmt.Sprintf("+%v", *p.dur)
		}
		s += "]"
	}
	return s
}

// tlDur draws a time on the presentation's scale.
func tlDur() *time.Duration {
	var d time.Duration
	switch ops(7) {
	case 6: // beyond any 32-bit count
		d = time.Duration(1<<31-1+ops(1<<30))*time.Second + time.Duration(ops(1000))*time.Millisecond
	case 0:
		d = time.Duration(1+ops(20)) * time.Second
	case 1:
		d = 0
	case 2:
		d = time.Duration(ops(100_000_000)) * time.Millisecond
	case 3:
		d = time.Duration(ops(2_000_000_000)) * time.Duration(1+ops(5))
	case 4:
		d = time.Duration(ops(1_000_000)) * time.Minute
	case 5:
		d = time.Duration(ops(1500))
	}
	return &d
}

func (t *timeline) setAST(at time.Time) {
	zone := time.UTC
	switch ops(4) {
	case 1:
		zone = time.FixedZone("", (ops(27*4)-13*4)*900)
	case 2:
		at = at.Truncate(time.Second)
	case 3:
		s := mpd.ConvertToDateTimeMS(at.UnixMilli())
		t.ast, t.astAt = string(s), at.Truncate(time.Millisecond)
		t.m.AvailabilityStartTime = s
		return
	}
	t.ast, t.astAt = at.In(zone).Format(time.RFC3339Nano), at
	t.m.AvailabilityStartTime = mpd.DateTime(t.ast)
}

func runP14(r *Run) {
	r.Trivial = true
	clock := time.Unix(1_700_000_000+int64(ops(2))*int64(ops(2_000_000_000)), int64(ops(1000))*1_000_000).UTC()
	t := &timeline{static: ops(2) == 0}
	typ := func() *string {
		s := "dynamic"
		if t.static {
			s = "static"
		}
		return &s
	}
	t.m = mpd.NewMPD(*typ())
	if !t.static {
		t.mup = t.m.MinimumUpdatePeriod != nil
	}
	t.m.AvailabilityStartTime = ""
	t.mpdDur = nil
	t.m.MediaPresentationDuration = nil
	newPeriod := func() (*mpd.Period, perRec) {
		p := mpd.NewPeriod()
		var rec perRec
		if ops(2) == 1 {
			rec.start = tlDur()
		}
		if ops(2) == 1 {
			rec.dur = tlDur()
		}
		p.Start, p.Duration = mdur(rec.start), mdur(rec.dur)
		return p, rec
	}
	var clients [2]*timeline
	type msg struct {
		doc []byte
		rec *timeline
	}
	var wire []msg
	// periods taken out of the presentation that someone still holds
	type goneRec struct {
		p   *mpd.Period
		rec perRec
	}
	var gone []goneRec
	remove := func(i int) {
		gone = append(gone, goneRec{t.m.Periods[i], t.recs[i]})
		t.m.Periods = removeAt(t.m.Periods, i)
		t.recs = removeAt(t.recs, i)
		r.fault("period-held-after-removal")
	}
	checkAll := func() {
		for _, g := range gone {
			g.rec.checkGone(r, g.p, t)
		}
		t.check(r, "publisher")
		if len(t.recs) > 0 {
			r.Trivial = false
		}
		for i, c := range clients {
			if c != nil {
				c.check(r, fmt.Sprintf("client %d", i))
			}
		}
	}
	limit, crowd := 7, 0
	if opsP(1, 1500) { // a long presentation
		crowd = bigLen(3, 6)
		limit = crowd + 7
		r.probe("many-periods")
	}
	for k := 8 + ops(33) + crowd; k > 0; k-- {
		step := time.Duration(1+ops(60)) * time.Second
		clock = clock.Add(step)
		r.SimNanos += int64(step)
		if fltP(1, 12) {
			r.fault("clock-step")
			j := time.Duration(flt(7_200_000)-3_600_000) * time.Millisecond
			clock = clock.Add(j)
		}
		if fltP(1, 30) {
			r.fault("node-restart")
			simrt.Restart()
		}
		n := len(t.recs)
		i := 0
		if n > 0 {
			i = ops(n)
		}
		op := ops(16)
		if crowd > 0 {
			op = 0
			crowd--
		}
		r.ev(fmt.Sprintf("op%d", op), "on period %d at %v", i, clock)
		switch {
		case op == 0 && n < limit:
			p, rec := newPeriod()
			r.call("AppendPeriod", func() { t.m.AppendPeriod(p) })
			t.recs = append(t.recs, rec)
		case op == 1 && n < limit: // announced between others
			p, rec := newPeriod()
			t.m.Periods = insertAt(t.m.Periods, i, p)
			t.recs = insertAt(t.recs, i, rec)
			r.call("SetParents", func() { t.m.SetParents() })
		case op == 2 && n > 0:
			t.recs[i].start = tlDur()
			t.m.Periods[i].Start = mdur(t.recs[i].start)
		case op == 3 && n > 0:
			t.recs[i].dur = tlDur()
			t.m.Periods[i].Duration = mdur(t.recs[i].dur)
		case op == 4 && n > 0:
			t.recs[i].start, t.m.Periods[i].Start = nil, nil
		case op == 5 && n > 0:
			t.recs[i].dur, t.m.Periods[i].Duration = nil, nil
		case op == 6 && n > 0:
			remove(0)
		case op == 7 && n > 0:
			remove(i)
		case op == 8:
			t.static = !t.static
			t.m.Type = typ()
			if t.static && ops(4) == 3 {
				t.m.Type = nil // static is the default
			}
		case op == 9:
			t.mup = !t.mup
			t.m.MinimumUpdatePeriod = nil
			if t.mup {
				t.m.MinimumUpdatePeriod = mdur(tlDur())
			}
		case op == 10:
			t.mpdDur = nil
			if ops(3) > 0 {
				t.mpdDur = tlDur()
				if n > 0 && ops(2) == 0 { // after the last start
					if s, ok := t.start(n - 1); ok {
						if d := s + *t.mpdDur; d >= 0 {
							t.mpdDur = &d
						}
					}
				}
			}
			t.m.MediaPresentationDuration = mdur(t.mpdDur)
		case op == 11:
			if ops(4) == 3 {
				t.ast, t.m.AvailabilityStartTime = "", mpd.DateTime(pick([]string{"", "", "2024-13-45T00:00:00Z", "now"}))
			} else {
				t.setAST(clock)
			}
		case op == 12 && n > 0: // reordered
			j := ops(n)
			r.fault("periods-reordered")
			t.m.Periods[i], t.m.Periods[j] = t.m.Periods[j], t.m.Periods[i]
			t.recs[i], t.recs[j] = t.recs[j], t.recs[i]
		case op == 13:
			r.call("Clone", func() { t.m = mpd.Clone(t.m) })
			gone = nil // they belong to the original
		case op == 14 && n > 0 && n < limit: // a period repeated by cloning it
			var c *mpd.Period
			r.call("Clone", func() { c = t.m.Periods[i].Clone(); t.m.AppendPeriod(c) })
			t.recs = append(t.recs, t.recs[i])
		case op == 15: // publish
			s, err := "", error(nil)
			r.call("WriteToString", func() { s, err = t.m.WriteToString("", ops(2) == 1) })
			if err != nil {
				r.fail("write", "error", "%v", err)
			}
			if ops(4) == 3 { // the publisher is replaced by one that reads its file
				r.fault("relay-hop")
				m, err := readMPD(r, ops(2), []byte(s))
				if err != nil {
					r.fail("read", "error", "%v", err)
				}
				t = t.hop()
				t.m = m
				gone = nil
				break
			}
			if fltP(1, 6) {
				r.fault("message-loss")
				break
			}
			wire = append(wire, msg{[]byte(s), t.hop()})
			if fltP(1, 6) {
				r.fault("message-duplicate")
				wire = append(wire, wire[len(wire)-1])
			}
		}
		for len(wire) > 0 && ops(3) > 0 {
			j := 0
			if len(wire) > 1 && fltP(1, 4) {
				j = flt(len(wire))
				r.fault("message-reorder")
			}
			g := wire[j]
			wire = removeAt(wire, j)
			m, err := readMPD(r, ops(2), g.doc)
			if err != nil {
				r.fail("read", "error", "%v", err)
			}
			c := g.rec.copyRec()
			c.m = m
			clients[ops(2)] = c
		}
		checkAll()
	}
}
