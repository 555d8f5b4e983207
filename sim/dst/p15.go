package dst

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"dashsim/simrt"

	"github.com/Eyevinn/dash-mpd/mpd"
)

func init() {
	register(&Scenario{
		ID: "P15", Quick: 80000, Thorough: 5000000, Run: runP15,
		Faults: []string{"clock-jump-forward", "clock-jump-backward", "clock-skew", "time-zone", "foreign-duration-text", "malformed-duration-text", "node-restart", "relay-hop"},
		Rule: "Each run publishes 3-12 times over a chain of 1-5 relay hops (any reader and writer, restarts in between): durations over every magnitude and around every carry and range edge, or foreign duration texts over the whole xs:duration grammar and near it; stamps are taken from a simulated clock that runs, jumps either way, sits at edges (epoch, leap years, second and millisecond boundaries, years 1 to 9999) and is read by a second node with a skew. Every text must be valid and denote the value (checked with rational arithmetic), every reading must equal the denoted value, later hops must not change it, stamps must crop, convert back and order like the instants. " +
			"Distinct by event sequence and values; trivial never.",
		Real: []string{"mpd (durations, time conversion, readers, writers)", "xml"},
		Stub: []string{"clock", "network (relay hop)", "process restart"},
	})
}

var validDur = regexp.MustCompile(`^-?P(?:[0-9]+Y)?(?:[0-9]+M)?(?:[0-9]+D)?(?:T(?:[0-9]+H)?(?:[0-9]+M)?(?:[0-9]+(?:\.[0-9]+)?S)?)?$`)

// formDur is the documented form with what readers are commonly lenient about: a T
// with nothing after it and a decimal point with digits on one side only.
var formDur = regexp.MustCompile(`^P(?:[0-9]+D)?(?:T(?:[0-9]+H)?(?:[0-9]+M)?(?:[0-9]*\.?[0-9]*S)?)?$`)

func validDuration(s string) bool {
	return validDur.MatchString(s) && !strings.HasSuffix(s, "T") && !strings.HasSuffix(s, "P")
}

var maxRat = new(big.Rat).SetInt64(math.MaxInt64)

// checkText checks the text written for d.
func checkText(r *Run, where string, d time.Duration, text string) {
	if !validDuration(text) {
		r.fail("text", "invalid", "%s: %d ns is written %q, which is not xs:duration", where, int64(d), text)
	}
	v, ok := denotedDuration(text)
	if !ok {
		r.fail("text", "units", "%s: %d ns is written %q", where, int64(d), text)
	}
	diff := new(big.Rat).Sub(v, new(big.Rat).SetInt64(int64(d)))
	diff.Abs(diff)
	tol := new(big.Rat)
	if d >= time.Millisecond {
		tol.SetInt64(500_000)
		if d > math.MaxInt64-500_000 {
			tol.SetInt64(1_000_000)
		}
	}
	if diff.Cmp(tol) > 0 {
		r.fail("text", "value", "%s: %d ns is written %q", where, int64(d), text)
	}
	if d >= time.Millisecond {
		if q := new(big.Rat).Quo(v, big.NewRat(1_000_000, 1)); !q.IsInt() {
			r.fail("text", "precision", "%s: %d ns is written %q, beyond milliseconds", where, int64(d), text)
		}
	}
}

// checkRead checks a text that was read as d.
func checkRead(r *Run, where, text string, d time.Duration) {
	v, ok := denotedDuration(text)
	if !ok {
		return
	}
	got := new(big.Rat).SetInt64(int64(d))
	diff := new(big.Rat).Sub(v, got)
	diff.Abs(diff)
	if diff.Cmp(big.NewRat(1, 1)) >= 0 {
		r.fail("read", "value", "%s: %q is read as %d ns", where, text, int64(d))
	}
}

// mustRead says that the text has the documented form P[nD][T[nH][nM][nS]] and
// fits.
func mustRead(text string) bool {
	if strings.HasPrefix(text, "-") || !validDuration(text) || strings.ContainsAny(strings.SplitN(text, "T", 2)[0], "YM") {
		return false
	}
	v, ok := denotedDuration(text)
	if !ok {
		return false
	}
	return v.Cmp(maxRat) <= 0
}

func digits(max int) string {
	n := 1 + ops(max)
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteByte(byte('0' + ops(10)))
	}
	return sb.String()
}

// num draws a number, often one where the unit's product leaves the int64 range.
func durNum(unit int64) string {
	switch ops(6) {
	case 0:
		return strconv.Itoa(ops(61))
	case 1:
		return "0" + strconv.Itoa(ops(10))
	case 2:
		return strconv.FormatInt(math.MaxInt64/unit/1_000_000_000+int64(ops(3))-1, 10)
	case 3: // wraps around to something small
		x := new(big.Int).Lsh(big.NewInt(1), 64)
		x.Div(x, big.NewInt(unit*1_000_000_000))
		return x.Add(x, big.NewInt(int64(ops(3)))).String()
	case 4:
		return digits(22)
	}
	return strconv.Itoa(ops(100000))
}

func foreignDuration(r *Run) string {
	r.fault("foreign-duration-text")
	s := "P"
	if ops(20) == 19 {
		s = "-P"
	}
	if ops(20) == 19 {
		s += durNum(31556952) + "Y"
	}
	if ops(20) == 19 {
		s += durNum(2629746) + "M"
	}
	if ops(3) == 2 {
		s += durNum(86400) + "D"
	}
	t := ""
	if ops(3) == 2 {
		t += durNum(3600) + "H"
	}
	if ops(3) == 2 {
		t += durNum(60) + "M"
	}
	if ops(3) > 0 || t == "" {
		t += durNum(1)
		switch ops(4) {
		case 1:
			t += "." + digits(3)
		case 2:
			t += "." + digits(12)
		case 3:
			if ops(3) == 2 {
				t += "."
			}
		}
		t += "S"
	}
	if ops(10) > 0 || s == "P" {
		s += "T" + t
	}
	if ops(10) == 9 {
		r.fault("malformed-duration-text")
		b := []byte(s)
		for k := 1 + ops(2); k > 0 && len(b) > 0; k-- {
			i := ops(len(b))
			switch ops(5) {
			case 4:
				b = append(b[:i:i], append([]byte{"PTDHMSYW0.-+e "[ops(14)]}, b[i:]...)...)
			case 0:
				b = append(b[:i:i], b[i+1:]...)
			case 1:
				b = append(b[:i:i], append([]byte{b[i]}, b[i:]...)...)
			case 2:
				b[i] = "PTDHMS0.-+e "[ops(12)]
			case 3:
				j := ops(len(b))
				b[i], b[j] = b[j], b[i]
			}
		}
		s = string(b)
	}
	return s
}

type durField struct {
	name string
	at   func(m *mpd.MPD) **mpd.Duration
}

var durFields = []durField{
	{"mediaPresentationDuration", func(m *mpd.MPD) **mpd.Duration { return &m.MediaPresentationDuration }},
	{"minimumUpdatePeriod", func(m *mpd.MPD) **mpd.Duration { return &m.MinimumUpdatePeriod }},
	{"minBufferTime", func(m *mpd.MPD) **mpd.Duration { return &m.MinBufferTime }},
	{"timeShiftBufferDepth", func(m *mpd.MPD) **mpd.Duration { return &m.TimeShiftBufferDepth }},
	{"suggestedPresentationDelay", func(m *mpd.MPD) **mpd.Duration { return &m.SuggestedPresentationDelay }},
	{"maxSegmentDuration", func(m *mpd.MPD) **mpd.Duration { return &m.MaxSegmentDuration }},
	{"start", func(m *mpd.MPD) **mpd.Duration { return &m.Periods[0].Start }},
	{"duration", func(m *mpd.MPD) **mpd.Duration { return &m.Periods[0].Duration }},
}

// hopDoc writes and reads m and reports the attribute texts on the wire.
func hopDoc(r *Run, m *mpd.MPD) (*mpd.MPD, map[string]string) {
	out, err := writeMPD(r, ops(len(writeNames)), m, "")
	if err != nil {
		r.fail("write", "error", "%v", err)
	}
	r.fault("relay-hop")
	tree, err := parseInfoset(out)
	if err != nil {
		r.fail("write", "malformed", "%v: %s", err, out)
	}
	texts := map[string]string{}
	for _, a := range tree.Attrs {
		texts[a.Local] = a.Val
	}
	for _, k := range tree.Kids {
		if k.Local == "Period" {
			for _, a := range k.Attrs {
				texts[a.Local] = a.Val
			}
		}
	}
	n, err := readMPD(r, ops(len(readNames)), []byte(out))
	if err != nil {
		r.fail("read", "error", "%v: %s", err, out)
	}
	r.record(out)
	return n, texts
}

// simClock is the wall clock of the simulated publisher, in nanoseconds exactly.
type simClock struct{ t time.Time }

var clockLo = time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC)
var clockHi = time.Date(9999, 12, 31, 23, 59, 59, 999_999_999, time.UTC)

func (c *simClock) clamp() {
	if c.t.Before(clockLo) {
		c.t = clockLo
	}
	if c.t.After(clockHi) {
		c.t = clockHi
	}
}

func drawInstant() time.Time {
	switch ops(8) {
	case 0:
		return time.Unix(1_700_000_000+int64(ops(100_000_000)), int64(ops(1_000_000_000)))
	case 1:
		return time.Unix(0, int64(ops(4_000_000_000))-2_000_000_000)
	case 2:
		y := []int{1, 1600, 1677, 1678, 1900, 1969, 1970, 2000, 2024, 2038, 2100, 2262, 2263, 9999}[ops(14)]
		return time.Date(y, []time.Month{1, 2, 3, 12}[ops(4)], []int{1, 28, 29, 31}[ops(4)], []int{0, 23}[ops(2)], []int{0, 59}[ops(2)], []int{0, 59}[ops(2)], []int{0, 1, 999_999, 1_000_000, 500_000_000, 999_000_000, 999_999_999}[ops(7)], time.UTC)
	case 3:
		return time.Unix(int64(ops(1<<31)), 0)
	case 4:
		return time.Unix(int64(ops(1<<31)), int64(ops(1000))*1_000_000)
	case 5:
		return time.Unix(-int64(ops(1<<31)), int64(ops(1_000_000_000)))
	case 6:
		return time.Unix(int64(ops(1<<31))*100, int64(ops(1_000_000_000)))
	}
	return time.Unix(-int64(ops(1<<31))*25, int64(ops(1_000))*1_000_000)
}

var stampRE = regexp.MustCompile(`^([0-9]{4})-([0-9]{2})-([0-9]{2})T([0-9]{2}):([0-9]{2}):([0-9]{2})(?:\.([0-9]{1,3}))?Z$`)

// stampAt evaluates a stamp as milliseconds since 1970, independently of time.Parse.
func stampAt(s string) (int64, bool) {
	m := stampRE.FindStringSubmatch(s)
	if m == nil {
		return 0, false
	}
	n := func(i int) int64 { v, _ := strconv.ParseInt(m[i], 10, 64); return v }
	y, mo, d := n(1), n(2), n(3)
	if mo < 1 || mo > 12 || d < 1 || d > 31 || n(4) > 23 || n(5) > 59 || n(6) > 59 {
		return 0, false
	}
	// days from civil
	yy := y
	if mo <= 2 {
		yy--
	}
	era := yy / 400
	if yy < 0 {
		era = (yy - 399) / 400
	}
	yoe := yy - era*400
	mp := (mo + 9) % 12
	doy := (153*mp+2)/5 + d - 1
	doe := yoe*365 + yoe/4 - yoe/100 + doy
	days := era*146097 + doe - 719468
	ms := int64(0)
	if m[7] != "" {
		ms, _ = strconv.ParseInt((m[7] + "000")[:3], 10, 64)
	}
	return ((days*24+n(4))*60+n(5))*60_000 + n(6)*1000 + ms, true
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

func runP15(r *Run) {
	zone := time.Local
	defer func() { time.Local = zone }()
	switch ops(3) {
	case 0:
		time.Local = time.UTC
	case 1: // where the process runs does not matter
		r.fault("time-zone")
		time.Local = time.FixedZone("", (ops(27*4)-13*4)*900+ops(2)*ops(60))
	case 2:
		r.fault("time-zone")
		time.Local = time.FixedZone("CET", 3600)
	}
	c := &simClock{t: drawInstant().UTC()}
	c.clamp()
	type stamped struct {
		ms  int64
		s   mpd.DateTime
		sec float64
	}
	var stamps []stamped
	stamp := func(t time.Time) mpd.DateTime {
		var s mpd.DateTime
		var wantMS int64
		slackLo, slackHi := int64(0), int64(0)
		kind := ops(3)
		in := ""
		r.call("stamp", func() {
			switch kind {
			case 0:
				wantMS = t.UnixMilli()
				in = fmt.Sprintf("ConvertToDateTimeMS(%d)", wantMS)
				s = mpd.ConvertToDateTimeMS(wantMS)
			case 1:
				wantMS = t.Unix() * 1000
				in = fmt.Sprintf("ConvertToDateTimeS(%d)", t.Unix())
				s = mpd.ConvertToDateTimeS(t.Unix())
			case 2:
				f := float64(t.Unix()) + float64(t.Nanosecond())/1e9
				if f > float64(clockHi.Unix()) {
					f = float64(clockHi.Unix())
				}
				in = fmt.Sprintf("ConvertToDateTime(%v)", f)
				s = mpd.ConvertToDateTime(f)
				// the float's value in units of 1 ms, exactly
				x := new(big.Rat).SetFloat64(f)
				x.Mul(x, big.NewRat(1000, 1))
				fl := func(y *big.Rat) int64 {
					q := new(big.Int).Div(y.Num(), y.Denom()) // Euclidean: floor
					return q.Int64()
				}
				wantMS = fl(x)
				eps := big.NewRat(2, 1_000_000) // 2 ns
				slackHi = fl(new(big.Rat).Add(x, eps)) - wantMS
				slackLo = wantMS - fl(new(big.Rat).Sub(x, eps))
			}
		})
		r.note(fmt.Sprint("stamp", kind))
		ms, ok := stampAt(string(s))
		if !ok {
			r.fail("stamp", "form", "%s gives %q", in, s)
		}
		if ms < wantMS-slackLo || ms > wantMS+slackHi {
			r.fail("stamp", "value", "%s gives %q, which is %d ms and not %d", in, s, ms, wantMS)
		}
		var back float64
		var err error
		r.call("ConvertToSeconds", func() { back, err = s.ConvertToSeconds() })
		if err != nil {
			r.fail("stamp", "back", "%q does not convert back: %v", s, err)
		}
		exact := new(big.Rat).SetFrac64(ms, 1000)
		bd := new(big.Rat).SetFloat64(back)
		d, _ := bd.Sub(bd, exact).Float64()
		ulp := math.Nextafter(math.Abs(back), math.Inf(1)) - math.Abs(back)
		if math.Abs(d) > 2*ulp+1e-12 {
			r.fail("stamp", "back", "%q converts back to %v", s, back)
		}
		stamps = append(stamps, stamped{ms, s, back})
		r.ev("stamp", "%s = %s", in, s)
		r.record(string(s))
		return s
	}
	for k := 3 + ops(10); k > 0; k-- {
		// time passes
		step := time.Duration(ops(3_000_000_000))
		c.t = c.t.Add(step)
		r.SimNanos += int64(step)
		switch flt(8) {
		case 6:
			r.fault("clock-jump-forward")
			c.t = c.t.Add(time.Duration(flt(1<<31)) * []time.Duration{1, 1000, 1_000_000, 1_000_000_000}[flt(4)])
		case 7:
			r.fault("clock-jump-backward")
			c.t = c.t.Add(-time.Duration(flt(1<<31)) * []time.Duration{1, 1000, 1_000_000, 1_000_000_000}[flt(4)])
		}
		c.clamp()
		if fltP(1, 20) {
			r.fault("node-restart")
			simrt.Restart()
		}
		switch ops(5) {
		case 0, 1: // durations through the API and relays
			m := mpd.NewMPD("dynamic")
			m.AppendPeriod(mpd.NewPeriod())
			*durFields[2].at(m) = nil
			want := map[string]time.Duration{}
			var names []string
			for n := 1 + ops(4); n > 0; n-- {
				f := durFields[ops(len(durFields))]
				d := genDuration()
				switch ops(4) {
				case 2:
					s := ops(1 << 31)
					x := mpd.Seconds2DurPtr(s)
					if int64(*x) != int64(s)*1_000_000_000 {
						r.fail("seconds", "int", "Seconds2DurPtr(%d) is %d ns", s, int64(*x))
					}
					d = time.Duration(*x)
				case 3:
					s := float64(ops(1<<31)) / []float64{1, 10, 1000, 1024, 3, 1e6, 48000, 1e9}[ops(8)]
					x := mpd.Seconds2DurPtrFloat64(s)
					if df := math.Abs(float64(*x) - s*1e9); df > 501+s*1e9*1e-14 {
						r.fail("seconds", "float", "Seconds2DurPtrFloat64(%v) is %d ns", s, int64(*x))
					}
					d = time.Duration(*x)
				}
				md := mpd.Duration(d)
				var text string
				r.call("String", func() { text = md.String() })
				checkText(r, "String", d, text)
				if sec := md.Seconds(); math.Abs(sec-float64(d)/1e9) > 1e-15*math.Abs(sec)*2 {
					r.fail("seconds", "Seconds", "Seconds of %d ns is %v", int64(d), sec)
				}
				*f.at(m) = &md
				if _, ok := want[f.name]; !ok {
					names = append(names, f.name)
				}
				want[f.name] = d
			}
			sort.Strings(names)
			r.ev("publish", "%v", want)
			wire := map[string]string{}
			for h := 1 + ops(5); h > 0; h-- {
				n, texts := hopDoc(r, m)
				for _, f := range durFields {
					d, ok := want[f.name]
					if !ok {
						continue
					}
					text, there := texts[f.name]
					if !there {
						r.fail("hop", "lost", "%s is not in the manifest", f.name)
					}
					checkText(r, f.name, d, text)
					if w, ok := wire[f.name]; ok && w != text {
						r.fail("hop", "drift", "%s was %q and is %q one hop later", f.name, w, text)
					}
					wire[f.name] = text
					got := *f.at(n)
					if got == nil {
						r.fail("hop", "lost", "%s=%q is not read", f.name, text)
					}
					v, _ := denotedDuration(text)
					if v.Cmp(new(big.Rat).SetInt64(int64(*got))) != 0 {
						r.fail("hop", "value", "%s=%q is read as %d ns", f.name, text, int64(*got))
					}
				}
				m = n
				if fltP(1, 8) {
					r.fault("node-restart")
					simrt.Restart()
				}
			}
		case 2, 3: // foreign texts
			text := foreignDuration(r)
			var d time.Duration
			var err error
			r.call("ParseDuration", func() { d, err = mpd.ParseDuration(text) })
			r.ev("text", "%q = %v, %v", text, d, err)
			r.record(fmt.Sprint(int64(d), err))
			if err == nil {
				if !formDur.MatchString(text) || !strings.ContainsAny(text, "0123456789") {
					r.fail("read", "accepted", "ParseDuration takes %q for %d ns, but it denotes no duration", text, int64(d))
				}
				checkRead(r, "ParseDuration", text, d)
			} else if mustRead(text) {
				r.fail("read", "rejected", "ParseDuration rejects %q: %v", text, err)
			}
			if strings.ContainsAny(text, "<&\"") {
				break
			}
			f := durFields[ops(len(durFields))]
			attr := fmt.Sprintf(` %s="%s"`, f.name, text)
			onMPD, onPeriod := attr, ""
			if f.name == "start" || f.name == "duration" {
				onMPD, onPeriod = "", attr
			}
			m, err2 := readMPD(r, ops(len(readNames)), []byte(`<MPD xmlns="urn:mpeg:dash:schema:mpd:2011" profiles="p"`+onMPD+`><Period`+onPeriod+`/></MPD>`))
			if (err == nil) != (err2 == nil) {
				r.fail("read", "attribute", "ParseDuration(%q) says %v but reading it as %s says %v", text, err, f.name, err2)
			}
			if err2 != nil {
				break
			}
			got := *f.at(m)
			if got == nil || time.Duration(*got) != d {
				r.fail("read", "attribute", "%s=%q is read as %v", f.name, text, got)
			}
			if d < 0 {
				break // negative durations are not published
			}
			var last string
			for h := 1 + ops(4); h > 0; h-- {
				n, texts := hopDoc(r, m)
				checkText(r, f.name, d, texts[f.name])
				if last != "" && texts[f.name] != last {
					r.fail("hop", "drift", "%s was %q and is %q one hop later", f.name, last, texts[f.name])
				}
				last = texts[f.name]
				m = n
			}
		case 4: // stamps
			s := stamp(c.t)
			if ops(3) == 2 {
				r.fault("clock-skew")
				o := &simClock{c.t.Add(time.Duration(flt(1<<31)-(1<<30)) * time.Microsecond)}
				o.clamp()
				stamp(o.t)
			}
			if ops(2) == 1 {
				m := mpd.NewMPD("dynamic")
				m.AppendPeriod(mpd.NewPeriod())
				m.PublishTime, m.AvailabilityStartTime = s, s
				for h := 1 + ops(3); h > 0; h-- {
					n, texts := hopDoc(r, m)
					if texts["publishTime"] != string(s) || texts["availabilityStartTime"] != string(s) || n.PublishTime != s || n.AvailabilityStartTime != s {
						r.fail("hop", "stamp", "the stamp %q became %q", s, n.PublishTime)
					}
					m = n
				}
			}
		}
	}
	// stamps order as the instants do
	for i := range stamps {
		for j := range stamps {
			a, b := stamps[i], stamps[j]
			if a.ms < b.ms && a.sec >= b.sec {
				r.fail("stamp", "order", "%q and %q are %v and %v", a.s, b.s, a.sec, b.sec)
			}
		}
	}
}
