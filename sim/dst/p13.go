package dst

import (
	"errors"
	"fmt"
	"strconv"
	"strings"

	"dashsim/simrt"

	"github.com/Eyevinn/dash-mpd/mpd"
)

func init() {
	register(&Scenario{
		ID: "P13", Quick: 80000, Thorough: 900000, Run: runP13,
		Faults: []string{"node-restart", "relay-hop", "unlinked-element", "stale-link"},
		Rule: "Each run drives a history of 10-40 steps over 1-2 MPDs (parsed or built): append through the API, direct inserts, removals, swaps and moves followed by re-linking at a drawn level, value edits (codecs, mime types, protections, templates, identifiers) at either level, clones, write-and-parse hops, restarts. A reference model tracks which links are established; after each step every established parent link, period index and inherited value must equal what the current content says, and unlinked elements must report it. " +
			"Distinct by event sequence; trivial never.",
		Real: []string{"mpd (links, accessors, clone, readers, writers)", "xml"},
		Stub: []string{"process restart", "network (relay hop)"},
	})
}

// links is the reference model: the parent each element was linked to.
type links struct{ of map[any]any }

func (l *links) mpd(m *mpd.MPD) {
	for _, p := range m.Periods {
		l.of[p] = m
		l.period(p)
	}
}
func (l *links) period(p *mpd.Period) {
	for _, a := range p.AdaptationSets {
		l.of[a] = p
		l.set(a)
	}
	for _, a := range p.EmptyAdaptationSets {
		l.of[a] = p
		l.set(a)
	}
}
func (l *links) set(a *mpd.AdaptationSetType) {
	for _, rp := range a.Representations {
		l.of[rp] = a
		l.rep(rp)
	}
}
func (l *links) rep(rp *mpd.RepresentationType) {
	for _, s := range rp.SubRepresentations {
		l.of[s] = rp
	}
}

var tmplStrings = []string{"", "init.mp4", "$RepresentationID$/init.mp4", "v$Bandwidth$/$RepresentationID$.m4s", "$RepresentationID$-$Number%05d$.m4s", "$Time$_$RepresentationID$$RepresentationID$", "$$$Bandwidth$"}

func genTemplate() *mpd.SegmentTemplateType {
	st := mpd.NewSegmentTemplate()
	st.Initialization = pick(tmplStrings)
	st.Media = pick(tmplStrings)
	return st
}

func genCP() []*mpd.ContentProtectionType {
	var out []*mpd.ContentProtectionType
	for k := ops(3); k > 0; k-- {
		c := mpd.NewContentProtection()
		c.SchemeIdUri = mpd.AnyURI(pick([]string{"urn:a", "urn:mpeg:dash:mp4protection:2011"}))
		out = append(out, c)
	}
	return out
}

func genRep() *mpd.RepresentationType {
	rp := mpd.NewRepresentation()
	rp.Id = pick([]string{"1", "v0", "a b", "ü", "1"})
	rp.Bandwidth = uint32(ops(1 << 31))
	if ops(2) == 1 {
		rp.Codecs = pick([]string{"avc1.64001f", "mp4a.40.2"})
	}
	if ops(2) == 1 {
		rp.MimeType = pick([]string{"video/mp4", "audio/mp4"})
	}
	if ops(3) == 2 {
		rp.SegmentTemplate = genTemplate()
	}
	if ops(3) == 2 {
		rp.ContentProtections = genCP()
	}
	for k := ops(3); k > 0; k-- {
		if ops(2) == 0 {
			rp.AppendSubRepresentation(mpd.NewSubRepresentation())
		} else {
			rp.SubRepresentations = append(rp.SubRepresentations, mpd.NewSubRepresentation())
		}
	}
	return rp
}

func genSet() *mpd.AdaptationSetType {
	a := mpd.NewAdaptationSet()
	if ops(2) == 1 {
		a.Codecs = pick([]string{"avc1.42", "ac-3"})
	}
	if ops(2) == 1 {
		a.MimeType = pick([]string{"video/webm", "text/vtt"})
	}
	if ops(2) == 1 {
		a.SegmentTemplate = genTemplate()
	}
	if ops(3) == 2 {
		a.ContentProtections = genCP()
	}
	for k := ops(3); k > 0; k-- {
		a.Representations = append(a.Representations, genRep())
	}
	return a
}

func genPer() *mpd.Period {
	p := mpd.NewPeriod()
	p.Id = pick([]string{"p0", "p1", ""})
	for k := ops(3); k > 0; k-- {
		p.AdaptationSets = append(p.AdaptationSets, genSet())
	}
	if ops(6) == 5 {
		p.EmptyAdaptationSets = append(p.EmptyAdaptationSets, genSet())
	}
	return p
}

// scanBuilt learns the links that builders made with the API.
func (l *links) learn(p *mpd.Period) {
	for _, as := range [][]*mpd.AdaptationSetType{p.AdaptationSets, p.EmptyAdaptationSets} {
		for _, a := range as {
			l.learnSet(a)
		}
	}
}
func (l *links) learnSet(a *mpd.AdaptationSetType) {
	for _, rp := range a.Representations {
		l.learnRep(rp)
	}
}
func (l *links) learnRep(rp *mpd.RepresentationType) {
	for _, s := range rp.SubRepresentations {
		if s.Parent() == rp {
			l.of[s] = rp
		}
	}
}

func insertAt[T any](s []T, i int, x T) []T {
	return append(s[:i:i], append([]T{x}, s[i:]...)...)
}
func removeAt[T any](s []T, i int) []T { return append(s[:i:i], s[i+1:]...) }

func runP13(r *Run) {
	l := &links{of: map[any]any{}}
	var ms []*mpd.MPD
	newMPD := func() *mpd.MPD {
		m := mpd.NewMPD(pick([]string{"static", "dynamic"}))
		for k := ops(4); k > 0; k-- {
			p := genPer()
			l.learn(p)
			if ops(2) == 0 {
				m.AppendPeriod(p)
				l.of[p] = m
			} else {
				m.Periods = append(m.Periods, p)
			}
		}
		if ops(3) > 0 {
			m.SetParents()
			l.mpd(m)
		}
		return m
	}
	if ops(4) == 3 {
		m, err := readMPD(r, ops(2), []byte(source(r)))
		if err != nil {
			r.ev("rejected", "")
			r.Trivial = true
			return
		}
		l.mpd(m)
		ms = append(ms, m)
	} else {
		ms = append(ms, newMPD())
	}
	if ops(3) == 2 {
		ms = append(ms, newMPD())
	}
	checkLinks(r, l, ms)
	for k := 10 + ops(31); k > 0; k-- {
		if fltP(1, 30) {
			r.fault("node-restart")
			simrt.Restart()
		}
		mi := ops(len(ms))
		m := ms[mi]
		var p *mpd.Period
		var a *mpd.AdaptationSetType
		var rp *mpd.RepresentationType
		pi, ai, ri := 0, 0, 0
		if len(m.Periods) > 0 {
			pi = ops(len(m.Periods))
			p = m.Periods[pi]
			if len(p.AdaptationSets) > 0 {
				ai = ops(len(p.AdaptationSets))
				a = p.AdaptationSets[ai]
				if len(a.Representations) > 0 {
					ri = ops(len(a.Representations))
					rp = a.Representations[ri]
				}
			}
		}
		op := ops(24)
		r.ev(fmt.Sprintf("op%d", op), "on MPD %d period %d set %d representation %d", mi, pi, ai, ri)
		r.call(fmt.Sprintf("op%d", op), func() {
			switch {
			case op == 0 && len(m.Periods) < 6:
				n := genPer()
				l.learn(n)
				m.AppendPeriod(n)
				l.of[n] = m
			case op == 1 && p != nil:
				n := genSet()
				l.learnSet(n)
				p.AppendAdaptationSet(n)
				l.of[n] = p
			case op == 2 && a != nil:
				n := genRep()
				l.learnRep(n)
				a.AppendRepresentation(n)
				l.of[n] = a
			case op == 3 && rp != nil:
				n := mpd.NewSubRepresentation()
				rp.AppendSubRepresentation(n)
				l.of[n] = rp
			case op == 4 && len(m.Periods) < 6: // direct edits
				n := genPer()
				l.learn(n)
				m.Periods = insertAt(m.Periods, ops(len(m.Periods)+1), n)
			case op == 5 && p != nil:
				m.Periods = removeAt(m.Periods, pi)
				r.fault("stale-link")
			case op == 6 && len(m.Periods) > 1:
				j := ops(len(m.Periods))
				m.Periods[pi], m.Periods[j] = m.Periods[j], m.Periods[pi]
			case op == 7 && p != nil:
				n := genSet()
				l.learnSet(n)
				p.AdaptationSets = insertAt(p.AdaptationSets, ops(len(p.AdaptationSets)+1), n)
			case op == 8 && a != nil: // move a set to a drawn period
				p.AdaptationSets = removeAt(p.AdaptationSets, ai)
				m2 := ms[ops(len(ms))]
				if len(m2.Periods) > 0 {
					p2 := m2.Periods[ops(len(m2.Periods))]
					if ops(2) == 0 {
						p2.AppendAdaptationSet(a)
						l.of[a] = p2
					} else {
						p2.AdaptationSets = append(p2.AdaptationSets, a)
						r.fault("stale-link")
					}
				}
			case op == 9 && rp != nil: // move a representation
				a.Representations = removeAt(a.Representations, ri)
				if j := ops(len(p.AdaptationSets)); ops(2) == 0 {
					p.AdaptationSets[j].AppendRepresentation(rp)
					l.of[rp] = p.AdaptationSets[j]
				} else {
					p.AdaptationSets[j].Representations = append(p.AdaptationSets[j].Representations, rp)
					r.fault("stale-link")
				}
			case op == 10 && a != nil:
				n := genRep()
				l.learnRep(n)
				a.Representations = insertAt(a.Representations, ops(len(a.Representations)+1), n)
			case op == 11:
				m.SetParents()
				l.mpd(m)
			case op == 12 && p != nil:
				p.SetParents()
				l.period(p)
			case op == 13 && a != nil:
				a.SetParents()
				l.set(a)
			case op == 14 && rp != nil:
				rp.SetParents()
				l.rep(rp)
			case op == 15 && rp != nil:
				switch ops(6) {
				case 0:
					rp.Codecs = pick([]string{"", "hev1"})
				case 1:
					rp.MimeType = pick([]string{"", "video/x"})
				case 2:
					rp.SegmentTemplate = nil
				case 3:
					rp.SegmentTemplate = genTemplate()
				case 4:
					rp.ContentProtections = genCP()
				case 5:
					rp.Id, rp.Bandwidth = pick([]string{"new", "2"}), uint32(ops(9000))
				}
			case op == 16 && a != nil:
				switch ops(6) {
				case 0:
					a.Codecs = pick([]string{"", "vp09"})
				case 1:
					a.MimeType = pick([]string{"", "audio/x"})
				case 2:
					a.SegmentTemplate = nil
				case 3:
					a.SegmentTemplate = genTemplate()
				case 4:
					a.ContentProtections = genCP()
				case 5:
					if a.SegmentTemplate != nil {
						a.SegmentTemplate.Media = pick(tmplStrings)
					}
				}
			case op == 17:
				c := mpd.Clone(m)
				l.mpd(c)
				if ops(2) == 0 || len(ms) > 2 {
					ms[mi] = c
				} else {
					ms = append(ms, c)
				}
			case op == 18 && p != nil && len(m.Periods) < 6:
				c := p.Clone()
				l.period(c)
				m.AppendPeriod(c)
				l.of[c] = m
			case op == 19 && a != nil:
				c := a.Clone()
				l.set(c)
				p.AppendAdaptationSet(c)
				l.of[c] = p
			case op == 20:
				s, err := m.WriteToString("", false)
				if err != nil {
					r.fail("write-error", "hop", "%v", err)
				}
				n, err := mpd.ReadFromString(s)
				if err != nil {
					r.fail("read-error", "hop", "%v", err)
				}
				r.fault("relay-hop")
				ms[mi] = n
				l.mpd(n)
			case op == 21 && p != nil: // moved to the end through the API
				m.Periods = removeAt(m.Periods, pi)
				m2 := ms[ops(len(ms))]
				m2.AppendPeriod(p)
				l.of[p] = m2
			case op == 22 && p != nil:
				p.SetParent(m)
				l.of[p] = m
			case op == 23 && rp != nil:
				a.Representations[ri].SetParent(a)
				l.of[rp] = a
			}
		})
		checkLinks(r, l, ms)
		r.SimNanos += 1_000_000
	}
}

func checkLinks(r *Run, l *links, ms []*mpd.MPD) {
	for mi, m := range ms {
		first := map[*mpd.Period]int{}
		for i, p := range m.Periods {
			if _, ok := first[p]; !ok {
				first[p] = i
			}
		}
		for i, p := range m.Periods {
			at := fmt.Sprintf("MPD %d Period %d", mi, i)
			linked, known := l.of[p]
			switch {
			case !known:
				r.fault("unlinked-element")
				if p.Parent() != nil {
					r.fail("parent", "Period", "%s was never linked but has a parent", at)
				}
				r.call("unlinked", func() {
					if _, err := p.GetIndex(); !errors.Is(err, mpd.ErrParentNotSet) {
						r.fail("unlinked", "GetIndex", "%s has no parent but GetIndex says %v", at, err)
					}
					if _, err := p.GetType(); !errors.Is(err, mpd.ErrParentNotSet) {
						r.fail("unlinked", "GetType", "%s has no parent but GetType says %v", at, err)
					}
					if _, err := p.GetStart(); !errors.Is(err, mpd.ErrParentNotSet) && p.Start == nil {
						r.fail("unlinked", "GetStart", "%s has no parent but GetStart says %v", at, err)
					}
					if _, err := p.GetDuration(); !errors.Is(err, mpd.ErrParentNotSet) && p.Duration == nil {
						r.fail("unlinked", "GetDuration", "%s has no parent but GetDuration says %v", at, err)
					}
				})
			case linked == any(m):
				if p.Parent() != m {
					r.fail("parent", "Period", "%s does not report the MPD that contains it", at)
				}
				var idx int
				var err error
				r.call("GetIndex", func() { idx, err = p.GetIndex() })
				if err != nil || idx != first[p] {
					r.fail("index", "Period", "%s reports index %d, %v", at, idx, err)
				}
			}
			for _, as := range [][]*mpd.AdaptationSetType{p.AdaptationSets, p.EmptyAdaptationSets} {
				for j, a := range as {
					at := fmt.Sprintf("%s AdaptationSet %d", at, j)
					linked, known := l.of[a]
					if !known && a.Parent() != nil {
						r.fail("parent", "AdaptationSet", "%s was never linked but has a parent", at)
					}
					if known && linked == any(p) && a.Parent() != p {
						r.fail("parent", "AdaptationSet", "%s does not report the Period that contains it", at)
					}
					r.call("accessors", func() {
						if a.GetMimeType() != a.MimeType || a.GetCodecs() != a.Codecs || a.GetSegmentTemplate() != a.SegmentTemplate || !sameCPs(a.GetContentProtections(), a.ContentProtections) {
							r.fail("value", "AdaptationSet", "%s does not report its own values", at)
						}
					})
					for k, rp := range a.Representations {
						checkRep(r, l, a, rp, fmt.Sprintf("%s Representation %d", at, k))
					}
				}
			}
		}
	}
}

func sameCPs(a, b []*mpd.ContentProtectionType) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func checkRep(r *Run, l *links, a *mpd.AdaptationSetType, rp *mpd.RepresentationType, at string) {
	linked, known := l.of[rp]
	for _, s := range rp.SubRepresentations {
		sl, sk := l.of[s]
		if !sk && s.Parent() != nil {
			r.fail("parent", "SubRepresentation", "in %s: a SubRepresentation was never linked but has a parent", at)
		}
		if sk && sl == any(rp) && s.Parent() != rp {
			r.fail("parent", "SubRepresentation", "in %s: a SubRepresentation does not report what contains it", at)
		}
	}
	if !known {
		r.fault("unlinked-element")
		if rp.Parent() != nil {
			r.fail("parent", "Representation", "%s was never linked but has a parent", at)
		}
		r.call("unlinked", func() {
			if _, err := rp.GetInit(); !errors.Is(err, mpd.ErrParentNotSet) && rp.SegmentTemplate == nil {
				r.fail("unlinked", "GetInit", "%s has no parent but GetInit says %v", at, err)
			}
			if _, err := rp.GetMedia(); !errors.Is(err, mpd.ErrParentNotSet) && rp.SegmentTemplate == nil {
				r.fail("unlinked", "GetMedia", "%s has no parent but GetMedia says %v", at, err)
			}
			if rp.GetMimeType() != rp.MimeType || rp.GetCodecs() != rp.Codecs || rp.GetSegmentTemplate() != rp.SegmentTemplate || !sameCPs(rp.GetContentProtections(), rp.ContentProtections) {
				r.fail("value", "Representation", "%s, which is not linked, does not report its own values", at)
			}
		})
		return
	}
	if linked != any(a) {
		return // stale link after a direct edit
	}
	if rp.Parent() != a {
		r.fail("parent", "Representation", "%s does not report the AdaptationSet that contains it", at)
	}
	mime, codecs, st, cps := rp.MimeType, rp.Codecs, rp.SegmentTemplate, rp.ContentProtections
	if mime == "" {
		mime = a.MimeType
	}
	if codecs == "" {
		codecs = a.Codecs
	}
	if st == nil {
		st = a.SegmentTemplate
	}
	if len(cps) == 0 {
		cps = a.ContentProtections
	}
	r.call("accessors", func() {
		if got := rp.GetMimeType(); got != mime {
			r.fail("value", "GetMimeType", "%s: GetMimeType says %q, the content %q", at, got, mime)
		}
		if got := rp.GetCodecs(); got != codecs {
			r.fail("value", "GetCodecs", "%s: GetCodecs says %q, the content %q", at, got, codecs)
		}
		if got := rp.GetSegmentTemplate(); got != st {
			r.fail("value", "GetSegmentTemplate", "%s: GetSegmentTemplate is not the one of the content", at)
		}
		if got := rp.GetContentProtections(); !sameCPs(got, cps) {
			r.fail("value", "GetContentProtections", "%s: GetContentProtections are not those of the content", at)
		}
		in, err := rp.GetInit()
		me, err2 := rp.GetMedia()
		if st == nil {
			if err == nil || err2 == nil {
				r.fail("value", "GetInit", "%s has no segment template but GetInit gives %q, GetMedia %q", at, in, me)
			}
			return
		}
		if err != nil || err2 != nil {
			r.fail("value", "GetInit", "%s: GetInit says %v, GetMedia %v", at, err, err2)
		}
		rep := strings.NewReplacer("$RepresentationID$", rp.Id, "$Bandwidth$", strconv.FormatUint(uint64(rp.Bandwidth), 10))
		if strings.Contains(rp.Id, "$") {
			return
		}
		if want := rep.Replace(st.Initialization); in != want {
			r.fail("value", "GetInit", "%s: GetInit says %q, the content %q", at, in, want)
		}
		if want := rep.Replace(st.Media); me != want {
			r.fail("value", "GetMedia", "%s: GetMedia says %q, the content %q", at, me, want)
		}
	})
}
