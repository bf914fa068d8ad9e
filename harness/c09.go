package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"

	"github.com/Eyevinn/dash-mpd/mpd"
)

func init() {
	register(&Check{ID: "C09", Level: "exploration",
		Rule: "All combinations of present and absent @start, @duration and MPD attributes for 1 to 3 (thorough: 4) Periods and static, dynamic and absent type, and random longer Period lists, judged by an independent model of ISO/IEC 23009-1 5.3.2.1. Non-trivial: each combination.",
		Run:  runC09})
}

type mPeriod struct {
	start, dur *int64
}

type mPres struct {
	typ    string // "", static, dynamic
	mup    bool
	mpdDur *int64
	ast    string
	astSec float64
	ps     []mPeriod
	ids    int     // 0: different, 1: equal, 2: none
	noise  *filler // fills everything that does not matter
}

// rest fills what the rules do not look at.
func (m *mPres) rest(v *mpd.MPD) {
	if m.noise == nil {
		return
	}
	m.noise.fill(reflect.ValueOf(v).Elem())
	v.XMLNs, v.Type, v.MinimumUpdatePeriod, v.MediaPresentationDuration, v.AvailabilityStartTime, v.Periods = nsDASH, nil, nil, nil, "", nil
}

func (m *mPres) restOf(p *mpd.Period) {
	if m.noise == nil {
		return
	}
	m.noise.budget = 4
	m.noise.fill(reflect.ValueOf(p).Elem())
	p.Id, p.Start, p.Duration = "", nil, nil
}

// start is PeriodStart of 5.3.2.1: the attribute, or the end of the previous Period if that has a
// duration, or 0 for the first Period of a static MPD.
func (m *mPres) start(i int) (int64, bool) {
	p := m.ps[i]
	if p.start != nil {
		return *p.start, true
	}
	if i > 0 {
		if m.ps[i-1].dur == nil {
			return 0, false
		}
		s, ok := m.start(i - 1)
		return s + *m.ps[i-1].dur, ok
	}
	return 0, m.typ != "dynamic"
}

// duration gives the duration of a Period and whether it is known: the attribute, or the time from
// PeriodStart to the start of the next Period or, for the last one, the end of the presentation.
func (m *mPres) duration(i int) (d int64, known bool) {
	p := m.ps[i]
	if p.dur != nil {
		return *p.dur, true
	}
	s, ok := m.start(i)
	end := m.mpdDur
	if i+1 < len(m.ps) {
		end = m.ps[i+1].start
	}
	if !ok || end == nil {
		return 0, false
	}
	return *end - s, true
}

func (m *mPres) ptype(i int) mpd.PeriodType {
	p := m.ps[i]
	early := p.dur != nil && (m.mup || i+1 < len(m.ps) && m.ps[i+1].start != nil)
	switch {
	case p.start != nil && early:
		return mpd.PTEarlyTerminated
	case p.start != nil:
		return mpd.PTRegular
	case i > 0 && m.ps[i-1].dur != nil && early:
		return mpd.PTEarlyTerminated
	case i > 0 && m.ps[i-1].dur != nil:
		return mpd.PTRegularOrEarlyTerminated
	case m.typ == "dynamic":
		return mpd.PTEarlyAvailable
	}
	return mpd.PTRegular
}

// zeros makes some of the times zero, which is not the same as absent.
func (m *mPres) zeros(t *T) {
	for i := range m.ps {
		for _, d := range []*int64{m.ps[i].start, m.ps[i].dur, m.mpdDur} {
			if d != nil && t.R.IntN(6) == 0 {
				*d = 0
				t.Obs("times of zero")
			}
		}
	}
}

func (m *mPres) build(how int) *mpd.MPD {
	v := &mpd.MPD{}
	m.rest(v)
	if m.typ != "" {
		v.Type = mpd.Ptr(m.typ)
	}
	if m.mup {
		v.MinimumUpdatePeriod = mpd.Seconds2DurPtr(2)
	}
	if m.mpdDur != nil {
		v.MediaPresentationDuration = mpd.Ptr(mpd.Duration(*m.mpdDur))
	}
	v.AvailabilityStartTime = mpd.DateTime(m.ast)
	for i, p := range m.ps {
		x := mpd.NewPeriod()
		m.restOf(x)
		switch m.ids { // what is derived does not depend on identifiers
		case 0:
			x.Id = fmt.Sprint(i)
		case 1:
			x.Id = "p"
		}
		if p.start != nil {
			x.Start = mpd.Ptr(mpd.Duration(*p.start))
		}
		if p.dur != nil {
			x.Duration = mpd.Ptr(mpd.Duration(*p.dur))
		}
		if how == 0 {
			v.AppendPeriod(x)
		} else {
			v.Periods = append(v.Periods, x)
		}
	}
	if how == 1 {
		v.SetParents()
	}
	return v
}

func (m *mPres) String() string {
	s := fmt.Sprintf("type=%q mup=%t ast=%q", m.typ, m.mup, m.ast)
	if m.mpdDur != nil {
		s += fmt.Sprintf(" mpdDur=%d", *m.mpdDur)
	}
	for _, p := range m.ps {
		s += " ["
		if p.start != nil {
			s += fmt.Sprintf("start=%d ", *p.start)
		}
		if p.dur != nil {
			s += fmt.Sprintf("dur=%d", *p.dur)
		}
		s += "]"
	}
	return s
}

func judgePres(t *T, m *mPres, how int) {
	v := m.build(how)
	if how == 2 { // by way of the text
		s, err := v.WriteToString("", false)
		if err == nil {
			v, err = mpd.ReadFromString(s)
		}
		if err != nil {
			t.Failf("io", "%v: %v", m, err)
			return
		}
	}
	wantType := m.typ
	if wantType == "" {
		wantType = "static"
	}
	if g := v.GetType(); g != wantType {
		t.Failf("mpd-type", "%v: GetType is %q", m, g)
	}
	// any order of queries
	for k := range v.Periods {
		i := k
		if t.R.IntN(2) == 0 {
			i = len(v.Periods) - 1 - k
		}
		p := v.Periods[i]
		if idx, err := p.GetIndex(); err != nil || idx != i {
			t.Failf("index", "%v: GetIndex of %d is %d (%v)", m, i, idx, err)
		}
		if g, err := p.GetType(); err != nil || g != m.ptype(i) {
			t.Failf("type", "%v: type of period %d is %v (%v), want %v", m, i, int(g), err, int(m.ptype(i)))
		}
		ws, ok := m.start(i)
		gs, err := p.GetStart()
		if ok != (err == nil) || ok && int64(gs) != ws || err != nil && gs != 0 {
			t.Failf("start", "%v: start of period %d is %d (%v), want %d (%t)", m, i, int64(gs), err, ws, ok)
		}
		if err != nil && !errors.Is(err, mpd.ErrUnknownPeriodStart) {
			t.Failf("start-error", "%v: start of period %d: error %v", m, i, err)
		}
		wd, known := m.duration(i)
		gd, err := p.GetDuration()
		switch {
		case err == nil && !known:
			t.Failf("duration", "%v: duration of period %d is %d, but it cannot be known", m, i, int64(gd))
		case err == nil && int64(gd) != wd:
			t.Failf("duration", "%v: duration of period %d is %d, want %d", m, i, int64(gd), wd)
		case err != nil && known:
			t.Failf("duration", "%v: duration of period %d: %v, want %d", m, i, err, wd)
		case err != nil && !errors.Is(err, mpd.ErrUnknownPeriodDur) && !errors.Is(err, mpd.ErrNoMediaPresentationDuration):
			t.Failf("duration-error", "%v: duration of period %d: error %v", m, i, err)
		}
		if err == nil {
			t.Obs("durations derived")
		} else {
			t.Obs("durations refused")
		}
		ga, err := p.AbsoluteStart(v)
		switch {
		case m.ast == "":
			if !errors.Is(err, mpd.ErrASTRequired) {
				t.Failf("absolute", "%v: AbsoluteStart of %d without availabilityStartTime: %v (%v)", m, i, ga, err)
			}
		case m.ast == "bad" || !ok:
			if err == nil {
				t.Failf("absolute", "%v: AbsoluteStart of %d is %v", m, i, ga)
			}
		default:
			want := m.astSec + float64(ws)/1e9
			if err != nil || math.Abs(ga-want) > math.Abs(want)*5e-16+1e-12 {
				t.Failf("absolute", "%v: AbsoluteStart of %d is %v (%v), want %v", m, i, ga, err, want)
			}
		}
		t.Obs("periods judged")
	}
	// A Period that its MPD does not hold, and one without an MPD: only its own attributes are known.
	for k := 0; k < 2; k++ {
		i := t.R.IntN(len(m.ps))
		x := mpd.NewPeriod()
		x.Id, x.Start, x.Duration = v.Periods[i].Id, v.Periods[i].Start, v.Periods[i].Duration
		want := mpd.ErrParentNotSet
		if k == 1 {
			x.SetParent(v)
			want = mpd.ErrPeriodNotFound
		}
		if idx, err := x.GetIndex(); !errors.Is(err, want) {
			t.Failf("stray", "%v: GetIndex of a stray Period is %d (%v)", m, idx, err)
		}
		if g, err := x.GetType(); !errors.Is(err, want) {
			t.Failf("stray", "%v: GetType of a stray Period is %d (%v)", m, int(g), err)
		}
		if g, err := x.GetStart(); x.Start == nil && err == nil || err == nil && g != *x.Start {
			t.Failf("stray", "%v: GetStart of a stray Period like %d is %v (%v)", m, i, int64(g), err)
		}
		if g, err := x.GetDuration(); x.Duration == nil && err == nil || err == nil && g != *x.Duration {
			t.Failf("stray", "%v: GetDuration of a stray Period like %d is %v (%v)", m, i, int64(g), err)
		}
		if g, err := x.AbsoluteStart(v); x.Start == nil && err == nil {
			t.Failf("stray", "%v: AbsoluteStart of a stray Period like %d is %v", m, i, g)
		}
		t.Obs("stray periods judged")
	}
	t.Nontrivial(m.String())
}

func runC09(c *Ctx) {
	asts := []struct {
		s   string
		sec float64
	}{{"", 0}, {"1970-01-01T00:00:00Z", 0}, {"2024-02-29T23:59:59.5Z", 1709251199.5}, {"bad", 0},
		{"2024-02-29T23:59:59+02:00", 1709243999}, {"2024-03-01T00:00:00-11:30", 1709292600}, {"1969-12-31T23:59:58.750Z", -1.25}, {"9999-12-31T23:59:59Z", 253402300799}, {"1600-01-01T00:00:00Z", -11676096000}, {"2024-02-29T23:59:59.123456Z", 1709251199.123456}}
	maxN := 3
	if c.Thorough() {
		maxN = 4
	}
	for n := 1; n <= maxN; n++ {
		c.Cases(fmt.Sprintf("all-%d", n), 1<<(2*n), func(t *T) {
			for _, typ := range []string{"", "static", "dynamic"} {
				for k := 0; k < 16; k++ {
					m := &mPres{typ: typ, mup: k&1 != 0, ids: (t.Idx + k) % 3}
					if (t.Idx+k)%5 == 0 {
						m.noise = newFiller(t.R, 0)
						t.Obs("presentations with everything else")
					}
					if k&2 != 0 {
						m.mpdDur = mpd.Ptr(int64(1000e9) + t.R.Int64N(1e12))
					}
					m.ast, m.astSec = asts[k>>2].s, asts[k>>2].sec
					for i := 0; i < n; i++ {
						var p mPeriod
						if t.Idx>>(2*i)&1 != 0 {
							p.start = mpd.Ptr(int64(i)*100e9 + t.R.Int64N(50e9)/1e6*1e6)
						}
						if t.Idx>>(2*i)&2 != 0 {
							p.dur = mpd.Ptr(t.R.Int64N(90e9) / 1e6 * 1e6)
						}
						m.ps = append(m.ps, p)
					}
					m.zeros(t)
					for how := 0; how < 3; how++ {
						if m.mpdDur != nil {
							*m.mpdDur = *m.mpdDur / 1e6 * 1e6
						}
						judgePres(t, m, how)
					}
					t.Evals(3)
				}
			}
		})
	}
	c.Cases("long", c.N(3000, 100000), func(t *T) {
		n := 1 + t.R.IntN(12)
		if t.R.IntN(50) == 0 {
			n = 200
		}
		m := &mPres{typ: []string{"", "static", "dynamic"}[t.R.IntN(3)], mup: t.R.IntN(2) == 0}
		how := t.R.IntN(3)
		unit := int64(1e6) // what a text can hold
		if how != 2 && t.R.IntN(2) == 0 {
			unit = 1
		}
		if t.R.IntN(2) == 0 {
			m.mpdDur = mpd.Ptr(t.R.Int64N(1e15) / unit * unit)
		}
		a := asts[t.R.IntN(len(asts))]
		m.ast, m.astSec = a.s, a.sec
		ds, dd := t.R.IntN(4), t.R.IntN(4)
		var cur int64
		for i := 0; i < n; i++ {
			var p mPeriod
			if t.R.IntN(4) < ds {
				p.start = mpd.Ptr(cur)
			}
			if t.R.IntN(4) < dd {
				p.dur = mpd.Ptr(t.R.Int64N(100e9) / unit * unit)
			}
			cur += t.R.Int64N(120e9) / unit * unit
			m.ps = append(m.ps, p)
		}
		m.ids = t.Idx % 3
		if t.R.IntN(3) == 0 {
			m.zeros(t)
		}
		if t.R.IntN(4) == 0 {
			m.noise = newFiller(t.R, 0)
			t.Obs("presentations with everything else")
		}
		judgePres(t, m, how)
		if t.Idx < 3 {
			t.Sample("%v", m)
		}
		// edits of a live presentation: the answers follow the current state
		v := m.build(0)
		for k := 0; k < 6; k++ {
			i := t.R.IntN(len(m.ps))
			switch t.R.IntN(10) {
			case 0:
				x := t.R.Int64N(1000e9)
				m.ps[i].start = &x
				v.Periods[i].Start = mpd.Ptr(mpd.Duration(x))
			case 1:
				m.ps[i].start, v.Periods[i].Start = nil, nil
			case 2:
				x := t.R.Int64N(1000e9)
				m.ps[i].dur = &x
				v.Periods[i].Duration = mpd.Ptr(mpd.Duration(x))
			case 3:
				if len(m.ps) > 1 {
					m.ps = append(m.ps[:i:i], m.ps[i+1:]...)
					v.Periods = append(v.Periods[:i:i], v.Periods[i+1:]...)
				}
			case 4:
				m.ps[i].dur, v.Periods[i].Duration = nil, nil
			case 5:
				m.typ = []string{"", "static", "dynamic"}[t.R.IntN(3)]
				if v.Type = nil; m.typ != "" {
					v.Type = mpd.Ptr(m.typ)
				}
			case 6:
				m.mup = !m.mup
				if v.MinimumUpdatePeriod = nil; m.mup {
					v.MinimumUpdatePeriod = mpd.Seconds2DurPtr(t.R.IntN(3))
				}
			case 7:
				x := t.R.Int64N(1000e9)
				m.mpdDur, v.MediaPresentationDuration = &x, mpd.Ptr(mpd.Duration(x))
				if t.R.IntN(3) == 0 {
					m.mpdDur, v.MediaPresentationDuration = nil, nil
				}
			case 8: // in place
				if m.ps[i].start != nil {
					*m.ps[i].start += 5e9
					*v.Periods[i].Start += 5e9
				}
			case 9: // a Period in the middle
				x := mpd.NewPeriod()
				x.SetParent(v)
				m.ps = append(m.ps[:i:i], append([]mPeriod{{}}, m.ps[i:]...)...)
				v.Periods = append(v.Periods[:i:i], append([]*mpd.Period{x}, v.Periods[i:]...)...)
			}
			for j, p := range v.Periods {
				ws, ok := m.start(j)
				gs, err := p.GetStart()
				if ok != (err == nil) || ok && int64(gs) != ws {
					t.Failf("start-edit", "after edits %v: start of %d is %d (%v), want %d (%t)", m, j, int64(gs), err, ws, ok)
				}
				wd, known := m.duration(j)
				if g, err := p.GetDuration(); known != (err == nil) || known && int64(g) != wd {
					t.Failf("duration-edit", "after edits %v: duration of %d is %d (%v), want %d (%t)", m, j, int64(g), err, wd, known)
				}
				if g, err := p.GetType(); err != nil || g != m.ptype(j) {
					t.Failf("type-edit", "after edits %v: type of %d is %d (%v)", m, j, int(g), err)
				}
			}
			t.Obs("edited presentations")
		}
	})
	// Presentations of very many Periods, some of which are judged.
	c.Cases("many", c.N(150, 3000), func(t *T) {
		r := t.R
		n := sizeUpTo(r, 30000)
		m := &mPres{typ: []string{"", "static", "dynamic"}[r.IntN(3)], mup: r.IntN(2) == 0, ids: t.Idx % 3}
		if r.IntN(2) == 0 {
			m.mpdDur = mpd.Ptr(int64(1e15))
		}
		ds, dd := r.IntN(5), r.IntN(4)
		if ds == 4 {
			ds = 0
			dd = 3 + r.IntN(2) // one after the other
		}
		for i := 0; i < n; i++ {
			var p mPeriod
			if r.IntN(4) < ds {
				p.start = mpd.Ptr(int64(i) * 10e9)
			}
			if r.IntN(4) < dd || dd == 3 && r.IntN(500) > 0 {
				p.dur = mpd.Ptr(r.Int64N(10e9))
			}
			m.ps = append(m.ps, p)
		}
		v := m.build(r.IntN(2))
		for k := 0; k < 60; k++ {
			j := r.IntN(n)
			switch {
			case k < 5:
				j = max(0, n-1-k)
			case k < 40:
				j = min(n-1, max(0, sizeUpTo(r, n)+r.IntN(3)-1))
			}
			p := v.Periods[j]
			if g, err := p.GetIndex(); err != nil || g != j {
				t.Failf("index-many", "of %d Periods, the index of %d is %d (%v)", n, j, g, err)
				return
			}
			if g, err := p.GetType(); err != nil || g != m.ptype(j) {
				t.Failf("type-many", "of %d Periods, the type of %d is %d (%v), want %d", n, j, int(g), err, int(m.ptype(j)))
				return
			}
			ws, ok := m.start(j)
			if g, err := p.GetStart(); ok != (err == nil) || ok && int64(g) != ws {
				t.Failf("start-many", "of %d Periods, the start of %d is %d (%v), want %d (%t)", n, j, int64(g), err, ws, ok)
				return
			}
			wd, known := m.duration(j)
			if g, err := p.GetDuration(); known != (err == nil) || known && int64(g) != wd {
				t.Failf("duration-many", "of %d Periods, the duration of %d is %d (%v), want %d (%t)", n, j, int64(g), err, wd, known)
				return
			}
			t.Obs("periods among very many")
		}
		t.Evals(60)
		t.Nontrivial(fmt.Sprint(n, m.typ, ds, dd))
	})
	c.Require("periods among very many", 2000)
	c.Cases("unlinked", 1, func(t *T) {
		p := mpd.NewPeriod()
		if _, err := p.GetType(); !errors.Is(err, mpd.ErrParentNotSet) {
			t.Failf("unlinked", "GetType: %v", err)
		}
		if _, err := p.GetStart(); !errors.Is(err, mpd.ErrParentNotSet) {
			t.Failf("unlinked", "GetStart: %v", err)
		}
		if _, err := p.GetDuration(); !errors.Is(err, mpd.ErrParentNotSet) {
			t.Failf("unlinked", "GetDuration: %v", err)
		}
		if _, err := p.GetIndex(); !errors.Is(err, mpd.ErrParentNotSet) {
			t.Failf("unlinked", "GetIndex: %v", err)
		}
		m := mpd.NewMPD("static")
		p.SetParent(m)
		if _, err := p.GetIndex(); !errors.Is(err, mpd.ErrPeriodNotFound) {
			t.Failf("unlinked", "GetIndex: %v", err)
		}
		if _, err := p.GetType(); err == nil {
			t.Failf("unlinked", "GetType: %v", err)
		}
		if _, err := p.GetStart(); err == nil {
			t.Failf("unlinked", "GetStart: %v", err)
		}
		names := map[mpd.PeriodType]string{mpd.PTRegular: "regular", mpd.PTEarlyAvailable: "early-available", mpd.PTEarlyTerminated: "early-terminated", mpd.PTBad: "unknown"}
		for k, w := range names {
			if k.String() != w {
				t.Failf("name", "%d is %q", int(k), k.String())
			}
		}
	})
	c.Require("periods judged", 5000)
	c.Require("stray periods judged", 10000)
	c.Require("presentations with everything else", 500)
	c.Require("times of zero", 1000)
	c.Require("durations derived", 2000)
	c.Require("durations refused", 1000)
}
