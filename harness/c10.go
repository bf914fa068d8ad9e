package main

import (
	"errors"
	"fmt"
	"reflect"

	"github.com/Eyevinn/dash-mpd/mpd"
)

func init() {
	register(&Check{ID: "C10", Level: "exploration",
		Rule: "Random histories of appends, inserts, removals, moves, SetParent and SetParents at every level, reads and clones on several trees at once; after every operation each node of each tree must have exactly the parent (and each Period the index) that a model of the history gives it. Non-trivial: a history of at least 5 operations.",
		Run:  runC10})
}

// family is the model: what each node's parent link must be.
type family struct {
	mpds    []*mpd.MPD
	periods []*mpd.Period
	sets    []*mpd.AdaptationSetType
	reps    []*mpd.RepresentationType
	subs    []*mpd.SubRepresentationType
	pp      map[*mpd.Period]*mpd.MPD
	pa      map[*mpd.AdaptationSetType]*mpd.Period
	pr      map[*mpd.RepresentationType]*mpd.AdaptationSetType
	ps      map[*mpd.SubRepresentationType]*mpd.RepresentationType
	// children in order, as the model has them
	cm map[*mpd.MPD][]*mpd.Period
	cp map[*mpd.Period][]*mpd.AdaptationSetType
	ce map[*mpd.Period][]*mpd.AdaptationSetType // empty adaptation sets
	ca map[*mpd.AdaptationSetType][]*mpd.RepresentationType
	cr map[*mpd.RepresentationType][]*mpd.SubRepresentationType
}

func newFamily() *family {
	return &family{pp: map[*mpd.Period]*mpd.MPD{}, pa: map[*mpd.AdaptationSetType]*mpd.Period{}, pr: map[*mpd.RepresentationType]*mpd.AdaptationSetType{}, ps: map[*mpd.SubRepresentationType]*mpd.RepresentationType{},
		cm: map[*mpd.MPD][]*mpd.Period{}, cp: map[*mpd.Period][]*mpd.AdaptationSetType{}, ce: map[*mpd.Period][]*mpd.AdaptationSetType{}, ca: map[*mpd.AdaptationSetType][]*mpd.RepresentationType{}, cr: map[*mpd.RepresentationType][]*mpd.SubRepresentationType{}}
}

// adopt takes over a tree that a reader or Clone made, as it should be linked: everything below
// the top, and the top to parent.
func (f *family) adoptMPD(m *mpd.MPD) {
	f.mpds = append(f.mpds, m)
	for _, p := range m.Periods {
		f.adoptPeriod(p, m)
	}
	f.cm[m] = append([]*mpd.Period{}, m.Periods...)
}

func (f *family) adoptPeriod(p *mpd.Period, m *mpd.MPD) {
	f.periods = append(f.periods, p)
	f.pp[p] = m
	for _, a := range p.AdaptationSets {
		f.adoptSet(a, p)
	}
	for _, a := range p.EmptyAdaptationSets {
		f.adoptSet(a, p)
	}
	f.cp[p] = append([]*mpd.AdaptationSetType{}, p.AdaptationSets...)
	f.ce[p] = append([]*mpd.AdaptationSetType{}, p.EmptyAdaptationSets...)
}

func (f *family) adoptSet(a *mpd.AdaptationSetType, p *mpd.Period) {
	f.sets = append(f.sets, a)
	f.pa[a] = p
	for _, r := range a.Representations {
		f.reps = append(f.reps, r)
		f.pr[r] = a
		for _, s := range r.SubRepresentations {
			f.subs = append(f.subs, s)
			f.ps[s] = r
		}
		f.cr[r] = append([]*mpd.SubRepresentationType{}, r.SubRepresentations...)
	}
	f.ca[a] = append([]*mpd.RepresentationType{}, a.Representations...)
}

func (f *family) linkSet(a *mpd.AdaptationSetType) {
	for _, r := range f.ca[a] {
		f.pr[r] = a
		f.linkRep(r)
	}
}

func (f *family) linkRep(r *mpd.RepresentationType) {
	for _, s := range f.cr[r] {
		f.ps[s] = r
	}
}

func (f *family) linkPeriod(p *mpd.Period) {
	for _, a := range f.cp[p] {
		f.pa[a] = p
		f.linkSet(a)
	}
	for _, a := range f.ce[p] {
		f.pa[a] = p
		f.linkSet(a)
	}
}

func sameList[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// judge compares the links and lists of the real trees with the model.
func (f *family) judge() string {
	for i, m := range f.mpds {
		if !sameList(m.Periods, f.cm[m]) {
			return fmt.Sprintf("the Periods of MPD %d are not what was put there", i)
		}
	}
	for i, p := range f.periods {
		if p.Parent() != f.pp[p] {
			return fmt.Sprintf("parent of period %d is %p, want %p", i, p.Parent(), f.pp[p])
		}
		if !sameList(p.AdaptationSets, f.cp[p]) || !sameList(p.EmptyAdaptationSets, f.ce[p]) {
			return fmt.Sprintf("the adaptation sets of period %d are not what was put there", i)
		}
		idx, err := p.GetIndex()
		m := f.pp[p]
		if m == nil {
			if !errors.Is(err, mpd.ErrParentNotSet) {
				return fmt.Sprintf("GetIndex of unlinked period %d is %d (%v)", i, idx, err)
			}
			continue
		}
		want := -1
		for k, q := range f.cm[m] {
			if q == p {
				want = k
				break
			}
		}
		if want < 0 && !errors.Is(err, mpd.ErrPeriodNotFound) || want >= 0 && (err != nil || idx != want) {
			return fmt.Sprintf("GetIndex of period %d is %d (%v), want %d", i, idx, err, want)
		}
	}
	for i, a := range f.sets {
		if a.Parent() != f.pa[a] {
			return fmt.Sprintf("parent of adaptation set %d is %p, want %p", i, a.Parent(), f.pa[a])
		}
		if !sameList(a.Representations, f.ca[a]) {
			return fmt.Sprintf("the representations of adaptation set %d are not what was put there", i)
		}
	}
	for i, r := range f.reps {
		if r.Parent() != f.pr[r] {
			return fmt.Sprintf("parent of representation %d is %p, want %p", i, r.Parent(), f.pr[r])
		}
		if !sameList(r.SubRepresentations, f.cr[r]) {
			return fmt.Sprintf("the sub-representations of representation %d are not what was put there", i)
		}
	}
	for i, s := range f.subs {
		if s.Parent() != f.ps[s] {
			return fmt.Sprintf("parent of sub-representation %d is %p, want %p", i, s.Parent(), f.ps[s])
		}
	}
	return ""
}

func without[T comparable](l []T, i int) []T {
	out := append([]T{}, l[:i]...)
	return append(out, l[i+1:]...)
}

func insert[T any](l []T, i int, x T) []T {
	out := append([]T{}, l[:i]...)
	out = append(out, x)
	return append(out, l[i:]...)
}

func runC10(c *Ctx) {
	c.Cases("history", c.N(6000, 200000), func(t *T) {
		f := newFamily()
		r := t.R
		var log []string
		steps := 5 + r.IntN(40)
		fail := func(e string) {
			t.Failf("links", "%s\nafter: %v", e, log)
		}
		// what links do not depend on
		var fl *filler
		if r.IntN(5) == 0 {
			fl = newFiller(r, 0)
			t.Obs("histories with everything else")
		}
		rest := func(v any) {
			if fl != nil {
				fl.budget = 3
				fl.fill(reflect.ValueOf(v).Elem())
			}
		}
		newMPD := func() *mpd.MPD {
			m := mpd.NewMPD([]string{"static", "dynamic"}[r.IntN(2)])
			rest(m)
			m.Periods = nil
			f.mpds = append(f.mpds, m)
			return m
		}
		newMPD()
		pickM := func() *mpd.MPD { return f.mpds[r.IntN(len(f.mpds))] }
		// identifiers are often equal, or the same in different trees: links do not depend on them
		id := func() string { return []string{"", "1", "1", "2", fmt.Sprint(len(f.periods))}[r.IntN(5)] }
		newPeriod := func() *mpd.Period {
			p := mpd.NewPeriod()
			rest(p)
			p.AdaptationSets, p.EmptyAdaptationSets = nil, nil
			p.Id = id()
			if r.IntN(3) == 0 {
				p.Start = mpd.Ptr(mpd.Duration(r.IntN(3)) * 1e9)
			}
			f.periods = append(f.periods, p)
			return p
		}
		newSet := func() *mpd.AdaptationSetType {
			a := mpd.NewAdaptationSet()
			rest(a)
			a.Representations = nil
			if r.IntN(2) == 0 {
				a.Id = mpd.Ptr(uint32(r.IntN(3)))
			}
			f.sets = append(f.sets, a)
			return a
		}
		newRep := func() *mpd.RepresentationType {
			a := mpd.NewRepresentation()
			rest(a)
			a.SubRepresentations = nil
			a.Id = id()
			f.reps = append(f.reps, a)
			return a
		}
		newSub := func() *mpd.SubRepresentationType {
			a := mpd.NewSubRepresentation()
			rest(a)
			f.subs = append(f.subs, a)
			return a
		}
		for k := 0; k < steps; k++ {
			op := r.IntN(24)
			log = append(log, fmt.Sprint(op))
			t.Obs(fmt.Sprintf("operation %02d", op))
			switch op {
			case 0:
				if len(f.mpds) < 4 {
					newMPD()
				}
			case 1, 2:
				m, p := pickM(), newPeriod()
				m.AppendPeriod(p)
				f.cm[m] = append(f.cm[m], p)
				f.pp[p] = m
			case 3, 4, 5:
				if len(f.periods) == 0 {
					continue
				}
				p, a := f.periods[r.IntN(len(f.periods))], newSet()
				p.AppendAdaptationSet(a)
				f.cp[p] = append(f.cp[p], a)
				f.pa[a] = p
			case 6, 7, 8:
				if len(f.sets) == 0 {
					continue
				}
				a, x := f.sets[r.IntN(len(f.sets))], newRep()
				a.AppendRepresentation(x)
				f.ca[a] = append(f.ca[a], x)
				f.pr[x] = a
			case 9, 10:
				if len(f.reps) == 0 {
					continue
				}
				a, x := f.reps[r.IntN(len(f.reps))], newSub()
				a.AppendSubRepresentation(x)
				f.cr[a] = append(f.cr[a], x)
				f.ps[x] = a
			case 11: // put an unlinked subtree in by hand
				if len(f.periods) == 0 {
					continue
				}
				p, a, x, s := f.periods[r.IntN(len(f.periods))], newSet(), newRep(), newSub()
				x.SubRepresentations = []*mpd.SubRepresentationType{s}
				f.cr[x] = []*mpd.SubRepresentationType{s}
				a.Representations = []*mpd.RepresentationType{x}
				f.ca[a] = []*mpd.RepresentationType{x}
				if r.IntN(2) == 0 {
					i := r.IntN(len(p.AdaptationSets) + 1)
					p.AdaptationSets = insert(p.AdaptationSets, i, a)
					f.cp[p] = insert(f.cp[p], i, a)
				} else {
					p.EmptyAdaptationSets = append(p.EmptyAdaptationSets, a)
					f.ce[p] = append(f.ce[p], a)
				}
			case 12: // insert a period at the front
				m, p := pickM(), newPeriod()
				i := r.IntN(len(m.Periods) + 1)
				m.Periods = insert(m.Periods, i, p)
				f.cm[m] = insert(f.cm[m], i, p)
				p.SetParent(m)
				f.pp[p] = m
			case 13: // remove a period; its link stays until it is changed
				m := pickM()
				if len(m.Periods) == 0 {
					continue
				}
				i := r.IntN(len(m.Periods))
				m.Periods = without(m.Periods, i)
				f.cm[m] = without(f.cm[m], i)
			case 14: // move a period to another MPD
				m, m2 := pickM(), pickM()
				if len(m.Periods) == 0 {
					continue
				}
				i := r.IntN(len(m.Periods))
				p := m.Periods[i]
				m.Periods = without(m.Periods, i)
				f.cm[m] = without(f.cm[m], i)
				m2.AppendPeriod(p)
				f.cm[m2] = append(f.cm[m2], p)
				f.pp[p] = m2
			case 15: // move a representation
				if len(f.sets) < 2 {
					continue
				}
				a, b := f.sets[r.IntN(len(f.sets))], f.sets[r.IntN(len(f.sets))]
				if len(a.Representations) == 0 {
					continue
				}
				x := a.Representations[0]
				a.Representations = without(a.Representations, 0)
				f.ca[a] = without(f.ca[a], 0)
				b.AppendRepresentation(x)
				f.ca[b] = append(f.ca[b], x)
				f.pr[x] = b
			case 16, 17:
				m := pickM()
				m.SetParents()
				for _, p := range f.cm[m] {
					f.pp[p] = m
					f.linkPeriod(p)
				}
			case 18:
				if len(f.periods) == 0 {
					continue
				}
				p := f.periods[r.IntN(len(f.periods))]
				p.SetParents()
				f.linkPeriod(p)
			case 19:
				if len(f.sets) == 0 {
					continue
				}
				a := f.sets[r.IntN(len(f.sets))]
				a.SetParents()
				f.linkSet(a)
			case 20:
				if len(f.reps) == 0 {
					continue
				}
				x := f.reps[r.IntN(len(f.reps))]
				x.SetParents()
				f.linkRep(x)
			case 21:
				switch r.IntN(4) {
				case 0:
					if len(f.periods) > 0 {
						p := f.periods[r.IntN(len(f.periods))]
						var m *mpd.MPD
						if r.IntN(3) > 0 {
							m = pickM()
						}
						p.SetParent(m)
						f.pp[p] = m
					}
				case 1:
					if len(f.sets) > 0 {
						a := f.sets[r.IntN(len(f.sets))]
						a.SetParent(nil)
						f.pa[a] = nil
					}
				case 2:
					if len(f.reps) > 0 && len(f.sets) > 0 {
						x, a := f.reps[r.IntN(len(f.reps))], f.sets[r.IntN(len(f.sets))]
						x.SetParent(a)
						f.pr[x] = a
					}
				case 3:
					if len(f.subs) > 0 && len(f.reps) > 0 {
						s, x := f.subs[r.IntN(len(f.subs))], f.reps[r.IntN(len(f.reps))]
						s.SetParent(x)
						f.ps[s] = x
					}
				}
			case 22: // by way of the text
				if len(f.mpds) > 4 {
					continue
				}
				s, err := pickM().WriteToString("", false)
				if err != nil {
					fail(err.Error())
					return
				}
				m2, err := mpd.ReadFromString(s)
				if err != nil {
					fail(err.Error())
					return
				}
				f.adoptMPD(m2)
			case 23:
				if len(f.mpds) > 6 {
					continue
				}
				switch r.IntN(3) {
				case 0:
					f.adoptMPD(mpd.Clone(pickM()))
				case 1:
					if len(f.periods) > 0 {
						p := f.periods[r.IntN(len(f.periods))]
						q := p.Clone()
						if q.Parent() == nil { // the copy is not part of an MPD
							f.adoptPeriod(q, nil)
						} else {
							f.adoptPeriod(q, f.pp[p])
						}
						m := pickM()
						m.AppendPeriod(q)
						f.cm[m] = append(f.cm[m], q)
						f.pp[q] = m
					}
				case 2:
					if len(f.sets) > 0 && len(f.periods) > 0 {
						a := f.sets[r.IntN(len(f.sets))]
						b := a.Clone()
						f.adoptSet(b, f.pa[a])
						p := f.periods[r.IntN(len(f.periods))]
						p.AppendAdaptationSet(b)
						f.cp[p] = append(f.cp[p], b)
						f.pa[b] = p
					}
				}
			}
			if e := f.judge(); e != "" {
				fail(e)
				return
			}
			t.ObsN("links compared", len(f.periods)+len(f.sets)+len(f.reps)+len(f.subs))
		}
		t.Nontrivial(fmt.Sprint(log, t.Idx))
		if t.Idx < 2 {
			t.Sample("operations %v: %d periods, %d adaptation sets, %d representations", log, len(f.periods), len(f.sets), len(f.reps))
		}
	})
	// Every reader gives a linked tree, for any document.
	c.Cases("read", c.N(3000, 60000), func(t *T) {
		g := newGen(t.R)
		g.budget = 60
		text := newSurface(t.R).render(g.doc([]int{12, 30, 60}[t.R.IntN(3)]))
		m, err := mpd.ReadFromString(text)
		if err != nil {
			t.Failf("rejected", "%v\n%s", err, text)
			return
		}
		f := newFamily()
		f.adoptMPD(m)
		if e := f.judge(); e != "" {
			t.Failf("links", "%s\n%s", e, text)
		}
		t.ObsN("links of read documents", len(f.periods)+len(f.sets)+len(f.reps)+len(f.subs))
	})
	// Lists of all lengths at each level, linked in different ways, and again by another parent.
	c.Cases("sizes", c.N(300, 5000), func(t *T) {
		r := t.R
		level := t.Idx % wideLevels
		n := sizeUpTo(r, []int{4000, 20000, 20000, 40000, 40000}[level])
		m := wideMPD(r, level, n)
		how := r.IntN(6)
		other := struct {
			m *mpd.MPD
			p *mpd.Period
			a *mpd.AdaptationSetType
			r *mpd.RepresentationType
		}{mpd.NewMPD("static"), mpd.NewPeriod(), mpd.NewAdaptationSet(), mpd.NewRepresentation()}
		sets := func(p *mpd.Period) []*mpd.AdaptationSetType {
			return append(append([]*mpd.AdaptationSetType{}, p.AdaptationSets...), p.EmptyAdaptationSets...)
		}
		// some are linked already, to what holds them or to something else
		pre := r.IntN(3)
		link := func() bool { return pre > 0 && r.IntN(2) == 0 }
		for _, p := range m.Periods {
			if link() {
				p.SetParent([]*mpd.MPD{m, other.m}[r.IntN(2)])
			}
			for _, a := range sets(p) {
				if link() {
					a.SetParent([]*mpd.Period{p, other.p}[r.IntN(2)])
				}
				for _, x := range a.Representations {
					if link() {
						x.SetParent([]*mpd.AdaptationSetType{a, other.a}[r.IntN(2)])
					}
					for _, s := range x.SubRepresentations {
						if link() {
							s.SetParent([]*mpd.RepresentationType{x, other.r}[r.IntN(2)])
						}
					}
				}
			}
		}
		switch how {
		case 0:
			m.SetParents()
		case 1: // level by level
			for _, p := range m.Periods {
				p.SetParent(m)
				p.SetParents()
			}
		case 2: // from below
			for _, p := range m.Periods {
				p.SetParent(m)
				for _, a := range sets(p) {
					a.SetParent(p)
					a.SetParents()
				}
			}
		case 3:
			m.SetParents()
			m = mpd.Clone(m)
		case 4: // by appending
			ps := m.Periods
			m.Periods = nil
			for _, p := range ps {
				as := p.AdaptationSets
				p.AdaptationSets = nil
				for _, a := range as {
					rs := a.Representations
					a.Representations = nil
					for _, x := range rs {
						ss := x.SubRepresentations
						x.SubRepresentations = nil
						for _, s := range ss {
							x.AppendSubRepresentation(s)
						}
						a.AppendRepresentation(x)
					}
					p.AppendAdaptationSet(a)
				}
				for _, a := range p.EmptyAdaptationSets {
					a.SetParent(p)
					a.SetParents()
				}
				m.AppendPeriod(p)
			}
		default:
			text, err := m.WriteToString("", false)
			if err == nil {
				m, err = mpd.ReadFromString(text)
			}
			if err != nil {
				t.Failf("rejected", "level %d, %d: %v", level, n, err)
				return
			}
		}
		f := newFamily()
		f.adoptMPD(m)
		if e := f.judge(); e != "" {
			t.Failf("links", "%d structures at level %d linked in way %d: %s", n, level, how, e)
			return
		}
		t.ObsN("links of long lists", len(f.periods)+len(f.sets)+len(f.reps)+len(f.subs))
		// the lists move
		m2 := mpd.NewMPD("static")
		m2.Periods = m.Periods
		m.Periods = nil
		m2.SetParents()
		for _, p := range m2.Periods {
			if len(p.AdaptationSets) > 1 && r.IntN(2) == 0 {
				q := mpd.NewAdaptationSet()
				q.Representations, p.AdaptationSets[0].Representations = p.AdaptationSets[0].Representations, nil
				p.AdaptationSets[0] = q
			}
		}
		if r.IntN(2) == 0 {
			m2.SetParents()
		} else {
			for _, p := range m2.Periods {
				p.SetParents()
			}
		}
		f = newFamily()
		f.adoptMPD(m2)
		if e := f.judge(); e != "" {
			t.Failf("links", "%d structures at level %d, moved: %s", n, level, e)
		}
		t.Nontrivial(fmt.Sprint(level, n, how, pre))
	})
	c.Require("links of long lists", 100000)
	for i := 0; i < 24; i++ {
		c.Require(fmt.Sprintf("operation %02d", i), 100)
	}
	c.Require("histories with everything else", 500)
	c.Require("links compared", 100000)
	c.Require("links of read documents", 1000)
}
