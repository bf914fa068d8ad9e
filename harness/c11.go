package main

import (
	"fmt"
	"math"
	"reflect"

	"github.com/Eyevinn/dash-mpd/mpd"
)

func init() {
	register(&Check{ID: "C11", Level: "exploration",
		Rule: "Trees populated by reflection (systematically every field of every type) and read documents are cloned (MPD, Period, AdaptationSet); the copy must be equal field by field and write the same text, share no memory with the original (addresses of all pointers and slices are compared), be linked within itself, and either may be changed everywhere without a change of the other. Non-trivial: at least one shared-memory candidate.",
		Run:  runC11})
}

// memory collects the addresses of all memory reachable from v, not by way of parent links.
func memory(v reflect.Value, out map[uintptr]string, path string) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		if v.Elem().Type().Size() > 0 {
			out[v.Pointer()] = path
		}
		memory(v.Elem(), out, path)
	case reflect.Slice:
		if v.Cap() == 0 {
			return
		}
		out[v.Pointer()] = path
		for i := 0; i < v.Len(); i++ {
			memory(v.Index(i), out, fmt.Sprintf("%s[%d]", path, i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if sf := v.Type().Field(i); sf.IsExported() || sf.Anonymous {
				memory(v.Field(i), out, path+"."+v.Type().Field(i).Name)
			}
		}
	}
}

// scramble changes every value reachable from v.
func scramble(v reflect.Value) int {
	n := 0
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			n += scramble(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			n += scramble(v.Index(i))
		}
		if v.Len() > 0 && v.CanSet() && v.Type().Elem().Kind() == reflect.Pointer {
			v.Index(0).Set(reflect.Zero(v.Type().Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" || v.Type().Field(i).Anonymous {
				n += scramble(v.Field(i))
			}
		}
	case reflect.String:
		v.SetString(v.String() + "!")
		n++
	case reflect.Bool:
		v.SetBool(!v.Bool())
		n++
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(v.Int() ^ 1)
		n++
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(v.Uint() ^ 1)
		n++
	case reflect.Float32, reflect.Float64:
		if f := v.Float(); math.IsInf(f, 0) || f == 0 {
			v.SetFloat(3)
		} else {
			v.SetFloat(0)
		}
		n++
	}
	return n
}

// alias makes places of a tree refer to the same structure or list, as in a tree built by a program
// that sets one template, list of roles or number for several elements.
func alias(t *T, v reflect.Value, pool map[reflect.Type][]reflect.Value) int {
	n := 0
	switch v.Kind() {
	case reflect.Pointer, reflect.Slice:
		if v.IsNil() || v.Kind() == reflect.Slice && v.Len() == 0 {
			return 0
		}
		switch v.Type().String() {
		case "*mpd.MPD", "*mpd.Period", "[]*mpd.Period", "*mpd.AdaptationSetType", "[]*mpd.AdaptationSetType", "*mpd.RepresentationType", "[]*mpd.RepresentationType", "*mpd.SubRepresentationType", "[]*mpd.SubRepresentationType":
			// these have one parent
		default:
			// only what is complete is in the pool, so there are no cycles
			if old := pool[v.Type()]; v.CanSet() && len(old) > 0 && t.R.IntN(2) == 0 {
				v.Set(old[t.R.IntN(len(old))])
				return 1
			}
			defer func() { pool[v.Type()] = append(pool[v.Type()], v) }()
		}
		if v.Kind() == reflect.Pointer {
			return alias(t, v.Elem(), pool)
		}
		for i := 0; i < v.Len(); i++ {
			n += alias(t, v.Index(i), pool)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" || v.Type().Field(i).Anonymous {
				n += alias(t, v.Field(i), pool)
			}
		}
	}
	return n
}

// empties makes some lists that are nil empty, with and without room.
func empties(t *T, v reflect.Value) (n int) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			n += empties(t, v.Elem())
		}
	case reflect.Slice:
		if v.IsNil() && v.CanSet() && t.R.IntN(4) == 0 {
			v.Set(reflect.MakeSlice(v.Type(), 0, t.R.IntN(3)))
			return 1
		}
		for i := 0; i < v.Len(); i++ {
			n += empties(t, v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" || v.Type().Field(i).Anonymous {
				n += empties(t, v.Field(i))
			}
		}
	}
	return n
}

func runC11(c *Ctx) {
	// compare is the part of judge that changes neither.
	compare := func(t *T, kind string, a, b any, write func(x any) (string, error)) (wa string, addrs int, ok bool) {
		va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
		if va.Pointer() == vb.Pointer() {
			t.Failf("same", "%s: the clone is the original", kind)
			return
		}
		d := &differ{strEq: sameStr}
		if err := d.diff(kind, va.Elem(), vb.Elem()); err != nil {
			t.Failf("differs", "the clone differs: %v", err)
			return
		}
		da, db := fullNames(va), fullNames(vb)
		if da != db {
			t.Failf("differs", "the clone differs:\n%s\n%s", clip(da, 4000), clip(db, 4000))
			return
		}
		wa, e1 := write(a)
		wb, e2 := write(b)
		if e1 != nil || e2 != nil || wa != wb {
			t.Failf("written", "the clone of %s is written differently (%v, %v) at %s", kind, e1, e2, firstDiff(wa, wb))
			return
		}
		ma, mb := map[uintptr]string{}, map[uintptr]string{}
		memory(va, ma, kind)
		memory(vb, mb, kind)
		for p, path := range ma {
			if q, same := mb[p]; same {
				t.Failf("shared", "%s of the original is %s of the clone", path, q)
				return
			}
		}
		t.ObsN("addresses compared", len(ma))
		return wa, len(ma), true
	}
	// judge compares an original with its copy; what is written of both is given by write.
	judge := func(t *T, kind string, a, b any, write func(x any) (string, error)) {
		va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
		wa, ma, ok := compare(t, kind, a, b, write)
		if !ok {
			return
		}
		if ma > 1 {
			t.Nontrivial(wa, kind)
		}
		before := dump(a)
		t.ObsN("values changed in clones", scramble(vb))
		if dump(a) != before {
			t.Failf("isolation", "changes of the clone of %s are seen in the original\n%s\n%s", kind, before, dump(a))
			return
		}
		beforeB := dump(b)
		scramble(va)
		if dump(b) != beforeB {
			t.Failf("isolation", "changes of the original %s are seen in the clone", kind)
		}
	}
	linked := func(t *T, m *mpd.MPD, p *mpd.Period, a *mpd.AdaptationSetType) {
		f := newFamily()
		switch {
		case m != nil:
			f.adoptMPD(m)
		case p != nil:
			f.adoptPeriod(p, p.Parent())
		default:
			f.adoptSet(a, a.Parent())
		}
		if e := f.judge(); e != "" {
			t.Failf("links", "in a clone: %s", e)
		}
		t.Obs("linked clones")
	}
	all := func(t *T, m *mpd.MPD) {
		m.SetParents()
		orig := dump(m)
		parts := 0
		for _, p := range m.Periods {
			parts += 1 + len(p.AdaptationSets) + len(p.EmptyAdaptationSets)
		}
		some := func() bool { return t.R.IntN(max(2, parts/8)) == 0 } // not too many of them
		for _, p := range m.Periods {
			for _, a := range append(append([]*mpd.AdaptationSetType{}, p.AdaptationSets...), p.EmptyAdaptationSets...) {
				if some() {
					if t.R.IntN(3) == 0 { // one that is not part of a Period
						a.SetParent(nil)
						t.Obs("unlinked originals")
					}
					ac := a.Clone()
					a.SetParent(p)
					linked(t, nil, nil, ac)
					a2 := a.Clone()
					write := func(x any) (string, error) {
						q := mpd.NewPeriod()
						q.AdaptationSets = []*mpd.AdaptationSetType{x.(*mpd.AdaptationSetType)}
						return q.WriteToString("")
					}
					compare(t, "AdaptationSet", a, ac, write)
					judge(t, "AdaptationSet", ac, a2, write)
					if dump(m) != orig {
						t.Failf("isolation", "cloning or changing clones of an AdaptationSet changed the original")
						return
					}
				}
			}
			if some() {
				if t.R.IntN(3) == 0 { // one that is not part of an MPD
					p.SetParent(nil)
					t.Obs("unlinked originals")
				}
				pc := p.Clone()
				p.SetParent(m)
				linked(t, nil, pc, nil)
				p2 := p.Clone()
				write := func(x any) (string, error) { return x.(*mpd.Period).WriteToString("") }
				compare(t, "Period", p, pc, write)
				judge(t, "Period", pc, p2, write)
				if dump(m) != orig {
					t.Failf("isolation", "cloning or changing clones of a Period changed the original")
					return
				}
			}
		}
		mc := mpd.Clone(m)
		linked(t, mc, nil, nil)
		linked(t, m, nil, nil)
		judge(t, "MPD", m, mc, func(x any) (string, error) { return x.(*mpd.MPD).WriteToString("", false) })
		t.Obs("trees cloned")
	}
	items := allFields()
	per := c.N(3, 30)
	c.Cases("field", len(items)*per, func(t *T) {
		it := items[t.Idx/per]
		f := newFiller(t.R, 1)
		f.dense, f.budget, f.noMixed = []int{0, 10, 30}[t.Idx%per%3], 8, false
		m, target := f.buildChain(it.chain)
		f.field(it.t, it.sf, target.FieldByIndex(it.sf.Index), true)
		all(t, m)
	})
	c.Cases("tree", c.N(3000, 100000), func(t *T) {
		f := newFiller(t.R, 2)
		f.noMixed = false
		m := f.mpdTree()
		if t.R.IntN(4) == 0 && alias(t, reflect.ValueOf(m), map[reflect.Type][]reflect.Value{}) > 0 {
			t.Obs("trees that use a structure at several places")
		}
		if t.R.IntN(3) == 0 && empties(t, reflect.ValueOf(m)) > 0 {
			t.Obs("trees with empty lists")
		}
		all(t, m)
	})
	c.Cases("sizes", c.N(60, 1500), func(t *T) {
		n := sizeUpTo(t.R, 3000)
		var m *mpd.MPD
		if t.Idx%2 == 0 {
			m = wideMPD(t.R, t.Idx/2%wideLevels, n)
		} else {
			f := newFiller(t.R, 2)
			f.noMixed, f.wide, f.long = false, n, true
			m = f.mpdTree()
		}
		all(t, m)
		t.Obs("trees with long lists")
	})
	c.Require("trees with long lists", 50)
	c.Cases("doc", c.N(1500, 50000), func(t *T) {
		g := newGen(t.R)
		m, err := mpd.ReadFromString(newSurface(t.R).render(g.doc(30)))
		if err != nil {
			t.Failf("rejected", "%v", err)
			return
		}
		if t.Idx < 2 {
			t.Sample("%s", clip(dump(m), 600))
		}
		all(t, m)
	})
	c.Require("trees cloned", 5000)
	c.Require("unlinked originals", 1000)
	c.Require("trees that use a structure at several places", 200)
	c.Require("addresses compared", 50000)
	c.Require("values changed in clones", 100000)
}

// fullNames renders the element names kept in a tree, which the field comparison leaves out.
func fullNames(v reflect.Value) string {
	s := ""
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			return fullNames(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			s += fullNames(v.Index(i))
		}
	case reflect.Struct:
		if v.Type() == typName {
			return fmt.Sprint(v.Interface()) + ";"
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" || v.Type().Field(i).Anonymous {
				s += fullNames(v.Field(i))
			}
		}
	}
	return s
}
