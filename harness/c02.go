package main

import (
	"fmt"
	"reflect"
	"sync"

	"github.com/Eyevinn/dash-mpd/mpd"
)

func init() {
	register(&Check{ID: "C02", Level: "exploration",
		Rule: "MPD structures populated by reflection (systematically: every field of every type reachable from mpd.MPD; randomly: whole trees), written and read again by the code under test, and compared field by field. Non-trivial: the structure has at least 3 compared leaves.",
		Run:  runC02})
}

func writeRead(t *T, m *mpd.MPD, indent string, header bool) {
	out, err := m.WriteToString(indent, header)
	if err != nil {
		t.Failf("write-error", "writing failed: %v\n%s", err, clip(dump(m), 3000))
		return
	}
	m2, err := mpd.ReadFromString(out)
	if err != nil {
		t.Failf("reread-error", "what was written is rejected: %v\n%s", err, out)
		return
	}
	d := &differ{strEq: sameStr, trim: indent != ""}
	if err := d.diff("MPD", reflect.ValueOf(m).Elem(), reflect.ValueOf(m2).Elem()); err != nil {
		t.Failf("field-changed", "%v\nwritten: %s", err, out)
		return
	}
	t.ObsN("fields compared", d.leaves)
	if d.leaves >= 3 {
		t.Nontrivial(out)
	}
}

func runC02(c *Ctx) {
	items := allFields()
	var mu sync.Mutex
	covered := map[string]bool{}
	hits := func() (func(string), func()) {
		local := map[string]bool{}
		return func(k string) { local[k] = true }, func() {
			mu.Lock()
			defer mu.Unlock()
			for k := range local {
				covered[k] = true
			}
		}
	}
	per := c.N(8, 60)
	c.Cases("field", len(items)*per, func(t *T) {
		it := items[t.Idx/per]
		v := t.Idx % per
		f := newFiller(t.R, v%2)
		f.dense, f.budget = []int{0, 10, 30}[v%3], 6
		f.noMixed = false
		hit, done := hits()
		f.hit = hit
		m, target := f.buildChain(it.chain)
		ind, hdr := indentOf(v)
		f.field(it.t, it.sf, target.FieldByIndex(it.sf.Index), true)
		if m.XMLNs == "" || len(it.chain) == 0 && it.sf.Name == "XMLNs" {
			m.XMLNs = nsDASH
		}
		done()
		writeRead(t, m, ind, hdr)
	})
	// Long lists and long strings.
	var lists []fieldItem
	for _, it := range items {
		if k := it.sf.Type; k.Kind() == reflect.Slice && k != typAttrs && k != typStrVec {
			lists = append(lists, it)
		}
	}
	sizes := []int{9, 17, 33, 65, 130, 260, 520, 1030}
	if c.Thorough() {
		sizes = append(sizes, 2100, 4200, 16500)
	}
	c.Cases("wide", len(lists)*len(sizes), func(t *T) {
		it := lists[t.Idx/len(sizes)]
		f := newFiller(t.R, t.R.IntN(2))
		f.dense, f.budget, f.long = 3, 6, false
		m, target := f.buildChain(it.chain)
		f.wide = sizes[t.Idx%len(sizes)] - t.R.IntN(4)
		t.ObsN("elements in long lists", f.wide)
		f.field(it.t, it.sf, target.FieldByIndex(it.sf.Index), true)
		m.XMLNs = nsDASH
		ind, hdr := indentOf(t.R.IntN(4))
		writeRead(t, m, ind, hdr)
	})
	c.Cases("very wide", c.N(32, 600), func(t *T) {
		it := lists[t.R.IntN(len(lists))]
		f := newFiller(t.R, t.R.IntN(2))
		f.dense, f.budget, f.long = 3, 0, false
		m, target := f.buildChain(it.chain)
		f.wide = sizeUpTo(t.R, 70000)
		t.ObsN("elements in very long lists", f.wide)
		f.field(it.t, it.sf, target.FieldByIndex(it.sf.Index), true)
		m.XMLNs = nsDASH
		ind, hdr := indentOf(t.R.IntN(4))
		writeRead(t, m, ind, hdr)
	})
	c.Cases("tree", c.N(20000, 400000), func(t *T) {
		f := newFiller(t.R, t.R.IntN(2))
		hit, done := hits()
		f.hit = hit
		m := f.mpdTree()
		done()
		ind, hdr := indentOf(t.R.IntN(4))
		if t.Idx < 2 {
			s, _ := m.WriteToString("", false)
			t.Sample("%s", s)
		}
		writeRead(t, m, ind, hdr)
	})
	if c.replay == nil {
		for _, it := range items {
			if covered[it.key()] {
				c.obs["struct fields exercised"]++
			} else {
				fmt.Println("not exercised:", it.key())
			}
		}
		c.Require("struct fields exercised", int64(len(items)))
		c.Require("fields compared", 50000)
	}
}
