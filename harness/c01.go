package main

import (
	"fmt"
	"sync"

	"github.com/Eyevinn/dash-mpd/mpd"

	"verifharness/infoset"
)

func init() {
	register(&Check{ID: "C01", Level: "exploration",
		Rule: "Model documents over the whole MPD vocabulary (849-line independent table), written in random surface forms (prefixes, quoting, references, CDATA, comments, order), read and written by the code under test, and compared as namespace-aware infosets by an independent strict parser. Systematic part: every attribute, child and text of every type. Non-trivial: at least 3 elements in the output.",
		Run:  runC01})
}

func indentOf(i int) (string, bool) {
	switch i % 4 {
	case 1:
		return "  ", false
	case 2:
		return "\t", true
	case 3:
		return "", true
	}
	return "", false
}

// roundTrip reads text and writes it again, and compares with the model.
func roundTrip(t *T, m *mNode, text, indent string, header bool) {
	v, err := mpd.ReadFromString(text)
	if err != nil {
		t.Failf("rejected", "a valid MPD was rejected: %v\n%s", err, text)
		return
	}
	out, err := v.WriteToString(indent, header)
	if err != nil {
		t.Failf("write-error", "writing failed: %v\n%s", err, text)
		return
	}
	o, err := infoset.Parse(out)
	if err != nil {
		t.Failf("ill-formed", "output is not well-formed: %v\ninput: %s\noutput: %s", err, text, out)
		return
	}
	if err := compareDoc(m, o, indent != ""); err != nil {
		t.Failf("fidelity", "%v\ninput: %s\noutput: %s", err, text, out)
		return
	}
	e, a := countNodes(o)
	t.ObsN("elements compared", e)
	t.ObsN("attributes compared", a)
	if e >= 3 {
		t.Nontrivial(text)
	}
}

func runC01(c *Ctx) {
	var mu sync.Mutex
	covered := map[string]bool{}
	addCover := func(m map[string]bool) {
		mu.Lock()
		defer mu.Unlock()
		for k := range m {
			covered[k] = true
		}
	}
	type item struct {
		t    *vType
		attr *vAttr
		kid  *vChild
		text bool
	}
	var items []item
	for _, t := range vocabList {
		for i := range t.attrs {
			items = append(items, item{t: t, attr: &t.attrs[i]})
		}
		for i := range t.kids {
			items = append(items, item{t: t, kid: &t.kids[i]})
		}
		items = append(items, item{t: t, text: true})
	}
	per := c.N(6, 40)
	c.Cases("each", len(items)*per, func(t *T) {
		it := items[t.Idx/per]
		v := t.Idx % per
		g := newGen(t.R)
		g.cover = map[string]bool{}
		g.hostile, g.zero, g.lexical, g.unknown, g.budget = v%2 == 1, false, v%3 == 1, false, 4
		g.onlyZero = v == 2
		root, target := g.chain(it.t)
		switch {
		case it.attr != nil:
			g.addAttr(target, it.attr)
		case it.kid != nil:
			n := 1
			if it.kid.many {
				n = 1 + v%3
			}
			for ; n > 0; n-- {
				target.kids = append(target.kids, mKid{n: g.child(target, it.kid, 3)})
			}
		default:
			if it.t.text {
				g.hit(it.t.name + "#text")
				target.kids = append(target.kids, mKid{text: g.str()})
			}
			if it.t.anyAttr {
				g.addAny(target)
			}
			if it.t.inner {
				g.addInner(target)
			}
		}
		s := newSurface(t.R)
		s.plain = v == 0
		ind, hdr := indentOf(v)
		roundTrip(t, root, s.render(root), ind, hdr)
		addCover(g.cover)
	})
	c.Cases("random", c.N(12000, 400000), func(t *T) {
		g := newGen(t.R)
		g.cover = map[string]bool{}
		if t.R.IntN(25) == 0 {
			g.dashNS = ""
		}
		dense := []int{2, 5, 12, 30, 60}[t.R.IntN(5)]
		g.budget = []int{10, 40, 120}[t.R.IntN(3)]
		m := g.doc(dense)
		text := newSurface(t.R).render(m)
		ind, hdr := indentOf(t.R.IntN(4))
		roundTrip(t, m, text, ind, hdr)
		addCover(g.cover)
		if t.Idx < 3 {
			t.Sample("input: %s", text)
		}
	})
	// Long lists and long strings.
	var lists []item
	for _, it := range items {
		if it.kid != nil && it.kid.many {
			lists = append(lists, it)
		}
	}
	sizes := []int{9, 17, 33, 65, 130, 260, 520, 1030}
	if c.Thorough() {
		sizes = append(sizes, 2100, 4200, 16500)
	}
	c.Cases("wide", len(lists)*len(sizes), func(t *T) {
		it, n := lists[t.Idx/len(sizes)], sizes[t.Idx%len(sizes)]
		g := newGen(t.R)
		g.unknown = false
		root, target := g.chain(it.t)
		n -= t.R.IntN(4)
		for i := 0; i < n; i++ {
			g.budget = g.r.IntN(3)
			target.kids = append(target.kids, mKid{n: g.child(target, it.kid, 3)})
		}
		s := newSurface(t.R)
		s.plain = t.R.IntN(2) == 0
		ind, hdr := indentOf(t.R.IntN(4))
		roundTrip(t, root, s.render(root), ind, hdr)
		t.ObsN("elements in long lists", n)
	})
	c.Cases("very wide", c.N(32, 600), func(t *T) {
		it, n := lists[t.R.IntN(len(lists))], sizeUpTo(t.R, 70000)
		if t.Idx%8 == 0 { // the list that is long in practice
			for _, l := range lists {
				if l.kid.name == "S" {
					it = l
				}
			}
		}
		g := newGen(t.R)
		g.unknown = false
		root, target := g.chain(it.t)
		for i := 0; i < n; i++ {
			g.budget = 0
			target.kids = append(target.kids, mKid{n: g.child(target, it.kid, 3)})
		}
		s := newSurface(t.R)
		s.plain = true
		ind, hdr := indentOf(t.R.IntN(4))
		roundTrip(t, root, s.render(root), ind, hdr)
		t.ObsN("elements in very long lists", n)
	})
	c.Cases("big", c.N(400, 8000), func(t *T) {
		g := newGen(t.R)
		g.wide, g.long = 5+t.R.IntN(300), true
		g.budget = 40
		m := g.doc([]int{5, 12, 30}[t.R.IntN(3)])
		ind, hdr := indentOf(t.R.IntN(4))
		roundTrip(t, m, newSurface(t.R).render(m), ind, hdr)
	})
	// Foreign content that has the local name of DASH content.
	c.Probe("foreign-element", func() string {
		return probeForeign(`<MPD xmlns="`+nsDASH+`" profiles=""><f:BaseURL xmlns:f="urn:f">x</f:BaseURL></MPD>`, "{urn:f}BaseURL must not become {"+nsDASH+"}BaseURL")
	})
	c.Probe("foreign-attribute", func() string {
		return probeForeign(`<MPD xmlns="`+nsDASH+`" profiles="" xmlns:f="urn:f" f:id="x"></MPD>`, "{urn:f}id must not become id")
	})
	c.Probe("prefix-declaration", func() string {
		return probeForeign(`<MPD xmlns="`+nsDASH+`" profiles="" xmlns:id="urn:x"></MPD>`, "the declaration of the prefix id must not become the attribute id")
	})
	if c.replay == nil {
		all := vocabItems()
		for _, it := range all {
			if covered[it] {
				c.obs["vocabulary items exercised"]++
			} else {
				fmt.Println("not exercised:", it)
			}
		}
		c.Require("vocabulary items exercised", int64(len(all)))
		c.Require("elements compared", 100000)
	}
}

// probeForeign reads and writes text, in which everything but an empty MPD element is foreign.
func probeForeign(text, what string) string {
	m, err := mpd.ReadFromString(text)
	if err != nil {
		return err.Error()
	}
	out, err := m.WriteToString("", false)
	if err != nil {
		return err.Error()
	}
	o, err := infoset.Parse(out)
	if err != nil {
		return err.Error()
	}
	if _, has := o.Attr("", "id"); len(o.Kids) == 0 && !has {
		return ""
	}
	return what + "\ninput: " + text + "\noutput: " + out
}
