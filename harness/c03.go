package main

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"

	"github.com/Eyevinn/dash-mpd/mpd"

	"verifharness/infoset"
)

func init() {
	register(&Check{ID: "C03", Level: "exploration",
		Rule: "MPD structures populated by reflection whose strings are arbitrary bytes (control characters, invalid UTF-8, markup, line ends), written with any indentation and header, and parsed by an independent strict namespace-aware parser; markup is compared with that of the same structure with benign strings, and the strings read back with the sanitised ones. Non-trivial: at least one hostile string in the output.",
		Run:  runC03})
}

// sanitised is what a string can come back as: what XML cannot carry is U+FFFD.
func sanitised(s string) string {
	var b strings.Builder
	for _, c := range s { // invalid bytes are read as U+FFFD, one each
		if !infoset.IsChar(c) {
			c = 0xFFFD
		}
		b.WriteRune(c)
	}
	return b.String()
}

// skeleton renders the markup of a document without values.
func skeleton(n *infoset.Node, b *strings.Builder) {
	b.WriteString("<" + n.Local)
	var as []string
	for _, a := range n.Attrs {
		as = append(as, a.Local)
	}
	sort.Strings(as)
	b.WriteString(" " + strings.Join(as, " ") + ">")
	for _, k := range n.Elems() {
		skeleton(k, b)
	}
	b.WriteString("</>")
}

var indents = []string{"", " ", "  ", "\t", "\n", "    ", " \t"}

func runC03(c *Ctx) {
	items := allFields()
	per := c.N(8, 80)
	judge := func(t *T, m, benign *mpd.MPD) {
		indent := indents[t.R.IntN(len(indents))]
		header := t.R.IntN(2) == 0
		out, err := m.WriteToString(indent, header)
		if err != nil {
			t.Failf("write-error", "writing failed: %v\n%s", err, clip(dump(m), 3000))
			return
		}
		o, err := infoset.Parse(out)
		if err != nil {
			t.Failf("ill-formed", "output is not well-formed: %v\n%q", err, out)
			return
		}
		bout, err := benign.WriteToString(indent, header)
		if err != nil {
			t.Failf("write-error", "writing failed: %v", err)
			return
		}
		bo, err := infoset.Parse(bout)
		if err != nil {
			t.Failf("ill-formed", "output is not well-formed: %v\n%q", err, bout)
			return
		}
		var s1, s2 strings.Builder
		skeleton(o, &s1)
		skeleton(bo, &s2)
		if s1.String() != s2.String() {
			t.Failf("markup-changed", "the values of strings change the markup:\n%q\nwith benign strings:\n%q", out, bout)
			return
		}
		m2, err := mpd.ReadFromString(out)
		if err != nil {
			t.Failf("reread-error", "what was written is rejected: %v\n%q", err, out)
			return
		}
		d := &differ{strEq: func(a, b string) bool { return sanitised(a) == b }, trim: indent != ""}
		if err := d.diff("MPD", reflect.ValueOf(m).Elem(), reflect.ValueOf(m2).Elem()); err != nil {
			t.Failf("string-changed", "%v\n%q", err, out)
			return
		}
		e, a := countNodes(o)
		t.ObsN("elements parsed", e)
		t.ObsN("attributes parsed", a)
		if strings.Contains(out, "&#") || strings.Contains(out, "\uFFFD") || strings.Contains(out, "&lt;") {
			t.Nontrivial(out)
			t.Obs("documents with escaped or replaced characters")
		}
	}
	c.Cases("field", len(items)*per, func(t *T) {
		it := items[t.Idx/per]
		v := t.Idx % per
		make1 := func(rename bool) *mpd.MPD {
			f := newFiller(rand.New(rand.NewPCG(uint64(t.Idx), hash64(it.key(), fmt.Sprint(c.Seed)))), 2)
			f.rename = rename
			f.dense, f.budget = []int{0, 10}[v%2], 6
			m, target := f.buildChain(it.chain)
			f.field(it.t, it.sf, target.FieldByIndex(it.sf.Index), true)
			m.XMLNs = nsDASH
			return m
		}
		judge(t, make1(false), make1(true))
	})
	c.Cases("tree", c.N(10000, 150000), func(t *T) {
		seed := t.R.Uint64()
		make1 := func(rename bool) *mpd.MPD {
			f := newFiller(rand.New(rand.NewPCG(seed, 7)), 2)
			f.rename = rename
			m := f.mpdTree()
			if f.r.IntN(4) == 0 {
				m.XMLNs = "urn:" + f.str()
			}
			return m
		}
		m := make1(false)
		if t.Idx < 2 {
			s, _ := m.WriteToString("", false)
			t.Sample("%q", s)
		}
		judge(t, m, make1(true))
	})
	// What was read from any accepted input is written as well-formed XML too.
	c.Cases("reread", c.N(3000, 100000), func(t *T) {
		g := newGen(t.R)
		g.hostile = true
		if t.Idx%25 == 0 {
			g.wide, g.long = 5+t.R.IntN(300), true
		}
		text := newSurface(t.R).render(g.doc([]int{5, 12, 30}[t.R.IntN(3)]))
		m, err := mpd.ReadFromString(text)
		if err != nil {
			return
		}
		out, err := m.WriteToString(indents[t.R.IntN(len(indents))], t.R.IntN(2) == 0)
		if err != nil {
			t.Failf("write-error", "writing failed: %v\n%s", err, text)
			return
		}
		if _, err := infoset.Parse(out); err != nil {
			t.Failf("ill-formed", "output is not well-formed: %v\ninput: %q\noutput: %q", err, text, out)
			return
		}
		t.Obs("documents read and written")
	})
	c.Require("documents with escaped or replaced characters", 1000)
	c.Require("documents read and written", 1000)
}
