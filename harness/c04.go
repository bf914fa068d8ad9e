package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/Eyevinn/dash-mpd/mpd"

	"verifharness/infoset"
)

func init() {
	register(&Check{ID: "C04", Level: "exploration",
		Rule: "Generated documents (and the manifests shipped with the repository) are read and written several times: write(read(write(x))) must be byte-identical to write(x), repeated writes and reads identical, and neither the MPD written nor the buffer read may change or be shared. Non-trivial: output of at least 200 bytes.",
		Run:  runC04})
}

func hasMixed(m *mNode) bool {
	for _, k := range m.kids {
		if k.n != nil && (m.typ != nil && m.typ.text || hasMixed(k.n)) {
			return true
		}
	}
	return false
}

// hasAny reports whether an element keeps arbitrary attributes.
func hasAny(m *mNode) bool {
	if m.typ != nil && m.typ.anyAttr {
		return true
	}
	for _, k := range m.kids {
		if k.n != nil && hasAny(k.n) {
			return true
		}
	}
	return false
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := max(0, i-60)
	return fmt.Sprintf("%d: %q / %q", i, clip(a[lo:min(len(a), i+60)], 200), clip(b[lo:min(len(b), i+60)], 200))
}

func runC04(c *Ctx) {
	judge := func(t *T, text string, indents []string, anyAttr bool) {
		buf := []byte(text)
		m1, err := mpd.MPDFromBytes(buf)
		if err != nil {
			t.Failf("rejected", "a valid MPD was rejected: %v\n%s", err, text)
			return
		}
		if string(buf) != text {
			t.Failf("input-changed", "reading changed the input buffer:\n%q\n%q", text, buf)
			return
		}
		before := dump(m1)
		for i := range buf {
			buf[i] = '#'
		}
		if dump(m1) != before {
			t.Failf("input-aliased", "the MPD changes with the input buffer\n%s", text)
			return
		}
		mm, err := mpd.ReadFromString(text)
		if err != nil || dump(mm) != before {
			t.Failf("read-twice", "reading the same document again gives a different MPD (%v)\n%s\n%s\n%s", err, text, before, dump(mm))
			return
		}
		// Changing one of them in place leaves the other, and what is read later, as it is.
		if n := scramble(reflect.ValueOf(mm)); dump(m1) != before {
			t.Failf("read-shared", "two MPDs that were read share values (%d changed)\n%s\n%s\n%s", n, text, before, dump(m1))
			return
		} else {
			t.ObsN("values changed in a second MPD", n)
		}
		mm, err = mpd.ReadFromString(text)
		if err != nil || dump(mm) != before {
			t.Failf("read-shared", "reading a document gives another MPD after one that was read has been changed (%v)\n%s\n%s\n%s", err, text, before, dump(mm))
			return
		}
		for _, indent := range indents {
			hdr := t.R.IntN(2) == 0
			w1, err := m1.WriteToString(indent, hdr)
			if err != nil {
				t.Failf("write-error", "%v\n%s", err, text)
				return
			}
			if dump(m1) != before {
				t.Failf("write-mutates", "writing changed the MPD\nbefore %s\nafter  %s", before, dump(m1))
				return
			}
			w1b, err := m1.WriteToString(indent, hdr)
			if err != nil || w1b != w1 {
				t.Failf("write-twice", "writing twice gives different output (%v)\n%s\n%s", err, w1, w1b)
				return
			}
			m2, err := mpd.ReadFromString(w1)
			if err != nil {
				t.Failf("reread-error", "%v\n%s", err, w1)
				return
			}
			w2, err := m2.WriteToString(indent, hdr)
			if err != nil {
				t.Failf("write-error", "%v\n%s", err, w1)
				return
			}
			if w2 != w1 {
				// Extension attributes keep the namespace declarations of their element, which
				// may move among the attributes once. Everything else is the same at once.
				o1, e1 := infoset.Parse(w1)
				o2, e2 := infoset.Parse(w2)
				if !anyAttr || e1 != nil || e2 != nil || o1.Canon(true) != o2.Canon(true) {
					t.Failf("not-stable", "write(read(w)) differs from w (%v %v) at %s\n%s\n%s\ninput: %s", e1, e2, firstDiff(w1, w2), w1, w2, text)
					return
				}
				t.Obs("declarations moved")
				m3, err := mpd.ReadFromString(w2)
				if err != nil {
					t.Failf("reread-error", "%v\n%s", err, w2)
					return
				}
				w3, err := m3.WriteToString(indent, hdr)
				if err != nil || w3 != w2 {
					t.Failf("not-stable", "the third write differs from the second (%v) at %s\n%s\n%s\ninput: %s", err, firstDiff(w2, w3), w2, w3, text)
					return
				}
			}
			t.ObsN("bytes compared", len(w1))
			t.Obs("write-read-write rounds")
			if len(w1) > 200 {
				t.Nontrivial(w1)
			}
		}
	}
	c.Cases("doc", c.N(8000, 250000), func(t *T) {
		g := newGen(t.R)
		if t.R.IntN(20) == 0 {
			g.dashNS = ""
		}
		g.budget = []int{10, 40, 120}[t.R.IntN(3)]
		m := g.doc([]int{2, 5, 12, 30, 60}[t.R.IntN(5)])
		text := newSurface(t.R).render(m)
		inds := []string{""}
		if !hasMixed(m) {
			inds = append(inds, []string{"  ", "\t", " ", "\n"}[t.R.IntN(4)])
		}
		if t.Idx < 3 {
			t.Sample("%s", text)
		}
		judge(t, text, inds, hasAny(m))
	})
	// Long lists and long strings.
	c.Cases("big", c.N(600, 20000), func(t *T) {
		g := newGen(t.R)
		if t.R.IntN(3) == 0 {
			g.dashNS = ""
		}
		g.wide, g.long = 5+t.R.IntN(300), t.R.IntN(2) == 0
		if t.R.IntN(2) == 0 {
			g.unknown = false
		}
		g.budget = 40
		m := g.doc([]int{5, 12, 30}[t.R.IntN(3)])
		if t.R.IntN(2) == 0 {
			// Many Periods, the list every MPD has.
			for i, n := 0, t.R.IntN(300); i < n; i++ {
				g.budget = g.r.IntN(3)
				m.kids = append(m.kids, mKid{n: g.child(m, vocab["MPD"].kid("Period"), 3)})
			}
		}
		inds := []string{""}
		if !hasMixed(m) {
			inds = append(inds, []string{"  ", "\t", " ", "\n"}[t.R.IntN(4)])
		}
		judge(t, newSurface(t.R).render(m), inds, hasAny(m))
		t.Obs("documents with long lists")
	})
	// The manifests which are shipped as examples of real-world input.
	var files []string
	for _, pat := range []string{"/repo/mpd/testdata/*/*.mpd", "/repo/mpd/testdata/*.mpd", "/repo/mpd/testdata/*/*/*.mpd", "/repo/examples/*/*.mpd", "/repo/examples/*/*/*.mpd", "/repo/discovery/testdata/*.mpd"} {
		fs, _ := filepath.Glob(pat)
		files = append(files, fs...)
	}
	c.Cases("shipped", len(files), func(t *T) {
		data, err := os.ReadFile(files[t.Idx])
		if err != nil {
			return
		}
		text := string(bytes.TrimSpace(data))
		if _, err := mpd.ReadFromString(text); err != nil {
			t.Obs("shipped manifests rejected")
			return
		}
		t.Obs("shipped manifests")
		inds := []string{""}
		if !strings.Contains(text, "<Event") {
			inds = append(inds, "  ")
		}
		judge(t, text, inds, true)
	})
	c.Require("write-read-write rounds", 8000)
}
