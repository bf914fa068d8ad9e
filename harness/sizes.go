package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/Eyevinn/dash-mpd/mpd"
)

// sizes are numbers of things around which counters, tables, stacks and buffers change their
// behaviour: powers of two, and round numbers that somebody may think large enough.
var sizes = []int{7, 8, 9, 10, 15, 16, 17, 20, 24, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 254, 255, 256, 257, 299, 300, 301, 400, 499, 500, 501, 511, 512, 513, 750,
	999, 1000, 1001, 1023, 1024, 1025, 1500, 1999, 2000, 2001, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 5001, 8191, 8192, 8193, 9999, 10000, 10001, 16383, 16384, 16385, 20000, 20001,
	32767, 32768, 32769, 40000, 50000, 50001, 65535, 65536, 65537, 70000, 99999, 100000, 100001, 131072, 131073}

// sizeUpTo gives one of the sizes, or one between them, up to max; large ones are as likely as small ones.
func sizeUpTo(r *rand.Rand, max int) int {
	n := 0
	for n < len(sizes) && sizes[n] <= max {
		n++
	}
	if n == 0 || r.IntN(8) == 0 {
		return 1 + r.IntN(max)
	}
	if r.IntN(2) == 0 {
		return sizes[n/2+r.IntN(n-n/2)]
	}
	return sizes[r.IntN(n)]
}

// likeNames gives names of l characters or a few more that are different in one place, or in length.
func likeNames(r *rand.Rand, l, n int) (out []string) {
	base := strings.Repeat([]string{"Pq", "n", "aB-", "x_1"}[r.IntN(4)], l/3+1)[:l/3+1]
	for len(base) < l {
		base += base
	}
	base = base[:l]
	for i := 0; i < n; i++ {
		at := []int{len(base) - 1, r.IntN(len(base)), len(base) / 2}[r.IntN(3)]
		s := base[:at] + string(rune('a'+i)) + base[at+1:]
		switch r.IntN(6) {
		case 0:
			s = base + string(rune('a'+i))
		case 1:
			s = strings.ToUpper(s[:1]) + s[1:]
		}
		dup := false
		for _, o := range out {
			dup = dup || o == s
		}
		if !dup {
			out = append(out, s)
		}
	}
	return
}

// wideLevels is the number of levels that wideMPD can widen.
const wideLevels = 5

// wideMPD makes an MPD without any links that has n structures at one of the levels
// (Periods, adaptation sets, empty adaptation sets, representations, sub-representations).
func wideMPD(r *rand.Rand, level, n int) *mpd.MPD {
	num := func(l int) int {
		if l == level {
			return n
		}
		if level == 0 && n > 5000 || level > 0 && n > 20000 && l > level {
			return r.IntN(10) / 9
		}
		return r.IntN(3)
	}
	set := func() *mpd.AdaptationSetType {
		a := mpd.NewAdaptationSet()
		k := num(3)
		if level == 4 && k == 0 {
			k = 1
		}
		for i := 0; i < k; i++ {
			x := mpd.NewRepresentation()
			x.Id = fmt.Sprint(i)
			for j := num(4); j > 0; j-- {
				x.SubRepresentations = append(x.SubRepresentations, mpd.NewSubRepresentation())
			}
			a.Representations = append(a.Representations, x)
		}
		return a
	}
	m := mpd.NewMPD("static")
	np := 1
	if level == 0 {
		np = n
	}
	for i := 0; i < np; i++ {
		p := mpd.NewPeriod()
		p.Id = fmt.Sprint(i)
		k := num(1)
		if level > 2 {
			k = 1
		}
		for j := 0; j < k; j++ {
			p.AdaptationSets = append(p.AdaptationSets, set())
		}
		k = num(2)
		if level > 2 {
			k = 0
		}
		for j := 0; j < k; j++ {
			p.EmptyAdaptationSets = append(p.EmptyAdaptationSets, set())
		}
		m.Periods = append(m.Periods, p)
	}
	return m
}
