package main

import (
	"fmt"
	"math"
	"math/big"
	"regexp"
	"strings"
	"time"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&Check{ID: "C07", Level: "exploration",
		Rule: "Durations (boundaries of every unit, powers, uniform in bits, all milliseconds of ranges) are rendered and parsed again, and duration texts (grammar-generated, mutated, out of range) are parsed, both judged by an independent exact-rational reading of the documented format. Non-trivial: a duration other than zero, or a text of at least 3 bytes.",
		Run:  runC07})
}

var durShape = regexp.MustCompile(`^PT(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)(?:\.(\d+))?S)?$`)

// judgeRendered checks the text of a duration.
func judgeRendered(d int64, s string) string {
	body, neg := strings.CutPrefix(s, "-")
	if neg != (d < 0) {
		return "wrong sign"
	}
	m := durShape.FindStringSubmatch(body)
	if m == nil || body == "PT" {
		return "not an xs:duration of hours, minutes and seconds"
	}
	for i := 1; i <= 3; i++ {
		if len(m[i]) > 1 && m[i][0] == '0' {
			return "leading zero"
		}
	}
	if m[2] != "" && len(m[2]) > 2 || m[2] != "" && m[2] >= "60" && len(m[2]) == 2 {
		return "60 minutes or more beside hours"
	}
	if len(m[3]) > 2 || len(m[3]) == 2 && m[3] >= "60" {
		return "60 seconds or more"
	}
	v, ok := refParseDuration(body)
	if !ok {
		return "unreadable"
	}
	abs := new(big.Rat).SetInt(new(big.Int).Abs(big.NewInt(d)))
	diff := new(big.Rat).Sub(abs, v)
	diff.Abs(diff)
	half := big.NewRat(500_000, 1)
	if abs.Cmp(half) < 0 { // less than half a millisecond is kept exactly
		if diff.Sign() != 0 {
			return "the value changed"
		}
		return ""
	}
	if len(m[4]) > 3 {
		return "more than 3 decimals"
	}
	if diff.Cmp(half) > 0 {
		return "not the nearest millisecond"
	}
	return ""
}

func durationValue(t *T) int64 {
	units := []int64{1, 1000, 1e6, 1e9, 60e9, 3600e9, 86400e9}
	switch t.R.IntN(7) {
	case 0:
		return units[t.R.IntN(7)]*int64(t.R.IntN(200)) + int64(t.R.IntN(5)) - 2
	case 1:
		return int64(t.R.Uint64() >> (1 + t.R.IntN(63)))
	case 2:
		return int64(t.R.IntN(1e7)) * 1e6
	case 3:
		return int64(t.R.IntN(2562047))*3600e9 + int64(t.R.IntN(3600))*1e9 + []int64{0, 1, 499999, 500000, 500001, 999499999, 999500000, 999999999}[t.R.IntN(8)]
	case 4:
		return math.MaxInt64 - int64(t.R.IntN(2e9))
	case 5:
		return int64(t.R.IntN(120))*60e9 + int64(t.R.IntN(62))*1e9 + int64(t.R.IntN(3))*999500000
	}
	return t.R.Int64N(86400e9 * 400)
}

func runC07(c *Ctx) {
	render := func(t *T, d int64) {
		x := mpd.Duration(d)
		s := x.String()
		if e := judgeRendered(d, s); e != "" {
			t.Failf("render", "%d ns is rendered as %q: %s", d, s, e)
			return
		}
		a, err := x.MarshalXMLAttr(xml.Name{Local: "start"})
		if err != nil || a.Value != s || a.Name.Local != "start" {
			t.Failf("marshal", "%d ns is marshalled as %v (%v), String is %q", d, a, err, s)
		}
		if sec, want := x.Seconds(), float64(d)/1e9; math.Abs(sec-want) > math.Abs(want)*1e-15 {
			t.Failf("seconds", "Seconds of %d ns is %v", d, sec)
		}
		if d < 0 {
			if _, err := mpd.ParseDuration(s); err == nil {
				t.Failf("negative", "%q is accepted", s)
			}
			return
		}
		p, err := mpd.ParseDuration(s)
		if err != nil {
			if d < math.MaxInt64-500_000 { // rounding up at the very end is out of range
				t.Failf("reparse", "%d ns is rendered as %q, which is refused: %v", d, s, err)
			}
			return
		}
		v, _ := refParseDuration(s)
		if roundNS(v).Cmp(new(big.Rat).SetInt64(int64(p))) != 0 {
			t.Failf("reparse", "%q parses as %d ns", s, int64(p))
		}
		if d%1e6 == 0 && int64(p) != d {
			t.Failf("roundtrip", "%d ns becomes %d ns by way of %q", d, int64(p), s)
		}
		t.Obs("rendered and parsed again")
	}
	var boundaries []int64
	for _, u := range []int64{1, 1e3, 1e6, 1e9, 60e9, 3600e9, 86400e9, 1e15, 9e18, math.MaxInt64 - 1000} {
		for k := int64(-3); k <= 3; k++ {
			for _, add := range []int64{0, 499_999, 500_000, 500_001, 999_499_999, 999_500_000, 59e9, 59_999_500_000, 59_999_499_999, 3599_999_500_000} {
				v := u + k
				if v > math.MaxInt64-add {
					continue
				}
				boundaries = append(boundaries, v+add, -(v + add))
			}
		}
	}
	boundaries = append(boundaries, 0, 1, -1, math.MaxInt64, math.MinInt64, math.MinInt64+1)
	c.Cases("boundary", 1, func(t *T) {
		for _, d := range boundaries {
			render(t, d)
			t.Nontrivial(fmt.Sprint(d))
		}
		t.Evals(len(boundaries))
	})
	c.Cases("value", c.N(400, 20000), func(t *T) {
		for k := 0; k < 500; k++ {
			d := durationValue(t)
			if d < 0 && t.R.IntN(2) == 0 {
				d = -d
			}
			render(t, d)
			if t.Idx == 0 && k < 4 {
				x := mpd.Duration(d)
				t.Sample("%d ns -> %s", d, x.String())
			}
			t.Nontrivial(fmt.Sprint(d))
		}
		t.Evals(500)
	})
	// every millisecond of an hour and more
	c.Cases("ms", c.N(400, 4000), func(t *T) {
		for k := 0; k < 10000; k++ {
			render(t, int64(t.Idx*10000+k)*1e6)
		}
		t.Evals(10000)
	})

	judgeParse := func(t *T, s string) {
		got, err := mpd.ParseDuration(s)
		want, ok := refParseDuration(s)
		if !ok {
			if err == nil {
				t.Failf("accepts", "%q is not of the documented format and parses as %v", s, got)
			}
			if got != 0 {
				t.Failf("value-with-error", "%q gives %v with an error", s, got)
			}
			t.Obs("malformed texts")
			return
		}
		// round half up
		ns := new(big.Int).Mul(want.Num(), big.NewInt(2))
		ns.Add(ns, want.Denom())
		ns.Div(ns, new(big.Int).Mul(want.Denom(), big.NewInt(2)))
		if !ns.IsInt64() {
			if err == nil {
				t.Failf("overflow", "%q is out of range and parses as %v", s, got)
			}
			if got != 0 {
				t.Failf("value-with-error", "%q gives %v with an error", s, got)
			}
			t.Obs("texts out of range")
			return
		}
		if err != nil {
			t.Failf("refuses", "%q is refused: %v", s, err)
			return
		}
		if ns.Int64() != int64(got) {
			t.Failf("parse", "%q parses as %d ns, want %s", s, int64(got), want.FloatString(3))
			return
		}
		t.Obs("well-formed texts")
	}
	num := func(t *T) string {
		switch t.R.IntN(6) {
		case 0:
			return "0"
		case 1:
			return fmt.Sprintf("%03d", t.R.IntN(100))
		case 2:
			return fmt.Sprint(t.R.IntN(100000000))
		case 3:
			return fmt.Sprint(t.R.Uint64() >> t.R.IntN(64))
		}
		return fmt.Sprint(t.R.IntN(100))
	}
	text := func(t *T) string {
		if t.R.IntN(8) == 0 { // near the end of the range, with many decimals
			v := new(big.Int).SetUint64(math.MaxInt64)
			v.Add(v, big.NewInt(int64(t.R.IntN(7)-3)))
			if t.R.IntN(2) == 0 {
				v.Sub(v, big.NewInt(t.R.Int64()))
			}
			sec, frac := new(big.Int).DivMod(v, big.NewInt(1e9), new(big.Int))
			dec := fmt.Sprintf("%09d", frac.Int64())
			dec += []string{"", "0", "4", "49999999999", "5", "50", "50000001", "9"}[t.R.IntN(8)]
			if t.R.IntN(3) == 0 {
				return "PT" + sec.String() + "." + dec + "S"
			}
			sec, m := new(big.Int).DivMod(sec, big.NewInt(60), new(big.Int))
			return "PT" + sec.String() + "M" + m.String() + "." + dec + "S"
		}
		var b strings.Builder
		b.WriteString("P")
		if t.R.IntN(3) == 0 {
			b.WriteString(num(t) + "D")
		}
		if t.R.IntN(4) > 0 {
			b.WriteString("T")
			if t.R.IntN(2) == 0 {
				b.WriteString(num(t) + "H")
			}
			if t.R.IntN(2) == 0 {
				b.WriteString(num(t) + "M")
			}
			if t.R.IntN(2) == 0 {
				b.WriteString(num(t))
				if t.R.IntN(2) == 0 {
					b.WriteString("." + fmt.Sprintf("%0*d", 1+t.R.IntN(9), t.R.IntN(1000000)))
					if t.R.IntN(6) == 0 {
						b.WriteString(fmt.Sprint(t.R.Uint64()))
					}
				}
				b.WriteString("S")
			}
		}
		return b.String()
	}
	c.Cases("text", c.N(600, 30000), func(t *T) {
		for k := 0; k < 300; k++ {
			s := text(t)
			if t.R.IntN(2) == 0 { // damage it
				for n := 1 + t.R.IntN(2); n > 0 && len(s) > 0; n-- {
					i := t.R.IntN(len(s))
					ch := string("PTDHMSYW0159.-+ eE,_x\n"[t.R.IntN(22)])
					switch t.R.IntN(4) {
					case 0:
						s = s[:i] + s[i+1:]
					case 1:
						s = s[:i] + ch + s[i:]
					case 2:
						s = s[:i] + ch + s[i+1:]
					case 3:
						s = s + ch
					}
				}
			}
			judgeParse(t, s)
			// an attribute value may have space around it
			var d mpd.Duration = 77
			pad := []string{"", " ", "\n\t"}[t.R.IntN(3)]
			err := d.UnmarshalXMLAttr(xml.Attr{Name: xml.Name{Local: "x"}, Value: pad + s + pad})
			want, werr := mpd.ParseDuration(strings.TrimSpace(s))
			if (err == nil) != (werr == nil) || err == nil && time.Duration(d) != want {
				t.Failf("unmarshal", "attribute %q gives %v (%v), ParseDuration %v (%v)", pad+s+pad, d.String(), err, want, werr)
			}
			if len(s) >= 3 {
				t.Nontrivial(s)
			}
		}
		t.Evals(300)
	})
	// exhaustive: all texts up to a length over the alphabet of durations
	alpha := "PTDHMS0.7-"
	maxLen := 6
	if c.Thorough() {
		maxLen = 7
	}
	c.Cases("short", len(alpha)*len(alpha), func(t *T) {
		n := 0
		var rec func(s string)
		rec = func(s string) {
			judgeParse(t, s)
			n++
			if len(s) < maxLen {
				for i := 0; i < len(alpha); i++ {
					rec(s + alpha[i:i+1])
				}
			}
		}
		p := string(alpha[t.Idx/len(alpha)]) + string(alpha[t.Idx%len(alpha)])
		if p[0] != 'P' {
			judgeParse(t, p)
			return
		}
		rec(p)
		t.Evals(n)
	})
	c.Cases("nil", 1, func(t *T) {
		var d *mpd.Duration
		a, err := d.MarshalXMLAttr(xml.Name{Local: "x"})
		if err != nil || a.Name.Local != "" {
			t.Failf("nil", "a nil Duration is marshalled as %v (%v)", a, err)
		}
		for _, s := range []string{"", "P", "T", "PT"} {
			judgeParse(t, s)
		}
	})
	c.Require("rendered and parsed again", 1000000)
	c.Require("well-formed texts", 30000)
	c.Require("malformed texts", 30000)
	c.Require("texts out of range", 1000)
}
