package main

import (
	"fmt"
	"math"
	"math/big"
	"time"

	"github.com/Eyevinn/dash-mpd/mpd"
)

func init() {
	register(&Check{ID: "C08", Level: "exploration",
		Rule: "Times from year 1 to 9999 (boundaries of days, months, leap years, centuries, the epoch, millisecond digits, negative times) are converted to DateTime and back, and DateTime texts with fractions and zones, valid and not, to seconds; judged by an independent proleptic Gregorian calendar in integer arithmetic, in several time zones of the process. Non-trivial: any time other than the epoch.",
		Run:  runC08})
}

// civil converts days since 1970-01-01 to a date.
func civil(z int64) (y, m, d int64) {
	z += 719468
	era := z / 146097
	if z < 0 {
		era = (z - 146096) / 146097
	}
	doe := z - era*146097
	yoe := (doe - doe/1460 + doe/36524 - doe/146096) / 365
	y = yoe + era*400
	doy := doe - (365*yoe + yoe/4 - yoe/100)
	mp := (5*doy + 2) / 153
	d = doy - (153*mp+2)/5 + 1
	m = mp + 3
	if m > 12 {
		m -= 12
	}
	if m <= 2 {
		y++
	}
	return
}

// days converts a date to days since 1970-01-01.
func days(y, m, d int64) int64 {
	if m <= 2 {
		y--
	}
	era := y / 400
	if y < 0 {
		era = (y - 399) / 400
	}
	yoe := y - era*400
	mp := m - 3
	if m <= 2 {
		mp = m + 9
	}
	doy := (153*mp+2)/5 + d - 1
	return era*146097 + yoe*365 + yoe/4 - yoe/100 + doy - 719468
}

func monthDays(y, m int64) int64 {
	if m == 2 {
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	}
	return []int64{31, 0, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}[m-1]
}

func floorDiv(a, b int64) (q, r int64) {
	q, r = a/b, a%b
	if r < 0 {
		q--
		r += b
	}
	return
}

// refDateTime renders milliseconds since 1970 in UTC.
func refDateTime(ms int64) string {
	s, milli := floorDiv(ms, 1000)
	day, sod := floorDiv(s, 86400)
	y, m, d := civil(day)
	out := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", y, m, d, sod/3600, sod/60%60, sod%60)
	if milli != 0 {
		f := fmt.Sprintf("%03d", milli)
		for f[len(f)-1] == '0' {
			f = f[:len(f)-1]
		}
		out += "." + f
	}
	return out + "Z"
}

func runC08(c *Ctx) {
	lo, hi := days(1, 1, 1)*86400, days(9999, 12, 31)*86400+86399
	near := func(got float64, num, den int64) bool { // is got num/den up to float64 rounding?
		w := new(big.Rat).SetFrac64(num, den)
		wf, _ := w.Float64()
		return math.Abs(got-wf) <= math.Abs(wf)*4.5e-16+1e-10
	}
	instant := func(t *T) int64 { // in ms
		switch t.R.IntN(7) {
		case 0:
			return t.R.Int64N(hi-lo)*1000 + lo*1000 + int64(t.R.IntN(1000))
		case 1:
			y := 1 + t.R.Int64N(9999)
			m := 1 + t.R.Int64N(12)
			return days(y, m, 1)*86400_000 + int64(t.R.IntN(3)) - 1
		case 2:
			y := 1 + t.R.Int64N(9999)
			return days(y, 2, 28)*86400_000 + t.R.Int64N(2*86400_000)
		case 3:
			return int64(t.R.IntN(4001)) - 2000
		case 4:
			return 1_400_000_000_000 + t.R.Int64N(600_000_000_000)
		case 5:
			return []int64{-9223372037, 9223372036, 4294967296, 2147483648, -2147483649, 253402300799, -62135596800, -62135596799}[t.R.IntN(8)]*1000 + int64(t.R.IntN(3))*499
		}
		y := []int64{1, 4, 100, 400, 1600, 1677, 1678, 1700, 1900, 1970, 2000, 2038, 2100, 2262, 2263, 9999}[t.R.IntN(16)]
		return days(y, 1+t.R.Int64N(12), 1+t.R.Int64N(28))*86400_000 + t.R.Int64N(86400_000)
	}
	// The time zone of the process must not matter.
	local := time.Local
	for _, zone := range []string{"", "UTC", "America/New_York", "Asia/Kathmandu", "Australia/Lord_Howe"} {
		in := ""
		if zone != "" {
			in = " " + zone
			loc, err := time.LoadLocation(zone)
			if err != nil {
				panic(err)
			}
			time.Local = loc
			c.obs["time zones"]++
		}
		c.Cases("instant"+in, c.N(300, 20000), func(t *T) {
			for k := 0; k < 500; k++ {
				ms := instant(t)
				if ms < lo*1000 || ms > hi*1000 {
					continue
				}
				t.Nontrivial(fmt.Sprint(ms))
				want := refDateTime(ms)
				got := mpd.ConvertToDateTimeMS(ms)
				if string(got) != want {
					t.Failf("ms", "ConvertToDateTimeMS(%d) = %q, want %q", ms, got, want)
					return
				}
				sec, err := got.ConvertToSeconds()
				if err != nil || !near(sec, ms, 1000) {
					t.Failf("back", "%q converts to %v (%v), want %d ms", got, sec, err, ms)
					return
				}
				if int64(math.Round(sec*1000)) != ms {
					t.Failf("back", "%q converts to %v, which is not %d ms", got, sec, ms)
					return
				}
				s, _ := floorDiv(ms, 1000)
				if g, w := string(mpd.ConvertToDateTimeS(s)), refDateTime(s*1000); g != w {
					t.Failf("s", "ConvertToDateTimeS(%d) = %q, want %q", s, g, w)
					return
				}
				// A float is cropped to milliseconds: the instant may be up to 1 ms early, never late.
				f := float64(ms) / 1000
				if t.R.IntN(2) == 0 {
					f += t.R.Float64() / 1000
				}
				if t.R.IntN(8) == 0 {
					f = math.Floor(f)
				}
				g := mpd.ConvertToDateTime(f)
				m, ok := refParseDateTime(string(g))
				x := new(big.Rat).SetFloat64(f)
				x.Mul(x, big.NewRat(1_000_000_000, 1)) // ns
				diff := new(big.Rat).Sub(x, m)
				eps := big.NewRat(int64(2+math.Abs(f)*1e9/(1<<51)), 1)
				if !ok || diff.Cmp(new(big.Rat).Add(big.NewRat(1_000_000, 1), eps)) > 0 || diff.Cmp(new(big.Rat).Neg(eps)) < 0 || refDateTime(ratMS(m)) != string(g) {
					t.Failf("float", "ConvertToDateTime(%v) = %q", f, g)
					return
				}
				if f == math.Floor(f) && string(g) != refDateTime(int64(f)*1000) {
					t.Failf("float", "ConvertToDateTime(%v) = %q, want %q", f, g, refDateTime(int64(f)*1000))
				}
				t.Obs("instants converted and back")
				if t.Idx == 0 && k < 3 {
					t.Sample("%d ms <-> %s", ms, got)
				}
			}
			t.Evals(500)
		})
		c.Cases("text"+in, c.N(300, 10000), func(t *T) {
			for k := 0; k < 200; k++ {
				y, mo := 1+t.R.Int64N(9999), 1+t.R.Int64N(12)
				d := 1 + t.R.Int64N(monthDays(y, mo))
				if t.R.IntN(3) == 0 {
					d = monthDays(y, mo)
				}
				h, mi, s := t.R.Int64N(24), t.R.Int64N(60), t.R.Int64N(60)
				bad := ""
				if t.R.IntN(3) == 0 {
					switch t.R.IntN(7) {
					case 0:
						d, bad = monthDays(y, mo)+1, "day"
					case 1:
						mo, bad = 13, "month"
					case 2:
						h, bad = 24+t.R.Int64N(10), "hour"
					case 3:
						mi, bad = 60+t.R.Int64N(40), "minute"
					case 4:
						s, bad = 60+t.R.Int64N(40), "second"
					case 5:
						d, bad = 0, "day"
					case 6:
						mo, bad = 0, "month"
					}
				}
				txt := fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", y, mo, d, h, mi, s)
				var num int64
				if t.R.IntN(2) == 0 {
					n := 1 + t.R.IntN(9)
					p := int64(math.Pow10(n))
					v := t.R.Int64N(p)
					txt += fmt.Sprintf(".%0*d", n, v)
					num = v * int64(math.Pow10(9-n))
				}
				off := int64(0)
				switch t.R.IntN(3) {
				case 0:
					sign := int64(1 - 2*t.R.IntN(2))
					oh, om := t.R.Int64N(15), []int64{0, 30, 45, 59}[t.R.IntN(4)]
					off = sign * (oh*3600 + om*60)
					txt += fmt.Sprintf("%c%02d:%02d", map[int64]byte{1: '+', -1: '-'}[sign], oh, om)
				default:
					txt += "Z"
				}
				if t.R.IntN(6) == 0 && bad == "" {
					i := t.R.IntN(len(txt))
					txt = txt[:i] + []string{"x", "", "/"}[t.R.IntN(3)] + txt[i+1:]
					if _, ok := refParseDateTime(txt); ok {
						continue
					}
					bad = "damaged"
				}
				got, err := mpd.DateTime(txt).ConvertToSeconds()
				if bad != "" {
					if err == nil && bad == "damaged" && !clearlyBad(txt) {
						continue
					}
					if err == nil {
						t.Failf("accepts", "%q (%s) converts to %v", txt, bad, got)
						return
					}
					t.Obs("invalid texts refused")
					continue
				}
				w := new(big.Rat).SetInt64(days(y, mo, d)*86400 + h*3600 + mi*60 + s - off)
				w.Add(w, big.NewRat(num, 1_000_000_000))
				wf, _ := w.Float64()
				if err != nil || math.Abs(got-wf) > math.Abs(wf)*4.5e-16+1e-9 {
					t.Failf("text", "%q converts to %v (%v), want %v", txt, got, err, wf)
					return
				}
				t.Nontrivial(txt)
				t.Obs("texts converted")
			}
			t.Evals(200)
		})
		c.Cases("every-day"+in, 40, func(t *T) { // every day of 400 years
			n := 0
			for y := int64(1600 + t.Idx*20); y < int64(1620+t.Idx*20); y++ {
				for m := int64(1); m <= 12; m++ {
					for d := int64(1); d <= monthDays(y, m); d++ {
						s := days(y, m, d) * 86400
						want := fmt.Sprintf("%04d-%02d-%02dT00:00:00Z", y, m, d)
						if g := string(mpd.ConvertToDateTimeS(s)); g != want {
							t.Failf("s", "ConvertToDateTimeS(%d) = %q, want %q", s, g, want)
							return
						}
						if g, err := mpd.DateTime(want).ConvertToSeconds(); err != nil || g != float64(s) {
							t.Failf("text", "%q converts to %v (%v), want %d", want, g, err, s)
							return
						}
						n++
					}
				}
			}
			t.Evals(n)
			t.ObsN("days converted", n)
		})
	}
	time.Local = local
	c.Cases("not-a-time", 1, func(t *T) {
		for _, s := range []string{"", "x", "2020", "2020-01-01", "12:00:00Z", "2020-01-01 00:00:00Z", "20200101T000000Z", "2020-1-1T0:0:0Z", "2020-01-01T00:00Z", "2020-01-01T00:00:00Zx", " 2020-01-01T00:00:00Z", "-2020-01-01T00:00:00Z", "2020-01-01T00:00:00.Z"} {
			if g, err := mpd.DateTime(s).ConvertToSeconds(); err == nil {
				t.Failf("accepts", "%q converts to %v", s, g)
			}
		}
	})
	c.Require("instants converted and back", 100000)
	c.Require("texts converted", 20000)
	c.Require("invalid texts refused", 5000)
}

func ratMS(ns *big.Rat) int64 {
	f := new(big.Rat).Quo(ns, big.NewRat(1_000_000, 1))
	q := new(big.Int).Div(f.Num(), f.Denom())
	return q.Int64()
}

// clearlyBad reports damage that no reading of the format allows: a letter or slash put in.
func clearlyBad(s string) bool {
	for _, c := range s {
		if c == 'x' || c == '/' {
			return true
		}
	}
	return false
}

// refParseDateTime reads YYYY-MM-DDThh:mm:ss[.f]Z into nanoseconds since 1970.
func refParseDateTime(s string) (*big.Rat, bool) {
	var y, mo, d, h, mi, sec int64
	if len(s) < 20 || s[len(s)-1] != 'Z' {
		return nil, false
	}
	n, err := fmt.Sscanf(s[:19], "%4d-%2d-%2dT%2d:%2d:%2d", &y, &mo, &d, &h, &mi, &sec)
	if n != 6 || err != nil || fmt.Sprintf("%04d-%02d-%02dT%02d:%02d:%02d", y, mo, d, h, mi, sec) != s[:19] {
		return nil, false
	}
	if mo < 1 || mo > 12 || d < 1 || d > monthDays(y, mo) || h > 23 || mi > 59 || sec > 59 {
		return nil, false
	}
	r := new(big.Rat).SetInt64((days(y, mo, d)*86400 + h*3600 + mi*60 + sec))
	r.Mul(r, big.NewRat(1_000_000_000, 1))
	if f := s[19 : len(s)-1]; f != "" {
		if f[0] != '.' || !allDigits(f[1:]) {
			return nil, false
		}
		x, ok := new(big.Rat).SetString("0" + f)
		if !ok {
			return nil, false
		}
		r.Add(r, x.Mul(x, big.NewRat(1_000_000_000, 1)))
	}
	return r, true
}
