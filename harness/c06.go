package main

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&Check{ID: "C06", Level: "exploration",
		Rule: "Arbitrary bytes, markup soup, mutated manifests, deeply nested, very long and repetitive documents are given to the readers and to the decoder (strict and not, with and without entities and auto-close) under a monitor of panics, stack, memory allocated per input byte, CPU time, its growth with the length of the input, tokens per input byte and read errors; structures of every kind of size are written and cloned under the same monitor of growth. Non-trivial: an input of at least 4 bytes with markup.",
		Run:  runC06})
}

var soup = []string{"<", ">", "</", "/>", "<?", "?>", "<!--", "-->", "<![CDATA[", "]]>", "<!DOCTYPE", "<!", "[", "]", "&", "&lt;", "&#", "&#x41;", ";", "=", "\"", "'", " ", "\n", "\r\n", "\t", "a", "MPD", "Period", "xmlns", "xmlns:a=\"u\"", "a:b", ":", "<a>", "</a>", "<MPD>", "</MPD>",
	"<Period>", "</Period>", "<br>", "id=\"1\"", "start=\"PT1S\"", "\x00", "\xff", "\xe2\x82", "é", "\ufeff", "-", "--", "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"x\"?>", "encoding=", "<b a=1 c>", "<!ENTITY a \"b\">", "<!-- <a> -->", "<!D '>' [<!-- > -->]>", "%", "]]", "&a;", "&nbsp;"}

func soupText(t *T, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(soup[t.R.IntN(len(soup))])
	}
	return b.String()
}

// oneByte delivers one byte at a time and an empty read now and then.
type chunky struct {
	s    string
	n    int
	zero int
	k    int
	err  error
	with bool // deliver the error together with the last data
}

func (r *chunky) Read(p []byte) (int, error) {
	r.k++
	if r.zero > 0 && r.k%r.zero == 0 {
		return 0, nil
	}
	if len(r.s) == 0 {
		if r.err != nil {
			return 0, r.err
		}
		return 0, io.EOF
	}
	n := copy(p[:min(len(p), max(1, r.n))], r.s)
	r.s = r.s[n:]
	if len(r.s) == 0 && r.with {
		if r.err != nil {
			return n, r.err
		}
		return n, io.EOF
	}
	return n, nil
}

// drain reads all tokens and checks that there are not more than the input can hold.
func drain(t *T, mode string, d *xml.Decoder, size int, raw bool) {
	max := 2*size + 8
	for i := 0; ; i++ {
		var err error
		if raw {
			_, err = d.RawToken()
		} else {
			_, err = d.Token()
		}
		if err != nil {
			t.ObsN("tokens", i)
			return
		}
		if i > max {
			t.Failf("endless-tokens", "%s: more than %d tokens from %d bytes", mode, max, size)
			return
		}
	}
}

func hostileRead(t *T, text string) {
	m, err := mpd.ReadFromString(text)
	if (m == nil) == (err == nil) {
		t.Failf("no-answer", "ReadFromString gives %v and %v\n%q", m, err, clip(text, 2000))
	}
	if err == nil {
		t.Obs("accepted")
		if len(m.Periods) < 100 {
			n := 0
			for _, p := range m.Periods {
				n += queryPeriod(m, p)
			}
			if t.R.IntN(4) == 0 {
				c := mpd.Clone(m)
				for _, p := range c.Periods {
					n += queryPeriod(c, p)
				}
			}
			t.ObsN("queries of what was read", n)
		}
		if _, err := m.WriteToString([]string{"", "  "}[t.R.IntN(2)], true); err != nil {
			t.Failf("write", "what was read cannot be written: %v\n%q", err, clip(text, 2000))
		}
	} else {
		t.Obs("refused")
	}
	for mode := 0; mode < 4; mode++ {
		d := xml.NewDecoder(strings.NewReader(text))
		name := "strict"
		switch mode {
		case 1:
			d.Strict = false
			name = "lenient"
		case 2:
			d.Strict = false
			d.AutoClose = []string{"br", "a"}
			d.Entity = map[string]string{"nbsp": "\u00a0", "a": "<&a;>"}
			name = "lenient with auto-close and entities"
		case 3:
			d = xml.NewDecoder(&chunky{s: text, n: 1 + t.R.IntN(3)})
			name = "raw"
		}
		drain(t, name, d, len(text), mode == 3)
	}
	t.Evals(4)
	if len(text) >= 4 && strings.Contains(text, "<") {
		t.Nontrivial(text)
	}
}

// queryPeriod asks everything that can be asked of a Period and what is below it, linked and not.
func queryPeriod(m *mpd.MPD, p *mpd.Period) (n int) {
	m.GetType()
	p.GetIndex()
	if pt, err := p.GetType(); err == nil {
		_ = pt.String()
	}
	p.GetStart()
	p.GetDuration()
	p.AbsoluteStart(m)
	mpd.NewPeriod().GetStart()
	n = 7
	for _, l := range [][]*mpd.AdaptationSetType{p.AdaptationSets, p.EmptyAdaptationSets} {
		for _, a := range l {
			a.Parent()
			a.GetMimeType()
			a.GetCodecs()
			a.GetSegmentTemplate()
			a.GetContentProtections()
			n += 5
			for _, r := range a.Representations {
				n += queryRepresentation(r)
			}
			if len(a.Representations) > 0 {
				r := *a.Representations[0]
				r.SetParent(nil)
				n += queryRepresentation(&r)
				n += queryRepresentation(a.Clone().Representations[0])
			}
		}
	}
	return n
}

func queryRepresentation(r *mpd.RepresentationType) int {
	r.GetInit()
	r.GetMedia()
	r.GetMimeType()
	r.GetCodecs()
	r.GetSegmentTemplate()
	r.GetContentProtections()
	for _, s := range r.SubRepresentations {
		s.Parent()
	}
	return 7
}

type recPath struct {
	N *recPath  `xml:"b>c>a"`
	L []recPath `xml:"d>a"`
}

type recAny struct {
	Any []recAny `xml:",any"`
}

type recNode struct {
	Name string    `xml:"name,attr"`
	Kids []recNode `xml:"n"`
	P    *recNode  `xml:"p"`
}

// anyTree keeps all of a document.
type anyTree struct {
	XMLName xml.Name
	Attrs   []xml.Attr `xml:",any,attr"`
	Text    string     `xml:",chardata"`
	Comment string     `xml:",comment"`
	Kids    []anyTree  `xml:",any"`
}

// threadCPU is the CPU time of the calling thread.
func threadCPU() time.Duration {
	var u syscall.Rusage
	must(syscall.Getrusage(1 /* RUSAGE_THREAD */, &u))
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func runC06(c *Ctx) {
	c.Cases("bytes", c.N(20000, 1000000), func(t *T) {
		n := t.R.IntN(80)
		b := make([]byte, n)
		for i := range b {
			if t.R.IntN(3) == 0 {
				b[i] = byte(t.R.IntN(256))
			} else {
				b[i] = "<>/=\"'&;!?-[]:ax \n#"[t.R.IntN(19)]
			}
		}
		s := string(b)
		if t.R.IntN(2) == 0 {
			s = "<MPD>" + s
		}
		hostileRead(t, s)
	})
	c.Cases("soup", c.N(30000, 1500000), func(t *T) { hostileRead(t, soupText(t, 1+t.R.IntN(40))) })
	c.Cases("mutant", c.N(8000, 300000), func(t *T) {
		g := newGen(t.R)
		g.budget = 15
		text := newSurface(t.R).render(g.doc([]int{5, 12, 30}[t.R.IntN(3)]))
		for k := 1 + t.R.IntN(4); k > 0 && len(text) > 0; k-- {
			i, j := t.R.IntN(len(text)), t.R.IntN(len(text))
			if i > j {
				i, j = j, i
			}
			switch t.R.IntN(4) {
			case 0:
				text = text[:i] + soupText(t, 1+t.R.IntN(3)) + text[i:]
			case 1:
				text = text[:i] + text[min(len(text), i+t.R.IntN(30)):]
			case 2:
				text = text[:j] + text[i:j] + text[j:] // repeat a part
			case 3:
				text = text[:i] + text[j:] + text[i:j] // move a part
			}
		}
		hostileRead(t, text)
	})
	c.Cases("accepted", c.N(1500, 60000), func(t *T) {
		g := newGen(t.R)
		g.budget = []int{40, 150}[t.R.IntN(2)]
		hostileRead(t, newSurface(t.R).render(g.doc([]int{12, 30, 60}[t.R.IntN(3)])))
	})
	// Reading errors of the stream end the token stream with that error.
	boom := errors.New("boom")
	c.Cases("read-error", c.N(3000, 60000), func(t *T) {
		g := newGen(t.R)
		g.budget = 6
		text := newSurface(t.R).render(g.doc(5))
		cut := t.R.IntN(len(text))
		for !utf8.RuneStart(text[cut]) {
			cut-- // not inside a character, which is an error of its own
		}
		rd := &chunky{s: text[:cut], n: 1 + t.R.IntN(9), err: boom, with: t.R.IntN(2) == 0, zero: []int{0, 3}[t.R.IntN(2)]}
		d := xml.NewDecoder(rd)
		for i := 0; ; i++ {
			_, err := d.Token()
			if err != nil {
				if !errors.Is(err, boom) {
					t.Failf("read-error-lost", "the stream failed with %q, the decoder says %v\n%q", boom, err, text[:cut])
				}
				break
			}
			if i > 2*cut+8 {
				t.Failf("endless-tokens", "tokens after a read error\n%q", text[:cut])
				break
			}
		}
		t.Obs("streams with a read error")
	})

	// Depth. Each document is built in memory and is small compared with what a stack can hold.
	depths := []int{100, 2000, 4500, 20000, 1000000}
	if c.Thorough() {
		depths = append(depths, 5000000)
	}
	const deepShapes = 10
	c.Serial("depth", len(depths)*deepShapes, func(t *T) {
		n := depths[t.Idx/deepShapes]
		shape := t.Idx % deepShapes
		var err error
		what := ""
		mustOK := n <= 4500
		if n >= 1000000 && (shape < 3 || shape == 6) {
			// Elements that are passed over do not take stack in proportion to their nesting.
			defer debug.SetMaxStack(debug.SetMaxStack(16 << 20))
			t.Obs("deep documents read with a small stack")
		}
		switch shape {
		case 0:
			what = "unknown elements"
			_, err = mpd.ReadFromString("<MPD>" + strings.Repeat("<x>", n) + strings.Repeat("</x>", n) + "</MPD>")
		case 1:
			what = "unclosed unknown elements"
			_, err = mpd.ReadFromString("<MPD>" + strings.Repeat("<x>", n))
			if err == nil {
				t.Failf("depth-unclosed", "%d unclosed elements accepted", n)
			}
			mustOK = false
		case 2:
			what = "MPD in MPD"
			_, err = mpd.ReadFromString(strings.Repeat("<MPD>", n) + strings.Repeat("</MPD>", n))
		case 3:
			what = "recursive slice type"
			var v recNode
			err = xml.Unmarshal([]byte(strings.Repeat("<n>", n)+strings.Repeat("</n>", n)), &v)
			if err == nil && n > 10000 {
				t.Failf("depth-limit", "nesting of %d is decoded recursively without limit", n)
			}
			d := 0
			for p := &v; len(p.Kids) > 0; p = &p.Kids[0] {
				d++
			}
			if mustOK && d != n-1 {
				t.Failf("depth-lost", "%d levels read, want %d", d, n-1)
			}
		case 4:
			what = "recursive pointer type"
			var v recNode
			err = xml.Unmarshal([]byte(strings.Repeat("<p>", n)+strings.Repeat("</p>", n)), &v)
			if err == nil && n > 10000 {
				t.Failf("depth-limit", "nesting of %d is decoded recursively without limit", n)
			}
		case 5:
			what = "recursive type, unclosed"
			var v recNode
			err = xml.Unmarshal([]byte(strings.Repeat("<p>", n)), &v)
			if err == nil {
				t.Failf("depth-unclosed", "%d unclosed elements accepted", n)
			}
			mustOK = false
		case 7, 8:
			what = "recursive type through a path"
			n = min(n, 20000)
			step, down := "<b><c><a>", "</a></c></b>"
			if shape == 8 {
				step, down = "<d><a>", "</a></d>"
			}
			var v recPath
			err = xml.Unmarshal([]byte("<r>"+strings.Repeat(step, n)+strings.Repeat(down, n)+"</r>"), &v)
			if err == nil && n > 10000 {
				t.Failf("depth-limit", "nesting of %d structs through paths is decoded recursively without limit", n)
			}
			d := 0
			for p := &v; p != nil; d++ {
				if len(p.L) > 0 {
					p = &p.L[0]
				} else {
					p = p.N
				}
			}
			if mustOK && d != n+1 {
				t.Failf("depth-lost", "%d levels read, want %d", d, n+1)
			}
		case 9:
			what = "recursive type through any"
			n = min(n, 20000)
			var v recAny
			err = xml.Unmarshal([]byte(strings.Repeat("<n>", n)+strings.Repeat("</n>", n)), &v)
			if err == nil && n > 10000 {
				t.Failf("depth-limit", "nesting of %d through any is decoded recursively without limit", n)
			}
			d := 0
			for p := &v; len(p.Any) > 0; p = &p.Any[0] {
				d++
			}
			if mustOK && d != n-1 {
				t.Failf("depth-lost", "%d levels read, want %d", d, n-1)
			}
		case 6:
			what = "inside an SCTE-35 extension"
			_, err = mpd.ReadFromString(`<MPD><Period><EventStream><Event><SpliceInfoSection xmlns="` + nsSCTE35 + `"><Ext>` + strings.Repeat("<x>", n) + strings.Repeat("</x>", n) + `</Ext></SpliceInfoSection></Event></EventStream></Period></MPD>`)
		}
		if mustOK && err != nil {
			t.Failf("depth-refused", "%d %s: %v", n, what, err)
		}
		t.Obs("deep documents")
		t.Nontrivial(what, fmt.Sprint(n))
	})

	// Cost: memory allocated must stay in proportion to the input; CPU time is watched.
	shapes := []struct {
		name string
		f    func(n int) string
	}{
		{"long text", func(n int) string { return "<MPD><BaseURL>" + strings.Repeat("a", n) + "</BaseURL></MPD>" }},
		{"long attribute", func(n int) string { return `<MPD id="` + strings.Repeat("a", n) + `"/>` }},
		{"many references", func(n int) string {
			return "<MPD><BaseURL>" + strings.Repeat("&amp;", n/5) + "</BaseURL></MPD>"
		}},
		{"long reference", func(n int) string {
			return "<MPD><BaseURL>&" + strings.Repeat("a", n) + ";</BaseURL></MPD>"
		}},
		{"long number reference", func(n int) string {
			return "<MPD><BaseURL>&#" + strings.Repeat("0", n) + "65;</BaseURL></MPD>"
		}},
		{"many attributes", func(n int) string {
			var b strings.Builder
			b.WriteString("<MPD")
			for i := 0; b.Len() < n; i++ {
				fmt.Fprintf(&b, ` a%d="1"`, i)
			}
			return b.String() + "/>"
		}},
		{"many namespaces", func(n int) string {
			var b strings.Builder
			b.WriteString("<MPD")
			for i := 0; b.Len() < n; i++ {
				fmt.Fprintf(&b, ` xmlns:a%d="urn:%d"`, i, i)
			}
			return b.String() + "/>"
		}},
		{"nested namespaces", func(n int) string {
			var b strings.Builder
			k := n / 30
			b.WriteString("<MPD>")
			for i := 0; i < k; i++ {
				fmt.Fprintf(&b, `<x xmlns:a%d="u">`, i)
			}
			return b.String() + strings.Repeat("</x>", k) + "</MPD>"
		}},
		{"long comment", func(n int) string { return "<MPD><!--" + strings.Repeat("- ", n/2) + "--></MPD>" }},
		{"many comments", func(n int) string { return "<MPD>" + strings.Repeat("<!---->", n/7) + "</MPD>" }},
		{"many processing instructions", func(n int) string { return "<MPD>" + strings.Repeat("<?a?>", n/5) + "</MPD>" }},
		{"long directive", func(n int) string { return "<!DOCTYPE " + strings.Repeat("<!-- - -->", n/10) + "><MPD/>" }},
		{"quoted directive", func(n int) string { return "<!DOCTYPE " + strings.Repeat("'>'", n/3) + "><MPD/>" }},
		{"nested directive", func(n int) string {
			return "<!DOCTYPE " + strings.Repeat("<", n/2) + strings.Repeat(">", n/2) + "><MPD/>"
		}},
		{"CDATA", func(n int) string {
			return "<MPD><BaseURL><![CDATA[" + strings.Repeat("]] >", n/4) + "]]></BaseURL></MPD>"
		}},
		{"many CDATA", func(n int) string {
			return "<MPD><BaseURL>" + strings.Repeat("<![CDATA[]]>", n/12) + "</BaseURL></MPD>"
		}},
		{"text in pieces", func(n int) string { return "<MPD><BaseURL>" + strings.Repeat("a<!---->", n/8) + "</BaseURL></MPD>" }},
		{"many periods", func(n int) string { return "<MPD>" + strings.Repeat("<Period/>", n/9) + "</MPD>" }},
		{"many segments", func(n int) string {
			return "<MPD><Period><AdaptationSet><SegmentTemplate><SegmentTimeline>" + strings.Repeat(`<S d="1"/>`, n/10) + "</SegmentTimeline></SegmentTemplate></AdaptationSet></Period></MPD>"
		}},
		{"long name", func(n int) string { s := strings.Repeat("a", n/2); return "<MPD><" + s + "></" + s + "></MPD>" }},
		{"long end tag", func(n int) string { return "<MPD><a></a" + strings.Repeat(" ", n) + "></MPD>" }},
		{"carriage returns", func(n int) string { return "<MPD><BaseURL>" + strings.Repeat("\r\n", n/2) + "</BaseURL></MPD>" }},
		{"raw greater-than", func(n int) string { return "<MPD><BaseURL>" + strings.Repeat(">", n) + "</BaseURL></MPD>" }},
		{"brackets", func(n int) string { return "<MPD><BaseURL>" + strings.Repeat("]", n) + "</BaseURL></MPD>" }},
		{"list value", func(n int) string {
			return `<MPD><Period><ServiceDescription><ClientDataReporting><CMCDParameters keys="` + strings.Repeat("a ", n/2) + `"/></ClientDataReporting></ServiceDescription></Period></MPD>`
		}},
		{"extension content", func(n int) string {
			return `<MPD><Period><EventStream><Event><SpliceInfoSection xmlns="` + nsSCTE35 + `"><Ext>` + strings.Repeat("<x/>", n/4) + `</Ext></SpliceInfoSection></Event></EventStream></Period></MPD>`
		}},
		{"nested extensions", func(n int) string {
			return `<MPD><Period><EventStream>` + strings.Repeat(`<Event><SpliceInfoSection xmlns="`+nsSCTE35+`"><Ext>x</Ext></SpliceInfoSection></Event>`, n/100) + `</EventStream></Period></MPD>`
		}},
		{"long duration", func(n int) string { return `<MPD minBufferTime="PT` + strings.Repeat("0", n) + `1S"/>` }},
		{"long number", func(n int) string {
			return `<MPD><Period><SegmentBase timescale="` + strings.Repeat("0", n) + `1"/></Period></MPD>`
		}},
	}
	size := 2 << 20
	if c.Thorough() {
		size = 16 << 20
	}
	c.Serial("cost", len(shapes), func(t *T) {
		sh := shapes[t.Idx]
		text := sh.f(size)
		var a, b runtime.MemStats
		buf := []byte(text)
		runtime.GC()
		runtime.ReadMemStats(&a)
		m, err := mpd.MPDFromBytes(buf)
		runtime.ReadMemStats(&b)
		perByte := float64(b.TotalAlloc-a.TotalAlloc) / float64(len(text))
		t.Sample("%s: %d bytes, %.1f bytes allocated per input byte, error %v", sh.name, len(text), perByte, err)
		if perByte > 600 {
			t.Failf("memory-amplification", "%s: %.0f bytes allocated per input byte (%d bytes)", sh.name, perByte, len(text))
		}
		if err == nil {
			cw := &countWriter{}
			runtime.ReadMemStats(&a)
			if _, err := m.Write(cw, " ", false); err != nil {
				t.Failf("write", "%s: %v", sh.name, err)
			}
			runtime.ReadMemStats(&b)
			if w := float64(b.TotalAlloc-a.TotalAlloc) / float64(len(text)); w > 600 {
				t.Failf("memory-amplification", "writing %s: %.0f bytes allocated per input byte", sh.name, w)
			}
			if cw.n > 12*len(text)+1000 {
				t.Failf("output-amplification", "%s: %d bytes written for %d read", sh.name, cw.n, len(text))
			}
		}
		t.Obs("large documents")
		t.Nontrivial(sh.name)
	})
	// Growth: eight times the input may take about eight times the CPU time of the thread, and not
	// sixty-four times. The bound is three times what is expected, for the least of the large runs
	// against the longest of the small ones, and runs that are short in any case are not judged.
	grow := []struct {
		name string
		f    func(text string)
	}{
		{"reading", func(text string) { _, _ = mpd.ReadFromString(text) }},
		{"tokens, lenient", func(text string) {
			d := xml.NewDecoder(strings.NewReader(text))
			d.Strict, d.AutoClose, d.Entity = false, xml.HTMLAutoClose, xml.HTMLEntity
			for {
				if _, err := d.Token(); err != nil {
					return
				}
			}
		}},
		{"raw tokens", func(text string) {
			d := xml.NewDecoder(strings.NewReader(text))
			for {
				if _, err := d.RawToken(); err != nil {
					return
				}
			}
		}},
		{"catch-all types", func(text string) {
			var v anyTree
			_ = xml.Unmarshal([]byte(text), &v)
		}},
	}
	measure := func(f func()) time.Duration {
		a := threadCPU()
		f()
		return threadCPU() - a
	}
	judgeGrowth := func(t *T, what string, small, large func()) {
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		var worst, best time.Duration
		for k := 0; k < 4; k++ {
			a, b := measure(small), measure(large)
			worst = max(worst, a)
			if best == 0 || b < best {
				best = b
			}
			if best < 400*time.Millisecond || best < 24*worst {
				t.Obs("growth of CPU time judged")
				return
			}
		}
		t.Failf("growth", "%s takes %v for an eighth of the input and %v for the input", what, worst, best)
	}
	c.Serial("growth", len(shapes)*len(grow), func(t *T) {
		sh, g := shapes[t.Idx/len(grow)], grow[t.Idx%len(grow)]
		a, b := sh.f(size/8), sh.f(size)
		judgeGrowth(t, g.name+" "+sh.name, func() { g.f(a) }, func() { g.f(b) })
		t.Nontrivial(sh.name, g.name)
	})
	// The same for structures that are written and cloned.
	structures := []struct {
		name string
		f    func(n int) any
	}{
		{"text", func(n int) any { return mpd.NewBaseURL(strings.Repeat("a", n)) }},
		{"text to be escaped", func(n int) any { return mpd.NewBaseURL(strings.Repeat("&", n/2)) }},
		{"invalid text", func(n int) any { return mpd.NewRole(strings.Repeat("\xff", n/2)) }},
		{"periods", func(n int) any {
			m := mpd.NewMPD("static")
			for i := 0; i < n/40; i++ {
				m.AppendPeriod(mpd.NewPeriod())
			}
			return m
		}},
		{"segments", func(n int) any {
			l := mpd.NewSegmentTimeline()
			for i := 0; i < n/20; i++ {
				l.S = append(l.S, &mpd.S{D: uint64(i)})
			}
			return l
		}},
		{"attributes", func(n int) any {
			x := mpd.NewSCTE214ContentIdentifier("a", "b")
			for i := 0; i < n/20; i++ {
				x.AnyAttrs = append(x.AnyAttrs, xml.Attr{Name: xml.Name{Local: fmt.Sprintf("a%d", i)}, Value: "x"})
			}
			return x
		}},
		{"extensions", func(n int) any {
			l := &mpd.EventStreamType{}
			for i := 0; i < n/400; i++ {
				s := mpd.NewSpliceInfoSection()
				s.Ext = &mpd.ExtType{}
				l.Events = append(l.Events, &mpd.EventType{SpliceInfoSection: s})
			}
			return l
		}},
		{"CDATA", func(n int) any {
			return &struct {
				XMLName xml.Name `xml:"a"`
				C       string   `xml:",cdata"`
			}{C: strings.Repeat("]]>", n/6)}
		}},
		{"comment", func(n int) any {
			return &struct {
				XMLName xml.Name `xml:"a"`
				C       string   `xml:",comment"`
			}{C: strings.Repeat("- ", n/2)}
		}},
		{"depth", func(n int) any {
			v := &recNode{}
			top := v
			for i := 0; i < min(n/100, 20000); i++ {
				v.P = &recNode{Name: "x"}
				v = v.P
			}
			return top
		}},
	}
	c.Serial("growth-write", len(structures)*3, func(t *T) {
		sh := structures[t.Idx/3]
		indent := []string{"", " ", ""}[t.Idx%3]
		if sh.name == "depth" {
			indent = "" // the indentation itself is quadratic in the depth
		}
		a, b := sh.f(size/8), sh.f(size)
		f := func(v any) func() {
			if t.Idx%3 == 2 {
				switch x := v.(type) {
				case *mpd.MPD:
					return func() { mpd.Clone(x) }
				case *mpd.EventStreamType:
					return func() { (&mpd.Period{EventStreams: []*mpd.EventStreamType{x}}).Clone() }
				case *mpd.SegmentTimelineType:
					as := mpd.NewAdaptationSet()
					as.SegmentTemplate = mpd.NewSegmentTemplate()
					as.SegmentTemplate.SegmentTimeline = x
					return func() { as.Clone() }
				}
			}
			return func() {
				if _, err := mpd.WriteXML(v, &countWriter{}, indent, false); err != nil {
					t.Failf("write", "%s: %v", sh.name, err)
				}
			}
		}
		judgeGrowth(t, "writing or cloning "+sh.name, f(a), f(b))
		t.Nontrivial(sh.name, fmt.Sprint(t.Idx%3))
	})
	c.Require("growth of CPU time judged", int64(len(shapes)*len(grow)+len(structures)*3))
	// Queries of what was read: each ends, and its cost follows the size of the document.
	querySizes := []int{40, 200, 1000, 4000}
	queryShapes := []struct {
		name string
		f    func(n int) string
	}{
		{"periods chained by duration", func(n int) string { return strings.Repeat(`<Period duration="PT1S"/>`, n) }},
		{"periods without anything", func(n int) string { return strings.Repeat(`<Period/>`, n) }},
		{"periods with start", func(n int) string { return strings.Repeat(`<Period start="PT1S"/>`, n) }},
		{"periods with start then chained", func(n int) string {
			return `<Period start="PT1S" duration="PT1S"/>` + strings.Repeat(`<Period duration="PT1S"/>`, n-1)
		}},
		{"periods with start and duration", func(n int) string {
			return strings.Repeat(`<Period start="PT1S" duration="PT1S"/>`, n)
		}},
		{"periods chained, the first unknown", func(n int) string {
			return `<Period/>` + strings.Repeat(`<Period duration="PT1S"/>`, n-1)
		}},
		{"representations", func(n int) string {
			return `<Period><AdaptationSet mimeType="m" codecs="c"><ContentProtection schemeIdUri="u"/><SegmentTemplate media="$RepresentationID$" initialization="$Bandwidth$"/>` + strings.Repeat(`<Representation id="$RepresentationID$$RepresentationID$" bandwidth="1"/>`, n) + `</AdaptationSet></Period>`
		}},
		{"adaptation sets", func(n int) string {
			return `<Period>` + strings.Repeat(`<AdaptationSet/><AdaptationSet><Representation id="1"><SubRepresentation/></Representation></AdaptationSet>`, n/2) + `</Period>`
		}},
		{"templates with many identifiers", func(n int) string {
			return `<Period><AdaptationSet><Representation id="$RepresentationID$" bandwidth="4294967295"><SegmentTemplate initialization="` + strings.Repeat("$RepresentationID$$Bandwidth%099d$", n) + `" media="` + strings.Repeat("$", n) + strings.Repeat("$Bandwidth%099999999d$", n) + `"/></Representation></AdaptationSet></Period>`
		}},
		{"templates with odd identifiers", func(n int) string {
			return `<Period><AdaptationSet><Representation><SegmentTemplate initialization="` + strings.Repeat("$Bandwidth%0", n) + `" media="` + strings.Repeat("$$$Number%05d$Time", n) + `$"/></Representation></AdaptationSet></Period>`
		}},
	}
	c.Serial("queries", len(queryShapes)*len(querySizes)*2, func(t *T) {
		sh, n, typ := queryShapes[t.Idx/8], querySizes[t.Idx%8/2], []string{"static", "dynamic"}[t.Idx%2]
		text := `<MPD type="` + typ + `" availabilityStartTime="1970-01-01T00:00:00Z" mediaPresentationDuration="PT99999S">` + sh.f(n) + `</MPD>`
		m, err := mpd.ReadFromString(text)
		if err != nil {
			t.Failf("refused", "%s: %v", sh.name, err)
			return
		}
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		q := 0
		step := max(1, len(m.Periods)/50)
		for i := len(m.Periods) - 1; i >= 0; i -= step { // the last one first
			q += queryPeriod(m, m.Periods[i])
		}
		runtime.ReadMemStats(&b)
		if per := float64(b.TotalAlloc-a.TotalAlloc) / float64(len(text)); per > 5000 {
			t.Failf("memory-amplification", "%d queries of %s (%d): %.0f bytes allocated per byte of the document", q, sh.name, n, per)
		}
		cl := mpd.Clone(m)
		if len(cl.Periods) != len(m.Periods) {
			t.Failf("clone", "%s: %d periods cloned of %d", sh.name, len(cl.Periods), len(m.Periods))
		}
		if k := len(cl.Periods); k > 0 {
			q += queryPeriod(cl, cl.Periods[k-1])
		}
		t.ObsN("queries of large structures", q)
		t.Nontrivial(sh.name, fmt.Sprint(n), typ)
	})
	c.Require("queries of large structures", 10000)
	// Structures with holes are written without a panic.
	c.Cases("holes", c.N(2000, 40000), func(t *T) {
		f := newFiller(t.R, 2)
		m := f.mpdTree()
		if t.R.IntN(2) == 0 {
			m.Periods = append(m.Periods, nil)
		}
		for _, p := range m.Periods {
			if p != nil && t.R.IntN(2) == 0 {
				p.AdaptationSets = append([]*mpd.AdaptationSetType{nil}, p.AdaptationSets...)
				p.EventStreams = append(p.EventStreams, nil)
			}
		}
		if _, err := m.WriteToString("", false); err != nil {
			t.Failf("write", "%v", err)
		}
		t.Obs("structures with nil elements written")
	})
	c.Require("tokens", 100000)
	c.Require("accepted", 1500)
	c.Require("queries of what was read", 30000)
	c.Require("refused", 10000)
	c.Require("deep documents", 35)
	c.Require("large documents", int64(len(shapes)))
}

type countWriter struct{ n int }

func (w *countWriter) Write(p []byte) (int, error) { w.n += len(p); return len(p), nil }
