package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"runtime"
	"strings"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&Check{ID: "C15", Level: "exploration",
		Rule: "Histories of up to 60 operations on one goroutine (writes of MPDs, Periods and other values, with errors, panics and failing destinations at any byte; encoders acquired, used with tokens, left unclosed, closed or not, released or dropped; several at once). Each operation is repeated with a fresh encoder, and bytes, counts, errors and panics are compared; destinations of released encoders are watched for late writes. Non-trivial: a history of at least 5 operations.",
		Run:  runC15})
}

// marshalBomb is an element whose marshaller fails in the way chosen.
type marshalBomb struct {
	how int
	pad string
}

var errBomb = errors.New("bomb")

func (b marshalBomb) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: "urn:bomb/a", Local: "x"}, Value: b.pad})
	if err := e.EncodeToken(start); err != nil {
		return err
	}
	switch b.how {
	case 0:
		return errBomb
	case 1:
		panic("bomb")
	case 2:
		return nil // left open
	case 3:
		_ = e.EncodeToken(xml.StartElement{Name: xml.Name{Space: "urn:inner", Local: "p:deep"}})
		_ = e.EncodeToken(xml.CharData("text"))
		panic(errBomb)
	case 4:
		_ = e.EncodeToken(xml.EndElement{Name: xml.Name{Local: "wrong"}})
		return e.EncodeToken(start.End())
	case 5:
		_ = e.Close()
		return e.EncodeToken(start.End())
	case 6:
		e.Indent("##", "\t\t")
		return e.EncodeToken(start.End())
	case 7:
		_ = e.EncodeToken(start.End())
		return e.EncodeToken(start.End())
	}
	return e.EncodeToken(start.End())
}

type bombHolder struct {
	XMLName xml.Name `xml:"urn:holder h:holder"`
	A       string   `xml:"urn:a/b a,attr"`
	B       string   `xml:"urn:c/b a,attr"`
	Pre     []string `xml:"p>q>pre"`
	Bomb    any      `xml:"urn:holder h:bomb"`
	Post    string   `xml:"p>q>post"`
}

// panicWriter panics once limit bytes were written.
type panicWriter struct{ faultWriter }

func (w *panicWriter) Write(p []byte) (int, error) {
	if w.limit >= 0 && w.got.Len()+len(p) > w.limit && !w.failed {
		w.failed = true
		panic("writer")
	}
	n := w.limit
	w.limit = -1
	defer func() { w.limit = n }()
	return w.faultWriter.Write(p)
}

type countW struct {
	w io.Writer
	n int
}

func (c *countW) Write(p []byte) (int, error) {
	n, err := c.w.Write(p)
	c.n += n
	return n, err
}

// freshWrite is what the writing functions are to do, with an encoder of its own.
func freshWrite(v any, w io.Writer, indent string, header bool) (int, error) {
	c := &countW{w: w}
	if header {
		if _, err := io.WriteString(c, xml.Header); err != nil {
			return c.n, err
		}
	}
	e := xml.NewEncoder(c)
	e.Indent("", indent)
	if err := e.Encode(v); err != nil {
		return c.n, err
	}
	err := e.Flush()
	return c.n, err
}

type outcome struct {
	got      string
	n        int
	err      string
	panicked string
}

func outcomeOf(fw *faultWriter, f func() (int, error)) (o outcome) {
	defer func() {
		if r := recover(); r != nil {
			o.panicked = fmt.Sprint(r)
			if e, ok := r.(runtime.Error); ok {
				o.panicked = "runtime: " + e.Error()
			}
		}
		o.got = fw.got.String()
	}()
	n, err := f()
	o.n = n
	if err != nil {
		o.err = err.Error()
	}
	return
}

func c15Value(r *rand.Rand) any {
	switch r.IntN(10) {
	case 0, 1, 2:
		f := newFiller(r, r.IntN(3))
		f.dense = []int{3, 8, 20}[r.IntN(3)]
		f.budget = []int{2, 8, 30}[r.IntN(3)]
		return f.mpdTree()
	case 3:
		f := newFiller(r, r.IntN(2))
		f.budget = 5
		m := f.mpdTree()
		if len(m.Periods) > 0 {
			return m.Periods[0]
		}
		return mpd.NewPeriod()
	case 4:
		return mpd.NewRole("main")
	case 5:
		return &bombHolder{A: "x", B: "y", Pre: []string{"a", "b"}, Bomb: "plain", Post: "z"}
	case 6:
		return strings.Repeat("long", r.IntN(3000))
	case 7:
		return []any{nil, 1, true, (*mpd.MPD)(nil), []string{"a", "b"}, ""}[r.IntN(6)]
	default:
		h := &bombHolder{A: strings.Repeat("x", r.IntN(3)*r.IntN(3000)), B: "y", Post: "tail"}
		for i := r.IntN(4); i > 0; i-- {
			h.Pre = append(h.Pre, strings.Repeat("y", r.IntN(2000)))
		}
		if r.IntN(4) == 0 {
			h.Bomb = []any{make(chan int), map[int]int{}, func() {}}[r.IntN(3)]
		} else {
			h.Bomb = marshalBomb{r.IntN(9), strings.Repeat("<", r.IntN(3)*r.IntN(2000))}
		}
		return h
	}
}

// c15Script is a sequence of calls on an encoder.
func c15Script(r *rand.Rand) []func(e *xml.Encoder) string {
	var s []func(e *xml.Encoder) string
	spaces := []string{"", "", "urn:a", "urn:b/a", "urn:c/a", "http://www.w3.org/XML/1998/namespace"}
	es := func(err error) string {
		if err != nil {
			return err.Error()
		}
		return ""
	}
	var open []xml.Name
	for n := r.IntN(14); n > 0; n-- {
		var tok xml.Token
		switch r.IntN(12) {
		case 0, 1, 2:
			st := xml.StartElement{Name: xml.Name{Space: spaces[r.IntN(5)], Local: []string{"a", "b", "p:a", "q:b"}[r.IntN(4)]}}
			if r.IntN(60) == 0 { // very many namespaces
				for i := sizeUpTo(r, 600); i > 0; i-- {
					st.Attr = append(st.Attr, xml.Attr{Name: xml.Name{Space: fmt.Sprintf("urn:%d/x", i), Local: "m"}, Value: "v"})
				}
			}
			if r.IntN(60) == 0 { // very deep
				for i := sizeUpTo(r, 600); i > 0; i-- {
					st := xml.StartElement{Name: xml.Name{Space: spaces[r.IntN(5)], Local: "d"}}
					open = append(open, st.Name)
					s = append(s, func(e *xml.Encoder) string { return es(e.EncodeToken(st)) })
				}
			}
			for i := r.IntN(4); i > 0; i-- {
				st.Attr = append(st.Attr, xml.Attr{Name: xml.Name{Space: spaces[r.IntN(6)], Local: []string{"x", "y", "z"}[r.IntN(3)] + fmt.Sprint(i)}, Value: "v<"})
			}
			open = append(open, st.Name)
			tok = st
		case 3, 4:
			if len(open) > 0 {
				tok = xml.EndElement{Name: open[len(open)-1]}
				open = open[:len(open)-1]
			} else {
				tok = xml.EndElement{Name: xml.Name{Local: "stray"}}
			}
		case 5:
			tok = xml.CharData(strings.Repeat("c&", r.IntN(4)*r.IntN(900)))
		case 6:
			tok = xml.Comment("x-->y"[:r.IntN(6)])
		case 7:
			tok = xml.ProcInst{Target: []string{"xml", "a", ""}[r.IntN(3)], Inst: []byte("version=\"1.0\"")}
		case 8:
			v := c15Value(r)
			if r.IntN(2) == 0 {
				s = append(s, func(e *xml.Encoder) string { return es(e.Encode(v)) })
			} else {
				st := xml.StartElement{Name: xml.Name{Space: spaces[r.IntN(5)], Local: "st"}, Attr: []xml.Attr{{Name: xml.Name{Local: "k"}, Value: "v"}}}
				s = append(s, func(e *xml.Encoder) string { return es(e.EncodeElement(v, st)) })
			}
			continue
		case 9:
			p, i := []string{"", ">", "  "}[r.IntN(3)], []string{"", " ", "\t"}[r.IntN(3)]
			s = append(s, func(e *xml.Encoder) string { e.Indent(p, i); return "" })
			continue
		case 10:
			s = append(s, func(e *xml.Encoder) string { return es(e.Flush()) })
			continue
		default:
			if r.IntN(3) == 0 {
				s = append(s, func(e *xml.Encoder) string { return es(e.Close()) })
			}
			continue
		}
		s = append(s, func(e *xml.Encoder) string { return es(e.EncodeToken(tok)) })
	}
	return s
}

func runC15(c *Ctx) {
	// One goroutine and one P, so that the pool gives back what was put.
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	c.Serial("history", c.N(2500, 60000), func(t *T) {
		r := t.R
		n := 5 + r.IntN(56)
		var released []*faultWriter
		var sig strings.Builder
		var history []string
		mk := func(size int) (*faultWriter, *faultWriter, io.Writer, io.Writer, string) {
			limit, kind, once := -1, 0, false
			if r.IntN(3) == 0 {
				limit, kind, once = r.IntN(size+1), r.IntN(faultKinds), r.IntN(2) == 0
			}
			if limit >= 0 && r.IntN(3) == 0 {
				a, b := &panicWriter{faultWriter{limit: limit}}, &panicWriter{faultWriter{limit: limit}}
				return &a.faultWriter, &b.faultWriter, a, b, fmt.Sprintf("panicking at %d", limit)
			}
			a, b := &faultWriter{limit: limit, kind: kind, once: once}, &faultWriter{limit: limit, kind: kind, once: once}
			how := fmt.Sprintf("failing at %d", limit)
			if r.IntN(2) == 0 {
				a.err = faultErrors[r.IntN(len(faultErrors))]
				b.err = a.err
			}
			switch r.IntN(8) {
			case 0: // not as large as the encoder's, or a fresh encoder would use it as its own
				n := 16 + r.IntN(4000)
				a.err, b.err = faultErrors[0], faultErrors[0] // a bufio.Writer does not end when nothing is written without an error
				return a, b, bufio.NewWriterSize(a, n), bufio.NewWriterSize(b, n), fmt.Sprintf("buffering %d bytes, %s", n, how)
			case 1:
				return a, b, strWriter{a}, strWriter{b}, "of strings, " + how
			case 2:
				return a, b, fromWriter{a}, fromWriter{b}, "that reads, " + how
			case 3:
				return a, b, byteWriter{a}, byteWriter{b}, "of bytes, " + how
			}
			return a, b, a, b, how
		}
		check := func(what string, got, want outcome) {
			t.Evals(1)
			t.Obs("operations compared with a fresh encoder")
			if want.err != "" {
				t.Obs("operations that end with an error")
			}
			if want.panicked != "" {
				t.Obs("operations that end with a panic")
				want.n, got.n = 0, 0
			}
			if got != want {
				t.Failf("differs", "operation %d, %s\npooled: n=%d err=%q panic=%q %q\nfresh:  n=%d err=%q panic=%q %q\nhistory:\n%s", len(history), what,
					got.n, got.err, got.panicked, clip(got.got, 1500), want.n, want.err, want.panicked, clip(want.got, 1500), strings.Join(history, "\n"))
			}
		}
		// goOn lets the owners of buffered destinations use them after the encoder.
		goOn := func(aw, bw io.Writer, a, b *faultWriter) {
			x, ok := aw.(*bufio.Writer)
			if !ok {
				return
			}
			y := bw.(*bufio.Writer)
			use := func(w *bufio.Writer) func() (int, error) {
				return func() (int, error) {
					n, err := w.WriteString("<!-- tail -->")
					if err == nil {
						err = w.Flush()
					}
					return n, err
				}
			}
			want := outcomeOf(b, use(y))
			check("the owner's use of its buffer after the encoder", outcomeOf(a, use(x)), want)
			t.Obs("buffers used by their owners after the encoder")
		}
		type session struct {
			e, ref *xml.Encoder
			a, b   *faultWriter
			aw, bw io.Writer
		}
		var open []*session
		for i := 0; i < n && !t.failed; i++ {
			switch op := r.IntN(10); {
			case op < 6 || len(open) == 0 && op > 7:
				v := c15Value(r)
				indent := []string{"", " ", "  ", "\t"}[r.IntN(4)]
				header := r.IntN(2) == 0
				a, b, aw, bw, how := mk([]int{60, 500, 5000}[r.IntN(3)])
				what := fmt.Sprintf("write %T indent %q header %t to a writer %s", v, indent, header, how)
				want := outcomeOf(b, func() (int, error) { return freshWrite(v, bw, indent, header) })
				got := outcomeOf(a, func() (int, error) {
					switch x := v.(type) {
					case *mpd.MPD:
						if x != nil {
							return x.Write(aw, indent, header)
						}
					case *mpd.Period:
						if !header {
							return x.Write(aw, indent)
						}
					}
					return mpd.WriteXML(v, aw, indent, header)
				})
				check(what, got, want)
				accepted := a.accepted
				goOn(aw, bw, a, b)
				a.closed = true
				released = append(released, a)
				if _, buffered := aw.(*bufio.Writer); !buffered && got.panicked == "" && got.n != accepted {
					t.Failf("count", "%s: %d reported, %d accepted", what, got.n, accepted)
				}
				history = append(history, what)
				fmt.Fprintf(&sig, "w%T%s", v, how)
			case op < 8:
				a, b, aw, bw, how := mk(800)
				open = append(open, &session{e: xml.AcquireEncoder(aw), ref: xml.NewEncoder(bw), a: a, b: b, aw: aw, bw: bw})
				history = append(history, "acquire for a writer "+how)
				sig.WriteString("a" + how)
				fallthrough
			default:
				k := r.IntN(len(open))
				s := open[k]
				script := c15Script(r)
				for _, f := range script {
					want := outcomeOf(s.b, func() (int, error) { return 0, strErr(f(s.ref)) })
					got := outcomeOf(s.a, func() (int, error) { return 0, strErr(f(s.e)) })
					check("a call on an acquired encoder", got, want)
				}
				history = append(history, fmt.Sprintf("%d calls on acquired encoder %d of %d", len(script), k, len(open)))
				fmt.Fprintf(&sig, "s%d", len(script))
				if r.IntN(2) == 0 {
					open = append(open[:k], open[k+1:]...)
					end := r.IntN(4)
					if end == 3 {
						history = append(history, "dropped")
						t.Obs("encoders dropped")
						break
					}
					if end == 2 {
						want := outcomeOf(s.b, func() (int, error) { return 0, s.ref.Close() })
						got := outcomeOf(s.a, func() (int, error) { return 0, s.e.Close() })
						check("close of an acquired encoder", got, want)
					}
					xml.ReleaseEncoder(s.e)
					if s.a.got.String() != s.b.got.String() {
						t.Failf("release-writes", "releasing an encoder wrote to its destination")
					}
					goOn(s.aw, s.bw, s.a, s.b)
					s.a.closed = true
					released = append(released, s.a)
					history = append(history, "released")
					t.Obs("encoders released")
				}
			}
		}
		for _, w := range released {
			if w.late > 0 {
				t.Failf("late", "%d writes to a destination after its encoder was released\nhistory:\n%s", w.late, strings.Join(history, "\n"))
			}
		}
		if n >= 5 {
			t.Nontrivial(sig.String())
		}
		if t.Idx < 2 {
			t.Sample("%s", strings.Join(history, "; "))
		}
	})
	// Reuse has to occur, or nothing was shown.
	seen := map[*xml.Encoder]bool{}
	reused := 0
	for i := 0; i < 1000; i++ {
		e := xml.AcquireEncoder(io.Discard)
		if seen[e] {
			reused++
		}
		seen[e] = true
		xml.ReleaseEncoder(e)
	}
	fmt.Println("   pooled encoders handed out again:", reused, "of 1000")
	c.Require("operations compared with a fresh encoder", 50000)
	c.Require("operations that end with an error", 5000)
	c.Require("operations that end with a panic", 500)
	c.Require("encoders released", 2000)
	c.Require("buffers used by their owners after the encoder", 1000)
}

func strErr(s string) error {
	if s == "" {
		return nil
	}
	return errors.New(s)
}

var _ = bytes.NewReader
