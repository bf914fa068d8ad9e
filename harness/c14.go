package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"strings"
	"syscall"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&Check{ID: "C14", Level: "fault_enumeration",
		Rule: "For each document, writer, indentation and header, one fault at every byte position of the output (every position up to 4 KiB, then around buffer boundaries and at random): an error with a partial, empty or full count, once or for good. A recording writer checks what is delivered, the count, the error, and that nothing is written after the call returned. Non-trivial: a fault inside the output.",
		Run:  runC14})
}

var errFault = errors.New("injected fault")

// tempError is an error that says of itself that it will pass.
type tempError struct{}

func (tempError) Error() string   { return "temporary" }
func (tempError) Temporary() bool { return true }
func (tempError) Timeout() bool   { return true }

// faultErrors are errors which may be taken for something that can be retried or ignored.
var faultErrors = []error{errFault, errFault, io.ErrShortWrite, io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, io.ErrShortBuffer,
	syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.ENOSPC, os.ErrDeadlineExceeded, os.ErrClosed, context.Canceled, context.DeadlineExceeded,
	tempError{}, bufio.ErrBufferFull, fmt.Errorf("wrapped: %w", io.ErrShortWrite), fmt.Errorf("wrapped: %w", io.EOF), &os.PathError{Op: "write", Path: "x", Err: syscall.EINTR}}

// faultWriter accepts limit bytes and then fails in the way of kind; with once, it works again afterwards.
type faultWriter struct {
	got      bytes.Buffer
	accepted int
	limit    int
	kind     int
	once     bool
	failed   bool
	after    int // calls after the fault
	calls    int
	err      error
	closed   bool
	late     int // calls after the writing function returned
}

const (
	faultPartial = iota // accept up to the limit and report an error
	faultNone           // accept nothing of the call that crosses the limit
	faultFull           // accept the whole call and still report an error
	faultKinds
)

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.closed {
		w.late++
	}
	if w.failed {
		w.after++
	}
	if w.limit < 0 || w.got.Len()+len(p) <= w.limit || w.failed && w.once {
		w.got.Write(p)
		w.accepted += len(p)
		return len(p), nil
	}
	w.failed = true
	n := 0
	switch w.kind {
	case faultPartial:
		n = max(0, w.limit-w.got.Len())
	case faultFull:
		n = len(p)
	}
	w.got.Write(p[:n])
	w.accepted += n
	return n, w.err
}

// strWriter also has WriteString, which io.WriteString prefers.
type strWriter struct{ *faultWriter }

func (w strWriter) WriteString(s string) (int, error) { return w.Write([]byte(s)) }

// fromWriter also has ReadFrom, which io.Copy prefers.
type fromWriter struct{ *faultWriter }

func (w fromWriter) ReadFrom(r io.Reader) (n int64, err error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	k, err := w.Write(b)
	return int64(k), err
}

// byteWriter also has WriteByte.
type byteWriter struct{ *faultWriter }

func (w byteWriter) WriteByte(c byte) error {
	_, err := w.Write([]byte{c})
	return err
}

func runC14(c *Ctx) {
	type doc struct {
		name  string
		write func(w io.Writer, indent string, header bool) (int, error)
		str   func(indent string, header bool) (string, error)
		head  bool
	}
	mkDoc := func(t *T, m *mpd.MPD, what int) doc {
		switch what {
		case 1:
			p := mpd.NewPeriod()
			if len(m.Periods) > 0 {
				p = m.Periods[0]
			}
			return doc{"Period.Write", func(w io.Writer, i string, h bool) (int, error) { return p.Write(w, i) }, func(i string, h bool) (string, error) { return p.WriteToString(i) }, false}
		case 2:
			return doc{"WriteXML of an MPD", func(w io.Writer, i string, h bool) (int, error) { return mpd.WriteXML(m, w, i, h) }, func(i string, h bool) (string, error) { return m.WriteToString(i, h) }, true}
		case 3:
			var el any = mpd.NewRole("main")
			if len(m.Periods) > 0 && len(m.Periods[0].AdaptationSets) > 0 {
				el = m.Periods[0].AdaptationSets
			}
			return doc{"WriteXML of another element", func(w io.Writer, i string, h bool) (int, error) { return mpd.WriteXML(el, w, i, h) }, func(i string, h bool) (string, error) {
				var b strings.Builder
				_, err := mpd.WriteXML(el, &b, i, h)
				return b.String(), err
			}, true}
		}
		return doc{"MPD.Write", m.Write, m.WriteToString, true}
	}
	c.Cases("faults", c.N(400, 8000), func(t *T) {
		r := t.R
		f := newFiller(r, r.IntN(3))
		f.dense = []int{3, 8, 20}[r.IntN(3)]
		f.budget = []int{2, 8, 30}[r.IntN(3)]
		if t.Idx%20 == 0 {
			f.dense, f.budget = 20, 120
		}
		m := f.mpdTree()
		if t.Idx%20 == 10 { // a text that is written at once
			n := []int{65535, 65536, 65537, 69631, 69632, 69633, 70000, 131072, 140000, 200000, 300000}[r.IntN(11)]
			m.BaseURL = append(m.BaseURL, mpd.NewBaseURL(longStr(r, n, false)))
			t.Obs("documents with a very long text")
		}
		d := mkDoc(t, m, t.Idx%4)
		indent := indents[r.IntN(len(indents))]
		header := d.head && r.IntN(2) == 0
		want, err := d.str(indent, header)
		if err != nil {
			t.Failf("write", "%s: %v", d.name, err)
			return
		}
		ref, err := xmlIndependent(m, d.name, indent, header)
		if err == nil && ref != "" && ref != want {
			t.Failf("agree", "%s: the string is not what the encoder gives\n%q\n%q", d.name, want, ref)
			return
		}
		if header && !strings.HasPrefix(want, "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n") {
			t.Failf("header", "%s: no XML declaration: %q", d.name, clip(want, 200))
		}
		if !header && strings.HasPrefix(want, "<?xml") {
			t.Failf("header", "%s: an XML declaration that was not asked for: %q", d.name, clip(want, 200))
		}
		if t.Idx < 2 {
			t.Sample("%s, %d bytes: %s", d.name, len(want), want)
		}
		run := func(limit, kind int, once, strw bool, fault error) {
			fw := &faultWriter{limit: limit, kind: kind, once: once, err: fault}
			var w io.Writer = fw
			if strw {
				w = []io.Writer{strWriter{fw}, fromWriter{fw}, byteWriter{fw}}[r.IntN(3)]
			}
			n, err := d.write(w, indent, header)
			fw.closed = true
			got := fw.got.String()
			what := fmt.Sprintf("%s (indent %q, header %t, %d bytes), fault %v at byte %d, kind %d, once %t", d.name, indent, header, len(want), fault, limit, kind, once)
			t.Evals(1)
			if limit < 0 || limit >= len(want) {
				if err != nil || got != want {
					t.Failf("no-fault", "%s: %v, delivered %q, want %q", what, err, clip(got, 500), clip(want, 500))
				}
			} else {
				t.Obs(fmt.Sprintf("faults of kind %d", kind))
				t.Nontrivial(d.name, indent, want, fmt.Sprint(limit, kind, once, strw))
				if err == nil {
					t.Failf("lost-error", "%s: no error is reported, %d bytes delivered", what, len(got))
				} else if !errors.Is(err, fault) {
					t.Failf("other-error", "%s: the error is %v", what, err)
				}
				if !strings.HasPrefix(want, got) {
					t.Failf("not-prefix", "%s: delivered %q is not a prefix of %q", what, clip(got, 500), clip(want, 500))
				}
				if fw.after > 0 {
					t.Failf("after-fault", "%s: %d calls after the fault", what, fw.after)
				}
			}
			if n != fw.accepted {
				t.Failf("count", "%s: %d bytes reported, %d accepted by the writer", what, n, fw.accepted)
			}
			// others use the pool now; nothing may arrive here
			var sb strings.Builder
			if _, err := mpd.WriteXML(mpd.NewRole("x"), &sb, "", false); err != nil || sb.String() != `<DescriptorType schemeIdUri="urn:mpeg:dash:role:2011" value="x"></DescriptorType>` {
				t.Failf("next-write", "%s: the next write gives %q (%v)", what, sb.String(), err)
			}
			if fw.late > 0 {
				t.Failf("late", "%s: %d calls after the call returned", what, fw.late)
			}
		}
		run(-1, 0, false, false, nil)
		run(-1, 0, false, true, nil)
		var pos []int
		for i := 0; i <= len(want) && i <= 4200; i++ {
			if len(want) < 1200 || i%3 == t.Idx%3 || i > 4090 && i < 4140 || i < 60 {
				pos = append(pos, i)
			}
		}
		for b := 8192; b < len(want); b += 4096 {
			if len(want) > 60000 && r.IntN(len(want)/10000) > 0 {
				continue
			}
			for i := b - 2; i < b+45; i++ {
				pos = append(pos, i)
			}
		}
		for i := 0; i < 20; i++ {
			pos = append(pos, r.IntN(len(want)+1))
		}
		for _, p := range pos {
			run(p, r.IntN(faultKinds), r.IntN(2) == 0, r.IntN(2) == 0, faultErrors[r.IntN(len(faultErrors))])
		}
	})
	// Elements that cannot be written: what was delivered is counted, and an error is given.
	c.Cases("unsupported", c.N(600, 10000), func(t *T) {
		r := t.R
		type bad struct {
			XMLName xml.Name `xml:"bad"`
			A       string   `xml:"a,attr"`
			B       []string `xml:"b"`
			C       any      `xml:"c"`
			D       string   `xml:"d"`
		}
		v := &bad{A: strings.Repeat("x", r.IntN(9000)), D: "tail"}
		for i := r.IntN(800); i > 0; i-- {
			v.B = append(v.B, strings.Repeat("y", r.IntN(30)))
		}
		v.C = []any{make(chan int), func() {}, map[string]int{"a": 1}, complex(1, 2)}[r.IntN(4)]
		fw := &faultWriter{limit: -1}
		n, err := mpd.WriteXML(v, fw, "", r.IntN(2) == 0)
		if err == nil {
			t.Failf("lost-error", "%T was written without an error", v.C)
		}
		if n != fw.accepted {
			t.Failf("count", "%d bytes reported, %d accepted", n, fw.accepted)
		}
		if strings.Contains(fw.got.String(), "tail") {
			t.Failf("after-fault", "writing goes on after the part that cannot be written")
		}
		t.Obs("elements that cannot be written")
		t.Nontrivial(fmt.Sprint(len(v.A), len(v.B), t.Idx))
	})
	// The encoder itself: an error of the writer is never lost.
	c.Cases("encoder", c.N(3000, 60000), func(t *T) {
		r := t.R
		m := newFiller(r, 1).mpdTree()
		whole, err := xml.Marshal(m)
		if err != nil {
			t.Failf("write", "%v", err)
			return
		}
		mode := r.IntN(3)
		write := func(w io.Writer) (*xml.Encoder, error) {
			e := xml.NewEncoder(w)
			switch mode {
			case 0:
				return e, e.Encode(m)
			case 1:
				return e, e.EncodeElement(m, xml.StartElement{Name: xml.Name{Local: "MPD"}})
			}
			d := xml.NewDecoder(bytes.NewReader(whole))
			for {
				tok, err := d.RawToken()
				if err != nil {
					return e, e.Flush()
				}
				// names as they are, so that the text is the same
				switch x := tok.(type) {
				case xml.StartElement:
					x.Name = rawName(x.Name)
					for i := range x.Attr {
						x.Attr[i].Name = rawName(x.Attr[i].Name)
					}
					tok = x
				case xml.EndElement:
					x.Name = rawName(x.Name)
					tok = x
				}
				if err := e.EncodeToken(tok); err != nil {
					return e, err
				}
			}
		}
		free := &faultWriter{limit: -1}
		if _, err := write(free); err != nil || free.got.Len() == 0 {
			t.Failf("write", "mode %d without a fault: %v, %d bytes", mode, err, free.got.Len())
			return
		}
		want := free.got.String()
		fw := &faultWriter{limit: r.IntN(len(want)), kind: r.IntN(faultKinds), once: r.IntN(2) == 0, err: faultErrors[r.IntN(len(faultErrors))]}
		e, err := write(fw)
		t.Obs("encoder faults")
		t.Nontrivial(fmt.Sprint(mode, fw.limit, fw.kind), want)
		if err == nil {
			t.Failf("lost-error", "mode %d: the encoder reports no error after a fault at byte %d of %d", mode, fw.limit, len(want))
		} else if !errors.Is(err, fw.err) {
			t.Failf("other-error", "mode %d: the error after %v is %v", mode, fw.err, err)
		}
		if !strings.HasPrefix(want, fw.got.String()) {
			t.Failf("not-prefix", "mode %d: what was delivered before the fault is not a prefix of the document", mode)
		}
		if fw.after > 0 {
			t.Failf("after-fault", "the encoder goes on writing after a fault")
		}
		if err2 := e.Close(); err2 == nil {
			t.Failf("lost-error", "Close reports no error after a fault at byte %d", fw.limit)
		}
	})
	// Destinations of the types that programs use, which have content already.
	c.Cases("destinations", c.N(400, 8000), func(t *T) {
		r := t.R
		f := newFiller(r, r.IntN(3))
		f.dense, f.budget = []int{3, 8, 20}[r.IntN(3)], []int{2, 8, 30}[r.IntN(3)]
		d := mkDoc(t, f.mpdTree(), t.Idx%4)
		indent := indents[r.IntN(len(indents))]
		header := d.head && r.IntN(2) == 0
		want, err := d.str(indent, header)
		if err != nil {
			t.Failf("write", "%s: %v", d.name, err)
			return
		}
		pre, post := strings.Repeat("p", r.IntN(40)), "<!-- post -->"
		var sb strings.Builder
		var bb, under bytes.Buffer
		bw := bufio.NewWriterSize(&under, 16+r.IntN(10000))
		pr, pw := io.Pipe()
		piped := make(chan string, 1)
		go func() {
			b, _ := io.ReadAll(pr)
			piped <- string(b)
		}()
		tmp, err := os.CreateTemp("", "verif-c14")
		if err != nil {
			t.Failf("file", "%v", err)
			return
		}
		defer os.Remove(tmp.Name())
		defer tmp.Close()
		for _, x := range []struct {
			name string
			w    io.Writer
			got  func() string
		}{
			{"strings.Builder", &sb, sb.String},
			{"bytes.Buffer", &bb, bb.String},
			{"bufio.Writer", bw, func() string { bw.Flush(); return under.String() }},
			{"io.PipeWriter", pw, func() string { pw.Close(); return <-piped }},
			{"os.File", tmp, func() string { b, _ := os.ReadFile(tmp.Name()); return string(b) }},
		} {
			io.WriteString(x.w, pre)
			n, err := d.write(x.w, indent, header)
			n2, err2 := d.write(x.w, indent, header)
			io.WriteString(x.w, post)
			if got := x.got(); err != nil || err2 != nil || n != len(want) || n2 != len(want) || got != pre+want+want+post {
				t.Failf("destination", "%s to a %s twice, between %q and %q: %d bytes (%v), %d bytes (%v), %q, want %d of %q each", d.name, x.name, pre, post, n, err, n2, err2, clip(got, 2000), len(want), clip(want, 1000))
			}
			t.Evals(1)
			t.Obs("writes to a " + x.name)
		}
		t.Nontrivial("dest", want)
	})
	for k := 0; k < faultKinds; k++ {
		c.Require(fmt.Sprintf("faults of kind %d", k), 10000)
	}
	c.Require("elements that cannot be written", 500)
	c.Require("encoder faults", 2000)
}

func rawName(n xml.Name) xml.Name {
	if n.Space != "" {
		return xml.Name{Local: n.Space + ":" + n.Local}
	}
	return n
}

// xmlIndependent writes m with an encoder that does not come from the pool.
func xmlIndependent(m *mpd.MPD, name, indent string, header bool) (string, error) {
	if !strings.Contains(name, "MPD") {
		return "", nil
	}
	var b bytes.Buffer
	if header {
		b.WriteString(xml.Header)
	}
	e := xml.NewEncoder(&b)
	e.Indent("", indent)
	err := e.Encode(m)
	return b.String(), err
}
