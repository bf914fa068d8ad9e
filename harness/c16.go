package main

import (
	"bytes"
	"encoding"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&Check{ID: "C16", Level: "exploration",
		Rule: "Up to 24 goroutines at once, released by a barrier, read shared buffers and files, write, clone and query shared MPDs, use pooled and own encoders with yielding destinations and decoders with yielding sources, and marshal and unmarshal types never seen before (reflect.StructOf); under the race detector, and each result compared with the serial one. Non-trivial: a round with at least 4 goroutines.",
		Run:  runC16})
}

// yielder yields at random between calls, to stir the schedule.
type yielder struct {
	w  io.Writer
	rd *bytes.Reader
	r  *rand.Rand
}

func (y *yielder) Write(p []byte) (int, error) {
	half := 0
	if len(p) > 1 {
		half = y.r.IntN(len(p))
	}
	n, err := y.w.Write(p[:half])
	if err != nil {
		return n, err
	}
	for i := y.r.IntN(4); i > 0; i-- {
		runtime.Gosched()
	}
	m, err := y.w.Write(p[half:])
	return n + m, err
}

func (y *yielder) Read(p []byte) (int, error) {
	for i := y.r.IntN(3); i > 0; i-- {
		runtime.Gosched()
	}
	return y.rd.Read(p[:min(len(p), 1+y.r.IntN(300))])
}

// yieldText and yieldElem hand over to other goroutines in the middle of marshalling.
type yieldText string

func (y yieldText) MarshalText() ([]byte, error) { runtime.Gosched(); return []byte(y), nil }
func (y *yieldText) UnmarshalText(b []byte) error {
	runtime.Gosched()
	*y = yieldText(b)
	return nil
}

type yieldElem struct{ A, B string }

func (y *yieldElem) MarshalXML(e *xml.Encoder, start xml.StartElement) error {
	start.Attr = append(start.Attr, xml.Attr{Name: xml.Name{Space: "urn:yield/a", Local: "a"}, Value: y.A}, xml.Attr{Name: xml.Name{Space: "urn:yield2/a", Local: "b"}, Value: y.B})
	if err := e.EncodeToken(start); err != nil {
		return err
	}
	runtime.Gosched()
	_ = e.EncodeToken(xml.CharData(y.A))
	runtime.Gosched()
	return e.EncodeToken(start.End())
}

func (y *yieldElem) UnmarshalXML(d *xml.Decoder, start xml.StartElement) error {
	for _, a := range start.Attr {
		switch a.Name.Local {
		case "a":
			y.A = a.Value
		case "b":
			y.B = a.Value
		}
	}
	runtime.Gosched()
	return d.Skip()
}

var (
	_ encoding.TextMarshaler = yieldText("")
	_ xml.Marshaler          = (*yieldElem)(nil)
)

type yieldBox struct {
	XMLName xml.Name     `xml:"urn:box b:box"`
	T       yieldText    `xml:"t,attr"`
	U       []yieldText  `xml:"l>u"`
	E       []*yieldElem `xml:"urn:box b:e"`
	M       *mpd.DescriptorType
	C       string `xml:",comment"`
}

// queryAll calls every getter of every node and records the answers.
func queryAll(v reflect.Value, b *strings.Builder, depth int) {
	if depth > 12 {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		if v.Elem().Kind() != reflect.Struct {
			break
		}
		t := v.Type()
		var names []string
		for i := 0; i < t.NumMethod(); i++ {
			m := t.Method(i)
			if m.Type.NumIn() != 1 || m.Type.NumOut() == 0 {
				continue
			}
			n := m.Name
			if strings.HasPrefix(n, "Get") || strings.HasPrefix(n, "Is") || n == "Parent" || n == "SpliceInfo" || n == "String" || n == "Seconds" {
				names = append(names, n)
			}
		}
		for _, n := range names {
			func() {
				defer func() {
					if r := recover(); r != nil {
						fmt.Fprintf(b, "%s panics %v\n", n, r)
					}
				}()
				for _, o := range v.MethodByName(n).Call(nil) {
					if o.Kind() == reflect.Pointer && !o.IsNil() {
						fmt.Fprintf(b, "%s=%s %s\n", n, o.Type(), clip(dump(o.Interface()), 200))
						continue
					}
					fmt.Fprintf(b, "%s=%v\n", n, clip(fmt.Sprint(o.Interface()), 200))
				}
			}()
		}
		queryAll(v.Elem(), b, depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				queryAll(v.Field(i), b, depth+1)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Pointer || v.Type().Elem().Kind() == reflect.Struct {
			for i := 0; i < v.Len(); i++ {
				e := v.Index(i)
				if e.Kind() == reflect.Struct && e.CanAddr() {
					e = e.Addr()
				}
				queryAll(e, b, depth+1)
			}
		}
	}
}

func queries(m *mpd.MPD) string {
	var b strings.Builder
	queryAll(reflect.ValueOf(m), &b, 0)
	for _, p := range m.Periods {
		s, err := p.AbsoluteStart(m)
		fmt.Fprintln(&b, s, err)
	}
	for _, dt := range []mpd.DateTime{m.AvailabilityStartTime, m.PublishTime} {
		s, err := dt.ConvertToSeconds()
		fmt.Fprintln(&b, s, err)
	}
	return b.String()
}

// rounds runs one function per goroutine, all released at once, and gives the panics.
func together(fs []func()) []string {
	var wg sync.WaitGroup
	gate := make(chan struct{})
	out := make([]string, len(fs))
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					buf := make([]byte, 4000)
					out[i] = fmt.Sprintf("%v\n%s", r, buf[:runtime.Stack(buf, false)])
				}
			}()
			<-gate
			f()
		}()
	}
	close(gate)
	wg.Wait()
	var p []string
	for _, s := range out {
		if s != "" {
			p = append(p, s)
		}
	}
	sort.Strings(p)
	return p
}

func runC16(c *Ctx) {
	dir, err := os.MkdirTemp("", "verif-c16-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	coldOnly := os.Getenv("VERIF_COLD") != ""
	rounds := c.N(400, 6000)
	if coldOnly {
		rounds = 1
	}
	c.Serial("round", rounds, func(t *T) {
		r := t.R
		var text string
		if t.Idx == 0 || r.IntN(2) == 0 {
			g := newGen(r)
			text = newSurface(r).render(g.doc(2 + r.IntN(4)))
		} else {
			f := newFiller(r, 0)
			f.budget = 10 + r.IntN(30)
			m := f.mpdTree()
			text, _ = m.WriteToString("", true)
		}
		data := []byte(text)
		path := filepath.Join(dir, fmt.Sprintf("%d.mpd", t.Idx))
		if os.WriteFile(path, data, 0o600) != nil {
			panic("cannot write a scratch file")
		}
		defer os.Remove(path)
		readers := []func() (*mpd.MPD, error){
			func() (*mpd.MPD, error) { return mpd.MPDFromBytes(data) },
			func() (*mpd.MPD, error) { return mpd.ReadFromString(text) },
			func() (*mpd.MPD, error) { return mpd.ReadFromFile(path) },
		}
		type job struct {
			what string
			f    func(r *rand.Rand) string
		}
		res := func(m *mpd.MPD, err error) string {
			if err != nil {
				return "error " + err.Error()
			}
			return dump(m)
		}
		var shared *mpd.MPD
		box := &yieldBox{T: "t<", U: []yieldText{"1", "2", "3"}, E: []*yieldElem{{"p", "q"}, {"r", "s"}}, M: mpd.NewRole("x"), C: "c"}
		jobs := []job{
			{"MPDFromBytes", func(*rand.Rand) string { return res(readers[0]()) }},
			{"ReadFromString", func(*rand.Rand) string { return res(readers[1]()) }},
			{"ReadFromFile", func(*rand.Rand) string { return res(readers[2]()) }},
			{"Unmarshal from a yielding reader", func(r *rand.Rand) string {
				var m mpd.MPD
				err := xml.NewDecoder(&yielder{rd: bytes.NewReader(data), r: r}).Decode(&m)
				return res(&m, err)
			}},
			{"Write", func(r *rand.Rand) string {
				var b bytes.Buffer
				n, err := shared.Write(&yielder{w: &b, r: r}, " ", true)
				return fmt.Sprint(n, err, b.String())
			}},
			{"WriteToString", func(*rand.Rand) string { s, err := shared.WriteToString("\t", false); return fmt.Sprint(s, err) }},
			{"own encoder", func(r *rand.Rand) string {
				var b bytes.Buffer
				err := xml.NewEncoder(&yielder{w: &b, r: r}).Encode(shared)
				return fmt.Sprint(err, b.String())
			}},
			{"Clone", func(*rand.Rand) string { return dump(mpd.Clone(shared)) }},
			{"clone and change", func(*rand.Rand) string {
				m := mpd.Clone(shared)
				m.SetParents()
				scramble(reflect.ValueOf(m).Elem())
				return ""
			}},
			{"Clone of the parts", func(*rand.Rand) string {
				var b strings.Builder
				for _, p := range shared.Periods {
					b.WriteString(dump(p.Clone()))
					for _, a := range p.AdaptationSets {
						b.WriteString(dump(a.Clone()))
					}
				}
				return b.String()
			}},
			{"queries", func(*rand.Rand) string { return queries(shared) }},
			{"pooled encoder", func(r *rand.Rand) string {
				var b bytes.Buffer
				e := xml.AcquireEncoder(&yielder{w: &b, r: r})
				e.Indent("", "  ")
				err := e.Encode(box)
				err2 := e.EncodeToken(xml.StartElement{Name: xml.Name{Space: "urn:open", Local: "open"}})
				err3 := e.Flush()
				xml.ReleaseEncoder(e)
				return fmt.Sprint(err, err2, err3, b.String())
			}},
			{"WriteXML with an error", func(r *rand.Rand) string {
				var b bytes.Buffer
				n, err := mpd.WriteXML(&bombHolder{A: "a", B: "b", Pre: []string{"1"}, Bomb: marshalBomb{how: r.IntN(1)}}, &yielder{w: &b, r: r}, " ", false)
				return fmt.Sprint(n, err, b.String())
			}},
			{"yielding marshallers", func(r *rand.Rand) string {
				out, err := xml.MarshalIndent(box, ">", " ")
				if err != nil {
					return err.Error()
				}
				var x yieldBox
				err = xml.Unmarshal(out, &x)
				return fmt.Sprint(string(out), err, dump(&x))
			}},
			{"constructors and helpers", func(*rand.Rand) string {
				m := mpd.NewMPD("static")
				p := mpd.NewPeriod()
				p.Duration = mpd.Seconds2DurPtrFloat64(1.5)
				m.AppendPeriod(p)
				a := mpd.NewAdaptationSetWithParams("video", "video/mp4", true, 1)
				p.AppendAdaptationSet(a)
				rep := mpd.NewVideoRepresentation("v$1", "avc1", "video/mp4", "25", 1000, 10, 20)
				rep.SetSegmentBase(10, 20, true)
				a.AppendRepresentation(rep)
				st := mpd.NewSegmentTemplate()
				st.Initialization, st.Media = "$RepresentationID$/init", "$RepresentationID$/$Bandwidth%08d$/$Number$"
				a.SegmentTemplate = st
				m.Profiles = m.Profiles.AddProfile(mpd.PROFILE_LIVE).AddProfile("x")
				d, err := mpd.ParseDuration("P1DT2H3M4.567S")
				s, err2 := m.WriteToString(" ", true)
				return fmt.Sprint(s, err, err2, d, queries(m), mpd.ConvertToDateTime(12345.678), mpd.ConvertToDateTimeMS(-12345))
			}},
		}
		pick := 4 + r.IntN(21)
		seeds := make([]uint64, pick)
		var chosen []job
		want := map[string]string{}
		got := make([]string, pick)
		cold := t.Idx == 0
		for i := 0; i < pick; i++ {
			seeds[i] = r.Uint64()
			k := r.IntN(len(jobs))
			if cold {
				k = []int{0, 1, 2, 3, 13, 14}[i%6] // nothing was used yet in this process
			}
			chosen = append(chosen, jobs[k])
		}
		if !cold {
			// sharing one MPD that was read, or built by a clone
			m, err := readers[r.IntN(3)]()
			if err != nil {
				t.Failf("read", "%v in %s", err, text)
				return
			}
			shared = m
			if r.IntN(3) == 0 {
				shared = mpd.Clone(m)
			}
		}
		var fs []func()
		for i := range chosen {
			fs = append(fs, func() { got[i] = chosen[i].f(rand.New(rand.NewPCG(seeds[i], 1))) })
		}
		if p := together(fs); len(p) > 0 {
			t.Failf("panic", "%d goroutines panicked, first: %s", len(p), p[0])
			return
		}
		for i, j := range chosen {
			w, ok := want[j.what]
			if !ok {
				w = j.f(rand.New(rand.NewPCG(seeds[i], 2)))
				want[j.what] = w
			}
			t.Evals(1)
			t.Obs("concurrent: " + j.what)
			if got[i] != w {
				t.Failf("differs", "%s among %d goroutines:\nconcurrent %s\nserial     %s", j.what, pick, clip(got[i], 3000), clip(w, 3000))
			}
		}
		sort.Slice(chosen, func(i, k int) bool { return chosen[i].what < chosen[k].what })
		var sig strings.Builder
		for _, j := range chosen {
			sig.WriteString(j.what)
		}
		t.Nontrivial(sig.String(), text)
	})
	if coldOnly {
		return
	}
	// processes in which nothing has been used yet
	c.Cases("cold", c.N(24, 400), func(t *T) {
		cmd := exec.Command(os.Args[0], os.Args[1], "C16")
		cmd.Env = append(os.Environ(), "VERIF_COLD=1", fmt.Sprintf("VERIF_SEED=%d", c.Seed*1000+int64(t.Idx)+7))
		out, err := cmd.CombinedOutput()
		if err != nil {
			if !strings.Contains(string(out), "Eyevinn/dash-mpd/") && !strings.Contains(string(out), "VIOLATION") {
				panic(fmt.Sprintf("harness: %v\n%s", err, clip(string(out), 2000)))
			}
			t.Failf("cold", "first use by several goroutines in a new process: %v\n%s", err, clip(string(out), 12000))
		}
		t.Obs("processes whose first use is concurrent")
		t.Nontrivial("cold", fmt.Sprint(t.Idx))
	})
	// types nobody has seen yet
	c.Serial("new types", c.N(1500, 20000), func(t *T) {
		r := t.R
		typ := freshType(r, t.Idx, 0)
		doc := fmt.Sprintf(`<R%d xmlns:p="urn:p" a%d="1" p:n="2"><E0>x</E0><p:E1>y</p:E1><L><M>1</M><M>2</M></L>text<E2><E0>z</E0></E2></R%d>`, t.Idx, t.Idx, t.Idx)
		n := 2 + r.IntN(10)
		got := make([]string, n)
		one := func(i int) string {
			v := reflect.New(typ)
			if i%2 == 0 {
				err := xml.Unmarshal([]byte(doc), v.Interface())
				out, err2 := xml.Marshal(v.Interface())
				return fmt.Sprint(err, err2, string(out))
			}
			out, err := xml.Marshal(reflect.Zero(typ).Interface())
			err2 := xml.Unmarshal([]byte(doc), v.Interface())
			out2, err3 := xml.Marshal(v.Interface())
			_ = out
			if err != nil {
				return fmt.Sprint(err)
			}
			return fmt.Sprint(err2, err3, string(out2))
		}
		var fs []func()
		for i := 0; i < n; i++ {
			fs = append(fs, func() { got[i] = one(i) })
		}
		if p := together(fs); len(p) > 0 {
			t.Failf("panic", "%d goroutines panicked, first: %s", len(p), p[0])
			return
		}
		w := [2]string{one(0), one(1)}
		for i := range got {
			if got[i] != w[i%2] {
				t.Failf("new-type", "%s\nconcurrent %s\nserial     %s", typ, clip(got[i], 2000), clip(w[i%2], 2000))
			}
		}
		t.Obs("types first seen by several goroutines at once")
		t.Nontrivial(typ.String())
		if t.Idx < 1 {
			t.Sample("%d goroutines use the new type %s", n, typ)
		}
	})
	// values and documents of any depth, written with indentation of several kinds
	c.Serial("deep", c.N(150, 3000), func(t *T) {
		r := t.R
		n := 2 + r.IntN(6)
		type work struct {
			depth  int
			prefix string
			indent string
			how    int
		}
		ws := make([]work, n)
		depth, indent := 1+r.IntN(40), []string{"  ", " ", "\t", "    ", "", "\n", "----"}[r.IntN(7)]
		if r.IntN(3) == 0 {
			depth = 1 + r.IntN(700)
		}
		for i := range ws {
			ws[i] = work{max(1, depth-r.IntN(3)), []string{"", "", " ", "\t"}[r.IntN(4)], indent, r.IntN(4)}
			if r.IntN(3) == 0 {
				ws[i] = work{1 + r.IntN(100), "", []string{"  ", " ", "\t"}[r.IntN(3)], r.IntN(4)}
			}
		}
		do := func(w work) string {
			var out []byte
			var b bytes.Buffer
			var v deepNode
			for i := 0; i < w.depth; i++ {
				v = deepNode{D: i, N: &deepNode{D: v.D, N: v.N, S: v.S}, S: fmt.Sprint(i)}
			}
			var s string
			err := guarded(func() (err error) {
				switch w.how {
				case 0:
					out, err = xml.MarshalIndent(&v, w.prefix, w.indent)
				case 1:
					e := xml.NewEncoder(&b)
					e.Indent(w.prefix, w.indent)
					err = errors.Join(e.Encode(v), e.Encode(&v), e.Close())
				case 2:
					e := xml.NewEncoder(&b)
					e.Indent(w.prefix, w.indent)
					for i := 0; i < w.depth; i++ {
						err = errors.Join(err, e.EncodeToken(xml.StartElement{Name: xml.Name{Local: "n", Space: []string{"", "urn:a", "urn:b"}[i%3]}}))
					}
					for i := w.depth - 1; i >= 0; i-- {
						err = errors.Join(err, e.EncodeToken(xml.EndElement{Name: xml.Name{Local: "n", Space: []string{"", "urn:a", "urn:b"}[i%3]}}))
					}
					err = errors.Join(err, e.Flush())
				default:
					var got deepNode
					err = xml.Unmarshal([]byte(strings.Repeat("<N D=\"1\">", w.depth)+strings.Repeat("<S>x</S></N>", w.depth)), &got)
					for p := &got; p != nil; p = p.N {
						s += fmt.Sprint(p.D, p.S, " ")
					}
				}
				return err
			})
			return fmt.Sprint(err, string(out), b.String(), s)
		}
		got := make([]string, n)
		var fs []func()
		for i := range ws {
			fs = append(fs, func() { got[i] = do(ws[i]) })
		}
		if p := together(fs); len(p) > 0 {
			t.Failf("panic", "%d goroutines panicked, first: %s", len(p), p[0])
			return
		}
		for i, w := range ws {
			want := do(w)
			t.Evals(1)
			t.Obs("deep values handled at once")
			if got[i] != want {
				t.Failf("deep", "%+v among %d goroutines:\nconcurrent %s\nserial     %s", w, n, clip(got[i], 2500), clip(want, 2500))
			}
			t.Nontrivial(want)
		}
	})
	c.Require("deep values handled at once", 300)
	// values of all kinds of types, shared and not
	c.Serial("shapes", c.N(2500, 40000), func(t *T) {
		r := t.R
		n := 2 + r.IntN(6)
		type work struct {
			typ  string
			x    any
			doc  string
			ours reflect.Type
			how  int
			seed uint64
		}
		var ws []work
		for i := 0; i < n; i++ {
			if i > 0 && r.IntN(4) == 0 {
				w := ws[r.IntN(i)] // the same value, or document, at once
				w.how = r.IntN(5)
				ws = append(ws, w)
				continue
			}
			g := &shaper{r: r, marshal: true, budget: 1 + r.IntN(8)}
			tw, ok := g.st(0, false).types()
			if !ok {
				tw = g.simple()
			}
			v := reflect.New(tw.ours)
			g.fill(v.Elem(), 0)
			w := work{typ: clip(fmt.Sprint(tw.ours), 2000), x: v.Interface(), how: r.IntN(5), seed: r.Uint64(), ours: tw.ours}
			if r.IntN(2) == 0 {
				w.x = v.Elem().Interface()
			}
			if tw.sub != nil {
				g := &shaper{r: r, budget: 8}
				w.doc = g.doc(tw)
			}
			ws = append(ws, w)
		}
		do := func(w work) string {
			var out []byte
			var b bytes.Buffer
			start := xml.StartElement{Name: xml.Name{Local: "start"}}
			rr := rand.New(rand.NewPCG(w.seed, 3))
			var s string
			err := guarded(func() (err error) {
				switch w.how {
				case 0:
					out, err = xml.Marshal(w.x)
				case 1:
					e := xml.NewEncoder(&yielder{w: &b, r: rr})
					e.Indent("", " ")
					err = errors.Join(e.EncodeElement(w.x, start), e.Close())
				case 2:
					e := xml.AcquireEncoder(&yielder{w: &b, r: rr})
					err = errors.Join(e.EncodeElement(w.x, start), e.Flush())
					xml.ReleaseEncoder(e)
				case 3:
					e := xml.NewEncoder(&b)
					err = errors.Join(e.EncodeElement(w.x, start), e.EncodeElement(w.x, start), e.Close())
				default:
					v := reflect.New(w.ours)
					err = xml.NewDecoder(&yielder{rd: bytes.NewReader([]byte(w.doc)), r: rr}).Decode(v.Interface())
					s = valueStr(v.Interface())
				}
				return err
			})
			return fmt.Sprint(err, string(out), b.String(), s)
		}
		got := make([]string, n)
		var fs []func()
		for i := range ws {
			fs = append(fs, func() { got[i] = do(ws[i]) })
		}
		if p := together(fs); len(p) > 0 {
			t.Failf("panic", "%d goroutines panicked, first: %s", len(p), p[0])
			return
		}
		for i, w := range ws {
			want := do(w)
			t.Evals(1)
			if w.how == 4 {
				t.Obs("values of generated types read at once")
			} else {
				t.Obs("values of generated types written at once")
			}
			if got[i] != want {
				t.Failf("shape", "%s (way %d) %s among %d goroutines:\nconcurrent %s\nserial     %s", w.typ, w.how, w.doc, n, clip(got[i], 2500), clip(want, 2500))
			}
			t.Nontrivial(want)
		}
	})
	c.Require("values of generated types written at once", 3000)
	c.Require("values of generated types read at once", 500)
	c.Require("types first seen by several goroutines at once", 1000)
	c.Require("concurrent: Write", 100)
	c.Require("concurrent: queries", 100)
	c.Require("concurrent: Clone", 100)
}

// freshType makes a struct type that no cache can know.
func freshType(r *rand.Rand, idx, depth int) reflect.Type {
	str := reflect.TypeFor[string]()
	fs := []reflect.StructField{
		{Name: "XMLName", Type: reflect.TypeFor[xml.Name](), Tag: reflect.StructTag(fmt.Sprintf(`xml:"R%d"`, idx))},
		{Name: "A", Type: reflect.TypeFor[int](), Tag: reflect.StructTag(fmt.Sprintf(`xml:"a%d,attr"`, idx))},
		{Name: "N", Type: reflect.TypeFor[yieldText](), Tag: `xml:"urn:p p:n,attr"`},
		{Name: "E0", Type: str},
		{Name: "E1", Type: reflect.SliceOf(reflect.PointerTo(str)), Tag: `xml:"urn:p p:E1"`},
		{Name: "M", Type: reflect.SliceOf(reflect.TypeFor[int]()), Tag: `xml:"L>M"`},
		{Name: "T", Type: reflect.TypeFor[yieldText](), Tag: `xml:",chardata"`},
		{Name: "Y", Type: reflect.TypeFor[*yieldElem](), Tag: `xml:"y,omitempty"`},
	}
	// drop some fields, so that types differ in shape as well
	var keep []reflect.StructField
	for i, f := range fs {
		if i == 0 && depth == 0 || r.IntN(4) > 0 {
			keep = append(keep, f)
		}
	}
	if depth == 0 {
		keep = append(keep, reflect.StructField{Name: "E2", Type: reflect.PointerTo(freshType(r, idx+1_000_000, 1))})
	} else if len(keep) > 0 && keep[0].Name == "XMLName" {
		keep = keep[1:]
	}
	keep = append(keep, reflect.StructField{Name: fmt.Sprintf("Z%d", idx), Type: str, Tag: reflect.StructTag(fmt.Sprintf(`xml:"z%d,omitempty"`, idx))})
	return reflect.StructOf(keep)
}

// deepNode nests to any depth.
type deepNode struct {
	XMLName xml.Name  `xml:"N"`
	D       int       `xml:"D,attr"`
	N       *deepNode `xml:"N"`
	S       string    `xml:"S"`
}
