package main

import (
	"bytes"
	stdxml "encoding/xml"
	"fmt"
	"io"
	"reflect"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/Eyevinn/dash-mpd/xml"
	"verifharness/infoset"
)

func init() {
	register(&Check{ID: "C19", Level: "exploration",
		Rule: "Values of struct types generated with all tag forms (attributes, elements, paths, text, CDATA, comments, inner XML, any, embedded, pointers, slices, arrays, interfaces, text/attribute/element marshallers, conflicts) are filled at random and written, with and without indentation, from values and pointers, several to one encoder, by this package and by encoding/xml; success and the token streams of the outputs with their namespaces are compared, and the bytes where no prefix is used. Non-trivial: at least one attribute or child was written.",
		Run:  runC19})
}

// fill sets a value at random.
func (g *shaper) fill(v reflect.Value, depth int) {
	if g.p(1, 7) || depth > 9 {
		return
	}
	if !v.CanInterface() {
		if v.Kind() == reflect.Struct && v.Type().PkgPath() != "time" {
			for i := 0; i < v.NumField(); i++ {
				if v.Field(i).CanSet() {
					g.fill(v.Field(i), depth+1)
				}
			}
		}
		return
	}
	switch v.Interface().(type) {
	case time.Time:
		v.Set(reflect.ValueOf(time.Unix(int64(g.r.IntN(1<<31)), int64(g.r.IntN(3))*1e6).UTC()))
		return
	case xml.Name:
		v.Set(reflect.ValueOf(xml.Name{Space: g.space(false), Local: g.one("a", "b", "named", "")}))
		return
	case xml.Attr:
		v.Set(reflect.ValueOf(xml.Attr{Name: xml.Name{Space: g.space(true), Local: fmt.Sprintf("at%d", g.r.IntN(1000))}, Value: g.text()}))
		if g.p(1, 8) {
			v.Field(0).Field(1).SetString("")
		}
		return
	case oElem:
		v.Set(reflect.ValueOf(oElem{Log: []string{g.text()}, Inner: g.one("", "in", "in", "<&>", "none", "fail", "open")}))
		if g.p(2, 3) {
			v.Field(2).SetString("ok")
		}
		return
	case tStr, tPStr:
		v.SetString(g.text())
		if g.p(1, 12) {
			v.SetString("fail")
		}
		return
	case oAttr, tText, tPText:
		v.Field(0).SetString(g.text())
		if g.p(1, 12) {
			v.Field(0).SetString("fail")
		}
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		v.Set(reflect.New(v.Type().Elem()))
		g.fill(v.Elem(), depth+1)
	case reflect.Interface:
		for n := g.r.IntN(20); ; n++ {
			tw := g.simple()
			if n%20 == 0 {
				if tw = g.bad(); g.r.IntN(3) > 0 {
					continue
				}
			}
			if n%20 == 9 {
				tw = twinOf[oList, sList]("")
			}
			if n%20 == 7 && !g.shared {
				tw = twinOf[oElem, sElem]("")
			}
			if g.p(1, 3) {
				tw = tw.ptr()
			}
			e := reflect.New(tw.ours).Elem()
			g.fill(e, depth+1)
			v.Set(e)
			break
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !f.CanSet() && !v.Type().Field(i).Anonymous {
				continue
			}
			switch tag := string(v.Type().Field(i).Tag); {
			case strings.Contains(tag, ",innerxml"):
				s := g.one("", "<raw xmlns=\"\"/>", "text", "<q xmlns='' w='1'>e</q>&amp;", "<!--c-->")
				g.setText(f, s, depth)
			case strings.Contains(tag, ",comment"):
				s := g.one("", "comment", " ends with -", "ends with-", "-", "-a", "é-", "- <&>", "a--b", "--", "a- -", "ok ", "x")
				g.setText(f, s, depth)
			default:
				g.fill(f, depth+1)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			v.SetBytes([]byte(g.text()))
			return
		}
		n := g.r.IntN(4)
		if g.p(1, 40) {
			n = g.r.IntN(70)
		}
		if g.large > 0 {
			n, g.large = g.large, 0
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			g.fill(v.Index(i), depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), depth+1)
		}
	case reflect.String:
		v.SetString(g.text())
	case reflect.Bool:
		v.SetBool(g.p(1, 2))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(g.r.Uint64()) >> g.r.IntN(64))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(g.r.Uint64() >> g.r.IntN(64))
	case reflect.Map:
		if g.p(1, 6) {
			v.Set(reflect.MakeMap(v.Type()))
		}
	case reflect.Float32, reflect.Float64:
		v.SetFloat([]float64{1.5, -0.25, 1e21, 1e-7, 123456789, 3}[g.r.IntN(6)] * float64(g.r.IntN(1000)))
	}
}

func (g *shaper) setText(f reflect.Value, s string, depth int) {
	if f.Kind() == reflect.String {
		f.SetString(s)
	} else if f.Type() == reflect.TypeFor[[]byte]() {
		f.SetBytes([]byte(s))
	} else {
		g.fill(f, depth+1)
	}
}

func (g *shaper) text() string {
	if g.p(1, 60) {
		return longStr(g.r, bigLengths[g.r.IntN(20)], true)
	}
	return g.one("", "x", "text", " a b ", "<&>\"'", "é\u4e2d", "]]>", "a\nb\tc\r", "]]]]>>", "\x01\xff\uFFFE", "<!--", "{{&amp;}}")
}

// bad gives types that cannot be marshalled.
func (g *shaper) bad() twin {
	switch g.r.IntN(4) {
	case 0:
		return twinOf[chan int, chan int]("")
	case 1:
		return twinOf[map[string]int, map[string]int]("")
	case 2:
		return twinOf[func(), func()]("")
	}
	return twinOf[complex128, complex128]("")
}

// stream lists the tokens of a document with expanded names, without declarations.
func stream(s string) (toks []string, err error) {
	d := stdxml.NewDecoder(strings.NewReader(s))
	for {
		tok, err := d.Token()
		if err == io.EOF {
			return toks, nil
		}
		if err != nil {
			return nil, err
		}
		switch k := tok.(type) {
		case stdxml.StartElement:
			var l []string
			for _, a := range k.Attr {
				if a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" {
					continue
				}
				l = append(l, fmt.Sprintf("%s=%q", stdName(a.Name, false), a.Value))
			}
			sort.Strings(l)
			toks = append(toks, "<"+stdName(k.Name, false)+" "+strings.Join(l, " "))
		default:
			toks = append(toks, stdTokStr(tok, false))
		}
	}
}

func runC19(c *Ctx) {
	c.Cases("values", c.N(80000, 600000), func(t *T) {
		r := t.R
		g := &shaper{r: r, marshal: true, budget: 1 + r.IntN(12), shared: r.IntN(3) == 0}
		var tw twin
		ok := true
		if t.Idx%100 == 50 {
			g.fields = sizeUpTo(r, 400)
			tw, ok = g.st(0, false).types()
			t.Obs("types with many fields")
		} else if k := r.IntN(20); k < 2 {
			tw = g.elemType(0)
		} else if k == 2 {
			tw = g.named()
		} else {
			tw, ok = g.st(0, false).types()
		}
		if !ok {
			t.Obs("shapes that reflect cannot make")
			return
		}
		if t.Idx%250 == 249 {
			g.large = sizeUpTo(r, 20000)
			if tw.sub == nil {
				tw = g.simple().slice()
			}
			t.Obs("long lists")
		}
		var out, sout bytes.Buffer
		e, se := xml.NewEncoder(&out), stdxml.NewEncoder(&sout)
		prefix, indent := "", ""
		if r.IntN(3) == 0 {
			prefix, indent = g.one("", "", " ", "\t"), g.one("", " ", "  ", "\t")
			e.Indent(prefix, indent)
			se.Indent(prefix, indent)
		}
		what := ""
		var subs []twin
		for n := 1 + r.IntN(3)*r.IntN(2); n > 0; n-- {
			if tw.sub != nil && n > 1 {
				subs = tw.sub.subs()
			} else if len(subs) > 0 && r.IntN(2) == 0 {
				tw = subs[r.IntN(len(subs))]
				t.Obs("types used alone after being part of others")
			}
			a := reflect.New(tw.ours)
			g.fill(a.Elem(), 0)
			b := reflect.New(stdOf(tw))
			copyTwin(b.Elem(), a.Elem())
			x, y := a.Interface(), b.Interface()
			if r.IntN(3) == 0 {
				x, y = a.Elem().Interface(), b.Elem().Interface()
			}
			before := valueStr(x)
			what = fmt.Sprintf("type %s\nvalue %s\nindent %q %q", clip(fmt.Sprint(tw.ours), 3000), clip(valueStr(x), 3000), prefix, indent)
			t.Evals(1)
			var err, err2 error
			how := r.IntN(6)
			if tw.sub != nil && tw.sub.xname == nil && r.IntN(10) > 0 {
				how = 0 // the type has no name
			}
			switch how {
			case 0:
				name := g.one("start", "a")
				sp := g.space(false)
				at := g.text()
				// The attributes given may be the head of a longer slice.
				all := make([]xml.Attr, 12)
				for i := range all {
					all[i] = xml.Attr{Name: xml.Name{Local: fmt.Sprintf("kept%d", i)}, Value: "kept"}
				}
				all[0] = xml.Attr{Name: xml.Name{Local: "given"}, Value: at}
				keep := slices.Clone(all)
				st := xml.StartElement{Name: xml.Name{Space: sp, Local: name}, Attr: all[:1]}
				defer func() {
					if !slices.Equal(all, keep) {
						t.Failf("start-changed", "the attributes given became %v\n%s", all, what)
					}
				}()
				sst := stdxml.StartElement{Name: stdxml.Name{Space: sp, Local: name}, Attr: []stdxml.Attr{{Name: stdxml.Name{Local: "given"}, Value: at}}}
				err = guarded(func() error { return e.EncodeElement(x, st) })
				err2 = guarded(func() error { return se.EncodeElement(y, sst) })
			case 1:
				if n == 1 && out.Len() == 0 {
					var p, q []byte
					if indent == "" && prefix == "" {
						err = guarded(func() (err error) { p, err = xml.Marshal(x); return })
						err2 = guarded(func() (err error) { q, err = stdxml.Marshal(y); return })
					} else {
						err = guarded(func() (err error) { p, err = xml.MarshalIndent(x, prefix, indent); return })
						err2 = guarded(func() (err error) { q, err = stdxml.MarshalIndent(y, prefix, indent); return })
					}
					out.Write(p)
					sout.Write(q)
					break
				}
				fallthrough
			default:
				err = guarded(func() error { return e.Encode(x) })
				err2 = guarded(func() error { return se.Encode(y) })
			}
			if after := valueStr(x); after != before {
				t.Failf("value-changed", "the value became %s\n%s", clip(after, 3000), what)
				return
			}
			if err2 != nil && strings.HasPrefix(err2.Error(), "panic") && (err == nil || !strings.HasPrefix(err.Error(), "panic")) {
				t.Obs("values encoding/xml panics for")
				return
			}
			if (err == nil) != (err2 == nil) {
				t.Failf("error", "%v, want %v\n%s", err, err2, what)
				return
			}
			if err != nil {
				t.Obs("values refused")
				return
			}
		}
		err, err2 := e.Close(), se.Close()
		if (err == nil) != (err2 == nil) {
			t.Failf("close", "%v, want %v\n%s", err, err2, what)
			return
		}
		x, y := out.String(), strings.NewReplacer("sElem", "oElem", "sList", "oList", "sVElem", "oVElem").Replace(sout.String())
		if x == y {
			t.Obs("values written with the same bytes")
		} else {
			// the package leaves line ends and tabs in text as they are
			nl := strings.NewReplacer("&#xA;", "\n", "&#x9;", "\t")
			if !strings.Contains(x, ":") && nl.Replace(x) != nl.Replace(y) {
				t.Failf("bytes", "%s\ngot  %s\nwant %s", what, clip(x, 3000), clip(y, 3000))
				return
			}
			var n, n2 *infoset.Node
			want, err2 := stream(y)
			if err2 == nil {
				n2, err2 = infoset.Parse("<r>" + y + "</r>")
			}
			if err2 != nil {
				t.Obs("values encoding/xml writes as no XML")
				return
			}
			got, err := stream(x)
			if err == nil {
				n, err = infoset.Parse("<r>" + x + "</r>")
			}
			if err != nil {
				t.Failf("output", "%v\n%s\ngot  %s\nwant %s", err, what, clip(x, 3000), clip(y, 3000))
				return
			}
			for i := 0; i < len(got) || i < len(want); i++ {
				if i >= len(got) || i >= len(want) || got[i] != want[i] {
					t.Failf("differs", "token %d: %s, want %s\n%s\ngot  %s\nwant %s", i, got[min(i, len(got)-1)], want[min(i, len(want)-1)], what, clip(x, 3000), clip(y, 3000))
					return
				}
			}
			if n.Canon(false) != n2.Canon(false) {
				t.Failf("differs", "%s\ngot  %s\nwant %s", what, clip(x, 3000), clip(y, 3000))
				return
			}
			t.Obs("values written with the same tokens and namespaces")
		}
		if strings.Contains(x, "=") || strings.Count(x, "<") > 2 {
			t.Nontrivial(x)
		}
		if t.Idx < 2 {
			t.Sample("%s -> %s", what, x)
		}
	})
	c.Require("values written with the same bytes", 5000)
	c.Require("values written with the same tokens and namespaces", 500)
	c.Require("types with many fields", 500)
	c.Require("values refused", 1000)
}

// guarded makes errors of panics, which methods called on nil pointers cause in both packages.
func guarded(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return f()
}

func stdOf(tw twin) reflect.Type { return tw.std }
