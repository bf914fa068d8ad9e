package main

import (
	stdxml "encoding/xml"
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&Check{ID: "C18", Level: "exploration",
		Rule: "Struct types generated with all tag forms (attributes, elements, paths, text, CDATA, comments, inner XML, any, embedded, pointers, slices, interfaces, text/attribute/element unmarshallers, conflicts), in two editions, and documents that fit them more or less, also damaged ones, are unmarshalled once or repeatedly into fresh and used values by this package and by encoding/xml; values, success and the place where reading stopped are compared; and structs with several attribute fields of one local name, in and without namespaces, against a model. Non-trivial: at least one field was set.",
		Run:  runC18})
}

// badColon finds names with a colon at an end, or two, which encoding/xml lets through.
var badColon = regexp.MustCompile(`[</\s"'](:|[^\s<>="'/]*:[\s<>=/"']|[^\s<>="'/:]*:[^\s<>="'/:]*:)`)

// preset puts pointers into interface fields, in both values alike.
func preset(g *shaper, a, b reflect.Value, depth int) {
	if depth > 6 {
		return
	}
	switch a.Kind() {
	case reflect.Interface:
		if a.IsNil() && a.CanSet() && g.p(1, 2) {
			switch g.r.IntN(3) {
			case 0:
				a.Set(reflect.ValueOf(new(int)))
				b.Set(reflect.ValueOf(new(int)))
			case 1:
				a.Set(reflect.ValueOf(new(string)))
				b.Set(reflect.ValueOf(new(string)))
			case 2:
				a.Set(reflect.ValueOf(7))
				b.Set(reflect.ValueOf(7))
			}
		}
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !a.Field(i).CanSet() {
				continue
			}
			preset(g, a.Field(i), b.Field(i), depth+1)
		}
	}
}

func runC18(c *Ctx) {
	c.Cases("types", c.N(80000, 800000), func(t *T) {
		r := t.R
		g := &shaper{r: r, budget: 1 + r.IntN(12)}
		tw, ok := twin{}, true
		if t.Idx%100 == 50 {
			g.fields = sizeUpTo(r, 400)
			tw, ok = g.st(0, false).types()
			t.Obs("types with many fields")
		} else if r.IntN(12) == 0 {
			tw = g.named()
			t.Obs("named types")
		} else {
			tw, ok = g.st(0, false).types()
		}
		if !ok {
			t.Obs("shapes that reflect cannot make")
			return
		}
		a, b := reflect.New(tw.ours), reflect.New(tw.std)
		preset(g, a.Elem(), b.Elem(), 0)
		// What was in the value before, as others see it who share it.
		var olds []reflect.Value
		refill := func() {
			if g.fields > 0 || r.IntN(3) > 0 {
				return
			}
			g.fill(a.Elem(), 0)
			copyTwin(b.Elem(), a.Elem())
			old, sold := reflect.New(tw.ours), reflect.New(tw.std)
			old.Elem().Set(a.Elem())
			sold.Elem().Set(b.Elem())
			olds = append(olds, old, sold)
			t.Obs("values that were filled before")
		}
		refill()
		var subs []twin
		for n := 1 + r.IntN(3); n > 0; n-- {
			if len(subs) > 0 && r.IntN(2) == 0 {
				// a type that was a part of another one
				tw = subs[r.IntN(len(subs))]
				a, b = reflect.New(tw.ours), reflect.New(tw.std)
				refill()
				t.Obs("types used alone after being part of others")
			} else if n > 1 && tw.sub != nil {
				subs = tw.sub.subs()
			}
			if t.Idx%250 == 249 {
				g.large = sizeUpTo(r, 100001)
				t.Obs("long lists")
			}
			text := g.doc(tw)
			o := decOpts{strict: r.IntN(5) > 0, auto: r.IntN(8) == 0, entity: r.IntN(8) == 0}
			if namedXmlns(o, text) || hasDivergence(o, text) {
				continue
			}
			d, sd := o.ours(strings.NewReader(text)), o.std(strings.NewReader(text))
			var err, err2 error
			how := r.IntN(4)
			if o.strict && !o.auto && !o.entity && how == 0 {
				err, err2 = xml.Unmarshal([]byte(text), a.Interface()), stdxml.Unmarshal([]byte(text), b.Interface())
			} else if how == 1 {
				// from the start element on
				tok, e := d.Token()
				stok, e2 := sd.Token()
				st, ok := tok.(xml.StartElement)
				sst, ok2 := stok.(stdxml.StartElement)
				if e != nil || e2 != nil || !ok || !ok2 {
					continue
				}
				if r.IntN(2) == 0 {
					st, sst = st.Copy(), sst.Copy()
				}
				err, err2 = d.DecodeElement(a.Interface(), &st), sd.DecodeElement(b.Interface(), &sst)
			} else {
				err, err2 = d.Decode(a.Interface()), sd.Decode(b.Interface())
			}
			t.Evals(1)
			if _, ok := err.(*xml.SyntaxError); ok && badColon.MatchString(text) {
				t.Obs("names with misplaced colons refused")
				return
			}
			if (err == nil) != (err2 == nil) {
				t.Failf("error", "%v, want %v\ntype %s\n%s\n%s", err, err2, clip(fmt.Sprint(tw.ours), 3000), o, clip(text, 3000))
				return
			}
			if err != nil {
				if se, ok := err.(*xml.SyntaxError); ok {
					if se2, ok := err2.(*stdxml.SyntaxError); !ok || se.Line != se2.Line {
						t.Failf("error-kind", "%v, want %v\n%s", err, err2, clip(text, 3000))
					}
				}
				t.Obs("documents refused")
				// what was stored before the error
				if x, y := valueStr(a.Interface()), valueStr(b.Interface()); x != y {
					t.Failf("partial", "error %v\ntype %s\n%s\n%s\ngot  %s\nwant %s", err, clip(fmt.Sprint(tw.ours), 3000), o, clip(text, 3000), clip(x, 3000), clip(y, 3000))
				} else if x != valueStr(reflect.New(tw.ours).Interface()) {
					t.Obs("documents refused after something was stored")
				}
				if how != 0 || !o.strict || o.auto || o.entity {
					restAfter(t, o, d, sd, text, err)
				}
				return
			}
			x, y := valueStr(a.Interface()), valueStr(b.Interface())
			if x != y {
				t.Failf("differs", "type %s\n%s\n%s\ngot  %s\nwant %s", clip(fmt.Sprint(tw.ours), 3000), o, clip(text, 3000), clip(x, 3000), clip(y, 3000))
				return
			}
			for k := 0; k < len(olds); k += 2 {
				if x, y := valueStr(olds[k].Interface()), valueStr(olds[k+1].Interface()); x != y {
					t.Failf("shared", "what shares memory with a value that is read into is changed: type %s\n%s\n%s\ngot  %s\nwant %s", clip(fmt.Sprint(tw.ours), 3000), o, clip(text, 3000), clip(x, 3000), clip(y, 3000))
					return
				}
			}
			if d.InputOffset() != sd.InputOffset() {
				t.Failf("offset", "reading stopped at %d, want %d\n%s", d.InputOffset(), sd.InputOffset(), clip(text, 3000))
			}
			t.Obs("documents stored")
			if x != valueStr(reflect.New(tw.ours).Interface()) {
				t.Nontrivial(tw.ours.String(), text)
			}
			if t.Idx < 2 {
				t.Sample("%s <- %s = %s", tw.ours, text, x)
			}
		}
	})
	// An attribute goes to one field: to the one that names its namespace, else to one that names
	// none, else to the first that takes any. Several fields have one local name here, in types with
	// and without embedding and in all orders of fields and attributes.
	c.Cases("attributes", c.N(20000, 400000), func(t *T) {
		r := t.R
		type key struct{ space, local string }
		want := map[key]string{} // by the name in the tag
		spaces, locals := []string{"", "", "u", "v", "w"}, []string{"a", "b", "c"}
		var fields, inner []reflect.StructField
		var keys []key
		path := map[key][]int{}
		anyName := ""
		for i, n := 0, 1+r.IntN(7); i < n; i++ {
			k := key{spaces[r.IntN(len(spaces))], locals[r.IntN(len(locals))]}
			if _, ok := path[k]; ok {
				continue
			}
			f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeFor[string](), Tag: reflect.StructTag(fmt.Sprintf(`xml:"%s,attr"`, strings.TrimSpace(k.space+" "+k.local)))}
			if r.IntN(6) == 0 {
				f.Type = reflect.TypeFor[*string]()
			}
			keys = append(keys, k)
			if r.IntN(4) == 0 {
				path[k] = []int{-1, len(inner)}
				inner = append(inner, f)
			} else {
				path[k] = []int{len(fields)}
				fields = append(fields, f)
			}
		}
		if r.IntN(2) == 0 {
			anyName = "Rest"
			at := r.IntN(len(fields) + 1)
			for k, p := range path {
				if len(p) == 1 && p[0] >= at {
					path[k] = []int{p[0] + 1}
				}
			}
			fields = append(fields[:at:at], append([]reflect.StructField{{Name: anyName, Type: reflect.TypeFor[[]xml.Attr](), Tag: `xml:",any,attr"`}}, fields[at:]...)...)
		}
		if len(inner) > 0 {
			at := r.IntN(len(fields) + 1)
			for k, p := range path {
				if len(p) == 1 && p[0] >= at {
					path[k] = []int{p[0] + 1}
				} else if len(p) == 2 {
					path[k] = []int{at, p[1]}
				}
			}
			it := reflect.StructOf(inner)
			fields = append(fields[:at:at], append([]reflect.StructField{{Name: "Inner", Type: it, Anonymous: true}}, fields[at:]...)...)
		}
		typ := reflect.StructOf(fields)
		// the document
		var b strings.Builder
		b.WriteString(`<e xmlns:p="u" xmlns:q="v" xmlns:s="u" xmlns:o="x"`)
		prefix := map[string]string{"u": "p", "v": "q", "x": "o"}
		var rest []string
		have := map[key]bool{}
		for i, n := 0, r.IntN(9); i < n; i++ {
			k := key{[]string{"", "u", "v", "x"}[r.IntN(4)], append(locals, "d")[r.IntN(4)]}
			if have[k] {
				continue
			}
			have[k] = true
			val := fmt.Sprintf("val%d", i)
			p := prefix[k.space]
			if k.space == "u" && r.IntN(2) == 0 {
				p = "s"
			}
			if p != "" {
				p += ":"
			}
			fmt.Fprintf(&b, ` %s%s="%s"`, p, k.local, val)
			if _, ok := path[k]; ok {
				want[k] = val
			} else if _, ok := path[key{"", k.local}]; ok {
				want[key{"", k.local}] = val
			} else {
				rest = append(rest, fmt.Sprintf("{%s}%s=%s", k.space, k.local, val))
			}
		}
		b.WriteString("/>")
		// which of the namespaced attributes without a field of their own comes last is seen above:
		// the last in the document stays in the field that names no namespace
		v := reflect.New(typ)
		if err := xml.Unmarshal([]byte(b.String()), v.Interface()); err != nil {
			t.Failf("attributes", "%v\ntype %s\n%s", err, typ, b.String())
			return
		}
		for _, k := range keys {
			f := v.Elem()
			for _, i := range path[k] {
				f = f.Field(i)
			}
			got := ""
			if f.Kind() == reflect.Pointer {
				if !f.IsNil() {
					got = f.Elem().String()
				} else if _, ok := want[k]; ok {
					got = "nil"
				}
			} else {
				got = f.String()
			}
			if got != want[k] {
				t.Failf("attributes", "the field for %v is %q, want %q\ntype %s\n%s", k, got, want[k], typ, b.String())
				return
			}
			if want[k] != "" && len(keys) > 1 {
				t.Obs("attributes stored where several fields have the local name or not")
			}
		}
		if anyName != "" {
			var got []string
			for _, a := range v.Elem().FieldByName(anyName).Interface().([]xml.Attr) {
				if a.Name.Space != "http://www.w3.org/2000/xmlns/" && a.Name.Space != "xmlns" {
					got = append(got, fmt.Sprintf("{%s}%s=%s", a.Name.Space, a.Name.Local, a.Value))
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(rest) {
				t.Failf("attributes", "the rest is %q, want %q\ntype %s\n%s", got, rest, typ, b.String())
				return
			}
			t.Obs("attributes in the field for any")
		}
		t.Nontrivial(typ.String(), b.String())
	})
	c.Require("attributes stored where several fields have the local name or not", 10000)
	c.Require("attributes in the field for any", 3000)
	c.Require("named types", 1000)
	c.Require("documents stored", 10000)
	c.Require("types with many fields", 500)
	c.Require("documents refused", 3000)
}

// restAfter compares what the two decoders read after a value refused the part it was given.
func restAfter(t *T, o decOpts, d *xml.Decoder, sd *stdxml.Decoder, text string, after error) {
	if t.R.IntN(4) == 0 {
		if tok, err := d.RawToken(); !rawSame(tok, err, sd) && !badColon.MatchString(text) {
			t.Failf("after-error", "raw token after %v: %T%v %v\n%s\n%s", after, tok, tok, err, o, clip(text, 3000))
			return
		}
		t.Obs("raw tokens read after an error")
	}
	for i := 0; i < 60; i++ {
		tok, err := d.Token()
		stok, err2 := sd.Token()
		x, y := fmt.Sprintf("%T%v", tok, tok), fmt.Sprintf("%T%v", stok, stok)
		if _, ok := err.(*xml.SyntaxError); ok && badColon.MatchString(text) {
			return
		}
		if x = strings.ReplaceAll(strings.TrimPrefix(x, "xml."), "{http://www.w3.org/2000/xmlns/ ", "{xmlns "); (err == nil) != (err2 == nil) || x != strings.TrimPrefix(y, "xml.") {
			t.Failf("after-error", "token %d after %v: %s %v, want %s %v\n%s\n%s", i, after, x, err, y, err2, o, clip(text, 3000))
			return
		}
		if err != nil {
			break
		}
		t.Obs("tokens read after an error")
	}
}

func rawSame(tok xml.Token, err error, sd *stdxml.Decoder) bool {
	stok, err2 := sd.RawToken()
	x, y := fmt.Sprintf("%T%v", tok, tok), fmt.Sprintf("%T%v", stok, stok)
	return (err == nil) == (err2 == nil) && strings.TrimPrefix(x, "xml.") == strings.TrimPrefix(y, "xml.")
}
