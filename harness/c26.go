package main

import (
	_ "embed"
	"fmt"
	"math/big"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"sync"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"

	"verifharness/infoset"
)

func init() {
	register(&Check{ID: "C26", Level: "exploration",
		Rule: "Model documents over the whole vocabulary are read, and every value of the resulting structure is compared with the model through an independent table of which field is named for which attribute, element or text (716 lines): value, nil or not, order and number of children, names, unknown attributes; all other fields have to be zero. The other way, structures are filled from the model through the same table, written, and the text is compared with the model by an independent parser. Systematic part: every attribute, child and text of every type, with several values. Non-trivial: at least 3 fields with a value.",
		Run:  runC26})
}

// The table of fields: for each type, and each attribute (@prefix:name), child (/prefix:name) and
// text (#) in it, the field of the Go structure that has its name. Like the vocabulary, it is not
// derived from the code under test when a check runs.
//
//go:embed fields.txt
var fieldsText string

var typStrings = reflect.TypeOf([]string(nil))

var fieldOf = map[string]map[string]string{}

func init() {
	cur := ""
	for _, line := range strings.Split(fieldsText, "\n") {
		f := strings.Fields(line)
		switch {
		case len(f) == 0:
		case f[0] == "type":
			cur = f[1]
			if fieldOf[cur] == nil {
				fieldOf[cur] = map[string]string{}
			}
		default:
			fieldOf[cur][f[0]] = f[1]
		}
	}
}

func (t *vType) attrField(a *vAttr) string { return fieldOf[t.name]["@"+a.prefix+":"+a.name] }
func (t *vType) kidField(k *vChild) string { return fieldOf[t.name]["/"+k.prefix+":"+k.name] }
func (t *vType) textField() string         { return fieldOf[t.name]["#"] }

// deref follows pointers; ok is false at a nil pointer.
func deref(v reflect.Value) (reflect.Value, bool) {
	for v.Kind() == reflect.Pointer {
		if v.IsNil() {
			return v, false
		}
		v = v.Elem()
	}
	return v, true
}

// binder compares structures with models, or fills them.
type binder struct {
	fields int // with a value
	zero   int // compared with zero
	cover  map[string]bool
}

func (b *binder) field(v reflect.Value, name string) (reflect.Value, error) {
	if name == "" {
		return v, fmt.Errorf("harness: no field in the table")
	}
	f, err := safeField(v, name)
	if err != nil {
		return v, err
	}
	if !f.IsValid() {
		return v, fmt.Errorf("%s has no field %s", v.Type(), name)
	}
	return f, nil
}

// safeField is FieldByName of each part of name; below an embedded nil pointer, all is zero.
func safeField(v reflect.Value, name string) (f reflect.Value, err error) {
	for _, n := range strings.Split(name, ".") {
		sf, ok := v.Type().FieldByName(n)
		if !ok {
			return reflect.Value{}, nil
		}
		if v, err = v.FieldByIndexErr(sf.Index); err != nil {
			return reflect.Zero(sf.Type), nil // nothing below a nil pointer
		}
	}
	return v, nil
}

// sameField compares a field with the value of an attribute; nil if ok is false.
func (b *binder) sameField(kind, want string, present bool, f reflect.Value) string {
	if !present {
		b.zero++
		if !f.IsZero() {
			return fmt.Sprintf("is absent, but the field has %v", show(f))
		}
		return ""
	}
	b.fields++
	v, ok := deref(f)
	if !ok {
		return fmt.Sprintf("%q is present, but the field is nil", want)
	}
	w := strings.TrimSpace(want)
	bad := fmt.Sprintf("want %s %q, the field has %v", kind, clip(want, 300), clip(show(f), 300))
	switch kind {
	case "string":
		if v.Kind() != reflect.String || v.String() != want {
			return bad
		}
	case "list":
		got, ok := v.Interface(), v.Type().ConvertibleTo(typStrings)
		if ok {
			got = v.Convert(typStrings).Interface()
		}
		if list, _ := got.([]string); !ok || fmt.Sprintf("%q", list) != fmt.Sprintf("%q", listItems(want)) {
			return bad
		}
	case "bool":
		if v.Kind() != reflect.Bool || v.Bool() != (w == "true" || w == "1") {
			return bad
		}
	case "float32", "float64", "floatinf":
		bits := 64
		if kind == "float32" {
			bits = 32
		}
		x, _ := strconv.ParseFloat(w, bits)
		if !v.CanFloat() || v.Float() != x {
			return bad
		}
	case "duration":
		d, ok := refParseDuration(w)
		if !ok || !v.CanInt() || roundNS(d).Cmp(new(big.Rat).SetInt64(v.Int())) != 0 {
			return bad
		}
	default:
		n, ok := new(big.Int).SetString(w, 10)
		var g *big.Int
		switch {
		case v.CanInt():
			g = big.NewInt(v.Int())
		case v.CanUint():
			g = new(big.Int).SetUint64(v.Uint())
		default:
			return bad
		}
		if !ok || n.Cmp(g) != 0 {
			return bad
		}
	}
	return ""
}

func show(v reflect.Value) string {
	if v.Kind() == reflect.Pointer && !v.IsNil() {
		return "&" + show(v.Elem())
	}
	if v.Kind() == reflect.String {
		return strconv.Quote(v.String())
	}
	return fmt.Sprint(v.Interface())
}

// setField gives a field the value of an attribute.
func setField(kind, want string, f reflect.Value) error {
	for f.Kind() == reflect.Pointer {
		f.Set(reflect.New(f.Type().Elem()))
		f = f.Elem()
	}
	w := strings.TrimSpace(want)
	bad := fmt.Errorf("a field of type %s for %s %q", f.Type(), kind, want)
	switch kind {
	case "list":
		if !typStrings.ConvertibleTo(f.Type()) {
			return bad
		}
		f.Set(reflect.ValueOf(listItems(want)).Convert(f.Type()))
	case "string":
		if f.Kind() != reflect.String {
			return bad
		}
		f.SetString(want)
	case "bool":
		if f.Kind() != reflect.Bool {
			return bad
		}
		f.SetBool(w == "true" || w == "1")
	case "float32", "float64", "floatinf":
		if !f.CanFloat() {
			return bad
		}
		x, _ := strconv.ParseFloat(w, f.Type().Bits())
		f.SetFloat(x)
	case "duration":
		d, ok := refParseDuration(w)
		if !ok || !f.CanInt() {
			return bad
		}
		f.SetInt(roundNS(d).Num().Int64())
	default:
		n, ok := new(big.Int).SetString(w, 10)
		switch {
		case ok && f.CanInt() && n.IsInt64() && !f.OverflowInt(n.Int64()):
			f.SetInt(n.Int64())
		case ok && f.CanUint() && n.IsUint64() && !f.OverflowUint(n.Uint64()):
			f.SetUint(n.Uint64())
		default:
			return bad
		}
	}
	return nil
}

// kidsOf are the children of m that are k.
func kidsOf(m *mNode, k *vChild) []*mNode {
	var out []*mNode
	for _, kid := range m.kids {
		if kid.n != nil && !kid.n.unknown && kid.n.name == k.name && sameChildNS(m, kid.n, k) {
			out = append(out, kid.n)
		}
	}
	return out
}

// same compares the structure v with the model m.
func (b *binder) same(path string, m *mNode, v reflect.Value) error {
	v, ok := deref(v)
	if !ok {
		return fmt.Errorf("%s: nil", path)
	}
	t := m.typ
	for i := range t.attrs {
		a := &t.attrs[i]
		f, err := b.field(v, t.attrField(a))
		if err != nil {
			return fmt.Errorf("%s@%s: %w", path, a.name, err)
		}
		want, present := "", false
		for _, x := range m.attrs {
			if x.def == a {
				want, present = x.value, true
			}
		}
		if e := b.sameField(a.kind, want, present, f); e != "" {
			return fmt.Errorf("%s@%s, field %s: %s", path, a.name, t.attrField(a), e)
		}
		if present {
			b.cover[t.name+"@"+a.prefix+":"+a.name] = true
		}
	}
	if t.anyAttr {
		f, err := b.field(v, "AnyAttrs")
		if err != nil {
			return fmt.Errorf("%s: %w", path, err)
		}
		list, ok := f.Interface().([]xml.Attr)
		if !ok {
			return fmt.Errorf("%s: AnyAttrs is a %s", path, f.Type())
		}
		got := map[xml.Name]string{}
		for _, a := range list {
			if a.Name.Space == "xmlns" || a.Name.Space == nsXMLNS || a.Name.Local == "xmlns" && a.Name.Space == "" {
				continue
			}
			if _, twice := got[a.Name]; twice {
				return fmt.Errorf("%s: AnyAttrs has %v twice", path, a.Name)
			}
			got[a.Name] = a.Value
		}
		n := 0
		for _, a := range m.attrs {
			if a.def == nil {
				n++
				if g, ok := got[xml.Name{Space: a.ns, Local: a.name}]; !ok || g != a.value {
					return fmt.Errorf("%s: AnyAttrs has %q (present %t) for {%s}%s, want %q", path, g, ok, a.ns, a.name, a.value)
				}
				b.fields++
				b.cover[t.name+"@*"] = true
			}
		}
		if n != len(got) {
			return fmt.Errorf("%s: AnyAttrs has %d attributes, want %d: %v", path, len(got), n, got)
		}
	}
	if name := t.textField(); name != "" {
		f, err := b.field(v, name)
		if err != nil {
			return fmt.Errorf("%s: %w", path, err)
		}
		want := modelText(m)
		if want == "" {
			// an empty text may be a nil or an empty string
			if x, ok := deref(f); ok && x.String() != "" {
				return fmt.Errorf("%s: field %s: no text, the field has %s", path, name, show(f))
			}
		} else {
			if e := b.sameField("string", want, true, f); e != "" {
				return fmt.Errorf("%s, text, field %s: %s", path, name, e)
			}
			b.cover[t.name+"#text"] = true
		}
	}
	if f, err := safeField(v, "XMLName"); err == nil && f.IsValid() {
		if n, ok := f.Interface().(xml.Name); ok && (n.Space != m.ns || n.Local != m.name) {
			return fmt.Errorf("%s: XMLName is {%s}%s, want {%s}%s", path, n.Space, n.Local, m.ns, m.name)
		}
	}
	if t.inner {
		f, err := b.field(v, "InnerXML")
		if err != nil {
			return fmt.Errorf("%s: %w", path, err)
		}
		if m.raw == "" { // the surface may have put comments there
			if o, err := infoset.Parse("<x>" + f.String() + "</x>"); err != nil || len(o.Elems()) > 0 || o.Text() != "" {
				return fmt.Errorf("%s: InnerXML is %q, want nothing", path, f.String())
			}
		} else if f.String() != m.raw {
			return fmt.Errorf("%s: InnerXML is %q, want %q", path, f.String(), m.raw)
		}
		b.cover[t.name+"#inner"] = true
		return nil
	}
	for i := range t.kids {
		k := &t.kids[i]
		f, err := b.field(v, t.kidField(k))
		if err != nil {
			return fmt.Errorf("%s/%s: %w", path, k.name, err)
		}
		want := kidsOf(m, k)
		what := fmt.Sprintf("%s/%s, field %s", path, k.name, t.kidField(k))
		if len(want) > 0 {
			b.cover[t.name+"/"+k.prefix+":"+k.name] = true
		}
		if f.Kind() == reflect.Slice {
			if f.Len() != len(want) {
				return fmt.Errorf("%s: %d elements, want %d", what, f.Len(), len(want))
			}
			for j, w := range want {
				if err := b.sameKid(fmt.Sprintf("%s[%d]", what, j), w, f.Index(j)); err != nil {
					return err
				}
			}
			continue
		}
		switch len(want) {
		case 0:
			b.zero++
			if !f.IsZero() {
				return fmt.Errorf("%s: is absent, but the field has %v", what, f.Interface())
			}
		default:
			if err := b.sameKid(what, want[len(want)-1], f); err != nil {
				return err
			}
		}
	}
	return nil
}

func (b *binder) sameKid(path string, w *mNode, f reflect.Value) error {
	b.fields++
	if !w.leaf {
		return b.same(path, w, f)
	}
	x, ok := deref(f)
	if !ok || x.Kind() != reflect.String || x.String() != modelText(w) {
		return fmt.Errorf("%s: want %q, have %v", path, modelText(w), show(f))
	}
	return nil
}

// fill gives the structure v the content of m.
func (b *binder) fill(m *mNode, v reflect.Value) error {
	t := m.typ
	// embedded structures behind pointers come first
	for i := 0; i < v.NumField(); i++ {
		if sf := v.Type().Field(i); sf.Anonymous && sf.Type.Kind() == reflect.Pointer && sf.Type.Elem().Kind() == reflect.Struct {
			v.Field(i).Set(reflect.New(sf.Type.Elem()))
		}
	}
	if f, err := safeField(v, "XMLName"); err == nil && f.IsValid() {
		f.Set(reflect.ValueOf(xml.Name{Space: m.ns, Local: m.name}))
	}
	for _, a := range m.attrs {
		if a.def == nil {
			if t.anyAttr {
				f, err := b.field(v, "AnyAttrs")
				if err != nil {
					return err
				}
				f.Set(reflect.Append(f, reflect.ValueOf(xml.Attr{Name: xml.Name{Space: a.ns, Local: a.name}, Value: a.value})))
			}
			continue
		}
		f, err := b.field(v, t.attrField(a.def))
		if err == nil {
			err = setField(a.def.kind, a.value, f)
		}
		if err != nil {
			return fmt.Errorf("%s@%s: %w", t.name, a.name, err)
		}
		b.fields++
	}
	if name := t.textField(); name != "" && modelText(m) != "" {
		f, err := b.field(v, name)
		if err == nil {
			err = setField("string", modelText(m), f)
		}
		if err != nil {
			return fmt.Errorf("%s: %w", t.name, err)
		}
		b.fields++
	}
	if t.inner {
		f, err := b.field(v, "InnerXML")
		if err == nil {
			err = setField("string", m.raw, f)
		}
		return err
	}
	for i := range t.kids {
		k := &t.kids[i]
		for _, w := range kidsOf(m, k) {
			f, err := b.field(v, t.kidField(k))
			if err != nil {
				return fmt.Errorf("%s/%s: %w", t.name, k.name, err)
			}
			if f.Kind() == reflect.Slice {
				f.Set(reflect.Append(f, reflect.Zero(f.Type().Elem())))
				f = f.Index(f.Len() - 1)
			}
			for f.Kind() == reflect.Pointer {
				f.Set(reflect.New(f.Type().Elem()))
				f = f.Elem()
			}
			b.fields++
			if w.leaf {
				err = setField("string", modelText(w), f)
			} else {
				err = b.fill(w, f)
			}
			if err != nil {
				return err
			}
		}
	}
	return nil
}

func runC26(c *Ctx) {
	var mu sync.Mutex
	readCover := map[string]bool{}
	judgeRead := func(t *T, m *mNode, text string) {
		v, err := mpd.ReadFromString(text)
		if err != nil {
			t.Failf("rejected", "a valid MPD was rejected: %v\n%s", err, clip(text, 3000))
			return
		}
		b := &binder{cover: map[string]bool{}}
		if err := b.same("MPD", m, reflect.ValueOf(v)); err != nil {
			t.Failf("read", "%v\ninput: %s", err, clip(text, 3000))
			return
		}
		t.ObsN("fields read", b.fields)
		t.ObsN("absent fields", b.zero)
		if b.fields >= 3 {
			t.Nontrivial(text)
		}
		mu.Lock()
		defer mu.Unlock()
		for k := range b.cover {
			readCover[k] = true
		}
	}
	judgeWrite := func(t *T, m *mNode, indent string, header bool) {
		b := &binder{}
		v := &mpd.MPD{XMLNs: m.ns}
		if err := b.fill(m, reflect.ValueOf(v).Elem()); err != nil {
			t.Failf("fill", "%v", err)
			return
		}
		out, err := v.WriteToString(indent, header)
		if err != nil {
			t.Failf("write-error", "%v", err)
			return
		}
		o, err := infoset.Parse(out)
		if err != nil {
			t.Failf("ill-formed", "%v\n%s", err, clip(out, 3000))
			return
		}
		if err := compareDoc(m, o, indent != ""); err != nil {
			t.Failf("written", "%v\noutput: %s", err, clip(out, 3000))
			return
		}
		t.ObsN("fields written", b.fields)
		if b.fields >= 3 {
			t.Nontrivial(out)
		}
	}
	type item struct {
		t    *vType
		attr *vAttr
		kid  *vChild
	}
	var items []item
	for _, t := range vocabList {
		for i := range t.attrs {
			items = append(items, item{t: t, attr: &t.attrs[i]})
		}
		for i := range t.kids {
			items = append(items, item{t: t, kid: &t.kids[i]})
		}
		items = append(items, item{t: t})
	}
	per := c.N(6, 60)
	c.Cases("each", len(items)*per, func(t *T) {
		it := items[t.Idx/per]
		n := t.Idx % per
		g := newGen(t.R)
		g.unknown, g.budget = false, 4
		g.hostile, g.lexical, g.onlyZero = n%2 == 1, n%3 == 1, n == 2
		root, target := g.chain(it.t)
		switch {
		case it.attr != nil:
			g.addAttr(target, it.attr)
		case it.kid != nil:
			for i := 0; i <= n%3 && (i == 0 || it.kid.many); i++ {
				target.kids = append(target.kids, mKid{n: g.child(target, it.kid, 3)})
			}
		default:
			if it.t.text {
				target.kids = append(target.kids, mKid{text: g.str()})
			}
			if it.t.anyAttr {
				g.addAny(target)
			}
			if it.t.inner {
				g.addInner(target)
			}
		}
		judgeRead(t, root, newSurface(t.R).render(root))
		judgeWrite(t, root, "", n%2 == 0)
	})
	// Names that are like those of the vocabulary, or belong to other elements, are read into nothing.
	perNear := c.N(10, 60)
	c.Cases("near", len(items)*perNear, func(t *T) {
		it := items[t.Idx/perNear]
		g := newGen(t.R)
		g.unknown, g.hostile, g.budget = false, false, 4
		root, target := g.chain(it.t)
		switch {
		case it.attr != nil:
			name := it.attr.name
			if t.Idx%perNear > 0 {
				name = nearName(t.R, name)
			}
			// the name as it is becomes a foreign one on an element that has no such attribute
			for target.typ.has(name) {
				if name != it.attr.name {
					return
				}
				root, target = g.chain(vocabList[t.R.IntN(len(vocabList))])
			}
			target.attrs = append(target.attrs, mAttr{ns: it.attr.ns, name: name, value: g.value(it.attr.kind)})
		case it.kid != nil:
			name := it.kid.name
			if t.Idx%perNear > 0 {
				name = nearName(t.R, name)
			}
			for target.typ.has(name) || target.typ.inner {
				if name != it.kid.name {
					return
				}
				root, target = g.chain(vocabList[t.R.IntN(len(vocabList))])
			}
			kid := g.child(target, it.kid, 30)
			unknownAll(kid)
			kid.name = name
			target.kids = append(target.kids, mKid{n: kid})
		default:
			return
		}
		t.Obs("names that are like others read into nothing")
		judgeRead(t, root, newSurface(t.R).render(root))
	})
	c.Require("names that are like others read into nothing", 3000)
	c.Cases("random", c.N(6000, 300000), func(t *T) {
		g := newGen(t.R)
		g.budget = []int{10, 40, 120}[t.R.IntN(3)]
		if t.Idx%2 == 0 {
			if t.R.IntN(25) == 0 {
				g.dashNS = ""
			}
			m := g.doc([]int{2, 5, 12, 30, 60}[t.R.IntN(5)])
			judgeRead(t, m, newSurface(t.R).render(m))
			return
		}
		g.unknown, g.mixText, g.shuffle = false, false, false
		m := g.doc([]int{2, 5, 12, 30, 60}[t.R.IntN(5)])
		ind, hdr := indentOf(t.R.IntN(4))
		judgeWrite(t, m, ind, hdr)
	})
	// The one structure that stands in no MPD but in the text of a descriptor.
	c.Cases("alone", 200, func(t *T) {
		g := newGen(t.R)
		want := g.str()
		var b strings.Builder
		var back mpd.SupVideoInfoType
		if _, err := mpd.WriteXML(&mpd.SupVideoInfoType{ProcessingInfo: want}, &b, "", false); err != nil {
			t.Failf("write-error", "%v", err)
		} else if o, err := infoset.Parse(b.String()); err != nil {
			t.Failf("ill-formed", "%v\n%s", err, b.String())
		} else if got, ok := o.Attr("", "processingInfo"); !ok || got != want || len(o.Attrs) != 1 {
			t.Failf("written", "processingInfo is %q (present %t), want %q\n%s", got, ok, want, b.String())
		} else if err := xml.Unmarshal([]byte(`<a processingInfo="`+newSurface(t.R).attrText(want, '"')+`"/>`), &back); err != nil || back.ProcessingInfo != want {
			t.Failf("read", "processingInfo is %q, want %q, %v", back.ProcessingInfo, want, err)
		}
	})
	if c.replay == nil {
		for _, it := range vocabItems() {
			if readCover[it] {
				c.obs["vocabulary items read into fields"]++
			} else {
				fmt.Println("not exercised:", it)
			}
		}
		c.Require("vocabulary items read into fields", int64(len(vocabItems())))
		c.Require("fields read", 100000)
		c.Require("fields written", 100000)
	}
}

// has says whether an attribute or child has the local name.
func (t *vType) has(name string) bool {
	return slices.ContainsFunc(t.attrs, func(a vAttr) bool { return a.name == name }) || slices.ContainsFunc(t.kids, func(k vChild) bool { return k.name == name })
}

// unknownAll makes an element and what is in it unknown.
func unknownAll(n *mNode) {
	n.unknown, n.typ = true, nil
	for i := range n.attrs {
		n.attrs[i].def = nil
	}
	for _, k := range n.kids {
		if k.n != nil {
			unknownAll(k.n)
		}
	}
}
