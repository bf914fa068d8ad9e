package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"strings"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"
)

// filler populates MPD structures by reflection.
type filler struct {
	r       *rand.Rand
	dense   int
	budget  int
	scteNS  string
	hostile int  // 0: benign; 1: any XML characters; 2: any bytes
	rename  bool // replace every string by a benign one of the same emptiness
	noMixed bool
	seq     int
	wide    int  // length to which a list is extended, once
	long    bool // some strings are as long as a buffer
	hit     func(key string)
}

var (
	typName     = reflect.TypeOf(xml.Name{})
	typAttrs    = reflect.TypeOf([]xml.Attr(nil))
	typDuration = reflect.TypeOf(mpd.Duration(0))
	typFloatInf = reflect.TypeOf(mpd.FloatInf64(0))
	typStrVec   = reflect.TypeOf(mpd.StringNoWhitespaceVectorType(nil))
)

func isSCTE(t reflect.Type) bool {
	f, ok := t.FieldByName("XMLName")
	return ok && f.Type == typName && f.Tag.Get("xml") == ""
}

func (f *filler) p(n, d int) bool { return f.r.IntN(d) < n }

var rawPieces = []string{"\x00", "\x01", "\x08", "\x0b", "\x1f", "\xff", "\xc3", "\xe2\x28\xa1", "\xed\xa0\x80", "\ufffe", "\uffff", "\xf4\x90\x80\x80", "\xc0\x80", "\r\n", "\r", "\n", "\t",
	"\"", "'", "<", ">", "&", "]]>", "<!--", "-->", "</MPD>", "<x/>", "\" onload=\"", "&lt;", "&#0;", "<![CDATA[", "\u0085", "\u2028", "é", "\U0001F600"}

// str makes a non-empty string.
func (f *filler) str() string {
	if f.long && f.p(1, 8) {
		s := longStr(f.r, bigLengths[f.r.IntN(len(bigLengths))], f.hostile > 0)
		if f.rename {
			return "x"
		}
		return s
	}
	var s string
	n := 1 + f.r.IntN(4)
	for i := 0; i < n; i++ {
		k := f.r.IntN(26)
		l := f.r.IntN(len(hostilePieces) * len(rawPieces))
		switch {
		case f.hostile == 2 && f.p(2, 3):
			s += rawPieces[l%len(rawPieces)]
		case f.hostile >= 1 && f.p(1, 2):
			s += hostilePieces[l%len(hostilePieces)]
		default:
			s += string(rune('a' + k))
		}
	}
	if f.rename {
		return "x"
	}
	return s
}

// fields calls fn for every exported field, descending into embedded structs.
func (f *filler) fill(v reflect.Value) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		sf := t.Field(i)
		if !sf.IsExported() && !sf.Anonymous {
			continue
		}
		f.field(t, sf, v.Field(i), false)
	}
}

// field fills one field; force makes it present.
func (f *filler) field(t reflect.Type, sf reflect.StructField, v reflect.Value, force bool) {
	tag := sf.Tag.Get("xml")
	if tag == "-" || sf.PkgPath != "" && !sf.Anonymous {
		return
	}
	if sf.Name == "XMLName" && sf.Type == typName {
		return // set by the parent
	}
	if sf.Anonymous {
		e := v
		if v.Kind() == reflect.Pointer {
			if !force && !(f.r.IntN(100) < f.dense+30) {
				return
			}
			e = reflect.New(sf.Type.Elem())
			v.Set(e)
			e = e.Elem()
		}
		if e.Kind() == reflect.Struct {
			f.fill(e)
			return
		}
		if force || f.r.IntN(100) < f.dense+30 {
			f.note(t, sf)
			e.SetString(f.str())
		}
		return
	}
	if sf.Type == typAttrs {
		if !force && !f.p(1, 4) {
			return
		}
		f.note(t, sf)
		n := 1 + f.r.IntN(3)
		if f.p(1, 60) {
			n = sizeUpTo(f.r, 600)
		}
		var as []xml.Attr
		for i := 0; i < n; i++ {
			f.seq++
			space := []string{"", "urn:ext:1", "http://ext.example/2?a=b&c=\"d\"", "urn:ext:3#"}[f.r.IntN(4)]
			if f.hostile == 2 && f.p(1, 6) {
				space = "urn:" + f.str()
			}
			as = append(as, xml.Attr{Name: xml.Name{Space: space, Local: fmt.Sprintf("ext%d", f.seq)}, Value: f.str()})
			if f.p(1, 6) {
				as[i].Value = ""
			}
		}
		v.Set(reflect.ValueOf(as))
		return
	}
	if strings.HasSuffix(tag, ",innerxml") {
		if force || f.p(1, 3) {
			f.note(t, sf)
			v.SetString(innerSamples[1+f.r.IntN(len(innerSamples)-1)])
		}
		return
	}
	if strings.HasSuffix(tag, ",chardata") && f.noMixed && hasElems(t) {
		return
	}
	ft := sf.Type
	base := ft
	for base.Kind() == reflect.Pointer {
		base = base.Elem()
	}
	structy := base.Kind() == reflect.Struct || base.Kind() == reflect.Slice && base != typStrVec
	if !force {
		if structy && f.budget <= 0 || f.r.IntN(100) >= f.dense {
			return
		}
	}
	f.note(t, sf)
	if base.Kind() == reflect.Slice && base != typStrVec {
		n := 1 + f.r.IntN(3)
		save, wide := f.budget, f.wide > 0 && (force || f.p(1, 4))
		if wide {
			n, f.wide = f.wide, 0
		}
		for i := 0; i < n; i++ {
			if f.budget--; wide {
				f.budget = f.r.IntN(3)
			}
			el := reflect.New(ft.Elem()).Elem()
			f.value(sf, el)
			v.Set(reflect.Append(v, el))
		}
		if wide {
			f.budget = save
		}
		return
	}
	if structy {
		f.budget--
	}
	f.value(sf, v)
}

func hasElems(t reflect.Type) bool {
	for i := 0; i < t.NumField(); i++ {
		k := t.Field(i).Type
		for k.Kind() == reflect.Pointer || k.Kind() == reflect.Slice {
			k = k.Elem()
		}
		if k.Kind() == reflect.Struct && k != typName && k != typAttrs.Elem() {
			return true
		}
	}
	return false
}

func (f *filler) note(t reflect.Type, sf reflect.StructField) {
	if f.hit != nil {
		f.hit(t.Name() + "." + sf.Name)
	}
}

// name sets XMLName of a type whose element name is only known from it.
func (f *filler) name(v reflect.Value, sf reflect.StructField) {
	if isSCTE(v.Type()) {
		if f.scteNS == "" {
			f.scteNS = []string{nsSCTE35, nsSCTE2016}[f.r.IntN(2)]
		}
		local, _, _ := strings.Cut(sf.Tag.Get("xml"), ",")
		v.FieldByName("XMLName").Set(reflect.ValueOf(xml.Name{Space: f.scteNS, Local: local}))
	}
}

func (f *filler) value(sf reflect.StructField, v reflect.Value) {
	if v.Kind() == reflect.Pointer {
		n := reflect.New(v.Type().Elem())
		v.Set(n)
		f.value(sf, n.Elem())
		return
	}
	zero := f.p(1, 10)
	switch v.Type() {
	case typDuration:
		var d int64
		switch f.r.IntN(4) {
		case 0:
			d = int64(f.r.IntN(5000))
		case 1:
			d = int64(f.r.IntN(100000)) * 1000
		case 2:
			d = f.r.Int64N(math.MaxInt64 / 1_000_000)
		case 3:
			d = int64(f.r.IntN(5000)) * 60000
		}
		if zero {
			d = 0
		}
		v.SetInt(d * 1_000_000)
		return
	case typStrVec:
		n := 1 + f.r.IntN(3)
		for i := 0; i < n; i++ {
			f.seq++
			item := fmt.Sprintf("k%d", f.seq)
			if f.hostile > 0 && f.p(1, 2) {
				item += strings.Join(listItems(f.str()), "")
			}
			v.Set(reflect.Append(v, reflect.ValueOf(item)))
		}
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		f.name(v, sf)
		f.fill(v)
	case reflect.String:
		s := f.str()
		if !zero {
			v.SetString(s)
		}
	case reflect.Bool:
		v.SetBool(f.p(1, 2))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := int64(f.bits(v.Type().Bits() - 1))
		if f.p(1, 2) {
			x = -x - 1
		}
		if zero {
			x = 0
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		x := f.bits(v.Type().Bits())
		if zero {
			x = 0
		}
		v.SetUint(x)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(f.float(v.Type().Bits(), zero))
	default:
		panic("no filler for " + v.Type().String())
	}
}

func (f *filler) bits(n int) uint64 {
	max := uint64(math.MaxUint64) >> (64 - n)
	switch f.r.IntN(4) {
	case 0:
		return max
	case 1:
		return f.r.Uint64() & max
	}
	return 1 + uint64(f.r.IntN(100))
}

func (f *filler) float(bits int, zero bool) float64 {
	var x float64
	switch f.r.IntN(6) {
	case 0:
		x = math.Inf(1 - 2*f.r.IntN(2))
	case 1:
		x = float64(math.MaxFloat32)
	case 2:
		x = float64(f.r.IntN(1000)) / 8
	case 3:
		x = math.Float64frombits(f.r.Uint64())
		if bits == 32 {
			x = float64(math.Float32frombits(uint32(math.Float64bits(x))))
		}
	case 4:
		x = -1.5e-7
	case 5:
		x = 30000.0 / 1001
	}
	if bits == 32 {
		x = float64(float32(x))
	}
	if zero || math.IsNaN(x) {
		return 0
	}
	return x
}

// fieldItem is one field of a type of the MPD structure.
type fieldItem struct {
	t     reflect.Type
	sf    reflect.StructField
	chain []reflect.StructField // fields from MPD to a value of type t
}

func (it fieldItem) key() string { return it.t.Name() + "." + it.sf.Name }

// allFields lists every field of every type reachable from MPD, with a shortest chain to it.
func allFields() []fieldItem {
	var out []fieldItem
	type node struct {
		t     reflect.Type
		chain []reflect.StructField
	}
	seen := map[reflect.Type]bool{}
	queue := []node{{reflect.TypeOf(mpd.MPD{}), nil}}
	seen[queue[0].t] = true
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		for i := 0; i < n.t.NumField(); i++ {
			sf := n.t.Field(i)
			if sf.PkgPath != "" && !sf.Anonymous || sf.Tag.Get("xml") == "-" {
				continue
			}
			if sf.Name == "XMLName" && sf.Type == typName {
				continue
			}
			base := sf.Type
			for base.Kind() == reflect.Pointer || base.Kind() == reflect.Slice && base != typStrVec && base != typAttrs {
				base = base.Elem()
			}
			if !(sf.Anonymous && base.Kind() == reflect.Struct) {
				out = append(out, fieldItem{n.t, sf, n.chain})
			}
			if base.Kind() == reflect.Struct && !seen[base] {
				seen[base] = true
				queue = append(queue, node{base, append(append([]reflect.StructField{}, n.chain...), sf)})
			}
		}
	}
	return out
}

// buildChain makes an MPD that has just the chain of elements to a value of type t, and returns
// the MPD and that value.
func (f *filler) buildChain(chain []reflect.StructField) (*mpd.MPD, reflect.Value) {
	m := &mpd.MPD{XMLNs: nsDASH}
	v := reflect.ValueOf(m).Elem()
	for _, sf := range chain {
		v = v.FieldByIndex(sf.Index)
		if v.Kind() == reflect.Slice {
			v.Set(reflect.Append(v, reflect.New(v.Type().Elem()).Elem()))
			v = v.Index(0)
		}
		if v.Kind() == reflect.Pointer {
			v.Set(reflect.New(v.Type().Elem()))
			v = v.Elem()
		}
		if !sf.Anonymous {
			f.name(v, sf)
		}
	}
	return m, v
}

// mpdTree makes a whole MPD.
func (f *filler) mpdTree() *mpd.MPD {
	m := &mpd.MPD{}
	f.fill(reflect.ValueOf(m).Elem())
	m.XMLNs = nsDASH
	return m
}

// ---- comparison ----

type differ struct {
	strEq  func(a, b string) bool
	trim   bool // ignore white space around the text of elements with children
	loose  bool // an absent embedded pointer equals a zero one
	leaves int
}

func (d *differ) diff(path string, a, b reflect.Value) error {
	if a.Type() != b.Type() {
		return fmt.Errorf("%s: types %s and %s", path, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Errorf("%s: nil is %t, then %t", path, a.IsNil(), b.IsNil())
			}
			return nil
		}
		return d.diff(path, a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Type() == typAttrs {
			return d.attrs(path, a.Interface().([]xml.Attr), b.Interface().([]xml.Attr))
		}
		if a.Len() != b.Len() {
			return fmt.Errorf("%s: %d elements, then %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if err := d.diff(fmt.Sprintf("%s[%d]", path, i), a.Index(i), b.Index(i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Struct:
		t := a.Type()
		for i := 0; i < t.NumField(); i++ {
			sf := t.Field(i)
			if sf.PkgPath != "" && !sf.Anonymous || sf.Tag.Get("xml") == "-" {
				continue
			}
			if sf.Name == "XMLName" && sf.Type == typName {
				if sf.Tag.Get("xml") == "" && a.Field(i).Interface() != b.Field(i).Interface() {
					return fmt.Errorf("%s.XMLName: %v, then %v", path, a.Field(i), b.Field(i))
				}
				continue
			}
			x, y := a.Field(i), b.Field(i)
			if sf.Anonymous && x.Kind() == reflect.Pointer {
				zero := reflect.New(x.Type().Elem())
				if x.IsNil() {
					x = zero
				}
				if y.IsNil() {
					y = zero
				}
			}
			if d.trim && strings.HasSuffix(sf.Tag.Get("xml"), ",chardata") && hasElems(t) && x.Kind() == reflect.String {
				if strings.TrimSpace(x.String()) == strings.TrimSpace(y.String()) {
					continue
				}
			}
			if err := d.diff(path+"."+sf.Name, x, y); err != nil {
				return err
			}
		}
		return nil
	case reflect.String:
		d.leaves++
		if !d.strEq(a.String(), b.String()) {
			return fmt.Errorf("%s: %q, then %q", path, clip(a.String(), 400), clip(b.String(), 400))
		}
	default:
		d.leaves++
		if x, y := a.Interface(), b.Interface(); x != y {
			return fmt.Errorf("%s: %v, then %v", path, x, y)
		}
	}
	return nil
}

func (d *differ) attrs(path string, a, b []xml.Attr) error {
	strip := func(as []xml.Attr) (out []xml.Attr) {
		for _, x := range as {
			if x.Name.Space == nsXMLNS || x.Name.Space == "xmlns" || x.Name.Space == "" && x.Name.Local == "xmlns" {
				continue
			}
			out = append(out, x)
		}
		return
	}
	a, b = strip(a), strip(b)
	if len(a) != len(b) {
		return fmt.Errorf("%s: %v, then %v", path, a, b)
	}
	for i := range a {
		d.leaves++
		if a[i].Name.Local != b[i].Name.Local || !d.strEq(a[i].Name.Space, b[i].Name.Space) || !d.strEq(a[i].Value, b[i].Value) {
			return fmt.Errorf("%s: %q, then %q", path, a[i], b[i])
		}
	}
	return nil
}

func sameStr(a, b string) bool { return a == b }

// dump renders all exported fields of a whole structure, so that any change to it can be seen.
func dump(v any) string {
	var b strings.Builder
	dumpValue(&b, reflect.ValueOf(v), 0)
	return b.String()
}

func dumpValue(b *strings.Builder, v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		dumpValue(b, v.Elem(), depth)
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dumpValue(b, v.Index(i), depth+1)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if sf := v.Type().Field(i); !sf.IsExported() && !sf.Anonymous {
				continue
			}
			b.WriteString(v.Type().Field(i).Name + ":")
			dumpValue(b, v.Field(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%x", math.Float64bits(v.Float()))
	default:
		fmt.Fprintf(b, "?%s", v.Kind())
	}
}

// newFiller makes a filler with random settings.
func newFiller(r *rand.Rand, hostile int) *filler {
	f := &filler{r: r, dense: []int{3, 8, 20, 45}[r.IntN(4)], budget: []int{8, 30, 90}[r.IntN(3)], hostile: hostile, noMixed: true}
	if r.IntN(30) == 0 {
		f.wide, f.long = 5+r.IntN(300), r.IntN(2) == 0
	}
	return f
}
