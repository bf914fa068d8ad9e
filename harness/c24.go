package main

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"

	"verifharness/infoset"
)

func init() {
	register(&Check{ID: "C24", Level: "exploration",
		Rule: "Struct types are generated with namespaced and prefixed tags on attributes, elements, paths and XMLName at all depths. A value is written and every name is looked up by the independent parser (namespace, prefix, declaration in scope), and the value is rendered as documents that use other prefixes, default and shadowed declarations and decoys of other namespaces, and read. MPD structures are checked for the documented prefix of every namespace. Non-trivial: a type with at least two namespaces.",
		Run:  runC24})
}

// nsType is a generated struct type.
type nsType struct {
	ns, prefix, local string // of its XMLName tag
	own               bool   // it has an XMLName field with a tag
	fields            []nsField
	anyAttr, any      bool
	typ               reflect.Type
}

type nsField struct {
	name              string
	ns, prefix, local string
	attr              bool
	leaf              reflect.Type // nil for structs
	sub               *nsType
	shape             int // 0 plain, 1 pointer, 2 slice of values, 3 slice of pointers
	path              []string
	omit              bool
	embedded          *nsType // the fields of sub are part of the type
	wrapNS            string  // namespace of the elements of the path
}

type tagGen struct {
	r    *rand.Rand
	n    int
	nsOf map[string]string // prefix most often used for it
	many int               // how many fields one type has
	long []string          // names that are like one another
}

var nsSpaces = []string{"urn:a", "urn:b", "http://x.org/c", "http://x.org/c/", "urn:d", "URN:A", "urn:a/b"}
var nsPrefixes = []string{"p", "q", "r", "xlink", "a.b", "c", "_u", "ns1"}
var nsLocals = []string{"href", "type", "id", "v", "Item", "Item2", "w-x", "deep", "é"}

type nsAnyElem struct {
	XMLName xml.Name
	Inner   string `xml:",innerxml"`
}

// tagAttr writes and reads itself as an attribute.
type tagAttr struct{ N int }

func (x tagAttr) MarshalXMLAttr(n xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: n, Value: fmt.Sprintf("attr %d", x.N)}, nil
}

func (x *tagAttr) UnmarshalXMLAttr(a xml.Attr) error {
	_, err := fmt.Sscanf(a.Value, "attr %d", &x.N)
	return err
}

func (g *tagGen) one(l []string) string { return l[g.r.IntN(len(l))] }
func (g *tagGen) p(n, d int) bool       { return g.r.IntN(d) < n }

// tagName draws a namespace and a prefix, either or both of which may be missing.
func (g *tagGen) tagName(attr bool) (ns, prefix string) {
	switch {
	case g.p(1, 5):
		return "", ""
	case attr && g.p(1, 10):
		return nsXML, "xml"
	}
	ns = g.one(nsSpaces)
	if len(g.long) > 0 && g.p(1, 2) {
		ns = "urn:" + g.one(g.long)
	}
	if g.p(5, 6) {
		prefix = g.nsOf[ns]
		if prefix == "" || g.p(1, 4) { // also one prefix for several namespaces, and the reverse
			prefix = g.one(nsPrefixes)
			if len(g.long) > 0 && g.p(1, 2) {
				prefix = "p-" + g.one(g.long) // never the name of a field: see the finding prefix-declaration of C01
			}
			g.nsOf[ns] = prefix
		}
	}
	return
}

func tagOf(ns, prefix, local string) string {
	if prefix != "" {
		local = prefix + ":" + local
	}
	if ns != "" {
		return ns + " " + local
	}
	return local
}

const nsXML = "http://www.w3.org/XML/1998/namespace"

func (g *tagGen) typeOf(depth int, parentNS string, root, embedded bool) *nsType {
	t := &nsType{}
	if root || !embedded && g.p(1, 4) {
		t.own = true
		t.ns, t.prefix = g.tagName(false)
		t.local = g.one(nsLocals)
	}
	return t
}

// fill makes the fields of a type whose elements are in the namespace ns.
func (g *tagGen) fill(t *nsType, depth int, ns string, used map[string]bool) {
	free := func(kind, ns, local string) bool {
		if kind == "@" { // an attribute goes to the field with its namespace, if any, before one without
			ok := !used[kind+ns+" "+local]
			used[kind+ns+" "+local] = true
			return ok
		}
		if used[kind+"* "+local] || ns == "" && used[kind+"any "+local] || used[kind+ns+" "+local] {
			return false
		}
		used[kind+ns+" "+local] = true
		used[kind+"any "+local] = true
		if ns == "" {
			used[kind+"* "+local] = true
		}
		return true
	}
	var sf []reflect.StructField
	if t.own {
		sf = append(sf, reflect.StructField{Name: "XMLName", Type: typName, Tag: reflect.StructTag(`xml:"` + tagOf(t.ns, t.prefix, t.local) + `"`)})
	}
	add := func(f nsField, typ reflect.Type, tag string) {
		g.n++
		f.name = fmt.Sprintf("F%d", g.n)
		t.fields = append(t.fields, f)
		sf = append(sf, reflect.StructField{Name: f.name, Type: typ, Anonymous: f.embedded != nil, Tag: reflect.StructTag(`xml:"` + tag + `"`)})
	}
	leafs := []reflect.Type{reflect.TypeFor[string](), reflect.TypeFor[int](), reflect.TypeFor[bool](), reflect.TypeFor[string](), reflect.TypeFor[uint8](), reflect.TypeFor[tText](), reflect.TypeFor[tagAttr]()}
	many := g.many
	g.many = 0
	local := func() string {
		if many > 0 && g.p(5, 6) {
			return "n" + strconv.Itoa(g.n-g.r.IntN(3))
		}
		if len(g.long) > 0 && g.p(1, 2) {
			return g.one(g.long)
		}
		return g.one(nsLocals)
	}
	attrs, elems := g.r.IntN(5), g.r.IntN(5)
	if many > 0 {
		attrs = g.r.IntN(many)
		elems = many - attrs
	}
	for k := attrs; k >= 0; k-- { // attributes
		f := nsField{attr: true, local: local(), omit: g.p(1, 3)}
		f.ns, f.prefix = g.tagName(true)
		if f.ns == nsXML {
			f.local = []string{"lang", "base", "id"}[g.r.IntN(3)]
		}
		if !free("@", f.ns, f.local) {
			continue
		}
		f.leaf = leafs[g.r.IntN(len(leafs))]
		typ := f.leaf
		if typ == reflect.TypeFor[tagAttr]() {
			f.omit = false
		} else if typ.Kind() != reflect.Struct && g.p(1, 4) { // methods of a nil pointer are the business of their type
			f.shape, typ = 1, reflect.PointerTo(typ)
		}
		opt := ",attr"
		if f.omit {
			opt += ",omitempty"
		}
		add(f, typ, tagOf(f.ns, f.prefix, f.local)+opt)
	}
	for k := elems; k >= 0; k-- { // elements
		f := nsField{local: local()}
		f.ns, f.prefix = g.tagName(false)
		tag := ""
		if depth > 0 && (many == 0 && g.p(3, 5) || many > 0 && g.p(1, 20)) {
			f.sub = g.typeOf(depth-1, ns, false, false)
			if f.sub.own {
				f.ns, f.prefix, f.local = f.sub.ns, f.sub.prefix, f.sub.local
			} else {
				tag = tagOf(f.ns, f.prefix, f.local)
			}
		} else {
			f.leaf = leafs[g.r.IntN(len(leafs)-1)]
			tag = tagOf(f.ns, f.prefix, f.local)
		}
		f.wrapNS = ns
		if (f.ns == "" || f.ns == ns) && tag != "" && g.p(1, 4) {
			f.path = []string{"w" + strconv.Itoa(g.n)}
			if g.p(1, 2) {
				f.path = append(f.path, g.one(nsLocals))
			}
			tag = ""
			if f.ns != "" {
				tag = f.ns + " "
			}
			tag += strings.Join(f.path, ">") + ">" + tagOf("", f.prefix, f.local)
			if f.ns == "" && f.prefix != "" {
				panic("prefix without namespace")
			}
		} else if !free("", f.ns, f.local) {
			continue
		}
		ens := f.ns
		if ens == "" {
			ens = ns
		}
		var typ reflect.Type
		if f.sub != nil {
			g.fill(f.sub, depth-1, ens, map[string]bool{})
			typ = f.sub.typ
		} else {
			typ = f.leaf
		}
		f.shape = g.r.IntN(4)
		if f.sub != nil && f.sub.own && f.shape >= 2 { // the names of XMLName fields are not looked up in slices
			tag = tagOf(f.ns, f.prefix, f.local)
		}
		if f.leaf != nil && typ.Kind() == reflect.Uint8 && f.shape == 2 {
			f.shape = 0 // []uint8 is text
		}
		switch f.shape {
		case 1:
			typ = reflect.PointerTo(typ)
		case 2:
			typ = reflect.SliceOf(typ)
		case 3:
			typ = reflect.SliceOf(reflect.PointerTo(typ))
		}
		add(f, typ, tag)
	}
	if depth > 0 && g.p(1, 4) { // an embedded struct shares the names of the outer one
		e := &nsType{}
		g.fill(e, depth-1, ns, used)
		if len(e.fields) > 0 && !e.any && !e.anyAttr {
			add(nsField{embedded: e}, e.typ, "")
		}
	}
	if len(used) > 0 && t.own && g.p(1, 2) {
		t.anyAttr = true
		sf = append(sf, reflect.StructField{Name: "AnyAttrs", Type: typAttrs, Tag: `xml:",any,attr"`})
	}
	if t.own && g.p(1, 2) {
		t.any = true
		sf = append(sf, reflect.StructField{Name: "AnyElems", Type: reflect.TypeFor[[]nsAnyElem](), Tag: `xml:",any"`})
	}
	t.typ = reflect.StructOf(sf)
}

// nsNode is what a value must be written as.
type nsNode struct {
	ns, prefix, local string
	attrs             []nsAttr
	kids              []*nsNode
	text              string
	t                 *nsType
	wrap              bool
	group             int // kids of one field keep their order
	shares            map[string]bool
}

type nsAttr struct{ ns, prefix, local, value string }

func (g *tagGen) leafValue(v reflect.Value) string {
	switch v.Type() {
	case reflect.TypeFor[tText]():
		x := tText{}
		must(x.UnmarshalText([]byte(fmt.Sprintf("t:%d", g.r.IntN(100)))))
		v.Set(reflect.ValueOf(x))
		b, err := x.MarshalText()
		must(err)
		return string(b)
	case reflect.TypeFor[tagAttr]():
		x := tagAttr{g.r.IntN(100)}
		v.Set(reflect.ValueOf(x))
		return fmt.Sprintf("attr %d", x.N)
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(fmt.Sprintf("s%d<&\"%d", g.r.IntN(1000), g.r.IntN(10)))
		return v.String()
	case reflect.Int:
		v.SetInt(int64(1 + g.r.IntN(1000)))
		return strconv.FormatInt(v.Int(), 10)
	case reflect.Uint8:
		v.SetUint(uint64(1 + g.r.IntN(255)))
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Bool:
		v.SetBool(true)
		return "true"
	}
	panic(v.Type())
}

// value fills v and adds to n what it must be written as.
func (g *tagGen) value(v reflect.Value, t *nsType, n *nsNode) {
	if t.own {
		v.FieldByName("XMLName").Set(reflect.ValueOf(xml.Name{Space: n.ns, Local: n.local}))
	}
	for i := range t.fields {
		f := &t.fields[i]
		fv := v.FieldByName(f.name)
		switch {
		case f.embedded != nil:
			g.value(fv, f.embedded, n)
		case f.attr:
			if f.shape == 1 {
				if g.p(1, 4) {
					continue
				}
				fv.Set(reflect.New(f.leaf))
				fv = fv.Elem()
			}
			if f.omit && f.shape != 1 && g.p(1, 4) && f.leaf.Kind() != reflect.Struct {
				continue
			}
			n.attrs = append(n.attrs, nsAttr{f.ns, f.prefix, f.local, g.leafValue(fv)})
		default:
			count := 1
			if f.shape >= 2 {
				count = g.r.IntN(3)
			}
			if f.shape == 1 && g.p(1, 4) {
				count = 0
			}
			if len(f.path) > 0 {
				count = max(1, count)
			}
			at := n
			for _, w := range f.path {
				if count > 0 {
					k := &nsNode{ns: at.ns, local: w, wrap: true, group: i}
					at.kids = append(at.kids, k)
					at = k
				}
			}
			for c := 0; c < count; c++ {
				var ev reflect.Value
				if f.shape >= 2 {
					fv.Set(reflect.Append(fv, reflect.New(fv.Type().Elem()).Elem()))
					ev = fv.Index(c)
				} else {
					ev = fv
				}
				if ev.Kind() == reflect.Pointer {
					ev.Set(reflect.New(ev.Type().Elem()))
					ev = ev.Elem()
				}
				k := &nsNode{ns: f.ns, prefix: f.prefix, local: f.local, group: i, t: f.sub}
				if k.ns == "" {
					k.ns = at.ns
				}
				at.kids = append(at.kids, k)
				if f.sub != nil {
					g.value(ev, f.sub, k)
				} else {
					k.text = g.leafValue(ev)
				}
			}
		}
	}
}

// checkWritten compares what was written with the model.
func (g *tagGen) checkWritten(t *T, n *nsNode, o *infoset.Node, path string) error {
	path += "/" + n.local
	if o.NS != n.ns || o.Local != n.local {
		return fmt.Errorf("%s: written as {%s}%s, want {%s}%s", path, o.NS, o.Local, n.ns, n.local)
	}
	if n.prefix != "" {
		if o.Prefix != n.prefix {
			return fmt.Errorf("%s: written with prefix %q, its tag says %q", path, o.Prefix, n.prefix)
		}
		t.Obs("elements written under the prefix of their tag")
	}
	if len(o.Attrs) != len(n.attrs) {
		return fmt.Errorf("%s: attributes %v written, want %v", path, o.Attrs, n.attrs)
	}
	taken := map[string]string{}
	if n.prefix != "" {
		taken[n.prefix] = n.ns
	}
	clash := map[string]bool{}
	for _, a := range n.attrs {
		if a.ns != "" && a.prefix != "" {
			if ns, ok := taken[a.prefix]; ok && ns != a.ns {
				clash[a.prefix] = true
			}
			taken[a.prefix] = a.ns
		}
	}
	for _, a := range n.attrs {
		found := false
		for i, b := range o.Attrs {
			if b.NS != a.ns || b.Local != a.local {
				continue
			}
			found = true
			if b.Value != a.value {
				return fmt.Errorf("%s: attribute {%s}%s is %q, want %q", path, a.ns, a.local, b.Value, a.value)
			}
			if a.ns != "" && a.prefix != "" && !clash[a.prefix] {
				if o.AttrPrefix[i] != a.prefix {
					// an automatic prefix of an earlier name may have taken it
					if auto := g.autoTaken(n, o, a.prefix, a.ns); !auto {
						return fmt.Errorf("%s: attribute {%s}%s written with prefix %q, its tag says %q", path, a.ns, a.local, o.AttrPrefix[i], a.prefix)
					}
				} else {
					t.Obs("attributes written under the prefix of their tag")
				}
			}
		}
		if !found {
			return fmt.Errorf("%s: attribute {%s}%s not written, only %v", path, a.ns, a.local, o.Attrs)
		}
	}
	kids := o.Elems()
	if len(kids) != len(n.kids) {
		return fmt.Errorf("%s: %d elements written, want %d", path, len(kids), len(n.kids))
	}
	for i, k := range n.kids {
		if err := g.checkWritten(t, k, kids[i], path); err != nil {
			return err
		}
	}
	if len(kids) == 0 && o.Text() != n.text {
		return fmt.Errorf("%s: text %q, want %q", path, o.Text(), n.text)
	}
	return nil
}

// autoTaken reports whether prefix means another namespace on the element, used by a name whose tag has no prefix.
func (g *tagGen) autoTaken(n *nsNode, o *infoset.Node, prefix, ns string) bool {
	if o.Prefix == prefix && o.NS != ns && n.prefix == "" {
		return true
	}
	for i, b := range o.Attrs {
		if o.AttrPrefix[i] == prefix && b.NS != ns {
			return true
		}
	}
	return false
}

// nsDoc renders a model with prefixes of its own and decoys.
type nsDoc struct {
	g        *tagGen
	b        strings.Builder
	decoys   int
	shadowed int
	defaults int
}

func nsEsc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", `"`, "&quot;").Replace(s)
}

type nsDecoys struct {
	attrs []xml.Attr
	elems []xml.Name
}

func (d *nsDoc) elem(n *nsNode, scope map[string]string, want map[*nsNode]*nsDecoys) {
	g := d.g
	decl, used := map[string]string{}, map[string]bool{}
	merged := map[string]string{}
	for k, v := range scope {
		merged[k] = v
	}
	set := func(p, ns string) {
		if old, ok := scope[p]; ok && old != ns && p != "" {
			d.shadowed++
		}
		decl[p], merged[p] = ns, ns
	}
	for k := g.r.IntN(3); k > 0; k-- { // declarations nobody asked for
		p := g.one(nsPrefixes)
		if g.p(1, 4) {
			p = ""
		}
		if decl[p] == "" {
			set(p, g.one(nsSpaces))
		}
	}
	need := func(ns string, attr bool) string {
		if ns == nsXML {
			return "xml"
		}
		if ns == "" {
			if !attr && merged[""] != "" {
				set("", "")
			}
			if !attr {
				used[""] = true
			}
			return ""
		}
		var cand []string
		for p, u := range merged {
			if u == ns && !(attr && p == "") {
				cand = append(cand, p)
			}
		}
		sort.Strings(cand)
		if len(cand) > 0 && g.p(3, 4) {
			p := cand[g.r.IntN(len(cand))]
			used[p] = true
			return p
		}
		if !attr && g.p(1, 3) && !used[""] {
			if _, ok := decl[""]; !ok {
				set("", ns)
				used[""] = true
				d.defaults++
				return ""
			}
		}
		for k := 0; ; k++ {
			p := g.one(nsPrefixes)
			if k > 20 {
				p = fmt.Sprintf("z%d", k)
			}
			if _, ok := decl[p]; !ok && !used[p] {
				set(p, ns)
				used[p] = true
				return p
			}
		}
	}
	q := func(p, l string) string {
		if p == "" {
			return l
		}
		return p + ":" + l
	}
	name := q(need(n.ns, false), n.local)
	type at struct{ q, v string }
	var attrs []at
	for _, a := range n.attrs {
		attrs = append(attrs, at{q(need(a.ns, true), a.local), a.value})
	}
	var dec *nsDecoys
	elemDecoys := []nsAttr{}
	if n.t != nil {
		dec = &nsDecoys{}
		want[n] = dec
		as, es := map[string]map[string]bool{}, map[string]map[string]bool{}
		var names func(t *nsType)
		names = func(t *nsType) {
			for _, f := range t.fields {
				m := es
				switch {
				case f.embedded != nil:
					names(f.embedded)
					continue
				case f.attr:
					m = as
				case len(f.path) > 0:
					continue
				}
				if m[f.local] == nil {
					m[f.local] = map[string]bool{}
				}
				m[f.local][f.ns] = true
			}
		}
		names(n.t)
		for _, l := range sortedKeys(as) {
			nss := as[l]
			if nss[""] || g.p(1, 2) {
				continue
			}
			ns := append([]string{"", ""}, nsSpaces...)[g.r.IntN(len(nsSpaces)+2)]
			if nss[ns] {
				continue
			}
			attrs = append(attrs, at{q(need(ns, true), l), "decoy"})
			dec.attrs = append(dec.attrs, xml.Attr{Name: xml.Name{Space: ns, Local: l}, Value: "decoy"})
			d.decoys++
		}
		for _, l := range sortedKeys(es) {
			nss := es[l]
			if nss[""] || g.p(1, 2) {
				continue
			}
			ns := append([]string{"", ""}, nsSpaces...)[g.r.IntN(len(nsSpaces)+2)]
			if nss[ns] {
				continue
			}
			elemDecoys = append(elemDecoys, nsAttr{ns: ns, local: l})
			d.decoys++
		}
	}
	g.r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	var ds []string
	for _, p := range sortedKeys(decl) {
		if p == "" {
			ds = append(ds, fmt.Sprintf(` xmlns="%s"`, nsEsc(decl[p])))
		} else {
			ds = append(ds, fmt.Sprintf(` xmlns:%s="%s"`, p, nsEsc(decl[p])))
		}
	}
	for _, a := range attrs { // declarations stand before, between and after what uses them
		ds = append(ds, fmt.Sprintf(` %s="%s"`, a.q, nsEsc(a.v)))
	}
	g.r.Shuffle(len(ds), func(i, j int) { ds[i], ds[j] = ds[j], ds[i] })
	d.b.WriteString("<" + name + strings.Join(ds, ""))
	if len(n.kids) == 0 && n.text == "" && len(elemDecoys) == 0 && g.p(1, 2) {
		d.b.WriteString("/>")
		return
	}
	d.b.WriteString(">")
	kids := append([]*nsNode(nil), n.kids...)
	// fields in any order, and the repetitions of one field in theirs
	pos := g.r.Perm(len(kids))
	byGroup := map[int][]int{}
	for i, k := range kids {
		byGroup[k.group] = append(byGroup[k.group], pos[i])
	}
	sorted := make([]*nsNode, len(kids))
	next := map[int]int{}
	for gr := range byGroup {
		sort.Ints(byGroup[gr])
	}
	for _, k := range kids {
		sorted[byGroup[k.group][next[k.group]]] = k
		next[k.group]++
	}
	all := append([]*nsNode(nil), sorted...)
	for _, e := range elemDecoys {
		k := &nsNode{ns: e.ns, local: e.local, text: "decoy", group: -1}
		dec.elems = append(dec.elems, xml.Name{Space: e.ns, Local: e.local})
		if len(n.kids) > 0 && g.p(1, 2) { // what would be right one level further up
			c := *n.kids[g.r.IntN(len(n.kids))]
			c.t = nil
			k.kids = []*nsNode{&c}
			k.text = ""
		}
		at := g.r.IntN(len(all) + 1)
		all = append(all[:at], append([]*nsNode{k}, all[at:]...)...)
	}
	if n.text != "" {
		d.b.WriteString(nsEsc(n.text))
	}
	for _, k := range all {
		if k.group == -1 {
			d.elem(k, merged, map[*nsNode]*nsDecoys{})
			continue
		}
		d.elem(k, merged, want)
	}
	d.b.WriteString("</" + name + ">")
}

// NsInner is exported, since its XMLName is set through an embedded field.
type NsInner struct {
	XMLName xml.Name `xml:"urn:inner b"`
	V       string   `xml:",chardata"`
}

type nsOuter struct {
	NsInner
	W string `xml:"w,attr"`
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// stripAny takes what the catch-all fields hold out of a value, and gives the names.
func stripAny(v reflect.Value, attrs, elems *[]string) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			stripAny(v.Elem(), attrs, elems)
		}
	case reflect.Slice:
		if v.Type() == typAttrs {
			for _, a := range v.Interface().([]xml.Attr) {
				if a.Name.Space == nsXMLNS || a.Name.Space == "xmlns" || a.Name.Space == "" && a.Name.Local == "xmlns" {
					continue
				}
				*attrs = append(*attrs, fmt.Sprintf("{%s}%s=%s", a.Name.Space, a.Name.Local, a.Value))
			}
			v.SetZero()
			return
		}
		if es, ok := v.Interface().([]nsAnyElem); ok {
			for _, e := range es {
				*elems = append(*elems, fmt.Sprintf("{%s}%s", e.XMLName.Space, e.XMLName.Local))
			}
			v.SetZero()
			return
		}
		for i := 0; i < v.Len(); i++ {
			stripAny(v.Index(i), attrs, elems)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			stripAny(v.Field(i), attrs, elems)
		}
	}
}

// spacesOf collects the namespaces in the tags of a type.
func spacesOf(t *nsType, out map[string]bool) {
	if t.ns != "" {
		out[t.ns] = true
	}
	for _, f := range t.fields {
		if f.ns != "" {
			out[f.ns] = true
		}
		if f.sub != nil {
			spacesOf(f.sub, out)
		}
		if f.embedded != nil {
			spacesOf(f.embedded, out)
		}
	}
}

// documentedPrefix gives the prefixes under which the MPD package writes foreign namespaces.
var documentedPrefix = map[string]string{
	"http://www.w3.org/2001/XMLSchema-instance": "xsi",
	"http://www.w3.org/1999/xlink":              "xlink",
	"urn:scte:dash:scte214-extensions":          "scte214",
	"urn:mpeg:cenc:2013":                        "cenc",
	"urn:microsoft:playready":                   "mspr",
	"https://dashif.org/CPS":                    "dashif",
	"urn:marlin:mas:1-0:services:schemas:mpd":   "mas",
	"urn:mpeg:dash:schema:urlparam:2014":        "up",
	"urn:mpeg:dash:schema:urlparam:2016":        "up",
}

func checkPrefixes(t *T, n *infoset.Node, path string) error {
	path += "/" + n.Local
	if p, ok := documentedPrefix[n.NS]; ok {
		if n.Prefix != p {
			return fmt.Errorf("%s: element of %s written with prefix %q, want %q", path, n.NS, n.Prefix, p)
		}
		t.Obs("MPD elements under their documented prefix")
	}
	for i, a := range n.Attrs {
		if p, ok := documentedPrefix[a.NS]; ok {
			if n.AttrPrefix[i] != p {
				return fmt.Errorf("%s: attribute %s of %s written with prefix %q, want %q", path, a.Local, a.NS, n.AttrPrefix[i], p)
			}
			t.Obs("MPD attributes under their documented prefix")
		}
	}
	for _, k := range n.Elems() {
		if err := checkPrefixes(t, k, path); err != nil {
			return err
		}
	}
	return nil
}

// nsDeep is a tree of any depth and width in three namespaces.
type nsDeep struct {
	XMLName xml.Name  `xml:"urn:n n:node"`
	A       string    `xml:"urn:p p:a,attr,omitempty"`
	B       string    `xml:"urn:q q:b,attr,omitempty"`
	T       string    `xml:"urn:q q:t"`
	Kids    []*nsDeep `xml:"urn:n n:node"`
}

func runC24(c *Ctx) {
	c.Cases("types", c.N(5000, 100000), func(t *T) {
		g := &tagGen{r: t.R, nsOf: map[string]string{}}
		root := g.typeOf(3, "", true, false)
		if t.Idx%20 == 3 {
			g.long = likeNames(t.R, sizeUpTo(t.R, 300), 4)
			t.Obs("types with long names")
		}
		if t.Idx%100 == 50 {
			g.many = sizeUpTo(t.R, 300)
			t.Obs("types with many fields")
		}
		g.fill(root, 1+g.r.IntN(3), root.ns, map[string]bool{})
		for k := 0; k < 2; k++ {
			v := reflect.New(root.typ)
			n := &nsNode{ns: root.ns, prefix: root.prefix, local: root.local, t: root}
			g.value(v.Elem(), root, n)
			b, err := xml.Marshal(v.Interface())
			if err != nil {
				t.Failf("marshal", "%v\n%s", err, root.typ)
				return
			}
			o, err := infoset.Parse(string(b))
			if err != nil {
				t.Failf("ill-formed", "%v\n%s\n%s", err, b, root.typ)
				return
			}
			if err := g.checkWritten(t, n, o, ""); err != nil {
				t.Failf("written", "%v\n%s\n%s", err, b, root.typ)
				return
			}
			back := reflect.New(root.typ)
			if err := xml.Unmarshal(b, back.Interface()); err != nil {
				t.Failf("unmarshal", "%v\n%s\n%s", err, b, root.typ)
				return
			}
			var a1, e1 []string
			stripAny(back, &a1, &e1)
			if len(a1)+len(e1) > 0 {
				t.Failf("round-trip", "names taken by no field: %v %v\n%s\n%s", a1, e1, b, root.typ)
				return
			}
			if x, y := valueStr(v.Interface()), valueStr(back.Interface()); x != y {
				t.Failf("round-trip", "%s\nread back as %s\n%s\n%s", x, y, b, root.typ)
				return
			}
			t.Obs("values written and read back")
			for j := 0; j < 2; j++ {
				d := &nsDoc{g: g}
				want := map[*nsNode]*nsDecoys{}
				d.elem(n, map[string]string{}, want)
				text := d.b.String()
				if _, err := infoset.Parse(text); err != nil {
					t.c.mu.Lock()
					t.c.short = append(t.c.short, fmt.Sprintf("harness wrote an ill-formed document: %v: %s", err, clip(text, 2000)))
					t.c.mu.Unlock()
					return
				}
				in := reflect.New(root.typ)
				if err := xml.Unmarshal([]byte(text), in.Interface()); err != nil {
					t.Failf("read", "%v\n%s\n%s", err, text, root.typ)
					return
				}
				var ga, ge, wa, we []string
				stripAny(in, &ga, &ge)
				for nn, dec := range want {
					if nn.t.anyAttr {
						for _, a := range dec.attrs {
							wa = append(wa, fmt.Sprintf("{%s}%s=%s", a.Name.Space, a.Name.Local, a.Value))
						}
					}
					if nn.t.any {
						for _, e := range dec.elems {
							we = append(we, fmt.Sprintf("{%s}%s", e.Space, e.Local))
						}
					}
				}
				sort.Strings(ga)
				sort.Strings(ge)
				sort.Strings(wa)
				sort.Strings(we)
				if strings.Join(ga, " ") != strings.Join(wa, " ") || strings.Join(ge, " ") != strings.Join(we, " ") {
					t.Failf("decoys", "names of no field: %v %v, want %v %v\n%s\n%s", ga, ge, wa, we, text, root.typ)
					return
				}
				if x, y := valueStr(v.Interface()), valueStr(in.Interface()); x != y {
					t.Failf("read-value", "read as %s, want %s\n%s\n%s", y, x, text, root.typ)
					return
				}
				t.Obs("documents with other prefixes read")
				t.ObsN("names of other namespaces not taken", d.decoys)
				t.ObsN("prefixes shadowed", d.shadowed)
				t.ObsN("default namespaces used", d.defaults)
				sp := map[string]bool{}
				spacesOf(root, sp)
				if len(sp) >= 2 {
					t.Nontrivial(text)
				}
				if t.Idx < 3 && j == 0 && k == 0 {
					t.Sample("%s\nread into %s", text, root.typ)
				}
			}
		}
	})
	c.Require("types with many fields", 40)
	c.Require("elements written under the prefix of their tag", 1000)
	c.Require("attributes written under the prefix of their tag", 1000)
	c.Require("names of other namespaces not taken", 1000)
	c.Require("prefixes shadowed", 1000)

	c.Cases("deep and wide", c.N(150, 3000), func(t *T) {
		r := t.R
		depth, width := 1, 1
		if t.Idx%2 == 0 {
			depth = sizeUpTo(r, 500)
		} else {
			width = sizeUpTo(r, 3000)
		}
		leaf := func(i int) *nsDeep {
			return &nsDeep{A: fmt.Sprint("a", i), B: fmt.Sprint("b", i), T: fmt.Sprint("t", i)}
		}
		top := leaf(0)
		all := []*nsDeep{top}
		at := top
		for i := 1; i < depth; i++ {
			k := leaf(i)
			at.Kids = []*nsDeep{k}
			at, all = k, append(all, k)
		}
		for i := 0; i < width; i++ {
			k := leaf(depth + i)
			at.Kids = append(at.Kids, k)
			all = append(all, k)
		}
		b, err := xml.Marshal(top)
		if err != nil {
			t.Failf("marshal", "depth %d, width %d: %v", depth, width, err)
			return
		}
		o, err := infoset.Parse(string(b))
		if err != nil {
			t.Failf("ill-formed", "depth %d, width %d: %v\n%s", depth, width, err, clip(string(b), 3000))
			return
		}
		// all names are in the namespaces and under the prefixes of the tags
		var walk func(x *nsDeep, n *infoset.Node, level int) error
		walk = func(x *nsDeep, n *infoset.Node, level int) error {
			if n.NS != "urn:n" || n.Prefix != "n" || n.Local != "node" {
				return fmt.Errorf("level %d: {%s}%s:%s", level, n.NS, n.Prefix, n.Local)
			}
			if len(n.Attrs) != 2 || n.Attrs[0] != (infoset.Attr{NS: "urn:p", Local: "a", Value: x.A}) || n.Attrs[1] != (infoset.Attr{NS: "urn:q", Local: "b", Value: x.B}) || n.AttrPrefix[0] != "p" || n.AttrPrefix[1] != "q" {
				return fmt.Errorf("level %d: attributes %v %v", level, n.Attrs, n.AttrPrefix)
			}
			var kids []*infoset.Node
			for _, k := range n.Kids {
				if k.Node == nil {
					return fmt.Errorf("level %d: text %q", level, k.Text)
				}
				kids = append(kids, k.Node)
			}
			if len(kids) != len(x.Kids)+1 {
				return fmt.Errorf("level %d: %d elements", level, len(kids))
			}
			if t := kids[0]; t.NS != "urn:q" || t.Prefix != "q" || t.Local != "t" || len(t.Kids) != 1 || t.Kids[0].Text != x.T {
				return fmt.Errorf("level %d: {%s}%s:%s", level, t.NS, t.Prefix, t.Local)
			}
			for i, k := range x.Kids {
				if err := walk(k, kids[i+1], level+1); err != nil {
					return err
				}
			}
			return nil
		}
		if err := walk(top, o, 1); err != nil {
			t.Failf("written", "depth %d, width %d: %v\n%s", depth, width, err, clip(string(b), 3000))
			return
		}
		same := func(kind, text string) bool {
			var back nsDeep
			if err := xml.Unmarshal([]byte(text), &back); err != nil {
				t.Failf(kind, "depth %d, width %d: %v\n%s", depth, width, err, clip(text, 3000))
				return false
			}
			i := 0
			var cmp func(x, y *nsDeep) error
			cmp = func(x, y *nsDeep) error {
				if x.A != y.A || x.B != y.B || x.T != y.T || len(x.Kids) != len(y.Kids) {
					return fmt.Errorf("element %d: %q %q %q with %d elements, want %q %q %q with %d", i, y.A, y.B, y.T, len(y.Kids), x.A, x.B, x.T, len(x.Kids))
				}
				i++
				for j, k := range x.Kids {
					if err := cmp(k, y.Kids[j]); err != nil {
						return err
					}
				}
				return nil
			}
			if err := cmp(top, &back); err != nil {
				t.Failf(kind, "depth %d, width %d: %v\n%s", depth, width, err, clip(text, 3000))
				return false
			}
			return true
		}
		if !same("round-trip", string(b)) {
			return
		}
		// Documents that declare the namespaces here and there, under prefixes that go from one to another.
		for j := 0; j < 2; j++ {
			var s strings.Builder
			names := []string{"n", "p", "q", "ns1", "x"}
			spaces := []string{"urn:n", "urn:p", "urn:q", "urn:other"}
			often := 1 + r.IntN(40)
			if j == 0 {
				often = 1 << 30 // only the first
			}
			var put func(x *nsDeep, scope map[string]string)
			put = func(x *nsDeep, scope map[string]string) {
				var decl string
				here := map[string]string{}
				for k, v := range scope {
					here[k] = v
				}
				set := func(p, ns string) {
					if strings.Contains(decl, "xmlns:"+p+"=") {
						return
					}
					here[p] = ns
					decl += fmt.Sprintf(` xmlns:%s="%s"`, p, ns)
				}
				if len(scope) == 0 || r.IntN(often) == 0 {
					p := r.Perm(len(names))
					for i := range spaces {
						set(names[p[i]], spaces[i])
					}
				}
				find := func(ns string) string {
					for _, n := range names {
						if here[n] == ns {
							return n
						}
					}
					for {
						n := fmt.Sprint("y", r.IntN(9))
						if !strings.Contains(decl, "xmlns:"+n+"=") {
							if v, ok := here[n]; ok && v != ns {
								continue
							}
							set(n, ns)
							return n
						}
					}
				}
				n, p, q, o := find("urn:n"), find("urn:p"), find("urn:q"), find("urn:other")
				fmt.Fprintf(&s, `<%s:node%s %s:a="%s" %s:b="%s" %s:a="-" a="-">`, n, decl, p, x.A, q, x.B, o)
				fmt.Fprintf(&s, `<%s:t>-</%s:t><%s:t>%s</%s:t><%s:node/>`, o, o, q, x.T, q, p)
				for _, k := range x.Kids {
					put(k, here)
				}
				fmt.Fprintf(&s, `</%s:node>`, n)
			}
			put(top, nil)
			if _, err := infoset.Parse(s.String()); err != nil {
				t.c.mu.Lock()
				t.c.short = append(t.c.short, fmt.Sprintf("harness wrote an ill-formed document: %v: %s", err, clip(s.String(), 2000)))
				t.c.mu.Unlock()
				return
			}
			if !same("read", s.String()) {
				return
			}
		}
		t.ObsN("elements of deep and wide documents", len(all))
		t.Nontrivial(fmt.Sprint(depth, width))
	})
	c.Require("elements of deep and wide documents", 10000)

	// An XMLName field says which elements a type takes, wherever the type stands.
	c.Cases("xmlname", c.N(3000, 60000), func(t *T) {
		r := t.R
		ns := nsSpaces[r.IntN(len(nsSpaces))]
		prefix := nsPrefixes[r.IntN(len(nsPrefixes))]
		if r.IntN(2) == 0 {
			prefix = ""
		}
		in := reflect.StructOf([]reflect.StructField{
			{Name: "XMLName", Type: typName, Tag: reflect.StructTag(`xml:"` + tagOf(ns, prefix, "b") + `"`)},
			{Name: "V", Type: reflect.TypeFor[string](), Tag: `xml:",chardata"`},
		})
		typ := in
		place := []string{"root", "value", "pointer", "slice", "slice of pointers", "path", "any", "any slice", "embedded"}[r.IntN(9)]
		tag := "b"
		switch place {
		case "pointer":
			typ = reflect.PointerTo(in)
		case "slice":
			typ = reflect.SliceOf(in)
		case "slice of pointers":
			typ = reflect.SliceOf(reflect.PointerTo(in))
		case "path":
			tag = "w>b"
		case "any", "any slice":
			tag = ",any"
			if place == "any slice" {
				typ = reflect.SliceOf(in)
			}
		}
		switch place {
		case "root", "embedded":
		default:
			typ = reflect.StructOf([]reflect.StructField{{Name: "F", Type: typ, Tag: reflect.StructTag(`xml:"` + tag + `"`)}})
		}
		if place == "embedded" { // the XMLName of an embedded struct is that of the outer one
			typ = reflect.TypeFor[nsOuter]()
			ns = "urn:inner"
		}
		have := ns
		local := "b"
		switch r.IntN(3) {
		case 0:
			have = append([]string{"", "", ns + "/", strings.ToUpper(ns)}, nsSpaces...)[r.IntN(len(nsSpaces)+4)]
		case 1:
			if place == "root" || strings.HasPrefix(place, "any") || place == "embedded" {
				local = []string{"c", "B", "b2", "bb", "é"}[r.IntN(5)]
			}
		}
		q, decl, outer := local, "", ""
		switch {
		case have == "":
		case r.IntN(3) == 0:
			decl = ` xmlns="` + nsEsc(have) + `"`
		case r.IntN(3) == 0 && place != "root" && place != "embedded":
			outer = ` xmlns="` + nsEsc(have) + `"`
		default:
			q, decl = "z:"+local, ` xmlns:z="`+nsEsc(have)+`"`
		}
		text := "<" + q + decl + ">x</" + q + ">"
		switch place {
		case "root", "embedded":
		case "path":
			text = "<a" + outer + "><w>" + text + "</w></a>"
		default:
			text = "<a" + outer + ">" + text + "</a>"
		}
		v := reflect.New(typ)
		err := xml.Unmarshal([]byte(text), v.Interface())
		ok := have == ns && local == "b"
		if (err == nil) != ok {
			t.Failf("xmlname", "an XMLName of {%s}b, placed as %s, reads %s: %v", ns, place, text, err)
			return
		}
		if ok && !strings.Contains(valueStr(v.Interface()), `V:"x"`) {
			t.Failf("xmlname-value", "{%s}b, placed as %s, reads %s as %s", ns, place, text, valueStr(v.Interface()))
		}
		if ok {
			t.Obs("elements taken by their XMLName")
		} else {
			t.Obs("elements refused by their XMLName")
		}
		t.Nontrivial(text, place)
	})
	c.Require("elements taken by their XMLName", 500)
	c.Require("elements refused by their XMLName", 500)

	// A prefix names a namespace only where it is declared: that a tag proposes the same prefix
	// does not make an attribute or element of another namespace, or of none, that of the field.
	c.Cases("undeclared", c.N(4000, 80000), func(t *T) {
		r := t.R
		ns := nsSpaces[r.IntN(len(nsSpaces))]
		prefix := nsPrefixes[r.IntN(len(nsPrefixes))]
		local := nsLocals[r.IntN(len(nsLocals))]
		tag := tagOf(ns, prefix, local)
		attr, path := r.IntN(2) == 0, r.IntN(4) == 0
		if attr {
			tag += ",attr"
		} else if path {
			tag = ns + " w>" + local
			if r.IntN(2) == 0 {
				tag = ns + " " + prefix + ":w>" + local
			}
		}
		ft := []reflect.Type{reflect.TypeFor[string](), reflect.TypeFor[*string](), reflect.TypeFor[[]byte](), reflect.TypeFor[tagAttr]()}[r.IntN(4)]
		if ft == reflect.TypeFor[tagAttr]() && !attr {
			ft = reflect.TypeFor[[]string]()
		}
		fields := []reflect.StructField{{Name: "F", Type: ft, Tag: reflect.StructTag(`xml:"` + tag + `"`)}}
		rest := r.IntN(2) == 0
		if rest && attr {
			fields = append(fields, reflect.StructField{Name: "Rest", Type: reflect.TypeFor[[]xml.Attr](), Tag: `xml:",any,attr"`})
		} else if rest {
			fields = append(fields, reflect.StructField{Name: "Rest", Type: reflect.TypeFor[[]nsAnyElem](), Tag: `xml:",any"`})
		}
		typ := reflect.StructOf(fields)
		value := "attr 7"
		how := []string{"undeclared", "undeclared", "other namespace", "of a sibling", "of the child", "given", "given elsewhere"}[r.IntN(7)]
		decl, before, inner, use, space := "", "", "", prefix, prefix
		switch how {
		case "other namespace":
			space = ns + "x"
			decl = ` xmlns:` + prefix + `="` + nsEsc(space) + `"`
		case "of a sibling":
			before = `<s xmlns:` + prefix + `="` + nsEsc(ns) + `"/>`
		case "of the child":
			if attr {
				inner = `<s xmlns:` + prefix + `="` + nsEsc(ns) + `"/>`
			} else {
				inner = `<!---->`
			}
		case "given":
			space, decl = ns, ` xmlns:`+prefix+`="`+nsEsc(ns)+`"`
		case "given elsewhere":
			use = "z9"
			space, decl = ns, ` xmlns:z9="`+nsEsc(ns)+`" xmlns:`+prefix+`="urn:other"`
		}
		var text string
		switch {
		case attr:
			text = "<a><i" + decl + " " + use + ":" + local + `="` + value + `">` + inner + "</i></a>"
			if before != "" {
				text = "<a>" + before + text[3:]
			}
			// the struct is that of <i>
			typ = reflect.StructOf([]reflect.StructField{{Name: "I", Type: typ, Tag: `xml:"i"`}})
		case path:
			text = "<a" + decl + ">" + before + "<" + use + ":w><" + use + ":" + local + ">" + value + inner + "</" + use + ":" + local + "></" + use + ":w></a>"
		default:
			text = "<a" + decl + ">" + before + "<" + use + ":" + local + ">" + value + inner + "</" + use + ":" + local + "></a>"
		}
		v := reflect.New(typ)
		if err := xml.Unmarshal([]byte(text), v.Interface()); err != nil {
			t.Failf("undeclared-error", "%v\ntag %q %s\n%s", err, tag, how, text)
			return
		}
		e := v.Elem()
		if attr {
			e = e.Field(0)
		}
		taken, want := !e.Field(0).IsZero(), strings.HasPrefix(how, "given")
		if taken != want {
			t.Failf("undeclared-taken", "tag %q, prefix %s: the field became %s\n%s", tag, how, valueStr(e.Field(0).Interface()), text)
			return
		}
		if rest && !path {
			var names []xml.Name
			switch l := e.Field(1).Interface().(type) {
			case []xml.Attr:
				for _, a := range l {
					if a.Name.Space != xmlnsSpace && a.Name.Space != "xmlns" {
						names = append(names, a.Name)
					}
				}
			case []nsAnyElem:
				for _, x := range l {
					if x.XMLName.Local != "s" {
						names = append(names, x.XMLName)
					}
				}
			}
			wantNames := []xml.Name{{Space: space, Local: local}}
			if want {
				wantNames = nil
			}
			if fmt.Sprint(names) != fmt.Sprint(wantNames) {
				t.Failf("undeclared-rest", "tag %q, prefix %s: the rest is %v, want %v\n%s", tag, how, names, wantNames, text)
				return
			}
		}
		if want {
			t.Obs("prefixed names taken")
		} else {
			t.Obs("prefixed names of another or no namespace not taken")
		}
		t.Nontrivial(text, tag)
	})
	c.Require("prefixed names taken", 500)
	c.Require("prefixed names of another or no namespace not taken", 1000)

	// The same with every prefixed name of the MPD package: without its declaration, and with the
	// prefix given to another namespace, nothing of it is read into its field.
	mpdItems := allFields()
	c.Cases("mpd-undeclared", len(mpdItems)*c.N(1, 8), func(t *T) {
		it := mpdItems[t.Idx%len(mpdItems)]
		name, _, _ := strings.Cut(it.sf.Tag.Get("xml"), ",")
		ns, q, ok := strings.Cut(name, " ")
		prefix, _, pre := strings.Cut(q, ":")
		if !ok || !pre || strings.Contains(name, ">") {
			return
		}
		f := newFiller(t.R, 0)
		f.dense, f.budget = 0, 0
		m, v := f.buildChain(it.chain)
		f.field(it.t, it.sf, v.FieldByIndex(it.sf.Index), true)
		text, err := m.WriteToString("", false)
		if err != nil {
			t.Failf("write", "%v", err)
			return
		}
		decl := ` xmlns:` + prefix + `="` + ns + `"`
		if !strings.Contains(text, decl) || !strings.Contains(text, q) {
			return // empty and omitted
		}
		for _, instead := range []string{"", ` xmlns:` + prefix + `="urn:other"`, ` xmlns:` + prefix + `="` + ns + `/"`} {
			other := strings.ReplaceAll(text, decl, instead)
			if instead != "" {
				if _, err := infoset.Parse(other); err != nil {
					t.Failf("ill-formed", "%v\n%s", err, other)
					return
				}
			}
			m2, err := mpd.ReadFromString(other)
			if err != nil {
				t.Failf("undeclared-error", "%v\n%s", err, other)
				return
			}
			back, err := m2.WriteToString("", false)
			if err != nil {
				t.Failf("write", "%v", err)
				return
			}
			if strings.Contains(back, `"`+ns+`"`) {
				t.Failf("mpd-undeclared", "%s is read as the name of %s\n%s\n%s", q, ns, other, back)
				return
			}
			t.Obs("MPD names of another or no namespace not taken")
			t.Nontrivial(other)
		}
	})
	c.Require("MPD names of another or no namespace not taken", 20)

	// The MPD package writes every namespace under its documented prefix.
	items := allFields()
	c.Cases("mpd", len(items)*c.N(3, 40), func(t *T) {
		it := items[t.Idx%len(items)]
		f := newFiller(t.R, 0)
		f.dense, f.budget = 30, 12
		m, v := f.buildChain(it.chain)
		f.fill(v)
		f.field(it.t, it.sf, v.FieldByIndex(it.sf.Index), true)
		text, err := m.WriteToString("", false)
		if err != nil {
			t.Failf("write", "%v", err)
			return
		}
		o, err := infoset.Parse(text)
		if err != nil {
			t.Failf("ill-formed", "%v\n%s", err, text)
			return
		}
		if err := checkPrefixes(t, o, ""); err != nil {
			t.Failf("mpd-prefix", "%v\n%s", err, text)
			return
		}
	})
	c.Require("MPD elements under their documented prefix", 50)
	c.Require("MPD attributes under their documented prefix", 50)
}
