package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"slices"
	"sort"
	"strings"

	"github.com/Eyevinn/dash-mpd/xml"
	"verifharness/infoset"
)

func init() {
	register(&Check{ID: "C20", Level: "exploration",
		Rule: "Random trees of elements and attributes with namespaces (reused, shadowed, redeclared and undeclared; preferred prefixes that clash; URIs from which no prefix can be made) are given to the encoder token by token, by EncodeElement and to pooled encoders, with and without indentation; a strict namespace-aware parser reads the output and each element and attribute must have the name given. Documents with all kinds of declarations are decoded and encoded again, and the infosets compared. Non-trivial: at least two namespaces.",
		Run:  runC20})
}

const xmlnsSpace = "http://www.w3.org/2000/xmlns/"

var nsURIs = []string{"urn:a", "urn:b", "urn:c", "http://x/p", "http://y/p/", "http://x/xml", "http://x/XmlThing", "http://x/1", "http://x/a b", "a&b<\"'>", "p", "q", "_", "xml", "xmlns", "XML", "http://x/é", "/", "//", "http://x/p:q", "-", infoset.XMLNS}

type nsTree struct {
	ns, local string // expected name; the name is free for ns "" (see free)
	free      bool   // given no namespace: it has that of the default declaration in scope
	start     xml.StartElement
	attrs     []infoset.Attr // expected
	kids      []any          // *nsTree or string
	simple    bool           // written by EncodeElement of the text
}

type nsGen struct {
	r      *rand.Rand
	uris   []string
	budget int
	deep   int // how deep elements nest
	wide   int // how many attributes an element has, once
	long   []string
}

func (g *nsGen) p(n, d int) bool { return g.r.IntN(d) < n }

func (g *nsGen) uri() string { return g.uris[g.r.IntN(len(g.uris))] }

func (g *nsGen) prefix() string {
	if len(g.long) > 0 && g.p(1, 2) {
		return g.long[g.r.IntN(len(g.long))]
	}
	return []string{"p", "q", "_", "p_1", "__1", "a", "b", "x1", "P", "ns-1", "é", "xm", "_xml", "_xmlns"}[g.r.IntN(14)]
}

func (g *nsGen) tree(depth int) *nsTree {
	g.budget--
	n := &nsTree{local: []string{"a", "b", "c", "p", "x-1", "é"}[g.r.IntN(6)]}
	if g.p(3, 4) {
		n.ns = g.uri()
		if n.ns == infoset.XMLNS && g.p(3, 4) {
			n.ns = "urn:a"
		}
	}
	n.free = n.ns == ""
	given := n.local
	if n.ns != "" && g.p(1, 3) {
		given = g.prefix() + ":" + n.local
		if g.p(1, 20) {
			given = "xml:" + n.local
		}
	}
	n.start.Name = xml.Name{Space: n.ns, Local: given}
	seen := map[string]bool{}
	k, many := g.r.IntN(4)*g.r.IntN(2), ""
	if g.p(1, 120) { // many namespaces on one element that give the same prefix or none
		k, many = 10+g.r.IntN(60), []string{"urn:m%d", "http://h%d/p", "http://h%d/_", "%d"}[g.r.IntN(4)]
	}
	uniq := 100
	if g.wide > 0 && (g.p(1, 4) || g.budget < 2) {
		k, many = g.wide, []string{"urn:m%d", "http://h%d/p", "http://h%d/_", "%d"}[g.r.IntN(4)]
		g.wide, uniq = 0, 2*g.wide
	}
	for ; k > 0; k-- {
		a := infoset.Attr{Local: []string{"a", "b", "c", "p", "lang"}[g.r.IntN(5)], Value: []string{"", "v", "<&\">", " x\n"}[g.r.IntN(4)]}
		if g.p(2, 3) {
			a.NS = g.uri()
		}
		if many != "" && g.p(7, 8) {
			a.NS = fmt.Sprintf(many, g.r.IntN(uniq))
		}
		if key := a.NS + " " + a.Local; seen[key] {
			continue
		} else {
			seen[key] = true
		}
		given := a.Local
		if a.NS != "" && g.p(1, 3) {
			given = g.prefix() + ":" + a.Local
			if g.p(1, 20) {
				given = "xml:" + a.Local
			}
		}
		n.attrs = append(n.attrs, a)
		n.start.Attr = append(n.start.Attr, xml.Attr{Name: xml.Name{Space: a.NS, Local: given}, Value: a.Value})
	}
	// declarations among the attributes
	for k := g.r.IntN(3) * g.r.IntN(2); k > 0; k-- {
		var d xml.Attr
		if g.p(1, 3) {
			d = xml.Attr{Name: xml.Name{Local: "xmlns"}, Value: g.uri()}
			if g.p(1, 3) {
				d.Value = ""
			}
			if n.ns == "" && d.Value != "" && g.p(2, 3) {
				continue
			}
		} else {
			d = xml.Attr{Name: xml.Name{Space: xmlnsSpace, Local: g.prefix()}, Value: g.uri()}
		}
		if d.Value == infoset.XMLNS || seen["xmlns:"+d.Name.Local] {
			continue
		}
		seen["xmlns:"+d.Name.Local] = true
		i := g.r.IntN(len(n.start.Attr) + 1)
		n.start.Attr = append(n.start.Attr[:i:i], append([]xml.Attr{d}, n.start.Attr[i:]...)...)
	}
	if depth > 0 && g.p(1, 8) {
		n.simple = true
		n.kids = []any{[]string{"", "text", "<&>"}[g.r.IntN(3)]}
		return n
	}
	for g.budget > 0 && depth < g.deep && (g.p(7, 10) || g.deep > 30) {
		if g.p(1, 5) {
			n.kids = append(n.kids, []string{"text", "<&>]]>", "\u00e9"}[g.r.IntN(3)])
		} else {
			n.kids = append(n.kids, g.tree(depth+1))
		}
	}
	return n
}

func (n *nsTree) write(e *xml.Encoder) error {
	// The attributes are the head of a longer slice, which stays as it is.
	st, k := n.start, len(n.start.Attr)
	all := slices.Concat(st.Attr, make([]xml.Attr, 8))
	st.Attr = all[:k]
	kept := func(err error) error {
		if err == nil && (!slices.Equal(all[:k], n.start.Attr) || slices.ContainsFunc(all[k:], func(a xml.Attr) bool { return a != xml.Attr{} })) {
			return fmt.Errorf("the encoder changed the attributes given to %v", all)
		}
		return err
	}
	if n.simple {
		return kept(e.EncodeElement(n.kids[0].(string), st))
	}
	if err := kept(e.EncodeToken(st)); err != nil {
		return err
	}
	for _, k := range n.kids {
		var err error
		if s, ok := k.(string); ok {
			err = e.EncodeToken(xml.CharData(s))
		} else {
			err = k.(*nsTree).write(e)
		}
		if err != nil {
			return err
		}
	}
	return e.EncodeToken(n.start.End())
}

// check compares with what the parser read; def is the default namespace in scope.
func (n *nsTree) check(o *infoset.Node, def string, indented bool) string {
	for _, d := range o.Decls {
		if d.Local == "" {
			def = d.Value
		}
	}
	ns := n.ns
	if n.free {
		ns = def
		if o.Prefix != "" {
			return fmt.Sprintf("element %s without a namespace has prefix %q", n.local, o.Prefix)
		}
	}
	if o.NS != ns || o.Local != n.local {
		return fmt.Sprintf("element {%s}%s, want {%s}%s", o.NS, o.Local, ns, n.local)
	}
	want := append([]infoset.Attr(nil), n.attrs...)
	got := append([]infoset.Attr(nil), o.Attrs...)
	for _, l := range [][]infoset.Attr{want, got} {
		sort.Slice(l, func(i, j int) bool { return l[i].NS+" "+l[i].Local < l[j].NS+" "+l[j].Local })
	}
	if fmt.Sprint(want) != fmt.Sprint(got) {
		return fmt.Sprintf("element %s: attributes %q, want %q", n.local, got, want)
	}
	// every declaration given is made
	for _, a := range n.start.Attr {
		local, isDecl := a.Name.Local, a.Name.Space == xmlnsSpace
		if a.Name.Space == "" && a.Name.Local == "xmlns" {
			local, isDecl = "", true
		}
		if isDecl {
			found := false
			for _, d := range o.Decls {
				found = found || d.Local == local && d.Value == a.Value
			}
			if !found {
				return fmt.Sprintf("element %s: declaration of %q as %q is missing", n.local, local, a.Value)
			}
		}
	}
	var text, gotText string
	var elems []*nsTree
	for _, k := range n.kids {
		if s, ok := k.(string); ok {
			text += s
		} else {
			elems = append(elems, k.(*nsTree))
		}
	}
	gotText = o.Text()
	if indented {
		gotText = strings.Map(func(c rune) rune {
			if c == ' ' || c == '\n' || c == '\t' {
				return -1
			}
			return c
		}, gotText)
	}
	if text != gotText {
		return fmt.Sprintf("element %s: text %q, want %q", n.local, gotText, text)
	}
	kids := o.Elems()
	if len(kids) != len(elems) {
		return fmt.Sprintf("element %s: %d children, want %d", n.local, len(kids), len(elems))
	}
	for i, k := range elems {
		if s := k.check(kids[i], def, indented); s != "" {
			return s
		}
	}
	return ""
}

func (n *nsTree) spaces(m map[string]bool) {
	m[n.ns] = true
	for _, a := range n.attrs {
		m[a.NS] = true
	}
	for _, k := range n.kids {
		if k, ok := k.(*nsTree); ok {
			k.spaces(m)
		}
	}
}

func (n *nsTree) String() string {
	s := fmt.Sprintf("<%q", n.start.Name)
	for _, a := range n.start.Attr {
		s += fmt.Sprintf(" %q=%q", a.Name, a.Value)
	}
	s += ">"
	for _, k := range n.kids {
		s += fmt.Sprint(k)
	}
	return s + "</>"
}

// nsDoc writes a document with all kinds of declarations.
func (g *nsGen) nsDoc(b *strings.Builder, depth int, scope map[string]string) {
	g.budget--
	in := map[string]string{}
	for k, v := range scope {
		in[k] = v
	}
	var decls []string
	declared := map[string]bool{}
	for k := g.r.IntN(4) * g.r.IntN(2); k > 0; k-- {
		p, u := g.prefix(), g.uri()
		if g.p(1, 3) {
			p = ""
			if g.p(1, 3) {
				u = ""
			}
		}
		if declared[p] || u == infoset.XMLNS {
			continue
		}
		declared[p] = true
		in[p] = u
		esc := strings.NewReplacer("&", "&amp;", "<", "&lt;", "\"", "&quot;").Replace(u)
		if p == "" {
			decls = append(decls, " xmlns=\""+esc+"\"")
		} else {
			decls = append(decls, " xmlns:"+p+"=\""+esc+"\"")
		}
	}
	var ps []string
	for p := range in {
		if p != "" {
			ps = append(ps, p)
		}
	}
	sort.Strings(ps)
	name := func() string {
		l := []string{"a", "b", "c", "p"}[g.r.IntN(4)]
		if len(ps) > 0 && g.p(2, 3) {
			return ps[g.r.IntN(len(ps))] + ":" + l
		}
		return l
	}
	seen := map[string]bool{}
	for k := g.r.IntN(4) * g.r.IntN(2); k > 0; k-- {
		n := name()
		key := n
		if p, l, ok := strings.Cut(n, ":"); ok {
			key = in[p] + " " + l
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		decls = append(decls, " "+n+"=\"v&lt;&#10;\"")
	}
	if g.p(1, 20) {
		decls = append(decls, " xml:lang='en'")
	}
	g.r.Shuffle(len(decls), func(i, j int) { decls[i], decls[j] = decls[j], decls[i] })
	n := name()
	b.WriteString("<" + n + strings.Join(decls, "") + ">")
	for g.budget > 0 && depth < 40 && g.p(3, 4) {
		if g.p(1, 6) {
			b.WriteString("t&amp;")
		} else {
			g.nsDoc(b, depth+1, in)
		}
	}
	b.WriteString("</" + n + ">")
}

func newNsGen(r *rand.Rand) *nsGen {
	g := &nsGen{r: r, budget: 1 + r.IntN(25), deep: 30}
	for k := 1 + r.IntN(4); k > 0; k-- {
		g.uris = append(g.uris, nsURIs[r.IntN(len(nsURIs))])
	}
	if r.IntN(3) == 0 {
		g.uris = []string{"urn:a", "urn:b"}
	}
	return g
}

func runC20(c *Ctx) {
	stream := func(t *T, g *nsGen) {
		r := t.R
		tree := g.tree(0)
		var b bytes.Buffer
		var e *xml.Encoder
		pooled := r.IntN(3) == 0
		if pooled {
			e = xml.AcquireEncoder(&b)
		} else {
			e = xml.NewEncoder(&b)
		}
		indented := r.IntN(4) == 0
		if indented {
			e.Indent("", "  ")
		}
		err := tree.write(e)
		if err == nil {
			err = e.Flush()
		}
		if err == nil && !pooled {
			err = e.Close()
		}
		if pooled {
			xml.ReleaseEncoder(e)
		}
		t.Evals(1)
		out := b.String()
		if err != nil {
			t.Failf("error", "%v\n%s\n%s", err, clip(tree.String(), 3000), clip(out, 3000))
			return
		}
		root, err := infoset.Parse(out)
		if err != nil {
			t.Failf("output", "%v\n%s\n%s", err, clip(tree.String(), 3000), clip(out, 3000))
			return
		}
		if s := tree.check(root, "", indented); s != "" {
			t.Failf("names", "%s\n%s\n%s", s, clip(tree.String(), 3000), clip(out, 3000))
			return
		}
		m := map[string]bool{}
		tree.spaces(m)
		t.Obs("streams written")
		if len(m) > 1 {
			t.Nontrivial(tree.String())
		}
		if strings.Count(out, "_1=") > 0 {
			t.Obs("streams with a made-up prefix")
		}
		if t.Idx < 2 {
			t.Sample("%s -> %s", tree, out)
		}
	}
	c.Cases("streams", c.N(40000, 1500000), func(t *T) { stream(t, newNsGen(t.R)) })
	// Counters and tables have sizes of their own.
	c.Cases("large", c.N(120, 2000), func(t *T) {
		g := newNsGen(t.R)
		g.budget = 1 + t.R.IntN(400)
		if t.R.IntN(2) == 0 {
			g.deep = []int{64, 127, 128, 129, 255, 256, 257, 300, 500, 1100}[t.R.IntN(10)] + t.R.IntN(3)
			g.budget = g.deep + t.R.IntN(30)
		}
		if t.R.IntN(2) == 0 {
			g.wide = []int{127, 128, 129, 255, 256, 257, 300, 512, 700, 1025, 1500}[t.R.IntN(11)] + t.R.IntN(3)
		}
		if t.R.IntN(2) == 0 { // long prefixes and URIs, that differ somewhere
			l := sizeUpTo(t.R, 300)
			if t.Idx%10 == 9 {
				l = sizeUpTo(t.R, 70000)
				g.budget, g.wide = min(g.budget, 30), 0
			}
			for i := 0; i < 3; i++ {
				b := []byte(strings.Repeat("Pq", l/2+1))
				b[t.R.IntN(len(b))] = 'x'
				g.long = append(g.long, string(b))
				b[t.R.IntN(len(b))] = 'y'
				g.uris = append(g.uris, "urn:"+string(b), "http://x/"+string(b))
			}
		}
		stream(t, g)
		t.Obs("large streams")
	})
	c.Require("large streams", 50)
	c.Require("streams written", 30000)
	c.Require("streams with a made-up prefix", 500)

	c.Cases("copies", c.N(15000, 500000), func(t *T) {
		r := t.R
		g := newNsGen(r)
		var sb strings.Builder
		g.nsDoc(&sb, 0, nil)
		text := sb.String()
		want, err := infoset.Parse(text)
		if err != nil {
			t.Failf("harness", "%v\n%s", err, text)
			return
		}
		t.Evals(1)
		var b bytes.Buffer
		d, e := xml.NewDecoder(strings.NewReader(text)), xml.NewEncoder(&b)
		for {
			tok, err := d.Token()
			if err == io.EOF {
				break
			}
			if err == nil {
				err = e.EncodeToken(tok)
			}
			if err != nil {
				t.Failf("copy-error", "%v\n%s", err, clip(text, 3000))
				return
			}
		}
		if err := e.Close(); err != nil {
			t.Failf("copy-error", "%v\n%s", err, clip(text, 3000))
			return
		}
		got, err := infoset.Parse(b.String())
		if err != nil {
			t.Failf("copy-output", "%v\n%s\n%s", err, clip(text, 3000), clip(b.String(), 3000))
			return
		}
		if got.Canon(false) != want.Canon(false) {
			t.Failf("copy-differs", "%s\n%s", clip(text, 3000), clip(b.String(), 3000))
			return
		}
		t.Obs("documents copied")
		if strings.Contains(text, "xmlns") {
			t.Nontrivial(text)
		}
		if t.Idx < 2 {
			t.Sample("%s -> %s", text, b.String())
		}
	})
	c.Require("documents copied", 10000)
}
