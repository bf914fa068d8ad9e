package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"strconv"
	"strings"

	"verifharness/infoset"
)

// mNode is an element of a model document. typ is nil for unknown content, which a reader drops,
// and for simple elements (leaf), which have text only.
type mNode struct {
	ns, name string
	typ      *vType
	leaf     bool
	unknown  bool
	attrs    []mAttr
	kids     []mKid
	raw      string // verbatim inner XML of an extension element (self-contained)
}

type mAttr struct {
	ns, name string
	value    string // as it is meant to be read (before any escaping)
	def      *vAttr // nil for an unknown attribute
}

type mKid struct {
	n    *mNode
	text string
}

// gen makes model documents.
type gen struct {
	r        *rand.Rand
	budget   int
	cover    map[string]bool
	hostile  bool // strings with markup, quotes, white space, non-ASCII
	unknown  bool // foreign elements and attributes
	zero     bool // zero and empty values
	shuffle  bool // children in any order
	scteNS   string
	uniq     int
	lexical  bool // lexical variants of numbers, booleans, durations
	mixText  bool // text around the children of mixed elements
	dashNS   string
	noSub    bool // durations are whole milliseconds
	onlyZero bool
	mixNS    bool // mix the editions of the SCTE-35 namespace freely
	wide     int  // length to which a list of elements is extended, once
	long     bool // some strings are as long as a buffer
}

// lengths at which the code, or the buffers under it, may change behaviour.
var bigLengths = []int{9, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 70000, 140000}

func (g *gen) p(n, d int) bool { return g.r.IntN(d) < n }

var hostilePieces = []string{"<", ">", "&", "\"", "'", "]]>", "<!--", "-->", "<?x?>", "&amp;", "&#60;", "$Number$", "é", "漢字", "\U0001F600", "\u00a0", "\u2028",
	"\u0085", " ", "  ", "\t", "\n", "\r", "\r\n", "http://a/b?c=1&d=2", "</MPD>", "xmlns:x=\"y\"", "a:b", "%05d", "\u200b", "\ufeff", "\ufffd", "\x7f", "=", "/>", "\U0010FFFF", "\ud7ff", "\ue000", ":", ","}

func (g *gen) str() string {
	if g.long && g.p(1, 8) {
		return longStr(g.r, bigLengths[g.r.IntN(len(bigLengths))], g.hostile)
	}
	if !g.hostile || g.p(1, 2) {
		n := 1 + g.r.IntN(8)
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._:/"[g.r.IntN(67)]
		}
		return string(b)
	}
	var b strings.Builder
	for i := 1 + g.r.IntN(5); i > 0; i-- {
		if g.p(1, 2) {
			b.WriteByte(byte('a' + g.r.IntN(26)))
		}
		b.WriteString(hostilePieces[g.r.IntN(len(hostilePieces))])
	}
	if g.p(1, 60) {
		b.WriteString(strings.Repeat("long <text> ", 600))
	}
	return b.String()
}

// longStr makes a string of n bytes, with a piece that needs care near the end or anywhere.
func longStr(r *rand.Rand, n int, hostile bool) string {
	b := make([]byte, n)
	const chars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._:/+=,;?%@#$()"
	if r.IntN(3) == 0 {
		copy(b, strings.Repeat("0123456789abcdef", n/16+1))
	} else {
		for i := range b {
			b[i] = chars[r.IntN(len(chars))]
		}
	}
	if hostile {
		used := map[int]bool{}
		for i := r.IntN(4); i > 0; i-- {
			p := hostilePieces[r.IntN(len(hostilePieces))]
			at := r.IntN(n)
			if r.IntN(2) == 0 {
				at = max(0, n-len(p)-r.IntN(4))
			}
			free := at+len(p) <= n
			for j := 0; j < len(p); j++ {
				free = free && !used[at+j]
			}
			// Leave the other pieces whole.
			if free {
				copy(b[at:], p)
				for j := 0; j < len(p); j++ {
					used[at+j] = true
				}
			}
		}
	}
	return string(b)
}

func (g *gen) uint(bits int) uint64 {
	max := uint64(math.MaxUint64) >> (64 - bits)
	switch g.r.IntN(6) {
	case 0:
		return max
	case 1:
		return max/2 + 1
	case 2:
		return max - uint64(g.r.IntN(3))
	case 3:
		return g.r.Uint64() & max
	}
	return 1 + uint64(g.r.IntN(100))
}

var floatValues = []string{"1.5", "0.25", "1e3", "2.50", "100", "1e300", "1e-7", "3.4028234e38", "INF", "-INF", "-2.5", "0.1", "16777217", "1E-5"}

// value returns a lexical value of the kind, and for a zero request the zero value.
func (g *gen) value(kind string) string {
	zero := g.onlyZero || g.zero && g.p(1, 6)
	pad := func(s string) string {
		if g.lexical && g.p(1, 5) {
			return []string{" ", "\t", "  ", "\n", "\r", "\r\n\t ", ""}[g.r.IntN(7)] + s + []string{"", "", " ", "\n", "\t", "\r"}[g.r.IntN(6)]
		}
		return s
	}
	lead := func(s string) string {
		if g.lexical && g.p(1, 6) {
			if strings.HasPrefix(s, "-") {
				return "-00" + s[1:]
			}
			return "00" + s
		}
		return s
	}
	switch kind {
	case "string":
		if zero {
			return ""
		}
		return g.str()
	case "bool":
		if zero || g.p(1, 2) {
			if g.lexical && g.p(1, 3) {
				return pad("0")
			}
			return pad("false")
		}
		if g.lexical && g.p(1, 3) {
			return pad("1")
		}
		return pad("true")
	case "uint8", "uint16", "uint32", "uint64":
		bits, _ := strconv.Atoi(kind[4:])
		if zero {
			return pad(lead("0"))
		}
		return pad(lead(strconv.FormatUint(g.uint(bits), 10)))
	case "int", "int32":
		bits := 64
		if kind == "int32" {
			bits = 32
		}
		if zero {
			return pad("0")
		}
		v := int64(g.uint(bits - 1))
		if g.p(1, 2) {
			v = -v - 1
		}
		return pad(lead(strconv.FormatInt(v, 10)))
	case "float32", "float64", "floatinf":
		if zero {
			return pad([]string{"0", "0.0", "0e5"}[g.r.IntN(3)])
		}
		if g.p(1, 3) {
			f := math.Float64frombits(g.r.Uint64())
			if kind == "float32" {
				f = float64(math.Float32frombits(g.r.Uint32()))
			}
			if !math.IsNaN(f) && !math.IsInf(f, 0) && f != 0 {
				bits := 64
				if kind == "float32" {
					bits = 32
				}
				return pad(strconv.FormatFloat(f, 'g', -1, bits))
			}
		}
		v := floatValues[g.r.IntN(len(floatValues))]
		if kind == "float32" && v == "1e300" {
			v = "1e30"
		}
		return pad(v)
	case "duration":
		if zero {
			return pad("PT0S")
		}
		return pad(g.duration())
	case "list":
		if zero {
			return ""
		}
		var toks []string
		for i := 1 + g.r.IntN(4); i > 0; i-- {
			toks = append(toks, strings.Join(strings.FieldsFunc(g.str()+"k", isSpaceRune), ""))
		}
		sep := " "
		if g.lexical && g.p(1, 3) {
			sep = []string{"  ", "\t", "\n", "\r", " \r\n"}[g.r.IntN(5)]
		}
		return pad(strings.Join(toks, sep))
	}
	panic("kind " + kind)
}

// isSpaceRune tells what XML calls white space.
func isSpaceRune(r rune) bool { return r == ' ' || r == '\t' || r == '\n' || r == '\r' }

// listItems are the items of a value of a list type.
func listItems(v string) []string { return strings.FieldsFunc(v, isSpaceRune) }

func (g *gen) duration() string {
	frac := func() string {
		switch g.r.IntN(4) {
		case 0:
			return "." + fmt.Sprintf("%03d", 1+g.r.IntN(999))
		case 1:
			return "." + strconv.Itoa(1+g.r.IntN(9))
		case 2:
			if !g.noSub {
				return "." + fmt.Sprintf("%09d", 1+g.r.IntN(999999999))
			}
		}
		return ""
	}
	switch g.r.IntN(8) {
	case 0:
		return "PT" + strconv.Itoa(g.r.IntN(2000000)) + frac() + "S"
	case 1:
		return fmt.Sprintf("P%dDT%dH%dM%d%sS", g.r.IntN(4000), g.r.IntN(24), g.r.IntN(60), g.r.IntN(60), frac())
	case 2:
		return fmt.Sprintf("P%dD", g.r.IntN(20000))
	case 3:
		return fmt.Sprintf("PT%dH", g.r.IntN(100000))
	case 4:
		return fmt.Sprintf("PT%dM", g.r.IntN(100000))
	case 5:
		return fmt.Sprintf("PT%dH%d%sS", g.r.IntN(30), g.r.IntN(60), frac())
	case 6:
		return fmt.Sprintf("PT%dM%d%sS", g.r.IntN(90), g.r.IntN(90), frac())
	}
	return "PT0" + "." + fmt.Sprintf("%03d", 1+g.r.IntN(999)) + "S"
}

func (g *gen) hit(s string) {
	if g.cover != nil {
		g.cover[s] = true
	}
}

// elem makes an element of type t. dense is the chance (in percent) of each optional part.
func (g *gen) elem(ns, name string, t *vType, dense int) *mNode {
	n := &mNode{ns: ns, name: name, typ: t}
	for i := range t.attrs {
		a := &t.attrs[i]
		if g.r.IntN(100) < dense {
			g.addAttr(n, a)
		}
	}
	if t.anyAttr && g.p(1, 3) {
		g.addAny(n)
	}
	if g.unknown && !t.anyAttr && g.p(1, 8) {
		n.attrs = append(n.attrs, g.nearAttr(n))
	}
	if t.text && (len(t.kids) == 0 || g.p(1, 3)) && g.r.IntN(100) < dense+50 {
		n.kids = append(n.kids, mKid{text: g.str()})
		g.hit(t.name + "#text")
	}
	if t.inner {
		g.addInner(n)
	}
	for i := range t.kids {
		k := &t.kids[i]
		if g.budget <= 0 {
			break
		}
		if g.r.IntN(100) >= dense && !(k.name == "Period" || k.name == "AdaptationSet" || k.name == "Representation") {
			continue
		}
		cnt := 1
		if k.many && g.wide > 0 && g.p(1, 5) {
			wide, save := g.wide, g.budget
			g.wide = 0
			for ; wide > 0; wide-- {
				g.budget = g.r.IntN(3)
				n.kids = append(n.kids, mKid{n: g.child(n, k, min(dense, 12))})
			}
			g.budget = save
			continue
		}
		if k.many && g.p(1, 2) {
			cnt = 1 + g.r.IntN(3)
		}
		for ; cnt > 0 && g.budget > 0; cnt-- {
			n.kids = append(n.kids, mKid{n: g.child(n, k, dense)})
		}
	}
	if g.unknown && !t.inner && g.p(1, 8) {
		at := 0
		if len(n.kids) > 0 {
			at = g.r.IntN(len(n.kids) + 1)
		}
		n.kids = append(n.kids[:at:at], append([]mKid{{n: g.nearElem(t)}}, n.kids[at:]...)...)
	}
	if g.shuffle && g.p(1, 2) {
		g.r.Shuffle(len(n.kids), func(i, j int) { n.kids[i], n.kids[j] = n.kids[j], n.kids[i] })
	}
	if g.mixText && t.text && len(t.kids) > 0 && len(n.kids) > 0 && g.p(1, 2) {
		n.kids = append(n.kids, mKid{text: g.str()})
	}
	return n
}

// child makes one child element k of n.
func (g *gen) child(n *mNode, k *vChild, dense int) *mNode {
	g.budget--
	g.hit(n.typ.name + "/" + k.prefix + ":" + k.name)
	ns := k.ns
	switch ns {
	case "":
		ns = n.ns
		if (ns == nsSCTE35 || ns == nsSCTE2016) && k.typ != "" && (g.p(1, 12) || g.mixNS && g.p(1, 2)) {
			// the two editions of the namespace may be mixed
			ns = []string{nsSCTE35, nsSCTE2016}[g.r.IntN(2)]
		}
	case "@scte":
		ns = g.scteNS
		if g.p(1, 4) {
			ns = []string{nsSCTE35, nsSCTE2016}[g.r.IntN(2)]
		}
	}
	if k.typ == "" {
		l := &mNode{ns: ns, name: k.name, leaf: true}
		if s := g.value("string"); s != "" {
			l.kids = []mKid{{text: s}}
		}
		return l
	}
	if dense > 12 {
		dense -= dense / 5
	}
	return g.elem(ns, k.name, vocab[k.typ], dense)
}

func (g *gen) addAttr(n *mNode, a *vAttr) {
	v := g.value(a.kind)
	n.attrs = append(n.attrs, mAttr{ns: a.ns, name: a.name, value: v, def: a})
	g.hit(n.typ.name + "@" + a.prefix + ":" + a.name)
}

func (g *gen) unknownAttr() mAttr {
	g.uniq++
	ns := []string{"", "urn:zz:one", "http://zz.example/two", "urn:zz:three/"}[g.r.IntN(4)]
	return mAttr{ns: ns, name: fmt.Sprintf("zzAttr%d", g.uniq) + g.longName(), value: g.str()}
}

// longName gives what makes a name long, sometimes.
func (g *gen) longName() string {
	if !g.p(1, 40) {
		return ""
	}
	return strings.Repeat("n", sizeUpTo(g.r, 3000))
}

// nearAttr gives an attribute that is not in the vocabulary of n, often with a name that is like one
// which is, or which is one of another element.
func (g *gen) nearAttr(n *mNode) mAttr {
	a := g.unknownAttr()
	t := n.typ
	if g.p(1, 3) {
		t = vocabList[g.r.IntN(len(vocabList))]
	}
	if len(t.attrs) == 0 || g.p(1, 3) {
		return a
	}
	d := t.attrs[g.r.IntN(len(t.attrs))]
	a.name = d.name
	if t == n.typ || g.p(1, 4) {
		a.name = nearName(g.r, a.name)
	}
	if g.p(1, 2) {
		a.ns = d.ns
	}
	if a.name == "xmlns" || strings.HasPrefix(strings.ToLower(a.name), "xml") {
		return g.unknownAttr()
	}
	for _, b := range n.typ.attrs {
		if b.name == a.name { // in whatever namespace
			return g.unknownAttr()
		}
	}
	for _, b := range n.attrs {
		if b.name == a.name {
			return g.unknownAttr()
		}
	}
	if g.p(1, 2) { // a value that a typed field would take
		a.value = []string{"1", "true", "7", "PT1S", "0"}[g.r.IntN(5)]
	}
	return a
}

// nearElem does the same with a child element.
func (g *gen) nearElem(t *vType) *mNode {
	n := g.unknownElem(2)
	from := t
	if g.p(1, 3) {
		from = vocabList[g.r.IntN(len(vocabList))]
	}
	if len(from.kids) == 0 || g.p(1, 3) {
		return n
	}
	d := from.kids[g.r.IntN(len(from.kids))]
	name := d.name
	if from == t || g.p(1, 4) {
		name = nearName(g.r, name)
	}
	for _, k := range t.kids {
		if k.name == name {
			return n
		}
	}
	n.name = name
	return n
}

func (g *gen) addAny(n *mNode) {
	i := 1 + g.r.IntN(3)
	if g.p(1, 60) {
		i = sizeUpTo(g.r, 600)
	}
	for ; i > 0; i-- {
		n.attrs = append(n.attrs, g.nearAttr(n))
	}
	g.hit(n.typ.name + "@*")
}

var innerSamples = []string{
	"", "text only", " \n ", "<a xmlns=\"urn:in:1\"/>", "<q:a xmlns:q=\"urn:in:2\" q:b=\"1\">x<q:c/>y</q:a>",
	"<a xmlns=\"urn:in:1\"><b xmlns=\"\" c='\"'>&lt;&#x41;</b></a>tail", "<!-- c --><a xmlns=\"urn:in:1\"><![CDATA[<z>]]></a>", "a &amp; b &lt; c",
}

func (g *gen) addInner(n *mNode) {
	if g.onlyZero {
		return
	}
	n.raw = innerSamples[g.r.IntN(len(innerSamples))]
	if g.p(1, 60) {
		n.raw += "<a xmlns=\"urn:in:1\">" + strings.Repeat("x", sizeUpTo(g.r, 131073)) + "</a>"
	}
	g.hit(n.typ.name + "#inner")
}

// unknownElem makes content that is not in the vocabulary: the outermost name is unique, what is
// inside may look like MPD content and must be dropped with it.
func (g *gen) unknownElem(depth int) *mNode {
	g.uniq++
	n := &mNode{unknown: true, name: fmt.Sprintf("zzElem%d", g.uniq) + g.longName(), ns: []string{"", g.dashNS, "urn:zz:one", "http://zz.example/two"}[g.r.IntN(4)]}
	if g.p(1, 2) {
		n.attrs = append(n.attrs, g.unknownAttr())
	}
	if g.p(1, 3) {
		n.attrs = append(n.attrs, mAttr{name: "id", value: "inner"})
	}
	for i := g.r.IntN(3); i > 0; i-- {
		if g.p(1, 3) {
			n.kids = append(n.kids, mKid{text: g.str()})
		} else if depth > 0 {
			k := g.unknownElem(depth - 1)
			if g.p(1, 2) {
				k.name = []string{"Period", "AdaptationSet", "Representation", "BaseURL", "MPD", "Event", n.name}[g.r.IntN(7)]
				k.ns = g.dashNS
			}
			n.kids = append(n.kids, mKid{n: k})
		}
	}
	return n
}

// doc makes a whole model document.
func (g *gen) doc(dense int) *mNode {
	if g.scteNS == "" {
		g.scteNS = []string{nsSCTE35, nsSCTE2016}[g.r.IntN(2)]
	}
	return g.elem(g.dashNS, "MPD", vocab["MPD"], dense)
}

// chain makes the shortest document that has an element of type t, and returns both.
func (g *gen) chain(t *vType) (root, target *mNode) {
	if g.scteNS == "" {
		g.scteNS = []string{nsSCTE35, nsSCTE2016}[g.r.IntN(2)]
	}
	root = &mNode{ns: g.dashNS, name: "MPD", typ: vocab["MPD"]}
	cur := root
	for _, s := range vocabPath[t.name] {
		ns := s.child.ns
		switch ns {
		case "":
			ns = cur.ns
		case "@scte":
			ns = g.scteNS
		}
		n := &mNode{ns: ns, name: s.child.name, typ: vocab[s.child.typ]}
		cur.kids = append(cur.kids, mKid{n: n})
		cur = n
	}
	return root, cur
}

func newGen(r *rand.Rand) *gen {
	return &gen{r: r, budget: 60, hostile: r.IntN(2) == 0, unknown: r.IntN(2) == 0, zero: r.IntN(2) == 0, shuffle: r.IntN(3) == 0,
		lexical: r.IntN(2) == 0, mixText: r.IntN(4) == 0, dashNS: nsDASH}
}

// ---- serialisation with random surface forms ----

type surface struct {
	r      *rand.Rand
	b      strings.Builder
	plain  bool // no surface variation at all
	noRefs bool
	style  int // 0: DASH as default namespace; 1: DASH with a prefix; 2: anything
	seq    int
	noise  int // one in noise places gets white space, a comment or a processing instruction
	up     map[string]bool
}

var commonPrefix = map[string]string{nsDASH: "mpd", nsXlink: "xlink", nsXsi: "xsi", nsCenc: "cenc", nsSCTE35: "scte35", nsSCTE2016: "scte35",
	"urn:microsoft:playready": "mspr", "https://dashif.org/CPS": "dashif", "urn:marlin:mas:1-0:services:schemas:mpd": "mas",
	"urn:scte:dash:scte214-extensions": "scte214", "urn:mpeg:dash:schema:urlparam:2014": "up", "urn:mpeg:dash:schema:urlparam:2016": "up"}

func (s *surface) p(n, d int) bool { return !s.plain && s.r.IntN(d) < n }

func (s *surface) newPrefix(ns string) string {
	if c := commonPrefix[ns]; c != "" && !s.p(1, 3) {
		return c
	}
	s.seq++
	return []string{"p", "ns", "_", "é", "x-y.", "P"}[s.seq%6] + strconv.Itoa(s.seq)
}

func (s *surface) render(root *mNode) string {
	if s.p(1, 3) {
		s.b.WriteString([]string{"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version='1.0'?>", "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>\r\n"}[s.r.IntN(3)])
	}
	s.misc()
	s.elem(root, map[string]string{"xml": infoset.XMLNS})
	s.misc()
	return s.b.String()
}

func (s *surface) misc() {
	if s.noise == 0 || !s.p(1, s.noise) {
		return
	}
	s.b.WriteString([]string{"\n", "  ", "<!-- c -->", "<?pi data?>", "\t", "<!--<Period>-->", "\r\n", "<?x?>", "<!---->"}[s.r.IntN(9)])
}

// commentOnly is noise that is not white space, for places where white space is content.
func (s *surface) commentOnly() {
	if s.noise == 0 || !s.p(1, s.noise) {
		return
	}
	s.b.WriteString([]string{"<!-- c -->", "<?pi data?>", "<!--&<x>-->", "<![CDATA[]]>"}[s.r.IntN(4)])
}

func (s *surface) ref(c rune) string {
	zeros := ""
	if s.p(1, 6) {
		zeros = strings.Repeat("0", 1+s.r.IntN(40))
	}
	if s.p(1, 2) {
		return fmt.Sprintf("&#%s%d;", zeros, c)
	}
	if s.p(1, 2) {
		return fmt.Sprintf("&#x%s%X;", zeros, c)
	}
	return fmt.Sprintf("&#x%s%x;", zeros, c)
}

func (s *surface) attrText(v string, q byte) string {
	var b strings.Builder
	for _, c := range v {
		switch {
		case c == '<':
			b.WriteString([]string{"&lt;", s.ref(c)}[s.r.IntN(2)])
		case c == '&':
			b.WriteString([]string{"&amp;", s.ref(c)}[s.r.IntN(2)])
		case c == rune(q):
			if c == '"' {
				b.WriteString([]string{"&quot;", s.ref(c)}[s.r.IntN(2)])
			} else {
				b.WriteString([]string{"&apos;", s.ref(c)}[s.r.IntN(2)])
			}
		case c == '\n' || c == '\t' || c == '\r':
			b.WriteString(s.ref(c))
		case c == '>' && s.p(1, 2):
			b.WriteString("&gt;")
		case s.p(1, 40):
			b.WriteString(s.ref(c))
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

func (s *surface) text(v string) {
	if s.p(1, 6) && !strings.Contains(v, "]]>") && !strings.Contains(v, "\r") {
		s.b.WriteString("<![CDATA[" + v + "]]>")
		return
	}
	for i, c := range v {
		switch {
		case c == '<':
			s.b.WriteString([]string{"&lt;", s.ref(c)}[s.r.IntN(2)])
		case c == '&':
			s.b.WriteString([]string{"&amp;", s.ref(c)}[s.r.IntN(2)])
		case c == '>' && (strings.HasPrefix(v[max(0, i-2):], "]]>") || s.p(1, 2)):
			s.b.WriteString("&gt;")
		case c == '\r':
			s.b.WriteString(s.ref(c))
		case c == '\n' && s.p(1, 8):
			s.b.WriteString("\r\n") // a line end of the document, read as \n
		case s.p(1, 40):
			s.b.WriteString(s.ref(c))
		default:
			s.b.WriteRune(c)
		}
		if often := strings.ContainsRune("/:;=&<>,.-", c); s.p(1, 100) || often && len(v) > 8 && s.p(1, 20) {
			s.commentOnly()
		}
	}
}

func (s *surface) elem(n *mNode, scope map[string]string) {
	sc := make(map[string]string, len(scope)+2)
	for k, v := range scope {
		sc[k] = v
	}
	var decls [][2]string
	declare := func(prefix, uri string) {
		sc[prefix] = uri
		decls = append(decls, [2]string{prefix, uri})
	}
	locked := map[string]bool{} // prefixes already used on this element
	find := func(ns string, attr bool) (string, bool) {
		var cands []string
		for p, u := range sc {
			if u == ns && p != "xml" && !(attr && p == "") {
				cands = append(cands, p)
			}
		}
		if len(cands) == 0 {
			return "", false
		}
		// map order is random: choose deterministically
		best := cands[0]
		for _, c := range cands[1:] {
			if c < best {
				best = c
			}
		}
		if len(cands) > 1 && s.p(1, 3) {
			best = cands[0]
			for _, c := range cands[1:] {
				if c > best {
					best = c
				}
			}
		}
		return best, true
	}
	// redundant or new declarations
	if s.p(1, 12) {
		ns := []string{nsXlink, nsSCTE35, nsCenc, "urn:unused:1"}[s.r.IntN(4)]
		p := s.newPrefix(ns)
		if _, used := sc[p]; !used {
			declare(p, ns)
		}
	}
	prefix := ""
	if n.ns == "" {
		if sc[""] != "" {
			declare("", "")
		}
	} else {
		p, ok := find(n.ns, false)
		if !ok || s.p(1, 10) {
			// declare it here
			asDefault := s.style == 0 || s.style == 2 && s.r.IntN(2) == 0
			if n.ns != nsDASH && !s.plain {
				asDefault = s.r.IntN(2) == 0
			}
			if n.leaf || n.unknown {
				asDefault = false
			}
			p = ""
			if !asDefault {
				p = s.newPrefix(n.ns)
				for _, d := range decls {
					if d[0] == p {
						p += "x"
					}
				}
			}
			dup := false
			for _, d := range decls {
				dup = dup || d[0] == p
			}
			if !dup {
				declare(p, n.ns)
			}
		}
		prefix = p
	}
	locked[prefix] = true
	var attrs []string
	for _, a := range n.attrs {
		name := a.name
		if a.ns != "" {
			p, ok := find(a.ns, true)
			if !ok {
				p = s.newPrefix(a.ns)
				for locked[p] {
					p += "y"
				}
				declare(p, a.ns)
			}
			locked[p] = true
			name = p + ":" + name
		}
		q := byte('"')
		if s.p(1, 4) {
			q = '\''
		}
		eq := "="
		if s.p(1, 20) {
			eq = " = "
		}
		attrs = append(attrs, name+eq+string(q)+s.attrText(a.value, q)+string(q))
	}
	for _, d := range decls {
		name := "xmlns"
		if d[0] != "" {
			name += ":" + d[0]
		}
		attrs = append(attrs, name+`="`+s.attrText(d[1], '"')+`"`)
	}
	if !s.plain {
		s.r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	}
	tag := n.name
	if prefix != "" {
		tag = prefix + ":" + n.name
	}
	s.b.WriteString("<" + tag)
	for _, a := range attrs {
		s.b.WriteString([]string{" ", " ", "\n", "\t ", "\r\n  "}[func() int {
			if s.plain {
				return 0
			}
			return s.r.IntN(5)
		}()])
		s.b.WriteString(a)
	}
	if len(n.kids) == 0 && n.raw == "" && (s.plain || s.r.IntN(2) == 0) {
		s.b.WriteString([]string{"/>", " />"}[func() int {
			if s.p(1, 4) {
				return 1
			}
			return 0
		}()])
		return
	}
	s.b.WriteString(">")
	if n.raw != "" {
		s.b.WriteString(n.raw)
	} else {
		content := n.leaf || n.typ != nil && n.typ.text || n.typ != nil && n.typ.inner
		for _, k := range n.kids {
			if content {
				s.commentOnly()
			} else {
				s.misc()
			}
			if k.n != nil {
				s.elem(k.n, sc)
			} else {
				s.text(k.text)
			}
		}
		if content {
			s.commentOnly()
		} else {
			s.misc()
		}
	}
	s.b.WriteString("</" + tag)
	if s.p(1, 12) {
		s.b.WriteString(" ")
	}
	s.b.WriteString(">")
}

func newSurface(r *rand.Rand) *surface {
	return &surface{r: r, style: r.IntN(3), noise: []int{0, 3, 10}[r.IntN(3)]}
}
