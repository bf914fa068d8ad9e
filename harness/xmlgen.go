package main

import (
	stdxml "encoding/xml"
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/Eyevinn/dash-mpd/xml"
)

// xgen writes small documents that use every part of XML, for the xml package alone.
type xgen struct {
	r      *rand.Rand
	b      strings.Builder
	html   bool // things only a lenient decoder takes
	budget int
	names  []string
	scope  []string
}

func (g *xgen) p(n, d int) bool { return g.r.IntN(d) < n }

func (g *xgen) one(l ...string) string { return l[g.r.IntN(len(l))] }

func (g *xgen) name() string {
	if g.p(1, 12) {
		return g.one("é", "名前", "a.b", "_", "a-1", "x\u00b7y", "A", "xmlx", "À", strings.Repeat("n", 1+g.r.IntN(200)))
	}
	return g.names[g.r.IntN(len(g.names))]
}

func (g *xgen) qname(attr bool) string {
	n := g.name()
	if g.p(2, 5) {
		pre := g.one("p", "q", "r", "p", "undeclared", "xml")
		if len(g.scope) > 0 && g.p(4, 5) {
			pre = g.scope[g.r.IntN(len(g.scope))]
		}
		return pre + ":" + n
	}
	return n
}

func (g *xgen) sp() {
	if g.p(1, 6) {
		g.b.WriteString(g.one(" ", "\n", "\t", "\r\n", "  ", "\r"))
	}
}

func (g *xgen) text(attr bool) {
	for i := g.r.IntN(4); i > 0; i-- {
		switch g.r.IntN(9) {
		case 0:
			g.b.WriteString(g.one("&lt;", "&amp;", "&gt;", "&quot;", "&apos;"))
		case 1:
			g.b.WriteString(g.one("&#65;", "&#x1F600;", "&#xA;", "&#13;", "&#x9;", "&#x10FFFF;", "&#0065;", "&#"+strings.Repeat("0", 1+g.r.IntN(60))+"65;", "&#x"+strings.Repeat("0", 1+g.r.IntN(60))+"e9;"))
		case 2:
			g.b.WriteString(g.one("\n", "\r\n", "\r", "\r\r\n", "\n\r", "\t", " "))
		case 3:
			g.b.WriteString(g.one("é", "日本", "😀", "\u0085", "\u2028", "\ufffd"))
		case 4:
			if g.html {
				g.b.WriteString(g.one("&nbsp;", "&copy", "&", "& ", "&unknown;", "&#;", "&#xZ;", "&;", "&é;", "&nbsp", "&#1114112;", "&#x110000;", "&#4294967361;", "&#x100000041;", "&#18446744073709551681;", "&#99999999999999999999999;", "&#-65;", "&#+65;", "&#0x41;", "&#6_5;", "&# 65;", "&#65 ;", "&#x;"))
			} else if !attr {
				g.b.WriteString(g.one("'", "\"", "]]", "]", ">"))
			}
		case 5:
			if g.p(1, 20) {
				g.b.WriteString(strings.Repeat(g.one("long ", "x", "\r\n"), g.r.IntN(3000)))
			}
		default:
			g.b.WriteString(g.one("text", "a b", "1", "x=y", "%"))
		}
	}
}

func (g *xgen) attr(name string) {
	g.b.WriteString(g.one(" ", " ", "\n", "\t ", "\r\n"))
	g.b.WriteString(name)
	if g.html && g.p(1, 6) {
		return
	}
	g.sp()
	g.b.WriteByte('=')
	g.sp()
	if g.html && g.p(1, 6) {
		g.b.WriteString(g.one("1", "abc", "a:b-c_d", "9z"))
		return
	}
	q := g.one("\"", "'")
	g.b.WriteString(q)
	if name == "xmlns" || strings.HasPrefix(name, "xmlns:") {
		if g.p(1, 15) || name == "xmlns" && g.p(1, 5) {
			// undeclared
		} else {
			g.b.WriteString(g.one("urn:a", "urn:b", "urn:c", "http://x/y/", "urn:a", "u&amp;v"))
		}
	} else {
		g.text(true)
	}
	g.b.WriteString(q)
}

func (g *xgen) misc() {
	switch g.r.IntN(6) {
	case 0:
		g.b.WriteString("<!--" + g.one("", " c ", "-", "a-b", "<a>", "\r\n", "é", "- -") + g.one("", "x") + "-->")
	case 1:
		g.b.WriteString("<?" + g.one("pi", "x-y", "a:b", "é") + g.one("", " ", " data ", "  <?x ", "\r\n? >") + "?>")
	case 2:
		g.b.WriteString(g.one("<!D>", "<!DOCTYPE a>", "<!DOCTYPE a [<!ENTITY x \"]>\">]>", "<!D '>' \"<\">", "<!D [<!-- > ' -->]>", "<!a<b<c>>>", "<!D <!--x-->>", "<!ELEMENT a (b|c)*>", "<!D\r\n'\r'>"))
	}
}

func (g *xgen) elem(depth int) {
	g.budget--
	scope := len(g.scope)
	var decls []string
	for i := g.r.IntN(3); i > 0 && g.p(1, 2); i-- {
		d := g.one("xmlns", "xmlns:p", "xmlns:q", "xmlns:r", "xmlns:p2")
		decls = append(decls, d)
		if d != "xmlns" {
			g.scope = append(g.scope, d[6:])
		}
	}
	n := g.qname(false)
	g.b.WriteString("<" + n)
	attrs := decls
	for i := g.r.IntN(4); i > 0; i-- {
		attrs = append(attrs, g.qname(true))
	}
	g.r.Shuffle(len(attrs), func(i, j int) { attrs[i], attrs[j] = attrs[j], attrs[i] })
	for _, a := range attrs {
		g.attr(a)
	}
	g.sp()
	if g.p(1, 4) {
		g.b.WriteString("/>")
		g.scope = g.scope[:scope]
		return
	}
	g.b.WriteString(">")
	for i := g.r.IntN(5); i > 0; i-- {
		switch {
		case depth < 8 && g.budget > 0 && g.p(1, 2):
			g.elem(depth + 1)
		case g.p(1, 6):
			g.misc()
		case g.p(1, 8):
			g.b.WriteString("<![CDATA[" + g.one("", "<a>&amp;", "]]", "]]]", "\r\nx", "é", "]>") + g.one("", "x") + "]]>")
		case g.html && g.p(1, 5):
			g.b.WriteString(g.one("<br>", "<BR>", "<br/>", "<br a=1>", "<hr>", "</br>", "<br></br>"))
		default:
			g.text(false)
		}
	}
	g.scope = g.scope[:scope]
	if g.html && g.p(1, 12) {
		return
	}
	if g.p(1, 80) {
		n = nearName(g.r, n)
	}
	g.b.WriteString("</" + n + g.one("", "", "", " ", "\n") + ">")
}

func newXgen(r *rand.Rand) *xgen {
	g := &xgen{r: r, budget: 1 + r.IntN(25), names: []string{"a", "b", "c", "item", "Long-Name"}}
	if r.IntN(40) == 0 {
		// more names than any table of names holds
		for i := 0; i < 1500; i++ {
			g.names = append(g.names, fmt.Sprintf("n%d", i))
		}
		g.budget = 1200
	}
	return g
}

func (g *xgen) doc() string {
	if g.p(1, 4) {
		g.b.WriteString(g.one("<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8'?>", "<?xml version=\"1.0\" encoding=\"utf-8\" standalone='yes'?>\n", "<?xml version=\"1.0\" encoding=\"latin\"?>", "<?xml version=\"1.1\"?>", "<?xml?>", "<?xml encoding=\"x\"?>"))
	}
	g.sp()
	if g.p(1, 4) {
		g.misc()
	}
	for {
		g.elem(0)
		if g.budget <= 0 || g.p(1, 2) && g.budget < 100 {
			break
		}
	}
	if g.p(1, 4) {
		g.misc()
	}
	g.sp()
	return g.b.String()
}

// damage changes a text at random places.
func damage(r *rand.Rand, s string) string {
	b := []byte(s)
	for k := 1 + r.IntN(3); k > 0; k-- {
		i := r.IntN(len(b) + 1)
		switch r.IntN(6) {
		case 0:
			b = b[:i]
		case 1:
			if i < len(b) {
				b = append(b[:i:i], b[i+1:]...)
			}
		case 2:
			b = append(b[:i:i], append([]byte(soup[r.IntN(len(soup))]), b[i:]...)...)
		case 3:
			if i < len(b) {
				b[i] = "<>/=\"'&;!?-[]:ax \n#\x00\xff\xc3"[r.IntN(22)]
			}
		case 4:
			j := min(len(b), i+r.IntN(20))
			b = append(b[:i:i], b[j:]...)
		case 5:
			j := min(len(b), i+r.IntN(20))
			b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		}
	}
	return string(b)
}

func nameStr(space, local string) string { return "{" + space + "}" + local }

func tokStr(t xml.Token) string {
	switch x := t.(type) {
	case xml.StartElement:
		s := "<" + nameStr(x.Name.Space, x.Name.Local)
		for _, a := range x.Attr {
			s += fmt.Sprintf(" %s=%q", nameStr(a.Name.Space, a.Name.Local), a.Value)
		}
		return s
	case xml.EndElement:
		return "</" + nameStr(x.Name.Space, x.Name.Local)
	case xml.CharData:
		return fmt.Sprintf("text %q", string(x))
	case xml.Comment:
		return fmt.Sprintf("comment %q", string(x))
	case xml.ProcInst:
		return fmt.Sprintf("pi %s %q", x.Target, string(x.Inst))
	case xml.Directive:
		return fmt.Sprintf("directive %q", string(x))
	}
	return fmt.Sprintf("%T", t)
}

// stdName maps a name as encoding/xml resolves it to the documented form of this package.
func stdName(n stdxml.Name, raw bool) string {
	if !raw && n.Space == "xmlns" {
		return nameStr("http://www.w3.org/2000/xmlns/", n.Local)
	}
	return nameStr(n.Space, n.Local)
}

func stdTokStr(t stdxml.Token, raw bool) string {
	switch x := t.(type) {
	case stdxml.StartElement:
		s := "<" + stdName(x.Name, raw)
		for _, a := range x.Attr {
			s += fmt.Sprintf(" %s=%q", stdName(a.Name, raw), a.Value)
		}
		return s
	case stdxml.EndElement:
		return "</" + stdName(x.Name, raw)
	case stdxml.CharData:
		return tokStr(xml.CharData(x))
	case stdxml.Comment:
		return tokStr(xml.Comment(x))
	case stdxml.ProcInst:
		return tokStr(xml.ProcInst{Target: x.Target, Inst: x.Inst})
	case stdxml.Directive:
		return tokStr(xml.Directive(x))
	}
	return fmt.Sprintf("%T", t)
}

// divergent reports whether a token is one that this package, by its documentation, refuses.
func divergent(t stdxml.Token, raw bool) bool {
	bad := func(n stdxml.Name) bool { return strings.Contains(n.Local, ":") }
	switch x := t.(type) {
	case stdxml.StartElement:
		if bad(x.Name) {
			return true
		}
		for _, a := range x.Attr {
			if bad(a.Name) || !raw && a.Name.Space == "xmlns" && a.Value == "" {
				return true
			}
		}
	case stdxml.EndElement:
		return bad(x.Name)
	}
	return false
}

// errStr classifies an error: its kind and, for a syntax error, its line.
func errStr(err error) string {
	switch x := err.(type) {
	case nil:
		return ""
	case *xml.SyntaxError:
		return fmt.Sprintf("syntax error on line %d", x.Line)
	case *stdxml.SyntaxError:
		return fmt.Sprintf("syntax error on line %d", x.Line)
	}
	return err.Error()
}

// enlarge puts very many of something, or something very long, before, around or after a document.
func enlarge(r *rand.Rand, doc string) string {
	n := sizeUpTo(r, 131073)
	one := func(l ...string) string { return l[r.IntN(len(l))] }
	many := func(max int, f func(i int) string) string {
		var b strings.Builder
		for i := 0; i < min(n, max); i++ {
			b.WriteString(f(i))
		}
		return b.String()
	}
	switch r.IntN(14) {
	case 0: // lines or columns
		sp := strings.Repeat(one("\n", " ", "\r\n", "\n\n ", "\t"), n)
		return one(sp+doc, "<a>"+sp+doc+"</a>", "<!--"+sp+"-->"+doc, "<a b='"+sp+"'>"+doc+"</a>", "<a><![CDATA["+sp+"]]>"+doc+"</a>", "<?x "+sp+"?>"+doc, "<!D '"+sp+"'>"+doc, "<a"+sp+">"+doc+"</a>")
	case 1: // depth
		open := one("<a>", "<p:a xmlns:p='urn:p'>", "<a xmlns='urn:d'>", "<b x='1'>")
		if r.IntN(3) == 0 {
			return many(20000, func(i int) string { return fmt.Sprintf("<p%d:a xmlns:p%d='urn:%d'>", i%300, i%300, i) }) + doc +
				many(20000, func(i int) string { return fmt.Sprintf("</p%d:a>", (min(n, 20000)-1-i)%300) })
		}
		return strings.Repeat(open, n) + doc + strings.Repeat("</"+strings.Trim(strings.Fields(open)[0], "<>")+">", n-r.IntN(2)*r.IntN(2))
	case 2: // declarations, and what they are for
		return "<a>" + "<b" + many(5000, func(i int) string { return fmt.Sprintf(" xmlns:p%d='urn:%d'", i, i%7) }) + ">" + doc + "<p1:x p2:y='' p999:z=''/></b><p1:x p2:y='' p1999:z=''/>" + doc + "</a>"
	case 3: // attributes
		return "<a" + many(5000, func(i int) string { return fmt.Sprintf(" a%d='%d'", i, i) }) + ">" + doc + "</a>"
	case 4: // elements one after the other
		return "<a>" + many(200000, func(i int) string { return "<b/>"[:4] }) + doc + "</a>"
	case 5: // names
		return "<a>" + many(20000, func(i int) string { return fmt.Sprintf("<n%d q%d:x='1'/>", i, i) }) + doc + "</a>"
	case 6: // references in one text
		return "<a>" + strings.Repeat(one("&lt;", "&#65;", "a&amp;", "&gt;]]"), n) + doc + "</a>"
	case 7: // a long name
		s := strings.Repeat(one("n", "é", "n-"), n)
		if r.IntN(3) == 0 { // the end tag has another name, which differs somewhere
			i := r.IntN(n) * (len(s) / n)
			e := one(s[:i]+"o"+s[i:], s[:i]+s[i+len(s)/n:], s[:i]+"o"+s[i+len(s)/n:])
			return one("<"+s+">"+doc+"</"+e+">", "<"+s+"b>"+doc+"</"+s+"c>", "<"+s+":a xmlns:"+s+"='urn:x'>"+doc+"</"+e+":a>", "<a:"+s+" xmlns:a='urn:x'>"+doc+"</a:"+e+">")
		}
		return one("<"+s+">"+doc+"</"+s+">", "<a "+s+"='1'>"+doc+"</a>", "<"+s+":a xmlns:"+s+"='urn:x'>"+doc+"</"+s+":a>", "<?"+s+" x?>"+doc)
	case 8: // long texts
		s := strings.Repeat(one("x", "é", "漢", "]", "] ", "-", "- ", "?"), n)
		return one("<a>"+s+doc+"</a>", "<a b='"+s+"'>"+doc+"</a>", "<!--"+s+"-->"+doc, "<a><![CDATA["+s+"]]>"+doc+"</a>", "<?x "+s+"?>"+doc, "<!D '"+s+"'>"+doc)
	case 9: // a directive with brackets in it
		return "<!D " + strings.Repeat("<x>", n) + strings.Repeat("<", n) + strings.Repeat(">", n) + ">" + doc
	case 10: // comments and instructions
		return strings.Repeat(one("<!---->", "<!--c-->", "<?p?>", "<!D>"), n) + doc
	case 11: // pieces of a text
		return "<a>" + strings.Repeat(one("x<!--c-->", "<![CDATA[x]]>", "x<?p?>", "<b/>\n"), n) + doc + "</a>"
	case 12: // declarations that come and go
		return "<a>" + many(20000, func(i int) string { return fmt.Sprintf("<p:b xmlns:p='urn:%d'><p:c/></p:b><p:d/>", i) }) + doc + "</a>"
	}
	return strings.Repeat(doc, max(1, min(n, 300000/(len(doc)+1))))
}
