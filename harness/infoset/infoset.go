// Package infoset is a strict, namespace-aware XML 1.0 reader written for this harness only.
// It shares no code with the package under test nor with encoding/xml, and rejects every
// document that is not well-formed or not namespace-well-formed.
package infoset

import (
	"fmt"
	"sort"
	"strings"
	"unicode/utf8"
)

const (
	XMLNS   = "http://www.w3.org/XML/1998/namespace"
	XMLNSNS = "http://www.w3.org/2000/xmlns/"
)

// Attr is an attribute which is not a namespace declaration.
type Attr struct {
	NS, Local, Value string
}

// Node is an element. Kids are in document order.
type Node struct {
	NS, Local, Prefix string
	Attrs             []Attr
	AttrPrefix        []string // the prefixes of Attrs
	Kids              []Kid
	Decls             []Attr // namespace declarations: Local is the prefix ("" for the default)
}

// Kid is an element or, if Node is nil, character data (never empty; adjacent data is merged).
type Kid struct {
	Node *Node
	Text string
}

type parser struct {
	s   string
	pos int
}

func (p *parser) err(f string, a ...any) error {
	return fmt.Errorf("offset %d: %s", p.pos, fmt.Sprintf(f, a...))
}

// Parse reads one complete document.
func Parse(s string) (*Node, error) {
	if !utf8.ValidString(s) {
		return nil, fmt.Errorf("invalid UTF-8")
	}
	for i, r := range s {
		if !IsChar(r) {
			return nil, fmt.Errorf("offset %d: illegal character %U", i, r)
		}
	}
	s = strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
	p := &parser{s: s}
	if strings.HasPrefix(p.s, "\ufeff") {
		p.pos = 3
	}
	if strings.HasPrefix(p.s[p.pos:], "<?xml") && len(p.s) > p.pos+5 && isSpace(p.s[p.pos+5]) {
		i := strings.Index(p.s[p.pos:], "?>")
		if i < 0 {
			return nil, p.err("unterminated XML declaration")
		}
		p.pos += i + 2
	}
	var root *Node
	for p.pos < len(p.s) {
		switch {
		case isSpace(p.s[p.pos]):
			p.pos++
		case strings.HasPrefix(p.s[p.pos:], "<!--"), strings.HasPrefix(p.s[p.pos:], "<?"):
			if err := p.misc(); err != nil {
				return nil, err
			}
		case p.s[p.pos] == '<':
			if root != nil {
				return nil, p.err("second root element or markup after the root")
			}
			n, err := p.element(map[string]string{"xml": XMLNS})
			if err != nil {
				return nil, err
			}
			root = n
		default:
			return nil, p.err("character data outside the root element")
		}
	}
	if root == nil {
		return nil, p.err("no root element")
	}
	return root, nil
}

func isSpace(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\r' }

// IsChar reports whether r is an XML 1.0 Char.
func IsChar(r rune) bool {
	return r == 9 || r == 10 || r == 13 || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF
}

func nameStart(r rune) bool {
	switch {
	case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r == '_':
		return true
	case r < 0x80:
		return false
	}
	return r >= 0xC0 && r <= 0xD6 || r >= 0xD8 && r <= 0xF6 || r >= 0xF8 && r <= 0x2FF || r >= 0x370 && r <= 0x37D ||
		r >= 0x37F && r <= 0x1FFF || r >= 0x200C && r <= 0x200D || r >= 0x2070 && r <= 0x218F || r >= 0x2C00 && r <= 0x2FEF ||
		r >= 0x3001 && r <= 0xD7FF || r >= 0xF900 && r <= 0xFDCF || r >= 0xFDF0 && r <= 0xFFFD || r >= 0x10000 && r <= 0xEFFFF
}

func nameChar(r rune) bool {
	return nameStart(r) || r >= '0' && r <= '9' || r == '-' || r == '.' || r == 0xB7 || r >= 0x300 && r <= 0x36F || r >= 0x203F && r <= 0x2040
}

func (p *parser) ncname() (string, error) {
	st := p.pos
	for p.pos < len(p.s) {
		r, n := utf8.DecodeRuneInString(p.s[p.pos:])
		if p.pos == st && !nameStart(r) || !nameChar(r) {
			break
		}
		p.pos += n
	}
	if p.pos == st {
		return "", p.err("name expected")
	}
	return p.s[st:p.pos], nil
}

func (p *parser) qname() (prefix, local string, err error) {
	local, err = p.ncname()
	if err != nil {
		return
	}
	if p.pos < len(p.s) && p.s[p.pos] == ':' {
		p.pos++
		prefix = local
		local, err = p.ncname()
	}
	return
}

// misc skips a comment or a processing instruction.
func (p *parser) misc() error {
	if strings.HasPrefix(p.s[p.pos:], "<!--") {
		i := strings.Index(p.s[p.pos+4:], "--")
		if i < 0 || !strings.HasPrefix(p.s[p.pos+4+i:], "-->") {
			return p.err("bad comment")
		}
		p.pos += 4 + i + 3
		return nil
	}
	p.pos += 2
	name, err := p.ncname()
	if err != nil {
		return err
	}
	if strings.EqualFold(name, "xml") {
		return p.err("reserved processing instruction target")
	}
	i := strings.Index(p.s[p.pos:], "?>")
	if i < 0 || i > 0 && !isSpace(p.s[p.pos]) {
		return p.err("bad processing instruction")
	}
	p.pos += i + 2
	return nil
}

func (p *parser) space() bool {
	st := p.pos
	for p.pos < len(p.s) && isSpace(p.s[p.pos]) {
		p.pos++
	}
	return p.pos > st
}

func (p *parser) reference() (string, error) {
	i := strings.IndexByte(p.s[p.pos:], ';')
	if i < 0 {
		return "", p.err("unterminated reference")
	}
	ref := p.s[p.pos+1 : p.pos+i]
	switch ref {
	case "lt", "gt", "amp", "quot", "apos":
		p.pos += i + 1
		return map[string]string{"lt": "<", "gt": ">", "amp": "&", "quot": `"`, "apos": "'"}[ref], nil
	}
	if len(ref) < 2 || ref[0] != '#' {
		return "", p.err("undefined entity &%s;", ref)
	}
	base, digits := 10, ref[1:]
	if digits[0] == 'x' {
		base, digits = 16, digits[1:]
	}
	if digits == "" {
		return "", p.err("bad character reference")
	}
	v := 0
	for _, c := range []byte(digits) {
		d := 99
		switch {
		case c >= '0' && c <= '9':
			d = int(c - '0')
		case c >= 'a' && c <= 'f':
			d = int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			d = int(c-'A') + 10
		}
		if d >= base {
			return "", p.err("bad character reference &%s;", ref)
		}
		v = v*base + d
		if v > 0x10FFFF {
			return "", p.err("character reference out of range")
		}
	}
	if !IsChar(rune(v)) {
		return "", p.err("illegal character reference &%s;", ref)
	}
	p.pos += i + 1
	return string(rune(v)), nil
}

type rawAttr struct{ prefix, local, value string }

func (p *parser) attrValue() (string, error) {
	if p.pos >= len(p.s) || p.s[p.pos] != '"' && p.s[p.pos] != '\'' {
		return "", p.err("quoted attribute value expected")
	}
	q := p.s[p.pos]
	p.pos++
	var b strings.Builder
	for {
		if p.pos >= len(p.s) {
			return "", p.err("unterminated attribute value")
		}
		c := p.s[p.pos]
		switch {
		case c == q:
			p.pos++
			return b.String(), nil
		case c == '<':
			return "", p.err("< in attribute value")
		case c == '&':
			r, err := p.reference()
			if err != nil {
				return "", err
			}
			b.WriteString(r)
		case isSpace(c):
			b.WriteByte(' ') // attribute-value normalisation
			p.pos++
		default:
			b.WriteByte(c)
			p.pos++
		}
	}
}

// element parses an element without recursion on the Go stack deeper than the nesting.
func (p *parser) element(scope map[string]string) (*Node, error) {
	p.pos++ // <
	prefix, local, err := p.qname()
	if err != nil {
		return nil, err
	}
	n := &Node{Local: local, Prefix: prefix}
	var raw []rawAttr
	empty := false
	for {
		sp := p.space()
		if p.pos >= len(p.s) {
			return nil, p.err("unterminated start tag")
		}
		if p.s[p.pos] == '>' {
			p.pos++
			break
		}
		if strings.HasPrefix(p.s[p.pos:], "/>") {
			p.pos += 2
			empty = true
			break
		}
		if !sp {
			return nil, p.err("space expected between attributes")
		}
		ap, al, err := p.qname()
		if err != nil {
			return nil, err
		}
		p.space()
		if p.pos >= len(p.s) || p.s[p.pos] != '=' {
			return nil, p.err("= expected after attribute name")
		}
		p.pos++
		p.space()
		v, err := p.attrValue()
		if err != nil {
			return nil, err
		}
		for _, r := range raw {
			if r.prefix == ap && r.local == al {
				return nil, p.err("duplicate attribute %s:%s", ap, al)
			}
		}
		raw = append(raw, rawAttr{ap, al, v})
	}
	copied := false
	bind := func(pre, uri string) {
		if !copied {
			c := make(map[string]string, len(scope)+1)
			for k, v := range scope {
				c[k] = v
			}
			scope, copied = c, true
		}
		scope[pre] = uri
		n.Decls = append(n.Decls, Attr{Local: pre, Value: uri})
	}
	for _, r := range raw {
		switch {
		case r.prefix == "" && r.local == "xmlns":
			if r.value == XMLNS || r.value == XMLNSNS {
				return nil, p.err("reserved namespace as default")
			}
			bind("", r.value)
		case r.prefix == "xmlns":
			if r.local == "xmlns" || r.value == "" || r.value == XMLNSNS || (r.local == "xml") != (r.value == XMLNS) {
				return nil, p.err("illegal namespace declaration xmlns:%s=%q", r.local, r.value)
			}
			bind(r.local, r.value)
		}
	}
	if prefix == "xmlns" {
		return nil, p.err("element with prefix xmlns")
	}
	uri, ok := scope[prefix]
	if !ok && prefix != "" {
		return nil, p.err("undeclared prefix %q of element %q", prefix, local)
	}
	n.NS = uri
	for _, r := range raw {
		if r.prefix == "xmlns" || r.prefix == "" && r.local == "xmlns" {
			continue
		}
		a := Attr{Local: r.local, Value: r.value}
		if r.prefix != "" {
			if a.NS, ok = scope[r.prefix]; !ok {
				return nil, p.err("undeclared prefix %q of attribute %q", r.prefix, r.local)
			}
		}
		for _, b := range n.Attrs {
			if b.NS == a.NS && b.Local == a.Local {
				return nil, p.err("duplicate attribute {%s}%s", a.NS, a.Local)
			}
		}
		n.Attrs = append(n.Attrs, a)
		n.AttrPrefix = append(n.AttrPrefix, r.prefix)
	}
	if empty {
		return n, nil
	}
	var text strings.Builder
	flush := func() {
		if text.Len() > 0 {
			n.Kids = append(n.Kids, Kid{Text: text.String()})
			text.Reset()
		}
	}
	for {
		if p.pos >= len(p.s) {
			return nil, p.err("element %s not closed", local)
		}
		rest := p.s[p.pos:]
		switch {
		case strings.HasPrefix(rest, "</"):
			p.pos += 2
			ep, el, err := p.qname()
			if err != nil {
				return nil, err
			}
			p.space()
			if p.pos >= len(p.s) || p.s[p.pos] != '>' {
				return nil, p.err("malformed end tag")
			}
			p.pos++
			if ep != prefix || el != local {
				return nil, p.err("end tag %s:%s does not match %s:%s", ep, el, prefix, local)
			}
			flush()
			return n, nil
		case strings.HasPrefix(rest, "<![CDATA["):
			i := strings.Index(rest, "]]>")
			if i < 0 {
				return nil, p.err("unterminated CDATA section")
			}
			text.WriteString(rest[9:i])
			p.pos += i + 3
		case strings.HasPrefix(rest, "<!--"), strings.HasPrefix(rest, "<?"):
			if err := p.misc(); err != nil {
				return nil, err
			}
		case rest[0] == '<':
			flush()
			k, err := p.element(scope)
			if err != nil {
				return nil, err
			}
			n.Kids = append(n.Kids, Kid{Node: k})
		case rest[0] == '&':
			r, err := p.reference()
			if err != nil {
				return nil, err
			}
			text.WriteString(r)
		case strings.HasPrefix(rest, "]]>"):
			return nil, p.err("]]> in character data")
		default:
			text.WriteByte(rest[0])
			p.pos++
		}
	}
}

// Text returns the concatenated character data directly inside n.
func (n *Node) Text() string {
	var b strings.Builder
	for _, k := range n.Kids {
		b.WriteString(k.Text)
	}
	return b.String()
}

// Elems returns the child elements of n in document order.
func (n *Node) Elems() []*Node {
	var out []*Node
	for _, k := range n.Kids {
		if k.Node != nil {
			out = append(out, k.Node)
		}
	}
	return out
}

// Attr returns the value of an attribute.
func (n *Node) Attr(ns, local string) (string, bool) {
	for _, a := range n.Attrs {
		if a.NS == ns && a.Local == local {
			return a.Value, true
		}
	}
	return "", false
}

// Canon renders n in a canonical form (expanded names, sorted attributes, merged text).
// If dropSpace is set, whitespace-only text is left out.
func (n *Node) Canon(dropSpace bool) string {
	var b strings.Builder
	n.canon(&b, dropSpace)
	return b.String()
}

func (n *Node) canon(b *strings.Builder, dropSpace bool) {
	fmt.Fprintf(b, "<{%s}%s", n.NS, n.Local)
	as := append([]Attr(nil), n.Attrs...)
	sort.Slice(as, func(i, j int) bool {
		if as[i].NS != as[j].NS {
			return as[i].NS < as[j].NS
		}
		return as[i].Local < as[j].Local
	})
	for _, a := range as {
		fmt.Fprintf(b, " {%s}%s=%q", a.NS, a.Local, a.Value)
	}
	b.WriteByte('>')
	for _, k := range n.Kids {
		if k.Node != nil {
			k.Node.canon(b, dropSpace)
		} else if !dropSpace || strings.TrimSpace(k.Text) != "" {
			fmt.Fprintf(b, "%q", k.Text)
		}
	}
	b.WriteString("</>")
}
