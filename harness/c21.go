package main

import (
	"bytes"
	stdxml "encoding/xml"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"strings"

	"github.com/Eyevinn/dash-mpd/xml"
	"verifharness/infoset"
)

func init() {
	register(&Check{ID: "C21", Level: "exploration",
		Rule: "Token lists around a balanced core with single or several damages (missing, extra and mismatched ends, other namespaces and prefixes, empty names, instructions and comments with their end marks, bad targets, late XML declarations, directives, other types, use after Close) are given to the encoder, directly and inside MarshalXML methods that report or swallow errors; each answer is compared with encoding/xml and with an own model of the stack, and accepted output is read by a strict parser. Non-trivial: at least one token was refused.",
		Run:  runC21})
}

type encStep struct {
	tok   xml.Token
	std   stdxml.Token
	flush bool
}

type c21Gen struct {
	r     *rand.Rand
	stack []xml.Name
	steps []encStep
	plain bool // names without prefixes
	own   bool // also the name that a marshaller is given
}

func (g *c21Gen) p(n, d int) bool { return g.r.IntN(d) < n }

func (g *c21Gen) one(l ...string) string { return l[g.r.IntN(len(l))] }

func (g *c21Gen) name() xml.Name {
	if g.own && g.p(1, 5) {
		return xml.Name{Local: ownName}
	}
	n := xml.Name{Local: g.one("a", "b", "c")}
	if g.p(1, 4) {
		n.Local = g.one("A", "aa", "Abc", "abC", "a_b", "a-b", "é", "É", "e\u0301", "K", "k", "\u212a", "elementWithALongerName")
	}
	if g.p(1, 3) {
		n.Space = g.one("urn:a", "urn:b")
		if !g.plain && g.p(1, 2) {
			n.Local = map[string]string{"urn:a": "p:", "urn:b": "q:"}[n.Space] + n.Local
		}
	}
	return n
}

type otherToken struct{}

// add appends a token.
func (g *c21Gen) add(t xml.Token) {
	s := encStep{tok: t, flush: g.p(1, 8)}
	sn := func(n xml.Name) stdxml.Name { return stdxml.Name{Space: n.Space, Local: n.Local} }
	switch k := t.(type) {
	case xml.StartElement:
		st := stdxml.StartElement{Name: sn(k.Name)}
		for _, a := range k.Attr {
			st.Attr = append(st.Attr, stdxml.Attr{Name: sn(a.Name), Value: a.Value})
		}
		s.std = st
	case xml.EndElement:
		s.std = stdxml.EndElement{Name: sn(k.Name)}
	case xml.CharData:
		s.std = stdxml.CharData(k)
	case xml.Comment:
		s.std = stdxml.Comment(k)
	case xml.Directive:
		s.std = stdxml.Directive(k)
	case xml.ProcInst:
		s.std = stdxml.ProcInst{Target: k.Target, Inst: k.Inst}
	default:
		s.std = t
	}
	g.steps = append(g.steps, s)
}

func (g *c21Gen) other() {
	switch g.r.IntN(12) {
	case 0, 1, 2:
		g.add(xml.CharData(g.one("", "text", "<&>", "]]>", "\x00")))
	case 3, 4:
		g.add(xml.Comment(g.one("", "c", " ok ", "a-b", "-->", "a-->b", "--->", "->", "-", "- ->", "a--b", "-a", "--", ">", g.markup())))
	case 5, 6:
		g.add(xml.ProcInst{Target: g.one("pi", "php", "x-y", "", "1x", "a b", "?", "xml", "p:q", "é", "a>", "-"), Inst: []byte(g.one("", "data", "a?b", "?>", "x?>y", "?", ">"))})
	case 7:
		g.add(xml.ProcInst{Target: "xml", Inst: []byte(`version="1.0"`)})
	case 8, 9:
		g.add(xml.Directive(g.one("D "+g.markup(), "D"+g.markup(), g.markup(), "D [<!-->]", "D [<!--->]", "D <!-- --><!--> -->", "", "DOCTYPE x", "D [<!E>]", "<", ">", "<>", "><", "'>'", "\">\"", "'", "<!-- > -->", "<!-- >", "<!---->", "<!-->", "<!--->", "'<' >", "\"'\"", "<<>", "<<>>", "<!-- ' -->", "<\">\">")))
	case 10:
		switch g.r.IntN(4) {
		case 0:
			g.add(otherToken{})
		case 1:
			g.add(nil)
		case 2:
			g.add("text")
		case 3:
			g.add(&xml.StartElement{Name: xml.Name{Local: "a"}})
		}
	case 11:
		g.add(xml.StartElement{Name: xml.Name{Space: g.one("", "urn:a"), Local: ""}})
	}
}

// gen makes a list of tokens.
func (g *c21Gen) gen(n int) {
	if g.p(1, 4) {
		g.add(xml.ProcInst{Target: "xml", Inst: []byte(`version="1.0"`)})
	}
	for ; n > 0; n-- {
		switch k := g.r.IntN(10); {
		case k < 4:
			nm := g.name()
			st := xml.StartElement{Name: nm}
			if g.p(1, 4) {
				st.Attr = []xml.Attr{{Name: xml.Name{Local: g.one("x", "y", "")}, Value: g.one("", "v", "<\">")}}
			}
			g.add(st)
			g.stack = append(g.stack, nm)
		case k < 7 && len(g.stack) > 0:
			g.add(xml.EndElement{Name: g.stack[len(g.stack)-1]})
			g.stack = g.stack[:len(g.stack)-1]
		default:
			g.other()
		}
	}
	for len(g.stack) > 0 {
		g.add(xml.EndElement{Name: g.stack[len(g.stack)-1]})
		g.stack = g.stack[:len(g.stack)-1]
	}
	// damages
	for k := g.r.IntN(4) * g.r.IntN(2); k > 0 && len(g.steps) > 0; k-- {
		i := g.r.IntN(len(g.steps))
		switch g.r.IntN(6) {
		case 0:
			g.steps = append(g.steps[:i:i], g.steps[i+1:]...)
		case 1:
			g.steps = append(g.steps[:i:i], append([]encStep{g.steps[g.r.IntN(len(g.steps))]}, g.steps[i:]...)...)
		case 2:
			j := g.r.IntN(len(g.steps))
			g.steps[i], g.steps[j] = g.steps[j], g.steps[i]
		case 3:
			g.steps = g.steps[:i]
		default:
			if e, ok := g.steps[i].tok.(xml.EndElement); ok {
				switch g.r.IntN(6) {
				case 0:
					e.Name.Local = ""
				case 4:
					p, l := splitName(e.Name.Local)
					if e.Name.Local = nearName(g.r, l); p != "" {
						e.Name.Local = p + ":" + e.Name.Local
					}
				case 5:
					if e.Name.Space = near(g.r, e.Name.Space); g.p(1, 2) {
						e.Name.Space = strings.TrimRight(e.Name.Space, "/")
					}
				case 1:
					e.Name.Space = g.one("", "urn:a", "urn:b")
				case 2:
					e.Name.Local = g.one("a", "b", "c")
				case 3:
					if !g.plain {
						_, l := splitName(e.Name.Local)
						e.Name.Local = g.one("r:", "p:", "q:", "") + l
					}
				}
				n := len(g.steps)
				g.add(e)
				g.steps[i] = g.steps[n]
				g.steps = g.steps[:n]
			}
		}
	}
}

func splitName(s string) (prefix, local string) {
	if p, l, ok := strings.Cut(s, ":"); ok {
		return p, l
	}
	return "", s
}

// model tells whether the start or end token is accepted, and keeps the stack.
type encModel struct {
	stack  []xml.Name
	wrote  bool // something has been written
	unsure bool // a token was refused, and part of it may have been written
}

func (m *encModel) step(t xml.Token) (ok, known bool) {
	switch k := t.(type) {
	case xml.StartElement:
		if k.Name.Local == "" {
			return false, true
		}
		m.stack = append(m.stack, k.Name)
		return true, true
	case xml.EndElement:
		n := len(m.stack)
		if k.Name.Local == "" || n == 0 {
			return false, true
		}
		top := m.stack[n-1]
		p, l := splitName(k.Name.Local)
		p2, l2 := splitName(top.Local)
		if l != l2 || k.Name.Space != top.Space {
			return false, true
		}
		if p != p2 && p != "" {
			// the element may have got this prefix
			return false, p2 != ""
		}
		m.stack = m.stack[:n-1]
		return true, true
	case xml.CharData:
		return true, true
	case xml.Comment:
		return !strings.Contains(string(k), "--") && !strings.HasSuffix(string(k), "-"), true
	case xml.ProcInst:
		if k.Target == "xml" && m.wrote {
			return false, true // only the first token is an XML declaration
		}
		if k.Target == "xml" && !m.unsure && !strings.Contains(string(k.Inst), "?>") {
			return true, true
		}
		return false, strings.Contains(string(k.Inst), "?>") || k.Target == ""
	case xml.Directive:
		return directiveOK(string(k)), true
	}
	return false, true
}

// directiveOK says if "<!" + s + ">" is one directive to a reader.
func directiveOK(s string) bool {
	if s == "" || strings.IndexByte("-[<>'\"", s[0]) >= 0 {
		return false // no name
	}
	depth := 0
	for s != "" {
		c := s[0]
		switch {
		case strings.HasPrefix(s, "<!--"):
			_, rest, ok := strings.Cut(s[4:], "-->")
			if !ok {
				return false
			}
			s = rest
			continue
		case c == '\'' || c == '"':
			_, rest, ok := strings.Cut(s[1:], string(c))
			if !ok {
				return false
			}
			s = rest
			continue
		case c == '<':
			depth++
		case c == '>':
			if depth--; depth < 0 {
				return false
			}
		}
		s = s[1:]
	}
	return depth == 0
}

// markup gives a short text of what matters in directives and comments.
func (g *c21Gen) markup() string {
	s := ""
	for n := g.r.IntN(9); n > 0; n-- {
		s += g.one("<", ">", "!", "-", "--", "'", "\"", " ", "x", "[", "<!--", "-->", "<!", "]")
	}
	return s
}

// scripted elements write a list of tokens.
type oScript struct {
	steps   []encStep
	swallow bool
	log     *[]string
}

// ownName stands for the name that a marshaller is given, without its prefix.
const ownName = "OWN"

func (x oScript) MarshalXML(e *xml.Encoder, st xml.StartElement) error {
	for _, s := range x.steps {
		tok := s.tok
		switch k := tok.(type) {
		case xml.StartElement:
			if k.Name.Local == ownName {
				k.Name = st.Name
				_, k.Name.Local = splitName(k.Name.Local)
				tok = k
			}
		case xml.EndElement:
			if k.Name.Local == ownName {
				k.Name = st.Name
				_, k.Name.Local = splitName(k.Name.Local)
				tok = k
			}
		}
		err := e.EncodeToken(tok)
		*x.log = append(*x.log, fmt.Sprint(err == nil))
		if err != nil && !x.swallow {
			return err
		}
	}
	return nil
}

type sScript struct {
	steps   []encStep
	swallow bool
	log     *[]string
}

func (x sScript) MarshalXML(e *stdxml.Encoder, st stdxml.StartElement) error {
	for _, s := range x.steps {
		tok := s.std
		switch k := tok.(type) {
		case stdxml.StartElement:
			if k.Name.Local == ownName {
				k.Name = st.Name
				_, k.Name.Local = splitName(k.Name.Local)
				tok = k
			}
		case stdxml.EndElement:
			if k.Name.Local == ownName {
				k.Name = st.Name
				_, k.Name.Local = splitName(k.Name.Local)
				tok = k
			}
		}
		switch s.tok.(type) {
		case xml.Comment, xml.Directive:
			// encoding/xml writes some that no reader takes, and refuses some that are right
			if ok, _ := new(encModel).step(s.tok); ok {
				tok = stdxml.Comment("c")
			} else {
				tok = nil
			}
		}
		err := e.EncodeToken(tok)
		*x.log = append(*x.log, fmt.Sprint(err == nil))
		if err != nil && !x.swallow {
			return err
		}
	}
	return nil
}

func stepsStr(l []encStep) string {
	var b strings.Builder
	for _, s := range l {
		fmt.Fprintf(&b, "%s\n", tokStr(s.tok))
	}
	return clip(b.String(), 3000)
}

// tokensOf reads all tokens of an output strictly balanced by the reference decoder.
func tokensOf(s string) error {
	d := stdxml.NewDecoder(strings.NewReader(s))
	for {
		if _, err := d.Token(); err == io.EOF {
			return nil
		} else if err != nil {
			return err
		}
	}
}

func runC21(c *Ctx) {
	c.Cases("tokens", c.N(200000, 2000000), func(t *T) {
		r := t.R
		g := &c21Gen{r: r, plain: r.IntN(3) > 0}
		g.gen(1 + r.IntN(14))
		var b, sb bytes.Buffer
		e, se := xml.NewEncoder(&b), stdxml.NewEncoder(&sb)
		if r.IntN(4) == 0 {
			e.Indent("", " ")
			se.Indent("", " ")
		}
		m := &encModel{}
		stop := r.IntN(2) == 0 // at the first error
		refused, special := false, false
		for i, s := range g.steps {
			err := e.EncodeToken(s.tok)
			err2 := se.EncodeToken(s.std)
			if s.flush && r.IntN(2) == 0 {
				if e1, e2 := e.Flush(), se.Flush(); e1 != nil || e2 != nil {
					t.Failf("flush", "%v, want %v\n%s", e1, e2, stepsStr(g.steps))
				}
			}
			t.Evals(1)
			if ok, known := m.step(s.tok); known && ok != (err == nil) {
				t.Failf("accepts", "token %d: %v, the model says %v\n%s", i, err, ok, stepsStr(g.steps))
				return
			} else if _, isEnd := s.tok.(xml.EndElement); !known && isEnd && err == nil {
				m.stack = m.stack[:len(m.stack)-1] // written with the prefix of the start
			}
			if pi, ok := s.tok.(xml.ProcInst); ok && pi.Target == "xml" && err != nil && err2 == nil {
				// encoding/xml takes an XML declaration wherever its buffer happens to be empty
				t.Obs("XML declarations refused after a flush")
				g.plain = false
			}
			switch s.tok.(type) {
			case xml.Comment, xml.Directive:
				if (err == nil) != (err2 == nil) {
					// encoding/xml writes some that no reader takes, and refuses some that are right
					t.Obs("comments and directives encoding/xml is wrong about")
					g.plain = false
				} else if err != nil {
					t.Obs("comments and directives refused")
				} else {
					t.Obs("comments and directives accepted")
				}
			}
			if cd, ok := s.tok.(xml.CharData); err == nil && (!ok || len(cd) > 0) {
				m.wrote = true
			}
			m.unsure = m.unsure || err != nil
			if g.plain && (err == nil) != (err2 == nil) {
				t.Failf("differs", "token %d: %v, want %v\n%s", i, err, err2, stepsStr(g.steps))
				return
			}
			if err != nil {
				refused = true
				if stop {
					break
				}
			}
			switch k := s.tok.(type) {
			case xml.Directive:
				special = true
			case xml.Comment:
				special = special || strings.Contains(string(k), "--") || strings.HasSuffix(string(k), "-")
			case xml.ProcInst:
				special = special || k.Target == "xml" || strings.Contains(k.Target, ":")
			}
		}
		err, err2 := e.Close(), se.Close()
		if (err == nil) != (len(m.stack) == 0) {
			t.Failf("close", "Close: %v with %d open elements\n%s", err, len(m.stack), stepsStr(g.steps))
			return
		}
		if g.plain && (err == nil) != (err2 == nil) {
			t.Failf("close", "Close: %v, want %v\n%s", err, err2, stepsStr(g.steps))
			return
		}
		out := b.String()
		if g.plain && !strings.Contains(out, ":") {
			nl := strings.NewReplacer("&#xA;", "\n", "&#x9;", "\t")
			if nl.Replace(out) != nl.Replace(sb.String()) {
				t.Failf("output", "%q, want %q\n%s", out, sb.String(), stepsStr(g.steps))
				return
			}
		}
		if err == nil {
			// What was reported as written is balanced.
			if !special {
				if _, err := infoset.Parse("<r>" + out + "</r>"); err != nil {
					t.Failf("unbalanced", "%v\n%q\n%s", err, out, stepsStr(g.steps))
					return
				}
				t.Obs("closed streams read by the strict parser")
			} else {
				if err := tokensOf(out); err == nil {
					t.Obs("closed streams read by encoding/xml")
				} else {
					t.Failf("unbalanced", "%v\n%q\n%s", err, out, stepsStr(g.steps))
					return
				}
			}
		} else {
			t.Obs("unclosed streams reported")
		}
		if refused {
			t.Obs("streams with refused tokens")
			t.Nontrivial(stepsStr(g.steps))
		}
		// nothing more can be written
		n := b.Len()
		k := r.IntN(4)
		var late error
		switch k {
		case 0:
			late = e.EncodeToken(xml.CharData("x"))
		case 1:
			late = e.EncodeToken(xml.StartElement{Name: xml.Name{Local: "x"}})
		case 2:
			late = e.Encode("x")
		case 3:
			late = e.EncodeElement(1, xml.StartElement{Name: xml.Name{Local: "x"}})
		}
		if k == 1 && late == nil {
			late = e.EncodeToken(xml.Comment("x")) // start elements report at the next token
		}
		e.Flush()
		if late == nil || b.Len() != n {
			t.Failf("after-close", "use %d after Close: error %v, wrote %q", k, late, b.String()[n:])
		}
		if err := e.Close(); err != nil {
			t.Failf("after-close", "second Close: %v", err)
		}
	})
	c.Require("closed streams read by the strict parser", 5000)
	c.Require("closed streams read by encoding/xml", 1000)
	c.Require("unclosed streams reported", 1000)
	c.Require("streams with refused tokens", 5000)
	c.Require("XML declarations refused after a flush", 200)

	// Counters have sizes of their own.
	c.Cases("depths", c.N(80, 2000), func(t *T) {
		r := t.R
		sizes := []int{1, 16, 32, 63, 64, 65, 100, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4096, 10000, 32767, 32768, 65535, 65536, 65537, 131072}
		depth := sizes[t.Idx%len(sizes)]
		if t.Idx >= 2*len(sizes) && r.IntN(3) == 0 {
			depth = 1 + r.IntN(3000)
		}
		var b bytes.Buffer
		e := xml.NewEncoder(&b)
		pooled := r.IntN(4) == 0
		if pooled {
			e = xml.AcquireEncoder(&b)
		}
		if depth < 3000 && r.IntN(4) == 0 {
			e.Indent("", " ")
		}
		name := func(i int) xml.Name { return xml.Name{Local: fmt.Sprintf("e%d", i%7)} }
		var err error
		for i := 0; i < depth && err == nil; i++ {
			err = e.EncodeToken(xml.StartElement{Name: name(i)})
			if r.IntN(50) == 0 && err == nil {
				err = e.EncodeToken(xml.Comment("c"))
			}
		}
		if err != nil {
			t.Failf("depth", "a start element among %d is refused: %v", depth, err)
			return
		}
		how, left := r.IntN(4), 0
		if t.Idx < len(sizes) {
			how = 0
		}
		if how == 0 {
			left = depth // stay open
			if t.Idx >= len(sizes) {
				left = 1 + r.IntN(depth)
				if l := sizes[r.IntN(len(sizes))]; l < depth && r.IntN(2) == 0 {
					left = l
				}
			}
		}
		wrong := -1
		if how == 1 {
			wrong = r.IntN(depth)
		}
		for i := depth - 1; i >= left; i-- {
			if i == wrong {
				if e.EncodeToken(xml.EndElement{Name: name(i + 1)}) == nil {
					t.Failf("depth", "the end of %v is taken for that of %v at depth %d of %d", name(i+1), name(i), i, depth)
					return
				}
			}
			if err := e.EncodeToken(xml.EndElement{Name: name(i)}); err != nil {
				t.Failf("depth", "the end at depth %d of %d is refused: %v", i, depth, err)
				return
			}
		}
		if how == 2 && e.EncodeToken(xml.EndElement{Name: name(0)}) == nil {
			t.Failf("depth", "an end element too many after %d is taken", depth)
			return
		}
		err = e.Close()
		t.Evals(1)
		t.Obs("deep streams")
		if left > 0 && err == nil {
			t.Failf("depth", "Close takes %d open elements of %d", left, depth)
		}
		if left == 0 && err != nil {
			t.Failf("depth", "Close after %d elements: %v", depth, err)
		}
		if left == 0 {
			if n := strings.Count(b.String(), "</"); n != depth {
				t.Failf("depth", "%d end tags written for %d elements", n, depth)
			}
		}
		if pooled && err == nil {
			xml.ReleaseEncoder(e)
		}
		t.Nontrivial(fmt.Sprint(depth, how, left, wrong))
	})
	c.Require("deep streams", 50)

	// What a token must not hold stands anywhere in a long one.
	c.Cases("long tokens", c.N(400, 8000), func(t *T) {
		r := t.R
		n := 1 + sizeUpTo(r, 131073)
		at := []int{0, n - 1, r.IntN(n)}[r.IntN(3)]
		bad := r.IntN(2) == 0
		with := func(unit, mark string) string {
			s := strings.Repeat(unit, n/len(unit)+1)[:n]
			if bad {
				s = s[:at] + mark + s[at:]
			}
			return s
		}
		one := func(l ...string) string { return l[r.IntN(len(l))] }
		var tok xml.Token
		var want string
		switch r.IntN(4) {
		case 0:
			s := with(one("c", "- c", "c>"), one("-->", "--", "--!>")) + "c"
			tok, want = xml.Comment(s), "<!--"+s+"-->"
		case 1:
			s := with(one("i", "? ", "i>"), "?>")
			tok, want = xml.ProcInst{Target: "t", Inst: []byte(s)}, "<?t "+s+"?>"
		case 2:
			u := one("d", "<d>", "'<'", "<!--<-->", "\">\"")
			k := max(1, n/len(u))
			j := []int{0, k, r.IntN(k + 1)}[r.IntN(3)]
			s, mark := "D "+strings.Repeat(u, j), ""
			if bad {
				mark, at = one(">", "<", "'", "\""), len(s)
				if u != "d" { // the others would change what is quoted
					mark = one(">", "<")
				}
			}
			s += mark + strings.Repeat(u, k-j)
			tok, want = xml.Directive(s), "<!"+s+">"
		case 3:
			s := with("n", one(" ", "<", ">", "/", "&"))
			tok, want = xml.ProcInst{Target: s}, "<?"+s+"?>"
		}
		var b bytes.Buffer
		e := xml.NewEncoder(&b)
		err := e.EncodeToken(tok)
		e.Flush()
		t.Evals(1)
		t.Obs("long tokens")
		switch {
		case bad && err == nil:
			t.Failf("long", "%T of %d bytes that no reader takes is accepted: byte %d, %q", tok, n, at, clip(want[:min(len(want), at+30)][max(0, min(at-10, len(want))):], 100))
		case !bad && err != nil:
			t.Failf("long", "%T of %d bytes: %v", tok, n, err)
		case !bad && b.String() != want:
			t.Failf("long", "%T of %d bytes is written as %q", tok, n, clip(b.String(), 300))
		}
		t.Nontrivial(fmt.Sprintf("%T %d %d %t", tok, n, at, bad))
	})
	c.Require("long tokens", 300)

	c.Cases("marshalers", c.N(100000, 500000), func(t *T) {
		r := t.R
		g := &c21Gen{r: r, plain: true, own: true}
		g.gen(1 + r.IntN(8))
		if r.IntN(4) == 0 {
			n := len(g.steps)
			g.add(xml.EndElement{Name: xml.Name{Local: ownName}})
			i := r.IntN(n + 1)
			g.steps[i], g.steps[n] = g.steps[n], g.steps[i]
		}
		for i := range g.steps {
			if pi, ok := g.steps[i].tok.(xml.ProcInst); ok && pi.Target == "xml" {
				g.steps = append(g.steps[:i:i], g.steps[i+1:]...)
				break
			}
		}
		var log, slog []string
		swallow := r.IntN(2) == 0
		type holder struct {
			XMLName xml.Name `xml:"holder"`
			Before  string   `xml:"before"`
			In      any      `xml:"in"`
			Path    any      `xml:"p>q"`
			After   string   `xml:"after"`
		}
		type sholder struct {
			XMLName stdxml.Name `xml:"holder"`
			Before  string      `xml:"before"`
			In      any         `xml:"in"`
			Path    any         `xml:"p>q"`
			After   string      `xml:"after"`
		}
		o, s := oScript{g.steps, swallow, &log}, sScript{g.steps, swallow, &slog}
		h, sh := holder{}, sholder{}
		var out []byte
		var err, err2 error
		t.Evals(1)
		switch place := r.IntN(5); place {
		case 0, 1:
			if place == 0 {
				h.In, sh.In = o, s
			} else {
				h.Path, sh.Path = []any{1, o, 2}, []any{1, s, 2}
			}
			out, err = xml.Marshal(h)
			_, err2 = stdxml.Marshal(sh)
		case 2:
			// alone
			out, err = xml.Marshal(o)
			_, err2 = stdxml.Marshal(s)
			t.Obs("marshalers at the top")
		default:
			// among tokens, some of which have prefixes
			var b, b2 bytes.Buffer
			e, e2 := xml.NewEncoder(&b), stdxml.NewEncoder(&b2)
			up := &c21Gen{r: r}
			for i := r.IntN(3); i > 0; i-- {
				nm := up.name()
				up.stack = append(up.stack, nm)
				err = errors.Join(err, e.EncodeToken(xml.StartElement{Name: nm}))
				err2 = errors.Join(err2, e2.EncodeToken(stdxml.StartElement{Name: stdxml.Name{Space: nm.Space, Local: nm.Local}}))
			}
			nm := up.name()
			if len(up.stack) > 0 && r.IntN(2) == 0 {
				nm = up.stack[len(up.stack)-1] // the name of its parent
			}
			err = errors.Join(err, e.EncodeElement(o, xml.StartElement{Name: nm}))
			err2 = errors.Join(err2, e2.EncodeElement(s, stdxml.StartElement{Name: stdxml.Name{Space: nm.Space, Local: nm.Local}}))
			for len(up.stack) > 0 && err == nil && err2 == nil {
				nm := up.stack[len(up.stack)-1]
				up.stack = up.stack[:len(up.stack)-1]
				err = errors.Join(err, e.EncodeToken(xml.EndElement{Name: nm}))
				err2 = errors.Join(err2, e2.EncodeToken(stdxml.EndElement{Name: stdxml.Name{Space: nm.Space, Local: nm.Local}}))
			}
			if err == nil && err2 == nil {
				err, err2 = e.Close(), e2.Close()
			}
			out = b.Bytes()
			t.Obs("marshalers among tokens")
		}
		if strings.Join(log, " ") != strings.Join(slog, " ") {
			t.Failf("marshaler-accepts", "tokens accepted %v, want %v\n%s", log, slog, stepsStr(g.steps))
			return
		}
		if (err == nil) != (err2 == nil) {
			t.Failf("marshaler-error", "%v, want %v (errors swallowed: %v)\n%s", err, err2, swallow, stepsStr(g.steps))
			return
		}
		if err != nil {
			t.Obs("marshalers refused")
			t.Nontrivial("m", stepsStr(g.steps))
			return
		}
		t.Obs("marshalers accepted")
		if e2 := tokensOf(string(out)); e2 != nil {
			t.Failf("marshaler-output", "%v\n%s\n%s", e2, out, stepsStr(g.steps))
		}
	})
	c.Require("marshalers refused", 3000)
	c.Require("marshalers accepted", 3000)

	c.Probe("missing-name", func() string {
		var b bytes.Buffer
		e := xml.NewEncoder(&b)
		if err := e.EncodeElement(1, xml.StartElement{}); err == nil {
			return "EncodeElement accepts a start element without a name"
		}
		var u *xml.UnsupportedTypeError
		for _, v := range []any{make(chan int), func() {}, map[string]int{"a": 1}, complex(1, 2), struct{ A int }{1}, []any{make(chan int)}, struct {
			XMLName xml.Name `xml:"a"`
			C       chan int `xml:"c"`
		}{C: make(chan int)}, struct {
			XMLName xml.Name       `xml:"a"`
			C       map[string]int `xml:"c,attr"`
		}{C: map[string]int{}}} {
			if _, err := xml.Marshal(v); !errors.As(err, &u) {
				return fmt.Sprintf("Marshal(%T): %v", v, err)
			}
		}
		return ""
	})
}
