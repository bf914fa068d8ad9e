package main

import (
	"encoding/xml"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/Eyevinn/dash-mpd/mpd"
)

func init() {
	register(&Check{ID: "C05", Level: "exploration",
		Rule: "Valid generated manifests are damaged: every proper prefix (truncation at each byte), single edits that break well-formedness, a value outside the value space for every typed attribute of the vocabulary, and random byte mutations judged ill-formed by encoding/xml. Each must be refused by all three readers with an error and no MPD. Non-trivial: the damaged text is not empty and was valid before.",
		Run:  runC05})
}

// refIllFormed reports whether the reference tokenizer refuses the document up to the end of its
// root element.
func refIllFormed(text string) bool {
	d := xml.NewDecoder(strings.NewReader(text))
	depth := 0
	for {
		tok, err := d.Token()
		if err != nil {
			return true
		}
		switch tok.(type) {
		case xml.StartElement:
			depth++
		case xml.EndElement:
			depth--
			if depth == 0 {
				return false
			}
		}
	}
}

// readers calls the three entry points and checks that they agree.
func readers(t *T, dir, text string) (*mpd.MPD, error, bool) {
	m1, e1 := mpd.ReadFromString(text)
	m2, e2 := mpd.MPDFromBytes([]byte(text))
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.mpd", t.Kind, t.Idx))
	if err := os.WriteFile(path, []byte(text), 0o600); err != nil {
		panic(envError{err})
	}
	m3, e3 := mpd.ReadFromFile(path)
	os.Remove(path)
	if (e1 == nil) != (e2 == nil) || (e1 == nil) != (e3 == nil) || e1 == nil && (dump(m1) != dump(m2) || dump(m1) != dump(m3)) {
		t.Failf("readers-differ", "ReadFromString: %v, MPDFromBytes: %v, ReadFromFile: %v\n%q", e1, e2, e3, text)
		return nil, nil, false
	}
	if e1 != nil && (m1 != nil || m2 != nil || m3 != nil) {
		t.Failf("mpd-with-error", "an MPD is returned together with the error %v\n%q", e1, text)
		return nil, nil, false
	}
	if e1 == nil && (m1 == nil || m2 == nil || m3 == nil) {
		t.Failf("no-mpd", "neither an MPD nor an error\n%q", text)
		return nil, nil, false
	}
	t.Evals(3)
	return m1, e1, true
}

var badValues = map[string][]string{
	"bool":     {"yes", "2", "truee", "true false", "-1", "nil"},
	"uint8":    {"256", "-1", "1.0", "abc", "1 2", "0x10", "1e2", "99999999999999999999", "1_0", "+-1", "12a"},
	"uint16":   {"65536", "-1", "1.0", "abc", "1 2", "0x10", "1e2", "99999999999999999999"},
	"uint32":   {"4294967296", "-1", "1.0", "abc", "1 2", "0x10", "1e2", "99999999999999999999"},
	"uint64":   {"18446744073709551616", "-1", "1.0", "abc", "1 2", "0x10", "1e2", "99999999999999999999999"},
	"int":      {"9223372036854775808", "-9223372036854775809", "1.0", "abc", "1 2", "0x10", "1e2", "1_0", "--1"},
	"int32":    {"2147483648", "-2147483649", "1.0", "abc", "1 2", "0x10", "1e2"},
	"float32":  {"1e39", "abc", "1 2", "1,5", "1.2.3", "--1", "1e"},
	"float64":  {"1e309", "abc", "1 2", "1,5", "1.2.3", "--1", "1e"},
	"floatinf": {"1e309", "abc", "1 2", "1,5", "1.2.3", "--1", "1e"},
	"duration": {"", "P", "PT", "5", "1S", "P1S", "PT1D", "P1DT", "PT1S1M", "PT1H1H", "-PT1S", "PT-1S", "P1Y", "P1M", "PT1.5M", "PTS", "PT.S", "PT1.S", "PT.5S", "PT1", "PT1S ", "PT 1S", "pt1s", "PT1Sx",
		"PT9223372037S", "P106752D", "PT2562048H", "PT99999999999999999999H", "PT1e3S", "PT0x1S", "PT+1S", "P1DT1D", "PTT1S", "PT1,5S", "PT1_0S"},
}

// okAfterTrim are values of the table above which are fine because space around a value is allowed.
func okAfterTrim(kind, v string) bool {
	if kind == "duration" {
		_, ok := refParseDuration(strings.TrimSpace(v))
		return ok && !strings.Contains(v, "99999") && !strings.Contains(v, "9223372037") && !strings.Contains(v, "106752") && !strings.Contains(v, "2562048")
	}
	return false
}

func runC05(c *Ctx) {
	dir, err := os.MkdirTemp("", "verif-c05-")
	if err != nil {
		fmt.Println("INCONCLUSIVE: no scratch directory:", err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)

	mustFail := func(t *T, what, text string) {
		_, err, ok := readers(t, dir, text)
		if ok && err == nil {
			t.Failf(what, "accepted:\n%q", text)
		}
		t.Obs("refused: " + what)
		if text != "" {
			t.Nontrivial(what, text)
		}
	}

	// truncation at every byte
	c.Cases("truncate", c.N(160, 3000), func(t *T) {
		g := newGen(t.R)
		g.budget = 8 + t.R.IntN(12)
		text := newSurface(t.R).render(g.doc([]int{5, 12, 30}[t.R.IntN(3)]))
		end := strings.LastIndex(text, ">")
		// the root element ends at the last '>' that closes an element
		for end >= 0 && refIllFormed(text[:end]) == false {
			end = strings.LastIndex(text[:end], ">")
		}
		n := 0
		for i := 0; i <= end; i++ {
			m1, e1 := mpd.ReadFromString(text[:i])
			if e1 == nil || m1 != nil {
				t.Failf("truncated", "a manifest cut off after %d of %d bytes is accepted (%v):\n%q", i, len(text), e1, text[:i])
				return
			}
			n++
		}
		readers(t, dir, text[:t.R.IntN(end+1)])
		if _, err, ok := readers(t, dir, text); ok && err != nil {
			t.Failf("rejected", "the whole manifest is refused: %v\n%s", err, text)
		}
		t.Evals(n)
		t.ObsN("refused: truncated", n)
		t.Nontrivial(text)
		if t.Idx == 0 {
			t.Sample("every prefix of: %s", text)
		}
	})

	// values outside the value space
	type vcase struct {
		t   *vType
		a   *vAttr
		val string
	}
	var vcases []vcase
	for _, vt := range vocabList {
		for i := range vt.attrs {
			a := &vt.attrs[i]
			for _, v := range badValues[a.kind] {
				if !okAfterTrim(a.kind, v) {
					vcases = append(vcases, vcase{vt, a, v})
				}
			}
		}
	}
	c.Cases("value", len(vcases), func(t *T) {
		vc := vcases[t.Idx]
		g := newGen(t.R)
		g.hostile, g.unknown = false, false
		root, target := g.chain(vc.t)
		target.attrs = append(target.attrs, mAttr{ns: vc.a.ns, name: vc.a.name, value: vc.val, def: vc.a})
		s := newSurface(t.R)
		s.plain = true
		_, err, ok := readers(t, dir, s.render(root))
		if ok && err == nil {
			t.Failf("value-"+vc.a.kind, "%s@%s=%q is accepted", vc.t.name, vc.a.name, vc.val)
		}
		t.Obs("refused: value outside the value space of " + vc.a.kind)
		t.Nontrivial(vc.t.name, vc.a.name, vc.val)
	})

	// single edits that break well-formedness
	edits := []struct {
		name string
		f    func(t *T, s string) string
	}{
		{"end tag renamed", func(t *T, s string) string { return pickReplace(t, s, "</", "</q") }},
		{"end tag with another prefix", func(t *T, s string) string {
			switch t.R.IntN(6) {
			case 0:
				return pickReplace(t, s, "</", "</zz:")
			case 1: // a prefix for the namespace of the element
				s = strings.Replace(s, "<MPD", "<MPD xmlns:zz=\""+nsDASH+"\"", 1)
				return pickReplace(t, s, "</", "</zz:")
			case 2:
				name := []string{"Period", "Foo", "BaseURL", "MPD", "EventStream"}[t.R.IntN(5)]
				return pickReplace(t, s, "</", "<zz:"+name+" xmlns:zz=\""+nsDASH+"\"></"+name+"></")
			case 3:
				name := []string{"Period", "Foo", "BaseURL", "MPD", "EventStream"}[t.R.IntN(5)]
				return pickReplace(t, s, "</", "<zz:"+name+" xmlns:zz=\""+nsDASH+"\" xmlns:yy=\""+nsDASH+"\"></yy:"+name+"></")
			case 4:
				return pickReplace(t, s, "</", "<Foo></MPD:Foo></")
			}
			return pickReplace(t, s, "</", "<zz:a><zz:a></a></a></")
		}},
		{"white space in a tag", func(t *T, s string) string {
			if t.R.IntN(2) == 0 {
				return pickReplace(t, s, "</", "</ ")
			}
			return pickReplace(t, s, "</", "< a></a></")
		}},
		{"end tag that is like the start tag", func(t *T, s string) string {
			n := []byte(vocabList[t.R.IntN(len(vocabList))].name)
			if t.R.IntN(3) > 0 {
				n = []byte(strings.Repeat("n", 1+sizeUpTo(t.R, 70000)))
			}
			k := t.R.IntN(len(n))
			if t.R.IntN(2) == 0 {
				k = len(n) - 1
			}
			m := append([]byte{}, n...)
			m[k] ^= byte(1 + t.R.IntN(2)) // another letter
			if m[k] < 'A' || n[0] < 'A' || strings.ContainsAny(string(m[k]), "[\\]^`{|}~@") {
				m[k] = 'Q'
			}
			if string(m) == string(n) {
				m = append(m, 'x')
			}
			return pickReplace(t, s, "</", "<"+string(n)+"></"+string(m)+"></")
		}},
		{"attributes in an end tag", func(t *T, s string) string { return pickReplace(t, s, "</", "<a></a x=\"1\"></") }},
		{"slash at both ends", func(t *T, s string) string { return pickReplace(t, s, "</", "<a></a/></") }},
		{"name with a forbidden first character", func(t *T, s string) string {
			n := []string{"1", "-a", ".", "a,b", "a*", "$"}[t.R.IntN(6)]
			return pickReplace(t, s, "</", "<"+n+"></"+n+"></")
		}},
		{"case of an end tag", func(t *T, s string) string { return pickReplace(t, s, "</", "<aB></ab></") }},
		{"end tags swapped", func(t *T, s string) string { return pickReplace(t, s, "</", "<ab><abc></ab></abc></") }},
		{"end tag longer or shorter", func(t *T, s string) string {
			return pickReplace(t, s, "</", []string{"<ab></a></", "<ab></abc></", "<ab></></", "<ab></ab</", "<ab></ab:></"}[t.R.IntN(5)])
		}},
		{"end tag removed", func(t *T, s string) string {
			i := strings.LastIndex(s, "</")
			return s[:i]
		}},
		{"stray end tag", func(t *T, s string) string { return pickReplace(t, s, "</", "</x></") }},
		{"bare ampersand", func(t *T, s string) string { return pickReplace(t, s, "</", "& </") }},
		{"undefined entity", func(t *T, s string) string { return pickReplace(t, s, "</", "&nbsp;</") }},
		{"reference to a forbidden character", func(t *T, s string) string {
			return pickReplace(t, s, "</", []string{"&#0;</", "&#x1;</", "&#x8;</", "&#xFFFE;</", "&#x110000;</", "&#;</", "&#x;</", "&#12</",
				fmt.Sprintf("&#x%x%08x;</", 1+t.R.IntN(1<<20), t.R.IntN(0x10000)), fmt.Sprintf("&#%d;</", 0x110000+t.R.Int64N(1<<62)), fmt.Sprintf("&#x%x;</", 1<<31+t.R.Int64N(1<<31)), "&#18446744073709551681;</"}[t.R.IntN(12)])
		}},
		{"bare less-than", func(t *T, s string) string { return pickReplace(t, s, "</", "< </") }},
		{"less-than in an attribute", func(t *T, s string) string { return pickReplace(t, s, "=\"", "=\"<") }},
		{"unquoted attribute", func(t *T, s string) string { return pickReplace(t, s, ">", " zz=1>") }},
		{"attribute without value", func(t *T, s string) string { return pickReplace(t, s, ">", " zz>") }},
		{"CDATA end in text", func(t *T, s string) string { return pickReplace(t, s, "</", "]]></") }},
		{"double hyphen in comment", func(t *T, s string) string { return pickReplace(t, s, "</", "<!-- a -- b --></") }},
		{"unterminated comment", func(t *T, s string) string { return pickReplace(t, s, "</", "<!-- </") }},
		{"unterminated CDATA", func(t *T, s string) string { return pickReplace(t, s, "</", "<![CDATA[ </") }},
		{"unterminated processing instruction", func(t *T, s string) string { return pickReplace(t, s, "</", "<?x </") }},
		{"control character", func(t *T, s string) string { return pickReplace(t, s, "</", "\x01</") }},
		{"invalid UTF-8", func(t *T, s string) string { return pickReplace(t, s, "</", "\xc3\x28</") }},
		{"overlapping elements", func(t *T, s string) string { return pickReplace(t, s, "</", "<a><b></a></b></") }},
		{"unsupported encoding", func(t *T, s string) string {
			return "<?xml version=\"1.0\" encoding=\"iso-8859-1\"?>" + s
		}},
		{"unsupported version", func(t *T, s string) string { return "<?xml version=\"1.1\"?>" + s }},
	}
	per := c.N(60, 1500)
	c.Cases("edit", len(edits)*per, func(t *T) {
		e := edits[t.Idx/per]
		g := newGen(t.R)
		g.hostile, g.budget = false, 20
		s := newSurface(t.R)
		s.plain = true
		m := g.doc([]int{5, 12, 30}[t.R.IntN(3)])
		m.kids = append(m.kids, mKid{n: &mNode{ns: nsDASH, name: "Period", typ: vocab["Period"], attrs: []mAttr{{name: "id", value: "p"}}}})
		text := s.render(m)
		text = strings.ReplaceAll(text, "/>", "></Empty>")
		text = fixEmpty(text)
		bad := e.f(t, text)
		mustFail(t, e.name, bad)
	})

	// not an MPD at all
	roots := []string{"", " ", "\n\t", "x", "<", "<!-- only a comment -->", "<?xml version=\"1.0\"?>", "<!DOCTYPE MPD>", "plain text", "\ufeff", "{}", "\x00",
		"<Period/>", "<mpd/>", "<MPDx/>", "<xMPD/>", "<Patch/>", "<p:Period xmlns:p=\"" + nsDASH + "\"/>", "<a><MPD/></a>", "</MPD>", "<MPD", "<MPD>", "<MPD></mpd>", "<MPD/", "<p:MPD xmlns:p=\"u\"></q:MPD>",
		"<:MPD/>", "<MPD:/>", "<a:b:MPD/>", "&lt;MPD/&gt;", "<![CDATA[<MPD/>]]>", "<MPD a='1' b></MPD>", "<MPD xmlns:p=''/>"}
	c.Cases("root", len(roots), func(t *T) { mustFail(t, "no MPD root element", roots[t.Idx]) })
	c.Cases("file", 1, func(t *T) {
		for _, p := range []string{filepath.Join(dir, "absent.mpd"), dir, ""} {
			if m, err := mpd.ReadFromFile(p); err == nil || m != nil {
				t.Failf("file", "ReadFromFile(%q) = %v, %v", p, m, err)
			}
			t.Obs("refused: unreadable file")
		}
	})

	// random byte mutations; those which the reference finds ill-formed must be refused
	c.Cases("mutate", c.N(12000, 400000), func(t *T) {
		g := newGen(t.R)
		g.budget = 15
		text := []byte(newSurface(t.R).render(g.doc([]int{2, 5, 12}[t.R.IntN(3)])))
		for k := 1 + t.R.IntN(2); k > 0; k-- {
			i := t.R.IntN(len(text))
			switch t.R.IntN(4) {
			case 0:
				text = append(text[:i:i], text[i+1:]...)
			case 1:
				text[i] = "<>&\"'/=! ?-[]:;#xX\x00\xff"[t.R.IntN(20)]
			case 2:
				text = append(text[:i:i], append([]byte{"<>&\"'/=! ?-[]:;#xX\x00\xff"[t.R.IntN(20)]}, text[i:]...)...)
			case 3:
				j := min(len(text), i+t.R.IntN(12))
				text = append(text[:i:i], text[j:]...)
			}
			if len(text) == 0 {
				break
			}
		}
		s := string(text)
		_, err, ok := readers(t, dir, s)
		if !ok {
			return
		}
		if refIllFormed(s) {
			if err == nil {
				t.Failf("ill-formed", "accepted although it is not well-formed:\n%q", s)
			}
			t.Obs("refused: mutated")
			t.Nontrivial(s)
		} else {
			t.Obs("mutated and still well-formed")
		}
	})
	_ = io.EOF
	c.Require("refused: truncated", 20000)
	c.Require("refused: mutated", 1500)
}

func pickReplace(t *T, s, old, new string) string {
	n := strings.Count(s, old)
	if n == 0 {
		return s[:len(s)-1]
	}
	if t.R.IntN(8) == 0 { // behind a lot of something else
		k := sizeUpTo(t.R, 131073)
		switch {
		case old == "</":
			new = []string{strings.Repeat("x", k), strings.Repeat("<e></e>", k/8), "<!--" + strings.Repeat("c", k) + "-->", strings.Repeat("<d>", min(k, 5000)), strings.Repeat("&lt;", k/4)}[t.R.IntN(5)] + new
		case strings.HasSuffix(old, "=\""):
			new = old + strings.Repeat("v", k) + strings.TrimPrefix(new, old)
		}
		t.Obs("edits behind large content")
	}
	k := t.R.IntN(n)
	i := 0
	for ; ; k-- {
		j := strings.Index(s[i:], old)
		i += j
		if k == 0 {
			break
		}
		i += len(old)
	}
	return s[:i] + new + s[i+len(old):]
}

// fixEmpty turns the placeholder end tags of empty elements into real ones.
func fixEmpty(s string) string {
	var b strings.Builder
	for {
		i := strings.Index(s, "></Empty>")
		if i < 0 {
			b.WriteString(s)
			return b.String()
		}
		j := strings.LastIndex(s[:i], "<")
		name := s[j+1 : i]
		if k := strings.IndexAny(name, " \n\t\r"); k >= 0 {
			name = name[:k]
		}
		b.WriteString(s[:i] + "></" + name + ">")
		s = s[i+len("></Empty>"):]
	}
}
