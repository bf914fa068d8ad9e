package main

import (
	"bytes"
	stdxml "encoding/xml"
	"errors"
	"fmt"
	"math/rand/v2"
	"strings"
	"unicode/utf8"

	"github.com/Eyevinn/dash-mpd/xml"
	"verifharness/infoset"
)

func init() {
	register(&Check{ID: "C22", Level: "exploration",
		Rule: "All code points (surrogates and invalid encodings included), all pairs of bytes, and random strings of markup, end marks, controls, line ends and broken UTF-8 are escaped by EscapeText, Escape, EncodeToken, text, CDATA, comment and attribute fields, and read back by a strict parser, by encoding/xml and by this package; the text must be the original with what is not XML replaced by U+FFFD. Writers failing at every write are used. Non-trivial: something was escaped.",
		Run:  runC22})
}

// sanitized replaces what XML cannot hold.
func sanitized(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		i += n
		if r == utf8.RuneError && n == 1 || !infoset.IsChar(r) {
			r = 0xFFFD
		}
		b.WriteRune(r)
	}
	return b.String()
}

// attempts writes at most n times.
type attempts struct {
	n    int
	b    bytes.Buffer
	errs int
}

var errAttempt = errors.New("no more writes")

func (a *attempts) Write(p []byte) (int, error) {
	if a.n == 0 {
		a.errs++
		return 0, errAttempt
	}
	a.n--
	return a.b.Write(p)
}

type c22Doc struct {
	XMLName xml.Name `xml:"d"`
	A       string   `xml:"a,attr"`
	B       []byte   `xml:"b,attr"`
	T       string   `xml:"t"`
	U       []byte   `xml:"u"`
	C       c22Text  `xml:"c"`
	S       *c22Data `xml:"s"`
}

type c22Text struct {
	V string `xml:",chardata"`
}

type c22Data struct {
	V string `xml:",cdata"`
}

// escapeOnce checks all ways to write s.
func escapeOnce(t *T, s string) bool {
	t.Evals(1)
	want := sanitized(s)
	fail := func(key, how string, got string) bool {
		t.Failf(key, "%s of %q reads as %q, want %q", how, clip(s, 400), clip(got, 400), clip(want, 400))
		return false
	}
	// EscapeText, Escape, EncodeToken
	var b1, b2, b3 bytes.Buffer
	if err := xml.EscapeText(&b1, []byte(s)); err != nil {
		t.Failf("error", "EscapeText(%q): %v", s, err)
		return false
	}
	xml.Escape(&b2, []byte(s))
	e := xml.NewEncoder(&b3)
	if err := e.EncodeToken(xml.CharData(s)); err != nil || e.Flush() != nil {
		t.Failf("error", "EncodeToken(%q): %v", s, err)
		return false
	}
	for _, x := range []struct{ how, out string }{{"EscapeText", b1.String()}, {"Escape", b2.String()}, {"EncodeToken", b3.String()}} {
		if strings.ContainsAny(x.out, "<>\r") || strings.Contains(x.out, "\x00") {
			t.Failf("markup", "%s(%q) = %q", x.how, s, x.out)
			return false
		}
		n, err := infoset.Parse("<r>" + x.out + "</r>")
		if err != nil {
			t.Failf("markup", "%s(%q) = %q: %v", x.how, s, x.out, err)
			return false
		}
		if n.Text() != want {
			return fail("text", x.how, n.Text())
		}
		// escaped text is also good between quotes of either kind
		if strings.ContainsAny(x.out, "\"'") {
			t.Failf("quotes", "%s(%q) = %q has quotes", x.how, s, x.out)
			return false
		}
		var back struct {
			V string `xml:",chardata"`
		}
		if err := xml.Unmarshal([]byte("<r>"+x.out+"</r>"), &back); err != nil || back.V != want {
			return fail("read-back", x.how, fmt.Sprint(back.V, err))
		}
	}
	// the reference
	var sb bytes.Buffer
	stdxml.EscapeText(&sb, []byte(s))
	nl := strings.NewReplacer("&#xA;", "\n", "&#x9;", "\t")
	if nl.Replace(b1.String()) != nl.Replace(sb.String()) {
		t.Failf("reference", "EscapeText(%q) = %q, want %q", s, b1.String(), sb.String())
		return false
	}
	// fields
	in := &c22Doc{A: s, B: []byte(s), T: s, U: []byte(s), C: c22Text{s}}
	if want == s && !strings.Contains(s, "\r") {
		in.S = &c22Data{s}
	}
	out, err := xml.Marshal(in)
	if err != nil {
		t.Failf("error", "Marshal(%q): %v", s, err)
		return false
	}
	n, err := infoset.Parse(string(out))
	if err != nil {
		t.Failf("markup", "Marshal(%q) = %q: %v", clip(s, 400), clip(string(out), 2000), err)
		return false
	}
	for _, name := range []string{"a", "b"} {
		if v, ok := n.Attr("", name); v != want || !ok {
			return fail("attribute", "attribute "+name, v)
		}
	}
	kids := n.Elems()
	if len(kids) != 3 && len(kids) != 4 {
		t.Failf("markup", "Marshal(%q) = %q: %d children", clip(s, 400), clip(string(out), 2000), len(kids))
		return false
	}
	for _, k := range kids {
		if len(k.Elems()) > 0 || k.Text() != want {
			return fail("element", "element "+k.Local, k.Text())
		}
	}
	if in.S != nil {
		t.Obs("texts written as CDATA")
	}
	var back c22Doc
	if err := xml.Unmarshal(out, &back); err != nil {
		t.Failf("read-back", "%v\n%s", err, clip(string(out), 2000))
		return false
	}
	if back.A != want || string(back.B) != want || back.T != want || string(back.U) != want || back.C.V != want || in.S != nil && back.S.V != want {
		t.Failf("read-back", "%q reads as %+v", s, back)
		return false
	}
	t.Obs("texts written and read in all ways")
	if b1.String() != s {
		t.Nontrivial(s)
	}
	return true
}

func c22Soup(r *rand.Rand) string {
	var b strings.Builder
	for k := 1 + r.IntN(30); k > 0; k-- {
		switch r.IntN(8) {
		case 0, 1:
			b.WriteString([]string{"<", ">", "&", "\"", "'", "]]>", "]]", "]", "<![CDATA[", "&amp;", "&#60;", "-->", "<!--", "?>", "</r>"}[r.IntN(15)])
		case 2:
			b.WriteString([]string{"\n", "\r", "\r\n", "\t", " ", "  ", "\u0085", "\u2028"}[r.IntN(8)])
		case 3:
			b.WriteByte(byte(r.IntN(256)))
		case 4:
			b.WriteString([]string{"\xff", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe2\x82", "\uFFFD", "\uFFFE", "\uFFFF", "\U0010FFFF", "\ufeff", "\x00", "\x1f", "\x7f"}[r.IntN(13)])
		case 5:
			b.WriteRune(rune(r.IntN(0x110000)))
		default:
			b.WriteString([]string{"text", "a", "é", "中文", "x y"}[r.IntN(5)])
		}
	}
	s := b.String()
	if r.IntN(30) == 0 {
		s = strings.Repeat(s, 1+r.IntN(200))
	}
	return s
}

func runC22(c *Ctx) {
	c.Cases("codepoints", 0x110000/256, func(t *T) {
		var all strings.Builder
		for i := 0; i < 256; i++ {
			r := t.Idx*256 + i
			var s string
			if r >= 0xD800 && r < 0xE000 {
				s = string([]byte{0xED, byte(0x80 | r>>6&0x3f), byte(0x80 | r&0x3f)})
			} else {
				s = string(rune(r))
			}
			all.WriteString(s)
			if r < 0x3000 || r >= 0xD700 && r < 0xE100 || r >= 0xFE00 && r < 0x10100 || r&0xffff >= 0xfff0 {
				if !escapeOnce(t, s) || !escapeOnce(t, "x"+s) || !escapeOnce(t, s+"]]>") {
					return
				}
				t.Obs("code points alone")
			}
		}
		t.ObsN("code points", 256)
		escapeOnce(t, all.String())
	})
	c.Require("code points", 0x110000)
	c.Cases("pairs", 256, func(t *T) {
		for i := 0; i < 256; i++ {
			s := string([]byte{byte(t.Idx), byte(i)})
			t.Obs("pairs of bytes")
			if !escapeOnce(t, s) {
				return
			}
		}
	})
	c.Require("pairs of bytes", 65536)
	c.Cases("strings", c.N(20000, 600000), func(t *T) {
		s := c22Soup(t.R)
		if !escapeOnce(t, s) {
			return
		}
		// a writer that fails at each write
		var b bytes.Buffer
		count := &attempts{n: -1}
		if err := xml.EscapeText(count, []byte(s)); err != nil {
			t.Failf("error", "EscapeText: %v", err)
			return
		}
		xml.EscapeText(&b, []byte(s))
		if count.b.String() != b.String() {
			t.Failf("writer", "other bytes for another writer")
		}
		writes := -1 - count.n
		for _, k := range []int{0, t.R.IntN(writes), writes - 1} {
			w := &attempts{n: k}
			err := xml.EscapeText(w, []byte(s))
			if err != errAttempt {
				t.Failf("fault", "EscapeText(%q) with a writer failing at write %d of %d: %v", s, k, writes, err)
				return
			}
			if w.errs != 1 || !strings.HasPrefix(b.String(), w.b.String()) {
				t.Failf("fault", "EscapeText(%q) went on after the error, or wrote %q", s, w.b.String())
				return
			}
			w = &attempts{n: k}
			xml.Escape(w, []byte(s))
			t.Obs("failing writes")
		}
		if t.Idx < 2 {
			t.Sample("%q -> %q", s, b.String())
		}
	})
	// Long texts, with what has to be escaped anywhere in them.
	c.Cases("long", c.N(100, 2000), func(t *T) {
		n := sizeUpTo(t.R, 131073)
		if t.Idx%5 == 0 {
			n = []int{1 << 18, 1 << 19, 1<<20 - 1, 1 << 20, 1<<20 + 1, 1 << 21, 3 << 20}[t.R.IntN(7)]
		}
		unit := []string{"x", "0123456789abcdef", "é", "\u4e2d", "\U0001F600", "]", "\n", "-"}[t.R.IntN(8)]
		if n < 70000 && t.R.IntN(4) == 0 {
			unit = []string{"]]>", "<", "&", "\"", "]]>\r", "\x01", "\xff"}[t.R.IntN(7)]
		}
		s := strings.Repeat(unit, n/len(unit)+1)
		for i := t.R.IntN(4); i >= 0; i-- {
			at := t.R.IntN(len(s) + 1)
			if t.R.IntN(2) == 0 {
				at = len(s)
			}
			for at < len(s) && !utf8.RuneStart(s[at]) {
				at++
			}
			s = s[:at] + c22Soup(t.R) + s[at:]
		}
		if escapeOnce(t, s) {
			t.Obs("long texts")
			t.ObsN("bytes of long texts", len(s))
		}
	})
	c.Require("long texts", 90)
	c.Require("failing writes", 50000)
	c.Require("texts written as CDATA", 5000)

	// comments
	c.Cases("comments", c.N(5000, 100000), func(t *T) {
		s := strings.ToValidUTF8(c22Soup(t.R), "")
		s = strings.Map(func(r rune) rune {
			if !infoset.IsChar(r) || r == '\r' {
				return -1
			}
			return r
		}, s)
		if t.R.IntN(50) == 0 {
			s = strings.Repeat("c", sizeUpTo(t.R, 70000)) + s
		}
		switch t.R.IntN(3) {
		case 0:
			s = strings.ReplaceAll(s, "--", "-")
		case 1:
			s = strings.ReplaceAll(s, "-", "") + "-"
		}
		type com struct {
			XMLName xml.Name `xml:"d"`
			C       string   `xml:",comment"`
			T       string   `xml:"t"`
		}
		t.Evals(1)
		out, err := xml.Marshal(&com{C: s, T: "x"})
		type comB struct {
			XMLName xml.Name `xml:"d"`
			C       []byte   `xml:",comment"`
			T       string   `xml:"t"`
		}
		type comP struct {
			XMLName xml.Name `xml:"d"`
			C       *string  `xml:",comment"`
			T       string   `xml:"t"`
		}
		for _, other := range []any{&comB{C: []byte(s), T: "x"}, &comP{C: &s, T: "x"}} {
			if out2, err2 := xml.Marshal(other); (err2 == nil) != (err == nil) || err == nil && string(out) != string(out2) {
				t.Failf("comment", "comment %q as %T: %s, %v, want %s, %v", s, other, out2, err2, out, err)
				return
			}
		}
		if strings.Contains(s, "--") {
			if err == nil {
				t.Failf("comment", "comment %q is accepted: %s", s, out)
			}
			t.Obs("comments refused")
			return
		}
		if err != nil {
			t.Failf("comment", "comment %q: %v", s, err)
			return
		}
		var back com
		n, err := infoset.Parse(string(out))
		if err != nil || len(n.Elems()) != 1 || n.Text() != "" {
			t.Failf("comment", "comment %q: %s: %v", s, out, err)
			return
		}
		if err := xml.Unmarshal(out, &back); err != nil || strings.TrimSuffix(back.C, " ") != strings.TrimSuffix(s, " ") {
			t.Failf("comment", "comment %q reads as %q, %v", s, back.C, err)
			return
		}
		t.Obs("comments written")
	})
	c.Require("comments refused", 300)
	c.Require("comments written", 2000)
}
