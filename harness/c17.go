package main

import (
	"bytes"
	stdxml "encoding/xml"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing/iotest"

	"github.com/Eyevinn/dash-mpd/xml"
)

func init() {
	register(&Check{ID: "C17", Level: "exploration",
		Rule: "Generated documents with every kind of markup, damaged documents and soup are decoded with all option sets (strict or not, auto-close, entities, charset, default space) by random mixes of Token, RawToken and Skip, in one piece and in many chunkings incl. failing readers; tokens, names, offsets, line and column and the final error are compared with encoding/xml (differences documented by the package mapped), copies are checked after decoding. Non-trivial: at least 4 tokens.",
		Run:  runC17})
}

type decOpts struct {
	strict, auto, entity, charset bool
	html                          bool // with the tables of HTML
	space                         string
}

func (o decOpts) String() string {
	return fmt.Sprintf("strict %t, auto-close %t, entities %t, HTML tables %t, charset %t, default space %q", o.strict, o.auto, o.entity, o.html, o.charset, o.space)
}

var decEntities = map[string]string{"nbsp": "\u00a0", "copy": "<©>", "empty": ""}

type latin struct{ r io.Reader }

func (l latin) Read(p []byte) (int, error) {
	b := make([]byte, max(1, len(p)/2))
	n, err := l.r.Read(b)
	var s []byte
	for _, c := range b[:n] {
		s = append(s, string(rune(c))...)
	}
	return copy(p, s), err
}

func charsetReader(label string, in io.Reader) (io.Reader, error) {
	if label == "latin" {
		return latin{in}, nil
	}
	return nil, errors.New("charset " + label)
}

func (o decOpts) ours(r io.Reader) *xml.Decoder {
	d := xml.NewDecoder(r)
	o.set(d)
	return d
}

func (o decOpts) set(d *xml.Decoder) {
	d.Strict = o.strict
	if o.auto {
		d.AutoClose = []string{"br", "hr"}
	}
	if o.entity {
		d.Entity = decEntities
	}
	if o.html {
		d.Entity, d.AutoClose = xml.HTMLEntity, xml.HTMLAutoClose
	}
	if o.charset {
		d.CharsetReader = charsetReader
	}
	d.DefaultSpace = o.space
}

func (o decOpts) std(r io.Reader) *stdxml.Decoder {
	d := stdxml.NewDecoder(r)
	o.setStd(d)
	return d
}

func (o decOpts) setStd(d *stdxml.Decoder) {
	d.Strict = o.strict
	if o.auto {
		d.AutoClose = []string{"br", "hr"}
	}
	if o.entity {
		d.Entity = decEntities
	}
	if o.html {
		d.Entity, d.AutoClose = stdxml.HTMLEntity, stdxml.HTMLAutoClose
	}
	if o.charset {
		d.CharsetReader = charsetReader
	}
	d.DefaultSpace = o.space
}

const (
	opToken = iota
	opRaw
	opSkip
	opCopy
)

type decStep struct {
	what   string
	off    int64
	ln, cl int
	final  bool
	diverg bool // where this package refuses by documentation
}

// plan gives the operation of step i; the same for all decoders of one case.
type plan struct {
	ops  []byte
	mode int
}

func (p plan) at(i int) byte {
	if i < len(p.ops) {
		return p.ops[i]
	}
	if p.mode == 1 {
		return opRaw
	}
	return opToken
}

func oursTrace(d *xml.Decoder, p plan, limit int, t *T) []decStep {
	var out []decStep
	type kept struct {
		tok  xml.Token
		text string
	}
	var copies []kept
	for i := 0; i < limit; i++ {
		var tok xml.Token
		var err error
		s := decStep{}
		switch p.at(i) {
		case opRaw:
			tok, err = d.RawToken()
		case opSkip:
			err = d.Skip()
			s.what = "skip"
		case opCopy:
			tok, err = d.Token()
			if err == nil {
				cp := xml.CopyToken(tok)
				copies = append(copies, kept{cp, tokStr(cp)})
			}
		default:
			tok, err = d.Token()
		}
		if tok != nil {
			s.what = tokStr(tok)
		}
		if err != nil {
			s.what += " error " + errStr(err)
			s.final = true
		}
		s.off = d.InputOffset()
		s.ln, s.cl = d.InputPos()
		out = append(out, s)
		if err != nil {
			// an error is final
			if _, err2 := d.Token(); err2 == nil {
				t.Failf("error-not-final", "Token succeeds after %v", err)
			}
			break
		}
	}
	for _, k := range copies {
		t.Obs("copied tokens checked after decoding")
		if tokStr(k.tok) != k.text {
			t.Failf("copy", "a copied token was %s and became %s", k.text, tokStr(k.tok))
		}
	}
	return out
}

func stdTrace(d *stdxml.Decoder, p plan, limit int) []decStep {
	var out []decStep
	for i := 0; i < limit; i++ {
		var tok stdxml.Token
		var err error
		s := decStep{}
		op := p.at(i)
		switch op {
		case opRaw:
			tok, err = d.RawToken()
		case opSkip:
			err = d.Skip()
			s.what = "skip"
		default:
			tok, err = d.Token()
		}
		if tok != nil {
			s.what = stdTokStr(tok, op == opRaw)
			s.diverg = divergent(tok, op == opRaw)
		}
		if err != nil {
			s.what += " error " + errStr(err)
			s.final = true
		}
		s.off = d.InputOffset()
		s.ln, s.cl = d.InputPos()
		out = append(out, s)
		if err != nil {
			break
		}
	}
	return out
}

// compareTraces gives the first difference.
// A name with a colon too many is refused by documentation; the reference takes some.
func compareTraces(got, want []decStep, text string) string {
	for i := range want {
		if want[i].diverg {
			if i < len(got) && !strings.Contains(got[i].what, "error syntax error") {
				return fmt.Sprintf("step %d is to be refused by documentation, but gives %s", i, got[i].what)
			}
			return ""
		}
		if i >= len(got) {
			return fmt.Sprintf("step %d is missing, want %s", i, want[i].what)
		}
		g, w := got[i], want[i]
		if strings.Contains(g.what, "error syntax error") && badColonAt(text, int(g.off)) {
			return ""
		}
		if g.what != w.what {
			return fmt.Sprintf("step %d is %s, want %s", i, g.what, w.what)
		}
		if strings.Contains(w.what, "error syntax error") {
			continue
		}
		if g.off != w.off || g.ln != w.ln || g.cl != w.cl {
			return fmt.Sprintf("step %d (%s) ends at offset %d line %d column %d, want %d, %d, %d", i, clip(g.what, 200), g.off, g.ln, g.cl, w.off, w.ln, w.cl)
		}
	}
	if len(got) > len(want) {
		return fmt.Sprintf("extra step %s", got[len(want)].what)
	}
	return ""
}

// charForms are the places of a document where a character stands.
var charForms = []struct{ name, before, after string }{
	{"element name", "<", "/>"}, {"in an element name", "<a", "/>"}, {"attribute name", "<a ", "='v'/>"}, {"in an attribute name", "<a b", "='v'/>"},
	{"target", "<?", "?>"}, {"in a target", "<?a", "?>"}, {"text", "<a>", "</a>"}, {"attribute value", "<a b='", "'/>"}, {"comment", "<!--", "-->"},
	{"CDATA", "<a><![CDATA[", "]]></a>"}, {"instruction", "<?a b", "?>"}, {"directive", "<!D ", ">"}, {"entity name", "<a>&", ";</a>"}, {"unquoted value", "<a b=", "></a>"}, {"prefix", "<a:", "/>"},
}

func runC17(c *Ctx) {
	// Every character at every place.
	chunk := 256
	c.Cases("characters", 0x110000/chunk, func(t *T) {
		if t.Idx*chunk >= 0x10000 && !c.Thorough() && t.R.IntN(8) > 0 {
			return
		}
		t.Evals(chunk)
		for i := 0; i < chunk; i++ {
			n := t.Idx*chunk + i
			ch := string(rune(n))
			if n >= 0xD800 && n < 0xE000 { // as UTF-8 does not allow it
				ch = string([]byte{0xE0 | byte(n>>12), 0x80 | byte(n>>6)&0x3F, 0x80 | byte(n)&0x3F})
			}
			judge := func(o decOpts, what, text string) {
				p := plan{mode: i % 2}
				got, want := oursTrace(o.ours(strings.NewReader(text)), p, 20, t), stdTrace(o.std(strings.NewReader(text)), p, 20)
				if d := compareTraces(got, want, text); d != "" {
					t.Failf("character", "U+%04X as %s: %s\n%s\n%q\ngot  %v\nwant %v", n, what, d, o, text, got, want)
				}
			}
			o := decOpts{strict: (n+n/chunk)%3 > 0}
			for _, f := range charForms {
				judge(o, f.name, f.before+ch+f.after)
			}
			judge(o, "hexadecimal reference", fmt.Sprintf("<a>&#x%X;</a>", n))
			judge(o, "decimal reference", fmt.Sprintf("<a b='&#%d;'/>", n))
		}
		t.ObsN("characters at all places", chunk)
		t.Nontrivial("characters", fmt.Sprint(t.Idx))
	})
	c.Require("characters at all places", 0x10000)
	// The tables for HTML.
	c.Serial("HTML", 1, func(t *T) {
		for name, want := range stdxml.HTMLEntity {
			if got, ok := xml.HTMLEntity[name]; !ok || got != want {
				t.Failf("html-entity", "%s is %q, want %q", name, got, want)
			}
			t.Obs("HTML entities compared")
		}
		if len(xml.HTMLEntity) != len(stdxml.HTMLEntity) {
			t.Failf("html-entity", "%d entities, want %d", len(xml.HTMLEntity), len(stdxml.HTMLEntity))
		}
		if fmt.Sprint(xml.HTMLAutoClose) != fmt.Sprint(stdxml.HTMLAutoClose) {
			t.Failf("html-autoclose", "%v, want %v", xml.HTMLAutoClose, stdxml.HTMLAutoClose)
		}
	})
	c.Require("HTML entities compared", 200)
	c.Cases("streams", c.N(40000, 1500000), func(t *T) {
		r := t.R
		g := newXgen(r)
		g.html = r.IntN(3) == 0
		var text string
		switch r.IntN(8) {
		case 0:
			text = soupText(t, r.IntN(30))
		case 1, 2:
			text = damage(r, g.doc())
		default:
			text = g.doc()
		}
		if t.Idx%20 == 7 { // an end tag that is like the start tag
			l := likeNames(r, sizeUpTo(r, 500), 3)
			a, b := l[0], l[r.IntN(len(l))]
			if r.IntN(3) == 0 {
				a, b = "p:"+a, "p:"+b
			}
			text = "<r xmlns:p='urn:p'><" + a + ">" + text + "</" + b + "></r>"
			t.Obs("end tags that are like the start tag")
		}
		if t.Idx%160 == 159 {
			text = enlarge(r, text)
			t.Obs("large documents")
		}
		o := decOpts{strict: r.IntN(2) == 0, auto: r.IntN(3) == 0, entity: r.IntN(3) == 0, charset: r.IntN(3) == 0, space: []string{"", "", "urn:default"}[r.IntN(3)]}
		if g.html && r.IntN(3) > 0 {
			o.strict = false
			o.html = r.IntN(3) == 0
		}
		if namedXmlns(o, text) {
			return // the reference cannot tell such a namespace from a declaration
		}
		p := plan{mode: r.IntN(3)}
		switch p.mode {
		case 2:
			for i := 0; i < 200; i++ {
				p.ops = append(p.ops, []byte{opToken, opToken, opCopy, opCopy, opSkip}[r.IntN(5)])
				if r.IntN(3) > 0 && p.ops[i] == opSkip {
					p.ops[i] = opToken
				}
			}
		case 0:
			for i := 0; i < 200; i++ {
				p.ops = append(p.ops, byte(r.IntN(2)*opCopy))
			}
		}
		limit := 2*len(text) + 10
		want := stdTrace(o.std(strings.NewReader(text)), p, limit)
		got := oursTrace(o.ours(strings.NewReader(text)), p, limit, t)
		if p.mode == 2 && hasDivergence(o, text) {
			// a skipped part may hold what is refused by documentation
			t.Obs("streams with skipped documented differences")
		} else if d := compareTraces(got, want, text); d != "" {
			t.Failf("differs", "%s\nmode %d, %s\n%q\ngot  %v\nwant %v", d, p.mode, o, clip(text, 3000), clip(fmt.Sprint(got), 4000), clip(fmt.Sprint(want), 4000))
			return
		}
		t.Obs([]string{"token streams", "raw token streams", "streams with skips"}[p.mode])
		t.ObsN("tokens compared", len(want))
		if !o.strict {
			t.Obs("lenient streams")
		}
		if want[len(want)-1].what == " error EOF" {
			t.Obs("complete documents")
		} else {
			t.Obs("documents refused")
		}
		if len(want) >= 4 {
			t.Nontrivial(text, o.String(), fmt.Sprint(p.mode))
		}
		if t.Idx < 2 {
			t.Sample("%s: %s -> %v", o, text, want)
		}
		// The cutting of the input does not matter.
		for k := 0; k < 3; k++ {
			var rd io.Reader
			how := ""
			switch r.IntN(6) {
			case 0:
				rd, how = iotest.OneByteReader(strings.NewReader(text)), "one byte at a time"
			case 1:
				rd, how = iotest.DataErrReader(strings.NewReader(text)), "data with the end"
			case 2:
				rd, how = iotest.HalfReader(strings.NewReader(text)), "halves"
			case 3:
				n := 1 + r.IntN(20)
				rd, how = &chunky{s: text, n: n, with: r.IntN(2) == 0}, fmt.Sprintf("chunks of %d", n)
			case 4:
				rd, how = &chunky{s: text, n: 1 + r.IntN(5), zero: 2 + r.IntN(3)}, "chunks and empty reads"
			case 5:
				rd, how = &bytesOnly{bytes.NewReader([]byte(text))}, "a byte reader"
			}
			again := oursTrace(o.ours(rd), p, limit, t)
			t.Evals(1)
			t.Obs("chunkings compared")
			if d := compareTraces(again, got, ""); d != "" {
				t.Failf("chunking", "%s: %s\n%q", how, d, clip(text, 3000))
				return
			}
		}
		// A reader that fails gives its error, after the same tokens.
		cut := r.IntN(len(text) + 1)
		fail := errors.New("reader failed")
		with := r.IntN(2) == 0
		n := 1 + r.IntN(50)
		got = oursTrace(o.ours(&chunky{s: text[:cut], n: n, err: fail, with: with}), p, limit, t)
		want = stdTrace(o.std(&chunky{s: text[:cut], n: n, err: fail, with: with}), p, limit)
		t.Evals(1)
		t.Obs("failing readers")
		if p.mode == 2 && hasDivergence(o, text[:cut]) {
			return
		}
		if d := compareTraces(got, want, text); d != "" {
			t.Failf("failing-reader", "reader failing after %d bytes: %s\n%q", cut, d, clip(text[:cut], 3000))
		}
	})
	c.Require("large documents", 200)
	c.Cases("token readers", c.N(8000, 300000), func(t *T) {
		r := t.R
		text := newXgen(r).doc()
		var ours []xml.Token
		var std []stdxml.Token
		d := xml.NewDecoder(strings.NewReader(text))
		sd := stdxml.NewDecoder(strings.NewReader(text))
		for {
			a, err := d.RawToken()
			b, err2 := sd.RawToken()
			if err != nil || err2 != nil || divergent(b, false) {
				break
			}
			if r.IntN(60) == 0 {
				continue
			}
			ours = append(ours, xml.CopyToken(a))
			std = append(std, stdxml.CopyToken(b))
		}
		o := decOpts{strict: r.IntN(2) == 0, auto: r.IntN(3) == 0, space: []string{"", "urn:default"}[r.IntN(2)]}
		with := r.IntN(2) == 0
		var end error = io.EOF
		if r.IntN(3) == 0 {
			end = errFault
		}
		a := xml.NewTokenDecoder(&tokList[xml.Token]{ours, with, end})
		b := stdxml.NewTokenDecoder(&tokList[stdxml.Token]{std, with, end})
		o.set(a)
		o.setStd(b)
		for i := 0; ; i++ {
			x, err := a.Token()
			y, err2 := b.Token()
			xs, ys := errStr(err), errStr(err2)
			if x != nil {
				xs += tokStr(x)
			}
			if y != nil {
				ys += stdTokStr(y, false)
			}
			if xs != ys {
				t.Failf("token-reader", "token %d is %s, want %s\n%s, %q", i, xs, ys, o, text)
				return
			}
			if err != nil {
				break
			}
			t.Obs("tokens from token readers")
		}
		t.Nontrivial("reader", text, o.String())
		// A decoder made from a decoder is that decoder.
		if dd := xml.NewTokenDecoder(d); dd != d {
			t.Failf("same-decoder", "NewTokenDecoder of a Decoder is not that Decoder")
		}
	})
	c.Require("token streams", 10000)
	c.Require("raw token streams", 10000)
	c.Require("streams with skips", 5000)
	c.Require("chunkings compared", 50000)
	c.Require("failing readers", 20000)
	c.Require("copied tokens checked after decoding", 50000)
	c.Require("complete documents", 10000)
	c.Require("tokens from token readers", 20000)
}

type tokList[T any] struct {
	l    []T
	with bool
	end  error
}

func (s *tokList[T]) Token() (T, error) {
	var z T
	if len(s.l) == 0 {
		return z, s.end
	}
	x := s.l[0]
	s.l = s.l[1:]
	if len(s.l) == 0 && s.with {
		return x, s.end
	}
	return x, nil
}

// bytesOnly is read byte by byte only.
type bytesOnly struct{ r *bytes.Reader }

func (b *bytesOnly) ReadByte() (byte, error)    { return b.r.ReadByte() }
func (b *bytesOnly) Read(p []byte) (int, error) { return b.r.Read(p[:min(len(p), 3)]) }

// hasDivergence reports whether the document holds what this package refuses by documentation.
func hasDivergence(o decOpts, text string) bool {
	d := o.std(strings.NewReader(text))
	for {
		tok, err := d.Token()
		if err != nil {
			return false
		}
		if divergent(tok, false) {
			return true
		}
	}
}

// badColonAt reports whether a name with a colon at an end, or two, stops at off.
func badColonAt(text string, off int) bool {
	return badColonIn(text, off) || badColonIn(latinText(text), off) // offsets are those of the text as converted
}

// latinText is a text in UTF-8 whose bytes were taken for characters of ISO 8859-1.
func latinText(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		b.WriteRune(rune(s[i]))
	}
	return b.String()
}

func badColonIn(text string, off int) bool {
	if off > len(text) {
		return false
	}
	n := text[:off]
	n = n[strings.LastIndexAny(n, " \t\r\n<>/='\"")+1:]
	return strings.HasPrefix(n, ":") || strings.HasSuffix(n, ":") || strings.Count(n, ":") > 1
}

// namedXmlns reports whether a namespace is named xmlns; the reference cannot tell it from a declaration.
func namedXmlns(o decOpts, text string) bool {
	d := o.std(strings.NewReader(text))
	for {
		tok, err := d.RawToken()
		if err != nil {
			return false
		}
		if st, ok := tok.(stdxml.StartElement); ok {
			for _, a := range st.Attr {
				if a.Value == "xmlns" && (a.Name.Local == "xmlns" || a.Name.Space == "xmlns") {
					return true
				}
			}
		}
	}
}
