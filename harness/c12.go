package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/Eyevinn/dash-mpd/mpd"
)

func init() {
	register(&Check{ID: "C12", Level: "exploration",
		Rule: "Trees (built in all orders of linking and setting, read from text, cloned, with Representations moved between AdaptationSets) whose template, MIME type, codecs and content protection are set at any subset of the levels; every getter is compared with a model, and templates are substituted by an independent tokeniser. Non-trivial: a getter that answers from a value that was set.",
		Run:  runC12})
}

// tmplPart is one part of a template: a literal without $, or an identifier.
type tmplPart struct{ lit, id string }

// refTemplate substitutes what a Representation knows and keeps the rest.
func refTemplate(parts []tmplPart, id string, bw uint32) (tmpl, want string) {
	for _, p := range parts {
		if p.id == "" {
			tmpl += p.lit
			want += p.lit
			continue
		}
		tmpl += "$" + p.id + "$"
		switch {
		case p.id == "-": // the escape
			panic("unused")
		case p.id == "RepresentationID":
			want += id
		case p.id == "Bandwidth":
			want += fmt.Sprint(bw)
		case strings.HasPrefix(p.id, "Bandwidth%0"):
			w := 0
			for _, c := range p.id[len("Bandwidth%0") : len(p.id)-1] {
				w = w*10 + int(c-'0')
			}
			s := fmt.Sprint(bw)
			for len(s) < w {
				s = "0" + s
			}
			want += s
		default:
			want += "$" + p.id + "$"
		}
	}
	return
}

func genTemplate(t *T) []tmplPart {
	r := t.R
	lits := []string{"a/b", "Bandwidth", "RepresentationID", "Number", "_", ".m4s", "?x=%05d&y=1", "%", "é", " ", "-", "/", "Bandwidth%05d", "Time", "\\1", "${1}", "0"}
	ids := []string{"RepresentationID", "Bandwidth", "Number", "Time", "SubNumber", "Number%05d", "Time%010d", "SubNumber%02d", "Bandwidth%08d", "Bandwidth%01d", "Bandwidth%012d", "Bandwidth%03d", ""}
	var out []tmplPart
	n := r.IntN(8)
	if r.IntN(150) == 0 {
		n = sizeUpTo(r, 3000)
		t.Obs("very long templates")
	}
	if r.IntN(150) == 0 {
		out = append(out, tmplPart{lit: strings.ReplaceAll(longStr(r, sizeUpTo(r, 70000), false), "$", "")})
		t.Obs("very long templates")
	}
	for i := n; i > 0; i-- {
		if r.IntN(2) == 0 {
			out = append(out, tmplPart{lit: strings.ReplaceAll(lits[r.IntN(len(lits))], "$", "")})
			continue
		}
		id := ids[r.IntN(len(ids))]
		if r.IntN(12) == 0 {
			id = fmt.Sprintf("Bandwidth%%0%dd", r.IntN(30))
			if strings.HasSuffix(id, "%00d") {
				id = "Bandwidth"
			}
		}
		if id == "" {
			out = append(out, tmplPart{lit: "$$"})
			t.Obs("escaped dollars")
			continue
		}
		out = append(out, tmplPart{id: id})
	}
	return out
}

func runC12(c *Ctx) {
	ids := []string{"v1", "", "$Bandwidth$", "$RepresentationID$", "a$b", "é/1", "$$", "1", "$Number$", "%05d", "${0}", "$1", "\\0"}
	bws := []uint32{0, 1, 9, 10, 99999, 128000, 4294967295, 2147483648}
	c.Cases("getters", c.N(20000, 1000000), func(t *T) {
		r := t.R
		before := map[string][]string{}
		one := func(p string) string {
			if r.IntN(2) == 0 {
				return ""
			}
			s := p + fmt.Sprint(r.IntN(100))
			if r.IntN(60) == 0 {
				s += longStr(r, sizeUpTo(r, 5000), true)
			}
			if old := before[p]; len(old) > 0 && r.IntN(3) == 0 {
				s = near(r, old[r.IntN(len(old))])
			}
			before[p] = append(before[p], s)
			return s
		}
		// what the getters do not depend on
		var f *filler
		if r.IntN(6) == 0 {
			f = newFiller(r, 0)
			t.Obs("trees with everything else")
		}
		rest := func(v any) {
			if f != nil {
				f.budget = 3
				f.fill(reflect.ValueOf(v).Elem())
			}
		}
		newRep := func() *mpd.RepresentationType {
			x := mpd.NewRepresentation()
			rest(x)
			x.SegmentTemplate, x.MimeType, x.Codecs, x.ContentProtections, x.Id, x.Bandwidth = nil, "", "", nil, "", 0
			return x
		}
		type tm struct {
			st           *mpd.SegmentTemplateType
			init, media  []tmplPart
			tInit, tMedi string
		}
		newT := func() *tm {
			if r.IntN(3) == 0 {
				return nil
			}
			x := &tm{st: mpd.NewSegmentTemplate(), init: genTemplate(t), media: genTemplate(t)}
			rest(x.st)
			x.st.Initialization, _ = refTemplate(x.init, "", 0)
			x.st.Media, _ = refTemplate(x.media, "", 0)
			return x
		}
		prot := func() []*mpd.ContentProtectionType {
			var out []*mpd.ContentProtectionType
			n := r.IntN(3)
			if r.IntN(200) == 0 {
				n = sizeUpTo(r, 1000)
			}
			for i := n; i > 0; i-- {
				cp := mpd.NewContentProtection()
				if n < 3 {
					rest(cp)
				}
				cp.SchemeIdUri = mpd.AnyURI(fmt.Sprintf("urn:%d", r.IntN(1000)))
				out = append(out, cp)
			}
			return out
		}
		type level struct {
			tmpl         *tm
			mime, codecs string
			prot         []*mpd.ContentProtectionType
		}
		lv := func() level {
			return level{newT(), one("video/"), one([]string{"avc1.", "mp4a.40.", "avc1.640028,mp4a.40."}[r.IntN(3)]), prot()}
		}
		m := mpd.NewMPD("static")
		p := mpd.NewPeriod()
		rest(p)
		p.AdaptationSets, p.SegmentTemplate, p.Duration = nil, nil, nil
		if r.IntN(2) == 0 { // a template of the Period is not that of its AdaptationSets
			p.SegmentTemplate = &mpd.SegmentTemplateType{Media: "period", Initialization: "period"}
		}
		m.AppendPeriod(p)
		var sets []*mpd.AdaptationSetType
		setLv := map[*mpd.AdaptationSetType]level{}
		for i := 1 + r.IntN(3); i > 0; i-- {
			a := mpd.NewAdaptationSet()
			rest(a)
			a.Representations, a.SegmentTemplate = nil, nil
			l := lv()
			setLv[a] = l
			if l.tmpl != nil {
				a.SegmentTemplate = l.tmpl.st
			}
			a.MimeType, a.Codecs, a.ContentProtections = l.mime, l.codecs, l.prot
			p.AppendAdaptationSet(a)
			sets = append(sets, a)
		}
		r1 := newRep()
		l := lv()
		id, bw := ids[r.IntN(len(ids))], bws[r.IntN(len(bws))]
		if r.IntN(60) == 0 {
			id = longStr(r, sizeUpTo(r, 5000), true)
		}
		set := func() {
			if l.tmpl != nil {
				r1.SegmentTemplate = l.tmpl.st
			}
			r1.MimeType, r1.Codecs, r1.ContentProtections = l.mime, l.codecs, l.prot
			r1.Id, r1.Bandwidth = id, bw
		}
		judge := func(a *mpd.AdaptationSetType, how string) {
			al := setLv[a]
			eff := l
			if eff.tmpl == nil {
				eff.tmpl = al.tmpl
			}
			if eff.mime == "" {
				eff.mime = al.mime
			}
			if eff.codecs == "" {
				eff.codecs = al.codecs
			}
			if len(eff.prot) == 0 {
				eff.prot = al.prot
			}
			before := dump(m)
			if g := r1.GetMimeType(); g != eff.mime {
				t.Failf("mimeType", "%s: GetMimeType gives %q, want %q (own %q, set's %q)", how, g, eff.mime, l.mime, al.mime)
			}
			if g := r1.GetCodecs(); g != eff.codecs {
				t.Failf("codecs", "%s: GetCodecs gives %q, want %q (own %q, set's %q)", how, g, eff.codecs, l.codecs, al.codecs)
			}
			if g := r1.GetContentProtections(); !sameList(g, eff.prot) {
				t.Failf("protections", "%s: GetContentProtections gives %d, want %d", how, len(g), len(eff.prot))
			}
			if a.GetMimeType() != al.mime || a.GetCodecs() != al.codecs || !sameList(a.GetContentProtections(), al.prot) || al.tmpl == nil && a.GetSegmentTemplate() != nil || al.tmpl != nil && a.GetSegmentTemplate() != al.tmpl.st {
				t.Failf("set", "%s: a getter of the AdaptationSet does not give what was set", how)
			}
			st := r1.GetSegmentTemplate()
			gi, ei := r1.GetInit()
			gm, em := r1.GetMedia()
			if eff.tmpl == nil {
				if st != nil || !errors.Is(ei, mpd.ErrSegmentTemplateNotSet) || !errors.Is(em, mpd.ErrSegmentTemplateNotSet) {
					t.Failf("no-template", "%s: template %v, GetInit %q %v, GetMedia %q %v without any template", how, st, gi, ei, gm, em)
				}
				t.Obs("no template")
			} else {
				ti, wi := refTemplate(eff.tmpl.init, id, bw)
				tm, wm := refTemplate(eff.tmpl.media, id, bw)
				if st != eff.tmpl.st {
					t.Failf("template", "%s: GetSegmentTemplate gives another template", how)
				}
				if ei != nil || gi != wi {
					t.Failf("init", "%s: GetInit of %q with id %q and bandwidth %d gives %q (%v), want %q", how, ti, id, bw, gi, ei, wi)
				}
				if em != nil || gm != wm {
					t.Failf("media", "%s: GetMedia of %q with id %q and bandwidth %d gives %q (%v), want %q", how, tm, id, bw, gm, em, wm)
				}
				t.Obs("templates substituted")
				if wi != ti || wm != tm {
					t.Obs("templates changed by substitution")
				}
				t.Nontrivial(ti, tm, id, fmt.Sprint(bw))
			}
			if dump(m) != before {
				t.Failf("mutated", "%s: a getter changes the tree", how)
			}
			t.Obs("getters compared")
		}
		if r.IntN(2) == 0 {
			set()
			l0, e0 := r1.GetInit()
			l1, e1 := r1.GetMedia()
			if !errors.Is(e0, mpd.ErrParentNotSet) || !errors.Is(e1, mpd.ErrParentNotSet) {
				t.Failf("no-parent", "GetInit %q %v and GetMedia %q %v of an unlinked Representation", l0, e0, l1, e1)
			}
			// what it has itself is known without a parent, and the rest is absent
			if g := r1.GetMimeType(); g != l.mime {
				t.Failf("no-parent", "GetMimeType of an unlinked Representation gives %q, want %q", g, l.mime)
			}
			if g := r1.GetCodecs(); g != l.codecs {
				t.Failf("no-parent", "GetCodecs of an unlinked Representation gives %q, want %q", g, l.codecs)
			}
			if g := r1.GetContentProtections(); !sameList(g, l.prot) {
				t.Failf("no-parent", "GetContentProtections of an unlinked Representation gives %d, want %d", len(g), len(l.prot))
			}
			if g := r1.GetSegmentTemplate(); l.tmpl == nil && g != nil || l.tmpl != nil && g != l.tmpl.st {
				t.Failf("no-parent", "GetSegmentTemplate of an unlinked Representation gives another template")
			}
			t.Obs("unlinked")
		}
		// siblings have values of their own, which are not those of r1
		type sib struct {
			rep *mpd.RepresentationType
			set *mpd.AdaptationSetType
			l   level
		}
		var sibs []sib
		siblings := func(a *mpd.AdaptationSetType) {
			for i := r.IntN(3); i > 0; i-- {
				s := sib{newRep(), a, lv()}
				if s.l.tmpl != nil {
					s.rep.SegmentTemplate = s.l.tmpl.st
				}
				s.rep.MimeType, s.rep.Codecs, s.rep.ContentProtections = s.l.mime, s.l.codecs, s.l.prot
				a.AppendRepresentation(s.rep)
				sibs = append(sibs, s)
			}
		}
		judgeSiblings := func(how string) {
			for _, s := range sibs {
				al, eff := setLv[s.set], s.l
				if eff.mime == "" {
					eff.mime = al.mime
				}
				if eff.codecs == "" {
					eff.codecs = al.codecs
				}
				if len(eff.prot) == 0 {
					eff.prot = al.prot
				}
				if eff.tmpl == nil {
					eff.tmpl = al.tmpl
				}
				st := s.rep.GetSegmentTemplate()
				if g, h := s.rep.GetMimeType(), s.rep.GetCodecs(); g != eff.mime || h != eff.codecs || !sameList(s.rep.GetContentProtections(), eff.prot) || eff.tmpl == nil && st != nil || eff.tmpl != nil && st != eff.tmpl.st {
					t.Failf("sibling", "%s: a sibling gives %q %q, want %q %q, or another template or protection", how, g, h, eff.mime, eff.codecs)
				}
				t.Obs("siblings compared")
			}
		}
		a := sets[0]
		for _, x := range sets {
			siblings(x)
		}
		a.AppendRepresentation(r1)
		set()
		if r.IntN(2) == 0 {
			siblings(a)
		}
		judge(a, "appended")
		judgeSiblings("appended")
		if len(sets) > 1 { // moved to another set
			if i := indexOf(a.Representations, r1); i >= 0 {
				a.Representations = append(a.Representations[:i:i], a.Representations[i+1:]...)
			}
			a = sets[1]
			a.AppendRepresentation(r1)
			judge(a, "moved")
			judgeSiblings("moved")
		}
		// changed after linking
		nl := lv()
		setLv[a] = nl
		a.SegmentTemplate = nil
		if nl.tmpl != nil {
			a.SegmentTemplate = nl.tmpl.st
		}
		a.MimeType, a.Codecs, a.ContentProtections = nl.mime, nl.codecs, nl.prot
		judge(a, "set changed")
		judgeSiblings("set changed")
		if t.Idx < 3 {
			s, _ := m.WriteToString(" ", false)
			t.Sample("%s", s)
		}
		// the answers survive writing and reading, and cloning
		ai, ri := indexOf(sets, a), indexOf(a.Representations, r1)
		find := func(m2 *mpd.MPD) *mpd.RepresentationType {
			return m2.Periods[0].AdaptationSets[ai].Representations[ri]
		}
		text, err := m.WriteToString("", false)
		if err != nil {
			t.Failf("write", "%v", err)
			return
		}
		m2, err := mpd.ReadFromString(text)
		if err != nil {
			t.Failf("read", "%v\n%s", err, text)
			return
		}
		pa := r1.Parent()
		if pa != a {
			t.Failf("parent", "the parent of the Representation is not the AdaptationSet it was appended to")
			return
		}
		sets2 := map[string]*mpd.RepresentationType{"read again": find(m2), "cloned": find(mpd.Clone(m)), "period cloned": p.Clone().AdaptationSets[ai].Representations[ri], "set cloned": a.Clone().Representations[ri]}
		for _, how := range []string{"read again", "cloned", "period cloned", "set cloned"} {
			q := sets2[how]
			i1, e1 := r1.GetInit()
			i2, e2 := q.GetInit()
			m1, e3 := r1.GetMedia()
			m2, e4 := q.GetMedia()
			if i1 != i2 || m1 != m2 || !errors.Is(e2, e1) || !errors.Is(e4, e3) || q.GetMimeType() != r1.GetMimeType() || q.GetCodecs() != r1.GetCodecs() || len(q.GetContentProtections()) != len(r1.GetContentProtections()) {
				t.Failf("copy", "%s: %q %v %q %v %q %q, want %q %v %q %v %q %q\n%s", how, i2, e2, m2, e4, q.GetMimeType(), q.GetCodecs(), i1, e1, m1, e3, r1.GetMimeType(), r1.GetCodecs(), text)
			}
		}
	})
	c.Require("getters compared", 10000)
	c.Require("templates changed by substitution", 5000)
	c.Require("no template", 500)
	c.Require("trees with everything else", 1000)
	c.Require("unlinked", 1000)
	c.Require("siblings compared", 10000)
}

func indexOf[T comparable](l []T, x T) int {
	for i := range l {
		if l[i] == x {
			return i
		}
	}
	return -1
}
