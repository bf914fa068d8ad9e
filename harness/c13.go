package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/Eyevinn/dash-mpd/mpd"
	"github.com/Eyevinn/dash-mpd/xml"

	"verifharness/infoset"
)

func init() {
	register(&Check{ID: "C13", Level: "exploration",
		Rule: "Events that carry SCTE-35 in either form with the two namespace editions freely mixed and under any prefixes, SCTE-214 extensions under any prefix, and trees made with the constructors, are read, interpreted and written by the code under test; every SCTE element is compared with the model by an independent namespace-aware parser. Non-trivial: at least 2 SCTE elements.",
		Run:  runC13})
}

// countNS counts the elements in the SCTE-35 namespaces.
func countNS(n *infoset.Node) (canonical, legacy int) {
	switch n.NS {
	case nsSCTE35:
		canonical++
	case nsSCTE2016:
		legacy++
	}
	for _, k := range n.Elems() {
		a, b := countNS(k)
		canonical, legacy = canonical+a, legacy+b
	}
	return
}

// structNames lists the names that the elements of SCTE types were read with, in order of fields.
func structNames(v reflect.Value, out map[string]int) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			structNames(v.Elem(), out)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			structNames(v.Index(i), out)
		}
	case reflect.Struct:
		if isSCTE(v.Type()) {
			n := v.FieldByName("XMLName").Interface().(xml.Name)
			out[n.Space+" "+n.Local]++
		}
		for i := 0; i < v.NumField(); i++ {
			if sf := v.Type().Field(i); sf.IsExported() || sf.Anonymous {
				structNames(v.Field(i), out)
			}
		}
	}
}

func modelNames(n *mNode, out map[string]int) {
	if n.typ != nil && (n.ns == nsSCTE35 || n.ns == nsSCTE2016) && !n.leaf && !n.unknown {
		out[n.ns+" "+n.name]++
	}
	if n.unknown {
		return
	}
	for _, k := range n.kids {
		if k.n != nil {
			modelNames(k.n, out)
		}
	}
}

// collectEvents finds all events in a tree.
func collectEvents(v reflect.Value) []*mpd.EventType {
	var out []*mpd.EventType
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		if e, ok := v.Interface().(*mpd.EventType); ok {
			return []*mpd.EventType{e}
		}
		return collectEvents(v.Elem())
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			out = append(out, collectEvents(v.Index(i))...)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if sf := v.Type().Field(i); sf.IsExported() {
				out = append(out, collectEvents(v.Field(i))...)
			}
		}
	}
	return out
}

func runC13(c *Ctx) {
	var scte []*vType
	for _, t := range vocabList {
		for _, s := range vocabPath[t.name] {
			if s.child.ns == "@scte" {
				scte = append(scte, t)
				break
			}
		}
	}
	c.Cases("event", c.N(12000, 400000), func(t *T) {
		r := t.R
		g := newGen(r)
		g.budget = 5 + r.IntN(40)
		g.scteNS = []string{nsSCTE35, nsSCTE2016}[r.IntN(2)]
		g.mixNS = r.IntN(2) == 0
		root, target := g.chain(scte[t.Idx%len(scte)])
		full := g.elem(target.ns, target.name, target.typ, []int{30, 60, 90}[r.IntN(3)])
		target.attrs, target.kids, target.raw = full.attrs, full.kids, full.raw
		text := newSurface(r).render(root)
		v, err := mpd.ReadFromString(text)
		if err != nil {
			t.Failf("rejected", "%v\n%s", err, text)
			return
		}
		want, got := map[string]int{}, map[string]int{}
		modelNames(root, want)
		structNames(reflect.ValueOf(v), got)
		if !reflect.DeepEqual(want, got) {
			t.Failf("names", "the structures are named %v, want %v\n%s", got, want, text)
			return
		}
		indent := []string{"", "  "}[r.IntN(2)]
		out, err := v.WriteToString(indent, false)
		if err != nil {
			t.Failf("write", "%v\n%s", err, text)
			return
		}
		o, err := infoset.Parse(out)
		if err != nil {
			t.Failf("ill-formed", "%v\ninput: %s\noutput: %s", err, text, out)
			return
		}
		if err := compareDoc(root, o, indent != ""); err != nil {
			t.Failf("fidelity", "%v\ninput: %s\noutput: %s", err, text, out)
			return
		}
		a, b := countNS(o)
		t.ObsN("canonical elements", a)
		t.ObsN("legacy elements", b)
		if a > 0 && b > 0 {
			t.Obs("documents mixing both editions")
		}
		if a+b >= 2 {
			t.Nontrivial(text)
		}
		if t.Idx < 3 {
			t.Sample("%s", text)
		}
		// the accessor gives the same section for both carriage forms
		for _, e := range collectEvents(reflect.ValueOf(v)) {
			var want *mpd.SpliceInfoSectionType
			if e.Signal != nil {
				want = e.Signal.SpliceInfoSection
			}
			if want == nil {
				want = e.SpliceInfoSection
			}
			if e.SpliceInfo() != want {
				t.Failf("spliceinfo", "SpliceInfo does not give the section of the event\n%s", text)
			}
			if want != nil {
				t.Obs("sections found by SpliceInfo")
			}
		}
		if len(v.Periods) == 0 {
			return
		}
		// a single Period written on its own keeps the SCTE namespaces
		ps, err := v.Periods[0].WriteToString("")
		if err != nil {
			t.Failf("write", "%v\n%s", err, text)
			return
		}
		po, err := infoset.Parse(ps)
		if err != nil {
			t.Failf("ill-formed", "%v\ninput: %s\nPeriod: %s", err, text, ps)
			return
		}
		if a2, b2 := countNS(po); a2 != a || b2 != b {
			t.Failf("period", "a Period on its own has %d and %d SCTE elements, want %d and %d\n%s", a2, b2, a, b, ps)
		}
	})

	// Constructors.
	c.Cases("constructors", c.N(3000, 100000), func(t *T) {
		r := t.R
		u32 := r.Uint32()
		u64 := r.Uint64() >> 24
		str := fmt.Sprintf("/v%d+", r.IntN(1000))
		flag := r.IntN(2) == 0
		sis := mpd.NewSpliceInfoSection()
		want := map[string]bool{"SpliceInfoSection": true}
		add := func(n string) { want[n] = true }
		if r.IntN(2) == 0 {
			sis.SpliceNull = mpd.NewSpliceNull()
			add("SpliceNull")
		}
		if r.IntN(2) == 0 {
			sis.SpliceSchedule = mpd.NewSpliceSchedule()
			add("SpliceSchedule")
		}
		if r.IntN(2) == 0 {
			sis.SpliceInsert = mpd.NewSpliceInsert()
			sis.SpliceInsert.SpliceEventId = &u32
			add("SpliceInsert")
			if r.IntN(2) == 0 {
				sis.SpliceInsert.BreakDuration = mpd.NewBreakDuration(flag, u64)
				add("BreakDuration")
			}
		}
		if r.IntN(2) == 0 {
			sis.TimeSignal = mpd.NewTimeSignal()
			sis.TimeSignal.SpliceTime = mpd.NewSpliceTime()
			sis.TimeSignal.SpliceTime.PtsTime = &u64
			add("TimeSignal")
			add("SpliceTime")
		}
		if r.IntN(2) == 0 {
			sis.BandwidthReservation = mpd.NewBandwidthReservation()
			add("BandwidthReservation")
		}
		if r.IntN(2) == 0 {
			sis.PrivateCommand = mpd.NewPrivateCommand(u32)
			add("PrivateCommand")
		}
		if r.IntN(2) == 0 {
			sd := mpd.NewSegmentationDescriptor()
			sd.SegmentationUpids = append(sd.SegmentationUpids, mpd.NewSegmentationUpid(str))
			sis.SegmentationDescriptors = append(sis.SegmentationDescriptors, sd)
			add("SegmentationDescriptor")
			add("SegmentationUpid")
		}
		ev := &mpd.EventType{}
		form := r.IntN(3)
		switch form {
		case 0:
			ev.SpliceInfoSection = sis
		case 1:
			ev.Signal = mpd.NewSignal()
			ev.Signal.SpliceInfoSection = sis
			add("Signal")
		case 2:
			ev.Signal = mpd.NewSignal()
			ev.Signal.Binary = mpd.NewBinary(str)
			want = map[string]bool{"Signal": true, "Binary": true}
		}
		es := &mpd.EventStreamType{SchemeIdUri: mpd.SCTE35SchemeIdXML, Events: []*mpd.EventType{ev}}
		p := mpd.NewPeriod()
		p.EventStreams = append(p.EventStreams, es)
		m := mpd.NewMPD("static")
		m.AppendPeriod(p)
		out, err := m.WriteToString([]string{"", " "}[r.IntN(2)], false)
		if err != nil {
			t.Failf("write", "%v", err)
			return
		}
		o, err := infoset.Parse(out)
		if err != nil {
			t.Failf("ill-formed", "%v\n%s", err, out)
			return
		}
		got := map[string]bool{}
		var walk func(n *infoset.Node, in bool)
		walk = func(n *infoset.Node, in bool) {
			for _, k := range n.Elems() {
				if in || k.Local == "Signal" || k.Local == "SpliceInfoSection" {
					if k.NS != "http://www.scte.org/schemas/35" {
						t.Failf("constructed-namespace", "%s is written in namespace %q\n%s", k.Local, k.NS, out)
					}
					got[k.Local] = true
					walk(k, true)
				} else {
					if k.NS != nsDASH {
						t.Failf("dash-namespace", "%s is written in namespace %q\n%s", k.Local, k.NS, out)
					}
					walk(k, false)
				}
			}
		}
		walk(o, false)
		if !reflect.DeepEqual(got, want) {
			t.Failf("constructed", "written elements %v, want %v\n%s", got, want, out)
		}
		m2, err := mpd.ReadFromString(out)
		if err != nil {
			t.Failf("read", "%v\n%s", err, out)
			return
		}
		d := &differ{strEq: sameStr, trim: true}
		if err := d.diff("MPD", reflect.ValueOf(m).Elem(), reflect.ValueOf(m2).Elem()); err != nil {
			t.Failf("constructed-read", "%v\n%s", err, out)
		}
		e2 := m2.Periods[0].EventStreams[0].Events[0]
		if s := e2.SpliceInfo(); (s != nil) != (form != 2) {
			t.Failf("spliceinfo", "SpliceInfo is %v for form %d", s, form)
		} else if s != nil && s.PrivateCommand != nil && s.PrivateCommand.Identifier != u32 {
			t.Failf("constructed-value", "identifier %d, want %d", s.PrivateCommand.Identifier, u32)
		} else if s != nil && s.SpliceInsert != nil && s.SpliceInsert.BreakDuration != nil && (s.SpliceInsert.BreakDuration.AutoReturn != flag || s.SpliceInsert.BreakDuration.Duration != u64) {
			t.Failf("constructed-value", "break duration %v", s.SpliceInsert.BreakDuration)
		}
		if form == 2 && (e2.Signal.Binary.Value != str || e2.Signal.Binary.XMLName.Space != mpd.SCTE35Namespace) {
			t.Failf("constructed-value", "binary %v", e2.Signal.Binary)
		}
		t.Obs("constructed events")
		t.Nontrivial(out)
	})

	// The accessor on all combinations of presence.
	c.Serial("accessor", 8*60, func(t *T) {
		i := t.Idx
		a, b := mpd.NewSpliceInfoSection(), mpd.NewSpliceInfoSection()
		e := &mpd.EventType{}
		var f *filler
		rest := func(v any) {
			if f != nil {
				f.budget = 6
				f.fill(reflect.ValueOf(v).Elem())
			}
		}
		if i >= 8 { // what the accessor does not depend on
			f = newFiller(t.R, 0)
			rest(a)
			rest(b)
			rest(e)
			e.SpliceInfoSection, e.Signal = nil, nil
			t.Obs("accessor combinations with everything else")
		}
		var want *mpd.SpliceInfoSectionType
		if i&1 != 0 {
			e.SpliceInfoSection = b
			want = b
		}
		if i&2 != 0 {
			e.Signal = mpd.NewSignal()
			rest(e.Signal)
			e.Signal.SpliceInfoSection = nil
			if i&4 != 0 {
				e.Signal.SpliceInfoSection = a
				want = a
			}
		}
		if e.SpliceInfo() != want {
			t.Failf("spliceinfo", "combination %d: SpliceInfo gives the wrong section", i)
		}
		t.Obs("accessor combinations")
	})

	judgeConstants(c, scteConstants)

	// The scheme test is exact.
	exact := map[string]bool{"urn:scte:scte35:2013:xml": true, "urn:scte:scte35:2014:xml+bin": true, "urn:scte:scte35:2013:bin": true}
	c.Cases("scheme", c.N(5000, 100000), func(t *T) {
		r := t.R
		bases := []string{"urn:scte:scte35:2013:xml", "urn:scte:scte35:2014:xml+bin", "urn:scte:scte35:2013:bin", "urn:mpeg:dash:event:2012", "urn:scte:scte35:2014:xml", "urn:scte:scte35:2014:bin", "urn:scte:scte35:2013:xml+bin"}
		s := bases[r.IntN(len(bases))]
		if r.IntN(2) == 0 {
			i := r.IntN(len(s) + 1)
			switch r.IntN(5) {
			case 0:
				s = s[:i]
			case 1:
				s = s[:i] + "x" + s[i:]
			case 2:
				s = strings.ToUpper(s)
			case 3:
				s = " " + s
			case 4:
				s += []string{" ", "#", ":", "/"}[r.IntN(4)]
			}
		}
		es := &mpd.EventStreamType{}
		if r.IntN(4) == 0 {
			f := newFiller(r, 0)
			f.budget = 4
			f.fill(reflect.ValueOf(es).Elem())
		}
		es.SchemeIdUri = mpd.AnyURI(s)
		if g := es.IsSCTE35(); g != exact[s] {
			t.Failf("isscte35", "IsSCTE35 of %q is %t", s, g)
		}
		if exact[s] {
			t.Obs("SCTE-35 schemes recognised")
		}
		t.Nontrivial(s)
	})

	// SCTE-214 extensions under any prefix.
	c.Cases("scte214", c.N(3000, 60000), func(t *T) {
		r := t.R
		g := newGen(r)
		g.unknown, g.hostile = false, r.IntN(2) == 0
		const ns = "urn:scte:dash:scte214-extensions"
		v := func() string { return strings.Join(strings.FieldsFunc(g.str()+"k", isSpaceRune), "") }
		root := &mNode{ns: nsDASH, name: "MPD", typ: vocab["MPD"]}
		kid := func(p *mNode, name, typ string) *mNode {
			n := &mNode{ns: nsDASH, name: name, typ: vocab[typ]}
			p.kids = append(p.kids, mKid{n: n})
			return n
		}
		pe := kid(root, "Period", "Period")
		ai := kid(pe, "AssetIdentifier", "DescriptorType")
		ct, cv := v(), v()
		ci := &mNode{ns: ns, name: "ContentIdentifier", typ: vocab["SCTE214ContentIdentifierType"]}
		ci.attrs = []mAttr{{name: "type", value: ct, def: ci.typ.attr("", "type")}, {name: "value", value: cv, def: ci.typ.attr("", "value")}}
		ai.kids = append(ai.kids, mKid{n: ci})
		as := kid(pe, "AdaptationSet", "AdaptationSetType")
		rep := kid(as, "Representation", "RepresentationType")
		sub := kid(rep, "SubRepresentation", "SubRepresentationType")
		var vals [3][2]string
		for i, n := range []*mNode{as, rep, sub} {
			vals[i] = [2]string{v(), v()}
			n.attrs = append(n.attrs, mAttr{ns: ns, name: "supplementalProfiles", value: vals[i][0], def: n.typ.attr(ns, "supplementalProfiles")}, mAttr{ns: ns, name: "supplementalCodecs", value: vals[i][1], def: n.typ.attr(ns, "supplementalCodecs")})
		}
		text := newSurface(r).render(root)
		m, err := mpd.ReadFromString(text)
		if err != nil {
			t.Failf("rejected", "%v\n%s", err, text)
			return
		}
		p := m.Periods[0]
		a := p.AdaptationSets[0]
		bs := []mpd.RepresentationBaseType{a.RepresentationBaseType, a.Representations[0].RepresentationBaseType, a.Representations[0].SubRepresentations[0].RepresentationBaseType}
		for i, b := range bs {
			if string(b.SCTE214SupplementalProfiles) != vals[i][0] || string(b.SCTE214SupplementalCodecs) != vals[i][1] {
				t.Failf("scte214-read", "level %d: read %q and %q, want %q\n%s", i, b.SCTE214SupplementalProfiles, b.SCTE214SupplementalCodecs, vals[i], text)
			}
		}
		cis := p.AssetIdentifier.SCTE214ContentIdentifiers
		if len(cis) != 1 || cis[0].Type != ct || cis[0].Value != cv {
			t.Failf("scte214-read", "ContentIdentifier %v, want %q %q\n%s", cis, ct, cv, text)
			return
		}
		// built from the constructor it is the same element
		nci := mpd.NewSCTE214ContentIdentifier(ct, cv)
		p.AssetIdentifier.SCTE214ContentIdentifiers = []*mpd.SCTE214ContentIdentifierType{nci}
		out, err := m.WriteToString("", false)
		if err != nil {
			t.Failf("write", "%v", err)
			return
		}
		o, err := infoset.Parse(out)
		if err != nil {
			t.Failf("ill-formed", "%v\n%s", err, out)
			return
		}
		if err := compareDoc(root, o, false); err != nil {
			t.Failf("fidelity", "%v\ninput: %s\noutput: %s", err, text, out)
		}
		t.Obs("SCTE-214 documents")
		t.Nontrivial(text)
	})

	// Raw extension content whose prefix is declared on an element that does not keep its declarations.
	c.Probe("ext-inner-xml-ancestor-prefix", func() string {
		in2 := `<MPD xmlns="` + nsDASH + `"><Period><EventStream schemeIdUri="urn:scte:scte35:2013:xml"><Event><SpliceInfoSection xmlns="` + nsSCTE35 + `"><SpliceNull xmlns:z="urn:z"><Ext><z:data/></Ext></SpliceNull></SpliceInfoSection></Event></EventStream></Period></MPD>`
		m2, err := mpd.ReadFromString(in2)
		if err != nil {
			return err.Error()
		}
		out, err := m2.WriteToString("", false)
		if err != nil {
			return err.Error()
		}
		o, err := infoset.Parse(out)
		if err != nil {
			return fmt.Sprintf("%v\ninput: %s\noutput: %s", err, in2, out)
		}
		w, _ := infoset.Parse(in2)
		var names func(n *infoset.Node) string
		names = func(n *infoset.Node) string {
			s := "{" + n.NS + "}" + n.Local
			for _, k := range n.Elems() {
				s += names(k)
			}
			return s
		}
		if names(o) != names(w) {
			return fmt.Sprintf("%s\n%s", names(o), names(w))
		}
		return ""
	})
	c.Require("canonical elements", 10000)
	c.Require("legacy elements", 10000)
	c.Require("documents mixing both editions", 1000)
	c.Require("sections found by SpliceInfo", 2000)
	c.Require("constructed events", 2000)
	c.Require("SCTE-214 documents", 2000)
}
