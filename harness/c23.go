package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/Eyevinn/dash-mpd/mpd"

	"verifharness/infoset"
)

func init() {
	register(&Check{ID: "C23", Level: "exploration",
		Rule: "Every constructor is called with boundary and random arguments; a model says which fields and which attributes each argument must land in, everything else must be unset, calls must not share memory, and the structure is written, parsed by the independent parser and read back. Helpers (AddProfile, SetTimescale, SetSegmentBase, Ptr, seconds to durations) are driven through histories against models in exact arithmetic. Non-trivial: a distinct combination of helper and arguments.",
		Run:  runC23})
}

// ctor is one constructor call with what it must have made.
type ctor struct {
	name   string
	call   func() any
	fields map[string]any    // path of field -> value; all other fields are zero
	elem   string            // name of the element in an MPD, "" if it is not written
	attrs  map[string]string // attributes written; those with a zero value may be missing
	text   string
}

// setFields gives the addresses of all leaf fields that are not zero.
func setFields(path string, v reflect.Value, out map[string]any) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			setFields(path, v.Elem(), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			sf := v.Type().Field(i)
			if !sf.IsExported() && !sf.Anonymous {
				if !v.Field(i).IsZero() {
					out[path+"."+sf.Name] = "set"
				}
				continue
			}
			p := path + "." + sf.Name
			if sf.Anonymous {
				p = path
			}
			setFields(p, v.Field(i), out)
		}
	case reflect.Slice, reflect.Map:
		if v.Len() > 0 {
			out[path] = fmt.Sprintf("%v", v.Interface())
		}
	case reflect.String:
		if v.String() != "" {
			out[path] = v.String()
		}
	case reflect.Bool:
		if v.Bool() {
			out[path] = "true"
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		if v.Uint() != 0 {
			out[path] = strconv.FormatUint(v.Uint(), 10)
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		if v.Int() != 0 {
			out[path] = strconv.FormatInt(v.Int(), 10)
		}
	case reflect.Float32, reflect.Float64:
		if v.Float() != 0 {
			out[path] = fmt.Sprint(v.Float())
		}
	default:
		out[path] = v.Kind().String()
	}
}

func c23Str(r *rand.Rand) string {
	switch r.IntN(6) {
	case 0:
		if r.IntN(6) == 0 {
			return longStr(r, sizeUpTo(r, 5000), true)
		}
		return ""
	case 1:
		return []string{"video/mp4", "audio/mp4", "avc1.64001e", "text", "1", "30000/1001", "und", "static", "dynamic", "V300"}[r.IntN(10)]
	case 2:
		return []string{"a<b>&\"'", "urn:mpeg:dash:role:2011", "é\U0001F600", "a  b", "]]>", "&amp;", "x,y"}[r.IntN(7)]
	default:
		b := make([]byte, 2+r.IntN(12))
		for i := range b {
			b[i] = byte(0x21 + r.IntN(0x5e))
		}
		return string(b)
	}
}

func c23Int(r *rand.Rand) int {
	switch r.IntN(4) {
	case 0:
		return []int{0, 1, 2, 255, 256, 65535, 65536, 1 << 24, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32 - 1, math.MaxUint32}[r.IntN(12)]
	case 1:
		return r.IntN(100000)
	default:
		return int(r.Uint32() >> r.IntN(32))
	}
}

// inMPD puts a structure where it belongs in an MPD.
func inMPD(v any) *mpd.MPD {
	m := &mpd.MPD{XMLNs: nsDASH, Profiles: "p"}
	p := &mpd.Period{}
	a := &mpd.AdaptationSetType{}
	rep := &mpd.RepresentationType{Id: "harness"}
	m.Periods = []*mpd.Period{p}
	withA := func() { p.AdaptationSets = []*mpd.AdaptationSetType{a} }
	withR := func() { withA(); a.Representations = []*mpd.RepresentationType{rep} }
	ev := func() *mpd.EventType {
		e := &mpd.EventType{}
		p.EventStreams = []*mpd.EventStreamType{{SchemeIdUri: "x", Events: []*mpd.EventType{e}}}
		return e
	}
	sis := func() *mpd.SpliceInfoSectionType {
		s := mpd.NewSpliceInfoSection()
		ev().SpliceInfoSection = s
		return s
	}
	switch x := v.(type) {
	case *mpd.MPD:
		return x
	case *mpd.Period:
		m.Periods = []*mpd.Period{x}
	case *mpd.AdaptationSetType:
		p.AdaptationSets = []*mpd.AdaptationSetType{x}
	case *mpd.RepresentationType:
		withA()
		a.Representations = []*mpd.RepresentationType{x}
	case *mpd.SubRepresentationType:
		withR()
		rep.SubRepresentations = []*mpd.SubRepresentationType{x}
	case *mpd.SegmentTemplateType:
		p.SegmentTemplate = x
	case *mpd.SegmentListType:
		p.SegmentList = x
	case *mpd.SegmentTimelineType:
		p.SegmentTemplate = &mpd.SegmentTemplateType{}
		p.SegmentTemplate.SegmentTimeline = x
	case *mpd.InitializationSetType:
		m.InitializationSet = []*mpd.InitializationSetType{x}
	case *mpd.PreselectionType:
		p.Preselections = []*mpd.PreselectionType{x}
	case *mpd.ContentProtectionType:
		m.ContentProtection = []*mpd.ContentProtectionType{x}
	case *mpd.UIntVWithIDType:
		m.InitializationGroup = []*mpd.UIntVWithIDType{x}
	case *mpd.BaseURLType:
		m.BaseURL = []*mpd.BaseURLType{x}
	case *mpd.DescriptorType:
		m.EssentialProperties = []*mpd.DescriptorType{x}
	case *mpd.ProducerReferenceTimeType:
		withA()
		a.ProducerReferenceTimes = []*mpd.ProducerReferenceTimeType{x}
	case *mpd.SCTE214ContentIdentifierType:
		p.AssetIdentifier = &mpd.DescriptorType{SCTE214ContentIdentifiers: []*mpd.SCTE214ContentIdentifierType{x}}
	case *mpd.SignalType:
		ev().Signal = x
	case *mpd.SpliceInfoSectionType:
		ev().SpliceInfoSection = x
	case *mpd.BinaryType:
		s := mpd.NewSignal()
		s.Binary = x
		ev().Signal = s
	case *mpd.SpliceNullType:
		sis().SpliceNull = x
	case *mpd.SpliceScheduleType:
		sis().SpliceSchedule = x
	case *mpd.SpliceInsertType:
		sis().SpliceInsert = x
	case *mpd.TimeSignalType:
		sis().TimeSignal = x
	case *mpd.BandwidthReservationType:
		sis().BandwidthReservation = x
	case *mpd.PrivateCommandType:
		sis().PrivateCommand = x
	case *mpd.SpliceTimeType:
		ts := mpd.NewTimeSignal()
		ts.SpliceTime = x
		sis().TimeSignal = ts
	case *mpd.BreakDurationType:
		si := mpd.NewSpliceInsert()
		si.BreakDuration = x
		sis().SpliceInsert = si
	case *mpd.SegmentationDescriptorType:
		s := sis()
		s.SegmentationDescriptors = []*mpd.SegmentationDescriptorType{x}
	case *mpd.SegmentationUpidType:
		sd := mpd.NewSegmentationDescriptor()
		sd.SegmentationUpids = []*mpd.SegmentationUpidType{x}
		s := sis()
		s.SegmentationDescriptors = []*mpd.SegmentationDescriptorType{sd}
	default:
		return nil
	}
	return m
}

func ctors(r *rand.Rand) []ctor {
	s := func() string { return c23Str(r) }
	i := func() int { return c23Int(r) }
	num := func(n int) string { return strconv.Itoa(n) }
	b := func() (bool, string) {
		if r.IntN(2) == 0 {
			return true, "true"
		}
		return false, ""
	}
	var out []ctor
	add := func(name, elem string, call func() any, fields map[string]any, attrs map[string]string, text string) {
		for k, v := range fields {
			if v == "" || v == "0" {
				delete(fields, k)
			}
		}
		out = append(out, ctor{name, call, fields, elem, attrs, text})
	}
	type F = map[string]any
	type A = map[string]string
	s1, s2, s3, s4 := s(), s(), s(), s()
	n1, n2, n3 := i(), i(), i()
	b1, b1s := b()
	add("NewMPD", "MPD", func() any { return mpd.NewMPD(s1) }, F{".Type": s1, ".XMLNs": nsDASH}, A{"type": s1}, "")
	add("NewPeriod", "Period", func() any { return mpd.NewPeriod() }, F{}, nil, "")
	add("NewAdaptationSet", "AdaptationSet", func() any { return mpd.NewAdaptationSet() }, F{}, nil, "")
	add("NewAdaptationSetWithParams", "AdaptationSet", func() any { return mpd.NewAdaptationSetWithParams(s1, s2, b1, uint32(n1)) },
		F{".ContentType": s1, ".MimeType": s2, ".SegmentAlignment": b1s, ".StartWithSAP": num(n1)},
		A{"contentType": s1, "mimeType": s2, "segmentAlignment": b1s, "startWithSAP": num(n1)}, "")
	add("NewRepresentation", "Representation", func() any { return mpd.NewRepresentation() }, F{}, nil, "")
	add("NewRepresentationWithID", "Representation", func() any { return mpd.NewRepresentationWithID(s1, s2, s3, n1) },
		F{".Id": s1, ".Codecs": s2, ".MimeType": s3, ".Bandwidth": num(n1)},
		A{"id": s1, "codecs": s2, "mimeType": s3, "bandwidth": num(n1)}, "")
	add("NewAudioRepresentation", "Representation", func() any { return mpd.NewAudioRepresentation(s1, s2, s3, n1, n2) },
		F{".Id": s1, ".Codecs": s2, ".MimeType": s3, ".Bandwidth": num(n1), ".AudioSamplingRate": "=" + num(n2)},
		A{"id": s1, "codecs": s2, "mimeType": s3, "bandwidth": num(n1), "audioSamplingRate": num(n2)}, "")
	add("NewVideoRepresentation", "Representation", func() any { return mpd.NewVideoRepresentation(s1, s2, s3, s4, n1, n2, n3) },
		F{".Id": s1, ".Codecs": s2, ".MimeType": s3, ".FrameRate": s4, ".Bandwidth": num(n1), ".Width": num(n2), ".Height": num(n3)},
		A{"id": s1, "codecs": s2, "mimeType": s3, "frameRate": s4, "bandwidth": num(n1), "width": num(n2), "height": num(n3)}, "")
	add("NewSubRepresentation", "SubRepresentation", func() any { return mpd.NewSubRepresentation() }, F{}, nil, "")
	add("NewSegmentTemplate", "SegmentTemplate", func() any { return mpd.NewSegmentTemplate() }, F{}, nil, "")
	add("NewSegmentList", "SegmentList", func() any { return mpd.NewSegmentList() }, F{}, nil, "")
	add("NewSegmentTimeline", "SegmentTimeline", func() any { return mpd.NewSegmentTimeline() }, F{}, nil, "")
	add("NewInitializationSet", "InitializationSet", func() any { return mpd.NewInitializationSet() }, F{}, nil, "")
	add("NewPreselection", "Preselection", func() any { return mpd.NewPreselection() }, F{}, nil, "")
	add("NewContentProtection", "ContentProtection", func() any { return mpd.NewContentProtection() }, F{}, nil, "")
	add("NewProducerReferenceTime", "ProducerReferenceTime", func() any { return mpd.NewProducerReferenceTime() }, F{}, nil, "")
	add("NewUIntVWithID", "InitializationGroup", func() any { return mpd.NewUIntVWithID() }, F{}, nil, "")
	add("NewBaseURL", "BaseURL", func() any { return mpd.NewBaseURL(s1) }, F{".Value": s1}, nil, s1)
	add("NewDescriptor", "EssentialProperty", func() any { return mpd.NewDescriptor(s1, s2, s3) },
		F{".SchemeIdUri": s1, ".Value": s2, ".Id": s3}, A{"schemeIdUri": s1, "value": s2, "id": s3}, "")
	add("NewRole", "EssentialProperty", func() any { return mpd.NewRole(s1) },
		F{".SchemeIdUri": "urn:mpeg:dash:role:2011", ".Value": s1}, A{"schemeIdUri": "urn:mpeg:dash:role:2011", "value": s1}, "")
	add("NewSCTE214ContentIdentifier", "ContentIdentifier", func() any { return mpd.NewSCTE214ContentIdentifier(s1, s2) },
		F{".Type": s1, ".Value": s2}, A{"type": s1, "value": s2}, "")
	scte := func(local string, f F) F {
		f[".XMLName.Space"], f[".XMLName.Local"] = "http://www.scte.org/schemas/35", local
		return f
	}
	u64 := r.Uint64() >> r.IntN(64)
	add("NewSignal", "Signal", func() any { return mpd.NewSignal() }, scte("Signal", F{}), nil, "")
	add("NewSpliceInfoSection", "SpliceInfoSection", func() any { return mpd.NewSpliceInfoSection() }, scte("SpliceInfoSection", F{}), nil, "")
	add("NewBinary", "Binary", func() any { return mpd.NewBinary(s1) }, scte("Binary", F{".Value": s1}), nil, s1)
	add("NewSpliceNull", "SpliceNull", func() any { return mpd.NewSpliceNull() }, scte("SpliceNull", F{}), nil, "")
	add("NewSpliceSchedule", "SpliceSchedule", func() any { return mpd.NewSpliceSchedule() }, scte("SpliceSchedule", F{}), nil, "")
	add("NewSpliceInsert", "SpliceInsert", func() any { return mpd.NewSpliceInsert() }, scte("SpliceInsert", F{}), nil, "")
	add("NewTimeSignal", "TimeSignal", func() any { return mpd.NewTimeSignal() }, scte("TimeSignal", F{}), nil, "")
	add("NewBandwidthReservation", "BandwidthReservation", func() any { return mpd.NewBandwidthReservation() }, scte("BandwidthReservation", F{}), nil, "")
	add("NewPrivateCommand", "PrivateCommand", func() any { return mpd.NewPrivateCommand(uint32(n1)) }, scte("PrivateCommand", F{".Identifier": num(n1)}), A{"identifier": num(n1)}, "")
	add("NewSpliceTime", "SpliceTime", func() any { return mpd.NewSpliceTime() }, scte("SpliceTime", F{}), nil, "")
	add("NewBreakDuration", "BreakDuration", func() any { return mpd.NewBreakDuration(b1, u64) },
		scte("BreakDuration", F{".AutoReturn": b1s, ".Duration": strconv.FormatUint(u64, 10)}),
		A{"autoReturn": b1s, "duration": strconv.FormatUint(u64, 10)}, "")
	add("NewSegmentationDescriptor", "SegmentationDescriptor", func() any { return mpd.NewSegmentationDescriptor() }, scte("SegmentationDescriptor", F{}), nil, "")
	add("NewSegmentationUpid", "SegmentationUpid", func() any { return mpd.NewSegmentationUpid(s1) }, scte("SegmentationUpid", F{".Value": s1}), nil, s1)
	return out
}

// near gives a string that is nearly s.
func near(r *rand.Rand, s string) string {
	switch r.IntN(8) {
	case 0:
		if len(s) > 1 && s[len(s)-1] < 0x80 {
			return s[:len(s)-1]
		}
	case 1:
		return strings.ToUpper(s)
	case 2:
		if i := strings.LastIndexAny(s, ":/."); i > 0 {
			return s[:i]
		}
	case 3:
		if i := strings.IndexAny(s, ":/."); i > 0 && i < len(s)-1 {
			return s[i+1:]
		}
	}
	return s + []string{"/", ":", ".", "#", "?", ";", "0", "a", "-", "=", "*", ".1"}[r.IntN(12)]
}

func findElem(n *infoset.Node, local string) *infoset.Node {
	if n.Local == local {
		return n
	}
	for _, k := range n.Elems() {
		if f := findElem(k, local); f != nil {
			return f
		}
	}
	return nil
}

func zeroText(s string) bool { return s == "" || s == "0" || s == "false" || s == "PT0S" }

func runCtor(t *T, ct ctor) {
	v := ct.call()
	got := map[string]any{}
	setFields("", reflect.ValueOf(v), got)
	want := map[string]any{}
	for k, x := range ct.fields {
		if s, ok := x.(string); ok && strings.HasPrefix(s, "=") && k == ".AudioSamplingRate" {
			x = s[1:]
		}
		want[k] = x
	}
	if !reflect.DeepEqual(got, want) {
		t.Failf("fields", "%s set %v, want %v", ct.name, got, want)
		return
	}
	t.Obs("constructor calls with all fields compared")
	// an argument of the second call must not show in the first structure, nor the other way round
	v2 := ct.call()
	before := dump(v)
	scribble(reflect.ValueOf(v2), 0)
	if dump(v) != before {
		t.Failf("aliasing", "two structures made by %s share memory: %s", ct.name, clip(dump(v), 600))
		return
	}
	v3 := ct.call()
	if dump(v3) != before {
		t.Failf("aliasing", "after a structure made by %s was changed, a new one is %s, want %s", ct.name, clip(dump(v3), 600), clip(before, 600))
		return
	}
	if ct.elem == "" {
		return
	}
	m := inMPD(v)
	text, err := m.WriteToString("", false)
	if err != nil {
		t.Failf("write", "%s: %v", ct.name, err)
		return
	}
	o, err := infoset.Parse(text)
	if err != nil {
		t.Failf("ill-formed", "%s: %v\n%s", ct.name, err, text)
		return
	}
	n := findElem(o, ct.elem)
	if n == nil {
		t.Failf("written", "%s: no %s element in\n%s", ct.name, ct.elem, text)
		return
	}
	seen := map[string]string{}
	for _, a := range n.Attrs {
		if ct.elem == "MPD" && a.Local == "profiles" && a.Value == "" {
			continue
		}
		seen[a.Local] = a.Value
	}
	for k, w := range ct.attrs {
		g, ok := seen[k]
		if (ok || !zeroText(w) || ct.elem == "BreakDuration" || ct.elem == "PrivateCommand") && g != w && !(zeroText(g) && zeroText(w)) {
			t.Failf("attribute", "%s: attribute %s is %q, want %q\n%s", ct.name, k, g, w, text)
			return
		}
		delete(seen, k)
	}
	for k, g := range seen {
		if !zeroText(g) {
			t.Failf("attribute", "%s: unexpected attribute %s=%q\n%s", ct.name, k, g, text)
			return
		}
	}
	if n.Text() != ct.text {
		t.Failf("text", "%s: text is %q, want %q\n%s", ct.name, n.Text(), ct.text, text)
		return
	}
	back, err := mpd.ReadFromString(text)
	if err != nil {
		t.Failf("read", "%s: %v\n%s", ct.name, err, text)
		return
	}
	d := &differ{strEq: sameStr, loose: true}
	if err := d.diff("MPD", reflect.ValueOf(m).Elem(), reflect.ValueOf(back).Elem()); err != nil {
		t.Failf("read-back", "%s: %v\n%s", ct.name, err, text)
		return
	}
	t.Obs("constructed structures written and read back")
	t.Nontrivial(ct.name, text)
}

// scribble changes every leaf that can be reached.
func scribble(v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			scribble(v.Elem(), depth+1)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if f := v.Field(i); f.CanSet() || v.Type().Field(i).Anonymous {
				scribble(f, depth+1)
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		if v.CanSet() {
			v.SetUint(77)
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		if v.CanSet() {
			v.SetInt(77)
		}
	}
}

func runC23(c *Ctx) {
	nctor := len(ctors(rand.New(rand.NewPCG(1, 1))))
	c.Cases("constructors", nctor*c.N(120, 4000), func(t *T) {
		ct := ctors(t.R)[t.Idx%nctor]
		runCtor(t, ct)
		if t.Idx < 8 {
			t.Sample("%s -> %v, attributes %v", ct.name, ct.fields, ct.attrs)
		}
	})
	c.Require("constructor calls with all fields compared", int64(nctor))
	c.Require("constructed structures written and read back", int64(nctor))

	// Histories of AddProfile: the list keeps its order, has each added profile exactly once, and
	// only ever grows at the end.
	c.Cases("profiles", c.N(8000, 200000), func(t *T) {
		r := t.R
		pool := []string{"urn:mpeg:dash:profile:full:2011", "urn:mpeg:dash:profile:isoff-live:2011", "urn:mpeg:dash:profile:isoff-live:2012", "urn:mpeg:dash:profile:isoff-live",
			"urn:dvb:dash:profile:dvb-dash:2014", "a", "ab", "b", "aa", "A", "urn:mpeg:dash:profile:isoff-live:20111", "live:2011", "é"}
		r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
		pool = pool[:2+r.IntN(len(pool)-2)]
		for k := r.IntN(3); k > 0; k-- { // others that are nearly the same
			pool = append(pool, near(r, pool[r.IntN(len(pool))]))
		}
		var model []string
		rounds := 3 + r.IntN(14)
		if r.IntN(100) == 0 { // very many
			pool = pool[:0]
			for i := sizeUpTo(r, 1500); i >= 0; i-- {
				pool = append(pool, fmt.Sprintf("urn:p:%d", i))
			}
			rounds = 40
		}
		if r.IntN(100) == 0 {
			pool = append(pool, strings.ReplaceAll(longStr(r, sizeUpTo(r, 70000), false), ",", ""))
		}
		var l mpd.ListOfProfilesType
		if r.IntN(3) == 0 { // a list from elsewhere, perhaps with duplicates
			for k := r.IntN(5); k > 0; k-- {
				model = append(model, pool[r.IntN(len(pool))])
			}
			if len(pool) > 30 {
				model = append([]string(nil), pool...)
				t.Obs("very many profiles")
			}
			l = mpd.ListOfProfilesType(strings.Join(model, ","))
		}
		m := mpd.NewMPD("static")
		for k := 0; k < rounds; k++ {
			p := pool[r.IntN(len(pool))]
			have := false
			for _, q := range model {
				have = have || p == q
			}
			if !have {
				model = append(model, p)
			}
			old := l
			oldText := string(append([]byte(nil), old...))
			l = l.AddProfile(p)
			if string(old) != oldText {
				t.Failf("receiver", "AddProfile changed its receiver from %q to %q", oldText, old)
				return
			}
			if string(l) != strings.Join(model, ",") {
				t.Failf("profiles", "adding %q to %q gives %q, want %q", p, oldText, l, strings.Join(model, ","))
				return
			}
			m.Profiles = m.Profiles.AddProfile(p)
			t.Obs("profiles added")
			if have {
				t.Obs("profiles added again")
			}
			t.Nontrivial("profile", string(l), p)
		}
		text, err := m.WriteToString("", false)
		if err != nil {
			t.Failf("write", "%v", err)
			return
		}
		o, err := infoset.Parse(text)
		if err != nil {
			t.Failf("ill-formed", "%v\n%s", err, text)
			return
		}
		if a, _ := o.Attr("", "profiles"); a != string(m.Profiles) {
			t.Failf("written", "profiles %q written as %q", m.Profiles, a)
		}
	})
	c.Require("profiles added again", 100)
	c.Require("very many profiles", 10)

	// Histories of SetTimescale on several structures, some of them copies of others.
	c.Cases("timescale", c.N(8000, 200000), func(t *T) {
		r := t.R
		type obj struct {
			b    *mpd.SegmentBaseType
			v    uint32
			rest string
		}
		rest := func(b mpd.SegmentBaseType) string {
			b.Timescale = nil
			return dump(b)
		}
		var objs []obj
		m := mpd.NewMPD("static")
		add := func(v uint32) *mpd.SegmentBaseType {
			p := mpd.NewPeriod()
			m.AppendPeriod(p)
			var b *mpd.SegmentBaseType
			switch r.IntN(3) {
			case 0:
				p.SegmentBase = &mpd.SegmentBaseType{}
				b = p.SegmentBase
			case 1:
				p.SegmentTemplate = mpd.NewSegmentTemplate()
				b = &p.SegmentTemplate.SegmentBaseType
			default:
				p.SegmentList = mpd.NewSegmentList()
				b = &p.SegmentList.SegmentBaseType
			}
			if r.IntN(4) == 0 {
				f := newFiller(r, 0)
				f.budget = 4
				f.fill(reflect.ValueOf(b).Elem())
				b.Timescale = nil
				t.Obs("timescales of structures with everything else")
			}
			objs = append(objs, obj{b, v, rest(*b)})
			return b
		}
		add(1)
		for k := 0; k < 2+r.IntN(12); k++ {
			i := r.IntN(len(objs))
			switch r.IntN(5) {
			case 0:
				add(1)
			case 1:
				b := add(objs[i].v)
				*b = *objs[i].b // a copy of the structure
				objs[len(objs)-1].rest = objs[i].rest
			default:
				v := []uint32{0, 1, 1, 2, 48000, 90000, math.MaxUint32, r.Uint32()}[r.IntN(8)]
				arg := v
				objs[i].b.SetTimescale(arg)
				objs[i].v = v
			}
			for j, o := range objs {
				if g := o.b.GetTimescale(); g != o.v {
					t.Failf("timescale", "structure %d has timescale %d, want %d (after an operation on %d)", j, g, o.v, i)
					return
				}
				if (o.b.Timescale == nil) != (o.v == 1) {
					t.Failf("timescale-default", "timescale %d: the attribute is set: %t", o.v, o.b.Timescale != nil)
					return
				}
				if g := rest(*o.b); g != o.rest {
					t.Failf("timescale-rest", "an operation on the timescale of structure %d made structure %d %s, want %s", i, j, clip(g, 600), clip(o.rest, 600))
					return
				}
			}
			t.Obs("timescale operations")
		}
		text, err := m.WriteToString("", false)
		if err != nil {
			t.Failf("write", "%v", err)
			return
		}
		o, err := infoset.Parse(text)
		if err != nil {
			t.Failf("ill-formed", "%v\n%s", err, text)
			return
		}
		for j, p := range o.Elems() {
			w := objs[j].v
			var g string
			ok := false
			for _, e := range p.Elems() {
				if strings.HasPrefix(e.Local, "Segment") {
					g, ok = e.Attr("", "timescale")
				}
			}
			if ok != (w != 1) || ok && g != strconv.FormatUint(uint64(w), 10) {
				t.Failf("timescale-written", "timescale %d written as %q (%t)\n%s", w, g, ok, text)
				return
			}
		}
		t.Nontrivial(text)
	})
	c.Require("timescale operations", 1000)
	c.Require("timescales of structures with everything else", 500)

	// SetSegmentBase: inclusive byte ranges that follow each other.
	c.Cases("segment base", c.N(8000, 200000), func(t *T) {
		r := t.R
		size := func() uint32 {
			switch r.IntN(3) {
			case 0:
				return []uint32{1, 2, 9, 10, 11, 99, 100, 1000, 65536, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32 - 1, math.MaxUint32}[r.IntN(13)]
			default:
				return max(1, r.Uint32()>>r.IntN(32))
			}
		}
		rep := mpd.NewRepresentation()
		rep.Id = "r"
		if r.IntN(4) == 0 {
			f := newFiller(r, 0)
			f.budget = 12
			f.fill(reflect.ValueOf(rep).Elem())
			t.Obs("segment bases of structures with everything else")
		}
		rest := func() string {
			x := *rep
			x.SegmentBase = nil
			return dump(x)
		}
		old := rest()
		for k := 0; k < 1+r.IntN(3); k++ {
			in, sx, exact := size(), size(), r.IntN(2) == 0
			rep.SetSegmentBase(in, sx, exact)
			if g := rest(); g != old {
				t.Failf("segment-base-rest", "SetSegmentBase(%d, %d, %t) changed the rest of the Representation from %s to %s", in, sx, exact, clip(old, 600), clip(g, 600))
				return
			}
			got := map[string]any{}
			setFields(".SegmentBase", reflect.ValueOf(rep.SegmentBase), got)
			end := uint64(in) + uint64(sx) - 1
			want := map[string]any{".SegmentBase.Initialization.Range": fmt.Sprintf("0-%d", in-1), ".SegmentBase.IndexRange": fmt.Sprintf("%d-%d", in, end)}
			if exact {
				want[".SegmentBase.IndexRangeExact"] = "true"
			}
			if !reflect.DeepEqual(got, want) {
				t.Failf("ranges", "SetSegmentBase(%d, %d, %t) gives %v, want %v", in, sx, exact, got, want)
				return
			}
			t.Obs("segment bases set")
			if k == 0 {
				text, err := inMPD(rep).WriteToString("", false)
				if err != nil {
					t.Failf("write", "%v", err)
					return
				}
				o, err := infoset.Parse(text)
				if err != nil {
					t.Failf("ill-formed", "%v\n%s", err, text)
					return
				}
				var sb, ini *infoset.Node
				for _, e := range findElem(o, "Representation").Elems() {
					if e.Local == "SegmentBase" {
						sb, ini = e, findElem(e, "Initialization")
					}
				}
				if sb == nil || ini == nil {
					t.Failf("written", "%s", text)
					return
				}
				a, _ := sb.Attr("", "indexRange")
				e, _ := sb.Attr("", "indexRangeExact")
				b, _ := ini.Attr("", "range")
				if a != want[".SegmentBase.IndexRange"] || b != want[".SegmentBase.Initialization.Range"] || (e == "true") != exact {
					t.Failf("written", "indexRange %q, indexRangeExact %q, range %q\n%s", a, e, b, text)
				}
				rep.SetParent(nil)
				t.Nontrivial(text)
			}
		}
	})
	c.Require("segment bases set", 1000)
	c.Require("segment bases of structures with everything else", 500)

	// Pointers and durations.
	c.Cases("pointers", c.N(8000, 200000), func(t *T) {
		r := t.R
		n := r.Uint32()
		p, q := mpd.Ptr(n), mpd.Ptr(n)
		*q = n + 1
		if *p != n || p == q {
			t.Failf("ptr", "Ptr(%d) gives %d", n, *p)
		}
		st := struct{ A []int }{[]int{1, 2}}
		if sp := mpd.Ptr(st); sp == &st || len(sp.A) != 2 || &sp.A[0] != &st.A[0] {
			t.Failf("ptr", "Ptr of a struct is not a copy of it")
		}
		var np *int
		if pp := mpd.Ptr(np); pp == nil || *pp != nil {
			t.Failf("ptr", "Ptr of a nil pointer")
		}
		const maxSec = math.MaxInt64 / int64(time.Second)
		secs := func() int64 {
			switch r.IntN(4) {
			case 0:
				return []int64{0, 1, 59, 60, 3600, 86400, 31536000, 1 << 31, 1<<31 - 1, 1 << 32, maxSec, -1, -60, -maxSec}[r.IntN(14)]
			case 1:
				return int64(r.IntN(100000))
			default:
				v := r.Int64N(maxSec) >> r.IntN(33)
				if r.IntN(8) == 0 {
					v = -v
				}
				return v
			}
		}
		for k := 0; k < 8; k++ {
			s := secs()
			if d := mpd.Seconds2DurPtr(int(s)); int64(*d) != s*int64(time.Second) {
				t.Failf("seconds", "Seconds2DurPtr(%d) is %d ns", s, int64(*d))
				return
			}
			f := float64(secs())
			switch r.IntN(4) {
			case 0:
				f = float64(r.IntN(1<<21)-1<<20) / 1000
			case 1:
				f = float64(r.Int64N(1<<46)-1<<45) / 1_000_000
			case 2:
				f += r.Float64()
			}
			if math.Abs(f) >= float64(maxSec) {
				continue
			}
			d := mpd.Seconds2DurPtrFloat64(f)
			exact := new(big.Rat).SetFloat64(f)
			exact.Mul(exact, big.NewRat(1_000_000_000, 1))
			diff := new(big.Rat).Sub(new(big.Rat).SetInt64(int64(*d)), exact)
			// half a microsecond, and what float64 loses in the product
			ulp := math.Nextafter(math.Abs(f)*1e6, math.Inf(1)) - math.Abs(f)*1e6
			lim := new(big.Rat).SetFloat64(500 + ulp*1000)
			if diff.Abs(diff).Cmp(lim) > 0 {
				t.Failf("float-seconds", "Seconds2DurPtrFloat64(%v) is %d ns", f, int64(*d))
				return
			}
			if int64(*d)%1000 != 0 {
				t.Failf("float-seconds", "Seconds2DurPtrFloat64(%v) is %d ns, not a whole number of microseconds", f, int64(*d))
				return
			}
			if back := d.Seconds(); math.Abs(back-f) > 0.5e-6+4*(math.Nextafter(math.Abs(f), math.Inf(1))-math.Abs(f)) {
				t.Failf("float-seconds", "Seconds2DurPtrFloat64(%v).Seconds() is %v", f, back)
				return
			}
			t.Obs("durations from seconds")
			t.Nontrivial("dur", strconv.FormatInt(s, 10), strconv.FormatFloat(f, 'g', -1, 64))
		}
	})
	c.Require("durations from seconds", 10000)
	judgeConstants(c, dashConstants)
}
