package main

import (
	stdxml "encoding/xml"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/Eyevinn/dash-mpd/xml"
)

// Named types of forms that reflect.StructOf cannot make, in two editions: N is the package's Name,
// A its Attr, E the element marshaller.

type Inner1[N any] struct {
	XMLName N      `xml:"root"`
	At      string `xml:"at,attr"`
	B       int    `xml:"b"`
}

type inner2[N any] struct {
	At   string   `xml:"urn:b at2,attr"`
	C    []string `xml:"c"`
	X    N        `xml:"item"`
	Deep []int    `xml:"p1>p2>a"`
}

// nothing but embedded structs
type OnlyEmb[N any] struct{ Inner1[N] }
type OnlyEmb2[N any] struct {
	OnlyEmb[N]
	inner2[N]
}
type UnexpEmb[N any] struct {
	inner2[N]
	B string `xml:"b"`
}
type PtrEmb[N any] struct {
	*Inner1[N]
	A string `xml:"a"`
}

// the outer field hides the inner one
type Shadow[N any] struct {
	Inner1[N]
	XMLName N      `xml:"a"`
	B       string `xml:"b"`
	At      int    `xml:"at,attr"`
}

// types that contain themselves
type Node[N, A any] struct {
	XMLName N            `xml:"a"`
	Attrs   []A          `xml:",any,attr"`
	Kids    []Node[N, A] `xml:"a"`
	Next    *Node[N, A]  `xml:"p1>a"`
	Text    string       `xml:",chardata"`
}
type AnyNode[N, A any] struct {
	XMLName N
	Attrs   []A              `xml:",any,attr"`
	Text    string           `xml:",chardata"`
	Nodes   []*AnyNode[N, A] `xml:",any"`
}
type hidden[N any] struct {
	a    string `xml:"a"`
	b    N      `xml:"b"`
	C    string `xml:"c"`
	At   string `xml:"a,attr"`
	text string `xml:",chardata"`
}

// XMLNames that are no Name
type StrName struct {
	XMLName string `xml:"root"`
	A       string `xml:"a"`
}
type AttrName struct {
	XMLName string `xml:"x,attr"`
	A       string `xml:"a"`
}
type ElemName[N any] struct {
	XMLName *N `xml:"urn:a root"`
	A       string
}

// methods promoted from embedded fields
type EmbText struct {
	tText
	A string `xml:"a"`
}
type EmbTime struct {
	time.Time
	B string `xml:"b"`
}
type EmbElem[E any] struct {
	El E `xml:"a"`
	Es []E
	Pp *E `xml:"p1>c"`
}

// several places for text, and odd kinds
type Texts[E any] struct {
	T1 string  `xml:",chardata"`
	I  any     `xml:"a"`
	P  *any    `xml:"b"`
	T2 string  `xml:",comment"`
	R  [2]int  `xml:"c"`
	L  [2]*int `xml:"item"`
}
type AnyFirst[N any] struct {
	Rest  []Inner3 `xml:",any"`
	B     string   `xml:"b"`
	C     *string  `xml:"p1>c"`
	Inner string   `xml:",innerxml"`
}
type Inner3 struct {
	V string `xml:",innerxml"`
	A string `xml:"a,attr"`
	T string `xml:",chardata"`
}
type Maps struct {
	M map[string]string `xml:"a"`
	C complex64         `xml:"b"`
	D string            `xml:"c"`
}
type MapAttr struct {
	M map[string]string `xml:"a,attr"`
	C []complex64       `xml:"b,attr"`
	D string            `xml:"c"`
}
type Empties struct {
	A  [0]int    `xml:"a,omitempty"`
	B  [2]string `xml:"b,omitempty"`
	C  any       `xml:"c,omitempty"`
	D  *int      `xml:"d,attr,omitempty"`
	E  tStr      `xml:"e,attr,omitempty"`
	F  tPStr     `xml:"f,omitempty"`
	G  time.Time `xml:"g,omitempty"`
	H  bool      `xml:"h,omitempty"`
	I  float64   `xml:"i,attr,omitempty"`
	J  nBytes    `xml:"j,omitempty"`
	K  []string  `xml:"k,omitempty"`
	L  struct{}  `xml:"l,omitempty"`
	M_ string    `xml:"p1>m,omitempty"`
	N  uintptr   `xml:"p1>n,omitempty"`
}

// ---- values with text forms of other kinds ----

// tPStr is a string whose text methods have pointer receivers.
type tPStr string

func (x *tPStr) MarshalText() ([]byte, error) {
	if *x == "fail" {
		return nil, errors.New("tPStr fails")
	}
	return []byte("*" + *x), nil
}
func (x *tPStr) UnmarshalText(b []byte) error {
	if strings.Contains(string(b), "fail") {
		return errors.New("tPStr fails")
	}
	*x += tPStr(b)
	return nil
}

// tInt is a number with a text form.
type tInt int

func (x tInt) MarshalText() ([]byte, error) {
	if x == 7 {
		return nil, errors.New("tInt fails")
	}
	return fmt.Appendf(nil, "n%d", int(x)), nil
}
func (x *tInt) UnmarshalText(b []byte) error {
	if strings.Contains(string(b), "fail") {
		return errors.New("tInt fails")
	}
	*x = tInt(len(b))
	return nil
}

// tList is a slice with a text form.
type tList []string

func (x tList) MarshalText() ([]byte, error) { return []byte(strings.Join(x, "|")), nil }
func (x *tList) UnmarshalText(b []byte) error {
	if strings.Contains(string(b), "fail") {
		return errors.New("tList fails")
	}
	*x = append(*x, strings.Split(string(b), "|")...)
	return nil
}

// tPBytes is a byte slice, and tPBool a bool, whose text methods have pointer receivers.
type tPBytes []byte

func (x *tPBytes) MarshalText() ([]byte, error) { return append([]byte("B"), *x...), nil }
func (x *tPBytes) UnmarshalText(b []byte) error { *x = append(tPBytes("u"), b...); return nil }

type tPBool bool

func (x *tPBool) MarshalText() ([]byte, error) { return fmt.Appendf(nil, "is %v", *x), nil }
func (x *tPBool) UnmarshalText(b []byte) error { *x = len(b)%2 == 0; return nil }

// elements and attributes of other kinds

type oList []string

func (x oList) MarshalXML(e *xml.Encoder, st xml.StartElement) error {
	return e.EncodeElement(strings.Join(x, " "), st)
}
func (x *oList) UnmarshalXML(d *xml.Decoder, st xml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &st); err != nil {
		return err
	}
	*x = append(*x, s, st.Name.Local)
	return nil
}

type sList []string

func (x sList) MarshalXML(e *stdxml.Encoder, st stdxml.StartElement) error {
	return e.EncodeElement(strings.Join(x, " "), st)
}
func (x *sList) UnmarshalXML(d *stdxml.Decoder, st stdxml.StartElement) error {
	var s string
	if err := d.DecodeElement(&s, &st); err != nil {
		return err
	}
	*x = append(*x, s, st.Name.Local)
	return nil
}

type oAttrs []string

func (x oAttrs) MarshalXMLAttr(n xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: n, Value: strings.Join(x, " ")}, nil
}
func (x *oAttrs) UnmarshalXMLAttr(a xml.Attr) error {
	*x = append(*x, a.Name.Local, a.Value)
	return nil
}

type sAttrs []string

func (x sAttrs) MarshalXMLAttr(n stdxml.Name) (stdxml.Attr, error) {
	return stdxml.Attr{Name: n, Value: strings.Join(x, " ")}, nil
}
func (x *sAttrs) UnmarshalXMLAttr(a stdxml.Attr) error {
	*x = append(*x, a.Name.Local, a.Value)
	return nil
}

// pointer-only attribute marshallers
type oPAttr int

func (x *oPAttr) MarshalXMLAttr(n xml.Name) (xml.Attr, error) {
	switch *x % 16 {
	case 5:
		return xml.Attr{}, errors.New("oPAttr fails")
	case 6:
		return xml.Attr{}, nil
	}
	return xml.Attr{Name: xml.Name{Space: n.Space, Local: n.Local + "2"}, Value: fmt.Sprint("P", int(*x))}, nil
}
func (x *oPAttr) UnmarshalXMLAttr(a xml.Attr) error { *x += oPAttr(len(a.Value)); return nil }

type sPAttr int

func (x *sPAttr) MarshalXMLAttr(n stdxml.Name) (stdxml.Attr, error) {
	switch *x % 16 {
	case 5:
		return stdxml.Attr{}, errors.New("oPAttr fails")
	case 6:
		return stdxml.Attr{}, nil
	}
	return stdxml.Attr{Name: stdxml.Name{Space: n.Space, Local: n.Local + "2"}, Value: fmt.Sprint("P", int(*x))}, nil
}
func (x *sPAttr) UnmarshalXMLAttr(a stdxml.Attr) error { *x += sPAttr(len(a.Value)); return nil }

// Types whose methods all have value receivers: what they read is lost, their errors are not.

type tVStr string

func (x tVStr) MarshalText() ([]byte, error) { return []byte("V" + x), nil }
func (x tVStr) UnmarshalText(b []byte) error {
	if len(b)%4 == 3 || strings.Contains(string(b), "fail") {
		return errors.New("tVStr fails")
	}
	return nil
}

type tVStruct struct {
	B string `xml:"b"`
}

func (x tVStruct) MarshalText() ([]byte, error) { return []byte("V" + x.B), nil }
func (x tVStruct) UnmarshalText(b []byte) error { return tVStr("").UnmarshalText(b) }

type oVElem struct {
	B string `xml:"b"`
}

func (x oVElem) MarshalXML(e *xml.Encoder, st xml.StartElement) error {
	return e.EncodeElement(x.B, st)
}
func (x oVElem) UnmarshalXML(d *xml.Decoder, st xml.StartElement) error {
	if len(st.Attr) == 2 {
		return errors.New("oVElem fails")
	}
	if len(st.Attr) == 1 {
		return nil // leaves the element unread
	}
	return d.Skip()
}

type sVElem struct {
	B string `xml:"b"`
}

func (x sVElem) MarshalXML(e *stdxml.Encoder, st stdxml.StartElement) error {
	return e.EncodeElement(x.B, st)
}
func (x sVElem) UnmarshalXML(d *stdxml.Decoder, st stdxml.StartElement) error {
	if len(st.Attr) == 2 {
		return errors.New("oVElem fails")
	}
	if len(st.Attr) == 1 {
		return nil
	}
	return d.Skip()
}

type oVAttr string

func (x oVAttr) MarshalXMLAttr(n xml.Name) (xml.Attr, error) {
	return xml.Attr{Name: n, Value: "V" + string(x)}, nil
}
func (x oVAttr) UnmarshalXMLAttr(a xml.Attr) error { return tVStr("").UnmarshalText([]byte(a.Value)) }

type sVAttr string

func (x sVAttr) MarshalXMLAttr(n stdxml.Name) (stdxml.Attr, error) {
	return stdxml.Attr{Name: n, Value: "V" + string(x)}, nil
}
func (x sVAttr) UnmarshalXMLAttr(a stdxml.Attr) error {
	return tVStr("").UnmarshalText([]byte(a.Value))
}

type ValRecv[E, A any] struct {
	A1 A     `xml:"a,attr"`
	A2 *A    `xml:"urn:b at2,attr"`
	E1 E     `xml:"a"`
	E2 []E   `xml:"item"`
	E3 *E    `xml:"p1>c"`
	T  tVStr `xml:"b"`
	C  tVStr `xml:",chardata"`
}
type EmbVal struct {
	tVStr
	A string `xml:"a"`
}
type TextCdata struct {
	A tVStruct `xml:"a,attr"`
	C tVStruct `xml:",cdata"`
	B tVStruct `xml:"b"`
}

// Gen has no XMLName, so that its own name is used.
type Gen[T any] struct {
	A T      `xml:"a"`
	B []T    `xml:"b"`
	C string `xml:"c,attr"`
}

// ---- their shapes ----

func named[A, B any]() func() twin {
	return func() twin {
		o, s := reflect.TypeFor[A](), reflect.TypeFor[B]()
		return twin{o, s, "", shapeOf(o, s)}
	}
}

var namedTwins = []func() twin{
	named[OnlyEmb[xml.Name], OnlyEmb[stdxml.Name]](),
	named[OnlyEmb2[xml.Name], OnlyEmb2[stdxml.Name]](),
	named[UnexpEmb[xml.Name], UnexpEmb[stdxml.Name]](),
	named[PtrEmb[xml.Name], PtrEmb[stdxml.Name]](),
	named[Shadow[xml.Name], Shadow[stdxml.Name]](),
	named[Node[xml.Name, xml.Attr], Node[stdxml.Name, stdxml.Attr]](),
	named[AnyNode[xml.Name, xml.Attr], AnyNode[stdxml.Name, stdxml.Attr]](),
	named[hidden[xml.Name], hidden[stdxml.Name]](),
	named[StrName, StrName](),
	named[AttrName, AttrName](),
	named[ElemName[xml.Name], ElemName[stdxml.Name]](),
	named[EmbText, EmbText](),
	named[EmbTime, EmbTime](),
	named[EmbElem[oElem], EmbElem[sElem]](),
	named[EmbElem[oList], EmbElem[sList]](),
	named[Texts[oElem], Texts[sElem]](),
	named[AnyFirst[xml.Name], AnyFirst[stdxml.Name]](),
	named[Maps, Maps](),
	named[MapAttr, MapAttr](),
	named[Empties, Empties](),
	named[ValRecv[oVElem, oVAttr], ValRecv[sVElem, sVAttr]](),
	named[EmbVal, EmbVal](),
	named[Gen[int], Gen[int]](),
	named[Gen[[]string], Gen[[]string]](),
	named[Gen[[2]bool], Gen[[2]bool]](),
	named[Gen[Gen[[]int]], Gen[Gen[[]int]]](),
	named[TextCdata, TextCdata](),
}

var shapeMemo = map[reflect.Type]*shape{}

// shapeOf makes the shape of a named struct type from its fields and tags, for the documents.
// It is used under shapeMu.
func shapeOf(o, s reflect.Type) *shape {
	if sh, ok := shapeMemo[o]; ok {
		return sh
	}
	sh := &shape{static: true}
	shapeMemo[o] = sh
	for i := 0; i < o.NumField(); i++ {
		of, sf := o.Field(i), s.Field(i)
		if of.PkgPath != "" && !of.Anonymous {
			continue
		}
		f := shapeField{name: of.Name, tag: of.Tag.Get("xml"), anon: of.Anonymous, tw: twin{of.Type, sf.Type, "str", nil}}
		ot, st := of.Type, sf.Type
		for ot.Kind() == reflect.Pointer || ot.Kind() == reflect.Slice {
			ot, st = ot.Elem(), st.Elem()
		}
		switch ot.Kind() {
		case reflect.Struct:
			if ot.PkgPath() == o.PkgPath() && strings.Contains("Inner1Inner3inner2NodeAnyNodeOnlyEmb", strings.Split(ot.Name(), "[")[0]) {
				f.tw.sub = shapeOf(ot, st)
			}
			if ot == reflect.TypeFor[time.Time]() {
				f.tw.kind = "time"
			}
		case reflect.Int:
			f.tw.kind = "int"
		case reflect.Float64:
			f.tw.kind = "float"
		case reflect.Bool:
			f.tw.kind = "bool"
		}
		name, opts, _ := strings.Cut(f.tag, ",")
		if sp, l, ok := strings.Cut(name, " "); ok {
			f.space, name = sp, l
		}
		path := strings.Split(name, ">")
		f.path, f.local = path[:len(path)-1], path[len(path)-1]
		opts = strings.TrimSuffix(opts, ",omitempty")
		switch {
		case of.Name == "XMLName" && opts != "attr":
			f.kind = "xmlname"
			sh.xname = &f
		case of.Anonymous && f.tw.sub != nil:
			f.kind = "embed"
			if sh.xname == nil && f.tw.sub.xname != nil {
				sh.xname = f.tw.sub.xname
			}
		case of.Anonymous:
			f.kind = "skip"
		case opts == "any,attr":
			f.kind = "anyattr"
		case opts == "" || opts == "omitempty":
			f.kind = "elem"
			if f.local == "" {
				f.local = f.name
			}
		default:
			f.kind = opts
		}
		sh.fields = append(sh.fields, f)
	}
	return sh
}
