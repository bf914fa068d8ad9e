package main

import (
	"bytes"
	stdxml "encoding/xml"
	"errors"
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"slices"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/Eyevinn/dash-mpd/xml"
)

// A twin is one Go type for each of the two XML packages, of the same shape.
type twin struct {
	ours, std reflect.Type
	kind      string // of simple values, for the documents
	sub       *shape
}

func twinOf[A, B any](kind string) twin {
	return twin{reflect.TypeFor[A](), reflect.TypeFor[B](), kind, nil}
}

func (w twin) ptr() twin {
	return twin{reflect.PointerTo(w.ours), reflect.PointerTo(w.std), w.kind, w.sub}
}
func (w twin) slice() twin {
	return twin{reflect.SliceOf(w.ours), reflect.SliceOf(w.std), w.kind, w.sub}
}

// ---- types with methods, in two editions ----

// tText is a text (un)marshaller with a pointer receiver for reading.
type tText struct{ V string }

func (x tText) MarshalText() ([]byte, error) {
	if x.V == "fail" {
		return nil, errors.New("tText fails")
	}
	return []byte("[" + x.V + "]"), nil
}
func (x *tText) UnmarshalText(b []byte) error {
	if bytes.Contains(b, []byte("fail")) {
		return errors.New("tText fails")
	}
	x.V = strings.TrimSuffix(strings.TrimPrefix(string(b), "["), "]")
	return nil
}

// tPText marshals text with a pointer receiver only.
type tPText struct{ V string }

func (x *tPText) MarshalText() ([]byte, error) {
	if x.V == "fail" {
		return nil, errors.New("tPText fails")
	}
	return []byte("p:" + x.V), nil
}
func (x *tPText) UnmarshalText(b []byte) error {
	if bytes.Contains(b, []byte("fail")) {
		return errors.New("tPText fails")
	}
	x.V = strings.TrimPrefix(string(b), "p:")
	return nil
}

// tStr is a named string with a text form.
type tStr string

func (x tStr) MarshalText() ([]byte, error) {
	if x == "fail" {
		return nil, errors.New("tStr fails")
	}
	return []byte("<" + string(x) + ">"), nil
}
func (x *tStr) UnmarshalText(b []byte) error {
	if bytes.Contains(b, []byte("fail")) {
		return errors.New("tStr fails")
	}
	*x = tStr("T" + string(b))
	return nil
}

type (
	nStr   string
	nInt   int16
	nBytes []byte
	nBool  bool
	nFloat float32
	nUint  uint64
	nArray [70]byte
)

// attribute marshallers
type oAttr struct{ V string }

func (x oAttr) MarshalXMLAttr(n xml.Name) (xml.Attr, error) {
	if x.V == "fail" {
		return xml.Attr{}, errors.New("attr fails")
	}
	if x.V == "" {
		return xml.Attr{}, nil
	}
	return xml.Attr{Name: n, Value: "A" + x.V}, nil
}
func (x *oAttr) UnmarshalXMLAttr(a xml.Attr) error {
	if strings.Contains(a.Value, "fail") {
		return errors.New("attr fails")
	}
	x.V = a.Name.Local + a.Name.Space + a.Value
	return nil
}

type sAttr struct{ V string }

func (x sAttr) MarshalXMLAttr(n stdxml.Name) (stdxml.Attr, error) {
	if x.V == "fail" {
		return stdxml.Attr{}, errors.New("attr fails")
	}
	if x.V == "" {
		return stdxml.Attr{}, nil
	}
	return stdxml.Attr{Name: n, Value: "A" + x.V}, nil
}
func (x *sAttr) UnmarshalXMLAttr(a stdxml.Attr) error {
	if strings.Contains(a.Value, "fail") {
		return errors.New("attr fails")
	}
	x.V = a.Name.Local + stdSpace(a.Name.Space) + a.Value
	return nil
}

func stdSpace(s string) string {
	if s == "xmlns" {
		return "http://www.w3.org/2000/xmlns/"
	}
	return s
}

// element marshallers: read by tokens, written by tokens
type oElem struct {
	Name  string
	Log   []string
	Inner string
}

func (x *oElem) MarshalXML(e *xml.Encoder, st xml.StartElement) error {
	st.Attr = append(st.Attr, xml.Attr{Name: xml.Name{Local: "log"}, Value: strings.Join(x.Log, ",")})
	if x.Inner == "none" {
		return nil
	}
	if x.Inner == "fail" {
		return errors.New("elem fails")
	}
	if err := e.EncodeToken(st); err != nil {
		return err
	}
	if err := e.EncodeElement(x.Inner, xml.StartElement{Name: xml.Name{Local: "inner"}}); err != nil {
		return err
	}
	if x.Inner == "open" {
		return nil
	}
	return e.EncodeToken(st.End())
}

func (x *oElem) UnmarshalXML(d *xml.Decoder, st xml.StartElement) error {
	late := false
	x.Name = nameStr(st.Name.Space, st.Name.Local)
	for _, a := range st.Attr {
		x.Log = append(x.Log, nameStr(a.Name.Space, a.Name.Local)+a.Value)
	}
	if _, err := d.RawToken(); err == nil {
		return errors.New("RawToken is allowed")
	}
	for {
		tok, err := d.Token()
		if err != nil {
			return err
		}
		switch k := tok.(type) {
		case xml.EndElement:
			if late {
				return errors.New("elem fails at its end")
			}
			return nil
		case xml.StartElement:
			switch k.Name.Local {
			case "b":
				if err := d.DecodeElement(&x.Inner, &k); err != nil {
					return err
				}
			case "c":
				return nil // leaves the element unread
			case "p1":
				late = true
				if err := d.Skip(); err != nil {
					return err
				}
			case "item":
				return errors.New("elem fails")
			default:
				if err := d.Skip(); err != nil {
					return err
				}
			}
		default:
			x.Log = append(x.Log, tokStr(tok))
		}
	}
}

type sElem struct {
	Name  string
	Log   []string
	Inner string
}

func (x *sElem) MarshalXML(e *stdxml.Encoder, st stdxml.StartElement) error {
	st.Attr = append(st.Attr, stdxml.Attr{Name: stdxml.Name{Local: "log"}, Value: strings.Join(x.Log, ",")})
	if x.Inner == "none" {
		return nil
	}
	if x.Inner == "fail" {
		return errors.New("elem fails")
	}
	if err := e.EncodeToken(st); err != nil {
		return err
	}
	if err := e.EncodeElement(x.Inner, stdxml.StartElement{Name: stdxml.Name{Local: "inner"}}); err != nil {
		return err
	}
	if x.Inner == "open" {
		return nil
	}
	return e.EncodeToken(st.End())
}

func (x *sElem) UnmarshalXML(d *stdxml.Decoder, st stdxml.StartElement) error {
	late := false
	x.Name = stdName(st.Name, false)
	for _, a := range st.Attr {
		x.Log = append(x.Log, stdName(a.Name, false)+a.Value)
	}
	if _, err := d.RawToken(); err == nil {
		return errors.New("RawToken is allowed")
	}
	for {
		tok, err := d.Token()
		if err != nil {
			return err
		}
		switch k := tok.(type) {
		case stdxml.EndElement:
			if late {
				return errors.New("elem fails at its end")
			}
			return nil
		case stdxml.StartElement:
			switch k.Name.Local {
			case "b":
				if err := d.DecodeElement(&x.Inner, &k); err != nil {
					return err
				}
			case "c":
				return nil
			case "p1":
				late = true
				if err := d.Skip(); err != nil {
					return err
				}
			case "item":
				return errors.New("elem fails")
			default:
				if err := d.Skip(); err != nil {
					return err
				}
			}
		default:
			x.Log = append(x.Log, stdTokStr(tok, false))
		}
	}
}

// ---- generated shapes ----

type shape struct {
	fields []shapeField
	xname  *shapeField
	static bool // of a named type
}

type shapeField struct {
	name, tag  string // Go name, full tag
	kind       string // attr, elem, chardata, cdata, innerxml, comment, any, anyattr, embed, skip, xmlname
	space      string
	local      string
	path       []string
	tw         twin
	anon, many bool
}

var shapeMu sync.Mutex // of shapeMemo

type shaper struct {
	r       *rand.Rand
	marshal bool // for marshalling: interfaces with values
	budget  int
	large   int // length of one list
	fields  int // number of fields of one struct
	limit   int // how much longer a document may get
	n       int
	spaced  map[string]bool // attribute names of fields with a namespace

	// What is written without a namespace is in that of its parent, unless the
	// parent has a prefix that an attribute outside it declared and a MarshalXML
	// method writes it. For marshalling,
	// either attributes and elements have separate namespaces, or there are no such
	// methods. (Nor are there elements with names at run time: encoding/xml puts them
	// outside the namespace of the parent only if that has a name with a namespace,
	// and not if it is in its parent's.)
	shared bool
}

func (g *shaper) space(attr bool) string {
	switch {
	case !g.marshal || g.shared:
		return shapeSpaces[g.r.IntN(len(shapeSpaces))]
	case g.p(3, 5):
		return ""
	case attr:
		return g.one("urn:b", "urn:b", "urn:d")
	}
	return g.one("urn:a", "urn:a", "urn:c")
}

func (g *shaper) p(n, d int) bool { return g.r.IntN(d) < n }

func (g *shaper) one(l ...string) string { return l[g.r.IntN(len(l))] }

func (g *shaper) simple() twin {
	switch g.r.IntN(26) {
	case 24:
		return []twin{twinOf[tPStr, tPStr]("str"), twinOf[tInt, tInt]("int"), twinOf[tList, tList]("str"), twinOf[tPBytes, tPBytes]("str"), twinOf[tPBool, tPBool]("str"),
			twinOf[tVStr, tVStr]("str"), twinOf[tVStruct, tVStruct]("str")}[g.r.IntN(7)]
	case 22:
		return []twin{twinOf[int32, int32]("int"), twinOf[uint32, uint32]("uint"), twinOf[uint, uint]("uint"), twinOf[uintptr, uintptr]("uint"),
			twinOf[nBool, nBool]("bool"), twinOf[nFloat, nFloat]("float"), twinOf[nUint, nUint]("uint"), twinOf[rune, rune]("int")}[g.r.IntN(8)]
	case 23:
		if g.marshal {
			return []twin{twinOf[[0]byte, [0]byte]("str"), twinOf[[1]byte, [1]byte]("str"), twinOf[[20]byte, [20]byte]("str"), twinOf[[40]byte, [40]byte]("str"),
				twinOf[[300]byte, [300]byte]("str"), twinOf[nArray, nArray]("str")}[g.r.IntN(6)]
		}
	case 0:
		return twinOf[int, int]("int")
	case 1:
		return twinOf[int8, int8]("int")
	case 2:
		return twinOf[uint16, uint16]("uint")
	case 3:
		return twinOf[int64, int64]("int")
	case 4:
		return twinOf[uint64, uint64]("uint")
	case 5:
		return twinOf[float64, float64]("float")
	case 6:
		return twinOf[float32, float32]("float")
	case 7, 8:
		return twinOf[bool, bool]("bool")
	case 9:
		return twinOf[[]byte, []byte]("str")
	case 10:
		return twinOf[nStr, nStr]("str")
	case 11:
		return twinOf[nInt, nInt]("int")
	case 12:
		return twinOf[tText, tText]("str")
	case 13:
		return twinOf[tPText, tPText]("str")
	case 14:
		return twinOf[tStr, tStr]("str")
	case 15:
		return twinOf[time.Time, time.Time]("time")
	case 16:
		return twinOf[nBytes, nBytes]("str")
	case 17:
		return twinOf[uint8, uint8]("uint")
	case 18:
		if g.marshal {
			return twinOf[[3]byte, [3]byte]("str")
		}
	}
	return twinOf[string, string]("str")
}

var shapeSpaces = []string{"", "", "", "urn:a", "urn:b"}

// st makes a struct shape.
func (g *shaper) st(depth int, embedded bool) *shape {
	s := &shape{}
	if !embedded && g.p(1, 2) {
		f := shapeField{name: "XMLName", kind: "xmlname", tw: twinOf[xml.Name, stdxml.Name]("")}
		if g.p(1, 2) || g.shared {
			f.local = g.one("a", "b", "root")
			f.space = g.space(false)
			f.tag = strings.TrimLeft(f.space+" "+f.local, " ")
		}
		s.xname = &f
		s.fields = append(s.fields, f)
	}
	used := map[string]bool{}
	i, many := 1+g.r.IntN(6), g.fields > 0
	if many {
		i, g.fields = g.fields, 0
		g.limit += 100 * i
	}
	once := g.r.IntN(i)
	for ; i > 0; i-- {
		g.n++
		f := shapeField{name: fmt.Sprintf("F%d", g.n), space: g.space(false)}
		if embedded && g.p(4, 5) {
			f.local = g.one(f.name, fmt.Sprintf("e%d", g.n))
		} else {
			f.local = g.one("a", "b", "c", "item", "Long-Name", f.name, fmt.Sprintf("e%d", g.n))
		}
		opt := ""
		if g.p(1, 4) {
			opt = ",omitempty"
		}
		name := strings.TrimLeft(f.space+" "+f.local, " ")
		k := g.r.IntN(20)
		if many && i > 1 { // few that are one of a kind, and one of them at the end or anywhere
			f.local = g.one(f.name, fmt.Sprintf("e%d", g.n))
			name = strings.TrimLeft(f.space+" "+f.local, " ")
			if k >= 5 && k < 12 && i != once {
				k = []int{0, 19}[g.r.IntN(2)]
			}
		} else if many {
			k = 4 + g.r.IntN(5)
		}
		switch {
		case k < 5:
			f.kind = "attr"
			f.space = g.space(true)
			// A field with the attribute's namespace goes before one without,
			// where encoding/xml sets both: names have or do not have one.
			if g.spaced == nil {
				g.spaced = map[string]bool{}
			}
			if sp, ok := g.spaced[f.local]; !ok {
				g.spaced[f.local] = f.space != ""
			} else if !sp {
				f.space = ""
			} else if f.space == "" {
				f.space = "urn:b"
			}
			name = strings.TrimLeft(f.space+" "+f.local, " ")
			f.tw = g.simple()
			if g.p(1, 8) {
				f.tw = []twin{twinOf[oAttr, sAttr]("str"), twinOf[oAttr, sAttr]("str"), twinOf[oAttrs, sAttrs]("str"), twinOf[oPAttr, sPAttr]("str"), twinOf[oVAttr, sVAttr]("str")}[g.r.IntN(5)]
			}
			if g.p(1, 5) {
				f.tw = f.tw.ptr()
			} else if g.p(1, 10) && f.tw.ours.Kind() != reflect.Uint8 && f.tw.ours.Kind() != reflect.Slice {
				f.tw = f.tw.slice()
			} else if g.p(1, 15) {
				f.tw = twinOf[xml.Attr, stdxml.Attr]("str")
			} else if g.p(1, 30) {
				f.tw = twinOf[any, any]("str")
			}
			if f.local == f.name && f.space == "" {
				name = ""
			}
			f.tag = name + ",attr" + opt
		case k < 6:
			f.kind = "anyattr"
			f.tw = twinOf[[]xml.Attr, []stdxml.Attr]("")
			if g.p(1, 5) {
				f.tw = twinOf[xml.Attr, stdxml.Attr]("")
			} else if g.p(1, 8) {
				switch g.r.IntN(5) {
				case 0:
					f.tw = twinOf[oAttr, sAttr]("str")
				case 1:
					f.tw = twinOf[[]oAttr, []sAttr]("str")
				case 2:
					f.tw = twinOf[int, int]("int")
				case 3:
					f.tw = twinOf[[]string, []string]("str")
				case 4:
					f.tw = twinOf[[]tText, []tText]("str")
				}
			}
			f.tag = ",any,attr"
		case k < 7:
			f.kind = g.one("chardata", "cdata")
			f.tw = g.simple()
			if g.p(1, 5) && reflect.PointerTo(f.tw.ours).NumMethod() == 0 {
				f.tw = f.tw.ptr() // text methods would be called with a nil receiver
			}
			f.tag = "," + f.kind
		case k < 8:
			f.kind = g.one("comment", "innerxml", "comment")
			f.tw = twinOf[string, string]("str")
			if g.p(1, 3) {
				f.tw = twinOf[[]byte, []byte]("str")
			}
			if g.p(1, 15) {
				switch g.r.IntN(6) {
				case 0:
					f.tw = twinOf[int, int]("str")
				case 1:
					f.tw = twinOf[*string, *string]("str")
				case 2:
					f.tw = twinOf[nStr, nStr]("str")
				case 3:
					f.tw = twinOf[any, any]("str")
				case 4:
					f.tw = twinOf[[2]string, [2]string]("str")
				case 5:
					if g.marshal { // both packages panic when they store
						f.tw = twinOf[[]string, []string]("str")
					}
				}
			}
			f.tag = "," + f.kind
		case k < 9:
			f.kind = "any"
			f.tw = g.elemType(depth)
			f.tag = ",any"
		case k < 10:
			f.kind = "skip"
			f.tw = g.simple()
			f.tag = "-"
		case k < 12 && depth < 4 && g.budget > 0:
			f.kind = "embed"
			f.anon = true
			f.name = fmt.Sprintf("E%d", g.n)
			sub := g.st(depth+1, true)
			tw, ok := sub.types()
			if !ok {
				continue
			}
			f.tw = tw
			if g.p(1, 4) {
				f.tw = f.tw.ptr()
			}
		default:
			f.kind = "elem"
			f.tw = g.elemType(depth)
			if g.p(1, 5) {
				for j := 1 + g.r.IntN(2); j > 0; j-- {
					f.path = append(f.path, g.one("p1", "p2", "a"))
				}
				f.space = ""
				name = strings.Join(f.path, ">") + ">" + f.local
				if g.p(1, 4) {
					f.space = "urn:a"
					name = "urn:a " + name
				}
				opt = ""
				if g.p(1, 4) {
					opt = ",omitempty"
				}
			}
			if f.tw.sub != nil && f.tw.sub.xname != nil && f.tw.sub.xname.local != "" && g.p(19, 20) {
				f.path, f.space, f.local = nil, f.tw.sub.xname.space, f.tw.sub.xname.local
				if g.p(1, 4) { // the type alone says what its namespace is
					f.space = ""
				}
				name = strings.TrimLeft(f.space+" "+f.local, " ")
			}
			f.tag = name + opt
			if name == f.name && opt == "" && g.p(1, 2) {
				f.tag = ""
			}
		}
		if f.kind != "skip" && !f.anon && !many && g.p(1, 80) {
			f.tag = g.one(f.local+">", ">"+f.local, "a>>"+f.local, f.local+",attr,chardata", f.local+",chardata", ",cdata,chardata", f.local+",comment", ",omitempty,chardata",
				",any,chardata", f.local+",any,attr", f.local+",any", f.local+",unknown", f.local+" ,attr", "urn:a  "+f.local, " "+f.local, f.local+",", "urn:a p>"+f.local, "p>"+f.local+",attr",
				",attr", ",any,omitempty", ",innerxml,omitempty", "urn:a ,attr", "urn:a ", ",attr,any", ",omitempty", ",omitempty,attr", "-,", ">", ",", "urn:a >a", "a >b", ",comment,attr")
			if strings.Contains(f.tag, "attr") && !g.marshal && (f.tw.sub != nil || f.kind == "attr") {
				f.tag = ">" // an attribute could go to two fields, which the packages do differently
			}
		}
		key := f.kind + f.space + " " + f.local + strings.Join(f.path, ">")
		if used[key] && g.p(29, 30) {
			continue // conflicts are errors; some are wanted
		}
		used[key] = true
		s.fields = append(s.fields, f)
	}
	return s
}

// named gives one of the named types.
func (g *shaper) named() twin {
	shapeMu.Lock()
	defer shapeMu.Unlock()
	for {
		tw := namedTwins[g.r.IntN(len(namedTwins))]()
		if !g.shared || !strings.HasPrefix(tw.ours.Name(), "EmbElem") && !strings.HasPrefix(tw.ours.Name(), "AnyNode") && !strings.HasPrefix(tw.ours.Name(), "ValRecv") {
			return tw
		}
	}
}

func (g *shaper) elemType(depth int) twin {
	g.budget--
	var tw twin
	switch k := g.r.IntN(13); {
	case k == 12:
		if g.p(1, 4) && !g.shared {
			tw = twinOf[oList, sList]("str")
			if g.p(1, 3) {
				tw = twinOf[oVElem, sVElem]("str")
			}
			break
		}
		tw = g.named()
	case k < 4 && depth < 4 && g.budget > 0:
		sub := g.st(depth+1, false)
		var ok bool
		if tw, ok = sub.types(); !ok {
			tw = g.simple()
		}
	case k == 4 && !g.shared:
		tw = twinOf[oElem, sElem]("")
	case k == 5:
		tw = twinOf[any, any]("")
		if !g.marshal {
			return tw
		}
	case k == 6:
		tw = twinOf[xml.Name, stdxml.Name]("")
	default:
		tw = g.simple()
	}
	switch g.r.IntN(8) {
	case 0:
		tw = tw.ptr()
	case 1:
		tw = tw.slice()
	case 2:
		tw = tw.ptr().slice()
	case 3:
		if g.p(1, 4) && reflect.PointerTo(tw.ours).NumMethod() == 0 {
			tw = tw.ptr().ptr() // methods would be called with a nil receiver
		}
	}
	return tw
}

// types makes the two Go types of a shape.
func (s *shape) types() (tw twin, ok bool) {
	defer func() {
		if recover() != nil { // a combination that StructOf does not have
			ok = false
		}
	}()
	var a, b []reflect.StructField
	for _, f := range s.fields {
		tag := reflect.StructTag("")
		if f.tag != "" {
			tag = reflect.StructTag(fmt.Sprintf("xml:%q", f.tag))
		}
		a = append(a, reflect.StructField{Name: f.name, Type: f.tw.ours, Tag: tag, Anonymous: f.anon})
		b = append(b, reflect.StructField{Name: f.name, Type: f.tw.std, Tag: tag, Anonymous: f.anon})
	}
	return twin{reflect.StructOf(a), reflect.StructOf(b), "", s}, true
}

// ---- comparing and copying values of twin types ----

func isNameType(t reflect.Type) bool {
	return t == reflect.TypeFor[xml.Name]() || t == reflect.TypeFor[stdxml.Name]()
}

// valStr writes a value so that values of twin types can be compared.
func valStr(b *strings.Builder, v reflect.Value, depth int) {
	if depth > 60 {
		b.WriteString("…")
		return
	}
	if isNameType(v.Type()) {
		sp := v.Field(0).String()
		if v.Type() == reflect.TypeFor[stdxml.Name]() {
			sp = stdSpace(sp)
		}
		fmt.Fprintf(b, "name(%q %q)", sp, v.Field(1).String())
		return
	}
	if v.Type() == reflect.TypeFor[time.Time]() && v.CanInterface() {
		fmt.Fprint(b, v.Interface())
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		valStr(b, v.Elem(), depth+1)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			b.WriteString(v.Type().Field(i).Name + ":")
			if v.Type().Field(i).Anonymous && f.Kind() == reflect.Pointer && f.IsNil() {
				// encoding/xml allocates embedded structs also for nothing
				f = reflect.New(f.Type().Elem())
			}
			valStr(b, f, depth+1)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil-slice")
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "%q", v.Bytes())
			return
		}
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			valStr(b, v.Index(i), depth+1)
			b.WriteString(",")
		}
		b.WriteString("]")
	case reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			valStr(b, v.Index(i), depth+1)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%x", math.Float64bits(v.Float()))
	default:
		fmt.Fprint(b, v)
	}
}

func valueStr(v any) string {
	if v == nil {
		return "nil"
	}
	var b strings.Builder
	valStr(&b, reflect.ValueOf(v), 0)
	return b.String()
}

// twinTypes maps the types with methods.
var twinTypes = map[reflect.Type]reflect.Type{
	reflect.TypeFor[xml.Name](): reflect.TypeFor[stdxml.Name](),
	reflect.TypeFor[xml.Attr](): reflect.TypeFor[stdxml.Attr](),
	reflect.TypeFor[oElem]():    reflect.TypeFor[sElem](),
	reflect.TypeFor[oAttr]():    reflect.TypeFor[sAttr](),
	reflect.TypeFor[oList]():    reflect.TypeFor[sList](),
	reflect.TypeFor[oVElem]():   reflect.TypeFor[sVElem](),
}

// copyTwin copies a value of one edition to the other.
func copyTwin(dst, src reflect.Value) {
	switch src.Kind() {
	case reflect.Pointer:
		if !src.IsNil() {
			dst.Set(reflect.New(dst.Type().Elem()))
			copyTwin(dst.Elem(), src.Elem())
		}
	case reflect.Interface:
		if !src.IsNil() {
			e := src.Elem()
			n := reflect.New(stdTypeOf(e.Type())).Elem()
			copyTwin(n, e)
			dst.Set(n)
		}
	case reflect.Slice:
		if !src.IsNil() {
			dst.Set(reflect.MakeSlice(dst.Type(), src.Len(), src.Len()))
			for i := 0; i < src.Len(); i++ {
				copyTwin(dst.Index(i), src.Index(i))
			}
		}
	case reflect.Struct:
		if src.Type() == reflect.TypeFor[time.Time]() {
			dst.Set(src)
			return
		}
		for i := 0; i < src.NumField(); i++ {
			if src.Field(i).Kind() == reflect.Struct && src.Type().Field(i).Anonymous || dst.Field(i).CanSet() {
				copyTwin(dst.Field(i), src.Field(i))
			}
		}
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			copyTwin(dst.Index(i), src.Index(i))
		}
	default:
		dst.Set(src.Convert(dst.Type()))
	}
}

func stdTypeOf(t reflect.Type) reflect.Type {
	if s, ok := twinTypes[t]; ok {
		return s
	}
	switch t.Kind() {
	case reflect.Pointer:
		return reflect.PointerTo(stdTypeOf(t.Elem()))
	case reflect.Slice:
		if s := stdTypeOf(t.Elem()); s != t.Elem() {
			return reflect.SliceOf(s)
		}
	}
	return t
}

// ---- documents that fit a shape, more or less ----

func (g *shaper) simpleText(kind string) string {
	if g.p(1, 14) {
		return g.one("", " ", "x", "1.5", "-1", "300", "fail", "99999999999999999999", "true", "1e400", " 7 ", "NaN", "INF", "0x10", "+5")
	}
	switch kind {
	case "int":
		return g.one("0", "1", "-5", "127", " 12\n", "-128")
	case "uint":
		return g.one("0", "1", "200", " 12 ", "255")
	case "float":
		return g.one("0", "1.5", "-2e10", "inf", "NaN", "1e-320", " 3 ")
	case "bool":
		return g.one("true", "false", "1", "0", " true ", "T")
	case "time":
		return g.one("2020-01-02T03:04:05Z", "0001-01-01T00:00:00Z", "2020-01-02T03:04:05.678+02:00")
	}
	if g.p(1, 60) {
		return longStr(g.r, bigLengths[g.r.IntN(20)], false)
	}
	return g.one("", "text", " a b ", "&lt;&amp;", "é", "]]", "x&#xA;y", "fail?", "a\r\nb")
}

func (g *shaper) docAttr(b *strings.Builder, space, local, val string) {
	pre := map[string]string{"urn:a": "ua:", "urn:b": "ub:", "": ""}[space]
	q := g.one("\"", "'")
	b.WriteString(" " + pre + local + "=" + q + strings.ReplaceAll(val, "\"", "") + q)
}

// nearName gives a name that is like another one but is not it.
func nearName(r *rand.Rand, n string) string {
	first, size := utf8.DecodeRuneInString(n)
	last, end := utf8.DecodeLastRuneInString(n)
	switch r.IntN(10) {
	case 0:
		return strings.ToUpper(n)
	case 1:
		return strings.ToLower(n)
	case 2:
		return string(unicode.ToUpper(first)) + n[size:]
	case 3:
		return string(unicode.ToLower(first)) + n[size:]
	case 4:
		return n + string(last)
	case 5:
		return n + []string{"_", "-", ".", "1", "s"}[r.IntN(5)]
	case 6:
		return "_" + n
	case 7:
		if len(n) > end {
			return n[:len(n)-end]
		}
	case 8:
		return strings.NewReplacer("-", "_", "_", "-", ".", "").Replace(n)
	}
	return n
}

func (g *shaper) docMisc(b *strings.Builder) {
	if g.p(1, 6) {
		b.WriteString(g.one("<!--c1-->", "<!-- c2 -->", "<?pi x?>", "<![CDATA[<cd>]]>", " ", "\n", "text", "<unknown/>", "<unknown a=\"1\"><a>1</a>t</unknown>", "<a/>", "<ua:b>5</ua:b>", "<p1><b>7</b></p1>", "<!D>"))
	}
}

// docElem writes an element for a type.
func (g *shaper) docElem(b *strings.Builder, space, local string, tw twin, depth int) {
	if depth > 12 || b.Len() > 20000+g.limit {
		return
	}
	pre := map[string]string{"urn:a": "ua:", "urn:b": "ub:", "": ""}[space]
	if g.p(1, 25) {
		pre = g.one("ua:", "ub:", "", "nope:")
	}
	if g.p(1, 40) {
		local = g.one("a", "b", "c", "x")
	} else if g.p(1, 30) {
		local = nearName(g.r, local)
	}
	b.WriteString("<" + pre + local)
	var s *shape
	if tw.sub != nil {
		s = tw.sub
	}
	if s == nil {
		if g.p(1, 8) {
			g.docAttr(b, "", "extra", "v")
		}
		if tw.kind == "" || g.p(1, 6) {
			b.WriteString(">")
			g.docMisc(b)
			if tw.kind == "" && g.p(1, 2) {
				b.WriteString(g.one("<b>in</b>", "t<a/>", "<c/>", "<item/>", "<b><b/></b>", ""))
			}
			b.WriteString(g.simpleText(tw.kind))
			g.docMisc(b)
			b.WriteString("</" + pre + local + ">")
			return
		}
		b.WriteString(">" + g.simpleText(tw.kind) + "</" + pre + local + ">")
		return
	}
	g.docAttrs(b, s, map[string]bool{})
	if g.p(1, 6) {
		g.docAttr(b, "", "extra", "v")
		if g.p(1, 3) {
			b.WriteString(" xmlns:zz=\"urn:zz\" zz:q=\"1\"")
		}
	}
	if g.p(1, 20) {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	g.docKids(b, s, depth)
	b.WriteString("</" + pre + local + ">")
}

func (g *shaper) docAttrs(b *strings.Builder, s *shape, seen map[string]bool) {
	for _, i := range g.r.Perm(len(s.fields)) {
		f := s.fields[i]
		switch {
		case f.kind == "embed":
			g.docAttrs(b, f.tw.sub, seen)
		case f.kind == "attr" && g.p(3, 4) && !seen[f.space+f.local]:
			seen[f.space+f.local] = true
			sp := f.space
			if sp == "" && g.p(1, 8) && !seen["urn:b"+f.local] {
				sp = "urn:b" // fields without a namespace take any
				seen["urn:b"+f.local] = true
			}
			local := f.local
			if g.p(1, 25) {
				if n := nearName(g.r, local); !seen[sp+n] {
					local = n
					seen[sp+n] = true
				}
			}
			g.docAttr(b, sp, local, g.simpleText(f.tw.kind))
		}
	}
}

func (g *shaper) docKids(b *strings.Builder, s *shape, depth int) {
	for _, i := range g.r.Perm(len(s.fields)) {
		f := s.fields[i]
		g.docMisc(b)
		switch f.kind {
		case "embed":
			g.docKids(b, f.tw.sub, depth)
		case "chardata", "cdata":
			b.WriteString(g.simpleText(f.tw.kind))
			g.docMisc(b)
			if g.p(1, 4) {
				b.WriteString(g.simpleText(f.tw.kind))
			}
		case "comment":
			b.WriteString("<!--cc-->")
		case "any":
			g.docElem(b, "", g.one("unknown", "x", "y"), f.tw, depth+1)
		case "elem":
			if g.p(1, 5) {
				continue
			}
			n := 1 + g.r.IntN(3)*g.r.IntN(2)
			var rep strings.Builder
			if g.large > 0 && g.p(1, 2) { // the same three elements over and over
				k := g.large
				g.large = 0
				var v [3]string
				for i := range v {
					var e strings.Builder
					for _, p := range f.path {
						e.WriteString("<" + p + ">")
					}
					local := f.local
					if f.tag == "" {
						local = f.name
					}
					g.docElem(&e, f.space, local, f.tw, 8)
					for j := len(f.path) - 1; j >= 0; j-- {
						e.WriteString("</" + f.path[j] + ">")
					}
					v[i] = e.String()
				}
				for ; k > 0 && rep.Len() < 3<<20; k-- {
					rep.WriteString(v[g.r.IntN(3)])
				}
				g.limit += rep.Len()
				b.WriteString(rep.String())
			}
			for k := n; k > 0; k-- {
				path := slices.Clone(f.path)
				for j, p := range path {
					if g.p(1, 40) {
						path[j] = nearName(g.r, p)
					}
					b.WriteString("<" + path[j] + ">")
					g.docMisc(b)
				}
				sp := f.space
				if sp == "" && g.p(1, 10) {
					sp = "urn:a"
				}
				local := f.local
				if f.tag == "" {
					local = f.name
				}
				g.docElem(b, sp, local, f.tw, depth+1)
				for j := len(path) - 1; j >= 0; j-- {
					g.docMisc(b)
					b.WriteString("</" + path[j] + ">")
				}
			}
		}
	}
	g.docMisc(b)
}

// doc writes a whole document.
func (g *shaper) doc(tw twin) string {
	var b strings.Builder
	local, space := g.one("root", "a", "x"), ""
	if x := tw.sub.xname; x != nil && x.local != "" {
		local, space = x.local, x.space
	}
	g.docElem(&b, space, local, tw, 0)
	s := b.String()
	i := strings.IndexAny(s, " />")
	decl := ` xmlns:ua="urn:a" xmlns:ub="urn:b"`
	if g.p(1, 10) {
		decl += g.one(` xmlns="urn:a"`, ` xmlns="urn:b"`, ` xmlns=""`)
	}
	s = s[:i] + decl + s[i:]
	if g.p(1, 6) {
		s = "<?xml version=\"1.0\"?>\n<!-- x -->" + s
	}
	if g.p(1, 12) {
		s = damage(g.r, s)
	}
	return s
}

// subs gives the struct types used in a shape: their own reading and writing must not depend on
// what they were part of before.
func (s *shape) subs() (l []twin) {
	if s.static {
		return nil
	}
	for _, f := range s.fields {
		if f.tw.sub != nil && f.tw.sub.static {
			continue
		}
		if f.tw.sub != nil && f.tw.ours.Kind() == reflect.Struct {
			l = append(append(l, f.tw), f.tw.sub.subs()...)
		} else if f.tw.sub != nil {
			if tw, ok := f.tw.sub.types(); ok {
				l = append(append(l, tw), f.tw.sub.subs()...)
			}
		}
	}
	return l
}
