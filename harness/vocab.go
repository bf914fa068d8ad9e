package main

import (
	_ "embed"
	"fmt"
	"sort"
	"strings"
)

// The vocabulary table: what elements and attributes an MPD may have, in schema order. It was
// written down once (from the DASH schema and the documented extensions) and is not derived from
// the code under test when a check runs.
//
//go:embed vocab.txt
var vocabText string

type vAttr struct {
	ns, prefix, name string
	kind             string // string, bool, int, int32, uint8.., float32, float64, floatinf, duration, list
	flag             string // opt: kept with any value; omit0: dropped if zero; always: written with zero value if absent
}

type vChild struct {
	ns, prefix, name string
	typ              string // "" for a simple element with text
	many             bool
}

type vType struct {
	name    string
	attrs   []vAttr
	kids    []vChild
	text    bool
	anyAttr bool
	inner   bool
}

var (
	vocab     = map[string]*vType{}
	vocabList []*vType
	vocabPath = map[string][]step{} // shortest path from MPD to an element of the type
)

type step struct {
	parent *vType
	child  *vChild
}

const (
	nsDASH     = "urn:mpeg:dash:schema:mpd:2011"
	nsXlink    = "http://www.w3.org/1999/xlink"
	nsXsi      = "http://www.w3.org/2001/XMLSchema-instance"
	nsCenc     = "urn:mpeg:cenc:2013"
	nsSCTE35   = "http://www.scte.org/schemas/35"
	nsSCTE2016 = "http://www.scte.org/schemas/35/2016"
	nsXMLNS    = "http://www.w3.org/2000/xmlns/"
)

func init() {
	var cur *vType
	dash := func(s string) string {
		if s == "-" {
			return ""
		}
		return s
	}
	for _, line := range strings.Split(vocabText, "\n") {
		f := strings.Fields(line)
		if len(f) == 0 {
			continue
		}
		switch f[0] {
		case "type":
			cur = &vType{name: f[1]}
			vocab[cur.name] = cur
			vocabList = append(vocabList, cur)
		case "attr":
			cur.attrs = append(cur.attrs, vAttr{dash(f[1]), dash(f[2]), f[3], f[4], f[5]})
		case "child":
			cur.kids = append(cur.kids, vChild{dash(f[1]), dash(f[2]), f[3], f[4], f[5] == "*"})
		case "leaf":
			cur.kids = append(cur.kids, vChild{dash(f[1]), dash(f[2]), f[3], "", f[5] == "*"})
		case "text":
			cur.text = true
		case "anyattr":
			cur.anyAttr = true
		case "inner":
			cur.inner = true
		default:
			panic("vocab: " + line)
		}
	}
	// breadth-first shortest paths
	queue := []string{"MPD"}
	vocabPath["MPD"] = nil
	for len(queue) > 0 {
		t := vocab[queue[0]]
		queue = queue[1:]
		for i := range t.kids {
			k := &t.kids[i]
			if k.typ == "" {
				continue
			}
			if _, ok := vocabPath[k.typ]; !ok {
				vocabPath[k.typ] = append(append([]step(nil), vocabPath[t.name]...), step{t, k})
				queue = append(queue, k.typ)
			}
		}
	}
	for _, t := range vocabList {
		if _, ok := vocabPath[t.name]; !ok {
			panic("vocab: unreachable " + t.name)
		}
	}
}

// vocabItems lists everything that can appear: "Type@attr", "Type/child", "Type#text".
func vocabItems() []string {
	var out []string
	for _, t := range vocabList {
		for _, a := range t.attrs {
			out = append(out, t.name+"@"+a.prefix+":"+a.name)
		}
		for _, k := range t.kids {
			out = append(out, t.name+"/"+k.prefix+":"+k.name)
		}
		if t.text {
			out = append(out, t.name+"#text")
		}
		if t.anyAttr {
			out = append(out, t.name+"@*")
		}
		if t.inner {
			out = append(out, t.name+"#inner")
		}
	}
	sort.Strings(out)
	return out
}

func (t *vType) attr(ns, name string) *vAttr {
	for i := range t.attrs {
		if t.attrs[i].ns == ns && t.attrs[i].name == name {
			return &t.attrs[i]
		}
	}
	return nil
}

func (k vChild) String() string { return fmt.Sprintf("{%s}%s", k.ns, k.name) }

// kid is the child element of the name.
func (t *vType) kid(name string) *vChild {
	for i := range t.kids {
		if t.kids[i].name == name {
			return &t.kids[i]
		}
	}
	panic("no child " + name)
}
