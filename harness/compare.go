package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"

	"verifharness/infoset"
)

// sameValue compares a written value with the meant one in the value space of the kind.
func sameValue(kind, want, got string) string {
	w := strings.TrimSpace(want)
	switch kind {
	case "string":
		if want != got {
			return fmt.Sprintf("want %q, got %q", want, got)
		}
		return ""
	case "bool":
		if (w == "true" || w == "1") != (got == "true" || got == "1") || got != "true" && got != "false" && got != "1" && got != "0" {
			return fmt.Sprintf("want bool %q, got %q", want, got)
		}
	case "list":
		if strings.Join(listItems(want), " ") != strings.Join(listItems(got), " ") {
			return fmt.Sprintf("want list %q, got %q", want, got)
		}
	case "float32", "float64", "floatinf":
		bits := 64
		if kind == "float32" {
			bits = 32
		}
		if got != "INF" && got != "-INF" && strings.ContainsAny(got, "Iif") || strings.TrimSpace(got) != got || got == "" {
			return fmt.Sprintf("not an xs:double: %q", got)
		}
		a, _ := strconv.ParseFloat(w, bits)
		b, err := strconv.ParseFloat(got, bits)
		if err != nil && !math.IsInf(b, 0) || a != b {
			return fmt.Sprintf("want float %q, got %q", want, got)
		}
	case "duration":
		a, ok1 := refParseDuration(w)
		b, ok2 := refParseDuration(got)
		if !ok1 || !ok2 {
			return fmt.Sprintf("want duration %q, got %q", want, got)
		}
		a = roundNS(a)
		// Durations of at least one millisecond are written with millisecond precision.
		tol := big.NewRat(500_000, 1)
		if a.Cmp(big.NewRat(500_000, 1)) < 0 {
			tol = new(big.Rat)
		}
		d := new(big.Rat).Sub(a, roundNS(b))
		if d.Abs(d).Cmp(tol) > 0 {
			return fmt.Sprintf("want duration %q, got %q", want, got)
		}
	default: // integers
		a, ok1 := new(big.Int).SetString(w, 10)
		b, ok2 := new(big.Int).SetString(got, 10)
		if !ok1 || !ok2 || a.Cmp(b) != 0 {
			return fmt.Sprintf("want integer %q, got %q", want, got)
		}
	}
	return ""
}

// isZero reports whether a value is the zero value of its kind.
func isZero(kind, v string) bool {
	v = strings.TrimSpace(v)
	switch kind {
	case "string", "list":
		return v == ""
	case "bool":
		return v == "false" || v == "0"
	case "float32", "float64", "floatinf":
		bits := 64
		if kind == "float32" {
			bits = 32
		}
		f, err := strconv.ParseFloat(v, bits)
		return err == nil && f == 0
	case "duration":
		d, ok := refParseDuration(v)
		return ok && roundNS(d).Sign() == 0
	}
	i, ok := new(big.Int).SetString(v, 10)
	return ok && i.Sign() == 0
}

// compareDoc checks that what was written is the model document: same elements, namespaces,
// order, attributes and text. indented is set if the writer was asked to indent.
func compareDoc(m *mNode, o *infoset.Node, indented bool) error {
	return compareElem("/MPD", m, o, indented)
}

func compareElem(path string, m *mNode, o *infoset.Node, indented bool) error {
	if o.NS != m.ns || o.Local != m.name {
		return fmt.Errorf("%s: written as {%s}%s, want {%s}%s", path, o.NS, o.Local, m.ns, m.name)
	}
	if m.leaf {
		if len(o.Attrs) != 0 || len(o.Elems()) != 0 {
			return fmt.Errorf("%s: simple element with other content", path)
		}
		if w, g := modelText(m), o.Text(); w != g {
			return fmt.Errorf("%s: text: want %q, got %q", path, w, g)
		}
		return nil
	}
	t := m.typ
	// attributes
	seen := map[string]bool{}
	for _, a := range m.attrs {
		key := a.ns + " " + a.name
		got, ok := o.Attr(a.ns, a.name)
		if a.def == nil {
			if !t.anyAttr {
				if ok {
					return fmt.Errorf("%s: unknown attribute {%s}%s was kept", path, a.ns, a.name)
				}
				continue
			}
			seen[key] = true
			if !ok || got != a.value {
				return fmt.Errorf("%s: extension attribute {%s}%s: want %q, got %q (present %t)", path, a.ns, a.name, a.value, got, ok)
			}
			continue
		}
		seen[key] = true
		if !ok {
			drop := a.def.flag == "omit0" && isZero(a.def.kind, a.value) || a.def.kind == "list" && isZero("list", a.value)
			if a.def.kind == "string" && a.def.flag == "omit0" && a.value != "" {
				drop = false
			}
			if !drop {
				return fmt.Errorf("%s: attribute {%s}%s=%q was lost", path, a.ns, a.name, a.value)
			}
			continue
		}
		if e := sameValue(a.def.kind, a.value, got); e != "" {
			return fmt.Errorf("%s: attribute {%s}%s: %s", path, a.ns, a.name, e)
		}
	}
	for _, a := range o.Attrs {
		if seen[a.NS+" "+a.Local] {
			continue
		}
		if def := t.attr(a.NS, a.Local); def != nil && def.flag == "always" && isZero(def.kind, a.Value) {
			continue
		}
		return fmt.Errorf("%s: attribute {%s}%s=%q was added", path, a.NS, a.Local, a.Value)
	}
	if t.inner {
		want, err := infoset.Parse("<x>" + m.raw + "</x>")
		if err != nil {
			return fmt.Errorf("harness: bad raw sample: %v", err)
		}
		want.NS, want.Local = o.NS, o.Local
		// namespaces of the sample are self-contained, so the parse does not depend on the place
		got := *o
		got.Attrs = nil
		want.Attrs = nil
		if w, g := want.Canon(false), got.Canon(false); w != g {
			return fmt.Errorf("%s: inner XML: want %s, got %s", path, w, g)
		}
		return nil
	}
	// text
	w, g := "", o.Text()
	if t.text {
		w = modelText(m)
	}
	if indented && len(o.Elems()) > 0 {
		w, g = strings.TrimSpace(w), strings.TrimSpace(g)
	}
	if w != g {
		return fmt.Errorf("%s: text: want %q, got %q", path, clip(w, 300), clip(g, 300))
	}
	// children: in schema order, and in document order for each name
	var want []*mNode
	for i := range t.kids {
		k := &t.kids[i]
		for _, kid := range m.kids {
			if kid.n == nil || kid.n.unknown || kid.n.name != k.name || !sameChildNS(m, kid.n, k) {
				continue
			}
			if kid.n.leaf && modelText(kid.n) == "" {
				continue
			}
			want = append(want, kid.n)
		}
	}
	got := o.Elems()
	for i := 0; i < len(want) || i < len(got); i++ {
		switch {
		case i >= len(got):
			return fmt.Errorf("%s: element %s was lost (wrote %s)", path, want[i].name, elemNames(got))
		case i >= len(want):
			return fmt.Errorf("%s: element %s was added", path, got[i].Local)
		case want[i].name != got[i].Local:
			return fmt.Errorf("%s: child %d is %s, want %s (wrote %s)", path, i, got[i].Local, want[i].name, elemNames(got))
		}
		if err := compareElem(fmt.Sprintf("%s/%s[%d]", path, want[i].name, i), want[i], got[i], indented); err != nil {
			return err
		}
	}
	return nil
}

func sameChildNS(m, kid *mNode, k *vChild) bool {
	switch k.ns {
	case "@scte":
		return kid.ns == nsSCTE35 || kid.ns == nsSCTE2016
	case "":
		return kid.ns == m.ns || (m.ns == nsSCTE35 || m.ns == nsSCTE2016) && (kid.ns == nsSCTE35 || kid.ns == nsSCTE2016)
	}
	return kid.ns == k.ns
}

func elemNames(ns []*infoset.Node) string {
	var s []string
	for _, n := range ns {
		s = append(s, n.Local)
	}
	return strings.Join(s, ",")
}

func modelText(m *mNode) string {
	var b strings.Builder
	for _, k := range m.kids {
		b.WriteString(k.text)
	}
	return b.String()
}

func countNodes(n *infoset.Node) (elems, attrs int) {
	elems, attrs = 1, len(n.Attrs)
	for _, k := range n.Elems() {
		e, a := countNodes(k)
		elems += e
		attrs += a
	}
	return
}

// refParseDuration is an independent reading of the documented subset of xs:duration:
// P[nD][T[nH][nM][n(.n)S]] with at least one part and none after a bare T. In nanoseconds.
func refParseDuration(s string) (*big.Rat, bool) {
	rest, ok := strings.CutPrefix(s, "P")
	if !ok {
		return nil, false
	}
	date, tim, hasT := strings.Cut(rest, "T")
	if hasT && tim == "" || !hasT && date == "" {
		return nil, false
	}
	total := new(big.Rat)
	take := func(part *string, units string, scale []int64) bool {
		for i := 0; i < len(units) && *part != ""; i++ {
			j := strings.IndexByte(*part, units[i])
			if j < 0 {
				continue
			}
			num := (*part)[:j]
			ip, fp, dot := strings.Cut(num, ".")
			if !allDigits(ip) || dot && (units[i] != 'S' || !allDigits(fp)) {
				return false
			}
			v, _ := new(big.Rat).SetString(ip + "." + fp + "0")
			total.Add(total, v.Mul(v, new(big.Rat).SetInt64(scale[i])))
			*part = (*part)[j+1:]
		}
		return *part == ""
	}
	if !take(&date, "D", []int64{86400e9}) || !take(&tim, "HMS", []int64{3600e9, 60e9, 1e9}) {
		return nil, false
	}
	return total, true
}

func allDigits(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range []byte(s) {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

// roundNS rounds to whole nanoseconds, half away from zero.
func roundNS(r *big.Rat) *big.Rat {
	half := big.NewRat(1, 2)
	n := new(big.Rat).Add(r, half)
	q := new(big.Int).Div(n.Num(), n.Denom())
	return new(big.Rat).SetInt(q)
}
