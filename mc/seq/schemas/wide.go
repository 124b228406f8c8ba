//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/superisaac/jlib/schema"
	. "github.com/superisaac/jlib/zzverif/kit"
)

// wide builds schemas with many members or many levels, and the values to
// try on them: good ones, and ones that are bad at one or two of the places.
// The model (Sat, Viol) decides what is right, so the values need no labels.
var wideShapes = []string{"list", "tuple", "tuple+", "tuple/+", "params", "params+", "params/+", "object", "object+", "object/+", "required", "required+", "anyOf", "allOf", "deep list", "deep tuple", "deep allOf", "deep method", "deep object", "deep not", "deep anyOf", "deep mixed"}

func wideSchema(shape string, n int) *S {
	integer := func() *S { return NewS("integer") }
	many := func(m int) []*S {
		var out []*S
		for i := 0; i < m; i++ {
			out = append(out, integer())
		}
		return out
	}
	switch shape {
	case "list":
		s := NewS("list")
		s.Item = integer()
		return s
	case "tuple", "tuple+", "tuple/+":
		s := NewS("tuple")
		s.Kids = many(n)
		if shape == "tuple/+" {
			s.Kids = many(n/2 + 1)
			s.Add = integer()
		}
		if shape == "tuple+" {
			s.Kids = many(2)
			s.Add = integer()
		}
		return s
	case "params", "params+", "params/+":
		s := NewS("method")
		s.Kids = many(n)
		if shape == "params/+" {
			s.Kids = many(n/2 + 1)
			s.Add = integer()
		}
		if shape == "params+" {
			s.Kids = many(2)
			s.Add = integer()
		}
		return s
	case "object", "object+", "object/+", "required", "required+":
		s := NewS("object")
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("p%d", i)
			if shape == "object+" && i >= 2 || shape == "object/+" && i > n/2 {
				continue
			}
			s.Props = append(s.Props, Prop{name, integer()})
			if strings.HasPrefix(shape, "required") {
				s.Req = append(s.Req, name)
			}
		}
		if strings.HasSuffix(shape, "+") {
			s.Add = integer()
		}
		return s
	case "anyOf":
		s := NewS("anyOf")
		for i := 0; i < n; i++ {
			s.Kids = append(s.Kids, mk("integer", fmt.Sprint(10*i), fmt.Sprint(10*i+1), 0, 0))
		}
		return s
	case "allOf":
		s := NewS("allOf")
		for i := 0; i < n; i++ {
			s.Kids = append(s.Kids, mk("integer", fmt.Sprint(-10*i), fmt.Sprint(1000-i), 0, 0))
		}
		return s
	}
	s := integer()
	for i := 0; i < n; i++ {
		var o *S
		kind := shape[5:]
		if kind == "mixed" {
			kind = []string{"list", "object", "anyOf", "tuple", "not", "not"}[i%6]
		}
		switch kind {
		case "list":
			o = NewS("list")
			o.Item = s
		case "object":
			o = NewS("object")
			o.Props = []Prop{{"a", s}}
		case "not":
			o = NewS("not")
			o.Item = s
		case "anyOf":
			o = NewS("anyOf")
			o.Kids = []*S{NewS("null"), s}
		case "tuple":
			o = NewS("tuple")
			o.Kids = []*S{NewS("any"), s}
		case "allOf":
			o = NewS("allOf")
			o.Kids = []*S{s, NewS("any")}
		case "method":
			o = NewS("method")
			o.Kids = []*S{NewS("any"), s}
		}
		s = o
	}
	return s
}

func wideValues(shape string, n int, places []int) interface{} {
	var at = map[int]bool{}
	for _, p := range places {
		at[p] = true
	}
	l := L{}
	for i := 0; i < n; i++ {
		if at[i] {
			l = append(l, "bad")
		} else {
			l = append(l, N(fmt.Sprint(i)))
		}
	}
	switch shape {
	case "list", "tuple", "tuple+", "tuple/+":
		return l
	case "params", "params+", "params/+":
		return M{"params": l}
	case "object", "object+", "object/+":
		m := M{}
		for i, v := range l {
			m[fmt.Sprintf("p%d", i)] = v
		}
		return m
	case "required", "required+":
		m := M{}
		if shape == "required+" && at[n-1] {
			m["more"] = "bad"
		}
		for i, v := range l {
			if !at[i] {
				m[fmt.Sprintf("p%d", i)] = v
			}
		}
		return m
	case "anyOf", "allOf":
		// inside, between and beyond the ranges of the members
		v := 0
		for _, p := range places {
			v += 10*p + 1
		}
		if len(places) == 2 {
			v = -v
		}
		if shape == "allOf" && len(places) == 1 {
			v = 1000 - places[0]
		}
		return N(fmt.Sprint(v))
	}
	var v interface{} = N("1")
	if at[0] {
		v = "bad"
	}
	for i := 0; i < n; i++ {
		if at[i] && i > 0 {
			v = "bad"
		}
		kind := shape[5:]
		if kind == "mixed" {
			kind = []string{"list", "object", "anyOf", "tuple", "not", "not"}[i%6]
		}
		switch kind {
		case "list":
			v = L{v}
		case "object":
			v = M{"a": v}
		case "tuple":
			v = L{nil, v}
		case "method":
			v = M{"params": L{nil, v}}
		}
	}
	return v
}

// leaf finds the innermost place of a description where a type is named.
func leaf(d interface{}, depth int) (m M, at int) {
	best := -1
	take := func(v interface{}) {
		if c, n := leaf(v, depth+1); c != nil && n > best {
			m, best = c, n
		}
	}
	switch t := d.(type) {
	case M:
		if _, named := t["type"]; named {
			m, best = t, depth
		}
		var ks []string
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			take(t[k])
		}
	case L:
		for _, v := range t {
			take(v)
		}
	}
	return m, best
}

var wideSizes = []int{1, 5, 9, 12, 17, 40}

// wide walks all shapes and sizes with no, one or two bad places.
func wide(each func(x *X, s *S, sc jlibschema.Schema, v interface{})) Family {
	return Family{Name: "wide", Run: func(x *X) {
		shape := Pick(x, wideShapes)
		n := Pick(x, wideSizes)
		s := wideSchema(shape, n)
		sc := mustBuild(x, s)
		try := func(places ...int) {
			v := wideValues(shape, n, places)
			x.State(shape, n, fmt.Sprint(places))
			x.Op()
			each(x, s, sc, v)
		}
		try()
		for i := 0; i < n; i++ {
			try(i)
		}
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				if n > 17 && (i+j)%5 != 0 && !x.Thorough {
					continue
				}
				try(i, j)
			}
		}
		if shape == "list" || shape[0] == 't' || shape[0] == 'p' { // one too few, one too many
			v := wideValues(shape, n+1, nil)
			each(x, s, sc, v)
			each(x, s, sc, wideValues(shape, n-1, nil))
		}
	}}
}

// names a property may have, also ones that differ only a little
var oddNames = []string{"a", " a", "a ", "A", "", " ", "a.b", ".a", "[0]", "0", "é", "e\u0301", "\u00e9\u0000", "a\nb", "\"", "type", "items", "properties", "requires", "additionalProperties", "name", "description", "null", "true", "~", "1", "1.5", "# a", "a: b", "- a", "<<", "$ref", "*a", "&a", "!a", strings.Repeat("n", 300), strings.Repeat("n", 301), strings.Repeat("n", 70000)}

// texts a name or description may have
var oddTexts = []string{"", "x", " x ", "null", "true", "12", "~", "a: b", "# c", "- x", "é\u2028<&>", "\"quoted\"", "two\nlines\n", "%s%d", strings.Repeat("t", 255), strings.Repeat("t", 256), strings.Repeat("t", 256) + "u", strings.Repeat("é", 5000)}

// twoNames is an object with two properties.
func twoNames(a, b string, req int, add bool) *S {
	o := NewS("object")
	o.Props = []Prop{{a, NewS("integer")}, {b, NewS("string")}}
	if req&1 == 1 {
		o.Req = append(o.Req, a)
	}
	if req&2 == 2 {
		o.Req = append(o.Req, b)
	}
	if add {
		o.Add = NewS("bool")
	}
	return o
}

func twoNamesValues(a, b string) []interface{} {
	return []interface{}{M{}, M{a: N("1")}, M{a: "s"}, M{a: true}, M{b: "s"}, M{b: N("1")}, M{a: N("1"), b: "s"}, M{a: N("1"), b: true}, M{a: "s", b: "s"}, M{a: N("1"), b: "s", "more": true}, M{a: N("1"), b: "s", a + b + "x": "no"}}
}

// names walks the pairs of names.
func names(each func(x *X, s *S, sc jlibschema.Schema, vals []interface{})) Family {
	return Family{Name: "names", Run: func(x *X) {
		i := x.Choose(len(oddNames))
		j := x.Choose(len(oddNames))
		if i == j {
			return
		}
		s := twoNames(oddNames[i], oddNames[j], x.Choose(4), x.Bool())
		x.State(i, j, len(s.Req), s.Add != nil)
		x.Op()
		each(x, s, mustBuild(x, s), twoNamesValues(oddNames[i], oddNames[j]))
	}}
}

// texts gives schemas of every kind odd names and descriptions.
func texts(each func(x *X, s *S)) Family {
	return Family{Name: "texts", Run: func(x *X) {
		s := *Pick(x, Reps())
		s.Name, s.Desc = Pick(x, oddTexts), Pick(x, oddTexts)
		x.State(s.K, s.Name, s.Desc)
		each(x, &s)
	}}
}
