//go:build go1.22

// schemas: checks S01..S05 on the schema package.
package main

import (
	"fmt"
	"io"
	"os"
	"sort"
	"strings"

	log "github.com/sirupsen/logrus"
	"github.com/superisaac/jlib/schema"
	. "github.com/superisaac/jlib/zzverif/kit"
)

func main() {
	log.SetOutput(io.Discard)
	_ = os.Stdout
	Main(map[string][]Family{"S01": s01(), "S02": s02(), "S03": s03(), "S04": s04(), "S05": s05()})
}

func build(x *X, desc interface{}) (s jlibschema.Schema, err error) {
	p, v := Try(func() { s, err = jlibschema.NewSchemaBuilder().Build(desc) })
	x.Step("Build(%s)", Canon(desc))
	x.Check(!p, "build-panic", "building %s panicked: %v", Canon(desc), v)
	x.Check((err == nil) == (s != nil), "build-both", "building %s gave %v and %v", Canon(desc), s, err)
	return
}

func mustBuild(x *X, s *S) jlibschema.Schema {
	sc, err := build(x, s.Describe(0))
	x.Check(err == nil, "build-refused", "building %s failed: %v", s.Key(), err)
	return sc
}

func validate(x *X, v *jlibschema.SchemaValidator, sc jlibschema.Schema, val interface{}) *jlibschema.ErrorPos {
	var ep *jlibschema.ErrorPos
	p, pv := Try(func() { ep = v.Validate(sc, val) })
	if p {
		x.Fail("validate-panic", "validating %s panicked: %v", Canon(val), pv)
	}
	return ep
}

func keys(m map[string]bool) string {
	out := []string{}
	for k := range m {
		out = append(out, fmt.Sprintf("%q", k))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// lists computed once
var (
	vals1  = SchemaValues(false)
	vals2  = SchemaValues(true)
	pvals1 = Vals(vals1)
	pvals2 = Vals(vals2)
	level0 = Leaves()
	level1 = Composites(FewLeaves())
	level2 = Composites(Reps())
)

func level3() []*S {
	var kids []*S
	for _, s := range Composites(Reps()[:5]) {
		switch s.K {
		case "list", "tuple", "object", "method", "anyOf", "not":
			if len(kids) < 400 {
				kids = append(kids, s)
			}
		}
	}
	// wrap every depth-2 schema once more in each kind
	var out []*S
	for i, k := range kids {
		other := kids[(i*7+3)%len(kids)]
		for _, c := range Composites([]*S{k}) {
			out = append(out, c)
		}
		a := NewS("anyOf")
		a.Kids = []*S{k, other}
		b := NewS("allOf")
		b.Kids = []*S{k, other}
		out = append(out, a, b)
	}
	return out
}

type level struct {
	name     string
	schemas  []*S
	vals     []interface{}
	thorough bool
	pv       []*Val
}

func levels() []level {
	return []level{
		{"leaf", level0, vals1, false, pvals1},
		{"depth1", level1, vals1, false, pvals1},
		{"depth2", level2, vals2, false, pvals2},
		{"depth3", level3(), vals2, true, pvals2},
	}
}

func s01() []Family {
	var fams []Family
	for _, lv := range levels() {
		lv := lv
		fams = append(fams, Family{Name: lv.name, Thorough: lv.thorough, Run: func(x *X) {
			s := Pick(x, lv.schemas)
			sc := mustBuild(x, s)
			key := s.Key()
			reused := jlibschema.NewSchemaValidator()
			name := lv.name + key
			for i, w := range lv.pv {
				want := s.Sat(w.V)
				x.State(name, i)
				x.Op()
				ep := validate(x, jlibschema.NewSchemaValidator(), sc, w.V)
				if (ep == nil) != want {
					x.Fail("verdict:"+s.K, "schema %s, value %s: accepted=%v, want %v", key, w.Canon, ep == nil, want)
				}
				if ep == nil {
					x.Outcome("accept")
				} else {
					x.Outcome("reject")
				}
				ep2 := reused.ValidateBytes(sc, w.JSON)
				if (ep2 == nil) != want {
					x.Fail("verdict-bytes:"+s.K, "schema %s, JSON %s: accepted=%v, want %v", key, w.JSON, ep2 == nil, want)
				}
				nwant := s.Sat(w.Native)
				ep3 := validate(x, reused, sc, w.Native)
				if (ep3 == nil) != nwant {
					x.Fail("verdict-native:"+s.K, "schema %s, native value %#v: accepted=%v, want %v", key, w.Native, ep3 == nil, nwant)
				}
			}
		}})
	}
	// numbers around every bound, exclusive combinations
	fams = append(fams, Family{Name: "bounds", Run: func(x *X) {
		k := Pick(x, []string{"number", "integer"})
		bs := []string{"", "-2", "-1", "0", "1", "2", "100", "9007199254740991", "-9007199254740991"}
		if k == "number" {
			bs = append(bs, "0.1", "-0.1", "1e10")
		}
		s := mk(k, Pick(x, bs), Pick(x, bs), x.Choose(3), x.Choose(3))
		sc := mustBuild(x, s)
		for _, c := range bs {
			if c == "" {
				continue
			}
			for d := -1; d <= 1; d++ {
				v := addText(c, d)
				for _, vv := range []interface{}{N(v), Native(N(v)), v} {
					want := s.Sat(vv)
					x.State(s.Key(), fmt.Sprintf("%T%v", vv, vv))
					x.Step("Validate(%v)", vv)
					ep := validate(x, jlibschema.NewSchemaValidator(), sc, vv)
					x.Check((ep == nil) == want, "bounds:"+k, "schema %s, value %T %v: accepted=%v, want %v", s.Key(), vv, vv, ep == nil, want)
				}
			}
		}
	}})
	// lengths
	fams = append(fams, Family{Name: "lengths", Run: func(x *X) {
		k := Pick(x, []string{"string", "list"})
		s := NewS(k)
		s.MinL, s.MaxL = x.Choose(7)-1, x.Choose(7)-1
		if k == "list" {
			s.Item = NewS("any")
		}
		sc := mustBuild(x, s)
		n := x.Choose(9)
		var v interface{} = strings.Repeat("é", n/2) + strings.Repeat("x", n%2)
		if k == "list" {
			l := L{}
			for i := 0; i < n; i++ {
				l = append(l, nil)
			}
			v = l
		}
		x.State(s.Key(), n)
		ep := validate(x, jlibschema.NewSchemaValidator(), sc, v)
		x.Check((ep == nil) == s.Sat(v), "lengths:"+k, "schema %s, size %d: accepted=%v", s.Key(), n, ep == nil)
	}})
	// wide objects and tuples: every subset of present / required / known
	fams = append(fams, Family{Name: "objects", Run: func(x *X) {
		names := []string{"a", "b", "c", "type", "params", "properties", "anyOf", "not", "", "a.b", "é"}
		var ns []string
		first := x.Choose(len(names))
		for i := 0; i < 3; i++ {
			ns = append(ns, names[(first+i)%len(names)])
		}
		o := NewS("object")
		present, req, bad := x.Choose(8), x.Choose(8), x.Choose(8)
		switch x.Choose(3) {
		case 1:
			o.Add = NewS("string")
		case 2:
			o.Add = NewS("integer")
		}
		v := M{}
		known := x.Choose(8)
		for i, n := range ns {
			if known>>i&1 == 1 {
				o.Props = append(o.Props, Prop{n, NewS("integer")})
				if req>>i&1 == 1 {
					o.Req = append(o.Req, n)
				}
			}
			if present>>i&1 == 1 {
				v[n] = N("1")
				if bad>>i&1 == 1 {
					v[n] = "s"
				}
			}
		}
		sc := mustBuild(x, o)
		x.State(o.Key(), Canon(v))
		x.Step("Validate(%s)", Canon(v))
		ep := validate(x, jlibschema.NewSchemaValidator(), sc, v)
		x.Check((ep == nil) == o.Sat(v), "objects", "schema %s, value %s: accepted=%v, want %v", o.Key(), Canon(v), ep == nil, o.Sat(v))
	}})
	fams = append(fams, names(func(x *X, s *S, sc jlibschema.Schema, vals []interface{}) {
		for _, v := range vals {
			ep := validate(x, jlibschema.NewSchemaValidator(), sc, v)
			x.Check((ep == nil) == s.Sat(v), "names", "schema %.300s, value %.300s: accepted=%v, want %v", s.Key(), Canon(v), ep == nil, s.Sat(v))
		}
	}))
	fams = append(fams, wide(func(x *X, s *S, sc jlibschema.Schema, v interface{}) {
		ep := validate(x, jlibschema.NewSchemaValidator(), sc, v)
		x.Check((ep == nil) == s.Sat(v), "wide:"+s.K, "schema %.300s, value %.300s: accepted=%v, want %v", s.Key(), Canon(v), ep == nil, s.Sat(v))
	}))
	return fams
}

func mk(k, min, max string, a, b int) *S {
	s := NewS(k)
	s.Min, s.Max, s.ExMin, s.ExMax = min, max, a, b
	return s
}

func addText(c string, d int) string {
	if d == 0 {
		return c
	}
	if strings.ContainsAny(c, ".e") {
		if d < 0 {
			return "0.05"
		}
		return "0.15"
	}
	var n int64
	fmt.Sscan(c, &n)
	return fmt.Sprint(n + int64(d))
}
