//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/schema"
	. "github.com/superisaac/jlib/zzverif/kit"
)

func decorate(s *S, depth int) *S {
	// names and descriptions at every level
	c := *s
	c.Name = fmt.Sprintf("n%d%s", depth, s.K)
	c.Desc = fmt.Sprintf("d\"%d\n é", depth)
	c.Kids = nil
	for _, k := range s.Kids {
		c.Kids = append(c.Kids, decorate(k, depth+1))
	}
	if s.Kids != nil && c.Kids == nil {
		c.Kids = []*S{}
	}
	if s.Item != nil {
		c.Item = decorate(s.Item, depth+1)
	}
	if s.Add != nil {
		c.Add = decorate(s.Add, depth+1)
	}
	if s.Ret != nil {
		c.Ret = decorate(s.Ret, depth+1)
	}
	c.Props = nil
	for _, p := range s.Props {
		c.Props = append(c.Props, Prop{p.Name, decorate(p.S, depth+1)})
	}
	return &c
}

func s03() []Family {
	var fams []Family
	for _, lv := range append(levels(), level{"named-forms", wellFormed(), vals2, false, pvals2}) {
		lv := lv
		fams = append(fams, Family{Name: lv.name, Thorough: lv.thorough, Run: func(x *X) {
			s := Pick(x, lv.schemas)
			if x.Bool() {
				s = decorate(s, 0)
			}
			sc := mustBuild(x, s)
			x.State(s.Key())
			text := jlibschema.SchemaToString(sc)
			x.Step("export -> %s", text)
			mdata, err := json.Marshal(sc.Map())
			x.Check(err == nil && exportKey(sc) == mustKey(mdata), "map-vs-text:"+s.K, "map export %s differs from text export %s", mdata, text)
			back, err := jlibschema.NewSchemaBuilder().BuildBytes([]byte(text))
			x.Check(err == nil, "rebuild:"+s.K, "export %s of %s does not build: %v", text, s.Key(), err)
			x.Step("rebuild")
			x.Check(back.Type() == sc.Type(), "type:"+s.K, "rebuilt type %s", back.Type())
			x.Check(back.Equal(sc) && sc.Equal(back), "equal:"+s.K, "rebuilt schema %s is not equal to the original %s", exportKey(back), s.Key())
			sameMeaning(x, "rebuilt", back, s, lv.vals)
			sameMeaning(x, "after-export", sc, s, lv.vals[:40])
			x.Check(sameExport(back, sc), "re-export:"+s.K, "second export %s differs from first %s", exportKey(back), text)
			// the export as a description means the same as the model, names included
			v, _ := Parse([]byte(text))
			m2, ok := refBuild(v)
			x.Check(ok, "export-form:"+s.K, "export %s is not a well-formed description", text)
			x.Check(skeleton(m2) == skeleton(s), "export-content:"+s.K, "export %s does not describe %s", skeleton(m2), skeleton(s))
			// a YAML build of the export agrees too
			yb, err := jlibschema.NewSchemaBuilder().BuildYamlBytes([]byte(text))
			x.Check(err == nil && yb.Equal(sc), "yaml-rebuild:"+s.K, "export %s read as YAML differs (%v)", text, err)
		}})
	}
	again := func(x *X, s *S, vals []interface{}) {
		sc := mustBuild(x, s)
		text := jlibschema.SchemaToString(sc)
		back, err := jlibschema.NewSchemaBuilder().BuildBytes([]byte(text))
		x.Check(err == nil && back.Equal(sc) && sc.Equal(back), "equal:"+s.K, "rebuilt schema is not equal to the original %.300s (%v)", s.Key(), err)
		v, _ := Parse([]byte(text))
		m2, ok := refBuild(v)
		x.Check(ok && skeleton(m2) == skeleton(s), "export-content:"+s.K, "export %.300s does not describe %.300s", text, skeleton(s))
		sameMeaning(x, "rebuilt", back, s, vals)
	}
	fams = append(fams, names(func(x *X, s *S, sc jlibschema.Schema, vals []interface{}) { again(x, s, vals) }))
	fams = append(fams, texts(func(x *X, s *S) { again(x, s, vals1[:5]) }))
	fams = append(fams, Family{Name: "wide", Run: func(x *X) {
		shape, n := Pick(x, wideShapes), Pick(x, wideSizes)
		s := decorate(wideSchema(shape, n), 0)
		sc := mustBuild(x, s)
		x.State(shape, n)
		text := jlibschema.SchemaToString(sc)
		back, err := jlibschema.NewSchemaBuilder().BuildBytes([]byte(text))
		x.Check(err == nil && back.Equal(sc) && sc.Equal(back), "equal:"+s.K, "rebuilt schema is not equal to the original %.300s (%v)", s.Key(), err)
		v, _ := Parse([]byte(text))
		m2, ok := refBuild(v)
		x.Check(ok && skeleton(m2) == skeleton(s), "export-content:"+s.K, "export %.300s does not describe %.300s", text, skeleton(s))
		for i := 0; i < n; i++ {
			w := wideValues(shape, n, []int{i})
			x.Check((validate(x, jlibschema.NewSchemaValidator(), back, w) == nil) == s.Sat(w), "wide-verdict:"+s.K, "rebuilt schema %.300s, value %.300s", s.Key(), Canon(w))
		}
	}})
	return fams
}

func mustKey(data []byte) string {
	v, err := Parse(data)
	if err != nil {
		return "<" + err.Error() + ">"
	}
	sortReqs(v)
	return Canon(v)
}

// skeleton is the model key with the defaults of the format made explicit.
func skeleton(s *S) string {
	c := withDefaults(s)
	return c.Key()
}

func withDefaults(s *S) *S {
	c := *s
	c.Min, c.Max = normNum(s.K, s.Min), normNum(s.K, s.Max)
	if c.K == "method" && c.Ret == nil {
		c.Ret = NewS("any")
	}
	c.Kids = nil
	for _, k := range s.Kids {
		c.Kids = append(c.Kids, withDefaults(k))
	}
	if s.Item != nil {
		c.Item = withDefaults(s.Item)
	}
	if s.Add != nil {
		c.Add = withDefaults(s.Add)
	}
	if c.Ret != nil {
		c.Ret = withDefaults(c.Ret)
	}
	c.Props = nil
	for _, p := range s.Props {
		c.Props = append(c.Props, Prop{p.Name, withDefaults(p.S)})
	}
	return &c
}

func normNum(kind, t string) string {
	if t == "" || kind != "number" {
		return t
	}
	f, err := strconv.ParseFloat(t, 64)
	if err != nil {
		return t
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

func s04() []Family {
	var set []*S
	set = append(set, level0...)
	for i, s := range level1 {
		if i%3 == 0 || s.K == "list" || s.K == "not" {
			set = append(set, s)
		}
	}
	set = append(set, wellFormed()...)
	for _, s := range Reps() {
		set = append(set, named(s, "n", ""), named(s, "m", ""), named(s, "", "n"), named(s, "n", "n"))
	}
	// one-attribute mutations of rich schemas
	rich := wellFormed()
	for _, s := range rich {
		set = append(set, mutants(s)...)
	}
	// dedup by key
	seen := map[string]bool{}
	var uniq []*S
	for _, s := range set {
		k := skeleton(s)
		if !seen[k] {
			seen[k] = true
			uniq = append(uniq, s)
		}
	}
	small := uniq
	built := make([]jlibschema.Schema, len(small))
	loose := make([]string, len(small))
	for i, s := range small {
		built[i], _ = jlibschema.NewSchemaBuilder().Build(s.Describe(0))
		loose[i] = exFree(s)
	}
	return []Family{
		{Name: "pairs", Run: func(x *X) {
			i := x.Choose(len(small))
			a := small[i]
			sa := mustBuild(x, a)
			x.Check(sa.Equal(sa), "reflexive:"+a.K, "%s is not equal to itself", a.Key())
			sa2 := mustBuild(x, a)
			x.Check(sa.Equal(sa2) && sa2.Equal(sa), "same:"+a.K, "two builds of %s are not equal", a.Key())
			x.Check(!sa.Equal(nil), "nil:"+a.K, "%s equals nil", a.Key())
			for j, b := range small {
				if j == i {
					continue
				}
				sb := built[j]
				if sb == nil {
					sb = mustBuild(x, b)
				}
				x.State(i, j)
				x.Op()
				e1, e2 := sa.Equal(sb), sb.Equal(sa)
				if e1 != e2 {
					x.Fail("symmetry:"+a.K+":"+b.K, "Equal(%s, %s)=%v but reversed %v", a.Key(), b.Key(), e1, e2)
				}
				if e1 && loose[i] != loose[j] {
					x.Fail("different:"+a.K+":"+b.K, "different schemas %s and %s compare equal", a.Key(), b.Key())
				}
			}
			x.Outcome("row")
		}},
		{Name: "equal-means-same-verdict", Run: func(x *X) {
			a := Pick(x, small)
			sa := mustBuild(x, a)
			// same content, properties and required names written in another order
			r := reorder(a)
			sb, err := jlibschema.NewSchemaBuilder().BuildBytes([]byte(JSON(r.Describe(0))))
			x.Check(err == nil, "reorder-build", "%v", err)
			x.State(a.Key())
			x.Step("reordered %s", a.Key())
			x.Check(sa.Equal(sb) && sb.Equal(sa), "reorder:"+a.K, "reordered properties of %s compare different", a.Key())
			for _, v := range vals1 {
				x.Check((validate(x, jlibschema.NewSchemaValidator(), sa, v) == nil) == (validate(x, jlibschema.NewSchemaValidator(), sb, v) == nil), "equal-verdict:"+a.K, "equal schemas disagree on %s", Canon(v))
			}
		}},
		{Name: "wide", Run: func(x *X) {
			// one difference at any place of a schema with many members
			shape, n := Pick(x, wideShapes), Pick(x, wideSizes)
			s := wideSchema(shape, n)
			sa := mustBuild(x, s)
			x.State(shape, n)
			for i, m := range mutants(s) {
				if exFree(m) == exFree(s) {
					continue
				}
				x.Op()
				sb := mustBuild(x, m)
				x.Check(!sa.Equal(sb) && !sb.Equal(sa), "wide-different:"+s.K, "%.400s and its mutant %d %.400s compare equal", s.Key(), i, m.Key())
			}
			x.Check(sa.Equal(mustBuild(x, s)), "wide-same:"+s.K, "two builds of %.400s are not equal", s.Key())
		}},
		texts(func(x *X, s *S) {
			// another name or description makes another schema
			sa := mustBuild(x, s)
			for _, t := range oddTexts {
				n, d := *s, *s
				n.Name, d.Desc = t, t
				for _, o := range []*S{&n, &d} {
					x.Op()
					sb := mustBuild(x, o)
					same := o.Name == s.Name && o.Desc == s.Desc
					x.Check(sa.Equal(sb) == same && sb.Equal(sa) == same, "text:"+s.K, "%.300s and %.300s: equal %v %v", s.Key(), o.Key(), sa.Equal(sb), sb.Equal(sa))
				}
			}
		}),
		{Name: "names", Run: func(x *X) {
			i, j, k := x.Choose(len(oddNames)), x.Choose(len(oddNames)), x.Choose(len(oddNames))
			if i == j || i == k {
				return
			}
			sa, sb := mustBuild(x, twoNames(oddNames[i], oddNames[j], 1, false)), mustBuild(x, twoNames(oddNames[i], oddNames[k], 1, false))
			x.State(i, j, k)
			x.Op()
			x.Check(sa.Equal(sb) == (j == k) && sb.Equal(sa) == (j == k), "name", "properties %.50q, %.50q and %.50q, %.50q: equal %v %v", oddNames[i], oddNames[j], oddNames[i], oddNames[k], sa.Equal(sb), sb.Equal(sa))
		}},
		{Name: "triples", Run: func(x *X) {
			// transitivity over builds of few schemas in different forms
			few := Reps()
			a, b, c := Pick(x, few), Pick(x, few), Pick(x, few)
			f := func(s *S, form int) jlibschema.Schema {
				sc, err := build(x, s.Describe(form))
				x.Check(err == nil, "build", "%v", err)
				return sc
			}
			sa, sb, sc := f(a, x.Choose(2)), f(b, x.Choose(2)), f(c, x.Choose(2))
			x.State(a.Key(), b.Key(), c.Key())
			if sa.Equal(sb) && sb.Equal(sc) {
				x.Check(sa.Equal(sc), "transitive", "equality is not transitive on %s %s %s", a.Key(), b.Key(), c.Key())
				x.Outcome("chain")
			}
			x.Check(sa.Equal(sb) == (a.Key() == b.Key()), "content", "Equal(%s,%s)=%v", a.Key(), b.Key(), sa.Equal(sb))
		}},
	}
}

// exFree is the key without exclusive flags written as false, which may or
// may not compare equal to absent ones.
func exFree(a *S) string {
	return strings.ReplaceAll(strings.ReplaceAll(skeleton(a), `"exclusiveMaximum":false,`, ""), `"exclusiveMinimum":false,`, "")
}

func reorder(s *S) *S {
	c := *s
	c.Props = nil
	for i := len(s.Props) - 1; i >= 0; i-- {
		c.Props = append(c.Props, Prop{s.Props[i].Name, reorder(s.Props[i].S)})
	}
	c.Req = nil
	for i := len(s.Req) - 1; i >= 0; i-- {
		c.Req = append(c.Req, s.Req[i])
	}
	return &c
}

func mutants(s *S) []*S {
	var out []*S
	mut := func(f func(c *S)) {
		c := *s
		f(&c)
		out = append(out, &c)
	}
	mut(func(c *S) { c.Name = "mutname" })
	mut(func(c *S) { c.Desc = "mutdesc" })
	switch s.K {
	case "number", "integer":
		mut(func(c *S) { c.Min = "-77" })
		mut(func(c *S) { c.Max = "78" })
		mut(func(c *S) { c.Min = "" })
		mut(func(c *S) { c.Max = "" })
		mut(func(c *S) { c.ExMin = 2; c.Min = "0" })
		mut(func(c *S) { c.ExMax = 2; c.Max = "0" })
	case "string":
		mut(func(c *S) { c.MinL = 5 })
		mut(func(c *S) { c.MaxL = 6 })
		mut(func(c *S) { c.MinL = -1 })
		mut(func(c *S) { c.MaxL = -1 })
	case "list":
		mut(func(c *S) { c.MinL = 5 })
		mut(func(c *S) { c.MaxL = 6 })
		mut(func(c *S) { c.MinL = -1 })
		mut(func(c *S) { c.MaxL = -1 })
		mut(func(c *S) { c.Item = NewS("bool") })
	}
	for i := range s.Kids {
		i := i
		for _, km := range append(mutants(s.Kids[i]), NewS("null")) {
			km := km
			mut(func(c *S) { c.Kids = append([]*S{}, s.Kids...); c.Kids[i] = km })
		}
		mut(func(c *S) { c.Kids = append(append([]*S{}, s.Kids[:i]...), s.Kids[i+1:]...) })
	}
	if len(s.Kids) > 1 {
		mut(func(c *S) {
			c.Kids = append([]*S{}, s.Kids...)
			c.Kids[0], c.Kids[1] = c.Kids[1], c.Kids[0]
		})
		mut(func(c *S) { c.Kids = append(append([]*S{}, s.Kids...), NewS("any")) })
	}
	switch s.K {
	case "tuple", "object", "method":
		mut(func(c *S) { c.Add = NewS("bool") })
		mut(func(c *S) { c.Add = nil })
		if s.Add != nil {
			for _, km := range mutants(s.Add) {
				km := km
				mut(func(c *S) { c.Add = km })
			}
		}
	}
	if s.K == "method" {
		mut(func(c *S) { c.Ret = NewS("bool") })
		if s.Ret != nil {
			for _, km := range mutants(s.Ret) {
				km := km
				mut(func(c *S) { c.Ret = km })
			}
		}
	}
	if s.Item != nil {
		for _, km := range mutants(s.Item) {
			km := km
			mut(func(c *S) { c.Item = km })
		}
	}
	for i := range s.Props {
		i := i
		for _, km := range mutants(s.Props[i].S) {
			km := km
			mut(func(c *S) {
				c.Props = append([]Prop{}, s.Props...)
				c.Props[i] = Prop{s.Props[i].Name, km}
			})
		}
		mut(func(c *S) {
			c.Props = append([]Prop{}, s.Props...)
			c.Props[i] = Prop{"renamed", s.Props[i].S}
			c.Req = nil
		})
		mut(func(c *S) { c.Req = []string{s.Props[i].Name} })
	}
	if s.K == "object" {
		mut(func(c *S) { c.Req = nil })
		mut(func(c *S) { c.Props = append(append([]Prop{}, s.Props...), Prop{"extra", NewS("any")}) })
	}
	return out
}

func s05() []Family {
	checkPath := func(x *X, s *S, v interface{}, ep *jlibschema.ErrorPos, where string) {
		ok := s.Sat(v)
		if (ep == nil) != ok {
			x.Fail(where+":verdict:"+s.K, "schema %s value %s: rejected=%v, want %v", s.Key(), Canon(v), ep != nil, !ok)
		}
		if ep == nil {
			return
		}
		want := s.Viol(v, "", nil)
		path := ep.Path()
		if !want[path] {
			x.Fail(where+":path:"+s.K, "schema %s value %s: error path %q, the violations are at %s", s.Key(), Canon(v), path, keys(want))
		}
		x.Check(strings.Contains(ep.Error(), path), where+":text", "error text %q does not name the path %q", ep, path)
		if where == "fresh" {
			em := ep.ToMessage(jlib.NewRequestMessage(1, "m", nil))
			x.Check(em.Error.Code == jlib.ErrInvalidSchema.Code && strings.Contains(em.Error.Message, path), where+":message", "error message %v", em.Error)
		}
	}
	var fams []Family
	for _, lv := range levels() {
		lv := lv
		fams = append(fams, Family{Name: lv.name, Thorough: lv.thorough, Run: func(x *X) {
			s := Pick(x, lv.schemas)
			sc := mustBuild(x, s)
			shared := jlibschema.NewSchemaValidator()
			name := lv.name + s.Key()
			for i, v := range lv.vals {
				x.State(name, i)
				x.Op()
				checkPath(x, s, v, validate(x, jlibschema.NewSchemaValidator(), sc, v), "fresh")
				ep := validate(x, shared, sc, v)
				checkPath(x, s, v, ep, "reused")
				if ep != nil {
					x.Outcome("reject")
				} else {
					x.Outcome("accept")
				}
			}
			// an earlier error keeps its path while the validator is used on
			var kept []*jlibschema.ErrorPos
			var paths []string
			for _, v := range lv.vals[:60] {
				if ep := validate(x, shared, sc, v); ep != nil {
					kept = append(kept, ep)
					paths = append(paths, ep.Path()+"|"+ep.Error())
				}
			}
			for i, ep := range kept {
				x.Check(ep.Path()+"|"+ep.Error() == paths[i], "kept-error", "an earlier error changed from %q to %q", paths[i], ep.Path()+"|"+ep.Error())
			}
		}})
	}
	pool := append(Reps(), wellFormed()...)
	probe := []interface{}{nil, N("1"), "a", "abc", L{N("1")}, L{N("1"), "a", nil}, L{N("1"), N("9")}, M{}, M{"a": N("1"), "b": "abc"}, M{"a": "x"}, M{"params": L{N("9")}}, M{"result": "abc"}, M{"params": L{M{}, M{"params": "x"}}}}
	fams = append(fams, Family{Name: "histories", Run: func(x *X) {
		shared := jlibschema.NewSchemaValidator()
		n := 2
		if x.Thorough {
			n = 3
		}
		for i := 0; i < n; i++ {
			s := pool[x.Choose(len(pool))]
			if i < n-1 {
				// earlier steps: only rejected values and one accepted are interesting, still all are tried
			}
			v := Pick(x, probe)
			sc := mustBuild(x, s)
			x.Step("Validate(%s, %s)", s.Key(), Canon(v))
			x.State(i, s.Key(), Canon(v))
			checkPath(x, s, v, validate(x, shared, sc, v), "history")
		}
	}})
	fams = append(fams, names(func(x *X, s *S, sc jlibschema.Schema, vals []interface{}) {
		for _, v := range vals {
			checkPath(x, s, v, validate(x, jlibschema.NewSchemaValidator(), sc, v), "names")
		}
	}))
	fams = append(fams, wide(func(x *X, s *S, sc jlibschema.Schema, v interface{}) {
		shared := jlibschema.NewSchemaValidator()
		checkPath(x, s, v, validate(x, shared, sc, v), "wide")
		checkPath(x, s, v, validate(x, shared, sc, v), "wide-again")
	}))
	return fams
}
