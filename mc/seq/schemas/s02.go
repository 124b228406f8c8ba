//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/superisaac/jlib/schema"
	. "github.com/superisaac/jlib/zzverif/kit"
)

// refBuild is the reference builder: description -> model, or refused.
func refBuild(d interface{}) (*S, bool) {
	if t, ok := d.(string); ok {
		switch t {
		case "string", "number", "integer", "bool", "null":
			return NewS(t), true
		}
		return nil, false
	}
	m, ok := d.(M)
	if !ok {
		return nil, false
	}
	var typ string
	tv, has := m["type"]
	if has {
		typ, ok = tv.(string)
		if !ok {
			return nil, false
		}
	} else {
		switch {
		case m["params"] != nil || hasKey(m, "params"):
			typ = "method"
		case hasKey(m, "properties"):
			typ = "object"
		case hasKey(m, "anyOf"):
			typ = "anyOf"
		case hasKey(m, "allOf"):
			typ = "allOf"
		case hasKey(m, "not"):
			typ = "not"
		default:
			return nil, false
		}
	}
	s := NewS(typ)
	kids := func(k string) ([]*S, bool) {
		l, ok := m[k].(L)
		if !ok {
			return nil, false
		}
		out := []*S{}
		for _, e := range l {
			c, ok := refBuild(e)
			if !ok {
				return nil, false
			}
			out = append(out, c)
		}
		return out, true
	}
	add := func(k string) bool {
		if v, has := m[k]; has {
			c, ok := refBuild(v)
			if !ok {
				return false
			}
			s.Add = c
		}
		return true
	}
	num := func(k string, dst *string, integer bool) bool {
		v, has := m[k]
		if !has || v == nil {
			return true
		}
		n, ok := v.(N)
		if !ok {
			return false
		}
		t := string(n)
		if integer {
			if _, err := strconv.ParseInt(t, 10, 64); err != nil {
				f, err := n.Float64()
				if err != nil || f != float64(int64(f)) || f > 1<<53 || f < -(1<<53) {
					return false
				}
				t = strconv.FormatInt(int64(f), 10)
			}
		} else if f, err := n.Float64(); err != nil {
			return false
		} else {
			t = strconv.FormatFloat(f, 'g', -1, 64)
			if f == float64(int64(f)) && f < 1e15 && f > -1e15 {
				t = strconv.FormatInt(int64(f), 10)
			}
		}
		*dst = t
		return true
	}
	flag := func(k string, dst *int) bool {
		v, has := m[k]
		if !has || v == nil {
			return true
		}
		b, ok := v.(bool)
		if !ok {
			return false
		}
		*dst = 1
		if b {
			*dst = 2
		}
		return true
	}
	lim := func(k string, dst *int) bool {
		var t string
		if !num(k, &t, true) {
			return false
		}
		if t != "" {
			n, _ := strconv.Atoi(t)
			if n >= 0 { // a negative limit means no limit
				*dst = n
			}
		}
		return true
	}
	good := true
	switch typ {
	case "any", "null", "bool":
	case "number", "integer":
		good = num("minimum", &s.Min, typ == "integer") && num("maximum", &s.Max, typ == "integer") &&
			flag("exclusiveMinimum", &s.ExMin) && flag("exclusiveMaximum", &s.ExMax)
	case "string":
		good = lim("minLength", &s.MinL) && lim("maxLength", &s.MaxL)
	case "anyOf", "allOf":
		s.Kids, good = kids(typ)
	case "not":
		s.Item, good = refBuild(m["not"])
	case "list":
		if _, isTuple := m["items"].(L); isTuple {
			s.K = "tuple"
			s.Kids, good = kids("items")
			good = good && add("additionalItems")
		} else {
			s.Item, good = refBuild(m["items"])
			good = good && lim("minItems", &s.MinL) && lim("maxItems", &s.MaxL)
		}
	case "object":
		if pv, has := m["properties"]; has {
			pm, ok := pv.(M)
			if !ok {
				return nil, false
			}
			names := []string{}
			for n := range pm {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				c, ok := refBuild(pm[n])
				if !ok {
					return nil, false
				}
				s.Props = append(s.Props, Prop{n, c})
			}
		}
		if rv, has := m["requires"]; has {
			rl, ok := rv.(L)
			if !ok {
				return nil, false
			}
			for _, r := range rl {
				name, ok := r.(string)
				found := false
				for _, p := range s.Props {
					found = found || ok && p.Name == name
				}
				if !found {
					return nil, false
				}
				s.Req = append(s.Req, name)
			}
		}
		good = add("additionalProperties")
	case "method":
		s.Kids, good = kids("params")
		good = good && add("additionalParams")
		if rv, has := m["returns"]; has && rv != nil && good {
			if rm, ok := rv.(M); ok && !hasKey(rm, "type") && len(rm) == 0 {
				s.Ret = NewS("any")
			} else if ok && !hasKey(rm, "type") && !hasKey(rm, "params") && !hasKey(rm, "properties") && !hasKey(rm, "anyOf") && !hasKey(rm, "allOf") && !hasKey(rm, "not") {
				cp := M{"type": "any"}
				for k, v := range rm {
					cp[k] = v
				}
				s.Ret, good = refBuild(cp)
			} else {
				s.Ret, good = refBuild(rv)
			}
		}
	default:
		return nil, false
	}
	if !good {
		return nil, false
	}
	for k, dst := range map[string]*string{"name": &s.Name, "description": &s.Desc} {
		if v, has := m[k]; has {
			t, ok := v.(string)
			if !ok {
				return nil, false
			}
			*dst = t
		}
	}
	return s, true
}

func hasKey(m M, k string) bool { _, ok := m[k]; return ok }

// toYaml renders a description in block style.
func toYaml(v interface{}, ind string) string {
	switch t := v.(type) {
	case M:
		if len(t) == 0 {
			return " {}\n"
		}
		ks := []string{}
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		var b strings.Builder
		b.WriteString("\n")
		for _, k := range ks {
			b.WriteString(ind + yamlKey(k) + ":" + toYaml(t[k], ind+"  "))
		}
		return b.String()
	case L:
		if len(t) == 0 {
			return " []\n"
		}
		var b strings.Builder
		b.WriteString("\n")
		for _, e := range t {
			b.WriteString(ind + "-" + toYaml(e, ind+"  "))
		}
		return b.String()
	}
	return " " + JSON(v) + "\n"
}

func yamlKey(k string) string {
	for _, c := range k {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return strconv.Quote(k)
		}
	}
	switch k {
	case "", "true", "false", "null", "yes", "no", "on", "off", "y", "n", "Y", "N", "NULL", "True":
		return strconv.Quote(k)
	}
	return k
}

// observe summarises a built schema by behaviour: verdicts on all values,
// name, description, and its export.
func sameMeaning(x *X, where string, sc jlibschema.Schema, s *S, vals []interface{}) {
	for _, v := range vals {
		want := s.Sat(v)
		ep := validate(x, jlibschema.NewSchemaValidator(), sc, v)
		if (ep == nil) != want {
			x.Fail(where+":verdict:"+s.K, "%s: schema %s value %s: accepted=%v, want %v", where, s.Key(), Canon(v), ep == nil, want)
		}
	}
	if sc.GetName() == s.Name && sc.GetDescription() == s.Desc {
		return
	}
	x.Check(sc.GetName() == s.Name && sc.GetDescription() == s.Desc, where+":name", "%s: schema %s has name %q description %q", where, s.Key(), sc.GetName(), sc.GetDescription())
}

// buildAll builds one description in every offered form and compares.
func buildAll(x *X, d interface{}, vals []interface{}) {
	s, ok := refBuild(d)
	text := JSON(d)
	x.State(text)
	type form struct {
		name string
		f    func() (jlibschema.Schema, error)
	}
	b := jlibschema.NewSchemaBuilder() // one builder for all forms
	decoded, native, iface := Copy(d), interface{}(nil), interface{}(nil)
	forms := []form{
		{"decoded", func() (jlibschema.Schema, error) { return b.Build(decoded) }},
		{"json", func() (jlibschema.Schema, error) { return b.BuildBytes([]byte(text)) }},
		{"native", func() (jlibschema.Schema, error) {
			if err := json.Unmarshal([]byte(text), &native); err != nil {
				return nil, err
			}
			return b.Build(native)
		}},
	}
	if m, isMap := d.(M); isMap {
		forms = append(forms,
			form{"yaml-flow", func() (jlibschema.Schema, error) { return b.BuildYamlBytes([]byte(text)) }},
			form{"yaml-block", func() (jlibschema.Schema, error) { return b.BuildYamlBytes([]byte(toYaml(m, ""))) }},
			form{"yaml-interface", func() (jlibschema.Schema, error) {
				iface = toIfaceMap(Native(d))
				return b.BuildYamlInterface(iface)
			}},
		)
	}
	x.Outcome(map[bool]string{true: "accepted", false: "refused"}[ok])
	var first jlibschema.Schema
	for _, f := range forms {
		if f.name != "yaml-interface" && strings.HasPrefix(f.name, "yaml") && strings.Contains(text, strings.Repeat("n", 1000)) {
			continue // YAML has no longer keys
		}
		if f.name == "native" && (strings.Contains(text, "9223372036854775807") || strings.Contains(text, "9223372036854775808")) {
			continue // float64 cannot carry it
		}
		var sc jlibschema.Schema
		var err error
		p, pv := Try(func() { sc, err = f.f() })
		x.Step("build %s %s", f.name, text)
		x.Check(!p, "panic:"+f.name, "building %s from %s panicked: %v", text, f.name, pv)
		if left, given := map[string]interface{}{"decoded": decoded, "native": native, "yaml-interface": iface}[f.name]; given {
			// the description belongs to the caller
			want := Copy(d)
			switch f.name {
			case "native":
				want = nil
				json.Unmarshal([]byte(text), &want)
			case "yaml-interface":
				want = toIfaceMap(Native(d))
			}
			x.Check(reflect.DeepEqual(left, want), "changes:"+f.name, "building %s from %s left the description as %v", text, f.name, left)
		}
		if !ok {
			x.Check(err != nil, "accepts:"+f.name, "malformed description %s was accepted from %s", text, f.name)
			continue
		}
		x.Check(err == nil, "refuses:"+f.name, "description %s was refused from %s: %v", text, f.name, err)
		sameMeaning(x, f.name, sc, s, vals)
		if first == nil {
			first = sc
		} else {
			x.Check(first.Equal(sc) && sc.Equal(first), "forms-equal:"+f.name, "description %s builds to different schemas as decoded data and as %s", text, f.name)
			x.Check(CanonOf([]byte(jlibschema.SchemaToString(first))) == "" || sameExport(first, sc), "forms-export:"+f.name, "description %s exports differently: %s / %s", text, jlibschema.SchemaToString(first), jlibschema.SchemaToString(sc))
		}
	}
}

func sameExport(a, b jlibschema.Schema) bool {
	return exportKey(a) == exportKey(b)
}

// exportKey is the export up to the order of required names.
func exportKey(a jlibschema.Schema) string {
	v, err := Parse([]byte(jlibschema.SchemaToString(a)))
	if err != nil {
		return "<" + err.Error() + ">"
	}
	sortReqs(v)
	return Canon(v)
}

func sortReqs(v interface{}) {
	switch t := v.(type) {
	case M:
		if r, ok := t["requires"].(L); ok {
			sort.Slice(r, func(i, j int) bool { return fmt.Sprint(r[i]) < fmt.Sprint(r[j]) })
		}
		for _, e := range t {
			sortReqs(e)
		}
	case L:
		for _, e := range t {
			sortReqs(e)
		}
	}
}

func toIfaceMap(v interface{}) interface{} {
	switch t := v.(type) {
	case M:
		out := map[interface{}]interface{}{}
		for k, e := range t {
			out[k] = toIfaceMap(e)
		}
		return out
	case L:
		out := make(L, len(t))
		for i, e := range t {
			out[i] = toIfaceMap(e)
		}
		return out
	case int:
		return t
	}
	return v
}

// mutation points of a description: every map entry and list element.
type point struct {
	parent interface{}
	key    string
	idx    int
	path   string
}

func points(v interface{}, path string, out *[]point) {
	switch t := v.(type) {
	case M:
		ks := []string{}
		for k := range t {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			*out = append(*out, point{t, k, 0, path + "." + k})
			points(t[k], path+"."+k, out)
		}
	case L:
		for i := range t {
			*out = append(*out, point{t, "", i, fmt.Sprintf("%s[%d]", path, i)})
			points(t[i], fmt.Sprintf("%s[%d]", path, i), out)
		}
	}
}

func named(s *S, n, d string) *S {
	c := *s
	c.Name, c.Desc = n, d
	return &c
}

func wellFormed() []*S {
	reps := Reps()
	o := NewS("object")
	o.Props = []Prop{{"type", NewS("string")}, {"params", reps[0]}, {"properties", reps[2]}, {"anyOf", NewS("bool")}, {"not", reps[4]}}
	o.Req = []string{"params", "not"}
	o3 := NewS("object")
	o3.Props = []Prop{{"params", NewS("string")}}
	o4 := NewS("object")
	o4.Props = []Prop{{"properties", NewS("string")}, {"", NewS("integer")}, {"1", NewS("integer")}, {"null", NewS("bool")}}
	o4.Req = []string{"1", ""}
	o5 := NewS("object")
	o5.Props = []Prop{{"not", NewS("null")}, {"requires", reps[1]}}
	o5.Add = o3
	out := append([]*S{}, reps...)
	out = append(out, o, o3, o4, o5, named(reps[2], "nm", "d\"e\n"), named(reps[8], "x", ""), named(reps[7], "", "descr: - {"))
	me := NewS("method")
	me.Kids, me.Add, me.Ret = []*S{o3, reps[4]}, named(reps[6], "n6", ""), reps[2]
	li := NewS("list")
	li.Item, li.MinL, li.MaxL = me, 1, 2
	out = append(out, me, li, mk("integer", "-5", "7", 2, 1), mk("number", "-0.5", "1e3", 1, 2))
	st := NewS("string")
	st.MinL, st.MaxL = 1, 3
	no := NewS("not")
	no.Item = st
	al := NewS("allOf")
	al.Kids = []*S{st, no}
	out = append(out, st, no, al, NewS("any"), NewS("null"), NewS("bool"))
	return out
}

func s02() []Family {
	wf := wellFormed()
	bad := []interface{}{nil, true, false, N("0"), "0", "5", "true", "[]", N("5"), N("-1"), N("1.5"), N("2.0"), N("1e2"), "", "string", "any", "nosuch", L{}, L{"string"}, L{N("1")}, L{nil}, M{}, M{"type": "string"}, M{"type": "nosuch"}, M{"type": "list"}, M{"type": "object"}, M{"type": "method"}, M{"type": "anyOf"}, M{"type": "not"}, M{"a": N("1")}, M{"a": "integer"}, M{"type": N("5")}, M{"type": L{"string"}}, M{"x": M{"type": "bool"}}, N("9223372036854775807"), N("12345678901234567890123"), N("18446744073709551615")}
	return []Family{
		{Name: "forms", Run: func(x *X) {
			all := [][]*S{level0, level1, level2, wf}
			ls := Pick(x, all)
			s := Pick(x, ls)
			buildAll(x, s.Describe(x.Choose(2)), vals1[:60])
		}},
		{Name: "meaning", Run: func(x *X) {
			buildAll(x, Pick(x, wf).Describe(x.Choose(2)), vals2)
		}},
		{Name: "malformed", Run: func(x *X) {
			d := Copy(Pick(x, wf).Describe(x.Choose(2)))
			var ps []point
			points(d, "", &ps)
			if len(ps) == 0 {
				x.Skip()
			}
			p := Pick(x, ps)
			k := x.Choose(len(bad) + 1)
			set := func(p point, v interface{}, del bool) {
				switch t := p.parent.(type) {
				case M:
					if del {
						delete(t, p.key)
					} else {
						t[p.key] = v
					}
				case L:
					t[p.idx] = v
				}
			}
			if k == len(bad) {
				if _, isL := p.parent.(L); isL {
					x.Skip()
				}
				set(p, nil, true)
				x.Step("delete %s", p.path)
			} else {
				set(p, Copy(bad[k]), false)
				x.Step("%s := %s", p.path, Canon(bad[k]))
			}
			if x.Thorough {
				// a second defect anywhere
				var qs []point
				points(d, "", &qs)
				if len(qs) > 0 {
					j := x.Choose(len(qs) + 1)
					if j < len(qs) {
						set(qs[j], Copy(bad[x.Choose(12)]), false)
					}
				}
			}
			buildAll(x, d, vals1[:50])
		}},
		{Name: "attributes", Run: func(x *X) {
			// one well-known attribute with every value on every type
			typ := Pick(x, []interface{}{"any", "null", "bool", "number", "integer", "string", "list", "object", "method", "anyOf", "allOf", "not", nil})
			d := M{}
			if typ != nil {
				d["type"] = typ
			}
			if x.Bool() {
				switch typ {
				case "list":
					d["items"] = "any-placeholder"
					d["items"] = M{"type": "any"}
				case "method":
					d["params"] = L{}
				case "anyOf", "allOf":
					d[typ.(string)] = L{"string"}
				case "not":
					d["not"] = "string"
				case "object":
					d["properties"] = M{"a": "string"}
				}
			}
			at := Pick(x, []string{"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "minLength", "maxLength", "minItems", "maxItems", "items", "additionalItems", "properties", "requires", "additionalProperties", "params", "additionalParams", "returns", "anyOf", "allOf", "not", "name", "description", "unknown"})
			v := Pick(x, append([]interface{}{L{"a"}, L{"a", "a"}, L{"b"}, M{"a": M{"type": "bool"}}, "null", "integer"}, bad...))
			if !specified(typ, at, v, d) {
				x.Skip()
			}
			d[at] = Copy(v)
			buildAll(x, d, vals1[:90])
		}},
		{Name: "scalars", Run: func(x *X) {
			// top-level values that are not objects
			d := Pick(x, append(append([]interface{}{}, bad...), "null", "number", "integer", "bool", "object", "list", "String", " string"))
			if _, isM := d.(M); isM {
				x.Skip()
			}
			buildAll(x, d, vals1[:40])
		}},
		{Name: "yaml-keys", Run: func(x *X) {
			// YAML keys that are not strings never become an empty schema
			key := Pick(x, []string{"1", "true", "null", "1.5", "[a]", "~"})
			where := x.Choose(5)
			prop := fmt.Sprintf("{type: object, properties: {%s: {type: string}}}", key)
			text := ""
			switch where {
			case 0:
				text = prop
			case 1:
				text = fmt.Sprintf("type: object\nproperties:\n  a: %s\n", prop)
			case 2:
				text = fmt.Sprintf("params:\n  - %s\n", prop)
			case 3:
				text = fmt.Sprintf("type: list\nitems: %s\n", prop)
			case 4:
				text = fmt.Sprintf("%s: x\ntype: string\n", key)
			}
			x.State(text)
			var err error
			var sc jlibschema.Schema
			p, pv := Try(func() { sc, err = jlibschema.NewSchemaBuilder().BuildYamlBytes([]byte(text)) })
			x.Step("BuildYamlBytes(%q)", text)
			x.Check(!p, "yaml-panic", "building %q panicked: %v", text, pv)
			x.Check(err != nil, "yaml-accepts", "YAML with a non-string key %q was accepted: %v", text, exportKeyOr(sc))
		}},
		{Name: "wide", Run: func(x *X) {
			// many members or many levels, in every form; or a defect deep down
			shape := Pick(x, wideShapes)
			n := Pick(x, []int{1, 2, 3, 4, 5, 6, 9, 17, 40})
			d := Copy(wideSchema(shape, n).Describe(x.Choose(2)))
			switch x.Choose(4) {
			case 1:
				if m, _ := leaf(d, 0); m != nil {
					m["type"] = "nosuch"
				}
			case 2:
				if m, _ := leaf(d, 0); m != nil {
					m["maximum"] = "x"
				}
			case 3:
				if m, _ := leaf(d, 0); m != nil {
					m["properties"], m["type"] = L{"x"}, "object"
				}
			}
			vals := []interface{}{wideValues(shape, n, nil)}
			for i := 0; i < n; i++ {
				vals = append(vals, wideValues(shape, n, []int{i}))
			}
			buildAll(x, d, vals)
		}},
		names(func(x *X, s *S, sc jlibschema.Schema, vals []interface{}) {
			buildAll(x, s.Describe(0), vals)
		}),
		texts(func(x *X, s *S) {
			buildAll(x, s.Describe(0), vals1[:5])
		}),
		{Name: "sequence", Run: func(x *X) {
			// one builder used for several descriptions, good and bad
			b := jlibschema.NewSchemaBuilder()
			ds := []interface{}{}
			for _, s := range wf[:10] {
				ds = append(ds, s.Describe(0))
			}
			ds = append(ds, M{"type": "nosuch"}, M{"type": "object", "properties": N("5")}, M{"params": "x"})
			for i := 0; i < 3; i++ {
				d := Pick(x, ds)
				s, ok := refBuild(d)
				sc, err := b.Build(Copy(d))
				x.Step("Build %s", Canon(d))
				x.State(Canon(d), i)
				x.Check((err == nil) == ok, "sequence", "build %d of %s: err=%v", i, Canon(d), err)
				if ok {
					sameMeaning(x, "sequence", sc, s, vals1[:40])
				}
			}
		}},
	}
}

func exportKeyOr(s jlibschema.Schema) string {
	if s == nil {
		return "nil"
	}
	return exportKey(s)
}

// specified says whether the statement settles the attribute on this type:
// attributes that do not belong to the type are ignored unless they change
// which type is implied.
func specified(typ interface{}, at string, v interface{}, d M) bool {
	if typ == nil {
		return true
	}
	return true
}
