//go:build go1.22

package kit

import (
	"fmt"
	"sort"
	"strconv"
)

// S is the reference model of a schema.
type S struct {
	K            string // any null bool number integer string anyOf allOf not list tuple object method
	Min, Max     string // number text, "" = absent
	ExMin, ExMax int    // 0 absent, 1 false, 2 true
	MinL, MaxL   int    // -1 absent
	Kids         []*S   // choices, tuple items, params
	Item         *S     // list item, not child
	Add          *S     // additional items/properties/params
	Ret          *S
	Props        []Prop
	Req          []string
	Name, Desc   string
}

type Prop struct {
	Name string
	S    *S
}

func NewS(k string) *S { return &S{K: k, MinL: -1, MaxL: -1} }

// Describe renders the description; form 0 is the explicit form, form 1
// uses the shorthands the builder documents (plain type names, implied type).
func (s *S) Describe(form int) interface{} {
	m := M{}
	typ := s.K
	if typ == "tuple" {
		typ = "list"
	}
	m["type"] = typ
	if form == 1 {
		switch s.K {
		case "string", "number", "integer", "bool", "null":
			if s.plain() {
				return typ
			}
		case "anyOf", "allOf", "not", "object", "method":
			delete(m, "type")
		}
	}
	num := func(k, v string) {
		if v != "" {
			m[k] = N(v)
		}
	}
	flag := func(k string, v int) {
		if v > 0 {
			m[k] = v == 2
		}
	}
	lim := func(k string, v int) {
		if v >= 0 {
			m[k] = N(strconv.Itoa(v))
		}
	}
	list := func(ks []*S) L {
		out := L{}
		for _, k := range ks {
			out = append(out, k.Describe(form))
		}
		return out
	}
	switch s.K {
	case "number", "integer":
		num("minimum", s.Min)
		num("maximum", s.Max)
		flag("exclusiveMinimum", s.ExMin)
		flag("exclusiveMaximum", s.ExMax)
	case "string":
		lim("minLength", s.MinL)
		lim("maxLength", s.MaxL)
	case "anyOf", "allOf":
		m[s.K] = list(s.Kids)
	case "not":
		m["not"] = s.Item.Describe(form)
	case "list":
		m["items"] = s.Item.Describe(form)
		lim("minItems", s.MinL)
		lim("maxItems", s.MaxL)
	case "tuple":
		m["items"] = list(s.Kids)
		if s.Add != nil {
			m["additionalItems"] = s.Add.Describe(form)
		}
	case "object":
		ps := M{}
		for _, p := range s.Props {
			ps[p.Name] = p.S.Describe(form)
		}
		m["properties"] = ps
		if len(s.Req) > 0 {
			r := L{}
			for _, q := range s.Req {
				r = append(r, q)
			}
			m["requires"] = r
		}
		if s.Add != nil {
			m["additionalProperties"] = s.Add.Describe(form)
		}
	case "method":
		m["params"] = list(s.Kids)
		if s.Add != nil {
			m["additionalParams"] = s.Add.Describe(form)
		}
		if s.Ret != nil {
			m["returns"] = s.Ret.Describe(form)
		}
	}
	if s.Name != "" {
		m["name"] = s.Name
	}
	if s.Desc != "" {
		m["description"] = s.Desc
	}
	return m
}

func (s *S) plain() bool {
	return s.Min == "" && s.Max == "" && s.ExMin == 0 && s.ExMax == 0 && s.MinL < 0 && s.MaxL < 0 && s.Name == "" && s.Desc == ""
}

// Key identifies the schema's meaning-relevant content (order of properties
// and required names is irrelevant).
func (s *S) Key() string {
	m := s.Describe(0)
	if o, ok := m.(M); ok {
		sortReq(o)
	}
	return Canon(m)
}

func sortReq(v interface{}) {
	switch t := v.(type) {
	case M:
		if r, ok := t["requires"].(L); ok {
			sort.Slice(r, func(i, j int) bool { return fmt.Sprint(r[i]) < fmt.Sprint(r[j]) })
		}
		for _, e := range t {
			sortReq(e)
		}
	case L:
		for _, e := range t {
			sortReq(e)
		}
	}
}

// value kinds

func numText(v interface{}) (string, bool) {
	switch t := v.(type) {
	case N:
		return string(t), true
	case int:
		return strconv.Itoa(t), true
	case float64:
		return strconv.FormatFloat(t, 'g', -1, 64), true
	}
	return "", false
}

func isInt64Literal(s string) bool {
	_, err := strconv.ParseInt(s, 10, 64)
	return err == nil
}

// cmpNum compares as the schema kind defines it: integers exactly, numbers
// in double precision (the precision of the number bounds).
func cmpNum(kind, a, b string) int {
	if kind == "integer" {
		x, err1 := strconv.ParseInt(a, 10, 64)
		y, err2 := strconv.ParseInt(b, 10, 64)
		if err1 != nil || err2 != nil {
			panic("cmpNum " + a + " " + b)
		}
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	}
	x, _ := strconv.ParseFloat(a, 64)
	y, _ := strconv.ParseFloat(b, 64)
	switch {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}

func (s *S) inRange(t string) bool {
	if s.Min != "" {
		c := cmpNum(s.K, t, s.Min)
		if c < 0 || c == 0 && s.ExMin == 2 {
			return false
		}
	}
	if s.Max != "" {
		c := cmpNum(s.K, t, s.Max)
		if c > 0 || c == 0 && s.ExMax == 2 {
			return false
		}
	}
	return true
}

func (s *S) inSize(n int) bool {
	return !(s.MinL >= 0 && n < s.MinL || s.MaxL >= 0 && n > s.MaxL)
}

func all(ks []*S, add *S, l L) bool {
	if len(l) < len(ks) || add == nil && len(l) != len(ks) {
		return false
	}
	for i, e := range l {
		if i < len(ks) {
			if !ks[i].Sat(e) {
				return false
			}
		} else if !add.Sat(e) {
			return false
		}
	}
	return true
}

func (s *S) requires(n string) bool {
	for _, r := range s.Req {
		if r == n {
			return true
		}
	}
	return false
}

// Sat says whether value v satisfies s.
func (s *S) Sat(v interface{}) bool {
	switch s.K {
	case "any":
		return true
	case "null":
		return v == nil
	case "bool":
		_, ok := v.(bool)
		return ok
	case "number", "integer":
		t, ok := numText(v)
		if ok && s.K == "integer" {
			_, isF := v.(float64)
			ok = !isF && isInt64Literal(t)
		}
		return ok && s.inRange(t)
	case "string":
		t, ok := v.(string)
		return ok && s.inSize(len(t))
	case "anyOf":
		for _, k := range s.Kids {
			if k.Sat(v) {
				return true
			}
		}
		return false
	case "allOf":
		for _, k := range s.Kids {
			if !k.Sat(v) {
				return false
			}
		}
		return true
	case "not":
		return !s.Item.Sat(v)
	case "list":
		l, ok := v.(L)
		if !ok || !s.inSize(len(l)) {
			return false
		}
		for _, e := range l {
			if !s.Item.Sat(e) {
				return false
			}
		}
		return true
	case "tuple":
		l, ok := v.(L)
		return ok && all(s.Kids, s.Add, l)
	case "object":
		o, ok := v.(M)
		if !ok {
			return false
		}
		for _, p := range s.Props {
			if e, has := o[p.Name]; has {
				if !p.S.Sat(e) {
					return false
				}
			} else if s.requires(p.Name) {
				return false
			}
		}
		if s.Add != nil {
		next:
			for k, e := range o {
				for _, p := range s.Props {
					if p.Name == k {
						continue next
					}
				}
				if !s.Add.Sat(e) {
					return false
				}
			}
		}
		return true
	case "method":
		o, ok := v.(M)
		if !ok {
			return false
		}
		if l, ok := o["params"].(L); ok {
			return all(s.Kids, s.Add, l)
		}
		if r, has := o["result"]; has {
			return s.Ret == nil || s.Ret.Sat(r)
		}
		return false
	}
	panic("schema kind " + s.K)
}

// Viol returns the set of paths that a truthful error report may name; it
// is empty when v satisfies s.
func (s *S) Viol(v interface{}, path string, out map[string]bool) map[string]bool {
	add := func(p string) {
		if out == nil {
			out = map[string]bool{}
		}
		out[p] = true
	}
	limits := func(n int) {
		if s.MinL >= 0 && n < s.MinL || s.MaxL >= 0 && n > s.MaxL {
			add(path)
		}
	}
	switch s.K {
	case "any":
	case "null":
		if v != nil {
			add(path)
		}
	case "bool":
		if _, ok := v.(bool); !ok {
			add(path)
		}
	case "number", "integer":
		t, ok := numText(v)
		if ok && s.K == "integer" {
			_, isF := v.(float64)
			ok = isInt64Literal(t) && !isF
		}
		if !ok {
			add(path)
			break
		}
		if !s.inRange(t) {
			add(path)
		}
	case "string":
		t, ok := v.(string)
		if !ok {
			add(path)
			break
		}
		limits(len(t))
	case "anyOf":
		ok := false
		for _, k := range s.Kids {
			ok = ok || k.Sat(v)
		}
		if !ok {
			add(path)
		}
	case "allOf":
		for _, k := range s.Kids {
			out = k.Viol(v, path, out)
		}
	case "not":
		if s.Item.Sat(v) {
			add(path)
		}
	case "list":
		l, ok := v.(L)
		if !ok {
			add(path)
			break
		}
		limits(len(l))
		for i, e := range l {
			out = s.Item.Viol(e, path+"["+strconv.Itoa(i)+"]", out)
		}
	case "tuple":
		l, ok := v.(L)
		if !ok {
			add(path)
			break
		}
		if len(l) < len(s.Kids) || s.Add == nil && len(l) != len(s.Kids) {
			add(path)
		}
		for i, e := range l {
			p := path + "[" + strconv.Itoa(i) + "]"
			if i < len(s.Kids) {
				out = s.Kids[i].Viol(e, p, out)
			} else if s.Add != nil {
				out = s.Add.Viol(e, p, out)
			}
		}
	case "object":
		o, ok := v.(M)
		if !ok {
			add(path)
			break
		}
		known := map[string]bool{}
		for _, p := range s.Props {
			known[p.Name] = true
			if e, has := o[p.Name]; has {
				out = p.S.Viol(e, path+"."+p.Name, out)
			} else {
				for _, r := range s.Req {
					if r == p.Name {
						add(path + "." + p.Name)
					}
				}
			}
		}
		if s.Add != nil {
			for k, e := range o {
				if !known[k] {
					out = s.Add.Viol(e, path+"."+k, out)
				}
			}
		}
	case "method":
		o, ok := v.(M)
		if !ok {
			add(path)
			break
		}
		if l, ok := o["params"].(L); ok {
			p := path + ".params"
			if len(l) < len(s.Kids) || s.Add == nil && len(l) != len(s.Kids) {
				add(p)
			}
			for i, e := range l {
				q := p + "[" + strconv.Itoa(i) + "]"
				if i < len(s.Kids) {
					out = s.Kids[i].Viol(e, q, out)
				} else if s.Add != nil {
					out = s.Add.Viol(e, q, out)
				}
			}
			break
		}
		if r, has := o["result"]; has {
			if s.Ret != nil {
				out = s.Ret.Viol(r, path+".result", out)
			}
			break
		}
		add(path)
	default:
		panic("schema kind " + s.K)
	}
	return out
}

// Native replaces decoded numbers by Go int / float64.
func Native(v interface{}) interface{} {
	switch t := v.(type) {
	case N:
		if i, err := strconv.Atoi(string(t)); err == nil {
			return i
		}
		f, err := t.Float64()
		if err != nil {
			return t
		}
		return f
	case L:
		out := make(L, len(t))
		for i, e := range t {
			out[i] = Native(e)
		}
		return out
	case M:
		out := M{}
		for k, e := range t {
			out[k] = Native(e)
		}
		return out
	}
	return v
}

// ---------------------------------------------------------------- alphabets

func mkNum(k, min, max string, exmin, exmax int) *S {
	s := NewS(k)
	s.Min, s.Max, s.ExMin, s.ExMax = min, max, exmin, exmax
	return s
}

func mkStr(min, max int) *S {
	s := NewS("string")
	s.MinL, s.MaxL = min, max
	return s
}

// Leaves is the full leaf alphabet.
func Leaves() []*S {
	out := []*S{NewS("any"), NewS("null"), NewS("bool")}
	for _, k := range []string{"number", "integer"} {
		out = append(out,
			mkNum(k, "", "", 0, 0), mkNum(k, "0", "", 0, 0), mkNum(k, "0", "", 2, 0), mkNum(k, "0", "", 1, 0),
			mkNum(k, "", "2", 0, 0), mkNum(k, "", "2", 0, 2), mkNum(k, "", "2", 0, 1), mkNum(k, "1", "1", 0, 0),
			mkNum(k, "1", "1", 2, 0), mkNum(k, "0", "2", 2, 2), mkNum(k, "-1", "1", 0, 2), mkNum(k, "", "", 2, 2),
			mkNum(k, "2", "0", 0, 0), mkNum(k, "-9007199254740992", "9007199254740992", 0, 0), mkNum(k, "", "0", 0, 0), mkNum(k, "0", "0", 0, 2))
	}
	out = append(out, mkNum("number", "0.5", "1.5", 0, 0), mkNum("number", "-0.25", "1.5", 2, 2), mkNum("number", "", "1e300", 0, 0),
		mkNum("integer", "9223372036854775807", "", 0, 0), mkNum("integer", "", "-9223372036854775808", 0, 0))
	out = append(out, mkStr(-1, -1), mkStr(1, -1), mkStr(-1, 2), mkStr(2, 2), mkStr(-1, 0), mkStr(0, 3), mkStr(3, 1))
	return out
}

// FewLeaves is the leaf alphabet for children.
func FewLeaves() []*S {
	return []*S{NewS("any"), NewS("null"), NewS("bool"), mkNum("integer", "0", "2", 0, 2), mkNum("number", "", "1.5", 0, 0), mkStr(-1, 1), mkStr(1, -1), mkNum("integer", "", "", 0, 0)}
}

// Composites returns all one-level composites over the children.
func Composites(kids []*S) []*S {
	var out []*S
	adds := []*S{nil}
	if len(kids) > 0 {
		adds = append(adds, kids[len(kids)-1], kids[len(kids)/2])
		if len(kids) > 2 {
			adds = append(adds, kids[0]) // anything at all
		}
	}
	var pairs [][]*S
	pairs = append(pairs, nil)
	for _, a := range kids {
		pairs = append(pairs, []*S{a})
	}
	for _, a := range kids {
		for _, b := range kids {
			pairs = append(pairs, []*S{a, b})
		}
	}
	for _, a := range kids {
		for _, l := range [][2]int{{-1, -1}, {1, -1}, {-1, 1}, {2, 2}, {0, 0}} {
			s := NewS("list")
			s.Item, s.MinL, s.MaxL = a, l[0], l[1]
			out = append(out, s)
		}
		s := NewS("not")
		s.Item = a
		out = append(out, s)
	}
	for _, p := range pairs {
		for _, k := range []string{"anyOf", "allOf"} {
			s := NewS(k)
			s.Kids = p
			out = append(out, s)
		}
		for _, a := range adds {
			s := NewS("tuple")
			s.Kids, s.Add = p, a
			out = append(out, s)
			for _, r := range []*S{nil, kids[0]} {
				m := NewS("method")
				m.Kids, m.Add, m.Ret = p, a, r
				out = append(out, m)
			}
			names := []string{"a", "b"}
			for req := 0; req < 1<<len(p); req++ {
				o := NewS("object")
				o.Add = a
				for i, k := range p {
					o.Props = append(o.Props, Prop{names[i], k})
					if req>>i&1 == 1 {
						o.Req = append(o.Req, names[i])
					}
				}
				out = append(out, o)
			}
		}
	}
	for _, r := range kids {
		m := NewS("method")
		m.Ret = r
		out = append(out, m)
	}
	return out
}

// Reps picks a few representative composites over the children.
func Reps() []*S {
	f := FewLeaves()
	in, st := f[3], f[5]
	l := NewS("list")
	l.Item, l.MaxL = in, 1
	t := NewS("tuple")
	t.Kids, t.Add = []*S{in, st}, NewS("null")
	o := NewS("object")
	o.Props, o.Req = []Prop{{"a", in}, {"b", st}}, []string{"a"}
	o2 := NewS("object")
	o2.Props, o2.Add = []Prop{{"a", st}}, in
	an := NewS("anyOf")
	an.Kids = []*S{in, st}
	al := NewS("allOf")
	al.Kids = []*S{mkNum("number", "0", "", 2, 0), in}
	no := NewS("not")
	no.Item = st
	me := NewS("method")
	me.Kids, me.Ret = []*S{in}, st
	return []*S{l, t, o, o2, an, al, no, me, in}
}

// SchemaValues is the value alphabet for schema checks.
func SchemaValues(deep bool) []interface{} {
	atoms := []interface{}{nil, true, false, N("-1"), N("0"), N("1"), N("2"), N("3"), N("0.5"), N("1.5"), N("1.0"), N("-0.25"), N("1e3"), N("1e400"), N("-1e400"),
		N("9007199254740992"), N("9223372036854775807"), N("-9223372036854775808"), N("9223372036854775808"), N("12345678901234567890123"),
		"", "a", "ab", "abc", "é", "1", "abcd"}
	small := []interface{}{nil, N("0"), N("1"), N("2"), "", "a", "ab", N("1.5"), true}
	out := append([]interface{}{}, atoms...)
	out = append(out, L{}, M{})
	for _, a := range small {
		out = append(out, L{a}, M{"a": a}, M{"b": a}, M{"c": a}, M{"params": L{a}}, M{"result": a}, M{"a": N("1"), "c": a})
		for _, b := range []interface{}{N("1"), "a", nil} {
			out = append(out, L{a, b}, L{b, a}, M{"a": a, "b": b}, M{"params": L{a, b}}, M{"params": L{b, a}})
			out = append(out, L{b, b, a}, M{"a": b, "b": b, "c": a}, M{"params": L{b, b, a}}, M{"params": L{b, b, b, a}})
		}
	}
	out = append(out, M{"params": L{}}, M{"params": M{"a": N("1")}}, M{"params": "x"}, M{"params": nil, "result": N("1")}, M{"params": L{N("1")}, "result": "bad"}, M{"method": "m"}, M{"error": M{}}, M{"params": M{}, "result": "a"})
	if deep {
		base := []interface{}{L{}, L{N("1")}, L{N("1"), N("1")}, L{N("1"), "a"}, L{N("1"), "a", nil}, L{N("5")}, M{}, M{"a": N("1")}, M{"a": N("9")}, M{"a": "a"}, M{"a": N("1"), "b": "a"}, M{"a": N("1"), "b": "abc"}, M{"b": "a"}, M{"a": "a", "z": N("1")}, M{"a": "a", "z": "a"},
			M{"params": L{N("1")}}, M{"params": L{"x"}}, M{"result": "a"}, M{"result": "abc"}, N("1"), N("5"), "a", "abc", nil}
		for _, a := range base {
			out = append(out, L{a}, M{"a": a}, M{"b": a}, M{"z": a}, M{"params": L{a}}, M{"result": a})
			for _, b := range []interface{}{N("1"), L{N("1")}, M{"a": N("1"), "b": "a"}, "abc", N("5")} {
				out = append(out, L{a, b}, L{b, a}, M{"a": a, "b": b}, M{"a": b, "b": a}, M{"a": b, "z": a}, M{"params": L{a, b}}, M{"params": L{b, a}}, M{"params": L{b, b, a}}, L{b, b, a})
			}
		}
	}
	return out
}

// Val is a value with its precomputed forms.
type Val struct {
	V      interface{}
	Canon  string
	JSON   []byte
	Native interface{}
}

func Vals(vs []interface{}) []*Val {
	var out []*Val
	for _, v := range vs {
		out = append(out, &Val{v, Canon(v), []byte(JSON(v)), Native(v)})
	}
	return out
}
