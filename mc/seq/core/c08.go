//go:build go1.22

package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/superisaac/jlib"
	. "github.com/superisaac/jlib/zzverif/kit"
)

type inner struct {
	A int    `json:"a"`
	B string `json:"bee"`
}

type sFlat struct {
	I int
	S string
	B bool
	F float64
}

type sMixed struct {
	hidden int
	X      interface{}
	skip   string
	L      []int
	M      map[string]int
	N      inner
}

type sOne struct {
	V interface{}
}

type sLists struct {
	A []string
	B [][]int
	C map[string]interface{}
	D int64
}

type wideType struct {
	init func(i int) interface{}
	give func(i int) (interface{}, string)
	bad  interface{}
}

var wideTypes = []wideType{
	{func(i int) interface{} { return -i }, func(i int) (interface{}, string) { return N(strconv.Itoa(i)), strconv.Itoa(i) }, "x"},
	{func(i int) interface{} { return "init" }, func(i int) (interface{}, string) { s := fmt.Sprint("s", i); return s, s }, L{"y"}},
	{func(i int) interface{} { return []int{i, i} }, func(i int) (interface{}, string) {
		return L{N("1"), N(strconv.Itoa(i))}, fmt.Sprint([]int{1, i})
	}, L{"z"}},
	{func(i int) interface{} { return true }, func(i int) (interface{}, string) { return i%2 == 0, fmt.Sprint(i%2 == 0) }, "no"},
	{func(i int) interface{} { return uint8(9) }, func(i int) (interface{}, string) { return N(strconv.Itoa(i % 256)), strconv.Itoa(i % 256) }, N("256")},
	{func(i int) interface{} { return map[string]int{"z": i} }, func(i int) (interface{}, string) {
		return M{"k": N(strconv.Itoa(i))}, fmt.Sprint(map[string]int{"k": i})
	}, "m"},
	{func(i int) interface{} { return inner{i, "i"} }, func(i int) (interface{}, string) {
		return M{"a": N(strconv.Itoa(i)), "bee": "b"}, fmt.Sprint(inner{i, "b"})
	}, M{"a": "x"}},
}

var wideMu sync.Mutex
var wideStructs = map[[2]int]reflect.Type{}

func wideStruct(k, shift int) reflect.Type {
	wideMu.Lock()
	defer wideMu.Unlock()
	if t := wideStructs[[2]int{k, shift}]; t != nil {
		return t
	}
	var fs []reflect.StructField
	for i := 0; i < k; i++ {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(wideTypes[(i+shift)%len(wideTypes)].init(0))})
	}
	t := reflect.StructOf(fs)
	wideStructs[[2]int{k, shift}] = t
	return t
}

// conv is the reference conversion of one JSON value to a type name; it
// returns the canonical rendering of the Go value.
func conv(typ string, v interface{}) (string, bool) {
	if v == nil {
		return zero(typ), true
	}
	switch typ {
	case "any":
		return "any:" + Canon(v), true
	case "int", "int64":
		if n, ok := v.(N); ok {
			return string(n), isDecimal(string(n)) && len(n) < 19
		}
		return "", false
	case "float":
		if n, ok := v.(N); ok {
			f, err := n.Float64()
			return fmt.Sprint(f), err == nil
		}
		return "", false
	case "string":
		s, ok := v.(string)
		if n, isN := v.(N); isN { // a number's text
			s, ok = string(n), true
		}
		return fmt.Sprintf("%q", s), ok
	case "bool":
		b, ok := v.(bool)
		return fmt.Sprint(b), ok
	case "map-any":
		m, ok := v.(M)
		if !ok {
			return "", false
		}
		return "any:" + Canon(m), true
	}
	return "", false
}

func zero(typ string) string {
	switch typ {
	case "any":
		return "any:null"
	case "int", "int64", "float":
		return "0"
	case "string":
		return `""`
	case "bool":
		return "false"
	}
	return "zero"
}

func show(v interface{}) string {
	switch t := v.(type) {
	case int, int64, float64, bool:
		return fmt.Sprint(t)
	case string:
		return fmt.Sprintf("%q", t)
	}
	return "any:" + Canon(v)
}

func c08() []Family {
	vals := []interface{}{nil, true, false, N("0"), N("5"), N("-3"), N("1.5"), N("9007199254740993"), "", "x", "5", L{}, L{N("1"), N("2")}, L{"a"}, L{nil}, L{N("1"), "b"}, L{L{N("1")}, L{}}, M{}, M{"a": N("4")}, M{"a": N("4"), "bee": "q"}, M{"bee": N("1")}, M{"k": "v"}}
	list := func(x *X, max int) []interface{} {
		n := x.Choose(max + 1)
		out := make([]interface{}, n)
		for i := range out {
			out[i] = Pick(x, vals)
		}
		return out
	}
	dec := func(x *X, params []interface{}, out interface{}) error {
		var err error
		p, v := Try(func() { err = jlib.DecodeParams(params, out) })
		x.Step("DecodeParams(%s, %T)", Canon(L(params)), out)
		x.State(Canon(L(params)), fmt.Sprintf("%T", out))
		x.Check(!p, "panic", "DecodeParams(%s) into %T panicked: %v", Canon(L(params)), out, v)
		if err != nil {
			x.Outcome("error")
		} else {
			x.Outcome("ok")
		}
		return err
	}
	intlist := func(v interface{}) (string, bool) {
		if v == nil {
			return "[]", true
		}
		l, ok := v.(L)
		if !ok {
			return "", false
		}
		out := []int{}
		for _, e := range l {
			if e == nil {
				out = append(out, 0)
				continue
			}
			s, ok := conv("int", e)
			if !ok {
				return "", false
			}
			n := 0
			fmt.Sscan(s, &n)
			out = append(out, n)
		}
		return fmt.Sprint(out), true
	}
	return []Family{
		{Name: "flat", Run: func(x *X) {
			params := list(x, 4)
			if x.Thorough == false && len(params) == 4 && params[0] != nil && Canon(params[0]) != "5" && Canon(params[0]) != `"x"` {
				x.Skip()
			}
			o := sFlat{I: 77, S: "init", B: true, F: 7.5}
			want := []string{"77", `"init"`, "true", "7.5"}
			good := true
			for i, t := range []string{"int", "string", "bool", "float"} {
				if i >= len(params) {
					break
				}
				s, ok := conv(t, params[i])
				if !ok {
					good = false
					break
				}
				want[i] = s
			}
			err := dec(x, params, &o)
			x.Check((err == nil) == good, "flat:verdict", "DecodeParams(%s) into flat struct: err=%v want ok=%v", Canon(L(params)), err, good)
			if good {
				got := []string{show(o.I), show(o.S), show(o.B), show(o.F)}
				for i := range got {
					x.Check(got[i] == want[i], "flat:value", "DecodeParams(%s) field %d = %s, want %s", Canon(L(params)), i, got[i], want[i])
				}
			}
		}},
		{Name: "mixed", Run: func(x *X) {
			params := list(x, 4)
			if !x.Thorough && len(params) == 4 && Canon(params[1]) != "[1,2]" {
				x.Skip()
			}
			o := sMixed{hidden: 3, X: "init", skip: "k", L: []int{9}, M: map[string]int{"z": 1}, N: inner{8, "n"}}
			err := dec(x, params, &o)
			good := true
			wantX, wantL, wantM, wantN := show("init"), "[9]", "map[z:1]", "{8 n}"
			if len(params) > 0 {
				wantX = show(params[0])
				if params[0] == nil {
					wantX = "any:null"
				}
			}
			if good && len(params) > 1 {
				wantL, good = intlist(params[1])
			}
			if good && len(params) > 2 {
				switch t := params[2].(type) {
				case nil:
					wantM = "map[]"
				case M:
					mm := map[string]int{}
					for k, v := range t {
						s, ok := conv("int", v)
						if !ok {
							good = false
						}
						n := 0
						fmt.Sscan(s, &n)
						mm[k] = n
					}
					wantM = fmt.Sprint(mm)
				case L:
					// an empty list, or a list of objects, merges into a map in
					// the decoding library: outside the property's domain
					x.Skip()
				default:
					good = false
				}
			}
			if good && len(params) > 3 {
				switch t := params[3].(type) {
				case nil:
					wantN = "{0 }"
				case M:
					in := inner{}
					if v, has := t["a"]; has && v != nil {
						s, ok := conv("int", v)
						if !ok {
							good = false
						}
						fmt.Sscan(s, &in.A)
					}
					if v, has := t["bee"]; has && v != nil {
						s, ok := v.(string)
						if n, isN := v.(N); isN {
							s, ok = string(n), true
						}
						if !ok {
							good = false
						}
						in.B = s
					}
					wantN = fmt.Sprint(in)
				default:
					good = false
				}
			}
			x.Check((err == nil) == good, "mixed:verdict", "DecodeParams(%s): err=%v want ok=%v", Canon(L(params)), err, good)
			if good {
				got := fmt.Sprintf("%s %v %v %v", show(o.X), o.L, o.M, o.N)
				want := fmt.Sprintf("%s %s %s %s", wantX, wantL, wantM, wantN)
				x.Check(got == want, "mixed:value", "DecodeParams(%s) = %s, want %s", Canon(L(params)), got, want)
				x.Check(o.hidden == 3 && o.skip == "k", "mixed:hidden", "unexported fields changed")
			}
		}},
		{Name: "any", Run: func(x *X) {
			v := Pick(x, Values(Atoms(), SmallAtoms(), 2))
			extra := x.Choose(3)
			params := []interface{}{v}
			for i := 0; i < extra; i++ {
				params = append(params, "surplus")
			}
			o := sOne{V: "init"}
			err := dec(x, params, &o)
			x.Check(err == nil, "any:verdict", "DecodeParams(%s) into interface field: %v", Canon(L(params)), err)
			x.Check(Canon(norm(o.V)) == Canon(v), "any:value", "interface field = %s, want %s", Canon(norm(o.V)), Canon(v))
		}},
		{Name: "lists", Run: func(x *X) {
			params := list(x, 2)
			o := sLists{D: 5}
			good := true
			wa, wb := "[]", "[]"
			if len(params) > 0 {
				switch t := params[0].(type) {
				case nil:
				case L:
					out := []string{}
					for _, e := range t {
						if e == nil {
							out = append(out, "")
							continue
						}
						s, ok := e.(string)
						if n, isN := e.(N); isN {
							s, ok = string(n), true
						}
						good = good && ok
						out = append(out, s)
					}
					wa = fmt.Sprint(out)
				default:
					good = false
				}
			}
			if good && len(params) > 1 {
				switch t := params[1].(type) {
				case nil:
				case L:
					s := "["
					for i, e := range t {
						g, ok := intlist(e)
						good = good && ok
						if i > 0 {
							s += " "
						}
						s += g
					}
					wb = s + "]"
				default:
					good = false
				}
			}
			err := dec(x, params, &o)
			x.Check((err == nil) == good, "lists:verdict", "DecodeParams(%s): err=%v want ok=%v", Canon(L(params)), err, good)
			if good {
				x.Check(fmt.Sprint(o.A) == wa && fmt.Sprint(o.B) == wb && o.D == 5, "lists:value", "DecodeParams(%s) = %v %v", Canon(L(params)), o.A, o.B)
			}
		}},
		{Name: "ranges", Run: func(x *X) {
			// numbers at the borders of the sized types: exact or refused
			nums := []string{"0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999"}
			n := Pick(x, nums)
			k := x.Choose(10)
			before := x.Choose(2)
			var o struct {
				A int8
				B int16
				C int32
				D int64
				E uint8
				F uint16
				G uint32
				H uint64
				I int
				J uint
			}
			bits := []int{8, 16, 32, 64, -8, -16, -32, -64, 64, -64}
			params := []interface{}{}
			for i := 0; i < k; i++ {
				params = append(params, []interface{}{N("3"), nil}[before])
			}
			params = append(params, N(n))
			good := true
			if b := bits[k]; b > 0 {
				_, e := strconv.ParseInt(n, 10, b)
				good = e == nil
			} else {
				_, e := strconv.ParseUint(n, 10, -b)
				good = e == nil
			}
			err := dec(x, params, &o)
			f := reflect.ValueOf(o).Field(k)
			x.Check((err == nil) == good, "ranges:verdict", "%s into %s: err=%v want ok=%v (got %v)", n, f.Type(), err, good, f)
			if good {
				x.Check(fmt.Sprint(f.Interface()) == n, "ranges:value", "%s into %s gave %v", n, f.Type(), f)
				if k > 0 {
					w := []string{"3", "0"}[before]
					x.Check(fmt.Sprint(o.A) == w, "ranges:earlier", "first field is %v, want %s", o.A, w)
				}
			}
		}},
		{Name: "wide", Run: func(x *X) {
			// structs of many fields, lists shorter and longer than them
			k := Pick(x, []int{1, 2, 5, 7, 8, 9, 10, 12, 15, 16, 17, 20, 26, 31, 32, 33, 40, 63, 64, 65, 100, 130, 256, 257})
			shift := x.Choose(len(wideTypes))
			n := k + Pick(x, []int{0, -1, 1, -k / 2, -k, 5, k})
			if n < 0 {
				x.Skip()
			}
			bad := Pick(x, []int{-1, 0, k / 2, k - 1, k, n - 1})
			null := Pick(x, []int{-1, 0, k / 3, k - 1})
			t := wideStruct(k, shift)
			p := reflect.New(t)
			var params []interface{}
			want := make([]string, k)
			for i := 0; i < k; i++ {
				w := wideTypes[(i+shift)%len(wideTypes)]
				p.Elem().Field(i).Set(reflect.ValueOf(w.init(i)))
				want[i] = fmt.Sprint(w.init(i))
			}
			good := true
			for i := 0; i < n; i++ {
				w := wideTypes[(i+shift)%len(wideTypes)]
				switch {
				case i == null:
					params = append(params, nil)
					if i < k {
						want[i] = fmt.Sprint(reflect.Zero(t.Field(i).Type).Interface())
					}
				case i == bad:
					params = append(params, w.bad)
					good = good && (i >= k || w.bad == nil)
					if i < k && w.bad == nil {
						want[i] = fmt.Sprint(reflect.Zero(t.Field(i).Type).Interface())
					}
				default:
					v, s := w.give(i)
					params = append(params, v)
					if i < k {
						want[i] = s
					}
				}
			}
			err := dec(x, params, p.Interface())
			x.Check((err == nil) == good, "wide:verdict", "DecodeParams of %d parameters (bad: %d, null: %d) into %d fields: %v", n, bad, null, k, err)
			for i := 0; good && i < k; i++ {
				got := fmt.Sprint(p.Elem().Field(i).Interface())
				x.Check(got == want[i], "wide:value", "DecodeParams of %d parameters (bad: %d, null: %d) into %d fields: field %d (%s) is %.200s, want %.200s", n, bad, null, k, i, t.Field(i).Type, got, want[i])
			}
			x.State(k, shift, n, bad, null)
			x.Outcome(fmt.Sprint(good))
		}},
		{Name: "long", Run: func(x *X) {
			// one long parameter before, between and after short ones
			what := Pick(x, []string{"text", "escapes", "digits", "list", "map", "mixed", "deep"})
			n := Pick(x, []int{100, 1030, 4100, 66000})
			at := x.Choose(3)
			v := bulk(what, n)
			var o struct {
				A interface{}
				B interface{}
				C interface{}
				L []int
			}
			o.L = []int{4}
			params := []interface{}{N("1"), N("2"), N("3")}
			params[at] = v
			if x.Bool() {
				l := make(L, n/5)
				for i := range l {
					l[i] = N(strconv.Itoa(i))
				}
				params = append(params, l)
			}
			err := dec(x, params, &o)
			x.Check(err == nil, "long:verdict", "DecodeParams with %d bytes of %s at %d: %v", n, what, at, err)
			for i, g := range []interface{}{o.A, o.B, o.C} {
				x.Check(Canon(norm(g)) == Canon(params[i]), "long:value", "DecodeParams with %d bytes of %s at %d: field %d differs", n, what, at, i)
			}
			if len(params) == 4 {
				x.Check(fmt.Sprint(o.L) == strings.ReplaceAll(strings.ReplaceAll(Canon(params[3]), ",", " "), "\"", ""), "long:list", "DecodeParams with a list of %d: %.100s", n/5, fmt.Sprint(o.L))
			} else {
				x.Check(len(o.L) == 1 && o.L[0] == 4, "long:untouched", "the last field became %v", o.L)
			}
			x.State(what, n, at, len(params))
		}},
		{Name: "targets", Run: func(x *X) {
			params := list(x, 1)
			var s sOne
			n := 3
			var nilp *int
			t := Pick(x, []interface{}{s, n, "x", &n, map[string]int{}, []int{1}, nilp})
			err := dec(x, params, t)
			x.Check(err != nil, "targets", "DecodeParams into %T was accepted", t)
		}},
	}
}
