//go:build go1.22

package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/pkg/errors"
	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	. "github.com/superisaac/jlib/zzverif/kit"
)

type tIn struct {
	A int    `json:"a"`
	B string `json:"bee"`
}

type tNest struct {
	In  tIn            `json:"in"`
	P   *tIn           `json:"p"`
	L   []int          `json:"l"`
	M   map[string]int `json:"m"`
	Any interface{}    `json:"any"`
}

// refConv converts a decoded JSON value to type t; open means that the
// statement does not settle the case.
func refConv(t reflect.Type, v interface{}) (out string, ok, open bool) {
	zero := func() string { return show(reflect.Zero(t).Interface()) }
	if v == nil {
		return zero(), true, false
	}
	switch t.Kind() {
	case reflect.Interface:
		if t.NumMethod() > 0 {
			return "", false, false
		}
		return show(v), true, false
	case reflect.Ptr:
		return refConv(t.Elem(), v)
	case reflect.Bool:
		b, ok := v.(bool)
		return show(b), ok, false
	case reflect.String:
		if n, isN := v.(N); isN {
			_ = n
			return "", false, true
		}
		s, ok := v.(string)
		return show(s), ok, false
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, isN := v.(N)
		if !isN {
			return "", false, false
		}
		i, err := strconv.ParseInt(string(n), 10, t.Bits())
		if err != nil && strings.ContainsAny(string(n), ".eE") {
			if f, e := n.Float64(); e == nil && f == float64(int64(f)) {
				return "", false, true // 1.0 for an integer
			}
		}
		return fmt.Sprint(i), err == nil, false
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, isN := v.(N)
		if !isN {
			return "", false, false
		}
		i, err := strconv.ParseUint(string(n), 10, t.Bits())
		if err != nil && strings.ContainsAny(string(n), ".eE") {
			if f, e := n.Float64(); e == nil && f >= 0 && f == float64(int64(f)) {
				return "", false, true
			}
		}
		return fmt.Sprint(i), err == nil, false
	case reflect.Float32, reflect.Float64:
		n, isN := v.(N)
		if !isN {
			return "", false, false
		}
		f, err := strconv.ParseFloat(string(n), 64)
		if err == nil && t.Bits() == 32 {
			g, e := strconv.ParseFloat(string(n), 32)
			if e != nil {
				return "", false, false
			}
			return show(float32(g)), true, false
		}
		return show(f), err == nil, false
	case reflect.Slice:
		l, isL := v.(L)
		if !isL {
			return "", false, false
		}
		var parts []string
		for _, e := range l {
			s, ok, op := refConv(t.Elem(), e)
			if op {
				return "", false, true
			}
			if !ok {
				return "", false, false
			}
			parts = append(parts, s)
		}
		return "[" + strings.Join(parts, ",") + "]", true, false
	case reflect.Map:
		m, isM := v.(M)
		if _, isL := v.(L); isL {
			return "", false, true // the decoding library merges lists of maps
		}
		if !isM {
			return "", false, false
		}
		keys := map[string]bool{}
		for k := range m {
			keys[k] = true
		}
		var parts []string
		for _, k := range sorted(keys) {
			s, ok, op := refConv(t.Elem(), m[k])
			if op {
				return "", false, true
			}
			if !ok {
				return "", false, false
			}
			parts = append(parts, strconv.Quote(k)+":"+s)
		}
		return "{" + strings.Join(parts, ",") + "}", true, false
	case reflect.Struct:
		m, isM := v.(M)
		if !isM {
			return "", false, false
		}
		var parts []string
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			s, ok, op := refConv(f.Type, m[f.Tag.Get("json")])
			if op {
				return "", false, true
			}
			if !ok {
				return "", false, false
			}
			parts = append(parts, s)
		}
		return "(" + strings.Join(parts, ",") + ")", true, false
	}
	panic("kind " + t.String())
}

// show renders a Go value; pointers are followed, nil is the zero value of
// what they point to when they are typed.
func show(v interface{}) string {
	if v == nil {
		return "nil"
	}
	if n, ok := v.(json.Number); ok {
		return "num:" + string(n)
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Ptr:
		if rv.IsNil() {
			return "nilptr"
		}
		return show(rv.Elem().Interface())
	case reflect.Bool:
		return fmt.Sprint(v)
	case reflect.String:
		return strconv.Quote(rv.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(v)
	case reflect.Float32, reflect.Float64:
		return "f" + strconv.FormatFloat(rv.Float(), 'g', -1, 64)
	case reflect.Slice:
		var parts []string
		for i := 0; i < rv.Len(); i++ {
			parts = append(parts, show(rv.Index(i).Interface()))
		}
		return "[" + strings.Join(parts, ",") + "]"
	case reflect.Map:
		keys := map[string]bool{}
		for _, k := range rv.MapKeys() {
			keys[k.String()] = true
		}
		var parts []string
		for _, k := range sorted(keys) {
			parts = append(parts, strconv.Quote(k)+":"+show(rv.MapIndex(reflect.ValueOf(k)).Interface()))
		}
		return "{" + strings.Join(parts, ",") + "}"
	case reflect.Struct:
		var parts []string
		for i := 0; i < rv.NumField(); i++ {
			parts = append(parts, show(rv.Field(i).Interface()))
		}
		return "(" + strings.Join(parts, ",") + ")"
	}
	return fmt.Sprintf("%#v", v)
}

func typ[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

var errT = typ[error]()

// handler makes a function value of the given signature that records its arguments.
func handler(first string, ins []reflect.Type, rec *[][]string, firstOK *bool, req func() *jlibhttp.RPCRequest) interface{} {
	var in []reflect.Type
	switch first {
	case "ctx":
		in = append(in, typ[context.Context]())
	case "req":
		in = append(in, typ[*jlibhttp.RPCRequest]())
	}
	skip := len(in)
	in = append(in, ins...)
	ft := reflect.FuncOf(in, []reflect.Type{typ[interface{}](), errT}, false)
	return reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
		switch first {
		case "ctx":
			c, _ := args[0].Interface().(context.Context)
			*firstOK = c == req().Context()
		case "req":
			r, _ := args[0].Interface().(*jlibhttp.RPCRequest)
			*firstOK = r == req()
		}
		got := []string{}
		for _, a := range args[skip:] {
			got = append(got, show(a.Interface()))
		}
		*rec = append(*rec, got)
		return []reflect.Value{reflect.ValueOf("ok"), reflect.Zero(errT)}
	}).Interface()
}

func a04() []Family {
	types := []reflect.Type{
		typ[int](), typ[int64](), typ[int8](), typ[uint](), typ[uint8](), typ[float64](), typ[float32](), typ[string](), typ[bool](),
		typ[[]int](), typ[[]string](), typ[[]int8](), typ[[][]int](), typ[[]interface{}](), typ[map[string]int](), typ[map[string]interface{}](), typ[map[string]string](),
		typ[tIn](), typ[*tIn](), typ[tNest](), typ[*tNest](), typ[[]tIn](), typ[[]*tIn](), typ[*int](), typ[*string](), typ[interface{}](), typ[error](), typ[map[string]tIn](),
	}
	vals := append(Values(Atoms(), SmallAtoms(), 1),
		N("127"), N("128"), N("-128"), N("-129"), N("255"), N("256"), N("1.0"), N("3e38"), N("3e39"), N("18446744073709551615"), N("18446744073709551616"), N("9223372036854775808"),
		L{N("1"), N("2")}, L{N("128")}, L{"a", "b"}, L{nil, N("3")}, L{L{N("1")}, L{}}, L{M{"a": N("1")}}, L{M{"a": N("1"), "bee": "x"}, nil},
		M{"a": N("1")}, M{"a": N("1"), "bee": "x"}, M{"a": "x"}, M{"bee": nil, "a": nil}, M{"a": N("1.5")}, M{"extra": true},
		M{"in": M{"a": N("1")}, "p": M{"bee": "q"}, "l": L{N("1")}, "m": M{"k": N("2")}, "any": L{M{"z": nil}}}, M{"in": nil, "p": nil, "l": nil, "m": nil, "any": nil}, M{"in": L{}}, M{"p": "x"}, M{"l": M{}}, M{"l": L{"x"}}, M{"m": M{"k": "v"}})
	few := []interface{}{nil, N("5"), N("300"), N("-1"), N("1.5"), "x", "", true, L{}, L{N("1")}, L{"a"}, M{}, M{"a": N("4"), "bee": "q"}, M{"k": "v"}}
	fewTypes := []reflect.Type{typ[int](), typ[string](), typ[bool](), typ[uint8](), typ[[]int](), typ[map[string]interface{}](), typ[tIn](), typ[*tIn](), typ[interface{}](), typ[float64]()}

	call := func(x *X, first string, ins []reflect.Type, params L) {
		var rec [][]string
		firstOK := false
		actor := jlibhttp.NewActor()
		var req *jlibhttp.RPCRequest
		h := handler(first, ins, &rec, &firstOK, func() *jlibhttp.RPCRequest { return req })
		switch first {
		case "":
			actor.OnTyped("m", h)
		case "ctx":
			x.Check(actor.OnTypedContext("m", h) == nil, "register", "%T refused", h)
		case "req":
			x.Check(actor.OnTypedRequest("m", h) == nil, "register", "%T refused", h)
		}
		msg, err := jlib.ParseBytes([]byte(`{"jsonrpc":"2.0","id":7,"method":"m","params":` + JSON(append(L{}, params...)) + `}`))
		if err != nil {
			panic(err)
		}
		type key string
		req = jlibhttp.NewRPCRequest(context.WithValue(context.Background(), key("k"), 1), msg, "http", nil)
		var res jlib.Message
		p, pv := Try(func() { res, err = actor.Feed(req) })
		x.State(fmt.Sprintf("%T", h), Canon(params))
		x.Step("%T called with %s", h, Canon(params))
		x.Check(!p, "panic", "%T with %s panicked: %v", h, Canon(params), pv)
		want := []string{}
		good := len(params) >= len(ins)
		for i := 0; good && i < len(ins); i++ {
			s, ok, open := refConv(ins[i], params[i])
			if open {
				x.Skip()
			}
			good = ok
			want = append(want, s)
		}
		if good {
			x.Outcome("called")
			x.Check(err == nil && len(rec) == 1, "not-called", "%T with %s: ran %d times, answer %s err %v", h, Canon(params), len(rec), text(res), err)
			for i := range want {
				w := want[i]
				if w == "nilptr" || params[i] != nil || ins[i].Kind() != reflect.Ptr {
					x.Check(rec[0][i] == w, "argument:"+ins[i].String(), "%T with %s: argument %d is %s, want %s", h, Canon(params), i, rec[0][i], w)
				}
			}
			x.Check(first == "" || firstOK, "first-arg", "%T: first argument is not the request's %s", h, first)
			x.Check(text(res) == Canon(M{"jsonrpc": "2.0", "id": N("7"), "result": "ok"}), "result", "answer %s", text(res))
			return
		}
		x.Outcome("refused")
		x.Check(len(rec) == 0, "called", "%T with %s: handler ran with %v", h, Canon(params), rec)
		x.Check(err == nil && res != nil && res.IsError() && res.MustError().Code == -32602, "error", "%T with %s: answered %s err %v", h, Canon(params), text(res), err)
	}
	firsts := []string{"", "ctx", "req"}
	type ret struct {
		name string
		fn   interface{}
		want interface{} // value whose JSON is expected, or
		err  M           // expected error object
	}
	type emb struct {
		tIn
		C int `json:"c,omitempty"`
		D int `json:"-"`
	}
	big := jlib.Bigint{}
	big.Load("123456789012345678901234567890")
	tm := time.Date(2020, 1, 2, 3, 4, 5, 6, time.UTC)
	internal := rpcErr(-32603, "internal error", nil)
	rets := []ret{
		{"int", func() (int, error) { return 5, nil }, 5, nil},
		{"int64", func() (int64, error) { return 9007199254740993, nil }, int64(9007199254740993), nil},
		{"float", func() (float64, error) { return 0.25, nil }, 0.25, nil},
		{"string", func() (string, error) { return "é", nil }, "é", nil},
		{"bool", func() (bool, error) { return true, nil }, true, nil},
		{"struct", func() (tIn, error) { return tIn{1, "x"}, nil }, tIn{1, "x"}, nil},
		{"struct ptr", func() (*tIn, error) { return &tIn{1, "x"}, nil }, tIn{1, "x"}, nil},
		{"nil ptr", func() (*tIn, error) { return nil, nil }, nil, nil},
		{"nested", func() (tNest, error) { return tNest{In: tIn{1, "x"}, L: []int{1}, Any: M{"z": 1}}, nil }, tNest{In: tIn{1, "x"}, L: []int{1}, Any: M{"z": 1}}, nil},
		{"nested ptr", func() (*tNest, error) { return &tNest{P: &tIn{2, "y"}, M: map[string]int{"a": 1}}, nil }, &tNest{P: &tIn{2, "y"}, M: map[string]int{"a": 1}}, nil},
		{"embedded", func() (emb, error) { return emb{tIn{1, "b"}, 0, 9}, nil }, emb{tIn{1, "b"}, 0, 9}, nil},
		{"slice", func() ([]int, error) { return []int{1, 2}, nil }, []int{1, 2}, nil},
		{"nil slice", func() ([]int, error) { return nil, nil }, nil, nil},
		{"struct slice", func() ([]tIn, error) { return []tIn{{1, "a"}, {2, "b"}}, nil }, []tIn{{1, "a"}, {2, "b"}}, nil},
		{"ptr slice", func() ([]*tIn, error) { return []*tIn{{1, "a"}, nil}, nil }, []*tIn{{1, "a"}, nil}, nil},
		{"map", func() (map[string]int, error) { return map[string]int{"b": 2, "a": 1}, nil }, map[string]int{"b": 2, "a": 1}, nil},
		{"nil map", func() (map[string]int, error) { return nil, nil }, nil, nil},
		{"struct map", func() (map[string]tIn, error) { return map[string]tIn{"b": {1, "c"}}, nil }, map[string]tIn{"b": {1, "c"}}, nil},
		{"any nil", func() (interface{}, error) { return nil, nil }, nil, nil},
		{"any", func() (interface{}, error) { return L{1, "a", nil, M{"k": true}}, nil }, L{1, "a", nil, M{"k": true}}, nil},
		{"any struct", func() (interface{}, error) { return tIn{3, "z"}, nil }, tIn{3, "z"}, nil},
		{"bigint", func() (jlib.Bigint, error) { return big, nil }, big, nil},
		{"bigint ptr", func() (*jlib.Bigint, error) { return &big, nil }, big, nil},
		{"bigint slice", func() ([]jlib.Bigint, error) { return []jlib.Bigint{big}, nil }, []jlib.Bigint{big}, nil},
		{"time", func() (time.Time, error) { return tm, nil }, tm, nil},
		{"raw", func() (json.RawMessage, error) { return json.RawMessage(`{"a":[1]}`), nil }, json.RawMessage(`{"a":[1]}`), nil},
		{"bytes", func() ([]byte, error) { return []byte("abc"), nil }, []byte("abc"), nil},
		{"array", func() ([2]int, error) { return [2]int{1, 2}, nil }, [2]int{1, 2}, nil},
		{"number", func() (json.Number, error) { return "12345678901234567890123", nil }, json.Number("12345678901234567890123"), nil},
		{"rpc error", func() (int, error) { return 5, &jlib.RPCError{Code: 9, Message: "nine", Data: "d"} }, nil, rpcErr(9, "nine", "d")},
		{"wrapped error", func() (int, error) { return 5, errors.Wrap(jlib.ErrTimeout, "w") }, nil, rpcErr(200, "request timeout", nil)},
		{"plain error", func() (int, error) { return 5, errors.New("p") }, nil, internal},
		{"concrete error", func() (int, *jlib.RPCError) { return 5, &jlib.RPCError{Code: 3, Message: "three"} }, nil, rpcErr(3, "three", nil)},
		{"concrete no error", func() (int, *jlib.RPCError) { return 5, nil }, 5, nil},
		{"panic", func() (int, error) { panic(errors.New("x")) }, nil, internal},
	}
	return []Family{
		{Name: "unary", Run: func(x *X) {
			first := Pick(x, firsts)
			t := types[x.Choose(len(types))]
			v := vals[x.Choose(len(vals))]
			call(x, first, []reflect.Type{t}, L{v})
		}},
		{Name: "arity", Run: func(x *X) {
			first := Pick(x, firsts)
			n := x.Choose(4)
			var ins []reflect.Type
			for i := 0; i < n; i++ {
				ins = append(ins, []reflect.Type{typ[int](), typ[string](), typ[interface{}]()}[x.Choose(3)])
			}
			k := x.Choose(6)
			ps := L{}
			for i := 0; i < k; i++ {
				if i < n+1 {
					ps = append(ps, Pick(x, []interface{}{nil, N("5"), "x"}))
				} else {
					ps = append(ps, "surplus")
				}
			}
			call(x, first, ins, ps)
		}},
		{Name: "wide", Run: func(x *X) {
			// functions of many parameters, a fault or a gap anywhere
			first := Pick(x, firsts)
			n := Pick(x, []int{4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 24, 31, 32, 33, 50})
			shift := x.Choose(3)
			ts := []reflect.Type{typ[int](), typ[string](), typ[interface{}]()}
			vs := []interface{}{N("5"), "x", L{"any"}}
			var ins []reflect.Type
			for i := 0; i < n; i++ {
				ins = append(ins, ts[(i+shift)%3])
			}
			k := n + Pick(x, []int{0, -1, -2, -n / 2, 1, n})
			odd := Pick(x, []int{-1, 0, n / 2, n - 2, n - 1, n})
			with := Pick(x, []interface{}{nil, true, N("1.5"), "wrong"})
			ps := L{}
			for i := 0; i < k; i++ {
				if i == odd {
					ps = append(ps, with)
				} else if i < n {
					ps = append(ps, vs[(i+shift)%3])
				} else {
					ps = append(ps, "surplus")
				}
			}
			call(x, first, ins, ps)
		}},
		{Name: "long", Run: func(x *X) {
			n := Pick(x, []int{100, 1100, 4100, 17000, 66000})
			t := Pick(x, []reflect.Type{typ[string](), typ[interface{}](), typ[[]int](), typ[map[string]interface{}](), typ[[]interface{}]()})
			var v interface{}
			switch t.Kind() {
			case reflect.Slice:
				l := L{}
				for i := 0; i < n/5; i++ {
					l = append(l, N(fmt.Sprint(i)))
				}
				v = l
			case reflect.Map:
				m := M{}
				for i := 0; i < n/10; i++ {
					m[fmt.Sprintf("k%d", i)] = fmt.Sprint(i)
				}
				v = m
			default:
				v = strings.Repeat("long text ", n/10)
			}
			at := x.Choose(2)
			ins, ps := []reflect.Type{t, typ[int]()}, L{v, N("3")}
			if at == 1 {
				ins, ps = []reflect.Type{typ[int](), t}, L{N("3"), v}
			}
			call(x, Pick(x, firsts), ins, ps)
		}},
		{Name: "binary", Run: func(x *X) {
			a, b := Pick(x, fewTypes), Pick(x, fewTypes)
			call(x, "", []reflect.Type{a, b}, L{Pick(x, few), Pick(x, few)})
		}},
		{Name: "ternary", Thorough: true, Run: func(x *X) {
			a, b, c := Pick(x, fewTypes[:6]), Pick(x, fewTypes[3:]), Pick(x, fewTypes)
			call(x, Pick(x, firsts), []reflect.Type{a, b, c}, L{Pick(x, few), Pick(x, few[:9]), Pick(x, few)})
		}},
		{Name: "deep-values", Thorough: true, Run: func(x *X) {
			t := types[x.Choose(len(types))]
			deep := Values(SmallAtoms(), []interface{}{nil, N("1"), "x"}, 3)
			call(x, "", []reflect.Type{t}, L{deep[x.Choose(len(deep))]})
		}},
		{Name: "reuse", Run: func(x *X) {
			// one registered handler, several calls
			var got []string
			actor := jlibhttp.NewActor()
			actor.OnTyped("m", func(a int, p *tIn, m map[string]interface{}, v interface{}) (string, error) {
				got = append(got, fmt.Sprint(show(a), show(p), show(m), show(v)))
				if m != nil {
					m["leak"] = 1
				}
				return "ok", nil
			})
			for i := 0; i < 3; i++ {
				ps := L{Pick(x, []interface{}{nil, N("5")}), Pick(x, []interface{}{nil, M{"a": N("4")}, M{"bee": "q"}}), Pick(x, []interface{}{nil, M{}, M{"k": N("1")}}), Pick(x, []interface{}{nil, "s"})}
				got = nil
				msg, _ := jlib.ParseBytes([]byte(`{"id":7,"method":"m","params":` + JSON(ps) + `}`))
				res, err, p, pv := feed(x, actor, msg)
				x.State(i, Canon(ps))
				x.Step("call %s", Canon(ps))
				x.Check(!p && err == nil && res.IsResult() && len(got) == 1, "reuse", "call %d with %s: panic %v err %v %s", i, Canon(ps), pv, err, text(res))
				w := ""
				for k, t := range []reflect.Type{typ[int](), typ[*tIn](), typ[map[string]interface{}](), typ[interface{}]()} {
					s, _, _ := refConv(t, ps[k])
					w += s
					if k < 3 {
						_ = k
					}
				}
				x.Check(strings.ReplaceAll(got[0], " ", "") == strings.ReplaceAll(w, " ", ""), "reuse-args", "call %d with %s got %s, want %s", i, Canon(ps), got[0], w)
			}
		}},
		{Name: "results", Run: func(x *X) {
			r := rets[x.Choose(len(rets))]
			actor := jlibhttp.NewActor()
			actor.OnTyped("m", r.fn)
			res, err, p, pv := feed(x, actor, jlib.NewRequestMessage("i", "m", nil))
			x.State(r.name)
			x.Step("handler returning %s", r.name)
			x.Check(!p && err == nil && res != nil, "result-panic", "%s: panic %v err %v", r.name, pv, err)
			want := M{"jsonrpc": "2.0", "id": "i"}
			if r.err != nil {
				want["error"] = r.err
			} else {
				data, err := json.Marshal(r.want)
				if err != nil {
					panic(err)
				}
				want["result"], _ = Parse(data)
			}
			x.Check(text(res) == Canon(want), "result:"+r.name, "handler returning %s: answer %s, want %s", r.name, text(res), Canon(want))
		}},
		{Name: "registration", Run: func(x *X) {
			type bad struct {
				name string
				fn   interface{}
				ok   [3]bool // OnTyped, OnTypedContext, OnTypedRequest
			}
			all := []bad{
				{"nil", nil, [3]bool{}},
				{"int", 5, [3]bool{}},
				{"no result", func() {}, [3]bool{}},
				{"one result", func() int { return 1 }, [3]bool{}},
				{"three results", func() (int, int, error) { return 1, 1, nil }, [3]bool{}},
				{"no error", func() (int, int) { return 1, 1 }, [3]bool{}},
				{"error first", func() (error, int) { return nil, 1 }, [3]bool{}},
				{"variadic", func(a ...int) (int, error) { return 1, nil }, [3]bool{}},
				{"ctx variadic", func(c context.Context, a ...int) (int, error) { return 1, nil }, [3]bool{}},
				{"plain", func(a int) (int, error) { return 1, nil }, [3]bool{true, false, false}},
				{"none", func() (int, error) { return 1, nil }, [3]bool{true, false, false}},
				{"ctx", func(c context.Context, a int) (int, error) { return 1, nil }, [3]bool{true, true, false}},
				{"req", func(r *jlibhttp.RPCRequest, a int) (int, error) { return 1, nil }, [3]bool{true, false, true}},
				{"req value", func(r jlibhttp.RPCRequest) (int, error) { return 1, nil }, [3]bool{true, false, false}},
				{"bigger ctx", func(c interface {
					context.Context
					More()
				}) (int, error) {
					return 1, nil
				}, [3]bool{true, false, false}},
			}
			b := all[x.Choose(len(all))]
			how := x.Choose(3)
			if how == 0 && b.ok[0] && (b.name == "ctx" || b.name == "req" || b.name == "req value" || b.name == "bigger ctx") {
				x.Skip() // the plain form takes any argument types
			}
			actor := jlibhttp.NewActor()
			var err error
			p, _ := Try(func() {
				switch how {
				case 0:
					actor.OnTyped("m", b.fn)
				case 1:
					err = actor.OnTypedContext("m", b.fn)
				case 2:
					err = actor.OnTypedRequest("m", b.fn)
				}
			})
			x.State(b.name, how)
			x.Step("register %s by form %d", b.name, how)
			refused := p || err != nil
			x.Check(refused == !b.ok[how], "registration:"+b.name, "registering %s by form %d: refused=%v", b.name, how, refused)
			x.Check(actor.Has("m") == b.ok[how], "registered", "%s by form %d: Has=%v", b.name, how, actor.Has("m"))
			if how > 0 && b.name != "nil" {
				x.Check(!p, "registration-panic", "registering %s by form %d panicked", b.name, how)
			}
		}},
	}
}
