//go:build go1.22

package main

import (
	"fmt"
	"net/http"
	"strings"

	"github.com/pkg/errors"
	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"github.com/superisaac/jlib/schema"
	. "github.com/superisaac/jlib/zzverif/kit"
)

type outcome struct {
	name string
	run  func(req *jlib.RequestMessage) (interface{}, error) // may panic
	// expectation for a request
	result interface{} // set: a result with this value
	isRes  bool
	errObj M     // set: an error with this object
	pass   error // set: this error comes back
	passed bool
}

func rpcErr(code int, msg string, data interface{}) M {
	m := M{"code": N(fmt.Sprint(code)), "message": msg}
	if data != nil {
		m["data"] = data
	}
	return m
}

func outcomes() []outcome {
	var out []outcome
	for _, v := range Values(Atoms(), SmallAtoms(), 1) {
		v := v
		out = append(out, outcome{name: "value " + Canon(v), run: func(*jlib.RequestMessage) (interface{}, error) { return v, nil }, isRes: true, result: v})
	}
	out = append(out,
		outcome{name: "int", run: func(*jlib.RequestMessage) (interface{}, error) { return 5, nil }, isRes: true, result: N("5")},
		outcome{name: "value and error", run: func(*jlib.RequestMessage) (interface{}, error) {
			return 5, jlib.ParamsError("both")
		}, errObj: rpcErr(-32602, "both", nil)},
	)
	internal := rpcErr(-32603, "internal error", nil)
	errs := []struct {
		name string
		err  error
		obj  M
	}{
		{"rpc", &jlib.RPCError{Code: 7, Message: "seven"}, rpcErr(7, "seven", nil)},
		{"rpc zero", &jlib.RPCError{Code: 0, Message: ""}, rpcErr(0, "", nil)},
		{"rpc data", &jlib.RPCError{Code: -5, Message: "é\"", Data: M{"a": L{N("1")}}}, rpcErr(-5, "é\"", M{"a": L{N("1")}})},
		{"shared", jlib.ErrNotAllowed, rpcErr(406, "type not allowed", nil)},
		{"with data", jlib.ErrTimeout.WithData("d"), rpcErr(200, "request timeout", "d")},
		{"wrapped once", errors.Wrap(&jlib.RPCError{Code: 8, Message: "eight", Data: true}, "ctx"), rpcErr(8, "eight", true)},
		{"wrapped twice", fmt.Errorf("out: %w", errors.Wrap(jlib.ErrNotAllowed, "ctx")), rpcErr(406, "type not allowed", nil)},
		{"plain", errors.New("secret detail"), internal},
		{"plain wrapped", errors.Wrap(fmt.Errorf("x"), "y"), internal},
		{"schema", &jlibschema.ErrorPos{}, internal},
	}
	for _, e := range errs {
		e := e
		out = append(out,
			outcome{name: "error " + e.name, run: func(*jlib.RequestMessage) (interface{}, error) { return nil, e.err }, errObj: e.obj},
			outcome{name: "panic " + e.name, run: func(*jlib.RequestMessage) (interface{}, error) { panic(e.err) }, errObj: e.obj})
	}
	out = append(out, outcome{name: "runtime panic", run: func(*jlib.RequestMessage) (interface{}, error) {
		var m map[string]int
		m["x"] = 1
		return nil, nil
	}, errObj: internal}, outcome{name: "index panic", run: func(r *jlib.RequestMessage) (interface{}, error) {
		i := 3
		return L{}[i], nil
	}, errObj: internal})
	w := &jlibhttp.WrappedResponse{Response: &http.Response{StatusCode: 418}, Body: []byte("tea")}
	out = append(out,
		outcome{name: "http response", run: func(*jlib.RequestMessage) (interface{}, error) { return nil, w }, pass: w, passed: true},
		outcome{name: "http response wrapped", run: func(*jlib.RequestMessage) (interface{}, error) { return nil, errors.Wrap(w, "x") }, pass: w, passed: true},
		outcome{name: "http response panic", run: func(*jlib.RequestMessage) (interface{}, error) { panic(w) }, pass: w, passed: true},
	)
	return out
}

func a02() []Family {
	outs := outcomes()
	ids := []interface{}{1, N("0"), N("-7"), N("12345678901234567890"), "", "a", "1", N("9007199254740993")}
	traces := []string{"", "t1", "é \"x\""}
	places := []string{"own", "child", "grandchild", "second child", "missing", "missing over child"}
	build := func(place string, recover bool, cb func(*jlibhttp.RPCRequest) (interface{}, error)) *jlibhttp.Actor {
		mk := func() *jlibhttp.Actor {
			a := jlibhttp.NewActor()
			a.RecoverFromPanic = recover
			return a
		}
		root, c1, c2 := mk(), mk(), mk()
		c1.On("other", func([]interface{}) (interface{}, error) { return "other", nil })
		root.AddChild(c1)
		on := func(a *jlibhttp.Actor) {
			if err := a.OnRequest("m", func(r *jlibhttp.RPCRequest, _ []interface{}) (interface{}, error) { return cb(r) }); err != nil {
				panic(err)
			}
		}
		switch place {
		case "own":
			on(root)
		case "child":
			on(c1)
		case "grandchild":
			c1.AddChild(c2)
			on(c2)
		case "second child":
			root.AddChild(c2)
			on(c2)
		case "missing":
			root.OnMissing(cb)
		case "missing over child":
			root.OnMissing(cb)
			c1.OnMissing(func(*jlibhttp.RPCRequest) (interface{}, error) { return "wrong", nil })
		}
		return root
	}
	mkMsg := func(x *X, kind string, id interface{}, trace string) (jlib.Message, *jlib.RequestMessage) {
		r := jlib.NewRequestMessage(id, "m", []interface{}{1})
		r.SetTraceId(trace)
		var m jlib.Message = r
		switch kind {
		case "notify":
			m = jlib.NewNotifyMessage("m", []interface{}{1})
		case "result":
			m = jlib.NewResultMessage(r, "res")
		case "error":
			m = jlib.ErrTimeout.ToMessage(r)
		}
		m.SetTraceId(trace)
		return m, r
	}
	return []Family{{Name: "outcomes", Run: func(x *X) {
		o := outs[x.Choose(len(outs))]
		kind := Pick(x, []string{"request", "notify", "result", "error"})
		id := Pick(x, ids)
		trace := Pick(x, traces)
		place := Pick(x, places)
		recovering := x.Bool()
		isPanic := len(o.name) > 5 && (o.name[:5] == "panic" || o.name == "runtime panic" || o.name == "index panic" || o.name == "http response panic")
		if !recovering && isPanic {
			x.Skip()
		}
		calls := 0
		actor := build(place, recovering, func(r *jlibhttp.RPCRequest) (interface{}, error) {
			calls++
			rm, _ := r.Msg().(*jlib.RequestMessage)
			return o.run(rm)
		})
		msg, _ := mkMsg(x, kind, id, trace)
		x.State(o.name, kind, fmt.Sprint(id), trace, place, fmt.Sprint(recovering))
		x.Step("%s -> %s handler: %s (recover %v)", kind, place, o.name, recovering)
		res, err, p, pv := feed(x, actor, msg)
		where := fmt.Sprintf("%s to a %s handler doing [%s]", kind, place, o.name)
		x.Check(!p, "panic", "%s: panic %v escaped", where, pv)
		wantCalls := 1
		if (kind == "result" || kind == "error") && !strings.HasPrefix(place, "missing") {
			wantCalls = 0
		}
		x.Check(calls == wantCalls, "calls", "%s: handler ran %d times", where, calls)
		if kind != "request" {
			x.Check(res == nil, "answer-to-"+kind, "%s: produced %s", where, text(res))
			return
		}
		if o.passed {
			x.Check(res == nil && errors.Is(err, o.pass), "http-response", "%s: res %v err %v", where, text(res), err)
			x.Outcome("http-response")
			return
		}
		x.Check(err == nil && res != nil, "no-answer", "%s: res %v err %v", where, res, err)
		want := M{"jsonrpc": "2.0", "id": id}
		if i, ok := id.(int); ok {
			want["id"] = N(fmt.Sprint(i))
		}
		if trace != "" {
			want["traceid"] = trace
		}
		if o.isRes {
			want["result"] = o.result
			x.Outcome("result")
			x.Check(res.IsResult() && res.IsResultOrError() && !res.IsRequest(), "kind", "%s: kind of %s", where, text(res))
		} else {
			want["error"] = o.errObj
			x.Outcome("error")
			x.Check(res.IsError(), "kind", "%s: kind of %s", where, text(res))
		}
		x.Check(text(res) == Canon(want), "answer", "%s: answered %s, want %s", where, text(res), Canon(want))
		x.Check(fmt.Sprint(res.MustId()) == fmt.Sprint(id) && res.TraceId() == trace, "id", "%s: id %v trace %q", where, res.MustId(), res.TraceId())
	}}, {Name: "sequences", Run: func(x *X) {
		// one actor fed several messages: earlier outcomes leave no trace
		var cur outcome
		place := Pick(x, places)
		actor := build(place, true, func(r *jlibhttp.RPCRequest) (interface{}, error) {
			rm, _ := r.Msg().(*jlib.RequestMessage)
			return cur.run(rm)
		})
		few := []int{}
		for i, o := range outs {
			if !o.isRes || i < 4 {
				few = append(few, i)
			}
		}
		n := 2
		if x.Thorough {
			n = 3
		}
		for i := 0; i < n; i++ {
			cur = outs[few[x.Choose(len(few))]]
			id := fmt.Sprintf("id%d", i)
			r := jlib.NewRequestMessage(id, "m", nil)
			r.SetTraceId(fmt.Sprintf("t%d", i))
			x.State(place, cur.name, i)
			x.Step("request %d: %s", i, cur.name)
			res, err, p, _ := feed(x, actor, r)
			if cur.passed {
				x.Check(!p && res == nil && errors.Is(err, cur.pass), "seq-http", "request %d %s: %v %v", i, cur.name, res, err)
				continue
			}
			want := M{"jsonrpc": "2.0", "id": id, "traceid": r.TraceId()}
			if cur.isRes {
				want["result"] = cur.result
			} else {
				want["error"] = cur.errObj
			}
			x.Check(!p && err == nil && text(res) == Canon(want), "seq-answer", "request %d %s: answered %s, want %s", i, cur.name, text(res), Canon(want))
		}
	}}}
}
