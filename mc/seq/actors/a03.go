//go:build go1.22

package main

import (
	"fmt"
	"strings"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"github.com/superisaac/jlib/schema"
	. "github.com/superisaac/jlib/zzverif/kit"
)

func methodSchemas() []*S {
	var out []*S
	add := func(kids []*S) {
		for _, a := range []*S{nil, NewS("null"), Reps()[8]} {
			m := NewS("method")
			m.Kids, m.Add = kids, a
			out = append(out, m)
		}
	}
	kids := append(Reps(), FewLeaves()...)
	add(nil)
	for _, a := range kids {
		add([]*S{a})
		for _, b := range kids {
			add([]*S{a, b})
		}
	}
	for _, r := range kids {
		m := NewS("method")
		m.Kids, m.Ret = []*S{kids[8]}, r
		out = append(out, m)
	}
	return out
}

func a03() []Family {
	schemas := methodSchemas()
	var some []*S
	for i := 0; i < len(schemas); i += 61 {
		some = append(some, schemas[i])
	}
	vals := []interface{}{nil, true, N("0"), N("1"), N("2"), N("-1"), N("1.5"), "", "a", "ab", L{}, L{N("1")}, L{N("1"), N("1")}, L{N("1"), "a"}, M{}, M{"a": N("1")}, M{"a": N("9")}, M{"a": N("1"), "b": "a"}, M{"a": "x"}, M{"a": "x", "z": N("1")}, M{"params": L{N("1")}}, M{"params": L{"x"}}, M{"result": "a"}, M{"result": N("1")}}
	type params struct {
		list L
		one  interface{}
		isL  bool
		json string
	}
	var ps []params
	addl := func(l ...interface{}) {
		ps = append(ps, params{list: l, isL: true, json: JSON(append(L{}, l...))})
	}
	addl()
	for _, a := range vals {
		addl(a)
		if _, isL := a.(L); !isL && a != nil {
			ps = append(ps, params{one: a, json: JSON(a)})
		}
		for _, b := range vals {
			addl(a, b)
		}
		for _, b := range []interface{}{nil, N("1"), "a"} {
			addl(a, b, nil)
			addl(b, b, a)
		}
	}
	places := []string{"own", "child", "grandchild"}
	return []Family{{Name: "gate", Run: func(x *X) {
		// the plain configuration meets every schema, the others a part of them
		place := Pick(x, places)
		validate := x.Bool()
		form := x.Choose(4)
		pool := schemas
		if !x.Thorough && !(place == "own" && validate && form == 1) {
			pool = some
		}
		s := pool[x.Choose(len(pool))]
		withSchema := true
		var ran int
		var got []interface{}
		sc, err := jlibschema.NewSchemaBuilder().Build(s.Describe(0))
		x.Check(err == nil, "build", "%s: %v", s.Key(), err)
		root, mid, leaf := jlibhttp.NewActor(), jlibhttp.NewActor(), jlibhttp.NewActor()
		target := map[string]*jlibhttp.Actor{"own": root, "child": mid, "grandchild": leaf}[place]
		root.AddChild(mid)
		mid.AddChild(leaf)
		for _, a := range []*jlibhttp.Actor{root, mid, leaf} {
			a.ValidateSchema = validate
		}
		var set []jlibhttp.HandlerSetter
		switch form {
		case 0:
			withSchema = false
		case 1:
			set = append(set, jlibhttp.WithSchema(sc))
		case 2:
			set = append(set, jlibhttp.WithSchemaJson(JSON(s.Describe(0))))
		case 3:
			set = append(set, jlibhttp.WithSchemaYaml(JSON(s.Describe(1))))
		}
		target.On("m", func(p []interface{}) (interface{}, error) {
			ran++
			got = p
			return "ok", nil
		}, set...)
		key := fmt.Sprint(s.Key(), place, validate, withSchema)
		x.State(key, form)
		for _, p := range ps {
			want := true
			if validate && withSchema {
				want = p.isL && s.Sat(M{"params": p.list})
			}
			for _, kind := range []string{"request", "notify"} {
				ran, got = 0, nil
				raw := `{"jsonrpc":"2.0","method":"m","params":` + p.json
				if kind == "request" {
					raw += `,"id":"q","traceid":"t"`
				}
				msg, err := jlib.ParseBytes([]byte(raw + "}"))
				x.Check(err == nil, "parse", "%s: %v", raw, err)
				res, ferr, pan, pv := feed(x, root, msg)
				if pan {
					x.Fail("panic", "%s with schema %s panicked: %v", raw, s.Key(), pv)
				}
				if (ran == 1) != want || ran > 1 {
					x.Fail("gate:"+kind, "%s with schema %s (validation %v, schema given %v, %s handler): handler ran %d times, want %v", raw, s.Key(), validate, withSchema, place, ran, want)
				}
				if want {
					sent := p.list
					if !p.isL {
						sent = L{p.one}
					}
					if Canon(L(got)) != Canon(append(L{}, sent...)) {
						x.Fail("params", "%s: handler got %s", raw, Canon(L(got)))
					}
					if kind == "request" && text(res) != Canon(M{"jsonrpc": "2.0", "id": "q", "traceid": "t", "result": "ok"}) || ferr != nil {
						x.Fail("result", "%s: answered %s err %v", raw, text(res), ferr)
					}
					x.Outcome("ran")
					continue
				}
				x.Outcome("rejected")
				if kind == "notify" {
					if res != nil || ferr == nil {
						x.Fail("notify-rejected", "%s: answered %s err %v", raw, text(res), ferr)
					}
					continue
				}
				if ferr != nil || res == nil || !res.IsError() || res.MustId() != "q" || res.TraceId() != "t" || res.MustError().Code != -32633 {
					x.Fail("answer", "%s with schema %s: answered %s err %v", raw, s.Key(), text(res), ferr)
				}
				if p.isL {
					paths := s.Viol(M{"params": p.list}, "", nil)
					ok := false
					for q := range paths {
						ok = ok || strings.Contains(res.MustError().Message, q)
					}
					if !ok {
						x.Fail("path", "%s with schema %s: message %q names none of the offending paths %v", raw, s.Key(), res.MustError().Message, sorted(paths))
					}
				}
			}
		}
	}}, {Name: "settings", Run: func(x *X) {
		// validation flags of the actors in the tree may differ: the flag of the
		// actor that owns the handler counts
		flags := x.Choose(8)
		order := x.Choose(2)
		var log []string
		acts := []*jlibhttp.Actor{jlibhttp.NewActor(), jlibhttp.NewActor(), jlibhttp.NewActor()}
		for i, a := range acts {
			i := i
			set := func(a *jlibhttp.Actor) { a.ValidateSchema = flags>>i&1 == 1 }
			if order == 0 {
				set(a)
			}
			a.On(fmt.Sprintf("m%d", i), func(p []interface{}) (interface{}, error) {
				log = append(log, fmt.Sprint(i))
				return nil, nil
			}, jlibhttp.WithSchemaJson(`{"type":"method","params":["string"]}`))
			if order == 1 {
				set(a)
			}
		}
		acts[0].AddChild(acts[1])
		acts[1].AddChild(acts[2])
		for i := range acts {
			for _, bad := range []bool{false, true} {
				log = nil
				var arg interface{} = "s"
				if bad {
					arg = 5
				}
				x.State(flags, order, i, fmt.Sprint(bad))
				x.Step("m%d bad=%v", i, bad)
				res, err, p, _ := feed(x, acts[0], jlib.NewRequestMessage(1, fmt.Sprintf("m%d", i), []interface{}{arg}))
				want := !bad || flags>>i&1 == 0
				x.Check(!p && err == nil && (len(log) == 1) == want && res.IsResult() == want, "flag", "flags %03b, m%d bad=%v: ran %v, answer %s", flags, i, bad, log, text(res))
			}
		}
	}}, {Name: "again", Run: func(x *X) {
		// a method registered, removed and registered again: the schema of the
		// handler that is there now counts, also of another actor in the tree
		kinds := []string{"", `{"type":"method","params":["string"]}`, `{"type":"method","params":["integer"]}`, `{"type":"method","params":[{"type":"any"}],"name":"n"}`}
		takes := []func(v interface{}) bool{func(v interface{}) bool { return true }, func(v interface{}) bool { _, ok := v.(string); return ok }, func(v interface{}) bool { _, ok := v.(string); return !ok }, func(v interface{}) bool { return true }}
		acts := []*jlibhttp.Actor{jlibhttp.NewActor(), jlibhttp.NewActor()}
		acts[0].AddChild(acts[1])
		at := []map[string]int{{}, {}}
		var ran []string
		var trail []string
		for step := 0; step < 4; step++ {
			a, m := x.Choose(2), []string{"m", "n"}[x.Choose(2)]
			if _, there := at[a][m]; there {
				acts[a].Off(m)
				delete(at[a], m)
				trail = append(trail, fmt.Sprintf("off %d %s", a, m))
			} else {
				k := x.Choose(len(kinds))
				var set []jlibhttp.HandlerSetter
				if kinds[k] != "" {
					set = append(set, jlibhttp.WithSchemaJson(kinds[k]))
				}
				tag := fmt.Sprint(a, m)
				acts[a].On(m, func(p []interface{}) (interface{}, error) {
					ran = append(ran, tag)
					return tag, nil
				}, set...)
				at[a][m] = k
				trail = append(trail, fmt.Sprintf("on %d %s %s", a, m, kinds[k]))
			}
			x.State(fmt.Sprint(trail))
			for _, m := range []string{"m", "n"} {
				for _, arg := range []interface{}{"s", 5} {
					ran = nil
					owner := 0
					k, ok := at[0][m]
					if !ok {
						owner = 1
						k, ok = at[1][m]
					}
					var want []string
					if ok && takes[k](arg) {
						want = []string{fmt.Sprint(owner, m)}
					}
					res, err, p, pv := feed(x, acts[0], mustParse(fmt.Sprintf(`{"jsonrpc":"2.0","id":1,"method":%q,"params":[%s]}`, m, JSON(arg))))
					x.Op()
					x.Check(!p && err == nil && res != nil, "panic", "after %v, %s(%v): panic %v, error %v", trail, m, arg, pv, err)
					x.Check(fmt.Sprint(ran) == fmt.Sprint(want) && res.IsResult() == (len(want) == 1), "history", "after %v, %s(%v): ran %v, want %v, answer %s", trail, m, arg, ran, want, text(res))
				}
			}
		}
	}}, {Name: "wide", Run: func(x *X) {
		// many parameters, and many methods with schemas of their own: what is
		// wrong in any one of them counts
		n := Pick(x, []int{4, 8, 9, 16, 17, 33, 70})
		rest := x.Bool()
		sent := n - 1 + x.Choose(3)
		if x.Bool() {
			sent = n + 40
		}
		bad := x.Choose(sent+1) - 1
		str := NewS("string")
		m := NewS("method")
		for i := 0; i < n; i++ {
			m.Kids = append(m.Kids, str)
		}
		if rest {
			m.Add = str
		}
		list := L{}
		for i := 0; i < sent; i++ {
			if i == bad {
				list = append(list, N("5"))
			} else {
				list = append(list, fmt.Sprint("p", i))
			}
		}
		want := m.Sat(M{"params": list})
		root := jlibhttp.NewActor()
		ran := map[string]int{}
		var got []interface{}
		for i := 0; i < 40; i++ {
			name := fmt.Sprint("m", i)
			d := JSON(m.Describe(0))
			if i != 33 {
				d = `{"type":"method","params":["null"]}`
			}
			root.On(name, func(p []interface{}) (interface{}, error) {
				ran[name]++
				got = p
				return "ok", nil
			}, jlibhttp.WithSchemaJson(d))
		}
		raw := `{"jsonrpc":"2.0","method":"m33","params":` + JSON(list)
		req := x.Bool()
		if req {
			raw += `,"id":"q","traceid":"t"`
		}
		x.State(n, rest, sent, bad, req)
		x.Step("%d parameters, %d sent, the one at %d is wrong, request %v", n, sent, bad, req)
		msg, err := jlib.ParseBytes([]byte(raw + "}"))
		x.Check(err == nil, "parse", "%s: %v", raw, err)
		res, ferr, pan, pv := feed(x, root, msg)
		x.Check(!pan, "panic", "%s: panic %v", raw, pv)
		x.Check(len(ran) == ran["m33"] && (ran["m33"] == 1) == want, "gate", "a schema of %d parameters (more of the same: %v), sent %s: handlers ran %v, want %v", n, rest, JSON(list), ran, want)
		if want {
			x.Outcome("ran")
			x.Check(Canon(L(got)) == Canon(list) && ferr == nil && req == (res != nil), "result", "%s: handler got %s, answered %s err %v", raw, Canon(L(got)), text(res), ferr)
			return
		}
		x.Outcome("rejected")
		if !req {
			x.Check(res == nil && ferr != nil, "notify-rejected", "%s: answered %s err %v", raw, text(res), ferr)
			return
		}
		ok := ferr == nil && res != nil && res.IsError() && res.MustId() == "q" && res.TraceId() == "t" && res.MustError().Code == -32633
		x.Check(ok, "answer", "%s: answered %s err %v", raw, text(res), ferr)
		for q := range m.Viol(M{"params": list}, "", nil) {
			if strings.Contains(res.MustError().Message, q) {
				return
			}
		}
		x.Fail("path", "%s: message %q names none of the offending paths", raw, res.MustError().Message)
	}}}
}

func mustParse(raw string) jlib.Message {
	msg, err := jlib.ParseBytes([]byte(raw))
	if err != nil {
		panic(err)
	}
	return msg
}
