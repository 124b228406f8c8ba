//go:build go1.22

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"github.com/superisaac/jlib/schema"
	. "github.com/superisaac/jlib/zzverif/kit"
)

// reference model of an actor
type mActor struct {
	handlers map[string]string // method -> tag; tags starting with "S" have a schema
	missing  string
	children []*mActor
}

func (m *mActor) has(method string) bool {
	if _, ok := m.handlers[method]; ok {
		return true
	}
	for _, c := range m.children {
		if c.has(method) {
			return true
		}
	}
	return false
}

// owner returns the actor that answers for a method, and the handler's tag
func (m *mActor) resolve(method string) (tag string, found bool) {
	if t, ok := m.handlers[method]; ok {
		return t, true
	}
	for _, c := range m.children {
		if c.has(method) {
			return c.resolve(method)
		}
	}
	return m.missing, false
}

func (m *mActor) methods(out map[string]bool) {
	for k := range m.handlers {
		out[k] = true
	}
	for _, c := range m.children {
		c.methods(out)
	}
}

func a01() []Family {
	methods := []string{"m", "n"}
	probe := []string{"m", "n", "zz"}
	run := func(depth int, onReq, every bool) func(x *X) {
		return func(x *X) {
			real := []*jlibhttp.Actor{jlibhttp.NewActor(), jlibhttp.NewActor(), jlibhttp.NewActor()}
			model := []*mActor{{handlers: map[string]string{}}, {handlers: map[string]string{}}, {handlers: map[string]string{}}}
			schemas := map[string]jlibschema.Schema{}
			var ran []string
			kinds := []string{"root", "child", "grand"}
			edges := [][2]int{{0, 1}, {0, 2}, {1, 2}}
			type op struct {
				kind string
				a, b int
				m    string
			}
			var ops []op
			for a := range real {
				for _, m := range methods {
					ops = append(ops, op{"on", a, 0, m}, op{"off", a, 0, m})
				}
				ops = append(ops, op{"onschema", a, 0, "m"}, op{"missing", a, 0, ""})
			}
			for _, e := range edges {
				ops = append(ops, op{"child", e[0], e[1], ""})
			}
			var hist []string
			check := func(x *X) {
				for i := range real {
					want := map[string]bool{}
					model[i].methods(want)
					got := map[string]bool{}
					for _, n := range real[i].MethodList() {
						got[n] = true
					}
					if fmt.Sprint(sorted(got)) != fmt.Sprint(sorted(want)) {
						x.Fail("method-list", "after %s: method list of %s is %v, want %v", strings.Join(hist, "; "), kinds[i], sorted(got), sorted(want))
					}
					for _, n := range probe {
						if real[i].Has(n) != model[i].has(n) {
							x.Fail("has", "after %s: %s.Has(%s)=%v", strings.Join(hist, "; "), kinds[i], n, real[i].Has(n))
						}
						tag, found := model[i].resolve(n)
						s, ok := real[i].GetSchema(n)
						wantS := found && strings.HasPrefix(tag, "S")
						if ok != wantS || wantS && s != schemas[tag] {
							x.Fail("get-schema", "after %s: %s.GetSchema(%s) found=%v, want %v (handler %s)", strings.Join(hist, "; "), kinds[i], n, ok, wantS, tag)
						}
						for _, kind := range []string{"request", "notify"} {
							ran = ran[:0]
							var msg jlib.Message = jlib.NewNotifyMessage(n, []interface{}{})
							if kind == "request" {
								msg = jlib.NewRequestMessage("id1", n, []interface{}{})
							}
							res, err, p, pv := feed(x, real[i], msg)
							want := ""
							if tag != "" {
								want = tag
							}
							if p || err != nil || strings.Join(ran, ",") != want {
								x.Fail("dispatch:"+kind, "after %s: %s %s fed to %s ran [%s], want [%s] (panic %v, err %v)", strings.Join(hist, "; "), kind, n, kinds[i], strings.Join(ran, ","), want, pv, err)
							}
							wantMsg := ""
							if kind == "request" {
								if tag != "" {
									wantMsg = Canon(M{"jsonrpc": "2.0", "id": "id1", "result": tag})
								} else {
									wantMsg = Canon(M{"jsonrpc": "2.0", "id": "id1", "error": M{"code": N("-32601"), "message": "method not found"}})
								}
							}
							if text(res) != wantMsg {
								x.Fail("answer:"+kind, "after %s: %s %s fed to %s answered %s, want %s", strings.Join(hist, "; "), kind, n, kinds[i], text(res), wantMsg)
							}
						}
					}
					req := jlib.NewRequestMessage("id9", "m", nil)
					for _, msg := range []jlib.Message{jlib.NewResultMessage(req, 1), jlib.ErrInternalError.ToMessage(req)} {
						ran = ran[:0]
						res, err, p, pv := feed(x, real[i], msg)
						if p || err != nil || res != nil || strings.Join(ran, ",") != model[i].missing {
							x.Fail("response", "after %s: a response fed to %s ran [%s], want [%s] (res %v err %v panic %v)", strings.Join(hist, "; "), kinds[i], strings.Join(ran, ","), model[i].missing, text(res), err, pv)
						}
					}
				}
			}
			for step := 0; step < depth; step++ {
				o := ops[x.Choose(len(ops))]
				tag := fmt.Sprintf("H%d%s%d", o.a, o.m, step)
				switch o.kind {
				case "on", "onschema":
					var set []jlibhttp.HandlerSetter
					if o.kind == "onschema" {
						tag = "S" + tag
						sc, err := jlibschema.NewSchemaBuilder().Build(M{"type": "method", "params": L{}, "description": tag})
						if err != nil {
							panic(err)
						}
						schemas[tag] = sc
						set = append(set, jlibhttp.WithSchema(sc))
					}
					_, dup := model[o.a].handlers[o.m]
					var refused bool
					if onReq {
						err := real[o.a].OnRequest(o.m, func(r *jlibhttp.RPCRequest, ps []interface{}) (interface{}, error) {
							ran = append(ran, tag)
							return tag, nil
						}, set...)
						refused = err != nil
					} else {
						refused, _ = Try(func() {
							real[o.a].On(o.m, func(ps []interface{}) (interface{}, error) {
								ran = append(ran, tag)
								return tag, nil
							}, set...)
						})
					}
					x.Check(refused == dup, "duplicate", "after %s: registering %s again on %s refused=%v", strings.Join(hist, "; "), o.m, kinds[o.a], refused)
					if !dup {
						model[o.a].handlers[o.m] = tag
					}
				case "off":
					real[o.a].Off(o.m)
					delete(model[o.a].handlers, o.m)
				case "missing":
					tag = fmt.Sprintf("X%d.%d", o.a, step)
					err := real[o.a].OnMissing(func(r *jlibhttp.RPCRequest) (interface{}, error) {
						ran = append(ran, tag)
						return tag, nil
					})
					dup := model[o.a].missing != ""
					x.Check((err != nil) == dup, "duplicate-missing", "after %s: second missing handler on %s err=%v", strings.Join(hist, "; "), kinds[o.a], err)
					if !dup {
						model[o.a].missing = tag
					}
				case "child":
					real[o.a].AddChild(real[o.b])
					model[o.a].children = append(model[o.a].children, model[o.b])
				}
				hist = append(hist, fmt.Sprintf("%s %s %s", o.kind, kinds[o.a], map[bool]string{true: kinds[o.b], false: o.m}[o.kind == "child"]))
				x.Step("%s", hist[len(hist)-1])
				x.State(fmt.Sprint(model[0], model[1], model[2]), dump(model))
				if every || step == depth-1 {
					check(x)
				}
			}
		}
	}
	return []Family{
		{Name: "depth3-checked", Run: run(3, false, true)},
		{Name: "depth4", Run: run(4, true, false)},
		{Name: "depth4-checked", Run: run(4, true, true)},
		{Name: "trees", Run: func(x *X) {
			// many children or a long line of descent, many methods, odd names
			k := Pick(x, []int{1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 65, 120})
			shape := Pick(x, []string{"flat", "line", "binary"})
			per := Pick(x, []int{1, 3, 20})
			form := Pick(x, []string{"m%d", "rpc.%d", "M%d m", "é/%d\n", strings.Repeat("long", 80) + "%d", "%d"})
			missing := x.Choose(3) // nowhere, at the root, everywhere
			if !x.Thorough && (per == 1 || per == 20 && k > 17 || per == 3 && k > 65) {
				x.Skip()
			}
			drop := x.Choose(3) // nothing, every third method, and register it again
			late := x.Bool()    // join the tree before the methods are registered
			real, model := make([]*jlibhttp.Actor, k), make([]*mActor, k)
			var ran []string
			x.Step("%s tree of %d actors with %d methods each, named %q; missing handlers %d, dropped %d, joined first %v", shape, k, per, form, missing, drop, late)
			x.State(shape, k, per, form, missing, drop, late)
			join := func() {
				for i := 1; i < k; i++ {
					parent := map[string]int{"flat": 0, "line": i - 1, "binary": (i - 1) / 2}[shape]
					real[parent].AddChild(real[i])
					model[parent].children = append(model[parent].children, model[i])
				}
			}
			for i := range real {
				real[i], model[i] = jlibhttp.NewActor(), &mActor{handlers: map[string]string{}}
			}
			if late {
				join()
			}
			var names []string
			for i := range real {
				on := func(name, tag string) {
					real[i].On(name, func(ps []interface{}) (interface{}, error) {
						ran = append(ran, tag)
						return tag, nil
					})
					model[i].handlers[name] = tag
				}
				for j := 0; j < per; j++ {
					name := fmt.Sprintf(form, i*100+j)
					if j == 1 {
						name = fmt.Sprintf(form, 7777) // everybody's
					}
					names = append(names, name)
					on(name, fmt.Sprintf("%d.%d", i, j))
					if drop > 0 && (i+j)%3 == 0 {
						real[i].Off(name)
						delete(model[i].handlers, name)
						if drop == 2 {
							on(name, fmt.Sprintf("again %d.%d", i, j))
						}
					}
				}
				if missing == 2 || missing == 1 && i == 0 {
					tag := fmt.Sprint("missing", i)
					real[i].OnMissing(func(r *jlibhttp.RPCRequest) (interface{}, error) {
						ran = append(ran, tag)
						return tag, nil
					})
					model[i].missing = tag
				}
			}
			if !late {
				join()
			}
			names = append(names, "", "none", strings.ToUpper(names[0]), names[0]+" ", fmt.Sprintf(form, 7777))
			for _, at := range []int{0, k / 2, k - 1} {
				want, got := map[string]bool{}, map[string]bool{}
				model[at].methods(want)
				for _, n := range real[at].MethodList() {
					got[n] = true
				}
				x.Check(fmt.Sprint(sorted(got)) == fmt.Sprint(sorted(want)), "tree-list", "method list of actor %d of %d (%s) is %.500v, want %.500v", at, k, shape, sorted(got), sorted(want))
				step := 1
				if len(names) > 300 && !x.Thorough {
					step = 7
				}
				for i := 0; i < len(names); i += step {
					n := names[i]
					x.Check(real[at].Has(n) == model[at].has(n), "tree-has", "actor %d of %d (%s).Has(%.100q) = %v", at, k, shape, n, real[at].Has(n))
					if n == "" {
						continue
					}
					tag, _ := model[at].resolve(n)
					ran = ran[:0]
					res, err, p, pv := feed(x, real[at], jlib.NewRequestMessage(3, n, []interface{}{}))
					x.Check(!p && err == nil && strings.Join(ran, ",") == tag, "tree-dispatch", "%.100q fed to actor %d of %d (%s) ran %v, want %q (panic %v, error %v)", n, at, k, shape, ran, tag, pv, err)
					if tag != "" {
						x.Check(text(res) == Canon(M{"jsonrpc": "2.0", "id": 3, "result": tag}), "tree-answer", "%.100q fed to actor %d of %d (%s) answered %.200s", n, at, k, shape, text(res))
					} else {
						x.Check(res != nil && res.IsError() && res.MustError().Code == -32601, "tree-answer", "%.100q fed to actor %d of %d (%s) answered %.200s", n, at, k, shape, text(res))
					}
				}
			}
			x.Outcome(shape)
		}},
		{Name: "depth5", Thorough: true, Run: run(5, true, false)},
	}
}

func dump(ms []*mActor) string {
	var b strings.Builder
	for _, m := range ms {
		fmt.Fprint(&b, m.handlers, m.missing, len(m.children), ";")
	}
	return b.String()
}

func sorted(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
