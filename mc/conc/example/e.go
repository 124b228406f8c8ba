//go:build go1.23

package main

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"

	"github.com/superisaac/jlib/zzverif/fifo"
	"github.com/superisaac/jlib/zzverif/vrt"
)

// op is an operation of a client on the service.
type op struct {
	method string
	params []interface{}
	from   int // position of its start among all starts and ends
	to     int // of its end, 0 while it runs
	answer string
}

func (o *op) String() string { return fmt.Sprintf("%s%s=%s", o.method, js(o.params), o.answer) }

// eWorld is the service with clients over HTTP/1 and, at most, one subscriber.
type eWorld struct {
	o   vrt.Obj
	n   int
	h   http.Handler
	ops []*op
	sub *vWorld
	g   group
}

func newE() *eWorld {
	w := &eWorld{}
	os.Args = []string{"fifo"}
	vrt.ServeHook = func(ctx context.Context, bind string, h http.Handler) error {
		w.h = h
		return nil
	}
	fifo.Main()
	return w
}

func (w *eWorld) do(method string, params ...interface{}) *op {
	o := &op{method: method, params: params}
	if params == nil {
		o.params = []interface{}{}
	}
	w.ops = append(w.ops, o)
	vrt.Step(&w.o, "client starts "+method)
	w.n++
	o.from = w.n
	r := httptest.NewRequest("POST", "http://server/", strings.NewReader(rq(1, "fifo_"+method, o.params...)))
	rec := httptest.NewRecorder()
	w.h.ServeHTTP(rec, r)
	if vrt.Unwinding() {
		return o
	}
	vrt.Step(&w.o, "client has the answer to "+method)
	w.n++
	o.to = w.n
	b := brief(strings.TrimSpace(rec.Body.String()))
	o.answer = strings.TrimPrefix(b, "1")
	if rec.Code != 200 || !strings.HasPrefix(b, "1") {
		fail("E01", "no-answer", "the client got status %d with %q", rec.Code, rec.Body.String())
	}
	return o
}

// apply gives the state and answer after an operation on a plain list.
func apply(l []interface{}, o *op) ([]interface{}, string) {
	switch o.method {
	case "push":
		if len(o.params) == 0 {
			return l, "!-400"
		}
		return append(append([]interface{}{}, l...), o.params...), `="ok"`
	case "pop":
		if len(l) == 0 {
			return l, "!-400"
		}
		return l[:len(l)-1], `="ok"`
	case "list":
		return l, "=" + js(l)
	case "get":
		i := o.params[0].(int)
		if i < 0 || i >= len(l) {
			return l, "!-400"
		}
		return l, "=" + js(l[i])
	}
	return l, "?"
}

// linear says whether the operations have an order that agrees with their times
// and gives their answers.
func linear(ops []*op, state []interface{}) bool {
	if len(ops) == 0 {
		return true
	}
	for i, o := range ops {
		first := true
		for _, p := range ops {
			if p != o && p.to != 0 && p.to < o.from {
				first = false
			}
		}
		if !first {
			continue
		}
		next, a := apply(state, o)
		if o.to != 0 && a != o.answer {
			continue
		}
		rest := append(append([]*op{}, ops[:i]...), ops[i+1:]...)
		if linear(rest, next) {
			return true
		}
	}
	return false
}

func (w *eWorld) check() {
	if linear(w.ops, []interface{}{}) {
		return
	}
	var l []string
	for _, o := range w.ops {
		l = append(l, fmt.Sprintf("%s@%d-%d", o, o.from, o.to))
	}
	fail("E01", "not-linearizable", "no order of these operations gives their answers: %s", strings.Join(l, ", "))
}

func (w *eWorld) subscribe(kind string) *vWorld {
	s := newV(kind, true)
	s.told = 1
	s.handler = w.h
	w.sub = s
	s.serve()
	if kind == "ws" {
		vrt.Await(&s.c.o, "peer waits for the handshake", func() bool { return len(s.c.out) > 0 || s.returned })
	}
	return s
}

// pushed is what the subscriber was sent.
func (w *eWorld) pushed() []string {
	l := []string{}
	for _, b := range w.sub.briefs() {
		if s, ok := strings.CutPrefix(b, ">fifo_subscription"); ok {
			l = append(l, s)
		}
	}
	return l
}

func eScenario(name string, variants, quick int, script func(w *eWorld, r *radix), after func(w *eWorld, r *radix)) {
	add(&Scenario{Name: name, Props: "E01", Variants: variants, Quick: quick, Run: func(v int) (func(), func(*vrt.Sched)) {
		var w *eWorld
		done := false
		body := func() {
			w = newE()
			script(w, &radix{v})
			w.g.wait()
			if w.sub != nil {
				w.sub.end("eof")
				w.sub.g.wait()
			}
			done = true
		}
		return body, func(s *vrt.Sched) {
			if len(s.Left()) > 0 || !done {
				fail("E01", "stuck", "threads are left: %s", js(s.Left()))
			}
			w.check()
			if after != nil && len(s.Fails) == 0 {
				after(w, &radix{v})
			}
		}
	}})
}

func init() {
	run := func(w *eWorld, who string, s string) {
		w.g.run(who, func() {
			for i, f := range strings.Fields(s) {
				switch {
				case f == "push2":
					w.do("push", who+fmt.Sprint(i), json.Number("2"))
				case f == "push0":
					w.do("push")
				case f == "push":
					w.do("push", who+fmt.Sprint(i))
				case strings.HasPrefix(f, "get"):
					w.do("get", int(f[3]-'0'))
				default:
					w.do(f)
				}
			}
		})
	}
	starts := []string{"", "push", "push2"}
	scripts := []string{"push", "pop", "get0", "get1", "push2", "push0", "push pop", "pop push", "get0 get0", "pop pop"}
	pre := func(w *eWorld, s string) {
		run(w, "first", s)
		w.g.wait()
	}

	// clients that change and look
	eScenario("e-ops", prod(3, 10, 10), 0, func(w *eWorld, r *radix) {
		pre(w, starts[r.next(3)])
		run(w, "a", scripts[r.next(10)])
		run(w, "b", scripts[r.next(10)])
	}, nil)
	eScenario("e-three", prod(3, 6, 6, 6), 2, func(w *eWorld, r *radix) {
		pre(w, starts[r.next(3)])
		run(w, "a", scripts[r.next(6)])
		run(w, "b", scripts[r.next(6)])
		run(w, "c", scripts[r.next(6)])
	}, nil)
	// lists while others append; and one after the other
	eScenario("e-list", prod(3, 4, 4), 0, func(w *eWorld, r *radix) {
		pre(w, starts[r.next(3)])
		run(w, "a", []string{"list", "list list", "push list", "pop list"}[r.next(4)])
		run(w, "b", []string{"push", "push2", "pop", "push list"}[r.next(4)])
	}, nil)
	// a list over a session while the service removes what is listed and
	// appends: its answer is encoded after the handler returned
	kinds := []string{"ws", "h2"}
	eScenario("e-list-torn", prod(2, 2), 3, func(w *eWorld, r *radix) {
		s := w.subscribe(kinds[r.next(2)])
		pre(w, "push2")
		w.n++
		o := &op{method: "list", params: []interface{}{}, from: w.n}
		w.ops = append(w.ops, o)
		s.tell(rq(1, "fifo_list"))
		run(w, "b", []string{"pop pop push", "pop pop push push"}[r.next(2)])
		s.await(1)
		vrt.Step(&w.o, "client has the answer to list")
		w.n++
		o.to, o.answer = w.n, strings.TrimPrefix(s.briefs()[0], "1")
	}, nil)

	// one client for a long time, with a subscriber
	large(func() {
		eScenario("e-many", prod(2, 3), 0, func(w *eWorld, r *radix) {
			s := w.subscribe(kinds[r.next(2)])
			s.tell(rq(1, "fifo_subscribe"))
			s.await(1)
			seed := r.next(3)
			n := 0
			for i := 0; i < 90; i++ {
				switch k := (i*7 + seed) % 10; {
				case k < 5:
					w.do("push", fmt.Sprint("x", i), i)
					n += 2
				case k == 5:
					w.do("pop")
				case k == 6:
					w.do("list")
				default:
					w.do("get", i%70)
				}
			}
			s.await(1 + n)
			var want []string
			for _, o := range w.ops {
				if o.method == "push" {
					for _, p := range o.params {
						want = append(want, js([]interface{}{p}))
					}
				}
			}
			if got := w.pushed(); js(got) != js(want) {
				fail("E01", "pushes", "the subscriber got %s, expected %s", js(got), js(want))
			}
		}, nil)
	})

	// a subscriber that is there before the pushes
	eScenario("e-subscriber", prod(2, 3, 3, 2), 3, func(w *eWorld, r *radix) {
		s := w.subscribe(kinds[r.next(2)])
		s.tell(rq(1, "fifo_subscribe"))
		s.await(1)
		a, b := []string{"push", "push2", "push push"}[r.next(3)], []string{"push", "pop", "push2"}[r.next(3)]
		run(w, "a", a)
		if r.next(2) == 1 {
			run(w, "b", b)
		}
		w.g.wait()
		n := 0
		for _, o := range w.ops {
			if o.method == "push" {
				n += len(o.params)
			}
		}
		s.await(1 + n)
	}, func(w *eWorld, r *radix) {
		got := w.pushed()
		per := map[string][]string{}
		n := 0
		for _, o := range w.ops {
			if o.method != "push" {
				continue
			}
			for _, p := range o.params {
				n++
				if s, ok := p.(string); ok {
					per[s[:1]] = append(per[s[:1]], js([]string{s}))
				}
			}
		}
		for who, want := range per {
			var l []string
			for _, g := range got {
				if strings.HasPrefix(g, `["`+who) {
					l = append(l, g)
				}
			}
			if js(l) != js(want) {
				fail("E01", "pushes", "of %s pushed by %s the subscriber got %s", js(want), who, js(l))
			}
		}
		if len(got) != n {
			fail("E01", "pushes", "the subscriber got %s, %d items were pushed", js(got), n)
		}
	})

	// subscribing, and leaving, while items are pushed
	eScenario("e-subscribe-while-pushing", prod(2), 3, func(w *eWorld, r *radix) {
		s := w.subscribe(kinds[r.next(2)])
		run(w, "a", "push push")
		s.tell(rq(1, "fifo_subscribe"))
		s.await(1)
		w.g.wait()
		w.do("push", "last")
		vrt.Await(&s.c.o, "peer waits for the last push", func() bool {
			l := w.pushed()
			return s.returned || len(l) > 0 && l[len(l)-1] == `["last"]`
		})
	}, func(w *eWorld, r *radix) {
		if g := w.pushed(); len(g) == 0 || g[len(g)-1] != `["last"]` || js(g) != js(lastOf([]string{`["a0"]`, `["a1"]`, `["last"]`}, len(g))) {
			fail("E01", "pushes", "the subscriber got %s", js(g))
		}
	})
	eScenario("e-leave-while-pushing", prod(2, 3), 3, func(w *eWorld, r *radix) {
		s := w.subscribe(kinds[r.next(2)])
		s.tell(rq(1, "fifo_subscribe"))
		s.await(1)
		run(w, "a", "push push")
		s.end([]string{"eof", "reset", "malformed"}[r.next(3)])
		w.g.wait()
		s.g.wait()
		w.do("push", "last")
		w.do("list")
	}, func(w *eWorld, r *radix) {
		// once the session ends a push may be dropped
		if g := js(w.pushed()); g != "[]" && g != js([]string{`["a0"]`}) && g != js([]string{`["a1"]`}) && g != js([]string{`["a0"]`, `["a1"]`}) {
			fail("E01", "pushes", "the subscriber got %s", g)
		}
	})
}

func lastOf(l []string, n int) []string { return l[max(0, len(l)-n):] }
