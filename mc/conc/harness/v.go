//go:build go1.23

package main

import (
	"fmt"
	"strings"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/zzverif/vrt"
)

func vScenario(name, props string, variants, quick int, mk func(r *radix) *vWorld, script func(w *vWorld, r *radix), after func(w *vWorld, r *radix)) {
	add(&Scenario{Name: name, Props: props, Variants: variants, Quick: quick, Run: func(v int) (func(), func(*vrt.Sched)) {
		var w *vWorld
		body := func() {
			r := &radix{v}
			w = mk(r)
			script(w, r)
			w.g.wait()
			w.phase = "end"
		}
		return body, func(s *vrt.Sched) {
			w.check(s)
			if len(s.Fails) == 0 && after != nil && w.phase == "end" {
				r := &radix{v}
				mk(r)
				after(w, r)
			}
		}
	}})
}

var kinds2 = []string{"ws", "h2"}

type exchange struct {
	send []string
	want []string // answers and pushes, in the order of the messages
}

var exchanges = []exchange{
	{[]string{rq(1, "step", "a"), rq(2, "step", "b"), nt("step", "c")}, []string{`1=["a"]`, `2=["b"]`}},
	{[]string{rq(1, "push", "a"), rq("1", "push", "b")}, []string{`>pushed["a",0]`, `>pushed["a",1]`, `1=["a"]`, `>pushed["b",0]`, `>pushed["b",1]`, `"1"=["b"]`}},
	{[]string{rq(7, "fail"), rq(8, "step", "x"), rq(9, "oops")}, []string{`7!7`, `8=["x"]`, `9!-32603`}},
	{[]string{rq(1, "crash"), rq(2, "nothing"), rq(3, "grand", 5)}, []string{`1!-32603`, `2!-32601`, `3=[5]`}},
	{[]string{rq(1, "unencodable"), rq(2, "child", 1)}, []string{`1!-32603`, `2=[1]`}},
	{[]string{rq(1, "step", "a"), rq(1, "step", "b")}, []string{`1=["a"]`, `1=["b"]`}},
	{[]string{`{"jsonrpc":"2.0","id":1,"method":"step","params":["a"],"traceid":"t1"}`, `{"jsonrpc":"2.0","id":2,"method":"fail","params":[],"traceid":"t2"}`, `{"jsonrpc":"2.0","id":3,"method":"nothing","params":[],"traceid":"t3"}`}, []string{`1@t1=["a"]`, `2@t2!7`, `3@t3!-32601`}},
	{[]string{`{"jsonrpc":"2.0","id":1,"result":5}`, rq(2, "step"), nt("nothing")}, []string{`2=[]`}},
	{[]string{nt("step", "a"), rq(1, "step", "b"), nt("push", "a"), rq(2, "step", "c")}, []string{`1=["b"]`, `>pushed["a",0]`, `>pushed["a",1]`, `2=["c"]`}},
	{[]string{nt("fine", "a"), rq(1, "step", "b"), rq(2, "nothing"), rq(3, "step", "c")}, []string{`1=["b"]`, `2!-32601`, `3=["c"]`}},
}

var padding = []int{0, 300, 9000, 70000}

func init() {
	mkV := func(r *radix) *vWorld {
		k := kinds2[r.next(2)]
		return newV(k, r.next(2) == 0)
	}

	// every request is answered once, whatever the order handlers finish in
	vScenario("v-answers", "V01 V03", prod(2, 2, len(exchanges), 2), 0, mkV, func(w *vWorld, r *radix) {
		x := exchanges[r.next(len(exchanges))]
		w.serve()
		if r.next(2) == 0 {
			w.tell(x.send...)
		} else {
			for _, s := range x.send {
				w.tell(s)
			}
		}
		w.await(len(x.want))
		vrt.Sleep(sec)
		w.end("goodbye")
	}, func(w *vWorld, r *radix) {
		x := exchanges[r.next(len(exchanges))]
		got := w.briefs()
		if js(sorted(got)) != js(sorted(x.want)) {
			fail("V01", "answers", "the peer sent %s and got %s, expected %s", js(x.send), js(got), js(x.want))
		}
		for _, p := range []string{`["a"`, `["b"`} {
			var want []string
			for _, m := range x.want {
				if strings.Contains(m, "pushed"+p) {
					want = append(want, m)
				}
			}
			if !subseq(got, want) {
				fail("V03", "push-order", "pushes of one handler arrived as %s", js(got))
			}
		}
	})

	// with goroutine spawning off messages are handled one at a time in order
	vScenario("v-in-turn", "V01", prod(2, len(exchanges), len(padding)), 0, func(r *radix) *vWorld { return newV(kinds2[r.next(2)], false) }, func(w *vWorld, r *radix) {
		x := exchanges[r.next(len(exchanges))]
		pad := padding[r.next(len(padding))]
		w.serve()
		send := append([]string{}, x.send...)
		// surplus room in the first message, which changes nothing but its length
		send[0] = send[0][:1] + strings.Repeat(" ", pad) + send[0][1:]
		w.tell(send...)
		w.await(len(x.want))
		vrt.Sleep(sec)
		w.end("eof")
	}, func(w *vWorld, r *radix) {
		x := exchanges[r.next(len(exchanges))]
		if got := w.briefs(); js(got) != js(x.want) {
			fail("V01", "answers-in-turn", "the peer sent %s and got %s, expected %s in this order", js(x.send), js(got), js(x.want))
		}
		if w.overlap {
			fail("V01", "handlers-overlap", "two handlers ran at the same time with goroutine spawning off")
		}
		var want []string
		for _, s := range x.send {
			for _, m := range []string{"step", "fine", "push", "fail", "oops", "crash", "grand", "unencodable", "child"} {
				if strings.Contains(s, `"`+m+`"`) {
					want = append(want, m)
				}
			}
		}
		var got []string
		for _, o := range w.order {
			got = append(got, o[:strings.Index(o, "[")])
		}
		if js(got) != js(want) {
			fail("V01", "handling-order", "messages %s were handled in the order %s", js(x.send), js(got))
		}
	})

	// how the bytes of messages arrive, and what arrives between them
	vScenario("v-frames", "V01", prod(2, 2, 5), 0, mkV, func(w *vWorld, r *radix) {
		mode := r.next(5)
		w.serve()
		a, b, c := rq(1, "step", "a"), rq(2, "push", "p"), rq(3, "step", "c")
		frames := func(texts ...string) (out []byte) {
			for _, t := range texts {
				if w.kind == "ws" {
					out = append(out, encodeFrame(opText, []byte(t), true)...)
				} else {
					out = append(out, t+"\n"...)
				}
			}
			return
		}
		between := func(op int, data string) {
			if w.kind == "ws" {
				w.c.feed(encodeFrame(op, []byte(data), true))
			}
		}
		switch mode {
		case 0: // a message of another kind
			w.tell(a)
			between(opBinary, rq(9, "step", "no"))
			w.tell(b, c)
		case 1: // signs of life
			between(opPing, "?")
			w.tell(a)
			between(10, "!")
			w.tell(b)
			between(opPing, "")
			w.tell(c)
		case 2: // a message in fragments
			w.tell(a)
			if w.kind == "ws" {
				f := encodeFrame(opText, []byte(b[:9]), true)
				f[0] &^= 0x80
				g := encodeFrame(0, []byte(b[9:20]), true)
				g[0] &^= 0x80
				w.c.feed(f)
				vrt.Sleep(sec)
				w.c.feed(g)
				w.c.feed(encodeFrame(opPing, []byte("?"), true))
				w.c.feed(encodeFrame(0, []byte(b[20:]), true))
			} else {
				w.c.feed([]byte(b[:9]))
				w.c.feed([]byte(b[9:] + "\n"))
			}
			w.tell(c)
		case 3: // pieces that know nothing of messages
			for all := frames(a, b, c); len(all) > 0; {
				n := min(len(all), 13)
				w.c.feed(all[:n])
				all = all[n:]
			}
		case 4: // the rest of a message comes much later
			all := frames(a, b, c)
			n := len(frames(a)) + 11
			w.c.feed(all[:n])
			w.await(1)
			vrt.Sleep(3 * 3600 * sec)
			w.c.feed(all[n:])
		}
		w.await(5)
		vrt.Sleep(sec)
		if w.returned {
			fail("V01", "session-ended", "the session ended by itself, the peer got %s", js(w.briefs()))
		}
		w.end("goodbye")
	}, func(w *vWorld, r *radix) {
		want := []string{`1=["a"]`, `>pushed["p",0]`, `>pushed["p",1]`, `2=["p"]`, `3=["c"]`}
		if got := w.briefs(); js(sorted(got)) != js(sorted(want)) {
			fail("V01", "answers", "the peer got %s, expected %s", js(got), js(want))
		}
	})

	// a slow handler does not hold up the others when goroutines are spawned
	vScenario("v-slow", "V01", prod(2, 2), 0, func(r *radix) *vWorld { return newV(kinds2[r.next(2)], true) }, func(w *vWorld, r *radix) {
		x := r.next(2)
		w.serve()
		w.tell(rq(1, "slow", "a"), rq(2, "echo", "b"))
		w.await(1)
		if x == 1 {
			w.tell(rq(3, "push", "c"))
			w.await(4)
		}
		w.release.set()
		w.await(2 + 3*x)
		w.end("eof")
	}, func(w *vWorld, r *radix) {
		want := []string{`2=["b"]`, `1=["a"]`}
		if r.next(2) == 1 {
			want = []string{`2=["b"]`, `>pushed["c",0]`, `>pushed["c",1]`, `3=["c"]`, `1=["a"]`}
		}
		if got := w.briefs(); js(got) != js(want) {
			fail("V01", "answers", "the peer got %s, expected %s", js(got), js(want))
		}
	})

	// the session ends in any way while handlers run and push
	busy := []string{"idle", "echo", "slow", "push", "pusher"}
	vScenario("v-end", "V02 V03 V01", prod(2, 2, len(endings), len(busy)), 0, mkV, func(w *vWorld, r *radix) {
		how, b := endings[r.next(len(endings))], busy[r.next(len(busy))]
		w.serve()
		early := how != "write"
		switch b {
		case "echo":
			w.tell(rq(1, "echo", "a"), rq(2, "step", "b"))
		case "slow":
			w.tell(rq(1, "slow", "a"))
		case "push":
			w.tell(rq(1, "push", "a"))
		case "pusher":
			w.tell(rq(1, "echo", "a"))
			w.await(1)
			w.g.run("pusher", func() {
				for i := 0; i < 3; i++ {
					w.session.Send(jlib.NewNotifyMessage("pushed", []interface{}{"p", i}))
				}
			})
		}
		if !early {
			w.end(how)
		} else {
			w.g.run("end", func() { w.end(how) })
		}
		if b == "slow" {
			if how == "context" || how == "server" {
				// the end does not wait for handlers
				w.ret.wait()
			}
			w.release.set()
		}
		w.ret.wait()
	}, func(w *vWorld, r *radix) {
		seen := map[string]int{}
		for _, g := range w.briefs() {
			if seen[g]++; seen[g] > 1 {
				fail("V01 V03", "sent-twice", "the peer got %s twice", g)
			}
		}
		last := -1
		for _, g := range w.briefs() {
			var i int
			if n, _ := fmt.Sscanf(g, `>pushed["p",%d]`, &i); n == 1 {
				// once the session has ended a push may be dropped
				if i <= last {
					fail("V03", "push-order", "pushes arrived as %s", js(w.briefs()))
				}
				last = i
			}
		}
	})

	// two ends of the session at once
	pairs := [][2]string{{"eof", "context"}, {"malformed", "handler error"}, {"context", "server"}, {"write", "eof"}, {"malformed", "server"}, {"handler error", "write"}, {"handler error", "handler error"}, {"reset", "server"}}
	vScenario("v-double-end", "V02", prod(2, 2, len(pairs)), 0, mkV, func(w *vWorld, r *radix) {
		p := pairs[r.next(len(pairs))]
		w.serve()
		w.tell(rq(1, "step", "a"))
		w.g.run("end-a", func() { w.end(p[0]) })
		w.g.run("end-b", func() { w.end(p[1]) })
		w.ret.wait()
		w.end("eof")
	}, nil)

	// every actor with a close callback is told, whichever of them have one
	vScenario("v-callbacks", "V02", prod(2, 2, 15, 3), 0, mkV, func(w *vWorld, r *radix) {
		w.withClose(r.next(15) + 1)
		how := []string{"eof", "context", "malformed"}[r.next(3)]
		w.serve()
		w.tell(rq(1, "grand", "a"))
		w.await(1)
		w.end(how)
		w.ret.wait()
		w.end("eof")
	}, nil)

	// many messages fail at once
	vScenario("v-many-failures", "V02", prod(2, 2, 2), 0, mkV, func(w *vWorld, r *radix) {
		w.serve()
		if r.next(2) == 0 {
			w.tell(nt("oops"), nt("oops"), nt("oops"))
		} else {
			w.tell(nt("oops"), `{"x":`, rq(1, "push", "a"))
		}
		w.ret.wait()
		w.end("eof")
	}, nil)

	// pushes from two goroutines outside and one handler
	vScenario("v-pushers", "V03 V01", prod(2, 2), 0, mkV, func(w *vWorld, r *radix) {
		w.serve()
		w.tell(rq(1, "echo", "a"))
		w.await(1)
		for _, n := range []string{"p", "q"} {
			w.g.run("pusher-"+n, func() {
				for i := 0; i < 2; i++ {
					w.session.Send(jlib.NewNotifyMessage("pushed", []interface{}{n, i}))
				}
			})
		}
		w.tell(rq(2, "push", "h"))
		w.await(8)
		w.end("goodbye")
	}, func(w *vWorld, r *radix) {
		got := w.briefs()
		want := []string{`1=["a"]`, `2=["h"]`}
		for _, n := range []string{"p", "q", "h"} {
			l := []string{fmt.Sprintf(`>pushed["%s",0]`, n), fmt.Sprintf(`>pushed["%s",1]`, n)}
			want = append(want, l...)
			if n == "h" {
				l = append(l, `2=["h"]`)
			}
			if !subseq(got, l) {
				fail("V03", "push-order", "pushes arrived as %s", js(got))
			}
		}
		if js(sorted(got)) != js(sorted(want)) {
			fail("V03 V01", "pushes", "the peer got %s, expected %s in some order", js(got), js(want))
		}
	})

	// a burst beyond the queue, from a handler or from outside, to a peer that
	// takes it slowly
	vScenario("v-burst", "V03", prod(2, 2, 2), 1, mkV, func(w *vWorld, r *radix) {
		outside := r.next(2) == 1
		open := false
		w.c.gate = func() bool { return open || len(w.c.out) < 300 }
		w.serve()
		if outside {
			w.tell(rq(1, "echo", "a"))
			w.await(1)
			w.g.run("pusher", func() {
				for i := 0; i < 104; i++ {
					w.session.Send(jlib.NewNotifyMessage("pushed", []interface{}{"p", i}))
				}
			})
		} else {
			w.tell(rq(1, "push", "p", 104))
		}
		vrt.Sleep(sec)
		open = true
		vrt.Step(&w.c.o, "the peer takes more")
		w.await(105)
		w.end("goodbye")
	}, func(w *vWorld, r *radix) {
		got := w.briefs()
		var want []string
		for i := 0; i < 104; i++ {
			want = append(want, fmt.Sprintf(`>pushed["p",%d]`, i))
		}
		if r.next(2) == 1 {
			want = append([]string{`1=["a"]`}, want...)
		} else {
			want = append(want, `1=["p",104]`)
		}
		if js(got) != js(want) {
			fail("V03", "pushes", "the peer got %s", js(got))
		}
	})

	// two sessions of one handler at the same time; one ends before the other
	sides := []string{"echo", "push", "fine"}
	vScenario("v-side-by-side", "V01 V02 V03", prod(2, 2, 3, 3, len(endings)), 1, mkV, func(w *vWorld, r *radix) {
		a, b, how := sides[r.next(3)], sides[r.next(3)], endings[r.next(len(endings))]
		if how == "server" {
			how = "context"
		}
		w.withClose(15)
		x := newV(w.kind, w.spawn)
		x.handler = w.handler
		w.serve()
		x.serve()
		talk := func(o *vWorld, m, n string) {
			o.tell(rq(n, m, n), rq(n, "step", n+n))
			want := []string{fmt.Sprintf(`"%s"=["%s"]`, n, n+n)}
			switch m {
			case "push":
				want = append(want, fmt.Sprintf(`>pushed["%s",0]`, n), fmt.Sprintf(`>pushed["%s",1]`, n))
				fallthrough
			case "echo":
				want = append(want, fmt.Sprintf(`"%s"=["%s"]`, n, n))
			case "fine":
				want = append(want, fmt.Sprintf(`"%s"=null`, n))
			}
			o.await(len(want))
			if got := o.briefs(); js(sorted(got)) != js(sorted(want)) {
				fail("V01 V03", "answers", "one of two peers got %s, expected %s", js(got), js(want))
			}
		}
		w.peers.run("peer-a", func() {
			talk(w, a, "a")
			w.end(how)
			w.ret.wait()
			w.end("eof")
		})
		w.peers.run("peer-b", func() { talk(x, b, "b") })
		w.peers.wait()
		// the other session is not harmed by the end of the first
		n := len(x.heard())
		x.tell(rq("more", "step", "more"))
		x.await(n + 1)
		if got := x.briefs(); x.returned || got[len(got)-1] != `"more"=["more"]` {
			fail("V01 V02", "other-session", "after one session ended with %s the other got %s", how, js(got))
		}
		x.end("eof")
		x.ret.wait()
		x.g.wait()
		per := map[string]int{}
		ids := map[string]int{}
		for _, c := range w.closes {
			per[c]++
			ids[c[2:]]++
		}
		for c, k := range per {
			if k != 1 {
				fail("V02", "close-callbacks", "the close callback %s ran %d times", c, k)
			}
		}
		if len(per) != 8 || len(ids) != 2 || len(w.sessions) != 2 {
			fail("V02", "close-callbacks", "two sessions ended, the close callbacks were %s, the handlers saw %d sessions", js(w.closes), len(w.sessions))
		}
		w.told, w.closes, w.sessions = 0, nil, nil
	}, nil)

	// the peer has stopped taking anything, a pusher is stuck on the full
	// queue, then the session ends
	stalls := []string{"eof", "malformed", "handler error", "server", "context", "write", "reset"}
	vScenario("v-stalled", "V03 V02", prod(2, 2, len(stalls), 2), 1, mkV, func(w *vWorld, r *radix) {
		how, outside := stalls[r.next(len(stalls))], r.next(2) == 1
		stalled := false
		w.c.gate = func() bool { return !stalled }
		w.serve()
		w.tell(rq(1, "echo", "a"))
		w.await(1)
		stalled = true
		vrt.Step(&w.c.o, "the peer takes nothing more")
		w.g.run("pusher", func() {
			for i := 0; i < 103; i++ {
				w.session.Send(jlib.NewNotifyMessage("pushed", []interface{}{"p", i}))
			}
		})
		if !outside {
			w.tell(rq(2, "push", "h", 3))
		}
		vrt.Sleep(sec)
		w.end(how)
		deaf := !w.spawn && !outside && (how == "eof" || how == "malformed" || how == "handler error")
		if how == "reset" || deaf {
			// net/http notices that the connection is gone; a session that
			// is stuck in a handler reads nothing more
			vrt.Sleep(sec)
			w.cancel()
		}
		w.ret.wait()
		// the session is over: pushing returns
		for i := 0; i < 103; i++ {
			w.session.Send(jlib.NewNotifyMessage("late", []interface{}{i}))
		}
	}, nil)
}
