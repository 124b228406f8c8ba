//go:build go1.23

package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/zzverif/vrt"
)

// kScenario registers a scenario of the streaming client. script runs in the
// main thread; when it returns the client is closed and everything must end.
func kScenario(name, props string, variants, quick int, script func(w *kWorld, r *radix), after func(w *kWorld, r *radix)) {
	add(&Scenario{Name: name, Props: props, Variants: variants, Quick: quick, Run: func(v int) (func(), func(*vrt.Sched)) {
		var w *kWorld
		body := func() {
			w = newK()
			script(w, &radix{v})
			w.g.wait()
			w.phase = "closing"
			w.c.Close()
			w.waiters.wait()
			w.phase = "end"
		}
		return body, func(s *vrt.Sched) {
			w.check(s)
			if len(s.Fails) == 0 && after != nil && w.ended() {
				after(w, &radix{v})
			}
		}
	}})
}

var echo = func(w write) []item {
	if w.isRequest() {
		return []item{answer(w)}
	}
	return nil
}

// hold answers once n requests are there, in the given order.
func hold(n int, perm []int) func(w write) []item {
	var got []write
	return func(w write) []item {
		if !w.isRequest() {
			return nil
		}
		got = append(got, w)
		if len(got) < n {
			return nil
		}
		var out []item
		for _, p := range perm {
			out = append(out, answer(got[p]))
		}
		got = nil
		return out
	}
}

var perms2 = [][]int{{0, 1}, {1, 0}}
var perms3 = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

func idsOK(w *kWorld) {
	seen := map[string]bool{}
	for _, x := range w.t.writes {
		if x.isRequest() {
			k := fmt.Sprintf("%d/%T/%v", x.gen, x.id, x.id)
			if seen[k] && w.noReuse {
				fail("K01", "wire-id-reused", "two outstanding requests went out with the same id %s", js(x.id))
			}
			seen[k] = true
		}
	}
}

func init() {
	// two callers with ids of several kinds, answers at once or held back and
	// in either order, connected before or by the first call
	kinds := [][]interface{}{{1, 2}, {1, "1"}, {1, 1}, {"a", "a"}, {"a", 1}}
	kScenario("k-two-calls", "K01 K02 K04", prod(len(kinds), 3, 2, 2), 0, func(w *kWorld, r *radix) {
		ids := kinds[r.next(len(kinds))]
		w.noReuse = true
		switch r.next(3) {
		case 0:
			w.t.onWrite = echo
			w.noReuse = false
		case 1:
			w.t.onWrite = hold(2, perms2[0])
		case 2:
			w.t.onWrite = hold(2, perms2[1])
		}
		w.onMessage()
		if r.next(2) == 1 {
			w.c.Connect(w.ctx)
		}
		w.unwrap = r.next(2) == 1
		for i, m := range []string{"a", "fail_b"} {
			w.g.run("caller-"+m, func() { w.want(w.call(ids[i], m), "answer") })
		}
	}, func(w *kWorld, r *radix) {
		idsOK(w)
		handledIs(w)
	})

	kScenario("k-three-calls", "K01", prod(3, 6), 1, func(w *kWorld, r *radix) {
		ids := [][]interface{}{{1, 1, 1}, {1, 2, 1}, {"x", "y", "z"}}[r.next(3)]
		w.noReuse = true
		w.t.onWrite = hold(3, perms3[r.next(6)])
		w.onMessage()
		w.c.Connect(w.ctx)
		for i, m := range []string{"a", "b", "c"} {
			w.g.run("caller-"+m, func() { w.want(w.call(ids[i], m), "answer") })
		}
	}, func(w *kWorld, r *radix) {
		idsOK(w)
		handledIs(w)
	})

	// pushes, duplicates and answers nobody asked for around two calls
	kScenario("k-pushes", "K01", prod(4, 2), 0, func(w *kWorld, r *radix) {
		mode, same := r.next(4), r.next(2)
		stray := jlib.NewResultMessage(jlib.NewRequestMessage(99, "x", nil), "stray")
		push := jlib.NewRequestMessage(1, "push", []interface{}{})
		w.t.onWrite = func(x write) []item {
			if !x.isRequest() {
				return nil
			}
			switch mode {
			case 0:
				return []item{{msg: ntf(1)}, answer(x), {msg: ntf(2)}}
			case 1:
				return []item{answer(x), answer(x), {msg: ntf(1)}}
			case 2:
				return []item{{msg: stray}, {msg: push}, answer(x)}
			}
			return []item{{msg: push}, answer(x), {skip: true}, {msg: ntf(1)}, {msg: stray}}
		}
		w.onMessage()
		ids := []interface{}{1, 2}
		if same == 1 && mode != 1 {
			// (a second answer to an id cannot be told from the answer to a
			// later request with the same id)
			ids = []interface{}{1, 1}
		}
		for i, m := range []string{"a", "b"} {
			w.g.run("caller-"+m, func() { w.want(w.call(ids[i], m), "answer") })
		}
		w.g.wait()
		// everything the peer sent arrives before the close
		vrt.Await(&w.t.o, "all read", func() bool { return len(w.t.inbox) == 0 && w.t.reading > 0 })
	}, func(w *kWorld, r *radix) {
		mode := r.next(4)
		var want []string
		per := map[int][]string{0: {"n1", "n2"}, 1: {"dup", "n1"}, 2: {"stray", "push"}, 3: {"push", "n1", "stray"}}[mode]
		for i := 0; i < 2; i++ {
			want = append(want, per...)
		}
		var got []string
		for _, h := range w.handled {
			switch {
			case strings.Contains(h, "stray"):
				got = append(got, "stray")
			case strings.Contains(h, "answer to"):
				got = append(got, "dup")
			case strings.Contains(h, `"push"`):
				got = append(got, "push")
			case strings.Contains(h, `"n1"`):
				got = append(got, "n1")
			case strings.Contains(h, `"n2"`):
				got = append(got, "n2")
			}
		}
		if js(got) != js(want) || len(got) != len(w.handled) {
			fail("K01", "handler-messages", "the message handler got %s, expected %s", js(got), js(want))
		}
	})

	// the peer sends an answer twice while calls go on one after another
	kScenario("k-sequence", "K01 K02", 2, 0, func(w *kWorld, r *radix) {
		two := r.next(2) == 1
		w.t.onWrite = func(x write) []item {
			if !x.isRequest() {
				return nil
			}
			return []item{answer(x), answer(x)}
		}
		w.onMessage()
		w.g.run("caller", func() {
			w.want(w.call(1, "a"), "answer")
			w.want(w.call(2, "b"), "answer")
			w.want(w.call("1", "c"), "answer")
		})
		if two {
			w.g.run("other", func() { w.want(w.call(7, "d"), "answer") })
		}
	}, nil)

	// silence: every call ends with the timeout after exactly ten seconds, also
	// when it reuses the id of an earlier or a waiting call
	kScenario("k-silence", "K02 K01", prod(6, 2, 2), 0, func(w *kWorld, r *radix) {
		gap := []time.Duration{0, 4 * sec, 9999 * time.Millisecond, 10 * sec, 10*sec + 1, 14 * sec}[r.next(6)]
		id2 := []interface{}{1, 2}[r.next(2)]
		w.unwrap = r.next(2) == 1
		w.g.run("first", func() { w.want(w.call(1, "a"), "timeout") })
		w.g.run("second", func() {
			vrt.Sleep(gap)
			w.want(w.call(id2, "b"), "timeout")
		})
	}, nil)

	// one call is never answered, another with the same or another id later is
	kScenario("k-one-answered", "K02 K01", prod(4, 2, 2), 0, func(w *kWorld, r *radix) {
		gap := []time.Duration{0, 5 * sec, 9 * sec, 11 * sec}[r.next(4)]
		id2 := []interface{}{1, 2}[r.next(2)]
		delay := []time.Duration{0, 6 * sec}[r.next(2)]
		w.t.onWrite = func(x write) []item {
			if x.isRequest() && x.msg.(*jlib.RequestMessage).Method == "b" {
				if delay == 0 {
					return []item{answer(x)}
				}
				vrt.GoName("peer", func() {
					vrt.Sleep(delay)
					w.t.deliver(answer(x))
				})
			}
			return nil
		}
		w.g.run("first", func() { w.want(w.call(1, "a"), "timeout") })
		w.g.run("second", func() {
			vrt.Sleep(gap)
			w.want(w.call(id2, "b"), "answer")
		})
	}, nil)

	// calls one after another with one id: the timer of the first is no harm to the second
	kScenario("k-reuse-after-answer", "K02 K01", prod(3, 2), 0, func(w *kWorld, r *radix) {
		gap := []time.Duration{0, 3 * sec, 8 * sec}[r.next(3)]
		late := r.next(2) == 1
		n := 0
		w.t.onWrite = func(x write) []item {
			n++
			if n == 1 {
				return []item{answer(x)}
			}
			if late {
				vrt.GoName("peer", func() {
					vrt.Sleep(9 * sec)
					w.t.deliver(answer(x))
				})
			}
			return nil
		}
		w.g.run("caller", func() {
			w.want(w.call(1, "a"), "answer")
			vrt.Sleep(gap)
			if late {
				w.want(w.call(1, "b"), "answer")
			} else {
				w.want(w.call(1, "b"), "timeout")
			}
		})
	}, nil)

	// an answer around the timeout: it or the timeout is returned, and the late
	// answer reaches nobody else
	kScenario("k-late", "K02 K01", prod(5, 2), 0, func(w *kWorld, r *radix) {
		d := []time.Duration{9 * sec, 10*sec - 1, 10 * sec, 10*sec + 1, 12 * sec}[r.next(5)]
		w.unwrap = r.next(2) == 1
		w.onMessage()
		w.t.onWrite = func(x write) []item {
			if x.msg.(*jlib.RequestMessage).Method == "b" {
				return []item{answer(x)}
			}
			vrt.GoName("peer", func() {
				vrt.Sleep(d)
				w.t.deliver(answer(x))
			})
			return nil
		}
		w.g.run("caller", func() {
			c := w.call(1, "a")
			switch {
			case d < 10*sec:
				w.want(c, "answer")
			case d > 10*sec:
				w.want(c, "timeout")
			default:
				w.want(c, "answer timeout")
			}
			w.want(w.call(2, "b"), "answer")
			vrt.Sleep(5 * sec)
		})
	}, func(w *kWorld, r *radix) {
		d := r.next(5)
		n := 0
		if d >= 3 || d == 2 && w.calls[0].outcome() == "timeout" {
			n = 1
		}
		if len(w.handled) != n {
			fail("K01", "handler-messages", "the message handler got %s, expected %d late answers", js(w.handled), n)
		}
	})

	// the connection is lost, closed, cancelled or fails to write under a call;
	// afterwards it works again
	kScenario("k-fault-under-call", "K02 K03 K01 K05", prod(6, 2, 2, 2), 0, func(w *kWorld, r *radix) {
		fault, answers, pre := r.next(6), r.next(2), r.next(2)
		w.unwrap = r.next(2) == 1
		if answers == 1 {
			w.t.onWrite = echo
		}
		if pre == 1 {
			w.c.Connect(w.ctx)
		}
		w.t.writeErr = func(gen, n int) error {
			if fault == 4 && gen == 1 {
				return errWrite
			}
			return nil
		}
		w.onClose()
		w.g.run("caller", func() { w.call(1, "a") })
		w.g.run("fault", func() {
			switch fault {
			case 0:
				w.c.Close()
			case 1:
				w.t.drop(errLost)
			case 2:
				w.t.deliver(item{err: errLost})
			case 3:
				w.cancel()
			case 5:
				w.c.Reset(errLost)
			}
		})
		w.g.wait()
		w.again()
	}, closedOnce)

	// two ends of the connection race with each other and with a call
	ends := []string{"close", "drop", "cancel", "write"}
	kScenario("k-double-end", "K03 K02", prod(4, 4, 2), 2, func(w *kWorld, r *radix) {
		a, b, busy := r.next(4), r.next(4), r.next(2)
		w.onClose()
		w.t.writeErr = func(gen, n int) error {
			if gen == 1 && (a == 3 || b == 3) {
				return errWrite
			}
			return nil
		}
		w.c.Connect(w.ctx)
		do := func(k int) func() {
			return func() {
				switch ends[k] {
				case "close":
					w.c.Close()
				case "drop":
					w.t.drop(errLost)
				case "cancel":
					w.cancel()
				case "write":
					w.send(ntf(1))
				}
			}
		}
		w.wait("waiter")
		if busy == 1 {
			w.g.run("caller", func() { w.call(1, "a") })
		}
		w.g.run("end-a", do(a))
		w.g.run("end-b", do(b))
		w.g.wait()
		if busy == 0 && a != 3 && b != 3 {
			w.waiters.wait()
		}
		w.again()
	}, closedOnce)

	// close while others send and wait
	kScenario("k-close-send", "K03 K04", 3, 2, func(w *kWorld, r *radix) {
		how := r.next(3)
		w.onClose()
		w.c.Connect(w.ctx)
		w.wait("waiter-1")
		w.wait("waiter-2")
		w.g.run("sender", func() {
			for i := 0; i < 3; i++ {
				if w.send(ntf(i)) != nil {
					return
				}
			}
		})
		w.g.run("end", func() {
			switch how {
			case 0:
				w.c.Close()
			case 1:
				w.t.drop(errLost)
			case 2:
				w.cancel()
			}
		})
		w.g.run("asker", func() { w.c.Connected() })
		w.g.wait()
		if how == 2 {
			w.freshContext()
		}
	}, closedOnce)

	// the connection is opened again at once, while the loops of the last one
	// are still going
	kScenario("k-reopen", "K03 K01 K02", prod(3, 2), 0, func(w *kWorld, r *radix) {
		how, twice := r.next(3), r.next(2)
		w.t.onWrite = echo
		w.onMessage()
		w.c.Connect(w.ctx)
		n := 1 + twice
		for i := 0; i < n; i++ {
			switch how {
			case 0:
				w.c.Close()
			case 1:
				w.g.run("drop", func() { w.t.drop(errLost) })
				w.c.Wait()
			case 2:
				w.cancel()
				w.c.Wait()
				w.freshContext()
			}
			w.g.run("caller", func() { w.want(w.call(i, "a"), "answer") })
			w.g.wait()
		}
	}, func(w *kWorld, r *radix) {
		handledIs(w)
	})

	// the handlers use the client themselves
	kScenario("k-handlers", "K03 K05", prod(6, 2), 0, func(w *kWorld, r *radix) {
		how, inside := ways[r.next(6)], r.next(2) == 1
		w.t.onWrite = echo
		w.t.onOpen = func(gen int) []item { return []item{{msg: ntf(gen)}} }
		bad := false
		w.t.writeErr = func(gen, n int) error {
			if bad && gen == 1 {
				return errWrite
			}
			return nil
		}
		w.onMessage()
		w.onConnected()
		done := w.renewing(inside)
		w.want(w.call(1, "a"), "answer")
		w.wait("waiter")
		switch how {
		case "close":
			w.c.Close()
		case "drop":
			w.t.drop(errLost)
		case "cancel":
			w.cancel()
		case "write":
			bad = true
			w.send(ntf(1000))
		case "reset":
			w.c.Reset(errLost)
		case "read":
			w.t.deliver(item{err: errLost})
		}
		done()
		if w.t.gen != 2 || w.opened != 2 || !w.t.connected {
			fail("K03 K05", "not-reopened", "%d connections were opened, the connected handler ran %d times, after one connection ended", w.t.gen, w.opened)
		}
	}, func(w *kWorld, r *radix) { closedTwice(w) })
	kScenario("k-handler-sends", "K04 K01 K03", prod(3, 2), 0, func(w *kWorld, r *radix) {
		what, busy := r.next(3), r.next(2) == 1
		w.t.onWrite = echo
		w.t.onOpen = func(gen int) []item { return []item{{msg: ntf(1)}, {msg: ntf(2)}} }
		w.onClose()
		w.c.OnMessage(func(m jlib.Message) {
			vrt.Step(&w.handler, "message handler")
			w.handled = append(w.handled, wire(m))
			if w.phase != "" || len(w.handled) > 2 || what == 2 && len(w.handled) > 1 {
				return
			}
			switch what {
			case 0:
				w.send(ntf(49 + len(w.handled)))
			case 1:
				w.send(jlib.NewRequestMessage(fmt.Sprint("r", len(w.handled)), fmt.Sprint("m", len(w.handled)), nil))
			case 2:
				w.c.Close()
			}
		})
		if busy {
			w.g.run("caller", func() { w.call(1, "a") })
		} else {
			w.c.Connect(w.ctx)
		}
		w.g.wait()
		switch what {
		case 0:
			w.flush(2 + r2(busy))
			vrt.Sleep(time.Millisecond)
			handledIs(w, wire(ntf(1)), wire(ntf(2)))
		case 1: // nobody here waits for the answers
			vrt.Await(&w.handler, "answers are handled", func() bool { return len(w.handled) >= 4 })
		case 2:
			vrt.Sleep(time.Millisecond)
			if len(w.handled) != 1 && !busy {
				fail("K03", "handled-after-close", "%d messages were handed over, the client was closed during the first", len(w.handled))
			}
			w.phase = "again"
			w.again()
		}
	}, func(w *kWorld, r *radix) {
		what, busy := r.next(3), r.next(2) == 1
		closedOnce(w, r)
		var l []string
		for _, x := range w.t.writes {
			if x.isRequest() && x.id == 1 || x.gen > 1 {
				continue
			}
			l = append(l, x.text)
		}
		switch what {
		case 0:
			if js(l) != js([]string{wire(ntf(50)), wire(ntf(51))}) {
				fail("K04", "written", "the message handler sent two messages, written were %s (busy: %v)", js(l), busy)
			}
		case 1:
			if len(l) != 2 || len(w.handled) != 4 {
				fail("K01 K04", "written", "the message handler sent two requests, written were %s, handled %s", js(l), js(w.handled))
			}
		}
	})

	// senders: order and once
	kScenario("k-senders", "K04", prod(2, 2), 0, func(w *kWorld, r *radix) {
		pre, call := r.next(2), r.next(2)
		w.t.onWrite = echo
		if pre == 1 {
			w.c.Connect(w.ctx)
		}
		for s := 0; s < 2; s++ {
			w.g.run(fmt.Sprintf("sender-%d", s), func() {
				for i := 0; i < 2; i++ {
					if err := w.send(ntf(10*s + i)); err != nil {
						fail("K04", "send-error", "sending on an open connection failed: %v", err)
					}
				}
			})
		}
		if call == 1 {
			w.g.run("caller", func() { w.want(w.call(1, "a"), "answer") })
		}
		w.g.wait()
		w.flush(4 + call)
	}, func(w *kWorld, r *radix) {
		r.next(2)
		inOrder(w, 4+r.next(2))
	})

	// goroutines that notify, call and send requests in turn
	mixes := []string{"nc", "cn", "nrc", "ncn", "nncc"}
	kScenario("k-mixed", "K04 K01", prod(5, 3, 2), 0, func(w *kWorld, r *radix) {
		one, other := mixes[r.next(5)], []string{"", "nc", "c"}[r.next(3)]
		w.t.onWrite = echo
		if r.next(2) == 1 {
			w.c.Connect(w.ctx)
		}
		for g, mix := range []string{one, other} {
			if mix == "" {
				continue
			}
			w.g.run(fmt.Sprintf("mixer-%d", g), func() {
				for i, k := range mix {
					name := fmt.Sprintf("g%d-%d", g, i)
					var err error
					switch k {
					case 'n':
						err = w.send(jlib.NewNotifyMessage(name, nil))
					case 'r':
						err = w.send(jlib.NewRequestMessage(name, name, nil))
					case 'c':
						w.want(w.call(10*g+i, name), "answer")
					}
					if err != nil {
						fail("K04", "send-error", "sending on an open connection failed: %v", err)
					}
				}
			})
		}
		w.g.wait()
		w.flush(len(one) + len(other))
	}, func(w *kWorld, r *radix) {
		one, other := mixes[r.next(5)], []string{"", "nc", "c"}[r.next(3)]
		for g, mix := range []string{one, other} {
			var want, got []string
			for i := range mix {
				want = append(want, fmt.Sprintf("g%d-%d", g, i))
			}
			for _, x := range w.t.writes {
				if m := x.msg.MustMethod(); strings.HasPrefix(m, fmt.Sprintf("g%d-", g)) {
					got = append(got, m)
				}
			}
			if js(got) != js(want) {
				fail("K04", "order", "a goroutine sent %s, written were %s", js(want), js(got))
			}
		}
	})

	// a burst beyond the queue against a slow writer
	kScenario("k-burst", "K04", 2, 1, func(w *kWorld, r *radix) {
		slow := r.next(2) == 1
		open := false
		w.t.gate = func() bool { return !slow || open }
		w.c.Connect(w.ctx)
		const n = 104
		w.g.run("sender", func() {
			for i := 0; i < n; i++ {
				if err := w.send(ntf(i)); err != nil {
					fail("K04", "send-error", "sending on an open connection failed: %v", err)
				}
			}
		})
		w.g.run("peer", func() {
			vrt.Sleep(sec)
			open = true
			vrt.Step(&w.t.o, "the peer takes more")
		})
		w.g.wait()
		w.flush(n)
	}, func(w *kWorld, r *radix) { inOrder(w, 104) })

	// a sender is stuck on a full queue when the connection ends
	kScenario("k-burst-end", "K03 K02", 3, 1, func(w *kWorld, r *radix) {
		how := r.next(3)
		w.t.gate = func() bool { return false }
		w.c.Connect(w.ctx)
		w.g.run("sender", func() {
			for i := 0; i < 103; i++ {
				if w.send(ntf(i)) != nil {
					return
				}
				if w.t.gen > 1 {
					return
				}
			}
		})
		w.g.run("end", func() {
			vrt.Sleep(sec)
			switch how {
			case 0:
				w.c.Close()
			case 1:
				w.t.drop(errLost)
			case 2:
				w.cancel()
			}
		})
		w.g.wait()
		if how == 2 {
			w.freshContext()
		}
	}, nil)

	// first use by several users at once
	uses := []string{"connect", "call", "send"}
	dials := []string{"ok", "first fails", "all fail"}
	kScenario("k-first-use", "K05 K01 K04", prod(3, 3, 3), 0, func(w *kWorld, r *radix) {
		a, b, d := r.next(3), r.next(3), dials[r.next(3)]
		w.t.onDial = func(n int) error {
			if d == "all fail" || d == "first fails" && n == 1 {
				return errDial
			}
			return nil
		}
		w.t.onWrite = echo
		w.t.onOpen = func(gen int) []item { return []item{{msg: ntf(gen)}} }
		w.onConnected()
		w.onMessage()
		for i, u := range []int{a, b} {
			w.g.run(fmt.Sprintf("%s-%d", uses[u], i), func() {
				var err error
				switch uses[u] {
				case "connect":
					err = w.c.Connect(w.ctx)
				case "call":
					c := w.call(i, "a")
					if err = c.err; err == nil {
						w.want(c, "answer")
					}
				case "send":
					err = w.send(ntf(5))
				}
				if vrt.Now() > 0 {
					fail("K05", "slow-first-use", "%s took until %v", uses[u], vrt.Now())
				}
				if d == "ok" && err != nil {
					fail("K05", "first-use-error", "%s failed: %v", uses[u], err)
				}
				if d == "all fail" && err == nil {
					fail("K05", "no-error", "%s succeeded without a connection", uses[u])
				}
				if err != nil {
					w.errs++
				}
			})
		}
		w.g.wait()
		if d == "all fail" {
			if w.c.Connected() {
				fail("K05", "connected-after-failure", "the client says it is connected after every attempt failed")
			}
			w.t.onDial = nil
		}
		c := w.call("last", "z")
		w.want(c, "answer")
	}, func(w *kWorld, r *radix) {
		r.next(9)
		d := dials[r.next(3)]
		if w.t.gen != 1 {
			fail("K05", "connections", "%d connections were opened", w.t.gen)
		}
		if w.opened != 1 {
			fail("K05", "connected-handler", "the connected handler ran %d times", w.opened)
		}
		if d == "ok" && w.t.dials != 1 {
			fail("K05", "dials", "%d attempts to connect", w.t.dials)
		}
		if d == "first fails" && w.errs != 1 {
			fail("K05", "first-use-error", "%d users got an error when one attempt failed", w.errs)
		}
	})

	kScenario("k-first-use-3", "K05", prod(3, 2), 2, func(w *kWorld, r *radix) {
		k, f := r.next(3), r.next(2)
		w.t.onDial = func(n int) error {
			if f == 1 && n == 1 {
				return errDial
			}
			return nil
		}
		w.t.onWrite = echo
		w.onConnected()
		for i := 0; i < 3; i++ {
			w.g.run(fmt.Sprintf("user-%d", i), func() {
				var err error
				switch uses[k] {
				case "connect":
					err = w.c.Connect(w.ctx)
				case "call":
					err = w.call(i, "a").err
				case "send":
					err = w.send(ntf(i))
				}
				if err != nil {
					w.errs++
				}
			})
		}
	}, func(w *kWorld, r *radix) {
		r.next(3)
		if w.t.gen != 1 || w.opened != 1 {
			fail("K05", "connections", "%d connections were opened, the connected handler ran %d times", w.t.gen, w.opened)
		}
		if f := r.next(2); w.errs != f {
			fail("K05", "first-use-error", "%d users got an error", w.errs)
		}
	})
}

func (w *kWorld) flush(n int) {
	vrt.Await(&w.t.o, "all written", func() bool { return len(w.t.writes) >= n && w.t.writing == 0 })
}

func inOrder(w *kWorld, n int) {
	if len(w.t.writes) != n {
		fail("K04", "written", "%d messages were written, expected %d", len(w.t.writes), n)
		return
	}
	last := map[int]int{}
	seen := map[string]bool{}
	for _, x := range w.t.writes {
		if seen[x.text] {
			fail("K04", "written-twice", "written twice: %s", x.text)
			return
		}
		seen[x.text] = true
		var k int
		if m, ok := x.msg.(*jlib.NotifyMessage); ok {
			fmt.Sscanf(m.Method, "n%d", &k)
			s := 0
			if n < 10 {
				s = k / 10
			}
			if prev, ok := last[s]; ok && prev >= k {
				fail("K04", "written-out-of-order", "message %d went out after message %d of the same sender", k, prev)
				return
			}
			last[s] = k
		}
	}
}

// freshContext replaces the context after it was cancelled.
func (w *kWorld) freshContext() { w.ctx, w.cancel = freshCtx() }

// again: the connection has ended or ends now; the client can be used again.
func (w *kWorld) again() {
	gen := w.t.gen
	w.c.Close()
	if w.t.connected {
		fail("K03", "transport-open", "the transport is open after the connection ended")
	}
	if w.c.Connected() {
		fail("K03", "still-connected", "the client says it is connected after the connection ended")
	}
	vrt.Await(&w.t.o, "loops gone", nil)
	w.freshContext()
	w.t.onWrite = echo
	w.t.writeErr = nil
	w.t.gate = nil
	c := w.call("again", "again")
	w.want(c, "answer")
	if c.outcome() != "answer" {
		fail("K03", "not-reopened", "a call after the connection ended gave %s (%v)", c.outcome(), c.err)
	}
	if w.t.gen != gen+1 {
		fail("K03", "not-reopened", "%d connections opened for the next call", w.t.gen-gen)
	}
}

func closedOnce(w *kWorld, r *radix) {
	if w.closed != 1 {
		fail("K03", "close-handler", "the close handler ran %d times", w.closed)
	}
}

func r2(b bool) int {
	if b {
		return 1
	}
	return 0
}

// renewing registers a close handler which, at the end of the first
// connection, registers itself again; the client is then called, by the
// handler (inside) or by whoever waits for it.
func (w *kWorld) renewing(inside bool) (wait func()) {
	renewed := false
	call := func() {
		w.freshContext()
		if w.c.Connected() {
			fail("K03", "still-connected", "the client says it is connected after the connection ended")
		}
		c := w.call("again", "again")
		w.want(c, "answer")
		if c.outcome() != "answer" {
			fail("K03", "not-reopened", "a call after the connection ended gave %s (%v)", c.outcome(), c.err)
		}
	}
	registered := false
	var handle func()
	handle = func() {
		vrt.Step(&w.handler, "close handler")
		w.closed++
		if w.closed > 1 {
			if w.phase != "closing" && w.phase != "end" {
				fail("K03", "close-handler", "the close handler ran for a connection that is open")
			}
			return
		}
		registered = w.c.OnClose(handle) == nil // or else it stays in place while it runs
		if inside {
			w.c.Close()
			call()
		}
		vrt.Step(&w.handler, "close handler done")
		renewed = true
	}
	w.c.OnClose(handle)
	return func() {
		vrt.Await(&w.handler, "close handler", func() bool { return renewed })
		if !registered {
			vrt.Sleep(time.Millisecond)
			if err := w.c.OnClose(handle); err != nil {
				fail("K03", "close-handler", "the close handler is registered after it ran: %v", err)
			}
		}
		if !inside {
			call()
		}
		vrt.Sleep(time.Millisecond)
	}
}

func closedTwice(w *kWorld) {
	if w.closed != 2 {
		fail("K03", "close-handler", "the close handlers ran %d times for two connections", w.closed)
	}
}
