//go:build go1.23

package main

import (
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
	"github.com/superisaac/jlib/zzverif/vrt"
)

// Scenarios of size: many calls, connections, messages, actors and sessions.
// The quick tier runs them under the default schedules only.

// large makes the scenarios registered by f such.
func large(f func()) {
	n := len(scenarios)
	f()
	for _, s := range scenarios[n:] {
		s.Quick, s.Limit = -1, 2000000
	}
}

// gaps are the times in which nothing happens.
var gaps = []time.Duration{time.Second, 6 * time.Second, 31 * time.Second, 61 * time.Second, 10 * time.Minute, 3 * time.Hour}

// stalls are the times for which a peer takes nothing.
var stalls = []time.Duration{15 * time.Second, 61 * time.Second, 3 * time.Hour}

// lengths are those of long texts.
var lengths = []int{33000, 70000, 600000, 1100000, 4200000}

var crowds = []int{5, 9, 17, 33, 65, 120, 300}

func manyId(kind, i int) interface{} {
	switch kind {
	case 0:
		return 7
	case 1:
		return i
	case 2:
		return strings.Repeat("long-", 20) + fmt.Sprint(i)
	case 3:
		return fmt.Sprint(i%3) + strings.Repeat("-tail", 20)
	}
	if i%2 == 0 {
		return i / 4
	}
	return fmt.Sprint(i / 4)
}

func init() { large(largeK); large(largeV); large(largeC) }

func largeK() {
	// many callers wait at once
	kScenario("k-many-calls", "K01 K02", prod(len(crowds), 5, 2), 0, func(w *kWorld, r *radix) {
		n, kind := crowds[r.next(len(crowds))], r.next(5)
		perm := make([]int, n)
		back := r.next(2) == 1
		for i := range perm {
			perm[i] = i
			if back {
				perm[i] = n - 1 - i
			}
		}
		w.noReuse = true
		w.t.onWrite = hold(n, perm)
		w.onMessage()
		for i := 0; i < n; i++ {
			w.g.run(fmt.Sprintf("caller-%d", i), func() { w.want(w.call(manyId(kind, i), fmt.Sprintf("m%d", i)), "answer") })
		}
	}, func(w *kWorld, r *radix) {
		idsOK(w)
		handledIs(w)
	})

	// many callers wait, some of them for nothing
	kScenario("k-many-silent", "K02", prod(len(crowds), 3, 2), 0, func(w *kWorld, r *radix) {
		n, kind, every := crowds[r.next(len(crowds))], r.next(3), 2+r.next(2)
		silent := func(i int) bool { return i%every == 0 }
		w.t.onWrite = func(x write) []item {
			var i int
			fmt.Sscanf(x.msg.MustMethod(), "m%d", &i)
			if silent(i) {
				return nil
			}
			return []item{answer(x)}
		}
		for i := 0; i < n; i++ {
			w.g.run(fmt.Sprintf("caller-%d", i), func() {
				c := w.call(manyId(kind, i), fmt.Sprintf("m%d", i))
				if silent(i) {
					w.want(c, "timeout")
				} else {
					w.want(c, "answer")
				}
			})
		}
	}, nil)

	// one caller after many, answered or not, with a late answer now and then
	kScenario("k-long-sequence", "K01 K02", prod(3, 3), 0, func(w *kWorld, r *radix) {
		kind, mode := r.next(3), r.next(3)
		const n = 300
		w.onMessage()
		w.t.onWrite = func(x write) []item {
			var i int
			fmt.Sscanf(x.msg.MustMethod(), "m%d", &i)
			if mode == 1 && i%4 == 3 {
				return nil
			}
			if mode == 2 && i%8 == 7 {
				vrt.GoName("peer", func() {
					vrt.Sleep(9 * sec)
					w.t.deliver(answer(x))
				})
				return nil
			}
			return []item{answer(x)}
		}
		w.g.run("caller", func() {
			for i := 0; i < n; i++ {
				c := w.call(manyId(kind, i), fmt.Sprintf("m%d", i))
				if mode == 1 && i%4 == 3 {
					w.want(c, "timeout")
				} else {
					w.want(c, "answer")
				}
			}
		})
	}, func(w *kWorld, r *radix) {
		handledIs(w)
	})

	// many pushes before, between and after answers
	kScenario("k-many-pushes", "K01", 3, 0, func(w *kWorld, r *radix) {
		per := []int{10, 101, 1100}[r.next(3)]
		k := 0
		w.onMessage()
		w.t.onWrite = func(x write) []item {
			var out []item
			for i := 0; i < per; i++ {
				out = append(out, item{msg: ntf(k)})
				k++
			}
			return append(out, answer(x))
		}
		w.g.run("caller", func() {
			for i := 0; i < 4; i++ {
				w.want(w.call(i, fmt.Sprintf("m%d", i)), "answer")
			}
		})
	}, func(w *kWorld, r *radix) {
		per := []int{10, 101, 1100}[r.next(3)]
		var want []string
		for i := 0; i < 4*per; i++ {
			want = append(want, wire(ntf(i)))
		}
		handledIs(w, want...)
	})

	// one connection after another, each used and each ending in its own way
	kScenario("k-many-connections", "K03 K05", prod(6, 2), 0, func(w *kWorld, r *radix) {
		first, mixed := r.next(6), r.next(2) == 1
		const n = 110
		w.t.onWrite = echo
		w.t.onOpen = func(gen int) []item { return []item{{msg: ntf(gen)}} }
		bad := false
		w.t.writeErr = func(gen, n int) error {
			if bad {
				return errWrite
			}
			return nil
		}
		w.onConnected()
		w.onMessage()
		for i := 1; i <= n; i++ {
			how := ways[first]
			if mixed {
				how = ways[(first+i)%6]
			}
			w.onClose()
			c := w.call(i, fmt.Sprintf("m%d", i))
			w.want(c, "answer")
			if c.outcome() != "answer" || w.t.gen != i {
				fail("K03", "not-reopened", "use %d of the client gave %s (%v), %d connections were opened", i, c.outcome(), c.err, w.t.gen)
				return
			}
			waited := w.waited
			w.wait("waiter")
			switch how {
			case "close":
				w.c.Close()
			case "drop":
				w.t.drop(errLost)
			case "cancel":
				w.cancel()
			case "write":
				bad = true
				w.send(ntf(1000))
			case "reset":
				w.c.Reset(errLost)
			case "read":
				w.t.deliver(item{err: errLost})
			}
			w.waiters.wait()
			// the loops end and the close handler runs
			t0 := vrt.Now()
			vrt.Sleep(time.Millisecond)
			bad = false
			w.freshContext()
			if w.waited != waited+1 || vrt.Now()-t0 > sec {
				fail("K03", "wait", "Wait did not return for connection %d", i)
			}
			if w.closed != i {
				fail("K03", "close-handler", "the close handler ran %d times for %d connections", w.closed, i)
			}
			if w.t.connected || w.c.Connected() {
				fail("K03", "still-connected", "connection %d is open after it ended with %s", i, how)
			}
			if w.opened != i || w.t.gen != i {
				fail("K05 K03", "connected-handler", "the connected handler ran %d times, %d connections were opened, for %d uses", w.opened, w.t.gen, i)
			}
		}
	}, func(w *kWorld, r *radix) {
		if w.closed != 110 {
			fail("K03", "close-handler", "the close handler ran %d times for 110 connections", w.closed)
		}
	})

	// many users at first
	kScenario("k-first-use-many", "K05 K01", prod(5, 3, 2), 0, func(w *kWorld, r *radix) {
		n, kind, bad := []int{5, 17, 40, 110, 300}[r.next(5)], r.next(3), r.next(2)
		w.t.onDial = func(k int) error {
			if k <= bad {
				return errDial
			}
			return nil
		}
		w.t.onWrite = echo
		w.t.onOpen = func(gen int) []item { return []item{{msg: ntf(gen)}} }
		w.onConnected()
		w.onMessage()
		for i := 0; i < n; i++ {
			w.g.run(fmt.Sprintf("user-%d", i), func() {
				var err error
				switch kind {
				case 0:
					err = w.c.Connect(w.ctx)
				case 1:
					err = w.call(i, "a").err
				case 2:
					err = w.send(ntf(i))
				}
				if err != nil {
					w.errs++
				}
			})
		}
	}, func(w *kWorld, r *radix) {
		r.next(5)
		r.next(3)
		if w.t.gen != 1 || w.opened != 1 {
			fail("K05", "connections", "%d connections were opened, the connected handler ran %d times", w.t.gen, w.opened)
		}
		if bad := r.next(2); w.errs != bad {
			fail("K05", "first-use-error", "%d users got an error, %d attempts failed", w.errs, bad)
		}
	})

	// bursts far beyond the queue, from one goroutine or several
	kScenario("k-burst-large", "K04", prod(3, 2, 2, 3), 0, func(w *kWorld, r *radix) {
		n, slow, senders, stall := []int{260, 1100, 4200}[r.next(3)], r.next(2) == 1, 1+2*r.next(2), stalls[r.next(3)]
		open := 0
		w.t.gate = func() bool { return !slow || open > 0 }
		w.c.Connect(w.ctx)
		for s := 0; s < senders; s++ {
			w.g.run(fmt.Sprintf("sender-%d", s), func() {
				for i := 0; i < n/senders; i++ {
					if err := w.send(ntf(10000*s + i)); err != nil {
						fail("K04", "send-error", "sending on an open connection failed: %v", err)
					}
				}
			})
		}
		w.g.run("peer", func() {
			vrt.Sleep(stall)
			open = 1
			vrt.Step(&w.t.o, "the peer takes more")
		})
		w.g.wait()
		w.flush(n / senders * senders)
	}, func(w *kWorld, r *radix) {
		n := []int{260, 1100, 4200}[r.next(3)]
		r.next(2)
		senders := 1 + 2*r.next(2)
		next := map[int]int{}
		for _, x := range w.t.writes {
			var k int
			fmt.Sscanf(x.msg.MustMethod(), "n%d", &k)
			if s := k / 10000; k%10000 != next[s] {
				fail("K04", "written-out-of-order", "message %d of sender %d went out when %d was next", k%10000, s, next[s])
				return
			} else {
				next[s]++
			}
		}
		if len(w.t.writes) != n/senders*senders {
			fail("K04", "written", "%d messages were written, expected %d", len(w.t.writes), n/senders*senders)
		}
	})
}

// renew makes the world ready for the next session of the same handler.
func (w *vWorld) renew() {
	w.c = &memConn{}
	w.cancel()
	w.ctx, w.cancel = freshCtx()
	w.ret, w.returned = event{}, false
	w.session, w.sessions, w.closes = nil, map[string]bool{}, nil
	h := w.r.Header
	w.r = &http.Request{Method: w.r.Method, URL: &url.URL{Scheme: "http", Host: "server", Path: "/"}, Host: "server", RemoteAddr: "mem:2", Header: h.Clone(),
		Proto: w.r.Proto, ProtoMajor: w.r.ProtoMajor, ProtoMinor: w.r.ProtoMinor}
	w.r = w.r.WithContext(w.ctx)
	if w.kind == "h2" {
		w.r.Body = &streamBody{w.c, w.ctx}
	} else {
		w.r.Body = http.NoBody
	}
}

func largeV() {
	mkV := func(r *radix) *vWorld {
		k := kinds2[r.next(2)]
		return newV(k, r.next(2) == 0)
	}

	// many messages, with long ids and trace ids
	text := func(kind, i int) (send, want string) {
		id := js(manyId(kind, i))
		switch i % 5 {
		case 1:
			return nt("step", i), ""
		case 3:
			return fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"method":"nothing","params":[]}`, id), id + "!-32601"
		case 4:
			t := strings.Repeat("trace", 30) + fmt.Sprint(i)
			return fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"method":"step","params":[%d],"traceid":"%s"}`, id, i, t), fmt.Sprintf("%s@%s=[%d]", id, t, i)
		}
		return fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"method":"step","params":[%d]}`, id, i), fmt.Sprintf("%s=[%d]", id, i)
	}
	many := []int{12, 40, 130, 300}
	vScenario("v-many", "V01", prod(2, 2, len(many), 5, 2), 0, mkV, func(w *vWorld, r *radix) {
		n, kind := many[r.next(len(many))], r.next(5)
		w.serve()
		var send []string
		k := 0
		for i := 0; i < n; i++ {
			s, x := text(kind, i)
			send = append(send, s)
			if x != "" {
				k++
			}
		}
		if r.next(2) == 0 {
			w.tell(send...)
		} else {
			for _, s := range send {
				w.tell(s)
			}
		}
		w.await(k)
		vrt.Sleep(sec)
		w.end("goodbye")
	}, func(w *vWorld, r *radix) {
		n, kind := many[r.next(len(many))], r.next(5)
		got := w.briefs()
		var want []string
		for i := 0; i < n; i++ {
			if _, x := text(kind, i); x != "" {
				want = append(want, x)
			}
		}
		off := !w.spawn
		if off && w.overlap {
			fail("V01", "handlers-overlap", "two handlers ran at the same time with goroutine spawning off")
		}
		if !off {
			got, want = sorted(got), sorted(want)
		}
		if js(got) != js(want) {
			fail("V01", "answers", "%d messages were sent, the peer got %s, expected %s", n, js(got), js(want))
		}
	})

	// many slow handlers at once do not hold up each other
	vScenario("v-many-slow", "V01", prod(2, len(many)), 0, func(r *radix) *vWorld { return newV(kinds2[r.next(2)], true) }, func(w *vWorld, r *radix) {
		n := many[r.next(len(many))]
		w.serve()
		for i := 0; i < n; i++ {
			w.tell(rq(i, "slow", i))
		}
		w.tell(rq("after", "echo", "b"))
		w.await(1)
		w.release.set()
		w.await(n + 1)
		w.end("eof")
	}, func(w *vWorld, r *radix) {
		n := many[r.next(len(many))]
		want := []string{`"after"=["b"]`}
		for i := 0; i < n; i++ {
			want = append(want, fmt.Sprintf("%d=[%d]", i, i))
		}
		if got := w.briefs(); js(sorted(got)) != js(sorted(want)) {
			fail("V01", "answers", "the peer got %s, expected %s", js(got), js(want))
		}
	})

	// pushes far beyond the queue
	bursts := []int{150, 400, 1100, 4200}
	vScenario("v-burst-large", "V03", prod(2, 2, len(bursts), 2, 2, 3), 0, mkV, func(w *vWorld, r *radix) {
		n, outside, slow, stall := bursts[r.next(len(bursts))], r.next(2) == 1, r.next(2) == 1, stalls[r.next(3)]
		open := !slow
		w.c.gate = func() bool { return open || len(w.c.out) < 300 }
		w.serve()
		if outside {
			w.tell(rq(1, "echo", "a"))
			w.await(1)
			w.g.run("pusher", func() {
				for i := 0; i < n; i++ {
					w.session.Send(jlib.NewNotifyMessage("pushed", []interface{}{"p", i}))
				}
			})
		} else {
			w.tell(rq(1, "push", "p", n))
		}
		vrt.Sleep(stall)
		open = true
		vrt.Step(&w.c.o, "the peer takes more")
		vrt.Sleep(sec)
		w.end("goodbye")
	}, func(w *vWorld, r *radix) {
		n := bursts[r.next(len(bursts))]
		got := w.briefs()
		var want []string
		for i := 0; i < n; i++ {
			want = append(want, fmt.Sprintf(`>pushed["p",%d]`, i))
		}
		if r.next(2) == 1 {
			want = append([]string{`1=["a"]`}, want...)
		} else {
			want = append(want, fmt.Sprintf(`1=["p",%d]`, n))
		}
		if js(got) != js(want) {
			i := 0
			for i < len(got) && i < len(want) && got[i] == want[i] {
				i++
			}
			fail("V03", "pushes", "%d messages were pushed, the peer got %d, the first difference is at %d: %s", n, len(got), i, js(got[i:min(i+2, len(got))]))
		}
	})

	// many actors below the root, side by side or in a line
	vScenario("v-many-actors", "V02", prod(2, 2, 5, 3), 0, mkV, func(w *vWorld, r *radix) {
		n, shape := []int{7, 17, 33, 130, 300}[r.next(5)], r.next(3)
		at := w.actor
		told := make([]int, n)
		var sess []string
		for i := 0; i < n; i++ {
			a := jlibhttp.NewActor()
			at.AddChild(a)
			a.OnClose(func(_ *http.Request, s jlibhttp.RPCSession) {
				told[i]++
				sess = append(sess, s.SessionID())
			})
			if shape == 1 || shape == 2 && i%3 == 0 {
				at = a
			}
		}
		w.serve()
		w.tell(rq(1, "echo", "a"))
		w.await(1)
		id := w.session.SessionID()
		w.end("eof")
		w.ret.wait()
		w.g.wait()
		for i, k := range told {
			if k != 1 {
				fail("V02", "close-callbacks", "the close callback of actor %d of %d ran %d times", i, n, k)
			}
		}
		for _, s := range sess {
			if s != id {
				fail("V02", "close-session", "a close callback got the session %s, not %s", s, id)
			}
		}
	}, nil)

	// long messages, again and again
	vScenario("v-long", "V01 V03", prod(2, 2, len(lengths)), 0, mkV, func(w *vWorld, r *radix) {
		n := lengths[r.next(len(lengths))]
		w.serve()
		want := []string{}
		for i := 0; i < 4; i++ {
			t := strings.Repeat(string(rune('a'+i)), n)
			w.tell(rq(i, "echo", t))
			want = append(want, fmt.Sprintf(`%d=["%s"]`, i, t))
			w.await(len(want))
			if w.session != nil {
				w.session.Send(jlib.NewNotifyMessage("pushed", []interface{}{t, i}))
				want = append(want, fmt.Sprintf(`>pushed["%s",%d]`, t, i))
				w.await(len(want))
			}
			if w.returned {
				fail("V01 V03", "long-session", "the session ended by itself after %d messages of %d bytes", i, n)
				return
			}
		}
		got := w.briefs()
		for i, x := range want {
			if i >= len(got) || got[i] != x {
				props := "V01"
				if x[0] == '>' {
					props = "V03"
				}
				fail(props, "long", "message %d of %d bytes is missing or another, the peer got %d of %d", i, n, len(got), len(want))
				return
			}
		}
		w.end("goodbye")
	}, nil)

	// session after session on one handler, each ending in its own way
	vScenario("v-many-sessions", "V02 V01", prod(2, 2, len(endings)), 0, mkV, func(w *vWorld, r *radix) {
		first := r.next(len(endings))
		w.withClose(15)
		seen := map[string]bool{}
		for i := 0; i < 70; i++ {
			how := endings[(first+i)%len(endings)]
			if how == "server" {
				how = "eof"
			}
			w.serve()
			w.tell(rq(i, "step", i), rq("x", "push", "a"))
			w.await(4)
			if got, want := js(sorted(w.briefs())), js(sorted([]string{fmt.Sprintf("%d=[%d]", i, i), `>pushed["a",0]`, `>pushed["a",1]`, `"x"=["a"]`})); got != want {
				fail("V01", "answers", "session %d: the peer got %s, expected %s", i, got, want)
			}
			if w.session == nil || seen[w.session.SessionID()] {
				fail("V02", "close-session", "session %d has no id of its own", i)
				return
			}
			seen[w.session.SessionID()] = true
			w.end(how)
			w.ret.wait()
			w.end("eof")
			w.g.wait()
			if len(w.closes) != 4 {
				fail("V02", "close-callbacks", "session %d ended with %s, %d close callbacks ran instead of 4", i, how, len(w.closes))
			}
			for _, c := range w.closes {
				if c[2:] != w.session.SessionID() {
					fail("V02", "close-session", "a close callback got another session than the handlers of session %d", i)
				}
			}
			if i < 69 {
				w.renew()
			}
		}
	}, nil)
}

// largeC is what largeK is for the clients with their own transports.
func largeC() {
	cScenario("c-many-calls", "K01 K02 K04", prod(4, 5, 2), 0, func(w *cWorld, r *radix) {
		n, kind := []int{5, 17, 40, 120}[r.next(4)], r.next(5)
		perm := make([]int, n)
		back := r.next(2) == 1
		for i := range perm {
			perm[i] = i
			if back {
				perm[i] = n - 1 - i
			}
		}
		w.onMsg = cHold(n, perm)
		w.onMessage()
		for i := 0; i < n; i++ {
			w.g.run(fmt.Sprintf("caller-%d", i), func() { w.want(w.call(manyId(kind, i), fmt.Sprintf("m%d", i)), "answer") })
		}
	}, func(w *cWorld, r *radix) { handledIs(w.kWorld) })

	// many messages in both directions, each a little longer than the last
	longer := func(i, step int) *jlib.NotifyMessage {
		return jlib.NewNotifyMessage(fmt.Sprintf("n%d", i), []interface{}{strings.Repeat("m", i*step)})
	}
	cScenario("c-many-messages", "K01 K04", prod(3, 4, 2), 0, func(w *cWorld, r *radix) {
		n, step, apart := []int{60, 300, 1100}[r.next(3)], []int{0, 1, 7, 300}[r.next(4)], r.next(2) == 1
		if step*n > 20000 {
			n = 20000 / step
		}
		w.onMessage()
		w.kWorld.c.Connect(w.ctx)
		p := w.last()
		if p == nil {
			return
		}
		w.g.run("peer", func() {
			var all []string
			for i := 0; i < n; i++ {
				if apart {
					p.tell(wire(longer(i, step)))
				} else {
					all = append(all, wire(longer(i, step)))
				}
			}
			p.tell(all...)
		})
		w.g.run("sender", func() {
			for i := 0; i < n; i++ {
				if err := w.send(longer(i, step)); err != nil {
					fail("K04", "send-error", "a message could not be sent: %v", err)
				}
			}
		})
		w.g.wait()
		vrt.Await(&p.o, "peer waits for all messages", func() bool { return len(p.got) >= n })
		vrt.Sleep(sec)
		var want []string
		for i := 0; i < n; i++ {
			want = append(want, wire(longer(i, step)))
		}
		diff := func(props, sig string, got []string) {
			for i, x := range want {
				if i >= len(got) || got[i] != x {
					fail(props, sig, "message %d of %d with %d bytes is missing or in another place", i, n, len(x))
					return
				}
			}
			if len(got) > n {
				fail(props, sig, "%d messages arrived instead of %d", len(got), n)
			}
		}
		diff("K04", "written", p.got)
		diff("K01", "handler-messages", w.handled)
	}, nil)

	// long messages, again and again
	cScenario("c-long", "K01 K02 K04", prod(4, 2), 0, func(w *cWorld, r *radix) {
		n, calls := lengths[r.next(4)], r.next(2) == 1
		text := func(i int) *jlib.NotifyMessage {
			return jlib.NewNotifyMessage(fmt.Sprintf("n%d", i), []interface{}{strings.Repeat(string(rune('a'+i)), n)})
		}
		w.onMsg = func(p *peerConn, s string) {
			if a := answerText(s); a != "" {
				p.say(a)
			}
		}
		w.onMessage()
		w.kWorld.c.Connect(w.ctx)
		p := w.last()
		if p == nil {
			return
		}
		const k = 4
		for i := 0; i < k; i++ {
			p.tell(wire(text(i)))
			if err := w.send(text(i)); err != nil {
				fail("K04", "send-error", "a message could not be sent: %v", err)
			}
			if calls {
				w.want(w.call(i, fmt.Sprintf("m%d", i)), "answer")
			}
			vrt.Sleep(sec)
		}
		var sent []string
		for _, s := range p.got {
			if !strings.Contains(s[:min(len(s), 60)], `"id"`) {
				sent = append(sent, s)
			}
		}
		check := func(props, sig, what string, got []string) {
			for i := 0; i < k; i++ {
				if i >= len(got) || got[i] != wire(text(i)) {
					fail(props, sig, "of %d messages of %d bytes %d were %s, number %d is missing or another", k, n, len(got), what, i)
					return
				}
			}
			if len(got) > k {
				fail(props, sig, "%d messages were %s instead of %d", len(got), what, k)
			}
		}
		check("K04", "written", "written", sent)
		check("K01", "handler-messages", "handed over", w.handled)
		if len(w.conns) != 1 {
			fail("K01 K02 K04", "long-connection", "a connection with long messages was replaced: %d connections", len(w.conns))
		}
	}, nil)

	ways := []string{"eof", "close", "goodbye", "context", "malformed", "reset", "write"}
	cScenario("c-many-connections", "K03 K05", prod(7, 2), 0, func(w *cWorld, r *radix) {
		first, mixed := r.next(7), r.next(2) == 1
		w.onMsg = cEcho
		w.onMessage()
		opened := 0
		w.kWorld.c.OnConnected(func() { opened++ })
		for i := 1; i <= 40; i++ {
			how := ways[first]
			if mixed {
				how = ways[(first+i)%7]
			}
			w.onClose()
			c := w.call(i, fmt.Sprintf("m%d", i))
			w.want(c, "answer")
			if c.outcome() != "answer" || len(w.conns) != i || opened != i {
				fail("K03 K05", "not-reopened", "use %d of the client gave %s (%v), %d connections were opened, the connected handler ran %d times", i, c.outcome(), c.err, len(w.conns), opened)
				return
			}
			p := w.last()
			w.wait("waiter")
			switch how {
			case "close":
				w.kWorld.c.Close()
			case "context":
				w.cancel()
			case "write":
				p.end(how)
				w.send(ntf(2))
			default:
				p.end(how)
			}
			w.waiters.wait()
			vrt.Sleep(time.Millisecond)
			w.freshContext()
			if w.closed != i {
				fail("K03", "close-handler", "the close handler ran %d times for %d connections", w.closed, i)
			}
			if !p.gone() || w.kWorld.c.Connected() {
				fail("K03", "still-connected", "connection %d is open after it ended with %s", i, how)
			}
		}
	}, nil)
}

func init() { large(idle) }

// idle: connections on which nothing happens for a long time.
func idle() {
	kScenario("k-idle", "K01 K02 K03 K04", prod(len(gaps), 2), 0, func(w *kWorld, r *radix) {
		gap, busy := gaps[r.next(len(gaps))], r.next(2) == 1
		w.t.onWrite = echo
		w.onMessage()
		for i := 0; i < 4; i++ {
			w.want(w.call(i, fmt.Sprintf("m%d", i)), "answer")
			if err := w.send(ntf(i)); err != nil {
				fail("K04", "send-error", "sending on an open connection failed: %v", err)
			}
			vrt.Sleep(gap)
			w.t.deliver(item{msg: ntf(10 + i)})
			if busy {
				vrt.Sleep(gap)
			}
		}
		vrt.Sleep(gap)
	}, func(w *kWorld, r *radix) {
		handledIs(w, wire(ntf(10)), wire(ntf(11)), wire(ntf(12)), wire(ntf(13)))
		if w.t.gen != 1 {
			fail("K03", "idle-connection", "a connection on which nothing happened was replaced: %d connections", w.t.gen)
		}
		if len(w.t.writes) != 8 {
			fail("K04", "written", "%d messages were written, expected 8", len(w.t.writes))
		}
	})

	cScenario("c-idle", "K01 K02 K03 K04", prod(len(gaps), 4), 0, func(w *cWorld, r *radix) {
		gap, mode := gaps[r.next(len(gaps))], r.next(4)
		backlog := 5
		if mode == 3 {
			backlog = 150
		}
		stalled := false
		w.prep = func(p *peerConn) { p.gate = func() bool { return !stalled } }
		w.onMsg = func(p *peerConn, s string) {
			a := answerText(s)
			if a == "" {
				return
			}
			if mode != 1 {
				p.say(a)
				return
			}
			vrt.GoName("peer", func() {
				vrt.Sleep(9900 * time.Millisecond)
				p.tell(a)
			})
		}
		w.onMessage()
		var want []string
		for i := 0; i < 3; i++ {
			w.want(w.call(i, fmt.Sprintf("m%d", i)), "answer")
			p := w.last()
			if p == nil {
				return
			}
			vrt.Sleep(gap)
			p.tell(wire(ntf(i)))
			want = append(want, wire(ntf(i)))
			if mode >= 2 {
				// the peer takes nothing for a while
				stalled = true
				w.g.run("sender", func() {
					for k := 0; k < backlog; k++ {
						if err := w.send(ntf(1000 + 1000*i + k)); err != nil {
							fail("K04", "send-error", "sending on an open connection failed: %v", err)
						}
					}
				})
				vrt.Sleep(gap)
				stalled = false
				vrt.Touch(&p.o)
				w.g.wait()
			}
			vrt.Sleep(gap)
		}
		if len(w.conns) != 1 {
			fail("K03 K02", "idle-connection", "a connection on which nothing happened was replaced: %d connections", len(w.conns))
		}
		handledIs(w.kWorld, want...)
		if mode >= 2 {
			var sent []string
			for _, s := range w.last().got {
				if !strings.Contains(s, `"id"`) {
					sent = append(sent, s)
				}
			}
			want = nil
			for i := 0; i < 3; i++ {
				for k := 0; k < backlog; k++ {
					want = append(want, wire(ntf(1000+1000*i+k)))
				}
			}
			if js(sent) != js(want) {
				fail("K04", "written", "the peer got %s, expected %s", js(sent), js(want))
			}
		}
	}, nil)

	vScenario("v-idle", "V01 V02 V03", prod(2, 2, len(gaps), 4), 0, func(r *radix) *vWorld { return newV(kinds2[r.next(2)], r.next(2) == 0) }, func(w *vWorld, r *radix) {
		gap, mode := gaps[r.next(len(gaps))], r.next(4)
		stalled := false
		w.c.gate = func() bool { return !stalled }
		w.serve()
		n := 0
		var want []string
		for i := 0; i < 3; i++ {
			vrt.Sleep(gap)
			switch mode {
			case 0:
				w.tell(rq(i, "echo", i))
				want = append(want, fmt.Sprintf("%d=[%d]", i, i))
			case 1: // a handler takes its time
				w.release = event{}
				w.tell(rq(i, "slow", i))
				vrt.Sleep(gap)
				w.release.set()
				want = append(want, fmt.Sprintf("%d=[%d]", i, i))
			case 2: // a push into a quiet session
				if i == 0 {
					w.tell(rq("first", "echo", i))
					w.await(1)
					want = append(want, `"first"=[0]`)
					vrt.Sleep(gap)
				}
				w.session.Send(jlib.NewNotifyMessage("pushed", []interface{}{"p", i}))
				want = append(want, fmt.Sprintf(`>pushed["p",%d]`, i))
			case 3: // the peer takes nothing for a while
				if i == 0 {
					w.tell(rq("first", "echo", i))
					w.await(1)
					want = append(want, `"first"=[0]`)
				}
				stalled = true
				w.tell(rq(i, "push", i, 2))
				vrt.Sleep(gap)
				stalled = false
				vrt.Touch(&w.c.o)
				want = append(want, fmt.Sprintf(">pushed[%d,0]", i), fmt.Sprintf(">pushed[%d,1]", i), fmt.Sprintf("%d=[%d,2]", i, i))
			}
			n = len(want)
			w.await(n)
			if w.returned {
				fail("V01 V02 V03", "idle-session", "the session ended by itself, the peer got %s", js(w.briefs()))
				return
			}
		}
		vrt.Sleep(gap)
		if got := w.briefs(); js(got) != js(want) {
			fail("V01 V03", "answers", "the peer got %s, expected %s", js(got), js(want))
		}
		if w.returned {
			fail("V01 V02 V03", "idle-session", "the session ended by itself")
		}
		w.end("goodbye")
	}, nil)
}

var ways = []string{"close", "drop", "cancel", "write", "reset", "read"}
