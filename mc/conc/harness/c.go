//go:build go1.23

package main

import (
	"fmt"
	"time"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/zzverif/vrt"
)

// cScenario registers a scenario of the clients with their own transports.
func cScenario(name, props string, variants, quick int, script func(w *cWorld, r *radix), after func(w *cWorld, r *radix)) {
	add(&Scenario{Name: name, Props: props, Variants: variants * 2, Quick: quick, Run: func(v int) (func(), func(*vrt.Sched)) {
		var w *cWorld
		body := func() {
			r := &radix{v}
			w = newC(kinds2[r.next(2)])
			script(w, r)
			w.g.wait()
			w.phase = "closing"
			w.kWorld.c.Close()
			w.waiters.wait()
			w.phase = "end"
		}
		return body, func(s *vrt.Sched) {
			if !w.hooked {
				return // the client does not open its connections the way the peer expects
			}
			w.check(s)
			if len(s.Fails) == 0 && w.ended() {
				for _, p := range w.conns {
					if !p.gone() {
						fail("K03", "transport-open", "a connection is left open")
					}
				}
				if after != nil {
					r := &radix{v}
					r.next(2)
					after(w, r)
				}
			}
		}
	}})
}

func init() {
	ids2 := [][]interface{}{{1, 2}, {1, 1}, {"a", 1}}

	// two callers, answers at once or held back, in pieces, with pushes around
	cScenario("c-two-calls", "K01 K02 K04", prod(len(ids2), 3, 2), 0, func(w *cWorld, r *radix) {
		ids := ids2[r.next(len(ids2))]
		mode, pre := r.next(3), r.next(2)
		w.onMsg = []func(*peerConn, string){cEcho, cHold(2, perms2[0]), cHold(2, perms2[1])}[mode]
		w.onMessage()
		if pre == 1 {
			w.kWorld.c.Connect(w.ctx)
		}
		for i, m := range []string{"a", "fail_b"} {
			w.g.run("caller-"+m, func() { w.want(w.call(ids[i], m), "answer") })
		}
	}, func(w *cWorld, r *radix) {
		handledIs(w.kWorld)
		p := w.last()
		if len(p.got) != 2 {
			fail("K04", "written", "the peer got %s", js(w.texts(p)))
		}
	})

	// what the peer sends around the answer: pushes, frames that carry no
	// message, an answer in pieces
	cScenario("c-frames", "K01 K02 K03", prod(6), 0, func(w *cWorld, r *radix) {
		mode := r.next(6)
		w.onMessage()
		w.onMsg = func(p *peerConn, s string) {
			a := answerText(s)
			if a == "" {
				return
			}
			switch mode {
			case 0:
				p.say(wire(ntf(1)), a, wire(ntf(2)))
			case 1: // frames of other kinds
				if p.kind == "ws" {
					p.in = append(p.in, encodeFrame(opBinary, []byte("{}"), false)...)
					p.in = append(p.in, encodeFrame(opPing, []byte("?"), false)...)
				}
				p.say(wire(ntf(1)), a, wire(ntf(2)))
			case 2: // a message in two fragments
				n := wire(ntf(1))
				if p.kind == "ws" {
					f := encodeFrame(opText, []byte(n[:9]), false)
					f[0] &^= 0x80
					g := encodeFrame(0, []byte(n[9:]), false)
					p.in = append(append(p.in, f...), g...)
				} else {
					p.in = append(p.in, n[:9]...)
					p.in = append(p.in, n[9:]...)
				}
				p.say(a, wire(ntf(2)))
			case 3: // pieces of the answer come later
				b := p.frames(wire(ntf(1)), a, wire(ntf(2)))
				w.g.run("peer", func() {
					p.feed(b[:7])
					p.feed(b[7:60])
					p.feed(b[60:])
				})
			case 4: // a request of the server with the id of the call
				p.say(wire(jlib.NewRequestMessage(1, "n1", []interface{}{})), a, wire(ntf(2)))
			case 5: // the answer to another call
				p.say(wire(jlib.NewResultMessage(jlib.NewRequestMessage("1", "n1", nil), "other")), a, wire(ntf(2)))
			}
		}
		w.g.run("caller", func() { w.want(w.call(1, "a"), "answer") })
		w.g.wait()
		vrt.Sleep(sec)
	}, func(w *cWorld, r *radix) {
		first := wire(ntf(1))
		switch r.next(6) {
		case 4:
			first = wire(jlib.NewRequestMessage(1, "n1", []interface{}{}))
		case 5:
			first = wire(jlib.NewResultMessage(jlib.NewRequestMessage("1", "n1", nil), "other"))
		}
		handledIs(w.kWorld, first, wire(ntf(2)))
	})

	// the connection ends in any way, idle or busy, and can be opened again
	cEndings := []string{"eof", "reset", "goodbye", "malformed", "write", "close", "context"}
	cScenario("c-end", "K03 K02 K01", prod(len(cEndings), 3), 0, func(w *cWorld, r *radix) {
		how, busy := cEndings[r.next(len(cEndings))], r.next(3)
		w.onClose()
		w.onMessage()
		w.kWorld.c.Connect(w.ctx)
		p := w.last()
		if p == nil {
			w.reopened()
			return
		}
		w.wait("waiter")
		switch busy {
		case 1:
			w.g.run("caller", func() { w.call(1, "a") })
		case 2:
			w.onMsg = cEcho
			w.g.run("caller", func() { w.call(1, "a") })
			w.g.run("sender", func() { w.send(ntf(1)) })
		}
		w.g.run("end", func() {
			switch how {
			case "close":
				w.kWorld.c.Close()
			case "context":
				w.cancel()
			case "write":
				p.end(how)
				w.send(ntf(2))
			default:
				p.end(how)
			}
		})
		w.g.wait()
		if busy == 0 {
			// nobody opened it again
			w.waiters.wait()
		}
		w.reopened()
	}, func(w *cWorld, r *radix) { closedOnce(w.kWorld, r) })

	cPairs := [][2]string{{"eof", "close"}, {"malformed", "context"}, {"write", "close"}, {"goodbye", "context"}, {"close", "context"}, {"close", "close"}, {"eof", "write"}, {"malformed", "close"}}
	cScenario("c-double-end", "K03", prod(len(cPairs), 2), 0, func(w *cWorld, r *radix) {
		pair, busy := cPairs[r.next(len(cPairs))], r.next(2)
		w.onClose()
		w.kWorld.c.Connect(w.ctx)
		p := w.last()
		if p == nil {
			w.reopened()
			return
		}
		w.wait("waiter")
		if busy == 1 {
			w.g.run("caller", func() { w.call(1, "a") })
		}
		for i, how := range pair {
			w.g.run(fmt.Sprintf("end-%d", i), func() {
				switch how {
				case "close":
					w.kWorld.c.Close()
				case "context":
					w.cancel()
				case "write":
					p.end(how)
					w.send(ntf(2))
				default:
					p.end(how)
				}
			})
		}
		w.g.wait()
		w.reopened()
	}, func(w *cWorld, r *radix) { closedOnce(w.kWorld, r) })

	// two senders and a ping of the peer share the connection
	cScenario("c-senders", "K04", prod(2), 0, func(w *cWorld, r *radix) {
		long := r.next(2) == 1
		w.kWorld.c.Connect(w.ctx)
		for s := 0; s < 2; s++ {
			w.g.run(fmt.Sprintf("sender-%d", s), func() {
				for i := 0; i < 2; i++ {
					m := ntf(10*s + i)
					if long {
						m = big(10*s+i, "x")
					}
					if err := w.send(m); err != nil {
						fail("K04", "send-error", "a message could not be sent: %v", err)
					}
				}
			})
		}
		if p := w.last(); p != nil {
			if w.kind == "ws" {
				p.feed(encodeFrame(opPing, []byte("?"), false))
			}
			vrt.Await(&p.o, "peer waits for 4 messages", func() bool { return len(p.got) >= 4 })
		}
	}, func(w *cWorld, r *radix) {
		long := r.next(2) == 1
		p := w.last()
		var want []string
		for s := 0; s < 2; s++ {
			var l []string
			for i := 0; i < 2; i++ {
				m := ntf(10*s + i)
				if long {
					m = big(10*s+i, "x")
				}
				l = append(l, wire(m))
			}
			want = append(want, l...)
			if !subseq(p.got, l) {
				fail("K04", "written-out-of-order", "the peer got %s", js(w.texts(p)))
			}
		}
		if js(sorted(want)) != js(sorted(p.got)) {
			fail("K04", "written", "the peer got %s", js(w.texts(p)))
		}
	})

	// first use by two users, with attempts that fail in several ways
	cDials := []string{"", "refuse", "status", "garbage"}
	cScenario("c-first-use", "K05 K03", prod(len(cDials), 2, 2), 0, func(w *cWorld, r *radix) {
		d, all, call := cDials[r.next(len(cDials))], r.next(2) == 1, r.next(2) == 1
		w.onMsg = cEcho
		opened := 0
		w.kWorld.c.OnConnected(func() {
			vrt.Step(&w.handler, "connected handler")
			opened++
			vrt.Note("handler", "connected", nil)
			if opened > len(w.conns) {
				fail("K05", "connected-twice", "the connected handler ran %d times for %d connections", opened, len(w.conns))
			}
		})
		w.onDial = func(n int) string {
			if n == 1 || all {
				return d
			}
			return ""
		}
		w.kWorld.c.OnMessage(func(m jlib.Message) {
			if opened == 0 {
				fail("K05", "message-before-connected", "a message was delivered before the connected handler ran")
			}
		})
		w.onOpen = func(p *peerConn) { p.say(wire(ntf(1))) }
		for i := 0; i < 2; i++ {
			w.g.run(fmt.Sprintf("user-%d", i), func() {
				var err error
				if call {
					err = w.call(i, "a").err
				} else {
					err = w.kWorld.c.Connect(w.ctx)
				}
				if err != nil {
					w.errs++
				}
				if d == "" && err != nil {
					fail("K05", "first-use-error", "failed: %v", err)
				}
				if d != "" && all && err == nil {
					fail("K05", "no-error", "success without a connection (%s)", d)
				}
			})
		}
		w.g.wait()
		if d != "" && all && w.kWorld.c.Connected() {
			fail("K05 K03", "connected-after-failure", "the client says it is connected after every attempt failed")
		}
		w.onDial = nil
		w.want(w.call("last", "z"), "answer")
		if opened != len(w.conns) || opened != 1 {
			fail("K05", "connected-handler", "%d connections were opened, the connected handler ran %d times", len(w.conns), opened)
		}
		if d != "" && !all && w.errs != 1 {
			fail("K05", "first-use-error", "%d users got an error when one attempt failed", w.errs)
		}
	}, nil)

	// the peer takes the connection and does not answer the handshake
	cScenario("c-silent-dial", "K02 K05", prod(3, 2, 2), 0, func(w *cWorld, r *radix) {
		use, all, n := []string{"connect", "call", "send"}[r.next(3)], r.next(2) == 1, 1+r.next(2)
		w.slowDials = true
		w.handshake = 45 * time.Second // as it is by default
		if w.kind == "ws" {
			w.hookDialer()
		}
		w.onMsg = cEcho
		w.onDial = func(k int) string {
			if k == 1 || all {
				return "silent"
			}
			return ""
		}
		for i := 0; i < n; i++ {
			w.g.run(fmt.Sprintf("user-%d", i), func() {
				var err error
				switch use {
				case "connect":
					err = w.kWorld.c.Connect(w.ctx)
				case "call":
					err = w.call(i, "a").err
				case "send":
					err = w.send(ntf(i))
				}
				if err != nil {
					w.errs++
				}
			})
		}
		w.g.wait()
		if w.errs == 0 || all && w.errs != n {
			fail("K02 K05", "silent-peer", "%d of %d users got an error, %d connections were opened to a peer that says nothing", w.errs, n, len(w.silent))
		}
		for _, p := range w.silent {
			if !p.gone() {
				fail("K05", "left-open", "the connection to a peer that says nothing is left open")
			}
		}
		if all && w.kWorld.c.Connected() {
			fail("K05", "connected-after-failure", "the client says it is connected after every attempt failed")
		}
		w.reopened()
	}, nil)

	// the close handler registers itself again and uses the client
	cScenario("c-handlers", "K03 K05", prod(len(cEndings), 2), 0, func(w *cWorld, r *radix) {
		how, inside := cEndings[r.next(len(cEndings))], r.next(2) == 1
		w.onMsg = cEcho
		w.onMessage()
		w.kWorld.c.OnConnected(func() {
			vrt.Step(&w.handler, "connected handler")
			w.opened++
		})
		done := w.renewing(inside)
		w.kWorld.c.Connect(w.ctx)
		p := w.last()
		if p == nil {
			w.reopened()
			return
		}
		w.wait("waiter")
		switch how {
		case "close":
			w.kWorld.c.Close()
		case "context":
			w.cancel()
		case "write":
			p.end(how)
			w.send(ntf(2))
		default:
			p.end(how)
		}
		done()
		if len(w.conns) != 2 || w.opened != 2 || w.last().gone() {
			fail("K03 K05", "not-reopened", "%d connections were opened, the connected handler ran %d times, after one connection ended", len(w.conns), w.opened)
		}
	}, func(w *cWorld, r *radix) { closedTwice(w.kWorld) })

	// the peer takes nothing more, a sender is stuck, then the connection ends
	cScenario("c-stalled", "K03 K02", prod(3, 2), 2, func(w *cWorld, r *radix) {
		how, busy := r.next(3), r.next(2)
		stalled := false
		w.prep = func(p *peerConn) {
			if w.dials == 1 {
				p.gate = func() bool { return !stalled }
			}
		}
		w.onClose()
		w.kWorld.c.Connect(w.ctx)
		p := w.last()
		if p == nil {
			w.reopened()
			return
		}
		stalled = true
		w.wait("waiter")
		w.send(ntf(0))
		if busy == 1 {
			w.g.run("caller", func() { w.call(1, "a") })
		} else {
			w.g.run("sender", func() { w.send(ntf(1)) })
		}
		w.g.run("end", func() {
			switch how {
			case 0:
				w.kWorld.c.Close()
			case 1:
				w.cancel()
			case 2:
				p.end("eof")
			}
		})
		w.g.wait()
		w.reopened()
	}, func(w *cWorld, r *radix) { closedOnce(w.kWorld, r) })
}
