//go:build go1.23

package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
	shimctx "github.com/superisaac/jlib/zzverif/shim/context"
	"github.com/superisaac/jlib/zzverif/vrt"
)

var errDial = errors.New("dial failed")
var errLost = errors.New("connection lost")
var errWrite = errors.New("write failed")

type item struct {
	msg  jlib.Message
	err  error
	skip bool // a frame that is no message
}

type write struct {
	gen  int
	text string
	id   interface{} // of a request
	msg  jlib.Message
	t    time.Duration
}

// fakeT is a transport under the control of the scenario.
type fakeT struct {
	o         vrt.Obj
	connected bool
	gen       int // connections opened so far
	dials     int
	dialing   int
	reading   int
	writing   int
	inbox     []item
	lost      error // the peer is gone
	writes    []write
	closes    int

	// script
	onDial   func(n int) error
	onOpen   func(gen int) []item
	onWrite  func(w write) []item
	writeErr func(gen, n int) error
	gate     func() bool // writes proceed while it holds
}

func (f *fakeT) Connect(ctx context.Context, u *url.URL, h http.Header) error {
	if f.dialing > 0 {
		fail("K05", "overlapping-dials", "two connections are being opened at the same time")
	}
	if f.connected {
		fail("K03 K05", "dial-while-connected", "a connection is opened while one is open")
	}
	f.dialing++
	f.dials++
	n := f.dials
	vrt.Step(&f.o, "dial")
	var err error
	if f.onDial != nil {
		err = f.onDial(n)
	}
	vrt.Step(&f.o, "dialled")
	f.dialing--
	if err != nil {
		return err
	}
	f.connected = true
	f.gen++
	f.inbox, f.lost = nil, nil
	if f.onOpen != nil {
		f.inbox = f.onOpen(f.gen)
	}
	return nil
}

func (f *fakeT) Close() {
	vrt.Step(&f.o, "transport close")
	f.connected = false
	f.closes++
}

func (f *fakeT) Connected() bool {
	vrt.Step(&f.o, "transport connected?")
	return f.connected
}

func (f *fakeT) ReadMessage() (jlib.Message, bool, error) {
	f.reading++
	if f.reading > 1 {
		fail("K01 K03", "overlapping-reads", "two reads from the connection at the same time")
	}
	defer func() { f.reading-- }()
	gen := f.gen
	vrt.Await(&f.o, "transport read", func() bool {
		return !f.connected || f.gen != gen || f.lost != nil || len(f.inbox) > 0
	})
	if !f.connected || f.gen != gen {
		return nil, false, jlibhttp.TransportClosed
	}
	if len(f.inbox) > 0 {
		it := f.inbox[0]
		f.inbox = append([]item(nil), f.inbox[1:]...)
		if it.err != nil {
			return nil, false, it.err
		}
		if it.skip {
			return nil, false, nil
		}
		return it.msg, true, nil
	}
	return nil, false, f.lost
}

func (f *fakeT) WriteMessage(m jlib.Message) error {
	f.writing++
	if f.writing > 1 {
		fail("K04", "overlapping-writes", "two writes to the connection at the same time")
	}
	defer func() { f.writing-- }()
	gen := f.gen
	vrt.Await(&f.o, "transport write", func() bool {
		return f.gate == nil || f.gate() || !f.connected || f.gen != gen || f.lost != nil
	})
	if !f.connected || f.gen != gen {
		return jlibhttp.TransportClosed
	}
	if f.lost != nil {
		return f.lost
	}
	if f.writeErr != nil {
		if err := f.writeErr(gen, len(f.writes)); err != nil {
			return err
		}
	}
	w := write{gen: gen, text: wire(m), msg: m, t: vrt.Now()}
	if r, ok := m.(*jlib.RequestMessage); ok {
		w.id = r.Id
	}
	f.writes = append(f.writes, w)
	if f.onWrite != nil {
		f.inbox = append(f.inbox, f.onWrite(w)...)
	}
	vrt.Step(&f.o, "transport written")
	return nil
}

// deliver puts messages into the connection, from the peer.
func (f *fakeT) deliver(its ...item) {
	vrt.Step(&f.o, "peer sends")
	f.inbox = append(f.inbox, its...)
}

func (f *fakeT) drop(err error) {
	vrt.Step(&f.o, "peer drops the connection")
	f.lost = err
}

// answer is the response of the peer to a request as it was written.
func answer(w write) item {
	r, ok := w.msg.(*jlib.RequestMessage)
	if !ok {
		return item{skip: true}
	}
	if strings.HasPrefix(r.Method, "fail") {
		e := (&jlib.RPCError{Code: 77, Message: "answer to " + r.Method}).ToMessage(r)
		e.SetTraceId("trace of " + r.Method)
		return item{msg: e}
	}
	res := jlib.NewResultMessage(r, "answer to "+r.Method)
	res.SetTraceId("trace of " + r.Method)
	return item{msg: res}
}

func (w write) isRequest() bool { _, ok := w.msg.(*jlib.RequestMessage); return ok }

// callrec is one call of a client.
type callrec struct {
	id         interface{}
	method     string
	start, end time.Duration
	res        jlib.Message
	err        error
	done       bool
}

func (c *callrec) outcome() string {
	switch {
	case !c.done:
		return "running"
	case c.err != nil:
		return "error"
	case c.res == nil:
		return "nil"
	case c.res.IsError() && c.res.MustError().Code == jlib.ErrTimeout.Code:
		return "timeout"
	}
	return "answer"
}

type kWorld struct {
	t       *fakeT
	c       *jlibhttp.StreamingClient
	g       group
	calls   []*callrec
	handled []string
	hasConn bool
	noReuse bool
	unwrap  bool // calls are made with UnwrapCall
	// opening a connection takes time
	slowDials bool
	errs      int
	handler   vrt.Obj
	opened    int // connected handler
	closed    int // close handler
	waits     int
	waiters   group
	waited    int
	ctx       context.Context
	cancel    func()
	phase     string
}

func newK() *kWorld {
	w := &kWorld{t: &fakeT{}, c: &jlibhttp.StreamingClient{}}
	u, _ := url.Parse("fake://peer")
	w.c.InitStreaming(u, w.t)
	w.ctx, w.cancel = freshCtx()
	return w
}

func (w *kWorld) onMessage() {
	w.c.OnMessage(func(m jlib.Message) {
		if w.hasConn && w.opened == 0 {
			fail("K05", "message-before-connected", "a message was delivered before the connected handler ran")
		}
		vrt.Note("handler", "message", nil)
		w.handled = append(w.handled, wire(m))
	})
}

func (w *kWorld) onConnected() {
	w.hasConn = true
	w.c.OnConnected(func() {
		vrt.Step(&w.handler, "connected handler")
		w.opened++
		vrt.Note("handler", "connected", nil)
		if w.opened > w.t.gen {
			fail("K05", "connected-twice", "the connected handler ran %d times for %d connections", w.opened, w.t.gen)
		}
	})
}

func (w *kWorld) onClose() {
	w.c.OnClose(func() {
		w.closed++
		vrt.Note("handler", "closed", nil)
	})
}

func (w *kWorld) call(id interface{}, method string) *callrec {
	c := &callrec{id: id, method: method, start: vrt.Now()}
	w.calls = append(w.calls, c)
	req := jlib.NewRequestMessage(id, method, []interface{}{})
	if w.unwrap {
		var out interface{}
		c.err = w.c.UnwrapCall(w.ctx, req, &out)
		if c.err == nil {
			c.res = jlib.NewResultMessage(req, out)
		} else if re, ok := c.err.(*jlib.RPCError); ok {
			c.res, c.err = jlib.NewErrorMessage(req, re), nil
		}
	} else {
		c.res, c.err = w.c.Call(w.ctx, req)
	}
	c.end, c.done = vrt.Now(), true
	if c.err == nil {
		if c.res == nil {
			fail("K01 K02", "nil-response", "call %s returned neither a response nor an error", method)
			return c
		}
		if got := c.res.MustId(); got != id {
			fail("K01", "wrong-id", "call %s with id %s returned a message with id %s", method, js(id), js(got))
		}
		switch c.outcome() {
		case "timeout":
			if c.end-c.start < 10*sec {
				fail("K02", "early-timeout", "call %s timed out after %v", method, c.end-c.start)
			}
		case "answer":
			if want := "trace of " + method; !w.unwrap && c.res.TraceId() != want {
				fail("K01", "wrong-trace", "call %s returned %s with trace id %s, the server answered with %s", method, wire(c.res), js(c.res.TraceId()), js(want))
			}
			if c.res.IsError() {
				if want := "answer to " + method; c.res.MustError().Message != want {
					fail("K01 K02", "wrong-response", "call %s returned %s", method, wire(c.res))
				}
			} else if want := "answer to " + method; c.res.MustResult() != want {
				fail("K01 K02", "wrong-response", "call %s returned %s", method, wire(c.res))
			}
		}
	}
	if c.end-c.start > 10*sec && !w.slowDials {
		fail("K02", "late-return", "call %s returned only after %v", method, c.end-c.start)
	}
	return c
}

func (w *kWorld) want(c *callrec, outcomes string) {
	if !strings.Contains(" "+outcomes+" ", " "+c.outcome()+" ") {
		fail("K01 K02", "outcome-"+c.outcome(), "call %s ended with %s (%v %v) after %v, expected %s", c.method, c.outcome(), c.err, c.res, c.end-c.start, outcomes)
	}
}

func (w *kWorld) send(m jlib.Message) error { return w.c.Send(w.ctx, m) }

func (w *kWorld) wait(name string) {
	w.waits++
	w.waiters.run(name, func() {
		w.c.Wait()
		w.waited++
	})
}

func ntf(n int) *jlib.NotifyMessage {
	return jlib.NewNotifyMessage(fmt.Sprintf("n%d", n), []interface{}{})
}

// check is what holds at the end of every scenario that closes its client.
func (w *kWorld) check(s *vrt.Sched) {
	if !w.ended() {
		for _, c := range w.calls {
			if !c.done {
				fail("K02", "call-never-returns", "call %s never returns; left: %v", c.method, s.Left())
			}
		}
		fail("K02 K03 K04 K05", "stuck", "the clients never finish; left: %v", s.Left())
		return
	}
	if l := s.Left(); len(l) > 0 {
		fail("K03", "left-running", "goroutines left after the connection ended: %v", l)
	}
}

func (w *kWorld) ended() bool { return w.phase == "end" }

func handledIs(w *kWorld, want ...string) {
	if js(w.handled) != js(want) && !(len(w.handled) == 0 && len(want) == 0) {
		fail("K01", "handler-messages", "the message handler got %s, expected %s", js(w.handled), js(want))
	}
}

func freshCtx() (context.Context, func()) { return shimctx.WithCancel(context.Background()) }
