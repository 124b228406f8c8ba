//go:build go1.23

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"sort"
	"strings"

	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
	"github.com/superisaac/jlib/zzverif/vrt"
)

// vWorld is one session of a streaming server with a scripted peer.
type vWorld struct {
	kind     string // ws or h2
	spawn    bool
	c        *memConn
	actor    *jlibhttp.Actor
	child    *jlibhttp.Actor
	grand    *jlibhttp.Actor
	sibling  *jlibhttp.Actor
	handler  http.Handler
	r        *http.Request
	ctx      context.Context
	cancel   func()
	sctx     context.Context
	scancel  func()
	g, peers group
	hg       int // handlers running
	ret      event
	returned bool
	session  jlibhttp.RPCSession
	sessions map[string]bool
	closes   []string
	order    []string // handler invocations
	running  int
	overlap  bool
	release  event
	phase    string
	told     int // set of actors with a close callback
	sw       *streamWriter
}

func newV(kind string, spawn bool) *vWorld {
	w := &vWorld{kind: kind, spawn: spawn, c: &memConn{}, sessions: map[string]bool{}}
	w.ctx, w.cancel = freshCtx()
	w.sctx, w.scancel = freshCtx()
	w.actor, w.child, w.grand = jlibhttp.NewActor(), jlibhttp.NewActor(), jlibhttp.NewActor()
	w.child.AddChild(w.grand)
	w.actor.AddChild(w.child)
	w.sibling = jlibhttp.NewActor()
	w.actor.AddChild(w.sibling)
	w.handlers()
	u, _ := url.Parse("http://server/")
	w.r = &http.Request{Method: "GET", URL: u, Host: "server", RemoteAddr: "mem:2", Header: http.Header{}}
	if kind == "ws" {
		h := jlibhttp.NewWSHandler(w.sctx, w.actor)
		h.SpawnGoroutine = spawn
		w.handler = h
		w.r.Header.Set("Connection", "Upgrade")
		w.r.Header.Set("Upgrade", "websocket")
		w.r.Header.Set("Sec-Websocket-Version", "13")
		w.r.Header.Set("Sec-Websocket-Key", "AAAAAAAAAAAAAAAAAAAAAA==")
		w.r.Proto, w.r.ProtoMajor, w.r.ProtoMinor = "HTTP/1.1", 1, 1
	} else {
		h := jlibhttp.NewH2Handler(w.sctx, w.actor)
		h.SpawnGoroutine = spawn
		w.handler = h
		w.r.Method = "PRI"
		w.r.Proto, w.r.ProtoMajor = "HTTP/2.0", 2
	}
	w.r = w.r.WithContext(w.ctx)
	if kind == "h2" {
		w.r.Body = &streamBody{w.c, w.ctx}
	} else {
		w.r.Body = http.NoBody
	}
	return w
}

func (w *vWorld) enter(req *jlibhttp.RPCRequest, params []interface{}) {
	vrt.Note("handler", "start", nil)
	if s := req.Session(); s != nil {
		w.sessions[s.SessionID()] = true
		w.session = s
	}
	w.order = append(w.order, req.Msg().MustMethod()+js(params))
	w.running++
	if w.running > 1 {
		w.overlap = true
	}
}

func (w *vWorld) leave() { w.running--; vrt.Note("handler", "end", nil) }

func (w *vWorld) on(a *jlibhttp.Actor, name string, f func(s jlibhttp.RPCSession, params []interface{}) (interface{}, error)) {
	a.OnRequest(name, func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
		w.enter(req, params)
		defer w.leave()
		return f(req.Session(), params)
	})
}

func (w *vWorld) handlers() {
	echo := func(s jlibhttp.RPCSession, p []interface{}) (interface{}, error) { return p, nil }
	w.on(w.actor, "echo", echo)
	w.on(w.child, "child", echo)
	w.on(w.grand, "grand", echo)
	w.on(w.actor, "step", func(s jlibhttp.RPCSession, p []interface{}) (interface{}, error) {
		vrt.Step(&w.release.o, "handler works")
		return p, nil
	})
	w.on(w.actor, "fine", func(s jlibhttp.RPCSession, p []interface{}) (interface{}, error) {
		vrt.Step(&w.release.o, "handler works")
		return nil, nil
	})
	w.on(w.actor, "slow", func(s jlibhttp.RPCSession, p []interface{}) (interface{}, error) {
		w.release.wait()
		return p, nil
	})
	w.on(w.actor, "push", func(s jlibhttp.RPCSession, p []interface{}) (interface{}, error) {
		n := 2
		if len(p) > 1 {
			x, _ := p[1].(json.Number).Int64()
			n = int(x)
		}
		for i := 0; i < n; i++ {
			s.Send(jlib.NewNotifyMessage("pushed", []interface{}{p[0], i}))
		}
		return p, nil
	})
	w.on(w.actor, "fail", func(s jlibhttp.RPCSession, p []interface{}) (interface{}, error) {
		return nil, &jlib.RPCError{Code: 7, Message: "failed"}
	})
	w.on(w.actor, "oops", func(s jlibhttp.RPCSession, p []interface{}) (interface{}, error) {
		return nil, errors.New("oops")
	})
	w.on(w.actor, "crash", func(s jlibhttp.RPCSession, p []interface{}) (interface{}, error) {
		panic(errors.New("crashed"))
	})
	w.on(w.actor, "unencodable", func(s jlibhttp.RPCSession, p []interface{}) (interface{}, error) {
		return make(chan int), nil
	})
}

// withClose registers close callbacks for the actors in the set.
func (w *vWorld) withClose(mask int) {
	w.told = mask
	for i, a := range []*jlibhttp.Actor{w.actor, w.child, w.grand, w.sibling} {
		if mask&(1<<i) == 0 {
			continue
		}
		a.OnClose(func(r *http.Request, s jlibhttp.RPCSession) {
			vrt.Note("handler", "close", nil)
			w.closes = append(w.closes, fmt.Sprintf("%d:%s", i, s.SessionID()))
			if s == nil {
				fail("V02", "close-session", "a close callback got no session")
			}
		})
	}
}

// serve runs the session in a thread.
func (w *vWorld) serve() {
	if w.kind == "ws" {
		c, seen := w.c, 0
		c.onWrite = func([]byte) {
			if seen == 0 {
				if seen = bytes.Index(c.out, []byte("\r\n\r\n")) + 4; seen < 4 {
					seen = 0
					return
				}
			}
			l, rest, _ := decodeMessages(c.out[seen:])
			seen = len(c.out) - len(rest)
			for _, f := range l {
				if f.op == opPing {
					c.in = append(c.in, encodeFrame(10, f.data, true)...)
				}
			}
		}
	}
	if w.told == 0 {
		w.withClose(15)
	}
	w.g.run("server", func() {
		if w.kind == "ws" {
			w.handler.ServeHTTP(&hijackWriter{http.Header{}, w.c}, w.r)
		} else {
			w.sw = &streamWriter{h: http.Header{}, c: w.c, ctx: w.ctx}
			w.handler.ServeHTTP(w.sw, w.r)
			if w.sw.inside > 0 {
				fail("V01 V02", "write-after-return", "the response writer is in use when the HTTP handler returns")
			}
			w.sw.returned = true
		}
		w.returned = true
		w.ret.set()
		w.cancel()
	})
}

// tell sends messages from the peer.
func (w *vWorld) tell(texts ...string) {
	var b []byte
	for _, t := range texts {
		if w.kind == "ws" {
			b = append(b, encodeFrame(opText, []byte(t), true)...)
		} else {
			b = append(b, t...)
			b = append(b, '\n')
		}
	}
	w.c.feed(b)
}

// heard is what the peer got so far.
func (w *vWorld) heard() []string {
	out := []string{}
	b := w.c.out
	if w.kind == "ws" {
		i := bytes.Index(b, []byte("\r\n\r\n"))
		if i < 0 {
			return out
		}
		b = b[i+4:]
		l, rest, err := decodeMessages(b)
		if err != nil {
			fail("V01", "garbled", "the peer got something that is no frame (%v): %.200q", err, rest)
		}
		for _, f := range l {
			if f.op == opText {
				out = append(out, string(f.data))
			}
		}
		return out
	}
	for {
		i := bytes.IndexByte(b, '\n')
		if i < 0 {
			return out
		}
		l := string(b[:i])
		b = b[i+1:]
		if !json.Valid([]byte(l)) {
			fail("V01 V03", "garbled", "the peer got a line that is no message: %q", l)
		}
		out = append(out, l)
	}
}

func (w *vWorld) await(n int) {
	vrt.Await(&w.c.o, fmt.Sprintf("peer waits for %d messages", n), func() bool {
		if len(w.c.out) == 0 || w.returned {
			return w.returned
		}
		return len(w.heard()) >= n
	})
}

func (w *vWorld) end(how string) {
	switch how {
	case "eof":
		w.c.drop(io.EOF)
	case "reset":
		w.c.drop(errLost)
	case "goodbye":
		if w.kind == "ws" {
			w.c.feed(encodeFrame(opClose, []byte{3, 232}, true))
			w.c.drop(io.EOF)
		} else {
			w.c.drop(io.EOF)
		}
	case "malformed":
		w.tell(`{"jsonrpc":"2.0","id":5`)
		if w.kind == "h2" {
			w.tell("}}")
		}
	case "handler error":
		w.tell(`{"jsonrpc":"2.0","method":"oops","params":[]}`)
	case "context":
		w.cancel()
	case "server":
		w.scancel()
	case "write":
		if w.kind == "ws" {
			// without the answer to the handshake there is no session
			vrt.Await(&w.c.o, "peer waits for the handshake", func() bool { return len(w.c.out) > 0 || w.returned })
		}
		w.c.wErr = errWrite
		w.tell(`{"jsonrpc":"2.0","id":5,"method":"echo","params":[]}`)
	}
}

var endings = []string{"eof", "goodbye", "malformed", "handler error", "context", "server", "write", "reset"}

func rq(id interface{}, method string, params ...interface{}) string {
	if params == nil {
		params = []interface{}{}
	}
	return fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"method":"%s","params":%s}`, js(id), method, js(params))
}

func nt(method string, params ...interface{}) string {
	if params == nil {
		params = []interface{}{}
	}
	return fmt.Sprintf(`{"jsonrpc":"2.0","method":"%s","params":%s}`, method, js(params))
}

// brief turns a message into id:what or >method params.
func brief(s string) string {
	var m struct {
		Id      json.RawMessage
		TraceId string `json:"traceid"`
		Method  string
		Params  json.RawMessage
		Result  json.RawMessage
		Error   *struct {
			Code    int
			Message string
		}
	}
	if err := json.Unmarshal([]byte(s), &m); err != nil {
		return "?" + s
	}
	t := ""
	if m.TraceId != "" {
		t = "@" + m.TraceId
	}
	switch {
	case m.Method != "":
		return ">" + m.Method + string(m.Params)
	case m.Error != nil:
		return fmt.Sprintf("%s%s!%d", m.Id, t, m.Error.Code)
	}
	return string(m.Id) + t + "=" + string(m.Result)
}

func (w *vWorld) briefs() []string {
	var out []string
	for _, h := range w.heard() {
		out = append(out, brief(h))
	}
	return out
}

func sorted(l []string) []string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return l
}

// subseq says whether want occurs in got in that order.
func subseq(got, want []string) bool {
	for _, g := range got {
		if len(want) > 0 && g == want[0] {
			want = want[1:]
		}
	}
	return len(want) == 0
}

func (w *vWorld) check(s *vrt.Sched) {
	if w.phase != "end" {
		l := s.Left()
		for _, x := range l {
			if strings.HasPrefix(x, "pusher") {
				fail("V03", "push-blocked", "a push never returns; left: %v", l)
			}
		}
		fail("V01 V02 V03", "stuck", "the session never ends; left: %v", l)
		return
	}
	if l := s.Left(); len(l) > 0 {
		fail("V02 V03", "left-running", "goroutines left after the session ended: %v", l)
	}
	per := map[string]int{}
	for _, c := range w.closes {
		per[c[:1]]++
	}
	for i := 0; i < 4; i++ {
		if n := per[fmt.Sprint(i)]; n != w.told>>i&1 {
			fail("V02", "close-callbacks", "the close callback of actor %d (0 root, 1 child, 2 grandchild, 3 second child) ran %d times", i, n)
		}
	}
	ids := map[string]bool{}
	for k := range w.sessions {
		ids[k] = true
	}
	for _, c := range w.closes {
		ids[c[2:]] = true
	}
	if len(ids) > 1 {
		fail("V02", "close-session", "handlers and close callbacks saw %d sessions", len(ids))
	}
	w.heard()
}
