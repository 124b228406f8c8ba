//go:build go1.22

package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	. "github.com/superisaac/jlib/zzverif/kit"
)

// answer is what the scripted server does with one request.
type answer struct {
	name   string
	raw    string // bytes it sends
	cut    int    // number of those it really sends, -1 all
	end    string // what follows: "keep", "close", "reset", "hang"
	noRead bool   // ends without reading the request
	// meaning, when complete
	status int
	body   string
}

type seen struct {
	method, uri, host string
	header            http.Header
	body              string
}

// server is a raw TCP server which follows a script, one answer per request.
type server struct {
	l     net.Listener
	mu    sync.Mutex
	todo  []answer
	got   []seen
	conns []net.Conn
	wg    sync.WaitGroup
}

func serve(x *X, script []answer) *server {
	l := Listen()
	s := &server{l: l, todo: script}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns = append(s.conns, c)
			s.mu.Unlock()
			s.wg.Add(1)
			go func() {
				defer s.wg.Done()
				s.talk(c)
			}()
		}
	}()
	return s
}

func (s *server) pop() (answer, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.todo) == 0 {
		return answer{}, false
	}
	a := s.todo[0]
	s.todo = s.todo[1:]
	return a, true
}

func (s *server) talk(c net.Conn) {
	br := bufio.NewReader(c)
	for {
		if _, err := br.Peek(1); err != nil {
			return
		}
		a, ok := s.pop()
		if !ok {
			c.Close()
			return
		}
		if !a.noRead {
			r, err := http.ReadRequest(br)
			if err != nil {
				c.Close()
				return
			}
			body, _ := io.ReadAll(r.Body)
			s.mu.Lock()
			s.got = append(s.got, seen{r.Method, r.RequestURI, r.Host, r.Header, string(body)})
			s.mu.Unlock()
		}
		raw := a.raw
		if a.cut >= 0 {
			raw = raw[:a.cut]
		}
		io.WriteString(c, raw)
		switch a.end {
		case "close":
			c.Close()
			return
		case "reset":
			c.(*net.TCPConn).SetLinger(0)
			c.Close()
			return
		case "hang":
			io.Copy(io.Discard, br)
			return
		}
	}
}

func (s *server) stop() {
	s.l.Close()
	s.mu.Lock()
	for _, c := range s.conns {
		c.Close()
	}
	s.mu.Unlock()
	s.wg.Wait()
}

func response(status int, framing, body, extra string) (raw string, end string) {
	head := fmt.Sprintf("HTTP/1.1 %d %s\r\nX-From: test\r\n%s", status, http.StatusText(status), extra)
	switch {
	case status == 204 || status == 304:
		return head + "\r\n", "keep"
	case framing == "length":
		return fmt.Sprintf("%sContent-Length: %d\r\n\r\n%s", head, len(body), body), "keep"
	case framing == "chunked":
		var b strings.Builder
		b.WriteString(head + "Transfer-Encoding: chunked\r\n\r\n")
		piece := 10
		if len(body) > 100000 {
			piece = 3000
		}
		for i := 0; i < len(body); i += piece {
			j := i + piece
			if j > len(body) {
				j = len(body)
			}
			fmt.Fprintf(&b, "%x\r\n%s\r\n", j-i, body[i:j])
		}
		b.WriteString("0\r\n\r\n")
		return b.String(), "keep"
	default:
		return head + "Connection: close\r\n\r\n" + body, "close"
	}
}

func h03() []Family {
	type bodyT struct {
		name, text string
		want       M // the message, without jsonrpc and traceid
	}
	bodies := []bodyT{
		{"result", `{"jsonrpc":"2.0","id":1,"result":"ok"}`, M{"id": N("1"), "result": "ok"}},
		{"result of another id", `{"jsonrpc":"2.0","id":"other","result":{"a":[1.50,12345678901234567890]}}`, M{"id": "other", "result": M{"a": L{N("1.50"), N("12345678901234567890")}}}},
		{"null result", `{"jsonrpc":"2.0","id":1,"result":null}`, M{"id": N("1"), "result": nil}},
		{"rpc error", `{"jsonrpc":"2.0","id":1,"error":{"code":-5,"message":"bad","data":[1]}}`, M{"id": N("1"), "error": M{"code": N("-5"), "message": "bad", "data": L{N("1")}}}},
		{"traced result", `{"jsonrpc":"2.0","id":1,"result":5,"traceid":"server"}`, M{"id": N("1"), "result": N("5")}},
		{"request", `{"jsonrpc":"2.0","id":1,"method":"m","params":[]}`, M{"id": N("1"), "method": "m", "params": L{}}},
		{"notify", `{"jsonrpc":"2.0","method":"m","params":[1]}`, M{"method": "m", "params": L{N("1")}}},
		{"long", `{"jsonrpc":"2.0","id":1,"result":"` + strings.Repeat("long ", 3000) + `"}`, M{"id": N("1"), "result": strings.Repeat("long ", 3000)}},
		{"empty", "", nil}, {"text", "auth failed!\n", nil}, {"object", "{}", nil}, {"list", `[{"id":1,"result":1}]`, nil}, {"null", "null", nil}, {"cut", `{"jsonrpc":"2.0","id":1,"resul`, nil}, {"both", `{"id":1,"result":1,"error":{"code":1,"message":"x"}}`, nil}, {"html", "<html>\x00\xff", nil},
	}
	statuses := []int{200, 201, 202, 204, 206, 300, 301, 304, 400, 401, 403, 404, 405, 408, 409, 418, 429, 500, 501, 502, 503, 504, 599}
	type reqT struct {
		id    interface{}
		trace string
		ps    interface{}
	}
	reqs := []reqT{{1, "", L{}}, {1, "tr-1", L{N("1"), "é", nil}}, {"id", "", L{M{"a": N("12345678901234567890")}}}, {"", "x", L{"<&>"}}}
	hdrs := []http.Header{nil, {}, {"X-One": {"1"}}, {"Authorization": {"Bearer t"}, "X-Two": {"a", "b"}}}
	mkReq := func(r reqT) *jlib.RequestMessage {
		m := jlib.NewRequestMessage(r.id, "m", r.ps.(L))
		m.SetTraceId(r.trace)
		return m
	}
	client := func(s *server, path string, timeout int, h http.Header) *jlibhttp.H1Client {
		u, _ := url.Parse("http://" + s.l.Addr().String() + path)
		c := jlibhttp.NewH1Client(u, jlibhttp.ClientOptions{Timeout: timeout})
		if h != nil {
			c.SetExtraHeader(h)
		}
		return c
	}
	// do performs one operation and compares the outcome with the answer
	do := func(x *X, c *jlibhttp.H1Client, ctx context.Context, how string, rt reqT, a answer, b *bodyT, complete bool, where string) {
		req := mkReq(rt)
		before, _ := jlib.MessageBytes(req)
		var res jlib.Message
		var err error
		var out interface{}
		x.Op()
		t0 := time.Now()
		p, pv := Try(func() {
			switch how {
			case "call":
				res, err = c.Call(ctx, req)
			case "unwrap":
				err = c.UnwrapCall(ctx, req, &out)
			case "send":
				err = c.Send(ctx, req)
			}
		})
		x.Check(!p, "panic", "%s: %s panicked: %v", where, how, pv)
		x.Check(time.Since(t0) < 50*time.Second, "slow", "%s: %s took %v", where, how, time.Since(t0))
		after, _ := jlib.MessageBytes(req)
		x.Check(string(before) == string(after), "message-changed", "%s: the message was %s, is %s", where, before, after)
		good := complete && a.status == 200
		if how == "send" {
			// the body is not looked at, its loss need not be noticed
			if complete {
				x.Check((err == nil) == good, "send", "%s: Send gave %v", where, err)
			} else if a.status != 200 {
				x.Check(err != nil, "send-lost", "%s: Send gave no error", where)
			}
			if complete && !good {
				var w *jlibhttp.WrappedResponse
				x.Check(errors.As(err, &w) && w.Response.StatusCode == a.status, "send-status", "%s: Send error %v", where, err)
			}
			x.Outcome("send")
			return
		}
		if good && b != nil && b.want != nil {
			if how == "call" {
				x.Outcome("message")
				x.Check(err == nil && res != nil, "refused", "%s: error %v", where, err)
				want := M{"jsonrpc": "2.0"}
				for k, v := range b.want {
					want[k] = v
				}
				if rt.trace != "" {
					want["traceid"] = rt.trace
				}
				got, e := jlib.MessageBytes(res)
				x.Check(e == nil && CanonOf(got) == Canon(want), "content", "%s: got %.200s want %.200s", where, got, Canon(want))
				return
			}
			if r, ok := b.want["result"]; ok {
				x.Outcome("unwrapped")
				if r == nil {
					x.Check(err == nil, "unwrap-null", "%s: %v", where, err)
					return
				}
				x.Check(err == nil && Canon(out) == Canon(r), "unwrap", "%s: got %.200s, error %v", where, Canon(out), err)
			} else if e, ok := b.want["error"].(M); ok {
				x.Outcome("rpc-error")
				var re *jlib.RPCError
				x.Check(errors.As(err, &re) && fmt.Sprint(re.Code) == Canon(e["code"]) && re.Message == e["message"] && Canon(re.Data) == Canon(e["data"]), "unwrap-error", "%s: error %v", where, err)
			} else {
				x.Outcome("no-answer")
				x.Check(err != nil, "unwrap-request", "%s: a message that is no answer was unwrapped", where)
			}
			return
		}
		x.Check(err != nil, "no-error", "%s: %s gave no error, message %v", where, how, res)
		x.Check(res == nil, "message-and-error", "%s: message %v with error %v", where, res, err)
		if complete && a.status != 200 {
			x.Outcome("status")
			var w *jlibhttp.WrappedResponse
			x.Check(errors.As(err, &w), "status-error", "%s: error %v carries no response", where, err)
			x.Check(w.Response.StatusCode == a.status && string(w.Body) == a.body && w.Response.Header.Get("X-From") == "test", "status-content", "%s: error carries %d %.200q", where, w.Response.StatusCode, w.Body)
		} else {
			x.Outcome("error")
		}
	}
	hows := []string{"call", "unwrap", "send"}
	mkAnswer := func(status int, framing string, b *bodyT) answer {
		raw, end := response(status, framing, b.text, "")
		body := b.text
		if status == 204 || status == 304 {
			body = ""
		}
		return answer{raw: raw, cut: -1, end: end, status: status, body: body}
	}
	checkWire := func(x *X, s *server, path string, rt reqT, h http.Header, where string) {
		s.mu.Lock()
		defer s.mu.Unlock()
		x.Check(len(s.got) == 1, "requests", "%s: the server saw %d requests", where, len(s.got))
		g := s.got[0]
		s.got = nil
		x.Check(g.method == "POST" && g.uri == path && g.host == s.l.Addr().String(), "wire", "%s: %s %s on %s", where, g.method, g.uri, g.host)
		x.Check(g.header.Get("Content-Type") == "application/json", "wire-type", "%s: content type %q", where, g.header.Get("Content-Type"))
		want := M{"jsonrpc": "2.0", "id": rt.id, "method": "m", "params": rt.ps}
		if i, ok := rt.id.(int); ok {
			want["id"] = N(fmt.Sprint(i))
		}
		v, err := Parse([]byte(g.body))
		m, _ := v.(M)
		if tr, ok := m["traceid"]; ok { // either place carries it
			x.Check(tr == rt.trace, "wire-trace", "%s: traceid %v in the body", where, tr)
			delete(m, "traceid")
		}
		x.Check(err == nil && Canon(m) == Canon(want), "wire-body", "%s: body %.200s", where, g.body)
		x.Check(strings.Join(g.header["X-Trace-Id"], "|") == rt.trace, "wire-trace", "%s: X-Trace-Id %q", where, g.header["X-Trace-Id"])
		for k, vs := range h {
			x.Check(strings.Join(g.header[k], "|") == strings.Join(vs, "|"), "wire-extra", "%s: header %s = %q", where, k, g.header[k])
		}
	}
	return []Family{{Name: "answers", Run: func(x *X) {
		st := statuses[x.Choose(len(statuses))]
		b := &bodies[x.Choose(len(bodies))]
		framing := Pick(x, []string{"length", "chunked", "until close"})
		how := Pick(x, hows)
		rt := reqs[x.Choose(2)]
		a := mkAnswer(st, framing, b)
		where := fmt.Sprintf("status %d, body %s by %s", st, b.name, framing)
		x.State(where, how, rt.trace)
		x.Step("%s: %s", how, where)
		s := serve(x, []answer{a})
		defer s.stop()
		do(x, client(s, "/rpc", 60, nil), context.Background(), how, rt, a, b, true, where)
		checkWire(x, s, "/rpc", rt, nil, where)
	}}, {Name: "sizes", Run: func(x *X) {
		// long answers, round the sizes of usual buffers and limits
		n := Pick(x, sizes)
		b := &bodyT{text: sized(`{"jsonrpc":"2.0","id":1,"result":"`, n, `"}`)}
		b.want = M{"id": N("1"), "result": b.text[len(`{"jsonrpc":"2.0","id":1,"result":"`) : n-2]}
		st := []int{200, 500}[x.Choose(2)]
		framing := Pick(x, []string{"length", "chunked", "until close"})
		how := Pick(x, hows)
		rt := reqs[1]
		if how == "send" {
			rt = reqT{1, "tr-1", L{strings.Repeat("z", n)}}
		}
		if n > 1<<20 && framing == "chunked" && !x.Thorough {
			x.Skip()
		}
		a := mkAnswer(st, framing, b)
		where := fmt.Sprintf("status %d, body of %d bytes by %s", st, n, framing)
		x.State(where, how)
		x.Step("%s: %s", how, where)
		s := serve(x, []answer{a})
		defer s.stop()
		c := client(s, "/rpc", 60, nil)
		{
			do(x, c, context.Background(), how, rt, a, b, true, where)
			checkWire(x, s, "/rpc", rt, nil, where)
		}
	}}, {Name: "wire", Run: func(x *X) {
		rt := reqs[x.Choose(len(reqs))]
		h := hdrs[x.Choose(len(hdrs))]
		how := Pick(x, hows)
		path := Pick(x, []string{"/", "/a/b", "/a?x=1&y=%20"})
		n := 1 + x.Choose(2)
		b := &bodies[0]
		a := mkAnswer(200, "length", b)
		s := serve(x, []answer{a, a})
		defer s.stop()
		c := client(s, path, 60, h)
		for i := 0; i < n; i++ {
			where := fmt.Sprintf("call %d of id %v trace %q extra %v", i, rt.id, rt.trace, h)
			x.State(where, how, path)
			x.Step("%s: %s", how, where)
			do(x, c, context.Background(), how, rt, a, b, true, where)
			checkWire(x, s, path, rt, h, where)
		}
	}}, {Name: "cuts", Run: func(x *X) {
		// the connection ends after any number of bytes
		b := &bodies[[]int{0, 3, 9}[x.Choose(3)]]
		st := []int{200, 500}[x.Choose(2)]
		framing := Pick(x, []string{"length", "chunked"})
		end := Pick(x, []string{"close", "reset"})
		how := Pick(x, hows)
		a := mkAnswer(st, framing, b)
		cut := x.Choose(len(a.raw) + 1)
		if cut == len(a.raw) {
			x.Skip()
		}
		a.cut, a.end = cut, end
		rt := reqs[1]
		where := fmt.Sprintf("status %d, body %s by %s, %s after %d of %d bytes", st, b.name, framing, end, cut, len(a.raw))
		x.State(where, how)
		x.Step("%s: %s", how, where)
		s := serve(x, []answer{a})
		defer s.stop()
		if how == "send" && cut >= strings.Index(a.raw, "\r\n\r\n")+4 {
			x.Skip() // all headers came: the status counts
		}
		do(x, client(s, "/", 60, nil), context.Background(), how, rt, a, b, false, where)
	}}, {Name: "no-server", Run: func(x *X) {
		how := Pick(x, hows)
		what := Pick(x, []string{"refused", "unread close", "unread reset", "cancelled before", "expired before", "bad status line", "http2 preface", "short"})
		a := answer{cut: -1, end: "close"}
		switch what {
		case "unread close":
			a.noRead = true
		case "unread reset":
			a.noRead, a.end = true, "reset"
		case "bad status line":
			a.raw = "HELLO\r\n\r\n"
		case "http2 preface":
			a.raw = "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"
		case "short":
			a.raw = "HTTP/1.1 200 OK\r\nContent-Length: 500\r\n\r\n{\"jsonrpc\""
		}
		s := serve(x, []answer{a})
		defer s.stop()
		if what == "refused" {
			s.stop()
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		if what == "cancelled before" {
			cancel()
		}
		if what == "expired before" {
			ctx, cancel = context.WithDeadline(ctx, time.Now().Add(-time.Second))
			defer cancel()
		}
		if how == "send" && what == "short" {
			x.Skip()
		}
		x.State(what, how)
		x.Step("%s: %s", how, what)
		do(x, client(s, "/", 60, nil), ctx, how, reqs[1], a, nil, false, what)
	}}, {Name: "silence", Split: 2, Run: func(x *X) {
		// the server stops talking: the client's timeout or the caller's
		// context ends the call
		b := &bodies[0]
		st := []int{200, 503}[x.Choose(2)]
		a := mkAnswer(st, "length", b)
		hdrEnd := strings.Index(a.raw, "\r\n\r\n") + 4
		a.cut = []int{0, 12, hdrEnd - 2, hdrEnd, len(a.raw) - 1}[x.Choose(5)]
		a.end = "hang"
		how := Pick(x, hows[:2])
		by := Pick(x, []string{"timeout", "context"})
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		secs := 1
		if by == "context" {
			secs = 60
			time.AfterFunc(30*time.Millisecond, cancel)
		}
		s := serve(x, []answer{a})
		defer s.stop()
		where := fmt.Sprintf("status %d silent after %d bytes, ended by %s", st, a.cut, by)
		x.State(where, how)
		x.Step("%s: %s", how, where)
		t0 := time.Now()
		do(x, client(s, "/", secs, nil), ctx, how, reqs[1], a, b, false, where)
		if by == "timeout" {
			x.Check(time.Since(t0) > 900*time.Millisecond, "early", "%s: ended after %v", where, time.Since(t0))
		}
	}}, {Name: "sequences", Run: func(x *X) {
		// one client, several calls: a failed one does not spoil the next
		type step struct {
			name string
			a    answer
			b    *bodyT
			full bool
		}
		cutof := func(a answer, n int, end string) answer { a.cut, a.end = n, end; return a }
		ok := mkAnswer(200, "length", &bodies[0])
		steps := []step{
			{"ok", ok, &bodies[0], true}, {"ok chunked", mkAnswer(200, "chunked", &bodies[1]), &bodies[1], true}, {"ok until close", mkAnswer(200, "until close", &bodies[0]), &bodies[0], true},
			{"rpc error", mkAnswer(200, "length", &bodies[3]), &bodies[3], true}, {"404", mkAnswer(404, "length", &bodies[9]), &bodies[9], true}, {"500", mkAnswer(500, "chunked", &bodies[7]), &bodies[7], true}, {"bad body", mkAnswer(200, "length", &bodies[9]), &bodies[9], true},
			{"cut headers", cutof(ok, 20, "close"), &bodies[0], false}, {"cut body", cutof(ok, len(ok.raw)-3, "reset"), &bodies[0], false},
		}
		n := 3
		if x.Thorough {
			n = 4
		}
		var script []answer
		var picked []step
		names := ""
		for i := 0; i < n; i++ {
			st := steps[x.Choose(len(steps))]
			picked = append(picked, st)
			script = append(script, st.a)
		}
		s := serve(x, script)
		defer s.stop()
		c := client(s, "/", 60, hdrs[3])
		for i, st := range picked {
			names += " " + st.name
			x.State(names)
			x.Step("call %d: %s", i, st.name)
			how := hows[i%2]
			rt := reqs[i%len(reqs)]
			do(x, c, context.Background(), how, rt, st.a, st.b, st.full, "after"+names)
			checkWire(x, s, "/", rt, hdrs[3], "after"+names)
		}
	}}}
}
