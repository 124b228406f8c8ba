//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/http/httptest"
	"strings"

	perrors "github.com/pkg/errors"
	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	. "github.com/superisaac/jlib/zzverif/kit"
)

// reader hands out its text in pieces and may fail before the end.
type reader struct {
	text  string
	piece int
	fail  int // fail after so many bytes, -1 never
	done  int
}

func (r *reader) Read(p []byte) (int, error) {
	if r.fail >= 0 && r.done >= r.fail {
		return 0, errors.New("connection lost")
	}
	left := r.text[r.done:]
	if r.fail >= 0 && len(left) > r.fail-r.done {
		left = left[:r.fail-r.done]
	}
	if left == "" {
		return 0, io.EOF
	}
	n := r.piece
	if n > len(left) {
		n = len(left)
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, left[:n])
	r.done += n
	return n, nil
}
func (r *reader) Close() error { return nil }

// wire is a JSON-RPC message text with what it is.
type wire struct {
	kind  string // request notify result error bad
	text  string
	id    interface{}
	trace string
}

func wires() []wire {
	var out []wire
	add := func(kind string, id interface{}, trace string, m M) {
		m["jsonrpc"] = "2.0"
		if id != nil {
			m["id"] = id
		}
		if trace != "" {
			m["traceid"] = trace
		}
		out = append(out, wire{kind, JSON(m), id, trace})
	}
	for _, id := range []interface{}{N("0"), N("-3"), N("9007199254740993"), "", "a", "1"} {
		for _, tr := range []string{"", "t1", "trace-ü"} {
			add("request", id, tr, M{"method": "m", "params": L{N("1"), "é"}})
		}
	}
	add("request", N("1"), "", M{"method": "m", "params": M{"a": N("1")}})
	add("request", N("1"), "t", M{"method": "m", "params": L{}})
	add("notify", nil, "", M{"method": "m", "params": L{}})
	add("notify", nil, "t1", M{"method": "m", "params": L{N("1")}})
	add("result", N("4"), "t1", M{"result": "r"})
	add("result", "x", "", M{"result": nil})
	add("error", N("4"), "", M{"error": M{"code": N("1"), "message": "m"}})
	for _, t := range []string{"", " ", "x", "{", "}", "[]", "{}", "null", "5", `"s"`, "true", `[{"id":1,"method":"m","params":[]}]`, `{"id":1.5,"method":"m","params":[]}`, `{"id":1,"method":"m"}`, `{"id":1,"method":"m","params":[}`, `{"id":1,"result":1,"error":{"code":1,"message":"m"}}`, `{"id":{},"method":"m","params":[]}`, `{"method":5,"params":[]}`, "\xff\xfe", "jsonrpc=2.0&method=m"} {
		out = append(out, wire{kind: "bad", text: t})
	}
	return out
}

func h01() []Family {
	type result struct {
		name string
		fn   func() (interface{}, error)
		// for a request
		res     interface{}
		errObj  M
		wrapped *jlibhttp.WrappedResponse
		simple  *jlibhttp.SimpleResponse
		fails   bool // cannot be encoded
		plain   bool // an error that is no RPC error and no HTTP response
		panics  bool
	}
	internal := M{"code": N("-32603"), "message": "internal error"}
	var results []result
	val := func(name string, v interface{}, want interface{}) {
		results = append(results, result{name: name, fn: func() (interface{}, error) { return v, nil }, res: want})
	}
	for _, v := range Values(SmallAtoms(), SmallAtoms()[3:], 1) {
		val("value "+Canon(v), v, v)
	}
	val("int", 7, N("7"))
	val("html", "<a&b>\u2028", "<a&b>\u2028")
	val("big", strings.Repeat("x", 70000), strings.Repeat("x", 70000))
	for _, b := range []struct {
		n string
		v interface{}
	}{{"channel", make(chan int)}, {"function", func() {}}, {"nan", math.NaN()}, {"inf", L{math.Inf(1)}}, {"badmap", map[struct{ A int }]int{{1}: 1}}, {"deep", M{"a": L{make(chan int)}}}} {
		v := b.v
		results = append(results, result{name: "unencodable " + b.n, fn: func() (interface{}, error) { return v, nil }, fails: true})
	}
	fail := func(name string, err error, obj M) {
		results = append(results, result{name: "error " + name, fn: func() (interface{}, error) { return nil, err }, errObj: obj, plain: Canon(obj) == Canon(internal)},
			result{name: "panic " + name, fn: func() (interface{}, error) { panic(err) }, errObj: obj, plain: Canon(obj) == Canon(internal), panics: true})
	}
	fail("rpc", &jlib.RPCError{Code: 5, Message: "five", Data: L{N("1")}}, M{"code": N("5"), "message": "five", "data": L{N("1")}})
	fail("wrapped rpc", perrors.Wrap(jlib.ErrNotAllowed, "x"), M{"code": N("406"), "message": "type not allowed"})
	fail("plain", errors.New("secret"), internal)
	results = append(results, result{name: "unencodable error data", fn: func() (interface{}, error) {
		return nil, &jlib.RPCError{Code: 5, Message: "five", Data: make(chan int)}
	}, fails: true})
	for _, code := range []int{200, 201, 302, 400, 404, 405, 418, 500, 503} {
		for _, h := range []http.Header{nil, {"X-A": {"1"}}, {"X-A": {"1", "2"}, "Content-Type": {"text/x"}, "X-Trace-Id": {"up"}}} {
			for _, body := range []string{"", "tea \x00\xff", `{"jsonrpc":"2.0","id":9,"result":1}`} {
				w := &jlibhttp.WrappedResponse{Response: &http.Response{StatusCode: code, Header: h}, Body: []byte(body)}
				n := fmt.Sprintf("response %d %v %q", code, h, body)
				results = append(results, result{name: n, fn: func() (interface{}, error) { return nil, w }, wrapped: w})
				if code == 404 {
					results = append(results, result{name: "inside " + n, fn: func() (interface{}, error) { return nil, perrors.Wrap(w, "x") }, wrapped: w},
						result{name: "panic " + n, fn: func() (interface{}, error) { panic(w) }, wrapped: w, panics: true})
				}
			}
		}
	}
	for _, code := range []int{200, 403, 500} {
		s := &jlibhttp.SimpleResponse{Code: code, Body: []byte(fmt.Sprint("simple", code))}
		results = append(results, result{name: fmt.Sprint("simple ", code), fn: func() (interface{}, error) { return nil, s }, simple: s})
	}
	ws := wires()
	methods := []string{"GET", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "post", "Post", "POSTX", "PRI", ""}
	bodyReaders := func(x *X, text string) (io.ReadCloser, string, bool) {
		switch c := x.Choose(4); c {
		case 0:
			return &reader{text: text, piece: 1 << 20, fail: -1}, "whole", true
		case 1:
			return &reader{text: text, piece: 1, fail: -1}, "byte by byte", true
		case 2:
			return &reader{text: text, piece: 1 << 20, fail: len(text)}, "lost after the last byte", false
		default:
			return &reader{text: text, piece: 3, fail: len(text) / 2}, "lost in the middle", false
		}
	}
	type place struct {
		name string
		mk   func(fn func() (interface{}, error), n *int) *jlibhttp.Actor
	}
	places := []place{
		{"own", func(fn func() (interface{}, error), n *int) *jlibhttp.Actor {
			a := jlibhttp.NewActor()
			a.OnRequest("m", func(*jlibhttp.RPCRequest, []interface{}) (interface{}, error) { *n++; return fn() })
			return a
		}},
		{"child", func(fn func() (interface{}, error), n *int) *jlibhttp.Actor {
			a, c := jlibhttp.NewActor(), jlibhttp.NewActor()
			a.AddChild(c)
			c.OnRequest("m", func(*jlibhttp.RPCRequest, []interface{}) (interface{}, error) { *n++; return fn() })
			return a
		}},
		{"missing", func(fn func() (interface{}, error), n *int) *jlibhttp.Actor {
			a := jlibhttp.NewActor()
			a.OnMissing(func(*jlibhttp.RPCRequest) (interface{}, error) { *n++; return fn() })
			return a
		}},
		{"none", func(fn func() (interface{}, error), n *int) *jlibhttp.Actor { return jlibhttp.NewActor() }},
	}
	post := func(h http.Handler, method string, body io.ReadCloser) (*recorder, bool, interface{}) {
		r := httptest.NewRequest("POST", "/rpc", nil)
		r.Method, r.Body = method, body
		w := newRecorder()
		p, pv := Try(func() { h.ServeHTTP(w, r); w.finish() })
		return w, p, pv
	}
	check := func(x *X, w *recorder, pl string, m wire, o result, where string) {
		x.Check(w.calls <= 1, "twice", "%s: WriteHeader called %d times", where, w.calls)
		x.Check(w.code != 0, "no-answer", "%s: nothing was answered", where)
		body := string(w.body)
		if m.kind == "bad" {
			x.Check(w.code == 400, "bad-body", "%s: answered %d %q", where, w.code, body)
			x.Outcome("400")
			return
		}
		runs := pl == "missing" || pl != "none" && (m.kind == "request" || m.kind == "notify")
		isReq := m.kind == "request"
		if runs && o.wrapped != nil {
			x.Outcome("http-response")
			x.Check(w.code == o.wrapped.Response.StatusCode && body == string(o.wrapped.Body), "response", "%s: answered %d %q", where, w.code, body)
			for k, vs := range o.wrapped.Response.Header {
				x.Check(strings.Join(w.sent[k], "|") == strings.Join(vs, "|"), "response-header", "%s: header %s = %q want %q", where, k, w.sent[k], vs)
			}
			return
		}
		if !isReq {
			if runs && o.simple != nil {
				x.Outcome("simple-response")
				x.Check(w.code == o.simple.Code && body == string(o.simple.Body), "simple", "%s: answered %d %q", where, w.code, body)
				return
			}
			if runs && (o.errObj != nil || strings.Contains(o.name, "error data")) {
				x.Outcome("500")
				x.Check(w.code == 500, "failed-notify", "%s: answered %d %q", where, w.code, body)
				return
			}
			x.Outcome("empty")
			x.Check(w.code == 200 && body == "", "empty", "%s: answered %d %q", where, w.code, body)
			return
		}
		x.Check(w.code == 200, "status", "%s: answered %d %q", where, w.code, body)
		ct := strings.TrimSpace(strings.Split(w.sent.Get("Content-Type"), ";")[0])
		x.Check(ct == "application/json", "content-type", "%s: content type %q", where, w.sent.Get("Content-Type"))
		want := M{"jsonrpc": "2.0", "id": m.id}
		switch {
		case !runs:
			v, err := Parse(w.body)
			e, _ := v.(M)
			eo, _ := e["error"].(M)
			x.Check(err == nil && eo != nil && Canon(eo["code"]) == "-32601" && Canon(e["id"]) == Canon(m.id) && e["traceid"] == nil, "method-not-found", "%s: %q", where, body)
		case o.fails:
			x.Outcome("unencodable")
			want["error"] = internal
			x.Check(CanonOf(w.body) == Canon(want), "unencodable", "%s: answered %q", where, body)
		case o.simple != nil:
			return // left open: a SimpleResponse belongs to a notify
		case o.errObj != nil:
			x.Outcome("error")
			want["error"] = o.errObj
			x.Check(CanonOf(w.body) == Canon(want), "error", "%s: answered %q want %s", where, body, Canon(want))
		default:
			x.Outcome("result")
			want["result"] = o.res
			x.Check(CanonOf(w.body) == Canon(want), "result", "%s: answered %.300q want %.300s", where, body, Canon(want))
		}
		if runs && o.fails {
			return
		}
		x.Check(w.sent.Get("X-Trace-Id") == m.trace, "trace", "%s: X-Trace-Id %q, want %q", where, w.sent.Get("X-Trace-Id"), m.trace)
	}
	return []Family{{Name: "answers", Run: func(x *X) {
		m := ws[x.Choose(len(ws))]
		o := results[x.Choose(len(results))]
		pl := places[x.Choose(len(places))]
		if (m.kind == "bad" || pl.name == "none") && o.name != results[0].name {
			x.Skip()
		}
		n := 0
		h := jlibhttp.NewH1Handler(pl.mk(o.fn, &n))
		x.State(m.text, o.name, pl.name)
		x.Step("POST %q, %s handler: %.80s", m.text, pl.name, o.name)
		w, p, pv := post(h, "POST", &reader{text: m.text, piece: 1 << 20, fail: -1})
		where := fmt.Sprintf("POST %q to %s handler doing [%.80s]", m.text, pl.name, o.name)
		x.Check(!p, "panic", "%s: panic %v", where, pv)
		runs := m.kind != "bad" && (pl.name == "missing" || pl.name != "none" && (m.kind == "request" || m.kind == "notify"))
		x.Check(n == map[bool]int{true: 1, false: 0}[runs], "runs", "%s: handler ran %d times", where, n)
		check(x, w, pl.name, m, o, where)
	}}, {Name: "bodies", Run: func(x *X) {
		// every prefix of a request, and reads that fail
		m := ws[x.Choose(len(ws))]
		cut := x.Choose(len(m.text) + 1)
		n := 0
		h := jlibhttp.NewH1Handler(places[0].mk(results[0].fn, &n))
		part := m
		if cut < len(m.text) {
			part = wire{kind: "bad", text: m.text[:cut]}
		}
		body, how, complete := bodyReaders(x, part.text)
		x.State(part.text, how)
		x.Step("POST %q %s", part.text, how)
		w, p, pv := post(h, "POST", body)
		where := fmt.Sprintf("POST %q read %s", part.text, how)
		x.Check(!p, "panic", "%s: panic %v", where, pv)
		if !complete {
			x.Check(w.code == 400 && n == 0 && w.calls <= 1, "lost", "%s: answered %d %q, handler ran %d times", where, w.code, w.body, n)
			x.Outcome("lost")
			return
		}
		check(x, w, "own", part, results[0], where)
	}}, {Name: "sizes", Run: func(x *X) {
		// long bodies, in one piece or in many, answered by long bodies
		n := Pick(x, sizes)
		piece := Pick(x, []int{1 << 30, 4096, 1000})
		bad := x.Bool()
		runs := 0
		h := jlibhttp.NewH1Handler(places[0].mk(func() (interface{}, error) { return strings.Repeat("y", n), nil }, &runs))
		text := sized(`{"id":1,"traceid":"big","method":"m","params":["`, n, `"]}`)
		if bad {
			text = text[:len(text)-1]
		}
		x.State(n, piece, bad)
		x.Step("POST of %d bytes in pieces of %d", len(text), piece)
		w, p, pv := post(h, "POST", &reader{text: text, piece: piece, fail: -1})
		x.Check(!p, "panic", "POST of %d bytes: panic %v", n, pv)
		if bad {
			x.Check(w.code == 400 && runs == 0, "bad-body", "unfinished body of %d bytes: answered %d, handler ran %d times", len(text), w.code, runs)
			return
		}
		want := Canon(M{"jsonrpc": "2.0", "id": N("1"), "result": strings.Repeat("y", n)})
		x.Check(w.code == 200 && runs == 1 && w.calls <= 1 && CanonOf(w.body) == want && w.sent.Get("X-Trace-Id") == "big", "result", "body of %d bytes: answered %d with %d bytes, handler ran %d times", n, w.code, len(w.body), runs)
	}}, {Name: "dressing", Run: func(x *X) {
		// headers, length and target of a request that say nothing about the message
		m := ws[x.Choose(len(ws))]
		pl := places[x.Choose(len(places))]
		head := Pick(x, []string{"", "Content-Type: text/plain", "Content-Type: application/x-www-form-urlencoded", "Content-Type: application/json; charset=utf-8", "Content-Type: multipart/form-data; boundary=x", "Content-Type:",
			"Accept: text/html", "Accept: application/xml;q=1", "Accept-Encoding: gzip, br", "X-Trace-Id: other", "Connection: close", "Connection: keep-alive", "User-Agent: x/1", "Cookie: a=b", "Origin: http://elsewhere", "Expect: 100-continue", "X-Http-Method-Override: GET", "If-None-Match: *", "Range: bytes=0-1", "Upgrade-Insecure-Requests: 1", "Authorization: Basic YTpi"})
		length := Pick(x, []string{"known", "unknown", "chunked"})
		target := Pick(x, []string{"/rpc", "/", "/a/b/c/", "/rpc?method=x&id=9", "/%2e%2e/x"})
		proto := Pick(x, []string{"HTTP/1.1", "HTTP/1.0", "HTTP/2.0"})
		n := 0
		h := jlibhttp.NewH1Handler(pl.mk(results[0].fn, &n))
		r := httptest.NewRequest("POST", target, nil)
		r.Body = &reader{text: m.text, piece: 1 << 20, fail: -1}
		r.ContentLength = int64(len(m.text))
		switch length {
		case "unknown":
			r.ContentLength = -1
		case "chunked":
			r.ContentLength, r.TransferEncoding = -1, []string{"chunked"}
		}
		r.Proto = proto
		r.ProtoMajor, r.ProtoMinor = int(proto[5]-'0'), int(proto[7]-'0')
		if k, v, ok := strings.Cut(head, ":"); ok {
			r.Header.Set(k, strings.TrimSpace(v))
		}
		x.State(m.text, pl.name, head, length, target, proto)
		x.Step("POST %s %s, %s, length %s: %q", target, proto, head, length, m.text)
		w := newRecorder()
		p, pv := Try(func() { h.ServeHTTP(w, r); w.finish() })
		where := fmt.Sprintf("POST %s %s with %q and length %s of %q to %s handler", target, proto, head, length, m.text, pl.name)
		x.Check(!p, "panic", "%s: panic %v", where, pv)
		check(x, w, pl.name, m, results[0], where)
	}}, {Name: "methods", Run: func(x *X) {
		m := ws[x.Choose(len(ws))]
		method := Pick(x, methods)
		pl := places[x.Choose(len(places))]
		n := 0
		x.State(m.text, method, pl.name)
		x.Step("%s %q", method, m.text)
		w, p, pv := post(jlibhttp.NewH1Handler(pl.mk(results[0].fn, &n)), method, &reader{text: m.text, piece: 1 << 20, fail: -1})
		x.Check(!p && w.code == 405 && w.calls <= 1 && n == 0, "method", "%s %q answered %d %q, handler ran %d times, panic %v", method, m.text, w.code, w.body, n, pv)
	}}, {Name: "sequences", Run: func(x *X) {
		// one handler, several requests
		pl := places[x.Choose(len(places))]
		var cur result
		n := 0
		h := jlibhttp.NewH1Handler(pl.mk(func() (interface{}, error) { return cur.fn() }, &n))
		var rs []result
		for i, r := range results {
			if i < 2 || r.fails && len(r.name) < 20 || r.name == "error rpc" || r.name == "error plain" || r.simple != nil && r.simple.Code == 403 || r.wrapped != nil && r.wrapped.Response.StatusCode == 404 && len(r.wrapped.Response.Header) > 1 && !r.panics {
				rs = append(rs, r)
			}
		}
		few := []wire{ws[1], ws[8], ws[2], ws[20], ws[21], ws[22], ws[28]}
		k := 2
		if x.Thorough {
			k = 3
		}
		past := ""
		for i := 0; i < k; i++ {
			cur = rs[x.Choose(len(rs))]
			m := few[x.Choose(len(few))]
			past += fmt.Sprintf(" [%.60s %.60s]", m.text, cur.name)
			x.State(pl.name, past)
			x.Step("POST %q: %.60s", m.text, cur.name)
			w, p, pv := post(h, "POST", &reader{text: m.text, piece: 1 << 20, fail: -1})
			x.Check(!p, "panic", "after%s: panic %v", past, pv)
			check(x, w, pl.name, m, cur, "after"+past)
		}
	}}}
}
