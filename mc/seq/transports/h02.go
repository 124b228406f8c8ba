//go:build go1.22

package main

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"log"
	"net/http"
	"net/http/httptest"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	. "github.com/superisaac/jlib/zzverif/kit"
)

// world is one actor with a log of its handler runs.
type world struct {
	actor *jlibhttp.Actor
	mu    sync.Mutex
	log   []string
}

func newWorld() *world {
	w := &world{actor: jlibhttp.NewActor()}
	child := jlibhttp.NewActor()
	w.actor.AddChild(child)
	on := func(a *jlibhttp.Actor, m string, fn func(ps []interface{}) (interface{}, error), set ...jlibhttp.HandlerSetter) {
		a.On(m, func(ps []interface{}) (interface{}, error) {
			w.mu.Lock()
			w.log = append(w.log, m+Canon(L(ps)))
			w.mu.Unlock()
			return fn(ps)
		}, set...)
	}
	on(w.actor, "echo", func(ps []interface{}) (interface{}, error) { return ps, nil })
	on(w.actor, "first", func(ps []interface{}) (interface{}, error) {
		if len(ps) == 0 {
			return nil, nil
		}
		return ps[0], nil
	})
	on(w.actor, "rpcfail", func(ps []interface{}) (interface{}, error) {
		return nil, &jlib.RPCError{Code: -77, Message: "no \"way\"", Data: ps}
	})
	on(w.actor, "fail", func(ps []interface{}) (interface{}, error) { return nil, errors.New("hidden") })
	on(w.actor, "panic", func(ps []interface{}) (interface{}, error) { panic(errors.New("boom")) })
	on(child, "child", func(ps []interface{}) (interface{}, error) { return M{"from": "child", "n": len(ps)}, nil })
	on(child, "checked", func(ps []interface{}) (interface{}, error) { return "checked", nil },
		jlibhttp.WithSchemaJson(`{"type":"method","params":["number",{"type":"string","maxLength":3}]}`))
	on(w.actor, "blow", func(ps []interface{}) (interface{}, error) {
		n, _ := strconv.Atoi(fmt.Sprint(ps[0]))
		return strings.Repeat("blow ", n/5+1)[:n], nil
	})
	child.OnTyped("typed", func(a int, b string) (string, error) {
		w.mu.Lock()
		w.log = append(w.log, fmt.Sprintf("typed%d,%q", a, b))
		w.mu.Unlock()
		return fmt.Sprint(b, a), nil
	})
	return w
}

func (w *world) take() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	l := w.log
	w.log = nil
	return l
}

type pairing struct {
	client, server string
	system         bool // the server's certificate is trusted by the system
}

func pairings() []pairing {
	var ps []pairing
	for _, p := range [][2]string{
		{"http", "own h1"}, {"http", "gateway"}, {"https", "gateway tls"}, {"http", "own h2"},
		{"ws", "own ws"}, {"ws", "gateway"}, {"wss", "gateway tls"},
		{"h2c", "own h2c"}, {"h2c", "gateway"}, {"h2", "own h2"}, {"h2", "gateway tls"},
	} {
		ps = append(ps, pairing{client: p[0], server: p[1]})
	}
	return ps
}

var quiet = log.New(io.Discard, "", 0)

// start serves the world's actor and returns a client for it.
func start(w *world, p pairing) (jlibhttp.Client, func()) {
	ctx, cancel := context.WithCancel(context.Background())
	var h http.Handler
	useTLS := p.client == "https" || p.client == "wss" || p.client == "h2"
	switch p.server {
	case "own h1":
		h = jlibhttp.NewH1Handler(w.actor)
	case "own ws":
		h = jlibhttp.NewWSHandler(ctx, w.actor)
	case "own h2c":
		h = jlibhttp.NewH2Handler(ctx, w.actor).H2CHandler()
	case "own h2":
		h = jlibhttp.NewH2Handler(ctx, w.actor)
	case "gateway":
		h = jlibhttp.NewGatewayHandler(ctx, w.actor, true)
	case "gateway tls":
		h = jlibhttp.NewGatewayHandler(ctx, w.actor, false)
	}
	s := NewServer(h)
	s.Config.ErrorLog = quiet
	if useTLS {
		s.EnableHTTP2 = true
		s.StartTLS()
	} else {
		s.Start()
	}
	addr := s.Listener.Addr().String()
	c, err := jlibhttp.NewClient(p.client + "://" + addr + "/rpc")
	if err != nil {
		panic(err)
	}
	if useTLS {
		c.SetClientTLSConfig(&tls.Config{InsecureSkipVerify: true})
	}
	return c, func() {
		if s2, ok := c.(interface{ Close() }); ok {
			s2.Close()
		}
		cancel()
		go func() { // never wait for a session that does not end
			s.CloseClientConnections()
			s.Close()
		}()
	}
}

func h02() []Family {
	raws := []string{
		`{"id":1,"method":"echo","params":[1,"é",null,{"a":[12345678901234567890,1.50]}]}`,
		`{"id":"a","method":"echo","params":[],"traceid":"t1"}`,
		`{"id":"1","method":"echo","params":{"k":"v"}}`,
		`{"id":0,"method":"echo","params":["<&>\u2028\n"],"traceid":"tr é"}`,
		`{"id":-5,"method":"first","params":[null]}`,
		`{"id":9007199254740993,"method":"first","params":[[[]]],"traceid":"x"}`,
		`{"id":"","method":"first","params":[]}`,
		`{"id":1,"method":"first","params":[{"method":"x","id":5}]}`,
		`{"id":"e","method":"rpcfail","params":[{"d":1}],"traceid":"t2"}`,
		`{"id":2,"method":"fail","params":[]}`,
		`{"id":2,"method":"panic","params":[1],"traceid":"p"}`,
		`{"id":"c","method":"child","params":[1,2]}`,
		`{"id":"c","method":"checked","params":[1,"abc"]}`,
		`{"id":"c","method":"checked","params":[1,"abcd"],"traceid":"t3"}`,
		`{"id":"c","method":"checked","params":["x"]}`,
		`{"id":3,"method":"typed","params":[5,"five"]}`,
		`{"id":3,"method":"typed","params":["five"],"traceid":"t4"}`,
		`{"id":4,"method":"typed","params":[null,null,null]}`,
		`{"id":5,"method":"unknown","params":[1]}`,
		`{"id":6,"method":"echo","params":["` + strings.Repeat("long text ", 2000) + `"]}`,
	}
	notifies := []string{`{"method":"echo","params":[1,"n"]}`, `{"method":"typed","params":[4,"x"],"traceid":"n"}`, `{"method":"unknown","params":[]}`, `{"method":"checked","params":[1,"ab"]}`}
	pairs := pairings()
	parse := func(raw string) jlib.Message {
		m, err := jlib.ParseBytes([]byte(raw))
		if err != nil {
			panic(err)
		}
		return m
	}
	type want struct {
		res string
		log []string
	}
	ref := func(raw string) want {
		w := newWorld()
		m := parse(raw)
		res, err := w.actor.Feed(jlibhttp.NewRPCRequest(context.Background(), m, jlibhttp.TransportHTTP, nil))
		if err != nil {
			panic(err)
		}
		data := ""
		if res != nil {
			b, _ := jlib.MessageBytes(res)
			data = CanonOf(b)
		}
		return want{data, w.take()}
	}
	refs := map[string]want{}
	for _, r := range append(append([]string{}, raws...), notifies...) {
		refs[r] = ref(r)
	}
	call := func(x *X, c jlibhttp.Client, w *world, raw string, how string, where string) {
		m := parse(raw).(*jlib.RequestMessage)
		before, _ := jlib.MessageBytes(m)
		wt := refs[raw]
		// the context of the call which connects is the connection's context,
		// so it must not end with the call
		ctx := context.Background()
		x.Op()
		if how == "call" {
			res, err := c.Call(ctx, m)
			x.Check(err == nil, "call-error", "%s: error %v", where, err)
			got, _ := jlib.MessageBytes(res)
			x.Check(CanonOf(got) == wt.res, "answer", "%s: %.200s answered %.300s, want %.300s", where, raw, CanonOf(got), wt.res)
		} else {
			var out interface{}
			err := c.UnwrapCall(ctx, m, &out)
			v, _ := Parse([]byte(strings.ReplaceAll(wt.res, "\\u00", "\\u00")))
			full, _ := v.(M)
			if e, ok := full["error"].(M); ok {
				var re *jlib.RPCError
				x.Check(errors.As(err, &re), "unwrap", "%s: %.200s gave error %v", where, raw, err)
				x.Check(fmt.Sprint(re.Code) == Canon(e["code"]) && re.Message == e["message"] && Canon(re.Data) == Canon(e["data"]), "unwrap-error", "%s: %.200s gave %v", where, raw, re)
			} else {
				x.Check(err == nil && Canon(out) == Canon(full["result"]), "unwrap-result", "%s: %.200s gave %.200s, error %v", where, raw, Canon(out), err)
			}
		}
		after, _ := jlib.MessageBytes(m)
		x.Check(string(before) == string(after), "message-changed", "%s: the message %s became %s", where, before, after)
		got := w.take()
		x.Check(strings.Join(got, ";") == strings.Join(wt.log, ";"), "handlers", "%s: %.200s ran %v, want %v", where, raw, got, wt.log)
	}
	return []Family{{Name: "single", Run: func(x *X) {
		p := pairs[x.Choose(len(pairs))]
		raw := Pick(x, raws)
		how := Pick(x, []string{"call", "unwrap"})
		w := newWorld()
		c, stop := start(w, p)
		defer stop()
		where := p.client + " client to " + p.server
		x.State(where, raw, how)
		x.Step("%s: %s %.100s", where, how, raw)
		call(x, c, w, raw, how, where)
		x.Outcome(p.client)
	}}, {Name: "sequences", Run: func(x *X) {
		p := pairs[x.Choose(len(pairs))]
		w := newWorld()
		c, stop := start(w, p)
		defer stop()
		where := p.client + " client to " + p.server
		few := raws
		n := 2
		if x.Thorough {
			n = 3
			few = append(append([]string{}, raws[:4]...), raws[8:14]...)
		}
		for i := 0; i < n; i++ {
			raw := Pick(x, few)
			where += fmt.Sprintf(" [%.50s]", raw)
			x.State(where)
			x.Step("%s", where)
			call(x, c, w, raw, []string{"call", "unwrap"}[i%2], where)
		}
	}}, {Name: "notifies", Run: func(x *X) {
		p := pairs[x.Choose(len(pairs))]
		w := newWorld()
		c, stop := start(w, p)
		defer stop()
		where := p.client + " client to " + p.server
		for i := 0; i < 2; i++ {
			raw := Pick(x, notifies)
			where += fmt.Sprintf(" [%.60s]", raw)
			x.State(where)
			x.Step("%s", where)
			m := parse(raw)
			before, _ := jlib.MessageBytes(m)
			err := c.Send(context.Background(), m)
			x.Check(err == nil, "send", "%s: %v", where, err)
			wt := refs[raw]
			var got []string
			for t := 0; len(got) < len(wt.log) && t < 4000; t++ {
				got = append(got, w.take()...)
				time.Sleep(200 * time.Microsecond)
			}
			x.Check(strings.Join(got, ";") == strings.Join(wt.log, ";"), "notify-handlers", "%s: ran %v, want %v", where, got, wt.log)
			after, _ := jlib.MessageBytes(m)
			x.Check(string(before) == string(after), "message-changed", "%s: the message %s became %s", where, before, after)
		}
		// the connection still works and nothing ran twice
		call(x, c, w, raws[0], "call", where)
		x.Outcome(p.client)
	}}, {Name: "sizes", Run: func(x *X) {
		// long messages in both directions, round the sizes of usual buffers
		p := pairs[x.Choose(len(pairs))]
		n := Pick(x, sizes)
		way := Pick(x, []string{"both", "answer"})
		if way == "answer" && !x.Thorough {
			x.Skip()
		}
		w := newWorld()
		c, stop := start(w, p)
		defer stop()
		raw := sized(`{"id":6,"method":"echo","params":["`, n, `"],"traceid":"big"}`)
		want := `["` + raw[len(`{"id":6,"method":"echo","params":["`):len(raw)-len(`"],"traceid":"big"}`)] + `"]`
		if way == "answer" {
			raw = fmt.Sprintf(`{"id":6,"method":"blow","params":[%d],"traceid":"big"}`, n)
			want = `"` + strings.Repeat("blow ", n/5+1)[:n] + `"`
		}
		where := fmt.Sprintf("%s client to %s, %s of %d bytes", p.client, p.server, way, n)
		x.State(where)
		x.Step("%s", where)
		for i := 0; i < 2; i++ { // the connection works on afterwards
			if i == 1 {
				raw, want = `{"id":6,"method":"echo","params":["a"],"traceid":"big"}`, `["a"]`
			}
			res, err := c.Call(context.Background(), parse(raw).(*jlib.RequestMessage))
			x.Op()
			x.Check(err == nil && res.IsResult(), "long", "%s: error %v", where, err)
			got, _ := jlib.MarshalJson(res.MustResult())
			x.Check(got == want && res.MustId() == 6 && res.TraceId() == "big", "long-answer", "%s: call %d was answered by %d bytes, id %v, trace id %q", where, i, len(got), res.MustId(), res.TraceId())
		}
		x.Check(len(w.take()) == 2, "long-runs", "%s: handler runs", where)
	}}, {Name: "detection", Run: func(x *X) {
		// which transport the gateway hands a request to
		insecure := x.Bool()
		proto := [][2]int{{1, 0}, {1, 1}, {2, 0}}[x.Choose(3)]
		up := Pick(x, []string{"", "websocket", "WebSocket", "WEBSOCKET", "h2c", "H2C", "h2C", "TLS/1.0", "websockets", "web socket", "h2"})
		other := Pick(x, []string{"", "conn", "ctype", "ws headers", "path", "accept"})
		method := Pick(x, []string{"POST", "GET"})
		w := newWorld()
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		g := jlibhttp.NewGatewayHandler(ctx, w.actor, insecure)
		ask := func() *http.Request {
			r := httptest.NewRequest(method, "/", strings.NewReader("")).WithContext(ctx)
			r.ProtoMajor, r.ProtoMinor = proto[0], proto[1]
			r.Proto = fmt.Sprintf("HTTP/%d.%d", proto[0], proto[1])
			if up != "" {
				r.Header.Set("Upgrade", up)
			}
			switch other {
			case "conn":
				r.Header.Set("Connection", "Upgrade")
			case "ctype":
				r.Header.Set("Content-Type", "application/grpc")
			case "ws headers":
				r.Header.Set("Connection", "Upgrade")
				r.Header.Set("Sec-Websocket-Version", "13")
				r.Header.Set("Sec-Websocket-Key", "dGhlIHNhbXBsZSBub25jZQ==")
			case "path":
				r.URL.Path = "/websocket/h2c"
			case "accept":
				r.Header.Set("Accept", "text/html")
			}
			return r
		}
		rec := &flushRecorder{recorder: newRecorder()}
		x.State(fmt.Sprint(insecure), proto[0], proto[1], up, other, method)
		x.Step("%s HTTP/%d.%d Upgrade %q, %s", method, proto[0], proto[1], up, other)
		p, pv := Try(func() { g.ServeHTTP(rec, ask()); rec.finish() })
		x.Check(!p, "panic", "panic %v", pv)
		wantT := "h1"
		switch {
		case proto[0] == 2:
			wantT = "h2"
		case strings.EqualFold(up, "websocket"):
			wantT = "ws"
		case strings.EqualFold(up, "h2c"):
			wantT = "h2"
			if !insecure {
				x.Skip() // the TLS gateway answers an h2c upgrade over HTTP/1
			}
		}
		body := string(rec.body)
		got := "?"
		switch {
		case rec.flushed && rec.code == 200:
			got = "h2"
		case rec.hijackAsked || strings.Contains(strings.ToLower(body), "websocket") || strings.Contains(body, "ws upgrade failed"):
			got = "ws"
		case rec.code == 405 || rec.code == 400:
			got = "h1"
		}
		x.Outcome(got)
		x.Check(got == wantT, "detection", "%s HTTP/%d.%d with Upgrade %q went to %s (status %d %q), want %s", method, proto[0], proto[1], up, got, rec.code, body, wantT)
		// and to that one only: the answer is the one its own handler gives
		var own http.Handler
		switch {
		case wantT == "h1":
			own = jlibhttp.NewH1Handler(w.actor)
		case wantT == "ws":
			own = jlibhttp.NewWSHandler(ctx, w.actor)
		case insecure:
			own = jlibhttp.NewH2Handler(ctx, w.actor).H2CHandler()
		default:
			own = jlibhttp.NewH2Handler(ctx, w.actor)
		}
		alone := &flushRecorder{recorder: newRecorder()}
		p, pv = Try(func() { own.ServeHTTP(alone, ask()); alone.finish() })
		x.Check(!p, "panic", "panic %v", pv)
		x.Check(rec.code == alone.code && body == string(alone.body) && rec.flushed == alone.flushed, "more-than-one", "%s HTTP/%d.%d with Upgrade %q: the gateway answers %d %q, the %s handler alone %d %q", method, proto[0], proto[1], up, rec.code, body, got, alone.code, alone.body)
	}}}
}

// sizes are message lengths round the sizes of usual buffers and limits.
var sizes = []int{1023, 1024, 1025, 4095, 4096, 4097, 16385, 32769, 65535, 65536, 65537, 131073, 1<<20 + 1, 4<<20 + 1}

// sized pads a message with text to n bytes.
func sized(head string, n int, tail string) string {
	return head + strings.Repeat("long text ", n/10+1)[:n-len(head)-len(tail)] + tail
}

type flushRecorder struct {
	*recorder
	flushed     bool
	hijackAsked bool
}

func (r *flushRecorder) Flush() { r.flushed = true }
