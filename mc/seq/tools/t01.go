//go:build go1.22

package main

import (
	"bytes"
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	. "github.com/superisaac/jlib/zzverif/kit"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
)

var binDir = os.Getenv("JLIB_BIN")
var quiet = log.New(io.Discard, "", 0)

// a certificate for 127.0.0.1 and the file of its authority, which the tools
// are told to trust through SSL_CERT_FILE
var (
	setupOnce  sync.Once
	serverCert tls.Certificate
	scratch    string
)

func setup() {
	setupOnce.Do(func() {
		d, err := os.MkdirTemp("", "t01-")
		if err != nil {
			panic(err)
		}
		scratch = d
		os.WriteFile(filepath.Join(d, "value.json"), []byte(`{"from":["file",1]}`), 0600)
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		if err != nil {
			panic(err)
		}
		t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "t01"}, IsCA: true, BasicConstraintsValid: true,
			NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(1000 * time.Hour), KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
			ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}, IPAddresses: ServerIPs}
		der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
		if err != nil {
			panic(err)
		}
		serverCert = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
		os.WriteFile(filepath.Join(d, "roots.pem"), pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0600)
	})
}

// got is one message as the server's handler saw it.
type got struct {
	kind, method, params string
	id                   interface{}
	header               http.Header
}

type server struct {
	addr  string
	mu    sync.Mutex
	seen  []got
	opens int
	stop  func()
}

func (s *server) take() []got {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]got(nil), s.seen...)
}

func isTLS(scheme string) bool { return scheme == "https" || scheme == "wss" || scheme == "h2" }

func listen(scheme string, h http.Handler) (addr string, stop func()) {
	setup()
	s := NewServer(h)
	s.Config.ErrorLog = quiet
	if isTLS(scheme) {
		s.EnableHTTP2 = true
		s.TLS = &tls.Config{Certificates: []tls.Certificate{serverCert}}
		s.StartTLS()
	} else {
		s.Start()
	}
	return s.Listener.Addr().String(), func() {
		go func() {
			s.CloseClientConnections()
			s.Close()
		}()
	}
}

// serve runs a gateway whose handlers record what reaches them.
func serve(scheme string) *server {
	self := &server{}
	actor := jlibhttp.NewActor()
	on := func(m string, fn func(req *jlibhttp.RPCRequest, ps []interface{}) (interface{}, error)) {
		actor.OnRequest(m, func(req *jlibhttp.RPCRequest, ps []interface{}) (interface{}, error) {
			g := got{kind: "request", method: m, params: Canon(L(ps)), header: req.HttpRequest().Header.Clone()}
			if r, ok := req.Msg().(*jlib.RequestMessage); ok {
				g.id = r.Id
			} else {
				g.kind = fmt.Sprintf("%T", req.Msg())
			}
			self.mu.Lock()
			self.seen = append(self.seen, g)
			self.mu.Unlock()
			return fn(req, ps)
		})
	}
	on("echo", func(req *jlibhttp.RPCRequest, ps []interface{}) (interface{}, error) { return ps, nil })
	on("none", func(req *jlibhttp.RPCRequest, ps []interface{}) (interface{}, error) { return nil, nil })
	on("rpcfail", func(req *jlibhttp.RPCRequest, ps []interface{}) (interface{}, error) {
		return nil, &jlib.RPCError{Code: -77, Message: "no \"way\" <&>", Data: ps}
	})
	on("fail", func(req *jlibhttp.RPCRequest, ps []interface{}) (interface{}, error) {
		return nil, errors.New("hidden")
	})
	on("pusher", func(req *jlibhttp.RPCRequest, ps []interface{}) (interface{}, error) {
		if s := req.Session(); s != nil {
			s.Send(jlib.NewNotifyMessage("pushed", []interface{}{"x"}))
			s.Send(jlib.NewRequestMessage("p1", "pushed", []interface{}{"y"}))
		}
		return "pushed", nil
	})
	actor.OnMissing(func(req *jlibhttp.RPCRequest) (interface{}, error) {
		self.mu.Lock()
		self.seen = append(self.seen, got{kind: "missing", method: "?", header: req.HttpRequest().Header.Clone()})
		self.mu.Unlock()
		return nil, &jlib.RPCError{Code: -55, Message: "never heard"}
	})
	ctx, cancel := context.WithCancel(context.Background())
	h := http.Handler(jlibhttp.NewGatewayHandler(ctx, actor, !isTLS(scheme)))
	addr, stop := listen(scheme, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		self.mu.Lock()
		self.opens++
		self.mu.Unlock()
		h.ServeHTTP(w, r)
	}))
	self.addr = addr
	self.stop = func() { cancel(); stop() }
	return self
}

type result struct {
	out, err string
	code     int
}

// run runs one tool to its end.
// onces runs a function once per name.
type onces struct {
	mu sync.Mutex
	m  map[string]bool
}

var once onces

func (o *onces) Do(name string, f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.m[name] {
		f()
		if o.m == nil {
			o.m = map[string]bool{}
		}
		o.m[name] = true
	}
}

func run(x *X, tool string, env []string, args ...string) result {
	setup()
	x.Step("jsonrpc-%s %q env %q", tool, args, env)
	ctx, cancel := context.WithTimeout(context.Background(), 25*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(binDir, tool), args...)
	cmd.Env = append([]string{"SSL_CERT_FILE=" + filepath.Join(scratch, "roots.pem"), "PATH=/usr/bin:/bin"}, env...)
	cmd.Dir = scratch
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	if ctx.Err() != nil {
		x.Fail("hangs", "jsonrpc-%s %q does not end; stdout %q stderr %q", tool, args, out.String(), errb.String())
	}
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		panic(err)
	}
	return result{out.String(), errb.String(), cmd.ProcessState.ExitCode()}
}

// documents splits standard output into the JSON documents it is made of.
func documents(s string) ([]string, error) {
	d := json.NewDecoder(strings.NewReader(s))
	var out []string
	for {
		var raw json.RawMessage
		if err := d.Decode(&raw); err != nil {
			if err == io.EOF {
				return out, nil
			}
			return out, err
		}
		out = append(out, string(raw))
	}
}

type arg struct {
	text string
	want interface{} // its JSON value
	bad  bool
}

func (a arg) String() string { return a.text }

func num(s string) json.Number { return json.Number(s) }

var goodArgs = []arg{
	{"1", num("1"), false}, {"-3", num("-3"), false}, {"1.5", num("1.5"), false}, {"true", true, false}, {"null", nil, false}, {"abc", "abc", false},
	{"", "", false}, {`[1,"a"]`, L{num("1"), "a"}, false}, {`{"k":[null]}`, M{"k": L{nil}}, false}, {`"q s"`, "q s", false},
	{"@value.json", M{"from": L{"file", num("1")}}, false}, {`é <&> 100%d \n%`, `é <&> 100%d \n%`, false}, {"0x%s", "0x%s", false}, {"a=b", "a=b", false},
}
var badArgs = []arg{{"[1", nil, true}, {`{"a"`, nil, true}, {`"open`, nil, true}, {"@missing.json", nil, true}}

func texts(as []arg) []string {
	r := []string{}
	for _, a := range as {
		r = append(r, a.text)
	}
	return r
}

func values(as []arg) L {
	r := L{}
	for _, a := range as {
		r = append(r, a.want)
	}
	return r
}

// answered says what the call tool should print for a request.
func answered(x *X, where string, r result, method string, params L, g got) {
	x.Check(r.code == 0, "exit", "%s: exit %d, stderr %q", where, r.code, r.err)
	docs, err := documents(r.out)
	x.Check(err == nil && len(docs) == 1, "stdout", "%s: prints %d documents (%v): %q", where, len(docs), err, r.out)
	v, err := Parse([]byte(docs[0]))
	m, ok := v.(M)
	x.Check(err == nil && ok, "stdout", "%s: prints %q", where, r.out)
	if g.kind != "missing" {
		x.Check(Canon(m["id"]) == Canon(g.id), "id", "%s: prints id %v, the request had %v", where, m["id"], g.id)
	}
	delete(m, "id")
	delete(m, "jsonrpc")
	want := M{}
	switch method {
	case "echo":
		want["result"] = params
	case "none":
		want["result"] = nil
	case "pusher":
		want["result"] = "pushed"
	case "rpcfail":
		want["error"] = M{"code": num("-77"), "message": "no \"way\" <&>", "data": params}
	case "fail":
		x.Check(m["error"] != nil && m["result"] == nil, "answer", "%s: prints %s", where, r.out)
		x.Check(!strings.Contains(r.out, "hidden"), "answer", "%s: prints %s", where, r.out)
		return
	default:
		want["error"] = M{"code": num("-55"), "message": "never heard"}
	}
	x.Check(Canon(m) == Canon(want), "answer", "%s: prints %s, want %s", where, Canon(m), Canon(want))
}

func received(x *X, where string, gs []got, n int, kind, method string, params L) {
	x.Check(len(gs) == n, "requests", "%s: the server got %d messages, want %d: %v", where, len(gs), n, gs)
	for _, g := range gs {
		if g.kind == "missing" && method != "echo" {
			continue
		}
		x.Check(g.kind == kind && g.method == method && g.params == Canon(params), "request", "%s: the server got a %s %s%s, want a %s %s%s", where, g.kind, g.method, g.params, kind, method, Canon(params))
	}
}

const notifyKind = "*jlib.NotifyMessage"

var benchLine = regexp.MustCompile(`^avg=(\S+)s, min=(\S+)s, p95=(\S+)s, max=(\S+)s\n$`)

func benchmarked(x *X, where string, r result) {
	x.Check(r.code == 0, "exit", "%s: exit %d, stderr %q", where, r.code, r.err)
	m := benchLine.FindStringSubmatch(r.out)
	x.Check(m != nil, "stdout", "%s: prints %q", where, r.out)
	var f [5]float64
	for i := 1; i < 5; i++ {
		v, err := strconv.ParseFloat(m[i], 64)
		x.Check(err == nil, "stdout", "%s: prints %q", where, r.out)
		f[i] = v
	}
	x.Check(f[2] > 0 && f[2] <= f[1] && f[1] <= f[4] && f[2] <= f[3] && f[3] <= f[4] && f[4] < 25, "figures", "%s: prints %q", where, r.out)
}

func refused(x *X, where string, r result, crash string) {
	x.Check(r.code != 0, "exit-zero", "%s: exit 0, stdout %q, stderr %q", where, r.out, r.err)
	x.Check(r.out == "", "stdout", "%s: prints %q", where, r.out)
	x.Check(strings.TrimSpace(r.err) != "", "no-message", "%s: no message on standard error", where)
	x.Check(!strings.Contains(r.err, "goroutine "), crash, "%s: crashes: %q", where, r.err)
}

var allSchemes = []string{"http", "ws", "h2c", "https", "wss", "h2"}

func pickArgs(x *X, max int) []arg {
	n := x.Choose(max + 1)
	var as []arg
	for i := 0; i < n; i++ {
		as = append(as, Pick(x, goodArgs))
	}
	return as
}

func t01() []Family {
	settle := func(s *server, n int) []got {
		for end := time.Now().Add(500 * time.Millisecond); time.Now().Before(end); time.Sleep(time.Millisecond) {
			if len(s.take()) >= n {
				break
			}
		}
		return s.take()
	}
	notify := func(x *X, schemes []string) {
		scheme := Pick(x, schemes)
		plain := scheme == "http" || scheme == "https"
		max := 1
		if scheme == "http" || x.Thorough {
			max = 2
		}
		methods := []string{"echo", "fail", "rpcfail"}
		if !plain {
			max, methods = 0, methods[:1]
		}
		method := Pick(x, methods)
		as := pickArgs(x, max)
		if !plain {
			as = append(as, goodArgs[7])
		}
		where := fmt.Sprintf("notify %s %q over %s", method, texts(as), scheme)
		x.State(where)
		s := serve(scheme)
		defer s.stop()
		r := run(x, "notify", nil, append([]string{"-c", scheme + "://" + s.addr, method}, texts(as)...)...)
		if method != "echo" {
			// the handler's failure is answered with status 500
			refused(x, where, r, "crash")
		} else {
			x.Check(r.code == 0 && r.out == "", "exit", "%s: exit %d, stdout %q, stderr %q", where, r.code, r.out, r.err)
		}
		gs := s.take()
		if !plain {
			gs = settle(s, 1)
		}
		x.Check(len(gs) > 0, "lost", "%s: exit 0 but the server never gets the message", where)
		received(x, where, gs, 1, notifyKind, method, values(as))
		x.Outcome(scheme)
	}
	return []Family{{Name: "call", Split: 2, Run: func(x *X) {
		scheme := Pick(x, allSchemes)
		max := 1
		if scheme == "http" || x.Thorough {
			max = 2
		}
		method := Pick(x, []string{"echo", "none", "rpcfail", "fail", "pusher", "unheard"})
		as := pickArgs(x, max)
		where := fmt.Sprintf("call %s %q over %s", method, texts(as), scheme)
		x.State(where)
		s := serve(scheme)
		defer s.stop()
		r := run(x, "call", nil, append([]string{"-c", scheme + "://" + s.addr, method}, texts(as)...)...)
		gs := s.take()
		received(x, where, gs, 1, "request", method, values(as))
		answered(x, where, r, method, values(as), gs[0])
		x.Outcome(scheme)
	}}, {Name: "long", Split: 2, Run: func(x *X) {
		// long parameters, in an argument or in a file, and their answers
		scheme := Pick(x, allSchemes)
		n := Pick(x, []int{1000, 4097, 33000, 65537, 130000, 300001}) // (an argument has 131071 at most)
		file := n > 130000 || x.Bool()
		what := Pick(x, []string{"text", "list"})
		var v interface{}
		var text string
		if what == "text" {
			t := strings.Repeat("long %d text ", n/13+1)[:n]
			v, text = t, t
			if file {
				text = Canon(t)
			}
		} else {
			l := L{}
			for i := 0; i < n/6; i++ {
				l = append(l, num(strconv.Itoa(10000+i%7000)))
			}
			v, text = l, Canon(l)
		}
		where := fmt.Sprintf("call echo with a %s of %d bytes (file: %v) over %s", what, len(text), file, scheme)
		x.State(where)
		setup()
		if file {
			name := fmt.Sprintf("long-%s-%d.json", what, n)
			once.Do(name, func() { os.WriteFile(filepath.Join(scratch, name), []byte(text), 0o600) })
			text = "@" + name
		}
		s := serve(scheme)
		defer s.stop()
		r := run(x, "call", nil, "-c", scheme+"://"+s.addr, "echo", text)
		gs := s.take()
		received(x, where, gs, 1, "request", "echo", L{v})
		answered(x, where, r, "echo", L{v}, gs[0])
		x.Outcome(scheme)
	}}, {Name: "notify", Split: 2, Run: func(x *X) {
		notify(x, []string{"http", "https"})
	}}, {Name: "notify-streaming", Split: 1, Run: func(x *X) {
		notify(x, []string{"ws", "h2c", "wss", "h2"})
	}}, {Name: "benchmark", Split: 3, Run: func(x *X) {
		scheme := Pick(x, allSchemes)
		m := Pick(x, []string{"", "1", "2", "3"})
		n := Pick(x, []string{"", "1", "2", "5"})
		as := []arg{}
		if x.Bool() {
			as = append(as, goodArgs[7])
		}
		method := Pick(x, []string{"echo", "rpcfail"})
		total := 1
		args := []string{"-c", ""}
		for _, o := range [][2]string{{"-m", m}, {"-n", n}} {
			k := 10
			if o[1] != "" {
				args = append(args, o[0], o[1])
				k, _ = strconv.Atoi(o[1])
			}
			total *= k
		}
		where := fmt.Sprintf("benchmark over %s -m %q -n %q %s%q", scheme, m, n, method, texts(as))
		x.State(where)
		s := serve(scheme)
		defer s.stop()
		args[1] = scheme + "://" + s.addr
		r := run(x, "benchmark", nil, append(append(args, method), texts(as)...)...)
		gs := s.take()
		received(x, where, gs, total, "request", method, values(as))
		ids := map[string]bool{}
		for _, g := range gs {
			ids[Canon(g.id)] = true
		}
		x.Check(len(ids) == total, "ids", "%s: %d calls had %d ids", where, total, len(ids))
		benchmarked(x, where, r)
		x.Outcome(scheme)
	}}, {Name: "sources", Split: 3, Run: func(x *X) {
		// where the server url and the headers come from
		tool := Pick(x, []string{"call", "notify", "benchmark"})
		scheme := Pick(x, []string{"http", "ws", "h2c"})
		if tool == "notify" && scheme != "http" {
			x.Skip()
		}
		source := Pick(x, []string{"flag", "=flag", "env", "both", "empty flag"})
		hs := Pick(x, [][]string{nil, {"X-One=1"}, {"X-One=1", "X-Two=a=b"}, {"X-One=1", "x-one=2"}, {" X-One = spaced "}, {"X-One="}, {"Authorization=Bearer t"}})
		where := fmt.Sprintf("%s over %s, url by %s, headers %q", tool, scheme, source, hs)
		x.State(where)
		s := serve(scheme)
		defer s.stop()
		other := serve(scheme)
		defer other.stop()
		var args, env []string
		u := scheme + "://" + s.addr + "/p"
		switch source {
		case "flag":
			args = append(args, "-c", u)
		case "=flag":
			args = append(args, "-c="+u)
		case "env":
			env = append(env, "JSONRPC_CONNECT="+u)
		case "both":
			args = append(args, "-c", u)
			env = append(env, "JSONRPC_CONNECT="+scheme+"://"+other.addr)
		case "empty flag":
			args = append(args, "-c", "")
			env = append(env, "JSONRPC_CONNECT="+u)
		}
		for _, h := range hs {
			args = append(args, "-header", h)
		}
		total := 1
		if tool == "benchmark" {
			args = append(args, "-m", "2", "-n", "2")
			total = 4
		}
		r := run(x, tool, env, append(args, "echo", "7", "-c", "nothing")...)
		gs := s.take()
		kind := map[bool]string{true: notifyKind, false: "request"}[tool == "notify"]
		params := L{num("7"), "-c", "nothing"}
		received(x, where, gs, total, kind, "echo", params)
		x.Check(other.opens == 0, "other-server", "%s: the other server got a connection", where)
		want := http.Header{}
		for _, h := range hs {
			k, v, _ := strings.Cut(h, "=")
			want.Add(strings.TrimSpace(k), strings.TrimSpace(v))
		}
		for _, g := range gs {
			for _, k := range []string{"X-One", "X-Two", "Authorization"} {
				x.Check(fmt.Sprintf("%q", g.header.Values(k)) == fmt.Sprintf("%q", want.Values(k)), "headers", "%s: the server saw %s %q", where, k, g.header.Values(k))
			}
		}
		switch tool {
		case "call":
			answered(x, where, r, "echo", params, gs[0])
		case "notify":
			x.Check(r.code == 0 && r.out == "", "exit", "%s: exit %d, stdout %q, stderr %q", where, r.code, r.out, r.err)
		default:
			benchmarked(x, where, r)
		}
		x.Outcome(tool)
	}}, {Name: "many", Split: 3, Run: func(x *X) {
		// many arguments, many headers, many calls
		tool := Pick(x, []string{"call", "notify", "benchmark"})
		scheme := Pick(x, []string{"http", "ws", "h2c"})
		if tool == "notify" && scheme != "http" {
			x.Skip()
		}
		na := Pick(x, []int{9, 10, 17, 33, 200})
		nh := Pick(x, []int{0, 5, 9, 40})
		shape := [][2]string{{"", ""}}
		if tool == "benchmark" {
			shape = [][2]string{{"1", "120"}, {"25", "4"}, {"9", "11"}}
		}
		sh := Pick(x, shape)
		var as []arg
		for i := 0; i < na; i++ {
			a := goodArgs[i%len(goodArgs)]
			if i%3 == 0 {
				a = arg{strconv.Itoa(i), num(strconv.Itoa(i)), false}
			}
			as = append(as, a)
		}
		where := fmt.Sprintf("%s over %s with %d arguments, %d headers, %v", tool, scheme, na, nh, sh)
		x.State(where)
		s := serve(scheme)
		defer s.stop()
		args := []string{"-c", scheme + "://" + s.addr}
		for i := 0; i < nh; i++ {
			args = append(args, "-header", fmt.Sprintf("X-H%d=v%d", i%7, i))
		}
		total := 1
		if tool == "benchmark" {
			args = append(args, "-m", sh[0], "-n", sh[1])
			m, _ := strconv.Atoi(sh[0])
			n, _ := strconv.Atoi(sh[1])
			total = m * n
		}
		r := run(x, tool, nil, append(append(args, "echo"), texts(as)...)...)
		gs := s.take()
		kind := map[bool]string{true: notifyKind, false: "request"}[tool == "notify"]
		received(x, where, gs, total, kind, "echo", values(as))
		ids := map[string]bool{}
		for _, g := range gs {
			ids[Canon(g.id)] = true
			for k := 0; k < 7; k++ {
				var want []string
				for i := k; i < nh; i += 7 {
					want = append(want, fmt.Sprint("v", i))
				}
				got := g.header.Values(fmt.Sprint("X-H", k))
				x.Check(strings.Join(got, ",") == strings.Join(want, ","), "headers", "%s: the server saw X-H%d %q", where, k, got)
			}
		}
		switch tool {
		case "call":
			answered(x, where, r, "echo", values(as), gs[0])
		case "notify":
			x.Check(r.code == 0 && r.out == "", "exit", "%s: exit %d, stdout %q, stderr %q", where, r.code, r.out, r.err)
		default:
			x.Check(len(ids) == total, "ids", "%s: %d calls had %d ids", where, total, len(ids))
			benchmarked(x, where, r)
		}
		x.Outcome(tool)
	}}, {Name: "default", Serial: true, Run: func(x *X) {
		// no url given at all
		tool := Pick(x, []string{"call", "notify", "benchmark"})
		empty := x.Bool()
		l, err := net.Listen("tcp", "127.0.0.1:9990")
		if err != nil {
			x.Skip()
		}
		var mu sync.Mutex
		var paths []string
		s := httptest.NewUnstartedServer(nil)
		s.Listener.Close()
		s.Listener = l
		actor := jlibhttp.NewActor()
		actor.On("echo", func(ps []interface{}) (interface{}, error) { return ps, nil })
		h := jlibhttp.NewH1Handler(actor)
		s.Config.Handler = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			mu.Lock()
			paths = append(paths, r.URL.Path)
			mu.Unlock()
			h.ServeHTTP(w, r)
		})
		s.Start()
		defer s.Close()
		var env []string
		if empty {
			env = append(env, "JSONRPC_CONNECT=")
		}
		where := tool + " without a url"
		x.State(where, fmt.Sprint(empty))
		r := run(x, tool, env, "echo", "1")
		x.Check(r.code == 0, "exit", "%s: exit %d, stderr %q", where, r.code, r.err)
		x.Check(len(paths) == map[string]int{"call": 1, "notify": 1, "benchmark": 100}[tool], "requests", "%s: the server got %d requests", where, len(paths))
		x.Outcome(tool)
	}}, {Name: "refusals", Split: 3, Run: func(x *X) {
		tool := Pick(x, []string{"call", "notify", "benchmark", "watch"})
		scheme := Pick(x, []string{"http", "ws", "h2c"})
		fault := Pick(x, []string{"no method", "bad argument", "bad header", "bad url", "unreachable", "status"})
		where := fmt.Sprintf("%s over %s: %s", tool, scheme, fault)
		if tool == "watch" && (scheme == "http" || fault == "no method" || fault == "unreachable" || fault == "status") {
			x.Skip()
		}
		if tool == "benchmark" && (fault == "unreachable" || fault == "status") {
			x.Skip() // it counts a failed call like any other
		}
		s := serve(scheme)
		defer s.stop()
		u := scheme + "://" + s.addr
		args := []string{"echo", "1"}
		var flags []string
		switch fault {
		case "no method":
			args = nil
		case "bad argument":
			args = []string{"echo"}
			k := x.Choose(3)
			for i := 0; i < 3; i++ {
				if i == k {
					args = append(args, Pick(x, badArgs).text)
				} else if x.Bool() {
					args = append(args, "1")
				}
			}
		case "bad header":
			flags = append(flags, "-header", Pick(x, []string{"nope", "", "X-One:1"}))
			if x.Bool() {
				flags = append([]string{"-header", "X-Good=1"}, flags...)
			}
		case "bad url":
			u = Pick(x, []string{"ftp://" + s.addr, s.addr, "://", "http//" + s.addr, "\x7f"})
		case "unreachable":
			l := Listen()
			u = scheme + "://" + l.Addr().String()
			l.Close()
		case "status":
			addr, stop := listen(scheme, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(403) }))
			defer stop()
			u = scheme + "://" + addr
		}
		flags = append(flags, "-c", u)
		where += fmt.Sprintf(" %q %q", flags[:len(flags)-1], args)
		x.State(where)
		r := run(x, tool, nil, append(flags, args...)...)
		if tool == "watch" {
			x.Check(r.code != 0 && r.out == "", "exit-zero", "%s: exit %d, stdout %q, stderr %q", where, r.code, r.out, r.err)
		} else {
			crash := "crash"
			if tool == "benchmark" && fault == "bad url" {
				crash = "crash-url"
			}
			refused(x, where, r, crash)
		}
		x.Check(s.opens == 0, "request-sent", "%s: the server got a connection", where)
		x.Outcome(tool + " " + fault)
	}}, {Name: "counts", Split: 2, Run: func(x *X) {
		// a benchmark of no calls has nothing to report
		scheme := Pick(x, []string{"http", "ws"})
		m := Pick(x, []string{"0", "1", "-1", "x"})
		n := Pick(x, []string{"0", "1", "-1", "x"})
		s := serve(scheme)
		defer s.stop()
		where := fmt.Sprintf("benchmark over %s -m %s -n %s", scheme, m, n)
		x.State(where)
		r := run(x, "benchmark", nil, "-c", scheme+"://"+s.addr, "-m", m, "-n", n, "echo")
		if m == "1" && n == "1" {
			benchmarked(x, where, r)
			return
		}
		crash := "crash"
		if m == "0" && n != "-1" && n != "x" || n == "0" && m == "1" {
			crash = "crash-zero"
		}
		refused(x, where, r, crash)
		x.Check(len(s.take()) == 0, "request-sent", "%s: the server got %d messages", where, len(s.take()))
	}}, {Name: "watch", Split: 4, Run: func(x *X) {
		// one connection, the server ends it and the tool stops
		scheme := Pick(x, []string{"ws", "h2c", "wss", "h2"})
		ask := x.Bool()
		var as []arg
		if ask && x.Bool() {
			as = append(as, Pick(x, []arg{goodArgs[1], goodArgs[7], goodArgs[11]}))
		}
		pushes := []string{`{"method":"up","params":[1,"é <&>"]}`, `{"id":"r","method":"ask","params":[{"a":[null]}]}`, `{"id":77,"result":"stray"}`, `{"id":78,"error":{"code":-1,"message":"m"}}`}
		n := 1
		if x.Thorough {
			n = 2
		}
		var first, then []string
		for k := x.Choose(n + 1); k > 0; k-- {
			first = append(first, Pick(x, pushes))
		}
		if ask {
			for k := x.Choose(2); k > 0; k-- {
				then = append(then, Pick(x, pushes))
			}
		}
		bad := x.Bool() // the answer is an error
		if bad && !ask {
			x.Skip()
		}
		where := fmt.Sprintf("watch over %s (asks: %v %q), pushed %v, then %v", scheme, ask, texts(as), first, then)
		x.State(where)
		var mu sync.Mutex
		var asked []string
		opens := 0
		session := func(read func() (string, error), write func(string)) {
			mu.Lock()
			opens++
			mu.Unlock()
			for _, p := range first {
				write(p)
			}
			if ask {
				s, err := read()
				if err != nil {
					return
				}
				mu.Lock()
				asked = append(asked, s)
				mu.Unlock()
				v, _ := Parse([]byte(s))
				m, _ := v.(M)
				if bad {
					write(fmt.Sprintf(`{"id":%s,"error":{"code":5,"message":"e"}}`, Canon(m["id"])))
				} else {
					write(fmt.Sprintf(`{"id":%s,"result":["answer"]}`, Canon(m["id"])))
				}
				for _, p := range then {
					write(p)
				}
			}
		}
		var h http.Handler
		if strings.HasPrefix(scheme, "ws") {
			h = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				up := websocket.Upgrader{}
				ws, err := up.Upgrade(w, r, nil)
				if err != nil {
					return
				}
				defer ws.Close()
				session(func() (string, error) { _, b, err := ws.ReadMessage(); return string(b), err },
					func(s string) { ws.WriteMessage(websocket.TextMessage, []byte(s)) })
				ws.WriteMessage(websocket.CloseMessage, websocket.FormatCloseMessage(1000, ""))
				ws.ReadMessage()
			})
		} else {
			h = http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
				w.WriteHeader(200)
				w.(http.Flusher).Flush()
				d := json.NewDecoder(r.Body)
				session(func() (string, error) {
					var raw json.RawMessage
					err := d.Decode(&raw)
					return string(raw), err
				}, func(s string) { io.WriteString(w, s+"\n"); w.(http.Flusher).Flush() })
			})
			if scheme == "h2c" {
				h = h2c.NewHandler(h, &http2.Server{})
			}
		}
		addr, stop := listen(scheme, h)
		defer stop()
		args := []string{"-c", scheme + "://" + addr}
		if ask {
			args = append(append(args, "sub"), texts(as)...)
		}
		r := run(x, "watch", nil, args...)
		docs, err := documents(r.out)
		x.Check(err == nil, "stdout", "%s: prints %q", where, r.out)
		var pushed []string
		var answer []M
		for _, d := range docs {
			v, _ := Parse([]byte(d))
			m, _ := v.(M)
			if Canon(m["result"]) == `["answer"]` || Canon(m["error"]) == Canon(M{"code": num("5"), "message": "e"}) {
				answer = append(answer, m)
				continue
			}
			delete(m, "jsonrpc")
			pushed = append(pushed, Canon(m))
		}
		var want []string
		for _, p := range append(append([]string{}, first...), then...) {
			want = append(want, CanonOf([]byte(p)))
		}
		x.Check(strings.Join(pushed, ";") == strings.Join(want, ";"), "pushes", "%s: prints %v, want %v", where, pushed, want)
		mu.Lock()
		defer mu.Unlock()
		x.Check(opens == 1, "connections", "%s: opens %d connections", where, opens)
		if ask {
			x.Check(len(asked) == 1 && len(answer) == 1, "answer", "%s: sends %d requests and prints %d answers: %s", where, len(asked), len(answer), r.out)
			v, _ := Parse([]byte(asked[0]))
			m, _ := v.(M)
			x.Check(m["method"] == "sub" && Canon(m["params"]) == Canon(values(as)), "request", "%s: sends %s", where, asked[0])
			x.Check(Canon(m["id"]) == Canon(answer[0]["id"]), "id", "%s: prints id %v for %v", where, answer[0]["id"], m["id"])
		} else {
			x.Check(len(answer) == 0, "answer", "%s: prints %s", where, r.out)
		}
		x.Outcome(scheme)
	}}}
}
