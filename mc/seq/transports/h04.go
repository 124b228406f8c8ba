//go:build go1.22

package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"net/http"
	"net/textproto"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	. "github.com/superisaac/jlib/zzverif/kit"
)

// authority is a certificate authority made for one run of the check.
type authority struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	pool *x509.CertPool
}

func newAuthority(name string) *authority {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, IsCA: true, BasicConstraintsValid: true,
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(1000 * time.Hour), KeyUsage: x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	cert, _ := x509.ParseCertificate(der)
	pool := x509.NewCertPool()
	pool.AddCert(cert)
	return &authority{cert, key, pool}
}

func (a *authority) issueFor(name string, ips ...net.IP) tls.Certificate {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(2), Subject: pkix.Name{CommonName: name}, DNSNames: []string{name}, IPAddresses: ips,
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(900 * time.Hour), KeyUsage: x509.KeyUsageDigitalSignature,
		ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
	der, err := x509.CreateCertificate(rand.Reader, t, a.cert, &key.PublicKey, a.key)
	if err != nil {
		panic(err)
	}
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
}

var (
	pkiOnce                sync.Once
	ca1, ca2, ca3          *authority // the last one is trusted by the system
	systemCert             tls.Certificate
	serverCert, clientCert tls.Certificate
)

func pki() {
	pkiOnce.Do(func() {
		ca1, ca2, ca3 = newAuthority("one"), newAuthority("two"), newAuthority("three")
		systemCert = ca3.issueFor("server.test", ServerIPs...)
		f, err := os.CreateTemp("", "roots-")
		if err != nil {
			panic(err)
		}
		pem.Encode(f, &pem.Block{Type: "CERTIFICATE", Bytes: ca3.cert.Raw})
		f.Close()
		os.Setenv("SSL_CERT_FILE", f.Name())
		os.Setenv("SSL_CERT_DIR", filepath.Dir(f.Name())+"/none")
		serverCert = ca1.issueFor("server.test", ServerIPs...)
		clientCert = ca1.issueFor("client.test")
	})
}

// seenServer serves an actor whose one method reports what it saw of the
// HTTP request that carried the message.
type seenServer struct {
	addr string
	mu   sync.Mutex
	seen []*http.Request
	ctxs []context.Context
	stop func()
}

func (s *seenServer) take() []*http.Request {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := s.seen
	s.seen = nil
	return r
}

// serveSeen's server is certified by the first authority, or by the one the
// system trusts.
func serveSeen(p pairing, mutual bool, wrap func(http.Handler) http.Handler) *seenServer {
	self := &seenServer{}
	actor := jlibhttp.NewActor()
	actor.OnRequest("look", func(req *jlibhttp.RPCRequest, ps []interface{}) (interface{}, error) {
		self.mu.Lock()
		defer self.mu.Unlock()
		self.seen = append(self.seen, req.HttpRequest())
		self.ctxs = append(self.ctxs, req.Context())
		return ps, nil
	})
	ctx, cancel := context.WithCancel(context.Background())
	var h http.Handler
	switch p.server {
	case "own h1":
		h = jlibhttp.NewH1Handler(actor)
	case "own ws":
		h = jlibhttp.NewWSHandler(ctx, actor)
	case "own h2c":
		h = jlibhttp.NewH2Handler(ctx, actor).H2CHandler()
	case "own h2":
		h = jlibhttp.NewH2Handler(ctx, actor)
	case "gateway":
		h = jlibhttp.NewGatewayHandler(ctx, actor, true)
	case "gateway tls":
		h = jlibhttp.NewGatewayHandler(ctx, actor, false)
	}
	if wrap != nil {
		h = wrap(h)
	}
	s := NewServer(h)
	s.Config.ErrorLog = quiet
	if isTLS(p.client) {
		pki()
		s.EnableHTTP2 = true
		s.TLS = &tls.Config{Certificates: []tls.Certificate{serverCert}}
		if p.system {
			s.TLS.Certificates[0] = systemCert
		}
		if mutual {
			s.TLS.ClientAuth = tls.RequireAndVerifyClientCert
			s.TLS.ClientCAs = ca1.pool
		}
		s.StartTLS()
	} else {
		s.Start()
	}
	self.addr = s.Listener.Addr().String()
	self.stop = func() {
		cancel()
		go func() {
			s.CloseClientConnections()
			s.Close()
		}()
	}
	return self
}

func newClient(x *X, u string) jlibhttp.Client {
	c, err := jlibhttp.NewClient(u)
	x.Check(err == nil && c != nil, "new-client", "NewClient(%q): %v", u, err)
	return c
}

func closeClient(c jlibhttp.Client) {
	if s, ok := c.(interface{ Close() }); ok {
		s.Close()
	}
}

func isTLS(scheme string) bool { return scheme == "https" || scheme == "wss" || scheme == "h2" }

func look(c jlibhttp.Client, id interface{}) (jlib.Message, error) {
	return c.Call(context.Background(), jlib.NewRequestMessage(id, "look", []interface{}{id}))
}

func showHeader(h http.Header) string {
	ks := []string{}
	for k := range h {
		ks = append(ks, fmt.Sprintf("%s=%q", k, h[k]))
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

// crumbs is the cookies of some Cookie headers.
func crumbs(vs []string) []string {
	var cs []string
	for _, c := range strings.Split(strings.Join(vs, ";"), ";") {
		if c = strings.TrimSpace(c); c != "" {
			cs = append(cs, c)
		}
	}
	return cs
}

func h04() []Family {
	schemes := []string{"http", "https", "ws", "wss", "h2", "h2c", "HTTP", "Wss", "H2C", "", "ftp", "h3", "h2s", "httpx", "wsx", "tcp", "unix", "file", "jsonrpc", " ws", "ws ", "1ws", "h2+c", "\x00", "wß", "127.0.0.1", "localhost"}
	rests := []string{"://127.0.0.1:1/rpc", "://h", "://", ":", ":opaque", ":9990", "", "://[::1]:80/", "://[::1", "://h:port/", "://h:99999/", "://u:p@h/a?b=c#d", ":///path", "://h/%zz", "://h/a b", "?q", "/x"}
	kinds := map[string]string{"http": "*jlibhttp.H1Client", "https": "*jlibhttp.H1Client", "ws": "*jlibhttp.WSClient", "wss": "*jlibhttp.WSClient", "h2": "*jlibhttp.H2Client", "h2c": "*jlibhttp.H2Client"}

	headers := []http.Header{
		nil,
		{"X-One": {"1"}},
		{"X-Two": {"a", "b"}, "Authorization": {"Bearer t"}},
		{"X-One": {"other"}, "X-Empty": {""}, "Cookie": {"c=1; d=2"}},
	}
	keys := []string{"X-One", "X-Two", "Authorization", "X-Empty", "Cookie"}

	type tlsSetting struct {
		name   string
		make   func() *tls.Config
		plain  bool // accepts the server certified by the first authority
		system bool // accepts the one certified by the system's authority
		mutual bool // ... when it asks for a client certificate
	}
	tlsSettings := []tlsSetting{
		{"none", func() *tls.Config { return nil }, false, true, false},
		{"insecure", func() *tls.Config { return &tls.Config{InsecureSkipVerify: true} }, true, true, false},
		{"its authority", func() *tls.Config { return &tls.Config{RootCAs: ca1.pool} }, true, false, false},
		{"another authority", func() *tls.Config { return &tls.Config{RootCAs: ca2.pool} }, false, false, false},
		{"another name", func() *tls.Config { return &tls.Config{RootCAs: ca1.pool, ServerName: "elsewhere.test"} }, false, false, false},
		{"its name", func() *tls.Config { return &tls.Config{RootCAs: ca1.pool, ServerName: "server.test"} }, true, false, false},
		{"the name only", func() *tls.Config { return &tls.Config{ServerName: "server.test"} }, false, true, false},
		{"its authority and a client certificate", func() *tls.Config {
			return &tls.Config{RootCAs: ca1.pool, Certificates: []tls.Certificate{clientCert}}
		}, true, false, true},
	}

	return []Family{{Name: "schemes", Run: func(x *X) {
		u := Pick(x, schemes) + Pick(x, rests)
		x.State(u)
		x.Step("NewClient(%q)", u)
		var c jlibhttp.Client
		var err error
		p, pv := Try(func() { c, err = jlibhttp.NewClient(u) })
		x.Check(!p, "panic", "NewClient(%q) panics: %v", u, pv)
		pu, perr := url.Parse(u)
		kind := ""
		if perr == nil {
			kind = kinds[pu.Scheme]
		}
		if kind == "" {
			x.Outcome("refused")
			x.Check(err != nil, "accepted", "NewClient(%q) gives a %T, want an error", u, c)
			return
		}
		x.Outcome(pu.Scheme)
		x.Check(err == nil, "refused", "NewClient(%q): %v", u, err)
		x.Check(fmt.Sprintf("%T", c) == kind, "kind", "NewClient(%q) gives a %T, want a %s", u, c, kind)
		_, streamable := c.(jlibhttp.Streamable)
		want := kind != "*jlibhttp.H1Client"
		x.Check(c.IsStreaming() == want && streamable == want, "streaming", "the %T of %q: IsStreaming %v, Streamable %v", c, u, c.IsStreaming(), streamable)
		got := c.ServerURL()
		x.Check(got.Host == pu.Host && got.RequestURI() == pu.RequestURI(), "server-url", "the client of %q has server url %q", u, got)
	}}, {Name: "header-flags", Run: func(x *X) {
		words := []string{"a=b", "a=b=c", " A = b ", "a", "", "=x", "a=", "X-Y=1", "x-y=2", "a = b  c ", "x_y==", "\ta=\tb", "Etag=\"q\""}
		n := x.Choose(4)
		var f jlibhttp.HeaderFlags
		want := http.Header{}
		bad := false
		for i := 0; i < n; i++ {
			w := Pick(x, words)
			x.Check(f.Set(w) == nil, "set", "Set(%q) fails", w)
			k, v, ok := strings.Cut(w, "=")
			if !ok {
				bad = true
				continue
			}
			k = textproto.CanonicalMIMEHeaderKey(strings.Trim(k, " "))
			want[k] = append(want[k], strings.Trim(v, " "))
		}
		x.State(fmt.Sprintf("%q", []string(f)))
		x.Step("Parse of %q", []string(f))
		got, err := f.Parse()
		if bad {
			x.Outcome("refused")
			x.Check(err != nil, "accepted", "%q gives %v", []string(f), got)
			return
		}
		x.Outcome("parsed")
		x.Check(err == nil, "refused", "%q: %v", []string(f), err)
		x.Check(showHeader(got) == showHeader(want), "headers", "%q gives %s, want %s", []string(f), showHeader(got), showHeader(want))
	}}, {Name: "target", Run: func(x *X) {
		p := pairings()[x.Choose(len(pairings()))]
		path := Pick(x, []string{"", "/", "/rpc", "/a%20b/c?x=1&y=%2F", "/rpc/?q#frag", "//double", "/%C3%A9", "?only=query"})
		s := serveSeen(p, false, nil)
		defer s.stop()
		u := p.client + "://" + s.addr + path
		x.State(p.client, p.server, path)
		x.Step("%s client to %s at %q", p.client, p.server, path)
		c := newClient(x, u)
		defer closeClient(c)
		if isTLS(p.client) {
			c.SetClientTLSConfig(&tls.Config{RootCAs: ca1.pool})
		}
		_, err := look(c, 1)
		x.Check(err == nil, "call", "call to %q: %v", u, err)
		got := s.take()
		pu, _ := url.Parse(u)
		x.Check(len(got) == 1, "handlers", "call to %q ran %d handlers", u, len(got))
		x.Check(got[0].URL.RequestURI() == pu.RequestURI(), "target", "a call to %q asks for %q", u, got[0].URL.RequestURI())
		x.Check(got[0].Host == s.addr, "host", "a call to %q goes to host %q", u, got[0].Host)
		x.Outcome(p.client)
	}}, {Name: "headers", Run: func(x *X) {
		p := pairings()[x.Choose(len(pairings()))]
		s := serveSeen(p, false, nil)
		defer s.stop()
		streaming := !strings.HasPrefix(p.client, "http")
		var cs [2]jlibhttp.Client
		var set, conn [2]http.Header // what was set, what the open connection was made with
		var open [2]bool
		for i := range cs {
			cs[i] = newClient(x, p.client+"://"+s.addr+"/rpc")
			defer closeClient(cs[i])
			if isTLS(p.client) {
				cs[i].SetClientTLSConfig(&tls.Config{RootCAs: ca1.pool})
			}
		}
		where := p.client + " client to " + p.server + ":"
		use := func(i int, kind string) {
			where += fmt.Sprintf(" %s by %d;", kind, i)
			x.Step("%s", where)
			var err error
			if kind == "call" {
				_, err = look(cs[i], 1)
			} else {
				err = cs[i].Send(context.Background(), jlib.NewNotifyMessage("look", []interface{}{1}))
			}
			x.Check(err == nil, "call", "%s %v", where, err)
			got := s.take()
			for t := 0; len(got) == 0 && t < 4000; t++ {
				time.Sleep(100 * time.Microsecond)
				got = s.take()
			}
			x.Check(len(got) == 1, "handlers", "%s ran %d handlers", where, len(got))
			want := set[i]
			if streaming {
				if !open[i] {
					open[i], conn[i] = true, set[i]
				}
				want = conn[i]
			}
			for _, k := range keys {
				x.Check(fmt.Sprintf("%q", got[0].Header.Values(k)) == fmt.Sprintf("%q", want.Values(k)), "headers",
					"%s the server saw %s %q, the client was told to send %q", where, k, got[0].Header.Values(k), want.Values(k))
			}
		}
		n := 3
		if streaming {
			n = 4
		}
		if x.Thorough {
			n++
		}
		for k := 0; k < n; k++ {
			ops := 5
			if streaming && (open[0]) {
				ops = 6
			}
			switch op := x.Choose(ops); op {
			case 0, 1, 2:
				i := op & 1
				if op == 2 {
					use(0, "notify")
				} else {
					use(i, "call")
				}
			case 3, 4:
				i := op - 3
				menu := []int{1, 2}
				if x.Thorough {
					menu = append(menu, 3)
				}
				if set[i] != nil {
					menu = append(menu, 0)
				}
				h := Pick(x, menu)
				cs[i].SetExtraHeader(headers[h].Clone())
				set[i] = headers[h]
				where += fmt.Sprintf(" %d sends %s;", i, showHeader(headers[h]))
			case 5:
				closeClient(cs[0])
				open[0] = false
				where += " close of 0;"
			}
			x.State(where)
		}
		use(0, "call")
		use(1, "call")
		use(0, "call")
		x.Outcome(p.client)
	}}, {Name: "header-values", Run: func(x *X) {
		// one header with every count of values, next to another one, on every
		// kind of use
		p := pairings()[x.Choose(len(pairings()))]
		k := Pick(x, []string{"Authorization", "Cookie", "Accept-Language", "Referer", "From", "Cache-Control", "X-Api-Key", "X-Forwarded-For", "Traceid", "Accept"})
		vs := Pick(x, [][]string{{"a"}, {"Basic YTpi", "Bearer t"}, {"Bearer t", "Basic YTpi"}, {"same", "same"}, {"", "x"}, {"x", "", "y"}, {"a=1, b=2", "c; d"}})
		also := x.Bool()
		n := 1 + x.Choose(2)
		h := http.Header{k: vs}
		if also {
			h["X-Also"] = []string{"1", "2"}
		}
		s := serveSeen(p, false, nil)
		defer s.stop()
		c := newClient(x, p.client+"://"+s.addr+"/rpc")
		defer closeClient(c)
		if isTLS(p.client) {
			c.SetClientTLSConfig(&tls.Config{RootCAs: ca1.pool})
		}
		c.SetExtraHeader(h.Clone())
		where := fmt.Sprintf("%s client to %s with %s:", p.client, p.server, showHeader(h))
		for i := 0; i < n; i++ {
			kind := Pick(x, []string{"call", "notify", "unwrap", "request"})
			where += " " + kind
			x.Step("%s", where)
			var err error
			switch kind {
			case "call":
				_, err = look(c, 1)
			case "notify":
				err = c.Send(context.Background(), jlib.NewNotifyMessage("look", []interface{}{1}))
			case "unwrap":
				var out interface{}
				err = c.UnwrapCall(context.Background(), jlib.NewRequestMessage(2, "look", []interface{}{1}), &out)
			case "request":
				// (without waiting for its answer)
				err = c.Send(context.Background(), jlib.NewRequestMessage(3, "look", []interface{}{1}))
			}
			x.Check(err == nil, "call", "%s %v", where, err)
			got := s.take()
			for t := 0; len(got) == 0 && t < 4000; t++ {
				time.Sleep(100 * time.Microsecond)
				got = s.take()
			}
			x.Check(len(got) == 1, "handlers", "%s ran %d handlers", where, len(got))
			for _, k := range []string{k, "X-Also"} {
				saw, want := got[0].Header.Values(k), h[k]
				if k == "Cookie" {
					// HTTP/2 may join and split these
					saw, want = crumbs(saw), crumbs(want)
				}
				if k == "Accept" {
					// the client may name types of its own next to these
					own := saw
					saw = nil
					for _, v := range own {
						if len(saw) < len(want) && v == want[len(saw)] {
							saw = append(saw, v)
						}
					}
				}
				x.Check(fmt.Sprintf("%q", saw) == fmt.Sprintf("%q", want), "headers",
					"%s the server saw %s %q, the client was told to send %q", where, k, saw, want)
			}
			if p.client == "ws" || p.client == "wss" || strings.HasPrefix(p.client, "h2") {
				if !x.Thorough {
					break
				}
			}
		}
		x.State(where)
		x.Outcome(p.client)
	}}, {Name: "tls", Run: func(x *X) {
		pki()
		kinds := []pairing{{client: "https", server: "gateway tls"}, {client: "wss", server: "gateway tls"}, {client: "h2", server: "gateway tls"}, {client: "h2", server: "own h2"}}
		mutual := x.Bool()
		system := !mutual && x.Bool()
		type one struct {
			scheme string
			set    tlsSetting
			c      jlibhttp.Client
		}
		// the two clients may have different schemes, they go to one server
		a := kinds[x.Choose(len(kinds))]
		a.system = system
		as := Pick(x, tlsSettings)
		b := kinds[x.Choose(3)]
		bs := Pick(x, tlsSettings)
		shared := false
		if as.name == bs.name && as.name != "none" {
			shared = x.Bool()
		}
		order := Pick(x, []string{"ab", "ba", "aba", "abab"}[:3])
		s := serveSeen(a, mutual, nil)
		defer s.stop()
		if a.server == "own h2" && b.client == "wss" {
			x.Skip()
		}
		one1, one2 := one{a.client, as, nil}, one{b.client, bs, nil}
		cfg := as.make()
		cfg2 := bs.make()
		if shared {
			cfg2 = cfg
		}
		where := fmt.Sprintf("%s (system's authority: %v), certificate asked: %v; a: %s with %s, b: %s with %s (one config: %v), order %s", a.server, system, mutual, a.client, as.name, b.client, bs.name, shared, order)
		x.State(where)
		for _, w := range []struct {
			o   *one
			cfg *tls.Config
		}{{&one1, cfg}, {&one2, cfg2}} {
			w.o.c = newClient(x, w.o.scheme+"://"+s.addr+"/")
			defer closeClient(w.o.c)
			if w.cfg != nil {
				w.o.c.SetClientTLSConfig(w.cfg)
			}
		}
		for i, r := range order {
			o := &one1
			if r == 'b' {
				o = &one2
			}
			want := o.set.plain
			if mutual {
				want = o.set.mutual
			} else if system {
				want = o.set.system
			}
			x.Step("%s: call %d", where, i)
			res, err := look(o.c, i)
			got := s.take()
			if want {
				x.Check(err == nil, "refused", "%s: call %d fails: %v", where, i, err)
				x.Check(len(got) == 1 && res.IsResult(), "answer", "%s: call %d ran %d handlers", where, i, len(got))
				x.Check(got[0].TLS != nil, "in-the-clear", "%s: call %d came without TLS", where, i)
				x.Outcome("accepted")
			} else {
				x.Check(err != nil, "untrusted", "%s: call %d succeeds", where, i)
				x.Check(len(got) == 0, "untrusted-handler", "%s: call %d ran a handler", where, i)
				x.Outcome("refused")
			}
			if len(order) > 2 && i == 0 {
				closeClient(o.c)
			}
		}
	}}}
}
