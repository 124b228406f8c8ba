//go:build go1.22

package main

import (
	"context"
	"crypto/ecdsa"
	"crypto/tls"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	. "github.com/superisaac/jlib/zzverif/kit"
)

var pemOnce sync.Once
var pemDir string

func writePEM(name string, c tls.Certificate) {
	cert := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.Certificate[0]})
	kb, err := x509.MarshalECPrivateKey(c.PrivateKey.(*ecdsa.PrivateKey))
	if err != nil {
		panic(err)
	}
	key := pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb})
	for n, b := range map[string][]byte{name + ".crt": cert, name + ".key": key} {
		if err := os.WriteFile(filepath.Join(pemDir, n), b, 0600); err != nil {
			panic(err)
		}
	}
}

func pems() {
	pemOnce.Do(func() {
		pki()
		d, err := os.MkdirTemp("", "h05-")
		if err != nil {
			panic(err)
		}
		pemDir = d
		writePEM("good", serverCert)
		writePEM("other", ca2.issueFor("server.test", net.IPv4(127, 0, 0, 1)))
		os.WriteFile(filepath.Join(d, "junk.crt"), []byte("junk"), 0600)
		os.WriteFile(filepath.Join(d, "empty.crt"), nil, 0600)
	})
}

var lastIP int64 = -1

// address gives every execution an address of its own on the loopback network.
func address() string {
	n := atomic.AddInt64(&lastIP, 1)
	return fmt.Sprintf("127.%d.%d.%d:18571", 77+n/62500, n/250%250+1, n%250+1)
}

func h05() []Family {
	type setting struct {
		name  string
		cfg   *jlibhttp.TLSConfig
		state string // "", "good", "bad"
	}
	file := func(n string) string {
		if n == "" {
			return ""
		}
		return filepath.Join(pemDir, n)
	}
	settings := func() []setting {
		pems()
		pair := func(c, k string) *jlibhttp.TLSConfig { return &jlibhttp.TLSConfig{Certfile: file(c), Keyfile: file(k)} }
		return []setting{
			{"nil", nil, ""},
			{"good", pair("good.crt", "good.key"), "good"},
			{"no such files", pair("no.crt", "no.key"), "bad"},
			{"no such key", pair("good.crt", "no.key"), "bad"},
			{"junk", pair("junk.crt", "good.key"), "bad"},
			{"empty file", pair("empty.crt", "good.key"), "bad"},
			{"key of another", pair("good.crt", "other.key"), "bad"},
			{"blank", pair("", ""), "bad"},
			{"another server's", pair("other.crt", "other.key"), "other"},
		}
	}
	const patience = 8 * time.Second
	wait := func(cond func() bool) bool {
		for end := time.Now().Add(patience); time.Now().Before(end); time.Sleep(300 * time.Microsecond) {
			if cond() {
				return true
			}
		}
		return cond()
	}
	free := func(addr string) bool {
		l, err := net.Listen("tcp", addr)
		if err != nil {
			return false
		}
		l.Close()
		return true
	}
	return []Family{{Name: "serve", Run: func(x *X) {
		all := settings()
		// which TLS settings are passed
		var given []setting
		for n := x.Choose(3); n > 0; n-- {
			given = append(given, Pick(x, all))
		}
		kind, names := "", []string{}
		var cfgs []*jlibhttp.TLSConfig
		for _, s := range given {
			names = append(names, s.name)
			cfgs = append(cfgs, s.cfg)
			if kind == "" {
				kind = s.state
			}
		}
		handler := Pick(x, []string{"own h1", "gateway"})
		when := Pick(x, []string{"before", "at once", "idle", "served", "serving", "again"})
		where := fmt.Sprintf("TLS settings %q, %s, cancelled: %s", names, handler, when)
		x.State(where)
		x.Step("%s", where)
		addr := address()
		run := func() {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			actor := jlibhttp.NewActor()
			gate := make(chan struct{})
			entered := make(chan struct{}, 1)
			actor.On("echo", func(ps []interface{}) (interface{}, error) { return ps, nil })
			actor.On("slow", func(ps []interface{}) (interface{}, error) {
				entered <- struct{}{}
				<-gate
				return "slow", nil
			})
			defer close(gate)
			var h http.Handler
			if handler == "own h1" {
				h = jlibhttp.NewH1Handler(actor)
			} else {
				h = jlibhttp.NewGatewayHandler(ctx, actor, kind == "")
			}
			if when == "before" {
				cancel()
			}
			done := make(chan error, 1)
			over := make(chan struct{})
			go func() {
				defer close(over)
				done <- jlibhttp.ListenAndServe(ctx, addr, h, cfgs...)
			}()
			ended := func() bool {
				select {
				case <-over:
					return true
				default:
					return false
				}
			}
			x.Op()
			if kind == "bad" {
				x.Outcome("refused")
				x.Check(wait(ended), "not-refused", "%s: it does not return", where)
				err := <-done
				x.Check(err != nil, "no-error", "%s: it returns no error", where)
				x.Check(wait(func() bool { return free(addr) }), "left-listening", "%s: it returned %v but the address is still in use", where, err)
				return
			}
			scheme := "http"
			roots := ca1
			if kind != "" {
				scheme = "https"
			}
			if kind == "other" {
				roots = ca2
			}
			call := func(method string, id int) (jlib.Message, error) {
				c, err := jlibhttp.NewClient(scheme+"://"+addr+"/", jlibhttp.ClientOptions{Timeout: 20})
				if err != nil {
					panic(err)
				}
				c.SetClientTLSConfig(&tls.Config{RootCAs: roots.pool, ServerName: "server.test"})
				return c.Call(context.Background(), jlib.NewRequestMessage(id, method, []interface{}{id}))
			}
			var slow chan error
			switch when {
			case "at once":
				cancel()
			case "idle", "served", "serving", "again":
				up := wait(func() bool {
					if ended() {
						return true
					}
					c, err := net.Dial("tcp", addr)
					if err == nil {
						c.Close()
					}
					return err == nil
				})
				x.Check(up && !ended(), "not-served", "%s: nothing accepts connections", where)
				if when != "idle" {
					for i := 0; i < 2; i++ {
						x.Op()
						res, err := call("echo", i)
						x.Check(err == nil && res.IsResult(), "no-answer", "%s: call %d: %v", where, i, err)
					}
				}
				if when == "serving" {
					slow = make(chan error, 1)
					go func() {
						_, err := call("slow", 7)
						slow <- err
					}()
					<-entered
				}
				x.Check(!ended(), "returned", "%s: it returned while it should serve", where)
				cancel()
			}
			x.Check(wait(ended), "does-not-stop", "%s: it does not return", where)
			x.Check(wait(func() bool { return free(addr) }), "left-listening", "%s: it returned but the address is still in use", where)
			_, err := net.Dial("tcp", addr)
			x.Check(err != nil, "still-serving", "%s: it returned but connections are accepted", where)
			x.Outcome(map[string]string{"": "served"}[kind] + kind)
		}
		run()
		if when == "again" {
			run()
			run()
		}
	}}, {Name: "address", Run: func(x *X) {
		all := settings()[:2]
		s := Pick(x, all)
		addr := address()
		host, _, _ := net.SplitHostPort(addr)
		taken := false
		bind := addr
		switch b := x.Choose(8); b {
		case 0, 1, 2:
			taken = true
		case 3:
			bind = ":port"
		case 4:
			bind = host
		case 5:
			bind = host + ":99999"
		case 6:
			bind = "256.1.1.1:18571"
		case 7:
			bind = "127.0.0.1:-1"
		}
		how := x.Choose(3)
		where := fmt.Sprintf("bind %q (taken %v, %d), TLS %s", bind, taken, how, s.name)
		x.State(where)
		x.Step("%s", where)
		var held net.Listener
		var cancelFirst context.CancelFunc
		var first chan error
		if taken {
			if how == 0 { // by another program
				l, err := net.Listen("tcp", addr)
				if err != nil {
					panic(err)
				}
				held = l
				defer l.Close()
			} else { // by a server of the same kind
				ctx, cancel := context.WithCancel(context.Background())
				cancelFirst = cancel
				defer cancel()
				first = make(chan error, 1)
				go func() { first <- jlibhttp.ListenAndServe(ctx, addr, jlibhttp.NewH1Handler(nil), s.cfg) }()
				if !wait(func() bool {
					c, err := net.Dial("tcp", addr)
					if err == nil {
						c.Close()
					}
					return err == nil
				}) {
					x.Fail("not-served", "%s: the first server accepts no connections", where)
				}
			}
		}
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		done := make(chan error, 1)
		go func() { done <- jlibhttp.ListenAndServe(ctx, bind, jlibhttp.NewH1Handler(nil), s.cfg) }()
		select {
		case err := <-done:
			x.Check(err != nil, "no-error", "%s: it returns no error", where)
		case <-time.After(patience):
			x.Fail("not-refused", "%s: it does not return", where)
		}
		if taken {
			// the holder of the address is not disturbed
			c, err := net.Dial("tcp", addr)
			x.Check(err == nil, "disturbed", "%s: the holder of the address no longer accepts: %v", where, err)
			c.Close()
			if how == 0 {
				held.Close()
			} else {
				select {
				case err := <-first:
					x.Fail("disturbed", "%s: the first server returned %v", where, err)
				default:
				}
				cancelFirst()
				select {
				case <-first:
				case <-time.After(patience):
					x.Fail("does-not-stop", "%s: the first server does not return", where)
				}
			}
			// and the address can be used afterwards
			ctx2, cancel2 := context.WithCancel(context.Background())
			defer cancel2()
			second := make(chan error, 1)
			go func() { second <- jlibhttp.ListenAndServe(ctx2, addr, jlibhttp.NewH1Handler(nil), s.cfg) }()
			up := wait(func() bool {
				c, err := net.Dial("tcp", addr)
				if err == nil {
					c.Close()
				}
				return err == nil
			})
			x.Check(up, "not-served", "%s: a server started afterwards accepts no connections", where)
			cancel2()
			select {
			case <-second:
			case <-time.After(patience):
				x.Fail("does-not-stop", "%s: the last server does not return", where)
			}
		}
		x.Outcome(fmt.Sprintf("taken %v", taken))
	}}, {Name: "validate", Run: func(x *X) {
		c := jlibhttp.TLSConfig{Certfile: Pick(x, []string{"", "a", " "}), Keyfile: Pick(x, []string{"", "k", " "})}
		x.State(c.Certfile, c.Keyfile)
		x.Step("%+v", c)
		err := c.ValidateValues()
		x.Check((err == nil) == (c.Certfile != "" && c.Keyfile != ""), "validate", "%+v: %v", c, err)
	}}}
}
