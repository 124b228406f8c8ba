//go:build go1.22

package main

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"time"
	_ "unsafe"

	"github.com/golang-jwt/jwt"
	"github.com/superisaac/jlib/http"
	. "github.com/superisaac/jlib/zzverif/kit"
)

// The bubble of testing/synctest gives every goroutine in it a virtual clock
// which starts at 2000-01-01 and only moves when all of them sleep.
//
//go:linkname synctestRun internal/synctest.Run
func synctestRun(f func())

// bubble runs f under a virtual clock; panics of f come out of bubble.
func bubble(f func()) {
	var val interface{}
	done := false
	synctestRun(func() {
		defer func() {
			if !done {
				val = recover()
			}
		}()
		f()
		done = true
	})
	if !done {
		panic(val)
	}
}

func u02() []Family {
	t0 := time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)
	type token struct {
		name string
		text string
		exp  int // seconds after the start
		user string
		set  M
		good bool
	}
	mk := func(name, secret string, exp int, user string, set M) token {
		c := jwt.MapClaims{"username": user, "exp": t0.Unix() + int64(exp)}
		if set != nil {
			c["settings"] = set
		}
		return token{name, sign(jwt.SigningMethodHS256, []byte(secret), c), exp, user, set, secret == "k"}
	}
	toks := []token{
		mk("short", "k", 5, "ann", M{"a": "b"}),
		mk("long", "k", 60, "ann", nil),
		mk("mid", "k", 9, "ben", nil),
		mk("now", "k", 0, "cat", nil),
		mk("past", "k", -1, "dan", nil),
		mk("forged", "wrong", 60, "ann", nil),
	}
	var extra []token
	for i := 0; i < 130; i++ {
		extra = append(extra, mk(fmt.Sprint("extra", i), "k", 7+i%3, fmt.Sprint("x", i), nil))
	}
	type env struct {
		h    *jlibhttp.AuthHandler
		n    int
		info *jlibhttp.AuthInfo
	}
	mkEnv := func() *env {
		e := &env{}
		e.h = jlibhttp.NewAuthHandler(&jlibhttp.AuthConfig{Jwt: &jlibhttp.JwtAuthConfig{Secret: "k"}}, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			e.n++
			e.info, _ = jlibhttp.AuthInfoFromContext(r.Context())
		}))
		return e
	}
	ask := func(x *X, e *env, t *token, past string) {
		now := int(time.Since(t0) / time.Second)
		r := httptest.NewRequest("POST", "/", nil)
		r.Header.Set("Authorization", "Bearer "+t.text)
		e.n, e.info = 0, nil
		w := newRecorder()
		x.Op()
		p, pv := Try(func() { e.h.ServeHTTP(w, r); w.finish() })
		want := t.good && now <= t.exp
		x.Outcome(map[bool]string{true: "accepted", false: "refused"}[want])
		x.Check(!p, "panic", "%s: panic %v", past, pv)
		x.Check((e.n == 1) == want && e.n <= 1, "verdict", "after%s: token %s (expires at %ds) at %ds reached the handler %d times, want %v", past, t.name, t.exp, now, e.n, want)
		if want {
			x.Check(e.info != nil && e.info.Username == t.user && Canon(normSet(e.info.Settings)) == Canon(normSet(t.set)), "identity", "after%s: token %s gave %+v", past, t.name, e.info)
		} else {
			x.Check(w.code == 401, "status", "after%s: token %s answered %d", past, t.name, w.code)
		}
	}
	steps := []int{1, 4, 5, 55}
	run := func(x *X, depth int, withFlood bool) {
		bubble(func() {
			e := mkEnv()
			past := ""
			at := 0
			n := len(toks) + len(steps)
			if withFlood {
				n++
			}
			lastAdvance := false
			for i := 0; i < depth; i++ {
				c := x.Choose(n)
				switch {
				case c < len(toks):
					past += " " + toks[c].name
					x.Step("request with %s at %ds", toks[c].name, at)
					ask(x, e, &toks[c], past)
					lastAdvance = false
				case c < len(toks)+len(steps):
					d := steps[c-len(toks)]
					if lastAdvance && d != 1 {
						x.Skip() // sums of steps are reached in fewer steps
					}
					past += fmt.Sprintf(" +%ds", d)
					at += d
					x.Step("%d seconds pass", d)
					time.Sleep(time.Duration(d) * time.Second)
					lastAdvance = true
				default:
					past += " flood"
					x.Step("130 other tokens")
					for k := range extra {
						ask(x, e, &extra[k], past)
					}
					lastAdvance = false
				}
				x.State(past)
			}
		})
	}
	return []Family{{Name: "histories", Run: func(x *X) {
		d := 5
		if x.Thorough {
			d = 6
		}
		run(x, d, false)
	}}, {Name: "eviction", Run: func(x *X) {
		d := 3
		if x.Thorough {
			d = 4
		}
		run(x, d, true)
	}}, {Name: "ticks", Run: func(x *X) {
		// every second from start to end, one or two tokens each second
		first, second := x.Choose(len(toks)), x.Choose(len(toks)+1)
		every := 1 + x.Choose(3)
		bubble(func() {
			e := mkEnv()
			for s := 0; s <= 64; s++ {
				if s%every == 0 {
					x.State(first, second, every, s)
					ask(x, e, &toks[first], fmt.Sprintf(" %ds", s))
					if second < len(toks) {
						ask(x, e, &toks[second], fmt.Sprintf(" %ds", s))
					}
				}
				time.Sleep(time.Second)
			}
		})
	}}}
}
