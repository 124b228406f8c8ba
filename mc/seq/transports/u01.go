//go:build go1.22

package main

import (
	"crypto/tls"
	"encoding/base64"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"time"

	"github.com/golang-jwt/jwt"
	"github.com/superisaac/jlib/http"
	. "github.com/superisaac/jlib/zzverif/kit"
)

// recorder is an http.ResponseWriter with the header rules of net/http.
type recorder struct {
	h     http.Header
	sent  http.Header
	code  int
	calls int // WriteHeader calls
	body  []byte
}

func newRecorder() *recorder               { return &recorder{h: http.Header{}} }
func (self *recorder) Header() http.Header { return self.h }
func (self *recorder) WriteHeader(status int) {
	self.calls++
	if self.code == 0 {
		self.code = status
		self.sent = self.h.Clone()
	}
}
func (self *recorder) Write(b []byte) (int, error) {
	if self.code == 0 {
		self.WriteHeader(200)
		self.calls--
	}
	self.body = append(self.body, b...)
	return len(b), nil
}

// finish is what net/http does when the handler has returned.
func (self *recorder) finish() {
	if self.code == 0 {
		self.code = 200
		self.sent = self.h.Clone()
	}
}

func sign(method jwt.SigningMethod, key interface{}, claims jwt.MapClaims) string {
	s, err := jwt.NewWithClaims(method, claims).SignedString(key)
	if err != nil {
		panic(err)
	}
	return s
}

func b64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

type tok struct {
	name, secret string // secret that signed it, "" for never good
	text         string
	user         string
	settings     M
}

func tokens() []tok {
	later, before := time.Now().Add(1000*time.Hour).Unix(), time.Now().Add(-time.Hour).Unix()
	set := M{"role": "admin", "n": float64(5)}
	alice := jwt.MapClaims{"username": "alice", "settings": set, "exp": later}
	good := sign(jwt.SigningMethodHS256, []byte("s1"), alice)
	bob := sign(jwt.SigningMethodHS256, []byte("s1"), jwt.MapClaims{"username": "bob", "exp": later})
	gp, bp := strings.Split(good, "."), strings.Split(bob, ".")
	flip := func(s string) string { // change the first character
		if s[0] == 'A' {
			return "B" + s[1:]
		}
		return "A" + s[1:]
	}
	return []tok{
		{"alice", "s1", good, "alice", set},
		{"bob", "s1", bob, "bob", nil},
		{"alice-384", "s1", sign(jwt.SigningMethodHS384, []byte("s1"), alice), "alice", set},
		{"carol-512", "s1", sign(jwt.SigningMethodHS512, []byte("s1"), jwt.MapClaims{"username": "carol", "settings": M{}, "exp": later}), "carol", M{}},
		{"nameless", "s1", sign(jwt.SigningMethodHS256, []byte("s1"), jwt.MapClaims{"exp": later}), "", nil},
		{"other-secret", "s2", sign(jwt.SigningMethodHS256, []byte("s2"), jwt.MapClaims{"username": "dave", "exp": later}), "dave", nil},
		{"expired", "", sign(jwt.SigningMethodHS256, []byte("s1"), jwt.MapClaims{"username": "alice", "exp": before}), "", nil},
		{"expired-bob", "", sign(jwt.SigningMethodHS256, []byte("s1"), jwt.MapClaims{"username": "bob", "exp": before}), "", nil},
		{"empty-secret", "", sign(jwt.SigningMethodHS256, []byte(""), alice), "", nil},
		{"none", "", sign(jwt.SigningMethodNone, jwt.UnsafeAllowNoneSignatureType, alice), "", nil},
		{"unsigned", "", gp[0] + "." + gp[1] + ".", "", nil},
		{"no-signature", "", gp[0] + "." + gp[1], "", nil},
		{"swapped-payload", "", gp[0] + "." + bp[1] + "." + gp[2], "", nil},
		{"bad-signature", "", gp[0] + "." + gp[1] + "." + flip(gp[2]), "", nil},
		{"cut-signature", "", good[:len(good)-2], "", nil},
		{"bad-exp", "", sign(jwt.SigningMethodHS256, []byte("s1"), jwt.MapClaims{"username": "alice", "exp": "soon"}), "", nil},
		{"bad-name", "", sign(jwt.SigningMethodHS256, []byte("s1"), jwt.MapClaims{"username": 5, "exp": later}), "", nil},
		{"dots", "", "..", "", nil},
		{"abc", "", "a.b.c", "", nil},
	}
}

type ident struct {
	pass bool
	info bool // an identity is handed over
	user string
	set  M
}

func (i ident) String() string {
	if !i.pass {
		return "refused"
	}
	if !i.info {
		return "passed without identity"
	}
	return fmt.Sprintf("passed as %q %s", i.user, Canon(normSet(i.set)))
}

func normSet(m M) interface{} {
	if m == nil {
		return nil
	}
	return m
}

type hdr struct {
	name string
	vals []string
	// what it is
	user, pass string
	basic      bool
	token      string // exact text after "Bearer "
	jwt        *tok
}

func u01() []Family {
	b1 := jlibhttp.BasicAuthConfig{Username: "u1", Password: "p1", Settings: M{"of": "b1"}}
	b2 := jlibhttp.BasicAuthConfig{Username: "u2", Password: "p2"}
	b3 := jlibhttp.BasicAuthConfig{Username: "u1", Password: "p3", Settings: M{"of": "b3"}}
	b4 := jlibhttp.BasicAuthConfig{Username: "u1", Password: "p1", Settings: M{"of": "b4"}}
	t1 := jlibhttp.BearerAuthConfig{Token: "t1", Settings: M{"of": "t1"}}
	t2 := jlibhttp.BearerAuthConfig{Token: "t2", Username: "bea", Settings: M{"of": "t2"}}
	t3 := jlibhttp.BearerAuthConfig{Token: "t1", Username: "dup"}
	t4 := jlibhttp.BearerAuthConfig{Token: "two words", Username: "u1"}
	basics := [][]jlibhttp.BasicAuthConfig{nil, {b1}, {b2}, {b1, b2}, {b2, b1}, {b1, b3}, {b3, b1}, {b1, b4}, {b4, b1}}
	bearers := [][]jlibhttp.BearerAuthConfig{nil, {t1}, {t2}, {t1, t2}, {t2, t1}, {t1, t3}, {t3, t1}, {t4}, {t4, t2}}
	jwts := []*jlibhttp.JwtAuthConfig{nil, {Secret: "s1"}, {Secret: "s2"}, {Secret: ""}}

	var hdrs []hdr
	add := func(h hdr, name string, vals ...string) {
		h.name, h.vals = name, vals
		hdrs = append(hdrs, h)
	}
	add(hdr{}, "absent")
	for _, v := range []string{"", "Basic", "Basic ", "Basic !!!", "Basic " + b64("u1"), "Basic " + b64("u1p1"), "u1:p1", b64("u1:p1"), "Digest " + b64("u1:p1"), "BasicX " + b64("u1:p1"), "Bearer", "Bearer ", "t1", "t1 Bearer", "Token t1", " Bearer t1", "é"} {
		add(hdr{}, v, v)
	}
	for _, u := range []string{"u1", "u2", "u3", "U1", ""} {
		for _, p := range []string{"p1", "p2", "p3", "P1", "", "p1 ", "p1:"} {
			add(hdr{basic: true, user: u, pass: p}, "Basic "+u+":"+p, "Basic "+b64(u+":"+p))
		}
	}
	add(hdr{basic: true, user: "u1", pass: "p1"}, "basic u1:p1", "basic "+b64("u1:p1"))
	for _, t := range []string{"t1", "t2", "t3", "T1", "t", "t1x", "t1 ", " t1", "two words", "two", "two  words", "t1\t", "t1,t2"} {
		add(hdr{token: t}, "Bearer "+t, "Bearer "+t)
	}
	toks := tokens()
	for i := range toks {
		t := &toks[i]
		add(hdr{jwt: t, token: t.text}, "Bearer jwt "+t.name, "Bearer "+t.text)
		add(hdr{}, "Basic jwt "+t.name, "Basic "+t.text)
		add(hdr{}, "jwt "+t.name, t.text)
	}
	add(hdr{}, "Bearer  jwt", "Bearer  "+toks[0].text)
	add(hdr{}, "Bearer Bearer jwt", "Bearer Bearer "+toks[0].text)
	// "bearer" in small letters: whether the scheme name is case-sensitive is
	// left open, only the identity is checked

	expect := func(cfg *jlibhttp.AuthConfig, h *hdr) ident {
		if cfg == nil {
			return ident{pass: true}
		}
		if cfg.Jwt != nil && cfg.Jwt.Secret != "" && h.jwt != nil && h.jwt.secret == cfg.Jwt.Secret {
			return ident{true, true, h.jwt.user, h.jwt.settings}
		}
		if h.basic {
			for _, b := range cfg.Basic {
				if b.Username == h.user && b.Password == h.pass {
					return ident{true, true, b.Username, b.Settings}
				}
			}
		}
		if h.token != "" {
			for _, b := range cfg.Bearer {
				if b.Token == h.token {
					u := b.Username
					if u == "" {
						u = b.Token
					}
					return ident{true, true, u, b.Settings}
				}
			}
		}
		return ident{}
	}
	type env struct {
		h    *jlibhttp.AuthHandler
		got  []ident
		body string
	}
	mk := func(cfg *jlibhttp.AuthConfig) *env {
		e := &env{}
		e.h = jlibhttp.NewAuthHandler(cfg, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			i := ident{pass: true}
			if info, ok := jlibhttp.AuthInfoFromContext(r.Context()); ok {
				i.info, i.user, i.set = true, info.Username, info.Settings
			}
			e.got = append(e.got, i)
			w.WriteHeader(202)
			w.Write([]byte("inside"))
		}))
		return e
	}
	ask := func(x *X, e *env, cfg *jlibhttp.AuthConfig, h *hdr, what string) {
		r := httptest.NewRequest("POST", "/x", strings.NewReader("b"))
		if h.vals != nil {
			r.Header["Authorization"] = h.vals
		}
		e.got = nil
		w := newRecorder()
		x.Op()
		p, pv := Try(func() { e.h.ServeHTTP(w, r); w.finish() })
		want := expect(cfg, h)
		x.Check(!p, "panic", "%s: Authorization %q panicked: %v", what, h.vals, pv)
		got := ident{}
		if len(e.got) > 0 {
			got = e.got[0]
		}
		x.Outcome(map[bool]string{true: "passed", false: "refused"}[want.pass])
		x.Check(len(e.got) <= 1, "twice", "%s: handler ran %d times", what, len(e.got))
		x.Check(got.pass == want.pass, "verdict", "%s: Authorization %q (%s) %s, want %s", what, h.vals, h.name, got, want)
		x.Check(got.String() == want.String(), "identity", "%s: Authorization %q (%s) %s, want %s", what, h.vals, h.name, got, want)
		if want.pass {
			x.Check(w.code == 202 && string(w.body) == "inside", "answer", "%s: answered %d %q", what, w.code, w.body)
		} else {
			x.Check(w.code == 401 && !strings.Contains(string(w.body), "inside"), "status", "%s: answered %d %q", what, w.code, w.body)
		}
	}
	config := func(x *X) (*jlibhttp.AuthConfig, string) {
		n := 1 + len(basics)*len(bearers)*len(jwts)
		c := x.Choose(n)
		if c == 0 {
			return nil, "no configuration"
		}
		c--
		a, b, j := c%len(basics), c/len(basics)%len(bearers), c/len(basics)/len(bearers)
		return &jlibhttp.AuthConfig{Basic: basics[a], Bearer: bearers[b], Jwt: jwts[j]}, fmt.Sprintf("config basic%d bearer%d jwt%d", a, b, j)
	}
	return []Family{{Name: "single", Run: func(x *X) {
		cfg, cn := config(x)
		h := &hdrs[x.Choose(len(hdrs))]
		x.State(cn, h.name)
		x.Step("%s: %s", cn, h.name)
		ask(x, mk(cfg), cfg, h, cn)
	}}, {Name: "many", Run: func(x *X) {
		// many users, long names and secrets, near misses of all of them
		k := Pick(x, []int{1, 2, 5, 16, 17, 33, 65, 130})
		l := Pick(x, []int{1, 8, 31, 32, 33, 63, 64, 65, 71, 72, 73, 127, 128, 129, 255, 256, 257, 1023, 1025, 4097, 8193})
		of := Pick(x, []int{0, k / 2, k - 1})
		base := strings.Repeat("aB3-", l/4+1)[:l]
		cfg := &jlibhttp.AuthConfig{}
		for i := 0; i < k; i++ {
			cfg.Basic = append(cfg.Basic, jlibhttp.BasicAuthConfig{Username: fmt.Sprint("u", base, i), Password: fmt.Sprint("p", base, i), Settings: M{"i": i}})
			cfg.Bearer = append(cfg.Bearer, jlibhttp.BearerAuthConfig{Token: fmt.Sprint("t", base, i), Username: fmt.Sprint("n", base, i), Settings: M{"i": i}})
		}
		e := mk(cfg)
		where := fmt.Sprintf("%d users, secrets of %d characters, user %d", k, l, of)
		x.State(where)
		x.Step("%s", where)
		b, t := cfg.Basic[of], cfg.Bearer[of]
		near := func(s string) []string {
			m := len(s) / 2
			return []string{s, s[:len(s)-1], s[1:], s + "0", s + ":", s[:m] + "!" + s[m+1:], s[:len(s)-1] + "!", s[:m], s + s, ""}
		}
		for i, u := range near(b.Username) {
			for j, p := range near(b.Password) {
				if i > 0 && j > 0 {
					break
				}
				if strings.Contains(u, ":") {
					// what follows the first colon is the password
					u, p, _ = strings.Cut(u+":"+p, ":")
				}
				ask(x, e, cfg, &hdr{name: "near", vals: []string{"Basic " + b64(u+":"+p)}, basic: true, user: u, pass: p}, where)
			}
		}
		if k > 1 {
			o := cfg.Basic[(of+1)%k]
			ask(x, e, cfg, &hdr{name: "another's", vals: []string{"Basic " + b64(b.Username+":"+o.Password)}, basic: true, user: b.Username, pass: o.Password}, where)
		}
		for _, s := range near(t.Token) {
			ask(x, e, cfg, &hdr{name: "near", vals: []string{"Bearer " + s}, token: s}, where)
		}
		later := time.Now().Add(1000 * time.Hour).Unix()
		cfg2 := &jlibhttp.AuthConfig{Jwt: &jlibhttp.JwtAuthConfig{Secret: base}}
		e2 := mk(cfg2)
		for _, s := range near(base) {
			if s == "" || len(s) == 1 && l > 1 {
				continue
			}
			good := tok{name: "near", secret: s, user: b.Username, settings: M{"long": base}}
			good.text = sign(jwt.SigningMethodHS256, []byte(s), jwt.MapClaims{"username": b.Username, "settings": M{"long": base}, "exp": later})
			for i := 0; i < 2; i++ { // also from the cache
				ask(x, e2, cfg2, &hdr{name: "jwt", vals: []string{"Bearer " + good.text}, token: good.text, jwt: &good}, where)
			}
			flip := "A"
			if m := len(good.text) - 20; good.text[m] == 'A' {
				flip = "B"
			}
			bad := good.text[:len(good.text)-20] + flip + good.text[len(good.text)-19:]
			ask(x, e2, cfg2, &hdr{name: "bad jwt", vals: []string{"Bearer " + bad}, token: bad}, where)
		}
	}}, {Name: "sequences", Run: func(x *X) {
		// one handler, several requests: nothing of an earlier one matters
		small := []*jlibhttp.AuthConfig{
			{Jwt: jwts[1]}, {Jwt: jwts[1], Basic: basics[3], Bearer: bearers[3]}, {Basic: basics[5], Bearer: bearers[4]}, {Jwt: jwts[2], Basic: basics[1]}, {Basic: basics[1]}, {Bearer: bearers[5]},
		}
		c := x.Choose(len(small))
		var few []*hdr
		for i := range hdrs {
			h := &hdrs[i]
			if h.jwt != nil || h.name == "absent" || h.name == "Basic u1:p1" || h.name == "Basic u1:p3" || h.name == "Basic u2:p1" || h.name == "Bearer t1" || h.name == "Bearer t2" || h.name == "jwt alice" || h.name == "Basic jwt alice" || h.name == "Bearer" || h.name == "Bearer  jwt" {
				few = append(few, h)
			}
		}
		e := mk(small[c])
		n := 3
		if x.Thorough {
			n = 4
		}
		var past []string
		for i := 0; i < n; i++ {
			h := few[x.Choose(len(few))]
			x.Step("config %d: %s", c, h.name)
			past = append(past, h.name)
			x.State(c, strings.Join(past, "|"))
			ask(x, e, small[c], h, fmt.Sprintf("config %d after %v", c, past))
		}
	}}, {Name: "transports", Run: func(x *X) {
		// the handler in front of every server: two clients keep their own
		// identities, also over connections that stay open.  (h2c is left out:
		// its opening request cannot carry credentials.)
		var ps []pairing
		for _, p := range pairings() {
			if p.client != "h2c" {
				ps = append(ps, p)
			}
		}
		p := ps[x.Choose(len(ps))]
		cfg := &jlibhttp.AuthConfig{Jwt: jwts[1], Basic: basics[3], Bearer: bearers[3]}
		names := []string{"absent", "Basic u1:p1", "Basic u2:p2", "Basic u1:p2", "Bearer t1", "Bearer t2", "Bearer t3", "Bearer jwt alice", "Bearer jwt bob", "Bearer jwt other-secret", "Bearer jwt expired"}
		var few []*hdr
		for _, n := range names {
			for i := range hdrs {
				if hdrs[i].name == n {
					few = append(few, &hdrs[i])
				}
			}
		}
		hs := [2]*hdr{Pick(x, few), Pick(x, few)}
		if x.Bool() {
			cfg = nil
			if hs[0] != few[0] && hs[1] != few[0] {
				x.Skip()
			}
		}
		s := serveSeen(p, false, func(next http.Handler) http.Handler { return jlibhttp.NewAuthHandler(cfg, next) })
		defer s.stop()
		where := fmt.Sprintf("%s client to %s (auth: %v): %s and %s", p.client, p.server, cfg != nil, hs[0].name, hs[1].name)
		x.State(where)
		var cs [2]jlibhttp.Client
		for i := range cs {
			cs[i] = newClient(x, p.client+"://"+s.addr+"/rpc")
			defer closeClient(cs[i])
			if isTLS(p.client) {
				cs[i].SetClientTLSConfig(&tls.Config{RootCAs: ca1.pool})
			}
			if hs[i].vals != nil {
				cs[i].SetExtraHeader(http.Header{"Authorization": hs[i].vals})
			}
		}
		for k, i := range []int{0, 1, 0, 1} {
			x.Step("%s: call %d by %d", where, k, i)
			want := expect(cfg, hs[i])
			res, err := look(cs[i], k)
			got := s.take()
			if !want.pass {
				x.Check(err != nil && len(got) == 0, "passed", "%s: call %d by %d ran %d handlers, error %v", where, k, i, len(got), err)
				x.Outcome(p.client + " refused")
				continue
			}
			x.Check(err == nil && len(got) == 1 && res.IsResult(), "refused", "%s: call %d by %d ran %d handlers, error %v", where, k, i, len(got), err)
			have := ident{pass: true}
			if info, ok := jlibhttp.AuthInfoFromContext(got[0].Context()); ok {
				have.info, have.user, have.set = true, info.Username, info.Settings
			}
			var rc ident = ident{pass: true}
			if info, ok := jlibhttp.AuthInfoFromContext(s.ctxs[len(s.ctxs)-1]); ok {
				rc.info, rc.user, rc.set = true, info.Username, info.Settings
			}
			x.Check(have.String() == want.String(), "identity", "%s: call %d by %d: HttpRequest().Context() says %s, want %s", where, k, i, have, want)
			x.Check(rc.String() == want.String(), "identity", "%s: call %d by %d: Context() says %s, want %s", where, k, i, rc, want)
			x.Outcome(p.client + " passed")
		}
	}}, {Name: "validate", Run: func(x *X) {
		// a configuration with an empty credential in it is refused
		var cfg *jlibhttp.AuthConfig
		want := true
		texts := []string{"", "a", " "}
		if x.Choose(8) > 0 {
			cfg = &jlibhttp.AuthConfig{}
			for i, n := 0, x.Choose(3); i < n; i++ {
				c := jlibhttp.BasicAuthConfig{Username: Pick(x, texts), Password: Pick(x, texts)}
				want = want && c.Username != "" && c.Password != ""
				cfg.Basic = append(cfg.Basic, c)
			}
			for i, n := 0, x.Choose(3); i < n; i++ {
				c := jlibhttp.BearerAuthConfig{Token: Pick(x, texts), Username: Pick(x, []string{"", "u"})}
				want = want && c.Token != ""
				cfg.Bearer = append(cfg.Bearer, c)
			}
			if x.Bool() {
				cfg.Jwt = &jlibhttp.JwtAuthConfig{Secret: Pick(x, texts)}
				want = want && cfg.Jwt.Secret != ""
			}
			if x.Bool() { // lists that are there but empty are no credentials
				if cfg.Basic == nil {
					cfg.Basic = []jlibhttp.BasicAuthConfig{}
				}
				if cfg.Bearer == nil {
					cfg.Bearer = []jlibhttp.BearerAuthConfig{}
				}
			}
			x.State(fmt.Sprintf("%+v %+v %+v", cfg.Basic, cfg.Bearer, cfg.Jwt))
			x.Step("basic %+v bearer %+v jwt %+v", cfg.Basic, cfg.Bearer, cfg.Jwt)
		}
		x.Op()
		var err error
		p, pv := Try(func() { err = cfg.ValidateValues() })
		x.Check(!p, "validate-panic", "ValidateValues panics: %v", pv)
		x.Check((err == nil) == want, "validate", "ValidateValues of %+v says %v", cfg, err)
		x.Outcome(fmt.Sprintf("valid %v", want))
	}}, {Name: "flood", Run: func(x *X) {
		// more tokens than the cache holds, each keeps its identity
		start := x.Choose(3)
		cfg := &jlibhttp.AuthConfig{Jwt: jwts[1]}
		e := mk(cfg)
		many := flood()
		for round := 0; round < 2; round++ {
			for i := range many {
				t := &many[(i*(start+1)+start)%len(many)]
				x.State(start, round, i)
				ask(x, e, cfg, &hdr{name: t.name, vals: []string{"Bearer " + t.text}, token: t.text, jwt: t}, "flood")
			}
		}
	}}}
}

var floodToks []tok

func flood() []tok {
	return floodToks
}

func init() {
	later := time.Now().Add(1000 * time.Hour).Unix()
	for i := 0; i < 241; i++ {
		u := fmt.Sprintf("user%d", i)
		floodToks = append(floodToks, tok{u, "s1", sign(jwt.SigningMethodHS256, []byte("s1"), jwt.MapClaims{"username": u, "exp": later, "settings": M{"i": float64(i)}}), u, M{"i": float64(i)}})
	}
}
