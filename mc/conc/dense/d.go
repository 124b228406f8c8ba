//go:build go1.23

package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	bigint "math/big"
	"net/http"
	"net/url"
	"sort"
	"strings"

	"github.com/golang-jwt/jwt"
	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"github.com/superisaac/jlib/schema"
	"github.com/superisaac/jlib/zzverif/vrt"
)

// op is something done with what a world shares; what comes of it is a text.
type op struct {
	name string
	run  func(e *env) string
}

// env is what the operations of one execution share.
type env struct {
	msgs    map[string]jlib.Message
	schemas map[string]jlibschema.Schema
	desc    interface{} // a decoded schema description
	actor   *jlibhttp.Actor
	handler http.Handler
	clients map[string]*jlibhttp.H1Client
	sent    int
	calls   map[string][]string // handler calls by trace id
}

type world struct {
	name, props string
	fresh       func() *env
	weight      int
	ops         []op
	alone       []string
}

// expect runs every operation alone.
func (w *world) expect() {
	if w.alone != nil {
		return
	}
	for _, o := range w.ops {
		vrt.Start()
		e := w.fresh()
		w.alone = append(w.alone, o.run(e))
	}
}

// dense registers the scenarios of a world: every pair of operations at the
// same time, each then once more by itself; and every operation at the same
// time with two others that are the same.
func dense(w *world) {
	n := len(w.ops)
	type pick []int
	var pairs, threes []pick
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			pairs = append(pairs, pick{i, j})
		}
	}
	for i := 0; i < n; i++ {
		threes = append(threes, pick{i, (i + 1) % n, i})
	}
	for k, l := range [][]pick{pairs, threes} {
		name := w.name + []string{"-two", "-three"}[k]
		add(&Scenario{Name: name, Props: w.props, Variants: len(l), Limit: 60000, Weight: w.weight,
			Show: func(v int) string {
				var s []string
				for _, i := range l[v] {
					s = append(s, w.ops[i].name)
				}
				return strings.Join(s, " | ")
			},
			Run: func(v int) (func(), func(*vrt.Sched)) {
				w.expect()
				vrt.Start()
				p := l[v]
				e := w.fresh()
				got := make([]string, len(p))
				again := make([]string, len(p))
				body := func() {
					var g group
					for k, i := range p {
						g.run(fmt.Sprintf("%d:%s", k, w.ops[i].name), func() { got[k] = w.ops[i].run(e) })
					}
					g.wait()
					for k, i := range p {
						again[k] = w.ops[i].run(e)
					}
				}
				return body, func(s *vrt.Sched) {
					if l := s.Left(); len(l) > 0 {
						fail(w.props, "stuck", "never ends: %v", l)
						return
					}
					for k, i := range p {
						if got[k] != w.alone[i] {
							fail(w.props, "differs:"+w.ops[i].name, "%s gives\n  %s\nwhile another is under way, alone it gives\n  %s", w.ops[i].name, got[k], w.alone[i])
						}
					}
					for k, i := range p {
						if again[k] != w.alone[i] {
							fail(w.props, "spoilt:"+w.ops[i].name, "%s gives\n  %s\nafter others ran at the same time, alone it gives\n  %s", w.ops[i].name, again[k], w.alone[i])
						}
					}
				}
			}})
	}
}

func safe(f func() string) (s string) {
	defer func() {
		if vrt.Unwinding() {
			return
		}
		if r := recover(); r != nil {
			s = fmt.Sprintf("panic: %v", r)
		}
	}()
	return f()
}

// descr describes a message completely.
func descr(m jlib.Message, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	if m == nil {
		return "none"
	}
	return fmt.Sprintf("%T trace=%q %s", m, m.TraceId(), wire(m))
}

func must[T any](x T, err error) T {
	if err != nil {
		panic(err)
	}
	return x
}

// ---------------------------------------------------------------- codec

var wires = map[string]string{
	"req":    `{"jsonrpc":"2.0","id":"i1","method":"m.one","params":["a",{"k":[1,2.50]},null],"traceid":"t1"}`,
	"req2":   `{"id":77,"method":"m.two","params":{"x":12345678901234567890}}`,
	"notify": `{"method":"n","params":[7,"z"],"traceid":"t2"}`,
	"result": `{"id":"i3","result":{"q":[true,false]},"traceid":"t3"}`,
	"error":  `{"id":9,"error":{"code":-12,"message":"boom","data":["d",3]}}`,
	"bad":    `{"id":1.5,"method":"m","params":[]}`,
	"worse":  `{"id":`,
}

type target struct {
	A int
	B string
	C []int
	D map[string]int
}

func codec() *world {
	w := &world{name: "codec", props: "C09 C01 C02 C04 C05 C06 C07 C08"}
	w.fresh = func() *env {
		e := &env{msgs: map[string]jlib.Message{}}
		for k, s := range wires {
			if k != "bad" && k != "worse" {
				e.msgs[k] = must(jlib.ParseBytes([]byte(s)))
			}
		}
		return e
	}
	var names []string
	for k := range wires {
		names = append(names, k)
	}
	sort.Strings(names)
	o := func(name string, f func(e *env) string) { w.ops = append(w.ops, op{name, f}) }
	for _, k := range names {
		o("parse-"+k, func(e *env) string { return safe(func() string { return descr(jlib.ParseBytes([]byte(wires[k]))) }) })
	}
	o("stream", func(e *env) string {
		return safe(func() string {
			d := json.NewDecoder(strings.NewReader(wires["req"] + wires["notify"] + wires["error"]))
			d.UseNumber()
			var out []string
			for i := 0; i < 4; i++ {
				out = append(out, descr(jlib.DecodeMessage(d)))
			}
			return strings.Join(out, "; ")
		})
	})
	for _, k := range []string{"req", "result", "error"} {
		o("encode-"+k, func(e *env) string {
			return safe(func() string {
				p, err := jlib.EncodePretty(e.msgs[k])
				m, err2 := jlib.MessageMap(e.msgs[k])
				return fmt.Sprint(jlib.MessageString(e.msgs[k]), p, err, js(m), err2)
			})
		})
	}
	o("clone", func(e *env) string {
		return safe(func() string {
			r := e.msgs["req"].(*jlib.RequestMessage)
			return descr(r.Clone("new"), nil) + descr(r.ReplaceId(4), nil) + descr(r, nil)
		})
	})
	o("answers", func(e *env) string {
		return safe(func() string {
			r := e.msgs["req"].(*jlib.RequestMessage)
			return descr(jlib.NewResultMessage(r, []int{1}), nil) + descr(jlib.ErrMethodNotFound.ToMessage(r), nil) +
				descr(jlib.NewErrorMessage(r, jlib.ParamsError("p")), nil)
		})
	})
	o("answers2", func(e *env) string {
		return safe(func() string {
			r := e.msgs["req2"].(*jlib.RequestMessage)
			return descr(jlib.NewResultMessage(r, "v"), nil) + descr(jlib.ErrMethodNotFound.ToMessage(r), nil) +
				descr(jlib.NewErrorMessage(r, jlib.ErrServerError.WithData(5)), nil) + jlib.ErrServerError.Error()
		})
	})
	for _, k := range []string{"req", "req2"} {
		o("cachekey-"+k, func(e *env) string {
			return safe(func() string { return e.msgs[k].(*jlib.RequestMessage).CacheKey("p") })
		})
	}
	o("guess", func(e *env) string {
		return safe(func() string {
			v, err := jlib.GuessJsonArray([]string{"12", "a b", `{"x":[1]}`, "true", "-1.5"})
			_, err2 := jlib.GuessJson(`{"x"`)
			return fmt.Sprint(js(v), err, err2)
		})
	})
	for i, s := range []string{"123456789012345678901234567890", "-42"} {
		o(fmt.Sprint("bigint-", i), func(e *env) string {
			return safe(func() string {
				var b jlib.Bigint
				err := json.Unmarshal([]byte(`"`+s+`"`), &b)
				t, err2 := json.Marshal(b)
				var c jlib.Bigint
				c.Load(s)
				n, _ := new(bigint.Int).SetString(s, 10)
				return fmt.Sprint(b.String(), err, string(t), err2, c.String(), b.Value().Cmp(n))
			})
		})
	}
	for i, p := range []string{`[1,"b",[1,2],{"k":3}]`, `[-7,null,[9]]`, `["x"]`} {
		o(fmt.Sprint("params-", i), func(e *env) string {
			return safe(func() string {
				var l []interface{}
				d := json.NewDecoder(strings.NewReader(p))
				d.UseNumber()
				if err := d.Decode(&l); err != nil {
					return err.Error()
				}
				t := target{A: 5, B: "old", C: []int{8}}
				err := jlib.DecodeParams(l, &t)
				return fmt.Sprint(js(t), err != nil)
			})
		})
	}
	o("names", func(e *env) string {
		return safe(func() string {
			return fmt.Sprint(jlib.IsMethod("a.b"), jlib.IsMethod("a b"), jlib.IsPublicMethod("rpc.x"), jlib.IsPublicMethod("x/y"))
		})
	})
	return w
}

// ---------------------------------------------------------------- schemas

var descriptions = map[string]string{
	"object": `{"type":"object","name":"top","properties":{
		"a":{"type":"integer","minimum":1,"maximum":9},
		"l":{"type":"list","items":[{"type":"string","maxLength":3},{"type":"number"}],"additionalItems":{"type":"bool"}},
		"u":{"type":"anyOf","anyOf":[{"type":"list","items":{"type":"integer"}},{"type":"object","properties":{"z":{"type":"null"}},"requires":["z"]}]},
		"n":{"type":"not","not":{"type":"string"}},
		"b":{"type":"allOf","allOf":[{"type":"number","minimum":0},{"type":"number","exclusiveMaximum":true,"maximum":5}]}},
		"requires":["a"],"additionalProperties":{"type":"string"}}`,
	"list":   `{"type":"list","minItems":1,"items":{"type":"anyOf","anyOf":[{"type":"integer"},{"type":"list","items":{"type":"string"}}]}}`,
	"small":  `{"type":"object","properties":{"k":{"type":"anyOf","anyOf":[{"type":"integer","minimum":2},{"type":"string"}]}},"requires":["k"]}`,
	"method": `{"type":"method","params":[{"type":"integer"},{"type":"list","items":{"type":"string"}}],"additionalParams":{"type":"bool"},"returns":{"type":"number"}}`,
}

// one that leaves its types to be guessed
const sharedDescription = `{"properties":{
	"a":{"params":[{"anyOf":["string","integer"]}],"returns":{"name":"r"}},
	"b":{"allOf":[{"type":"number","minimum":0},{"not":"null"}]}},
	"requires":["b"]}`

func schemas() *world {
	w := &world{name: "schema", props: "S06 S01 S02 S03 S04 S05"}
	build := func(k string) jlibschema.Schema {
		return must(jlibschema.NewSchemaBuilder().BuildBytes([]byte(descriptions[k])))
	}
	w.fresh = func() *env {
		e := &env{schemas: map[string]jlibschema.Schema{}}
		for k := range descriptions {
			e.schemas[k] = build(k)
		}
		json.Unmarshal([]byte(sharedDescription), &e.desc)
		return e
	}
	o := func(name string, f func(e *env) string) {
		w.ops = append(w.ops, op{name, func(e *env) string { return safe(func() string { return f(e) }) }})
	}
	verdict := func(p *jlibschema.ErrorPos) string {
		if p == nil {
			return "fine"
		}
		return p.Path() + " " + p.Error()
	}
	for i, v := range []string{
		`{"a":3,"l":["ab",1,true,false],"u":[1,2],"n":7,"b":4,"more":"x"}`,
		`{"a":3,"l":["ab",1,true,"no"]}`,
		`{"a":3,"u":{"z":1}}`,
		`{"a":3,"n":"s"}`,
		`{"a":3,"b":5}`,
		`{"l":["abcd",1],"a":10}`,
		`{"u":[]}`,
	} {
		o(fmt.Sprint("object-", i), func(e *env) string {
			return verdict(jlibschema.NewSchemaValidator().ValidateBytes(e.schemas["object"], []byte(v)))
		})
	}
	for i, v := range []string{`[1,["a","b"],2]`, `[1,["a",5]]`, `[]`} {
		o(fmt.Sprint("list-", i), func(e *env) string {
			return verdict(jlibschema.NewSchemaValidator().ValidateBytes(e.schemas["list"], []byte(v)))
		})
	}
	for i, v := range []string{`[1,["a"],true]`, `[1,["a",2]]`} {
		o(fmt.Sprint("params-", i), func(e *env) string {
			m := e.schemas["method"].(*jlibschema.MethodSchema)
			var l []interface{}
			d := json.NewDecoder(strings.NewReader(v))
			d.UseNumber()
			if err := d.Decode(&l); err != nil {
				return err.Error()
			}
			return verdict(m.ScanParams(jlibschema.NewSchemaValidator(), l)) + " " + verdict(m.ScanResult(jlibschema.NewSchemaValidator(), json.Number("4")))
		})
	}
	o("export", func(e *env) string { return js(e.schemas["object"].Map()) })
	o("export-method", func(e *env) string { return jlibschema.SchemaToString(e.schemas["method"]) })
	o("build", func(e *env) string { return js(build("small").Map()) })
	// ones that were not built before
	for i, d := range []string{`{"type":"list","items":{"type":"bool"},"maxItems":3}`, `{"type":"string","minLength":2}`} {
		o(fmt.Sprint("build-new-", i), func(e *env) string {
			s, err := jlibschema.NewSchemaBuilder().BuildBytes([]byte(d))
			if err != nil {
				return err.Error()
			}
			return js(s.Map())
		})
	}
	o("build-bad", func(e *env) string {
		_, err := jlibschema.NewSchemaBuilder().BuildBytes([]byte(`{"type":"object","properties":{"a":{"type":"list","items":{"type":"nosuch"}}}}`))
		return fmt.Sprint(err)
	})
	o("build-yaml", func(e *env) string {
		s, err := jlibschema.NewSchemaBuilder().BuildYamlBytes([]byte("type: list\nitems:\n  type: string\n  maxLength: 4\nminItems: 2\n"))
		if err != nil {
			return err.Error()
		}
		return js(s.Map())
	})
	o("build-decoded", func(e *env) string {
		s, err := jlibschema.NewSchemaBuilder().Build(e.desc)
		if err != nil {
			return err.Error()
		}
		return js(s.Map()) + js(e.desc)
	})
	o("build-decoded-part", func(e *env) string {
		s, err := jlibschema.NewSchemaBuilder().Build(e.desc.(map[string]interface{})["properties"].(map[string]interface{})["b"])
		if err != nil {
			return err.Error()
		}
		return js(s.Map())
	})
	o("equal", func(e *env) string {
		return fmt.Sprint(e.schemas["small"].Equal(build("small")), e.schemas["object"].Equal(e.schemas["object"]), e.schemas["object"].Equal(e.schemas["small"]))
	})
	return w
}

// ---------------------------------------------------------------- actors

type point struct {
	X int    `json:"x"`
	N string `json:"n"`
}

func newActor(e *env) *jlibhttp.Actor {
	e.calls = map[string][]string{}
	a, c, d := jlibhttp.NewActor(), jlibhttp.NewActor(), jlibhttp.NewActor()
	saw := func(trace string, s string, args ...interface{}) { e.calls[trace] = append(e.calls[trace], s+js(args)) }
	a.OnRequest("echo", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
		saw(req.Msg().TraceId(), "echo", params)
		return params, nil
	})
	a.OnTypedRequest("add", func(req *jlibhttp.RPCRequest, x, y int) (int, error) {
		saw(req.Msg().TraceId(), "add", x, y)
		return x + y, nil
	})
	a.OnTypedRequest("point", func(req *jlibhttp.RPCRequest, p point, l []string) (*point, error) {
		saw(req.Msg().TraceId(), "point", p, l)
		return &point{p.X + 1, p.N + strings.Join(l, "/")}, nil
	})
	a.OnRequest("rpcerror", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
		saw(req.Msg().TraceId(), "rpcerror", params)
		return nil, &jlib.RPCError{Code: 44, Message: "own " + req.Msg().TraceId(), Data: params}
	})
	a.OnRequest("plainerror", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
		saw(req.Msg().TraceId(), "plainerror", params)
		return nil, errors.New("plain")
	})
	a.OnRequest("panics", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
		saw(req.Msg().TraceId(), "panics", params)
		panic(fmt.Errorf("thrown %s", js(params)))
	})
	a.OnRequest("checked", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
		saw(req.Msg().TraceId(), "checked", params)
		return len(params), nil
	}, jlibhttp.WithSchemaJson(`{"type":"method","params":[{"type":"anyOf","anyOf":[{"type":"integer"},{"type":"list","items":{"type":"string"}}]},{"type":"object","properties":{"k":{"type":"string"}},"requires":["k"]}]}`))
	c.OnRequest("child", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
		saw(req.Msg().TraceId(), "child", params)
		return req.Msg().TraceId(), nil
	})
	d.OnTypedContext("deep", func(ctx context.Context, s string) (string, error) {
		return s + "!", nil
	})
	a.OnMissing(func(req *jlibhttp.RPCRequest) (interface{}, error) {
		saw(req.Msg().TraceId(), "missing", wire(req.Msg()))
		if req.Msg().IsRequest() && req.Msg().MustMethod() == "nosuch" {
			return nil, jlib.ErrMethodNotFound
		}
		return "missed", nil
	})
	c.AddChild(d)
	a.AddChild(c)
	return a
}

var feeds = []struct{ name, body string }{
	{"echo", `{"id":1,"method":"echo","params":["p",{"q":1}],"traceid":"T"}`},
	{"add", `{"id":2,"method":"add","params":[3,4],"traceid":"T"}`},
	{"add-null", `{"id":"x","method":"add","params":[10,null],"traceid":"T"}`},
	{"add-bad", `{"id":3,"method":"add","params":["s",4],"traceid":"T"}`},
	{"add-few", `{"id":4,"method":"add","params":[3],"traceid":"T"}`},
	{"point", `{"id":5,"method":"point","params":[{"x":7,"n":"nn"},["u","v"]],"traceid":"T"}`},
	{"rpcerror", `{"id":6,"method":"rpcerror","params":[6],"traceid":"T"}`},
	{"plainerror", `{"id":"six","method":"plainerror","params":[],"traceid":"T"}`},
	{"panics", `{"id":7,"method":"panics","params":["pp"],"traceid":"T"}`},
	{"checked", `{"id":8,"method":"checked","params":[["a"],{"k":"v"}],"traceid":"T"}`},
	{"checked-bad", `{"id":9,"method":"checked","params":[1,{"k":2}],"traceid":"T"}`},
	{"child", `{"id":10,"method":"child","params":[1],"traceid":"T"}`},
	{"deep", `{"id":11,"method":"deep","params":["dd"],"traceid":"T"}`},
	{"nosuch", `{"id":12,"method":"nosuch","params":[],"traceid":"T"}`},
	{"missing", `{"id":13,"method":"else","params":[2],"traceid":"T"}`},
	{"notify", `{"method":"echo","params":["n"],"traceid":"T"}`},
	{"result", `{"id":14,"result":5,"traceid":"T"}`},
}

func (e *env) handlerCalls(trace string) string {
	l := e.calls[trace]
	delete(e.calls, trace)
	return strings.ReplaceAll(strings.Join(l, " "), trace, "T")
}

func (e *env) trace() string {
	e.sent++
	return fmt.Sprintf("T%dT", e.sent)
}

func actors() *world {
	w := &world{name: "actor", props: "A05 A01 A02 A03 A04"}
	w.fresh = func() *env {
		e := &env{}
		e.actor = newActor(e)
		return e
	}
	for _, f := range feeds {
		w.ops = append(w.ops, op{f.name, func(e *env) string {
			return safe(func() string {
				trace := e.trace()
				m := must(jlib.ParseBytes([]byte(strings.ReplaceAll(f.body, `"T"`, `"`+trace+`"`))))
				req := jlibhttp.NewRPCRequest(context.Background(), m, jlibhttp.TransportHTTP, nil)
				s := descr(e.actor.Feed(req))
				return strings.ReplaceAll(s, trace, "T") + " handlers: " + e.handlerCalls(trace) + " sent: " + strings.ReplaceAll(descr(m, nil), trace, "T")
			})
		}})
	}
	return w
}

// ---------------------------------------------------------------- HTTP/1

type recorder struct {
	h    http.Header
	code int
	body []byte
}

func (r *recorder) Header() http.Header { return r.h }
func (r *recorder) WriteHeader(c int) {
	if r.code == 0 {
		r.code = c
	}
}
func (r *recorder) Write(b []byte) (int, error) {
	r.WriteHeader(200)
	r.body = append(r.body, b...)
	return len(b), nil
}

func (r *recorder) String() string {
	var l []string
	r.WriteHeader(200) // as net/http does in the end
	for k, v := range r.h {
		l = append(l, k+"="+strings.Join(v, ","))
	}
	sort.Strings(l)
	return fmt.Sprintf("%d %s %s", r.code, strings.Join(l, ";"), r.body)
}

func token(user, secret string, exp int64) string {
	return "Bearer " + must(jwt.NewWithClaims(jwt.SigningMethodHS256, jwt.MapClaims{"username": user, "settings": map[string]interface{}{"of": user}, "exp": exp}).SignedString([]byte(secret)))
}

var credentials = []struct{ name, value string }{
	{"", ""},
	{"basic-a", "Basic " + base64.StdEncoding.EncodeToString([]byte("ann:pa"))},
	{"basic-b", "Basic " + base64.StdEncoding.EncodeToString([]byte("bob:pb"))},
	{"basic-wrong", "Basic " + base64.StdEncoding.EncodeToString([]byte("ann:pb"))},
	{"bearer", "Bearer tok"},
	{"jwt-a", token("jo", "secret", 9999999999)},
	{"jwt-b", token("al", "secret", 9999999998)},
	{"jwt-old", token("jo", "secret", 100)},
	{"jwt-wrong", token("jo", "other", 9999999999)},
}

func authHandler(e *env, next http.Handler) http.Handler {
	return jlibhttp.NewAuthHandler(&jlibhttp.AuthConfig{
		Basic:  []jlibhttp.BasicAuthConfig{{Username: "ann", Password: "pa", Settings: map[string]interface{}{"n": 1}}, {Username: "bob", Password: "pb"}},
		Bearer: []jlibhttp.BearerAuthConfig{{Token: "tok", Username: "bear", Settings: map[string]interface{}{"n": 2}}},
		Jwt:    &jlibhttp.JwtAuthConfig{Secret: "secret"},
	}, next)
}

func request(method, body string, h http.Header) *http.Request {
	r := must(http.NewRequest(method, "http://server/", strings.NewReader(body)))
	r.RemoteAddr = "peer:1"
	for k, v := range h {
		r.Header[k] = v
	}
	return r
}

func endpoint() *world {
	w := &world{name: "h1", props: "H06 H01"}
	w.fresh = func() *env {
		e := &env{}
		e.actor = newActor(e)
		e.actor.OnRequest("wrapped", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
			return nil, &jlibhttp.WrappedResponse{Response: &http.Response{StatusCode: 203, Header: http.Header{"X-A": {"1", "2"}}, Body: io.NopCloser(strings.NewReader(js(params)))}}
		})
		e.actor.OnRequest("unencodable", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
			return make(chan int), nil
		})
		e.handler = jlibhttp.NewH1Handler(e.actor)
		return e
	}
	o := func(name, method, body string) {
		w.ops = append(w.ops, op{name, func(e *env) string {
			return safe(func() string {
				trace := e.trace()
				r := &recorder{h: http.Header{}}
				e.handler.ServeHTTP(r, request(method, strings.ReplaceAll(body, `"T"`, `"`+trace+`"`), nil))
				return strings.ReplaceAll(r.String(), trace, "T") + " handlers: " + e.handlerCalls(trace)
			})
		}})
	}
	for _, f := range feeds {
		switch f.name {
		case "echo", "point", "rpcerror", "checked-bad", "child", "nosuch", "notify":
			o(f.name, "POST", f.body)
		}
	}
	o("wrapped", "POST", `{"id":20,"method":"wrapped","params":["w"],"traceid":"T"}`)
	o("unencodable", "POST", `{"id":21,"method":"unencodable","params":[],"traceid":"T"}`)
	o("get", "GET", "")
	o("garbage", "POST", `{"id":`)
	return w
}

func auth() *world {
	w := &world{name: "auth", props: "H06 U01 U02"}
	w.fresh = func() *env {
		e := &env{}
		e.handler = authHandler(e, http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			i, ok := jlibhttp.AuthInfoFromContext(r.Context())
			vrt.Dot()
			fmt.Fprint(w, r.Header.Get("X-Me"), " is ", js(i), ok)
		}))
		return e
	}
	for _, c := range credentials {
		w.ops = append(w.ops, op{"as-" + c.name, func(e *env) string {
			return safe(func() string {
				h := http.Header{"X-Me": {c.name}}
				if c.value != "" {
					h.Set("Authorization", c.value)
				}
				r := &recorder{h: http.Header{}}
				e.handler.ServeHTTP(r, request("POST", "{}", h))
				return r.String()
			})
		}})
	}
	return w
}

// ---------------------------------------------------------------- HTTP/1 client

// hooked counts the requests that came through the hook.
var hooked int

func client() *world {
	w := &world{name: "h1client", weight: 3, props: "H06 H02 H03 H04"}
	w.fresh = func() *env {
		e := &env{clients: map[string]*jlibhttp.H1Client{}, msgs: map[string]jlib.Message{}}
		e.actor = newActor(e)
		server := jlibhttp.NewH1Handler(e.actor)
		vrt.DoHook = func(c *http.Client, r *http.Request) (*http.Response, error) {
			hooked++
			vrt.Dot()
			var body []byte
			if r.Body != nil {
				body = must(io.ReadAll(r.Body))
			}
			rec := &recorder{h: http.Header{}}
			switch r.URL.Path {
			case "/down":
				return nil, errors.New("connection refused")
			case "/busy":
				rec.WriteHeader(503)
				fmt.Fprintf(rec, "busy with %s", body)
			default:
				sr := request(r.Method, string(body), r.Header)
				server.ServeHTTP(rec, sr)
			}
			vrt.Dot()
			rec.h.Set("X-Seen", fmt.Sprintf("%s %s %v", r.Method, r.URL, r.Header))
			tr := r.Header.Get("X-Trace-Id")
			if k := r.Header.Get("X-Key"); k != "" {
				tr = k
			}
			e.calls[tr+"wire"] = append(e.calls[tr+"wire"], headerText(r)+string(body))
			return &http.Response{StatusCode: rec.code, Header: rec.h, Body: io.NopCloser(bytes.NewReader(rec.body)), Request: r, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}, nil
		}
		for _, p := range []string{"a", "b", "down", "busy"} {
			c := jlibhttp.NewH1Client(must(url.Parse("http://127.0.0.1:1/" + p)))
			if p != "down" {
				c.SetExtraHeader(http.Header{"X-Of": {p, p + p}})
			}
			e.clients[p] = c
		}
		e.msgs["shared"] = must(jlib.ParseBytes([]byte(`{"id":"sh","method":"echo","params":["s"],"traceid":"TsT"}`)))
		e.msgs["told"] = must(jlib.ParseBytes([]byte(`{"method":"echo","params":["s"],"traceid":"TnT"}`)))
		return e
	}
	o := func(name, cl, body string) {
		w.ops = append(w.ops, op{name + "-" + cl, func(e *env) string {
			return safe(func() string {
				trace := e.trace()
				m := must(jlib.ParseBytes([]byte(strings.ReplaceAll(body, `"T"`, `"`+trace+`"`))))
				var s string
				if r, ok := m.(*jlib.RequestMessage); ok {
					s = descr(e.clients[cl].Call(context.Background(), r))
				} else {
					s = fmt.Sprint(e.clients[cl].Send(context.Background(), m))
				}
				s += " wire: " + e.handlerCalls(trace+"wire") + " handlers: " + e.handlerCalls(trace) + " kept: " + descr(m, nil)
				return strings.ReplaceAll(s, trace, "T")
			})
		}})
	}
	for _, cl := range []string{"a", "b"} {
		// one message given to several clients
		w.ops = append(w.ops, op{"shared-" + cl, func(e *env) string {
			return safe(func() string {
				m := e.msgs["shared"].(*jlib.RequestMessage)
				return descr(e.clients[cl].Call(context.Background(), m)) + " kept: " + descr(m, nil)
			})
		}})
		w.ops = append(w.ops, op{"shared-notify-" + cl, func(e *env) string {
			return safe(func() string {
				m := e.msgs["told"]
				err := e.clients[cl].Send(context.Background(), m)
				return fmt.Sprint(err, " kept: ", descr(m, nil))
			})
		}})
	}
	for _, f := range feeds {
		switch f.name {
		case "echo", "add":
			o(f.name, "a", f.body)
			o(f.name, "b", f.body)
			o(f.name, "down", f.body)
		case "rpcerror", "notify":
			o(f.name, "a", f.body)
		case "child":
			o(f.name, "busy", f.body)
		}
	}
	return w
}

func headerText(r *http.Request) string {
	var l []string
	for k, v := range r.Header {
		l = append(l, k+"="+strings.Join(v, ","))
	}
	sort.Strings(l)
	return r.Method + " " + r.URL.String() + " " + strings.Join(l, ";") + " "
}

func init() {
	for _, w := range []*world{codec(), schemas(), actors(), endpoint(), auth(), client()} {
		dense(w)
	}
}
