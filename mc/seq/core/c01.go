//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	"github.com/superisaac/jlib"
	. "github.com/superisaac/jlib/zzverif/kit"
)

// mm is the model of a message: what an observer of the API must see.
type mm struct {
	kind   string // request notify result error
	id     interface{}
	method string
	params []interface{} // decoded view
	single bool          // on the wire the params are params[0], not a list
	result interface{}
	code   int
	emsg   string
	data   interface{}
	trace  string
}

func (m mm) wire() M {
	o := M{"jsonrpc": "2.0"}
	if m.trace != "" {
		o["traceid"] = m.trace
	}
	switch m.kind {
	case "request", "notify":
		o["method"] = m.method
		if m.single {
			o["params"] = m.params[0]
		} else {
			o["params"] = L(m.params)
		}
		if m.kind == "request" {
			o["id"] = m.id
		}
	case "result":
		o["id"] = m.id
		o["result"] = m.result
	case "error":
		o["id"] = m.id
		e := M{"code": m.code, "message": m.emsg}
		if m.data != nil {
			e["data"] = m.data
		}
		o["error"] = e
	}
	return o
}

// checkMsg compares everything observable about msg with the model.
func checkMsg(x *X, where string, msg jlib.Message, m mm) {
	sig := where + ":" + m.kind
	preds := []bool{msg.IsRequest(), msg.IsNotify(), msg.IsResult(), msg.IsError()}
	kinds := []string{"request", "notify", "result", "error"}
	for i, k := range kinds {
		x.Check(preds[i] == (m.kind == k), sig+":kind", "kind predicate %s = %v for a %s", k, preds[i], m.kind)
	}
	x.Check(msg.IsRequestOrNotify() == (m.kind == "request" || m.kind == "notify"), sig+":kind", "IsRequestOrNotify wrong")
	x.Check(msg.IsResultOrError() == (m.kind == "result" || m.kind == "error"), sig+":kind", "IsResultOrError wrong")
	x.Check(msg.TraceId() == m.trace, sig+":trace", "trace id %q, want %q", msg.TraceId(), m.trace)
	must := func(name string, want bool, f func() string, wantVal string) {
		var got string
		p, v := Try(func() { got = f() })
		x.Check(p == !want, sig+":"+name, "%s panicked=%v (%v), want panic=%v", name, p, v, !want)
		if want && !p {
			x.Check(got == wantVal, sig+":"+name, "%s gave %s, want %s", name, got, wantVal)
		}
	}
	must("MustId", m.kind != "notify", func() string { return fmt.Sprintf("%T %#v", msg.MustId(), msg.MustId()) }, fmt.Sprintf("%T %#v", m.id, m.id))
	rn := m.kind == "request" || m.kind == "notify"
	must("MustMethod", rn, func() string { return msg.MustMethod() }, m.method)
	must("MustParams", rn, func() string { return Canon(norm(msg.MustParams())) }, Canon(norm(m.params)))
	must("MustResult", m.kind == "result", func() string { return Canon(norm(msg.MustResult())) }, Canon(norm(m.result)))
	must("MustError", m.kind == "error", func() string {
		e := msg.MustError()
		return fmt.Sprintf("%d|%s|%s", e.Code, e.Message, Canon(norm(e.Data)))
	}, fmt.Sprintf("%d|%s|%s", m.code, m.emsg, Canon(norm(m.data))))
	data, err := jlib.MessageBytes(msg)
	x.Check(err == nil, sig+":encode", "encode failed: %v", err)
	want := CanonOf([]byte(JSON(m.wire())))
	x.Check(CanonOf(data) == want, sig+":wire", "wire form %s, want %s", data, want)
}

// norm turns native values into decoded JSON form.
func norm(v interface{}) interface{} {
	data, err := json.Marshal(v)
	if err != nil {
		return "<unencodable>"
	}
	p, err := Parse(data)
	if err != nil {
		return "<unparsable>"
	}
	if l, ok := v.([]interface{}); ok && l == nil {
		return L{}
	}
	return p
}

var ids = []interface{}{1, 0, -1, 9223372036854775807, -9223372036854775808, "", "1", "abc", "é\"\\\n", "null"}
var traces = []string{"", "t1", "é\"\\ "}
var methods = []string{"m", "rpc.x_é\"", "method"}

type paramForm struct {
	give   interface{} // passed to the constructor
	params []interface{}
	single bool
}

func paramForms(thorough bool) []paramForm {
	out := []paramForm{
		{nil, L{}, false}, {L{}, L{}, false}, {[]interface{}(nil), L{}, false},
	}
	deep := Values(Atoms(), SmallAtoms(), 1)
	if thorough {
		deep = Values(Atoms(), SmallAtoms(), 2)
	}
	for _, v := range deep {
		out = append(out, paramForm{L{v}, L{v}, false})
		if v == nil {
			continue
		}
		if _, isList := v.(L); !isList {
			out = append(out, paramForm{v, L{v}, true})
		}
	}
	for _, a := range Values(Atoms(), SmallAtoms(), 0) {
		for _, b := range Values(SmallAtoms(), nil, 1) {
			out = append(out, paramForm{L{a, b}, L{a, b}, false})
			out = append(out, paramForm{L{b, a, a}, L{b, a, a}, false})
		}
	}
	// native Go values
	type st struct {
		A int    `json:"a"`
		B string `json:"b"`
	}
	for _, v := range []interface{}{int(5), int64(-6), float64(0.5), uint8(3), true, "s", st{1, "x"}, &st{2, "y"}, map[string]int{"z": 1}, map[string]interface{}{"q": []string{"r"}}} {
		out = append(out, paramForm{v, L{norm(v)}, true})
		out = append(out, paramForm{L{v, v}, L{norm(v), norm(v)}, false})
	}
	return out
}

func decodedModel(m mm) mm {
	// what a decoder must see: numbers as decoded JSON
	if m.params != nil {
		m.params = norm(L(m.params)).(L)
	}
	m.result = norm(m.result)
	m.data = norm(m.data)
	return m
}

func roundTrip(x *X, msg jlib.Message, m mm) jlib.Message {
	m = decodedModel(m)
	checkMsg(x, "built", msg, m)
	data, err := jlib.MessageBytes(msg)
	x.Check(err == nil, "encode", "encode failed: %v", err)
	x.Step("encode -> %s", data)
	x.Check(jlib.MessageString(msg) == string(data), "string", "MessageString differs from MessageBytes")
	pretty, err := jlib.EncodePretty(msg)
	x.Check(err == nil && CanonOf([]byte(pretty)) == CanonOf(data), "pretty", "EncodePretty %s (%v) differs from %s", pretty, err, data)
	mp, err := jlib.MessageMap(msg)
	x.Check(err == nil, "map", "MessageMap error %v", err)
	mdata, err := json.Marshal(mp)
	x.Check(err == nil && CanonOf(mdata) == CanonOf(data), "map:"+m.kind, "MessageMap %s (%v) differs from %s", mdata, err, data)
	x.State(string(data))
	back, err := jlib.ParseBytes(data)
	x.Check(err == nil, "decode:"+m.kind, "decoding %s failed: %v", data, err)
	x.Step("decode")
	checkMsg(x, "decoded", back, m)
	data2, err := jlib.MessageBytes(back)
	x.Check(err == nil && string(data2) == string(data), "reencode:"+m.kind, "re-encoding gives %s, first encoding %s", data2, data)
	return back
}

// bulk is a value of about n bytes.
func bulk(what string, n int) interface{} {
	switch what {
	case "text":
		return strings.Repeat("abc def. ", n/9+1)[:n]
	case "escapes":
		return strings.Repeat("\"\\\n\t<é\u2028", n/10+1)
	case "digits":
		return N(strings.Repeat("1234567890", n/10+1)[:n])
	case "list":
		l := make(L, n/4+1)
		for i := range l {
			l[i] = N(strconv.Itoa(i % 997))
		}
		return l
	case "mixed":
		l := L{}
		for i := 0; i < n/30+1; i++ {
			l = append(l, M{"k": L{nil, true, N("1.50")}, "n": strconv.Itoa(i)})
		}
		return l
	case "map":
		m := M{}
		for i := 0; i < n/12+1; i++ {
			m[fmt.Sprintf("k%05d", i)] = N(strconv.Itoa(i))
		}
		return m
	}
	var v interface{} = "inner"
	for i := 0; i < n/20*2+1; i++ { // (encoding/json refuses 10000 levels)
		if what == "deep list" || i%2 == 1 {
			v = L{v}
		} else {
			v = M{"d": v}
		}
	}
	return v
}

var bulks = []string{"text", "escapes", "digits", "list", "mixed", "map", "deep list", "deep"}

func c01() []Family {
	var quickForms, deepForms []paramForm
	forms := func(x *X) []paramForm {
		if x.Thorough {
			return deepForms
		}
		return quickForms
	}
	quickForms = paramForms(false)
	deepForms = paramForms(true)
	results := Values(Atoms(), SmallAtoms(), 2)
	return []Family{
		{Name: "request", Run: func(x *X) {
			pf := Pick(x, forms(x))
			id := Pick(x, ids)
			method := Pick(x, methods)
			trace := Pick(x, traces)
			msg := jlib.NewRequestMessage(id, method, pf.give)
			msg.SetTraceId(trace)
			x.Step("new request id=%#v method=%q params=%v trace=%q", id, method, pf.give, trace)
			m := mm{kind: "request", id: id, method: method, params: pf.params, single: pf.single, trace: trace}
			roundTrip(x, msg, m)
		}},
		{Name: "notify", Run: func(x *X) {
			pf := Pick(x, forms(x))
			method := Pick(x, methods)
			trace := Pick(x, traces)
			msg := jlib.NewNotifyMessage(method, pf.give)
			msg.SetTraceId(trace)
			x.Step("new notify method=%q params=%v", method, pf.give)
			roundTrip(x, msg, mm{kind: "notify", method: method, params: pf.params, single: pf.single, trace: trace})
		}},
		{Name: "result", Run: func(x *X) {
			res := Pick(x, results)
			id := Pick(x, ids)
			trace := Pick(x, traces)
			req := jlib.NewRequestMessage(id, "m", nil)
			req.SetTraceId(trace)
			msg := jlib.NewResultMessage(req, res)
			x.Step("new result id=%#v result=%v", id, res)
			roundTrip(x, msg, mm{kind: "result", id: id, result: res, trace: trace})
		}},
		{Name: "error", Run: func(x *X) {
			dat := Pick(x, Values(Atoms(), SmallAtoms(), 1))
			code := Pick(x, []int{0, 1, -32601, 9223372036854775807, -1})
			emsg := Pick(x, []string{"", "boom", "é\"\\\n%s"})
			id := Pick(x, ids)
			trace := Pick(x, traces)
			req := jlib.NewRequestMessage(id, "m", nil)
			req.SetTraceId(trace)
			var msg jlib.Message
			switch x.Choose(3) {
			case 0:
				msg = jlib.RPCErrorMessage(req, code, emsg, dat)
			case 1:
				msg = (&jlib.RPCError{Code: code, Message: emsg}).WithData(dat).ToMessage(req)
			case 2:
				msg = jlib.RPCErrorMessageFromId(id, trace, code, emsg, dat)
			}
			x.Step("new error id=%#v code=%d data=%v", id, code, dat)
			roundTrip(x, msg, mm{kind: "error", id: id, code: code, emsg: emsg, data: dat, trace: trace})
		}},
		{Name: "long", Run: func(x *X) {
			// one long part, of every form and size
			sizes := []int{100, 600, 1100, 4200, 17000, 66000}
			if x.Thorough {
				sizes = append(sizes, 2100, 8300, 33000, 20, 63, 64, 65, 127, 129, 255, 257, 511, 513, 1023, 1025, 2047, 2049, 4095, 4097, 70000, 84000)
			}
			n := Pick(x, sizes)
			what := Pick(x, bulks)
			part := Pick(x, []string{"param", "last param", "single", "result", "data", "message", "id", "method", "trace"})
			if what != "text" && what != "escapes" && part != "param" && part != "last param" && part != "result" && part != "data" && (part != "single" || what != "map" && what != "deep") {
				x.Skip()
			}
			v := bulk(what, n)
			t, _ := v.(string)
			m := mm{kind: "request", id: 7, method: "m", params: L{N("1")}, trace: "t"}
			switch part {
			case "param":
				m.params = L{v}
			case "last param":
				m.params = L{}
				for i := 0; i < 40; i++ {
					m.params = append(m.params, N(strconv.Itoa(i)))
				}
				m.params = append(m.params, v)
			case "single":
				m.params, m.single = L{v}, true
			case "id":
				m.id = t
			case "method":
				m.method = t
			case "trace":
				m.trace = t
			case "result":
				m.kind, m.result = "result", v
			case "data":
				m.kind, m.code, m.emsg, m.data = "error", 5, "e", v
			case "message":
				m.kind, m.code, m.emsg = "error", 5, t
			}
			if part == "id" || part == "trace" {
				m.kind = Pick(x, []string{"request", "result", "error"})
			} else if m.kind == "request" && x.Bool() {
				m.kind = "notify"
			}
			x.Step("a %s with %d bytes of %s as its %s", m.kind, n, what, part)
			req := jlib.NewRequestMessage(m.id, m.method, nil)
			req.SetTraceId(m.trace)
			var give interface{} = L(m.params)
			if m.single {
				give = m.params[0]
			}
			var msg jlib.Message
			switch m.kind {
			case "request":
				r := jlib.NewRequestMessage(m.id, m.method, give)
				r.SetTraceId(m.trace)
				msg = r
			case "notify":
				r := jlib.NewNotifyMessage(m.method, give)
				r.SetTraceId(m.trace)
				msg = r
			case "result":
				msg = jlib.NewResultMessage(req, m.result)
			case "error":
				msg = jlib.RPCErrorMessage(req, m.code, m.emsg, m.data)
			}
			back := roundTrip(x, msg, m)
			if m.kind != "notify" {
				m2 := m
				m2.id = "other"
				checkMsg(x, "replaced", back.ReplaceId("other"), decodedModel(m2))
				if r, ok := back.(*jlib.RequestMessage); ok {
					checkMsg(x, "cloned", r.Clone("other"), decodedModel(m2))
				}
				checkMsg(x, "afterwards", back, decodedModel(m))
			}
			x.Outcome(m.kind)
		}},
		{Name: "chain", Run: func(x *X) {
			// encode/decode/clone/replace chains
			base := []paramForm{
				{L{N("1"), "a"}, L{N("1"), "a"}, false}, {L{}, L{}, false},
				{M{"k": N("12345678901234567890123")}, L{M{"k": N("12345678901234567890123")}}, true},
				{"s", L{"s"}, true}, {L{M{"a": nil}}, L{M{"a": nil}}, false},
			}
			pf := Pick(x, base)
			m := mm{kind: "request", id: Pick(x, ids), method: "m", params: pf.params, single: pf.single, trace: Pick(x, traces)}
			r := jlib.NewRequestMessage(m.id, "m", pf.give)
			r.SetTraceId(m.trace)
			var msg jlib.Message = r
			depth := 3
			if x.Thorough {
				depth = 4
			}
			for i := 0; i < depth; i++ {
				switch x.Choose(3) {
				case 0:
					msg = roundTrip(x, msg, m)
				case 1:
					m.id = Pick(x, []interface{}{5, "5"})
					msg = msg.ReplaceId(m.id)
					x.Step("ReplaceId %#v", m.id)
				case 2:
					m.id = Pick(x, []interface{}{6, ""})
					if q, ok := msg.(*jlib.RequestMessage); ok {
						msg = q.Clone(m.id)
						x.Step("Clone %#v", m.id)
					}
				}
				checkMsg(x, "chain", msg, decodedModel(m))
			}
			roundTrip(x, msg, m)
		}},
	}
}
