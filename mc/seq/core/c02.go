//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/superisaac/jlib"
	. "github.com/superisaac/jlib/zzverif/kit"
)

// refClassify is the reference decoder: it takes the fields of a decoded
// object and says what the message must be (ok=false: must be refused).
func refClassify(o M) (m mm, ok bool) {
	raw := func(k string) (interface{}, bool) { v, has := o[k]; return v, has && v != nil }
	if v, has := raw("traceid"); has {
		s, isStr := v.(string)
		if !isStr {
			return m, false
		}
		m.trace = s
	}
	if v, has := raw("method"); has {
		s, isStr := v.(string)
		if !isStr {
			return m, false
		}
		m.method = s
	}
	refID := func() (present bool, good bool) {
		v, has := raw("id")
		if !has {
			return false, true
		}
		switch t := v.(type) {
		case string:
			m.id = t
			return true, true
		case json.Number:
			n, err := strconv.ParseInt(string(t), 10, 64)
			if err != nil {
				return true, false
			}
			m.id = int(n)
			return true, true
		}
		return true, false
	}
	ev, hasErr := raw("error")
	rv, hasRes := raw("result")
	switch {
	case hasErr:
		if hasRes {
			return m, false
		}
		body, isObj := ev.(M)
		if !isObj {
			return m, false
		}
		if c, has := body["code"]; has && c != nil {
			n, isN := c.(json.Number)
			if !isN {
				return m, false
			}
			i, err := strconv.ParseInt(string(n), 10, 64)
			if err != nil {
				return m, false
			}
			m.code = int(i)
		}
		if s, has := body["message"]; has && s != nil {
			t, isS := s.(string)
			if !isS {
				return m, false
			}
			m.emsg = t
		}
		m.data = body["data"]
		if _, good := refID(); !good {
			return m, false
		}
		m.kind, m.method = "error", ""
		return m, true
	case hasRes:
		if _, good := refID(); !good {
			return m, false
		}
		m.kind, m.method, m.result = "result", "", rv
		return m, true
	case m.method != "":
		pv, has := raw("params")
		if !has {
			return m, false
		}
		if l, isList := pv.(L); isList {
			m.params = l
		} else {
			m.params, m.single = L{pv}, true
		}
		present, good := refID()
		if !good {
			return m, false
		}
		if present {
			m.kind = "request"
		} else {
			m.kind = "notify"
		}
		return m, true
	}
	if present, good := refID(); present && good {
		m.kind = "result"
		return m, true
	}
	return m, false
}

func judge(x *X, text string, m mm, ok bool, sigPrefix string) {
	var msg jlib.Message
	var err error
	p, v := Try(func() { msg, err = jlib.ParseBytes([]byte(text)) })
	x.Step("ParseBytes(%s)", text)
	x.Check(!p, sigPrefix+"panic", "decoding %q panicked: %v", text, v)
	x.Check((err == nil) == (msg != nil && !isNilMsg(msg)), sigPrefix+"both", "decoding %q gave msg=%v err=%v", text, msg, err)
	if !ok {
		x.Check(err != nil, sigPrefix+"accepts", "decoding %q must be refused, gave %#v", text, msg)
		x.Outcome("refused")
		return
	}
	x.Check(err == nil, sigPrefix+"refuses", "decoding %q must give a %s, got error %v", text, m.kind, err)
	x.Outcome(m.kind)
	checkMsg(x, sigPrefix+"decoded", msg, m)
}

func isNilMsg(m jlib.Message) bool { return fmt.Sprintf("%v", m) == "<nil>" }

func c02() []Family {
	const absent = "\x00"
	fields := []struct {
		name string
		alts []string
	}{
		{"id", []string{absent, "null", "0", "1", "-1", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "1.0", "1.5", "1e2", `""`, `"a"`, `"1"`, "true", "[]", "{}", `[1]`}},
		{"method", []string{absent, "null", `""`, `"m"`, `"rpc.x"`, "5", "[]"}},
		{"params", []string{absent, "null", "[]", "[1]", "[null]", "[[]]", "{}", `{"a":1}`, `"s"`, `""`, "0", "false", "12345678901234567890123"}},
		{"result", []string{absent, "null", "0", `"r"`, "[]", "{}", "false", "1e400"}},
		{"error", []string{absent, "null", "{}", `{"code":1,"message":"m"}`, `{"code":-5,"message":"","data":[1,"x"]}`, `{"code":null,"message":null,"data":null}`, `{"code":"1"}`, `{"message":5}`, `{"code":1.5}`, `{"code":9223372036854775808}`, `"e"`, "5", "[]", "false"}},
		{"traceid", []string{absent, "null", `"t"`, "5"}},
	}
	corpus := []string{
		`{"id":1,"method":"m","params":[1,"a"]}`,
		`{"id":"x","method":"m","params":{"a":1}}`,
		`{"method":"m","params":[]}`,
		`{"id":1,"result":{"a":[1,2]}}`,
		`{"id":"x","result":null}`,
		`{"id":1,"error":{"code":-1,"message":"m","data":null}}`,
		` {"jsonrpc": "2.0", "id": -12, "traceid": "t", "method": "m", "params": "s"} `,
		`[]`, `null`, `5`, `"s"`, `true`, `{}`, `[{"id":1,"result":1}]`,
	}
	corrupt := []byte("{}[]\",:\\ 0-1e.xtn\x00\x7f\x80\xff\n")
	return []Family{
		{Name: "fields", Run: func(x *X) {
			var keys, parts []string
			for _, f := range fields {
				v := Pick(x, f.alts)
				if v != absent {
					keys = append(keys, f.name)
					parts = append(parts, v)
				}
			}
			order := x.Choose(2)
			var b strings.Builder
			b.WriteString("{")
			for i := range parts {
				j := i
				if order == 1 {
					j = len(parts) - 1 - i
				}
				if i > 0 {
					b.WriteString(",")
				}
				fmt.Fprintf(&b, "%q:%s", keys[j], parts[j])
			}
			b.WriteString("}")
			o := M{}
			for i := range parts {
				o[keys[i]] = parsedAlt(parts[i])
			}
			x.State(b.String())
			m, ok := refClassify(o)
			judge(x, b.String(), m, ok, "fields:")
		}},
		{Name: "corrupt", Run: func(x *X) {
			src := Pick(x, corpus)
			pos := x.Choose(len(src) + 1)
			var text string
			switch x.Choose(4) {
			case 0:
				text = src[:pos]
			case 1:
				c := Pick(x, corrupt)
				if pos == len(src) {
					x.Skip()
				}
				text = src[:pos] + string([]byte{c}) + src[pos+1:]
			case 2:
				c := Pick(x, corrupt)
				text = src[:pos] + string([]byte{c}) + src[pos:]
			case 3:
				if pos == len(src) {
					x.Skip()
				}
				text = src[:pos] + src[pos+1:]
			}
			x.State(text)
			// reference: first JSON value of the text
			dec := json.NewDecoder(bytes.NewReader([]byte(text)))
			dec.UseNumber()
			var v interface{}
			if err := dec.Decode(&v); err != nil {
				judge(x, text, mm{}, false, "corrupt:")
				return
			}
			o, isObj := v.(M)
			if !isObj {
				judge(x, text, mm{}, false, "corrupt:")
				return
			}
			m, ok := refClassify(o)
			judge(x, text, m, ok, "corrupt:")
		}},
		{Name: "extra", Run: func(x *X) {
			// members that mean nothing, long and short, in front of, between and
			// after those that do
			src := Pick(x, []string{
				`"id":1|"method":"m"|"params":[1,"a"]`, `"id":"x"|"method":"m"|"params":{"a":1}`, `"method":"m"|"params":[]|"traceid":"t"`,
				`"id":1|"result":{"a":[1,2]}`, `"id":"x"|"result":null`, `"id":1|"error":{"code":-1,"message":"m","data":null,"more":1}`, `"method":"m"`, `"id":null`, `"id":[]|"result":1`, ``,
			})
			parts := strings.Split(src, "|")
			if src == "" {
				parts = nil
			}
			n := 1 + x.Choose(2)
			for i := 0; i < n; i++ {
				k := Pick(x, []string{"jsonrpc", "x", "", "param", "results", "trace_id", "é", "__proto__"}[:8-4*i])
				k += strings.Repeat("_", i)
				if k == "jsonrpc_" || k == "_" && i == 0 {
					x.Skip()
				}
				v := Pick(x, []string{`"2.0"`, `null`, `[1.50,{"id":5}]`, `{"method":"inner","params":[],"error":1}`, `"` + strings.Repeat("long ", 900) + `"`, `[` + strings.Repeat(`"w",`, 1100) + `1]`, `"` + strings.Repeat("w", 66000) + `"`, `"1.0"`}[:8-4*i])
				at := Pick(x, []int{0, len(parts), len(parts) / 2}[:min(3, 1+len(parts))])
				parts = append(parts[:at:at], append([]string{fmt.Sprintf("%q:%s", k, v)}, parts[at:]...)...)
				if !x.Thorough && len(v) > 1000 {
					break
				}
			}
			text := "{" + strings.Join(parts, ",") + "}"
			v, err := Parse([]byte(text))
			x.Check(err == nil, "text", "%v", err)
			x.State(text)
			m, ok := refClassify(v.(M))
			judge(x, text, m, ok, "extra:")
		}},
		{Name: "bytes", Run: func(x *X) {
			// every byte string up to the bound
			alpha := []byte("{}[]\":,1an \\\xff")
			n := 4
			if x.Thorough {
				n = 5
			}
			k := x.Choose(n + 1)
			b := make([]byte, k)
			for i := range b {
				b[i] = Pick(x, alpha)
			}
			x.State(string(b))
			judge(x, string(b), mm{}, false, "bytes:")
		}},
	}
}

var altCache = map[string]interface{}{}

func parsedAlt(s string) interface{} {
	v, err := Parse([]byte(s))
	if err != nil {
		panic(err)
	}
	return v
}

// chunkReader returns the data in the given pieces.
type chunkReader struct {
	data  []byte
	cuts  []int
	pos   int
	one   bool
	empty bool // return (0, nil) before each piece
	tick  bool
	fin   error
	size  int // at most so many bytes a read
	ends  []int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.empty {
		r.tick = !r.tick
		if r.tick {
			return 0, nil
		}
	}
	if r.pos >= len(r.data) {
		return 0, r.fin
	}
	end := len(r.data)
	for _, c := range r.cuts {
		if c > r.pos {
			end = c
			break
		}
	}
	if r.one {
		end = r.pos + 1
	}
	if r.size > 0 {
		end = min(end, r.pos+r.size)
	}
	n := copy(p, r.data[r.pos:end])
	r.pos += n
	r.ends = append(r.ends, r.pos)
	return n, nil
}

func c03() []Family {
	type item struct {
		text string
		m    mm
		ok   bool
	}
	mk := func(s string) item {
		v, err := Parse([]byte(s))
		if err != nil {
			panic(err)
		}
		if o, isObj := v.(M); isObj {
			m, ok := refClassify(o)
			return item{s, m, ok}
		}
		return item{s, mm{}, false}
	}
	corpus := []item{
		mk(`{"id":1,"method":"m","params":[1]}`),
		mk(`{"method":"n","params":{"a":"}{"}}`),
		mk(`{"id":"x","result":[12345678901234567890123]}`),
		mk(`{"id":2,"error":{"code":1,"message":"\"{"}}`),
		mk(`{"id":3,"method":"m","params":[1.50],"traceid":"t"}`),
		mk(`{"x":1}`), mk(`5`), mk(`[1]`), mk(`{"id":1,"method":5}`),
	}
	seps := []string{"\n", "", " \r\n\t "}
	decodeAll := func(x *X, r *chunkReader, items []item, fin string) {
		dec := json.NewDecoder(r)
		end := 0
		for i, it := range items {
			end += strings.Index(string(r.data[end:]), it.text) + len(it.text)
			had := r.pos
			r.ends = nil
			msg, err := jlib.DecodeMessage(dec)
			x.Step("DecodeMessage #%d", i)
			if it.text[0] == '{' || it.text[0] == '[' {
				// nothing is awaited beyond the message: what has been read
				// was there before, or came with its last byte
				last := had
				for _, p := range r.ends {
					if last >= end {
						break
					}
					last = p
				}
				x.Check(r.pos <= last, "stream:waits", "item %d ends at byte %d; it was returned only after byte %d was read (pieces: one %v size %d cuts %v)", i, end, r.pos, r.one, r.size, r.cuts)
			}
			if !it.ok {
				x.Check(err != nil, "stream:accepts", "item %d %s must be refused, gave %v", i, it.text, msg)
				continue
			}
			x.Check(err == nil, "stream:refuses", "item %d %s refused: %v", i, it.text, err)
			checkMsg(x, "stream", msg, it.m)
		}
		// the end
		msg, err := jlib.DecodeMessage(dec)
		x.Check(err != nil, "stream:extra", "extra message %v after the stream ended", msg)
		if fin == "clean" {
			x.Check(err == io.EOF, "stream:eof", "clean end reported as %v, want EOF", err)
		}
	}
	build := func(x *X, maxLen int) ([]item, string) {
		n := 1 + x.Choose(maxLen)
		sep := Pick(x, seps)
		var items []item
		var b strings.Builder
		for i := 0; i < n; i++ {
			it := Pick(x, corpus)
			items = append(items, it)
			b.WriteString(it.text)
			if sep == "" && it.text == "5" {
				b.WriteString(" ")
			}
			b.WriteString(sep)
		}
		return items, b.String()
	}
	return []Family{
		{Name: "cut-pairs", Run: func(x *X) {
			items, s := build(x, 2)
			a := x.Choose(len(s) + 1)
			b := a + x.Choose(len(s)-a+1)
			if len(items) == 2 && !x.Thorough && (b-a)%3 != 0 && b != a+1 {
				x.Skip()
			}
			x.State(s, a, b)
			decodeAll(x, &chunkReader{data: []byte(s), cuts: []int{a, b}, fin: io.EOF}, items, "clean")
		}},
		{Name: "long", Run: func(x *X) {
			items, s := build(x, 3)
			r := &chunkReader{data: []byte(s), fin: io.EOF}
			switch c := x.Choose(len(s) + 3); c {
			case 0:
			case 1:
				r.one = true
			case 2:
				r.one, r.empty = true, true
			default:
				r.cuts = []int{c - 2}
			}
			x.State(s, r.one, r.empty, fmt.Sprint(r.cuts))
			decodeAll(x, r, items, "clean")
		}},
		{Name: "many", Run: func(x *X) {
			// long streams of messages of sizes round those of usual buffers
			size := Pick(x, []int{0, 1, 3, 7, 511, 512, 513, 4096, 65536})
			big := Pick(x, []int{0, 100, 503, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 70000})
			every := Pick(x, []int{1, 3})
			sep := Pick(x, seps)
			n := 40
			if big > 5000 || size == 1 {
				n = 9
			}
			var items []item
			var b strings.Builder
			for i := 0; i < n; i++ {
				it := corpus[i%len(corpus)]
				if i%every == 0 && big > 0 {
					head := fmt.Sprintf(`{"id":%d,"method":"m","params":["`, i)
					it = mk(head + strings.Repeat("x", max(0, big-len(head)-3)) + `"]}`)
				}
				items = append(items, it)
				b.WriteString(it.text)
				if sep == "" && it.text == "5" {
					b.WriteString(" ")
				}
				b.WriteString(sep)
			}
			x.State(size, big, every, sep)
			decodeAll(x, &chunkReader{data: []byte(b.String()), size: size, fin: io.EOF}, items, "clean")
		}},
		{Name: "truncated", Run: func(x *X) {
			items, s := build(x, 3)
			cut := x.Choose(len(s))
			fin := Pick(x, []error{io.EOF, io.ErrUnexpectedEOF, io.ErrClosedPipe})
			one := x.Bool()
			// items completely inside the prefix
			pos := 0
			k := 0
			for _, it := range items {
				i := strings.Index(s[pos:], it.text)
				end := pos + i + len(it.text)
				if end > cut {
					break
				}
				// a bare number needs its terminator to be known complete
				pos = end
				k++
			}
			if k > 0 && items[k-1].text == "5" && cut == pos {
				x.Skip()
			}
			x.State(s, cut, fin.Error(), one)
			decodeAll(x, &chunkReader{data: []byte(s[:cut]), one: one, fin: fin}, items[:k], "broken")
		}},
	}
}
