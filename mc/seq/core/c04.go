//go:build go1.22

package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/superisaac/jlib"
	. "github.com/superisaac/jlib/zzverif/kit"
)

type tracked struct {
	msg jlib.Message
	m   mm
}

func c04() []Family {
	bigv := M{"k": L{N("12345678901234567890123"), nil, "é"}}
	shapes := []mm{
		{kind: "request", id: 1, method: "m", params: L{}},
		{kind: "request", id: "a", method: "m.x", params: L{N("1"), bigv}, trace: "t0"},
		{kind: "request", id: "", method: "m", params: L{bigv}, single: true, trace: "t0"},
		{kind: "request", id: 0, method: "m", params: L{bigv}},
		{kind: "request", id: 7, method: "m", params: L{"s"}, single: true},
		{kind: "request", id: 7, method: "m", params: L{L{}}},
		{kind: "request", id: 7, method: "m", params: L{false}, single: true},
		{kind: "notify", method: "m", params: L{N("1")}, trace: "t0"},
		{kind: "notify", method: "m", params: L{bigv}, single: true},
		{kind: "notify", method: "m", params: L{}},
		{kind: "result", id: 1, result: bigv, trace: "t0"},
		{kind: "result", id: "", result: nil},
		{kind: "result", id: -1, result: L{}},
		{kind: "error", id: 1, code: -32601, emsg: "no", data: bigv, trace: "t0"},
		{kind: "error", id: "z", code: 0, emsg: ""},
	}
	newIds := []interface{}{2, "b", 0, ""}
	build := func(x *X, m mm) jlib.Message {
		if x.Bool() {
			msg, err := jlib.ParseBytes([]byte(JSON(m.wire())))
			x.Check(err == nil, "parse", "cannot parse %s: %v", JSON(m.wire()), err)
			x.Step("decoded %s", JSON(m.wire()))
			return msg
		}
		var give interface{} = m.params
		if m.single {
			give = m.params[0]
		}
		x.Step("constructed %s", JSON(m.wire()))
		switch m.kind {
		case "request":
			r := jlib.NewRequestMessage(m.id, m.method, give)
			r.SetTraceId(m.trace)
			return r
		case "notify":
			r := jlib.NewNotifyMessage(m.method, give)
			r.SetTraceId(m.trace)
			return r
		case "result":
			q := jlib.NewRequestMessage(m.id, "q", nil)
			q.SetTraceId(m.trace)
			return jlib.NewResultMessage(q, m.result)
		}
		q := jlib.NewRequestMessage(m.id, "q", nil)
		q.SetTraceId(m.trace)
		return jlib.NewErrorMessage(q, &jlib.RPCError{Code: m.code, Message: m.emsg, Data: m.data})
	}
	return []Family{{Name: "derive", Run: func(x *X) {
		m := Pick(x, shapes)
		all := []tracked{{build(x, m), m}}
		checkAll := func() {
			for i, t := range all {
				checkMsg(x, fmt.Sprintf("derive"), t.msg, decodedModel(t.m))
				_ = i
			}
		}
		checkAll()
		depth := 3
		if x.Thorough {
			depth = 4
		}
		for i := 0; i < depth; i++ {
			// operate on the newest or on the first message
			src := len(all) - 1
			if len(all) > 1 && x.Bool() {
				src = 0
			}
			t := all[src]
			n := t.m
			switch x.Choose(6) {
			case 0: // replace id
				id := Pick(x, newIds)
				if t.m.kind == "notify" {
					p, _ := Try(func() { t.msg.ReplaceId(id) })
					x.Check(p, "notify-replaceid", "ReplaceId on a notify did not panic")
					continue
				}
				n.id = id
				all = append(all, tracked{t.msg.ReplaceId(id), n})
				x.Step("#%d ReplaceId %#v", src, id)
			case 1:
				q, ok := t.msg.(*jlib.RequestMessage)
				if !ok {
					x.Skip()
				}
				id := Pick(x, newIds)
				n.id = id
				all = append(all, tracked{q.Clone(id), n})
				x.Step("#%d Clone %#v", src, id)
			case 2:
				tr := Pick(x, []string{"t9", ""})
				t.msg.SetTraceId(tr)
				all[src].m.trace = tr
				x.Step("#%d SetTraceId %q", src, tr)
			case 3:
				if t.m.kind == "notify" {
					p, _ := Try(func() { jlib.NewResultMessage(t.msg, 1) })
					x.Check(p, "notify-result", "a result for a notify was built")
					continue
				}
				res := Pick(x, []interface{}{bigv, nil})
				all = append(all, tracked{jlib.NewResultMessage(t.msg, res), mm{kind: "result", id: t.m.id, result: res, trace: t.m.trace}})
				x.Step("#%d answered with result", src)
			case 4:
				if t.m.kind == "notify" {
					p, _ := Try(func() { jlib.RPCErrorMessage(t.msg, 1, "x", nil) })
					x.Check(p, "notify-error", "an error for a notify was built")
					continue
				}
				em := mm{kind: "error", id: t.m.id, code: -7, emsg: "e", trace: t.m.trace}
				all = append(all, tracked{jlib.RPCErrorMessage(t.msg, -7, "e", nil), em})
				x.Step("#%d answered with error", src)
			case 5:
				q, ok := t.msg.(*jlib.RequestMessage)
				if !ok {
					x.Skip()
				}
				e := &jlib.RPCError{Code: 3, Message: "w", Data: "orig"}
				d := e.WithData(L{N("1")})
				x.Check(e.Data == "orig", "withdata", "WithData changed the original error")
				if x.Bool() {
					all = append(all, tracked{d.ToMessage(q), mm{kind: "error", id: t.m.id, code: 3, emsg: "w", data: L{N("1")}, trace: t.m.trace}})
				} else {
					all = append(all, tracked{d.ToMessageFromId("zz", "tt"), mm{kind: "error", id: "zz", code: 3, emsg: "w", data: L{N("1")}, trace: "tt"}})
				}
				x.Step("#%d error ToMessage", src)
			}
			checkAll()
			var st strings.Builder
			for _, t := range all {
				fmt.Fprintf(&st, "%s|%#v;", JSON(t.m.wire()), t.m.id)
			}
			x.State(st.String())
		}
	}}, {Name: "constructors", Run: func(x *X) {
		// nil id and empty method are refused by panicking
		id := Pick(x, []interface{}{nil, 1, ""})
		method := Pick(x, []string{"", "m"})
		x.Step("NewRequestMessage(%#v,%q)", id, method)
		p, _ := Try(func() { jlib.NewRequestMessage(id, method, nil) })
		x.Check(p == (id == nil || method == ""), "ctor-request", "NewRequestMessage(%#v,%q) panic=%v", id, method, p)
		p, _ = Try(func() { jlib.NewNotifyMessage(method, nil) })
		x.Check(p == (method == ""), "ctor-notify", "NewNotifyMessage(%q) panic=%v", method, p)
		x.State(id, method)
	}}}
}

// ---------------------------------------------------------------- C05

// refGuess: nil error means want value; wantErr means an error.
func refGuess(s string) (v interface{}, wantErr bool) {
	switch s {
	case "":
		return "", false
	case "true":
		return true, false
	case "false":
		return false, false
	case "null":
		return nil, false
	}
	if i, err := strconv.ParseInt(s, 10, 64); err == nil {
		return N(strconv.FormatInt(i, 10)), false
	}
	if f, err := strconv.ParseFloat(s, 64); err == nil {
		letters := strings.ToLower(strings.TrimLeft(s, "+-"))
		if !strings.HasPrefix(letters, "n") && !strings.HasPrefix(letters, "i") {
			return f, false
		}
	}
	switch s[0] {
	case '[', '{', '"':
		end := valueEnd(s)
		if end < 0 {
			return nil, true
		}
		p, err := Parse([]byte(s[:end]))
		if err != nil {
			return nil, true
		}
		return p, false
	case '@':
		data, err := os.ReadFile(s[1:])
		if err != nil {
			return nil, true
		}
		text := strings.TrimLeft(string(data), " \t\r\n")
		end := valueEnd(text)
		if end < 0 {
			return nil, true
		}
		p, err := Parse([]byte(text[:end]))
		if err != nil {
			return nil, true
		}
		return p, false
	}
	return s, false
}

// valueEnd finds the end of the leading bracketed or quoted value (-1: none).
func valueEnd(s string) int {
	if s == "" {
		return -1
	}
	if s[0] != '[' && s[0] != '{' && s[0] != '"' {
		i := strings.IndexAny(s, " \t\r\n,]}:")
		if i < 0 {
			return len(s)
		}
		return i
	}
	depth, inStr := 0, false
	for i := 0; i < len(s); i++ {
		c := s[i]
		if inStr {
			if c == '\\' {
				i++
			} else if c == '"' {
				inStr = false
				if depth == 0 {
					return i + 1
				}
			}
			continue
		}
		switch c {
		case '"':
			inStr = true
		case '[', '{':
			depth++
		case ']', '}':
			depth--
			if depth == 0 {
				return i + 1
			}
		}
	}
	return -1
}

func sameGuess(got, want interface{}) bool {
	if f, ok := want.(float64); ok {
		g, isF := got.(float64)
		if n, isN := got.(N); isN {
			var err error
			g, err = n.Float64()
			isF = err == nil
		}
		if i, isI := got.(int64); isI {
			g, isF = float64(i), true
		}
		return isF && g == f
	}
	return Canon(norm(got)) == Canon(norm(want)) && fmt.Sprint(isNumber(got)) == fmt.Sprint(isNumber(want))
}

func isNumber(v interface{}) bool {
	switch v.(type) {
	case int, int64, float64, N:
		return true
	}
	return false
}

func c05() []Family {
	dir, err := os.MkdirTemp("", "jlibmc-c05-")
	if err != nil {
		panic(err)
	}
	files := map[string]string{"ok": `{"a":[1,12345678901234567890123,null]}`, "num": "12.50", "empty": "", "bad": "{", "str": "\n \"s\" ", "word": "hello", "nul": "null"}
	paths := []string{filepath.Join(dir, "missing"), dir, ""}
	for _, n := range []int{500, 4090, 4096, 4100, 65536, 70000, 1 << 20} {
		files[fmt.Sprintf("text%d", n)] = "[\"" + strings.Repeat("long text ", n/10+1)[:n] + "\",1]"
		files[fmt.Sprintf("space%d", n)] = strings.Repeat(" \n", n/2) + "[true]"
		files[fmt.Sprintf("list%d", n)] = "[" + strings.Repeat("12,", n/3) + "{}]"
		files[fmt.Sprintf("open%d", n)] = "[" + strings.Repeat("12,", n/3) + "{]"
	}
	for n, c := range files {
		p := filepath.Join(dir, n)
		os.WriteFile(p, []byte(c), 0644)
		paths = append(paths, p)
	}
	judge := func(x *X, s string) {
		want, wantErr := refGuess(s)
		var got interface{}
		var err error
		p, v := Try(func() { got, err = jlib.GuessJson(s) })
		x.Step("GuessJson(%q)", s)
		x.State(s)
		x.Check(!p, "panic", "GuessJson(%q) panicked: %v", s, v)
		x.Check((err != nil) == wantErr, "error", "GuessJson(%q) = %#v, %v; want error=%v", s, got, err, wantErr)
		if err != nil {
			x.Outcome("error")
			return
		}
		_, encErr := jlib.MarshalJson(got)
		x.Check(encErr == nil, "unencodable", "GuessJson(%q) = %#v does not encode as JSON: %v", s, got, encErr)
		x.Check(sameGuess(got, want), "value", "GuessJson(%q) = %#v, want %#v", s, got, want)
		x.Outcome(fmt.Sprintf("%T", got))
	}
	words := []string{"true", "false", "null", "True", "TRUE", "tru", "true ", " true", "nan", "NaN", "NAN", "-nan", "+NaN", "inf", "Inf", "-inf", "+Inf", "infinity", "-Infinity", "INFINITY", "infinit", "in", "na",
		"9223372036854775807", "-9223372036854775808", "9223372036854775808", "12345678901234567890123", "1e308", "1e309", "-1e400", "1e-400", "0x10", "0x1p4", "-0x1p-2", "0x_1p4", "1_000", "1e5", "1E5", "1.", ".5", "+5", "-5", "+.5e1", "--5", "5-", "1e", "1e+", "07", "-07", "0b11", "0o17", "1 ", " 1", "1,2", "1;2",
		`"a"`, `"a" b`, `"a`, `"\u0041"`, `"\x"`, `"1"`, `""`, `"`, "[1] x", "[1]]", "[1,]", "[1,2", `[{"a":[1.50]}]`, `{"a":1}}`, `{"a":}`, `{a:1}`, "{}", "[]", "[null]", `{"a":NaN}`, "[nan]", "@", "@@", "a@b", "é", "\xff", "[\xff]", "\x00", "hello world", "'a'", "<a>", "\\", "-", "+", "."}
	alpha := []byte("tn01-+.eEx_[]{}\"@,: afi")
	return []Family{
		{Name: "words", Run: func(x *X) {
			w := Pick(x, words)
			pre := Pick(x, []string{"", "-", " "})
			suf := Pick(x, []string{"", "0", "e1", " ", "]"})
			judge(x, pre+w+suf)
		}},
		{Name: "strings", Run: func(x *X) {
			n := 4
			if x.Thorough {
				n = 5
			}
			k := x.Choose(n + 1)
			b := make([]byte, k)
			for i := range b {
				b[i] = Pick(x, alpha)
			}
			if k > 1 && b[0] == '@' {
				x.Skip() // file names are explored by the files family
			}
			judge(x, string(b))
		}},
		{Name: "long", Run: func(x *X) {
			// numbers, texts and values of every length, as they are or with a flaw
			// near the end
			lens := []int{15, 16, 17, 18, 19, 20, 21, 25, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 299, 300, 301, 400, 511, 513, 1023, 1025, 4095, 4096, 4097, 16385, 65537}
			n := Pick(x, lens)
			unit := Pick(x, []string{"1", "9", "0", "1234567890", "a", "é", "1,", "[", "\"", "true", "-", "x y ", "."})
			t := strings.Repeat(unit, n/len(unit)+1)[:n]
			form := Pick(x, []string{"%s", "-%s", "+%s", "%s.5", "0.%s", "%se5", "%s ", " %s", "[%s]", "[%s", "\"%s\"", "{\"k\":%s}", "{\"%s\":1}", "[[[%s]]]", "[1, %s] z", "%s@", "file:%s", "%sx"})
			judge(x, strings.Replace(form, "%s", t, 1))
		}},
		{Name: "files", Run: func(x *X) {
			judge(x, "@"+Pick(x, paths))
		}},
		{Name: "lists", Run: func(x *X) {
			items := []string{"", "1", "x", "[1", "null", "true", `"q"`, "@" + filepath.Join(dir, "missing"), "@" + filepath.Join(dir, "ok"), "1.5", "inf"}
			n := x.Choose(5)
			var in []string
			for i := 0; i < n; i++ {
				in = append(in, Pick(x, items))
			}
			got, err := jlib.GuessJsonArray(in)
			x.Step("GuessJsonArray(%q)", in)
			x.State(strings.Join(in, "\x00"))
			var want []interface{}
			bad := false
			for _, s := range in {
				v, e := refGuess(s)
				if e {
					bad = true
					break
				}
				want = append(want, v)
			}
			x.Check((err != nil) == bad, "list-error", "GuessJsonArray(%q) err=%v, want error %v", in, err, bad)
			if !bad {
				x.Check(len(got) == len(want), "list-len", "GuessJsonArray(%q) = %#v", in, got)
				for i := range got {
					x.Check(sameGuess(got[i], want[i]), "list-value", "GuessJsonArray(%q)[%d] = %#v want %#v", in, i, got[i], want[i])
				}
			}
		}},
	}
}
