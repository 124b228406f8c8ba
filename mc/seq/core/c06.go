//go:build go1.22

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"strings"

	"github.com/superisaac/jlib"
	. "github.com/superisaac/jlib/zzverif/kit"
)

type bigBox struct {
	V jlib.Bigint            `json:"v"`
	P *jlib.Bigint           `json:"p"`
	L []jlib.Bigint          `json:"l"`
	M map[string]jlib.Bigint `json:"m"`
}

func isDecimal(s string) bool {
	t := strings.TrimLeft(s, "+-")
	if len(s)-len(t) > 1 || t == "" {
		return false
	}
	for _, c := range t {
		if c < '0' || c > '9' {
			return false
		}
	}
	return true
}

// decimalText normalises a decimal integer text by hand (no big.Int).
func decimalText(s string) string {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimLeft(s, "+-")
	s = strings.TrimLeft(s, "0")
	if s == "" {
		return "0"
	}
	if neg {
		return "-" + s
	}
	return s
}

func c06() []Family {
	container := func(x *X, tok string) (vals []string, err error, name string) {
		switch x.Choose(5) {
		case 0:
			var b jlib.Bigint
			err = json.Unmarshal([]byte(tok), &b)
			if err == nil {
				vals = []string{b.String()}
			}
			name = "direct"
		case 1:
			var b bigBox
			err = json.Unmarshal([]byte(`{"v":`+tok+`}`), &b)
			if err == nil {
				vals = []string{b.V.String()}
			}
			name = "field"
		case 2:
			var b bigBox
			err = json.Unmarshal([]byte(`{"p":`+tok+`}`), &b)
			if err == nil {
				if b.P == nil {
					vals = []string{"nil"}
				} else {
					vals = []string{b.P.String()}
				}
			}
			name = "pointer"
		case 3:
			var b bigBox
			err = json.Unmarshal([]byte(`{"l":[1,`+tok+`,`+tok+`]}`), &b)
			if err == nil {
				if len(b.L) != 3 {
					vals = []string{"len"}
				} else {
					vals = []string{b.L[1].String(), b.L[2].String()}
				}
			}
			name = "list"
		case 4:
			var b bigBox
			err = json.Unmarshal([]byte(`{"m":{"k":`+tok+`}}`), &b)
			if err == nil {
				t := b.M["k"]
				vals = []string{t.String()}
			}
			name = "map"
		}
		return
	}
	judge := func(x *X, tok, content string) {
		x.State(tok)
		vals, err, name := container(x, tok)
		x.Step("decode %s as %s", tok, name)
		if !isDecimal(content) {
			x.Check(err != nil, "accepts", "%s (%s) is not an integer but decoded to %v", tok, name, vals)
			x.Outcome("refused")
			return
		}
		x.Check(err == nil, "refuses", "%s (%s) refused: %v", tok, name, err)
		x.Outcome("decoded")
		want := decimalText(content)
		for _, v := range vals {
			x.Check(v == want, "value", "%s (%s) decoded to %s, want %s", tok, name, v, want)
		}
	}
	encode := func(x *X, n *big.Int) {
		want := n.String()
		var b jlib.Bigint
		b.Load(want)
		box := bigBox{V: b, P: &b, L: []jlib.Bigint{b, b}, M: map[string]jlib.Bigint{"k": b}}
		x.State(want)
		data, err := json.Marshal(box)
		x.Step("encode %s -> %s", want, data)
		q := `"` + want + `"`
		expect := fmt.Sprintf(`{"v":%s,"p":%s,"l":[%s,%s],"m":{"k":%s}}`, q, q, q, q, q)
		x.Check(err == nil && string(data) == expect, "encode", "encoding gave %s (%v), want %s", data, err, expect)
		var back bigBox
		err = json.Unmarshal(data, &back)
		x.Check(err == nil, "back", "decoding own encoding failed: %v", err)
		k := back.M["k"]
		for _, v := range []*jlib.Bigint{&back.V, back.P, &back.L[0], &back.L[1], &k} {
			x.Check(v.Value().Cmp(n) == 0 && v.String() == want, "back-value", "round trip of %s gave %s", want, v.String())
		}
		x.Check(b.Value().Cmp(n) == 0, "load", "Load(%s) holds %s", want, b.String())
		// decoding into a value that already holds something replaces it
		err = json.Unmarshal([]byte(`"77"`), &back.V)
		x.Check(err == nil && back.V.String() == "77", "overwrite", "overwriting gave %s (%v)", back.V.String(), err)
		x.Check(b.String() == want, "alias", "the source changed to %s", b.String())
	}
	return []Family{
		{Name: "texts", Run: func(x *X) {
			alpha := []byte("0159-+. ex_a")
			n := 4
			if x.Thorough {
				n = 5
			}
			k := x.Choose(n + 1)
			b := make([]byte, k)
			for i := range b {
				b[i] = Pick(x, alpha)
			}
			s := string(b)
			judge(x, `"`+s+`"`, s)
		}},
		{Name: "bare", Run: func(x *X) {
			toks := []string{"0", "-0", "5", "-5", "10", "1.5", "1.0", "1e3", "-1E2", "true", "false", "[]", "{}", "[1]", `{"a":1}`, "9007199254740993", "18446744073709551616", "-340282366920938463463374607431768211457"}
			t := Pick(x, toks)
			judge(x, t, t)
		}},
		{Name: "long-texts", Run: func(x *X) {
			pad := Pick(x, []string{"", "0", "000"})
			sign := Pick(x, []string{"", "-", "+"})
			digits := Pick(x, []string{"1", "9", "123456789", strings.Repeat("9", 18), strings.Repeat("9", 19), strings.Repeat("9", 20), strings.Repeat("1234567890", 13), strings.Repeat("7", 400)})
			junk := Pick(x, []string{"", " ", "x", ".", ".0", "e0", "_1", "-", "\\n", "\\u0000", "é", "\\\""})
			s := sign + pad + digits + junk
			tok := `"` + s + `"`
			judge(x, tok, s)
		}},
		{Name: "powers", Run: func(x *X) {
			e := Pick(x, []int{0, 1, 7, 8, 15, 16, 31, 32, 52, 53, 54, 62, 63, 64, 65, 127, 128, 256, 1024})
			d := int64(x.Choose(5) - 2)
			n := new(big.Int).Lsh(big.NewInt(1), uint(e))
			n.Add(n, big.NewInt(d))
			if x.Bool() {
				n.Neg(n)
			}
			encode(x, n)
			if x.Bool() {
				judge(x, n.String(), n.String())
			} else {
				judge(x, `"`+n.String()+`"`, n.String())
			}
		}},
		{Name: "small", Run: func(x *X) {
			encode(x, big.NewInt(int64(x.Choose(2001)-1000)))
		}},
	}
}

// ---------------------------------------------------------------- C07

func refMethod(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !isAlnum(s[i]) && !strings.ContainsRune("-_:+.", rune(s[i])) {
			return false
		}
	}
	return true
}

func isAlnum(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func refPublic(s string) bool {
	if s == "" || strings.HasPrefix(s, "rpc.") || !isAlnum(s[0]) {
		return false
	}
	for i := 1; i < len(s); i++ {
		if !isAlnum(s[i]) && !strings.ContainsRune("-_:+./\\&#", rune(s[i])) {
			return false
		}
	}
	return true
}

func c07() []Family {
	names := func(x *X, s string) {
		x.State(s)
		x.Step("IsMethod/IsPublicMethod %q", s)
		a, b := jlib.IsMethod(s), jlib.IsPublicMethod(s)
		x.Check(a == refMethod(s), "method", "IsMethod(%q) = %v", s, a)
		x.Check(b == refPublic(s), "public", "IsPublicMethod(%q) = %v", s, b)
		if a {
			x.Outcome("method")
		}
		if b {
			x.Outcome("public")
		}
	}
	reps := []byte("0a_:Z9-+.\\/&# \n\x00@[`{~\xc3\xa9rp")
	type cr struct {
		method string
		params interface{}
	}
	var reqs []cr
	var keyModel []string
	methods := []string{"a", "a[", "a[1]", "a[1][2]", "a\"", "[", "[]", "a[]", "ab", "b", "rpc.a", "a1", "é"}
	ps := []interface{}{}
	for _, a := range Values([]interface{}{nil, true, N("1"), N("12"), N("1.0"), N("2"), "1", "", "a", "[1]", "]", "\"", "a,1"}, []interface{}{N("1"), "1", nil}, 1) {
		ps = append(ps, L{a})
		ps = append(ps, L{a, N("2")}, L{N("2"), a}, L{L{a}})
	}
	ps = append(ps, L{})
	for _, m := range methods {
		for _, p := range ps {
			reqs = append(reqs, cr{m, p})
			keyModel = append(keyModel, fmt.Sprintf("%q %s", m, Canon(p)))
		}
	}
	return []Family{
		{Name: "ascii", Run: func(x *X) {
			n := x.Choose(3)
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(x.Choose(256))
			}
			names(x, string(b))
		}},
		{Name: "longer", Run: func(x *X) {
			n := 3 + x.Choose(2)
			if x.Thorough {
				n = 3 + x.Choose(3)
			}
			b := make([]byte, n)
			for i := range b {
				if n >= 4 && i < n-2 {
					b[i] = Pick(x, []byte("a0.rp_/\n"))
				} else {
					b[i] = Pick(x, reps)
				}
			}
			names(x, string(b))
		}},
		{Name: "words", Run: func(x *X) {
			pre := Pick(x, []string{"", "rpc.", "rpc", "Rpc.", "rpc_", "rpcx.", "arpc.", ".rpc.", "RPC.", "rpc..", "rpc.."})
			mid := Pick(x, []string{"", "a", "list_all", "a/b", "a\\b", "x&y#z", "é", "ａ", "a b", "a\tb", strings.Repeat("ab9_", 300)})
			suf := Pick(x, []string{"", "\n", "\r", " ", "!", "é", "\x00", ".", "\u2028"})
			names(x, pre+mid+suf)
		}},
		{Name: "long-params", Run: func(x *X) {
			// two requests whose bulky parameters differ in one place, or not
			sizes := []int{60, 300, 1000, 2100, 4100, 8200, 17000, 66000}
			if x.Thorough {
				sizes = append(sizes, 33000, 131100, 530000, 1100000)
			}
			n := Pick(x, sizes)
			shape := Pick(x, []string{"one string", "many strings", "map", "nested", "bytes", "at the end of many"})
			where := Pick(x, []string{"start", "quarter", "middle", "end", "nowhere"})
			how := Pick(x, []string{"swapped", "longer", "shorter", "case"})
			change := func(t string) string {
				at := map[string]int{"start": 0, "quarter": len(t) / 4, "middle": len(t) / 2, "end": len(t) - 1}[where]
				if where == "nowhere" {
					return t
				}
				switch how {
				case "swapped":
					return t[:at] + "!" + t[at+1:]
				case "longer":
					return t[:at] + "x" + t[at:]
				case "shorter":
					return t[:at] + t[at+1:]
				}
				return t[:at] + strings.ToUpper(t[at:at+1]) + t[at+1:]
			}
			const word = "abcdefghijklmnopqrstuvwx" // (no two neighbours alike)
			params := func(changed bool) []interface{} {
				one := strings.Repeat(word, n/len(word)+1)
				if shape == "one string" || shape == "bytes" || shape == "nested" {
					if changed {
						one = change(one)
					}
					switch shape {
					case "bytes":
						return L{[]byte(one)}
					case "nested":
						return L{L{M{"k": L{one, N("1")}}}}
					}
					return L{one}
				}
				k := n/(len(word)+3) + 1
				at := map[string]int{"start": 0, "quarter": k / 4, "middle": k / 2, "end": k - 1, "nowhere": -1}[where]
				l, m := L{}, M{}
				for i := 0; i < k; i++ {
					v := word
					if changed && i == at {
						v = map[string]string{"swapped": "!" + word[1:], "longer": word + "x", "shorter": word[1:], "case": "A" + word[1:]}[how]
					}
					l = append(l, v)
					m[fmt.Sprintf("%06d", i)] = v
				}
				switch shape {
				case "map":
					return L{N("1"), m, "z"}
				case "at the end of many":
					return L{strings.Repeat(word, 400), l}
				}
				return l
			}
			a := jlib.NewRequestMessage(1, "m", params(false))
			b := jlib.NewRequestMessage("2", "m", params(true))
			same := where == "nowhere"
			x.State(fmt.Sprintf("%d %s %s %s", n, shape, where, how))
			x.Step("the cache keys of two requests with %d characters in %s, one %s at the %s", n, shape, how, where)
			ka, kb := a.CacheKey("p"), b.CacheKey("p")
			x.Check((ka == kb) == same, "long-params", "two requests with %d characters in %s, one %s at the %s: their cache keys are equal: %v", n, shape, how, where, ka == kb)
			data, err := jlib.MessageBytes(a)
			x.Check(err == nil, "encode", "%v", err)
			back, err := jlib.ParseBytes(data)
			x.Check(err == nil, "decode", "%v", err)
			x.Check(back.(*jlib.RequestMessage).CacheKey("p") == ka, "decoded", "decoding a request with %d characters in %s changes its cache key", n, shape)
			x.Outcome(fmt.Sprintf("same %v", same))
		}},
		{Name: "long-method", Run: func(x *X) {
			n := Pick(x, []int{30, 63, 64, 65, 127, 129, 255, 257, 1025, 4097, 70000})
			at := Pick(x, []int{0, 1, n / 2, n - 1})
			t := strings.Repeat("a", n)
			u := t[:at] + Pick(x, []string{"b", "", "aa", "A", "."}) + t[at+1:]
			x.State(n, at, u[at:])
			x.Step("the cache keys of methods of %d characters that differ at %d", n, at)
			names(x, t)
			names(x, u)
			names(x, t[:at]+" "+t[at+1:])
			a, b := jlib.NewRequestMessage(1, t, L{N("1")}).CacheKey("p"), jlib.NewRequestMessage(1, u, L{N("1")}).CacheKey("p")
			x.Check(a != b, "long-method", "methods of %d characters that differ at %d share a cache key", n, at)
		}},
		{Name: "cachekey", Serial: true, Run: func(x *X) {
			prefix := Pick(x, []string{"", "p", "a", "a[1]"})
			seen := map[string]int{}
			byModel := map[string]string{}
			for i, r := range reqs {
				for v, id := range []interface{}{1, "z"} {
					msg := jlib.NewRequestMessage(id, r.method, Copy(r.params))
					if v == 1 {
						msg.SetTraceId("tr")
					}
					k := msg.CacheKey(prefix)
					x.Step("CacheKey %s", keyModel[i])
					if j, has := seen[k]; has {
						x.Check(keyModel[j] == keyModel[i], "collision", "requests %s and %s share the cache key %q", keyModel[j], keyModel[i], k)
					}
					seen[k] = i
					if old, has := byModel[keyModel[i]]; has {
						x.Check(old == k, "unstable", "request %s has cache keys %q and %q", keyModel[i], old, k)
					}
					byModel[keyModel[i]] = k
					// a decoded copy has the same key
					data, _ := jlib.MessageBytes(msg)
					back, err := jlib.ParseBytes(bytes.Clone(data))
					if err == nil {
						x.Check(back.(*jlib.RequestMessage).CacheKey(prefix) == k, "decoded", "decoding %s changes its cache key", data)
					}
					x.State(prefix, keyModel[i])
				}
			}
			x.Outcome("pairs-distinct")
		}},
	}
}
