//go:build go1.22

package kit

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
)

type N = json.Number
type L = []interface{}
type M = map[string]interface{}

// Canon writes a decoded JSON value (nil, bool, string, json.Number, list,
// map, and native Go numbers) as one canonical text: sorted keys, number
// text kept digit for digit.  It is independent of encoding/json's encoder
// except for string quoting (strconv).
func Canon(v interface{}) string {
	var b strings.Builder
	canon(&b, v)
	return b.String()
}

func canon(b *strings.Builder, v interface{}) {
	switch t := v.(type) {
	case nil:
		b.WriteString("null")
	case bool:
		fmt.Fprintf(b, "%v", t)
	case json.Number:
		b.WriteString(string(t))
	case int:
		b.WriteString(strconv.Itoa(t))
	case int64:
		b.WriteString(strconv.FormatInt(t, 10))
	case float64:
		b.WriteString(strconv.FormatFloat(t, 'g', -1, 64))
	case string:
		b.WriteString(strconv.Quote(t))
	case []interface{}:
		b.WriteByte('[')
		for i, e := range t {
			if i > 0 {
				b.WriteByte(',')
			}
			canon(b, e)
		}
		b.WriteByte(']')
	case map[string]interface{}:
		keys := make([]string, 0, len(t))
		for k := range t {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteByte(',')
			}
			b.WriteString(strconv.Quote(k))
			b.WriteByte(':')
			canon(b, t[k])
		}
		b.WriteByte('}')
	default:
		fmt.Fprintf(b, "<%T %#v>", v, v)
	}
}

// Parse decodes one JSON text completely (no trailing data).
func Parse(data []byte) (interface{}, error) {
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	var v interface{}
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	var extra interface{}
	if err := dec.Decode(&extra); err != io.EOF {
		return nil, fmt.Errorf("trailing data")
	}
	return v, nil
}

// CanonOf parses then canonicalises; the empty string for invalid JSON.
func CanonOf(data []byte) string {
	v, err := Parse(data)
	if err != nil {
		return "<invalid JSON: " + err.Error() + ">"
	}
	return Canon(v)
}

// JSON encodes a canonical value as JSON text.
func JSON(v interface{}) string {
	data, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(data)
}

// Copy returns a deep copy of a JSON value.
func Copy(v interface{}) interface{} {
	switch t := v.(type) {
	case []interface{}:
		out := make([]interface{}, len(t))
		for i, e := range t {
			out[i] = Copy(e)
		}
		return out
	case map[string]interface{}:
		out := make(map[string]interface{}, len(t))
		for k, e := range t {
			out[k] = Copy(e)
		}
		return out
	}
	return v
}

// Atoms is the scalar alphabet.
func Atoms() []interface{} {
	return []interface{}{
		nil, true, false,
		N("0"), N("-1"), N("7"), N("1.5"), N("-0.25"), N("1e3"), N("9007199254740993"),
		N("9223372036854775807"), N("-9223372036854775808"), N("12345678901234567890123"), N("0.1000000000000000055511151231257827"), N("1e400"),
		"", "a", "1", "null", "é\"\\\n\u2028<&>",
	}
}

// SmallAtoms is a shorter scalar alphabet.
func SmallAtoms() []interface{} {
	return []interface{}{nil, true, N("0"), N("12345678901234567890123"), "", "x"}
}

// Values returns all values over the atom alphabet with the given nesting.
func Values(atoms, second []interface{}, depth int) []interface{} {
	out := append([]interface{}{}, atoms...)
	if depth == 0 {
		return out
	}
	out = append(out, L{}, M{})
	sub := Values(atoms, second, depth-1)
	for _, a := range sub {
		out = append(out, L{a}, M{"k": a})
	}
	for _, a := range sub {
		for _, b := range second {
			out = append(out, L{a, b}, M{"": a, "k\"2": b})
		}
	}
	return out
}
