package kit

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// JSONScalar draws a string, float64, bool or nil.
func JSONScalar() *rapid.Generator[interface{}] {
	return rapid.Custom(func(t *rapid.T) interface{} {
		switch rapid.IntRange(0, 7).Draw(t, "scalar") {
		case 0, 1, 2:
			return ShortTexts().Draw(t, "s")
		case 3, 4:
			return Floats().Draw(t, "f")
		case 5:
			return rapid.Bool().Draw(t, "b")
		case 6:
			return nil
		default:
			return float64(rapid.IntRange(-5, 5).Draw(t, "n"))
		}
	})
}

var jsonKeys = []string{"a", "b", "c", "id", "0", "1", "-1", "name", "é", "", "x y", "deep", "10"}

// JSONValue draws a value nested at most depth levels deep.
func JSONValue(depth int) *rapid.Generator[interface{}] {
	return rapid.Custom(func(t *rapid.T) interface{} {
		kind := 0
		if depth > 0 {
			kind = rapid.IntRange(0, 4).Draw(t, "jsonKind")
		}
		switch kind {
		case 3:
			n := rapid.IntRange(0, 4).Draw(t, "len")
			a := make([]interface{}, 0, n)
			for i := 0; i < n; i++ {
				a = append(a, JSONValue(depth-1).Draw(t, "item"))
			}
			return a
		case 4:
			return JSONObject(depth-1, 4).Draw(t, "object")
		}
		return JSONScalar().Draw(t, "leaf")
	})
}

// JSONObject draws an object whose members nest at most depth levels deep.
func JSONObject(depth, maxMembers int) *rapid.Generator[map[string]interface{}] {
	return rapid.Custom(func(t *rapid.T) map[string]interface{} {
		n := rapid.IntRange(0, maxMembers).Draw(t, "members")
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			m[rapid.SampledFrom(jsonKeys).Draw(t, "key")] = JSONValue(depth).Draw(t, "value")
		}
		return m
	})
}

// JSONText writes a value with a random layout and random escapes.
func JSONText(t *rapid.T, v interface{}) string {
	var b strings.Builder
	space := func() {
		if rapid.IntRange(0, 5).Draw(t, "space") == 0 {
			b.WriteString(rapid.SampledFrom([]string{" ", "\n", "\t", "\r\n", "   "}).Draw(t, "ws"))
		}
	}
	str := func(s string) {
		b.WriteByte('"')
		mode := rapid.IntRange(0, 2).Draw(t, "escapes")
		for _, r := range s {
			switch {
			case r == '"' || r == '\\':
				b.WriteByte('\\')
				b.WriteRune(r)
			case r == '\n':
				b.WriteString(`\n`)
			case r == '\t':
				b.WriteString(`\t`)
			case r == '\r':
				b.WriteString(`\r`)
			case r < 0x20:
				fmt.Fprintf(&b, `\u%04x`, r)
			case r == '/' && mode == 1:
				b.WriteString(`\/`)
			case mode == 2 && r < 0x10000:
				fmt.Fprintf(&b, `\u%04X`, r)
			case mode == 2:
				x := r - 0x10000
				fmt.Fprintf(&b, `\u%04x\u%04x`, 0xd800+(x>>10), 0xdc00+(x&0x3ff))
			default:
				b.WriteRune(r)
			}
		}
		b.WriteByte('"')
	}
	var write func(v interface{})
	write = func(v interface{}) {
		switch x := v.(type) {
		case nil:
			b.WriteString("null")
		case bool:
			b.WriteString(strconv.FormatBool(x))
		case string:
			str(x)
		case float64:
			if x == math.Trunc(x) && math.Abs(x) < 1e15 && rapid.Bool().Draw(t, "plain") {
				b.WriteString(strconv.FormatFloat(x, 'f', -1, 64))
			} else {
				s := strconv.FormatFloat(x, 'e', -1, 64)
				if rapid.Bool().Draw(t, "upper") {
					s = strings.ToUpper(s)
				}
				b.WriteString(s)
			}
		case []interface{}:
			b.WriteByte('[')
			space()
			for i, item := range x {
				if i > 0 {
					b.WriteByte(',')
					space()
				}
				write(item)
				space()
			}
			b.WriteByte(']')
		case map[string]interface{}:
			b.WriteByte('{')
			space()
			keys := make([]string, 0, len(x))
			for _, k := range SortedKeys(x) {
				keys = append(keys, k)
			}
			if len(keys) > 1 {
				keys = rapid.Permutation(keys).Draw(t, "order")
			}
			for i, k := range keys {
				if i > 0 {
					b.WriteByte(',')
					space()
				}
				str(k)
				space()
				b.WriteByte(':')
				space()
				write(x[k])
				space()
			}
			b.WriteByte('}')
		default:
			Harness("no JSON for %#v", v)
		}
	}
	write(v)
	return b.String()
}
