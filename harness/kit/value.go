package kit

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strings"
)

// Expected converts a Go value to what decoding its JSON representation gives.
func Expected(v interface{}) interface{} {
	data, err := json.Marshal(v)
	if err != nil {
		Harness("expected value %#v: %v", v, err)
	}
	d, err := DecodeJSON(data)
	if err != nil {
		Harness("expected value %#v: %v", v, err)
	}
	return d
}

// SameJSON compares decoded JSON documents; numbers are compared by value.
func SameJSON(a, b interface{}) bool {
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !SameJSON(v, w) {
				return false
			}
		}
		return true
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !SameJSON(x[i], y[i]) {
				return false
			}
		}
		return true
	case json.Number:
		y, ok := b.(json.Number)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		p, ok1 := new(big.Rat).SetString(string(x))
		q, ok2 := new(big.Rat).SetString(string(y))
		return ok1 && ok2 && p.Cmp(q) == 0
	default:
		return a == b
	}
}

// SameValue compares record values exactly, including their types; -0 equals 0 and NaN equals NaN.
func SameValue(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || (math.IsNaN(x) && math.IsNaN(y)))
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !SameValue(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !SameValue(v, w) {
				return false
			}
		}
		return true
	default:
		return reflect.DeepEqual(a, b)
	}
}

// Show prints a value with types, maps in key order.
func Show(v interface{}) string {
	var b strings.Builder
	show(&b, v)
	return clip(b.String(), 4000)
}

func show(b *strings.Builder, v interface{}) {
	switch x := v.(type) {
	case map[string]interface{}:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteString(", ")
			}
			fmt.Fprintf(b, "%q: ", k)
			show(b, x[k])
		}
		b.WriteByte('}')
	case []interface{}:
		b.WriteByte('[')
		for i, w := range x {
			if i > 0 {
				b.WriteString(", ")
			}
			show(b, w)
		}
		b.WriteByte(']')
	case string:
		fmt.Fprintf(b, "%q", clip(x, 300))
	case nil:
		b.WriteString("null")
	case json.Number:
		b.WriteString(string(x))
	default:
		fmt.Fprintf(b, "%T(%v)", v, v)
	}
}

func SortedKeys(m map[string]interface{}) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}
