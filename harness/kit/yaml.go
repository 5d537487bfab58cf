package kit

import (
	"fmt"
	"strconv"
	"strings"
)

// O is an ordered YAML mapping, L a YAML list. Scalars are string, bool,
// int, int64, uint, nil, and Raw (written as is).
type KV struct {
	K string
	V interface{}
}
type O []KV
type L []interface{}
type Raw string

func (o O) Get(k string) interface{} {
	for _, kv := range o {
		if kv.K == k {
			return kv.V
		}
	}
	return nil
}

func (o O) With(k string, v interface{}) O {
	r := make(O, 0, len(o)+1)
	done := false
	for _, kv := range o {
		if kv.K == k {
			r = append(r, KV{k, v})
			done = true
		} else {
			r = append(r, kv)
		}
	}
	if !done {
		r = append(r, KV{k, v})
	}
	return r
}

func (o O) Without(k string) O {
	r := make(O, 0, len(o))
	for _, kv := range o {
		if kv.K != k {
			r = append(r, kv)
		}
	}
	return r
}

// YAML renders the top level in block style and everything below it in flow style.
func YAML(o O) string {
	var b strings.Builder
	for _, kv := range o {
		b.WriteString(kv.K)
		b.WriteString(":")
		if l, isList := kv.V.(L); isList && len(l) > 0 {
			b.WriteString("\n")
			for _, item := range l {
				b.WriteString("  - ")
				flow(&b, item)
				b.WriteString("\n")
			}
			continue
		}
		b.WriteString(" ")
		flow(&b, kv.V)
		b.WriteString("\n")
	}
	return b.String()
}

func flow(b *strings.Builder, v interface{}) {
	switch t := v.(type) {
	case nil:
		b.WriteString("null")
	case O:
		b.WriteString("{")
		for i, kv := range t {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(YAMLString(kv.K))
			b.WriteString(": ")
			flow(b, kv.V)
		}
		b.WriteString("}")
	case L:
		b.WriteString("[")
		for i, item := range t {
			if i > 0 {
				b.WriteString(", ")
			}
			flow(b, item)
		}
		b.WriteString("]")
	case []string:
		l := make(L, len(t))
		for i, s := range t {
			l[i] = s
		}
		flow(b, l)
	case Raw:
		b.WriteString(string(t))
	case string:
		b.WriteString(YAMLString(t))
	case bool:
		b.WriteString(strconv.FormatBool(t))
	case int:
		b.WriteString(strconv.Itoa(t))
	case int64:
		b.WriteString(strconv.FormatInt(t, 10))
	case uint:
		b.WriteString(strconv.FormatUint(uint64(t), 10))
	default:
		panic(fmt.Sprintf("kit: cannot write %T in YAML", v))
	}
}

// YAMLString writes a double-quoted YAML scalar without any '$', which rodb
// would take for an environment variable reference.
func YAMLString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r == '$' || r < 0x20 || r == 0x7f:
			fmt.Fprintf(&b, `\x%02x`, r)
		case r > 0x7e && r < 0x10000:
			fmt.Fprintf(&b, `\u%04x`, r)
		case r >= 0x10000:
			fmt.Fprintf(&b, `\U%08x`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}
