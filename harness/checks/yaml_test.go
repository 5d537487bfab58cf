package checks

import (
	"fmt"
	"os"
	"regexp"
	"strings"

	"pgregory.net/rapid"
	"rodbverif/kit"
)

// yamlWriter writes a configuration in any of the ways YAML allows.
type yamlWriter struct {
	rt                            *rapid.T
	block, env, shuffle, comments bool
	vars                          int
}

var plainScalar = regexp.MustCompile(`^[A-Za-z_/][A-Za-z0-9_/.]*$`)

// Plain scalars that YAML does not take for strings.
var notStrings = regexp.MustCompile(`^(?i:true|false|yes|no|on|off|y|n|null|~|inf|nan|\.inf|\.nan)$`)

// variable stores the text in an environment variable and gives a reference to it.
func (w *yamlWriter) variable(value string, braces bool) string {
	name := fmt.Sprintf("VERIF_VARIABLE_%d", w.vars)
	w.vars++
	kit.Must(os.Setenv(name, value))
	if braces {
		return "${" + name + "}"
	}
	return "$" + name
}

func (w *yamlWriter) scalar(s string) string {
	if strings.Contains(s, "@DIR@") {
		return kit.YAMLString(s)
	}
	styles := []int{0}
	if plainScalar.MatchString(s) && !notStrings.MatchString(s) {
		styles = append(styles, 1, 1, 2)
	} else if !strings.ContainsAny(s, "\n\r\t\x00$\x85\u2028\u2029") && kitPrintable(s) {
		styles = append(styles, 2)
	}
	text := ""
	switch rapid.SampledFrom(styles).Draw(w.rt, "style") {
	case 0:
		text = kit.YAMLString(s)
	case 1:
		text = s
	case 2:
		text = "'" + strings.ReplaceAll(s, "'", "''") + "'"
	}
	if w.env && rapid.IntRange(0, 4).Draw(w.rt, "variable") == 0 {
		// A part of the scalar made of simple characters, or all of it with its quotes.
		if simple := regexp.MustCompile(`[A-Za-z0-9_/.]+`).FindStringIndex(text); simple != nil && rapid.Bool().Draw(w.rt, "part") && !strings.Contains(text, `\`) {
			return text[:simple[0]] + w.variable(text[simple[0]:simple[1]], true) + text[simple[1]:]
		}
		return w.variable(text, rapid.Bool().Draw(w.rt, "braces"))
	}
	return text
}

func kitPrintable(s string) bool {
	for _, r := range s {
		if r < 0x20 || r == 0x7f || r == 0xfeff || r == 0xfffd || r > 0xffff || r >= 0x80 && r < 0xa0 {
			return false
		}
	}
	return true
}

func (w *yamlWriter) order(o kit.O) kit.O {
	if !w.shuffle || len(o) < 2 {
		return o
	}
	return rapid.Permutation(o).Draw(w.rt, "settings")
}

func (w *yamlWriter) comment() string {
	if !w.comments || rapid.IntRange(0, 6).Draw(w.rt, "comment") > 0 {
		return ""
	}
	return " # " + rapid.SampledFrom([]string{"a: b", "\"", "- x", "'", "é"}).Draw(w.rt, "text")
}

func (w *yamlWriter) flow(v interface{}) string {
	switch t := v.(type) {
	case string:
		return w.scalar(t)
	case kit.O:
		parts := []string{}
		for _, kv := range w.order(t) {
			parts = append(parts, w.scalar(kv.K)+": "+w.flow(kv.V))
		}
		return "{" + strings.Join(parts, ", ") + "}"
	case kit.L:
		parts := []string{}
		for _, e := range t {
			parts = append(parts, w.flow(e))
		}
		return "[" + strings.Join(parts, ", ") + "]"
	case []string:
		return w.flow(listOf(t))
	case bool:
		if t {
			return rapid.SampledFrom([]string{"true", "True", "TRUE", "yes", "on"}).Draw(w.rt, "true")
		}
		return rapid.SampledFrom([]string{"false", "False", "no", "off"}).Draw(w.rt, "false")
	case nil:
		return "null"
	}
	text := fmt.Sprint(v)
	if w.env && rapid.IntRange(0, 4).Draw(w.rt, "variable") == 0 {
		return w.variable(text, true)
	}
	return text
}

// lines writes a value in block style; the first line has no indentation.
func (w *yamlWriter) lines(v interface{}, indent string) string {
	switch t := v.(type) {
	case kit.O:
		if len(t) > 0 && rapid.IntRange(0, 5).Draw(w.rt, "flow") > 0 {
			text := ""
			for i, kv := range w.order(t) {
				if i > 0 {
					text += "\n" + indent
				}
				key := w.scalar(kv.K)
				if nested(kv.V) {
					text += key + ":" + w.comment() + "\n" + indent + "  " + w.lines(kv.V, indent+"  ")
				} else {
					text += key + ": " + w.flow(kv.V) + w.comment()
				}
			}
			return text
		}
	case kit.L:
		if len(t) > 0 && rapid.IntRange(0, 5).Draw(w.rt, "flow") > 0 {
			text := ""
			for i, e := range t {
				if i > 0 {
					text += "\n" + indent
				}
				text += "- " + w.lines(e, indent+"  ")
			}
			return text
		}
	}
	return w.flow(v)
}

func nested(v interface{}) bool {
	switch t := v.(type) {
	case kit.O:
		return len(t) > 0
	case kit.L:
		return len(t) > 0
	}
	return false
}

func (w *yamlWriter) document(cfg kit.O) string {
	text := ""
	if rapid.IntRange(0, 3).Draw(w.rt, "start") == 0 {
		text = "---\n"
	}
	if w.block {
		text += w.lines(cfg, "") + "\n"
	} else {
		text += w.flow(cfg) + "\n"
	}
	return text
}
