package checks

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"math/big"
	"regexp"
	"strings"
	"testing"
	"unicode/utf8"

	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/korean"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"
	"golang.org/x/text/transform"
	"pgregory.net/rapid"
	"rodbverif/kit"
)

func parseAll(t *rapid.T, conf kit.O, values []string, check func(i int, value string, got interface{}, err error)) {
	rig := kit.MustStart(t, kit.O{{"parsers", kit.L{conf}}}, nil)
	defer rig.Close()
	name := conf.Get("name").(string)
	p, ok := rig.Parsers[name]
	if !ok {
		t.Fatalf("parser %q is missing", name)
	}
	for i, v := range values {
		got, err := p.Parse(v)
		check(i, v, got, err)
	}
}

func clippedText(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func stripRunes(s, ignored string) string {
	var b strings.Builder
	for _, r := range s {
		if !strings.ContainsRune(ignored, r) {
			b.WriteRune(r)
		}
	}
	return b.String()
}

var ignoredSets = []string{"", ",", " ", "$,", " \u00a0", "é€", "_'", ",.", "-", "1", "円,"}

// Scatters the ignored characters (and sometimes noise) over a text.
func decorate(t *rapid.T, s, ignored string, noise bool) string {
	runes := []rune(ignored)
	if len(runes) == 0 && !noise {
		return s
	}
	var b strings.Builder
	put := func() {
		if len(runes) > 0 && rapid.IntRange(0, 3).Draw(t, "put") == 0 {
			b.WriteRune(rapid.SampledFrom(runes).Draw(t, "ign"))
		}
	}
	for _, r := range s {
		put()
		b.WriteRune(r)
	}
	put()
	out := b.String()
	if noise {
		at := rapid.IntRange(0, len(out)).Draw(t, "at")
		for at > 0 && at < len(out) && !utf8.RuneStart(out[at]) {
			at--
		}
		out = out[:at] + rapid.SampledFrom([]string{" ", "x", "-", "+", ".", ",", "e", "1", "٣", "_", "0x", "\n", "é"}).Draw(t, "noise") + out[at:]
	}
	return out
}

var integerSyntax = regexp.MustCompile(`^[+-]?[0-9]+$`)
var floatSyntax = regexp.MustCompile(`^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?$`)
var hopelessNumber = regexp.MustCompile(`[^0-9a-zA-Z+\-._]|^[+-]?$|^[a-dA-Dj-lJ-Lo-zO-Z]|[+-].*[+-].*[+-]|\..*\.`)

func TestC06(t *testing.T) {
	c := kit.Begin(t, "C06", "A case is one parser configuration with a sequence of 1-12 values, converted through the parser rodb builds from it. Non-trivial: at least one value is accepted and the configuration or the value is not the default plain form; distinct by configuration and values.")

	c.Prop("integer", 1500, 40000, func(rt *rapid.T, k *kit.Case) {
		ignored := rapid.SampledFrom(ignoredSets).Draw(rt, "ignored")
		values := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string {
			switch rapid.IntRange(0, 5).Draw(t, "kind") {
			case 0:
				return kit.ShortTexts().Draw(t, "text")
			case 1: // around the limits of 64 bits
				n := new(big.Int).Lsh(big.NewInt(1), uint(rapid.SampledFrom([]int{31, 32, 53, 62, 63, 64}).Draw(t, "bits")))
				n.Add(n, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "delta"))))
				if rapid.Bool().Draw(t, "negative") {
					n.Neg(n)
				}
				return decorate(t, n.String(), ignored, false)
			default:
				return decorate(t, fmt.Sprint(kit.Integers().Draw(t, "n")), ignored, rapid.IntRange(0, 4).Draw(t, "noisy") == 0)
			}
		}), 1, 12).Draw(rt, "values")
		conf := kit.O{{"name", "p"}, {"type", "integer"}, {"ignoreCharacters", ignored}}
		accepted := 0
		parseAll(rt, conf, values, func(i int, v string, got interface{}, err error) {
			text := stripRunes(v, ignored)
			want, ok := new(big.Int), false
			if integerSyntax.MatchString(text) {
				want.SetString(strings.TrimPrefix(text, "+"), 10)
				ok = want.IsInt64()
			}
			if !ok {
				if err == nil {
					rt.Fatalf("integer parser (ignoring %q) accepts %q as %v", ignored, v, kit.Show(got))
				}
				return
			}
			accepted++
			if err != nil {
				rt.Fatalf("integer parser (ignoring %q) rejects %q: %v", ignored, v, err)
			}
			if got != want.Int64() {
				rt.Fatalf("integer parser (ignoring %q) converts %q to %v instead of %v", ignored, v, kit.Show(got), want)
			}
		})
		k.LabelIf(ignored != "", "ignored characters")
		k.LabelIf(accepted < len(values), "some rejected")
		if accepted > 0 {
			k.Nontrivial(ignored, values)
			k.Sample(fmt.Sprintf("ignoreCharacters %q, values %q", ignored, values))
		}
	})

	c.Prop("float", 1500, 40000, func(rt *rapid.T, k *kit.Case) {
		ignored := rapid.SampledFrom(ignoredSets).Draw(rt, "ignored")
		separator := rapid.SampledFrom([]string{".", ",", "·", "<>", "'", ";", "e"}).Draw(rt, "separator")
		values := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) string {
			if rapid.IntRange(0, 6).Draw(t, "kind") == 0 {
				return kit.ShortTexts().Draw(t, "text")
			}
			f := kit.Floats().Draw(t, "f")
			format := rapid.SampledFrom([]string{"%v", "%f", "%e", "%.20f", "%.0f", "%.3f"}).Draw(t, "format")
			s := strings.ReplaceAll(fmt.Sprintf(format, f), ".", separator)
			return decorate(t, s, ignored, rapid.IntRange(0, 4).Draw(t, "noisy") == 0)
		}), 1, 12).Draw(rt, "values")
		conf := kit.O{{"name", "p"}, {"type", "float"}, {"decimalSeparator", separator}, {"ignoreCharacters", ignored}}
		accepted := 0
		parseAll(rt, conf, values, func(i int, v string, got interface{}, err error) {
			text := stripRunes(v, ignored)
			if separator != "." {
				if strings.Contains(text, ".") {
					return // whether "." is accepted besides the separator is not specified
				}
				text = strings.ReplaceAll(text, separator, ".")
			}
			if !floatSyntax.MatchString(text) {
				if hopelessNumber.MatchString(text) && err == nil {
					rt.Fatalf("float parser (ignoring %q, separator %q) accepts %q as %v", ignored, separator, v, kit.Show(got))
				}
				return
			}
			exact, ok := new(big.Rat).SetString(strings.TrimPrefix(text, "+"))
			if !ok {
				return
			}
			want, _ := exact.Float64()
			if math.IsInf(want, 0) {
				if err == nil {
					rt.Fatalf("float parser accepts %q, which is out of range, as %v", v, kit.Show(got))
				}
				return
			}
			accepted++
			if err != nil {
				rt.Fatalf("float parser (ignoring %q, separator %q) rejects %q: %v", ignored, separator, v, err)
			}
			if f, isFloat := got.(float64); !isFloat || f != want {
				rt.Fatalf("float parser (ignoring %q, separator %q) converts %q to %v instead of %v", ignored, separator, v, kit.Show(got), want)
			}
		})
		k.LabelIf(separator != ".", "other separator")
		if accepted > 0 {
			k.Nontrivial(ignored, separator, values)
			k.Sample(fmt.Sprintf("ignoreCharacters %q, decimalSeparator %q, values %q", ignored, separator, values))
		}
	})

	c.Prop("boolean", 800, 15000, func(rt *rapid.T, k *kit.Case) {
		words := rapid.SliceOfNDistinct(kit.ShortTexts(), 2, 7, rapid.ID[string]).Draw(rt, "words")
		cut := rapid.IntRange(1, len(words)-1).Draw(rt, "cut")
		trues, falses := words[:cut], words[cut:]
		values := rapid.SliceOfN(rapid.OneOf(rapid.SampledFrom(words), kit.ShortTexts(), rapid.Custom(func(t *rapid.T) string {
			w := rapid.SampledFrom(words).Draw(t, "w")
			return rapid.SampledFrom([]string{w + " ", " " + w, strings.ToUpper(w), w + w}).Draw(t, "near")
		})), 1, 12).Draw(rt, "values")
		in := func(s string, l []string) bool {
			for _, x := range l {
				if x == s {
					return true
				}
			}
			return false
		}
		both := 0
		parseAll(rt, kit.O{{"name", "p"}, {"type", "boolean"}, {"trueValues", trues}, {"falseValues", falses}}, values, func(i int, v string, got interface{}, err error) {
			switch {
			case in(v, trues):
				both |= 1
				if err != nil || got != true {
					rt.Fatalf("boolean parser (true %q, false %q) converts %q to %v, %v", trues, falses, v, kit.Show(got), err)
				}
			case in(v, falses):
				both |= 2
				if err != nil || got != false {
					rt.Fatalf("boolean parser (true %q, false %q) converts %q to %v, %v", trues, falses, v, kit.Show(got), err)
				}
			default:
				if err == nil {
					rt.Fatalf("boolean parser (true %q, false %q) accepts %q as %v", trues, falses, v, kit.Show(got))
				}
			}
		})
		if both != 0 {
			k.Nontrivial(trues, falses, values)
			k.Sample(fmt.Sprintf("trueValues %q, falseValues %q, values %q", trues, falses, values))
		}
	})

	charsets := []struct {
		name string
		enc  encoding.Encoding
		text string
	}{
		{"ISO-8859-1", charmap.ISO8859_1, "aé ÿÀ§\n"},
		{"windows-1252", charmap.Windows1252, "aé€“”…Ÿ"},
		{"ISO-8859-15", charmap.ISO8859_15, "a€éŒ"},
		{"windows-1251", charmap.Windows1251, "aпривет№"},
		{"KOI8-R", charmap.KOI8R, "aпривет"},
		{"Shift_JIS", japanese.ShiftJIS, "aあ界ｱ\\~表"},
		{"EUC-JP", japanese.EUCJP, "aあ界ｱ"},
		{"ISO-2022-JP", japanese.ISO2022JP, "aあ界日本b"},
		{"GBK", simplifiedchinese.GBK, "a中文。"},
		{"gb18030", simplifiedchinese.GB18030, "a中文😀"},
		{"Big5", traditionalchinese.Big5, "a中文許"},
		{"EUC-KR", korean.EUCKR, "a한국어"},
		{"", nil, "aé😀"},
	}
	c.Prop("string", 1500, 30000, func(rt *rapid.T, k *kit.Case) {
		cs := charsets[rapid.IntRange(0, len(charsets)-1).Draw(rt, "charset")]
		type item struct {
			raw  string
			want string
			err  bool
			text bool
		}
		var items []item
		n := rapid.IntRange(1, 8).Draw(rt, "n")
		multi := false
		for i := 0; i < n; i++ {
			text := rapid.StringOfN(rapid.SampledFrom([]rune(cs.text)), 0, 8, -1).Draw(rt, "text")
			if rapid.IntRange(0, 9).Draw(rt, "long") == 0 {
				text = strings.Repeat(text, rapid.SampledFrom([]int{40, 300, 1200, 9000, 40000}).Draw(rt, "times"))
			}
			if cs.enc == nil {
				items = append(items, item{text, text, false, true})
				continue
			}
			raw, err := cs.enc.NewEncoder().String(text)
			if err != nil {
				kit.Harness("%v cannot encode %q: %v", cs.name, text, err)
			}
			valid := true
			switch rapid.IntRange(0, 4).Draw(rt, "damage") {
			case 0: // truncated: the result is whatever a new decoder says
				if len(raw) > 0 {
					raw = raw[:len(raw)-rapid.IntRange(1, min(len(raw), 4)).Draw(rt, "cut")]
					valid = false
				}
			case 1:
				raw += string([]byte{rapid.Byte().Draw(rt, "byte")})
				valid = false
			}
			decoded, err := io.ReadAll(transform.NewReader(bytes.NewReader([]byte(raw)), cs.enc.NewDecoder()))
			if valid && (err != nil || string(decoded) != text) {
				kit.Harness("%v does not round-trip %q", cs.name, text)
			}
			multi = multi || len(raw) != len(decoded)
			items = append(items, item{raw, string(decoded), err != nil, valid})
		}
		conf := kit.O{{"name", "p"}, {"type", "string"}}
		if cs.name != "" {
			conf = append(conf, kit.KV{K: "convertFromCharset", V: cs.name})
		}
		raws := make([]string, len(items))
		for i := range items {
			raws[i] = items[i].raw
		}
		parseAll(rt, conf, raws, func(i int, v string, got interface{}, err error) {
			w := items[i]
			if w.err {
				if err == nil {
					rt.Fatalf("value %d: string parser (%v) accepts %q as %v", i, cs.name, v, kit.Show(got))
				}
				return
			}
			if err != nil || got != w.want {
				rt.Fatalf("value %d: string parser (%v) converts %q to %v, %v instead of %q", i, cs.name, v, kit.Show(got), err, w.want)
			}
		})
		k.Label("charset " + cs.name)
		if multi || cs.enc == nil {
			k.Nontrivial(cs.name, raws)
			k.Sample(fmt.Sprintf("charset %q, bytes %q", cs.name, raws))
		}
	})

	// The items of a split value are known by construction: they never contain the delimiter.
	delims := []struct {
		delimiter string
		regexp    bool
		alphabet  string   // of the items
		matches   []string // what can stand between the items
	}{
		{",", false, "ab c;é", []string{","}},
		{", ", false, "abc;", []string{", "}},
		{"::", false, "ab;é", []string{"::"}},
		{"|", false, "a.b*", []string{"|"}},
		{".", false, "ab,", []string{"."}},
		{"界", false, "aあé", []string{"界"}},
		{"a", false, "AbB", []string{"a"}},
		{"[,;]", true, "ab .", []string{",", ";"}},
		{"\\s+", true, "abé,", []string{" ", "\t", "  \n"}},
		{",\\s*", true, "ab", []string{",", ", ", ",   "}},
		{"(x|yy)", true, "abz", []string{"x", "yy"}},
		{"\\$", true, "ab.", []string{"$"}},
		{"[0-9]+-", true, "ab", []string{"1-", "42-"}},
	}
	c.Prop("split", 1200, 25000, func(rt *rapid.T, k *kit.Case) {
		d := delims[rapid.IntRange(0, len(delims)-1).Draw(rt, "delimiter")]
		sub := rapid.SampledFrom([]string{"string", "integer", "float", "boolean", "json", "inner"}).Draw(rt, "sub")
		if sub != "string" && sub != "inner" && strings.Contains(d.delimiter, "0-9") {
			sub = "string"
		}
		n := rapid.IntRange(1, 6).Draw(rt, "items")
		shortest := 0
		if strings.HasSuffix(d.delimiter, "\\s+") { // two delimiters in a row are one
			shortest = 1
		}
		var b strings.Builder
		want := []interface{}{}
		bad := false
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(rapid.SampledFrom(d.matches).Draw(rt, "match"))
			}
			var text string
			switch sub {
			case "string":
				text = rapid.StringOfN(rapid.SampledFrom([]rune(d.alphabet)), shortest, 5, -1).Draw(rt, "item")
				want = append(want, text)
			case "inner": // another split parser, on "/"
				m := rapid.IntRange(1, 3).Draw(rt, "innerItems")
				parts := []string{}
				inner := []interface{}{}
				for j := 0; j < m; j++ {
					p := rapid.StringOfN(rapid.SampledFrom([]rune(d.alphabet)), shortest, 3, -1).Draw(rt, "item")
					parts = append(parts, p)
					inner = append(inner, p)
				}
				text = strings.Join(parts, "/")
				want = append(want, inner)
			case "integer":
				v := kit.Integers().Draw(rt, "n")
				text = fmt.Sprint(v)
				want = append(want, v)
			case "float":
				v := rapid.IntRange(-99, 99).Draw(rt, "n")
				text = fmt.Sprint(v)
				want = append(want, float64(v))
			case "boolean":
				v := rapid.Bool().Draw(rt, "b")
				text = map[bool]string{true: "1", false: "0"}[v]
				want = append(want, v)
			case "json":
				v := rapid.IntRange(-99, 99).Draw(rt, "n")
				text = fmt.Sprintf("%v", v)
				want = append(want, float64(v))
			}
			if sub != "string" && sub != "inner" && rapid.IntRange(0, 12).Draw(rt, "bad") == 0 {
				text = "?" // no parser accepts it
				bad = true
			}
			b.WriteString(text)
		}
		conf := kit.O{{"name", "p"}, {"type", "split"}, {"delimiter", d.delimiter}, {"parser", sub}}
		if d.regexp || rapid.Bool().Draw(rt, "explicit") {
			conf = append(conf, kit.KV{K: "delimiterIsRegexp", V: d.regexp})
		}
		inner := kit.O{{"name", "inner"}, {"type", "split"}, {"delimiter", "/"}, {"parser", "string"}}
		rig := kit.MustStart(rt, kit.O{{"parsers", kit.L{conf, inner}}}, nil)
		defer rig.Close()
		got, err := rig.Parsers["p"].Parse(b.String())
		if bad {
			if err == nil {
				rt.Fatalf("split parser accepts %q, in which an item is invalid, as %v", b.String(), kit.Show(got))
			}
		} else if err != nil || !kit.SameValue(got, want) {
			rt.Fatalf("split parser (%q, regexp %v, items %v) converts %q to %v, %v instead of %v", d.delimiter, d.regexp, sub, b.String(), kit.Show(got), err, kit.Show(want))
		}
		k.Label("items " + sub)
		k.LabelIf(d.regexp, "regexp delimiter")
		if n > 1 && !bad {
			k.Nontrivial(d.delimiter, sub, b.String())
			k.Sample(fmt.Sprintf("delimiter %q (regexp %v), parser %v, value %q", d.delimiter, d.regexp, sub, b.String()))
		}
	})

	// Long values, and many of the configured texts.
	c.Prop("long values", 60, 900, func(rt *rapid.T, k *kit.Case) {
		n := rapid.SampledFrom([]int{70, 300, 1100, 5000, 17000, 70000}).Draw(rt, "n") + rapid.IntRange(-3, 3).Draw(rt, "more")
		accept := func(conf kit.O, value string, want interface{}) {
			parseAll(rt, conf, []string{value}, func(i int, v string, got interface{}, err error) {
				if err != nil || !kit.SameValue(got, want) {
					rt.Fatalf("parser %v: a value of %d bytes (%v...) gives %v, %v", kit.YAML(conf), len(v), v[:min(len(v), 40)], clippedText(kit.Show(got)), err)
				}
			})
		}
		what := rapid.SampledFrom([]string{"integer", "float", "boolean", "split", "split longer", "json", "json string", "json nested"}).Draw(rt, "what")
		switch what {
		case "integer":
			accept(kit.O{{"name", "p"}, {"type", "integer"}, {"ignoreCharacters", " ,"}}, "-"+strings.Repeat(", ", n)+"12"+strings.Repeat(" ", n)+"3", int64(-123))
			accept(kit.O{{"name", "p"}, {"type", "integer"}}, strings.Repeat("0", n)+"12", int64(12))
		case "float":
			accept(kit.O{{"name", "p"}, {"type", "float"}, {"decimalSeparator", ","}, {"ignoreCharacters", "_"}}, "1"+strings.Repeat("_", n)+"2,25"+strings.Repeat("0", n), 12.25)
		case "boolean":
			trues, falses := []string{}, []string{}
			for i := 0; i < min(n, 6000); i++ {
				if i%3 == 0 {
					trues = append(trues, fmt.Sprint("v", i))
				} else {
					falses = append(falses, fmt.Sprint("v", i))
				}
			}
			falses = append(falses, strings.Repeat("f", n))
			conf := kit.O{{"name", "p"}, {"type", "boolean"}, {"trueValues", trues}, {"falseValues", falses}}
			values := append(append([]string{}, trues...), falses...)
			parseAll(rt, conf, values, func(i int, v string, got interface{}, err error) {
				if err != nil || got != (i < len(trues)) {
					rt.Fatalf("boolean parser of %d true and %d false values: %q gives %v, %v", len(trues), len(falses), v[:min(len(v), 40)], kit.Show(got), err)
				}
			})
			parseAll(rt, conf, []string{fmt.Sprint("v", min(n, 6000)), strings.Repeat("f", n+1), strings.Repeat("f", n-1)}, func(i int, v string, got interface{}, err error) {
				if err == nil {
					rt.Fatalf("boolean parser of %d true and %d false values: %q is accepted as %v", len(trues), len(falses), v[:min(len(v), 40)], kit.Show(got))
				}
			})
		case "split", "split longer":
			parts, want := make([]string, n), make([]interface{}, n)
			for i := range parts {
				parts[i] = fmt.Sprint(i % 1000)
				want[i] = int64(i % 1000)
			}
			delimiter, pattern, isRegexp := ",", ",", false
			if what == "split longer" {
				delimiter, pattern, isRegexp = ", ;", "[,; ]+", true
			}
			accept(kit.O{{"name", "p"}, {"type", "split"}, {"delimiter", pattern}, {"delimiterIsRegexp", isRegexp}, {"parser", "integer"}}, strings.Join(parts, delimiter), want)
		case "json":
			want := make([]interface{}, n)
			for i := range want {
				want[i] = map[string]interface{}{"n": float64(i)}
			}
			accept(kit.O{{"name", "p"}, {"type", "json"}}, kit.JSONText(rt, map[string]interface{}{"l": want[:min(n, 3000)]}), map[string]interface{}{"l": want[:min(n, 3000)]})
		case "json string":
			long := strings.Repeat("é\"x", n)
			accept(kit.O{{"name", "p"}, {"type", "json"}}, kit.JSONText(rt, []interface{}{long}), []interface{}{long})
		case "json nested":
			depth := min(n, 2000)
			var want interface{} = "deep"
			for i := 0; i < depth; i++ {
				want = []interface{}{want}
			}
			accept(kit.O{{"name", "p"}, {"type", "json"}}, strings.Repeat("[", depth)+"\"deep\""+strings.Repeat("]", depth), want)
		}
		k.Label(what)
		k.Nontrivial(what, n)
	})

	c.Prop("json", 800, 15000, func(rt *rapid.T, k *kit.Case) {
		want := kit.JSONValue(3).Draw(rt, "value")
		text := kit.JSONText(rt, want)
		damage := rapid.IntRange(0, 5).Draw(rt, "damage")
		bad := true
		switch damage {
		case 0:
			text += rapid.SampledFrom([]string{" x", "{}", ",", "]", "1 1", "\"\""}).Draw(rt, "tail")
		case 1:
			if _, isNumber := want.(float64); !isNumber && len(text) > 1 {
				text = strings.TrimRight(text, " \n\r\t")
				text = text[:len(text)-1]
			} else {
				text = ""
			}
		default:
			bad = false
		}
		parseAll(rt, kit.O{{"name", "p"}, {"type", "json"}}, []string{text}, func(i int, v string, got interface{}, err error) {
			if bad {
				if err == nil {
					rt.Fatalf("json parser accepts %q as %v", v, kit.Show(got))
				}
			} else if err != nil || !kit.SameValue(got, want) {
				rt.Fatalf("json parser converts %q to %v, %v instead of %v", v, kit.Show(got), err, kit.Show(want))
			}
		})
		if !bad && len(text) > 2 {
			k.Nontrivial(text)
			k.Sample(text)
		}
	})
}
