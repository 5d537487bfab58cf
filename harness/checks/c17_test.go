package checks

import (
	"fmt"
	"net/url"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"pgregory.net/rapid"
	"rodbverif/kit"
)

// Whether a placeholder matches a text: what is documented for its parser, or
// unspecified (numbers in other notations, or out of range).
type verdict int

const (
	no verdict = iota
	maybe
	yes
)

type urlParser struct {
	name, typ         string
	conf              kit.O
	ignore, separator string
	trues, falses     []string
	convert           func(string) (string, bool) // charset
}

func (p *urlParser) accepts(text string) (interface{}, verdict) {
	switch p.typ {
	case kit.String:
		if text == "" {
			return nil, no
		}
		if p.convert != nil {
			s, ok := p.convert(text)
			if !ok {
				return nil, maybe
			}
			return s, yes
		}
		return text, yes
	case kit.Boolean:
		for _, v := range p.trues {
			if v == text {
				return true, yes
			}
		}
		for _, v := range p.falses {
			if v == text {
				return false, yes
			}
		}
		return nil, no
	}
	// Numbers
	stripped := ""
	for _, r := range text {
		if !strings.ContainsRune(p.ignore, r) {
			stripped += string(r)
		}
	}
	digits := func(s string) bool { return s != "" && strings.Trim(s, "0123456789") == "" }
	unsigned := strings.TrimPrefix(stripped, "-")
	if p.typ == kit.Integer {
		if v, err := strconv.ParseInt(stripped, 10, 64); err == nil && digits(unsigned) {
			return v, yes
		}
	} else {
		if strings.Contains(stripped, p.separator) && !strings.Contains(text, p.separator) {
			return nil, maybe // ignored characters inside of the separator
		}
		parts := strings.Split(unsigned, p.separator)
		if len(parts) <= 2 && digits(parts[0]) && digits(parts[len(parts)-1]) {
			if v, err := strconv.ParseFloat(strings.Replace(stripped, p.separator, ".", 1), 64); err == nil {
				return v, yes
			}
		}
		if _, err := strconv.ParseFloat(strings.ReplaceAll(stripped, p.separator, "."), 64); err == nil {
			return nil, maybe // exponents, ".5", "Inf"...
		}
	}
	if strings.Trim(stripped, "0123456789-+"+p.separator) == "" {
		return nil, maybe
	}
	return nil, no
}

var urlParsers = []*urlParser{
	{name: "string", typ: kit.String},
	{name: "integer", typ: kit.Integer},
	{name: "float", typ: kit.Float, separator: "."},
	{name: "boolean", typ: kit.Boolean, trues: []string{"true", "1", "TRUE"}, falses: []string{"false", "0", "FALSE"}},
	{name: "spaced", typ: kit.Integer, ignore: " _", conf: kit.O{{"name", "spaced"}, {"type", "integer"}, {"ignoreCharacters", " _"}}},
	{name: "marked", typ: kit.Integer, ignore: "^]\\[.,$+z", conf: kit.O{{"name", "marked"}, {"type", "integer"}, {"ignoreCharacters", "^]\\[.,$+z"}}},
	{name: "ranged", typ: kit.Integer, ignore: "+:/", conf: kit.O{{"name", "ranged"}, {"type", "integer"}, {"ignoreCharacters", "+:/"}}},
	{name: "dashes", typ: kit.Integer, ignore: ",-+", conf: kit.O{{"name", "dashes"}, {"type", "integer"}, {"ignoreCharacters", ",-+"}}},
	{name: "date", typ: kit.Float, ignore: " -_", separator: "::", conf: kit.O{{"name", "date"}, {"type", "float"}, {"decimalSeparator", "::"}, {"ignoreCharacters", " -_"}}},
	{name: "comma", typ: kit.Float, ignore: "' ", separator: ",", conf: kit.O{{"name", "comma"}, {"type", "float"}, {"decimalSeparator", ","}, {"ignoreCharacters", "' "}}},
	{name: "star", typ: kit.Float, separator: "*", conf: kit.O{{"name", "star"}, {"type", "float"}, {"decimalSeparator", "*"}}},
	{name: "yesno", typ: kit.Boolean, trues: []string{"yes", "y", "y+", "."}, falses: []string{"no", "(n)", "n|"}, conf: kit.O{{"name", "yesno"}, {"type", "boolean"}, {"trueValues", kit.L{"yes", "y", "y+", "."}}, {"falseValues", kit.L{"no", "(n)", "n|"}}}},
	{name: "latin1", typ: kit.String, convert: func(s string) (string, bool) {
		r := make([]rune, 0, len(s))
		for i := 0; i < len(s); i++ {
			r = append(r, rune(s[i]))
		}
		return string(r), true
	}, conf: kit.O{{"name", "latin1"}, {"type", "string"}, {"convertFromCharset", "ISO-8859-1"}}},
}

func urlParserNamed(name string) *urlParser {
	for _, p := range urlParsers {
		if p.name == name {
			return p
		}
	}
	kit.Harness("no parser %v", name)
	return nil
}

// write gives a text that the parser reads as a value.
func (p *urlParser) write(rt *rapid.T, v interface{}) string {
	switch p.typ {
	case kit.String:
		if p.convert != nil {
			b := []byte{}
			for _, r := range v.(string) {
				if r > 255 {
					r = 'a'
				}
				b = append(b, byte(r))
			}
			return string(b)
		}
		return v.(string)
	case kit.Boolean:
		if v.(bool) {
			return rapid.SampledFrom(p.trues).Draw(rt, "true")
		}
		return rapid.SampledFrom(p.falses).Draw(rt, "false")
	case kit.Float:
		s := strconv.FormatFloat(v.(float64), 'f', -1, 64)
		return p.sprinkle(rt, strings.Replace(s, ".", p.separator, 1))
	}
	return p.sprinkle(rt, strconv.FormatInt(v.(int64), 10))
}

// sprinkle adds ignored characters.
func (p *urlParser) sprinkle(rt *rapid.T, s string) string {
	chars := []rune(p.ignore)
	if len(chars) == 0 {
		return s
	}
	for n := rapid.IntRange(0, 3).Draw(rt, "ignored"); n > 0; n-- {
		i := rapid.IntRange(0, len(s)).Draw(rt, "at")
		s = s[:i] + string(rapid.SampledFrom(chars).Draw(rt, "ignoredCharacter")) + s[i:]
	}
	return s
}

type pathPart struct {
	literal string
	param   *wParam
}

type wRoute struct {
	parts []pathPart
	out   *wOutput
}

func (r *wRoute) path() string {
	s := ""
	for _, p := range r.parts {
		if p.param != nil {
			s += "{" + p.param.name + "}"
		} else {
			s += p.literal
		}
	}
	return s
}

type binding struct {
	values  map[string]interface{}
	verdict verdict
}

// bindings lists all the ways in which a route matches a path.
func bindings(parts []pathPart, path string) []binding {
	if len(parts) == 0 {
		if path == "" {
			return []binding{{map[string]interface{}{}, yes}}
		}
		return nil
	}
	if parts[0].param == nil {
		if !strings.HasPrefix(path, parts[0].literal) {
			return nil
		}
		return bindings(parts[1:], path[len(parts[0].literal):])
	}
	list := []binding{}
	p := urlParserNamed(parts[0].param.parser)
	for i := 0; i <= len(path); i++ {
		v, verdict := p.accepts(path[:i])
		if verdict == no {
			continue
		}
		for _, b := range bindings(parts[1:], path[i:]) {
			if verdict < b.verdict {
				b.verdict = verdict
			}
			b.values[parts[0].param.name] = v
			list = append(list, b)
		}
	}
	return list
}

func drawURLText(rt *rapid.T) string {
	return rapid.SampledFrom([]string{"a", "b", "ab", "a b", "a/b", "/", ".", "é", "a.b", "1", "-1", "x-y", "x", "%", "%41", "?", "#", "a?b=c", "&", "+", "\n", "a\nb", "あ", "{p0}", "json", ";", "..", "true", " "}).Draw(rt, "text")
}

// escapePath percent-encodes a path; more than necessary sometimes.
func escapePath(rt *rapid.T, path string) string {
	slashes := rapid.IntRange(0, 5).Draw(rt, "encodeSlashes") == 0
	all := rapid.IntRange(0, 5).Draw(rt, "encodeAll") == 0
	var b strings.Builder
	for i := 0; i < len(path); i++ {
		c := path[i]
		plain := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("-._~$+,;=:@&", c) >= 0
		if i == 0 && c == '/' || c == '/' && !slashes || plain && !all {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "%%%02X", c)
		}
	}
	return b.String()
}

func TestC17(t *testing.T) {
	c := kit.Begin(t, "C17", "A case is one generated service (1-5 routes made of literals, with characters that are special in regular expressions, and placeholders of all kinds of parsers, over outputs whose records name them) and several requests: paths of a route with values written for its parsers, such paths with a change, other methods, and query parameters of the same names. The answer has to be the one of the first route that matches, with one of the possible bindings of its placeholders. Non-trivial: the path matches a route with placeholders and finds a record, or differs from such a path by one change; distinct by configuration and request.")

	literals := []string{"/", "/a", "/b", "/items", "/a.b", "/a+", "/(x)", "/[ab]", "/a*", "/$", "/^", "/x|y", "/a?b", "/\\d", "/é", "/a b", "/%41", "/items/list", "/A", "/.", "//", "/a\nb", "/\\", "/\\Qa"}
	separators := []string{"/", "-", ".", "/x/", ".json", "/edit", "+", "", "_", ":", "|", "/a", ")", "*", "?"}

	c.Prop("routes", 2600, 80000, func(rt *rapid.T, k *kit.Case) {
		w := &world{}
		// Outputs: each one has its own input, whose records say which it is.
		for i := rapid.IntRange(1, 3).Draw(rt, "outputs"); i > 0; i-- {
			n := len(w.outputs)
			d := &kit.Dataset{Kind: rapid.SampledFrom([]string{"csv", "csv", "xml"}).Draw(rt, "kind"), Cols: []kit.Col{{Name: "src", Type: kit.String}}}
			out := &wOutput{name: fmt.Sprintf("out%d", n), input: fmt.Sprintf("in%d", n), def: 100, array: rapid.Bool().Draw(rt, "array")}
			params := kit.O{}
			pools := [][]interface{}{}
			for j := rapid.IntRange(1, 3).Draw(rt, "params"); j > 0; j-- {
				p := rapid.SampledFrom(urlParsers).Draw(rt, "parser")
				param := wParam{name: fmt.Sprintf("p%d", len(out.params)), index: "default", property: fmt.Sprintf("c%d", len(out.params)), parser: p.name}
				if len(out.params) == 1 && rapid.Bool().Draw(rt, "otherName") {
					param.name = "a name-1.2"
				}
				if p.conf != nil {
					have := false
					for _, q := range w.parsers {
						have = have || q.(kit.O)[0].V == p.name
					}
					if !have {
						w.parsers = append(w.parsers, p.conf)
					}
				}
				out.params = append(out.params, param)
				params = append(params, kit.KV{K: param.name, V: kit.O{{"property", param.property}, {"parser", p.name}}})
				d.Cols = append(d.Cols, kit.Col{Name: param.property, Type: p.typ})
				texts := rapid.Custom(drawURLText)
				if p.convert != nil {
					texts = rapid.SampledFrom([]string{"a", "é", "ÿ b", "x"})
				}
				pools = append(pools, rapid.SliceOfN(kit.Values(p.typ, texts), 1, 4).Draw(rt, "pool"))
			}
			for j := rapid.IntRange(1, 10).Draw(rt, "rows"); j > 0; j-- {
				row := kit.Row{"src": fmt.Sprintf("%v#%d", out.name, j)}
				for l := range pools {
					row[d.Cols[l+1].Name] = rapid.SampledFrom(pools[l]).Draw(rt, "v")
				}
				d.Rows = append(d.Rows, row)
			}
			conf, data := d.Render(rt, out.input, out.input+".data")
			w.inputs = append(w.inputs, &wInput{out.input, d, conf, data})
			typ := "jsonObject"
			if out.array {
				typ = "jsonArray"
			}
			out.conf = kit.O{{"name", out.name}, {"type", typ}, {"input", out.input}, {"parameters", params}}
			w.outputs = append(w.outputs, out)
		}
		// Routes
		routes := []*wRoute{}
		paths := map[string]bool{}
		list := kit.L{}
		for i := rapid.IntRange(1, 5).Draw(rt, "routes"); i > 0; i-- {
			r := &wRoute{out: rapid.SampledFrom(w.outputs).Draw(rt, "output")}
			r.parts = append(r.parts, pathPart{literal: rapid.SampledFrom(literals).Draw(rt, "start")})
			if len(routes) > 0 && rapid.IntRange(0, 3).Draw(rt, "same start") == 0 {
				r.parts[0] = routes[len(routes)-1].parts[0]
			}
			for _, j := range rapid.Permutation([]int{0, 1, 2}).Draw(rt, "placeholders") {
				if j >= len(r.out.params) || rapid.IntRange(0, 2).Draw(rt, "in the query") == 0 {
					continue
				}
				before := rapid.SampledFrom(separators).Draw(rt, "before")
				if last := r.parts[len(r.parts)-1]; before == "" && last.param != nil {
					before = "/"
				}
				r.parts = append(r.parts, pathPart{literal: before}, pathPart{param: &r.out.params[j]})
			}
			r.parts = append(r.parts, pathPart{literal: rapid.SampledFrom([]string{"", "", "/", ".json", "/end", "+", "$"}).Draw(rt, "end")})
			if rapid.IntRange(0, 2).Draw(rt, "instance") == 0 && len(routes) > 0 {
				// A path of another route, with some of its placeholders replaced by values.
				other := rapid.SampledFrom(routes).Draw(rt, "generic")
				row := rapid.SampledFrom(w.input(other.out.input).d.Rows).Draw(rt, "instanceRow")
				r = &wRoute{out: r.out}
				for _, part := range other.parts {
					if part.param != nil && (other.out != r.out || rapid.Bool().Draw(rt, "fill")) {
						part = pathPart{literal: urlParserNamed(part.param.parser).write(rt, row[part.param.property])}
						if !utf8.ValidString(part.literal) || strings.ContainsAny(part.literal, "{}") {
							part.literal = "a"
						}
					}
					r.parts = append(r.parts, part)
				}
				k.Label("route within another one")
			}
			if paths[r.path()] {
				continue
			}
			paths[r.path()] = true
			routes = append(routes, r)
			list = append(list, kit.O{{"path", r.path()}, {"output", r.out.name}})
		}
		conf := w.config()
		for i := range conf {
			if conf[i].K == "services" {
				conf[i].V = kit.L{kit.O{{"name", "http"}, {"type", "http"}, {"http", kit.O{{"listen", "127.0.0.1:0"}}}, {"routes", list}}}
			}
		}
		rig := kit.MustStart(rt, conf, w.files())
		defer rig.Close()

		for q := rapid.IntRange(2, 8).Draw(rt, "requests"); q > 0; q-- {
			r := rapid.SampledFrom(routes).Draw(rt, "route")
			row := rapid.SampledFrom(w.input(r.out.input).d.Rows).Draw(rt, "row")
			// The path.
			path := ""
			inPath := map[string]bool{}
			for _, part := range r.parts {
				if part.param == nil {
					path += part.literal
					continue
				}
				inPath[part.param.name] = true
				p := urlParserNamed(part.param.parser)
				if rapid.IntRange(0, 7).Draw(rt, "other text") == 0 {
					path += rapid.SampledFrom([]string{"", "abc", "1", "-5", "12 3", "+7", "1.5", "1e3", "99999999999999999999", "yes", "true", "a/b", "TRUE", "nope", "y", "--1", ".", "٣", "\xff", "NaN", "0x1"}).Draw(rt, "otherText")
				} else {
					path += p.write(rt, row[part.param.property])
				}
			}
			changed := true
			switch rapid.IntRange(0, 9).Draw(rt, "change") {
			case 0:
				path += rapid.SampledFrom([]string{"/", "x", "\n", ".", " "}).Draw(rt, "suffix")
			case 1:
				path = "/" + path
			case 2:
				i := rapid.IntRange(0, len(path)-1).Draw(rt, "dropped")
				path = path[:i] + path[i+1:]
			case 3:
				i := rapid.IntRange(0, len(path)-1).Draw(rt, "replaced")
				path = path[:i] + rapid.SampledFrom([]string{"a", "x", "0", "/", ".", "aa", "-"}).Draw(rt, "with") + path[i+1:]
			case 4:
				path = strings.ToUpper(path)
			case 5:
				path = rapid.SampledFrom(literals).Draw(rt, "elsewhere")
			default:
				changed = false
			}
			if !strings.HasPrefix(path, "/") {
				path = "/" + path
			}
			// The query.
			query := url.Values{}
			given := map[string]wantValue{}
			for _, p := range r.out.params {
				if inPath[p.name] {
					if rapid.IntRange(0, 3).Draw(rt, "overridden") == 0 {
						query.Set(p.name, "overridden")
					}
				} else if !r.out.array || rapid.Bool().Draw(rt, "inQuery") {
					query.Set(p.name, urlParserNamed(p.parser).write(rt, row[p.property]))
				}
			}
			// Of several values of a query parameter, the first one counts.
			for _, p := range r.out.params {
				if rapid.IntRange(0, 11).Draw(rt, "repeated") == 0 {
					if !query.Has(p.name) && rapid.Bool().Draw(rt, "emptyFirst") {
						query.Add(p.name, "")
					}
					query.Add(p.name, rapid.SampledFrom([]string{"", "1", "a", urlParserNamed(p.parser).write(rt, row[p.property])}).Draw(rt, "again"))
					query.Add(p.name, rapid.SampledFrom([]string{"", "1", "a"}).Draw(rt, "andAgain"))
					k.Label("repeated query parameter")
				}
			}
			target := escapePath(rt, path)
			if len(query) > 0 {
				target += "?" + query.Encode()
			}
			method := "GET"
			if rapid.IntRange(0, 14).Draw(rt, "otherMethod") == 0 {
				method = rapid.SampledFrom([]string{"POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "get", "PROPFIND"}).Draw(rt, "method")
			}
			resp := rig.Do("http", method, target, nil)
			if method != "GET" {
				if method == "HEAD" {
					if resp.Err != nil || resp.Status != 404 {
						rt.Fatalf("%v %v: %v", method, target, resp)
					}
				} else if _, err := answered(resp, 404); err != nil {
					rt.Fatalf("%v %v: %v", method, target, err)
				}
				k.Label("other method")
				continue
			}
			// What it has to answer.
			var problems []string
			satisfied, decided := false, false
			for _, route := range routes {
				all := bindings(route.parts, path)
				certain := false
				for _, b := range all {
					certain = certain || b.verdict == yes
				}
				for _, b := range all {
					if b.verdict == maybe {
						satisfied = true // not checked further
						continue
					}
					values := []wantValue{}
					for name, v := range b.values {
						values = append(values, wantValue{value: v, p: route.param(name)})
					}
					bad := false
					for _, p := range route.out.params {
						if _, bound := b.values[p.name]; bound {
							continue
						}
						text, present := query[p.name]
						if !present && route.out.array {
							continue
						}
						if !present {
							text = []string{""}
						}
						v, verdict := urlParserNamed(p.parser).accepts(text[0])
						if p.parser == "string" || p.parser == "latin1" { // accepts "" outside of paths
							verdict = yes
							if text[0] == "" {
								v = ""
							}
						}
						switch verdict {
						case maybe:
							satisfied = true
						case no:
							bad = true
						}
						values = append(values, wantValue{value: v, p: p})
					}
					if bad {
						_, err := answered(resp, 500)
						if err == nil {
							satisfied = true
						} else {
							problems = append(problems, err.Error())
						}
						continue
					}
					if err := w.check(resp, route.out, values); err == nil {
						satisfied = true
						if len(b.values) > 0 && len(w.rows(route.out, values)) > 0 {
							k.LabelIf(len(b.values) > 1, "several placeholders")
							k.Label("bound and found")
							k.Nontrivial(kit.YAML(conf), target)
							k.Sample(fmt.Sprintf("%v\nGET %v is answered by %q", kit.YAML(conf), target, route.path()))
						}
					} else {
						problems = append(problems, fmt.Sprintf("as %q with %v: %v", route.path(), kit.Show(b.values), err))
					}
				}
				if certain {
					decided = true
					break
				}
			}
			if !decided {
				if _, err := answered(resp, 404); err == nil {
					satisfied = true
				} else {
					problems = append(problems, "no route matches: "+err.Error())
				}
				if changed {
					k.Label("near miss")
					k.Nontrivial(kit.YAML(conf), target)
				}
			}
			if !satisfied {
				rt.Fatalf("GET %v (path %q): %v", target, path, strings.Join(problems, "; "))
			}
			_ = given
		}
	})

	// Long values in the path and in the query.
	c.Prop("long requests", 60, 1000, func(rt *rapid.T, k *kit.Case) {
		size := func() int {
			return rapid.SampledFrom([]int{1, 100, 250, 1020, 4090, 8180, 16000, 33000, 66000, 130000}).Draw(rt, "size") + rapid.IntRange(0, 20).Draw(rt, "more")
		}
		stem := rapid.SampledFrom([]string{"a", "ab/", "é", "x-y.", "% "}).Draw(rt, "stem")
		d := &kit.Dataset{Kind: "json", Cols: []kit.Col{{Name: "s", Type: kit.String}, {Name: "t", Type: kit.String}}}
		long := func(size int) string { return strings.Repeat(stem, size/len(stem)+1) }
		sizes := []int{size(), size(), size()}
		for _, a := range sizes {
			for _, b := range sizes {
				d.Rows = append(d.Rows, kit.Row{"s": long(a), "t": long(b)})
			}
		}
		w := &world{}
		conf, data := d.Render(rt, "in0", "in0.data")
		w.inputs = append(w.inputs, &wInput{"in0", d, conf, data})
		out := &wOutput{name: "out0", array: true, input: "in0", def: 2, max: 1000, limit: "limit", offset: "offset", path: "/out0",
			params: []wParam{{"p", "default", "s", "string"}, {"q", "default", "t", "string"}},
			conf:   kit.O{{"name", "out0"}, {"type", "jsonArray"}, {"input", "in0"}, {"limit", kit.O{{"default", 2}}}, {"parameters", kit.O{{"p", kit.O{{"property", "s"}}}, {"q", kit.O{{"property", "t"}}}}}}}
		w.outputs = append(w.outputs, out)
		prefix := rapid.SampledFrom([]string{"/l/", "/" + strings.Repeat("long", 300) + "/"}).Draw(rt, "prefix")
		cfg := w.config().With("services", kit.L{kit.O{{"name", "http"}, {"type", "http"}, {"http", kit.O{{"listen", "127.0.0.1:0"}}}, {"routes", kit.L{
			kit.O{{"path", prefix + "{p}/end"}, {"output", "out0"}}, kit.O{{"path", "/" + strings.Repeat("x", 5000)}, {"output", "out0"}}, kit.O{{"path", "/out0"}, {"output", "out0"}}}}}})
		rig := kit.MustStart(rt, cfg, w.files())
		defer rig.Close()
		ask := func(target string, values []wantValue, found bool) {
			resp := rig.Get(target)
			if !found {
				if _, err := answered(resp, 404); err != nil {
					rt.Fatalf("GET of %d bytes (%v...): %v", len(target), target[:min(len(target), 60)], clippedText(err.Error()))
				}
				return
			}
			if err := w.check(resp, out, values); err != nil {
				rt.Fatalf("GET of %d bytes (%v...), with values of %v bytes: %v", len(target), target[:min(len(target), 60)], sizes, clippedText(err.Error()))
			}
		}
		for i := 0; i < 5; i++ {
			p, q := long(rapid.SampledFrom(sizes).Draw(rt, "p")), long(rapid.SampledFrom(sizes).Draw(rt, "q"))
			if rapid.IntRange(0, 3).Draw(rt, "other") == 0 {
				q += "a"
			}
			values := []wantValue{{out.params[0], p}, {out.params[1], q}}
			switch i {
			case 0:
				ask(prefix+url.PathEscape(p)+"/end", values[:1], true)
				ask(prefix+url.PathEscape(p)+"/en", nil, false)
			case 1:
				ask("/out0?p="+url.QueryEscape(p), values[:1], true)
			case 2:
				ask("/"+strings.Repeat("x", 5000)+"?q="+url.QueryEscape(q)+"&p="+url.QueryEscape(p), values, true)
				ask("/"+strings.Repeat("x", 5001)+"?q="+url.QueryEscape(q), nil, false)
			case 3:
				ask("/out0?unknown="+url.QueryEscape(p)+"&q="+url.QueryEscape(q), values[1:], true)
			default:
				ask(escapePath(rt, prefix+p+"/end")+"?q="+url.QueryEscape(q), values, true)
			}
		}
		k.LabelIf(sizes[0] > 8000, "more than 8000 bytes")
		k.Nontrivial(stem, fmt.Sprint(sizes), prefix)
	})

	// Routes with dozens of placeholders.
	c.Prop("many placeholders", 60, 1500, func(rt *rapid.T, k *kit.Case) {
		n := rapid.IntRange(5, 30).Draw(rt, "placeholders")
		d := &kit.Dataset{Kind: "json"}
		out := &wOutput{name: "out0", array: rapid.Bool().Draw(rt, "array"), input: "in0", def: 100, max: 1000, limit: "limit", offset: "offset"}
		params := kit.O{}
		for i := 0; i < n; i++ {
			name := fmt.Sprint("c", i)
			d.Cols = append(d.Cols, kit.Col{Name: name, Type: kit.String})
			out.params = append(out.params, wParam{fmt.Sprint("p", i), "default", name, "string"})
			params = append(params, kit.KV{K: fmt.Sprint("p", i), V: kit.O{{"property", name}}})
		}
		base := kit.Row{}
		for i := 0; i < n; i++ {
			base[d.Cols[i].Name] = fmt.Sprint("v", i%rapid.SampledFrom([]int{2, 7, 100}).Draw(rt, "distinct"))
		}
		for i := rapid.IntRange(2, 8).Draw(rt, "rows"); i > 0; i-- {
			row := kit.Row{}
			for name, v := range base {
				row[name] = v
			}
			// Two of the values are exchanged, or one is another one.
			a, b := rapid.IntRange(0, n-1).Draw(rt, "a"), rapid.IntRange(0, n-1).Draw(rt, "b")
			row[d.Cols[a].Name], row[d.Cols[b].Name] = row[d.Cols[b].Name], row[d.Cols[a].Name]
			if rapid.IntRange(0, 3).Draw(rt, "another") == 0 {
				row[d.Cols[a].Name] = "w"
			}
			d.Rows = append(d.Rows, row)
		}
		conf, data := d.Render(rt, "in0", "in0.data")
		w := &world{inputs: []*wInput{{"in0", d, conf, data}}, outputs: []*wOutput{out}}
		kind := "jsonObject"
		if out.array {
			kind = "jsonArray"
		}
		out.conf = kit.O{{"name", "out0"}, {"type", kind}, {"input", "in0"}, {"parameters", params}}
		order := rapid.Permutation(out.params).Draw(rt, "order")
		inPath := n
		if rapid.Bool().Draw(rt, "some in the query") {
			inPath = rapid.IntRange(n/2, n).Draw(rt, "in the path")
		}
		separator := rapid.SampledFrom([]string{"/", "-", "/x/", ",", "."}).Draw(rt, "separator")
		route := []string{}
		for _, p := range order[:inPath] {
			route = append(route, "{"+p.name+"}")
		}
		cfg := w.config().With("services", kit.L{kit.O{{"name", "http"}, {"type", "http"}, {"http", kit.O{{"listen", "127.0.0.1:0"}}}, {"routes", kit.L{
			kit.O{{"path", "/m/" + strings.Join(route, separator)}, {"output", "out0"}}}}}})
		rig := kit.MustStart(rt, cfg, w.files())
		defer rig.Close()
		for q := rapid.IntRange(2, 5).Draw(rt, "requests"); q > 0; q-- {
			row := rapid.SampledFrom(d.Rows).Draw(rt, "row")
			values, path, query := []wantValue{}, []string{}, url.Values{}
			for i, p := range order {
				text := row[p.property].(string)
				if rapid.IntRange(0, 60).Draw(rt, "other") == 0 {
					text = "other"
				}
				if i < inPath {
					path = append(path, text)
				} else {
					query.Set(p.name, text)
				}
				values = append(values, wantValue{p, text})
			}
			target := "/m/" + strings.Join(path, separator) + "?" + query.Encode()
			if err := w.check(rig.Get(target), out, values); err != nil {
				rt.Fatalf("GET %v of the route %v: %v", target, strings.Join(route, separator), err)
			}
			if resp := rig.Get("/m/" + strings.Join(path[1:], separator)); resp.Status != 404 {
				rt.Fatalf("a value is missing, but the answer is %v", resp.Status)
			}
		}
		k.LabelIf(inPath > 9, "more than 9 placeholders")
		k.Nontrivial(kit.YAML(cfg), string(data))
		k.Sample(fmt.Sprintf("%v\n%s", kit.YAML(cfg), data))
	})

	c.Enum("parsers that routes cannot use", func(t *testing.T, account func(*kit.Case)) {
		for _, parser := range []kit.O{{{"name", "p"}, {"type", "split"}, {"delimiter", ","}, {"parser", "string"}}, {{"name", "p"}, {"type", "json"}}} {
			for _, typ := range []string{"jsonObject", "jsonArray"} {
				conf := kit.O{{"parsers", kit.L{parser}},
					{"inputs", kit.L{kit.O{{"name", "in"}, {"type", "csv"}, {"path", "@DIR@/in.csv"}, {"dieOnInputChange", false}, {"columns", kit.L{kit.O{{"name", "a"}}}}}}},
					{"outputs", kit.L{kit.O{{"name", "out"}, {"type", typ}, {"input", "in"}, {"parameters", kit.O{{"x", kit.O{{"property", "a"}, {"parser", "p"}}}}}}}},
					{"services", kit.L{kit.O{{"name", "http"}, {"type", "http"}, {"http", kit.O{}}, {"routes", kit.L{kit.O{{"path", "/{x}"}, {"output", "out"}}}}}}}}
				rig, err := kit.Start(t, conf, kit.Files{"in.csv": []byte("a\n")})
				if err == nil {
					rig.Close()
					t.Fatalf("a %v parser is accepted in a route", parser)
				}
				k := &kit.Case{}
				k.Label("rejected")
				account(k)
			}
		}
	})
}

func (r *wRoute) param(name string) wParam {
	for _, p := range r.out.params {
		if p.name == name {
			return p
		}
	}
	kit.Harness("no parameter %v", name)
	return wParam{}
}
