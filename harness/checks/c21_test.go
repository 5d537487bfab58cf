package checks

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"gopkg.in/yaml.v2"
	"pgregory.net/rapid"
	"rodbverif/kit"
)

// A certificate for localhost, and its key.
func newCertificate() (cert, key []byte) {
	private, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	kit.Must(err)
	template := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "localhost"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), DNSNames: []string{"localhost"}, IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}}
	der, err := x509.CreateCertificate(rand.Reader, template, template, &private.PublicKey, private)
	kit.Must(err)
	keyDer, err := x509.MarshalECPrivateKey(private)
	kit.Must(err)
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: keyDer})
}

var certificates = sync.OnceValue(func() [4][]byte {
	cert, key := newCertificate()
	otherCert, otherKey := newCertificate()
	return [4][]byte{cert, key, otherCert, otherKey}
})

func certificateFiles() kit.Files {
	c := certificates()
	return kit.Files{"cert.pem": c[0], "key.pem": c[1], "other.pem": c[3]}
}

// Components of every kind with all their settings, next to the ones of a generated world.
func everything() (kit.O, kit.Files) {
	o := func(kvs ...interface{}) kit.O {
		r := kit.O{}
		for i := 0; i < len(kvs); i += 2 {
			r = append(r, kit.KV{K: kvs[i].(string), V: kvs[i+1]})
		}
		return r
	}
	parsers := kit.L{
		o("name", "xinteger", "type", "integer", "ignoreCharacters", ","),
		o("name", "xfloat", "type", "float", "decimalSeparator", ",", "ignoreCharacters", " "),
		o("name", "xboolean", "type", "boolean", "trueValues", kit.L{"yes", "y"}, "falseValues", kit.L{"no"}),
		o("name", "xtext", "type", "string", "convertFromCharset", "Shift_JIS"),
		o("name", "xjson", "type", "json"),
		o("name", "xsplit", "type", "split", "delimiter", "/", "parser", "xinteger"),
		o("name", "xregexp", "type", "split", "delimiter", "[;|]", "delimiterIsRegexp", true, "parser", "xsplit"),
	}
	inputs := kit.L{
		o("name", "xcsv", "type", "csv", "path", "@DIR@/x.csv", "dieOnInputChange", false, "delimiter", ";", "ignoreFirstRow", true, "autodetectColumns", false, "columns", kit.L{
			o("name", "a"), o("name", "b", "parser", "xinteger"), o("name", "c", "parser", "xsplit"), o("name", "d", "parser", "json")}),
		o("name", "xauto", "type", "csv", "path", "@DIR@/x.csv", "dieOnInputChange", false, "delimiter", ";", "ignoreFirstRow", true, "autodetectColumns", true),
		o("name", "xjsons", "type", "json", "path", "@DIR@/x.json", "dieOnInputChange", false),
		o("name", "xxml", "type", "xml", "path", "@DIR@/x.xml", "dieOnInputChange", false, "recordXpath", "/root/rec", "properties", kit.L{
			o("name", "a", "xpath", "string(@a)"),
			o("name", "b", "type", "primitive", "xpath", "string(b)", "parser", "xinteger"),
			o("name", "list", "type", "array", "xpath", "//i", "items", o("xpath", "string(.)", "parser", "xinteger")),
			o("name", "object", "type", "object", "xpath", "//o", "properties", kit.L{o("name", "p", "xpath", "string(@p)"), o("name", "q", "xpath", "number(@q)", "parser", "float")}),
			o("name", "objects", "type", "array", "xpath", "//o", "items", o("type", "object", "xpath", ".", "properties", kit.L{o("name", "p", "xpath", "string(@p)")})),
			o("name", "deep", "type", "object", "xpath", ".", "properties", kit.L{o("name", "l", "type", "array", "xpath", "//o", "items", o("type", "object", "xpath", ".", "properties", kit.L{
				o("name", "m", "type", "object", "xpath", ".", "properties", kit.L{o("name", "p", "type", "primitive", "xpath", "string(@p)", "parser", "xinteger")})}))}),
		}),
	}
	indexes := kit.L{
		o("name", "xnoop", "type", "noop"),
		o("name", "xmap", "type", "map", "input", "xcsv", "properties", kit.L{"a", "b"}),
		o("name", "xsqlite", "type", "sqlite", "dsn", "@DIR@/x.sqlite", "input", "xcsv", "properties", kit.L{o("name", "a", "collate", "nocase"), o("name", "b")}),
		o("name", "xfts", "type", "fts5", "dsn", "@DIR@/x.sqlite", "input", "xxml", "prefix", kit.L{2, 3}, "tokenize", "unicode61 remove_diacritics 0", "properties", kit.L{"a"}),
		o("name", "xwild", "type", "wildcard", "path", "@DIR@/x.wild", "input", "xauto", "ignoreCase", true, "properties", kit.L{"a"}),
	}
	match := func(parent, child, index string) kit.L {
		return kit.L{o("parentProperty", parent, "childProperty", child, "childIndex", index)}
	}
	related := func(name string, isArray bool, more kit.O, inside kit.O) kit.O {
		r := append(o("input", "xjsons", "isArray", isArray, "match", match("i", "i", "xnoop")), more...)
		if inside != nil {
			r = append(r, kit.KV{K: "relationships", V: inside})
		}
		return o(name, r)
	}
	outputs := kit.L{
		o("name", "xlist", "type", "jsonArray", "input", "xcsv", "limit", o("default", 2, "max", 10, "parameter", "l"), "offset", o("parameter", "o"), "parameters", o(
			"a", o("property", "a", "index", "xsqlite"), "b", o("property", "b", "index", "xmap", "parser", "xinteger"), "n", o("property", "b", "index", "xnoop", "parser", "integer")),
			"relationships", o("r", o("input", "xcsv", "isArray", true, "limit", 3, "sort", kit.L{o("property", "b", "ascending", false), o("property", "a")}, "match", match("a", "a", "xmap"),
				"relationships", o("s", o("input", "xxml", "isArray", false, "match", kit.L{o("parentProperty", "a", "childProperty", "a")}))))),
		o("name", "xobject", "type", "jsonObject", "input", "xxml", "parameters", o("q", o("property", "match", "index", "xfts")),
			"relationships", o("r", o("input", "xcsv", "match", match("a", "a", "xsqlite")))),
		o("name", "xdeep", "type", "jsonObject", "input", "xjsons", "parameters", o("i", o("property", "i", "parser", "float")), "relationships", related("p", false,
			nil, related("q", true, o("limit", 2, "sort", kit.L{o("property", "i", "ascending", true)}), related("t", false, nil, related("u", true, o("sort", kit.L{o("property", "i")}), nil))))),
		o("name", "xwilds", "type", "jsonArray", "input", "xauto", "parameters", o("w", o("property", "a", "index", "xwild"))),
		o("name", "xplain", "type", "jsonArray", "input", "xjsons", "parameters", o("i", o("property", "i", "parser", "float"))),
	}
	services := kit.L{
		o("name", "xhttps", "type", "http", "http", o("listen", "127.0.0.1:0"), "https", o("listen", "127.0.0.1:0", "certificatePath", "@DIR@/cert.pem", "privateKeyPath", "@DIR@/key.pem"),
			"errorsType", "application/json", "routes", kit.L{o("path", "/list", "output", "xlist"), o("path", "/list/{b}", "output", "xlist"), o("path", "/object/{q}", "output", "xobject"), o("path", "/", "output", "xplain"), o("path", "/w", "output", "xwilds"), o("path", "/deep/{i}", "output", "xdeep")}),
	}
	files := certificateFiles()
	files["x.csv"] = []byte("a;b;c;d\nx;1,0;1/2;[1]\ny;2;3;{}\nx;3;4;null\n")
	files["x.json"] = []byte("{\"i\":1}\n{\"i\":2}\n")
	files["x.xml"] = []byte("<root><rec a=\"x\"><b>1</b><i>1</i><i>2</i><o p=\"1\" q=\"2\"/></rec><rec a=\"y\"><b>2</b><o p=\"3\" q=\"4\"/></rec></root>")
	files["garbage.pem"] = []byte("-----BEGIN CERTIFICATE-----\nnot base 64\n-----END CERTIFICATE-----\n")
	files["empty"] = nil
	files["adir/inside"] = []byte("x")
	return o("parsers", parsers, "inputs", inputs, "indexes", indexes, "outputs", outputs, "services", services), files
}

// checkEverything compares some answers of these components with the expected ones.
func checkEverything(rig *kit.Rig) error {
	base := rig.Address("xhttps")
	for target, want := range map[string]string{
		"/list/1,0": `[{"a":"x","b":10,"c":[1,2],"d":[1],"r":[{"a":"x","b":10,"c":[1,2],"d":[1],"s":{"a":"x","b":1,"list":[1,2],"object":{"p":"1","q":2},"objects":[{"p":"1"}],"deep":{"l":[{"m":{"p":1}}]}}},{"a":"x","b":3,"c":[4],"d":null,"s":{"a":"x","b":1,"list":[1,2],"object":{"p":"1","q":2},"objects":[{"p":"1"}],"deep":{"l":[{"m":{"p":1}}]}}}]}]`,
		"/object/y": `{"a":"y","b":2,"list":[],"object":{"p":"3","q":4},"objects":[{"p":"3"}],"deep":{"l":[{"m":{"p":3}}]},"r":{"a":"y","b":2,"c":[3],"d":{}}}`,
		"/?limit=1": `[{"i":1}]`,
		"/deep/1":   `{"i":1,"p":{"i":1,"q":[{"i":1,"t":{"i":1,"u":[{"i":1}]}}]}}`,
		"/w?w=Y":    `[{"a":"y","b":"2","c":"3","d":"{}"}]`,
	} {
		resp := rig.DoAt(base, "GET", target, nil)
		got, err := answered(resp, 200)
		if err != nil {
			return fmt.Errorf("GET %v: %v", target, err)
		}
		expected, err := kit.DecodeJSON([]byte(want))
		kit.Must(err)
		if !kit.SameJSON(got, expected) {
			return fmt.Errorf("GET %v: %s instead of %v", target, resp.Body, want)
		}
	}
	return nil
}

// merge adds the components of the second configuration to the first one.
func merge(a, b kit.O) kit.O {
	r := kit.O{}
	for _, layer := range layers {
		l := kit.L{}
		for _, c := range []kit.O{a, b} {
			if list, exists := c.Get(layer).(kit.L); exists {
				l = append(l, list...)
			}
		}
		r = append(r, kit.KV{K: layer, V: l})
	}
	return r
}

func componentNames(cfg kit.O, layer string) []string {
	names := []string{}
	for _, c := range cfg.Get(layer).(kit.L) {
		names = append(names, c.(kit.O).Get("name").(string))
	}
	return names
}

// A mutation makes a valid configuration invalid; ok is false when it does not apply.
type mutation struct {
	name  string
	apply func(rt *rapid.T, cfg kit.O) (result kit.O, what string, ok bool)
}

func (p place) set(cfg kit.O, name string, v interface{}) kit.O {
	return edit(cfg, p.path, func(old interface{}) interface{} { return old.(kit.O).With(name, v) }).(kit.O)
}

func (p place) without(cfg kit.O, name string) kit.O {
	return edit(cfg, p.path, func(old interface{}) interface{} { return old.(kit.O).Without(name) }).(kit.O)
}

// pickPlace draws a kind of object and a depth first, so that the rare kinds and depths are not neglected.
func pickPlace(rt *rapid.T, cfg kit.O, accept func(p place) bool) (place, bool) {
	all, _ := places(cfg)
	kinds := []string{}
	byKind := map[string][]place{}
	for _, p := range all {
		if accept != nil && !accept(p) {
			continue
		}
		if byKind[p.schema.name] == nil {
			kinds = append(kinds, p.schema.name)
		}
		byKind[p.schema.name] = append(byKind[p.schema.name], p)
	}
	if len(kinds) == 0 {
		return place{}, false
	}
	candidates := byKind[rapid.SampledFrom(kinds).Draw(rt, "kind of object")]
	depths, byDepth := []int{}, map[int][]place{}
	for _, p := range candidates {
		if byDepth[len(p.path)] == nil {
			depths = append(depths, len(p.path))
		}
		byDepth[len(p.path)] = append(byDepth[len(p.path)], p)
	}
	return rapid.SampledFrom(byDepth[rapid.SampledFrom(depths).Draw(rt, "depth")]).Draw(rt, "object"), true
}

// pickSetting draws an object and one of its settings which is given.
func pickSetting(rt *rapid.T, cfg kit.O, accept func(p place, s setting) bool) (place, setting, bool) {
	given := func(p place) []setting {
		l := []setting{}
		for _, s := range p.schema.settings {
			if p.value.Get(s.name) != nil && accept(p, s) {
				l = append(l, s)
			}
		}
		return l
	}
	p, ok := pickPlace(rt, cfg, func(p place) bool { return len(given(p)) > 0 })
	if !ok {
		return p, setting{}, false
	}
	s := given(p)
	return p, s[rapid.IntRange(0, len(s)-1).Draw(rt, "setting")], true
}

func kindOf(names ...string) func(p place) bool {
	return func(p place) bool { return inList(names, p.schema.name) }
}

func listOf(v interface{}) kit.L {
	switch t := v.(type) {
	case kit.L:
		return t
	case []string:
		l := kit.L{}
		for _, s := range t {
			l = append(l, s)
		}
		return l
	}
	return nil
}

func badPaths(kinds ...string) *rapid.Generator[string] {
	all := map[string]string{
		"missing":    "@DIR@/missing",
		"parent":     "@DIR@/nosuchdir/file",
		"directory":  "@DIR@/adir",
		"under file": "@DIR@/x.json/file",
		"too long":   "@DIR@/" + strings.Repeat("long", 100),
		"NUL":        "@DIR@/a\x00b",
	}
	l := []string{}
	for _, k := range kinds {
		l = append(l, all[k])
	}
	return rapid.SampledFrom(l)
}

var mutations = []mutation{
	{"required setting removed", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, s, ok := pickSetting(rt, cfg, func(p place, s setting) bool { return s.required })
		return p.without(cfg, s.name), fmt.Sprintf("%v without %v", p, s.name), ok
	}},
	{"required setting emptied", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, s, ok := pickSetting(rt, cfg, func(p place, s setting) bool { return s.required && !s.empty })
		var v interface{}
		switch s.kind {
		case "string":
			v = rapid.SampledFrom([]interface{}{"", nil, kit.Raw("~"), kit.Raw("")}).Draw(rt, "empty")
		case "list", "strings":
			v = rapid.SampledFrom([]interface{}{kit.L{}, nil}).Draw(rt, "empty")
		case "map":
			v = rapid.SampledFrom([]interface{}{kit.O{}, nil}).Draw(rt, "empty")
		default:
			return cfg, "", false
		}
		return p.set(cfg, s.name, v), fmt.Sprintf("%v with an empty %v: %v", p, s.name, v), ok
	}},
	{"unknown setting", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, ok := pickPlace(rt, cfg, nil)
		names := []string{"nmae", "Name", "NAME", "name ", "logger", "Logger", "columnindexbyname", "compiledxpath", "delimiterregexp", "limits", "default", "x", "", "1", "config", "<<x", "dieoninputchange", "isarray", "recordXPath"}
		for _, layer := range layers {
			for _, s := range schemas[layer] {
				for _, st := range s.settings {
					names = append(names, st.name)
				}
			}
		}
		unknown := []string{}
		for _, n := range names {
			if p.schema.get(n) == nil {
				unknown = append(unknown, n)
			}
		}
		name := rapid.SampledFrom(unknown).Draw(rt, "unknown")
		v := rapid.SampledFrom([]interface{}{"x", "", true, 1, kit.L{}, kit.O{}, nil, kit.L{"a"}, kit.O{{"name", "x"}}}).Draw(rt, "value")
		return p.set(cfg, name, v), fmt.Sprintf("%v with an unknown setting %q", p, name), ok
	}},
	{"setting given twice", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, s, ok := pickSetting(rt, cfg, func(place, setting) bool { return true })
		r := edit(cfg, p.path, func(old interface{}) interface{} {
			return append(append(kit.O{}, old.(kit.O)...), kit.KV{K: s.name, V: p.value.Get(s.name)})
		}).(kit.O)
		return r, fmt.Sprintf("%v with %v twice", p, s.name), ok
	}},
	{"wrong shape", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, s, ok := pickSetting(rt, cfg, func(place, setting) bool { return true })
		values := []interface{}{kit.L{"x"}, kit.O{{"x", "y"}}, kit.L{kit.L{}}}
		switch s.kind {
		case "bool":
			values = append(values, "maybe", 12)
		case "uint":
			values = append(values, "many", -1, true)
		case "strings":
			values = []interface{}{"x", kit.O{{"x", "y"}}, 12, kit.L{kit.O{{"x", "y"}}}, kit.L{kit.L{"x"}}}
		case "ints":
			values = []interface{}{"x", kit.O{{"x", "y"}}, kit.L{"x"}}
		case "list":
			values = []interface{}{"x", kit.O{{"x", kit.O{}}}, 12, kit.L{"x"}, kit.L{kit.L{}}, true}
		case "map":
			values = []interface{}{"x", kit.L{kit.O{}}, 12, kit.O{{"x", "y"}}, kit.O{{"x", kit.L{"y"}}}}
		case "object":
			values = []interface{}{"x", kit.L{"x"}, 12, true}
		}
		v := rapid.SampledFrom(values).Draw(rt, "value")
		return p.set(cfg, s.name, v), fmt.Sprintf("%v with %v: %v", p, s.name, v), ok
	}},
	{"reference to nothing", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, s, ok := pickSetting(rt, cfg, func(p place, s setting) bool { return s.ref != "" })
		if !ok {
			return cfg, "", false
		}
		name := p.value.Get(s.name).(string)
		candidates := []string{name + "x", "nosuch", strings.ToUpper(name), " " + name, name[:len(name)-1], "Default"}
		for _, layer := range layers {
			candidates = append(candidates, componentNames(cfg, layer)...)
		}
		taken := append(componentNames(cfg, s.ref), "default", "string", "integer", "float", "boolean", "json", "")
		dangling := []string{}
		for _, c := range candidates {
			if !inList(taken, c) {
				dangling = append(dangling, c)
			}
		}
		v := rapid.SampledFrom(dangling).Draw(rt, "reference")
		return p.set(cfg, s.name, v), fmt.Sprintf("%v with %v: %q", p, s.name, v), true
	}},
	{"null item", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		_, groups := places(cfg)
		g := rapid.SampledFrom(groups).Draw(rt, "collection")
		item := rapid.SampledFrom([]interface{}{nil, kit.Raw("~")}).Draw(rt, "item")
		return g.insert(rt, cfg, item), fmt.Sprintf("null in %v", g.path), true
	}},
	{"item of another shape", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		_, groups := places(cfg)
		g := rapid.SampledFrom(groups).Draw(rt, "collection")
		item := rapid.SampledFrom([]interface{}{"x", kit.L{}, kit.L{"x"}, 1, kit.O{}, kit.O{{"name", kit.L{}}}}).Draw(rt, "item")
		return g.insert(rt, cfg, item), fmt.Sprintf("%v in %v", item, g.path), true
	}},
	{"same name twice", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		layer := rapid.SampledFrom(layers).Draw(rt, "layer")
		l := cfg.Get(layer).(kit.L)
		if len(l) < 1 {
			return cfg, "", false
		}
		i := rapid.IntRange(0, len(l)-1).Draw(rt, "copied")
		name := l[i].(kit.O).Get("name")
		c := l[rapid.IntRange(0, len(l)-1).Draw(rt, "other")].(kit.O).With("name", name)
		return cfg.With(layer, append(append(kit.L{}, l...), c)), fmt.Sprintf("two %v named %v", layer, name), true
	}},
	{"same item twice", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		_, groups := places(cfg)
		usable := []group{}
		for _, g := range groups {
			if g.schema != nil && g.schema.unique != "" && !g.isMap && g.size > 0 {
				usable = append(usable, g)
			}
		}
		if len(usable) == 0 {
			return cfg, "", false
		}
		g := rapid.SampledFrom(usable).Draw(rt, "collection")
		i, j := rapid.IntRange(0, g.size-1).Draw(rt, "copied"), rapid.IntRange(0, g.size-1).Draw(rt, "other")
		r := edit(cfg, g.path, func(old interface{}) interface{} {
			l := old.(kit.L)
			return append(append(kit.L{}, l...), l[j].(kit.O).With(g.schema.unique, l[i].(kit.O).Get(g.schema.unique)))
		}).(kit.O)
		return r, fmt.Sprintf("%v twice in %v", i, g.path), true
	}},
	{"unknown type", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, s, ok := pickSetting(rt, cfg, func(p place, s setting) bool { return s.name == "type" })
		v := rapid.SampledFrom([]interface{}{"unknown", "CSV", "Map", "http ", "xmls", "jsonarray", 1, true, kit.L{"csv"}, "parser"}).Draw(rt, "type")
		return p.set(cfg, s.name, v), fmt.Sprintf("%v with type %v", p, v), ok
	}},
	{"property the index does not handle", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, s, ok := pickSetting(rt, cfg, func(p place, s setting) bool {
			index := indexConf(cfg, p.value.Get(s.name))
			return s.ref == "indexes" && index != nil && index.Get("type") != "noop"
		})
		if !ok {
			return cfg, "", false
		}
		property := "property"
		if p.schema.name == "match" {
			property = "childProperty"
		}
		index := indexConf(cfg, p.value.Get(s.name))
		handled := []string{}
		for _, h := range listOf(index.Get("properties")) {
			if o, isObject := h.(kit.O); isObject {
				h = o.Get("name")
			}
			handled = append(handled, h.(string))
		}
		if index.Get("type") == "fts5" {
			handled = []string{"match"}
		}
		candidates := []string{}
		for _, c := range []string{"nosuch", "match", strings.ToUpper(handled[0]), handled[0] + " ", handled[0] + ".x", "extra", "a", "b", "c", "offset"} {
			if !inList(handled, c) {
				candidates = append(candidates, c)
			}
		}
		v := rapid.SampledFrom(candidates).Draw(rt, "property")
		return p.set(cfg, property, v), fmt.Sprintf("%v: property %q is not handled by %v", p, v, index), true
	}},
	{"index of another input", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, s, ok := pickSetting(rt, cfg, func(p place, s setting) bool { return s.ref == "indexes" })
		if !ok {
			return cfg, "", false
		}
		input := inputOf(cfg, p)
		candidates := []kit.O{}
		for _, index := range cfg.Get("indexes").(kit.L) {
			if i := index.(kit.O).Get("input"); i != nil && i != input {
				candidates = append(candidates, index.(kit.O))
			}
		}
		if len(candidates) == 0 {
			return cfg, "", false
		}
		index := rapid.SampledFrom(candidates).Draw(rt, "index")
		r := p.set(cfg, s.name, index.Get("name"))
		property := interface{}("match")
		if first := listOf(index.Get("properties"))[0]; index.Get("type") != "fts5" {
			property = first
			if o, isObject := first.(kit.O); isObject {
				property = o.Get("name")
			}
		}
		setting := "property"
		if p.schema.name == "match" {
			setting = "childProperty"
		}
		r = p.set(r, s.name, index.Get("name"))
		r = edit(r, p.path, func(old interface{}) interface{} { return old.(kit.O).With(setting, property) }).(kit.O)
		return r, fmt.Sprintf("%v uses the index %v of another input than %v", p, index.Get("name"), input), true
	}},
	{"value out of the allowed ones", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		kind := rapid.SampledFrom([]string{"sqlite property/collate", "xml property/type", "xml items/type", "http service/errorsType", "csv input/delimiter", "http listener/listen", "https listener/listen", "string parser/convertFromCharset",
			"fts5 index/tokenize", "fts5 index/prefix", "xml input/recordXpath", "xml property/xpath", "xml items/xpath"}).Draw(rt, "kind of value")
		names := strings.Split(kind, "/")
		p, ok := pickPlace(rt, cfg, kindOf(names[0]))
		if !ok {
			return cfg, "", false
		}
		var values []interface{}
		switch names[1] {
		case "collate":
			values = []interface{}{"nosuch", "rtirm", "binary ", "utf8", "binary, nocase"}
		case "type":
			values = []interface{}{"list", "Array", "string", "primitives"}
		case "errorsType":
			values = []interface{}{"text/plain", "application/xml", "json", "application/json; charset=utf-8"}
		case "delimiter":
			values = []interface{}{"ab", ";;", ", ", "\"", "\n", "\r", "\r\n"}
		case "listen":
			values = []interface{}{"nonsense", "127.0.0.1", "127.0.0.1:99999", "127.0.0.1:x", "256.0.0.1.2:0:0", "[::1:0"}
		case "convertFromCharset":
			values = []interface{}{"nosuch", "UTF 8", "shift", "ISO-2022-KR", "ISO-8859-1-Windows-3.0-Latin-1", "UTF-7", "ISO-10646-UCS-2"}
		case "tokenize":
			values = []interface{}{"nosuch", "unicode61 nosuch 1", "unicode61 remove_diacritics"}
		case "prefix":
			values = []interface{}{kit.L{0}, kit.L{-1}, kit.L{2, 1000}}
		case "xpath", "recordXpath":
			values = []interface{}{"//[", "a[", "!!", "nosuch(", "'", "count(", "///"}
		}
		v := rapid.SampledFrom(values).Draw(rt, "invalid value")
		return p.set(cfg, names[1], v), fmt.Sprintf("%v with %v: %q", p, names[1], v), true
	}},
	{"invalid regular expression", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, ok := pickPlace(rt, cfg, kindOf("split parser"))
		v := rapid.SampledFrom([]string{"(", "[", "*", "a{2,1}", "(?<", "\\"}).Draw(rt, "expression")
		return p.set(p.set(cfg, "delimiterIsRegexp", true), "delimiter", v), fmt.Sprintf("%v with delimiter %q", p, v), ok
	}},
	{"cycle of split parsers", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		l := cfg.Get("parsers").(kit.L)
		n := rapid.IntRange(1, 4).Draw(rt, "length")
		before := rapid.IntRange(0, 1).Draw(rt, "before")
		for i := 0; i < n+before; i++ {
			next := i + 1
			if next == n+before {
				next = before
			}
			c := kit.O{{"name", fmt.Sprintf("cycle%d", i)}, {"type", "split"}, {"delimiter", rapid.SampledFrom([]string{",", ""}).Draw(rt, "delimiter")}, {"parser", fmt.Sprintf("cycle%d", next)}}
			l = append(append(kit.L{}, l...), c)
		}
		cfg = cfg.With("parsers", l)
		used := rapid.Bool().Draw(rt, "used")
		if used {
			if p, ok := pickPlace(rt, cfg, kindOf("csv column")); ok {
				cfg = p.set(cfg, "parser", "cycle0")
			}
		}
		return cfg, fmt.Sprintf("%d parsers in a cycle", n), true
	}},
	{"parser which is not a primitive", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, ok := pickPlace(rt, cfg, kindOf("parameter"))
		parser := rapid.SampledFrom([]string{"json", "xjson", "xsplit", "xregexp"}).Draw(rt, "parser")
		return p.set(cfg, "parser", parser), fmt.Sprintf("%v with the parser %v", p, parser), ok
	}},
	{"unusable limit", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, ok := pickPlace(rt, cfg, kindOf("jsonArray output"))
		limit := kit.O{{"default", 11}, {"max", 10}}
		if rapid.Bool().Draw(rt, "defaultMax") {
			limit = kit.O{{"default", rapid.IntRange(1001, 100000).Draw(rt, "default")}}
		}
		return p.set(cfg, "limit", limit), fmt.Sprintf("%v with limit %v", p, limit), ok
	}},
	{"parameter named like the limit or offset", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, ok := pickPlace(rt, cfg, kindOf("jsonArray output"))
		if !ok {
			return cfg, "", false
		}
		name := rapid.SampledFrom([]string{"limit", "offset"}).Draw(rt, "reserved")
		reserved := name
		if o, given := p.value.Get(name).(kit.O); given && o.Get("parameter") != nil {
			reserved = o.Get("parameter").(string)
		}
		params, _ := p.value.Get("parameters").(kit.O)
		params = append(params.Without(reserved), kit.KV{K: reserved, V: kit.O{{"property", "a"}}})
		return p.set(cfg, "parameters", params), fmt.Sprintf("%v with a parameter named %v", p, reserved), true
	}},
	{"sorted relationship which is not an array", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, ok := pickPlace(rt, cfg, kindOf("relationship"))
		r := p.set(cfg, "sort", kit.L{kit.O{{"property", "a"}}})
		if rapid.Bool().Draw(rt, "written") {
			q := p
			return q.set(r, "isArray", false), fmt.Sprintf("%v is sorted but not an array", p), ok
		}
		return p.without(r, "isArray"), fmt.Sprintf("%v is sorted but not an array", p), ok
	}},
	{"same indexed property twice", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, s, ok := pickSetting(rt, cfg, func(p place, s setting) bool { return s.name == "properties" && s.kind == "strings" })
		if !ok {
			return cfg, "", false
		}
		l := listOf(p.value.Get("properties"))
		return p.set(cfg, s.name, append(append(kit.L{}, l...), l[rapid.IntRange(0, len(l)-1).Draw(rt, "repeated")])), fmt.Sprintf("%v with a property twice", p), true
	}},
	{"setting of another type of property", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, ok := pickPlace(rt, cfg, kindOf("xml property", "xml items"))
		if !ok {
			return cfg, "", false
		}
		items := kit.O{{"xpath", "string(.)"}}
		properties := kit.L{kit.O{{"name", "p"}, {"xpath", "string(.)"}}}
		var name string
		var v interface{}
		switch p.value.Get("type") {
		case "array":
			name = rapid.SampledFrom([]string{"properties", "parser"}).Draw(rt, "setting")
		case "object":
			name = rapid.SampledFrom([]string{"items", "parser"}).Draw(rt, "setting")
		default:
			name = rapid.SampledFrom([]string{"items", "properties"}).Draw(rt, "setting")
		}
		switch name {
		case "items":
			v = items
		case "properties":
			v = properties
		default:
			v = "string"
		}
		return p.set(cfg, name, v), fmt.Sprintf("%v with %v", p, name), true
	}},
	{"content of an xml property missing", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, ok := pickPlace(rt, cfg, func(p place) bool {
			return kindOf("xml property", "xml items")(p) && (p.value.Get("type") == "array" || p.value.Get("type") == "object")
		})
		return p.without(p.without(cfg, "items"), "properties"), fmt.Sprintf("%v without items or properties", p), ok
	}},
	{"columns and their detection", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, ok := pickPlace(rt, cfg, func(p place) bool { return p.schema.name == "csv input" && p.value.Get("columns") != nil })
		return p.set(cfg, "autodetectColumns", true), fmt.Sprintf("%v with columns and autodetectColumns", p), ok
	}},
	{"unusable path", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		kind := rapid.SampledFrom([]string{"csv input", "json input", "xml input", "https listener", "wildcard index", "sqlite index", "fts5 index"}).Draw(rt, "kind of object")
		p, ok := pickPlace(rt, cfg, kindOf(kind))
		name, paths := "path", badPaths("missing", "parent", "directory", "under file", "too long", "NUL")
		switch kind {
		case "https listener":
			name = rapid.SampledFrom([]string{"certificatePath", "privateKeyPath"}).Draw(rt, "setting")
		case "wildcard index":
			paths = badPaths("parent", "directory", "under file", "too long", "NUL")
		case "sqlite index", "fts5 index":
			name, paths = "dsn", badPaths("parent", "directory", "under file", "too long")
		}
		v := paths.Draw(rt, "path")
		return p.set(cfg, name, v), fmt.Sprintf("%v with %v: %q", p, name, v), ok
	}},
	{"unusable certificate", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, ok := pickPlace(rt, cfg, kindOf("https listener"))
		name := rapid.SampledFrom([]string{"certificatePath", "privateKeyPath"}).Draw(rt, "setting")
		v := rapid.SampledFrom([]string{"garbage.pem", "empty", "other.pem", "x.csv"}).Draw(rt, "file")
		return p.set(cfg, name, "@DIR@/"+v), fmt.Sprintf("%v with %v: %v", p, name, v), ok
	}},
	{"service listening to nothing", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, ok := pickPlace(rt, cfg, kindOf("http service"))
		return p.without(p.without(cfg, "http"), "https"), fmt.Sprintf("%v without http and https", p), ok
	}},
	{"placeholder which is not a parameter", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, ok := pickPlace(rt, cfg, kindOf("route"))
		if !ok {
			return cfg, "", false
		}
		v := p.value.Get("path").(string) + rapid.SampledFrom([]string{"/{nosuch}", "{ nosuch }", "/{nosuch}/x", "{no/such}"}).Draw(rt, "placeholder")
		return p.set(cfg, "path", v), fmt.Sprintf("%v with path %q", p, v), true
	}},
	{"indexed property which is not in the input", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		p, ok := pickPlace(rt, cfg, func(p place) bool {
			name, _ := p.value.Get("name").(string)
			return inList([]string{"xmap", "xsqlite", "xfts", "xwild"}, name) && strings.HasSuffix(p.schema.name, " index")
		})
		if !ok {
			return cfg, "", false
		}
		name := rapid.SampledFrom([]string{"nosuch", "A", "a.b.c", " a", "a "}).Draw(rt, "property")
		l := append(kit.L{}, listOf(p.value.Get("properties"))...)
		if p.schema.name == "sqlite index" {
			l = append(l, kit.O{{"name", "no" + name}})
		} else {
			l = append(l, "no"+name)
		}
		return p.set(cfg, "properties", l), fmt.Sprintf("%v with the property no%v", p, name), true
	}},
	{"unknown layer", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		name := rapid.SampledFrom([]string{"parser", "Inputs", "index", "output", "service", "x", "version", "logger"}).Draw(rt, "layer")
		v := rapid.SampledFrom([]interface{}{kit.L{}, kit.O{}, "x", nil}).Draw(rt, "value")
		return append(append(kit.O{}, cfg...), kit.KV{K: name, V: v}), "unknown layer " + name, true
	}},
	{"layer of another shape", func(rt *rapid.T, cfg kit.O) (kit.O, string, bool) {
		layer := rapid.SampledFrom(layers).Draw(rt, "layer")
		v := rapid.SampledFrom([]interface{}{kit.O{{"name", "x"}}, "x", 1, true, kit.L{"x"}, kit.L{1}, kit.L{kit.L{}}}).Draw(rt, "value")
		return cfg.With(layer, v), fmt.Sprintf("%v: %v", layer, v), true
	}},
}

func (g group) insert(rt *rapid.T, cfg kit.O, item interface{}) kit.O {
	at := rapid.IntRange(0, g.size).Draw(rt, "position")
	return edit(cfg, g.path, func(old interface{}) interface{} {
		if g.isMap {
			o := old.(kit.O)
			r := append(kit.O{}, o[:at]...)
			return append(append(r, kit.KV{K: "added", V: item}), o[at:]...)
		}
		l := old.(kit.L)
		r := append(kit.L{}, l[:at]...)
		return append(append(r, item), l[at:]...)
	}).(kit.O)
}

func indexConf(cfg kit.O, name interface{}) kit.O {
	for _, index := range cfg.Get("indexes").(kit.L) {
		if index.(kit.O).Get("name") == name && name != nil {
			return index.(kit.O)
		}
	}
	return nil
}

// inputOf is the name of the input that a parameter or match searches.
func inputOf(cfg kit.O, p place) interface{} {
	at := p.path[:len(p.path)-2]
	var v interface{} = cfg
	for _, e := range at {
		switch t := v.(type) {
		case kit.O:
			v = t.Get(e.(string))
		case kit.L:
			v = t[e.(int)]
		}
	}
	return v.(kit.O).Get("input")
}

func TestC21(t *testing.T) {
	c := kit.Begin(t, "C21", "A case is one generated configuration with components of all kinds: unchanged, written in another way (order, YAML style, environment variables) and then served and requested; with one mutation that makes it invalid, which startup has to reject with an error; or with random damage, which it may accept or reject. Non-trivial: the configuration was mutated or rewritten; distinct by the text of the configuration.")
	opts := worldOpts{minInputs: 1, maxInputs: 2, minOutputs: 1, maxOutputs: 2, indexKinds: allIndexes, maxRows: 5, arrays: true, objects: true, minParams: 0, maxParams: 2, relDepth: 2, maxRels: 1, parsers: true, sorts: true, paging: true, poolMax: 3}

	draw := func(rt *rapid.T) (*world, kit.O, kit.Files) {
		w := drawWorld(rt, opts)
		cfg, files := everything()
		cfg = merge(w.config(), cfg)
		for name, data := range w.files() {
			files[name] = data
		}
		return w, cfg, files
	}
	prepare := func(files kit.Files) string {
		dir := kit.TempDir()
		for name, data := range files {
			kit.Must(os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0o755))
			kit.WriteFile(filepath.Join(dir, name), data)
		}
		return dir
	}

	c.Prop("invalid", 6000, 120000, func(rt *rapid.T, k *kit.Case) {
		_, cfg, files := draw(rt)
		m := rapid.SampledFrom(mutations).Draw(rt, "mutation")
		result, what, ok := m.apply(rt, cfg)
		if !ok {
			k.Label("not applicable: " + m.name)
			return
		}
		dir := prepare(files)
		defer os.RemoveAll(dir)
		done := c.Watch(what)
		rig, err := kit.StartIn(rt, dir, kit.YAML(result), nil)
		done()
		if err == nil {
			rig.Close()
			rt.Fatalf("accepted, but it has to be rejected (%v): %v", m.name, what)
		}
		if strings.TrimSpace(err.Error()) == "" {
			rt.Fatalf("rejected without any message (%v): %v", m.name, what)
		}
		stage := err.(*kit.StartError).Stage
		k.Label(m.name + ", rejected at " + stage)
		k.Nontrivial(kit.YAML(result))
		k.Sample(fmt.Sprintf("%v: %v is rejected: %v", m.name, what, err))
	})

	c.Prop("valid", 150, 5000, func(rt *rapid.T, k *kit.Case) {
		w, cfg, files := draw(rt)
		text := rewrite(rt, k, cfg)
		dir := prepare(files)
		defer os.RemoveAll(dir)
		rig, err := kit.StartIn(rt, dir, text, nil)
		if err != nil {
			rt.Fatalf("rejected, but it is valid: %v", err)
		}
		defer rig.Close()
		for i := rapid.IntRange(1, 4).Draw(rt, "requests"); i > 0; i-- {
			out := rapid.SampledFrom(w.outputs).Draw(rt, "output")
			values := w.drawValues(rt, out)
			target := out.target(rt, values, nil)
			if err := w.check(rig.Get(target), out, values); err != nil {
				rt.Fatalf("GET %v: %v", target, err)
			}
		}
		if err := checkEverything(rig); err != nil {
			rt.Fatalf("%v", err)
		}
		k.Nontrivial(text)
		k.Sample(text)
	})

	// Long values, long lines and long files.
	c.Prop("large", 60, 900, func(rt *rapid.T, k *kit.Case) {
		w, cfg, files := draw(rt)
		size := rapid.SampledFrom([]int{300, 1100, 4200, 9000, 17000, 33000, 66000, 140000}).Draw(rt, "size")
		kind := rapid.SampledFrom([]string{"values", "value", "comment", "blank lines", "spaces", "parsers"}).Draw(rt, "kind")
		trues := kit.L{}
		last := "v0"
		switch kind {
		case "values":
			for i := 0; i*8 < size; i++ {
				last = fmt.Sprint("v", i)
				trues = append(trues, last)
			}
		case "value":
			last = strings.Repeat("v", size)
			trues = kit.L{last}
		default:
			trues = kit.L{last}
		}
		cfg = merge(cfg, kit.O{
			{"parsers", kit.L{kit.O{{"name", "large"}, {"type", "boolean"}, {"falseValues", kit.L{"-"}}, {"trueValues", trues}}}},
			{"inputs", kit.L{kit.O{{"name", "large"}, {"type", "csv"}, {"path", "@DIR@/large.csv"}, {"dieOnInputChange", false}, {"columns", kit.L{kit.O{{"name", "a"}, {"parser", "large"}}}}}}},
			{"outputs", kit.L{kit.O{{"name", "large"}, {"type", "jsonArray"}, {"input", "large"}}}},
			{"services", kit.L{kit.O{{"name", "large"}, {"type", "http"}, {"http", kit.O{{"listen", "127.0.0.1:0"}}}, {"routes", kit.L{kit.O{{"path", "/large"}, {"output", "large"}}}}}}},
		})
		files["large.csv"] = []byte(last + "\n-\n")
		if kind == "parsers" {
			more := kit.L{}
			for i := 0; i*60 < size; i++ {
				more = append(more, kit.O{{"name", fmt.Sprint("more", i)}, {"type", "integer"}, {"ignoreCharacters", " "}})
			}
			cfg = merge(kit.O{{"parsers", more}}, cfg)
		}
		text := kit.YAML(cfg)
		if rapid.Bool().Draw(rt, "one line") {
			text = strings.TrimPrefix(kit.YAML(kit.O{{"x", cfg}}), "x:")
			k.LabelIf(strings.Count(text, "\n") < 2, "on one line")
		}
		switch kind {
		case "comment":
			text = "# " + strings.Repeat("x ", size/2) + "\n" + text
		case "blank lines":
			text = strings.Repeat("\n", size) + text + strings.Repeat("\n#", size/2) + "\n"
		case "spaces":
			text = text + strings.Repeat(" ", size) + "\n"
		}
		dir := prepare(files)
		defer os.RemoveAll(dir)
		rig, err := kit.StartIn(rt, dir, text, nil)
		if err != nil {
			rt.Fatalf("rejected, but it is valid (%d bytes): %v", len(text), clippedText(err.Error()))
		}
		defer rig.Close()
		out := rapid.SampledFrom(w.outputs).Draw(rt, "output")
		values := w.drawValues(rt, out)
		target := out.target(rt, values, nil)
		if err := w.check(rig.Get(target), out, values); err != nil {
			rt.Fatalf("GET %v: %v", target, err)
		}
		if err := checkEverything(rig); err != nil {
			rt.Fatalf("%v", err)
		}
		got, err := answered(rig.DoAt(rig.Address("large"), "GET", "/large", nil), 200)
		want := []interface{}{map[string]interface{}{"a": true}, map[string]interface{}{"a": false}}
		if err != nil || !kit.SameJSON(got, interface{}(want)) {
			rt.Fatalf("GET /large: %v, %v", kit.Show(got), err)
		}
		k.Label(kind)
		k.LabelIf(len(text) > 100000, "more than 100000 bytes")
		k.Nontrivial(kind, size, w.String())
	})

	// Indexes, outputs and relationships on dozens of properties.
	c.Prop("many properties", 100, 2500, func(rt *rapid.T, k *kit.Case) {
		n := rapid.IntRange(3, 70).Draw(rt, "properties")
		d := &kit.Dataset{Kind: rapid.SampledFrom([]string{"csv", "xml"}).Draw(rt, "kind")}
		for i := 0; i < n; i++ {
			d.Cols = append(d.Cols, kit.Col{Name: fmt.Sprint("c", i), Type: kit.String})
		}
		for i := rapid.IntRange(1, 4).Draw(rt, "rows"); i > 0; i-- {
			row := kit.Row{}
			for j := 0; j < n; j++ {
				row[fmt.Sprint("c", j)] = fmt.Sprint("v", (i+j)%3)
			}
			d.Rows = append(d.Rows, row)
		}
		w := &world{}
		conf, data := d.Render(rt, "in0", "in0.data")
		w.inputs = append(w.inputs, &wInput{"in0", d, conf, data})
		missing := rapid.IntRange(0, n-1).Draw(rt, "missing") // from all the indexes, which is fine unless it is used
		names := []string{}
		for j := 0; j < n; j++ {
			if j != missing {
				names = append(names, fmt.Sprint("c", j))
			}
		}
		names = rapid.Permutation(names).Draw(rt, "order")
		tables := kit.L{}
		for _, name := range names {
			tables = append(tables, kit.O{{"name", name}})
		}
		w.indexes = []*wIndex{
			{name: "m", kind: "map", input: "in0", props: names, conf: kit.O{{"name", "m"}, {"type", "map"}, {"input", "in0"}, {"properties", list(names)}}},
			{name: "s", kind: "sqlite", input: "in0", props: names, conf: kit.O{{"name", "s"}, {"type", "sqlite"}, {"dsn", "@DIR@/s.sqlite"}, {"input", "in0"}, {"properties", tables}}},
			{name: "w", kind: "wildcard", input: "in0", props: names, conf: kit.O{{"name", "w"}, {"type", "wildcard"}, {"path", "@DIR@/w.rodb"}, {"input", "in0"}, {"properties", list(names)}}},
			{name: "f", kind: "fts5", input: "in0", props: names, conf: kit.O{{"name", "f"}, {"type", "fts5"}, {"dsn", "@DIR@/f.sqlite"}, {"input", "in0"}, {"properties", list(names)}}},
		}
		out := &wOutput{name: "out0", array: true, input: "in0", def: 100, max: 1000, limit: "limit", offset: "offset", path: "/out0"}
		params := kit.O{}
		for j, name := range names {
			idx := rapid.SampledFrom([]string{"m", "s", "w", "default"}).Draw(rt, "index")
			out.params = append(out.params, wParam{fmt.Sprint("p", j), idx, name, "string"})
			params = append(params, kit.KV{K: fmt.Sprint("p", j), V: kit.O{{"property", name}, {"index", idx}}})
		}
		params = append(params, kit.KV{K: "text", V: kit.O{{"property", "match"}, {"index", "f"}}})
		r := &wRel{name: "rel", input: "in0", array: true}
		matches := kit.L{}
		count := rapid.IntRange(1, len(names)).Draw(rt, "matches")
		for _, name := range rapid.Permutation(names).Draw(rt, "matched")[:count] {
			m := wMatch{name, name, rapid.SampledFrom([]string{"m", "s", "default"}).Draw(rt, "childIndex")}
			r.match = append(r.match, m)
			matches = append(matches, kit.O{{"parentProperty", m.parent}, {"childProperty", m.child}, {"childIndex", m.index}})
		}
		wrong := rapid.IntRange(0, 5).Draw(rt, "wrong")
		other := fmt.Sprint("c", missing)
		switch wrong {
		case 0:
			params = append(params, kit.KV{K: "wrong", V: kit.O{{"property", other}, {"index", rapid.SampledFrom([]string{"m", "s", "w", "f"}).Draw(rt, "wrongIndex")}}})
		case 1:
			matches = append(matches, kit.O{{"parentProperty", other}, {"childProperty", other}, {"childIndex", rapid.SampledFrom([]string{"m", "s"}).Draw(rt, "wrongIndex")}})
		default:
			params = append(params, kit.KV{K: "wrong", V: kit.O{{"property", other}}}) // handled by the default index
		}
		r.conf = kit.O{{"input", "in0"}, {"isArray", true}, {"match", matches}}
		out.rels = []*wRel{r}
		out.conf = kit.O{{"name", "out0"}, {"type", "jsonArray"}, {"input", "in0"}, {"parameters", params}, {"relationships", relConf(out.rels)}}
		w.outputs = append(w.outputs, out)
		k.LabelIf(n > 20, "more than 20 properties")
		k.Nontrivial(w.String())
		k.Sample(w.String())
		rig, err := kit.Start(rt, w.config(), w.files())
		if wrong <= 1 {
			if err == nil {
				rig.Close()
				rt.Fatalf("%v of %d properties is not in the index, but the configuration is accepted", other, n)
			}
			k.Label("rejected")
			return
		}
		if err != nil {
			rt.Fatalf("rejected, but it is valid: %v", clippedText(err.Error()))
		}
		defer rig.Close()
		for q := 0; q < 3; q++ {
			values := []wantValue{}
			row := rapid.SampledFrom(d.Rows).Draw(rt, "row")
			for _, p := range out.params {
				if rapid.IntRange(0, 3).Draw(rt, "given") == 0 {
					values = append(values, wantValue{p, row[p.property]})
				}
			}
			target := out.target(rt, values, nil)
			if err := w.check(rig.Get(target), out, values); err != nil {
				rt.Fatalf("GET %v: %v", target, clipped(err))
			}
		}
	})

	// Anything may be rejected here, but nothing may crash or hang.
	c.Prop("damaged", 1500, 60000, func(rt *rapid.T, k *kit.Case) {
		_, cfg, files := draw(rt)
		for n := rapid.IntRange(0, 2).Draw(rt, "mutations"); n > 0; n-- {
			// Mutations need the configuration to have its usual shape, so only the ones which preserve it can be followed by another one.
			p, s, ok := pickSetting(rt, cfg, func(p place, s setting) bool { return s.kind == "string" && s.name != "type" && s.name != "name" })
			if ok {
				cfg = p.set(cfg, s.name, rapid.SampledFrom([]interface{}{"", "x", "a", "default", "string", 1, true, "match", "@DIR@/x.csv", "@DIR@/empty", ":memory:", "xsplit", "xmap", "xcsv", "/{a}", "//rec", "string(.)"}).Draw(rt, "value"))
			}
		}
		text := []byte(kit.YAML(cfg))
		for n := rapid.IntRange(0, 4).Draw(rt, "damages"); n > 0; n-- {
			at := rapid.IntRange(0, len(text)-1).Draw(rt, "at")
			switch rapid.IntRange(0, 4).Draw(rt, "damage") {
			case 0:
				text[at] = rapid.Byte().Draw(rt, "byte")
			case 1:
				end := min(len(text), at+rapid.IntRange(1, 40).Draw(rt, "length"))
				text = append(append([]byte{}, text[:at]...), text[end:]...)
			case 2:
				piece := rapid.SampledFrom([]string{"null", "{}", "[]", "\n", "\n  - ", ": ", "${HOME}", "$", "&a ", "*a", "<<: ", "!!binary ", "!!str ", "? ", "|", "~", "-1", "\x00", "\"", "'", ",", "{", "}", "[", "]", "#", "---\n", "é"}).Draw(rt, "piece")
				text = append(append(append([]byte{}, text[:at]...), piece...), text[at:]...)
			case 3:
				text = text[:at]
			case 4:
				from := rapid.IntRange(0, len(text)-1).Draw(rt, "from")
				end := min(len(text), from+rapid.IntRange(1, 60).Draw(rt, "length"))
				text = append(append(append([]byte{}, text[:at]...), text[from:end]...), text[at:]...)
			}
			if len(text) == 0 {
				text = []byte(" ")
			}
		}
		if writesElsewhere(os.ExpandEnv(string(text))) {
			k.Label("skipped: would write out of the scratch directory")
			return
		}
		dir := prepare(files)
		defer os.RemoveAll(dir)
		done := c.Watch("damaged configuration")
		rig, err := kit.StartIn(rt, dir, string(text), nil)
		if err == nil {
			rig.Close()
		} else if strings.TrimSpace(err.Error()) == "" {
			rt.Fatalf("rejected without any message")
		}
		done()
		k.LabelIf(err == nil, "accepted")
		if err != nil {
			k.Label("rejected at " + err.(*kit.StartError).Stage)
		}
		k.Nontrivial(string(text))
	})
}

// writesElsewhere tells whether an index of the configuration could be stored
// out of the scratch directory of the case.
func writesElsewhere(text string) bool {
	var doc interface{}
	if err := yaml.Unmarshal([]byte(text), &doc); err != nil {
		return false // rejected by rodb too, before anything else
	}
	inside := func(s string) bool {
		if strings.HasPrefix(s, "@DIR@/") {
			s = s[len("@DIR@/"):]
			return !strings.Contains(s, "..")
		}
		return !strings.Contains(s, "/") && !strings.Contains(s, "..") && !strings.Contains(s, "%")
	}
	found := false
	var visit func(v interface{}, keep bool)
	visit = func(v interface{}, keep bool) {
		switch t := v.(type) {
		case map[interface{}]interface{}:
			for key, value := range t {
				name := strings.ToLower(fmt.Sprint(key))
				visit(value, name == "dsn" || name == "path" && t["routes"] == nil && t["output"] == nil)
			}
		case []interface{}:
			for _, value := range t {
				visit(value, keep)
			}
		case string:
			if keep && !inside(t) {
				found = true
			}
		}
	}
	visit(doc, false)
	return found
}

// rewrite writes the configuration in another way that means the same.
func rewrite(rt *rapid.T, k *kit.Case, cfg kit.O) string {
	w := &yamlWriter{rt: rt, block: rapid.Bool().Draw(rt, "block"), env: rapid.Bool().Draw(rt, "env"), shuffle: rapid.Bool().Draw(rt, "shuffle"), comments: rapid.Bool().Draw(rt, "comments")}
	k.LabelIf(w.block, "block style")
	k.LabelIf(w.env, "environment variables")
	k.LabelIf(w.shuffle, "other order")
	if w.shuffle {
		cfg = rapid.Permutation(cfg).Draw(rt, "layers")
		for i := range cfg {
			cfg[i].V = kit.L(rapid.Permutation(cfg[i].V.(kit.L)).Draw(rt, "components"))
		}
	}
	return w.document(cfg)
}

func inList(list []string, s string) bool {
	for _, e := range list {
		if e == s {
			return true
		}
	}
	return false
}
