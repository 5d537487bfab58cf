package checks

import (
	"bytes"
	"fmt"
	"net/url"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"rodbverif/kit"
)

// The documented definitions of the predefined components.
var predefined = map[string]kit.L{
	"parsers": {
		kit.O{{"name", "string"}, {"type", "string"}, {"convertFromCharset", ""}},
		kit.O{{"name", "integer"}, {"type", "integer"}, {"ignoreCharacters", ""}},
		kit.O{{"name", "float"}, {"type", "float"}, {"decimalSeparator", "."}, {"ignoreCharacters", ""}},
		kit.O{{"name", "boolean"}, {"type", "boolean"}, {"trueValues", kit.L{"true", "1", "TRUE"}}, {"falseValues", kit.L{"false", "0", "FALSE"}}},
		kit.O{{"name", "json"}, {"type", "json"}},
	},
	"indexes": {
		kit.O{{"name", "default"}, {"type", "noop"}},
	},
}

const bigRows = 1100

// defaults gives components whose answers depend on the default of every
// setting they leave out, with these answers.
func defaults() (kit.O, kit.Files, map[string]string) {
	files := kit.Files{
		// Without header; the values are only equal when they are compared as other things than strings.
		"d.csv":     []byte("a,1\nA,01\nb;c,2.0\n\"a \",10\nrunning É,9\nb;c,1\n"),
		"p.csv":     []byte("1,1.5,true,\"[1]\",a.b\n-2,2,1,\"{\"\"x\"\":null}\",.\n0,0.5,TRUE,\"\"\"s\"\"\",\n9,.5,false,1,x\n7,1,0,null,a.\n7,1,FALSE,null,a\n"),
		"e.csv":     []byte("1 000\n"),
		"f.csv":     []byte("\"1,5\"\n"),
		"d.xml":     []byte("<r><i a=\"01\"><b>x</b><b>02</b></i></r>"),
		"p.json":    []byte("{\"k\":\"b;c\",\"g\":1}\n{\"k\":\"a\",\"g\":2}\n{\"k\":\"none\",\"g\":3}\n"),
		"h.csv":     []byte("k,v\na,1\n"),
		"latin.csv": []byte("\xc3\xa9\n"),
		"c.csv":     []byte("a,A ,é\nA,a,É\na ,a ,É \nA,A ,é\n"),
	}
	var big bytes.Buffer
	for i := 0; i < bigRows; i++ {
		fmt.Fprintf(&big, "{\"i\":%d,\"g\":1}\n", i)
	}
	files["big.json"] = big.Bytes()

	file := func(name string) kit.KV { return kit.KV{K: "path", V: "@DIR@/" + name} }
	columns := func(names ...string) kit.KV {
		l := kit.L{}
		for _, n := range names {
			o := kit.O{{"name", strings.Split(n, ":")[0]}}
			if i := strings.Index(n, ":"); i > 0 {
				o = append(o, kit.KV{K: "parser", V: n[i+1:]})
			}
			l = append(l, o)
		}
		return kit.KV{K: "columns", V: l}
	}
	parameters := func(kvs ...string) kit.KV {
		o := kit.O{}
		for i := 0; i < len(kvs); i += 2 {
			parts := append(strings.Split(kvs[i+1], ":"), "")
			p := kit.O{{"property", parts[0]}}
			if parts[1] != "" {
				p = append(p, kit.KV{K: "index", V: parts[1]})
			}
			o = append(o, kit.KV{K: kvs[i], V: p})
		}
		return kit.KV{K: "parameters", V: o}
	}
	match := func(parent, child string) kit.KV {
		return kit.KV{K: "match", V: kit.L{kit.O{{"parentProperty", parent}, {"childProperty", child}}}}
	}
	cfg := kit.O{
		{"parsers", kit.L{
			kit.O{{"name", "ds"}, {"type", "string"}},
			kit.O{{"name", "di"}, {"type", "integer"}},
			kit.O{{"name", "df"}, {"type", "float"}, {"decimalSeparator", "."}},
			kit.O{{"name", "dsplit"}, {"type", "split"}, {"delimiter", "."}, {"parser", "string"}},
		}},
		{"inputs", kit.L{
			kit.O{{"name", "dcsv"}, {"type", "csv"}, file("d.csv"), columns("k", "v")},
			kit.O{{"name", "pcsv"}, {"type", "csv"}, file("p.csv"), columns("i:integer", "f:float", "b:boolean", "j:json", "s:dsplit")},
			kit.O{{"name", "ecsv"}, {"type", "csv"}, file("e.csv"), columns("i:di")},
			kit.O{{"name", "fcsv"}, {"type", "csv"}, file("f.csv"), columns("f:df")},
			kit.O{{"name", "gcsv"}, {"type", "csv"}, file("e.csv"), columns("i:integer")},
			kit.O{{"name", "hcsv"}, {"type", "csv"}, file("f.csv"), columns("f:float")},
			kit.O{{"name", "detected"}, {"type", "csv"}, file("h.csv"), {"autodetectColumns", true}},
			kit.O{{"name", "ignored"}, {"type", "csv"}, file("h.csv"), {"autodetectColumns", true}, {"ignoreFirstRow", true}},
			kit.O{{"name", "header"}, {"type", "csv"}, file("h.csv"), {"ignoreFirstRow", true}, columns("k", "v")},
			kit.O{{"name", "ccsv"}, {"type", "csv"}, file("c.csv"), columns("k", "v", "w")},
			kit.O{{"name", "latin"}, {"type", "csv"}, file("latin.csv"), columns("s:ds")},
			kit.O{{"name", "dxml"}, {"type", "xml"}, file("d.xml"), {"recordXpath", "/r/i"}, {"properties", kit.L{
				kit.O{{"name", "a"}, {"xpath", "string(@a)"}},
				kit.O{{"name", "l"}, {"type", "array"}, {"xpath", "//b"}, {"items", kit.O{{"xpath", "string(.)"}}}},
				kit.O{{"name", "o"}, {"type", "object"}, {"xpath", "."}, {"properties", kit.L{kit.O{{"name", "a"}, {"xpath", "string(@a)"}}}}},
			}}},
			kit.O{{"name", "pjson"}, {"type", "json"}, file("p.json")},
			kit.O{{"name", "dbig"}, {"type", "json"}, file("big.json")},
		}},
		{"indexes", kit.L{
			kit.O{{"name", "dsqlite"}, {"type", "sqlite"}, {"dsn", "@DIR@/d.sqlite"}, {"input", "dcsv"}, {"properties", kit.L{kit.O{{"name", "k"}}}}},
			kit.O{{"name", "csqlite"}, {"type", "sqlite"}, {"dsn", "@DIR@/d.sqlite"}, {"input", "ccsv"}, {"properties", kit.L{kit.O{{"name", "k"}, {"collate", "nocase"}}, kit.O{{"name", "v"}}, kit.O{{"name", "w"}, {"collate", "rtrim"}}}}},
			kit.O{{"name", "csqlite2"}, {"type", "sqlite"}, {"dsn", "@DIR@/d.sqlite"}, {"input", "ccsv"}, {"properties", kit.L{kit.O{{"name", "k"}}, kit.O{{"name", "v"}, {"collate", "rtrim"}}, kit.O{{"name", "w"}}}}},
			kit.O{{"name", "dwild"}, {"type", "wildcard"}, file("d.wild"), {"input", "dcsv"}, {"properties", kit.L{"k"}}},
			kit.O{{"name", "dfts"}, {"type", "fts5"}, {"dsn", "@DIR@/d.sqlite"}, {"input", "dcsv"}, {"properties", kit.L{"k"}}},
		}},
		{"outputs", kit.L{
			kit.O{{"name", "d"}, {"type", "jsonArray"}, {"input", "dcsv"}, parameters("k", "k", "v", "v", "s", "k:dsqlite", "w", "k:dwild", "m", "match:dfts")},
			kit.O{{"name", "dall"}, {"type", "jsonArray"}, {"input", "pcsv"}},
			kit.O{{"name", "de"}, {"type", "jsonArray"}, {"input", "ecsv"}},
			kit.O{{"name", "df"}, {"type", "jsonArray"}, {"input", "fcsv"}},
			kit.O{{"name", "dg"}, {"type", "jsonArray"}, {"input", "gcsv"}},
			kit.O{{"name", "dh"}, {"type", "jsonArray"}, {"input", "hcsv"}},
			kit.O{{"name", "ddetected"}, {"type", "jsonArray"}, {"input", "detected"}},
			kit.O{{"name", "dignored"}, {"type", "jsonArray"}, {"input", "ignored"}},
			kit.O{{"name", "dheader"}, {"type", "jsonArray"}, {"input", "header"}},
			kit.O{{"name", "dc"}, {"type", "jsonArray"}, {"input", "ccsv"}, parameters("k", "k:csqlite", "v", "v:csqlite", "w", "w:csqlite", "k2", "k:csqlite2", "v2", "v:csqlite2", "w2", "w:csqlite2")},
			kit.O{{"name", "dlatin"}, {"type", "jsonArray"}, {"input", "latin"}},
			kit.O{{"name", "dxml"}, {"type", "jsonArray"}, {"input", "dxml"}},
			kit.O{{"name", "dbig"}, {"type", "jsonArray"}, {"input", "dbig"}},
			kit.O{{"name", "dlimit"}, {"type", "jsonArray"}, {"input", "dbig"}, {"limit", kit.O{{"default", 7}}}},
			kit.O{{"name", "dmax"}, {"type", "jsonArray"}, {"input", "dbig"}, {"limit", kit.O{{"max", 300}}}},
			kit.O{{"name", "dnamed"}, {"type", "jsonArray"}, {"input", "dbig"}, {"limit", kit.O{{"parameter", "l"}}}, {"offset", kit.O{{"parameter", "o"}}}},
			kit.O{{"name", "drel"}, {"type", "jsonObject"}, {"input", "pjson"}, parameters("k", "k"), {"relationships", kit.O{
				{"one", kit.O{{"input", "dcsv"}, match("k", "k")}},
				{"many", kit.O{{"input", "dcsv"}, {"isArray", true}, match("k", "k"), {"sort", kit.L{kit.O{{"property", "v"}}}}}},
				{"unsorted", kit.O{{"input", "dcsv"}, {"isArray", true}, match("k", "k")}},
			}}},
			kit.O{{"name", "dbigrel"}, {"type", "jsonObject"}, {"input", "pjson"}, parameters("k", "k"), {"relationships", kit.O{
				{"all", kit.O{{"input", "dbig"}, {"isArray", true}, match("g", "g")}},
			}}},
		}},
		{"services", kit.L{
			kit.O{{"name", "dhttp"}, {"type", "http"}, {"http", kit.O{}}, {"routes", kit.L{
				kit.O{{"path", "/d"}, {"output", "d"}}, kit.O{{"path", "/all"}, {"output", "dall"}}, kit.O{{"path", "/e"}, {"output", "de"}}, kit.O{{"path", "/f"}, {"output", "df"}},
				kit.O{{"path", "/g"}, {"output", "dg"}}, kit.O{{"path", "/h"}, {"output", "dh"}}, kit.O{{"path", "/c"}, {"output", "dc"}}, kit.O{{"path", "/latin"}, {"output", "dlatin"}}, kit.O{{"path", "/detected"}, {"output", "ddetected"}}, kit.O{{"path", "/ignored"}, {"output", "dignored"}}, kit.O{{"path", "/header"}, {"output", "dheader"}}, kit.O{{"path", "/xml"}, {"output", "dxml"}},
				kit.O{{"path", "/big"}, {"output", "dbig"}}, kit.O{{"path", "/limit"}, {"output", "dlimit"}}, kit.O{{"path", "/max"}, {"output", "dmax"}}, kit.O{{"path", "/named"}, {"output", "dnamed"}}, kit.O{{"path", "/rel/{k}"}, {"output", "drel"}}, kit.O{{"path", "/bigrel"}, {"output", "dbigrel"}}}}},
		}},
	}
	count := func(from, n int) string {
		l := []string{}
		for i := from; i < from+n && i < bigRows; i++ {
			l = append(l, fmt.Sprintf("{\"i\":%d,\"g\":1}", i))
		}
		return "[" + strings.Join(l, ",") + "]"
	}
	one := `[{"k":"a","v":"1"}]`
	c := []string{`{"k":"a","v":"A ","w":"é"}`, `{"k":"A","v":"a","w":"É"}`, `{"k":"a ","v":"a ","w":"É "}`, `{"k":"A","v":"A ","w":"é"}`}
	records := func(numbers ...int) string {
		l := []string{}
		for _, n := range numbers {
			l = append(l, c[n])
		}
		return "[" + strings.Join(l, ",") + "]"
	}
	answers := map[string]string{
		"/c?k=a":              records(0, 1, 3),
		"/c?v=a":              records(1),
		"/c?v=A%20":           records(0, 3),
		"/c?v=A":              records(),
		"/c?w=%C3%89":         records(1, 2),
		"/c?k=A&v=A%20":       records(0, 3),
		"/c?k2=a":             records(0),
		"/c?v2=a":             records(1, 2),
		"/c?v2=A":             records(0, 3),
		"/c?w2=%C3%89":        records(1),
		"/c?w2=%C3%89%20":     records(2),
		"/c?k2=A&v2=A":        records(3),
		"/d":                  `[{"k":"a","v":"1"},{"k":"A","v":"01"},{"k":"b;c","v":"2.0"},{"k":"a ","v":"10"},{"k":"running É","v":"9"},{"k":"b;c","v":"1"}]`,
		"/d?v=1":              `[{"k":"a","v":"1"},{"k":"b;c","v":"1"}]`,
		"/d?v=01":             `[{"k":"A","v":"01"}]`,
		"/d?v=2":              `[]`,
		"/d?k=a":              one,
		"/d?s=a":              one,
		"/d?s=A":              `[{"k":"A","v":"01"}]`,
		"/d?s=a%20":           `[{"k":"a ","v":"10"}]`,
		"/d?w=A":              `[{"k":"A","v":"01"}]`,
		"/d?w=R":              `[]`,
		"/d?w=%C3%A9":         `[]`,
		"/d?w=%C3%89":         `[{"k":"running É","v":"9"}]`,
		"/d?m=e":              `[{"k":"running É","v":"9"}]`,
		"/d?m=RUNNING":        `[{"k":"running É","v":"9"}]`,
		"/d?m=run":            `[]`,
		"/d?m=run*":           `[{"k":"running É","v":"9"}]`,
		"/d?limit=2&offset=1": `[{"k":"A","v":"01"},{"k":"b;c","v":"2.0"}]`,
		"/all": `[{"i":1,"f":1.5,"b":true,"j":[1],"s":["a","b"]},{"i":-2,"f":2,"b":true,"j":{"x":null},"s":["",""]},{"i":0,"f":0.5,"b":true,"j":"s","s":[""]},` +
			`{"i":9,"f":0.5,"b":false,"j":1,"s":["x"]},{"i":7,"f":1,"b":false,"j":null,"s":["a",""]},{"i":7,"f":1,"b":false,"j":null,"s":["a"]}]`,
		"/e":                       "500",
		"/f":                       "500",
		"/g":                       "500",
		"/h":                       "500",
		"/nothing":                 "404",
		"/latin":                   `[{"s":"é"}]`,
		"/detected":                `[{"k":"k","v":"v"},{"k":"a","v":"1"}]`,
		"/ignored":                 `[{"k":"a","v":"1"}]`,
		"/header":                  `[{"k":"a","v":"1"}]`,
		"/xml":                     `[{"a":"01","l":["x","02"],"o":{"a":"01"}}]`,
		"/big":                     count(0, 100),
		"/big?limit=1000":          count(0, 1000),
		"/big?limit=1001":          count(0, 1000),
		"/big?limit=3&offset=1050": count(1050, 3),
		"/limit":                   count(0, 7),
		"/limit?limit=900":         count(0, 900),
		"/limit?limit=1001":        count(0, 1000),
		"/limit?limit=0":           "500",
		"/max":                     count(0, 100),
		"/max?limit=290&offset=9":  count(9, 290),
		"/max?limit=301":           count(0, 300),
		"/named":                   count(0, 100),
		"/named?l=400&o=3":         count(3, 400),
		"/named?limit=2&offset=3":  count(0, 100),
		"/rel/b;c":                 `{"k":"b;c","g":1,"one":{"k":"b;c","v":"2.0"},"many":[{"k":"b;c","v":"1"},{"k":"b;c","v":"2.0"}],"unsorted":[{"k":"b;c","v":"2.0"},{"k":"b;c","v":"1"}]}`,
		"/rel/a":                   `{"k":"a","g":2,"one":{"k":"a","v":"1"},"many":[{"k":"a","v":"1"}],"unsorted":[{"k":"a","v":"1"}]}`,
		"/rel/none":                `{"k":"none","g":3,"one":null,"many":[],"unsorted":[]}`,
		"/bigrel?k=b%3Bc":          `{"k":"b;c","g":1,"all":` + count(0, bigRows) + "}",
	}
	return cfg, files, answers
}

func TestC22(t *testing.T) {
	c := kit.Begin(t, "C22", "A case is one generated configuration, with a random part of the optional settings that have their documented default left out and the other ones written, next to components that show every default in their answers; predefined names are given to other components in half of the cases. All answers are compared with the model. Non-trivial: every case; distinct by configuration.")
	opts := worldOpts{minInputs: 1, maxInputs: 2, minOutputs: 1, maxOutputs: 3, indexKinds: allIndexes, minRows: 1, maxRows: 8, arrays: true, objects: true, minParams: 0, maxParams: 2, relDepth: 2, maxRels: 2, parsers: true, sorts: true, paging: true, poolMax: 3}

	run := func(rt *rapid.T, k *kit.Case, replace bool) {
		w := drawWorld(rt, opts)
		cfg, files, answers := defaults()
		cfg = merge(w.config(), cfg)
		for name, data := range w.files() {
			files[name] = data
		}
		if replace {
			others, otherFiles := everything()
			others = writtenColumns(others, "a", "b", "c", "d")
			cfg = writtenColumns(cfg, "k", "v")
			cfg = merge(cfg, others)
			for name, data := range otherFiles {
				files[name] = data
			}
			cfg = replacePredefined(rt, k, cfg)
		}
		var keep func(s *schema, st setting, written bool) bool
		switch rapid.IntRange(0, 4).Draw(rt, "settings") {
		case 0:
			keep = func(*schema, setting, bool) bool { return true }
			k.Label("all settings written")
		case 1:
			keep = func(*schema, setting, bool) bool { return false }
			k.Label("no default written")
		default:
			keep = func(*schema, setting, bool) bool { return rapid.Bool().Draw(rt, "keep") }
		}
		cfg = rebuild(cfg, keep)
		rig := kit.MustStart(rt, cfg, files)
		defer rig.Close()
		for i := rapid.IntRange(1, 4).Draw(rt, "requests"); i > 0; i-- {
			out := rapid.SampledFrom(w.outputs).Draw(rt, "output")
			values := w.drawValues(rt, out)
			target := out.target(rt, values, nil)
			if err := w.check(rig.Get(target), out, values); err != nil {
				rt.Fatalf("GET %v: %v", target, err)
			}
		}
		base := rig.Address("dhttp")
		if !strings.HasPrefix(base, "http://127.0.0.1:") {
			rt.Fatalf("the address of the service is %v", base)
		}
		for target, want := range answers {
			if err := checkAnswer(rig.DoAt(base, "GET", target, nil), want); err != nil {
				rt.Fatalf("GET %v: %v", target, err)
			}
		}
		if replace {
			if err := checkEverything(rig); err != nil {
				rt.Fatalf("%v", err)
			}
		}
		k.Nontrivial(kit.YAML(cfg))
		k.Sample(kit.YAML(cfg))
	}
	c.Prop("left out", 150, 5000, func(rt *rapid.T, k *kit.Case) { run(rt, k, false) })
	c.Prop("default index", 250, 8000, func(rt *rapid.T, k *kit.Case) {
		file := "k,v\n"
		texts := rapid.SliceOfN(rapid.SampledFrom([]string{"a", "A", "b", "B", "ab", "aB", "a ", "é", "É", "a b"}), 1, 8).Draw(rt, "texts")
		for i, s := range texts {
			file += fmt.Sprintf("%v,%d\n", s, i)
		}
		kind := rapid.SampledFrom([]string{"map", "sqlite", "wildcard", "fts5"}).Draw(rt, "kind")
		index := func(name string) kit.O {
			o := kit.O{{"name", name}, {"type", kind}, {"input", "in"}, {"properties", kit.L{"k"}}}
			switch kind {
			case "sqlite":
				return append(o.With("properties", kit.L{kit.O{{"name", "k"}, {"collate", "nocase"}}}), kit.KV{K: "dsn", V: "@DIR@/i.sqlite"})
			case "wildcard":
				return append(o, kit.KV{K: "path", V: "@DIR@/" + name + ".wildcard"}, kit.KV{K: "ignoreCase", V: true})
			case "fts5":
				return append(o, kit.KV{K: "dsn", V: "@DIR@/i.sqlite"})
			}
			return o
		}
		property := "k"
		if kind == "fts5" {
			property = "match"
		}
		outputs := kit.L{}
		routes := kit.L{}
		for _, name := range []string{"implicit", "explicit", "other"} {
			parameter, match := kit.O{{"property", property}}, kit.O{{"parentProperty", "k"}, {"childProperty", property}}
			if name == "explicit" {
				parameter, match = append(parameter, kit.KV{K: "index", V: "default"}), append(match, kit.KV{K: "childIndex", V: "default"})
			}
			if name == "other" {
				parameter, match = append(parameter, kit.KV{K: "index", V: "named"}), append(match, kit.KV{K: "childIndex", V: "named"})
			}
			o := kit.O{{"name", name}, {"type", "jsonArray"}, {"input", "in"}, {"parameters", kit.O{{"q", parameter}}}}
			if kind != "fts5" { // the texts are not all valid expressions
				o = append(o, kit.KV{K: "relationships", V: kit.O{{"r", kit.O{{"input", "in"}, {"isArray", true}, {"match", kit.L{match}}}}}})
			}
			outputs = append(outputs, o)
			routes = append(routes, kit.O{{"path", "/" + name}, {"output", name}})
		}
		cfg := kit.O{{"inputs", kit.L{kit.O{{"name", "in"}, {"type", "csv"}, {"path", "@DIR@/in.csv"}, {"ignoreFirstRow", true}, {"columns", kit.L{kit.O{{"name", "k"}}, kit.O{{"name", "v"}}}}}}},
			{"indexes", kit.L{index("named"), index("default")}}, {"outputs", outputs},
			{"services", kit.L{kit.O{{"name", "http"}, {"type", "http"}, {"http", kit.O{}}, {"routes", routes}}}}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in.csv": []byte(file)})
		defer rig.Close()
		for _, q := range []string{"a", "A", "b", "ab", "AB", "é", "É"} {
			want, err := answered(rig.Get("/other?q="+url.QueryEscape(q)), 200)
			if err != nil {
				rt.Fatalf("GET /other?q=%v: %v", q, err)
			}
			exact := 0
			for _, s := range texts {
				if s == q {
					exact++
				}
			}
			k.LabelIf(len(want.([]interface{})) > exact, "found by the index only")
			for _, name := range []string{"implicit", "explicit"} {
				got, err := answered(rig.Get("/"+name+"?q="+url.QueryEscape(q)), 200)
				if err != nil {
					rt.Fatalf("GET /%v?q=%v: %v", name, q, err)
				}
				if !kit.SameJSON(got, want) {
					rt.Fatalf("GET /%v?q=%v: %v instead of %v, which the same index gives with another name", name, q, got, want)
				}
			}
		}
		k.Nontrivial(kit.YAML(cfg), file)
	})
	// Detected columns are columns of the parser named string, like those written without any.
	c.Prop("detected columns", 100, 2500, func(rt *rapid.T, k *kit.Case) {
		type choice struct {
			conf   kit.O
			texts  []string
			values []interface{}
		}
		named := kit.KV{K: "name", V: "string"}
		choices := []choice{
			{nil, []string{"", "1", "true", "é"}, []interface{}{"", "1", "true", "é"}},
			{kit.O{named, {"type", "string"}}, []string{"", "1", "é"}, []interface{}{"", "1", "é"}},
			{kit.O{named, {"type", "string"}, {"convertFromCharset", "ISO-8859-1"}}, []string{"a", "é"}, []interface{}{"a", "Ã©"}},
			{kit.O{named, {"type", "integer"}, {"ignoreCharacters", " "}}, []string{"1", "-20", "3 000"}, []interface{}{int64(1), int64(-20), int64(3000)}},
			{kit.O{named, {"type", "float"}, {"decimalSeparator", "p"}}, []string{"1", "2p5"}, []interface{}{1.0, 2.5}},
			{kit.O{named, {"type", "boolean"}, {"trueValues", kit.L{"a", "yes"}}, {"falseValues", kit.L{"b", "no"}}}, []string{"a", "no", "b"}, []interface{}{true, false, false}},
			{kit.O{named, {"type", "json"}}, []string{"1", "null", "[2]", "{}"}, []interface{}{1.0, nil, []interface{}{2.0}, map[string]interface{}{}}},
			{kit.O{named, {"type", "split"}, {"delimiter", "/"}, {"parser", "integer"}}, []string{"1/2", "3"}, []interface{}{[]interface{}{int64(1), int64(2)}, []interface{}{int64(3)}}},
		}
		ch := rapid.SampledFrom(choices).Draw(rt, "parser")
		n := rapid.IntRange(1, 3).Draw(rt, "columns")
		names := rapid.Permutation([]string{"a", "yes", "1", "é"}).Draw(rt, "names")[:n]
		columns := kit.L{}
		for _, name := range names {
			columns = append(columns, kit.O{{"name", name}})
		}
		data := strings.Join(names, ",") + "\n"
		want := []interface{}{}
		for i := rapid.IntRange(1, 4).Draw(rt, "rows"); i > 0; i-- {
			row := map[string]interface{}{}
			for j, name := range names {
				v := rapid.IntRange(0, len(ch.texts)-1).Draw(rt, "v")
				if j > 0 {
					data += ","
				}
				data += kit.CSVField(ch.texts[v], ",", true, false)
				row[name] = kit.Expected(ch.values[v])
			}
			data += "\n"
			want = append(want, row)
		}
		path := kit.KV{K: "path", V: "@DIR@/in.csv"}
		cfg := kit.O{
			{"inputs", kit.L{
				kit.O{{"name", "detected"}, {"type", "csv"}, path, {"dieOnInputChange", false}, {"ignoreFirstRow", true}, {"autodetectColumns", true}},
				kit.O{{"name", "written"}, {"type", "csv"}, path, {"dieOnInputChange", false}, {"ignoreFirstRow", true}, {"columns", columns}},
			}},
			{"outputs", kit.L{kit.O{{"name", "detected"}, {"type", "jsonArray"}, {"input", "detected"}}, kit.O{{"name", "written"}, {"type", "jsonArray"}, {"input", "written"}}}},
			{"services", kit.L{kit.O{{"name", "http"}, {"type", "http"}, {"http", kit.O{{"listen", "127.0.0.1:0"}}}, {"routes", kit.L{kit.O{{"path", "/detected"}, {"output", "detected"}}, kit.O{{"path", "/written"}, {"output", "written"}}}}}}},
		}
		if ch.conf != nil {
			cfg = append(cfg, kit.KV{K: "parsers", V: kit.L{ch.conf}})
			k.Label("string is of type " + ch.conf.Get("type").(string))
		}
		rig := kit.MustStart(rt, cfg, kit.Files{"in.csv": []byte(data)})
		defer rig.Close()
		for _, target := range []string{"/written", "/detected"} {
			got, err := answered(rig.Get(target), 200)
			if err != nil || !kit.SameJSON(got, interface{}(want)) {
				rt.Fatalf("GET %v: %v, %v instead of %v", target, kit.Show(got), err, kit.Show(want))
			}
		}
		k.Nontrivial(kit.YAML(cfg), data)
	})
	c.Prop("replaced", 120, 4000, func(rt *rapid.T, k *kit.Case) { run(rt, k, true) })
}

// checkAnswer compares an answer with the expected status or document.
func checkAnswer(resp kit.Resp, want string) error {
	if want == "404" || want == "500" {
		if err := resp.WellFormed(); err != nil {
			return err
		}
		if fmt.Sprint(resp.Status) != want || !strings.HasPrefix(resp.Type, "application/json") {
			return fmt.Errorf("%.500v instead of the status %v", resp, want)
		}
		return nil
	}
	got, err := answered(resp, 200)
	if err != nil {
		return err
	}
	expected, err := kit.DecodeJSON([]byte(want))
	kit.Must(err)
	if !kit.SameJSON(got, expected) {
		return fmt.Errorf("%.1500s instead of %.1500s", resp.Body, want)
	}
	return nil
}

// replacePredefined gives predefined names to other components, and other names
// to the components that behave as the predefined ones.
func replacePredefined(rt *rapid.T, k *kit.Case, cfg kit.O) kit.O {
	cfg = rebuild(cfg, func(s *schema, st setting, written bool) bool { return written || st.ref != "" })
	for _, layer := range []string{"parsers", "indexes"} {
		copies, names, away := kit.L{}, []string{}, map[string]string{}
		for _, p := range predefined[layer] {
			name := p.(kit.O).Get("name").(string)
			names = append(names, name)
			away[name] = "predefined_" + name
			copies = append(copies, p.(kit.O).With("name", "predefined_"+name))
		}
		cfg = rename(cfg, layer, away)
		cfg = cfg.With(layer, append(append(kit.L{}, copies...), listOf(cfg.Get(layer))...))
		candidates := componentNames(cfg, layer)
		if layer == "indexes" { // lists without any filter also use the one named default, so it has to handle all the inputs
			candidates = nil
			for _, idx := range cfg.Get(layer).(kit.L) {
				if idx.(kit.O).Get("type") == "noop" {
					candidates = append(candidates, idx.(kit.O).Get("name").(string))
				}
			}
		}
		declared := rapid.Permutation(candidates).Draw(rt, "renamed")
		taken := rapid.Permutation(names).Draw(rt, "taken")
		mapping := map[string]string{}
		for _, name := range taken[:rapid.IntRange(0, len(taken)).Draw(rt, "count")] {
			mapping[declared[len(mapping)]] = name
			k.Label("replaced " + name)
		}
		cfg = rename(cfg, layer, mapping)
	}
	return cfg
}

// writtenColumns replaces the detection of the columns, which refers to the parser named string, by columns.
func writtenColumns(cfg kit.O, names ...string) kit.O {
	columns := kit.L{}
	for _, n := range names {
		columns = append(columns, kit.O{{"name", n}})
	}
	all, _ := places(cfg)
	for _, p := range all {
		if p.value.Get("autodetectColumns") == true {
			cfg = p.set(p.without(cfg, "autodetectColumns"), "columns", columns)
		}
	}
	return cfg
}
