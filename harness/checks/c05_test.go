package checks

import (
	"fmt"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"rodbverif/kit"
)

// pathOutcome is what looking up a path has to give. When both null and an
// error are acceptable (a path going on below a null), either is set.
type pathOutcome struct {
	value  interface{}
	err    bool
	either bool
}

// walk follows the segments in a value, below the top level of a record.
func walk(v interface{}, segments []string) pathOutcome {
	for _, s := range segments {
		switch x := v.(type) {
		case map[string]interface{}:
			w, ok := x[s]
			if !ok {
				return pathOutcome{}
			}
			v = w
		case []interface{}:
			n, err := strconv.Atoi(s)
			if err != nil {
				// A number too large for an index does not exist either.
				return pathOutcome{err: !strings.Contains(err.Error(), "range"), either: strings.Contains(err.Error(), "range")}
			}
			if n < 0 || n >= len(x) {
				return pathOutcome{}
			}
			v = x[n]
		case nil:
			return pathOutcome{either: true}
		default:
			return pathOutcome{err: true}
		}

	}
	return pathOutcome{value: v}
}

// paths draws a dotted path into (or around) a value.
func paths(rt *rapid.T, v interface{}) []string {
	segments := []string{}
	odd := []string{"", "x", "0", "1", "-1", "-9", "99999999999999999999", "zz", "__proto__", " ", "1e0", "0x0", "é"}
	for depth := 0; depth < 7; depth++ {
		if depth > 0 && rapid.IntRange(0, 5).Draw(rt, "stop") == 0 {
			return segments
		}
		if rapid.IntRange(0, 11).Draw(rt, "odd") == 0 {
			segments = append(segments, rapid.SampledFrom(odd).Draw(rt, "segment"))
			v = nil
			continue
		}
		switch x := v.(type) {
		case map[string]interface{}:
			if len(x) == 0 {
				segments = append(segments, rapid.SampledFrom(odd).Draw(rt, "segment"))
				v = nil
				continue
			}
			s := rapid.SampledFrom(kit.SortedKeys(x)).Draw(rt, "member")
			segments = append(segments, s)
			v = x[s]
		case []interface{}:
			n := rapid.IntRange(-1, len(x)).Draw(rt, "index")
			if rapid.IntRange(0, 5).Draw(rt, "far") == 0 {
				n = rapid.SampledFrom([]int{-2, -len(x), -len(x) - 1, len(x) + 1, 1 << 30, -1 << 40}).Draw(rt, "farIndex")
			}
			s := strconv.Itoa(n)
			if rapid.IntRange(0, 5).Draw(rt, "spelled") == 0 {
				// Other ways to write a number: only decimal ones, with any zeros in front, are indexes.
				s = fmt.Sprintf(rapid.SampledFrom([]string{"%02d", "%03d", "0%d", "0x%x", "0o%o", "0b%b", "%d_0", "1_%d", "%de0", "%d.0", " %d", "%d ", "--%d", "%d,"}).Draw(rt, "spelling"), n)
				segments = append(segments, s)
				v = walk(v, []string{s}).value
				continue
			}
			segments = append(segments, s)
			v = nil
			if n >= 0 && n < len(x) {
				v = x[n]
			}
		default:
			if depth > 0 && rapid.IntRange(0, 3).Draw(rt, "beyond") > 0 {
				return segments
			}
			segments = append(segments, rapid.SampledFrom(odd).Draw(rt, "segment"))
			v = nil
		}
	}
	return segments
}

// everyPath lists the paths of everything inside a value (only a part of a large one).
func everyPath(prefix string, v interface{}, add func(string)) {
	switch x := v.(type) {
	case map[string]interface{}:
		for _, name := range kit.SortedKeys(x) {
			if prefix == "" {
				everyPath(name, x[name], add)
			} else {
				add(prefix + "." + name)
				everyPath(prefix+"."+name, x[name], add)
			}
		}
	case []interface{}:
		for i, item := range x {
			add(fmt.Sprintf("%v.%v", prefix, i))
			everyPath(fmt.Sprintf("%v.%v", prefix, i), item, add)
		}
		add(fmt.Sprintf("%v.%v", prefix, len(x)))
	}
}

func TestC05(t *testing.T) {
	c := kit.Begin(t, "C05", "A case is one generated input of any type (with nested documents, json and split columns, XML arrays and objects) and the paths of everything inside its records, with several generated paths into and around its records. Non-trivial: at least one path of two or more segments leads to a value, or to an absent item; distinct by file and paths.")
	c.Prop("paths", 1500, 40000, func(rt *rapid.T, k *kit.Case) {
		var conf kit.O
		var parsers kit.L
		var file string
		var data []byte
		if rapid.IntRange(0, 2).Draw(rt, "structured") == 0 {
			// CSV columns and XML properties holding JSON documents and lists.
			file = rapid.SampledFrom([]string{"in.csv", "in.xml"}).Draw(rt, "file")
			parsers = kit.L{kit.O{{"name", "list"}, {"type", "split"}, {"delimiter", "|"}, {"parser", "string"}}}
			n := rapid.IntRange(1, 4).Draw(rt, "rows")
			csv, xml := []string{}, "<root>"
			for i := 0; i < n; i++ {
				document := kit.JSONText(rt, kit.JSONValue(3).Draw(rt, "document"))
				list := strings.Join(rapid.SliceOfN(rapid.StringMatching(`[a-c]{0,2}`), 1, 4).Draw(rt, "list"), "|")
				csv = append(csv, kit.CSVField(document, ",", true, false)+","+kit.CSVField(list, ",", false, false))
				xml += "<rec><d>" + kit.XMLEscape(document) + "</d><l>" + list + "</l></rec>"
			}
			if file == "in.csv" {
				conf = kit.O{{"name", "in"}, {"type", "csv"}, {"path", "@DIR@/in.csv"}, {"dieOnInputChange", false},
					{"columns", kit.L{kit.O{{"name", "document"}, {"parser", "json"}}, kit.O{{"name", "list"}, {"parser", "list"}}}}}
				data = []byte(strings.Join(csv, "\n"))
			} else {
				conf = kit.O{{"name", "in"}, {"type", "xml"}, {"path", "@DIR@/in.xml"}, {"recordXpath", "/root/rec"}, {"dieOnInputChange", false},
					{"properties", kit.L{kit.O{{"name", "document"}, {"xpath", "string(d)"}, {"parser", "json"}}, kit.O{{"name", "list"}, {"xpath", "string(l)"}, {"parser", "list"}}}}}
				data = []byte(xml + "</root>")
			}
		} else {
			conf, parsers, file, data = anyInput(rt, 4)
		}
		cfg := kit.O{{"inputs", kit.L{conf}}}
		if parsers != nil {
			cfg = append(cfg, kit.KV{K: "parsers", V: parsers})
		}
		rig := kit.MustStart(rt, cfg, kit.Files{file: data})
		defer rig.Close()
		items, err := iterate(rig.Inputs["in"])
		if err != nil {
			rt.Fatalf("iterating: %v", err)
		}
		kind := conf.Get("type").(string)
		tried := []string{}
		deep := false
		for _, it := range items {
			if it.allErr != nil {
				// No full record to compare to: lookups must not crash.
				for _, p := range []string{"", ".", "prop0", "prop0.0", "prop0.-1", "prop0.m0", "prop0.0.m0", "prop0.m0.0.1"} {
					_, _ = it.record.Get(p)
				}
				k.Label("record with errors")
				continue
			}
			all := []string{}
			everyPath("", it.all, func(path string) {
				if len(all) < 100 {
					all = append(all, path)
				}
			})
			for i := 0; i < 6; i++ {
				all = append(all, strings.Join(paths(rt, it.all), "."))
			}
			for _, path := range all {
				var segments []string
				if strings.Contains(path, "+") {
					continue
				}
				// Names containing dots are other paths than the drawn one.
				segments = strings.Split(path, ".")
				var want pathOutcome
				_, topLevel := it.all[segments[0]]
				switch {
				case path == "":
					want = pathOutcome{err: true}
				case !topLevel && kind == "json":
					want = pathOutcome{}
				case !topLevel:
					want = pathOutcome{err: true}
				default:
					want = walk(it.all, segments)
				}
				got, err := it.record.Get(path)
				tried = append(tried, path)
				switch {
				case want.either:
					if got != nil {
						rt.Fatalf("%v: path %q goes on below a null but is %v", kit.Show(it.all), path, kit.Show(got))
					}
				case want.err:
					k.Label("error")
					if err == nil {
						rt.Fatalf("%v: path %q is %v instead of an error", kit.Show(it.all), path, kit.Show(got))
					}
				default:
					if err != nil || !kit.SameValue(got, want.value) {
						rt.Fatalf("%v: path %q is %v, %v instead of %v", kit.Show(it.all), path, kit.Show(got), err, kit.Show(want.value))
					}
					deep = deep || len(segments) > 1
					k.LabelIf(len(segments) > 1 && want.value != nil, "nested value")
					k.LabelIf(len(segments) > 1 && want.value == nil, "nested null")
				}
			}
		}
		k.Label(kind)
		if deep {
			k.Nontrivial(string(data), tried)
			k.Sample(fmt.Sprintf("%v\n%q\npaths %q", kit.YAML(cfg), string(data), tried))
		}
	})

	// Lists of sparse elements in XML, looked up at every path.
	c.Prop("XML lists", 700, 15000, func(rt *rapid.T, k *kit.Case) {
		var element func(name string, depth int) string
		element = func(name string, depth int) string {
			b := "<" + name
			if rapid.IntRange(0, 3).Draw(rt, "attribute") == 0 {
				b += fmt.Sprintf(" k=\"%d\"", rapid.IntRange(0, 9).Draw(rt, "k"))
			}
			content := ""
			if depth > 0 {
				for i := rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(rt, "items"); i > 0; i-- {
					content += element("i", depth-1)
				}
			}
			if rapid.Bool().Draw(rt, "text") {
				content += fmt.Sprintf("<t>%v</t>", rapid.SampledFrom([]string{"", "a", "b", "c"}).Draw(rt, "t"))
			}
			if content == "" {
				return b + "/>"
			}
			return b + ">" + content + "</" + name + ">"
		}
		var members func(depth int) kit.L
		members = func(depth int) kit.L {
			l := kit.L{}
			for i := rapid.IntRange(1, 3).Draw(rt, "members"); i > 0; i-- {
				p := kit.O{{"name", fmt.Sprint("m", i)}}
				switch kind := rapid.IntRange(0, 6).Draw(rt, "member"); {
				case kind == 0:
					p = append(p, kit.KV{K: "xpath", V: "count(*)"}, kit.KV{K: "parser", V: "integer"})
				case kind == 1:
					p = append(p, kit.KV{K: "xpath", V: "string(@k)"})
				case kind <= 3 || depth == 0:
					p = append(p, kit.KV{K: "xpath", V: "string(t)"})
				case kind == 4: // an item, or nothing
					p = append(p, kit.KV{K: "type", V: "object"}, kit.KV{K: "xpath", V: "i[2]"}, kit.KV{K: "properties", V: members(depth - 1)})
				case kind == 5:
					p = append(p, kit.KV{K: "type", V: "array"}, kit.KV{K: "xpath", V: "i"},
						kit.KV{K: "items", V: kit.O{{"type", "array"}, {"xpath", "i"}, {"items", kit.O{{"xpath", "string(t)"}}}}})
				default:
					p = append(p, kit.KV{K: "type", V: "array"}, kit.KV{K: "xpath", V: "i"},
						kit.KV{K: "items", V: kit.O{{"type", "object"}, {"xpath", "."}, {"properties", members(depth - 1)}}})
				}
				l = append(l, p)
			}
			return l
		}
		properties := append(members(2), kit.O{{"name", "list"}, {"type", "array"}, {"xpath", "i"}, {"items", kit.O{{"type", "object"}, {"xpath", "."}, {"properties", members(2)}}}})
		n := rapid.IntRange(1, 3).Draw(rt, "records")
		data := "<root>"
		for i := 0; i < n; i++ {
			data += element("rec", 3)
		}
		data += "</root>"
		cfg := kit.O{{"inputs", kit.L{kit.O{{"name", "in"}, {"type", "xml"}, {"path", "@DIR@/in.xml"}, {"recordXpath", "/root/rec"}, {"dieOnInputChange", false}, {"properties", properties}}}}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in.xml": []byte(data)})
		defer rig.Close()
		items, err := iterate(rig.Inputs["in"])
		if err != nil || len(items) != n {
			rt.Fatalf("%d records instead of %d, %v", len(items), n, err)
		}
		found := 0
		for _, it := range items {
			if it.allErr != nil {
				rt.Fatal(it.allErr)
			}
			everyPath("", it.all, func(path string) {
				segments := strings.Split(path, ".")
				want := walk(it.all, segments)
				got, err := it.record.Get(path)
				if err != nil || !kit.SameValue(got, want.value) {
					rt.Fatalf("%v: path %q is %v, %v instead of %v", kit.Show(it.all), path, kit.Show(got), err, kit.Show(want.value))
				}
				if len(segments) > 2 {
					found++
				}
			})
		}
		k.LabelIf(found > 20, "many paths")
		if found > 3 {
			k.Nontrivial(kit.YAML(cfg), data)
			k.Sample(fmt.Sprintf("%v\n%v", kit.YAML(cfg), data))
		}
	})

	// Long paths, through many levels of objects and arrays.
	c.Prop("deep", 400, 10000, func(rt *rapid.T, k *kit.Case) {
		var build func(depth int) interface{}
		build = func(depth int) interface{} {
			if depth == 0 {
				return rapid.SampledFrom([]interface{}{"leaf", 1.0, true, nil}).Draw(rt, "leaf")
			}
			if rapid.Bool().Draw(rt, "array") {
				items := []interface{}{}
				for n := rapid.IntRange(0, 2).Draw(rt, "before"); n > 0; n-- {
					items = append(items, float64(n))
				}
				items = append(items, build(depth-1))
				for n := rapid.IntRange(0, 12).Draw(rt, "after") - 10; n > 0; n-- {
					items = append(items, "after")
				}
				return items
			}
			m := map[string]interface{}{rapid.SampledFrom([]string{"a", "0", "1", "10", "b c", "é", ""}).Draw(rt, "member"): build(depth - 1)}
			if rapid.IntRange(0, 3).Draw(rt, "sibling") == 0 {
				m["z"] = "sibling"
			}
			return m
		}
		depth := rapid.IntRange(3, 40).Draw(rt, "depth")
		value := build(depth)
		document := kit.JSONText(rt, value)
		kind := rapid.SampledFrom([]string{"csv", "json", "xml"}).Draw(rt, "kind")
		conf := kit.O{{"name", "in"}, {"type", kind}, {"path", "@DIR@/in"}, {"dieOnInputChange", false}}
		data := "{\"document\": " + document + "}"
		switch kind {
		case "csv":
			conf = append(conf, kit.KV{K: "columns", V: kit.L{kit.O{{"name", "document"}, {"parser", "json"}}}})
			data = kit.CSVField(document, ",", true, false)
		case "xml":
			conf = append(conf, kit.KV{K: "recordXpath", V: "/root/rec"}, kit.KV{K: "properties", V: kit.L{kit.O{{"name", "document"}, {"xpath", "string(d)"}, {"parser", "json"}}}})
			data = "<root><rec><d>" + kit.XMLEscape(document) + "</d></rec></root>"
		}
		cfg := kit.O{{"inputs", kit.L{conf}}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in": []byte(data)})
		defer rig.Close()
		items, err := iterate(rig.Inputs["in"])
		if err != nil || len(items) != 1 || items[0].allErr != nil {
			rt.Fatalf("%v, %d records", err, len(items))
		}
		if !kit.SameValue(items[0].all["document"], value) {
			rt.Fatalf("the document is %v", kit.Show(items[0].all))
		}
		everyPath("", items[0].all, func(path string) {
			want := walk(items[0].all, strings.Split(path, "."))
			got, err := items[0].record.Get(path)
			if want.either || want.err { // members whose names are empty
				return
			}
			if err != nil || !kit.SameValue(got, want.value) {
				rt.Fatalf("path %q is %v, %v instead of %v", path, kit.Show(got), err, kit.Show(want.value))
			}
		})
		k.Label(kind)
		k.LabelIf(depth > 20, "more than 20 levels")
		if depth > 6 {
			k.Nontrivial(data)
			k.Sample(fmt.Sprintf("%v\n%v", kit.YAML(cfg), data))
		}
	})

	// Objects whose path selects any number of nodes: only one node is an object.
	c.Prop("XML objects", 400, 10000, func(rt *rapid.T, k *kit.Case) {
		n := rapid.IntRange(1, 5).Draw(rt, "records")
		counts := []int{}
		data := "<root>"
		for i := 0; i < n; i++ {
			counts = append(counts, rapid.SampledFrom([]int{0, 1, 1, 2, 3}).Draw(rt, "nodes"))
			data += "<rec>"
			for j := 0; j < counts[i]; j++ {
				data += fmt.Sprintf("<i k=\"%d\"><t>%d</t><l>x</l><l>y</l></i>", j, i)
			}
			data += "</rec>"
		}
		data += "</root>"
		members := kit.L{
			kit.O{{"name", "k"}, {"xpath", "string(@k)"}},
			kit.O{{"name", "t"}, {"xpath", "string(t)"}, {"parser", "integer"}},
			kit.O{{"name", "l"}, {"type", "array"}, {"xpath", "l"}, {"items", kit.O{{"xpath", "string(.)"}}}},
			kit.O{{"name", "c"}, {"type", "object"}, {"xpath", "t"}, {"properties", kit.L{kit.O{{"name", "v"}, {"xpath", "string(.)"}}}}},
		}
		cfg := kit.O{{"inputs", kit.L{kit.O{{"name", "in"}, {"type", "xml"}, {"path", "@DIR@/in"}, {"recordXpath", "/root/rec"}, {"dieOnInputChange", false},
			{"properties", kit.L{
				kit.O{{"name", "o"}, {"type", "object"}, {"xpath", "i"}, {"properties", members}},
				kit.O{{"name", "a"}, {"type", "array"}, {"xpath", "."}, {"items", kit.O{{"type", "object"}, {"xpath", "i"}, {"properties", members}}}},
			}}}}}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in": []byte(data)})
		defer rig.Close()
		items, err := iterate(rig.Inputs["in"])
		if err != nil || len(items) != n {
			rt.Fatalf("%d records instead of %d, %v", len(items), n, err)
		}
		several := false
		for i, it := range items {
			if (it.allErr != nil) != (counts[i] > 1) {
				rt.Fatalf("record %d with %d nodes: error %v", i, counts[i], it.allErr)
			}
			several = several || counts[i] > 1
			for _, prefix := range []string{"o", "a.0"} {
				for path, want := range map[string]interface{}{"": nil, ".k": "0", ".t": int64(i), ".l": nil, ".l.0": "x", ".l.1": "y", ".l.2": nil, ".c.v": fmt.Sprint(i), ".c": nil} {
					got, err := it.record.Get(prefix + path)
					switch {
					case counts[i] > 1:
						if err == nil {
							rt.Fatalf("record %d with %d nodes: %v is %v instead of an error", i, counts[i], prefix+path, kit.Show(got))
						}
					case err != nil:
						rt.Fatalf("record %d with %d nodes: %v gives error %v", i, counts[i], prefix+path, err)
					case counts[i] == 0:
						if got != nil {
							rt.Fatalf("record %d without node: %v is %v", i, prefix+path, kit.Show(got))
						}
					case want != nil && got != want, want == nil && path != ".l.2" && got == nil:
						rt.Fatalf("record %d: %v is %v instead of %v", i, prefix+path, kit.Show(got), kit.Show(want))
					}
				}
			}
		}
		k.LabelIf(several, "several nodes")
		if several {
			k.Nontrivial(data)
			k.Sample(data)
		}
	})

	// Lists of thousands of items, at the indexes around their ends and around powers of two.
	c.Prop("long lists", 150, 4000, func(rt *rapid.T, k *kit.Case) {
		n := rapid.SampledFrom([]int{10, 11, 100, 254, 255, 256, 257, 300, 511, 513, 1000, 1023, 1025, 2600, 66000}).Draw(rt, "items")
		kind := rapid.SampledFrom([]string{"json", "csv json", "csv split", "xml", "xml objects", "xml json"}).Draw(rt, "kind")
		if n > 3000 && kind != "json" && kind != "csv split" {
			n = 2999
		}
		objects := kind != "csv split" && kind != "xml" && rapid.Bool().Draw(rt, "objects") || kind == "xml objects"
		list := make([]interface{}, n)
		texts := make([]string, n)
		xml := strings.Builder{}
		for i := range list {
			texts[i] = fmt.Sprint("t", i)
			list[i] = texts[i]
			if objects {
				list[i] = map[string]interface{}{"t": texts[i]}
			}
			if strings.HasPrefix(kind, "xml") && kind != "xml json" {
				xml.WriteString("<i><t>" + texts[i] + "</t></i>")
			}
		}
		document := ""
		if !strings.HasPrefix(kind, "xml") || kind == "xml json" {
			document = kit.JSONText(rt, list)
		}
		conf := kit.O{{"name", "in"}, {"type", strings.Split(kind, " ")[0]}, {"path", "@DIR@/in"}, {"dieOnInputChange", false}}
		property := kit.O{{"name", "l"}}
		data := ""
		switch kind {
		case "json":
			data = "{\"l\": " + document + "}\n"
		case "csv json":
			conf = append(conf, kit.KV{K: "columns", V: kit.L{append(property, kit.KV{K: "parser", V: "json"})}})
			data = kit.CSVField(document, ",", true, true)
		case "csv split":
			conf = append(conf, kit.KV{K: "columns", V: kit.L{append(property, kit.KV{K: "parser", V: "list"})}})
			data = strings.Join(texts, "|")
		case "xml json":
			conf = append(conf, kit.KV{K: "recordXpath", V: "/rec"}, kit.KV{K: "properties", V: kit.L{append(property, kit.KV{K: "xpath", V: "string(d)"}, kit.KV{K: "parser", V: "json"})}})
			data = "<rec><d>" + kit.XMLEscape(document) + "</d></rec>"
		default:
			items := kit.O{{"xpath", "string(t)"}}
			if objects {
				items = kit.O{{"type", "object"}, {"xpath", "."}, {"properties", kit.L{kit.O{{"name", "t"}, {"xpath", "string(t)"}}}}}
			}
			conf = append(conf, kit.KV{K: "recordXpath", V: "/rec"}, kit.KV{K: "properties", V: kit.L{append(property, kit.KV{K: "type", V: "array"}, kit.KV{K: "xpath", V: "i"}, kit.KV{K: "items", V: items})}})
			data = "<rec>" + xml.String() + "</rec>"
		}
		cfg := kit.O{{"parsers", kit.L{kit.O{{"name", "list"}, {"type", "split"}, {"delimiter", "|"}, {"parser", "string"}}}}, {"inputs", kit.L{conf}}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in": []byte(data)})
		defer rig.Close()
		items, err := iterate(rig.Inputs["in"])
		if err != nil || len(items) != 1 || items[0].allErr != nil {
			rt.Fatalf("%d records, %v", len(items), err)
		}
		whole := map[string]interface{}{"l": list}
		if !kit.SameValue(items[0].all, whole) {
			rt.Fatalf("the record is %v instead of %v", clippedText(kit.Show(items[0].all)), clippedText(kit.Show(whole)))
		}
		for _, i := range []int{0, 1, 9, 10, 99, 127, 128, 254, 255, 256, 257, 258, 511, 512, 999, 1000, 1024, 4095, 32767, 32768, 65535, 65536, n - 2, n - 1, n, n + 1, -1, -n, -256, 256 + n, 65536 + n, 1 << 31, 1<<32 + 1, -1 << 31,
			rapid.IntRange(0, n-1).Draw(rt, "i"), rapid.IntRange(0, n-1).Draw(rt, "j"), rapid.IntRange(0, n-1).Draw(rt, "k")} {
			for _, path := range []string{fmt.Sprint("l.", i), fmt.Sprint("l.", i, ".t")} {
				want := walk(whole, strings.Split(path, "."))
				if want.either {
					continue
				}
				got, err := items[0].record.Get(path)
				if (err != nil) != want.err || err == nil && !kit.SameValue(got, want.value) {
					rt.Fatalf("list of %d items (%v): path %q is %v, %v instead of %v", n, kind, path, clippedText(kit.Show(got)), err, kit.Show(want.value))
				}
			}
		}
		k.Label("long list in " + kind)
		k.LabelIf(n > 256, "more than 256 items")
		k.Nontrivial(kind, n, objects)
		k.Sample(fmt.Sprintf("%v\n%d items", kit.YAML(cfg), n))
	})
}
