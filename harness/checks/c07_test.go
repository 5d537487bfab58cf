package checks

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"rodbverif/kit"
)

// exactIndexes configures the exact-match indexes of an input named "in".
func exactIndexes(names []string, dsn string) kit.L {
	sqlite := kit.L{}
	for i, n := range names {
		p := kit.O{{"name", n}}
		if i%2 == 1 {
			p = append(p, kit.KV{K: "collate", V: []string{"binary", "BINARY", "Binary"}[i/2%3]})
		}
		sqlite = append(sqlite, p)
	}
	return kit.L{
		kit.O{{"name", "map"}, {"type", "map"}, {"input", "in"}, {"properties", list(names)}},
		kit.O{{"name", "sqlite"}, {"type", "sqlite"}, {"dsn", dsn}, {"input", "in"}, {"properties", sqlite}},
		kit.O{{"name", "search"}, {"type", "noop"}},
	}
}

func TestC07(t *testing.T) {
	c := kit.Begin(t, "C07", "A case is one generated data set (CSV, JSON or XML; or JSON/CSV/XML with arrays and nested properties) with a map, an sqlite and a noop index on it, and several filters sets. Non-trivial: at least one filter set matches some but not all of the records; distinct by data and filters.")
	c.Prop("data sets", 1500, 40000, func(rt *rapid.T, k *kit.Case) {
		d := kit.Datasets(kit.DataOpts{MaxRows: rapid.SampledFrom([]int{6, 20}).Draw(rt, "maxRows")}).Draw(rt, "data")
		conf, data := d.Render(rt, "in", "in."+d.Kind)
		names := columnNames(d.Cols)
		cfg := kit.O{{"inputs", kit.L{conf}}, {"indexes", exactIndexes(names, dsns().Draw(rt, "dsn"))}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in." + d.Kind: data})
		defer rig.Close()
		in := rig.Inputs["in"]
		pos, err := rowPositions(in, len(d.Rows))
		if err != nil {
			rt.Fatal(err)
		}
		if rapid.IntRange(0, 4).Draw(rt, "all") == 0 {
			for _, name := range []string{"search", "default"} {
				if err := lookup(rig.Indexes[name], in, nil, pos); err != nil {
					rt.Fatalf("%v without filters: %v", name, err)
				}
			}
		}
		interesting := false
		asked := []string{}
		n := rapid.IntRange(1, 5).Draw(rt, "queries")
		for q := 0; q < n; q++ {
			f := drawFilters(rt, d, d.Cols, 3, kit.ShortTexts())
			asked = append(asked, f.String())
			rows := matching(d, f, equals)
			want := at(pos, rows)
			for _, name := range []string{"map", "sqlite", "search", "default"} {
				if err := lookup(rig.Indexes[name], in, f, want); err != nil {
					rt.Fatalf("%v with %v: %v", name, f, err)
				}
			}
			interesting = interesting || len(rows) > 0 && len(rows) < len(d.Rows)
			k.Label(fmt.Sprintf("%d filters", len(f)))
			k.LabelIf(len(rows) > 1, "several matches")
			k.LabelIf(len(rows) == 0, "no match")
			k.LabelIf(len(f) > 1 && len(rows) > 0 && len(rows) < len(matching(d, f[:1], equals)), "second filter decides")
		}
		// Two searches advanced in turn must not influence each other.
		if len(d.Rows) > 0 {
			name := rapid.SampledFrom([]string{"map", "sqlite", "search", "default"}).Draw(rt, "turns")
			f1, f2 := drawFilters(rt, d, d.Cols, 2, kit.ShortTexts()), drawFilters(rt, d, d.Cols, 2, kit.ShortTexts())
			next1, err1 := rig.Indexes[name].GetRecordPositions(in, f1.asMap())
			next2, err2 := rig.Indexes[name].GetRecordPositions(in, f2.asMap())
			if err1 != nil || err2 != nil {
				rt.Fatalf("%v with %v and %v: %v, %v", name, f1, f2, err1, err2)
			}
			want1, want2 := at(pos, matching(d, f1, equals)), at(pos, matching(d, f2, equals))
			for i := 0; i <= max(len(want1), len(want2)); i++ {
				p1, err1 := next1()
				p2, err2 := next2()
				for _, g := range []struct {
					f    filters
					want []int64
					got  *int64
					err  error
				}{{f1, want1, p1, err1}, {f2, want2, p2, err2}} {
					switch {
					case g.err != nil:
						rt.Fatalf("%v with %v, in turn with another search: %v", name, g.f, g.err)
					case i < len(g.want) && (g.got == nil || *g.got != g.want[i]), i >= len(g.want) && g.got != nil:
						rt.Fatalf("%v with %v, in turn with another search: step %d does not give the positions %v", name, g.f, i, g.want)
					}
				}
			}
		}
		k.Label(d.Kind)
		if interesting {
			k.Nontrivial(string(data), asked)
			k.Sample(fmt.Sprintf("%v\n%q\nfilters %v", kit.YAML(cfg), string(data), strings.Join(asked, " ; ")))
		}
	})

	// Arrays (map index) and nested properties.
	c.Prop("arrays", 1200, 30000, func(rt *rapid.T, k *kit.Case) {
		kind := rapid.SampledFrom([]string{"json", "csv", "xml"}).Draw(rt, "kind")
		n := rapid.IntRange(0, 8).Draw(rt, "rows")
		typ := rapid.SampledFrom([]string{kit.String, kit.Float, kit.Boolean, kit.Integer}).Draw(rt, "type")
		texts := rapid.StringMatching(`[abA]{1,2}`)
		if kind == "json" {
			texts = kit.ShortTexts()
			if typ == kit.Integer {
				typ = kit.Float
			}
		}
		pool := rapid.SliceOfN(kit.Values(typ, texts), 1, 5).Draw(rt, "pool")
		arrays := make([][]interface{}, n) // nil: no array
		single := make([]interface{}, n)
		for i := range arrays {
			single[i] = rapid.SampledFrom(pool).Draw(rt, "single")
			if kind == "json" && rapid.IntRange(0, 6).Draw(rt, "absent") == 0 {
				continue
			}
			minimum := 0
			if kind == "csv" {
				minimum = 1 // the split parser makes one item of an empty text
			}
			arrays[i] = rapid.SliceOfN(rapid.SampledFrom(pool), minimum, 5).Draw(rt, "array")
		}
		conf := kit.O{{"name", "in"}, {"type", kind}, {"path", "@DIR@/in"}, {"dieOnInputChange", false}}
		parsers := kit.L{}
		var data strings.Builder
		arrayProperty, singleProperty := "tags", "value"
		switch kind {
		case "json":
			nested := rapid.Bool().Draw(rt, "nested")
			if nested {
				arrayProperty, singleProperty = "o.tags", "o.deep.value"
			}
			for i := range arrays {
				m := map[string]interface{}{}
				if arrays[i] != nil {
					m["tags"] = arrays[i]
					if rapid.IntRange(0, 2).Draw(rt, "arrays of arrays") == 0 {
						m["tags"] = nest(rt, arrays[i])
						k.Label("arrays of arrays")
					}
				}
				doc := map[string]interface{}{"o": m, "id": i}
				if !nested {
					doc = m
					m["value"] = single[i]
				} else {
					m["deep"] = map[string]interface{}{"value": single[i]}
				}
				line, err := json.Marshal(doc)
				kit.Must(err)
				data.Write(line)
				data.WriteString("\n")
			}
			k.LabelIf(nested, "nested")
		case "csv":
			parsers = append(parsers, kit.O{{"name", "list"}, {"type", "split"}, {"delimiter", "|"}, {"parser", typ}})
			conf = append(conf, kit.KV{K: "columns", V: kit.L{kit.O{{"name", "tags"}, {"parser", "list"}}, kit.O{{"name", "value"}, {"parser", typ}}}})
			for i := range arrays {
				items := []string{}
				for _, v := range arrays[i] {
					items = append(items, kit.Text(v))
				}
				data.WriteString(strings.Join(items, "|") + "," + kit.Text(single[i]) + "\n")
			}
		case "xml":
			conf = append(conf, kit.KV{K: "recordXpath", V: "/root/rec"}, kit.KV{K: "properties", V: kit.L{
				kit.O{{"name", "tags"}, {"type", "array"}, {"xpath", "tag"}, {"items", kit.O{{"type", "primitive"}, {"xpath", "string(.)"}, {"parser", typ}}}},
				kit.O{{"name", "value"}, {"xpath", "string(value)"}, {"parser", typ}}}})
			data.WriteString("<root>")
			for i := range arrays {
				data.WriteString("<rec>")
				for _, v := range arrays[i] {
					data.WriteString("<tag>" + kit.Text(v) + "</tag>")
				}
				data.WriteString("<value>" + kit.Text(single[i]) + "</value></rec>")
			}
			data.WriteString("</root>")
		}
		cfg := kit.O{{"parsers", parsers}, {"inputs", kit.L{conf}}, {"indexes", kit.L{
			kit.O{{"name", "map"}, {"type", "map"}, {"input", "in"}, {"properties", kit.L{arrayProperty, singleProperty}}},
			kit.O{{"name", "sqlite"}, {"type", "sqlite"}, {"dsn", "@DIR@/index.sqlite"}, {"input", "in"}, {"properties", kit.L{kit.O{{"name", singleProperty}}}}}}}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in": []byte(data.String())})
		defer rig.Close()
		in := rig.Inputs["in"]
		pos, err := rowPositions(in, n)
		if err != nil {
			rt.Fatal(err)
		}
		interesting := false
		search := func(v interface{}, withSingle bool, w interface{}) {
			want := []int64{}
			wantSingle := []int64{}
			for i := range arrays {
				has := false
				for _, x := range arrays[i] {
					has = has || x == v
				}
				if has && (!withSingle || single[i] == w) {
					want = append(want, pos[i])
				}
				if single[i] == v {
					wantSingle = append(wantSingle, pos[i])
				}
			}
			f := filters{{arrayProperty, v}}
			if withSingle {
				f = append(f, filter{singleProperty, w})
			}
			if err := lookup(rig.Indexes["map"], in, f, want); err != nil {
				rt.Fatalf("map with %v: %v", f, err)
			}
			for _, name := range []string{"map", "sqlite", "default"} {
				if err := lookup(rig.Indexes[name], in, filters{{singleProperty, v}}, wantSingle); err != nil {
					rt.Fatalf("%v with %v: %v", name, kit.Show(v), err)
				}
			}
			interesting = interesting || len(want) > 0 && len(want) < n
		}
		for _, v := range pool {
			search(v, false, nil)
			search(v, true, rapid.SampledFrom(pool).Draw(rt, "and"))
		}
		search(kit.Values(typ, texts).Draw(rt, "other"), false, nil)
		k.Label(kind + " of " + typ)
		if interesting {
			k.Nontrivial(data.String())
			k.Sample(fmt.Sprintf("%v\n%v", kit.YAML(cfg), data.String()))
		}
	})

	c.Prop("large", 15, 300, func(rt *rapid.T, k *kit.Case) {
		n := rapid.IntRange(500, 3000).Draw(rt, "n")
		kind := rapid.SampledFrom([]string{"csv", "json", "xml"}).Draw(rt, "kind")
		seed := rapid.Uint64Range(1, 1<<60).Draw(rt, "seed")
		rnd := func(n int) int {
			seed ^= seed << 13
			seed ^= seed >> 7
			seed ^= seed << 17
			return int(seed % uint64(n))
		}
		d := &kit.Dataset{Kind: kind, Cols: []kit.Col{{Name: "a", Type: kit.String}, {Name: "b", Type: kit.Float}, {Name: "c", Type: kit.Boolean}, {Name: "d", Type: kit.String}}}
		for i := 0; i < n; i++ {
			d.Rows = append(d.Rows, kit.Row{"a": fmt.Sprint("v", rnd(10)), "b": float64(rnd(50)), "c": rnd(2) == 0, "d": fmt.Sprint(rnd(n))})
		}
		conf, data := d.Render(rt, "in", "in")
		cfg := kit.O{{"inputs", kit.L{conf}}, {"indexes", exactIndexes([]string{"a", "b", "c", "d"}, dsns().Draw(rt, "dsn"))}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in": data})
		defer rig.Close()
		in := rig.Inputs["in"]
		pos, err := rowPositions(in, n)
		if err != nil {
			rt.Fatal(err)
		}
		for q := 0; q < 12; q++ {
			f := drawFilters(rt, d, d.Cols, 4, kit.ShortTexts())
			want := at(pos, matching(d, f, equals))
			names := []string{"map", "sqlite"}
			if q < 2 {
				names = append(names, "default")
			}
			for _, name := range names {
				if err := lookup(rig.Indexes[name], in, f, want); err != nil {
					rt.Fatalf("%v with %v: %v", name, f, err)
				}
			}
		}
		k.Label(kind)
		k.Nontrivial(kind, n, seed)
	})

	// Indexes of thousands of different values.
	c.Prop("many values", 3, 40, func(rt *rapid.T, k *kit.Case) {
		n := rapid.SampledFrom([]int{9000, 17000, 34000, 66500}).Draw(rt, "n")
		kind := rapid.SampledFrom([]string{"csv", "json"}).Draw(rt, "kind")
		step := rapid.SampledFrom([]int{1, 7, 1 << 20}).Draw(rt, "step")
		d := &kit.Dataset{Kind: kind, Cols: []kit.Col{{Name: "a", Type: kit.String}, {Name: "b", Type: kit.Float}}}
		for i := 0; i < n; i++ {
			d.Rows = append(d.Rows, kit.Row{"a": fmt.Sprint("v", i*step), "b": float64(i * step / 2)})
		}
		conf, data := d.Render(rt, "in", "in")
		cfg := kit.O{{"inputs", kit.L{conf}}, {"indexes", exactIndexes([]string{"a", "b"}, dsns().Draw(rt, "dsn"))}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in": data})
		defer rig.Close()
		in := rig.Inputs["in"]
		pos, err := rowPositions(in, n)
		if err != nil {
			rt.Fatal(err)
		}
		rows := []int{0, 1, n - 1, n - 2, n / 2, 4095, 4096, 8191, 8192}
		for i := 0; i < 40; i++ {
			rows = append(rows, rapid.IntRange(0, n-1).Draw(rt, "row"))
		}
		for _, i := range rows {
			f := filters{{"a", d.Rows[i]["a"]}}
			if i%3 == 0 {
				f = filters{{"b", d.Rows[i]["b"]}}
			}
			if i%3 == 1 {
				f = append(f, filter{"b", d.Rows[i]["b"]})
			}
			want := at(pos, matching(d, f, equals))
			for _, name := range []string{"map", "sqlite"} {
				if err := lookup(rig.Indexes[name], in, f, want); err != nil {
					rt.Fatalf("%v with %v, the record %d of %d different ones: %v", name, f, i, n, err)
				}
			}
		}
		for _, f := range []filters{{{"a", fmt.Sprint("v", n*step)}}, {{"a", "v"}}, {{"b", -1.0}}, {{"a", "v0"}, {"b", float64(step)}}} {
			want := at(pos, matching(d, f, equals))
			for _, name := range []string{"map", "sqlite"} {
				if err := lookup(rig.Indexes[name], in, f, want); err != nil {
					rt.Fatalf("%v with %v, among %d different records: %v", name, f, n, err)
				}
			}
		}
		k.LabelIf(n > 10000, "more than 10000 values")
		k.Nontrivial(kind, n, step)
	})

	// Records whose arrays have thousands of values.
	c.Prop("long arrays", 20, 400, func(rt *rapid.T, k *kit.Case) {
		kind := rapid.SampledFrom([]string{"csv", "json", "xml"}).Draw(rt, "kind")
		sizes := []int{1, 2, 255, 256, 257, 300, 600, 1000, 1001, 3000}
		n := rapid.IntRange(1, 4).Draw(rt, "rows")
		csv, xml, lines := "", "<root>", ""
		arrays := make([][]string, n)
		has := make([]map[string]bool, n)
		for i := range arrays {
			from, step := rapid.IntRange(0, 500).Draw(rt, "from"), rapid.IntRange(1, 3).Draw(rt, "step")
			has[i] = map[string]bool{}
			for j := rapid.SampledFrom(sizes).Draw(rt, "values"); j > 0; j-- {
				v := fmt.Sprint("v", from+j*step)
				arrays[i] = append(arrays[i], v)
				has[i][v] = true
			}
			csv += strings.Join(arrays[i], "|") + "\n"
			lines += "{\"l\": [\"" + strings.Join(arrays[i], "\", \"") + "\"]}\n"
			xml += "<rec><i>" + strings.Join(arrays[i], "</i><i>") + "</i></rec>"
		}
		conf := kit.O{{"name", "in"}, {"type", kind}, {"path", "@DIR@/in"}, {"dieOnInputChange", false}}
		data := lines
		switch kind {
		case "csv":
			conf = append(conf, kit.KV{K: "columns", V: kit.L{kit.O{{"name", "l"}, {"parser", "list"}}}})
			data = csv
		case "xml":
			conf = append(conf, kit.KV{K: "recordXpath", V: "/root/rec"}, kit.KV{K: "properties", V: kit.L{kit.O{{"name", "l"}, {"type", "array"}, {"xpath", "i"}, {"items", kit.O{{"xpath", "string(.)"}}}}}})
			data = xml + "</root>"
		}
		cfg := kit.O{{"parsers", kit.L{kit.O{{"name", "list"}, {"type", "split"}, {"delimiter", "|"}, {"parser", "string"}}}}, {"inputs", kit.L{conf}},
			{"indexes", kit.L{kit.O{{"name", "map"}, {"type", "map"}, {"input", "in"}, {"properties", kit.L{"l"}}}}}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in": []byte(data)})
		defer rig.Close()
		pos, err := rowPositions(rig.Inputs["in"], n)
		if err != nil {
			rt.Fatal(err)
		}
		asked := []string{"v0", "v", "v9999"}
		for _, values := range arrays {
			for _, i := range []int{0, 1, 254, 255, 256, 257, 999, 1000, len(values) - 1, len(values) - 2, rapid.IntRange(0, len(values)-1).Draw(rt, "i")} {
				if i >= 0 && i < len(values) {
					asked = append(asked, values[i])
				}
			}
		}
		for _, v := range asked {
			want := []int64{}
			for i := range arrays {
				if has[i][v] {
					want = append(want, pos[i])
				}
			}
			if err := lookup(rig.Indexes["map"], rig.Inputs["in"], filters{{"l", v}}, want); err != nil {
				rt.Fatalf("%v, arrays of %v values, with %v: %v", kind, len(arrays[0]), v, err)
			}
		}
		k.Label("long arrays in " + kind)
		k.Nontrivial(data)
		k.Sample(clippedText(data))
	})

	// Searches with thousands of matches.
	c.Prop("many matches", 6, 150, func(rt *rapid.T, k *kit.Case) {
		d, conf, data := manyRows(rt, []string{"x", "y", ""})
		cfg := kit.O{{"inputs", kit.L{conf}}, {"indexes", exactIndexes([]string{"a", "b"}, dsns().Draw(rt, "dsn"))}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in": data})
		defer rig.Close()
		in := rig.Inputs["in"]
		pos, err := rowPositions(in, len(d.Rows))
		if err != nil {
			rt.Fatal(err)
		}
		most := 0
		for _, f := range []filters{{{"a", "x"}}, {{"a", "y"}}, {{"a", ""}}, {{"b", "usual"}}, {{"b", "rare"}}, {{"a", "x"}, {"b", "usual"}}, {{"a", "x"}, {"b", "rare"}}} {
			want := at(pos, matching(d, f, equals))
			most = max(most, len(want))
			for _, name := range []string{"map", "sqlite", "default"} {
				if err := lookup(rig.Indexes[name], in, f, want); err != nil {
					rt.Fatalf("%v with %v, %d matches: %v", name, f, len(want), clipped(err))
				}
			}
		}
		k.LabelIf(most > 4000, "more than 4000 matches")
		k.Nontrivial(string(data))
	})

	// Values of several types in one property: 1 is not "1", nor true "true", nor null "".
	c.Prop("mixed types", 400, 10000, func(rt *rapid.T, k *kit.Case) {
		mixed := []interface{}{"1", 1.0, "0", 0.0, "", "x", "-1.5", -1.5, "1e3", 1000.0, "1000"}
		names := []string{"map", "sqlite", "default"}
		if rapid.Bool().Draw(rt, "booleans") {
			// SQLite stores booleans as numbers.
			mixed = append(mixed, "true", true, "false", false, "null", "nil", "<nil>")
			names = []string{"map", "default"}
		}
		pool := rapid.SliceOfNDistinct(rapid.SampledFrom(mixed), 2, 6, func(v interface{}) string { return kit.Show(v) }).Draw(rt, "pool")
		values := []interface{}{}
		var data strings.Builder
		n := rapid.IntRange(2, 8).Draw(rt, "documents")
		for i := 0; i < n; i++ {
			m := map[string]interface{}{"w": "w"}
			values = append(values, rapid.SampledFrom(append(pool, nil)).Draw(rt, "value"))
			if values[i] != nil || rapid.Bool().Draw(rt, "null") {
				m["v"] = values[i]
			}
			m["l"] = []interface{}{values[i], "other"}
			data.WriteString(kit.JSONText(rt, m) + "\n")
		}
		conf := kit.O{{"name", "in"}, {"type", "json"}, {"path", "@DIR@/in"}, {"dieOnInputChange", false}}
		indexes := exactIndexes([]string{"v", "w"}, "@DIR@/index.sqlite")
		indexes = append(indexes, kit.O{{"name", "lists"}, {"type", "map"}, {"input", "in"}, {"properties", kit.L{"l"}}})
		cfg := kit.O{{"inputs", kit.L{conf}}, {"indexes", indexes}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in": []byte(data.String())})
		defer rig.Close()
		in := rig.Inputs["in"]
		pos, err := rowPositions(in, n)
		if err != nil {
			rt.Fatal(err)
		}
		interesting := false
		for _, v := range mixed {
			want := []int64{}
			for i, w := range values {
				if w == v {
					want = append(want, pos[i])
				}
			}
			interesting = interesting || len(want) > 0 && len(want) < n
			for _, name := range names {
				for _, f := range []filters{{{"v", v}}, {{"v", v}, {"w", "w"}}} {
					if err := lookup(rig.Indexes[name], in, f, want); err != nil {
						rt.Fatalf("%v with %v: %v", name, f, err)
					}
				}
			}
			if err := lookup(rig.Indexes["lists"], in, filters{{"l", v}}, want); err != nil {
				rt.Fatalf("map of lists with %v: %v", kit.Show(v), err)
			}
		}
		if interesting {
			k.Nontrivial(data.String())
			k.Sample(data.String())
		}
	})

	// Filters that are arrays, objects or null: an answer or an error, never a crash.
	c.Prop("structured filters", 150, 3000, func(rt *rapid.T, k *kit.Case) {
		n := rapid.IntRange(1, 6).Draw(rt, "documents")
		pool := rapid.SliceOfN(kit.JSONValue(2), 1, 4).Draw(rt, "pool")
		var data strings.Builder
		values := []interface{}{}
		allScalar := true
		for i := 0; i < n; i++ {
			v := rapid.SampledFrom(pool).Draw(rt, "value")
			values = append(values, v)
			switch v.(type) {
			case map[string]interface{}, []interface{}:
				allScalar = false
			}
			data.WriteString(kit.JSONText(rt, map[string]interface{}{"v": v, "s": "x"}) + "\n")
		}
		conf := kit.O{{"name", "in"}, {"type", "json"}, {"path", "@DIR@/in"}, {"dieOnInputChange", false}}
		indexed := "s"
		if allScalar {
			indexed = "v"
		}
		cfg := kit.O{{"inputs", kit.L{conf}}, {"indexes", exactIndexes([]string{indexed}, dsns().Draw(rt, "dsn"))}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in": []byte(data.String())})
		defer rig.Close()
		in := rig.Inputs["in"]
		pos, err := rowPositions(in, n)
		if err != nil {
			rt.Fatal(err)
		}
		structured := false
		for _, v := range append(pool, []interface{}{}, map[string]interface{}{}, []interface{}{"x"}, nil) {
			_, isMap := v.(map[string]interface{})
			_, isArray := v.([]interface{})
			structured = structured || isMap || isArray
			for _, name := range []string{"map", "sqlite"} {
				next, err := rig.Indexes[name].GetRecordPositions(in, map[string]interface{}{indexed: v})
				if err == nil {
					_, _ = positions(next, err)
				}
			}
			if v == nil {
				continue
			}
			want := []int64{}
			for i, w := range values {
				if kit.SameValue(w, v) {
					want = append(want, pos[i])
				}
			}
			if err := lookup(rig.Indexes["default"], in, filters{{"v", v}}, want); err != nil {
				rt.Fatalf("default with %v: %v", kit.Show(v), err)
			}
		}
		if structured {
			k.Nontrivial(data.String())
		}
	})
}

// Moves some of the items of an array into arrays of their own, at any depth.
func nest(rt *rapid.T, items []interface{}) []interface{} {
	stack := [][]interface{}{{}}
	up := func() {
		last := len(stack) - 1
		stack[last-1] = append(stack[last-1], interface{}(stack[last]))
		stack = stack[:last]
	}
	for _, item := range items {
		switch rapid.IntRange(0, 3).Draw(rt, "level") {
		case 0:
			stack = append(stack, []interface{}{})
		case 1:
			if len(stack) > 1 {
				up()
			}
		}
		stack[len(stack)-1] = append(stack[len(stack)-1], item)
	}
	for len(stack) > 1 {
		up()
	}
	return stack[0]
}
