package checks

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"rodbverif/kit"
)

func TestC04(t *testing.T) {
	c := kit.Begin(t, "C04", "A case is one generated XML document with records at the places its record expression selects (and similar elements elsewhere), and a generated property configuration; every record is compared to the expressions evaluated on the model of the document. Non-trivial: at least one record has a property with a specified non-empty value of an array, object, number, boolean or selected node; distinct by document and configuration.")
	c.Prop("documents", 1800, 50000, func(rt *rapid.T, k *kit.Case) {
		d := kit.XDocs(8).Draw(rt, "document")
		cfg := kit.O{{"inputs", kit.L{d.Config("in", "in.xml")}}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in.xml": d.Data})
		defer rig.Close()
		items, err := iterate(rig.Inputs["in"])
		if err != nil {
			rt.Fatalf("after %d of %d records: %v", len(items), len(d.Records), err)
		}
		if len(items) != len(d.Records) {
			rt.Fatalf("%d records instead of %d", len(items), len(d.Records))
		}
		interesting := false
		errors := false
		for i, r := range d.Records {
			anyErr, unspecified := false, false
			for _, p := range d.Props {
				want := p.Eval(r)
				anyErr = anyErr || want.Err
				unspecified = unspecified || want.Unspecified
				if want.Unspecified {
					continue
				}
				got, err := items[i].record.Get(p.Name)
				if want.Err {
					errors = true
					if err == nil {
						rt.Fatalf("record %d: %v (%v) with parser %v is %v instead of an error", i, p.Name, p.Expression(), p.Parser, kit.Show(got))
					}
					continue
				}
				if err != nil || !kit.SameValue(got, want.Value) {
					rt.Fatalf("record %d: %v (%v) is %v, %v instead of %v", i, p.Name, p.Expression(), kit.Show(got), err, kit.Show(want.Value))
				}
				if items[i].allErr == nil {
					v, ok := items[i].all[p.Name]
					if !ok || !kit.SameValue(v, want.Value) {
						rt.Fatalf("record %d: in the full record, %v (%v) is %v instead of %v", i, p.Name, p.Expression(), kit.Show(v), kit.Show(want.Value))
					}
				}
				switch v := want.Value.(type) {
				case []interface{}:
					interesting = interesting || len(v) > 0
					k.LabelIf(len(v) > 0, "array with items")
				case map[string]interface{}:
					interesting = true
					k.Label("object")
				case string:
					interesting = interesting || v != ""
				case float64, int64, bool:
					interesting = true
					k.Label(fmt.Sprintf("%T", v))
				}
			}
			if !unspecified && anyErr != (items[i].allErr != nil) {
				rt.Fatalf("record %d: the full record gives error %v (a property is invalid: %v)", i, items[i].allErr, anyErr)
			}
			if items[i].allErr == nil && len(items[i].all) != len(d.Props) {
				rt.Fatalf("record %d: properties %v", i, kit.SortedKeys(items[i].all))
			}
		}
		k.Label("records " + d.RecordXPath)
		k.LabelIf(errors, "with a value that does not fit")
		if interesting {
			k.Nontrivial(kit.YAML(cfg), string(d.Data))
			k.Sample(fmt.Sprintf("%v\n%v", kit.YAML(cfg), string(d.Data)))
		}
	})

	// Values that cannot be evaluated or do not fit a parser must be errors, never crashes.
	misfits := []struct{ xpath, parser string }{
		{"number(string(x))", "float"}, {"number('abc')", "float"}, {"floor(string(x))", "float"}, {"round(concat(x, 'z'))", "integer"},
		{"string-length(x)", "string"}, {"count(x)", "boolean"}, {"count(x)", "string"}, {"boolean(x)", "string"}, {"boolean(x)", "integer"},
		{"not(x)", "float"}, {"x", "integer"}, {"x", "boolean"}, {"x", "float"}, {"string(x)", "integer"}, {"string(x)", "float"}, {"string(x)", "boolean"},
		{"number('1e30')", "integer"}, {"number('-1e30')", "integer"}, {"number('NaN')", "integer"}, {"number('Inf')", "integer"}, {"9223372036854775808", "integer"},
		{"x[number(string(.)) > 1]", "string"},
	}
	c.Enum("misfits", func(t *testing.T, account func(*kit.Case)) {
		for _, m := range misfits {
			for _, nested := range []string{"primitive", "array", "object"} {
				prop := kit.O{{"name", "p"}, {"xpath", m.xpath}, {"parser", m.parser}}
				switch nested {
				case "array":
					prop = kit.O{{"name", "p"}, {"type", "array"}, {"xpath", "/w"}, {"items", prop.Without("name")}}
				case "object":
					prop = kit.O{{"name", "p"}, {"type", "object"}, {"xpath", "/w"}, {"properties", kit.L{prop}}}
				}
				conf := kit.O{{"name", "in"}, {"type", "xml"}, {"path", "@DIR@/in.xml"}, {"recordXpath", "/root/rec"}, {"dieOnInputChange", false}, {"properties", kit.L{prop}}}
				content := "<x>abc</x>"
				if nested != "primitive" {
					content = "<w>" + content + "</w>"
				}
				data := "<root><rec>" + content + "</rec><rec>" + strings.ReplaceAll(content, "abc", "def") + "</rec></root>"
				rig := kit.MustStart(t, kit.O{{"inputs", kit.L{conf}}}, kit.Files{"in.xml": []byte(data)})
				func() {
					defer rig.Close()
					defer func() {
						if p := recover(); p != nil {
							t.Fatalf("%v with parser %v (%v) crashes: %v", m.xpath, m.parser, nested, p)
						}
					}()
					items, err := iterate(rig.Inputs["in"])
					if err != nil || len(items) != 2 {
						t.Fatalf("%d records, %v", len(items), err)
					}
					for i, it := range items {
						if it.allErr == nil {
							t.Fatalf("%v with parser %v (%v): record %d is %v instead of an error", m.xpath, m.parser, nested, i, kit.Show(it.all))
						}
						paths := map[string][]string{"primitive": {"p"}, "array": {"p", "p.0"}, "object": {"p", "p.p"}}[nested]
						for _, path := range paths {
							if v, err := it.record.Get(path); err == nil {
								t.Fatalf("%v with parser %v (%v): record %d: %v is %v instead of an error", m.xpath, m.parser, nested, i, path, kit.Show(v))
							}
						}
					}
				}()
				k := &kit.Case{}
				k.Nontrivial(m.xpath, m.parser, nested)
				account(k)
			}
		}
	})

	// Arrays of thousands of items, long texts, and many properties and records.
	c.Prop("large", 40, 1000, func(rt *rapid.T, k *kit.Case) {
		kind := rapid.SampledFrom([]string{"items", "nested items", "long texts", "records"}).Draw(rt, "kind")
		sizes := []int{1, 20, 254, 255, 256, 257, 300, 999, 1000, 1001, 2500}
		records := rapid.IntRange(1, 3).Draw(rt, "records")
		if kind == "records" {
			records = rapid.SampledFrom([]int{255, 256, 257, 1000, 1001, 3000}).Draw(rt, "manyRecords")
			sizes = []int{0, 1, 2}
		}
		properties := kit.L{
			kit.O{{"name", "texts"}, {"type", "array"}, {"xpath", "i"}, {"items", kit.O{{"xpath", "string(t)"}}}},
			kit.O{{"name", "objects"}, {"type", "array"}, {"xpath", "i"}, {"items", kit.O{{"type", "object"}, {"xpath", "."}, {"properties", kit.L{
				kit.O{{"name", "n"}, {"xpath", "string(@n)"}, {"parser", "integer"}}, kit.O{{"name", "t"}, {"xpath", "string(t)"}}}}}}},
			kit.O{{"name", "arrays"}, {"type", "array"}, {"xpath", "g"}, {"items", kit.O{{"type", "array"}, {"xpath", "i"}, {"items", kit.O{{"xpath", "string(@n)"}, {"parser", "integer"}}}}}},
			kit.O{{"name", "count"}, {"xpath", "count(i)"}, {"parser", "integer"}},
			kit.O{{"name", "last"}, {"xpath", "string(i[last()]/t)"}},
			kit.O{{"name", "long"}, {"xpath", "string(long)"}},
			kit.O{{"name", "length"}, {"xpath", "string-length(long)"}, {"parser", "integer"}},
		}
		more := 0
		if kind == "items" {
			more = rapid.SampledFrom([]int{0, 10, 40, 120}).Draw(rt, "moreProperties")
		}
		for i := 0; i < more; i++ {
			properties = append(properties, kit.O{{"name", fmt.Sprint("p", i)}, {"xpath", fmt.Sprintf("string(i[%d]/t)", i+1)}})
		}
		type record = map[string]interface{}
		want := []record{}
		data := strings.Builder{}
		data.WriteString("<root>")
		for r := 0; r < records; r++ {
			n := rapid.SampledFrom(sizes).Draw(rt, "items")
			texts, objects, arrays := []interface{}{}, []interface{}{}, []interface{}{}
			data.WriteString("<rec>")
			item := func(i int) string { return fmt.Sprintf("<i n=\"%d\"><t>%d of %d</t></i>", i, i, r) }
			for i := 0; i < n; i++ {
				texts = append(texts, fmt.Sprintf("%d of %d", i, r))
				objects = append(objects, record{"n": int64(i), "t": fmt.Sprintf("%d of %d", i, r)})
				data.WriteString(item(i))
			}
			w := record{"texts": texts, "objects": objects, "count": int64(n), "last": "", "long": "", "length": int64(0)}
			for i := 0; i < more; i++ {
				w[fmt.Sprint("p", i)] = ""
				if i < n {
					w[fmt.Sprint("p", i)] = texts[i]
				}
			}
			if n > 0 {
				w["last"] = texts[n-1]
			}
			if kind == "nested items" {
				for g := rapid.SampledFrom([]int{1, 2, 255, 256, 300}).Draw(rt, "groups"); g > 0; g-- {
					inner := []interface{}{}
					data.WriteString("<g>")
					for i := 0; i < g%7; i++ {
						inner = append(inner, int64(i))
						data.WriteString(item(i))
					}
					if g == 1 {
						for i := len(inner); i < n; i++ {
							inner = append(inner, int64(i))
							data.WriteString(item(i))
						}
					}
					data.WriteString("</g>")
					arrays = append(arrays, inner)
				}
			}
			w["arrays"] = arrays
			if kind == "long texts" {
				unit := rapid.SampledFrom([]string{"x", "é", "a b", "<&>"}).Draw(rt, "unit")
				length := rapid.SampledFrom([]int{1, 1000, 1024, 4096, 65535, 65536, 65537, 200000}).Draw(rt, "length")
				long := strings.Repeat(unit, length)
				w["long"], w["length"] = long, int64(len(long))
				if unit == "é" { // The expressions count bytes
					delete(w, "length")
				}
				data.WriteString("<long>" + kit.XMLEscape(long) + "</long>")
			}
			data.WriteString("</rec>")
			want = append(want, w)
		}
		data.WriteString("</root>")
		cfg := kit.O{{"inputs", kit.L{kit.O{{"name", "in"}, {"type", "xml"}, {"path", "@DIR@/in.xml"}, {"recordXpath", "/root/rec"}, {"dieOnInputChange", false}, {"properties", properties}}}}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in.xml": []byte(data.String())})
		defer rig.Close()
		items, err := iterate(rig.Inputs["in"])
		if err != nil || len(items) != len(want) {
			rt.Fatalf("%d records instead of %d, %v", len(items), len(want), err)
		}
		for i, it := range items {
			if it.allErr != nil {
				rt.Fatalf("record %d: %v", i, it.allErr)
			}
			for name, v := range want[i] {
				if !kit.SameValue(it.all[name], v) {
					rt.Fatalf("record %d: %v is %v instead of %v", i, name, clippedText(kit.Show(it.all[name])), clippedText(kit.Show(v)))
				}
				got, err := it.record.Get(name)
				if err != nil || !kit.SameValue(got, v) {
					rt.Fatalf("record %d: %v gives %v, %v instead of %v", i, name, clippedText(kit.Show(got)), err, clippedText(kit.Show(v)))
				}
			}
		}
		k.Label("large " + kind)
		k.Nontrivial(clippedText(kit.YAML(cfg)), data.String())
		k.Sample(fmt.Sprintf("%v: %d records, %d properties, %d bytes", kind, records, len(properties), data.Len()))
	})
}
