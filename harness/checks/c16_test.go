package checks

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"rodbverif/kit"
)

func TestC16(t *testing.T) {
	c := kit.Begin(t, "C16", "A case is one generated configuration with sorted array relationships (1-3 sort properties of any type, each ascending or not, with and without limits) and several requests; the related records are compared with the model sorted independently. Non-trivial: a sorted list of at least three records whose order differs from the input's; distinct by data, configuration and request.")

	request := func(rt *rapid.T, k *kit.Case, w *world, rig *kit.Rig) {
		out := rapid.SampledFrom(w.outputs).Draw(rt, "output")
		values := w.drawValues(rt, out)
		target := out.target(rt, values, nil)
		resp := rig.Get(target)
		if err := w.check(resp, out, values); err != nil {
			rt.Fatalf("GET %v: %v", target, err)
		}
		for _, i := range window(w.rows(out, values), 0, out.def) {
			for _, r := range out.rels {
				related := w.related(w.input(out.input).d.Rows[i], r)
				reordered, ties, limited := false, false, r.limit > 0 && r.limit < len(related)
				for j := 1; j < len(related); j++ {
					order := r.compare(related[j-1], related[j])
					reordered = reordered || order > 0
					ties = ties || order == 0
				}
				k.LabelIf(len(r.sorts) > 0 && ties, "ties of all the keys")
				k.LabelIf(len(r.sorts) > 1 && reordered, "several keys")
				k.LabelIf(len(r.sorts) > 0 && reordered && limited, "limited")
				if len(related) > 2 && reordered {
					k.Nontrivial(w.String(), target)
					k.Sample(fmt.Sprintf("%vGET %v", w, target))
				}
			}
			if !out.array {
				break
			}
		}
	}
	opts := worldOpts{minInputs: 1, maxInputs: 2, minOutputs: 1, maxOutputs: 2, indexKinds: []string{"map", "sqlite"}, minRows: 3, maxRows: 20, arrays: true, objects: true, maxParams: 1, relDepth: 2, maxRels: 2, alwaysRels: true, sorts: true, poolMax: 4}
	c.Prop("requests", 900, 30000, func(rt *rapid.T, k *kit.Case) {
		w := drawWorld(rt, opts)
		rig := kit.MustStart(rt, w.config(), w.files())
		defer rig.Close()
		for q := rapid.IntRange(1, 4).Draw(rt, "requests"); q > 0; q-- {
			request(rt, k, w, rig)
		}
	})

	// One parent value related to many records: the sort of long lists.
	longLists := func(rt *rapid.T, k *kit.Case, thousands bool) {
		w := &world{}
		parent := &kit.Dataset{Kind: "csv", Cols: []kit.Col{{Name: "p", Type: kit.String}}, Rows: []kit.Row{{"p": "x"}}}
		conf, data := parent.Render(rt, "in0", "in0.data")
		w.inputs = append(w.inputs, &wInput{"in0", parent, conf, data})
		kind := rapid.SampledFrom([]string{"csv", "json", "xml"}).Draw(rt, "kind")
		d := &kit.Dataset{Kind: kind, Cols: []kit.Col{{Name: "p", Type: kit.String}, {Name: "n", Type: kit.Float}}}
		pools := [][]interface{}{}
		for i := rapid.IntRange(1, 3).Draw(rt, "keys"); i > 0; i-- {
			types := []string{kit.String, kit.Float, kit.Boolean, kit.Integer}
			if kind == "json" {
				types = types[:3]
			}
			typ := rapid.SampledFrom(types).Draw(rt, "type")
			d.Cols = append(d.Cols, kit.Col{Name: fmt.Sprintf("k%d", len(pools)), Type: typ})
			pools = append(pools, kit.Lengthened(rt, rapid.SliceOfN(kit.Values(typ, kit.ShortTexts()), 1, rapid.SampledFrom([]int{2, 4, 40}).Draw(rt, "poolMax")).Draw(rt, "pool"), false))
		}
		rows := rapid.IntRange(10, 120).Draw(rt, "rows")
		pick := func(n int) int { return rapid.IntRange(0, n-1).Draw(rt, "v") }
		if thousands {
			rows = rapid.SampledFrom([]int{1100, 1500, 2300}).Draw(rt, "many rows")
			seed := rapid.Uint64Range(1, 1<<60).Draw(rt, "seed")
			pick = func(n int) int {
				seed ^= seed << 13
				seed ^= seed >> 7
				seed ^= seed << 17
				return int((seed >> 10) % uint64(n))
			}
		}
		for i := rows; i > 0; i-- {
			row := kit.Row{"p": "x", "n": float64(len(d.Rows))}
			for j := range pools {
				row[fmt.Sprintf("k%d", j)] = pools[j][pick(len(pools[j]))]
			}
			if pick(10) == 0 {
				row["p"] = "y"
			}
			d.Rows = append(d.Rows, row)
		}
		conf, data = d.Render(rt, "in1", "in1.data")
		w.inputs = append(w.inputs, &wInput{"in1", d, conf, data})
		r := &wRel{name: "rel", input: "in1", array: true, match: []wMatch{{"p", "p", "default"}}}
		sorts := kit.L{}
		for j := range pools {
			s := wSort{fmt.Sprintf("k%d", j), rapid.Bool().Draw(rt, "ascending")}
			r.sorts = append(r.sorts, s)
			sorts = append(sorts, kit.O{{"property", s.property}, {"ascending", s.ascending}})
		}
		r.conf = kit.O{{"input", "in1"}, {"isArray", true}, {"match", kit.L{kit.O{{"parentProperty", "p"}, {"childProperty", "p"}}}}, {"sort", sorts}}
		if rapid.Bool().Draw(rt, "limited") {
			r.limit = rapid.IntRange(1, rapid.SampledFrom([]int{60, rows}).Draw(rt, "most")).Draw(rt, "limit")
			r.conf = append(r.conf, kit.KV{K: "limit", V: r.limit})
		}
		out := &wOutput{name: "out0", array: true, input: "in0", def: 100, rels: []*wRel{r}, path: "/out0",
			conf: kit.O{{"name", "out0"}, {"type", "jsonArray"}, {"input", "in0"}, {"relationships", relConf([]*wRel{r})}}}
		w.outputs = append(w.outputs, out)
		rig := kit.MustStart(rt, w.config(), w.files())
		defer rig.Close()
		request(rt, k, w, rig)
	}
	c.Prop("long lists", 500, 12000, func(rt *rapid.T, k *kit.Case) { longLists(rt, k, false) })
	c.Prop("thousands of related records", 8, 200, func(rt *rapid.T, k *kit.Case) { longLists(rt, k, true) })

	// Sort properties inside of objects and arrays.
	c.Prop("nested properties", 200, 5000, func(rt *rapid.T, k *kit.Case) {
		type key struct {
			property  string
			ascending bool
		}
		keys := []key{}
		for _, p := range rapid.Permutation([]string{"y.z", "y.w", "y.in.k", "l.0", "l.1", "n", "y.o.1.k"}).Draw(rt, "properties")[:rapid.IntRange(1, 3).Draw(rt, "keys")] {
			keys = append(keys, key{p, rapid.Bool().Draw(rt, "ascending")})
		}
		numbers := rapid.Bool().Draw(rt, "numbers")
		value := func() interface{} {
			v := rapid.IntRange(0, 4).Draw(rt, "v")
			if numbers {
				return float64(v*7 - 9)
			}
			return []string{"", "a", "B", "aa", "é"}[v]
		}
		var data strings.Builder
		docs := map[float64]map[string]interface{}{}
		n := rapid.IntRange(2, 12).Draw(rt, "documents")
		for i := 0; i < n; i++ {
			m := map[string]interface{}{"z": value(), "w": value(), "k": value(), "0": value(), "1": value(), "ok": value()}
			docs[float64(i)] = map[string]interface{}{"y.z": m["z"], "y.w": m["w"], "y.in.k": m["k"], "l.0": m["0"], "l.1": m["1"], "n": float64(i), "y.o.1.k": m["ok"]}
			data.WriteString(kit.JSONText(rt, map[string]interface{}{"p": "x", "n": float64(i), "l": []interface{}{m["0"], m["1"]},
				"y": map[string]interface{}{"z": m["z"], "w": m["w"], "in": map[string]interface{}{"k": m["k"]}, "o": []interface{}{nil, map[string]interface{}{"k": m["ok"]}}}}) + "\n")
		}
		sorts := kit.L{}
		for _, s := range keys {
			sorts = append(sorts, kit.O{{"property", s.property}, {"ascending", s.ascending}})
		}
		rel := kit.O{{"input", "in"}, {"isArray", true}, {"match", kit.L{kit.O{{"parentProperty", "p"}, {"childProperty", "p"}}}}, {"sort", sorts}}
		limit := n
		if rapid.Bool().Draw(rt, "limited") {
			limit = rapid.IntRange(1, n).Draw(rt, "limit")
			rel = append(rel, kit.KV{K: "limit", V: limit})
		}
		cfg := kit.O{
			{"inputs", kit.L{
				kit.O{{"name", "in"}, {"type", "json"}, {"path", "@DIR@/in"}, {"dieOnInputChange", false}},
				kit.O{{"name", "parent"}, {"type", "csv"}, {"path", "@DIR@/parent"}, {"dieOnInputChange", false}, {"columns", kit.L{kit.O{{"name", "p"}}}}},
			}},
			{"outputs", kit.L{kit.O{{"name", "out"}, {"type", "jsonArray"}, {"input", "parent"}, {"relationships", kit.O{{"rel", rel}}}}}},
			{"services", kit.L{kit.O{{"name", "http"}, {"type", "http"}, {"http", kit.O{{"listen", "127.0.0.1:0"}}}, {"routes", kit.L{kit.O{{"path", "/"}, {"output", "out"}}}}}}},
		}
		rig := kit.MustStart(rt, cfg, kit.Files{"in": []byte(data.String()), "parent": []byte("x\n")})
		defer rig.Close()
		compare := func(a, b float64) int {
			for _, s := range keys {
				c := compareValues(docs[a][s.property], docs[b][s.property])
				if !s.ascending {
					c = -c
				}
				if c != 0 {
					return c
				}
			}
			return 0
		}
		decoded, err := answered(rig.Get("/"), 200)
		if err != nil {
			rt.Fatal(err)
		}
		order := []float64{}
		for _, child := range decoded.([]interface{})[0].(map[string]interface{})["rel"].([]interface{}) {
			number := child.(map[string]interface{})["n"]
			f, err := strconv.ParseFloat(fmt.Sprint(number), 64)
			if err != nil {
				rt.Fatalf("n is %v", kit.Show(number))
			}
			order = append(order, f)
		}
		sorted := []float64{}
		for i := 0; i < n; i++ {
			sorted = append(sorted, float64(i))
		}
		sort.SliceStable(sorted, func(i, j int) bool { return compare(sorted[i], sorted[j]) < 0 })
		reordered := !sort.Float64sAreSorted(sorted)
		sorted = sorted[:limit]
		seen := map[float64]bool{}
		ok := len(order) == len(sorted)
		for i := 0; ok && i < len(order); i++ {
			ok = compare(order[i], sorted[i]) == 0 && !seen[order[i]]
			seen[order[i]] = true
		}
		if !ok {
			rt.Fatalf("sorted by %v, the documents\n%vare in the order %v instead of %v", keys, data.String(), order, sorted)
		}
		k.LabelIf(len(keys) > 1, "several keys")
		if reordered {
			k.Nontrivial(kit.YAML(cfg), data.String())
			k.Sample(kit.YAML(cfg) + data.String())
		}
	})
}
