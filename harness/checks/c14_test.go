package checks

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"
	"rodbverif/kit"
)

func TestC14(t *testing.T) {
	c := kit.Begin(t, "C14", "A case is one generated configuration (1-3 inputs, indexes of all kinds, list and object outputs with up to 4 parameters) and several requests compared with the model: the generated rows filtered by every given parameter. Non-trivial: a request with at least two parameters, one of which excludes rows that the others keep, or an object request finding several rows; distinct by data, configuration and request.")
	opts := worldOpts{minInputs: 1, maxInputs: 2, minOutputs: 1, maxOutputs: 3, indexKinds: allIndexes, maxRows: 14, arrays: true, objects: true, minParams: 0, maxParams: 4, poolMax: 3, parsers: true}

	request := func(rt *rapid.T, k *kit.Case, w *world, rig *kit.Rig) {
		out := rapid.SampledFrom(w.outputs).Draw(rt, "output")
		values := w.drawValues(rt, out)
		target := out.target(rt, values, nil)
		resp := rig.Get(target)
		rows := w.rows(out, values)
		if err := w.check(resp, out, values); err != nil {
			rt.Fatalf("GET %v, of which the matching rows of %v are %v: %v", target, out.input, rows, err)
		}
		kinds := map[string]bool{}
		narrowing := false
		for i, v := range values {
			kinds[w.index(v.p.index).kind] = true
			others := append(append([]wantValue{}, values[:i]...), values[i+1:]...)
			narrowing = narrowing || len(others) > 0 && len(w.rows(out, others)) > len(rows)
		}
		k.LabelIf(len(kinds) > 1, "several kinds of indexes in a request")
		k.LabelIf(!out.array && len(rows) == 0, "not found")
		k.LabelIf(!out.array && len(rows) > 1, "first of several")
		k.LabelIf(out.array && len(rows) > 0, "non-empty list")
		if narrowing || !out.array && len(rows) > 1 {
			k.LabelIf(narrowing, "narrowing")
			k.Nontrivial(w.String(), target)
			k.Sample(fmt.Sprintf("%vGET %v gives the rows %v", w, target, rows))
		}
	}

	c.Prop("requests", 2200, 60000, func(rt *rapid.T, k *kit.Case) {
		w := drawWorld(rt, opts)
		rig := kit.MustStart(rt, w.config(), w.files())
		defer rig.Close()
		for q := rapid.IntRange(2, 8).Draw(rt, "requests"); q > 0; q-- {
			request(rt, k, w, rig)
		}
	})

	// More rows, so that index searches and joins go further.
	big := opts
	big.maxInputs, big.minRows, big.maxRows, big.minParams, big.poolMax = 1, 40, 140, 2, 4
	c.Prop("many rows", 250, 6000, func(rt *rapid.T, k *kit.Case) {
		w := drawWorld(rt, big)
		rig := kit.MustStart(rt, w.config(), w.files())
		defer rig.Close()
		for q := rapid.IntRange(2, 8).Draw(rt, "requests"); q > 0; q-- {
			request(rt, k, w, rig)
		}
	})

	// Outputs with tens of parameters, all of them given in a request or not.
	c.Prop("many parameters", 60, 1200, func(rt *rapid.T, k *kit.Case) {
		n := rapid.SampledFrom([]int{6, 9, 12, 17, 20, 33, 65, 130}).Draw(rt, "parameters")
		w := &world{}
		d := &kit.Dataset{Kind: rapid.SampledFrom([]string{"csv", "json", "xml"}).Draw(rt, "kind")}
		maps, tables := kit.L{}, kit.L{}
		params := kit.O{}
		out := &wOutput{name: "out0", array: true, input: "in0", def: 100, max: 1000, limit: "limit", offset: "offset", path: "/out0"}
		shift := rapid.IntRange(0, 3).Draw(rt, "shift")
		for i := 0; i < n; i++ {
			name := fmt.Sprint("c", i)
			d.Cols = append(d.Cols, kit.Col{Name: name, Type: kit.String})
			p := wParam{fmt.Sprint("p", i), "", name, "string"}
			conf := kit.O{{"property", name}}
			switch (i/2 + shift) % 4 {
			case 0:
				p.index = "m"
				maps = append(maps, name)
			case 1:
				p.index = "s"
				tables = append(tables, kit.O{{"name", name}})
			default:
				p.index = "default"
			}
			if p.index != "default" {
				conf = append(conf, kit.KV{K: "index", V: p.index})
			}
			out.params = append(out.params, p)
			params = append(params, kit.KV{K: p.name, V: conf})
		}
		// Most of the values are the usual one, so that each parameter can be the one that excludes a row.
		usual := func(col int) string { return fmt.Sprint("u", col%5) }
		for i := rapid.IntRange(3, 10).Draw(rt, "rows"); i > 0; i-- {
			row := kit.Row{}
			for j, col := range d.Cols {
				row[col.Name] = usual(j)
			}
			for j := rapid.IntRange(0, 2).Draw(rt, "unusual"); j > 0; j-- {
				row[d.Cols[rapid.IntRange(0, n-1).Draw(rt, "column")].Name] = "x"
			}
			d.Rows = append(d.Rows, row)
		}
		conf, data := d.Render(rt, "in0", "in0.data")
		w.inputs = append(w.inputs, &wInput{"in0", d, conf, data})
		if len(maps) > 0 {
			w.indexes = append(w.indexes, &wIndex{name: "m", kind: "map", input: "in0", conf: kit.O{{"name", "m"}, {"type", "map"}, {"input", "in0"}, {"properties", maps}}})
		}
		if len(tables) > 0 {
			w.indexes = append(w.indexes, &wIndex{name: "s", kind: "sqlite", input: "in0", conf: kit.O{{"name", "s"}, {"type", "sqlite"}, {"input", "in0"}, {"dsn", "@DIR@/i.sqlite"}, {"properties", tables}}})
		}
		out.conf = kit.O{{"name", "out0"}, {"type", "jsonArray"}, {"input", "in0"}, {"parameters", params}}
		w.outputs = append(w.outputs, out)
		rig := kit.MustStart(rt, w.config(), w.files())
		defer rig.Close()
		narrowing := false
		for q := 0; q < 6; q++ {
			values := []wantValue{}
			odd := rapid.IntRange(-2, n-1).Draw(rt, "odd")
			skip := rapid.SampledFrom([]int{0, 0, 2, 3}).Draw(rt, "skip")
			for j, p := range out.params {
				if skip > 0 && j%skip == 0 {
					continue
				}
				v := wantValue{p, usual(j)}
				if j == odd {
					v.value = "x"
				}
				values = append(values, v)
			}
			target := out.target(rt, values, nil)
			rows := w.rows(out, values)
			if err := w.check(rig.Get(target), out, values); err != nil {
				rt.Fatalf("GET %v (%d parameters), of which the matching rows are %v: %v", target, len(values), rows, err)
			}
			narrowing = narrowing || len(rows) > 0 && len(rows) < len(d.Rows)
		}
		k.LabelIf(n > 30, "more than 30 parameters")
		if narrowing {
			k.Nontrivial(n, w.String())
		}
	})
}
