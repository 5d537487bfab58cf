package checks

import (
	"fmt"
	"testing"

	"pgregory.net/rapid"
	"rodbverif/kit"
)

// relatedCount counts the related records of a row, and the levels of relationships that have some.
func (w *world) relatedCount(row kit.Row, rels []*wRel) (count, depth int) {
	for _, r := range rels {
		children := w.related(row, r)
		if !r.array && len(children) > 1 {
			children = children[:1]
		}
		count += len(children)
		for _, child := range children {
			n, d := w.relatedCount(child, r.rels)
			count += n
			depth = max(depth, d+1)
		}
	}
	return count, depth
}

func TestC15(t *testing.T) {
	c := kit.Begin(t, "C15", "A case is one generated configuration (1-3 inputs, list and object outputs with relationships nested up to 3 levels, or 8, whose names may be those of properties that are used to match) and several requests; every embedded record is compared with the model. Non-trivial: an answer embeds at least two related records; distinct by data, configuration and request.")
	opts := worldOpts{minInputs: 1, maxInputs: 3, minOutputs: 1, maxOutputs: 2, indexKinds: []string{"map", "sqlite", "noop", "map", "sqlite", "wildcard"}, maxRows: 10, arrays: true, objects: true, maxParams: 1, relDepth: 3, maxRels: 3, alwaysRels: true, collide: true, poolMax: 3}

	request := func(rt *rapid.T, k *kit.Case, w *world, rig *kit.Rig) {
		out := rapid.SampledFrom(w.outputs).Draw(rt, "output")
		values := w.drawValues(rt, out)
		target := out.target(rt, values, nil)
		rows := w.rows(out, values)
		// Relationships are evaluated in an order that may change each time.
		for again := 0; again < 3; again++ {
			if err := w.check(rig.Get(target), out, values); err != nil {
				rt.Fatalf("GET %v, of which the matching rows of %v are %v: %v", target, out.input, rows, err)
			}
		}
		if !out.array && len(rows) > 1 {
			rows = rows[:1]
		}
		count, depth := 0, 0
		for _, i := range rows {
			n, d := w.relatedCount(w.input(out.input).d.Rows[i], out.rels)
			count += n
			depth = max(depth, d)
		}
		k.LabelIf(count > 0, "related records")
		for _, i := range rows {
			for _, r := range out.rels {
				for _, m := range r.match {
					k.LabelIf(w.input(out.input).d.Rows[i][m.parent] == nil, "null parent value")
				}
			}
		}
		k.LabelIf(depth > 1, "two levels")
		k.LabelIf(depth > 2, "three levels")
		k.LabelIf(depth > 4, "more than four levels")
		if count > 1 {
			k.Nontrivial(w.String(), target)
			k.Sample(fmt.Sprintf("%vGET %v", w, target))
		}
	}
	c.Prop("requests", 900, 30000, func(rt *rapid.T, k *kit.Case) {
		w := drawWorld(rt, opts)
		rig := kit.MustStart(rt, w.config(), w.files())
		defer rig.Close()
		for q := rapid.IntRange(2, 5).Draw(rt, "requests"); q > 0; q-- {
			request(rt, k, w, rig)
		}
	})

	// Relationships nested up to eight levels.
	c.Prop("deep", 120, 3000, func(rt *rapid.T, k *kit.Case) {
		deep := opts
		deep.maxInputs, deep.maxOutputs, deep.maxRows, deep.relDepth, deep.maxRels, deep.deepRels, deep.collide = 2, 1, 3, 8, 1, true, false
		w := drawWorld(rt, deep)
		rig := kit.MustStart(rt, w.config(), w.files())
		defer rig.Close()
		for q := rapid.IntRange(1, 3).Draw(rt, "requests"); q > 0; q-- {
			request(rt, k, w, rig)
		}
	})

	// Parents with thousands of related records.
	c.Prop("many children", 8, 150, func(rt *rapid.T, k *kit.Case) {
		w := &world{}
		parent := &kit.Dataset{Kind: "csv", Cols: []kit.Col{{Name: "p", Type: kit.String}, {Name: "q", Type: kit.String}}}
		for _, p := range []string{"x", "y", "z"} {
			parent.Rows = append(parent.Rows, kit.Row{"p": p, "q": rapid.SampledFrom([]string{"usual", "rare"}).Draw(rt, "q")})
		}
		conf, data := parent.Render(rt, "in0", "in0.data")
		w.inputs = append(w.inputs, &wInput{"in0", parent, conf, data})
		d, conf, data := manyRows(rt, []string{"x", "y", "w"})
		conf = conf.With("name", "in1").With("path", "@DIR@/in1.data")
		w.inputs = append(w.inputs, &wInput{"in1", d, conf, data})
		w.indexes = []*wIndex{
			{name: "m", kind: "map", input: "in1", props: []string{"a", "b"}, conf: kit.O{{"name", "m"}, {"type", "map"}, {"input", "in1"}, {"properties", kit.L{"a", "b"}}}},
			{name: "s", kind: "sqlite", input: "in1", props: []string{"a", "b"}, conf: kit.O{{"name", "s"}, {"type", "sqlite"}, {"dsn", "@DIR@/s.sqlite"}, {"input", "in1"}, {"properties", kit.L{kit.O{{"name", "a"}}, kit.O{{"name", "b"}}}}}},
		}
		rels := []*wRel{}
		for i := rapid.IntRange(1, 2).Draw(rt, "rels"); i > 0; i-- {
			r := &wRel{name: fmt.Sprint("rel", i), input: "in1", array: rapid.IntRange(0, 3).Draw(rt, "single") > 0}
			matches := kit.L{}
			for _, m := range []wMatch{{parent: "p", child: "a"}, {parent: "q", child: "b"}}[:rapid.IntRange(1, 2).Draw(rt, "matches")] {
				m.index = rapid.SampledFrom([]string{"default", "m", "s"}).Draw(rt, "childIndex")
				r.match = append(r.match, m)
				matches = append(matches, kit.O{{"parentProperty", m.parent}, {"childProperty", m.child}, {"childIndex", m.index}})
			}
			r.conf = kit.O{{"input", "in1"}, {"isArray", r.array}, {"match", matches}}
			if rapid.Bool().Draw(rt, "limited") {
				r.limit = rapid.SampledFrom([]int{10, 999, 1000, 1001, 3000, 100000}).Draw(rt, "limit")
				r.conf = append(r.conf, kit.KV{K: "limit", V: r.limit})
			}
			rels = append(rels, r)
		}
		out := &wOutput{name: "out0", array: true, input: "in0", def: 100, max: 1000, limit: "limit", offset: "offset", rels: rels, path: "/out0",
			conf: kit.O{{"name", "out0"}, {"type", "jsonArray"}, {"input", "in0"}, {"relationships", relConf(rels)}}}
		w.outputs = append(w.outputs, out)
		rig := kit.MustStart(rt, w.config(), w.files())
		defer rig.Close()
		resp := rig.Get("/out0")
		if err := w.check(resp, out, nil); err != nil {
			rt.Fatalf("%d records, %v: %v", len(d.Rows), kit.YAML(w.config()), clipped(err))
		}
		k.LabelIf(len(resp.Body) > 100000, "more than 100 kB")
		k.Nontrivial(kit.YAML(w.config()), len(d.Rows), len(resp.Body))
	})
}
