package checks

import (
	"fmt"
	"net/url"
	"strconv"
	"testing"

	"pgregory.net/rapid"
	"rodbverif/kit"
)

var badLimits = []string{"0", "-1", "-100", "abc", "", " ", "1.5", "1e3", " 5", "5 ", "٣", "0x10", "--1", "5a", "a5", "1,000", "NaN", "null", "true", "00x", "-9223372036854775808", "-99999999999999999999", "1_000"}
var badOffsets = []string{"-1", "-100", "abc", "", " ", "1.5", "1e3", " 5", "5 ", "٣", "0x10", "--1", "5a", "a5", "1,000", "NaN", "null", "true", "-9223372036854775808", "-99999999999999999999", "1_000"}

func TestC13(t *testing.T) {
	c := kit.Begin(t, "C13", "A case is one generated configuration with list outputs (limits, offsets and parameter names generated; filters through all kinds of indexes) and several requests, or whole traversals page by page. Non-trivial: a window cuts the matching records, or an invalid limit or offset is rejected; distinct by data, configuration and request.")
	opts := worldOpts{minInputs: 1, maxInputs: 1, minOutputs: 1, maxOutputs: 2, indexKinds: allIndexes, maxRows: 14, arrays: true, maxParams: 2, paging: true, poolMax: 3}

	// numbers draws a valid limit or offset.
	numbers := func(rt *rapid.T, least int, n int) uint64 {
		switch rapid.IntRange(0, 5).Draw(rt, "numberKind") {
		case 0:
			return rapid.SampledFrom([]uint64{100, 101, 1000, 1001, 1 << 31, 1 << 32, 1 << 62, 1<<63 - 1}).Draw(rt, "big")
		case 1:
			return uint64(max(least, n+rapid.IntRange(-1, 1).Draw(rt, "near")))
		}
		return uint64(rapid.IntRange(least, max(least, n)).Draw(rt, "number"))
	}

	c.Prop("windows", 1800, 50000, func(rt *rapid.T, k *kit.Case) {
		w := drawWorld(rt, opts)
		rig := kit.MustStart(rt, w.config(), w.files())
		defer rig.Close()
		for q := rapid.IntRange(2, 8).Draw(rt, "requests"); q > 0; q-- {
			out := rapid.SampledFrom(w.outputs).Draw(rt, "output")
			values := w.drawValues(rt, out)
			rows := w.rows(out, values)
			extra := url.Values{}
			limit, offset := out.def, uint64(0)
			bad := ""
			switch rapid.IntRange(0, 7).Draw(rt, "limitGiven") {
			case 0, 1:
			case 2:
				bad = rapid.SampledFrom(badLimits).Draw(rt, "badLimit")
				extra.Set(out.limit, bad)
				bad = fmt.Sprintf("limit %q", bad)
			default:
				limit = numbers(rt, 1, len(rows))
				extra.Set(out.limit, strconv.FormatUint(limit, 10))
			}
			switch rapid.IntRange(0, 7).Draw(rt, "offsetGiven") {
			case 0, 1:
			case 2:
				bad = rapid.SampledFrom(badOffsets).Draw(rt, "badOffset")
				extra.Set(out.offset, bad)
				bad = fmt.Sprintf("offset %q", bad)
			default:
				offset = numbers(rt, 0, len(rows))
				extra.Set(out.offset, strconv.FormatUint(offset, 10))
			}
			if limit > out.max {
				limit = out.max
			}
			// Parameters of other names have no effect.
			if rapid.IntRange(0, 2).Draw(rt, "others") == 0 {
				known := map[string]bool{out.limit: true, out.offset: true}
				for _, p := range out.params {
					known[p.name] = true
				}
				for _, name := range []string{"limit", "offset", "Limit", "OFFSET", "max", "page", "start", "from", "count", "size", out.name, out.limit + "2", "x" + out.offset} {
					if !known[name] && rapid.IntRange(0, 3).Draw(rt, "other") == 0 {
						extra.Set(name, rapid.SampledFrom([]string{"0", "1", "2", "-1", "x", ""}).Draw(rt, "otherValue"))
						k.Label("other parameters")
					}
				}
			}
			target := out.target(rt, values, extra)
			resp := rig.Get(target)
			if bad != "" {
				if _, err := answered(resp, 500); err != nil {
					rt.Fatalf("%v (%v): %v", target, bad, err)
				}
				k.Label("rejected")
				k.Nontrivial(w.String(), target)
				continue
			}
			want := window(rows, offset, limit)
			if err := w.checkList(resp, out, want); err != nil {
				rt.Fatalf("%v (offset %d, limit %d of the rows %v): %v", target, offset, limit, rows, err)
			}
			k.LabelIf(offset > 0 && len(want) > 0, "offset inside")
			k.LabelIf(offset > 0 && len(want) == 0, "offset after the end")
			k.LabelIf(len(want) < len(rows)-int(min(offset, uint64(len(rows)))), "cut by the limit")
			k.LabelIf(limit == out.max, "maximum")
			if len(want) < len(rows) {
				k.Nontrivial(w.String(), target)
				k.Sample(fmt.Sprintf("%v%v gives rows %v of %v", w, target, want, rows))
			}
		}
	})

	c.Prop("traversals", 400, 10000, func(rt *rapid.T, k *kit.Case) {
		w := drawWorld(rt, opts)
		rig := kit.MustStart(rt, w.config(), w.files())
		defer rig.Close()
		out := rapid.SampledFrom(w.outputs).Draw(rt, "output")
		values := w.drawValues(rt, out)
		rows := w.rows(out, values)
		size := uint64(rapid.IntRange(1, 6).Draw(rt, "page"))
		seen := 0
		for {
			extra := url.Values{out.limit: {strconv.FormatUint(size, 10)}, out.offset: {strconv.Itoa(seen)}}
			target := out.target(rt, values, extra)
			want := window(rows, uint64(seen), min(size, out.max))
			if err := w.checkList(rig.Get(target), out, want); err != nil {
				rt.Fatalf("page %v (after %d of the rows %v): %v", target, seen, rows, err)
			}
			seen += len(want)
			if len(want) == 0 {
				break
			}
		}
		if seen > int(size) {
			k.Nontrivial(w.String(), kit.Show(rows), size)
			k.Label("several pages")
		}
	})

	c.Prop("long lists", 6, 100, func(rt *rapid.T, k *kit.Case) {
		n := rapid.IntRange(900, 2500).Draw(rt, "n")
		def, max := uint64(100), uint64(1000)
		if rapid.Bool().Draw(rt, "configured") {
			n = rapid.SampledFrom([]int{2600, 4200, 8300}).Draw(rt, "configuredN")
			max = rapid.SampledFrom([]uint64{1500, 5000, 1 << 20}).Draw(rt, "max")
			def = min(max, rapid.SampledFrom([]uint64{100, 1400, 4500}).Draw(rt, "default"))
		}
		d := &kit.Dataset{Kind: rapid.SampledFrom([]string{"csv", "json", "xml"}).Draw(rt, "kind"), Cols: []kit.Col{{Name: "a", Type: kit.String}, {Name: "b", Type: kit.Float}}}
		for i := 0; i < n; i++ {
			d.Rows = append(d.Rows, kit.Row{"a": fmt.Sprint(i), "b": float64(i % 2)})
		}
		conf, data := d.Render(rt, "in0", "in0.data")
		w := &world{inputs: []*wInput{{"in0", d, conf, data}}}
		w.indexes = append(w.indexes, &wIndex{name: "m", kind: "map", input: "in0", props: []string{"b"}, conf: kit.O{{"name", "m"}, {"type", "map"}, {"input", "in0"}, {"properties", kit.L{"b"}}}})
		out := &wOutput{name: "out0", array: true, input: "in0", def: def, max: max, limit: "limit", offset: "offset", path: "/out0",
			params: []wParam{{"q", "m", "b", kit.Float}},
			conf:   kit.O{{"name", "out0"}, {"type", "jsonArray"}, {"input", "in0"}, {"parameters", kit.O{{"q", kit.O{{"property", "b"}, {"index", "m"}, {"parser", "float"}}}}}}}
		if max != 1000 {
			out.conf = append(out.conf, kit.KV{K: "limit", V: kit.O{{"default", int(def)}, {"max", int(max)}}})
		}
		w.outputs = append(w.outputs, out)
		rig := kit.MustStart(rt, w.config(), w.files())
		defer rig.Close()
		for q := 0; q < 8; q++ {
			values := w.drawValues(rt, out)
			rows := w.rows(out, values)
			limit, offset := numbers(rt, 1, n*2/3), numbers(rt, 0, n/2)
			extra := url.Values{"limit": {strconv.FormatUint(limit, 10)}, "offset": {strconv.FormatUint(offset, 10)}}
			if q == 0 {
				extra, limit, offset = nil, def, 0
			}
			target := out.target(rt, values, extra)
			if err := w.checkList(rig.Get(target), out, window(rows, offset, min(limit, max))); err != nil {
				rt.Fatalf("%v (of %d rows): %v", target, len(rows), err)
			}
		}
		k.LabelIf(max != 1000, "configured maximum")
		k.Nontrivial(n, d.Kind, def, max)
	})
}
