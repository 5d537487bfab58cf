package checks

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"rodbverif/kit"
)

// csvField is a field of a generated CSV file and what its column's parser makes of it.
type csvField struct {
	text string
	want interface{}
	bad  bool
}

func csvFields(parser string) *rapid.Generator[csvField] {
	return rapid.Custom(func(t *rapid.T) csvField {
		if parser != "string" && parser != "list" && rapid.IntRange(0, 11).Draw(t, "bad") == 0 {
			return csvField{text: rapid.SampledFrom([]string{"?", "x1", "1 2", "--1", "tru"}).Draw(t, "badText"), bad: true}
		}
		switch parser {
		case "string":
			s := kit.Texts().Draw(t, "s")
			return csvField{text: s, want: s}
		case "integer":
			v := kit.Integers().Draw(t, "n")
			return csvField{text: kit.Text(v), want: v}
		case "float":
			v := kit.Floats().Draw(t, "f")
			return csvField{text: kit.Text(v), want: v}
		case "boolean":
			v := rapid.Bool().Draw(t, "b")
			return csvField{text: kit.Text(v), want: v}
		case "list": // split on "/", strings
			parts := rapid.SliceOfN(rapid.StringMatching(`[a-z,;"]{0,3}`), 1, 4).Draw(t, "parts")
			want := []interface{}{}
			for _, p := range parts {
				want = append(want, p)
			}
			return csvField{text: strings.Join(parts, "/"), want: want}
		case "json":
			v := kit.JSONValue(2).Draw(t, "json")
			return csvField{text: strings.ReplaceAll(kit.JSONText(t, v), "\r", " "), want: v}
		}
		kit.Harness("parser %v", parser)
		return csvField{}
	})
}

func TestC01(t *testing.T) {
	c := kit.Begin(t, "C01", "A case is one CSV file (columns, parsers, delimiter, quoting, line endings, rows with missing, surplus and invalid fields) and its input configuration, read completely twice. Non-trivial: at least two rows, of which one has a quoted, missing, surplus, non-string or invalid field; distinct by configuration and content.")
	body := func(many bool) func(rt *rapid.T, k *kit.Case) {
		return func(rt *rapid.T, k *kit.Case) {
			parsers := []string{"string", "string", "integer", "float", "boolean", "list", "json"}
			delimiter := rapid.SampledFrom([]string{",", ",", ";", "\t", "|", " ", ":", "a", "0", "#", "^"}).Draw(rt, "delimiter")
			autodetect := rapid.IntRange(0, 3).Draw(rt, "autodetect") == 0
			ignoreFirst := rapid.Bool().Draw(rt, "ignoreFirstRow")
			eols := rapid.SampledFrom([][]string{{"\n"}, {"\r\n"}, {"\n", "\r\n"}}).Draw(rt, "eols")
			quoting := rapid.IntRange(0, 2).Draw(rt, "quoting") // minimal, all, random
			final := rapid.Bool().Draw(rt, "finalNewline")
			n := rapid.IntRange(1, 5).Draw(rt, "columns")

			names := rapid.SliceOfNDistinct(rapid.OneOf(
				rapid.SampledFrom([]string{"a", "b", "id", "x y", "é", "Name", "a,b", "q\"q", "with\nnewline", "1", " "}),
				rapid.StringMatching(`[a-z]{1,6}`),
			), n, n, func(s string) string { return s }).Draw(rt, "names")
			cols := []string{}
			for range names {
				if autodetect {
					cols = append(cols, "string")
				} else {
					cols = append(cols, rapid.SampledFrom(parsers).Draw(rt, "parser"))
				}
			}

			// Rows as lists of fields. Each has at least one field.
			rows := [][]csvField{}
			interesting := false
			if autodetect {
				header := []csvField{}
				for _, name := range names {
					header = append(header, csvField{text: name, want: name})
				}
				rows = append(rows, header)
			} else if ignoreFirst && rapid.IntRange(0, 9).Draw(rt, "noHeader") > 0 {
				width := rapid.IntRange(1, n+2).Draw(rt, "headerWidth")
				header := []csvField{}
				for i := 0; i < width; i++ {
					header = append(header, csvField{text: kit.ShortTexts().Draw(rt, "headerField")})
				}
				interesting = interesting || width != n
				rows = append(rows, header)
			}
			count := rapid.IntRange(0, 8).Draw(rt, "rows")
			if many {
				count = rapid.IntRange(200, 1500).Draw(rt, "rows")
			}
			pool := [][]csvField{}
			newRow := func() []csvField {
				width := n
				if rapid.IntRange(0, 3).Draw(rt, "ragged") == 0 {
					width = rapid.IntRange(1, n+2).Draw(rt, "width")
				}
				row := []csvField{}
				for i := 0; i < width; i++ {
					if i < n {
						row = append(row, csvFields(cols[i]).Draw(rt, "field"))
					} else {
						row = append(row, csvField{text: kit.ShortTexts().Draw(rt, "surplus")})
					}
					if i >= n || row[i].bad || cols[i] != "string" || strings.ContainsAny(row[i].text, delimiter+"\"\n") {
						interesting = true
					}
				}
				interesting = interesting || width < n
				return row
			}
			if many {
				for i := 0; i < 12; i++ {
					pool = append(pool, newRow())
				}
			}
			// An empty file read with ignoreFirstRow has no row to ignore and no record.
			dataFrom := len(rows)
			if !ignoreFirst {
				dataFrom = 0
			}
			if ignoreFirst && len(rows) == 0 {
				count = 0
			}
			for i := 0; i < count; i++ {
				if many {
					rows = append(rows, pool[rapid.IntRange(0, len(pool)-1).Draw(rt, "which")])
				} else {
					rows = append(rows, newRow())
				}
			}
			var b strings.Builder
			for i, row := range rows {
				for j, f := range row {
					if j > 0 {
						b.WriteString(delimiter)
					}
					quote := quoting == 1 || quoting == 2 && rapid.Bool().Draw(rt, "quote")
					b.WriteString(kit.CSVField(f.text, delimiter, quote, j == 0 && len(row) == 1))
				}
				if i < len(rows)-1 || final {
					b.WriteString(rapid.SampledFrom(eols).Draw(rt, "eol"))
				}
			}

			conf := kit.O{{"name", "in"}, {"type", "csv"}, {"path", "@DIR@/in.csv"}, {"dieOnInputChange", false}}
			if delimiter != "," || rapid.Bool().Draw(rt, "writeDelimiter") {
				conf = append(conf, kit.KV{K: "delimiter", V: delimiter})
			}
			if ignoreFirst || rapid.Bool().Draw(rt, "writeIgnore") {
				conf = append(conf, kit.KV{K: "ignoreFirstRow", V: ignoreFirst})
			}
			if autodetect {
				conf = append(conf, kit.KV{K: "autodetectColumns", V: true})
			} else {
				l := kit.L{}
				for i, name := range names {
					col := kit.O{{"name", name}}
					if cols[i] != "string" || rapid.Bool().Draw(rt, "writeParser") {
						col = append(col, kit.KV{K: "parser", V: cols[i]})
					}
					l = append(l, col)
				}
				conf = append(conf, kit.KV{K: "columns", V: l})
			}
			cfg := kit.O{
				{"parsers", kit.L{kit.O{{"name", "list"}, {"type", "split"}, {"delimiter", "/"}, {"parser", "string"}}}},
				{"inputs", kit.L{conf}},
			}
			rig := kit.MustStart(rt, cfg, kit.Files{"in.csv": []byte(b.String())})
			defer rig.Close()

			want := rows[dataFrom:]
			for pass := 0; pass < 2; pass++ {
				items, err := iterate(rig.Inputs["in"])
				if err != nil {
					rt.Fatalf("pass %d: reading fails after %d of %d rows: %v", pass, len(items), len(want), err)
				}
				if len(items) != len(want) {
					rt.Fatalf("pass %d: %d records for %d rows", pass, len(items), len(want))
				}
				if err := increasing(items); err != nil {
					rt.Fatalf("pass %d: %v", pass, err)
				}
				for i, row := range want {
					bad := false
					for j, name := range names {
						var value interface{}
						isBad := false
						if j < len(row) {
							value, isBad = row[j].want, row[j].bad
						}
						bad = bad || isBad
						if !strings.Contains(name, ".") {
							got, err := items[i].record.Get(name)
							if isBad {
								if err == nil {
									rt.Fatalf("row %d: column %q holds %q, which its %v parser rejects, but has the value %v", i, name, row[j].text, cols[j], kit.Show(got))
								}
							} else if err != nil || !kit.SameValue(got, value) {
								rt.Fatalf("row %d: column %q is %v, %v instead of %v", i, name, kit.Show(got), err, kit.Show(value))
							}
						}
						if !bad && items[i].allErr == nil {
							got, ok := items[i].all[name]
							if !ok || !kit.SameValue(got, value) {
								rt.Fatalf("row %d: in the full record, column %q is %v instead of %v", i, name, kit.Show(got), kit.Show(value))
							}
						}
					}
					if bad != (items[i].allErr != nil) {
						rt.Fatalf("row %d: the full record gives error %v (a field is invalid: %v)", i, items[i].allErr, bad)
					}
					if !bad && len(items[i].all) != len(names) {
						rt.Fatalf("row %d: the full record has properties %v instead of %v", i, kit.SortedKeys(items[i].all), names)
					}
				}
			}
			k.LabelIf(autodetect, "autodetected columns")
			k.LabelIf(ignoreFirst, "first row ignored")
			k.LabelIf(len(eols) == 2, "mixed line endings")
			k.LabelIf(len(want) == 0, "no data rows")
			if len(want) > 1 && interesting {
				k.Nontrivial(kit.YAML(cfg), b.String())
				k.Sample(fmt.Sprintf("%v\n%v", kit.YAML(cfg), b.String()))
			}
		}
	}
	c.Prop("files", 1600, 40000, body(false))
	c.Prop("large files", 60, 600, body(true))

	// Fields of thousands of characters, to be found whole.
	c.Prop("long fields", 60, 1500, func(rt *rapid.T, k *kit.Case) {
		n := rapid.IntRange(1, 4).Draw(rt, "columns")
		eol := rapid.SampledFrom([]string{"\n", "\r\n"}).Draw(rt, "eol")
		columns := kit.L{}
		for j := 0; j < n; j++ {
			columns = append(columns, kit.O{{"name", fmt.Sprintf("c%d", j)}})
		}
		rows := [][]string{}
		var b strings.Builder
		longest := 0
		for i := rapid.IntRange(1, 5).Draw(rt, "rows"); i > 0; i-- {
			row := []string{}
			for j := 0; j < n; j++ {
				text := rapid.StringOfN(rapid.SampledFrom([]rune("xyz,\"\né界 ")), 0, 4, -1).Draw(rt, "text")
				if rapid.Bool().Draw(rt, "long") {
					size := rapid.SampledFrom([]int{1000, 4096, 8192, 16384, 32768, 65536, 70000, 131072, 300000}).Draw(rt, "size") + rapid.IntRange(-3, 3).Draw(rt, "more")
					unit := rapid.SampledFrom([]string{"x", "abcdefg", "é", "a,", "\"", "line\n", "界 "}).Draw(rt, "unit")
					text = strings.Repeat(unit, size/len(unit)) + text
				}
				longest = max(longest, len(text))
				row = append(row, text)
				if j > 0 {
					b.WriteString(",")
				}
				b.WriteString(kit.CSVField(text, ",", rapid.Bool().Draw(rt, "quote"), n == 1))
			}
			b.WriteString(eol)
			rows = append(rows, row)
		}
		rig := kit.MustStart(rt, kit.O{{"inputs", kit.L{kit.O{{"name", "in"}, {"type", "csv"}, {"path", "@DIR@/in.csv"}, {"dieOnInputChange", false}, {"columns", columns}}}}}, kit.Files{"in.csv": []byte(b.String())})
		defer rig.Close()
		items, err := iterate(rig.Inputs["in"])
		if err != nil || len(items) != len(rows) {
			rt.Fatalf("%d records for %d rows, %v", len(items), len(rows), err)
		}
		for i, row := range rows {
			for j, want := range row {
				name := fmt.Sprintf("c%d", j)
				got, err := items[i].record.Get(name)
				if err != nil || !kit.SameValue(got, want) || items[i].allErr != nil || !kit.SameValue(items[i].all[name], want) {
					text, _ := got.(string)
					rt.Fatalf("row %d: column %v, of %d characters, is read with %d, errors %v and %v", i, name, len(want), len(text), err, items[i].allErr)
				}
			}
		}
		k.LabelIf(longest > 60000, "field of more than 60000 characters")
		if longest > 900 {
			k.Nontrivial(b.String())
		}
	})

	// Hundreds or thousands of columns.
	c.Prop("wide files", 40, 800, func(rt *rapid.T, k *kit.Case) {
		n := rapid.SampledFrom([]int{60, 130, 260, 520, 1030, 2050}).Draw(rt, "about") + rapid.IntRange(-8, 8).Draw(rt, "more")
		autodetect := rapid.Bool().Draw(rt, "autodetect")
		stem := rapid.SampledFrom([]string{"c", "column ", "é"}).Draw(rt, "stem")
		parsers := []string{"string", "integer", "boolean", "float"}
		shift := rapid.IntRange(0, 3).Draw(rt, "shift")
		parser := func(j int) string {
			if autodetect {
				return "string"
			}
			return parsers[(j/3+shift)%4]
		}
		field := func(i, j int) (string, interface{}) {
			v := (i*31 + j*7 + shift) % 1000
			switch parser(j) {
			case "integer":
				return fmt.Sprint(v), int64(v)
			case "float":
				return fmt.Sprint(v, ".5"), float64(v) + 0.5
			case "boolean":
				return kit.Text(v%2 == 0), v%2 == 0
			}
			return fmt.Sprint("v", v), fmt.Sprint("v", v)
		}
		names := make([]string, n)
		cols := kit.L{}
		for j := range names {
			names[j] = fmt.Sprint(stem, j)
			cols = append(cols, kit.O{{"name", names[j]}, {"parser", parser(j)}})
		}
		var b strings.Builder
		conf := kit.O{{"name", "in"}, {"type", "csv"}, {"path", "@DIR@/in.csv"}, {"dieOnInputChange", false}}
		if autodetect {
			conf = append(conf, kit.KV{K: "ignoreFirstRow", V: true}, kit.KV{K: "autodetectColumns", V: true})
			b.WriteString(strings.Join(names, ",") + "\n")
		} else {
			conf = append(conf, kit.KV{K: "columns", V: cols})
		}
		widths := []int{}
		for i := rapid.IntRange(1, 3).Draw(rt, "rows"); i > 0; i-- {
			widths = append(widths, rapid.SampledFrom([]int{n, n, n, n - 1, n + 3, n / 2, 1}).Draw(rt, "width"))
		}
		for i, width := range widths {
			for j := 0; j < width; j++ {
				if j > 0 {
					b.WriteByte(',')
				}
				if j < n {
					text, _ := field(i, j)
					b.WriteString(text)
				} else {
					b.WriteString("surplus")
				}
			}
			b.WriteByte('\n')
		}
		rig := kit.MustStart(rt, kit.O{{"inputs", kit.L{conf}}}, kit.Files{"in.csv": []byte(b.String())})
		defer rig.Close()
		items, err := iterate(rig.Inputs["in"])
		if err != nil || len(items) != len(widths) {
			rt.Fatalf("%d columns: %d records (%v) for %d rows", n, len(items), err, len(widths))
		}
		for i, width := range widths {
			if items[i].allErr != nil || len(items[i].all) != n {
				rt.Fatalf("row %d of %d fields: %d properties (%v) for %d columns", i, width, len(items[i].all), items[i].allErr, n)
			}
			for j, name := range names {
				var want interface{}
				if j < width {
					_, want = field(i, j)
				}
				got, err := items[i].record.Get(name)
				if err != nil || !kit.SameValue(got, want) || !kit.SameValue(items[i].all[name], want) {
					rt.Fatalf("row %d of %d fields, of %d columns: column %q is %v (%v), in the full record %v, instead of %v", i, width, n, name, kit.Show(got), err, kit.Show(items[i].all[name]), kit.Show(want))
				}
			}
		}
		k.LabelIf(n > 255, "more than 255 columns")
		k.LabelIf(n > 1000, "more than 1000 columns")
		k.Nontrivial(n, autodetect, stem, shift, widths)
	})
}
