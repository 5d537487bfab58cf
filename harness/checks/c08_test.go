package checks

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"rodbverif/kit"
)

// contains says whether a value (or an item of it) contains the searched string.
func contains(ignoreCase bool) func(x filter, v interface{}) bool {
	return func(x filter, v interface{}) bool {
		search := x.value.(string)
		items, isArray := v.([]interface{})
		if !isArray {
			items = []interface{}{v}
		}
		for _, item := range items {
			s := item.(string)
			if ignoreCase && strings.Contains(strings.ToLower(s), strings.ToLower(search)) || !ignoreCase && strings.Contains(s, search) {
				return true
			}
		}
		return false
	}
}

// needle draws a non-empty string to search: usually a part of an existing value, sometimes changed.
func needle(rt *rapid.T, haystacks []string, ignoreCase bool) string {
	s := ""
	if len(haystacks) > 0 && rapid.IntRange(0, 9).Draw(rt, "existing") > 0 {
		h := []rune(rapid.SampledFrom(haystacks).Draw(rt, "haystack"))
		if len(h) > 0 {
			from := rapid.IntRange(0, len(h)-1).Draw(rt, "from")
			to := rapid.IntRange(from+1, len(h)).Draw(rt, "to")
			s = string(h[from:to])
		}
	}
	if s == "" {
		s = rapid.StringMatching(`[abAB]{1,5}`).Draw(rt, "needle")
	}
	switch rapid.IntRange(0, 11).Draw(rt, "needleChange") {
	case 0:
		s += rapid.StringMatching(`[abc]`).Draw(rt, "more")
	case 1:
		s = strings.ToUpper(s)
	case 2:
		s = strings.ToLower(s)
	case 3:
		s = rapid.StringMatching(`[abc]`).Draw(rt, "before") + s
	case 4: // in the middle of a character
		if len(s) > 1 && s[0] >= 0x80 && !ignoreCase {
			s = s[1:]
		}
	}
	return s
}

func TestC08(t *testing.T) {
	c := kit.Begin(t, "C08", "A case is one data set of strings (or arrays of strings) with a wildcard index, searched just after being built and after being loaded again. Non-trivial: at least one searched string is found in some but not all of the records; distinct by data, configuration and searched strings.")
	c.Prop("data sets", 2000, 50000, func(rt *rapid.T, k *kit.Case) {
		ignoreCase := rapid.Bool().Draw(rt, "ignoreCase")
		var conf kit.O
		var data []byte
		parsers := kit.L{}
		d := &kit.Dataset{}
		if rapid.IntRange(0, 3).Draw(rt, "arrays") == 0 {
			d.Kind = rapid.SampledFrom([]string{"json", "csv", "xml"}).Draw(rt, "kind")
			d.Cols = []kit.Col{{Name: "tags", Type: kit.String}}
			texts := substringTexts()
			if d.Kind == "csv" {
				texts = rapid.StringMatching(`[abA é]{0,5}`)
			}
			pool := rapid.SliceOfN(texts, 1, 5).Draw(rt, "pool")
			n := rapid.IntRange(0, 8).Draw(rt, "rows")
			csv, xml, lines := "", "<root>", ""
			minimum := 0
			if d.Kind == "csv" {
				minimum = 1
			}
			for i := 0; i < n; i++ {
				items := []interface{}{}
				parts := []string{}
				xml += "<rec>"
				for _, s := range rapid.SliceOfN(rapid.SampledFrom(pool), minimum, 4).Draw(rt, "items") {
					items = append(items, s)
					parts = append(parts, s)
					xml += "<tag>" + kit.XMLEscape(s) + "</tag>"
				}
				xml += "</rec>\n"
				csv += kit.CSVField(strings.Join(parts, "|"), ",", true, true) + "\n"
				nested := items
				if d.Kind == "json" && rapid.IntRange(0, 2).Draw(rt, "arrays of arrays") == 0 {
					nested = nest(rt, items)
					k.Label("arrays of arrays")
				}
				line, err := json.Marshal(map[string]interface{}{"tags": nested})
				kit.Must(err)
				lines += string(line) + "\n"
				d.Rows = append(d.Rows, kit.Row{"tags": items})
			}
			conf = kit.O{{"name", "in"}, {"type", d.Kind}, {"path", "@DIR@/in"}, {"dieOnInputChange", false}}
			switch d.Kind {
			case "json":
				data = []byte(lines)
			case "csv":
				parsers = append(parsers, kit.O{{"name", "list"}, {"type", "split"}, {"delimiter", "|"}, {"parser", "string"}})
				conf = append(conf, kit.KV{K: "columns", V: kit.L{kit.O{{"name", "tags"}, {"parser", "list"}}}})
				data = []byte(csv)
			case "xml":
				conf = append(conf, kit.KV{K: "recordXpath", V: "/root/rec"}, kit.KV{K: "properties", V: kit.L{
					kit.O{{"name", "tags"}, {"type", "array"}, {"xpath", "tag"}, {"items", kit.O{{"type", "primitive"}, {"xpath", "string(.)"}, {"parser", "string"}}}}}})
				data = []byte(xml + "</root>")
			}
			k.Label("arrays in " + d.Kind)
		} else {
			d = kit.Datasets(kit.DataOpts{Types: []string{kit.String}, NoNulls: true, MaxCols: 3, Texts: substringTexts(), PoolMax: 8,
				MaxRows: rapid.SampledFrom([]int{4, 12, 40}).Draw(rt, "maxRows")}).Draw(rt, "data")
			conf, data = d.Render(rt, "in", "in")
			k.Label(d.Kind)
		}
		idx := kit.O{{"name", "wild"}, {"type", "wildcard"}, {"path", "@DIR@/wild.rodb"}, {"input", "in"}, {"properties", list(columnNames(d.Cols))}}
		if ignoreCase || rapid.Bool().Draw(rt, "writeIgnoreCase") {
			idx = append(idx, kit.KV{K: "ignoreCase", V: ignoreCase})
		}
		cfg := kit.O{{"parsers", parsers}, {"inputs", kit.L{conf}}, {"indexes", kit.L{idx}}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in": data})
		defer rig.Close()
		again, err := reload(rig)
		if err != nil {
			rt.Fatalf("starting again over the completed index: %v", err)
		}
		defer again.Close()
		pos, err := rowPositions(rig.Inputs["in"], len(d.Rows))
		if err != nil {
			rt.Fatal(err)
		}
		haystacks := map[string][]string{}
		for _, row := range d.Rows {
			for name, v := range row {
				items, ok := v.([]interface{})
				if !ok {
					items = []interface{}{v}
				}
				for _, item := range items {
					haystacks[name] = append(haystacks[name], item.(string))
				}
			}
		}
		interesting := false
		asked := []string{}
		n := rapid.IntRange(1, 8).Draw(rt, "queries")
		for q := 0; q < n; q++ {
			f := filters{}
			cols := rapid.Permutation(d.Cols).Draw(rt, "filterOrder")
			count := 1
			if len(cols) > 1 && rapid.IntRange(0, 2).Draw(rt, "several") == 0 {
				count = rapid.IntRange(2, len(cols)).Draw(rt, "filters")
			}
			for _, col := range cols[:count] {
				f = append(f, filter{col.Name, needle(rt, haystacks[col.Name], ignoreCase)})
			}
			asked = append(asked, f.String())
			rows := matching(d, f, contains(ignoreCase))
			for i, r := range []*kit.Rig{rig, again} {
				if err := lookup(r.Indexes["wild"], r.Inputs["in"], f, at(pos, rows)); err != nil {
					rt.Fatalf("ignoreCase %v, index %v, with %v: %v", ignoreCase, []string{"just built", "loaded again"}[i], f, err)
				}
			}
			interesting = interesting || len(rows) > 0 && len(rows) < len(d.Rows)
			k.LabelIf(len(rows) == 0, "no match")
			k.LabelIf(len(rows) > 1, "several matches")
			k.LabelIf(count > 1 && len(rows) > 0, "several filters with matches")
		}
		k.LabelIf(ignoreCase, "ignoreCase")
		if interesting {
			k.Nontrivial(string(data), ignoreCase, asked)
			k.Sample(fmt.Sprintf("%v\n%q\nfilters %v", kit.YAML(cfg), string(data), strings.Join(asked, " ; ")))
		}
	})

	// The answers are the same for any order of the records (indexes of several write buffers).
	c.Prop("large", 20, 350, func(rt *rapid.T, k *kit.Case) {
		n := rapid.IntRange(100, 900).Draw(rt, "n")
		ignoreCase := rapid.Bool().Draw(rt, "ignoreCase")
		seed := rapid.Uint64Range(1, 1<<60).Draw(rt, "seed")
		rnd := func(n int) int {
			seed ^= seed << 13
			seed ^= seed >> 7
			seed ^= seed << 17
			return int(seed % uint64(n))
		}
		wide := ""
		for r := rune(0x21); r < 0x2ff; r++ {
			if r < 0x7f && r != '"' && r != ',' || r > 0xa0 {
				wide += string(r)
			}
		}
		alphabet := rapid.SampledFrom([]string{"ab", "abcdefghij", "aAbB", "aé界", wide[:90], wide}).Draw(rt, "alphabet")
		runes := []rune(alphabet)
		length := rapid.SampledFrom([]int{5, 12, 30}).Draw(rt, "length")
		d := &kit.Dataset{Kind: rapid.SampledFrom([]string{"csv", "json"}).Draw(rt, "kind"), Cols: []kit.Col{{Name: "s", Type: kit.String}, {Name: "t", Type: kit.String}}}
		text := func() string {
			s := []rune{}
			for i := rnd(length + 1); i > 0; i-- {
				s = append(s, runes[rnd(len(runes))])
			}
			return string(s)
		}
		for i := 0; i < n; i++ {
			d.Rows = append(d.Rows, kit.Row{"s": text(), "t": text()})
		}
		// Some long texts, with few repetitions so that their trees stay small.
		long := []string{}
		huge := rapid.IntRange(0, 5).Draw(rt, "hugeTexts") == 0
		longTexts := rapid.IntRange(0, 3).Draw(rt, "longTexts")
		if huge {
			longTexts = 1
		}
		for ; longTexts > 0; longTexts-- {
			b := strings.Builder{}
			size := 200 + rnd(1200)
			if huge {
				size = 4100 + rnd(900)
			}
			for b.Len() < size {
				fmt.Fprintf(&b, "%x%c", rnd(1<<30), runes[rnd(len(runes))])
			}
			long = append(long, b.String())
			d.Rows[rnd(n)]["s"] = b.String()
		}
		k.LabelIf(len(long) > 0, "with long texts")
		k.LabelIf(len(long) > 0 && huge, "with texts of more than 4000 bytes")
		for _, order := range []string{"as drawn", "reversed"} {
			if order == "reversed" {
				for i, j := 0, len(d.Rows)-1; i < j; i, j = i+1, j-1 {
					d.Rows[i], d.Rows[j] = d.Rows[j], d.Rows[i]
				}
			}
			conf, data := d.Render(rt, "in", "in")
			cfg := kit.O{{"inputs", kit.L{conf}}, {"indexes", kit.L{kit.O{{"name", "wild"}, {"type", "wildcard"}, {"path", "@DIR@/wild.rodb"}, {"input", "in"}, {"properties", kit.L{"s", "t"}}, {"ignoreCase", ignoreCase}}}}}
			rig := kit.MustStart(rt, cfg, kit.Files{"in": data})
			func() {
				defer rig.Close()
				again, err := reload(rig)
				if err != nil {
					rt.Fatalf("starting again over the completed index: %v", err)
				}
				defer again.Close()
				pos, err := rowPositions(rig.Inputs["in"], n)
				if err != nil {
					rt.Fatal(err)
				}
				for q := 0; q < 60; q++ {
					row := d.Rows[rnd(n)]
					h := []rune(row["s"].(string))
					s := "a"
					if len(h) > 0 {
						from := rnd(len(h))
						s = string(h[from : from+1+rnd(len(h)-from)])
					}
					f := filters{{"s", s}}
					if q%4 == 0 {
						f = append(f, filter{"t", string(runes[rnd(len(runes))])})
					}
					if q%5 == 1 && len(long) > 0 {
						h := long[rnd(len(long))]
						from := rnd(len(h))
						if q%2 == 0 {
							from = len(h) - 1 - rnd(30)
						}
						to := from + 1 + rnd(30)
						if rnd(2) == 0 {
							from = rnd(len(h))
							to = from + 1 + rnd(len(h)-from)
						}
						if to > len(h) || q%3 == 0 {
							to = len(h)
						}
						s = h[from:to]
						if rnd(3) == 0 { // Another end, or another character somewhere
							at := len(s)
							if rnd(2) == 0 {
								at = rnd(len(s))
							}
							s = s[:at] + string(runes[rnd(len(runes))]) + s[min(at+rnd(2), len(s)):]
							if ignoreCase {
								s = strings.ToValidUTF8(s, "")
							}
						}
						if ignoreCase {
							s = strings.ToValidUTF8(s, "")
						}
						f = filters{{"s", s}}
						if s == "" {
							continue
						}
					}
					if q%7 == 0 {
						f[0].value = strings.ToUpper(s)
					} else if q%6 == 2 {
						f[0].value = s + string(runes[rnd(len(runes))])
					} else if q%6 == 4 { // Every first character can be the one of another branch
						f[0].value = string(runes[rnd(len(runes))])
					}
					want := at(pos, matching(d, f, contains(ignoreCase)))
					for i, r := range []*kit.Rig{rig, again} {
						if err := lookup(r.Indexes["wild"], r.Inputs["in"], f, want); err != nil {
							rt.Fatalf("ignoreCase %v, records %v, index %v, with %v: %v", ignoreCase, order, []string{"just built", "loaded again"}[i], f, err)
						}
					}
				}
			}()
		}
		k.Label(d.Kind)
		k.Nontrivial(d.Kind, n, alphabet, length, seed, ignoreCase)
		k.Sample(fmt.Sprintf("%d records of strings over %q", n, alphabet))
	})

	// Searches with thousands of matches.
	c.Prop("many matches", 6, 150, func(rt *rapid.T, k *kit.Case) {
		d, conf, data := manyRows(rt, []string{"xa", "ya", "aXb"}, "xab", "yb", "aXc", "zya", "XA")
		ignoreCase := rapid.Bool().Draw(rt, "ignoreCase")
		cfg := kit.O{{"inputs", kit.L{conf}}, {"indexes", kit.L{kit.O{{"name", "wild"}, {"type", "wildcard"}, {"path", "@DIR@/wild.rodb"}, {"input", "in"}, {"properties", kit.L{"a", "b"}}, {"ignoreCase", ignoreCase}}}}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in": data})
		defer rig.Close()
		again, err := reload(rig)
		if err != nil {
			rt.Fatalf("starting again over the completed index: %v", err)
		}
		defer again.Close()
		pos, err := rowPositions(rig.Inputs["in"], len(d.Rows))
		if err != nil {
			rt.Fatal(err)
		}
		most := 0
		for _, f := range []filters{{{"a", "x"}}, {{"a", "a"}}, {{"a", "aXb"}}, {{"a", "xab"}}, {{"a", "xa"}}, {{"a", "y"}}, {{"a", "ya"}}, {{"a", "yb"}}, {{"a", "b"}}, {{"a", "aX"}}, {{"a", "aXc"}}, {{"a", "zy"}}, {{"a", "XA"}}, {{"b", "sua"}}, {{"b", "rare"}}, {{"a", "x"}, {"b", "u"}}, {{"a", "a"}, {"b", "ra"}}} {
			want := at(pos, matching(d, f, contains(ignoreCase)))
			most = max(most, len(want))
			for i, r := range []*kit.Rig{rig, again} {
				if err := lookup(r.Indexes["wild"], r.Inputs["in"], f, want); err != nil {
					rt.Fatalf("ignoreCase %v, index %v, with %v, %d matches: %v", ignoreCase, []string{"just built", "loaded again"}[i], f, len(want), clipped(err))
				}
			}
		}
		k.LabelIf(most > 4000, "more than 4000 matches")
		k.Nontrivial(string(data), ignoreCase)
	})
}
