package checks

import (
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"rodbverif/kit"
)

func foldASCII(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'A' && r <= 'Z' {
			return r + 'a' - 'A'
		}
		return r
	}, s)
}

// collated compares two values like SQLite's collating sequence does.
func collated(collation string, a, b interface{}) bool {
	s, ok1 := a.(string)
	w, ok2 := b.(string)
	if !ok1 || !ok2 {
		return a != nil && a == b
	}
	switch strings.ToLower(collation) {
	case "nocase":
		return foldASCII(s) == foldASCII(w)
	case "rtrim":
		return strings.TrimRight(s, " ") == strings.TrimRight(w, " ")
	}
	return s == w
}

// collationTexts draws strings that some collations consider equal.
func collationTexts() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		s := rapid.SampledFrom([]string{"a", "ab", "Abc", "é", "É", "straße", "İ", "", "a b", " a", "z1", "[", "{", "@", "`", "_", "-"}).Draw(t, "base")
		switch rapid.IntRange(0, 5).Draw(t, "case") {
		case 0:
			s = strings.ToUpper(s)
		case 1:
			s = strings.ToLower(s)
		}
		return s + rapid.SampledFrom([]string{"", "", "", " ", "  ", "\t", " \t", "\u00a0", "x"}).Draw(t, "end")
	})
}

// longCollationTexts draws texts with the same long beginning, whose ends some collations consider equal.
func longCollationTexts() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		n := rapid.SampledFrom([]int{60, 127, 128, 255, 256, 999, 1000, 1023, 1024, 1025, 2047, 4095, 4096, 9000, 33000}).Draw(t, "length")
		s := strings.Repeat("Long text ", n/10) + "0123456789"[:n%10]
		return s + rapid.SampledFrom([]string{"", "x", "X", "y", " ", "  ", "x ", "X  ", "é", "É"}).Draw(t, "end")
	})
}

func TestC10(t *testing.T) {
	c := kit.Begin(t, "C10", "A case is one data set with an sqlite index whose properties have generated collations, searched just after being built and after being reopened. Non-trivial: at least one search is answered differently under its collations than under binary ones, or matches some but not all records with mixed collations; distinct by data, collations and filters.")
	search := func(rt *rapid.T, k *kit.Case, texts *rapid.Generator[string], columns int) {
		d := kit.Datasets(kit.DataOpts{Types: []string{kit.String, kit.String, kit.String, kit.Float, kit.Integer, kit.Boolean}, MaxCols: columns, PoolMax: 8, Texts: texts, MaxRows: 14}).Draw(rt, "data")
		kept := []kit.Col{}
		seen := map[string]bool{}
		for _, col := range d.Cols {
			if !seen[strings.ToLower(col.Name)] {
				kept = append(kept, col)
			}
			seen[strings.ToLower(col.Name)] = true
		}
		conf, data := d.Render(rt, "in", "in")
		collation := map[string]string{}
		props := kit.L{}
		for _, col := range kept {
			x := rapid.SampledFrom([]string{"", "binary", "nocase", "rtrim", "BINARY", "NOCASE", "RTRIM", "Binary", "NoCase", "rTrim", "nocase", "rtrim"}).Draw(rt, "collate")
			p := kit.O{{"name", col.Name}}
			if x != "" {
				p = append(p, kit.KV{K: "collate", V: x})
			}
			collation[col.Name] = x
			props = append(props, p)
		}
		dsn := dsns().Draw(rt, "dsn")
		cfg := kit.O{{"inputs", kit.L{conf}}, {"indexes", kit.L{kit.O{{"name", "sq"}, {"type", "sqlite"}, {"dsn", dsn}, {"input", "in"}, {"properties", props}}}}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in": data})
		defer rig.Close()
		rigs := []*kit.Rig{rig}
		again, err := reload(rig)
		if err != nil {
			rt.Fatalf("starting again over the completed index: %v", err)
		}
		defer again.Close()
		rigs = append(rigs, again)
		pos, err := rowPositions(rig.Inputs["in"], len(d.Rows))
		if err != nil {
			rt.Fatal(err)
		}
		interesting := false
		asked := []string{}
		for q := rapid.IntRange(1, 8).Draw(rt, "queries"); q > 0; q-- {
			f := drawFilters(rt, d, kept, 3, texts)
			asked = append(asked, f.String())
			rows := matching(d, f, func(x filter, v interface{}) bool { return collated(collation[x.property], v, x.value) })
			binary := matching(d, f, equals)
			for i, r := range rigs {
				if err := lookup(r.Indexes["sq"], r.Inputs["in"], f, at(pos, rows)); err != nil {
					rt.Fatalf("collations %v, index %v, with %v: %v", collation, []string{"just built", "opened again"}[i], clippedText(f.String()), clipped(err))
				}
			}
			interesting = interesting || len(rows) != len(binary) || len(f) > 1 && len(rows) > 0 && len(rows) < len(d.Rows)
			k.LabelIf(len(rows) != len(binary), "differs from binary")
			k.LabelIf(len(f) > 1 && len(rows) > 0, "several filters with matches")
		}
		if interesting {
			k.Nontrivial(string(data), collation, asked)
			k.Sample(fmt.Sprintf("%v\n%q\nfilters %v", kit.YAML(cfg), clippedText(string(data)), clippedText(strings.Join(asked, " ; "))))
		}
	}
	c.Prop("collations", 2000, 50000, func(rt *rapid.T, k *kit.Case) { search(rt, k, collationTexts(), 4) })

	// Values of thousands of bytes, that only differ at their ends.
	c.Prop("long values", 150, 4000, func(rt *rapid.T, k *kit.Case) { search(rt, k, longCollationTexts(), 2) })

	// Searches with thousands of matches.
	c.Prop("many matches", 6, 150, func(rt *rapid.T, k *kit.Case) {
		d, conf, data := manyRows(rt, []string{"Xé", "xé ", "xÉ"})
		collation := map[string]string{}
		props := kit.L{}
		for _, name := range []string{"a", "b"} {
			collation[name] = rapid.SampledFrom([]string{"binary", "nocase", "rtrim"}).Draw(rt, "collate")
			props = append(props, kit.O{{"name", name}, {"collate", collation[name]}})
		}
		cfg := kit.O{{"inputs", kit.L{conf}}, {"indexes", kit.L{kit.O{{"name", "sq"}, {"type", "sqlite"}, {"dsn", dsns().Draw(rt, "dsn")}, {"input", "in"}, {"properties", props}}}}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in": data})
		defer rig.Close()
		pos, err := rowPositions(rig.Inputs["in"], len(d.Rows))
		if err != nil {
			rt.Fatal(err)
		}
		most := 0
		for _, f := range []filters{{{"a", "xé"}}, {{"a", "XÉ"}}, {{"a", "Xé  "}}, {{"b", "Usual"}}, {{"b", "rare "}}, {{"a", "xé "}, {"b", "USUAL"}}} {
			want := at(pos, matching(d, f, func(x filter, v interface{}) bool { return collated(collation[x.property], v, x.value) }))
			most = max(most, len(want))
			if err := lookup(rig.Indexes["sq"], rig.Inputs["in"], f, want); err != nil {
				rt.Fatalf("collations %v, with %v, %d matches: %v", collation, f, len(want), clipped(err))
			}
		}
		k.LabelIf(most > 4000, "more than 4000 matches")
		if most > 0 {
			k.Nontrivial(string(data), collation)
		}
	})
}
