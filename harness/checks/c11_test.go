package checks

import (
	"bytes"
	"database/sql"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"pgregory.net/rapid"
	"rodbverif/kit"
)

// stored describes one stored index under test.
type stored struct {
	kind       string // wildcard, sqlite or fts5
	cols       []string
	ignoreCase bool
	tokenize   string
	collate    map[string]string
}

func (s stored) config(name, file string) kit.O {
	o := kit.O{{"name", name}, {"type", s.kind}, {"input", "in"}}
	switch s.kind {
	case "wildcard":
		return append(o, kit.KV{K: "path", V: "@DIR@/" + file}, kit.KV{K: "properties", V: list(s.cols)}, kit.KV{K: "ignoreCase", V: s.ignoreCase})
	case "sqlite":
		props := kit.L{}
		for _, c := range s.cols {
			prop := kit.O{{"name", c}}
			if collate := s.collate[c]; collate != "" {
				prop = append(prop, kit.KV{K: "collate", V: collate})
			}
			props = append(props, prop)
		}
		return append(o, kit.KV{K: "dsn", V: "@DIR@/" + file}, kit.KV{K: "properties", V: props})
	}
	o = append(o, kit.KV{K: "dsn", V: "@DIR@/" + file}, kit.KV{K: "properties", V: list(s.cols)})
	if s.tokenize != "" {
		o = append(o, kit.KV{K: "tokenize", V: s.tokenize})
	}
	return o
}

// query draws a search this index can answer.
func (s stored) query(rt *rapid.T, d *kit.Dataset) map[string]interface{} {
	if s.kind == "fts5" {
		if rapid.IntRange(0, 5).Draw(rt, "badQuery") == 0 {
			return map[string]interface{}{"match": rapid.SampledFrom(ftsMalformed).Draw(rt, "malformed")}
		}
		return map[string]interface{}{"match": ftsQueries(s.cols, 2).Draw(rt, "match").String()}
	}
	f := map[string]interface{}{}
	for _, c := range s.cols[:rapid.IntRange(1, len(s.cols)).Draw(rt, "filters")] {
		haystacks := []string{}
		for _, row := range d.Rows {
			haystacks = append(haystacks, row[c].(string))
		}
		if s.kind == "wildcard" {
			f[c] = needle(rt, haystacks, true)
		} else if len(haystacks) > 0 {
			f[c] = variant(rt, rapid.SampledFrom(haystacks).Draw(rt, "value"))
		} else {
			f[c] = "x"
		}
	}
	return f
}

// answer is what an index answers, as a comparable text.
func answer(idx index.Index, in input.Input, f map[string]interface{}) string {
	next, err := idx.GetRecordPositions(in, f)
	got, err := positions(next, err)
	if err != nil {
		return "error"
	}
	return fmt.Sprint(got)
}

// indexTexts draws texts of words, useful for all kinds of indexes.
func indexTexts() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		words := rapid.SliceOfN(rapid.SampledFrom([]string{"a", "ab", "Ab", "one", "two", "onetwo", "red", "Running", "b "}), 0, 4).Draw(t, "words")
		return strings.Join(words, " ")
	})
}

func storedIndexes(rt *rapid.T, cols []string) stored {
	s := stored{kind: rapid.SampledFrom([]string{"wildcard", "sqlite", "fts5"}).Draw(rt, "index")}
	s.cols = rapid.Permutation(cols).Draw(rt, "order")[:rapid.IntRange(1, len(cols)).Draw(rt, "indexed")]
	s.ignoreCase = rapid.Bool().Draw(rt, "ignoreCase")
	if s.kind == "fts5" {
		s.tokenize = rapid.SampledFrom([]string{"", "porter", "ascii"}).Draw(rt, "tokenize")
	}
	s.collate = map[string]string{}
	for _, c := range s.cols {
		s.collate[c] = rapid.SampledFrom([]string{"nocase", "nocase", "rtrim", "binary", "", "NoCase"}).Draw(rt, "collate")
	}
	return s
}

func dirContents(dir string) map[string]string {
	entries, err := os.ReadDir(dir)
	kit.Must(err)
	m := map[string]string{}
	for _, e := range entries {
		data, err := os.ReadFile(filepath.Join(dir, e.Name()))
		kit.Must(err)
		info, err := e.Info()
		kit.Must(err)
		m[e.Name()] = info.ModTime().String() + string(data)
	}
	return m
}

func sameContents(before, after map[string]string) error {
	names := []string{}
	for n := range before {
		names = append(names, n)
	}
	for n := range after {
		if _, ok := before[n]; !ok {
			return fmt.Errorf("the file %v was created", n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		w, ok := after[n]
		if !ok {
			return fmt.Errorf("the file %v was removed", n)
		}
		if w != before[n] {
			return fmt.Errorf("the file %v was written to", n)
		}
	}
	return nil
}

const wildcardMagic = "RODB/INDEX/WILDCARD"

func TestC11(t *testing.T) {
	c := kit.Begin(t, "C11", "A case builds a generated wildcard, sqlite or fts5 index, then starts again over it, either unchanged (files and answers must not change) or after one generated change of the input, of the configuration or of the file (startup must fail). Non-trivial: the index holds at least one record; distinct by data, configuration and change.")
	datasets := kit.Datasets(kit.DataOpts{Types: []string{kit.String}, NoNulls: true, Simple: true, MaxCols: 3, PoolMax: 6, Texts: indexTexts(), MaxRows: 20})
	reused := func(rt *rapid.T, k *kit.Case, datasets *rapid.Generator[*kit.Dataset]) {
		d := datasets.Draw(rt, "data")
		conf, data := d.Render(rt, "in", "in")
		// Several indexes, possibly in one database.
		n := rapid.IntRange(1, 3).Draw(rt, "indexes")
		shared := rapid.Bool().Draw(rt, "shared")
		specs := []stored{}
		indexes := kit.L{}
		for i := 0; i < n; i++ {
			s := storedIndexes(rt, columnNames(d.Cols))
			file := fmt.Sprint("index", i)
			if shared && s.kind != "wildcard" {
				file = "shared"
			}
			specs = append(specs, s)
			indexes = append(indexes, s.config(fmt.Sprint("i", i), file))
			k.Label(s.kind)
		}
		cfg := kit.O{{"inputs", kit.L{conf}}, {"indexes", indexes}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in": data})
		defer rig.Close()
		type asked struct {
			i int
			f map[string]interface{}
			a string
		}
		history := []asked{}
		for q := rapid.IntRange(2, 8).Draw(rt, "queries"); q > 0; q-- {
			i := rapid.IntRange(0, n-1).Draw(rt, "which")
			f := specs[i].query(rt, d)
			history = append(history, asked{i, f, answer(rig.Indexes[fmt.Sprint("i", i)], rig.Inputs["in"], f)})
		}
		before := dirContents(rig.Dir)
		for round := rapid.IntRange(1, 2).Draw(rt, "rounds"); round > 0; round-- {
			again, err := reload(rig)
			if err != nil {
				rt.Fatalf("starting again over the completed index of the unchanged input: %v", err)
			}
			for _, h := range history {
				if got := answer(again.Indexes[fmt.Sprint("i", h.i)], again.Inputs["in"], h.f); got != h.a {
					again.Close()
					rt.Fatalf("%v after starting again: %v gives %v instead of %v", specs[h.i].kind, h.f, got, h.a)
				}
			}
			again.Close()
			if err := sameContents(before, dirContents(rig.Dir)); err != nil {
				rt.Fatalf("starting again over the completed index: %v", err)
			}
		}
		k.LabelIf(shared && n > 1, "several in one database")
		if len(d.Rows) > 0 {
			k.Nontrivial(string(data), specs, history)
			k.Sample(fmt.Sprintf("%v\n%q\n%v", kit.YAML(cfg), clippedText(string(data)), clippedText(fmt.Sprint(history))))
		}
		for _, content := range before {
			k.LabelIf(len(content) > 128<<10, "index of more than 128 kB")
			k.LabelIf(len(content) > 1<<20, "index of more than 1 MB")
		}
	}
	c.Prop("reused", 500, 12000, func(rt *rapid.T, k *kit.Case) { reused(rt, k, datasets) })

	// Indexes of megabytes.
	c.Prop("large", 15, 300, func(rt *rapid.T, k *kit.Case) {
		reused(rt, k, kit.Datasets(kit.DataOpts{Types: []string{kit.String}, NoNulls: true, Simple: true, MaxCols: 2, PoolMax: 300, MinRows: 100, MaxRows: 900,
			Texts: rapid.OneOf(indexTexts(), rapid.StringMatching(`[a-f]{1,40}`))}))
	})

	c.Prop("changed", 900, 25000, func(rt *rapid.T, k *kit.Case) {
		d := datasets.Draw(rt, "data")
		conf, data := d.Render(rt, "in", "in")
		s := storedIndexes(rt, columnNames(d.Cols))
		cfg := kit.O{{"inputs", kit.L{conf}}, {"indexes", kit.L{s.config("idx", "index")}}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in": data})
		defer rig.Close()
		in, idx := filepath.Join(rig.Dir, "in"), filepath.Join(rig.Dir, "index")
		info, err := os.Stat(in)
		kit.Must(err)
		mtime := info.ModTime()
		changes := []string{"mtime", "size", "content", "garbage", "other kind"}
		if s.kind == "wildcard" {
			changes = append(changes, "ignoreCase", "properties", "header", "header", "header", "short")
		} else {
			changes = append(changes, "version", "metadata")
			if s.kind == "sqlite" {
				changes = append(changes, "properties", "collation")
			}
		}
		change := rapid.SampledFrom(changes).Draw(rt, "change")
		restart := cfg
		detail := change
		switch change {
		case "mtime":
			shift := rapid.SampledFrom([]int{1, -1, 2, 60, -3600, 86400, 86400 * 365, -86400 * 365 * 30}).Draw(rt, "seconds")
			kit.Must(os.Chtimes(in, mtime, mtime.Add(time.Duration(shift)*time.Second)))
			detail = fmt.Sprint(change, shift)
		case "size":
			extra := []byte(rapid.SampledFrom([]string{"\n", " ", "x", "\n\n\n", strings.Repeat(" ", 256), strings.Repeat("\n", 65536)}).Draw(rt, "extra"))
			content := append(append([]byte{}, data...), extra...)
			if len(data) > 0 && rapid.Bool().Draw(rt, "shorter") {
				content = data[:rapid.IntRange(0, len(data)-1).Draw(rt, "keep")]
			}
			kit.WriteFile(in, content)
			kit.Must(os.Chtimes(in, mtime, mtime))
			detail = fmt.Sprint(change, len(content)-len(data))
		case "content": // other bytes, same size, written later
			content := bytes.ToUpper(data)
			if len(content) != len(data) {
				content = data
			}
			kit.WriteFile(in, content)
			kit.Must(os.Chtimes(in, mtime, mtime.Add(5*time.Second)))
		case "ignoreCase":
			s2 := s
			s2.ignoreCase = !s.ignoreCase
			restart = cfg.With("indexes", kit.L{s2.config("idx", "index")})
		case "properties":
			s2 := s
			if len(s.cols) > 1 && rapid.Bool().Draw(rt, "fewer") {
				s2.cols = s.cols[:len(s.cols)-1]
			} else {
				s2.cols = append(append([]string{}, s.cols...), "zzz")
				if rapid.Bool().Draw(rt, "front") {
					s2.cols = append([]string{"zzz"}, s.cols...)
				}
			}
			restart = cfg.With("indexes", kit.L{s2.config("idx", "index")})
			detail = fmt.Sprint(change, len(s2.cols)-len(s.cols))
		case "collation":
			s2 := s
			s2.collate = map[string]string{}
			changed := rapid.SampledFrom(s.cols).Draw(rt, "changed")
			for _, c := range s.cols {
				s2.collate[c] = s.collate[c]
				others := []string{}
				for _, collation := range []string{"nocase", "rtrim", "binary"} {
					if collation != strings.ToLower(s.collate[c]) && (collation != "binary" || s.collate[c] != "") {
						others = append(others, collation)
					}
				}
				if c == changed || rapid.IntRange(0, 3).Draw(rt, "also") == 0 {
					s2.collate[c] = rapid.SampledFrom(others).Draw(rt, "other")
				}
			}
			restart = cfg.With("indexes", kit.L{s2.config("idx", "index")})
			detail = fmt.Sprint(change, s2.collate)
		case "header":
			content, err := os.ReadFile(idx)
			failOn(rt, err)
			m := len(wildcardMagic)
			if len(content) < m+36 || string(content[:m]) != wildcardMagic {
				k.Label("unknown file format")
				return
			}
			field := rapid.SampledFrom([]string{"magic", "version", "time", "size", "ignoreCase", "completed", "count"}).Draw(rt, "field")
			switch field {
			case "magic":
				content[rapid.IntRange(0, m-1).Draw(rt, "byte")] ^= byte(rapid.IntRange(1, 255).Draw(rt, "xor"))
			case "version":
				if rapid.Bool().Draw(rt, "other version") {
					binary.BigEndian.PutUint16(content[m:], uint16(rapid.SampledFrom([]int{0, 2, 3, 255, 256, 257, 32769, 65535}).Draw(rt, "version")))
					break
				}
				content[m+rapid.IntRange(0, 1).Draw(rt, "byte")] ^= byte(rapid.IntRange(1, 255).Draw(rt, "xor"))
			case "time":
				content[m+2+rapid.IntRange(0, 7).Draw(rt, "byte")] ^= byte(rapid.IntRange(1, 255).Draw(rt, "xor"))
			case "size":
				content[m+10+rapid.IntRange(0, 7).Draw(rt, "byte")] ^= byte(rapid.IntRange(1, 255).Draw(rt, "xor"))
			case "ignoreCase":
				content[m+18] ^= 1
			case "completed":
				content[m+19] = 0
			case "count":
				n := rapid.SampledFrom([]int64{0, -1, 1 << 62, -1 << 63, 1<<63 - 1, 1 << 40, 1 << 31, int64(len(s.cols)) + 1, int64(len(s.cols)) - 1, 1000000}).Draw(rt, "count")
				binary.BigEndian.PutUint64(content[m+20:], uint64(n))
			}
			detail = fmt.Sprint(change, field)
			kit.WriteFile(idx, content)
		case "short":
			content, err := os.ReadFile(idx)
			failOn(rt, err)
			if len(content) < len(wildcardMagic)+28 || string(content[:len(wildcardMagic)]) != wildcardMagic {
				k.Label("unknown file format")
				return
			}
			kit.WriteFile(idx, content[:rapid.IntRange(0, len(wildcardMagic)+27).Draw(rt, "keep")])
		case "garbage":
			garbage := rapid.SliceOfN(rapid.Byte(), 1, 300).Draw(rt, "garbage")
			switch rapid.IntRange(0, 3).Draw(rt, "garbageKind") {
			case 0:
				garbage = append([]byte(wildcardMagic), garbage...)
			case 1:
				garbage = append([]byte("SQLite format 3\x00"), garbage...)
			case 2:
				garbage = []byte(strings.Repeat(rapid.SampledFrom([]string{"\x00", "\xff", "text\n"}).Draw(rt, "unit"), rapid.IntRange(1, 2000).Draw(rt, "repeat")))
			}
			kit.WriteFile(idx, garbage)
		case "other kind":
			kind := "sqlite"
			if s.kind == "sqlite" && rapid.Bool().Draw(rt, "toFts5") {
				kind = "fts5"
			} else if s.kind == "sqlite" || s.kind == "fts5" && rapid.Bool().Draw(rt, "toWildcard") {
				kind = "wildcard"
			}
			other := stored{kind: kind, cols: s.cols}
			restart = cfg.With("indexes", kit.L{other.config("idx", "index")})
			detail = fmt.Sprint(s.kind, " as ", kind)
		case "version", "metadata":
			db, err := sql.Open("sqlite3", idx)
			kit.Must(err)
			statement := fmt.Sprintf(`UPDATE "rodb_idx_metadata" SET "version" = %v`, rapid.SampledFrom([]int{0, 2, 3, 65535}).Draw(rt, "version"))
			if change == "metadata" {
				statement = rapid.SampledFrom([]string{`UPDATE "rodb_idx_metadata" SET "completed" = 0`, `UPDATE "rodb_idx_metadata" SET "inputFileSize" = "inputFileSize" + 1`,
					`UPDATE "rodb_idx_metadata" SET "inputFileModificationTime" = "inputFileModificationTime" - 1`, `DELETE FROM "rodb_idx_metadata"`}).Draw(rt, "statement")
			}
			_, err = db.Exec(statement)
			db.Close()
			if err != nil {
				k.Label("unknown file format")
				return
			}
			detail = statement
		}
		again, err := kit.StartIn(rt, rig.Dir, kit.YAML(restart), nil)
		if err == nil {
			f := s.query(rt, d)
			got := "no index"
			if i, ok := again.Indexes["idx"]; ok {
				got = answer(i, again.Inputs["in"], f)
			}
			again.Close()
			// SQLite takes some unusable files for empty databases: the index is then built again.
			if change != "garbage" || got != answer(rig.Indexes["idx"], rig.Inputs["in"], f) {
				rt.Fatalf("after the change %v (%v index), startup succeeds and %v gives %v", detail, s.kind, f, got)
			}
		}
		k.Label(s.kind + ": " + change)
		if len(d.Rows) > 0 {
			k.Nontrivial(string(data), s, detail)
			k.Sample(fmt.Sprintf("%v\n%q\nchange %v", kit.YAML(cfg), string(data), detail))
		}
	})

	// The indexes of these two kinds do not hold the names of their properties.
	c.Enum("other settings", func(t *testing.T, account func(*kit.Case)) {
		input := kit.O{{"name", "in"}, {"type", "csv"}, {"path", "@DIR@/in"}, {"columns", kit.L{kit.O{{"name", "a"}}, kit.O{{"name", "b"}}}}}
		data := "one,two\ntwo,Running\nrunning,one\n"
		for _, change := range []struct {
			key, search   string
			before, after stored
		}{
			{"wildcard-other-properties", "two", stored{kind: "wildcard", cols: []string{"a"}}, stored{kind: "wildcard", cols: []string{"b"}}},
			{"fts5-other-settings", "a: two", stored{kind: "fts5", cols: []string{"a", "b"}}, stored{kind: "fts5", cols: []string{"b"}}},
			{"fts5-other-settings", "run", stored{kind: "fts5", cols: []string{"a", "b"}, tokenize: "ascii"}, stored{kind: "fts5", cols: []string{"a", "b"}, tokenize: "porter"}},
		} {
			k := &kit.Case{}
			rig := kit.MustStart(t, kit.O{{"inputs", kit.L{input}}, {"indexes", kit.L{change.before.config("idx", "index")}}}, kit.Files{"in": []byte(data)})
			again, err := kit.StartIn(t, rig.Dir, kit.YAML(kit.O{{"inputs", kit.L{input}}, {"indexes", kit.L{change.after.config("idx", "index")}}}), nil)
			if err == nil {
				search := map[string]interface{}{"match": change.search}
				if change.after.kind == "wildcard" {
					search = map[string]interface{}{change.after.cols[0]: change.search}
				}
				got := answer(again.Indexes["idx"], again.Inputs["in"], search)
				again.Close()
				if !kit.Known(change.key) {
					t.Fatalf("an index built as %v is used as %v: %v gives %v", change.before, change.after, search, got)
				}
				c.KnownFinding(change.key)
			}
			rig.Close()
			k.Nontrivial(change.before, change.after)
			k.Sample(fmt.Sprintf("index %v restarted as %v", change.before, change.after))
			account(k)
		}
	})
}
