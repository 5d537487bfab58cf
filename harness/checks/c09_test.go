package checks

import (
	"database/sql"
	"fmt"
	"strings"
	"testing"

	_ "github.com/mattn/go-sqlite3"
	"pgregory.net/rapid"
	"rodbverif/kit"
)

// A full-text query; the model evaluates it over ASCII words.
type ftsExpr struct {
	op     string // phrase, and, or, not, column, implicit
	words  []string
	prefix bool
	first  bool
	cols   []string
	negate bool
	kids   []*ftsExpr
}

func quoteFTS(s string) string { return `"` + strings.ReplaceAll(s, `"`, `""`) + `"` }

func (e *ftsExpr) String() string {
	switch e.op {
	case "phrase":
		s := ""
		if e.first {
			s = "^ "
		}
		if len(e.words) == 1 && e.words[0] != "" && !strings.ContainsAny(e.words[0], "-") {
			s += e.words[0]
		} else {
			s += quoteFTS(strings.Join(e.words, " "))
		}
		if e.prefix {
			s += "*"
		}
		return s
	case "implicit":
		parts := []string{}
		for _, k := range e.kids {
			parts = append(parts, k.String())
		}
		return strings.Join(parts, " ")
	case "column":
		cols := []string{}
		for _, c := range e.cols {
			cols = append(cols, quoteFTS(c))
		}
		s := "{" + strings.Join(cols, " ") + "} : (" + e.kids[0].String() + ")"
		if e.negate {
			s = "- " + s
		}
		return s
	}
	op := strings.ToUpper(e.op)
	parts := []string{}
	for _, k := range e.kids {
		parts = append(parts, "("+k.String()+")")
	}
	return strings.Join(parts, " "+op+" ")
}

func ftsTokens(v interface{}) []string {
	s, ok := v.(string)
	if !ok {
		return nil
	}
	return strings.FieldsFunc(strings.ToLower(s), func(r rune) bool { return !(r >= 'a' && r <= 'z' || r >= '0' && r <= '9') })
}

func (e *ftsExpr) match(row kit.Row, cols map[string]bool) bool {
	switch e.op {
	case "phrase":
		words := []string{}
		for _, w := range e.words {
			words = append(words, ftsTokens(w)...)
		}
		for col := range cols {
			tokens := ftsTokens(row[col])
			for i := 0; i+len(words) <= len(tokens); i++ {
				if e.first && i > 0 {
					break
				}
				ok := true
				for j, w := range words {
					if e.prefix && j == len(words)-1 {
						ok = ok && strings.HasPrefix(tokens[i+j], w)
					} else {
						ok = ok && tokens[i+j] == w
					}
				}
				if ok {
					return true
				}
			}
		}
		return false
	case "and", "implicit":
		for _, k := range e.kids {
			if !k.match(row, cols) {
				return false
			}
		}
		return true
	case "or":
		for _, k := range e.kids {
			if k.match(row, cols) {
				return true
			}
		}
		return false
	case "not":
		return e.kids[0].match(row, cols) && !e.kids[1].match(row, cols)
	case "column":
		in := map[string]bool{}
		for c := range cols {
			listed := false
			for _, x := range e.cols {
				listed = listed || x == c
			}
			if listed != e.negate {
				in[c] = true
			}
		}
		return e.kids[0].match(row, in)
	}
	kit.Harness("unknown operator %v", e.op)
	return false
}

var ftsWords = []string{"a", "b", "ab", "abc", "one", "two", "three", "onetwo", "thread", "red", "running", "run", "1", "12", "not", "Near"}

func ftsQueries(cols []string, depth int) *rapid.Generator[*ftsExpr] {
	return rapid.Custom(func(t *rapid.T) *ftsExpr {
		kind := 0
		if depth > 0 {
			kind = rapid.IntRange(0, 9).Draw(t, "queryKind")
		}
		sub := func() *ftsExpr { return ftsQueries(cols, depth-1).Draw(t, "sub") }
		switch kind {
		case 5:
			return &ftsExpr{op: "and", kids: []*ftsExpr{sub(), sub()}}
		case 6:
			return &ftsExpr{op: "or", kids: []*ftsExpr{sub(), sub()}}
		case 7:
			return &ftsExpr{op: "not", kids: []*ftsExpr{sub(), sub()}}
		case 8:
			n := rapid.IntRange(1, len(cols)).Draw(t, "columns")
			return &ftsExpr{op: "column", cols: rapid.Permutation(cols).Draw(t, "cols")[:n], negate: n < len(cols) && rapid.IntRange(0, 4).Draw(t, "negate") == 0, kids: []*ftsExpr{sub()}}
		case 9:
			n := rapid.IntRange(2, 3).Draw(t, "terms")
			e := &ftsExpr{op: "implicit"}
			for i := 0; i < n; i++ {
				e.kids = append(e.kids, &ftsExpr{op: "phrase", words: []string{rapid.SampledFrom(ftsWords).Draw(t, "word")}})
			}
			return e
		}
		e := &ftsExpr{op: "phrase", words: rapid.SliceOfN(rapid.SampledFrom(ftsWords), 1, rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "phraseLength")).Draw(t, "words")}
		switch rapid.IntRange(0, 7).Draw(t, "phraseKind") {
		case 0, 1:
			e.prefix = true
			last := &e.words[len(e.words)-1]
			*last = (*last)[:rapid.IntRange(1, len(*last)).Draw(t, "prefix")]
		case 2:
			e.first = true
		}
		return e
	})
}

var ftsMalformed = []string{"", " ", "AND", "a AND", "OR b", "(a", "a)", "\"a", "a NOT", "*", "nocolumn : a", "{nocolumn} : a", "a : ", "NEAR(", "^", "a + ", "a & b", "'a'", "a-b", "@", "a.b", "\\", "a\"", "-", "{} : a", "NEAR(a b, x)", "\x01", "é'"}

// reference is the same full-text table, built and searched with SQLite alone.
type reference struct{ db *sql.DB }

func newReference(cols []string, tokenize string, prefix []int, d *kit.Dataset) *reference {
	db, err := sql.Open("sqlite3", ":memory:")
	kit.Must(err)
	db.SetMaxOpenConns(1)
	names, marks := "", ""
	for _, c := range cols {
		names += ", " + quoteFTS(c)
		marks += ", ?"
	}
	options := ""
	if len(prefix) > 0 {
		options += ", prefix='" + strings.Trim(fmt.Sprint(prefix), "[]") + "'"
	}
	if tokenize != "" {
		options += ", tokenize=" + quoteFTS(tokenize)
	}
	_, err = db.Exec("CREATE VIRTUAL TABLE ref USING fts5(" + names[2:] + options + ")")
	kit.Must(err)
	for i, row := range d.Rows {
		values := []interface{}{i + 1}
		for _, c := range cols {
			values = append(values, row[c])
		}
		_, err := db.Exec("INSERT INTO ref(rowid"+names+") VALUES (?"+marks+")", values...)
		kit.Must(err)
	}
	return &reference{db}
}

func (r *reference) search(query string) ([]int, error) {
	rows, err := r.db.Query("SELECT rowid FROM ref WHERE ref MATCH ? ORDER BY rowid", query)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	found := []int{}
	for rows.Next() {
		var n int
		kit.Must(rows.Scan(&n))
		found = append(found, n-1)
	}
	return found, rows.Err()
}

func TestC09(t *testing.T) {
	c := kit.Begin(t, "C09", "A case is one data set with an fts5 index on it (tokenizer, prefix lengths and columns generated) and a sequence of queries, valid ones and rejected ones. Non-trivial: at least one query matches some but not all of the records; distinct by data, configuration and queries.")
	run := func(rt *rapid.T, k *kit.Case, words bool, columns, length int) {
		tokenize := ""
		texts := rapid.Custom(func(t *rapid.T) string {
			var b strings.Builder
			for i := rapid.IntRange(0, length).Draw(t, "count"); i > 0; i-- {
				b.WriteString(rapid.SampledFrom(ftsWords).Draw(t, "word"))
				b.WriteString(rapid.SampledFrom([]string{" ", " ", "  ", ", ", "-", ".", "\n"}).Draw(t, "gap"))
			}
			return b.String()
		})
		types := []string{kit.String}
		if !words {
			tokenize = rapid.SampledFrom([]string{"", "unicode61", "ascii", "porter", "porter ascii", "unicode61 remove_diacritics 0", "unicode61 remove_diacritics 2", "unicode61 tokenchars '-_'", "unicode61 separators 'x'", "trigram", "unicode61 categories 'L* N*'"}).Draw(rt, "tokenize")
			texts = rapid.OneOf(texts, kit.ShortTexts(), rapid.SampledFrom([]string{"café", "CAFÉ", "cafe\u0301", "running runs", "Straße", "naïve one_two", "x1x2", "日本語 テキスト", "thread's"}))
			types = []string{kit.String, kit.String, kit.Float, kit.Boolean, kit.Integer}
		}
		d := kit.Datasets(kit.DataOpts{Types: types, MinCols: columns / 3, MaxCols: columns, PoolMax: 8, Texts: texts, MaxRows: rapid.SampledFrom([]int{5, 15, 40}).Draw(rt, "maxRows")}).Draw(rt, "data")
		conf, data := d.Render(rt, "in", "in")
		cols := []string{}
		seen := map[string]bool{}
		for _, col := range rapid.Permutation(d.Cols).Draw(rt, "indexed")[:rapid.IntRange(max(1, columns/4), len(d.Cols)).Draw(rt, "indexedCount")] {
			if !seen[strings.ToLower(col.Name)] {
				cols = append(cols, col.Name)
			}
			seen[strings.ToLower(col.Name)] = true
		}
		idx := kit.O{{"name", "text"}, {"type", "fts5"}, {"dsn", dsns().Draw(rt, "dsn")}, {"input", "in"}, {"properties", list(cols)}}
		prefix := rapid.SampledFrom([][]int{nil, {1}, {2, 3}, {3, 1}, {10}, {2, 12}, {100}, {999, 1}}).Draw(rt, "prefixLengths")
		if prefix != nil {
			l := kit.L{}
			for _, p := range prefix {
				l = append(l, p)
			}
			idx = append(idx, kit.KV{K: "prefix", V: l})
		}
		if tokenize != "" {
			idx = append(idx, kit.KV{K: "tokenize", V: tokenize})
		}
		cfg := kit.O{{"inputs", kit.L{conf}}, {"indexes", kit.L{idx}}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in": data})
		defer rig.Close()
		in := rig.Inputs["in"]
		pos, err := rowPositions(in, len(d.Rows))
		if err != nil {
			rt.Fatal(err)
		}
		ref := newReference(cols, tokenize, prefix, d)
		defer ref.db.Close()
		all := map[string]bool{}
		for _, col := range cols {
			all[col] = true
		}
		queries := []string{}
		interesting := false
		n := rapid.IntRange(2, 8).Draw(rt, "queries")
		ask := func(query string) (valid bool) {
			rows, refErr := ref.search(query)
			next, err := rig.Indexes["text"].GetRecordPositions(in, map[string]interface{}{"match": query})
			got, err := positions(next, err)
			switch {
			case refErr != nil && err == nil:
				rt.Fatalf("queries %q: the last query is malformed (%v), but the answer is %v", queries, refErr, got)
			case refErr == nil && err != nil:
				rt.Fatalf("queries %q: the last query is valid, but gives error %v", queries, err)
			case refErr == nil && !sameInts(got, at(pos, rows)):
				rt.Fatalf("queries %q: the last query gives positions %v instead of %v", queries, got, at(pos, rows))
			}
			interesting = interesting || refErr == nil && len(rows) > 0 && len(rows) < len(d.Rows)
			k.LabelIf(refErr != nil, "rejected query")
			k.LabelIf(refErr == nil && len(rows) > 1, "several matches")
			return refErr == nil
		}
		for q := 0; q < n; q++ {
			switch rapid.IntRange(0, 5).Draw(rt, "query") {
			case 0:
				query := rapid.SampledFrom(ftsMalformed).Draw(rt, "odd")
				queries = append(queries, query)
				ask(query)
			case 1:
				query := rapid.OneOf(kit.ShortTexts(), rapid.StringMatching(`(a|b|one|"|\*|\(|\)| |AND|OR|NOT|NEAR\(|\+|:|\^|,2\)|-|[{}]){1,8}`),
					rapid.SampledFrom([]string{"NEAR(one two, 1)", "NEAR(a b)", "one + two", "caf*", "cafe", "CAFÉ", "run", "日本語", "one_two", "\"x1\"", "RUNS", "hre", "1.5", "\"-1\"", "true"})).Draw(rt, "freeQuery")
				if strings.Contains(query, "\x00") {
					continue
				}
				queries = append(queries, query)
				ask(query)
			case 2:
				if len(queries) > 0 { // again
					query := rapid.SampledFrom(queries).Draw(rt, "again")
					queries = append(queries, query)
					ask(query)
				}
			default:
				e := ftsQueries(cols, 3).Draw(rt, "expr")
				if columns > 10 && rapid.IntRange(0, 2).Draw(rt, "oneColumn") > 0 {
					e = &ftsExpr{op: "column", cols: []string{rapid.SampledFrom(cols).Draw(rt, "column")}, kids: []*ftsExpr{ftsQueries(cols, 0).Draw(rt, "inColumn")}}
				}
				queries = append(queries, e.String())
				valid := ask(e.String())
				if words {
					if !valid {
						kit.Harness("%q is malformed", e.String())
					}
					found, _ := ref.search(e.String())
					want := []int{}
					for i, row := range d.Rows {
						if e.match(row, all) {
							want = append(want, i)
						}
					}
					if fmt.Sprint(found) != fmt.Sprint(want) {
						kit.Harness("the model gives %v and SQLite %v for %q on %v", want, found, e.String(), d.Rows)
					}
				}
			}
		}
		k.LabelIf(tokenize != "", "tokenize "+tokenize)
		if interesting {
			k.Nontrivial(string(data), tokenize, cols, queries)
			k.Sample(fmt.Sprintf("%v\n%q\nqueries %q", kit.YAML(cfg), clippedText(string(data)), queries))
		}
	}
	c.Prop("words", 1500, 20000, func(rt *rapid.T, k *kit.Case) { run(rt, k, true, 3, 5) })
	c.Prop("any text", 1500, 20000, func(rt *rapid.T, k *kit.Case) { run(rt, k, false, 3, 5) })

	// Indexes on dozens of properties, or on long texts.
	c.Prop("many columns", 100, 3000, func(rt *rapid.T, k *kit.Case) { run(rt, k, true, 40, 5) })
	c.Prop("long texts", 60, 2000, func(rt *rapid.T, k *kit.Case) { run(rt, k, true, 2, 400) })

	// Searches with thousands of matches.
	c.Prop("many matches", 6, 150, func(rt *rapid.T, k *kit.Case) {
		d, conf, data := manyRows(rt, []string{"x one", "y two", "x two"})
		cfg := kit.O{{"inputs", kit.L{conf}}, {"indexes", kit.L{kit.O{{"name", "text"}, {"type", "fts5"}, {"dsn", dsns().Draw(rt, "dsn")}, {"input", "in"}, {"properties", kit.L{"a", "b"}}}}}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in": data})
		defer rig.Close()
		in := rig.Inputs["in"]
		pos, err := rowPositions(in, len(d.Rows))
		if err != nil {
			rt.Fatal(err)
		}
		ref := newReference([]string{"a", "b"}, "", nil, d)
		defer ref.db.Close()
		most := 0
		for _, query := range []string{"x", "one OR two", "a:x AND b:rare", "usual", "us*", "x NOT rare", "\"x one\"", "rare"} {
			rows, err := ref.search(query)
			kit.Must(err)
			next, err := rig.Indexes["text"].GetRecordPositions(in, map[string]interface{}{"match": query})
			got, err := positions(next, err)
			if err != nil || !sameInts(got, at(pos, rows)) {
				rt.Fatalf("%q gives %d positions instead of %d, %v", query, len(got), len(rows), err)
			}
			most = max(most, len(rows))
		}
		k.LabelIf(most > 4000, "more than 4000 matches")
		k.Nontrivial(string(data))
	})
}
