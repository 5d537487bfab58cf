package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"pgregory.net/rapid"
	"rodbverif/kit"
)

// filter is one property and the value searched in it.
type filter struct {
	property string
	value    interface{}
}

type filters []filter

func (f filters) asMap() map[string]interface{} {
	m := map[string]interface{}{}
	for _, x := range f {
		m[x.property] = x.value
	}
	return m
}

func (f filters) String() string {
	parts := []string{}
	for _, x := range f {
		parts = append(parts, fmt.Sprintf("%q=%v", x.property, kit.Show(x.value)))
	}
	return strings.Join(parts, " ")
}

// variant draws a value near (or equal to) another one of the same type.
func variant(rt *rapid.T, v interface{}) interface{} {
	switch x := v.(type) {
	case string:
		switch rapid.IntRange(0, 7).Draw(rt, "variant") {
		case 0:
			return x + " "
		case 1:
			return strings.TrimRight(x, " ")
		case 2:
			return strings.ToUpper(x)
		case 3:
			return strings.ToLower(x)
		case 4:
			if r := []rune(x); len(r) > 0 {
				return string(r[:len(r)-1])
			}
			return x
		case 5:
			return x + "a"
		}
		return x
	case int64:
		return x + rapid.Int64Range(-1, 1).Draw(rt, "variant")
	case float64:
		return x + rapid.SampledFrom([]float64{0, 0.5, -1}).Draw(rt, "variant")
	case bool:
		return x != rapid.Bool().Draw(rt, "variant")
	}
	return v
}

// drawFilters draws between 1 and max filters on the given columns.
func drawFilters(rt *rapid.T, d *kit.Dataset, cols []kit.Col, max int, texts *rapid.Generator[string]) filters {
	cols = rapid.Permutation(cols).Draw(rt, "filterOrder")
	if max > len(cols) {
		max = len(cols)
	}
	n := 1
	if max > 1 {
		n = rapid.IntRange(1, max).Draw(rt, "filters")
	}
	from := -1
	if len(d.Rows) > 0 {
		from = rapid.IntRange(0, len(d.Rows)-1).Draw(rt, "from")
	}
	list := filters{}
	for _, c := range cols[:n] {
		var v interface{}
		if from >= 0 && rapid.IntRange(0, 9).Draw(rt, "fresh") > 0 {
			v = d.Rows[from][c.Name]
		}
		if v != nil && rapid.IntRange(0, 3).Draw(rt, "change") == 0 {
			v = variant(rt, v)
		}
		if v == nil {
			v = kit.Values(c.Type, texts).Draw(rt, "value")
		}
		list = append(list, filter{c.Name, v})
	}
	return list
}

// matching lists the rows that satisfy all filters.
func matching(d *kit.Dataset, f filters, match func(x filter, v interface{}) bool) []int {
	rows := []int{}
	for i, row := range d.Rows {
		ok := true
		for _, x := range f {
			ok = ok && match(x, row[x.property])
		}
		if ok {
			rows = append(rows, i)
		}
	}
	return rows
}

func equals(x filter, v interface{}) bool { return v != nil && v == x.value }

// rowPositions iterates an input and returns the position of each row.
func rowPositions(in input.Input, rows int) ([]int64, error) {
	items, err := iterate(in)
	if err != nil {
		return nil, err
	}
	if len(items) != rows {
		return nil, fmt.Errorf("%d records instead of %d", len(items), rows)
	}
	if err := increasing(items); err != nil {
		return nil, err
	}
	list := []int64{}
	for _, it := range items {
		list = append(list, it.position)
	}
	return list, nil
}

func at(pos []int64, rows []int) []int64 {
	list := []int64{}
	for _, r := range rows {
		list = append(list, pos[r])
	}
	return list
}

// lookup asks an index and checks the answer.
func lookup(idx index.Index, in input.Input, f filters, want []int64) error {
	next, err := idx.GetRecordPositions(in, f.asMap())
	got, err := positions(next, err)
	if err != nil {
		return fmt.Errorf("error %v instead of positions %v", err, want)
	}
	if !sameInts(got, want) {
		return fmt.Errorf("positions %v instead of %v", got, want)
	}
	return nil
}

func columnNames(cols []kit.Col) []string {
	names := []string{}
	for _, c := range cols {
		names = append(names, c.Name)
	}
	sort.Strings(names)
	return names
}

func list(names []string) kit.L {
	l := kit.L{}
	for _, n := range names {
		l = append(l, n)
	}
	return l
}

// caseDistinct says that no two names differ only in case (sqlite columns cannot).
func caseDistinct(names []string) bool {
	seen := map[string]bool{}
	for _, n := range names {
		l := strings.ToLower(n)
		if seen[l] {
			return false
		}
		seen[l] = true
	}
	return true
}

// reload starts a second instance on the same files and configuration.
func reload(rig *kit.Rig) (*kit.Rig, error) {
	return kit.Load(rig.Dir, rig.Dir+"/rodb.yaml")
}

// substringTexts draws strings that share many substrings.
func substringTexts() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 9).Draw(t, "textKind") {
		case 0, 1, 2, 3:
			return rapid.StringMatching(`[ab]{0,8}`).Draw(t, "ab")
		case 4, 5:
			return rapid.StringMatching(`[aAbB ]{0,6}`).Draw(t, "case")
		case 6:
			return rapid.StringOfN(rapid.SampledFrom([]rune("éÉèßẞİıſKkKÅåΣσς界畍😀a")), 0, 6, -1).Draw(t, "unicode")
		case 7:
			return rapid.SampledFrom([]string{"banana", "ananas", "Banana band", "mississippi", "aaaaaaa", "aaaaaaaa", "abcabcabc", "bandana"}).Draw(t, "word")
		case 8:
			unit := rapid.StringMatching(`[ab]{1,3}`).Draw(t, "unit")
			return strings.Repeat(unit, rapid.IntRange(1, 20).Draw(t, "repeat"))
		default:
			return rapid.StringOfN(rapid.SampledFrom([]rune(",;\"'\n\t|<>&{}[]()\\/$%_-.:*+^#@!?= éあ")), 0, 6, -1).Draw(t, "specials")
		}
	})
}

// dsns draws where an sqlite or fts5 index is stored.
func dsns() *rapid.Generator[string] {
	return rapid.SampledFrom([]string{"@DIR@/index.sqlite", "@DIR@/index.sqlite", "file:@DIR@/index.db", ":memory:"})
}

// manyRows draws a large data set whose records have one of a few values, so
// that a search has many matches.
func manyRows(rt *rapid.T, words []string, others ...string) (*kit.Dataset, kit.O, []byte) {
	sizes := []int{1100, 2100, 4200, 9000}
	if kit.Thorough() {
		sizes = append(sizes, 20000, 70000)
	}
	n := rapid.SampledFrom(sizes).Draw(rt, "size") + rapid.IntRange(0, 900).Draw(rt, "more")
	words = words[:rapid.IntRange(1, min(3, len(words))).Draw(rt, "words")]
	rare := rapid.IntRange(2, 400).Draw(rt, "rare")
	seed := rapid.Uint64Range(1, 1<<60).Draw(rt, "seed")
	d := &kit.Dataset{Kind: "csv", Cols: []kit.Col{{Name: "a", Type: kit.String}, {Name: "b", Type: kit.String}}}
	var data strings.Builder
	for i := 0; i < n; i++ {
		seed ^= seed << 13
		seed ^= seed >> 7
		seed ^= seed << 17
		a, b := words[seed%uint64(len(words))], "usual"
		if (seed>>20)%uint64(rare) == 0 {
			b = "rare"
		}
		if len(others) > 0 && (seed>>40)%300 == 0 {
			a = others[(seed>>50)%uint64(len(others))]
		}
		d.Rows = append(d.Rows, kit.Row{"a": a, "b": b})
		data.WriteString(a + "," + b + "\n")
	}
	conf := kit.O{{"name", "in"}, {"type", "csv"}, {"path", "@DIR@/in"}, {"dieOnInputChange", false},
		{"columns", kit.L{kit.O{{"name", "a"}}, kit.O{{"name", "b"}}}}}
	return d, conf, []byte(data.String())
}

// clipped shortens an error listing thousands of positions.
func clipped(err error) string {
	s := err.Error()
	if len(s) > 300 {
		s = s[:200] + " … " + s[len(s)-100:]
	}
	return s
}
