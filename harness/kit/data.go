package kit

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

// Column types.
const (
	String  = "string"
	Integer = "integer"
	Float   = "float"
	Boolean = "boolean"
)

type Col struct {
	Name string
	Type string
}

// Row maps column names to values (string, int64, float64, bool or nil).
type Row = map[string]interface{}

// Dataset is the model of one input.
type Dataset struct {
	Kind string // csv, json or xml
	Cols []Col
	Rows []Row
	// Whether the rows have a property "extra" in addition to the columns: a JSON
	// value, or a list of strings for XML.
	Extra bool
}

func (d *Dataset) Col(name string) *Col {
	for i := range d.Cols {
		if d.Cols[i].Name == name {
			return &d.Cols[i]
		}
	}
	return nil
}

// Texts draws strings of many shapes; all of them are valid UTF-8, and valid in CSV, JSON and XML.
func Texts() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 15).Draw(t, "textKind") {
		case 0, 1, 2, 3, 4:
			return rapid.StringMatching(`[ab]{0,4}`).Draw(t, "ab")
		case 5, 6:
			return rapid.StringMatching(`[a-zA-Z0-9]{1,8}( [a-z]{1,4}){0,2}`).Draw(t, "words")
		case 7, 8:
			return rapid.StringOfN(rapid.SampledFrom([]rune(",;\"'\n\t|<>&{}[]()\\/$%_-.:*+^#@!?= éあ")), 0, 6, -1).Draw(t, "specials")
		case 9:
			return rapid.StringOfN(rapid.SampledFrom([]rune("éÉßİıſaAあ界😀\u0301\u00a0\u2028")), 0, 5, -1).Draw(t, "unicode")
		case 10:
			return rapid.SampledFrom([]string{"", " ", "  ", "null", "true", "0", "-1", "1.5", "NaN", "\"\"", "\n", " a", "a ", "''", "--", "A", "a"}).Draw(t, "edge")
		case 11:
			return strconv.FormatInt(rapid.Int64().Draw(t, "digits"), 10)
		case 12:
			unit := rapid.StringMatching(`[abc,"\n ]{1,3}`).Draw(t, "unit")
			n := rapid.SampledFrom([]int{10, 100, 700, 1365, 2048, 4096}).Draw(t, "repeat")
			return strings.Repeat(unit, n)
		default:
			return rapid.StringOfN(rapid.RuneFrom(nil, graphic...), 0, 8, -1).Draw(t, "any")
		}
	})
}

// ShortTexts is Texts without the long ones.
func ShortTexts() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 9).Draw(t, "textKind") {
		case 0, 1, 2, 3:
			return rapid.StringMatching(`[ab]{0,4}`).Draw(t, "ab")
		case 4, 5:
			return rapid.StringMatching(`[a-zA-Z0-9]{1,6}( [a-z]{1,4}){0,2}`).Draw(t, "words")
		case 6, 7:
			return rapid.StringOfN(rapid.SampledFrom([]rune(",;\"'\n\t|<>&{}[]()\\/$%_-.:*+^#@!?= éあ")), 0, 6, -1).Draw(t, "specials")
		case 8:
			return rapid.StringOfN(rapid.SampledFrom([]rune("éÉßİıſaAあ界😀\u0301\u00a0\u2028")), 0, 5, -1).Draw(t, "unicode")
		default:
			return rapid.SampledFrom([]string{"", " ", "null", "true", "0", "-1", "1.5", "a", "A", "a ", " a", "''"}).Draw(t, "edge")
		}
	})
}

func Integers() *rapid.Generator[int64] {
	return rapid.OneOf(
		rapid.Int64Range(-3, 10),
		rapid.Int64Range(-1000, 1000),
		rapid.SampledFrom([]int64{math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1, -(1 << 53) - 1, 1 << 31, 0}),
		rapid.Int64(),
	)
}

func Floats() *rapid.Generator[float64] {
	return rapid.OneOf(
		rapid.Map(rapid.IntRange(-8, 40), func(i int) float64 { return float64(i) / 4 }),
		rapid.Map(rapid.IntRange(-5, 5), func(i int) float64 { return float64(i) }),
		rapid.SampledFrom([]float64{0.1, 1e21, 1e-7, 123456.789, math.MaxFloat64, math.SmallestNonzeroFloat64, 9007199254740993}),
		rapid.Float64Range(-1e6, 1e6),
	)
}

// Values draws a value of a column type.
func Values(typ string, texts *rapid.Generator[string]) *rapid.Generator[interface{}] {
	switch typ {
	case String:
		return rapid.Map(texts, func(v string) interface{} { return v })
	case Integer:
		return rapid.Map(Integers(), func(v int64) interface{} { return v })
	case Float:
		return rapid.Map(Floats(), func(v float64) interface{} { return v })
	case Boolean:
		return rapid.Map(rapid.Bool(), func(v bool) interface{} { return v })
	}
	Harness("unknown type %v", typ)
	return nil
}

// Lengthened returns the pool of values, at times with the same long text before (or
// after) all of its strings: equal beginnings and ends are what a comparison that
// does not look at all of a value is mistaken about.
func Lengthened(t *rapid.T, pool []interface{}, ascii bool) []interface{} {
	if rapid.IntRange(0, 5).Draw(t, "lengthened") != 0 || len(pool) > 40 {
		return pool
	}
	units := []string{"a", "b", "ab", "aB", "the ", "a-", "é", "界"}
	if ascii {
		units = units[:6]
	}
	common := strings.Repeat(rapid.SampledFrom(units).Draw(t, "common"), rapid.SampledFrom([]int{9, 17, 33, 65, 129}).Draw(t, "times"))
	after := rapid.Bool().Draw(t, "after")
	longer := []interface{}{}
	for _, v := range pool {
		if text, ok := v.(string); ok {
			if after {
				v = text + common
			} else {
				v = common + text
			}
		}
		longer = append(longer, v)
	}
	return longer
}

// Text writes a value so that the predefined parser of its type reads it back.
func Text(v interface{}) string {
	switch x := v.(type) {
	case string:
		return x
	case int64:
		return strconv.FormatInt(x, 10)
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case bool:
		return strconv.FormatBool(x)
	}
	Harness("no text for %#v", v)
	return ""
}

var columnNames = []string{"a", "b", "c", "id", "name", "value_1", "x y", "été", "k-9", "Title", "order", "select", "d'q", "z\"w"}

// DataOpts restricts what datasets look like.
type DataOpts struct {
	Kinds   []string // default csv, json, xml
	Types   []string // default all that the kind supports
	MinCols int
	MaxCols int
	MaxRows int
	MinRows int
	NoNulls bool
	Texts   *rapid.Generator[string]
	Simple  bool                     // plain column names
	PoolMax int                      // distinct values per column
	Pools   map[string][]interface{} // values by type, instead of drawn ones
	Extras  bool                     // may add Dataset.Extra
	Names   []string                 // of the columns, instead of the usual ones
}

func Datasets(o DataOpts) *rapid.Generator[*Dataset] {
	return rapid.Custom(func(t *rapid.T) *Dataset {
		kinds := o.Kinds
		if len(kinds) == 0 {
			kinds = []string{"csv", "json", "xml"}
		}
		d := &Dataset{Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
		types := o.Types
		if len(types) == 0 {
			types = []string{String, Integer, Float, Boolean}
		}
		if d.Kind == "json" {
			kept := []string{}
			for _, typ := range types {
				if typ != Integer {
					kept = append(kept, typ)
				}
			}
			types = kept
		}
		minCols, maxCols, maxRows := max(o.MinCols, 1), o.MaxCols, o.MaxRows
		if maxCols == 0 {
			maxCols = 4
		}
		if maxRows == 0 {
			maxRows = 12
		}
		names := columnNames
		if o.Simple {
			names = names[:6]
		}
		if len(o.Names) > 0 {
			names = o.Names
		}
		names = rapid.Permutation(names).Draw(t, "names")
		n := rapid.IntRange(minCols, min(maxCols, len(names))).Draw(t, "cols")
		for i := 0; i < n; i++ {
			d.Cols = append(d.Cols, Col{names[i], rapid.SampledFrom(types).Draw(t, "type")})
		}
		texts := o.Texts
		if texts == nil {
			texts = ShortTexts()
		}
		poolMax := o.PoolMax
		if poolMax == 0 {
			poolMax = 4
		}
		pools := make([][]interface{}, n)
		for i, c := range d.Cols {
			if pools[i] = o.Pools[c.Type]; pools[i] == nil {
				pools[i] = rapid.SliceOfN(Values(c.Type, texts), 1, poolMax).Draw(t, "pool")
				if c.Type == String {
					pools[i] = Lengthened(t, pools[i], true)
				}
			}
		}
		rows := rapid.IntRange(o.MinRows, maxRows).Draw(t, "rows")
		nulls := !o.NoNulls && d.Kind != "xml" && rapid.Bool().Draw(t, "nulls")
		for r := 0; r < rows; r++ {
			row := Row{}
			for i, c := range d.Cols {
				row[c.Name] = rapid.SampledFrom(pools[i]).Draw(t, "v")
			}
			if nulls {
				switch d.Kind {
				case "csv": // missing trailing fields
					keep := rapid.IntRange(1, n).Draw(t, "fields")
					for i := keep; i < n; i++ {
						row[d.Cols[i].Name] = nil
					}
				case "json":
					for i := range d.Cols {
						if rapid.IntRange(0, 5).Draw(t, "null") == 0 {
							row[d.Cols[i].Name] = nil
						}
					}
				}
			}
			d.Rows = append(d.Rows, row)
		}
		if o.Extras && rapid.IntRange(0, 2).Draw(t, "extra") == 0 {
			d.Extra = true
			for _, row := range d.Rows {
				switch d.Kind {
				case "xml":
					list := []interface{}{}
					for _, s := range rapid.SliceOfN(texts, 0, 3).Draw(t, "items") {
						list = append(list, s)
					}
					row["extra"] = list
				case "csv":
					row["extra"] = nil
					if row[d.Cols[n-1].Name] != nil {
						row["extra"] = JSONValue(2).Draw(t, "extraValue")
					}
				default:
					row["extra"] = JSONValue(2).Draw(t, "extraValue")
				}
			}
		}
		return d
	})
}

// Render draws a layout for the data set and returns the input configuration
// (path "@DIR@/<file>") and the file content.
func (d *Dataset) Render(t *rapid.T, inputName, file string) (O, []byte) {
	conf := O{{"name", inputName}, {"type", d.Kind}, {"path", "@DIR@/" + file}, {"dieOnInputChange", false}}
	switch d.Kind {
	case "csv":
		delimiter := rapid.SampledFrom([]string{",", ";", "\t", "|"}).Draw(t, "delimiter")
		header := rapid.Bool().Draw(t, "header")
		eol := rapid.SampledFrom([]string{"\n", "\r\n"}).Draw(t, "eol")
		quoteAll := rapid.Bool().Draw(t, "quoteAll")
		final := rapid.Bool().Draw(t, "finalNewline")
		if delimiter != "," || rapid.Bool().Draw(t, "writeDelimiter") {
			conf = append(conf, KV{"delimiter", delimiter})
		}
		cols := L{}
		for _, c := range d.Cols {
			col := O{{"name", c.Name}}
			if c.Type != String || rapid.Bool().Draw(t, "writeParser") {
				col = append(col, KV{"parser", c.Type})
			}
			cols = append(cols, col)
		}
		if d.Extra {
			cols = append(cols, O{{"name", "extra"}, {"parser", "json"}})
		}
		conf = append(conf, KV{"columns", cols})
		lines := []string{}
		if header {
			conf = append(conf, KV{"ignoreFirstRow", true})
			names := []string{}
			for _, c := range d.Cols {
				names = append(names, CSVField(c.Name, delimiter, true, false))
			}
			if d.Extra {
				names = append(names, "extra")
			}
			lines = append(lines, strings.Join(names, delimiter))
		}
		for _, row := range d.Rows {
			fields := []string{}
			for i, c := range d.Cols {
				v := row[c.Name]
				if v == nil {
					break
				}
				fields = append(fields, CSVField(Text(v), delimiter, quoteAll, i == 0))
			}
			if d.Extra && len(fields) == len(d.Cols) {
				data, err := json.Marshal(row["extra"])
				Must(err)
				fields = append(fields, CSVField(string(data), delimiter, quoteAll, false))
			}
			lines = append(lines, strings.Join(fields, delimiter))
		}
		content := strings.Join(lines, eol)
		if final && len(lines) > 0 {
			content += eol
		}
		return conf, []byte(content)
	case "json":
		separator := rapid.SampledFrom([]string{"\n", "", " ", "\r\n\t "}).Draw(t, "separator")
		var b bytes.Buffer
		b.WriteString(rapid.SampledFrom([]string{"", "\n", "  "}).Draw(t, "leading"))
		for i, row := range d.Rows {
			if i > 0 {
				b.WriteString(separator)
			}
			data, err := json.Marshal(row)
			Must(err)
			if rapid.IntRange(0, 3).Draw(t, "indent") == 0 {
				var ind bytes.Buffer
				Must(json.Indent(&ind, data, "", "  "))
				data = ind.Bytes()
			}
			b.Write(data)
		}
		b.WriteString(rapid.SampledFrom([]string{"", "\n", "\n\n"}).Draw(t, "trailing"))
		return conf, b.Bytes()
	case "xml":
		props := L{}
		attr := map[int]bool{}
		for i, c := range d.Cols {
			attr[i] = rapid.Bool().Draw(t, "attribute")
			path := fmt.Sprintf("string(c%d)", i)
			if attr[i] {
				path = fmt.Sprintf("string(@c%d)", i)
			}
			props = append(props, O{{"name", c.Name}, {"type", "primitive"}, {"parser", c.Type}, {"xpath", path}})
		}
		if d.Extra {
			props = append(props, O{{"name", "extra"}, {"type", "array"}, {"xpath", "extra"}, {"items", O{{"type", "primitive"}, {"parser", String}, {"xpath", "string(.)"}}}})
		}
		conf = append(conf, KV{"recordXpath", rapid.SampledFrom([]string{"/root/rec", "//rec"}).Draw(t, "xpath")}, KV{"properties", props})
		pad := rapid.SampledFrom([]string{"", "\n", "\n\t", "<!-- c -->"}).Draw(t, "pad")
		var b bytes.Buffer
		if rapid.Bool().Draw(t, "declaration") {
			b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
		}
		b.WriteString("<root>" + pad)
		for _, row := range d.Rows {
			b.WriteString("<rec")
			for i, c := range d.Cols {
				if attr[i] {
					fmt.Fprintf(&b, " c%d=\"%s\"", i, XMLEscape(Text(row[c.Name])))
				}
			}
			b.WriteString(">")
			for i, c := range d.Cols {
				if !attr[i] {
					fmt.Fprintf(&b, "%s<c%d>%s</c%d>", pad, i, XMLEscape(Text(row[c.Name])), i)
				}
			}
			if d.Extra {
				for _, v := range row["extra"].([]interface{}) {
					fmt.Fprintf(&b, "<extra>%s</extra>", XMLEscape(Text(v)))
				}
			}
			b.WriteString("</rec>" + pad)
		}
		b.WriteString("</root>")
		return conf, b.Bytes()
	}
	Harness("unknown kind %v", d.Kind)
	return nil, nil
}

// CSVField quotes a field when needed (or wanted).
func CSVField(s, delimiter string, quote, first bool) string {
	if quote || first && s == "" || strings.ContainsAny(s, delimiter+"\"\r\n") || s == `\.` || strings.HasPrefix(s, " ") {
		return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
	}
	return s
}

// XMLEscape writes a string as character references where XML would not keep it.
func XMLEscape(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r == '<' || r == '>' || r == '&' || r == '"' || r == '\'' || r == '\n' || r == '\t' || r == '\r':
			fmt.Fprintf(&b, "&#%d;", r)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

// Characters that CSV, JSON and XML all keep as they are.
var graphic = []*unicode.RangeTable{unicode.L, unicode.N, unicode.P, unicode.S, unicode.Zs}

func (d *Dataset) GoString() string { return fmt.Sprintf("(%v data, %d rows)", d.Kind, len(d.Rows)) }
