package checks

import (
	"fmt"
	"net/url"
	"slices"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/text/encoding/charmap"
	"pgregory.net/rapid"
	"rodbverif/kit"
)

// A world is a generated configuration with its data, and a model of what it has to answer.
type world struct {
	inputs  []*wInput
	indexes []*wIndex
	outputs []*wOutput
	parsers kit.L
	routes  []string // outputs in route order
}

type wInput struct {
	name string
	d    *kit.Dataset
	conf kit.O
	data []byte
}

type wIndex struct {
	name, kind, input string // input is empty for the ones that handle all of them
	props             []string
	ignoreCase        bool
	collate           map[string]string
	conf              kit.O
}

type wParam struct{ name, index, property, parser string }

type wSort struct {
	property  string
	ascending bool
}

type wMatch struct{ parent, child, index string }

type wRel struct {
	name, input string
	array       bool
	limit       int
	sorts       []wSort
	match       []wMatch
	rels        []*wRel
	conf        kit.O
}

type wOutput struct {
	name        string
	array       bool
	input       string
	params      []wParam
	rels        []*wRel
	def, max    uint64
	limit       string // names of the parameters
	offset      string
	conf        kit.O
	base        string // route without its placeholder
	path        string // route; the last segment may be a placeholder
	placeholder string // parameter of the placeholder
}

type worldOpts struct {
	minInputs, maxInputs   int
	minOutputs, maxOutputs int
	kinds                  []string // of inputs
	indexKinds             []string
	minRows, maxRows       int
	arrays, objects        bool
	minParams, maxParams   int
	relDepth, maxRels      int
	deepRels               bool // relationships at every level
	alwaysRels             bool
	sorts, collide         bool
	paging                 bool
	parsers                bool   // parameters may use other parsers than the predefined ones
	prefix                 string // of all names
	poolMax                int
	columns                []string // names of the columns
	indexNames             []string // instead of numbered ones
	maxIndexes             int      // per input
	dsns                   []string // of the sqlite and fts5 indexes
	routes                 []string // paths of the outputs, instead of their names
}

var allIndexes = []string{"map", "sqlite", "wildcard", "fts5", "noop"}

func (out *wOutput) GoString() string { return "(" + out.name + ")" }
func (in *wInput) GoString() string   { return "(" + in.name + ")" }

func (w *world) input(name string) *wInput {
	for _, in := range w.inputs {
		if in.name == name {
			return in
		}
	}
	kit.Harness("no input %v", name)
	return nil
}

func (w *world) index(name string) *wIndex {
	if name == "default" {
		return &wIndex{name: "default", kind: "noop"}
	}
	for _, idx := range w.indexes {
		if idx.name == name {
			return idx
		}
	}
	kit.Harness("no index %v", name)
	return nil
}

func worldTexts() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		switch rapid.IntRange(0, 7).Draw(t, "worldText") {
		case 0, 1:
			return rapid.StringMatching(`[abAB]{0,3}`).Draw(t, "ab")
		case 2, 3, 4:
			return strings.Join(rapid.SliceOfN(rapid.SampledFrom(ftsWords), 1, 4).Draw(t, "words"), rapid.SampledFrom([]string{" ", " ", ", ", "-"}).Draw(t, "gap"))
		case 5:
			return rapid.SampledFrom([]string{"", " ", "a ", " a", "null", "true", "0", "1", "a/b", "a?b=c", "a&b", "100%", "%20", "+", "a+b", "<b>", "\"q\"", "x;y"}).Draw(t, "edge")
		default:
			return rapid.StringMatching(`[a-z]{1,5}`).Draw(t, "word")
		}
	})
}

// noNulls lists the columns that are never null.
func (in *wInput) noNulls() []kit.Col {
	cols := []kit.Col{}
	for _, c := range in.d.Cols {
		ok := true
		for _, r := range in.d.Rows {
			ok = ok && r[c.Name] != nil
		}
		if ok {
			cols = append(cols, c)
		}
	}
	return cols
}

func drawWorld(rt *rapid.T, o worldOpts) *world {
	w := &world{}
	pools := map[string][]interface{}{}
	poolMax := o.poolMax
	if poolMax == 0 {
		poolMax = 4
	}
	for _, typ := range []string{kit.String, kit.Integer, kit.Float, kit.Boolean} {
		pools[typ] = rapid.SliceOfN(kit.Values(typ, worldTexts()), 2, poolMax).Draw(rt, "shared "+typ)
	}
	pools[kit.String] = kit.Lengthened(rt, pools[kit.String], true)
	for i := rapid.IntRange(o.minInputs, o.maxInputs).Draw(rt, "inputs"); i > 0; i-- {
		name := fmt.Sprintf("%sin%d", o.prefix, len(w.inputs))
		d := kit.Datasets(kit.DataOpts{Kinds: o.kinds, Simple: true, Extras: true, MinCols: 2, MaxCols: 4, MinRows: o.minRows, MaxRows: o.maxRows, Pools: pools, Names: o.columns}).Draw(rt, "data")
		conf, data := d.Render(rt, name, name+".data")
		w.inputs = append(w.inputs, &wInput{name, d, conf, data})
	}
	if len(o.indexKinds) > 0 {
		for _, in := range w.inputs {
			w.drawIndexes(rt, o, in)
		}
	}
	for i := rapid.IntRange(o.minOutputs, o.maxOutputs).Draw(rt, "outputs"); i > 0; i-- {
		w.drawOutput(rt, o)
	}
	return w
}

func (w *world) drawIndexes(rt *rapid.T, o worldOpts, in *wInput) {
	strs := []string{}
	all := columnNames(in.d.Cols)
	for _, c := range in.noNulls() {
		if c.Type == kit.String {
			strs = append(strs, c.Name)
		}
	}
	most := o.maxIndexes
	if most == 0 {
		most = 3
	}
	for i := rapid.IntRange(0, most).Draw(rt, "indexes"); i > 0; i-- {
		name := fmt.Sprintf("%sidx%d", o.prefix, len(w.indexes))
		if len(o.indexNames) > 0 {
			if len(w.indexes) == len(o.indexNames) {
				break
			}
			name = o.indexNames[len(w.indexes)]
		}
		kind := rapid.SampledFrom(o.indexKinds).Draw(rt, "indexKind")
		idx := &wIndex{name: name, kind: kind, input: in.name, collate: map[string]string{}}
		dsns := []string{"@DIR@/" + name + ".sqlite", "@DIR@/" + o.prefix + "shared.sqlite", ":memory:"}
		if len(o.dsns) > 0 {
			dsns = o.dsns
		}
		file := rapid.SampledFrom(dsns).Draw(rt, "dsn")
		idx.conf = kit.O{{"name", name}, {"type", kind}}
		candidates := all
		if kind == "wildcard" || kind == "fts5" {
			candidates = strs
		}
		if kind == "noop" {
			idx.input = ""
			w.indexes = append(w.indexes, idx)
			continue
		}
		if len(candidates) == 0 {
			continue
		}
		idx.props = rapid.Permutation(candidates).Draw(rt, "indexed")[:rapid.IntRange(1, len(candidates)).Draw(rt, "indexedCount")]
		idx.conf = append(idx.conf, kit.KV{K: "input", V: in.name})
		switch kind {
		case "map":
			idx.conf = append(idx.conf, kit.KV{K: "properties", V: list(idx.props)})
		case "wildcard":
			idx.ignoreCase = rapid.Bool().Draw(rt, "ignoreCase")
			idx.conf = append(idx.conf, kit.KV{K: "path", V: "@DIR@/" + name + ".wildcard"}, kit.KV{K: "properties", V: list(idx.props)}, kit.KV{K: "ignoreCase", V: idx.ignoreCase})
		case "sqlite":
			props := kit.L{}
			for _, p := range idx.props {
				idx.collate[p] = rapid.SampledFrom([]string{"binary", "binary", "nocase", "rtrim"}).Draw(rt, "collate")
				props = append(props, kit.O{{"name", p}, {"collate", idx.collate[p]}})
			}
			idx.conf = append(idx.conf, kit.KV{K: "dsn", V: file}, kit.KV{K: "properties", V: props})
		case "fts5":
			idx.conf = append(idx.conf, kit.KV{K: "dsn", V: file}, kit.KV{K: "properties", V: list(idx.props)})
		}
		w.indexes = append(w.indexes, idx)
	}
}

// exactFor lists the indexes that search a property for an equal value.
func (w *world) exactFor(input, property string) []string {
	names := []string{"default"}
	for _, idx := range w.indexes {
		if idx.kind == "noop" {
			names = append(names, idx.name)
		}
		if idx.input != input {
			continue
		}
		for _, p := range idx.props {
			if p == property && (idx.kind == "map" || idx.kind == "sqlite" && idx.collate[p] == "binary") {
				names = append(names, idx.name)
			}
		}
	}
	return names
}

func (w *world) drawOutput(rt *rapid.T, o worldOpts) {
	in := rapid.SampledFrom(w.inputs).Draw(rt, "outputInput")
	out := &wOutput{name: fmt.Sprintf("%sout%d", o.prefix, len(w.outputs)), input: in.name, array: o.arrays, def: 100, max: 1000, limit: "limit", offset: "offset"}
	if o.arrays && o.objects {
		out.array = rapid.Bool().Draw(rt, "array")
	}
	// Parameters.
	usable := []wParam{}
	for _, c := range in.d.Cols {
		usable = append(usable, wParam{index: "default", property: c.Name, parser: c.Type})
	}
	for _, idx := range w.indexes {
		switch {
		case idx.kind == "noop":
			for _, c := range in.d.Cols {
				usable = append(usable, wParam{index: idx.name, property: c.Name, parser: c.Type})
			}
		case idx.input != in.name:
		case idx.kind == "fts5":
			usable = append(usable, wParam{index: idx.name, property: "match", parser: kit.String})
		default:
			for _, p := range idx.props {
				usable = append(usable, wParam{index: idx.name, property: p, parser: in.d.Col(p).Type})
			}
		}
	}
	params := kit.O{}
	names := rapid.Permutation([]string{"q", "x", "id", "name", "in", "a b", "limits", "p1", "é"}).Draw(rt, "paramNames")
	least := o.minParams
	if !out.array { // objects need at least one
		least = max(least, 1)
	}
	for i := rapid.IntRange(least, max(least, o.maxParams)).Draw(rt, "params"); i > 0; i-- {
		p := rapid.SampledFrom(usable).Draw(rt, "param")
		p.name = names[len(out.params)]
		conf := kit.O{{"property", p.property}}
		if p.index != "default" || rapid.Bool().Draw(rt, "writeIndex") {
			conf = append(conf, kit.KV{K: "index", V: p.index})
		}
		if o.parsers && p.property != "match" && rapid.IntRange(0, 2).Draw(rt, "customParser") == 0 {
			p.parser = w.customParser(p.parser)
		}
		if p.parser != kit.String || rapid.Bool().Draw(rt, "writeParser") {
			conf = append(conf, kit.KV{K: "parser", V: p.parser})
		}
		out.params = append(out.params, p)
		params = append(params, kit.KV{K: p.name, V: conf})
	}
	out.conf = kit.O{{"name", out.name}, {"type", "jsonObject"}, {"input", in.name}}
	if out.array {
		out.conf = out.conf.With("type", "jsonArray")
	}
	if len(params) > 0 {
		out.conf = append(out.conf, kit.KV{K: "parameters", V: params})
	}
	if out.array && o.paging {
		limit, offset := kit.O{}, kit.O{}
		if rapid.Bool().Draw(rt, "limitName") {
			out.limit = rapid.SampledFrom([]string{"l", "max", "page size", "offset_"}).Draw(rt, "limitParameter")
			limit = append(limit, kit.KV{K: "parameter", V: out.limit})
		}
		if rapid.Bool().Draw(rt, "offsetName") {
			out.offset = rapid.SampledFrom([]string{"o", "from", "skip it", "limit_"}).Draw(rt, "offsetParameter")
			offset = append(offset, kit.KV{K: "parameter", V: out.offset})
		}
		switch rapid.IntRange(0, 5).Draw(rt, "limitConfig") {
		case 0:
		case 1:
			out.def = uint64(rapid.IntRange(1, 20).Draw(rt, "default"))
			limit = append(limit, kit.KV{K: "default", V: int(out.def)})
		case 2:
			out.def = uint64(rapid.IntRange(1, 8).Draw(rt, "default"))
			out.max = uint64(rapid.IntRange(int(out.def), 12).Draw(rt, "max"))
			limit = append(limit, kit.KV{K: "default", V: int(out.def)}, kit.KV{K: "max", V: int(out.max)})
		case 3:
			out.max = uint64(rapid.IntRange(100, 2000).Draw(rt, "max"))
			limit = append(limit, kit.KV{K: "max", V: int(out.max)})
		case 4:
			out.def = uint64(rapid.IntRange(1, 5).Draw(rt, "both"))
			out.max = out.def
			limit = append(limit, kit.KV{K: "default", V: int(out.def)}, kit.KV{K: "max", V: int(out.max)})
		case 5:
			out.max = rapid.SampledFrom([]uint64{1 << 31, 1 << 40, 1<<63 - 1, 1 << 63, 1<<64 - 1}).Draw(rt, "hugeMax")
			limit = append(limit, kit.KV{K: "max", V: kit.Raw(strconv.FormatUint(out.max, 10))})
			if rapid.Bool().Draw(rt, "hugeDefault") {
				out.def = out.max
				limit = append(limit, kit.KV{K: "default", V: kit.Raw(strconv.FormatUint(out.def, 10))})
			}
		}
		if len(limit) > 0 {
			out.conf = append(out.conf, kit.KV{K: "limit", V: limit})
		}
		if len(offset) > 0 {
			out.conf = append(out.conf, kit.KV{K: "offset", V: offset})
		}
	}
	if o.relDepth > 0 {
		out.rels = w.drawRels(rt, o, in, o.relDepth)
		if len(out.rels) > 0 {
			out.conf = append(out.conf, kit.KV{K: "relationships", V: relConf(out.rels)})
		}
	}
	out.base = "/" + out.name
	if n := len(w.outputs); n < len(o.routes) {
		out.base = o.routes[n]
	}
	out.path = out.base
	if len(out.params) > 0 && rapid.IntRange(0, 2).Draw(rt, "placeholder") == 0 {
		out.placeholder = rapid.SampledFrom(out.params).Draw(rt, "inPath").name
		out.path += "/{" + out.placeholder + "}"
	}
	w.outputs = append(w.outputs, out)
}

func relConf(rels []*wRel) kit.O {
	o := kit.O{}
	for _, r := range rels {
		o = append(o, kit.KV{K: r.name, V: r.conf})
	}
	return o
}

func (w *world) drawRels(rt *rapid.T, o worldOpts, parent *wInput, depth int) []*wRel {
	rels := []*wRel{}
	names := []string{"rel", "children", "Items", "x-y", "nested"}
	if o.collide {
		names = append(names, columnNames(parent.d.Cols)...)
	}
	names = rapid.Permutation(names).Draw(rt, "relNames")
	least := 0
	if o.alwaysRels && depth == o.relDepth || o.deepRels {
		least = 1
	}
	most := o.maxRels
	if most == 0 {
		most = 2
	}
	for i := rapid.IntRange(least, most).Draw(rt, "rels"); i > 0; i-- {
		child := rapid.SampledFrom(w.inputs).Draw(rt, "child")
		r := &wRel{name: names[len(rels)], input: child.name, array: rapid.Bool().Draw(rt, "isArray")}
		if o.sorts {
			r.array = rapid.IntRange(0, 4).Draw(rt, "isArray2") > 0
		}
		// Pairs of properties of the same type, at most one of which has null values:
		// a null parent value equals none of the others. (What is absent from a JSON
		// document cannot be matched at all.)
		pairs := []wMatch{}
		parents, children := parent.noNulls(), child.noNulls()
		for _, p := range parent.d.Cols {
			for _, c := range child.d.Cols {
				if p.Type == c.Type && (slices.Contains(parents, p) || parent.d.Kind == "csv" && slices.Contains(children, c)) {
					pairs = append(pairs, wMatch{parent: p.Name, child: c.Name})
				}
			}
		}
		if len(pairs) == 0 {
			continue
		}
		pairs = rapid.Permutation(pairs).Draw(rt, "pairs")
		matches := kit.L{}
		used := map[string]bool{}
		count := rapid.SampledFrom([]int{1, 1, 1, 2, 2, 2, 3, 4}).Draw(rt, "pairsCount")
		shared := "" // an index for all the pairs that it can handle
		if count > 1 {
			// Several properties seldom match, except for the record itself.
			if rapid.Bool().Draw(rt, "sameNamesFirst") {
				sort.SliceStable(pairs, func(i, j int) bool { return pairs[i].parent == pairs[i].child && pairs[j].parent != pairs[j].child })
			}
			if rapid.Bool().Draw(rt, "shareIndex") {
				shared = rapid.SampledFrom(w.exactFor(child.name, pairs[0].child)).Draw(rt, "sharedIndex")
			}
		}
		for _, m := range pairs {
			if used[m.child] || len(used) == count {
				continue
			}
			used[m.child] = true
			if indexes := w.exactFor(child.name, m.child); slices.Contains(indexes, shared) {
				m.index = shared
			} else {
				m.index = rapid.SampledFrom(indexes).Draw(rt, "childIndex")
			}
			conf := kit.O{{"parentProperty", m.parent}, {"childProperty", m.child}}
			if m.index != "default" || rapid.Bool().Draw(rt, "writeIndex") {
				conf = append(conf, kit.KV{K: "childIndex", V: m.index})
			}
			r.match = append(r.match, m)
			matches = append(matches, conf)
		}
		r.conf = kit.O{{"input", r.input}, {"match", matches}}
		if r.array || rapid.Bool().Draw(rt, "writeIsArray") {
			r.conf = append(r.conf, kit.KV{K: "isArray", V: r.array})
		}
		if rapid.IntRange(0, 2).Draw(rt, "limited") == 0 {
			r.limit = rapid.IntRange(1, 5).Draw(rt, "relLimit")
			limit := fmt.Sprint(r.limit)
			if rapid.IntRange(0, 5).Draw(rt, "hugeRelLimit") == 0 { // no list is that long
				r.limit = 0
				limit = rapid.SampledFrom([]string{"2147483648", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615"}).Draw(rt, "hugeLimit")
			}
			r.conf = append(r.conf, kit.KV{K: "limit", V: kit.Raw(limit)})
		}
		if o.sorts && r.array {
			cols := rapid.Permutation(child.noNulls()).Draw(rt, "sortable")
			if len(cols) > 0 {
				sorts := kit.L{}
				for _, c := range cols[:rapid.IntRange(1, min(3, len(cols))).Draw(rt, "sortKeys")] {
					s := wSort{c.Name, rapid.Bool().Draw(rt, "ascending")}
					conf := kit.O{{"property", c.Name}}
					if !s.ascending || rapid.Bool().Draw(rt, "writeAscending") {
						conf = append(conf, kit.KV{K: "ascending", V: s.ascending})
					}
					r.sorts = append(r.sorts, s)
					sorts = append(sorts, conf)
				}
				r.conf = append(r.conf, kit.KV{K: "sort", V: sorts})
			}
		}
		if depth > 1 {
			r.rels = w.drawRels(rt, o, child, depth-1)
			if len(r.rels) > 0 {
				r.conf = append(r.conf, kit.KV{K: "relationships", V: relConf(r.rels)})
			}
		}
		rels = append(rels, r)
	}
	return rels
}

// config is the whole configuration, with one http service.
func (w *world) config() kit.O {
	inputs, indexes, outputs, routes := kit.L{}, kit.L{}, kit.L{}, kit.L{}
	for _, in := range w.inputs {
		inputs = append(inputs, in.conf)
	}
	for _, idx := range w.indexes {
		indexes = append(indexes, idx.conf)
	}
	for _, out := range w.outputs {
		outputs = append(outputs, out.conf)
		routes = append(routes, kit.O{{"path", out.path}, {"output", out.name}})
	}
	return kit.O{{"parsers", w.parsers}, {"inputs", inputs}, {"indexes", indexes}, {"outputs", outputs}, {"services", kit.L{
		kit.O{{"name", "http"}, {"type", "http"}, {"http", kit.O{{"listen", "127.0.0.1:0"}}}, {"routes", routes}}}}}
}

func (w *world) files() kit.Files {
	f := kit.Files{}
	for _, in := range w.inputs {
		f[in.name+".data"] = in.data
	}
	return f
}

// wantValue is the value of one parameter of a request.
type wantValue struct {
	p     wParam
	value interface{} // of the type of the parser, or *ftsExpr
}

// customParser declares a parser of a type, and gives its name.
func (w *world) customParser(typ string) string {
	conf := customParsers[typ]
	name := conf[0].V.(string)
	for _, p := range w.parsers {
		if p.(kit.O)[0].V == name {
			return name
		}
	}
	w.parsers = append(w.parsers, conf)
	return name
}

var customParsers = map[string]kit.O{
	kit.Integer: {{"name", "number_with_spaces"}, {"type", "integer"}, {"ignoreCharacters", " _"}},
	kit.Float:   {{"name", "decimal_comma"}, {"type", "float"}, {"decimalSeparator", ","}, {"ignoreCharacters", "' "}},
	kit.Boolean: {{"name", "yes_no"}, {"type", "boolean"}, {"trueValues", kit.L{"yes", "y+", "1"}}, {"falseValues", kit.L{"no", "(n)", ""}}},
	kit.String:  {{"name", "latin1"}, {"type", "string"}, {"convertFromCharset", "ISO-8859-1"}},
}

func (v wantValue) text() string {
	switch v.p.parser {
	case "number_with_spaces":
		s := strconv.FormatInt(v.value.(int64), 10)
		if len(s) > 3 {
			s = s[:len(s)-3] + " " + s[len(s)-3:]
		}
		return "_" + s
	case "decimal_comma":
		s := strconv.FormatFloat(v.value.(float64), 'f', -1, 64)
		return strings.Replace(" "+s+"'", ".", ",", 1)
	case "yes_no":
		if v.value.(bool) {
			return "y+"
		}
		return "(n)"
	case "latin1":
		if b, err := charmap.ISO8859_1.NewEncoder().String(v.value.(string)); err == nil {
			return b
		}
		kit.Harness("not latin1: %q", v.value)
	}
	switch x := v.value.(type) {
	case *ftsExpr:
		return x.String()
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	}
	return kit.Text(v.value)
}

func (w *world) matches(v wantValue, row kit.Row) bool {
	idx := w.index(v.p.index)
	cell := row[v.p.property]
	switch idx.kind {
	case "fts5":
		cols := map[string]bool{}
		for _, p := range idx.props {
			cols[p] = true
		}
		return v.value.(*ftsExpr).match(row, cols)
	case "wildcard":
		return contains(idx.ignoreCase)(filter{v.p.property, v.value}, cell)
	case "sqlite":
		return collated(idx.collate[v.p.property], cell, v.value)
	}
	return cell != nil && cell == v.value
}

// drawValues draws the parameters of a request: some of them for a list, all of them for an object.
func (w *world) drawValues(rt *rapid.T, out *wOutput) []wantValue {
	d := w.input(out.input).d
	from := -1
	if len(d.Rows) > 0 {
		from = rapid.IntRange(0, len(d.Rows)-1).Draw(rt, "from")
	}
	values := []wantValue{}
	for _, p := range out.params {
		if out.array && p.name != out.placeholder && rapid.IntRange(0, 2).Draw(rt, "absent") == 0 {
			continue
		}
		v := wantValue{p: p}
		idx := w.index(p.index)
		if idx.kind == "fts5" {
			e := &ftsExpr{op: "phrase", words: []string{"a"}}
			if words := []string{}; from >= 0 && rapid.Bool().Draw(rt, "existingWord") {
				for _, c := range idx.props {
					words = append(words, ftsTokens(d.Rows[from][c])...)
				}
				if len(words) > 0 {
					e.words = []string{rapid.SampledFrom(words).Draw(rt, "word")}
					if w := e.words[0]; w == "and" || w == "or" || w == "not" || w == "near" {
						e.words[0] = "a"
					}
				}
			} else {
				e = ftsQueries(idx.props, 1).Draw(rt, "query")
			}
			v.value = e
		} else {
			if from >= 0 && rapid.IntRange(0, 9).Draw(rt, "fresh") > 0 {
				v.value = d.Rows[from][p.property]
			}
			if v.value != nil && rapid.IntRange(0, 5).Draw(rt, "change") == 0 {
				v.value = variant(rt, v.value)
			}
			if typ := d.Col(p.property).Type; v.value == nil {
				v.value = kit.Values(typ, worldTexts()).Draw(rt, "value")
			}
			if idx.kind == "wildcard" {
				v.value = needle(rt, []string{v.value.(string)}, true)
			}
			if p.parser == "latin1" {
				if _, err := charmap.ISO8859_1.NewEncoder().String(v.value.(string)); err != nil {
					v.value = "é"
				}
			}
			if s, ok := v.value.(string); ok && p.name == out.placeholder && (s == "" || strings.Contains(s, "\n")) {
				v.value = "a"
			}
		}
		values = append(values, v)
	}
	return values
}

// target writes a request; extra are other query parameters.
func (out *wOutput) target(rt *rapid.T, values []wantValue, extra url.Values) string {
	path := out.route()
	query := []string{}
	for _, v := range values {
		if v.p.name == out.placeholder {
			path += "/" + url.PathEscape(v.text())
			if rapid.IntRange(0, 5).Draw(rt, "shadowed") == 0 {
				query = append(query, url.QueryEscape(v.p.name)+"=shadowed")
			}
			continue
		}
		query = append(query, url.QueryEscape(v.p.name)+"="+url.QueryEscape(v.text()))
	}
	for k, vs := range extra {
		for _, v := range vs {
			query = append(query, url.QueryEscape(k)+"="+url.QueryEscape(v))
		}
	}
	if rapid.IntRange(0, 4).Draw(rt, "unknown") == 0 {
		query = append(query, rapid.SampledFrom([]string{"unknown=1", "unknown", "Q=a", "LIMIT=1", "Offset=2", "=x", "match=a", "property=b"}).Draw(rt, "unknownParameter"))
	}
	sort.Strings(query)
	if len(query) > 1 {
		query = rapid.Permutation(query).Draw(rt, "queryOrder")
	}
	if len(query) > 0 {
		path += "?" + strings.Join(query, "&")
	}
	return path
}

// route is its path without the placeholder.
func (out *wOutput) route() string {
	if out.base == "" {
		return "/" + out.name
	}
	return out.base
}

// rows lists the matching rows, in input order.
func (w *world) rows(out *wOutput, values []wantValue) []int {
	rows := []int{}
	for i, row := range w.input(out.input).d.Rows {
		ok := true
		for _, v := range values {
			ok = ok && w.matches(v, row)
		}
		if ok {
			rows = append(rows, i)
		}
	}
	return rows
}

// related lists the related rows of a row, in input order.
func (w *world) related(row kit.Row, r *wRel) []kit.Row {
	list := []kit.Row{}
	for _, child := range w.input(r.input).d.Rows {
		ok := true
		for _, m := range r.match {
			ok = ok && child[m.child] != nil && child[m.child] == row[m.parent]
		}
		if ok {
			list = append(list, child)
		}
	}
	return list
}

func compareValues(a, b interface{}) int {
	less := func(x, y bool) int {
		if x {
			return -1
		}
		if y {
			return 1
		}
		return 0
	}
	switch x := a.(type) {
	case string:
		return strings.Compare(x, b.(string))
	case int64:
		return less(x < b.(int64), x > b.(int64))
	case float64:
		return less(x < b.(float64), x > b.(float64))
	case bool:
		return less(!x && b.(bool), x && !b.(bool))
	}
	kit.Harness("cannot compare %#v", a)
	return 0
}

func (r *wRel) compare(a, b kit.Row) int {
	for _, s := range r.sorts {
		c := compareValues(a[s.property], b[s.property])
		if !s.ascending {
			c = -c
		}
		if c != 0 {
			return c
		}
	}
	return 0
}

// checkObject compares a decoded object with a row and its relationships.
func (w *world) checkObject(got interface{}, row kit.Row, rels []*wRel) error {
	m, ok := got.(map[string]interface{})
	if !ok {
		return fmt.Errorf("%v instead of an object", kit.Show(got))
	}
	isRel := map[string]*wRel{}
	for _, r := range rels {
		isRel[r.name] = r
	}
	for k := range m {
		if _, ok := row[k]; !ok && isRel[k] == nil {
			return fmt.Errorf("unexpected property %q in %v", k, kit.Show(got))
		}
	}
	for _, k := range kit.SortedKeys(row) {
		if isRel[k] != nil {
			continue
		}
		v, ok := m[k]
		if !ok {
			return fmt.Errorf("property %q is missing in %v", k, kit.Show(got))
		}
		if !kit.SameJSON(v, kit.Expected(row[k])) {
			return fmt.Errorf("property %q is %v instead of %v", k, kit.Show(v), kit.Show(row[k]))
		}
	}
	for _, r := range rels {
		v, ok := m[r.name]
		if !ok {
			return fmt.Errorf("relationship %q is missing in %v", r.name, kit.Show(got))
		}
		if err := w.checkRelationship(v, row, r); err != nil {
			return fmt.Errorf("relationship %q: %w", r.name, err)
		}
	}
	return nil
}

func (w *world) checkRelationship(got interface{}, parent kit.Row, r *wRel) error {
	want := w.related(parent, r)
	if !r.array {
		if len(want) == 0 {
			if got != nil {
				return fmt.Errorf("%v instead of null", kit.Show(got))
			}
			return nil
		}
		return w.checkObject(got, want[0], r.rels)
	}
	items, ok := got.([]interface{})
	if !ok {
		return fmt.Errorf("%v instead of a list", kit.Show(got))
	}
	count := len(want)
	if r.limit > 0 && r.limit < count {
		count = r.limit
	}
	if len(items) != count {
		return fmt.Errorf("%d records instead of %d: %v", len(items), count, kit.Show(got))
	}
	sorted := append([]kit.Row{}, want...)
	sort.SliceStable(sorted, func(i, j int) bool { return r.compare(sorted[i], sorted[j]) < 0 })
	if len(r.sorts) == 0 {
		for i, item := range items {
			if err := w.checkObject(item, sorted[i], r.rels); err != nil {
				return fmt.Errorf("item %d: %w", i, err)
			}
		}
		return nil
	}
	// The order of records with equal sort properties is not specified.
	used := make([]bool, len(sorted))
	for i, item := range items {
		var first error
		found := false
		for j := range sorted {
			if used[j] || r.compare(sorted[j], sorted[i]) != 0 {
				continue
			}
			err := w.checkObject(item, sorted[j], r.rels)
			if err == nil {
				used[j] = true
				found = true
				break
			}
			if first == nil {
				first = err
			}
		}
		if !found {
			return fmt.Errorf("item %d of %v is not one of the records expected there: %v", i, kit.Show(got), first)
		}
	}
	return nil
}

// checkList compares an answer with the rows it has to hold.
func (w *world) checkList(resp kit.Resp, out *wOutput, rows []int) error {
	v, err := answered(resp, 200)
	if err != nil {
		return err
	}
	items, ok := v.([]interface{})
	if !ok {
		return fmt.Errorf("%v instead of a list", kit.Show(v))
	}
	if len(items) != len(rows) {
		return fmt.Errorf("%d records instead of %d: %v", len(items), len(rows), kit.Show(v))
	}
	for i, item := range items {
		if err := w.checkObject(item, w.input(out.input).d.Rows[rows[i]], out.rels); err != nil {
			return fmt.Errorf("item %d (of rows %v): %w", i, rows, err)
		}
	}
	return nil
}

// answered checks the status and the form of an answer.
func answered(resp kit.Resp, status int) (interface{}, error) {
	if err := resp.WellFormed(); err != nil {
		return nil, err
	}
	if resp.Status != status {
		return nil, fmt.Errorf("answer %v instead of status %d", resp, status)
	}
	return kit.DecodeJSON(resp.Body)
}

// check compares the answer to a request without paging parameters with the model.
func (w *world) check(resp kit.Resp, out *wOutput, values []wantValue) error {
	rows := w.rows(out, values)
	if out.array {
		return w.checkList(resp, out, window(rows, 0, out.def))
	}
	if len(rows) == 0 {
		_, err := answered(resp, 404)
		return err
	}
	v, err := answered(resp, 200)
	if err != nil {
		return err
	}
	return w.checkObject(v, w.input(out.input).d.Rows[rows[0]], out.rels)
}

func window(rows []int, offset uint64, limit uint64) []int {
	if offset >= uint64(len(rows)) {
		return []int{}
	}
	rows = rows[offset:]
	if limit < uint64(len(rows)) {
		rows = rows[:limit]
	}
	return rows
}

func (w *world) String() string {
	s := kit.YAML(w.config())
	for _, in := range w.inputs {
		s += fmt.Sprintf("%v: %q\n", in.name, string(in.data))
	}
	return s
}
