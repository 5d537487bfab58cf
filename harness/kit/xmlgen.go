package kit

import (
	"fmt"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// XNode is an element of a generated XML document, or a piece of text in it.
type XNode struct {
	Name  string // empty for text
	Text  string
	Attrs []KV // values are strings
	Kids  []*XNode
}

func (n *XNode) String() string { // XPath string-value
	if n.Name == "" {
		return n.Text
	}
	var b strings.Builder
	for _, k := range n.Kids {
		b.WriteString(k.String())
	}
	return b.String()
}

// XItem is an XPath node: an element or an attribute value.
type XItem struct {
	Node  *XNode
	Value string
}

func (i XItem) String() string {
	if i.Node != nil {
		return i.Node.String()
	}
	return i.Value
}

// XPath is a location path relative to an element.
type XPath struct {
	Prefix string // "", "./", "/", "//" or ".//"
	Steps  []XStep
	Attr   string // a last step @Attr
	Self   bool   // the path is "."
}

type XStep struct {
	Name      string // "*" matches every element
	HasAttr   string // [@k='v'] or [@k] when AttrValue is nil
	AttrValue *string
	HasChild  string // [name]
	Index     int    // [n], from 1
}

func (p XPath) String() string {
	if p.Self {
		return "."
	}
	parts := []string{}
	for _, s := range p.Steps {
		t := s.Name
		switch {
		case s.HasAttr != "" && s.AttrValue != nil:
			t += "[@" + s.HasAttr + "='" + *s.AttrValue + "']"
		case s.HasAttr != "":
			t += "[@" + s.HasAttr + "]"
		case s.HasChild != "":
			t += "[" + s.HasChild + "]"
		case s.Index > 0:
			t += "[" + strconv.Itoa(s.Index) + "]"
		}
		parts = append(parts, t)
	}
	if p.Attr != "" {
		parts = append(parts, "@"+p.Attr)
	}
	return p.Prefix + strings.Join(parts, "/")
}

func attrOf(n *XNode, name string) (string, bool) {
	for _, kv := range n.Attrs {
		if kv.K == name {
			return kv.V.(string), true
		}
	}
	return "", false
}

// Eval returns the selected nodes in document order.
func (p XPath) Eval(at *XNode) []XItem {
	if p.Self {
		return []XItem{{Node: at}}
	}
	current := []*XNode{at}
	for i, s := range p.Steps {
		next := []*XNode{}
		for _, n := range current {
			candidates := []*XNode{}
			var collect func(n *XNode, deep bool)
			collect = func(n *XNode, deep bool) {
				for _, k := range n.Kids {
					if k.Name == "" {
						continue
					}
					if s.Name == "*" || s.Name == k.Name {
						candidates = append(candidates, k)
					}
					if deep {
						collect(k, true)
					}
				}
			}
			collect(n, i == 0 && strings.HasSuffix(p.Prefix, "//"))
			position := 0
			for _, k := range candidates {
				position++
				keep := true
				switch {
				case s.HasAttr != "":
					v, ok := attrOf(k, s.HasAttr)
					keep = ok && (s.AttrValue == nil || v == *s.AttrValue)
				case s.HasChild != "":
					keep = false
					for _, kk := range k.Kids {
						keep = keep || kk.Name == s.HasChild
					}
				case s.Index > 0:
					keep = position == s.Index
				}
				if keep {
					next = append(next, k)
				}
			}
		}
		current = next
	}
	items := []XItem{}
	for _, n := range current {
		if p.Attr == "" {
			items = append(items, XItem{Node: n})
		} else if v, ok := attrOf(n, p.Attr); ok {
			items = append(items, XItem{Value: v})
		}
	}
	return items
}

// XProp is a property of an XML input.
type XProp struct {
	Name   string
	Type   string // primitive, array or object
	Parser string
	Func   string // primitive: string, number, count, boolean, concat, equals, contains, nodes
	Path   XPath
	Path2  XPath
	Arg    string
	Items  *XProp
	Props  []*XProp
}

func (p *XProp) Expression() string {
	switch p.Func {
	case "", "nodes":
		return p.Path.String()
	case "concat":
		return fmt.Sprintf("concat(string(%v),'%v',string(%v))", p.Path, p.Arg, p.Path2)
	case "equals":
		return fmt.Sprintf("%v = '%v'", p.Path, p.Arg)
	case "contains":
		return fmt.Sprintf("contains(%v, '%v')", p.Path, p.Arg)
	}
	return fmt.Sprintf("%v(%v)", p.Func, p.Path)
}

func (p *XProp) Config() O {
	o := O{}
	if p.Name != "" {
		o = append(o, KV{"name", p.Name})
	}
	o = append(o, KV{"type", p.Type}, KV{"xpath", p.Expression()})
	switch p.Type {
	case "primitive":
		o = append(o, KV{"parser", p.Parser})
	case "array":
		o = append(o, KV{"items", p.Items.Config()})
	case "object":
		l := L{}
		for _, q := range p.Props {
			l = append(l, q.Config())
		}
		o = append(o, KV{"properties", l})
	}
	return o
}

// Outcome of evaluating a property: a value, an error, or unspecified.
type Outcome struct {
	Value       interface{}
	Err         bool
	Unspecified bool
}

// Eval says what the property is for an element.
func (p *XProp) Eval(at *XNode) Outcome {
	switch p.Type {
	case "array":
		list := []interface{}{}
		out := Outcome{}
		for _, item := range p.Path.Eval(at) {
			n := item.Node
			if n == nil { // an attribute: only its string-value matters
				n = &XNode{Name: "@", Kids: []*XNode{{Text: item.Value}}}
			}
			o := p.Items.Eval(n)
			out.Err = out.Err || o.Err
			out.Unspecified = out.Unspecified || o.Unspecified
			list = append(list, o.Value)
		}
		out.Value = list
		return out
	case "object":
		items := p.Path.Eval(at)
		if len(items) == 0 {
			return Outcome{}
		}
		if len(items) > 1 {
			return Outcome{Err: true}
		}
		m := map[string]interface{}{}
		out := Outcome{}
		for _, q := range p.Props {
			o := q.Eval(items[0].Node)
			out.Err = out.Err || o.Err
			out.Unspecified = out.Unspecified || o.Unspecified
			m[q.Name] = o.Value
		}
		out.Value = m
		return out
	}
	items := p.Path.Eval(at)
	first := ""
	if len(items) > 0 {
		first = items[0].String()
	}
	text := func(s string) Outcome {
		v, ok, known := ParseText(p.Parser, s)
		return Outcome{Value: v, Err: !ok, Unspecified: !known}
	}
	switch p.Func {
	case "string":
		return text(first)
	case "concat":
		second := ""
		if more := p.Path2.Eval(at); len(more) > 0 {
			second = more[0].String()
		}
		return text(first + p.Arg + second)
	case "number", "count":
		x := float64(len(items))
		unspecified := false
		if p.Func == "number" {
			var err error
			x, err = strconv.ParseFloat(first, 64)
			if err != nil || len(items) == 0 { // XPath says NaN, the library 0
				unspecified = true
			}
		}
		switch p.Parser {
		case Float:
			return Outcome{Value: x, Unspecified: unspecified}
		case Integer:
			if x > 1e15 || x < -1e15 {
				unspecified = true
			}
			// The fraction is dropped.
			return Outcome{Value: int64(x), Unspecified: unspecified}
		}
		return Outcome{Err: true}
	case "boolean", "equals", "contains":
		b := len(items) > 0
		if p.Func == "equals" {
			b = false
			for _, i := range items {
				b = b || i.String() == p.Arg
			}
		}
		if p.Func == "contains" {
			b = strings.Contains(first, p.Arg)
		}
		if p.Parser != Boolean {
			return Outcome{Err: true}
		}
		return Outcome{Value: b}
	case "nodes":
		if p.Parser != String {
			return Outcome{Err: true}
		}
		return Outcome{Unspecified: true} // raw XML, to help writing the configuration
	}
	Harness("unknown function %v", p.Func)
	return Outcome{}
}

// ParseText says what the predefined parser of a type makes of a text. For texts
// on which implementations may reasonably differ, known is false.
func ParseText(parser, s string) (v interface{}, ok, known bool) {
	switch parser {
	case String:
		return s, true, true
	case Integer:
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return nil, false, true
		}
		return n, true, true
	case Float:
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return nil, false, true
		}
		if strings.ContainsAny(s, "xXnN_pP") {
			return nil, false, false
		}
		return f, true, true
	case Boolean:
		switch s {
		case "true", "1", "TRUE":
			return true, true, true
		case "false", "0", "FALSE":
			return false, true, true
		}
		return nil, false, true
	}
	Harness("no model for parser %v", parser)
	return nil, false, false
}

// Elements have different names at different levels, so that no element is inside one of the same name.
var xmlLevels = [][]string{{"a", "b", "c", "d-1"}, {"p", "q", "r"}, {"x", "y"}}
var xmlAttrs = []string{"k", "id", "n"}
var xmlAttrValues = []string{"1", "2", "v", "", "a b", "x<y", "é", "\"q\"", "10"}
var xmlTexts = []string{"1", "2", "0", "-7", "3.5", "-2.5", "-0.75", "2.999999", "true", "false", "v", "w", "", " ", "a<b", "&", "]]>", "\n x\n", "é界", "1e3", "\"", "a b"}

// XElement draws an element with the given name whose children have the names of level and below.
func XElement(name string, level int) *rapid.Generator[*XNode] {
	return rapid.Custom(func(t *rapid.T) *XNode {
		n := &XNode{Name: name}
		if level > 0 && rapid.IntRange(0, 4).Draw(t, "empty") == 0 {
			return n
		}
		for _, a := range xmlAttrs {
			if rapid.IntRange(0, 2).Draw(t, "attr") == 0 {
				n.Attrs = append(n.Attrs, KV{a, rapid.SampledFrom(xmlAttrValues).Draw(t, "value")})
			}
		}
		maxKids := 4
		if level >= len(xmlLevels) {
			maxKids = 1
		}
		kids := rapid.IntRange(0, maxKids).Draw(t, "kids")
		names := []string{}
		if level < len(xmlLevels) {
			names = xmlLevels[level]
			if rapid.IntRange(0, 2).Draw(t, "alike") == 0 {
				names = names[:1]
			}
		}
		for i := 0; i < kids; i++ {
			if level < len(xmlLevels) && rapid.IntRange(0, 3).Draw(t, "element") > 0 {
				n.Kids = append(n.Kids, XElement(rapid.SampledFrom(names).Draw(t, "name"), level+1).Draw(t, "child"))
			} else {
				n.Kids = append(n.Kids, &XNode{Text: rapid.SampledFrom(xmlTexts).Draw(t, "text")})
			}
		}
		return n
	})
}

// XPaths draws a path from an element whose children are at level (elements=false allows attributes too).
func XPaths(level int, elements bool) *rapid.Generator[XPath] {
	return rapid.Custom(func(t *rapid.T) XPath {
		p := XPath{}
		if rapid.IntRange(0, 7).Draw(t, "self") == 0 || level >= len(xmlLevels) {
			if !elements && rapid.Bool().Draw(t, "attr") {
				p.Attr = rapid.SampledFrom(xmlAttrs).Draw(t, "name")
				return p
			}
			p.Self = true
			return p
		}
		p.Prefix = rapid.SampledFrom([]string{"", "", "", "./", "/", "//", ".//"}).Draw(t, "prefix")
		at := level
		if strings.HasSuffix(p.Prefix, "//") {
			at = rapid.IntRange(level, len(xmlLevels)-1).Draw(t, "descend")
		}
		n := rapid.IntRange(1, len(xmlLevels)-at).Draw(t, "steps")
		if rapid.IntRange(0, 2).Draw(t, "short") > 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			s := XStep{Name: rapid.SampledFrom(xmlLevels[at+i]).Draw(t, "step")}
			switch rapid.IntRange(0, 9).Draw(t, "predicate") {
			case 0:
				s.HasAttr = rapid.SampledFrom(xmlAttrs).Draw(t, "attrName")
			case 1:
				s.HasAttr = rapid.SampledFrom(xmlAttrs).Draw(t, "attrName")
				v := rapid.SampledFrom([]string{"1", "2", "v"}).Draw(t, "attrValue")
				s.AttrValue = &v
			case 2:
				if at+i+1 < len(xmlLevels) {
					s.HasChild = rapid.SampledFrom(xmlLevels[at+i+1]).Draw(t, "childName")
				}
			case 3:
				if !strings.HasSuffix(p.Prefix, "//") {
					s.Index = rapid.IntRange(1, 3).Draw(t, "index")
				}
			}
			p.Steps = append(p.Steps, s)
		}
		if !elements && rapid.IntRange(0, 3).Draw(t, "attr") == 0 {
			p.Attr = rapid.SampledFrom(xmlAttrs).Draw(t, "name")
		}
		return p
	})
}

// level reports at which level the children of what the path selects are.
func (p XPath) level(from int) int {
	if p.Self {
		return from
	}
	for i, names := range xmlLevels {
		for _, n := range names {
			if n == p.Steps[len(p.Steps)-1].Name {
				return i + 1
			}
		}
	}
	return from
}

// XProps draws a property.
func XProps(name string, level, depth int) *rapid.Generator[*XProp] {
	return rapid.Custom(func(t *rapid.T) *XProp {
		kind := 0
		if depth > 0 {
			kind = rapid.IntRange(0, 5).Draw(t, "propKind")
		}
		switch kind {
		case 3, 4:
			p := &XProp{Name: name, Type: "array"}
			attributes := rapid.IntRange(0, 5).Draw(t, "attributes") == 0
			p.Path = XPaths(level, !attributes).Draw(t, "path")
			if p.Path.Attr != "" {
				p.Items = &XProp{Type: "primitive", Parser: rapid.SampledFrom([]string{String, Integer}).Draw(t, "parser"), Func: "string", Path: XPath{Self: true}}
				return p
			}
			if rapid.IntRange(0, 2).Draw(t, "objects") == 0 {
				p.Items = &XProp{Type: "object", Path: XPath{Self: true}}
				n := rapid.IntRange(1, 2).Draw(t, "members")
				for i := 0; i < n; i++ {
					p.Items.Props = append(p.Items.Props, XProps(fmt.Sprintf("m%d", i), p.Path.level(level), depth-1).Draw(t, "member"))
				}
				return p
			}
			p.Items = XProps("", p.Path.level(level), depth-1).Draw(t, "items")
			return p
		case 5:
			p := &XProp{Name: name, Type: "object", Path: XPaths(level, true).Draw(t, "path")}
			if rapid.IntRange(0, 3).Draw(t, "single") > 0 && !p.Path.Self && !strings.HasSuffix(p.Path.Prefix, "//") {
				for i := range p.Path.Steps {
					p.Path.Steps[i] = XStep{Name: p.Path.Steps[i].Name, Index: 1}
				}
			}
			n := rapid.IntRange(1, 3).Draw(t, "members")
			for i := 0; i < n; i++ {
				p.Props = append(p.Props, XProps(fmt.Sprintf("m%d", i), p.Path.level(level), depth-1).Draw(t, "member"))
			}
			return p
		}
		p := &XProp{Name: name, Type: "primitive", Path: XPaths(level, false).Draw(t, "path")}
		p.Func = rapid.SampledFrom([]string{"string", "string", "string", "number", "count", "boolean", "concat", "equals", "contains", "nodes"}).Draw(t, "func")
		fit := map[string]string{"number": Float, "count": Integer, "boolean": Boolean, "equals": Boolean, "contains": Boolean}[p.Func]
		if fit == "" {
			fit = String
		}
		p.Parser = fit
		if p.Func == "number" && rapid.Bool().Draw(t, "integer") {
			p.Parser = Integer
		}
		if rapid.IntRange(0, 5).Draw(t, "otherParser") == 0 {
			p.Parser = rapid.SampledFrom([]string{String, Integer, Float, Boolean}).Draw(t, "parser")
		}
		p.Arg = rapid.SampledFrom([]string{"v", "1", "-", "a"}).Draw(t, "arg")
		if p.Func == "concat" {
			// The xpath library loses the context of later arguments after predicates in earlier ones.
			p.Path2 = XPaths(level, false).Draw(t, "path2")
			for _, path := range []*XPath{&p.Path, &p.Path2} {
				for i := range path.Steps {
					path.Steps[i] = XStep{Name: path.Steps[i].Name}
				}
			}
		}
		return p
	})
}

// XDoc is an XML document with records.
type XDoc struct {
	RecordXPath string
	Records     []*XNode
	Props       []*XProp
	Data        []byte
}

// XDocs draws a document, the configuration that reads it, and its layout.
func XDocs(maxRecords int) *rapid.Generator[*XDoc] {
	return rapid.Custom(func(t *rapid.T) *XDoc {
		d := &XDoc{}
		props := rapid.IntRange(1, 4).Draw(t, "props")
		for i := 0; i < props; i++ {
			d.Props = append(d.Props, XProps(fmt.Sprintf("prop%d", i), 0, 3).Draw(t, "prop"))
		}
		shape := rapid.IntRange(0, 7).Draw(t, "shape")
		d.RecordXPath = []string{"/root/rec", "//rec", "/root/list/rec", "/root/rec[@sel='1']", "/root/*", "//list/rec", "//rec", "/root/*/rec"}[shape]
		n := rapid.IntRange(0, maxRecords).Draw(t, "records")
		var b strings.Builder
		b.WriteString(rapid.SampledFrom([]string{"", "<?xml version=\"1.0\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<!DOCTYPE root>\n", "<!-- head -->"}).Draw(t, "head"))
		rootAttr := rapid.SampledFrom([]string{"", " v=\"1\"", " sel='1'"}).Draw(t, "rootAttr")
		b.WriteString("<root" + rootAttr + ">")
		lists := shape == 2 || shape == 5
		pad := func() {
			count := rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(t, "pads")
			for i := 0; i < count; i++ {
				choices := []string{"\n", "  ", "text", "<!-- c <rec> -->", "<![CDATA[<rec>]]>", "&amp;", "\n\t\n"}
				if shape != 4 {
					choices = append(choices, "<other/>", "<other><p k='1'>t</p></other>", "<other k=\"/>\"></other>")
				}
				b.WriteString(rapid.SampledFrom(choices).Draw(t, "pad"))
			}
		}
		pad()
		if lists {
			b.WriteString("<list>")
		}
		open := []string{} // shapes 6 and 7: the elements around the current record
		move := func(last bool) {
			for len(open) > 0 && (last || rapid.Bool().Draw(t, "close")) {
				b.WriteString("</" + open[len(open)-1] + ">")
				open = open[:len(open)-1]
				pad()
			}
			for !last && (shape == 6 && len(open) < 3 && rapid.IntRange(0, 2).Draw(t, "open") == 0 || shape == 7 && len(open) == 0) {
				open = append(open, rapid.SampledFrom([]string{"group", "list", "set"}).Draw(t, "container"))
				b.WriteString("<" + open[len(open)-1] + ">")
				pad()
			}
		}
		for i := 0; i < n; i++ {
			if shape >= 6 {
				move(false)
			}
			if lists && i > 0 && rapid.IntRange(0, 4).Draw(t, "newList") == 0 {
				b.WriteString("</list>")
				pad()
				b.WriteString("<list>")
			}
			if shape == 3 && rapid.IntRange(0, 3).Draw(t, "unselected") == 0 {
				e := XElement("rec", 0).Draw(t, "skipped")
				writeX(t, &b, e)
				pad()
			}
			name := "rec"
			if shape == 4 {
				name = rapid.SampledFrom([]string{"rec", "item", "other"}).Draw(t, "recordName")
			}
			e := XElement(name, 0).Draw(t, "record")
			if shape == 3 {
				e.Attrs = append(e.Attrs, KV{"sel", "1"})
			}
			if rapid.IntRange(0, 15).Draw(t, "big") == 0 {
				e.Kids = append(e.Kids, &XNode{Text: strings.Repeat("0123456789abcde\n", rapid.SampledFrom([]int{64, 255, 256, 257, 600}).Draw(t, "size"))})
			}
			d.Records = append(d.Records, e)
			writeX(t, &b, e)
			pad()
		}
		if lists {
			b.WriteString("</list>")
			pad()
		}
		move(true)
		b.WriteString("</root>")
		b.WriteString(rapid.SampledFrom([]string{"", "\n", "<!-- tail -->"}).Draw(t, "tail"))
		d.Data = []byte(b.String())
		return d
	})
}

func (d *XDoc) Config(name, file string) O {
	props := L{}
	for _, p := range d.Props {
		props = append(props, p.Config())
	}
	return O{{"name", name}, {"type", "xml"}, {"path", "@DIR@/" + file}, {"dieOnInputChange", false},
		{"recordXpath", d.RecordXPath}, {"properties", props}}
}

func writeX(t *rapid.T, b *strings.Builder, n *XNode) {
	if n.Name == "" {
		switch rapid.IntRange(0, 5).Draw(t, "textStyle") {
		case 0:
			if !strings.Contains(n.Text, "]]>") && n.Text != "" {
				b.WriteString("<![CDATA[" + n.Text + "]]>")
				return
			}
		case 1:
			for _, r := range n.Text {
				fmt.Fprintf(b, "&#x%x;", r)
			}
			return
		case 2:
			b.WriteString("<!-- t -->")
		}
		for _, r := range n.Text {
			switch r {
			case '<':
				b.WriteString("&lt;")
			case '>':
				b.WriteString("&gt;")
			case '&':
				b.WriteString("&amp;")
			default:
				b.WriteRune(r)
			}
		}
		return
	}
	b.WriteString("<" + n.Name)
	for _, kv := range n.Attrs {
		fmt.Fprintf(b, " %s=\"%s\"", kv.K, XMLEscape(kv.V.(string)))
	}
	if len(n.Kids) == 0 && rapid.Bool().Draw(t, "selfClosing") {
		b.WriteString("/>")
		return
	}
	b.WriteString(">")
	for _, k := range n.Kids {
		writeX(t, b, k)
	}
	b.WriteString("</" + n.Name + ">")
}

func (d *XDoc) GoString() string  { return "(XML document)" }
func (n *XNode) GoString() string { return "(XML element " + n.Name + ")" }
func (p *XProp) GoString() string { return "(XML property " + p.Expression() + ")" }
