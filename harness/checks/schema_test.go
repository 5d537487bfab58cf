package checks

import (
	"fmt"

	"rodbverif/kit"
)

// The documented settings of every object of a configuration (docs/schema).
type setting struct {
	name     string
	required bool
	empty    bool   // an empty string is a valid value
	kind     string // string, bool, uint, strings, ints, object, list (of objects), map (of objects)
	ref      string // parsers, inputs, indexes, outputs, or properties of an index
	of       *schema
	def      interface{} // the documented value of an optional setting which is left out
}

type schema struct {
	name     string
	settings []setting
	unique   string // the setting which has to be unique in a list of these objects
}

func (s *schema) get(name string) *setting {
	for i := range s.settings {
		if s.settings[i].name == name {
			return &s.settings[i]
		}
	}
	return nil
}

func text(name string) setting     { return setting{name: name, kind: "string"} }
func flag(name string) setting     { return setting{name: name, kind: "bool"} }
func must(s setting) setting       { s.required = true; return s }
func allowEmpty(s setting) setting { s.empty = true; return s }
func ref(name, layer string) setting {
	return setting{name: name, kind: "string", ref: layer}
}
func listSetting(name string, of *schema) setting { return setting{name: name, kind: "list", of: of} }
func dict(name string, of *schema) setting        { return setting{name: name, kind: "map", of: of} }
func object(name string, of *schema) setting      { return setting{name: name, kind: "object", of: of} }
func or(def interface{}, s setting) setting       { s.def = def; return s }
func strs(name string) setting                    { return setting{name: name, kind: "strings"} }

var schemas = func() map[string]map[string]*schema {
	component := func(name string, settings ...setting) *schema {
		return &schema{name, append([]setting{must(text("name")), must(text("type"))}, settings...), "name"}
	}
	xmlProperty := &schema{name: "xml property", unique: "name"}
	xmlItems := &schema{name: "xml items"}
	xmlItems.settings = []setting{text("name"), or("primitive", text("type")), must(text("xpath")), or("string", ref("parser", "parsers")), object("items", xmlItems), listSetting("properties", xmlProperty)}
	xmlProperty.settings = []setting{must(text("name")), or("primitive", text("type")), must(text("xpath")), or("string", ref("parser", "parsers")), object("items", xmlItems), listSetting("properties", xmlProperty)}

	parameter := &schema{"parameter", []setting{must(text("property")), or("default", ref("index", "indexes")), or("string", ref("parser", "parsers"))}, ""}
	sorted := &schema{"sort", []setting{must(text("property")), or(true, flag("ascending"))}, "property"}
	match := &schema{"match", []setting{must(text("parentProperty")), must(text("childProperty")), or("default", ref("childIndex", "indexes"))}, "childProperty"}
	relationship := &schema{name: "relationship"}
	relationship.settings = []setting{must(ref("input", "inputs")), or(false, flag("isArray")), {name: "limit", kind: "uint", def: 0}, or(kit.L{}, listSetting("sort", sorted)), must(listSetting("match", match)), or(kit.O{}, dict("relationships", relationship))}

	input := func(name string, settings ...setting) *schema {
		return component(name, append([]setting{must(text("path")), or(true, flag("dieOnInputChange"))}, settings...)...)
	}
	output := func(name string, settings ...setting) *schema {
		return component(name, append([]setting{must(ref("input", "inputs")), or(kit.O{}, dict("relationships", relationship))}, settings...)...)
	}
	return map[string]map[string]*schema{
		"parsers": {
			"integer": component("integer parser", or("", text("ignoreCharacters"))),
			"float":   component("float parser", must(text("decimalSeparator")), or("", text("ignoreCharacters"))),
			"boolean": component("boolean parser", must(strs("trueValues")), must(strs("falseValues"))),
			"string":  component("string parser", or("", text("convertFromCharset"))),
			"json":    component("json parser"),
			"split":   component("split parser", must(allowEmpty(text("delimiter"))), or(false, flag("delimiterIsRegexp")), must(ref("parser", "parsers"))),
		},
		"inputs": {
			"csv": input("csv input", or(",", text("delimiter")), or(false, flag("autodetectColumns")), or(false, flag("ignoreFirstRow")),
				must(listSetting("columns", &schema{"csv column", []setting{must(text("name")), or("string", ref("parser", "parsers"))}, "name"}))),
			"json": input("json input"),
			"xml":  input("xml input", must(text("recordXpath")), must(listSetting("properties", xmlProperty))),
		},
		"indexes": {
			"noop": component("noop index"),
			"map":  component("map index", must(ref("input", "inputs")), must(strs("properties"))),
			"sqlite": component("sqlite index", must(text("dsn")), must(ref("input", "inputs")),
				must(listSetting("properties", &schema{"sqlite property", []setting{must(text("name")), or("binary", text("collate"))}, "name"}))),
			"fts5":     component("fts5 index", must(text("dsn")), must(ref("input", "inputs")), setting{name: "prefix", kind: "ints", def: kit.L{}}, or("unicode61", text("tokenize")), must(strs("properties"))),
			"wildcard": component("wildcard index", must(text("path")), must(ref("input", "inputs")), or(false, flag("ignoreCase")), must(strs("properties"))),
		},
		"outputs": {
			"jsonArray": output("jsonArray output", or(kit.O{}, dict("parameters", parameter)),
				or(kit.O{}, object("limit", &schema{"limit", []setting{{name: "default", kind: "uint", def: 100}, {name: "max", kind: "uint", def: 1000}, or("limit", text("parameter"))}, ""})),
				or(kit.O{}, object("offset", &schema{"offset", []setting{or("offset", text("parameter"))}, ""}))),
			"jsonObject": output("jsonObject output", must(dict("parameters", parameter))),
		},
		"services": {
			"http": component("http service",
				object("http", &schema{"http listener", []setting{or("127.0.0.1:0", text("listen"))}, ""}),
				object("https", &schema{"https listener", []setting{or("127.0.0.1:0", text("listen")), must(text("certificatePath")), must(text("privateKeyPath"))}, ""}),
				or("application/json", text("errorsType")),
				must(listSetting("routes", &schema{"route", []setting{must(text("path")), must(ref("output", "outputs"))}, "path"}))),
		},
	}
}()

var layers = []string{"parsers", "inputs", "indexes", "outputs", "services"}

// A place is an object of a configuration with its documented settings.
type place struct {
	path   []interface{} // keys and indexes, from the root
	schema *schema
	value  kit.O
}

func (p place) String() string { return fmt.Sprintf("%v (%v)", p.schema.name, p.path) }

// A group is a list or map of objects.
type group struct {
	path   []interface{}
	schema *schema
	isMap  bool
	size   int
}

func extend(path []interface{}, elems ...interface{}) []interface{} {
	return append(append([]interface{}{}, path...), elems...)
}

// places lists all the objects of the configuration, and the collections they are in.
func places(cfg kit.O) ([]place, []group) {
	found := []place{}
	groups := []group{}
	var visit func(path []interface{}, s *schema, o kit.O)
	visit = func(path []interface{}, s *schema, o kit.O) {
		found = append(found, place{path, s, o})
		for _, st := range s.settings {
			switch v := o.Get(st.name).(type) {
			case kit.O:
				if st.kind == "object" {
					visit(extend(path, st.name), st.of, v)
				} else if st.kind == "map" {
					groups = append(groups, group{extend(path, st.name), st.of, true, len(v)})
					for _, kv := range v {
						if item, isObject := kv.V.(kit.O); isObject {
							visit(extend(path, st.name, kv.K), st.of, item)
						}
					}
				}
			case kit.L:
				if st.kind == "list" {
					groups = append(groups, group{extend(path, st.name), st.of, false, len(v)})
					for i := range v {
						if item, isObject := v[i].(kit.O); isObject {
							visit(extend(path, st.name, i), st.of, item)
						}
					}
				}
			}
		}
	}
	for _, layer := range layers {
		l, _ := cfg.Get(layer).(kit.L)
		if len(l) > 0 {
			groups = append(groups, group{[]interface{}{layer}, nil, false, len(l)})
		}
		for i := range l {
			o := l[i].(kit.O)
			s := schemas[layer][o.Get("type").(string)]
			if s == nil {
				kit.Harness("no schema for %v %v", layer, o.Get("type"))
			}
			visit([]interface{}{layer, i}, s, o)
		}
	}
	return found, groups
}

// edit returns a copy of the value in which the part at path was replaced.
func edit(v interface{}, path []interface{}, f func(interface{}) interface{}) interface{} {
	if len(path) == 0 {
		return f(v)
	}
	switch t := v.(type) {
	case kit.O:
		r := append(kit.O{}, t...)
		for i := range r {
			if r[i].K == path[0] {
				r[i].V = edit(r[i].V, path[1:], f)
				return r
			}
		}
	case kit.L:
		r := append(kit.L{}, t...)
		i := path[0].(int)
		r[i] = edit(r[i], path[1:], f)
		return r
	}
	kit.Harness("nothing at %v in %v", path, v)
	return nil
}

// rebuild copies a configuration, with the optional settings that have their
// documented default value left out or written as chosen.
func rebuild(cfg kit.O, keep func(s *schema, st setting, written bool) bool) kit.O {
	var visit func(s *schema, o kit.O) kit.O
	nested := func(st setting, v interface{}) interface{} {
		switch t := v.(type) {
		case kit.O:
			switch st.kind {
			case "object":
				return visit(st.of, t)
			case "map":
				r := kit.O{}
				for _, kv := range t {
					r = append(r, kit.KV{K: kv.K, V: visit(st.of, kv.V.(kit.O))})
				}
				return r
			}
		case kit.L:
			if st.kind == "list" {
				r := kit.L{}
				for _, item := range t {
					r = append(r, visit(st.of, item.(kit.O)))
				}
				return r
			}
		}
		return v
	}
	visit = func(s *schema, o kit.O) kit.O {
		r := kit.O{}
		for _, kv := range o {
			st := s.get(kv.K)
			if st == nil {
				kit.Harness("%v has no setting %v", s.name, kv.K)
			}
			v := nested(*st, kv.V)
			if st.def != nil && fmt.Sprint(v) == fmt.Sprint(st.def) && !keep(s, *st, true) {
				continue
			}
			r = append(r, kit.KV{K: kv.K, V: v})
		}
		typ, typed := o.Get("type").(string)
		for _, st := range s.settings {
			if st.def == nil || o.Get(st.name) != nil {
				continue
			}
			if s.get("xpath") != nil && st.name == "parser" && typed && typ != "primitive" {
				continue
			}
			if keep(s, st, false) {
				r = append(r, kit.KV{K: st.name, V: nested(st, st.def)})
			}
		}
		return r
	}
	r := kit.O{}
	for _, layer := range layers {
		l := kit.L{}
		for _, c := range listOf(cfg.Get(layer)) {
			o := c.(kit.O)
			l = append(l, visit(schemas[layer][o.Get("type").(string)], o))
		}
		r = append(r, kit.KV{K: layer, V: l})
	}
	return r
}

// rename changes the names of components of a layer, in their declarations and in the references to them.
func rename(cfg kit.O, layer string, names map[string]string) kit.O {
	all, _ := places(cfg)
	for _, p := range all {
		for _, st := range p.schema.settings {
			isName := len(p.path) == 2 && p.path[0] == layer && st.name == "name"
			if v, isText := p.value.Get(st.name).(string); isText && (isName || st.ref == layer) && names[v] != "" {
				cfg = p.set(cfg, st.name, names[v])
			}
		}
	}
	return cfg
}
