package checks

import (
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"rodbverif/kit"
)

// Names of columns and indexes whose combinations are easily confused with each
// other, or with the names rodb uses in its databases.
var confusing = []string{"a", "b", "a_b", "b_a", "a_a", "index", "a_index", "metadata", "offset", "property_a", "a b", "index_a", "data", "a_data", "a\"b", "a'b", "é", "_", "a_"}

var veryConfusing = []string{"a", "a_a", "a_a_a", "_", "a_", "_a", "a_index", "index_a"}

// The names are long, and have the same beginning or end.
var longNames = []string{strings.Repeat("long name ", 7), strings.Repeat("long name ", 7) + "2", strings.Repeat("long name ", 7) + "3", "a " + strings.Repeat("long name ", 7), "b " + strings.Repeat("long name ", 7),
	strings.Repeat("long name ", 3) + "a" + strings.Repeat("long name ", 4), strings.Repeat("long name ", 3) + "b" + strings.Repeat("long name ", 4), strings.Repeat("a", 300), strings.Repeat("a", 299) + "b", strings.Repeat("a", 301)}

// instance starts the configuration on addresses of its own; each http or https address is one of bases.
func instance(rt *rapid.T, cfg kit.O, files kit.Files, listeners int) (*kit.Rig, []string) {
	for attempt := 0; ; attempt++ {
		addresses := []string{}
		for i := 0; i < listeners; i++ {
			addresses = append(addresses, freeAddress())
		}
		rig, err := kit.Start(rt, listenOn(cfg, addresses), files)
		if err == nil {
			return rig, addresses
		}
		if !strings.Contains(err.Error(), "address already in use") || attempt == 10 {
			rt.Fatalf("rodb does not start on a valid configuration: %v", err)
		}
	}
}

func TestC24(t *testing.T) {
	c := kit.Begin(t, "C24", "A case of \"merged\" is one configuration made of 2 or 3 generated ones (each has inputs, indexes of all kinds, relationships, parsers and outputs; their sqlite and fts5 indexes may share one database) with one http, https or mixed service for each of them, with routes of the same paths, plus one service with all the routes, and requests to each address; the answers have to be the ones of the model and of each configuration started alone. A case of \"one database\" is one configuration whose sqlite and fts5 indexes (of several inputs) are all in one database, with names of indexes and properties that are easily confused, built from nothing or after starting with some of the indexes, and requests that use each of them, before and after a restart; the answers have to be the ones of the model. Non-trivial: at least two configurations answer a request of theirs with data, or at least two indexes are in one database and a request finds data with one of them; distinct by configuration and requests.")

	type request struct {
		w      *world
		out    *wOutput
		values []wantValue
		target string
		alone  kit.Resp
	}
	c.Prop("merged", 200, 4000, func(rt *rapid.T, k *kit.Case) {
		prefixes := rapid.Permutation([]string{"", "a", "a_", "in", "é ", "out0"}).Draw(rt, "prefixes")
		dsns := []string{":memory:", "@DIR@/one.sqlite", "@DIR@/one.sqlite", "file:@DIR@/one.sqlite"}
		worlds := []*world{}
		all := kit.O{}
		files := certificateFiles()
		requests := []request{}
		services := kit.L{}
		everyRoute := kit.L{}
		type binding struct {
			listener int
			https    bool
			w        *world
			all      bool
		}
		bindings := []binding{}
		listeners := 0
		service := func(w *world, name string, routes kit.L) {
			conf := kit.O{{"name", name}, {"type", "http"}}
			kind := rapid.SampledFrom([]string{"http", "https", "both"}).Draw(rt, "protocols")
			add := func(https bool) {
				bindings = append(bindings, binding{listeners, https, w, w == nil})
				listeners++
			}
			if kind != "https" {
				conf = append(conf, kit.KV{K: "http", V: kit.O{{"listen", "127.0.0.1:0"}}})
				add(false)
			}
			if kind != "http" {
				conf = append(conf, kit.KV{K: "https", V: kit.O{{"listen", "127.0.0.1:0"}, {"certificatePath", "@DIR@/cert.pem"}, {"privateKeyPath", "@DIR@/key.pem"}}})
				add(true)
			}
			k.Label("service with " + kind)
			services = append(services, append(conf, kit.KV{K: "routes", V: routes}))
		}
		for i := rapid.IntRange(2, 3).Draw(rt, "worlds"); i > 0; i-- {
			n := len(worlds)
			w := drawWorld(rt, worldOpts{minInputs: 1, maxInputs: 2, minOutputs: 1, maxOutputs: 3, indexKinds: allIndexes, maxRows: 10, arrays: true, objects: true, maxParams: 2, relDepth: 1, maxRels: 1, parsers: true, sorts: true, poolMax: 4, prefix: prefixes[n], dsns: dsns,
				routes: []string{"/r", "/s/r", "/t"}})
			worlds = append(worlds, w)
			cfg := w.config()
			all = merge(all, cfg.With("services", kit.L{}))
			for name, data := range w.files() {
				files[name] = data
			}
			routes := kit.L{}
			for _, out := range w.outputs {
				routes = append(routes, kit.O{{"path", out.path}, {"output", out.name}})
				everyRoute = append(everyRoute, kit.O{{"path", fmt.Sprintf("/w%d%v", n, out.path)}, {"output", out.name}})
			}
			service(w, rapid.SampledFrom([]string{"http", "service", ""}).Draw(rt, "serviceName")+fmt.Sprint(n), routes)
			// Alone.
			alone := func() {
				rig := kit.MustStart(rt, cfg, w.files())
				defer rig.Close()
				for _, out := range w.outputs {
					for j := rapid.IntRange(1, 3).Draw(rt, "requests"); j > 0; j-- {
						values := w.drawValues(rt, out)
						r := request{w: w, out: out, values: values, target: out.target(rt, values, nil)}
						r.alone = rig.Get(r.target)
						requests = append(requests, r)
					}
				}
				for _, target := range oddTargets(rt, w) {
					requests = append(requests, request{w: w, target: target, alone: rig.Get(target)})
				}
			}
			alone()
		}
		service(nil, "all", everyRoute)
		// Parsers of the same name are the same one.
		parsers, seen := kit.L{}, map[string]bool{}
		for _, p := range all.Get("parsers").(kit.L) {
			if name := p.(kit.O).Get("name").(string); !seen[name] {
				seen[name] = true
				parsers = append(parsers, p)
			}
		}
		all = all.With("parsers", parsers).With("services", services)
		order := rapid.Permutation([]string{"parsers", "inputs", "indexes", "outputs"}).Draw(rt, "shuffled")
		for _, layer := range order[:2] {
			if l := all.Get(layer).(kit.L); len(l) > 1 {
				all = all.With(layer, kit.L(rapid.Permutation([]interface{}(l)).Draw(rt, "order")))
			}
		}
		shared := 0
		for _, idx := range all.Get("indexes").(kit.L) {
			if dsn, ok := idx.(kit.O).Get("dsn").(string); ok && dsn != ":memory:" {
				shared++
			}
		}
		k.LabelIf(shared > 1, "indexes in one database")
		rig, addresses := instance(rt, all, files, listeners)
		defer rig.Close()
		withData := map[*world]bool{}
		log := ""
		for i := rapid.IntRange(1, 2).Draw(rt, "rounds"); i > 0; i-- {
			for _, b := range bindings {
				base := "http://" + addresses[b.listener]
				if b.https {
					base = "https://" + addresses[b.listener]
				}
				for _, r := range requests {
					target := r.target
					if b.all {
						for n, w := range worlds {
							if w == r.w {
								target = fmt.Sprintf("/w%d%v", n, target)
							}
						}
					} else if r.w != b.w {
						continue
					}
					kit.Current(fmt.Sprintf("%v\nGET %v%v\n", kit.YAML(all), base, target))
					resp := rig.DoAt(base, "GET", target, nil)
					log += target + "\n"
					if err := sameAnswer(r.alone, resp); err != nil {
						rt.Fatalf("GET %v%v among the others: %v", base, target, err)
					}
					if r.out != nil {
						if err := r.w.check(resp, r.out, r.values); err != nil {
							rt.Fatalf("GET %v%v: %v", base, target, err)
						}
						if resp.Status == 200 && string(resp.Body) != "[]" {
							withData[r.w] = true
						}
					}
				}
				// Routes of the other services.
				others := []string{"/w0", "/all", "/"}
				if b.all {
					others = []string{"/r", "/s/r", "/t", "/w9/r"}
				} else {
					for n := range worlds {
						others = append(others, fmt.Sprintf("/w%d/s/r", n), fmt.Sprintf("/w%d/t", n))
					}
				}
				target := rapid.SampledFrom(others).Draw(rt, "other")
				if _, err := answered(rig.DoAt(base, "GET", target, nil), 404); err != nil {
					rt.Fatalf("GET %v%v, which is a route of another service: %v", base, target, err)
				}
			}
		}
		if len(withData) > 1 {
			k.Nontrivial(kit.YAML(all), log)
			k.Sample(fmt.Sprintf("%v%v", kit.YAML(all), log))
		}
	})

	// Inputs of one file that read it with different settings, and their
	// indexes, together and alone.
	c.Prop("one file", 300, 8000, func(rt *rapid.T, k *kit.Case) {
		kind := rapid.SampledFrom([]string{"csv", "csv", "csv", "xml", "json"}).Draw(rt, "kind")
		var data strings.Builder
		lines := rapid.IntRange(2, 7).Draw(rt, "lines")
		word := func() string {
			return rapid.SampledFrom([]string{"a", "b", "c", "1", "2", "é"}).Draw(rt, "word")
		}
		delimiters := []string{",", ";", "\t"}
		switch kind {
		case "csv":
			for i := 0; i < lines; i++ {
				width := rapid.IntRange(2, 5).Draw(rt, "width")
				for j := 0; j < width; j++ {
					if j > 0 {
						data.WriteString(rapid.SampledFrom(delimiters).Draw(rt, "delimiter"))
					}
					if i == 0 {
						fmt.Fprintf(&data, "%v%d", word(), j) // unlike each other
					} else {
						data.WriteString(word())
					}
				}
				data.WriteString("\n")
			}
		case "xml":
			data.WriteString("<r>")
			for i := 0; i < lines; i++ {
				name := rapid.SampledFrom([]string{"x", "y"}).Draw(rt, "element")
				fmt.Fprintf(&data, "<%v p=\"%v\" q=\"%v\">%v</%v>", name, word(), word(), word(), name)
			}
			data.WriteString("</r>")
		case "json":
			for i := 0; i < lines; i++ {
				fmt.Fprintf(&data, "{\"p\":\"%v\",\"q\":[\"%v\"]}\n", word(), word())
			}
		}
		together := kit.O{{"inputs", kit.L{}}, {"indexes", kit.L{}}, {"outputs", kit.L{}}, {"services", kit.L{}}}
		type part struct {
			route string
			cfg   kit.O
		}
		parts := []part{}
		for n := rapid.IntRange(2, 4).Draw(rt, "inputs"); n > 0; n-- {
			in := fmt.Sprint("in", len(parts))
			conf := kit.O{{"name", in}, {"type", kind}, {"path", "@DIR@/in.data"}, {"dieOnInputChange", false}}
			property := "p"
			switch kind {
			case "csv":
				conf = append(conf, kit.KV{K: "delimiter", V: rapid.SampledFrom(delimiters).Draw(rt, "delimiter")}, kit.KV{K: "ignoreFirstRow", V: rapid.Bool().Draw(rt, "ignoreFirstRow")})
				if rapid.Bool().Draw(rt, "autodetect") {
					conf = append(conf, kit.KV{K: "autodetectColumns", V: true})
					property = strings.Split(strings.Split(data.String(), "\n")[0], conf.Get("delimiter").(string))[0]
				} else {
					columns := kit.L{}
					for _, name := range rapid.Permutation([]string{"p", "q", "r"}).Draw(rt, "names")[:rapid.IntRange(1, 3).Draw(rt, "columns")] {
						columns = append(columns, kit.O{{"name", name}})
						property = name
					}
					conf = append(conf, kit.KV{K: "columns", V: columns})
				}
			case "xml":
				conf = append(conf, kit.KV{K: "recordXpath", V: rapid.SampledFrom([]string{"/r/x", "/r/y", "/r/*", "//y"}).Draw(rt, "recordXpath")},
					kit.KV{K: "properties", V: kit.L{kit.O{{"name", "p"}, {"xpath", rapid.SampledFrom([]string{"string(@p)", "string(@q)", "string(.)"}).Draw(rt, "xpath")}}}})
			}
			index := kit.O{{"name", "index" + in}, {"type", "map"}, {"input", in}, {"properties", kit.L{property}}}
			switch rapid.IntRange(0, 2).Draw(rt, "index") {
			case 1:
				index = index.With("type", "wildcard")
				index = append(index, kit.KV{K: "path", V: "@DIR@/" + in + ".wildcard"})
			case 2:
				index = index.With("type", "sqlite").With("properties", kit.L{kit.O{{"name", property}}})
				index = append(index, kit.KV{K: "dsn", V: "@DIR@/one.sqlite"})
			}
			output := kit.O{{"name", "out" + in}, {"type", "jsonArray"}, {"input", in}, {"parameters", kit.O{{"v", kit.O{{"property", property}, {"index", "index" + in}}}}}}
			route := kit.O{{"path", "/" + in}, {"output", "out" + in}}
			service := func(routes kit.L) kit.L {
				return kit.L{kit.O{{"name", "http"}, {"type", "http"}, {"http", kit.O{{"listen", "127.0.0.1:0"}}}, {"routes", routes}}}
			}
			parts = append(parts, part{"/" + in, kit.O{{"inputs", kit.L{conf}}, {"indexes", kit.L{index}}, {"outputs", kit.L{output}}, {"services", service(kit.L{route})}}})
			routes := kit.L{}
			if s := together.Get("services").(kit.L); len(s) > 0 {
				routes = s[0].(kit.O).Get("routes").(kit.L)
			}
			together = together.With("inputs", append(together.Get("inputs").(kit.L), conf)).With("indexes", append(together.Get("indexes").(kit.L), index)).
				With("outputs", append(together.Get("outputs").(kit.L), output)).With("services", service(append(routes, route)))
		}
		targets := []string{}
		for i := rapid.IntRange(1, 4).Draw(rt, "requests"); i > 0; i-- {
			targets = append(targets, rapid.SampledFrom([]string{"", "?v=" + url.QueryEscape(word()), "?v=" + url.QueryEscape(word())}).Draw(rt, "query"))
		}
		files := kit.Files{"in.data": []byte(data.String())}
		want := map[string]kit.Resp{}
		for _, p := range parts {
			rig, err := kit.Start(rt, p.cfg, files)
			if err != nil {
				// The columns found in the file may be invalid: it does not start with the others either.
				if rig, err := kit.Start(rt, together, files); err == nil {
					rig.Close()
					rt.Fatalf("%v starts together with the others, but not alone", p.route)
				}
				k.Label("an input that cannot be used")
				return
			}
			for _, query := range targets {
				want[p.route+query] = rig.Get(p.route + query)
			}
			rig.Close()
		}
		rig := kit.MustStart(rt, together, files)
		defer rig.Close()
		differ, found := map[string]bool{}, false
		for _, p := range parts {
			for _, query := range targets {
				resp := rig.Get(p.route + query)
				if err := sameAnswer(want[p.route+query], resp); err != nil {
					rt.Fatalf("GET %v%v among the others: %v", p.route, query, err)
				}
				if query != "" && resp.Status == 200 && string(resp.Body) != "[]" {
					found = true
				}
			}
			differ[string(want[p.route+targets[0]].Body)] = true
		}
		k.Label(kind)
		if len(differ) > 1 && found {
			k.Nontrivial(kit.YAML(together), data.String(), targets)
			k.Sample(fmt.Sprintf("%v%q\n%v", kit.YAML(together), data.String(), targets))
		}
	})

	c.Prop("one database", 600, 12000, func(rt *rapid.T, k *kit.Case) {
		dsn := rapid.SampledFrom([]string{"@DIR@/one.sqlite", "@DIR@/one.sqlite", "file:@DIR@/one.sqlite", "file:@DIR@/one.sqlite?cache=shared"}).Draw(rt, "dsn")
		names := confusing
		switch rapid.IntRange(0, 3).Draw(rt, "names") {
		case 0, 1:
			names = veryConfusing
		case 2:
			names = longNames
		}
		w := drawWorld(rt, worldOpts{minInputs: 1, maxInputs: 2, minOutputs: 3, maxOutputs: 6, kinds: []string{"csv", "csv", "json"}, indexKinds: []string{"sqlite", "sqlite", "fts5"}, maxIndexes: 5, minRows: 1, maxRows: 10, arrays: true, minParams: 1, maxParams: 2, poolMax: 4,
			dsns: []string{dsn}, columns: names, indexNames: rapid.Permutation(names).Draw(rt, "indexNames")})
		cfg := w.config()
		dir := kit.TempDir()
		defer os.RemoveAll(dir)
		start := func(cfg kit.O) *kit.Rig {
			rig, err := kit.StartIn(rt, dir, kit.YAML(cfg), nil)
			if err != nil {
				rt.Fatalf("rodb does not start on a valid configuration: %v", err)
			}
			return rig
		}
		for name, data := range w.files() {
			kit.WriteFile(filepath.Join(dir, name), data)
		}
		log := ""
		indexes := cfg.Get("indexes").(kit.L)
		if len(indexes) > 0 && rapid.Bool().Draw(rt, "some first") {
			some := kit.L{}
			for _, idx := range indexes {
				if rapid.Bool().Draw(rt, "first") {
					some = append(some, idx)
				}
			}
			start(cfg.With("indexes", some).With("outputs", kit.L{}).With("services", kit.L{})).Close()
			log = fmt.Sprintf("first with %d of the indexes\n", len(some))
			k.Label("an index is added to a database")
		}
		found := false
		for n := rapid.IntRange(1, 2).Draw(rt, "starts"); n > 0; n-- {
			func() {
				rig := start(cfg)
				defer rig.Close()
				for _, out := range w.outputs {
					for j := rapid.IntRange(1, 3).Draw(rt, "requests"); j > 0; j-- {
						values := w.drawValues(rt, out)
						target := out.target(rt, values, nil)
						log += target + "\n"
						resp := rig.Get(target)
						if err := w.check(resp, out, values); err != nil {
							rt.Fatalf("GET %v: %v", target, err)
						}
						for _, v := range values {
							found = found || v.p.index != "default" && string(resp.Body) != "[]"
						}
					}
				}
			}()
			log += "restart\n"
		}
		k.Label(fmt.Sprintf("%d indexes", len(indexes)))
		if len(indexes) > 1 && found {
			k.Nontrivial(w.String(), log)
			k.Sample(w.String() + log)
		}
	})

	// Tens or hundreds of components of each layer.
	c.Prop("many components", 16, 300, func(rt *rapid.T, k *kit.Case) {
		n := rapid.SampledFrom([]int{9, 20, 36, 70, 140, 270}).Draw(rt, "components")
		services := min(n, rapid.SampledFrom([]int{1, 1, 3, 12}).Draw(rt, "services"))
		shift := rapid.IntRange(0, 6).Draw(rt, "shift")
		// Each input has an inotify instance, of which a user cannot have more than 128.
		inputs := min(n, rapid.SampledFrom([]int{4, 40}).Draw(rt, "inputs"))
		conf := map[string]kit.L{}
		add := func(layer string, o kit.O) { conf[layer] = append(conf[layer], o) }
		files := kit.Files{}
		routes := make([]kit.L, services)
		type check struct {
			service int
			target  string
			want    string
		}
		checks := []check{}
		input := func(i int) int {
			return i % inputs
		}
		for i := 0; i < n; i++ {
			name := fmt.Sprint("n", i)
			in := fmt.Sprint("n", input(i))
			add("parsers", kit.O{{"name", name}, {"type", "boolean"}, {"trueValues", kit.L{fmt.Sprint("v", i)}}, {"falseValues", kit.L{"other"}}})
			if input(i) == i {
				add("inputs", kit.O{{"name", in}, {"type", "csv"}, {"path", "@DIR@/" + in + ".csv"}, {"dieOnInputChange", false}, {"columns", kit.L{kit.O{{"name", "a"}}, kit.O{{"name", "b"}, {"parser", name}}}}})
				files[in+".csv"] = []byte(fmt.Sprintf("k%d,v%d\nother,other\n", i, i))
			}
			index, property := name, "a"
			switch (i + shift) % 5 {
			case 0:
				add("indexes", kit.O{{"name", name}, {"type", "map"}, {"input", in}, {"properties", kit.L{"a"}}})
			case 1:
				add("indexes", kit.O{{"name", name}, {"type", "sqlite"}, {"input", in}, {"dsn", "@DIR@/i.sqlite"}, {"properties", kit.L{kit.O{{"name", "a"}}}}})
			case 2:
				add("indexes", kit.O{{"name", name}, {"type", "fts5"}, {"input", in}, {"dsn", "@DIR@/i.sqlite"}, {"properties", kit.L{"a"}}})
				property = "match"
			case 3:
				add("indexes", kit.O{{"name", name}, {"type", "wildcard"}, {"input", in}, {"path", "@DIR@/" + name + ".wild"}, {"properties", kit.L{"a"}}})
			default:
				index = "default"
			}
			add("outputs", kit.O{{"name", name}, {"type", "jsonArray"}, {"input", in}, {"parameters", kit.O{{"q", kit.O{{"property", property}, {"index", index}}}}}})
			add("outputs", kit.O{{"name", "o" + name}, {"type", "jsonArray"}, {"input", in}, {"parameters", kit.O{{"b", kit.O{{"property", "b"}, {"parser", name}}}}}})
			at := i % services
			routes[at] = append(routes[at], kit.O{{"path", "/" + name}, {"output", name}}, kit.O{{"path", "/" + name + "/{b}"}, {"output", "o" + name}})
			first := fmt.Sprintf(`{"a":"k%d","b":true}`, input(i))
			checks = append(checks,
				check{at, "/" + name, "[" + first + `,{"a":"other","b":false}]`},
				check{at, fmt.Sprintf("/%v?q=k%d", name, input(i)), "[" + first + "]"},
				check{at, "/" + name + "?q=absent", "[]"},
				check{at, fmt.Sprintf("/%v/v%d", name, i), "[" + first + "]"},
				check{at, "/" + name + "/other", `[{"a":"other","b":false}]`})
		}
		for i := range routes {
			add("services", kit.O{{"name", fmt.Sprint("s", i)}, {"type", "http"}, {"http", kit.O{{"listen", "127.0.0.1:0"}}}, {"routes", routes[i]}})
		}
		cfg := kit.O{}
		for _, layer := range []string{"parsers", "inputs", "indexes", "outputs", "services"} {
			cfg = append(cfg, kit.KV{K: layer, V: conf[layer]})
		}
		rig, _ := instance(rt, cfg, files, services)
		defer rig.Close()
		for i := rapid.IntRange(0, 4).Draw(rt, "first"); i < len(checks); i += 1 + len(checks)/400 {
			ch := checks[i]
			for s := 0; s < services; s++ {
				resp := rig.DoAt(rig.Address(fmt.Sprint("s", s)), "GET", ch.target, nil)
				if s != ch.service {
					if i%17 == 0 {
						if _, err := answered(resp, 404); err != nil {
							rt.Fatalf("%d components: GET %v from the service %d, which is a route of %d: %v", n, ch.target, s, ch.service, err)
						}
					}
					continue
				}
				if err := checkAnswer(resp, ch.want); err != nil {
					rt.Fatalf("%d components, %d services: GET %v: %v", n, services, ch.target, err)
				}
			}
		}
		k.LabelIf(n > 100, "more than 100 components of each layer")
		k.Nontrivial(n, services, shift, inputs)
	})

	c.Enum("names that differ by letter case", func(t *testing.T, account func(*kit.Case)) {
		for _, kind := range []string{"sqlite", "fts5"} {
			index := func(name string) kit.O {
				return kit.O{{"name", name}, {"type", kind}, {"input", "in"}, {"dsn", "@DIR@/one.sqlite"}, {"properties", kit.L{"x"}}}
			}
			if kind == "sqlite" {
				index = func(name string) kit.O {
					return kit.O{{"name", name}, {"type", kind}, {"input", "in"}, {"dsn", "@DIR@/one.sqlite"}, {"properties", kit.L{kit.O{{"name", "x"}}}}}
				}
			}
			rig, err := kit.Start(t, kit.O{{"inputs", kit.L{kit.O{{"name", "in"}, {"type", "csv"}, {"path", "@DIR@/in.csv"}, {"columns", kit.L{kit.O{{"name", "x"}}}}}}}, {"indexes", kit.L{index("People"), index("people")}}},
				kit.Files{"in.csv": []byte("a\n")})
			if err != nil {
				if !kit.Known("index-names-letter-case") || !strings.Contains(err.Error(), "already exists") {
					t.Fatalf("the %v indexes People and people in one database: %v", kind, err)
				}
				c.KnownFinding("index-names-letter-case")
			}
			rig.Close()
			k := &kit.Case{}
			k.Nontrivial(kind + " indexes People and people in one database")
			account(k)
		}
	})
}
