package checks

import (
	"fmt"
	"strings"
	"testing"

	"github.com/rodb-io/rodb/pkg/input/record"
	"pgregory.net/rapid"
	"rodbverif/kit"
)

// anyInput draws an input of any type: its configuration (name "in") and file.
func anyInput(rt *rapid.T, maxRecords int) (conf kit.O, parsers kit.L, file string, data []byte) {
	switch rapid.IntRange(0, 5).Draw(rt, "inputKind") {
	case 0, 1: // the richer XML documents
		d := kit.XDocs(maxRecords).Draw(rt, "xml")
		return d.Config("in", "in.xml"), nil, "in.xml", d.Data
	case 2: // nested JSON documents
		var b strings.Builder
		n := rapid.IntRange(0, maxRecords).Draw(rt, "documents")
		for i := 0; i < n; i++ {
			m := kit.JSONObject(2, 4).Draw(rt, "document")
			if rapid.IntRange(0, 9).Draw(rt, "big") == 0 {
				m["big"] = strings.Repeat("{\"x\": 1}\n", rapid.SampledFrom([]int{50, 57, 455, 456, 900, 7300, 30000}).Draw(rt, "size"))
			}
			b.WriteString(kit.JSONText(rt, m))
			b.WriteString(rapid.SampledFrom([]string{"", "\n", " \r\n", "\t\t", strings.Repeat(" ", 600)}).Draw(rt, "gap"))
		}
		return kit.O{{"name", "in"}, {"type", "json"}, {"path", "@DIR@/in.json"}, {"dieOnInputChange", false}}, nil, "in.json", []byte(b.String())
	default:
		d := kit.Datasets(kit.DataOpts{MaxRows: maxRecords, Texts: kit.Texts()}).Draw(rt, "data")
		conf, data := d.Render(rt, "in", "in."+d.Kind)
		return conf, nil, "in." + d.Kind, data
	}
}

func sameAll(r record.Record, want item) error {
	all, err := r.All()
	if (err != nil) != (want.allErr != nil) {
		return fmt.Errorf("error %v instead of %v", err, want.allErr)
	}
	if err == nil && !kit.SameValue(all, want.all) {
		return fmt.Errorf("%v instead of %v", kit.Show(all), kit.Show(want.all))
	}
	return nil
}

func TestC02(t *testing.T) {
	c := kit.Begin(t, "C02", "A case is one input file of any type and a history of fetches by position and (possibly interleaved, possibly abandoned) iterations on a newly opened input. Non-trivial: at least three records and eight operations, among them a fetch out of order; distinct by file and history.")
	c.Prop("histories", 1000, 25000, func(rt *rapid.T, k *kit.Case) {
		conf, parsers, file, data := anyInput(rt, rapid.SampledFrom([]int{4, 8, 30}).Draw(rt, "maxRecords"))
		cfg := kit.O{{"parsers", parsers}, {"inputs", kit.L{conf}}}
		if parsers == nil {
			cfg = cfg.Without("parsers")
		}
		// The expected records come from one iteration of another instance.
		first := kit.MustStart(rt, cfg, kit.Files{file: data})
		want, err := iterate(first.Inputs["in"])
		first.Close()
		if err != nil {
			rt.Fatalf("iterating: %v", err)
		}
		if err := increasing(want); err != nil {
			rt.Fatal(err)
		}
		rig := kit.MustStart(rt, cfg, kit.Files{file: data})
		defer rig.Close()
		in := rig.Inputs["in"]
		kind := conf.Get("type").(string)

		type iteration struct {
			next record.Iterator
			end  func() error
			at   int
		}
		var open []*iteration
		// Records stay what they are, whatever is done with the input afterwards.
		type kept struct {
			r  record.Record
			at int
		}
		keep := []kept{}
		ops := rapid.IntRange(1, 30).Draw(rt, "ops")
		history := []string{}
		jumps := 0
		last := -1
		for i := 0; i < ops; i++ {
			op := rapid.IntRange(0, 7).Draw(rt, "op")
			switch {
			case op <= 3:
				if len(want) == 0 {
					continue
				}
				n := rapid.IntRange(0, len(want)-1).Draw(rt, "record")
				if n != last+1 {
					jumps++
				}
				last = n
				history = append(history, fmt.Sprintf("get %d", n))
				r, err := in.Get(want[n].position)
				if err != nil {
					rt.Fatalf("%v: fetching position %d of record %d: %v", history, want[n].position, n, err)
				}
				if r == nil {
					rt.Fatalf("%v: fetching position %d of record %d gives nothing", history, want[n].position, n)
				}
				if r.Position() != want[n].position {
					rt.Fatalf("%v: the record fetched at %d says its position is %d", history, want[n].position, r.Position())
				}
				if rapid.IntRange(0, 2).Draw(rt, "readLater") == 0 {
					keep = append(keep, kept{r, n})
					continue
				}
				if err := sameAll(r, want[n]); err != nil {
					rt.Fatalf("%v: fetching position %d of record %d: %v", history, want[n].position, n, err)
				}
			case op == 4:
				next, end, err := in.IterateAll()
				if err != nil {
					rt.Fatalf("%v: starting an iteration: %v", history, err)
				}
				open = append(open, &iteration{next, end, 0})
				history = append(history, "iterate")
			case op == 5:
				if len(open) == 0 {
					continue
				}
				n := rapid.IntRange(0, len(open)-1).Draw(rt, "which")
				history = append(history, fmt.Sprintf("end %d", n))
				if err := open[n].end(); err != nil {
					rt.Fatalf("%v: %v", history, err)
				}
				open = append(open[:n], open[n+1:]...)
			default:
				if len(open) == 0 {
					continue
				}
				n := rapid.IntRange(0, len(open)-1).Draw(rt, "which")
				steps := rapid.IntRange(1, 4).Draw(rt, "steps")
				history = append(history, fmt.Sprintf("advance %d by %d", n, steps))
				for s := 0; s < steps; s++ {
					it := open[n]
					r, err := it.next()
					if err != nil {
						rt.Fatalf("%v: %v", history, err)
					}
					if it.at >= len(want) {
						if r != nil {
							rt.Fatalf("%v: a record after the last one", history)
						}
						continue
					}
					if r == nil {
						rt.Fatalf("%v: the iteration ends after %d of %d records", history, it.at, len(want))
					}
					if r.Position() != want[it.at].position {
						rt.Fatalf("%v: record %d is at position %d, but was at %d", history, it.at, r.Position(), want[it.at].position)
					}
					if i%3 == 0 {
						keep = append(keep, kept{r, it.at})
					} else if err := sameAll(r, want[it.at]); err != nil {
						rt.Fatalf("%v: record %d: %v", history, it.at, err)
					}
					it.at++
				}
			}
		}
		for _, it := range open {
			failOn(rt, it.end())
		}
		for _, x := range keep {
			if x.r.Position() != want[x.at].position {
				rt.Fatalf("%v: record %d, read at the end, is at position %d", history, x.at, x.r.Position())
			}
			if err := sameAll(x.r, want[x.at]); err != nil {
				rt.Fatalf("%v: record %d, read at the end: %v", history, x.at, err)
			}
		}
		k.LabelIf(len(keep) > 1, "records read later")
		k.Label(kind)
		k.LabelIf(len(want) == 0, "no records")
		if len(want) >= 3 && len(history) >= 8 && jumps > 1 {
			k.Nontrivial(string(data), history)
			k.Sample(fmt.Sprintf("%v\n%v\n%q", kit.YAML(cfg), strings.Join(history, ", "), string(data)))
		}
	})

	// Every record of large files (several read buffers), in random order.
	c.Prop("large files", 25, 500, func(rt *rapid.T, k *kit.Case) {
		n := rapid.IntRange(300, 2500).Draw(rt, "n")
		kind := rapid.SampledFrom([]string{"csv", "json", "xml"}).Draw(rt, "kind")
		pool := rapid.SliceOfN(kit.ShortTexts(), 2, 8).Draw(rt, "pool")
		d := &kit.Dataset{Kind: kind, Cols: []kit.Col{{Name: "id", Type: kit.String}, {Name: "v", Type: kit.String}}}
		seed := rapid.Uint64().Draw(rt, "seed")
		rnd := func() uint64 { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed }
		if seed == 0 {
			seed = 1
		}
		huge := []int{}
		for i := 0; i < n; i++ {
			v := pool[rnd()%uint64(len(pool))]
			if rnd()%50 == 0 {
				v = strings.Repeat("long ", int(rnd()%2000))
			}
			if rnd()%300 == 0 {
				v = strings.Repeat("huge ", int(rnd()%60000))
				huge = append(huge, i)
			}
			d.Rows = append(d.Rows, kit.Row{"id": fmt.Sprint("r", i), "v": v})
		}
		conf, data := d.Render(rt, "in", "in."+kind)
		cfg := kit.O{{"inputs", kit.L{conf}}}
		rig := kit.MustStart(rt, cfg, kit.Files{"in." + kind: data})
		defer rig.Close()
		in := rig.Inputs["in"]
		items, err := iterate(in)
		if err != nil || len(items) != n {
			rt.Fatalf("%d of %d records, %v", len(items), n, err)
		}
		if err := increasing(items); err != nil {
			rt.Fatal(err)
		}
		fetches := 150
		for i := 0; i < fetches; i++ {
			j := int(rnd() % uint64(n))
			if i < 4*len(huge) { // the largest records, and those next to them
				j = min(max(huge[i/4]+i%4-1, 0), n-1)
			}
			r, err := in.Get(items[j].position)
			if err != nil {
				rt.Fatalf("record %d: %v", j, err)
			}
			if err := sameAll(r, items[j]); err != nil {
				rt.Fatalf("record %d: %v", j, err)
			}
			all, _ := r.All()
			if all["id"] != fmt.Sprint("r", j) {
				rt.Fatalf("record %d: fetched %v", j, kit.Show(all))
			}
		}
		k.Label(kind)
		k.Nontrivial(kind, n, pool, seed)
		k.Sample(fmt.Sprintf("%v with %d records, %d bytes", kind, n, len(data)))
	})

	// Records anywhere in a tree: below different elements, at different
	// depths, inside of each other, for paths with and without conditions.
	c.Prop("XML trees", 700, 20000, func(rt *rapid.T, k *kit.Case) {
		path := rapid.SampledFrom([]string{
			"//rec", "/root//rec", "/root/g/rec", "/root/*/rec", "//rec[@k]", "//rec[@k='1']", "/root/g[@n='1']/rec", "/root/g/h/rec", "//g/*", "/root/*", "/root/*[@n]/rec",
		}).Draw(rt, "path")
		recs, parents := 0, map[string]bool{}
		var b strings.Builder
		var tree func(name string, depth int)
		tree = func(name string, depth int) {
			b.WriteString("<" + name)
			if name != "root" {
				for _, a := range []string{"n", "k"} {
					if v := rapid.SampledFrom([]string{"", "1", "2"}).Draw(rt, a); v != "" {
						b.WriteString(" " + a + "=\"" + v + "\"")
					}
				}
			}
			if name == "rec" {
				recs++
				b.WriteString(fmt.Sprintf(" id=\"%d\"", recs))
			}
			n := 0
			if depth > 0 {
				n = rapid.IntRange(0, 4).Draw(rt, "kids")
				if name == "root" {
					n += 2
				}
			}
			if n == 0 && rapid.Bool().Draw(rt, "empty") {
				b.WriteString("/>")
				return
			}
			b.WriteString(">")
			if name == "rec" {
				b.WriteString(fmt.Sprintf("text of %d", recs))
			}
			for i := 0; i < n; i++ {
				b.WriteString(rapid.SampledFrom([]string{"", "", "\n", " <!-- c --> ", "words"}).Draw(rt, "gap"))
				kid := rapid.SampledFrom([]string{"rec", "rec", "g", "g", "h"}).Draw(rt, "kid")
				if kid == "rec" {
					parents[fmt.Sprint(name, depth)] = true
				}
				tree(kid, depth-1)
			}
			b.WriteString("</" + name + ">")
		}
		tree("root", rapid.IntRange(2, 4).Draw(rt, "depth"))
		conf := kit.O{{"name", "in"}, {"type", "xml"}, {"path", "@DIR@/in.xml"}, {"recordXpath", path}, {"dieOnInputChange", false},
			{"properties", kit.L{
				kit.O{{"name", "text"}, {"xpath", "string(.)"}}, kit.O{{"name", "id"}, {"xpath", "string(@id)"}},
				kit.O{{"name", "n"}, {"xpath", "string(@n)"}}, kit.O{{"name", "inside"}, {"xpath", "count(.//*)"}, {"parser", "integer"}},
			}}}
		rig := kit.MustStart(rt, kit.O{{"inputs", kit.L{conf}}}, kit.Files{"in.xml": []byte(b.String())})
		defer rig.Close()
		in := rig.Inputs["in"]
		items, err := iterate(in)
		if err != nil {
			rt.Fatalf("%v\n%v\niterating: %v", path, b.String(), err)
		}
		if err := increasing(items); err != nil {
			rt.Fatalf("%v\n%v\n%v", path, b.String(), err)
		}
		order := []int{}
		for i := range items {
			order = append(order, i)
		}
		if len(order) > 0 {
			order = rapid.Permutation(order).Draw(rt, "order")
		}
		for _, i := range order {
			r, err := in.Get(items[i].position)
			if err != nil {
				rt.Fatalf("%v\n%v\nrecord %d at %d: %v", path, b.String(), i, items[i].position, err)
			}
			if err := sameAll(r, items[i]); err != nil {
				rt.Fatalf("%v\n%v\nrecord %d at %d: %v", path, b.String(), i, items[i].position, err)
			}
		}
		k.Label(path)
		k.LabelIf(len(parents) > 1, "records at different places")
		if len(items) >= 3 && len(parents) > 1 {
			k.Nontrivial(path, b.String())
			k.Sample(path + " in " + b.String())
		}
	})

	// Listed findings: records below different parents, for properties that
	// look outside of the record and for record paths that depend on these
	// parents. The same documents with other paths are fetched as iterated.
	c.Enum("other parents", func(t *testing.T, account func(*kit.Case)) {
		groups := `<root><g n="1"><rec>a</rec></g><g n="2"><rec>b</rec><rec>c</rec></g><g n="3"><rec>d</rec></g></root>`
		nested := `<root><g><g><g></g><rec>1</rec><rec>2</rec></g><rec>3</rec><rec>4</rec><rec>5<rec>6</rec></rec></g><rec>7</rec><rec>8<g><rec>9</rec></g></rec></root>`
		for _, x := range []struct {
			finding, path, property, data string
			records                       int
		}{
			{"", "//rec", "string(.)", groups, 4},
			{"", "/root/g/rec", "string(.)", groups, 4},
			{"", "/root/g/rec", "name(..)", groups, 4},
			{"xml-outside", "//rec", "string(../@n)", groups, 4},
			{"xml-outside", "/root/g/rec", "string(../@n)", groups, 4},
			{"", "//rec", "string(.)", nested, 7},
			{"xml-nested", "//g/rec", "string(.)", nested, 6},
		} {
			name := x.path + " with " + x.property
			conf := kit.O{{"name", "in"}, {"type", "xml"}, {"path", "@DIR@/in.xml"}, {"recordXpath", x.path}, {"dieOnInputChange", false},
				{"properties", kit.L{kit.O{{"name", "v"}, {"xpath", x.property}}}}}
			rig := kit.MustStart(t, kit.O{{"inputs", kit.L{conf}}}, kit.Files{"in.xml": []byte(x.data)})
			items, err := iterate(rig.Inputs["in"])
			if err == nil {
				err = increasing(items)
			}
			if err != nil || len(items) != x.records {
				t.Fatalf("%v in %v: %d records instead of %d, %v", name, x.data, len(items), x.records, err)
			}
			for i, it := range items {
				var r record.Record
				if r, err = rig.Inputs["in"].Get(it.position); err == nil {
					err = sameAll(r, it)
				}
				if err != nil {
					err = fmt.Errorf("record %d: %v", i, err)
					break
				}
			}
			rig.Close()
			if err != nil && x.finding != "" && kit.Known(x.finding) {
				c.KnownFinding(x.finding)
			} else if err != nil {
				t.Fatalf("%v in %v: %v", name, x.data, err)
			}
			k := &kit.Case{}
			k.Nontrivial(x.path, x.property, x.data)
			account(k)
		}
	})

	// Listed finding: XML files in another encoding than UTF-8.
	c.Enum("encodings", func(t *testing.T, account func(*kit.Case)) {
		for _, encoding := range []string{"UTF-8", "ISO-8859-1", "windows-1252"} {
			data := "<?xml version=\"1.0\" encoding=\"" + encoding + "\"?><root>"
			for i := 0; i < 5; i++ {
				data += fmt.Sprintf("<rec>r%d</rec>", i)
			}
			data += "</root>"
			conf := kit.O{{"name", "in"}, {"type", "xml"}, {"path", "@DIR@/in.xml"}, {"recordXpath", "/root/rec"}, {"dieOnInputChange", false},
				{"properties", kit.L{kit.O{{"name", "v"}, {"xpath", "string(.)"}}}}}
			rig := kit.MustStart(t, kit.O{{"inputs", kit.L{conf}}}, kit.Files{"in.xml": []byte(data)})
			items, err := iterate(rig.Inputs["in"])
			if err != nil || len(items) != 5 {
				t.Fatalf("XML encoding %v: %d records instead of 5, %v", encoding, len(items), err)
			}
			for i, it := range items {
				if it.allErr != nil || it.all["v"] != fmt.Sprint("r", i) {
					t.Fatalf("XML encoding %v: record %d is %v, %v", encoding, i, kit.Show(it.all), it.allErr)
				}
			}
			err = func() error { // the finding is about positions only
				if err := increasing(items); err != nil {
					return err
				}
				for i, it := range items {
					r, err := rig.Inputs["in"].Get(it.position)
					if err != nil {
						return fmt.Errorf("fetching record %d: %v", i, err)
					}
					if err := sameAll(r, it); err != nil {
						return fmt.Errorf("fetching record %d: %v", i, err)
					}
				}
				return nil
			}()
			rig.Close()
			if err != nil && encoding != "UTF-8" && kit.Known("xml-encoding") {
				c.KnownFinding("xml-encoding")
			} else if err != nil {
				t.Fatalf("XML encoding %v: %v", encoding, err)
			}
			k := &kit.Case{}
			k.Nontrivial(encoding)
			account(k)
		}
	})
}
