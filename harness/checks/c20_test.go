package checks

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"rodbverif/kit"
)

// A file as it was when the service had just started.
type keptFile struct {
	data    []byte
	modTime time.Time
}

func readFiles(dir string) map[string]keptFile {
	files := map[string]keptFile{}
	kit.Must(filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() {
			return err
		}
		data, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		files[path] = keptFile{data, info.ModTime()}
		return nil
	}))
	return files
}

func sameFiles(before, after map[string]keptFile) error {
	for path, b := range before {
		a, exists := after[path]
		switch {
		case !exists:
			return fmt.Errorf("%v was removed", filepath.Base(path))
		case !bytes.Equal(a.data, b.data):
			return fmt.Errorf("the content of %v was modified", filepath.Base(path))
		case !a.modTime.Equal(b.modTime):
			return fmt.Errorf("%v was written", filepath.Base(path))
		}
	}
	for path := range after {
		if _, exists := before[path]; !exists {
			return fmt.Errorf("%v was created", filepath.Base(path))
		}
	}
	return nil
}

func openFiles() (int, string) {
	entries, err := os.ReadDir("/proc/self/fd")
	kit.Must(err)
	count := map[string]int{}
	for _, e := range entries {
		target, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil {
			if i := strings.IndexByte(target, '['); i > 0 {
				target = target[:i]
			}
			count[filepath.Base(target)]++
		}
	}
	list := []string{}
	for name, n := range count {
		list = append(list, fmt.Sprintf("%v×%d", name, n))
	}
	sort.Strings(list)
	return len(entries), strings.Join(list, " ")
}

// An HTTP client that goes away before it has sent its request or read its answer.
func hangUp(base, target string, when int) error {
	conn, err := net.DialTimeout("tcp", strings.TrimPrefix(base, "http://"), 10*time.Second)
	if err != nil {
		return fmt.Errorf("cannot connect: %w", err)
	}
	defer conn.Close()
	request := "GET " + target + " HTTP/1.1\r\nHost: localhost\r\n\r\n"
	switch when {
	case 0:
		io.WriteString(conn, request[:len(request)/2])
	case 1:
		io.WriteString(conn, request)
	default:
		io.WriteString(conn, request)
		conn.Read(make([]byte, 1))
	}
	return nil
}

func TestC20(t *testing.T) {
	c := kit.Begin(t, "C20", "A case is one generated configuration (inputs and indexes of all kinds, relationships, a charset with a state) and a history of valid and failing requests; a later answer has to be the one of the model and of a fresh instance, and in 'resources' the open files and goroutines are counted before and after repeating the history. The input and index files never change. Non-trivial: the history has at least two different statuses or ten requests; distinct by configuration and requests.")
	opts := worldOpts{minInputs: 1, maxInputs: 3, minOutputs: 1, maxOutputs: 4, indexKinds: allIndexes, maxRows: 16, arrays: true, objects: true, minParams: 0, maxParams: 2, relDepth: 2, maxRels: 2, parsers: true, sorts: true, paging: true, poolMax: 4}

	type job struct {
		target string
		method string // GET when empty
		out    *wOutput
		values []wantValue
	}
	drawJobs := func(rt *rapid.T, w *world) []job {
		w.addShared(rt)
		_, encoded := w.addEncoded(rt)
		plain := w.outputs[:len(w.outputs)-1]
		jobs := []job{}
		for i := rapid.IntRange(2, 10).Draw(rt, "requests"); i > 0; i-- {
			out := rapid.SampledFrom(plain).Draw(rt, "output")
			values := w.drawValues(rt, out)
			jobs = append(jobs, job{target: out.target(rt, values, nil), out: out, values: values})
		}
		for _, target := range append(encoded, oddTargets(rt, w)...) {
			jobs = append(jobs, job{target: target})
		}
		for _, out := range plain {
			if !out.array {
				continue
			}
			for _, limit := range []string{"0", "1", "100000", strconv.Itoa(rapid.IntRange(1, 30).Draw(rt, "limit"))} {
				paging := url.Values{out.limit: {limit}}
				if rapid.Bool().Draw(rt, "withOffset") {
					paging[out.offset] = []string{strconv.Itoa(rapid.IntRange(0, 10).Draw(rt, "offset"))}
				}
				jobs = append(jobs, job{target: out.target(rt, w.drawValues(rt, out), paging)})
			}
			if out.placeholder == "" {
				jobs = append(jobs, job{target: "/" + out.name, out: out})
			}
		}
		// The same targets with other methods, which are not found.
		for i := rapid.IntRange(0, 3).Draw(rt, "methods"); i > 0; i-- {
			target := rapid.SampledFrom(jobs).Draw(rt, "sameTarget").target
			jobs = append(jobs, job{target: target, method: rapid.SampledFrom([]string{"POST", "PUT", "DELETE", "OPTIONS", "PATCH", "get"}).Draw(rt, "method")})
		}
		return append(jobs, job{target: "/nowhere"})
	}
	ask := func(rig *kit.Rig, j job) kit.Resp {
		switch j.method {
		case "":
			return rig.Get(j.target)
		case "POST", "PUT":
			return rig.Do("http", j.method, j.target, []byte("{}"))
		}
		return rig.Do("http", j.method, j.target, nil)
	}

	history := func(rt *rapid.T, k *kit.Case, long bool) {
		opts := opts
		if long {
			opts.maxOutputs, opts.minRows, opts.relDepth = 2, 6, 1
		}
		w := drawWorld(rt, opts)
		jobs := drawJobs(rt, w)
		order := []int{}
		if long {
			seed := rapid.Uint64Range(1, 1<<60).Draw(rt, "seed")
			for i := rapid.IntRange(300, 1500).Draw(rt, "length"); i > 0; i-- {
				seed ^= seed << 13
				seed ^= seed >> 7
				seed ^= seed << 17
				order = append(order, int(seed%uint64(len(jobs))))
			}
			k.LabelIf(len(order) > 1000, "more than 1000 requests")
		} else {
			order = rapid.SliceOfN(rapid.IntRange(0, len(jobs)-1), 5, 40).Draw(rt, "order")
		}

		rig := kit.MustStart(rt, w.config(), w.files())
		defer rig.Close()
		before := readFiles(rig.Dir)
		statuses := map[int]bool{}
		answers := make([]kit.Resp, len(order))
		for i, j := range order {
			answers[i] = ask(rig, jobs[j])
			statuses[answers[i].Status] = true
		}
		if err := sameFiles(before, readFiles(rig.Dir)); err != nil {
			rt.Fatalf("after requests: %v", err)
		}
		fresh := kit.MustStart(rt, w.config(), w.files())
		defer fresh.Close()
		alone := map[int]kit.Resp{}
		for i := len(jobs) - 1; i >= 0; i-- {
			alone[i] = ask(fresh, jobs[i])
		}
		for i, j := range order {
			if err := sameAnswer(alone[j], answers[i]); err != nil {
				rt.Fatalf("%v %v, after %d requests: %v", jobs[j].method, jobs[j].target, i, err)
			}
			if jobs[j].out != nil {
				if err := w.check(answers[i], jobs[j].out, jobs[j].values); err != nil {
					rt.Fatalf("GET %v, after %d requests: %v", jobs[j].target, i, err)
				}
			}
		}
		for s := range statuses {
			k.Label(fmt.Sprintf("status %d", s))
		}
		if len(statuses) > 1 || len(order) >= 10 {
			targets := []string{}
			for _, j := range order {
				targets = append(targets, strings.TrimSpace(jobs[j].method+" "+jobs[j].target))
			}
			k.Nontrivial(w.String(), fmt.Sprint(targets))
			k.Sample(fmt.Sprintf("%vrequests %q", w, targets[:min(len(targets), 40)]))
		}
	}
	c.Prop("history", 250, 6000, func(rt *rapid.T, k *kit.Case) { history(rt, k, false) })

	// Hundreds of requests to one instance.
	c.Prop("long history", 8, 400, func(rt *rapid.T, k *kit.Case) { history(rt, k, true) })

	// Thousands of requests to two outputs, through indexes of all kinds.
	c.Prop("thousands of requests", 6, 150, func(rt *rapid.T, k *kit.Case) {
		rows := rapid.IntRange(12, 40).Draw(rt, "rows")
		groups := rapid.IntRange(1, 4).Draw(rt, "groups")
		def := rapid.IntRange(1, 6).Draw(rt, "default")
		most := rapid.IntRange(def, 60).Draw(rt, "max")
		limited := rapid.IntRange(0, 3).Draw(rt, "relationshipLimit")
		dsn := dsns().Draw(rt, "dsn")
		var b strings.Builder
		for i := 0; i < rows; i++ {
			fmt.Fprintf(&b, "%d,g%d,word%d\n", i, i%groups, i%groups)
		}
		index := func(name, kind string, more ...kit.KV) kit.O {
			return append(kit.O{{"name", name}, {"type", kind}, {"input", "in"}}, more...)
		}
		children := kit.O{{"input", "in"}, {"isArray", true}, {"limit", limited}, {"match", kit.L{kit.O{{"parentProperty", "g"}, {"childProperty", "g"}, {"childIndex", rapid.SampledFrom([]string{"m", "s"}).Draw(rt, "childIndex")}}}}}
		parameters := []struct{ name, index, property, prefix string }{{"m", "m", "g", "g"}, {"s", "s", "g", "g"}, {"w", "w", "t", "ORD"}, {"f", "f", "match", "word"}, {"d", "default", "g", "g"}}
		params := kit.O{}
		for _, p := range parameters {
			conf := kit.O{{"property", p.property}}
			if p.index != "default" {
				conf = append(conf, kit.KV{K: "index", V: p.index})
			}
			params = append(params, kit.KV{K: p.name, V: conf})
		}
		rig := kit.MustStart(rt, kit.O{
			{"inputs", kit.L{kit.O{{"name", "in"}, {"type", "csv"}, {"path", "@DIR@/in.csv"}, {"columns", kit.L{kit.O{{"name", "i"}, {"parser", "integer"}}, kit.O{{"name", "g"}}, kit.O{{"name", "t"}}}}}}},
			{"indexes", kit.L{
				index("m", "map", kit.KV{K: "properties", V: kit.L{"g"}}),
				index("s", "sqlite", kit.KV{K: "dsn", V: dsn}, kit.KV{K: "properties", V: kit.L{kit.O{{"name", "g"}}, kit.O{{"name", "i"}}}}),
				index("w", "wildcard", kit.KV{K: "path", V: "@DIR@/w"}, kit.KV{K: "ignoreCase", V: true}, kit.KV{K: "properties", V: kit.L{"t"}}),
				index("f", "fts5", kit.KV{K: "dsn", V: dsn}, kit.KV{K: "properties", V: kit.L{"t"}}),
			}},
			{"outputs", kit.L{
				kit.O{{"name", "list"}, {"type", "jsonArray"}, {"input", "in"}, {"limit", kit.O{{"default", def}, {"max", most}}}, {"parameters", params}, {"relationships", kit.O{{"r", children}}}},
				kit.O{{"name", "one"}, {"type", "jsonObject"}, {"input", "in"}, {"parameters", kit.O{{"id", kit.O{{"property", "i"}, {"index", "s"}, {"parser", "integer"}}}}}, {"relationships", kit.O{{"r", children}}}},
			}},
			{"services", kit.L{kit.O{{"name", "http"}, {"type", "http"}, {"http", kit.O{}}, {"routes", kit.L{kit.O{{"path", "/list"}, {"output", "list"}}, kit.O{{"path", "/one/{id}"}, {"output", "one"}}}}}}},
		}, kit.Files{"in.csv": []byte(b.String())})
		defer rig.Close()
		record := func(i int) map[string]interface{} {
			return map[string]interface{}{"i": i, "g": fmt.Sprintf("g%d", i%groups), "t": fmt.Sprintf("word%d", i%groups)}
		}
		withRelated := func(i int) interface{} {
			r := record(i)
			list := []interface{}{}
			for j := i % groups; j < rows && (limited == 0 || len(list) < limited); j += groups {
				list = append(list, record(j))
			}
			r["r"] = list
			return r
		}
		seed := rapid.Uint64Range(1, 1<<60).Draw(rt, "seed")
		next := func(n int) int {
			seed ^= seed << 13
			seed ^= seed >> 7
			seed ^= seed << 17
			return int(seed % uint64(n))
		}
		length := rapid.IntRange(1200, 2500).Draw(rt, "length")
		for q := 0; q < length; q++ {
			var target string
			var want interface{}
			status := 200
			if next(3) == 0 {
				id := next(rows + 3)
				target = fmt.Sprintf("/one/%d", id)
				if id < rows {
					want = withRelated(id)
				} else {
					status = 404
				}
			} else {
				query := url.Values{}
				limit, offset, group := def, 0, -1
				if next(2) == 0 {
					limit = 1 + next(70)
					query.Set("limit", strconv.Itoa(limit))
				}
				if next(2) == 0 {
					offset = next(rows + 4)
					query.Set("offset", strconv.Itoa(offset))
				}
				for n := next(3); n > 0; n-- {
					p := parameters[next(len(parameters))]
					if group == -1 {
						group = next(groups + 1)
					}
					query.Set(p.name, p.prefix+strconv.Itoa(group))
				}
				list := []interface{}{}
				skipped := 0
				for i := 0; i < rows && len(list) < min(limit, most); i++ {
					if group != -1 && i%groups != group {
						continue
					}
					if skipped < offset {
						skipped++
						continue
					}
					list = append(list, withRelated(i))
				}
				want = list
				target = "/list?" + query.Encode()
			}
			resp := rig.Get(target)
			got, err := answered(resp, status)
			if err != nil {
				rt.Fatalf("GET %v, after %d requests: %v", target, q, err)
			}
			if status == 200 && !kit.SameJSON(got, kit.Expected(want)) {
				rt.Fatalf("GET %v, after %d requests: %v instead of %v", target, q, kit.Show(got), kit.Show(want))
			}
		}
		k.LabelIf(length > 2000, "more than 2000 requests")
		k.Nontrivial(length, rows, groups, def, most, limited, dsn, seed)
	})

	// Different requests whose parameters look alike once they are put together.
	c.Prop("similar requests", 150, 4000, func(rt *rapid.T, k *kit.Case) {
		marks := []string{"", "x", "y", "x y", "&", "=", ":", ",", "/", " ", "\x00", "\n", "|", ";", "\"", "map[", "]"}
		names := []string{"a", "b", "c", "ab"}[:rapid.IntRange(2, 4).Draw(rt, "parameters")]
		d := &kit.Dataset{Kind: "json"}
		params, out := kit.O{}, &wOutput{name: "out0", array: rapid.IntRange(0, 3).Draw(rt, "array") > 0, input: "in0", def: 100, max: 1000, limit: "limit", offset: "offset", path: "/out0"}
		for _, name := range names {
			d.Cols = append(d.Cols, kit.Col{Name: "c" + name, Type: kit.String})
			out.params = append(out.params, wParam{name, "default", "c" + name, "string"})
			params = append(params, kit.KV{K: name, V: kit.O{{"property", "c" + name}}})
		}
		// The values of one request, written one after the other, are also those of others cut elsewhere.
		type request map[string]string
		requests := []request{}
		joints := []struct{ pair, value string }{{" ", ":"}, {"&", "="}, {",", ":"}, {", ", ": "}, {"", ""}, {"|", "="}, {"/", "/"}, {"\n", "="}, {"\x00", "\x00"}, {";", "="}, {"-", "-"}, {"_", "_"}, {"\",\"", "\":\""}, {",", ","}, {":", ":"}}
		for i := rapid.IntRange(1, 3).Draw(rt, "families"); i > 0; i-- {
			j := rapid.SampledFrom(joints).Draw(rt, "joint")
			first := request{}
			for _, name := range names {
				first[name] = rapid.SampledFrom(marks).Draw(rt, "mark")
			}
			requests = append(requests, first)
			// The value of the first parameter takes what is written after it, with and without the names.
			for cut := 1; cut < len(names); cut++ {
				merged, plain := request{}, request{}
				for n, name := range names {
					switch {
					case n == 0:
						merged[name], plain[name] = first[name], first[name]
					case n <= cut:
						merged[names[0]] += j.pair + name + j.value + first[name]
						plain[names[0]] += j.pair + first[name]
					default:
						merged[name], plain[name] = first[name], first[name]
					}
				}
				requests = append(requests, merged, plain)
			}
			// The same values for other parameters.
			turned := request{}
			for n, name := range names {
				turned[names[(n+1)%len(names)]] = first[name]
			}
			requests = append(requests, turned)
			// A boundary moves.
			moved := request{}
			for n, name := range names {
				moved[name] = first[name]
				if n == 0 {
					moved[name] += "x"
				}
			}
			back := request{}
			for n, name := range names {
				back[name] = first[name]
				if n == 1 {
					back[name] = "x" + back[name]
				}
			}
			requests = append(requests, moved, back)
		}
		for i, r := range requests {
			if i%4 == 3 && rapid.Bool().Draw(rt, "without record") {
				continue
			}
			row := kit.Row{}
			for _, name := range names {
				row["c"+name] = r[name]
			}
			d.Rows = append(d.Rows, row)
		}
		w := &world{}
		conf, data := d.Render(rt, "in0", "in0.data")
		w.inputs = append(w.inputs, &wInput{"in0", d, conf, data})
		typ := "jsonObject"
		if out.array {
			typ = "jsonArray"
		}
		out.conf = kit.O{{"name", "out0"}, {"type", typ}, {"input", "in0"}, {"parameters", params}}
		w.outputs = append(w.outputs, out)
		rig := kit.MustStart(rt, w.config(), w.files())
		defer rig.Close()
		targets := []string{}
		for _, i := range rapid.SliceOfN(rapid.IntRange(0, len(requests)*len(requests)-1), 6, 30).Draw(rt, "order") {
			// Pairs of requests in a row.
			for _, r := range []request{requests[i%len(requests)], requests[i/len(requests)]} {
				values, query := []wantValue{}, url.Values{}
				for _, p := range out.params {
					if v, given := r[p.name]; given || !out.array {
						values = append(values, wantValue{p, v})
						query.Set(p.name, v)
					}
				}
				target := "/out0?" + query.Encode()
				targets = append(targets, target)
				if err := w.check(rig.Get(target), out, values); err != nil {
					rt.Fatalf("GET %v, after the requests %q: %v", target, targets[:len(targets)-1], err)
				}
			}
		}
		k.Nontrivial(w.String(), fmt.Sprint(targets))
		k.Sample(fmt.Sprintf("%vrequests %q", w, targets))
	})

	// Without the garbage collector, which closes the forgotten files at some point.
	c.Prop("resources", 60, 1500, func(rt *rapid.T, k *kit.Case) {
		opts := opts
		opts.relDepth, opts.maxRows = 1, 10
		w := drawWorld(rt, opts)
		jobs := drawJobs(rt, w)
		repeat := rapid.IntRange(25, 40).Draw(rt, "repeat")
		hangups := rapid.SliceOfN(rapid.IntRange(0, 2), 0, 2).Draw(rt, "hangups")
		rig := kit.MustStart(rt, w.config(), w.files())
		defer rig.Close()
		before := readFiles(rig.Dir)
		base := rig.Address("http")
		round := func() {
			for _, j := range jobs {
				ask(rig, j)
			}
			for _, h := range hangups {
				if err := hangUp(base, jobs[0].target, h); err != nil {
					rt.Fatal(err)
				}
			}
		}
		round()
		const slack = 12
		runtime.GC()
		runtime.GC()
		time.Sleep(5 * time.Millisecond)
		percent := debug.SetGCPercent(-1)
		defer debug.SetGCPercent(percent)
		files, filesBefore := openFiles()
		routines := runtime.NumGoroutine()
		for i := 0; i < repeat; i++ {
			round()
		}
		// The connections that were hung up may still be closing.
		deadline := time.Now().Add(5 * time.Second)
		var filesAfter string
		for {
			n, list := openFiles()
			if n <= files+slack && runtime.NumGoroutine() <= routines+slack {
				break
			}
			filesAfter = list
			if time.Now().After(deadline) {
				all := make([]byte, 1<<20)
				all = all[:runtime.Stack(all, true)]
				if len(all) > 6000 {
					all = all[:6000]
				}
				targets := []string{}
				for _, j := range jobs {
					targets = append(targets, j.target)
				}
				rt.Fatalf("after %d times the requests %q (and %d interrupted ones), there are %d open files instead of %d and %d goroutines instead of %d\nfiles before: %v\nfiles after: %v\ngoroutines:\n%s", repeat, targets, len(hangups), n, files, runtime.NumGoroutine(), routines, filesBefore, filesAfter, all)
			}
			time.Sleep(5 * time.Millisecond)
		}
		if err := sameFiles(before, readFiles(rig.Dir)); err != nil {
			rt.Fatalf("after requests: %v", err)
		}
		k.LabelIf(len(hangups) > 0, "interrupted requests")
		for _, out := range w.outputs {
			for _, p := range out.params {
				if index := w.index(p.index); index != nil {
					k.Label("index " + index.kind)
				} else {
					k.Label("index default")
				}
			}
		}
		k.Nontrivial(w.String(), fmt.Sprint(jobs), fmt.Sprint(repeat))
		k.Sample(fmt.Sprintf("%v%d times %d requests, the first one is %v", w, repeat, len(jobs), jobs[0].target))
	})
}
