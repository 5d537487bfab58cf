package checks

import (
	"bytes"
	"fmt"
	"net/url"
	"sync"
	"testing"

	"golang.org/x/text/encoding/japanese"
	"pgregory.net/rapid"
	"rodbverif/kit"
)

// addEncoded adds an input in a charset whose decoding has a state, with a list over it.
func (w *world) addEncoded(rt *rapid.T) (*wOutput, []string) {
	texts := rapid.SliceOfN(rapid.SampledFrom([]string{"日本", "日", "本", "abc", "a日b", "カ", "日本日本日本", ""}), 2, 20).Draw(rt, "encodedRows")
	d := &kit.Dataset{Kind: "csv", Cols: []kit.Col{{Name: "t", Type: kit.String}, {Name: "u", Type: kit.String}}}
	var data bytes.Buffer
	encode := func(s string) string {
		e, err := japanese.ISO2022JP.NewEncoder().String(s)
		kit.Must(err)
		return e
	}
	for _, s := range texts {
		// The bytes of the charset are printable ASCII: quote them all.
		d.Rows = append(d.Rows, kit.Row{"t": s, "u": s})
		q := kit.CSVField(encode(s), ",", true, true)
		fmt.Fprintf(&data, "%s,%s\n", q, q)
	}
	w.parsers = append(w.parsers, kit.O{{"name", "jis"}, {"type", "string"}, {"convertFromCharset", "ISO-2022-JP"}})
	conf := kit.O{{"name", "encoded"}, {"type", "csv"}, {"path", "@DIR@/encoded.data"}, {"dieOnInputChange", false}, {"columns", kit.L{kit.O{{"name", "t"}, {"parser", "jis"}}, kit.O{{"name", "u"}, {"parser", "jis"}}}}}
	w.inputs = append(w.inputs, &wInput{"encoded", d, conf, data.Bytes()})
	out := &wOutput{name: "outEncoded", array: true, input: "encoded", def: 100, limit: "limit", offset: "offset", path: "/outEncoded", params: []wParam{{"q", "default", "t", "jis"}},
		conf: kit.O{{"name", "outEncoded"}, {"type", "jsonArray"}, {"input", "encoded"}, {"parameters", kit.O{{"q", kit.O{{"property", "t"}, {"parser", "jis"}}}}}}}
	w.outputs = append(w.outputs, out)
	targets := []string{"/outEncoded"}
	for i := 0; i < 3; i++ {
		targets = append(targets, "/outEncoded?q="+url.QueryEscape(encode(rapid.SampledFrom(texts).Draw(rt, "searched"))))
	}
	return out, targets
}

// addShared adds inputs that read the files of others, with lists over them.
func (w *world) addShared(rt *rapid.T) {
	for i := rapid.IntRange(0, 2).Draw(rt, "shared"); i > 0; i-- {
		of := rapid.SampledFrom(w.inputs).Draw(rt, "sharedInput")
		name := fmt.Sprint("shared", i)
		w.inputs = append(w.inputs, &wInput{name, of.d, of.conf.With("name", name), of.data})
		out := &wOutput{name: "out_" + name, array: true, input: name, def: 100, max: 1000, limit: "limit", offset: "offset", path: "/out_" + name,
			conf: kit.O{{"name", "out_" + name}, {"type", "jsonArray"}, {"input", name}}}
		w.outputs = append(w.outputs, out)
	}
}

// odd requests, which mostly fail
func oddTargets(rt *rapid.T, w *world) []string {
	targets := []string{}
	for i := rapid.IntRange(0, 4).Draw(rt, "odd"); i > 0; i-- {
		out := rapid.SampledFrom(w.outputs).Draw(rt, "output")
		target := out.route()
		if out.placeholder != "" && rapid.Bool().Draw(rt, "filled") {
			target += "/a"
		}
		target += "?"
		for _, p := range out.params {
			target += url.QueryEscape(p.name) + "=" + url.QueryEscape(rapid.SampledFrom([]string{"abc", "", "\"", "1", "true", "AND", "\x1b$B"}).Draw(rt, "oddText")) + "&"
		}
		target += rapid.SampledFrom([]string{"limit=x", "offset=-1", "", "limit=0", "offset=2", "limit=1&offset=1"}).Draw(rt, "oddPaging")
		targets = append(targets, target)
	}
	return targets
}

func sameAnswer(a, b kit.Resp) error {
	if a.Err != nil || b.Err != nil {
		if a.Err != nil && b.Err != nil {
			return fmt.Errorf("no answers: %v, %v", a.Err, b.Err)
		}
	}
	if err := b.WellFormed(); err != nil {
		return err
	}
	// When several parameters are invalid, any of their errors may be the one reported.
	if a.Status != b.Status || a.Type != b.Type || a.Status == 200 && !bytes.Equal(a.Body, b.Body) {
		return fmt.Errorf("%v instead of %v", b, a)
	}
	return nil
}

func TestC19(t *testing.T) {
	c := kit.Begin(t, "C19", "A case is one generated configuration (inputs and indexes of all kinds, relationships, a charset with a state) and 8 to 24 clients that send generated requests at the same time, under the race detector; each answer has to be the one of the model, or the one that a fresh instance gives to the request alone. Non-trivial: at least two clients request the same input at once; distinct by configuration and requests.")
	opts := worldOpts{minInputs: 1, maxInputs: 3, minOutputs: 2, maxOutputs: 4, indexKinds: allIndexes, maxRows: 16, arrays: true, objects: true, maxParams: 2, relDepth: 1, maxRels: 2, parsers: true, sorts: true, poolMax: 4}

	type job struct {
		target string
		out    *wOutput
		values []wantValue
		alone  *kit.Resp
	}
	c.Prop("concurrent requests", 100, 2500, func(rt *rapid.T, k *kit.Case) {
		w := drawWorld(rt, opts)
		jobs := []*job{}
		w.addShared(rt)
		_, encoded := w.addEncoded(rt)
		plain := w.outputs[:len(w.outputs)-1]
		for i := rapid.IntRange(4, 16).Draw(rt, "requests"); i > 0; i-- {
			out := rapid.SampledFrom(plain).Draw(rt, "output")
			values := w.drawValues(rt, out)
			jobs = append(jobs, &job{target: out.target(rt, values, nil), out: out, values: values})
		}
		for _, target := range append(encoded, oddTargets(rt, w)...) {
			jobs = append(jobs, &job{target: target})
		}
		clients := rapid.IntRange(8, 24).Draw(rt, "clients")
		order := make([][]int, clients)
		for i := range order {
			order[i] = rapid.SliceOfN(rapid.IntRange(0, len(jobs)-1), 4, 12).Draw(rt, "order")
			if i > 0 && rapid.IntRange(0, 2).Draw(rt, "same") == 0 {
				order[i] = order[i-1]
			}
		}
		// Alone, on another instance.
		first := rapid.Bool().Draw(rt, "aloneFirst")
		alone := func() {
			rig := kit.MustStart(rt, w.config(), w.files())
			defer rig.Close()
			for _, j := range jobs {
				resp := rig.Get(j.target)
				j.alone = &resp
			}
		}
		if first {
			alone()
		}
		rig := kit.MustStart(rt, w.config(), w.files())
		defer rig.Close()
		base := rig.Address("http")
		answers := make([][]kit.Resp, clients)
		var ready, done sync.WaitGroup
		start := make(chan struct{})
		for i := range order {
			ready.Add(1)
			done.Add(1)
			go func(i int) {
				defer done.Done()
				ready.Done()
				<-start
				for _, j := range order[i] {
					answers[i] = append(answers[i], rig.DoAt(base, "GET", jobs[j].target, nil))
				}
			}(i)
		}
		ready.Wait()
		current := w.String()
		for i := range order {
			for _, j := range order[i] {
				current += fmt.Sprintf("client %d: GET %v\n", i, jobs[j].target)
			}
		}
		kit.Current(current)
		close(start)
		done.Wait()
		if !first {
			alone()
		}
		used := map[string]int{}
		for i := range order {
			seen := map[string]bool{}
			for n, j := range order[i] {
				job := jobs[j]
				if err := sameAnswer(*job.alone, answers[i][n]); err != nil {
					rt.Fatalf("GET %v among %d clients: %v", job.target, clients, err)
				}
				if job.out != nil {
					if err := w.check(answers[i][n], job.out, job.values); err != nil {
						rt.Fatalf("GET %v among %d clients: %v", job.target, clients, err)
					}
					if !seen[job.out.input] {
						used[job.out.input]++
					}
					seen[job.out.input] = true
				}
				k.Label(fmt.Sprintf("status %d", job.alone.Status))
			}
		}
		for _, n := range used {
			if n > 1 {
				k.Nontrivial(w.String(), fmt.Sprint(order))
				k.Sample(fmt.Sprintf("%vclients send %v of %d requests, the first one is %v", w, order, len(jobs), jobs[0].target))
			}
		}
	})
}
