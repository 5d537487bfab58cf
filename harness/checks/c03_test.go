package checks

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"
	"rodbverif/kit"
)

// readDocuments reads a file of JSON documents in every way, and compares the records to the documents.
func readDocuments(rt *rapid.T, data string, want []map[string]interface{}, bad bool, tail string) {
	conf := kit.O{{"name", "in"}, {"type", "json"}, {"path", "@DIR@/in.json"}, {"dieOnInputChange", false}}
	rig := kit.MustStart(rt, kit.O{{"inputs", kit.L{conf}}}, kit.Files{"in.json": []byte(data)})
	defer rig.Close()
	in := rig.Inputs["in"]
	check := func(i int, all map[string]interface{}, err error) {
		if err != nil || !kit.SameValue(all, want[i]) {
			rt.Fatalf("document %d is %v, %v instead of %v", i, clippedText(kit.Show(all)), err, clippedText(kit.Show(want[i])))
		}
	}
	// Reading one by one: an error must not take the records before it away.
	next, end, err := in.IterateAll()
	if err != nil {
		rt.Fatalf("IterateAll: %v", err)
	}
	defer func() { failOn(rt, end()) }()
	var at []int64
	for i := 0; ; i++ {
		r, err := next()
		if err != nil {
			if !bad {
				rt.Fatalf("document %d: %v", i, err)
			}
			if i != len(want) {
				rt.Fatalf("the error comes after %d records instead of %d: %v", i, len(want), err)
			}
			break
		}
		if r == nil {
			if bad {
				rt.Fatalf("%q after %d documents is not reported as an error", tail, len(want))
			}
			if i != len(want) {
				rt.Fatalf("%d records for %d documents", i, len(want))
			}
			break
		}
		if i >= len(want) {
			all, _ := r.All()
			rt.Fatalf("more records than the %d documents: %v", len(want), kit.Show(all))
		}
		all, err := r.All()
		check(i, all, err)
		for key, v := range want[i] {
			if key != "" && !strings.Contains(key, ".") {
				got, err := r.Get(key)
				if err != nil || !kit.SameValue(got, v) {
					rt.Fatalf("document %d: member %q is %v, %v instead of %v", i, key, clippedText(kit.Show(got)), err, clippedText(kit.Show(v)))
				}
			}
		}
		if len(at) > 0 && r.Position() <= at[len(at)-1] {
			rt.Fatalf("document %d is at position %d after %d", i, r.Position(), at[len(at)-1])
		}
		at = append(at, r.Position())
	}
	for i := len(at) - 1; i >= 0; i-- {
		r, err := in.Get(at[i])
		if err != nil {
			rt.Fatalf("fetching document %d: %v", i, err)
		}
		all, err := r.All()
		check(i, all, err)
	}
}

func TestC03(t *testing.T) {
	c := kit.Begin(t, "C03", "A case is one JSON file of generated documents in a generated layout, some followed by an invalid or non-object document, read completely. Non-trivial: at least two documents, of which one has a nested value or the layout is irregular; distinct by content.")
	gaps := []string{"", "\n", " ", "\t", "\r\n", "\n\n  ", strings.Repeat(" ", 511), strings.Repeat("\n", 513), strings.Repeat(" \t\r\n", 300)}
	// What can follow complete documents without being a JSON object. Each begins
	// in a way that cannot be the continuation of what precedes it.
	invalid := []string{"[]", "[{}]", "1", "-2.5", "\"text\"", "true", "false", "null", "[1, 2", "]", "}", ",", ":", "{", "{\"a\"", "{\"a\":", "{\"a\": 1", "{\"a\": 1,}", "{a: 1}", "{'a': 1}", "{\"a\" 1}", "{\"a\": tru}", "nul", "\"open", "{\"a\": 01}", "{\"a\": \"\n\"}", "{\"a\": 1]", "// x", "x", "\x00", "{\"a\": \"\\x\"}", "{\"a\": .5}", "{\"a\": +1}", "{\"a\": NaN}"}
	c.Prop("documents", 1600, 50000, func(rt *rapid.T, k *kit.Case) {
		n := rapid.IntRange(0, 8).Draw(rt, "documents")
		var b strings.Builder
		b.WriteString(rapid.SampledFrom([]string{"", "\n", "  ", "\t\r\n"}).Draw(rt, "leading"))
		want := []map[string]interface{}{}
		nested := false
		irregular := false
		for i := 0; i < n; i++ {
			m := kit.JSONObject(rapid.IntRange(0, 3).Draw(rt, "depth"), 5).Draw(rt, "document")
			switch rapid.IntRange(0, 11).Draw(rt, "special") {
			case 0:
				m["long"] = strings.Repeat(rapid.SampledFrom([]string{"x", "é\"", "{\"a\": 1}\n", "]}"}).Draw(rt, "unit"), rapid.SampledFrom([]int{100, 511, 512, 1024, 5000}).Draw(rt, "size"))
			case 1:
				deep := interface{}("bottom")
				for d := rapid.IntRange(5, 60).Draw(rt, "levels"); d > 0; d-- {
					if d%2 == 0 {
						deep = []interface{}{deep}
					} else {
						deep = map[string]interface{}{"d": deep}
					}
				}
				m["deep"] = deep
			}
			for _, v := range m {
				switch v.(type) {
				case map[string]interface{}, []interface{}:
					nested = true
				}
			}
			want = append(want, m)
			b.WriteString(kit.JSONText(rt, m))
			gap := rapid.SampledFrom(gaps).Draw(rt, "gap")
			irregular = irregular || gap != "\n"
			b.WriteString(gap)
		}
		bad := rapid.IntRange(0, 3).Draw(rt, "bad") == 0
		tail := ""
		if bad {
			tail = rapid.SampledFrom(invalid).Draw(rt, "invalid")
			b.WriteString(tail)
			if rapid.Bool().Draw(rt, "after") {
				b.WriteString("\n{\"after\": 1}\n")
			}
		}
		readDocuments(rt, b.String(), want, bad, tail)
		k.LabelIf(bad, "with an invalid document")
		k.LabelIf(n == 0, "no documents")
		k.LabelIf(nested, "nested")
		if n > 1 && (nested || irregular) {
			k.Nontrivial(b.String())
			k.Sample(fmt.Sprintf("%q", b.String()))
		}
	})

	// Documents of up to some megabytes between small ones.
	c.Prop("large documents", 15, 400, func(rt *rapid.T, k *kit.Case) {
		size := rapid.SampledFrom([]int{60, 70, 130, 300, 600, 1100, 2200}).Draw(rt, "kilobytes")*1024 + rapid.IntRange(-2, 2).Draw(rt, "more")
		large := map[string]interface{}{}
		kind := rapid.SampledFrom([]string{"text", "array", "members", "documents"}).Draw(rt, "kind")
		switch kind {
		case "text":
			unit := rapid.SampledFrom([]string{"x", "é\"", "{\"a\": 1}\n", "]}"}).Draw(rt, "unit")
			large["text"] = strings.Repeat(unit, size/len(unit))
		case "array":
			items := []interface{}{}
			for i := 0; i < size/40; i++ {
				items = append(items, map[string]interface{}{"n": float64(i), "text": "some text"})
			}
			large["items"] = items
		case "members":
			for i := 0; i < size/20; i++ {
				large[fmt.Sprint("member", i)] = float64(i)
			}
		}
		want := []map[string]interface{}{}
		b := strings.Builder{}
		add := func(m map[string]interface{}) {
			text, err := json.Marshal(m)
			kit.Must(err)
			want = append(want, m)
			b.Write(text)
			b.WriteString(rapid.SampledFrom(gaps).Draw(rt, "gap"))
		}
		for i := rapid.IntRange(0, 3).Draw(rt, "before"); i > 0; i-- {
			add(map[string]interface{}{"before": float64(i)})
		}
		if kind == "documents" {
			for i := 0; i < size/200; i++ {
				m := map[string]interface{}{"n": float64(i), "text": strings.Repeat("t", i%100)}
				text, err := json.Marshal(m)
				kit.Must(err)
				want = append(want, m)
				b.Write(text)
				b.WriteString(gaps[i%3])
			}
		} else {
			add(large)
		}
		for i := rapid.IntRange(1, 3).Draw(rt, "after"); i > 0; i-- {
			add(map[string]interface{}{"after": float64(i)})
		}
		bad := rapid.IntRange(0, 3).Draw(rt, "bad") == 0
		tail := ""
		if bad {
			tail = rapid.SampledFrom(invalid).Draw(rt, "invalid")
			b.WriteString(tail)
		}
		readDocuments(rt, b.String(), want, bad, tail)
		k.Label("large " + kind)
		k.LabelIf(size > 1<<20, "more than 1 MB")
		k.Nontrivial(kind, size, len(want), b.Len(), tail)
		k.Sample(fmt.Sprintf("%d documents, %d bytes, large %v", len(want), b.Len(), kind))
	})
}
