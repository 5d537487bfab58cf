package checks

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	"rodbverif/kit"
)

// rawRequest writes a request on a connection and reads the answer.
func rawRequest(conn net.Conn, reader *bufio.Reader, method string, request []byte) (kit.Resp, bool) {
	kit.Must(conn.SetDeadline(time.Now().Add(60 * time.Second)))
	if _, err := conn.Write(request); err != nil {
		return kit.Resp{Err: err}, false
	}
	for {
		res, err := http.ReadResponse(reader, &http.Request{Method: method})
		if err != nil {
			return kit.Resp{Err: err}, false
		}
		if res.StatusCode == 100 {
			continue
		}
		data, err := io.ReadAll(res.Body)
		if err != nil {
			return kit.Resp{Status: res.StatusCode, Err: fmt.Errorf("incomplete body: %w", err)}, false
		}
		return kit.Resp{Status: res.StatusCode, Type: res.Header.Get("Content-Type"), Body: data}, !res.Close
	}
}

func drawPathChars() *rapid.Generator[string] {
	return rapid.StringOfN(rapid.SampledFrom([]rune("/ab0.%-_~:@!$&'()*+,;={}[]|^\\\"<>`é あ\x01")), 0, 12, -1)
}

// rawPath makes a valid request target out of any text.
func rawPath(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c <= ' ' || c >= 0x7f || c == '%' || c == '?' || c == '#' {
			fmt.Fprintf(&b, "%%%02x", c)
		} else {
			b.WriteByte(c)
		}
	}
	return b.String()
}

func TestC18(t *testing.T) {
	c := kit.Begin(t, "C18", "A case is one generated configuration and a sequence of requests on raw connections (any method, path, query, headers and body; invalid parameters; values or files that cannot be read), each of which has to get one complete JSON document with the right status; requests with an expected answer are mixed in and compared with the model. Non-trivial: a request other than a plain valid one got its answer, and a valid request after it the right one; distinct by configuration and request.")
	opts := worldOpts{minInputs: 1, maxInputs: 2, minOutputs: 1, maxOutputs: 3, indexKinds: allIndexes, maxRows: 8, arrays: true, objects: true, maxParams: 3, relDepth: 1, maxRels: 1, parsers: true, paging: true, poolMax: 3}

	slow := startSlowClients(t)
	defer slow.end()

	c.Prop("requests", 1200, 40000, func(rt *rapid.T, k *kit.Case) {
		w := drawWorld(rt, opts)
		rig := kit.MustStart(rt, w.config(), w.files())
		defer rig.Close()
		host := strings.TrimPrefix(rig.Address("http"), "http://")
		var conn net.Conn
		var reader *bufio.Reader
		defer func() {
			if conn != nil {
				conn.Close()
			}
		}()
		odd := ""
		for q := rapid.IntRange(3, 12).Draw(rt, "requests"); q > 0; q-- {
			out := rapid.SampledFrom(w.outputs).Draw(rt, "output")
			values := w.drawValues(rt, out)
			target := out.target(rt, values, nil)
			method := "GET"
			var check func(resp kit.Resp) error
			kind := rapid.SampledFrom([]string{"valid", "valid", "method", "path", "query", "value", "paging", "nothing"}).Draw(rt, "kind")
			status := func(wanted ...int) func(resp kit.Resp) error {
				return func(resp kit.Resp) error {
					if err := resp.WellFormed(); err != nil {
						return err
					}
					for _, s := range wanted {
						if resp.Status == s {
							return nil
						}
					}
					return fmt.Errorf("answer %v instead of status %v", resp, wanted)
				}
			}
			switch kind {
			case "valid":
				check = func(resp kit.Resp) error { return w.check(resp, out, values) }
			case "method":
				method = rapid.SampledFrom([]string{"POST", "PUT", "DELETE", "PATCH", "OPTIONS", "HEAD", "TRACE", "FOO", "get", "GETS", "M-SEARCH"}).Draw(rt, "method")
				check = status(404)
				if method == "HEAD" {
					check = func(resp kit.Resp) error {
						if resp.Err != nil || resp.Status != 404 || len(resp.Body) > 0 || !strings.HasPrefix(resp.Type, "application/json") {
							return fmt.Errorf("answer %v", resp)
						}
						return nil
					}
				}
			case "path":
				target = "/" + rawPath(drawPathChars().Draw(rt, "path"))
				if rapid.Bool().Draw(rt, "near") {
					target = "/" + out.name + target
				}
				check = status(404, 200, 500) // may be one of a placeholder
				if out.placeholder == "" && strings.HasPrefix(target, "/"+out.name+"/") {
					check = status(404)
				}
			case "query":
				join := rapid.SampledFrom([]string{"?", "?&"}).Draw(rt, "join")
				if strings.Contains(target, "?") {
					join = "&"
				}
				target += join + rapid.SampledFrom([]string{"%zz", "a=%", "=", "&&&", "a;b", ";", "%00=%00", "a=b=c", "q=%ff%fe", "x[]=1", "%E3%81%82", "?", "q", "limit", "offset=&limit=", "limit=%zz", strings.Repeat("a=b&", 2000), "a=" + strings.Repeat("%20x", 5000)}).Draw(rt, "oddQuery")
				check = status(200, 404, 500)
			case "value":
				if len(out.params) == 0 {
					check = func(resp kit.Resp) error { return w.check(resp, out, values) }
					break
				}
				p := rapid.SampledFrom(out.params).Draw(rt, "parameter")
				text := rapid.SampledFrom([]string{"", "abc", "\x00", "\xff", "\"", "NaN", "-Inf", "1e999", "9223372036854775808", "AND", "\"a", "a OR", "col:a", "*", "^", "NEAR(", "{x} : a", "' OR 1=1 --", "あ", "0x10", "null",
					strings.Repeat("9", 1500), strings.Repeat("é\"<", 900), strings.Repeat("(", 5000)}).Draw(rt, "oddText")
				path := "/" + out.name
				if out.placeholder != "" {
					path += "/" + url.PathEscape(text)
				}
				target = path + "?" + url.QueryEscape(p.name) + "=" + url.QueryEscape(text)
				check = status(200, 404, 500)
			case "paging":
				target = "/" + out.name
				if out.placeholder != "" {
					target += "/1"
				}
				bad := []string{"0", "-1", "x", "", "1.5", "99999999999999999999", "-9223372036854775808"}
				target += "?" + url.QueryEscape(out.offset) + "=" + url.QueryEscape(rapid.SampledFrom(bad[1:]).Draw(rt, "badOffset")) + "&" + url.QueryEscape(out.limit) + "=" + url.QueryEscape(rapid.SampledFrom(bad).Draw(rt, "badLimit"))
				check = status(404, 500)
				if !out.array {
					check = status(200, 404, 500)
				}
			case "nothing":
				target = rapid.SampledFrom([]string{"/", "/nothing", "//", "/favicon.ico", "/.", "/..", "/../../etc/passwd", "/" + strings.Repeat("a", 3000), "/" + strings.ToUpper(out.name), "/" + out.name + "%00", "/%2f" + out.name, "//" + out.name}).Draw(rt, "target")
				check = status(404)
			}
			// Headers and body.
			var b bytes.Buffer
			version := "1.1"
			if rapid.IntRange(0, 9).Draw(rt, "old") == 0 {
				version = "1.0"
			}
			fmt.Fprintf(&b, "%s %s HTTP/%s\r\n", method, target, version)
			if version == "1.1" || rapid.Bool().Draw(rt, "host") {
				fmt.Fprintf(&b, "Host: %s\r\n", rapid.SampledFrom([]string{host, "example.com", "", "[::1]:80"}).Draw(rt, "hostName"))
			}
			for h := rapid.IntRange(0, 3).Draw(rt, "headers"); h > 0; h-- {
				b.WriteString(rapid.SampledFrom([]string{"Accept: text/html", "Accept-Encoding: gzip", "Accept-Charset: utf-16", "Range: bytes=0-3", "If-None-Match: *", "If-Modified-Since: Thu, 01 Jan 2032 00:00:00 GMT", "Content-Type: application/json", "Content-Type: x", "X-HTTP-Method-Override: DELETE", "Origin: http://evil", "Authorization: Basic !!!", "Cookie: a=b; c", "Connection: close", "Connection: Upgrade", "Upgrade: h2c", "TE: trailers", "X-A: " + strings.Repeat("x", 5000), "Expect: 100-continue", "Max-Forwards: 0"}).Draw(rt, "header") + "\r\n")
			}
			// A body that the server does not read before it closes the
			// connection can make TCP drop the answer.
			closes := version == "1.0" || strings.Contains(b.String(), "\nConnection: close")
			switch body := rapid.IntRange(0, 2).Draw(rt, "body"); {
			case body == 0 && !closes:
				body := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "bytes")
				if rapid.IntRange(0, 5).Draw(rt, "long") == 0 {
					// Not more than the server reads before it closes the connection.
					size := rapid.SampledFrom([]int{5000, 6600, 12000, 25000}).Draw(rt, "tens of bytes")
					if strings.Contains(b.String(), "\nExpect:") {
						size = 100
					}
					body = bytes.Repeat([]byte("0123456789"), size)
				}
				if version == "1.1" && rapid.Bool().Draw(rt, "chunked") {
					fmt.Fprintf(&b, "Transfer-Encoding: chunked\r\n\r\n")
					if len(body) > 0 {
						fmt.Fprintf(&b, "%x\r\n%s\r\n", len(body), body)
					}
					b.WriteString("0\r\n\r\n")
				} else {
					fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", len(body), body)
				}
			default:
				b.WriteString("\r\n")
			}
			if conn == nil {
				var err error
				if conn, err = net.Dial("tcp", host); err != nil {
					rt.Fatalf("after %q, no connection: %v", odd, err)
				}
				reader = bufio.NewReader(conn)
			}
			resp, keep := rawRequest(conn, reader, method, b.Bytes())
			if err := check(resp); err != nil {
				rt.Fatalf("%q (%v, matching rows %v): %v", b.String(), kind, w.rows(out, values), err)
			}
			k.Label(fmt.Sprintf("%v: status %d", kind, resp.Status))
			if kind == "valid" && odd != "" {
				k.Nontrivial(w.String(), odd)
				k.Sample(fmt.Sprintf("%vafter %q, GET %v", w, odd, target))
				odd = ""
			} else if kind != "valid" {
				odd = b.String()
			}
			if !keep {
				conn.Close()
				conn = nil
			}
		}
	})

	// Records that cannot be read, or written as JSON.
	c.Prop("unusable records", 1000, 30000, func(rt *rapid.T, k *kit.Case) {
		kind := rapid.SampledFrom([]string{"csv", "xml", "json"}).Draw(rt, "kind")
		typ := rapid.SampledFrom([]string{"float", "float", "integer", "boolean"}).Draw(rt, "type")
		if kind == "json" {
			typ = "float"
		}
		d := &kit.Dataset{Kind: kind, Cols: []kit.Col{{Name: "s", Type: kit.String}, {Name: "n", Type: typ}}}
		bad := map[int]bool{}
		texts := []string{}
		for i := rapid.IntRange(1, 8).Draw(rt, "rows"); i > 0; i-- {
			n := len(d.Rows)
			v := kit.Values(typ, nil).Draw(rt, "n")
			s := rapid.SampledFrom([]string{"a", "b", "a\"b", "\u2028<&>"}).Draw(rt, "s")
			text := kit.Text(v)
			if kind != "json" && rapid.IntRange(0, 3).Draw(rt, "bad") == 0 {
				bad[n] = true
				texts := []string{"abc", "", "1_000", "truE", "--1", "1,5"}
				if typ == "float" {
					texts = []string{"abc", "NaN", "NaN", "Inf", "-Inf", "+Inf", "infinity", ""}
				}
				text = rapid.SampledFrom(texts).Draw(rt, "unusable")
			}
			d.Rows = append(d.Rows, kit.Row{"s": s, "n": v})
			texts = append(texts, text)
		}
		conf := kit.O{{"name", "in0"}, {"type", kind}, {"path", "@DIR@/in0.data"}, {"dieOnInputChange", false}}
		var data bytes.Buffer
		garbage := false
		switch kind {
		case "csv":
			conf = append(conf, kit.KV{K: "columns", V: kit.L{kit.O{{"name", "s"}}, kit.O{{"name", "n"}, {"parser", typ}}}})
			for i, row := range d.Rows {
				fmt.Fprintf(&data, "%s,%s\n", kit.CSVField(row["s"].(string), ",", false, true), kit.CSVField(texts[i], ",", true, false))
			}
		case "xml":
			conf = append(conf, kit.KV{K: "recordXpath", V: "/root/rec"}, kit.KV{K: "properties", V: kit.L{
				kit.O{{"name", "s"}, {"type", "primitive"}, {"parser", "string"}, {"xpath", "string(@s)"}},
				kit.O{{"name", "n"}, {"type", "primitive"}, {"parser", typ}, {"xpath", "string(@n)"}}}})
			data.WriteString("<root>")
			for i, row := range d.Rows {
				fmt.Fprintf(&data, "<rec s=\"%s\" n=\"%s\"/>", kit.XMLEscape(row["s"].(string)), texts[i])
			}
			data.WriteString("</root>")
		case "json":
			for _, row := range d.Rows {
				fmt.Fprintf(&data, "{\"s\":%q,\"n\":%v}\n", row["s"], row["n"])
			}
			if garbage = rapid.Bool().Draw(rt, "garbage"); garbage {
				data.WriteString(rapid.SampledFrom([]string{"]", "{\"s\":", "12", "[1]", "null", "nul", "{\"s\" \"n\"}", "{'s':1}", "\"", "\x00"}).Draw(rt, "garbageText"))
			}
		}
		w := &world{inputs: []*wInput{{"in0", d, conf, data.Bytes()}}}
		index := "default"
		if !garbage && rapid.Bool().Draw(rt, "indexed") {
			index = "m"
			w.indexes = append(w.indexes, &wIndex{name: "m", kind: "map", input: "in0", props: []string{"s"}, conf: kit.O{{"name", "m"}, {"type", "map"}, {"input", "in0"}, {"properties", kit.L{"s"}}}})
		}
		params := kit.O{{"q", kit.O{{"property", "s"}, {"index", index}}}}
		for i, typ := range []string{"jsonArray", "jsonObject", "jsonArray"} {
			out := &wOutput{name: fmt.Sprintf("out%d", i), array: typ == "jsonArray", input: "in0", def: 100, limit: "limit", offset: "offset", path: fmt.Sprintf("/out%d", i), params: []wParam{{"q", index, "s", "string"}},
				conf: kit.O{{"name", fmt.Sprintf("out%d", i)}, {"type", typ}, {"input", "in0"}, {"parameters", params}}}
			if i == 2 {
				out.rels = []*wRel{{name: "rel", input: "in0", array: true, match: []wMatch{{"s", "s", index}}, conf: kit.O{{"input", "in0"}, {"isArray", true}, {"match", kit.L{kit.O{{"parentProperty", "s"}, {"childProperty", "s"}, {"childIndex", index}}}}}}}
				out.conf = append(out.conf, kit.KV{K: "relationships", V: relConf(out.rels)})
			}
			w.outputs = append(w.outputs, out)
		}
		rig := kit.MustStart(rt, w.config(), w.files())
		defer rig.Close()
		for q := rapid.IntRange(2, 6).Draw(rt, "requests"); q > 0; q-- {
			out := rapid.SampledFrom(w.outputs).Draw(rt, "output")
			values := w.drawValues(rt, out)
			rows := w.rows(out, values)
			offset, limit := uint64(0), uint64(100)
			extra := url.Values{}
			if out.array && rapid.Bool().Draw(rt, "paged") {
				offset, limit = uint64(rapid.IntRange(0, 4).Draw(rt, "offset")), uint64(rapid.IntRange(1, 4).Draw(rt, "limit"))
				extra.Set("offset", fmt.Sprint(offset))
				extra.Set("limit", fmt.Sprint(limit))
			}
			target := out.target(rt, values, extra)
			resp := rig.Get(target)
			if err := resp.WellFormed(); err != nil {
				rt.Fatalf("GET %v: %v", target, err)
			}
			if !out.array {
				offset, limit = 0, 1
			}
			want := window(rows, offset, limit)
			unusable := false
			for _, i := range want {
				unusable = unusable || bad[i]
				if len(out.rels) > 0 {
					for j, row := range d.Rows {
						unusable = unusable || bad[j] && row["s"] == d.Rows[i]["s"]
					}
				}
			}
			// What is after the garbage has to be read when there are not enough records before.
			short := uint64(len(want)) < limit || len(out.rels) > 0 && len(want) > 0
			var err error
			switch {
			case unusable || garbage && short:
				_, err = answered(resp, 500)
				k.Nontrivial(w.String(), target)
				k.Sample(fmt.Sprintf("%vGET %v", w, target))
				k.Label("error")
			case garbage && resp.Status == 500:
			case out.array:
				err = w.checkList(resp, out, want)
				k.LabelIf(len(bad) > 0 || garbage, "data before or between unusable records")
			default:
				err = w.check(resp, out, values)
			}
			if err != nil {
				rt.Fatalf("GET %v (rows %v, unusable %v, garbage %v): %v", target, want, bad, garbage, err)
			}
		}
	})

	// Answers of several megabytes.
	c.Prop("large answers", 8, 80, func(rt *rapid.T, k *kit.Case) {
		total := rapid.SampledFrom([]int{300 << 10, 1100 << 10, 2100 << 10, 4300 << 10, 8500 << 10, 17 << 20}).Draw(rt, "total")
		n := rapid.SampledFrom([]int{1, 7, 90, 1500, 7000}).Draw(rt, "records")
		kind := rapid.SampledFrom([]string{"csv", "json"}).Draw(rt, "kind")
		unit := rapid.SampledFrom([]string{"abcdefgh", "é界\"<>&", "\\ "}).Draw(rt, "unit")
		d := &kit.Dataset{Kind: kind, Cols: []kit.Col{{Name: "n", Type: kit.Float}, {Name: "s", Type: kit.String}, {Name: "p", Type: kit.String}}}
		for i := 0; i < n; i++ {
			d.Rows = append(d.Rows, kit.Row{"n": float64(i), "s": strings.Repeat(unit, total/n/len(unit)+i%3), "p": "x"})
		}
		w := &world{}
		conf, data := d.Render(rt, "in0", "in0.data")
		w.inputs = append(w.inputs, &wInput{"in0", d, conf, data})
		parent := &kit.Dataset{Kind: "csv", Cols: []kit.Col{{Name: "p", Type: kit.String}}, Rows: []kit.Row{{"p": "x"}}}
		conf, data = parent.Render(rt, "in1", "in1.data")
		w.inputs = append(w.inputs, &wInput{"in1", parent, conf, data})
		list := &wOutput{name: "out0", array: true, input: "in0", def: 20000, max: 20000, limit: "limit", offset: "offset", path: "/out0",
			conf: kit.O{{"name", "out0"}, {"type", "jsonArray"}, {"input", "in0"}, {"limit", kit.O{{"default", 20000}, {"max", 20000}}}}}
		r := &wRel{name: "rel", input: "in0", array: true, match: []wMatch{{"p", "p", "default"}}}
		r.conf = kit.O{{"input", "in0"}, {"isArray", true}, {"match", kit.L{kit.O{{"parentProperty", "p"}, {"childProperty", "p"}}}}}
		object := &wOutput{name: "out1", input: "in1", rels: []*wRel{r}, path: "/out1", params: []wParam{{"p", "default", "p", "string"}},
			conf: kit.O{{"name", "out1"}, {"type", "jsonObject"}, {"input", "in1"}, {"parameters", kit.O{{"p", kit.O{{"property", "p"}}}}}, {"relationships", relConf([]*wRel{r})}}}
		w.outputs = append(w.outputs, list, object)
		rig := kit.MustStart(rt, w.config(), w.files())
		defer rig.Close()
		for i := 0; i < 2; i++ {
			if err := w.check(rig.Get("/out0"), list, nil); err != nil {
				rt.Fatalf("list of %d records, %d bytes: %v", n, total, clippedText(err.Error()))
			}
			if err := w.check(rig.Get("/out1?p=x"), object, []wantValue{{object.params[0], "x"}}); err != nil {
				rt.Fatalf("object with %d related records, %d bytes: %v", n, total, clippedText(err.Error()))
			}
			if _, err := answered(rig.Get("/out1?p=y"), 404); err != nil {
				rt.Fatal(err)
			}
		}
		k.LabelIf(total > 4<<20, "more than 4 megabytes")
		k.LabelIf(n > 5000, "thousands of records")
		k.Nontrivial(total, n, kind, unit)
	})

	// Input files that change, shrink or disappear while they are used.
	c.Prop("vanishing files", 150, 4000, func(rt *rapid.T, k *kit.Case) {
		w := drawWorld(rt, opts)
		rig := kit.MustStart(rt, w.config(), w.files())
		defer rig.Close()
		for q := rapid.IntRange(2, 4).Draw(rt, "changes"); q > 0; q-- {
			in := rapid.SampledFrom(w.inputs).Draw(rt, "input")
			path := filepath.Join(rig.Dir, in.name+".data")
			switch rapid.IntRange(0, 4).Draw(rt, "change") {
			case 0:
				os.Remove(path)
			case 1:
				kit.Must(os.WriteFile(path, nil, 0o644))
			case 2:
				kit.Must(os.WriteFile(path, in.data[:len(in.data)/2], 0o644))
			case 3:
				kit.Must(os.WriteFile(path, rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(rt, "garbage"), 0o644))
			case 4:
				kit.Must(os.WriteFile(path, append([]byte("x\n\"<{"), in.data...), 0o644))
			}
			for r := 0; r < 3; r++ {
				out := rapid.SampledFrom(w.outputs).Draw(rt, "output")
				target := out.target(rt, w.drawValues(rt, out), nil)
				resp := rig.Get(target)
				if err := resp.WellFormed(); err != nil {
					rt.Fatalf("GET %v: %v", target, err)
				}
				k.Label(fmt.Sprintf("status %d", resp.Status))
				if resp.Status == 500 {
					k.Nontrivial(w.String(), target)
				}
			}
			kit.Must(os.WriteFile(path, in.data, 0o644))
		}
	})

	// Relationships and filters whose values have no sense for the index.
	c.Enum("values of other types", func(t *testing.T, account func(*kit.Case)) {
		parents := []string{"null", "[1]", "[]", "{\"a\":1}", "{}", "\"x\"", "1.5", "true", "[[\"x\"]]", "1e308", "\"\"", "\"\\u0000\"", "\"a\\\" OR\""}
		data := ""
		for _, p := range parents {
			data += "{\"p\":" + p + ",\"o\":{\"k\":" + p + "}}\n"
		}
		inputs := kit.L{
			kit.O{{"name", "parents"}, {"type", "json"}, {"path", "@DIR@/parents.json"}, {"dieOnInputChange", false}},
			kit.O{{"name", "texts"}, {"type", "csv"}, {"path", "@DIR@/texts.csv"}, {"dieOnInputChange", false}, {"columns", kit.L{kit.O{{"name", "a"}}}}},
			kit.O{{"name", "numbers"}, {"type", "csv"}, {"path", "@DIR@/numbers.csv"}, {"dieOnInputChange", false}, {"columns", kit.L{kit.O{{"name", "a"}, {"parser", "integer"}}}}},
		}
		files := kit.Files{"parents.json": []byte(data), "texts.csv": []byte("x\n1.5\ntrue\n\n\"\"\n"), "numbers.csv": []byte("1\n2\n")}
		for _, child := range []string{"texts", "numbers", "parents"} {
			for _, index := range []string{"default", "map", "sqlite", "wildcard", "fts5"} {
				property := map[string]string{"texts": "a", "numbers": "a", "parents": "p"}[child]
				conf := kit.O{{"name", "i"}, {"type", index}, {"input", child}, {"properties", kit.L{property}}}
				switch index {
				case "sqlite":
					conf = conf.With("properties", kit.L{kit.O{{"name", property}}})
					conf = append(conf, kit.KV{K: "dsn", V: ":memory:"})
				case "fts5":
					conf = append(conf, kit.KV{K: "dsn", V: ":memory:"})
				case "wildcard":
					conf = append(conf, kit.KV{K: "path", V: "@DIR@/w"})
				case "default":
					conf = kit.O{{"name", "i"}, {"type", "noop"}}
				}
				searched := property
				if index == "fts5" {
					searched = "match"
				}
				rel := kit.O{{"r", kit.O{{"input", child}, {"isArray", true}, {"match", kit.L{kit.O{{"parentProperty", "p"}, {"childProperty", searched}, {"childIndex", "i"}}}}}}}
				rig, err := kit.Start(t, kit.O{{"inputs", inputs}, {"indexes", kit.L{conf}},
					{"outputs", kit.L{kit.O{{"name", "list"}, {"type", "jsonArray"}, {"input", "parents"}, {"relationships", rel}}}},
					{"services", kit.L{kit.O{{"name", "http"}, {"type", "http"}, {"http", kit.O{}}, {"routes", kit.L{kit.O{{"path", "/list"}, {"output", "list"}}}}}}}}, files)
				k := &kit.Case{}
				if err != nil {
					k.Label("not indexable")
					account(k)
					continue
				}
				func() {
					defer rig.Close()
					for i := range parents {
						target := fmt.Sprintf("/list?limit=1&offset=%d", i)
						resp := rig.Get(target)
						if err := resp.WellFormed(); err != nil {
							t.Fatalf("parent value %v, %v index of %v: %v", parents[i], index, child, err)
						}
						k.Label(fmt.Sprintf("status %d", resp.Status))
						k.Nontrivial(child, index, parents[i])
					}
					account(k)
				}()
			}
		}
	})

	// Clients that send their request, or read their answer, during many seconds.
	c.Enum("slow clients", func(t *testing.T, account func(*kit.Case)) {
		slow.finish(t, account)
	})
}

// slowClients are connections whose requests begin before the other cases of
// this check, and end after them.
type slowClients struct {
	rig   *kit.Rig
	start time.Time
	want  []byte
	list  []*slowClient
}

type slowClient struct {
	name   string
	method string
	rest   string // what is sent at the end
	status int
	conn   net.Conn
	first  []byte // what was read at the beginning
}

func startSlowClients(t *testing.T) *slowClients {
	s := &slowClients{start: time.Now()}
	filler := strings.Repeat("0123456789abcdef", 512)
	var data, want bytes.Buffer
	for i := 0; i < 3000; i++ {
		fmt.Fprintf(&data, "%d,%s\n", i, filler)
		fmt.Fprintf(&want, "%c{\"f\":\"%s\",\"i\":%d}", "[,"[min(i, 1)], filler, i)
	}
	want.WriteString("]\n")
	s.want = want.Bytes()
	s.rig = kit.MustStart(t, kit.O{
		{"inputs", kit.L{kit.O{{"name", "in"}, {"type", "csv"}, {"path", "@DIR@/in.csv"}, {"columns", kit.L{kit.O{{"name", "i"}, {"parser", "integer"}}, kit.O{{"name", "f"}}}}}}},
		{"outputs", kit.L{kit.O{{"name", "out"}, {"type", "jsonArray"}, {"input", "in"}, {"limit", kit.O{{"max", 10000}}}}}},
		{"services", kit.L{kit.O{{"name", "http"}, {"type", "http"}, {"http", kit.O{}}, {"routes", kit.L{kit.O{{"path", "/"}, {"output", "out"}}}}}}},
	}, kit.Files{"in.csv": data.Bytes()})
	host := strings.TrimPrefix(s.rig.Address("http"), "http://")
	for _, client := range []struct {
		name, method, begin, rest string
		status                    int
	}{
		{"reads slowly", "GET", "GET /?limit=3000 HTTP/1.1\r\nHost: localhost\r\n\r\n", "", 200},
		{"sends the first line slowly", "GET", "GET /?limit=30", "00 HTTP/1.1\r\nHost: localhost\r\n\r\n", 200},
		{"sends the headers slowly", "GET", "GET /?limit=3000 HTTP/1.1\r\nHost: localhost\r\nX-A", ": b\r\n\r\n", 200},
		{"sends the body slowly", "GET", "GET /?limit=3000 HTTP/1.1\r\nHost: localhost\r\nContent-Length: 4\r\n\r\nab", "cd", 200},
		{"sends the body of another method slowly", "POST", "POST / HTTP/1.1\r\nHost: localhost\r\nContent-Length: 4\r\n\r\nab", "cd", 404},
		{"sends parts of the body slowly", "GET", "GET /?limit=3000 HTTP/1.1\r\nHost: localhost\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nab\r\n", "0\r\n\r\n", 200},
	} {
		conn, err := (&net.Dialer{Control: func(_, _ string, raw syscall.RawConn) error {
			return raw.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 16384) })
		}}).Dial("tcp", host)
		failOn(t, err)
		_, err = io.WriteString(conn, client.begin)
		failOn(t, err)
		s.list = append(s.list, &slowClient{client.name, client.method, client.rest, client.status, conn, nil})
	}
	// Part of the answer is read immediately.
	first := make([]byte, 12)
	kit.Must(s.list[0].conn.SetDeadline(time.Now().Add(60 * time.Second)))
	n, err := io.ReadFull(s.list[0].conn, first)
	s.list[0].first = first[:n]
	if err != nil {
		t.Fatalf("a client that %v: no answer: %v", s.list[0].name, err)
	}
	return s
}

func (s *slowClients) finish(t *testing.T, account func(*kit.Case)) {
	wait := 20 * time.Second
	if kit.Thorough() {
		wait = 100 * time.Second
	}
	for len(s.list) > 0 && time.Since(s.start) < wait {
		time.Sleep(100 * time.Millisecond)
	}
	for _, client := range s.list {
		k := &kit.Case{}
		reader := bufio.NewReader(io.MultiReader(bytes.NewReader(client.first), client.conn))
		resp, _ := rawRequest(client.conn, reader, client.method, []byte(client.rest))
		err := resp.WellFormed()
		switch {
		case err != nil:
		case resp.Status != client.status:
			err = fmt.Errorf("status %v instead of %v", resp.Status, client.status)
		case client.status == 200 && !sameText(resp.Body, s.want):
			err = fmt.Errorf("another answer, of %v bytes instead of %v", len(resp.Body), len(s.want))
		}
		if err != nil {
			t.Fatalf("a client that %v, during at least %v: %v", client.name, wait, err)
		}
		k.Label("a client that " + client.name)
		k.Nontrivial(client.name)
		account(k)
	}
}

func (s *slowClients) end() {
	for _, client := range s.list {
		client.conn.Close()
	}
	s.rig.Close()
}
