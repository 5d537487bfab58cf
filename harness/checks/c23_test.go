package checks

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	"rodbverif/kit"
)

// A program is the real program, running in a scratch directory.
type program struct {
	cmd    *exec.Cmd
	output *syncBuffer
	ended  chan struct{}
	status error
	client *http.Client
}

type syncBuffer struct {
	sync.Mutex
	b bytes.Buffer
}

func (b *syncBuffer) Write(p []byte) (int, error) {
	b.Lock()
	defer b.Unlock()
	return b.b.Write(p)
}

func (b *syncBuffer) String() string {
	b.Lock()
	defer b.Unlock()
	return b.b.String()
}

func startProgram(dir string, args ...string) *program {
	p := &program{output: &syncBuffer{}, ended: make(chan struct{}), client: kit.NewClient()}
	p.cmd = exec.Command(os.Getenv("VERIF_PROGRAM"), args...)
	p.cmd.Dir = dir
	p.cmd.Stdout, p.cmd.Stderr = p.output, p.output
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	kit.Must(p.cmd.Start())
	go func() {
		p.status = p.cmd.Wait()
		close(p.ended)
	}()
	return p
}

func (p *program) kill() {
	p.cmd.Process.Kill()
	<-p.ended
	p.client.CloseIdleConnections()
}

// endsWithin tells whether the program ended.
func (p *program) endsWithin(d time.Duration) bool {
	select {
	case <-p.ended:
		return true
	case <-time.After(d):
		return false
	}
}

// code is the exit status of the ended program, or -1 when a signal ended it.
func (p *program) code() int { return p.cmd.ProcessState.ExitCode() }

func (p *program) crashed() bool {
	out := p.output.String()
	return strings.Contains(out, "\ngoroutine ") || strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:")
}

// What has to happen is waited for this long at most.
const patience = 60 * time.Second

func freeAddress() string {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	kit.Must(err)
	defer l.Close()
	return l.Addr().String()
}

// serve starts the program until its addresses accept connections. write gives the configuration for these addresses.
func serve(rt rapid.TB, dir string, count int, write func(addresses []string) string) (*program, []string) {
	for attempt := 0; ; attempt++ {
		addresses := []string{}
		for i := 0; i < count; i++ {
			addresses = append(addresses, freeAddress())
		}
		kit.WriteFile(filepath.Join(dir, "rodb.yaml"), []byte(strings.ReplaceAll(write(addresses), "@DIR@", dir)))
		p := startProgram(dir)
		deadline := time.Now().Add(patience)
		for _, a := range addresses {
			for {
				conn, err := net.Dial("tcp", a)
				if err == nil {
					conn.Close()
					break
				}
				if p.endsWithin(5 * time.Millisecond) {
					break
				}
				if time.Now().After(deadline) {
					p.kill()
					rt.Fatalf("the program does not listen to %v: %s", a, p.output)
				}
			}
		}
		if p.endsWithin(200 * time.Millisecond) { // it has to be ready for signals too
			if strings.Contains(p.output.String(), "address already in use") && attempt < 10 {
				continue
			}
			p.kill()
			rt.Fatalf("the program ended while starting (%v): %s", p.status, p.output)
		}
		return p, addresses
	}
}

// interrupted ends the program with a signal and checks its exit status.
func (p *program) interrupted(rt *rapid.T) {
	failOn(rt, p.cmd.Process.Signal(os.Interrupt)) // fails when it has already ended
	p.cleanExit(rt)
}

func (p *program) cleanExit(rt rapid.TB) {
	if !p.endsWithin(patience) {
		rt.Fatalf("still running after an interrupt signal: %s", p.output)
	}
	if p.code() != 0 || p.crashed() {
		rt.Fatalf("an interrupt signal ended the program with %v: %s", p.cmd.ProcessState, p.output)
	}
}

// listenOn gives the addresses to the http and https listeners, in order.
func listenOn(cfg kit.O, addresses []string) kit.O {
	all, _ := places(cfg)
	n := 0
	for _, p := range all {
		if p.schema.name == "http listener" || p.schema.name == "https listener" {
			cfg = p.set(cfg, "listen", addresses[n])
			n++
		}
	}
	if n != len(addresses) {
		kit.Harness("%d listeners, %d addresses", n, len(addresses))
	}
	return cfg
}

// touches tells whether the answers of an output need an input.
func (w *world) touches(out *wOutput, files map[string]bool) bool {
	var rels func(l []*wRel) bool
	rels = func(l []*wRel) bool {
		for _, r := range l {
			if files[r.input] || rels(r.rels) {
				return true
			}
		}
		return false
	}
	return files[out.input] || rels(out.rels)
}

func TestC23(t *testing.T) {
	c := kit.Begin(t, "C23", "A case is one run of the real program: a history of requests, of writes to the input files and of harmless operations on them, with the exit status expected from the dieOnInputChange settings; an interrupt signal during requests in progress, which have to be completed; or a start that cannot succeed. Non-trivial: the history has a write or the signal came while a request was in progress or the start failed; distinct by configuration and history.")
	opts := worldOpts{minInputs: 1, maxInputs: 3, minOutputs: 2, maxOutputs: 3, indexKinds: allIndexes, minRows: 1, maxRows: 8, arrays: true, objects: true, minParams: 0, maxParams: 2, relDepth: 1, maxRels: 1, poolMax: 3}

	// Two requests whose answers are read very slowly: an interrupt signal comes
	// early in one of them and at the end of the other one. What follows takes its time.
	slow := startSlow(t)
	defer slow.end()

	c.Prop("input changes", 90, 3000, func(rt *rapid.T, k *kit.Case) {
		w := drawWorld(rt, opts)
		dies := map[string]bool{}
		cfg := w.config()
		for i, in := range w.inputs {
			setting := rapid.SampledFrom([]string{"true", "false", "false", "absent"}).Draw(rt, "dieOnInputChange")
			dies[in.name] = setting != "false"
			in.conf = in.conf.Without("dieOnInputChange")
			if setting != "absent" {
				in.conf = append(in.conf, kit.KV{K: "dieOnInputChange", V: setting == "true"})
			}
			cfg = edit(cfg, []interface{}{"inputs", i}, func(interface{}) interface{} { return in.conf }).(kit.O)
		}
		dir := kit.TempDir()
		defer os.RemoveAll(dir)
		for name, data := range w.files() {
			kit.WriteFile(filepath.Join(dir, name), data)
		}
		// An input may be reached through a link.
		for i, in := range w.inputs {
			path := filepath.Join(dir, in.name+".data")
			switch rapid.IntRange(0, 5).Draw(rt, "link") {
			case 0:
				kit.Must(os.Symlink(path, filepath.Join(dir, in.name+".link")))
				cfg = edit(cfg, []interface{}{"inputs", i}, func(o interface{}) interface{} { return o.(kit.O).With("path", "@DIR@/"+in.name+".link") }).(kit.O)
				k.Label("symbolic link")
			case 1:
				kit.Must(os.Link(path, filepath.Join(dir, in.name+".link")))
				cfg = edit(cfg, []interface{}{"inputs", i}, func(o interface{}) interface{} { return o.(kit.O).With("path", "@DIR@/"+in.name+".link") }).(kit.O)
				k.Label("hard link")
			}
		}
		p, addresses := serve(rt, dir, 1, func(addresses []string) string { return kit.YAML(listenOn(cfg, addresses)) })
		defer p.kill()
		base := "http://" + addresses[0]

		history := []string{}
		changed := map[string]bool{} // the answers from these inputs are not specified any more
		expected := true
		request := func() {
			out := rapid.SampledFrom(w.outputs).Draw(rt, "output")
			values := w.drawValues(rt, out)
			target := out.target(rt, values, nil)
			resp := kit.Request(p.client, base, "GET", target, nil)
			if resp.Err != nil && p.endsWithin(time.Second) {
				return // reported below
			}
			if w.touches(out, changed) {
				if err := resp.WellFormed(); err != nil {
					rt.Fatalf("%v, then GET %v: %v", history, target, err)
				}
				return
			}
			if err := w.check(resp, out, values); err != nil {
				rt.Fatalf("%v, then GET %v: %v", history, target, err)
			}
			history = append(history, "GET "+target)
		}
		for n := rapid.IntRange(1, 6).Draw(rt, "length"); n > 0 && expected; n-- {
			in := rapid.SampledFrom(w.inputs).Draw(rt, "input")
			path := filepath.Join(dir, in.name+".data")
			op := rapid.SampledFrom([]string{"request", "request", "harmless", "write", "write"}).Draw(rt, "operation")
			switch op {
			case "request":
				request()
			case "harmless":
				what := rapid.SampledFrom([]string{"chmod", "touch", "read", "other file", "link", "open for writing"}).Draw(rt, "harmless")
				history = append(history, what+" "+in.name)
				switch what {
				case "chmod":
					kit.Must(os.Chmod(path, 0o600))
				case "touch":
					kit.Must(os.Chtimes(path, time.Now(), time.Now()))
				case "read":
					_, err := os.ReadFile(path)
					kit.Must(err)
				case "other file":
					kit.WriteFile(filepath.Join(dir, "other"), []byte("x"))
				case "link":
					os.Remove(filepath.Join(dir, "another"))
					kit.Must(os.Link(path, filepath.Join(dir, "another")))
				case "open for writing":
					f, err := os.OpenFile(path, os.O_RDWR, 0)
					kit.Must(err)
					kit.Must(f.Close())
				}
			case "write":
				what := rapid.SampledFrom([]string{"append", "overwrite", "same content", "rewrite", "truncate", "shorten", "many times"}).Draw(rt, "write")
				info, err := os.Stat(path)
				kit.Must(err)
				flags := os.O_WRONLY
				switch what {
				case "append", "many times":
					flags |= os.O_APPEND
				case "rewrite", "truncate":
					flags |= os.O_TRUNC
				}
				if info.Size() == 0 && what != "append" && what != "rewrite" && what != "many times" {
					continue // nothing would be written
				}
				f, err := os.OpenFile(path, flags, 0)
				kit.Must(err)
				switch what {
				case "append", "rewrite":
					_, err = f.Write(in.data)
					if len(in.data) == 0 {
						_, err = f.Write([]byte("\n"))
					}
				case "many times": // with other changes in between, so that each write is notified
					for i := 0; i < 400 && err == nil; i++ {
						_, err = f.Write([]byte("\n"))
						kit.Must(f.Chmod(os.FileMode(0o600 + i%2*0o40)))
					}
				case "overwrite":
					_, err = f.WriteAt([]byte("x"), info.Size()/2)
				case "same content":
					data, err := os.ReadFile(path)
					kit.Must(err)
					_, err = f.WriteAt(data, 0)
					kit.Must(err)
				case "shorten":
					err = f.Truncate(info.Size() - 1)
				}
				kit.Must(err)
				kit.Must(f.Close())
				history = append(history, what+" "+in.name)
				if dies[in.name] {
					expected = false
				}
				if what != "same content" {
					changed[in.name] = true
				}
			}
		}
		k.Nontrivial(w.String(), history)
		k.Sample(fmt.Sprintf("%v, with dieOnInputChange %v", history, dies))
		if !expected {
			k.Label("ended by a write")
			if !p.endsWithin(patience) {
				rt.Fatalf("still running after %v, with dieOnInputChange %v: %s", history, dies, p.output)
			}
			if p.code() <= 0 || p.crashed() {
				rt.Fatalf("%v, with dieOnInputChange %v, ended the program with %v: %s", history, dies, p.cmd.ProcessState, p.output)
			}
			return
		}
		k.LabelIf(len(changed) > 0, "still running after writes")
		for n := rapid.IntRange(1, 3).Draw(rt, "last requests"); n > 0; n-- {
			request()
		}
		if p.endsWithin(50 * time.Millisecond) {
			rt.Fatalf("%v, with dieOnInputChange %v, ended the program with %v: %s", history, dies, p.cmd.ProcessState, p.output)
		}
		p.interrupted(rt)
	})

	c.Prop("interrupt", 40, 2000, func(rt *rapid.T, k *kit.Case) {
		rows := rapid.IntRange(1500, 3000).Draw(rt, "rows")
		filler := strings.Repeat("0123456789abcdef", 256)
		var data, want bytes.Buffer
		want.WriteString("[")
		for i := 0; i < rows; i++ {
			fmt.Fprintf(&data, "%d,%s\n", i, filler)
			if i > 0 {
				want.WriteString(",")
			}
			fmt.Fprintf(&want, "{\"f\":\"%s\",\"i\":%d}", filler, i)
		}
		want.WriteString("]\n")
		dir := kit.TempDir()
		defer os.RemoveAll(dir)
		kit.WriteFile(filepath.Join(dir, "in.csv"), data.Bytes())
		for name, content := range certificateFiles() {
			kit.WriteFile(filepath.Join(dir, name), content)
		}
		listeners := []string{}
		services := kit.L{}
		routes := kit.L{kit.O{{"path", "/"}, {"output", "out"}}}
		for i := rapid.IntRange(1, 3).Draw(rt, "services"); i > 0; i-- {
			o := kit.O{{"name", fmt.Sprint("s", i)}, {"type", "http"}, {"routes", routes}}
			kind := rapid.SampledFrom([]string{"http", "https", "both"}).Draw(rt, "kind")
			// In the order in which listenOn finds them.
			if kind != "https" {
				o = append(o, kit.KV{K: "http", V: kit.O{}})
				listeners = append(listeners, "http")
			}
			if kind != "http" {
				o = append(o, kit.KV{K: "https", V: kit.O{{"certificatePath", "@DIR@/cert.pem"}, {"privateKeyPath", "@DIR@/key.pem"}}})
				listeners = append(listeners, "https")
			}
			services = append(services, o)
		}
		cfg := kit.O{{"inputs", kit.L{kit.O{{"name", "in"}, {"type", "csv"}, {"path", "@DIR@/in.csv"}, {"columns", kit.L{kit.O{{"name", "i"}, {"parser", "integer"}}, kit.O{{"name", "f"}}}}}}},
			{"outputs", kit.L{kit.O{{"name", "out"}, {"type", "jsonArray"}, {"input", "in"}, {"limit", kit.O{{"max", 10000}}}}}}, {"services", services}}
		p, addresses := serve(rt, dir, len(listeners), func(addresses []string) string { return kit.YAML(listenOn(cfg, addresses)) })
		defer p.kill()

		connect := func(i int) net.Conn {
			conn, err := (&net.Dialer{Control: func(_, _ string, raw syscall.RawConn) error {
				return raw.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 16384) })
			}}).Dial("tcp", addresses[i])
			failOn(rt, err)
			if listeners[i] == "https" {
				return tls.Client(conn, &tls.Config{InsecureSkipVerify: true})
			}
			return conn
		}
		type exchange struct {
			conn   net.Conn
			reader *bufio.Reader
			resp   *http.Response
		}
		exchanges := []exchange{}
		used := []string{}
		for n := rapid.IntRange(1, 4).Draw(rt, "requests in progress"); n > 0; n-- {
			i := rapid.IntRange(0, len(listeners)-1).Draw(rt, "listener")
			conn := connect(i)
			defer conn.Close()
			reader := bufio.NewReaderSize(conn, 4096)
			_, err := fmt.Fprintf(conn, "GET /?limit=%d HTTP/1.1\r\nHost: localhost\r\n\r\n", rows)
			failOn(rt, err)
			resp, err := http.ReadResponse(reader, nil) // a part of the answer is there, so it is in progress
			if err != nil {
				rt.Fatalf("no answer from %v: %v", addresses[i], err)
			}
			exchanges = append(exchanges, exchange{conn, reader, resp})
			used = append(used, listeners[i])
		}
		idle := rapid.IntRange(0, 2).Draw(rt, "idle connections")
		for n := 0; n < idle; n++ {
			i := rapid.IntRange(0, len(listeners)-1).Draw(rt, "listener")
			conn := connect(i)
			defer conn.Close()
			_, err := fmt.Fprintf(conn, "GET /?limit=1 HTTP/1.1\r\nHost: localhost\r\n\r\n")
			failOn(rt, err)
			resp, err := http.ReadResponse(bufio.NewReader(conn), nil)
			failOn(rt, err)
			_, err = io.ReadAll(resp.Body)
			failOn(rt, err)
		}
		failOn(rt, p.cmd.Process.Signal(os.Interrupt)) // fails when it has already ended
		time.Sleep(time.Duration(rapid.SampledFrom([]int{0, 20, 100, 400}).Draw(rt, "pause")) * time.Millisecond)
		refused := rapid.Bool().Draw(rt, "refused during the requests")
		if refused {
			deadline := time.Now().Add(patience / 3)
			for _, a := range addresses {
				for {
					conn, err := net.Dial("tcp", a)
					if err != nil {
						break
					}
					conn.Close()
					if time.Now().After(deadline) {
						rt.Fatalf("%v still accepts connections after an interrupt signal, while requests are in progress at %v; %s", a, used, p.output)
					}
					time.Sleep(50 * time.Millisecond)
				}
			}
		}
		for i, e := range exchanges {
			e.conn.SetReadDeadline(time.Now().Add(patience))
			body, err := io.ReadAll(e.resp.Body)
			if err != nil || !sameText(body, want.Bytes()) {
				rt.Fatalf("an interrupt signal stopped the %v request %d in progress after %d bytes of %d: %v; %s", used[i], i, len(body), want.Len(), err, p.output)
			}
			e.conn.Close()
		}
		p.cleanExit(rt)
		for _, a := range addresses {
			if conn, err := net.Dial("tcp", a); err == nil {
				conn.Close()
				rt.Fatalf("something still listens to %v", a)
			}
		}
		k.Label(fmt.Sprintf("%d services", len(services)))
		k.LabelIf(idle > 0, "idle connections")
		k.LabelIf(refused, "refused during the requests")
		k.Nontrivial(rows, kit.YAML(cfg), used)
		k.Sample(fmt.Sprintf("%d services, interrupted during %v requests of %d bytes, with %d idle connections", len(services), used, want.Len(), idle))
	})

	c.Prop("failing start", 250, 5000, func(rt *rapid.T, k *kit.Case) {
		cfg, files := everything()
		dir := kit.TempDir()
		defer os.RemoveAll(dir)
		for name, data := range files {
			kit.Must(os.MkdirAll(filepath.Dir(filepath.Join(dir, name)), 0o755))
			kit.WriteFile(filepath.Join(dir, name), data)
		}
		args := []string{}
		what := ""
		kind := rapid.SampledFrom([]string{"mutation", "mutation", "mutation", "mutation", "data", "no configuration", "used address", "arguments", "not yaml"}).Draw(rt, "kind")
		if rapid.Bool().Draw(rt, "level") {
			args = append(args, rapid.SampledFrom([]string{"-l", "--loglevel"}).Draw(rt, "flag"), rapid.SampledFrom([]string{"error", "warn", "warning", "info", "debug", "trace"}).Draw(rt, "loglevel"))
		}
		configFile := "rodb.yaml"
		if rapid.Bool().Draw(rt, "path") {
			configFile = "other.yaml"
			args = append(args, rapid.SampledFrom([]string{"-c", "--config"}).Draw(rt, "config"), "other.yaml")
		}
		text := ""
		switch kind {
		case "mutation":
			m := rapid.SampledFrom(mutations).Draw(rt, "mutation")
			result, description, ok := m.apply(rt, cfg)
			if !ok {
				k.Label("not applicable")
				return
			}
			text, what = kit.YAML(result), m.name+": "+description
		case "data":
			// The configuration is right, but its files are not
			text = kit.YAML(cfg)
			bad := rapid.SampledFrom([]struct {
				file, data string
				missing    bool
			}{{"x.csv", "", true}, {"x.json", "", true}, {"x.xml", "", true}, {"x.csv", "", false}, {"x.csv", "a;b;c;d\nx;1;1;1\ny;not a number;1;1\n", false}, {"x.csv", "a;b;c;d\nx;\"1;1;1\n", false},
				{"x.xml", "<root><rec><b>1</b></rec><rec>", false}, {"x.wild", "not an index", false}, {"x.sqlite", strings.Repeat("not a database ", 100), false},
				{"cert.pem", "", true}, {"key.pem", "", true}, {"key.pem", "not a key", false}}).Draw(rt, "bad data")
			path := filepath.Join(dir, bad.file)
			os.Remove(path)
			if !bad.missing {
				kit.WriteFile(path, []byte(bad.data))
			}
			what = fmt.Sprintf("data %+v", bad)
		case "no configuration":
			what = "no configuration"
			if rapid.Bool().Draw(rt, "directory") {
				kit.Must(os.Mkdir(filepath.Join(dir, configFile), 0o755))
			}
		case "used address":
			l, err := net.Listen("tcp", "127.0.0.1:0")
			kit.Must(err)
			defer l.Close()
			address := rapid.SampledFrom([]string{l.Addr().String(), "127.0.0.1:99999", "nonsense", "256.0.0.1:0", "192.0.2.1:0"}).Draw(rt, "address")
			p, ok := pickPlace(rt, cfg, kindOf("http listener", "https listener"))
			if !ok {
				kit.Harness("no listener")
			}
			text, what = kit.YAML(p.set(cfg, "listen", address)), "listening to "+address
		case "arguments":
			text = kit.YAML(cfg)
			bad := rapid.SampledFrom([][]string{{"-l", "nosuch"}, {"--loglevel", ""}, {"--nosuch"}, {"-x"}, {"-c"}, {"-c", "missing.yaml"}, {"--config="}}).Draw(rt, "arguments")
			args = append(args, bad...)
			what = fmt.Sprint("arguments ", args)
		case "not yaml":
			text = rapid.SampledFrom([]string{"{", "- a", "\x00", "a: b: c", "\tinputs: []", "inputs: [", "%"}).Draw(rt, "text")
			what = fmt.Sprintf("configuration %q", text)
		}
		if text != "" {
			kit.WriteFile(filepath.Join(dir, configFile), []byte(strings.ReplaceAll(text, "@DIR@", dir)))
		}
		p := startProgram(dir, args...)
		defer p.kill()
		if !p.endsWithin(patience) {
			rt.Fatalf("the program runs with %v: %s", what, p.output)
		}
		if p.code() <= 0 || p.crashed() {
			rt.Fatalf("%v ended the program with %v: %s", what, p.cmd.ProcessState, p.output)
		}
		message := false
		for _, line := range strings.Split(p.output.String(), "\n") {
			message = message || strings.TrimSpace(line) != "" && !strings.Contains(line, "level=info") && !strings.Contains(line, "level=debug") && !strings.Contains(line, "level=trace")
		}
		if !message {
			rt.Fatalf("%v ended the program without any error message: %s", what, p.output)
		}
		k.Label(kind)
		k.Nontrivial(text, args)
		k.Sample(fmt.Sprintf("%v: %s", what, p.output))
	})

	// The program reads the given file, or rodb.yaml in the current directory, and serves it at any level of messages.
	c.Prop("arguments", 30, 600, func(rt *rapid.T, k *kit.Case) {
		w := drawWorld(rt, worldOpts{minInputs: 1, maxInputs: 1, minOutputs: 1, maxOutputs: 1, maxRows: 4, arrays: true, poolMax: 3})
		dir := kit.TempDir()
		defer os.RemoveAll(dir)
		for name, data := range w.files() {
			kit.WriteFile(filepath.Join(dir, name), data)
		}
		level := rapid.SampledFrom([]string{"", "panic", "fatal", "error", "warn", "warning", "info", "debug", "trace"}).Draw(rt, "level")
		path := rapid.SampledFrom([]string{"", "rodb.yaml", "sub/x.yml", dir + "/abs.yaml"}).Draw(rt, "path")
		args := []string{}
		if level != "" {
			args = append(args, rapid.SampledFrom([][]string{{"-l", level}, {"--loglevel", level}, {"--loglevel=" + level}}).Draw(rt, "level flag")...)
		}
		if path != "" {
			args = append(args, rapid.SampledFrom([][]string{{"-c", path}, {"--config", path}, {"--config=" + path}}).Draw(rt, "path flag")...)
		}
		file := path
		if path == "" {
			file = "rodb.yaml"
		} else if path != "rodb.yaml" {
			kit.WriteFile(filepath.Join(dir, "rodb.yaml"), []byte("not used: {"))
		}
		if !filepath.IsAbs(file) {
			file = filepath.Join(dir, file)
		}
		kit.Must(os.MkdirAll(filepath.Dir(file), 0o755))
		for attempt := 0; ; attempt++ {
			address := freeAddress()
			kit.WriteFile(file, []byte(strings.ReplaceAll(kit.YAML(listenOn(w.config(), []string{address})), "@DIR@", dir)))
			p := startProgram(dir, args...)
			defer p.kill()
			deadline := time.Now().Add(patience)
			for time.Now().Before(deadline) && !p.endsWithin(5*time.Millisecond) {
				if conn, err := net.Dial("tcp", address); err == nil {
					conn.Close()
					break
				}
			}
			if p.endsWithin(0) {
				if strings.Contains(p.output.String(), "address already in use") && attempt < 10 {
					continue
				}
				rt.Fatalf("started with %v, the program ended with %v: %s", args, p.cmd.ProcessState, p.output)
			}
			out := w.outputs[0]
			values := w.drawValues(rt, out)
			target := out.target(rt, values, nil)
			if err := w.check(kit.Request(p.client, "http://"+address, "GET", target, nil), out, values); err != nil {
				rt.Fatalf("started with %v, GET %v: %v", args, target, err)
			}
			break
		}
		k.Nontrivial(args)
		k.Sample(fmt.Sprint(args))
	})

	c.Enum("slow requests", func(t *testing.T, account func(*kit.Case)) {
		long := 32 * time.Second
		if kit.Thorough() {
			long = 130 * time.Second
		}
		time.Sleep(time.Until(slow.start.Add(long)))
		taken := time.Since(slow.start)
		kit.Must(slow.programs[1].cmd.Process.Signal(os.Interrupt))
		for i, p := range slow.programs {
			slow.conns[i].SetReadDeadline(time.Now().Add(patience))
			body, err := io.ReadAll(slow.bodies[i])
			if err != nil || !sameText(body, slow.want) {
				t.Fatalf("an interrupt signal %v after the beginning of a request, whose answer was read during %v, stopped it after %d bytes of %d: %v; %s", []time.Duration{0, taken}[i], taken, len(body), len(slow.want), err, p.output)
			}
			slow.conns[i].Close()
			p.cleanExit(t)
			k := &kit.Case{}
			k.Nontrivial(i)
			account(k)
		}
	})
}

type slowRequests struct {
	start    time.Time
	dirs     []string
	programs []*program
	conns    []net.Conn
	bodies   []io.Reader
	want     []byte
}

// startSlow begins two requests, and interrupts the program of the first one.
func startSlow(t *testing.T) *slowRequests {
	s := &slowRequests{start: time.Now()}
	filler := strings.Repeat("0123456789abcdef", 512)
	var data, want bytes.Buffer
	for i := 0; i < 3000; i++ {
		fmt.Fprintf(&data, "%d,%s\n", i, filler)
		fmt.Fprintf(&want, "%c{\"f\":\"%s\",\"i\":%d}", "[,"[min(i, 1)], filler, i)
	}
	want.WriteString("]\n")
	s.want = want.Bytes()
	for i := 0; i < 2; i++ {
		dir := kit.TempDir()
		s.dirs = append(s.dirs, dir)
		kit.WriteFile(filepath.Join(dir, "in.csv"), data.Bytes())
		p, addresses := serve(t, dir, 1, func(addresses []string) string {
			return kit.YAML(kit.O{{"inputs", kit.L{kit.O{{"name", "in"}, {"type", "csv"}, {"path", "@DIR@/in.csv"}, {"columns", kit.L{kit.O{{"name", "i"}, {"parser", "integer"}}, kit.O{{"name", "f"}}}}}}},
				{"outputs", kit.L{kit.O{{"name", "out"}, {"type", "jsonArray"}, {"input", "in"}, {"limit", kit.O{{"max", 10000}}}}}},
				{"services", kit.L{kit.O{{"name", "http"}, {"type", "http"}, {"http", kit.O{{"listen", addresses[0]}}}, {"routes", kit.L{kit.O{{"path", "/"}, {"output", "out"}}}}}}}})
		})
		s.programs = append(s.programs, p)
		conn, err := (&net.Dialer{Control: func(_, _ string, raw syscall.RawConn) error {
			return raw.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 16384) })
		}}).Dial("tcp", addresses[0])
		failOn(t, err)
		s.conns = append(s.conns, conn)
		_, err = fmt.Fprintf(conn, "GET /?limit=3000 HTTP/1.1\r\nHost: localhost\r\n\r\n")
		failOn(t, err)
		resp, err := http.ReadResponse(bufio.NewReaderSize(conn, 4096), nil)
		if err != nil {
			t.Fatalf("no answer from %v: %v", addresses[0], err)
		}
		s.bodies = append(s.bodies, resp.Body)
	}
	failOn(t, s.programs[0].cmd.Process.Signal(os.Interrupt))
	return s
}

func (s *slowRequests) end() {
	for i, p := range s.programs {
		s.conns[i].Close()
		p.kill()
		os.RemoveAll(s.dirs[i])
	}
}

// sameText compares JSON documents.
func sameText(got, want []byte) bool {
	if bytes.Equal(got, want) {
		return true
	}
	a, err := kit.DecodeJSON(got)
	if err != nil {
		return false
	}
	b, err := kit.DecodeJSON(want)
	kit.Must(err)
	return kit.SameJSON(a, b)
}
