package checks

import (
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
	"rodbverif/kit"
)

// The same binary started with VERIF_CHILD builds the indexes of a directory and ends.
func init() {
	if os.Getenv("VERIF_CHILD") == "build" {
		runtime.LockOSThread() // the writes of one thread can be counted
	}
}

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_CHILD") == "build" {
		dir := os.Getenv("VERIF_CHILD_DIR")
		rig, err := kit.Load(dir, filepath.Join(dir, "rodb.yaml"))
		if err != nil {
			fmt.Println("build failed:", err)
			os.Exit(7)
		}
		rig.Close()
		fmt.Println("build completed")
		os.Exit(0)
	}
	os.Exit(m.Run())
}

// building is a generated set of indexes over a generated input.
type building struct {
	specs   []stored
	cfg     kit.O
	data    []byte
	queries []map[string]interface{}
	which   []int
	answers []string
	sizes   map[string]int64 // of the files of the completed indexes
	dir     string           // of the completed indexes
}

func (b *building) close() { os.RemoveAll(b.dir) }

func drawBuilding(rt *rapid.T, k *kit.Case, kinds []string) *building {
	words := rapid.Custom(func(t *rapid.T) string {
		n := rapid.IntRange(1, 6).Draw(t, "words")
		s := []string{}
		for i := 0; i < n; i++ {
			s = append(s, rapid.StringMatching(`[a-d]{1,6}`).Draw(t, "word"))
		}
		return strings.Join(s, " ")
	})
	minRows, maxRows := 5, 60
	if kinds == nil && rapid.IntRange(0, 7).Draw(rt, "large") == 0 {
		minRows, maxRows = 250, 800
		kinds = []string{"sqlite", "fts5"}
		k.Label("hundreds of records")
	}
	d := kit.Datasets(kit.DataOpts{Types: []string{kit.String}, NoNulls: true, Simple: true, MinCols: 1, MaxCols: 2, PoolMax: 200, Texts: words, MinRows: minRows, MaxRows: maxRows}).Draw(rt, "data")
	conf, data := d.Render(rt, "in", "in")
	b := &building{data: data, sizes: map[string]int64{}}
	indexes := kit.L{}
	n := rapid.IntRange(1, 2).Draw(rt, "indexes")
	shared := rapid.Bool().Draw(rt, "shared")
	for i := 0; i < n; i++ {
		s := storedIndexes(rt, columnNames(d.Cols))
		if kinds != nil {
			s.kind = rapid.SampledFrom(kinds).Draw(rt, "kind")
		}
		if s.kind != "fts5" {
			s.tokenize = ""
		}
		file := fmt.Sprint("index", i)
		if shared && s.kind != "wildcard" {
			file = "index"
		}
		b.specs = append(b.specs, s)
		indexes = append(indexes, s.config(fmt.Sprint("i", i), file))
		k.Label(s.kind)
	}
	b.cfg = kit.O{{"inputs", kit.L{conf}}, {"indexes", indexes}}

	rig := kit.MustStart(rt, b.cfg, kit.Files{"in": data})
	b.dir = kit.TempDir()
	defer rig.Close()
	for i, s := range b.specs {
		idx := rig.Indexes[fmt.Sprint("i", i)]
		for _, c := range s.cols {
			texts := []string{}
			for j, row := range d.Rows {
				if v, ok := row[c].(string); ok && (j < 3 || j >= len(d.Rows)-6 || j%5 == 0) {
					texts = append(texts, v)
				}
			}
			for _, v := range texts {
				fs := []map[string]interface{}{{c: v}}
				if s.kind == "wildcard" && v == "" {
					continue
				}
				if s.kind == "wildcard" {
					fs = append(fs, map[string]interface{}{c: v[len(v)/2:]}, map[string]interface{}{c: v[len(v)-1:]})
				}
				if s.kind == "fts5" {
					words := strings.Fields(v)
					if len(words) == 0 {
						continue
					}
					fs = []map[string]interface{}{{"match": `"` + v + `"`}, {"match": words[len(words)-1]}}
				}
				for _, f := range fs {
					b.queries = append(b.queries, f)
					b.which = append(b.which, i)
					b.answers = append(b.answers, answer(idx, rig.Inputs["in"], f))
				}
			}
		}
	}
	for _, e := range []string{"index", "index0", "index1"} {
		if info, err := os.Stat(filepath.Join(rig.Dir, e)); err == nil {
			b.sizes[e] = info.Size()
		}
	}
	return b
}

// prepare writes the input and the configuration in a new directory.
func (b *building) prepare() (string, string) {
	dir := kit.TempDir()
	cfg := kit.YAML(b.cfg)
	kit.WriteFile(filepath.Join(dir, "in"), b.data)
	stamp := time.Unix(1700000000, 0)
	kit.Must(os.Chtimes(filepath.Join(dir, "in"), stamp, stamp))
	kit.WriteFile(filepath.Join(dir, "rodb.yaml"), []byte(strings.ReplaceAll(cfg, "@DIR@", dir)))
	return dir, cfg
}

// move copies what is left in a directory, as a started process may still hold its files.
func move(dir string) string {
	to := kit.TempDir()
	entries, err := os.ReadDir(dir)
	kit.Must(err)
	for _, e := range entries {
		if e.Name() == "rodb.yaml" {
			continue
		}
		data, err := os.ReadFile(filepath.Join(dir, e.Name()))
		kit.Must(err)
		info, err := e.Info()
		kit.Must(err)
		kit.WriteFile(filepath.Join(to, e.Name()), data)
		kit.Must(os.Chtimes(filepath.Join(to, e.Name()), info.ModTime(), info.ModTime()))
	}
	return to
}

// restart starts over what is left in dir (which it removes), and compares the answers with the complete ones.
func (b *building) restart(rt *rapid.T, dir, what string) string {
	left := map[string]int64{}
	for _, e := range []string{"index", "index0", "index1"} {
		if info, err := os.Stat(filepath.Join(dir, e)); err == nil {
			left[e] = info.Size()
		}
	}
	moved := move(dir)
	defer os.RemoveAll(moved)
	os.RemoveAll(dir)
	result := ""
	for round := 0; round < 2; round++ {
		rig, err := kit.StartIn(rt, moved, kit.YAML(b.cfg), nil)
		if err != nil {
			result = "rejected"
			continue
		}
		for i, f := range b.queries {
			got := answer(rig.Indexes[fmt.Sprint("i", b.which[i])], rig.Inputs["in"], f)
			if got != b.answers[i] {
				rig.Close()
				rt.Fatalf("%v; what was left (sizes %v, complete %v) is served at start %d, and the %v index answers %v with %v instead of %v",
					what, left, b.sizes, round+1, b.specs[b.which[i]].kind, f, got, b.answers[i])
			}
		}
		rig.Close()
		result = "served"
	}
	return result
}

var strace = regexp.MustCompile(`(?m)^(\d+ +)?(\w+)\(`)

func TestC12(t *testing.T) {
	c := kit.Begin(t, "C12", "A case stops the construction of generated wildcard, sqlite and fts5 indexes at one point (file size limit reached, killed at one write, disk full from one write on, or an unreadable input), starts again twice over what was left, and compares all answers with those of the complete indexes unless the start fails. Non-trivial: the construction did not complete and left an index file behind; distinct by data, configuration and point.")
	signal.Ignore(syscall.SIGXFSZ)

	limited := func(n uint64, f func()) {
		var old syscall.Rlimit
		kit.Must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
		low := old
		low.Cur = n
		kit.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &low))
		defer func() { kit.Must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
		f()
	}

	c.Prop("file size limit", 85, 1500, func(rt *rapid.T, k *kit.Case) {
		b := drawBuilding(rt, k, nil)
		defer b.close()
		top := int64(1)
		for _, size := range b.sizes {
			if size > top {
				top = size
			}
		}
		for points := rapid.IntRange(3, 10).Draw(rt, "points"); points > 0; points-- {
			limit := rapid.Int64Range(0, top+64).Draw(rt, "limit")
			switch rapid.IntRange(0, 4).Draw(rt, "where") {
			case 0:
				limit = top - rapid.Int64Range(0, 64).Draw(rt, "before the end")
			case 1:
				limit = limit / 4096 * 4096
			case 2:
				limit = top - limit%10000
			}
			if limit < 0 {
				limit = 0
			}
			dir, _ := b.prepare()
			var rig *kit.Rig
			var err error
			limited(uint64(limit), func() { rig, err = kit.Load(dir, filepath.Join(dir, "rodb.yaml")) })
			if err == nil {
				rig.Close()
			}
			left, _ := filepath.Glob(filepath.Join(dir, "index*"))
			result := b.restart(rt, dir, fmt.Sprintf("construction with files limited to %v bytes (error: %v)", limit, err))
			if err != nil && len(left) > 0 {
				k.Nontrivial(string(b.data), b.specs, limit)
				k.Label("interrupted, " + result)
				k.Sample(fmt.Sprintf("%v\nlimit %v of %v: %v, then %v", kit.YAML(b.cfg), limit, b.sizes, err, result))
			}
		}
	})

	c.Prop("unreadable input", 180, 8000, func(rt *rapid.T, k *kit.Case) {
		b := drawBuilding(rt, k, nil)
		defer b.close()
		dir, _ := b.prepare()
		in := filepath.Join(dir, "in")
		stamp := time.Unix(1700000000, 0)
		bad := append([]byte{}, b.data...)
		at := rapid.IntRange(0, len(bad)-1).Draw(rt, "at")
		if rapid.IntRange(0, 2).Draw(rt, "cut") == 0 {
			if rapid.Bool().Draw(rt, "in the last record") {
				at = max(0, len(bad)-rapid.IntRange(1, 40).Draw(rt, "before the end"))
			}
			bad = bad[:at]
		} else {
			bad[at] = rapid.SampledFrom([]byte("\"<{}&\x00x")).Draw(rt, "by")
		}
		kit.WriteFile(in, bad)
		kit.Must(os.Chtimes(in, stamp, stamp))
		rig, err := kit.Load(dir, filepath.Join(dir, "rodb.yaml"))
		if err == nil {
			rig.Close()
			os.RemoveAll(dir)
			// Then the whole input has to be readable.
			rig, err := kit.Start(rt, b.cfg.Without("indexes"), kit.Files{"in": bad})
			if err == nil {
				_, err = iterate(rig.Inputs["in"])
				rig.Close()
			}
			if err != nil {
				rt.Fatalf("%q: indexes are built and served, but reading the input gives the error: %v", bad, err)
			}
			k.Label("readable all the same")
			return
		}
		left, _ := filepath.Glob(filepath.Join(dir, "index*"))
		kit.WriteFile(in, b.data)
		kit.Must(os.Chtimes(in, stamp, stamp))
		result := b.restart(rt, dir, fmt.Sprintf("construction over an input unreadable at byte %v (error: %v), then repaired", at, err))
		if len(left) > 0 {
			k.Nontrivial(string(b.data), b.specs, at)
			k.Label("interrupted, " + result)
			k.Sample(fmt.Sprintf("%v\nbyte %v: %v, then %v", kit.YAML(b.cfg), at, err, result))
		}
	})

	// Stopping before one system call of the real construction.
	const calls = "write,pwrite64,ftruncate,unlink,fsync,fdatasync,rename,renameat,renameat2,openat"
	self := os.Getenv("VERIF_SELF")
	child := func(dir string, args ...string) (string, int) {
		args = append([]string{"-f", "-qq", "-o", filepath.Join(dir, "trace"), "-e", "trace=" + calls}, args...)
		cmd := exec.Command("strace", append(args, self)...)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "VERIF_CHILD=build", "VERIF_CHILD_DIR="+dir, "VERIF_OUT=", "VERIF_ERRFILE=", "VERIF_HANGFILE=", "GOMAXPROCS=2")
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		out, err := cmd.CombinedOutput()
		if cmd.ProcessState == nil {
			return fmt.Sprint(err), -1
		}
		return string(out), cmd.ProcessState.ExitCode()
	}
	c.Prop("killed or disk full at a write", 12, 400, func(rt *rapid.T, k *kit.Case) {
		b := drawBuilding(rt, k, nil)
		defer b.close()
		dir, _ := b.prepare()
		out, code := child(dir)
		trace, _ := os.ReadFile(filepath.Join(dir, "trace"))
		os.RemoveAll(dir)
		if code != 0 || !strings.Contains(out, "build completed") {
			if strings.Contains(out, "build failed") {
				rt.Fatalf("the construction fails in another process: %v", out)
			}
			k.Label("system calls cannot be traced here")
			return
		}
		// The calls of each kind on the files of the indexes, as strace counts them: per thread.
		count := map[string]int{}
		first := map[string]int{}
		for _, line := range strings.Split(string(trace), "\n") {
			m := strace.FindStringSubmatch(line)
			if m == nil {
				continue
			}
			name := m[1] + m[2]
			count[name]++
			if first[name] == 0 && (m[2] != "openat" || strings.Contains(line, dir+"/index")) && m[2] != "write" {
				first[name] = count[name]
			}
		}
		type point struct {
			call string
			n    int
		}
		points := []point{}
		for _, call := range strings.Split(calls, ",") {
			best, from := 0, 0
			for name, n := range count {
				if strings.HasSuffix(name, call) && strings.TrimLeft(strings.TrimSuffix(name, call), "0123456789 ") == "" && n > best {
					best, from = n, first[name]
				}
			}
			if from == 0 {
				continue
			}
			for n := from; n <= best; n++ {
				points = append(points, point{call, n})
			}
		}
		if len(points) == 0 {
			k.Label("no write was seen")
			return
		}
		for n := rapid.IntRange(3, 8).Draw(rt, "points"); n > 0; n-- {
			i := rapid.IntRange(0, len(points)-1).Draw(rt, "point")
			if rapid.IntRange(0, 2).Draw(rt, "late") == 0 {
				i = len(points) - 1 - rapid.IntRange(0, 12).Draw(rt, "from the end")%len(points)
			}
			p := points[i]
			fault := fmt.Sprintf("inject=%v:signal=SIGKILL:when=%d", p.call, p.n)
			kind := "killed"
			if p.call != "openat" && p.call != "unlink" && rapid.IntRange(0, 3).Draw(rt, "full") == 0 {
				fault = fmt.Sprintf("inject=%v:error=ENOSPC:when=%d+", p.call, p.n)
				kind = "disk full"
			}
			dir, _ := b.prepare()
			out, code := child(dir, "-e", fault)
			os.Remove(filepath.Join(dir, "trace"))
			left, _ := filepath.Glob(filepath.Join(dir, "index*"))
			result := b.restart(rt, dir, fmt.Sprintf("construction in another process with %v (exit status %v, %q)", fault, code, out))
			if code != 0 && len(left) > 0 {
				k.Nontrivial(string(b.data), b.specs, fault)
				k.Label(kind + ", " + result)
				k.Sample(fmt.Sprintf("%v\n%v: then %v", kit.YAML(b.cfg), fault, result))
			} else {
				k.Label(kind + " without effect")
			}
		}
	})
}
