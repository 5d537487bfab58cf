// Package kit is the machinery shared by the checks: running rapid properties
// with fixed seeds and counts, counting what was covered, and starting rodb.
package kit

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Environment set by check.py.
var (
	outPath    = os.Getenv("VERIF_OUT")     // where the coverage goes (JSON)
	errPath    = os.Getenv("VERIF_ERRFILE") // where errors of the machinery go
	hangPath   = os.Getenv("VERIF_HANGFILE")
	Tier       = envOr("VERIF_TIER", "quick")
	scratch    = envOr("VERIF_SCRATCH", os.TempDir())
	Seed       = seedFromEnv()
	onlyReplay = os.Getenv("VERIF_REPLAYING") != ""
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func seedFromEnv() uint64 {
	n, err := strconv.ParseInt(envOr("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		h := fnv.New64a()
		h.Write([]byte(os.Getenv("VERIF_SEED")))
		n = int64(h.Sum64() >> 1)
	}
	return uint64(n)
}

func Thorough() bool { return Tier == "thorough" }

// Pick returns the quick or thorough value.
func Pick(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Harness reports an error of the machinery itself (not of rodb) and stops the process.
func Harness(format string, args ...interface{}) {
	msg := fmt.Sprintf(format, args...)
	buf := make([]byte, 16<<10)
	msg += "\n" + string(buf[:runtime.Stack(buf, false)])
	if errPath != "" {
		_ = os.WriteFile(errPath, []byte(msg), 0o644)
	}
	fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", msg)
	os.Exit(4)
}

func Must(err error) {
	if err != nil {
		Harness("%v", err)
	}
}

// Check collects what one test of a property covered.
type Check struct {
	ID       string
	T        *testing.T
	rule     string
	mu       sync.Mutex
	evals    int64
	nontriv  map[uint64]bool
	labels   map[string]int64
	samples  []interface{}
	perSub   map[string]int64
	findings []string
	failed   bool
	counting bool
}

func Begin(t *testing.T, id string, rule string) *Check {
	c := &Check{ID: id, T: t, rule: rule, nontriv: map[uint64]bool{}, labels: map[string]int64{}, perSub: map[string]int64{}, counting: true}
	t.Cleanup(c.write)
	return c
}

func (c *Check) write() {
	if outPath == "" {
		return
	}
	names := make([]string, 0, len(c.labels))
	for n := range c.labels {
		names = append(names, n)
	}
	sort.Strings(names)
	out := map[string]interface{}{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.nontriv),
		"rule":                c.rule,
		"samples":             c.samples,
		"labels":              c.labels,
		"cases_per_subcheck":  c.perSub,
		"known_findings":      c.findings,
	}
	data, err := json.MarshalIndent(out, "", " ")
	if err != nil {
		Harness("coverage: %v", err)
	}
	if err := os.WriteFile(outPath, data, 0o644); err != nil {
		Harness("coverage: %v", err)
	}
}

var currentPath = os.Getenv("VERIF_CURRENT")

// Current records what is being tried, for when the process does not survive it.
func Current(text string) {
	if currentPath != "" {
		_ = os.WriteFile(currentPath, []byte(text), 0o644)
	}
}

// Known says whether a finding is listed in known-findings.txt for this property.
func Known(key string) bool {
	var keys []string
	_ = json.Unmarshal([]byte(os.Getenv("VERIF_KNOWN")), &keys)
	for _, k := range keys {
		if k == key {
			return true
		}
	}
	return false
}

// KnownFinding records that a listed finding was seen; check.py prints it.
func (c *Check) KnownFinding(name string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, f := range c.findings {
		if f == name {
			return
		}
	}
	c.findings = append(c.findings, name)
}

// Case describes one generated case of a sub-check.
type Case struct {
	c      *Check
	labels []string
	keys   []string
	sample interface{}
}

// Label classifies the case.
func (k *Case) Label(name string) { k.labels = append(k.labels, name) }

func (k *Case) LabelIf(cond bool, name string) {
	if cond {
		k.Label(name)
	}
}

// Nontrivial marks the case as non-trivial; key identifies it.
func (k *Case) Nontrivial(key ...interface{}) {
	k.keys = append(k.keys, fmt.Sprintf("%#v", key))
}

// Sample offers the case as a sample for the evidence.
func (k *Case) Sample(v interface{}) { k.sample = v }

func (c *Check) account(sub string, k *Case) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if !c.counting {
		return
	}
	c.evals++
	c.perSub[sub]++
	seen := map[string]bool{}
	for _, l := range k.labels {
		if !seen[l] {
			seen[l] = true
			c.labels[sub+": "+l]++
		}
	}
	for _, key := range k.keys {
		h := fnv.New64a()
		h.Write([]byte(sub))
		h.Write([]byte(key))
		c.nontriv[h.Sum64()] = true
	}
	if k.sample != nil && len(k.keys) > 0 {
		n := 0
		for _, s := range c.samples {
			if m, ok := s.(map[string]interface{}); ok && m["subcheck"] == sub {
				n++
			}
		}
		if n < 2 && len(c.samples) < 12 {
			c.samples = append(c.samples, map[string]interface{}{"subcheck": sub, "case": clip(fmt.Sprintf("%v", k.sample), 1500)})
		}
	}
}

func clip(s string, n int) string {
	s = strings.ToValidUTF8(s, "\uFFFD")
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// Prop runs a rapid property with a fixed number of cases.
func (c *Check) Prop(name string, quick, thorough int, f func(rt *rapid.T, k *Case)) {
	c.T.Run(name, func(t *testing.T) {
		if c.failed {
			t.Skip("an earlier sub-check failed")
		}
		n := Pick(quick, thorough)
		if s := os.Getenv("VERIF_SCALE"); s != "" {
			x, _ := strconv.ParseFloat(s, 64)
			n = int(float64(n)*x) + 1
		}
		h := fnv.New64a()
		fmt.Fprintf(h, "%d/%s/%s", Seed, c.ID, name)
		setFlag("rapid.checks", strconv.Itoa(n))
		setFlag("rapid.seed", strconv.FormatUint(h.Sum64()|1, 10))
		setFlag("rapid.shrinktime", "20s")
		start := time.Now()
		defer func() {
			if t.Failed() {
				c.failed = true
			}
			if os.Getenv("VERIF_VERBOSE") != "" {
				fmt.Fprintf(os.Stderr, "%s/%s: %d cases, %.1fs\n", c.ID, name, n, time.Since(start).Seconds())
			}
		}()
		rapid.Check(t, func(rt *rapid.T) {
			k := &Case{c: c}
			stop := watch(c.ID, name)
			ok := false
			defer func() {
				stop()
				if ok {
					c.account(name, k)
				} else if rt.Failed() {
					c.counting = false
				}
			}()
			f(rt, k)
			ok = true
		})
	})
}

// Enum runs a deterministic enumeration; each call of next counts as one evaluation.
func (c *Check) Enum(name string, f func(t *testing.T, account func(k *Case))) {
	c.T.Run(name, func(t *testing.T) {
		if c.failed {
			t.Skip("an earlier sub-check failed")
		}
		start := time.Now()
		defer func() {
			if t.Failed() {
				c.failed = true
			}
			if os.Getenv("VERIF_VERBOSE") != "" {
				fmt.Fprintf(os.Stderr, "%s/%s: %.1fs\n", c.ID, name, time.Since(start).Seconds())
			}
		}()
		f(t, func(k *Case) { k.c = c; c.account(name, k) })
	})
}

// Watch stops the process when the case it guards does not end.
func (c *Check) Watch(name string) func() { return watch(c.ID, name) }

func setFlag(name, value string) {
	if err := flag.Set(name, value); err != nil {
		Harness("flag %v: %v", name, err)
	}
}

const hangLimit = 150 * time.Second

var watchSeq int64

func watch(id, name string) func() {
	seq := atomic.AddInt64(&watchSeq, 1)
	timer := time.AfterFunc(hangLimit, func() {
		buf := make([]byte, 4<<20)
		buf = buf[:runtime.Stack(buf, true)]
		msg := fmt.Sprintf("%v/%v: case %v did not finish within %v (deadlock or endless loop)\n\n%s", id, name, seq, hangLimit, buf)
		if hangPath != "" {
			_ = os.WriteFile(hangPath, []byte(msg), 0o644)
		}
		fmt.Fprintln(os.Stderr, "HANG:", clip(msg, 20000))
		os.Exit(5)
	})
	return func() { timer.Stop() }
}

// TempDir makes a scratch directory; the caller removes it.
func TempDir() string {
	dir, err := os.MkdirTemp(scratch, "case")
	if err != nil {
		Harness("%v", err)
	}
	return dir
}

func WriteFile(path string, data []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		Harness("%v", err)
	}
	if err := os.WriteFile(path, data, 0o644); err != nil {
		Harness("%v", err)
	}
}
