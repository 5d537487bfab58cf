package kit

import (
	"bytes"
	"context"
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/rodb-io/rodb/pkg/config"
	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/rodb-io/rodb/pkg/service"
	"github.com/sirupsen/logrus"
)

// TB is what *testing.T and *rapid.T have in common here.
type TB interface {
	Helper()
	Logf(format string, args ...interface{})
	Errorf(format string, args ...interface{})
	Fatalf(format string, args ...interface{})
}

// Logger returns a silent logger; a fatal log entry is recorded instead of ending the process.
func Logger(onFatal func()) (*logrus.Logger, *LogBuffer) {
	buf := &LogBuffer{}
	log := logrus.New()
	log.SetOutput(buf)
	log.SetLevel(logrus.InfoLevel)
	log.SetFormatter(&logrus.TextFormatter{DisableTimestamp: true, DisableColors: true})
	log.ExitFunc = func(int) {
		if onFatal != nil {
			onFatal()
		}
	}
	return log, buf
}

// LogBuffer keeps the first 64 KiB of a log.
type LogBuffer struct {
	mu  sync.Mutex
	buf []byte
}

func (b *LogBuffer) Write(p []byte) (int, error) {
	b.mu.Lock()
	defer b.mu.Unlock()
	if len(b.buf) < 64<<10 {
		b.buf = append(b.buf, p...)
	}
	return len(p), nil
}

func (b *LogBuffer) String() string {
	b.mu.Lock()
	defer b.mu.Unlock()
	return string(b.buf)
}

// StartError is an error rodb returned while starting.
type StartError struct {
	Stage string
	Err   error
}

func (e *StartError) Error() string { return e.Stage + ": " + e.Err.Error() }

// Rig is a running instance of rodb.
type Rig struct {
	Dir      string
	Parsers  parser.List
	Inputs   input.List
	Indexes  index.List
	Outputs  output.List
	Services service.List
	Log      *LogBuffer
	Died     int32
	client   *http.Client
	ownDir   bool
}

// Files are written before starting; names are relative to the scratch directory.
type Files map[string][]byte

// Start writes the configuration (in which "@DIR@" stands for the scratch
// directory) and files, and starts rodb like its main function does.
func Start(tb TB, cfg O, files Files) (*Rig, error) {
	tb.Helper()
	dir := TempDir()
	r, err := StartIn(tb, dir, YAML(cfg), files)
	if err != nil {
		os.RemoveAll(dir)
		return nil, err
	}
	r.ownDir = true
	return r, nil
}

// MustStart is Start for configurations rodb has to accept.
func MustStart(tb TB, cfg O, files Files) *Rig {
	tb.Helper()
	r, err := Start(tb, cfg, files)
	if err != nil {
		tb.Fatalf("rodb does not start on a valid configuration: %v", err)
	}
	return r
}

func logFiles(tb TB, cfg string, files Files) {
	names := make([]string, 0, len(files))
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	current := "config:\n" + cfg
	for _, n := range names {
		current += fmt.Sprintf("file %v (%v bytes): %q\n", n, len(files[n]), clip(string(files[n]), 20000))
	}
	Current(current)
	tb.Logf("config:\n%v", clip(cfg, 5000))
	for _, n := range names {
		tb.Logf("file %v (%v bytes): %q", n, len(files[n]), clip(string(files[n]), 1500))
	}
}

// StartIn is Start in an existing directory, which it leaves in place.
func StartIn(tb TB, dir string, cfg string, files Files) (*Rig, error) {
	tb.Helper()
	logFiles(tb, cfg, files)
	for n, data := range files {
		WriteFile(filepath.Join(dir, n), data)
	}
	path := filepath.Join(dir, "rodb.yaml")
	WriteFile(path, []byte(strings.ReplaceAll(cfg, "@DIR@", dir)))
	return Load(dir, path)
}

// Load starts rodb on the configuration file at path.
func Load(dir string, path string) (*Rig, error) {
	r := &Rig{Dir: dir}
	log, buf := Logger(nil)
	r.Log = buf
	conf, err := config.NewConfigFromYamlFile(path, log)
	if err != nil {
		return nil, &StartError{"config", err}
	}
	if r.Parsers, err = parser.NewFromConfigs(conf.Parsers); err != nil {
		return nil, &StartError{"parsers", err}
	}
	before := inotifyFds()
	if r.Inputs, err = input.NewFromConfigs(conf.Inputs, r.Parsers); err != nil {
		closeNew(before)
		return nil, &StartError{"inputs", err}
	}
	if r.Indexes, err = index.NewFromConfigs(conf.Indexes, r.Inputs); err != nil {
		_ = input.Close(r.Inputs)
		return nil, &StartError{"indexes", err}
	}
	if r.Outputs, err = output.NewFromConfigs(conf.Outputs, r.Inputs, r.Indexes, r.Parsers); err != nil {
		_ = index.Close(r.Indexes)
		_ = input.Close(r.Inputs)
		return nil, &StartError{"outputs", err}
	}
	if r.Services, err = service.NewFromConfigs(conf.Services, r.Outputs, log); err != nil {
		_ = output.Close(r.Outputs)
		_ = index.Close(r.Indexes)
		_ = input.Close(r.Inputs)
		return nil, &StartError{"services", err}
	}
	r.client = NewClient()
	return r, nil
}

// A watcher that rodb leaves open when an input fails to start would exhaust
// the (small) number of inotify instances after some hundred cases.
func inotifyFds() map[int]bool {
	fds := map[int]bool{}
	entries, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return fds
	}
	for _, e := range entries {
		target, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err == nil && strings.Contains(target, "inotify") {
			var n int
			fmt.Sscanf(e.Name(), "%d", &n)
			fds[n] = true
		}
	}
	return fds
}

func closeNew(before map[int]bool) {
	for fd := range inotifyFds() {
		if !before[fd] {
			_ = syscall.Close(fd)
		}
	}
}

// Close stops the instance and removes its files.
func (r *Rig) Close() {
	if r == nil {
		return
	}
	r.client.CloseIdleConnections()
	_ = service.Close(r.Services)
	_ = output.Close(r.Outputs)
	_ = index.Close(r.Indexes)
	_ = input.Close(r.Inputs)
	_ = parser.Close(r.Parsers)
	if r.ownDir {
		os.RemoveAll(r.Dir)
	}
}

func NewClient() *http.Client {
	return &http.Client{
		Timeout: 60 * time.Second,
		Transport: &http.Transport{
			Proxy:               nil,
			TLSClientConfig:     &tls.Config{InsecureSkipVerify: true},
			MaxIdleConnsPerHost: 64,
			DisableCompression:  true,
			DialContext:         (&net.Dialer{Timeout: 60 * time.Second}).DialContext,
		},
		CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
	}
}

// Resp is one HTTP answer.
type Resp struct {
	Status int
	Type   string
	Body   []byte
	Err    error // no complete answer was received
}

func (r Resp) String() string {
	if r.Err != nil {
		return fmt.Sprintf("no answer: %v", r.Err)
	}
	return fmt.Sprintf("%d [%s] %s", r.Status, r.Type, clip(string(r.Body), 3000))
}

// URL builds a request target from an unescaped path and query.
func URL(path string, query url.Values) string {
	u := url.URL{Path: path, RawQuery: query.Encode()}
	return u.String()
}

// Address returns the base URL of a service.
func (r *Rig) Address(serviceName string) string {
	s, ok := r.Services[serviceName]
	if !ok {
		return "" // requests to it have no answer
	}
	return s.Address()
}

// Get requests target (an escaped path and query) from the service named "http".
func (r *Rig) Get(target string) Resp { return r.Do("http", "GET", target, nil) }

func (r *Rig) Do(serviceName, method, target string, body []byte) Resp {
	return r.DoAt(r.Address(serviceName), method, target, body)
}

func (r *Rig) DoAt(base, method, target string, body []byte) Resp {
	return Request(r.client, base, method, target, body)
}

func Request(client *http.Client, base, method, target string, body []byte) Resp {
	if base == "" {
		return Resp{Err: errors.New("the service was not started")}
	}
	var reader io.Reader
	if body != nil {
		reader = bytes.NewReader(body)
	}
	req, err := http.NewRequestWithContext(context.Background(), method, base+target, reader)
	if err != nil {
		Harness("request %v %q: %v", method, target, err)
	}
	res, err := client.Do(req)
	if err != nil {
		return Resp{Err: err}
	}
	defer res.Body.Close()
	data, err := io.ReadAll(res.Body)
	if err != nil {
		return Resp{Status: res.StatusCode, Err: fmt.Errorf("incomplete body: %w", err)}
	}
	return Resp{Status: res.StatusCode, Type: res.Header.Get("Content-Type"), Body: data}
}

// WellFormed checks that the answer is one complete JSON document of the right shape for its status.
func (r Resp) WellFormed() error {
	if r.Err != nil {
		return r.Err
	}
	if r.Type != "application/json" && !strings.HasPrefix(r.Type, "application/json;") {
		return fmt.Errorf("content type %q", r.Type)
	}
	v, err := DecodeJSON(r.Body)
	if err != nil {
		return fmt.Errorf("status %d, body %q: %v", r.Status, clip(string(r.Body), 500), err)
	}
	switch r.Status {
	case 200:
	case 404, 500:
		m, ok := v.(map[string]interface{})
		if !ok {
			return fmt.Errorf("status %d without an error object: %s", r.Status, clip(string(r.Body), 500))
		}
		if s, ok := m["error"].(string); !ok || s == "" {
			return fmt.Errorf("status %d without an error message: %s", r.Status, clip(string(r.Body), 500))
		}
	default:
		return fmt.Errorf("status %d", r.Status)
	}
	return nil
}

// DecodeJSON decodes exactly one JSON document.
func DecodeJSON(data []byte) (interface{}, error) {
	dec := json.NewDecoder(bytes.NewReader(data))
	dec.UseNumber()
	var v interface{}
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	var extra interface{}
	if err := dec.Decode(&extra); !errors.Is(err, io.EOF) {
		return nil, fmt.Errorf("more than one JSON document")
	}
	return v, nil
}
