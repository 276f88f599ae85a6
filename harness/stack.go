package main

// Builds rodb component stacks through their exported constructors, exactly
// the way cmd/main.go does, from a YAML configuration.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/rodb-io/rodb/pkg/config"
	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/rodb-io/rodb/pkg/service"
	"github.com/sirupsen/logrus"
)

// fatalExit is what a logger.Fatal becomes inside the harness.
type fatalExit struct{ code int }

type logSink struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *logSink) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (l *logSink) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

func newLogger() (*logrus.Logger, *logSink) {
	sink := &logSink{}
	log := logrus.New()
	log.SetOutput(sink)
	log.SetLevel(logrus.WarnLevel)
	log.SetFormatter(&logrus.TextFormatter{DisableTimestamp: true, DisableColors: true})
	log.ExitFunc = func(code int) {}
	return log, sink
}

type Stack struct {
	Config   *config.Config
	Parsers  parser.List
	Inputs   input.List
	Indexes  index.List
	Outputs  output.List
	Services service.List
	Log      *logSink
	client   *http.Client
}

// stageError says at which stage the configuration was refused.
type stageError struct {
	stage string
	err   error
}

func (s *stageError) Error() string { return s.stage + ": " + s.err.Error() }
func (s *stageError) Unwrap() error { return s.err }

func loadConfig(dir, yaml string) (*config.Config, *logSink, error) {
	path := filepath.Join(dir, "rodb.yaml")
	must(os.WriteFile(path, []byte(yaml), 0o644))
	log, sink := newLogger()
	cfg, err := config.NewConfigFromYamlFile(path, log)
	return cfg, sink, err
}

// NewStack builds everything up to (and including) the given stage:
// "config", "inputs", "indexes", "outputs" or "services".
func NewStack(dir, yaml, upTo string) (s *Stack, err error) {
	path := filepath.Join(dir, "rodb.yaml")
	must(os.WriteFile(path, []byte(yaml), 0o644))
	log, sink := newLogger()
	s = &Stack{Log: sink}
	defer func() {
		if err != nil {
			s.Close()
			s = nil
		}
	}()
	defer func() {
		if r := recover(); r != nil {
			s.Close()
			panic(r)
		}
	}()
	if s.Config, err = config.NewConfigFromYamlFile(path, log); err != nil {
		return s, &stageError{"config", err}
	}
	if upTo == "config" {
		return s, nil
	}
	if s.Parsers, err = parser.NewFromConfigs(s.Config.Parsers); err != nil {
		return s, &stageError{"parsers", err}
	}
	for try := 0; ; try++ {
		s.Inputs, err = input.NewFromConfigs(s.Config.Inputs, s.Parsers)
		if err != nil && strings.Contains(err.Error(), "too many open files") && try < 5000 {
			time.Sleep(20 * time.Millisecond)
			continue
		}
		break
	}
	if err != nil {
		return s, &stageError{"inputs", err}
	}
	if upTo == "inputs" {
		return s, nil
	}
	if s.Indexes, err = index.NewFromConfigs(s.Config.Indexes, s.Inputs); err != nil {
		return s, &stageError{"indexes", err}
	}
	if upTo == "indexes" {
		return s, nil
	}
	if s.Outputs, err = output.NewFromConfigs(s.Config.Outputs, s.Inputs, s.Indexes, s.Parsers); err != nil {
		return s, &stageError{"outputs", err}
	}
	if upTo == "outputs" {
		return s, nil
	}
	if s.Services, err = service.NewFromConfigs(s.Config.Services, s.Outputs, log); err != nil {
		return s, &stageError{"services", err}
	}
	return s, nil
}

func (s *Stack) Close() {
	if s == nil {
		return
	}
	if s.client != nil {
		s.client.CloseIdleConnections()
	}
	_ = service.Close(s.Services)
	_ = output.Close(s.Outputs)
	_ = index.Close(s.Indexes)
	_ = input.Close(s.Inputs)
	_ = parser.Close(s.Parsers)
}

// Reply is what a request through an output produced.
type Reply struct {
	Status int // 200, 404, 500
	Body   string
	Err    string // error text for non-200
	Count  int    // number of sendError/sendSuccess calls
	Ret    error
}

func (r Reply) String() string {
	if r.Status == 200 {
		return fmt.Sprintf("200 %s", strings.TrimSpace(r.Body))
	}
	return fmt.Sprintf("%d error %q", r.Status, r.Err)
}

// Ask calls an output the way the HTTP service does.
func Ask(o output.Output, params map[string]string) Reply {
	var rep Reply
	var buf bytes.Buffer
	p := map[string]string{}
	for k, v := range params {
		p[k] = v
	}
	rep.Ret = o.Handle(p, []byte{}, func(err error) error {
		rep.Count++
		rep.Status = 500
		if errors.Is(err, record.RecordNotFoundError) {
			rep.Status = 404
		}
		if err != nil {
			rep.Err = err.Error()
		}
		return nil
	}, func() io.Writer {
		rep.Count++
		rep.Status = 200
		return &buf
	})
	rep.Body = buf.String()
	return rep
}

// Get sends a GET over the loopback to the (single) HTTP service of the stack.
func (s *Stack) Get(name, target string) (int, http.Header, string, error) {
	svc := s.Services[name]
	if s.client == nil {
		s.client = &http.Client{
			Transport: &http.Transport{MaxIdleConnsPerHost: 4, DisableCompression: true},
			CheckRedirect: func(*http.Request, []*http.Request) error {
				return http.ErrUseLastResponse
			},
			Timeout: 60 * time.Second,
		}
	}
	resp, err := s.client.Get(svc.Address() + target)
	if err != nil {
		return 0, nil, "", err
	}
	defer resp.Body.Close()
	body, err := io.ReadAll(resp.Body)
	return resp.StatusCode, resp.Header, string(body), err
}

// rawRequest sends bytes on a fresh connection and returns everything read.
func rawRequest(addr string, data string) (string, error) {
	addr = strings.TrimPrefix(addr, "http://")
	conn, err := net.DialTimeout("tcp", addr, 20*time.Second)
	if err != nil {
		return "", err
	}
	defer conn.Close()
	_ = conn.SetDeadline(time.Now().Add(60 * time.Second))
	if _, err := conn.Write([]byte(data)); err != nil {
		return "", err
	}
	out, err := io.ReadAll(conn)
	return string(out), err
}

// drainRecords runs an input iterator to its end (at most max records).
func drainRecords(in input.Input, max int) (recs []record.Record, err error) {
	it, end, err := in.IterateAll()
	if err != nil {
		return nil, err
	}
	defer func() {
		if e := end(); e != nil && err == nil {
			err = fmt.Errorf("closing iterator: %w", e)
		}
	}()
	for len(recs) <= max {
		r, err := it()
		if err != nil {
			return recs, err
		}
		if r == nil {
			return recs, nil
		}
		if v := reflect.ValueOf(r); v.Kind() == reflect.Ptr && v.IsNil() {
			return recs, nil
		}
		recs = append(recs, r)
	}
	return recs, violf("endless-iterator", "the iterator produced more than %d records", max)
}

func drainPositions(it record.PositionIterator, max int) ([]int64, error) {
	out := []int64{}
	for len(out) <= max {
		p, err := it()
		if err != nil {
			return out, err
		}
		if p == nil {
			return out, nil
		}
		out = append(out, *p)
	}
	return out, violf("endless-iterator", "the position iterator produced more than %d positions", max)
}

func js(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

// show renders values with their Go types so that 1 and "1" differ.
func show(v interface{}) string {
	switch t := v.(type) {
	case nil:
		return "null"
	case map[string]interface{}:
		keys := sortedKeys(t)
		var b strings.Builder
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteByte(',')
			}
			fmt.Fprintf(&b, "%q:%s", k, show(t[k]))
		}
		b.WriteByte('}')
		return b.String()
	case []interface{}:
		parts := make([]string, len(t))
		for i, x := range t {
			parts[i] = show(x)
		}
		return "[" + strings.Join(parts, ",") + "]"
	case string:
		return fmt.Sprintf("%q", t)
	default:
		return fmt.Sprintf("%T(%v)", v, v)
	}
}

func recShow(r record.Record) (string, error) {
	all, err := r.All()
	if err != nil {
		return "", err
	}
	return show(all), nil
}

func sortedKeys(m map[string]interface{}) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	for i := range keys {
		for j := i + 1; j < len(keys); j++ {
			if keys[j] < keys[i] {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	return keys
}

func writeFile(path, content string) {
	must(os.WriteFile(path, []byte(content), 0o644))
}

// words enumerates every string over alphabet of length 0..max.
func words(alphabet []string, max int) []string {
	out := []string{""}
	level := []string{""}
	for l := 1; l <= max; l++ {
		next := make([]string, 0, len(level)*len(alphabet))
		for _, w := range level {
			for _, a := range alphabet {
				next = append(next, w+a)
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

// tuples enumerates every sequence of length 0..max over 0..n-1.
func tuples(n, max int) [][]int {
	out := [][]int{{}}
	level := [][]int{{}}
	for l := 1; l <= max; l++ {
		next := [][]int{}
		for _, w := range level {
			for a := 0; a < n; a++ {
				t := append(append([]int{}, w...), a)
				next = append(next, t)
			}
		}
		out = append(out, next...)
		level = next
	}
	return out
}

// subsets enumerates every subset of 0..n-1, in ascending order.
func subsets(n int) [][]int {
	out := [][]int{}
	for m := 0; m < 1<<n; m++ {
		s := []int{}
		for i := 0; i < n; i++ {
			if m&(1<<i) != 0 {
				s = append(s, i)
			}
		}
		out = append(out, s)
	}
	return out
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	out := [][]int{}
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append([]int{}, p[:i]...)
			q = append(q, n-1)
			q = append(q, p[i:]...)
			out = append(out, q)
		}
	}
	return out
}

func yamlQuote(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}
