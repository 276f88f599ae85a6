package main

// Shared machinery: case bookkeeping, violations, known findings, evidence.

import (
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Viol is a violation of the property under check. Key identifies it (known
// findings are matched on it), Detail explains it.
type Viol struct {
	Key    string
	Detail string
}

func (v *Viol) Error() string { return v.Key + ": " + v.Detail }

func violf(key string, format string, args ...interface{}) error {
	return &Viol{Key: key, Detail: fmt.Sprintf(format, args...)}
}

// harnessError is a failure of the machinery itself (scratch directory cannot
// be written, ...): it never counts as a violation.
type harnessError struct{ err error }

func (h *harnessError) Error() string { return "harness: " + h.err.Error() }

func must(err error) {
	if err != nil {
		panic(&harnessError{err})
	}
}

type known struct {
	property string
	pattern  string
	what     string
	hits     int
}

type Ctx struct {
	Prop    string
	Tier    string
	Seed    int64
	Verif   string
	Repo    string
	Scratch string
	start   time.Time
	limit   time.Duration

	mu          sync.Mutex
	evals       int64
	transitions int64
	traces      int64
	distinct    int64
	states      map[[8]byte]struct{}
	outcomes    map[string]int64
	samples     []interface{}
	sampleEvery int64
	viols       []string
	violKeys    map[string]bool
	known       []*known
	unconfirmed []string
	capped      bool
	notes       []string
	extra       map[string]interface{}
	Level       string
	Rule        string
	Assume      []string
	replayOnly  string
	stop        int32
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns the first value for the quick tier, the second for thorough.
func (c *Ctx) Pick(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

func (c *Ctx) Expired() bool {
	if atomic.LoadInt32(&c.stop) != 0 {
		return true
	}
	if time.Since(c.start) > c.limit {
		c.mu.Lock()
		c.capped = true
		c.mu.Unlock()
		return true
	}
	return false
}

// Left is the time left before the limit.
func (c *Ctx) Left() time.Duration { return c.limit - time.Since(c.start) }

func (c *Ctx) Step(n int) { atomic.AddInt64(&c.transitions, int64(n)) }
func (c *Ctx) Trace()     { atomic.AddInt64(&c.traces, 1) }

// Count adds states that are distinct by construction, and traces.
func (c *Ctx) Count(states, traces int) {
	atomic.AddInt64(&c.distinct, int64(states))
	atomic.AddInt64(&c.traces, int64(traces))
}

// State records a canonical state reached by the exploration.
func (c *Ctx) State(parts ...interface{}) {
	h := sha1.New()
	for _, p := range parts {
		fmt.Fprintf(h, "%v\x00", p)
	}
	var k [8]byte
	copy(k[:], h.Sum(nil))
	c.mu.Lock()
	c.states[k] = struct{}{}
	c.mu.Unlock()
}

// Outcome counts the distinct kinds of observations, to spot vacuity.
func (c *Ctx) Outcome(kind string) {
	c.mu.Lock()
	c.outcomes[kind]++
	c.mu.Unlock()
}

func (c *Ctx) Note(format string, args ...interface{}) {
	c.mu.Lock()
	c.notes = append(c.notes, fmt.Sprintf(format, args...))
	c.mu.Unlock()
}

func (c *Ctx) Extra(key string, value interface{}) {
	c.mu.Lock()
	c.extra[key] = value
	c.mu.Unlock()
}

func (c *Ctx) Sample(v interface{}) {
	c.mu.Lock()
	if len(c.samples) < 12 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

func guarded(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(*harnessError); ok {
				err = h
				return
			}
			if v, ok := r.(*Viol); ok {
				err = v
				return
			}
			stack := string(debug.Stack())
			err = &Viol{Key: "panic:" + panicSite(stack), Detail: fmt.Sprintf("panic: %v\n%s", r, stack)}
		}
	}()
	return f()
}

// panicSite names the innermost rodb function on the stack of a panic.
func panicSite(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "rodb-io/rodb/") && strings.Contains(l, "(") && !strings.HasPrefix(l, "\t") {
			l = l[strings.Index(l, "rodb-io/rodb/")+len("rodb-io/rodb/"):]
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "outside-rodb"
}

// Case runs one case. id must describe the case completely.
func (c *Ctx) Case(id string, f func() error) {
	if c.replayOnly != "" && c.replayOnly != id {
		return
	}
	n := atomic.AddInt64(&c.evals, 1)
	if n == 1 || n == 17 || n == 400 || n == 4001 || n == 20011 {
		c.Sample(id)
	}
	err := guarded(f)
	if err == nil {
		return
	}
	c.fail(id, err, f)
}

func (c *Ctx) fail(id string, err error, f func() error) {
	if h, ok := err.(*harnessError); ok {
		// Machinery trouble: retry once, then note it and go on.
		if err2 := guarded(f); err2 == nil {
			return
		} else if _, still := err2.(*harnessError); still {
			c.Note("harness trouble in %s: %v", id, h)
			c.mu.Lock()
			c.capped = true
			c.mu.Unlock()
			return
		} else {
			err = err2
		}
	}
	v, ok := err.(*Viol)
	if !ok {
		v = &Viol{Key: "error", Detail: err.Error()}
	}
	c.mu.Lock()
	already := c.violKeys[v.Key]
	c.mu.Unlock()
	if already {
		for _, k := range c.known {
			if globMatch(k.pattern, v.Key) {
				c.mu.Lock()
				k.hits++
				c.mu.Unlock()
			}
		}
		return
	}
	// Confirm before believing it.
	confirmed := 0
	for i := 0; i < 8 && confirmed < 3; i++ {
		if err2 := guarded(f); err2 != nil {
			if _, isH := err2.(*harnessError); !isH {
				confirmed++
			}
		}
	}
	if confirmed == 0 {
		c.mu.Lock()
		c.unconfirmed = append(c.unconfirmed, id+" => "+v.Error())
		c.mu.Unlock()
		return
	}
	c.report(id, v)
}

func (c *Ctx) report(id string, v *Viol) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.violKeys[v.Key] {
		return
	}
	c.violKeys[v.Key] = true
	for _, k := range c.known {
		if globMatch(k.pattern, v.Key) {
			k.hits++
			return
		}
	}
	sum := sha1.Sum([]byte(id + v.Key))
	dir := filepath.Join(c.Verif, "evidence", "replay")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, c.Prop+"-"+hex.EncodeToString(sum[:6])+".json")
	data, _ := json.MarshalIndent(map[string]interface{}{
		"property": c.Prop,
		"tier":     c.Tier,
		"case":     id,
		"key":      v.Key,
		"detail":   v.Detail,
		"replay":   fmt.Sprintf("VERIF_CASE='%s' %s/bin/check %s %s", strings.ReplaceAll(id, "'", `'\''`), c.Verif, c.Prop, c.Tier),
	}, "", "  ")
	_ = os.WriteFile(path, data, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, path)
	fmt.Printf("  case: %s\n  key: %s\n  %s\n", clip(id, 600), v.Key, clip(strings.ReplaceAll(v.Detail, "\n", "\n  "), 3000))
	c.viols = append(c.viols, v.Key)
	if len(c.viols) >= 5 {
		atomic.StoreInt32(&c.stop, 1)
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// globMatch: '*' matches anything.
func globMatch(pattern, s string) bool {
	parts := strings.Split(pattern, "*")
	if len(parts) == 1 {
		return pattern == s
	}
	if !strings.HasPrefix(s, parts[0]) {
		return false
	}
	s = s[len(parts[0]):]
	for i := 1; i < len(parts); i++ {
		p := parts[i]
		if i == len(parts)-1 {
			return strings.HasSuffix(s, p)
		}
		j := strings.Index(s, p)
		if j < 0 {
			return false
		}
		s = s[j+len(p):]
	}
	return true
}

func loadKnown(path, prop string) []*known {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []*known
	for _, line := range strings.Split(string(data), "\n") {
		// known: property=C03 key=<glob> :: what fails
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		rest := strings.TrimPrefix(line, "known: ")
		i := strings.Index(rest, " :: ")
		if i < 0 {
			continue
		}
		k := &known{what: rest[i+4:]}
		head := rest[:i]
		if !strings.HasPrefix(head, "property="+prop+" key=") {
			continue
		}
		k.property = prop
		k.pattern = strings.TrimPrefix(head, "property="+prop+" key=")
		out = append(out, k)
	}
	return out
}

// Parallel runs f(0..n-1) over the cores, stopping when the time is up.
func (c *Ctx) Parallel(n int, f func(i int)) {
	workers := 112 // far more than cores: closing an inotify watcher mostly waits
	c.ParallelN(workers, n, f)
}

func (c *Ctx) ParallelN(workers, n int, f func(i int)) {
	var next int64 = -1
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || c.Expired() {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

var tmpCounter int64

// Dir makes a scratch directory; the returned function removes it.
func (c *Ctx) Dir() (string, func()) {
	d := filepath.Join(c.Scratch, fmt.Sprintf("d%d", atomic.AddInt64(&tmpCounter, 1)))
	must(os.MkdirAll(d, 0o755))
	return d, func() { _ = os.RemoveAll(d) }
}

// Closing a watcher mostly waits for the kernel, and many can be closed at the
// same time; a user has 128 of them at most.
var closers = make(chan struct{}, 48)

// Later runs what closes the components of a case, beside the next cases.
func (c *Ctx) Later(f func()) {
	closers <- struct{}{}
	go func() {
		defer func() { <-closers }()
		if err := guarded(func() error { f(); return nil }); err != nil {
			c.Case("closing the components of a case", func() error { return err })
		}
	}()
}

// waitingInRodb gives a goroutine of a request or of a case that waits in the
// code of rodb and did not move in the given time, if any.
func waitingInRodb(still time.Duration) string {
	waiting := func() map[string]bool {
		buf := make([]byte, 16<<20)
		buf = buf[:runtime.Stack(buf, true)]
		found := map[string]bool{}
		for _, g := range strings.Split(string(buf), "\n\n") {
			head, stack, _ := strings.Cut(g, "\n")
			if strings.Contains(head, "[run") || !strings.Contains(g, "rodb/pkg/") {
				continue
			}
			if strings.Contains(g, "net/http.(*conn).serve") || strings.Contains(g, "main.guarded") {
				found[strings.Fields(head)[1]+"\n"+stack] = true
			}
		}
		return found
	}
	first := waiting()
	if len(first) == 0 {
		return ""
	}
	time.Sleep(still)
	for g := range waiting() {
		if first[g] {
			return g
		}
	}
	return ""
}

// watchdog gives an answer when the exploration is blocked by the code under
// test: without it the check would never end.
func (c *Ctx) watchdog() {
	for {
		time.Sleep(30 * time.Second)
		if c.Left() > -150*time.Second {
			continue
		}
		stack := waitingInRodb(60 * time.Second)
		if stack == "" {
			continue
		}
		c.report("the exploration does not end", &Viol{Key: "blocked", Detail: "a goroutine waits for ever:\n" + stack})
		_ = os.RemoveAll(c.Scratch)
		os.Exit(1)
	}
}

func (c *Ctx) finish() int {
	for k := 0; k < cap(closers); k++ {
		closers <- struct{}{}
	}
	wall := time.Since(c.start).Seconds()
	exhaustive := !c.capped && len(c.viols) == 0 && len(c.unconfirmed) == 0
	cov := map[string]interface{}{
		"evaluations":                   c.evals,
		"distinct_nontrivial":           len(c.states) + int(c.distinct),
		"states":                        len(c.states) + int(c.distinct),
		"transitions":                   c.transitions,
		"traces_validated_against_impl": c.traces,
		"rule":                          c.Rule,
		"samples":                       c.samples,
		"exhaustive":                    exhaustive,
		"outcomes":                      c.outcomes,
	}
	if c.Level == "fault_enumeration" || c.Level == "exploration" {
		delete(cov, "states")
		delete(cov, "traces_validated_against_impl")
	} else {
		delete(cov, "distinct_nontrivial")
	}
	if len(c.notes) > 0 {
		cov["notes"] = c.notes
	}
	if len(c.unconfirmed) > 0 {
		cov["unconfirmed"] = c.unconfirmed
	}
	for k, v := range c.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property":    c.Prop,
		"tier":        c.Tier,
		"seed":        c.Seed,
		"level":       c.Level,
		"coverage":    cov,
		"assumptions": c.Assume,
		"wall_s":      wall,
		"violations":  len(c.viols),
	}
	data, err := json.MarshalIndent(ev, "", "  ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
	}
	_ = os.MkdirAll(filepath.Join(c.Verif, "evidence"), 0o755)
	if c.replayOnly == "" {
		if err := os.WriteFile(filepath.Join(c.Verif, "evidence", c.Prop+".json"), append(data, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
		}
	}
	keys := []string{}
	for k := range c.outcomes {
		keys = append(keys, fmt.Sprintf("%s=%d", k, c.outcomes[k]))
	}
	sort.Strings(keys)
	fmt.Printf("%s %s: cases=%d states=%d transitions=%d traces=%d exhaustive=%v wall=%.1fs outcomes: %s\n",
		c.Prop, c.Tier, c.evals, len(c.states)+int(c.distinct), c.transitions, c.traces, exhaustive, wall, clip(strings.Join(keys, " "), 600))
	for _, n := range c.notes {
		fmt.Println("note:", clip(n, 400))
	}
	for _, n := range c.unconfirmed {
		fmt.Println("unconfirmed:", clip(n, 600))
	}
	for _, k := range c.known {
		if k.hits > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, k.what)
		} else {
			fmt.Printf("note: known finding not seen in this run: %s\n", k.what)
		}
	}
	if len(c.viols) > 0 {
		return 1
	}
	return 0
}
