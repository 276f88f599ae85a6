package main

// C17, C18: crash points, torn writes and failing writes of index builds.
//
// A child process builds the indexes with the real constructors under strace,
// which records every file operation. Every prefix of that sequence, with the
// last write cut at any byte, is materialised and opened by the real
// constructors. Independently of strace, children also kill themselves at every
// call of the input during the build, and builds run under every file size limit.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"

	"github.com/rodb-io/rodb/pkg/index"
)

func init() {
	childCommands["crash-build"] = func(stdin []byte) interface{} { return crashBuild(stdin) }
	childCommands["limited-builds"] = func(stdin []byte) interface{} { return limitedBuilds(stdin) }
	register("C17", "model_checking",
		"Real builds of wildcard indexes (datasets smaller and larger than the write buffer) run in a child process under strace; every prefix of its file operations, with the last write cut at every byte (at a grid of bytes for long ones), is materialised and opened: refused, or every answer equals the reference. Children also kill themselves at every input call, and builds run under every file size limit (every write that hits it fails), and with every single write failing. A state is a (build, crash point); a transition is one opening or query.",
		func(c *Ctx) { runCrash(c, true) })
	register("C18", "model_checking",
		"Same as C17 for sqlite and fts5 indexes, alone and added beside one or two completed indexes of the same database: after every crash point each index is refused, fails its queries or answers as the reference.",
		func(c *Ctx) { runCrash(c, false) })
}

type jspec struct {
	Kind, Name string
	Props      []string
	Collate    map[string]string
	Ignore     bool
	Tokenize   string
	Prefix     []int
	Path       string
}

func (j jspec) spec() pspec {
	return pspec{kind: j.Kind, name: j.Name, props: j.Props, collate: j.Collate, ignore: j.Ignore, tokenize: j.Tokenize, prefix: j.Prefix, path: j.Path}
}

func (s pspec) json() jspec {
	return jspec{s.kind, s.name, s.props, s.collate, s.ignore, s.tokenize, s.prefix, s.path}
}

type crashJob struct {
	Dir    string
	Specs  []jspec
	Rows   []map[string]interface{}
	KillAt int64 // die at this input call
	Limits []int64
}

type buildResult struct {
	Errors []string
	Calls  int64
}

func crashBuild(stdin []byte) buildResult {
	var job crashJob
	must(json.Unmarshal(stdin, &job))
	m := newMem("in", job.Rows)
	m.killAt = job.KillAt
	res := buildResult{}
	for _, j := range job.Specs {
		ix, err := j.spec().open(m, job.Dir)
		if err != nil {
			res.Errors = append(res.Errors, j.Name+": "+err.Error())
			continue
		}
		_ = ix.Close()
	}
	res.Calls = m.calls
	return res
}

type limitResult struct {
	Limit  int64
	Failed bool
	Err    string
}

// limitedBuilds builds everything under each file size limit, then opens the
// result with no limit.
func limitedBuilds(stdin []byte) interface{} {
	var job crashJob
	must(json.Unmarshal(stdin, &job))
	sig := make(chan os.Signal, 1000)
	signal.Notify(sig, syscall.SIGXFSZ)
	var unlimited syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &unlimited))
	out := []limitResult{}
	for n, limit := range job.Limits {
		dir := filepath.Join(job.Dir, strconv.Itoa(n))
		must(os.Mkdir(dir, 0o755))
		m := newMem("in", job.Rows)
		res := limitResult{Limit: limit}
		// all but the last index are completed first
		for _, j := range job.Specs[:len(job.Specs)-1] {
			ix, err := j.spec().open(m, dir)
			must(err)
			must(ix.Close())
		}
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(limit), Max: unlimited.Max}))
		ix, err := job.Specs[len(job.Specs)-1].spec().open(m, dir)
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &unlimited))
		if err != nil {
			res.Failed, res.Err = true, err.Error()
		} else {
			_ = ix.Close()
		}
		out = append(out, res)
	}
	return out
}

// fileOp is one recorded operation on a file of the directory.
type fileOp struct {
	kind string // create, truncate, write, unlink, rename
	file string
	to   string
	off  int64
	data []byte
	size int64
}

func (o fileOp) String() string {
	return fmt.Sprintf("%s %s off=%d len=%d", o.kind, o.file, o.off, len(o.data))
}

func unhex(s string) string {
	if !strings.Contains(s, `\x`) {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); {
		if s[i] == '\\' && i+3 < len(s) && s[i+1] == 'x' {
			v, err := strconv.ParseUint(s[i+2:i+4], 16, 8)
			must(err)
			b.WriteByte(byte(v))
			i += 4
			continue
		}
		b.WriteByte(s[i])
		i++
	}
	return b.String()
}

// parseStrace extracts the operations on files under dir. It refuses (error)
// any operation it does not understand rather than mis-modelling it.
func parseStrace(trace []byte, dir string) ([]fileOp, error) {
	ops := []fileOp{}
	pos := map[string]int64{} // pid-independent: file position by fd and path
	pending := map[string]string{}
	sc := bufio.NewScanner(bytes.NewReader(trace))
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		line := sc.Text()
		sp := strings.IndexByte(line, ' ')
		if sp < 0 {
			continue
		}
		pid, rest := line[:sp], strings.TrimSpace(line[sp:])
		if strings.HasPrefix(rest, "---") || strings.HasPrefix(rest, "+++") {
			continue
		}
		if i := strings.Index(rest, " <unfinished ...>"); i >= 0 {
			pending[pid] = rest[:i]
			continue
		}
		if strings.HasPrefix(rest, "<... ") {
			i := strings.Index(rest, " resumed>")
			if i < 0 {
				return nil, fmt.Errorf("cannot parse %q", clip(line, 200))
			}
			rest = pending[pid] + rest[i+len(" resumed>"):]
			delete(pending, pid)
		}
		open := strings.IndexByte(rest, '(')
		eq := strings.LastIndex(rest, " = ")
		if open < 0 || eq < 0 {
			return nil, fmt.Errorf("cannot parse %q", clip(line, 200))
		}
		name, ret := rest[:open], rest[eq+3:]
		closing := strings.LastIndexByte(rest[:eq], ')')
		args := strings.Split(rest[open+1:closing], ", ")
		if strings.HasPrefix(ret, "-1 ") || strings.HasPrefix(ret, "?") {
			continue
		}
		fdPath := func(arg string) (string, bool) {
			i, j := strings.IndexByte(arg, '<'), strings.LastIndexByte(arg, '>')
			if i < 0 || j < i {
				return "", false
			}
			p := unhex(arg[i+1 : j])
			if !strings.HasPrefix(p, dir+"/") {
				return "", false
			}
			return strings.TrimSuffix(strings.TrimPrefix(p, dir+"/"), " (deleted)"), true
		}
		named := func(arg string) (string, bool) {
			p := unhex(strings.Trim(arg, `"`))
			if !strings.HasPrefix(p, dir+"/") {
				return "", false
			}
			return strings.TrimPrefix(p, dir+"/"), true
		}
		integer := func(s string) int64 {
			n, err := strconv.ParseInt(strings.TrimSpace(s), 0, 64)
			must(err)
			return n
		}
		retInt := func() int64 { return integer(strings.Fields(ret)[0]) }
		switch name {
		case "openat", "open":
			k := 1
			if name == "open" {
				k = 0
			}
			f, in := named(args[k])
			if !in {
				continue
			}
			if strings.Contains(args[k+1], "O_CREAT") {
				ops = append(ops, fileOp{kind: "create", file: f})
			}
			if strings.Contains(args[k+1], "O_TRUNC") {
				ops = append(ops, fileOp{kind: "truncate", file: f})
			}
			if strings.Contains(args[k+1], "O_APPEND") {
				return nil, fmt.Errorf("append mode is not modelled")
			}
			pos[strings.Fields(ret)[0][:strings.IndexByte(strings.Fields(ret)[0]+"<", '<')]] = 0
		case "lseek":
			if _, in := fdPath(args[0]); in {
				pos[args[0][:strings.IndexByte(args[0], '<')]] = retInt()
			}
		case "write", "pwrite64":
			f, in := fdPath(args[0])
			if !in {
				continue
			}
			data := unhex(strings.Trim(args[1], `"`))
			if strings.HasSuffix(args[1], "...") || int64(len(data)) < retInt() {
				return nil, fmt.Errorf("shortened data in the trace")
			}
			fd := args[0][:strings.IndexByte(args[0], '<')]
			off := pos[fd]
			if name == "pwrite64" {
				off = integer(args[3])
			} else {
				pos[fd] += retInt()
			}
			ops = append(ops, fileOp{kind: "write", file: f, off: off, data: []byte(data[:retInt()])})
		case "ftruncate":
			if f, in := fdPath(args[0]); in {
				ops = append(ops, fileOp{kind: "truncate", file: f, size: integer(args[1])})
			}
		case "unlink":
			if f, in := named(args[0]); in {
				ops = append(ops, fileOp{kind: "unlink", file: f})
			}
		case "unlinkat":
			if f, in := named(args[1]); in {
				ops = append(ops, fileOp{kind: "unlink", file: f})
			}
		case "rename":
			if f, in := named(args[0]); in {
				to, _ := named(args[1])
				ops = append(ops, fileOp{kind: "rename", file: f, to: to})
			}
		case "renameat", "renameat2":
			if f, in := named(args[1]); in {
				to, _ := named(args[3])
				ops = append(ops, fileOp{kind: "rename", file: f, to: to})
			}
		case "writev", "pwritev", "pwritev2", "fallocate", "copy_file_range", "sendfile":
			if _, in := fdPath(args[0]); in {
				return nil, fmt.Errorf("%s is not modelled", name)
			}
		case "mmap":
			if len(args) > 4 && strings.Contains(args[2], "PROT_WRITE") && strings.Contains(args[3], "MAP_SHARED") {
				if _, in := fdPath(args[4]); in {
					return nil, fmt.Errorf("shared mapping is not modelled")
				}
			}
		}
	}
	return ops, sc.Err()
}

type fileSet map[string][]byte

func (fs fileSet) clone() fileSet {
	out := fileSet{}
	for k, v := range fs {
		out[k] = append([]byte{}, v...)
	}
	return out
}

// apply performs the operation, of a write only the first cut bytes.
func (fs fileSet) apply(o fileOp, cut int) {
	switch o.kind {
	case "create":
		if _, ok := fs[o.file]; !ok {
			fs[o.file] = []byte{}
		}
	case "truncate":
		b := fs[o.file]
		for int64(len(b)) < o.size {
			b = append(b, 0)
		}
		fs[o.file] = b[:o.size]
	case "unlink":
		delete(fs, o.file)
	case "rename":
		fs[o.to] = fs[o.file]
		delete(fs, o.file)
	case "write":
		b := fs[o.file]
		for len(b) < int(o.off)+cut {
			b = append(b, 0)
		}
		copy(b[o.off:], o.data[:cut])
		fs[o.file] = b
	}
}

func (fs fileSet) write(dir string) {
	for name, data := range fs {
		must(os.WriteFile(filepath.Join(dir, name), data, 0o644))
	}
}

func readFileSet(dir string) fileSet {
	fs := fileSet{}
	entries, err := os.ReadDir(dir)
	must(err)
	for _, e := range entries {
		data, err := os.ReadFile(filepath.Join(dir, e.Name()))
		must(err)
		fs[e.Name()] = data
	}
	return fs
}

// stracedBuild runs the build in a child under strace with extra options.
func stracedBuild(c *Ctx, job crashJob, options ...string) (trace []byte, res buildResult, err error) {
	self, err := os.Executable()
	must(err)
	data, err := json.Marshal(job)
	must(err)
	out := job.Dir + ".trace"
	defer os.Remove(out)
	args := append([]string{"-f", "-qq", "-y", "-xx", "-s", "4000000", "-o", out,
		"-e", "trace=open,openat,creat,write,pwrite64,writev,pwritev,pwritev2,lseek,ftruncate,fallocate,copy_file_range,sendfile,unlink,unlinkat,rename,renameat,renameat2,mmap"}, options...)
	cmd := exec.Command("strace", append(args, self, "child", "crash-build")...)
	cmd.Env = append(os.Environ(), "TMPDIR="+c.Scratch)
	cmd.Stdin = bytes.NewReader(data)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	stdout, err := cmd.Output()
	if err != nil {
		return nil, res, fmt.Errorf("strace: %v: %s", err, clip(stderr.String(), 500))
	}
	if err := json.Unmarshal(stdout, &res); err != nil {
		return nil, res, fmt.Errorf("strace: %v in %s", err, clip(string(stdout), 500))
	}
	trace, err = os.ReadFile(out)
	return trace, res, err
}

type crashScenario struct {
	name  string
	specs []pspec // all but the last are completed before
	rows  []map[string]interface{}
	texts []string
}

func crashScenarios(c *Ctx, wildcard bool) []crashScenario {
	row := func(p, q string) map[string]interface{} { return map[string]interface{}{"p": p, "q": q} }
	small := []map[string]interface{}{row("ab", "b"), row("a b", "A"), row("b", "ab")}
	texts := []string{"", "a", "b", "ab", "A", "zz", "k3", "w1"}
	long := []map[string]interface{}{}
	for i := 0; i < 6; i++ {
		s := ""
		for j := 0; j < 14; j++ {
			s += fmt.Sprintf("k%dv%d", (i*j)%7, (i+j*j)%5)
		}
		long = append(long, row(s, fmt.Sprintf("w%d", i%3)))
	}
	many := []map[string]interface{}{}
	for i := 0; i < 90; i++ {
		many = append(many, row(fmt.Sprintf("k%d %s", i%5, strings.Repeat("x", i%60)), fmt.Sprintf("w%d", i%3)))
	}
	w := func(name string, ignore bool, props ...string) pspec {
		return pspec{kind: "wildcard", name: name, props: props, ignore: ignore, path: name + ".idx"}
	}
	s1 := pspec{kind: "sqlite", name: "s1", props: []string{"p"}, path: "db"}
	s2 := pspec{kind: "sqlite", name: "s2", props: []string{"q", "p"}, collate: map[string]string{"q": "NOCASE"}, path: "db"}
	f1 := pspec{kind: "fts5", name: "f1", props: []string{"p", "q"}, path: "db"}
	f2 := pspec{kind: "fts5", name: "f2", props: []string{"q"}, prefix: []int{1, 2}, path: "db"}
	if wildcard {
		out := []crashScenario{
			{"small", []pspec{w("w", false, "p")}, small, texts},
			{"small-two-properties", []pspec{w("w", true, "p", "q")}, small, texts},
			{"empty", []pspec{w("w", false, "p")}, nil, texts},
			{"long", []pspec{w("w", false, "p", "q")}, long[:2], texts},
		}
		if c.Thorough() {
			out = append(out, crashScenario{"longer", []pspec{w("w", false, "p", "q")}, long, texts})
		}
		return out
	}
	out := []crashScenario{
		{"sqlite", []pspec{s1}, small, texts},
		{"fts5", []pspec{f1}, small, texts},
		{"sqlite-beside-sqlite", []pspec{s1, s2}, small, texts},
		{"fts5-beside-sqlite", []pspec{s2, f1}, small, texts},
		{"sqlite-beside-fts5", []pspec{f1, s2}, small, texts},
		{"fts5-beside-fts5", []pspec{f1, f2}, small, texts},
		{"sqlite-beside-both", []pspec{s1, f1, s2}, small, texts},
		{"fts5-beside-both", []pspec{s1, f1, f2}, small, texts},
		{"sqlite-beside-both-many", []pspec{s1, f1, s2}, many, texts},
	}
	if c.Thorough() {
		out = append(out, crashScenario{"fts5-beside-both-many", []pspec{s1, f1, f2}, many, texts},
			crashScenario{"sqlite-many", []pspec{s1}, many, texts},
			crashScenario{"fts5-many", []pspec{f1}, many, texts},
			crashScenario{"empty", []pspec{s1, s2}, nil, texts})
	}
	return out
}

// afterCrash opens every index of the scenario on the given files.
func (sc crashScenario) afterCrash(c *Ctx, fs fileSet, what, key string) error {
	dir, clean := c.Dir()
	defer clean()
	fs.write(dir)
	before := dirState(dir)
	m := newMem("in", sc.rows)
	for i, s := range sc.specs {
		if _, exists := fs[s.path]; !exists || (s.kind != "wildcard" && len(fs[s.path]) == 0) {
			c.Outcome("no-file")
			continue // the next start creates it from scratch
		}
		iterations := m.opened
		ix, err := s.open(m, dir)
		c.Step(1)
		if err != nil {
			c.Outcome("refused")
			continue
		}
		k := key + ":" + s.kind
		if i < len(sc.specs)-1 {
			k += "-beside"
		}
		if m.opened != iterations {
			// no trace of it was in the file yet: it was created from scratch
			c.Outcome("created-again")
		} else {
			c.Outcome("opened")
		}
		err = s.ask(c, ix, m, sc.texts, true, k, fmt.Sprintf("%s: %s", sc.name, what))
		_ = ix.Close()
		if err != nil {
			return err
		}
		if sc.specs[0].kind == "wildcard" && dirState(dir) != before {
			return violf(k+":modified", "%s: %s: opening modified the file", sc.name, what)
		}
	}
	return nil
}

func runCrash(c *Ctx, wildcard bool) {
	prefix := map[bool]string{true: "crash:wildcard", false: "crash:sqlite"}[wildcard]
	for _, sc := range crashScenarios(c, wildcard) {
		sc := sc
		// The completed indexes beside which the last one is built.
		baseDir, cleanBase := c.Dir()
		m := newMem("in", sc.rows)
		broken := false
		for _, s := range sc.specs[:len(sc.specs)-1] {
			ix, err := s.open(m, baseDir)
			if err != nil {
				c.Case("build "+sc.name, func() error { return violf(prefix+":build-refused", "%s: %v", s, err) })
				broken = true
				break
			}
			_ = ix.Close()
		}
		if broken {
			cleanBase()
			continue
		}
		base := readFileSet(baseDir)
		cleanBase()
		last := sc.specs[len(sc.specs)-1]
		c.crashByWrites(sc, base, last, prefix)
		c.crashByKill(sc, base, last, prefix)
		c.crashByLimit(sc, last, prefix)
	}
}

func (c *Ctx) crashByWrites(sc crashScenario, base fileSet, last pspec, prefix string) {
	dir, clean := c.Dir()
	defer clean()
	base.write(dir)
	trace, res, err := stracedBuild(c, crashJob{Dir: dir, Specs: []jspec{last.json()}, Rows: sc.rows, KillAt: -1})
	var ops []fileOp
	if err == nil {
		if len(res.Errors) > 0 {
			c.Case("build "+sc.name, func() error { return violf(prefix+":build-refused", "%v", res.Errors) })
			return
		}
		ops, err = parseStrace(trace, dir)
	}
	if err == nil {
		// The model must give the files that are really there.
		fs := base.clone()
		for _, o := range ops {
			fs.apply(o, len(o.data))
		}
		if real := readFileSet(dir); fmt.Sprint(real) != fmt.Sprint(fs) {
			err = fmt.Errorf("replaying the %d recorded operations does not give the real files", len(ops))
		}
	}
	if err != nil {
		c.Note("%s: writes not recorded (%v)", sc.name, err)
		c.Outcome("writes-not-recorded")
		return
	}
	c.Trace()
	type point struct {
		n   int
		cut int
	}
	points := []point{}
	budget := c.Pick(6000, 60000)
	total := 0
	for _, o := range ops {
		total += len(o.data)
	}
	for n, o := range ops {
		cuts := map[int]bool{0: true, len(o.data): true}
		step := 1
		if total > budget {
			step = max(1, len(o.data)/max(4, budget/len(ops)))
		}
		for k := 0; k <= len(o.data); k += step {
			cuts[k] = true
		}
		if step > 1 {
			// both sides of the sectors, and the beginning
			for k := 0; k <= len(o.data); k += 512 {
				cuts[k] = true
			}
			for k := 0; k <= min(len(o.data), c.Pick(24, 100)); k++ {
				cuts[k] = true
			}
		}
		sorted := []int{}
		for k := range cuts {
			if k == 0 && n > 0 {
				continue // same as the complete previous one
			}
			sorted = append(sorted, k)
		}
		sort.Ints(sorted)
		for _, k := range sorted {
			points = append(points, point{n, k})
		}
	}
	const chunk = 64
	c.ParallelN(16, (len(points)+chunk-1)/chunk, func(ci int) {
		c.Case(fmt.Sprintf("crash %s chunk=%d", sc.name, ci), func() error {
			lo, hi := ci*chunk, min(len(points), ci*chunk+chunk)
			before := base.clone()
			for _, o := range ops[:points[lo].n] {
				before.apply(o, len(o.data))
			}
			at := points[lo].n
			for _, p := range points[lo:hi] {
				for at < p.n {
					before.apply(ops[at], len(ops[at].data))
					at++
				}
				fs := before.clone()
				fs.apply(ops[p.n], p.cut)
				what := fmt.Sprintf("crash after %d of %d operations, the last one (%v) cut at %d", p.n+1, len(ops), ops[p.n], p.cut)
				if err := sc.afterCrash(c, fs, what, prefix); err != nil {
					return err
				}
				c.State(sc.name, p.n, p.cut)
			}
			return nil
		})
	})
	c.Extra("operations:"+sc.name, len(ops))
	// Each single write failing.
	writes := 0
	for _, o := range ops {
		if o.kind == "write" {
			writes++
		}
	}
	step := 1
	if limit := c.Pick(60, 600); writes > limit {
		step = (writes + limit - 1) / limit
	}
	fails := []int{}
	for n := 1; n <= writes; n += step {
		fails = append(fails, n)
	}
	if len(fails) > 0 && fails[len(fails)-1] != writes {
		fails = append(fails, writes)
	}
	c.ParallelN(8, len(fails), func(i int) {
		n := fails[i]
		c.Case(fmt.Sprintf("failing write %s %d", sc.name, n), func() error {
			dir, clean := c.Dir()
			defer clean()
			base.write(dir)
			trace, res, err := stracedBuild(c, crashJob{Dir: dir, Specs: []jspec{last.json()}, Rows: sc.rows, KillAt: -1},
				"-P", filepath.Join(dir, last.path), "-e", fmt.Sprintf("inject=write,pwrite64:error=ENOSPC:when=%d", n))
			must(err)
			if !bytes.Contains(trace, []byte("(INJECTED)")) {
				c.Outcome("injection-missed")
				return nil
			}
			if len(res.Errors) == 0 {
				return violf(prefix+":failing-write-ignored", "%s: write %d of %d fails, but the build of %s succeeds", sc.name, n, writes, last)
			}
			c.Outcome("build-failed")
			return sc.afterCrash(c, readFileSet(dir), fmt.Sprintf("failed build (write %d of %d)", n, writes), prefix+":failed-build")
		})
	})
}

// crashByKill: the child dies by SIGKILL at each call of the input.
func (c *Ctx) crashByKill(sc crashScenario, base fileSet, last pspec, prefix string) {
	m := newMem("in", sc.rows)
	dir, clean := c.Dir()
	base.write(dir)
	ix, err := last.open(m, dir)
	closeIndex(ix, err)
	clean()
	calls := int(m.calls)
	step := 1
	if limit := c.Pick(40, 400); calls > limit {
		step = (calls + limit - 1) / limit
	}
	c.ParallelN(8, (calls+step-1)/step, func(i int) {
		n := i * step
		c.Case(fmt.Sprintf("kill %s %d", sc.name, n), func() error {
			dir, clean := c.Dir()
			defer clean()
			base.write(dir)
			self, err := os.Executable()
			must(err)
			data, err := json.Marshal(crashJob{Dir: dir, Specs: []jspec{last.json()}, Rows: sc.rows, KillAt: int64(n)})
			must(err)
			cmd := exec.Command(self, "child", "crash-build")
			cmd.Stdin = bytes.NewReader(data)
			err = cmd.Run()
			if ee, ok := err.(*exec.ExitError); !ok || ee.Sys().(syscall.WaitStatus).Signal() != syscall.SIGKILL {
				panic(&harnessError{fmt.Errorf("the child did not die: %v", err)})
			}
			c.State(sc.name, "kill", n)
			return sc.afterCrash(c, readFileSet(dir), fmt.Sprintf("killed at input call %d of %d", n, calls), prefix+":killed")
		})
	})
}

// crashByLimit: every file size limit up to the size of the complete file.
func (c *Ctx) crashByLimit(sc crashScenario, last pspec, prefix string) {
	dir, clean := c.Dir()
	m := newMem("in", sc.rows)
	size0 := int64(0)
	var ix index.Index
	var err error
	for i, s := range sc.specs {
		ix, err = s.open(m, dir)
		closeIndex(ix, err)
		if i == len(sc.specs)-2 {
			if st, err := os.Stat(filepath.Join(dir, last.path)); err == nil {
				size0 = st.Size()
			}
		}
	}
	st, err := os.Stat(filepath.Join(dir, last.path))
	must(err)
	size := st.Size()
	clean()
	limits := []int64{}
	step := int64(1)
	if n := int64(c.Pick(400, 6000)); size-size0 > n {
		step = (size - size0 + n - 1) / n
	}
	for l := size0; l < size; l += step {
		limits = append(limits, l)
	}
	limits = append(limits, size-1)
	const chunk = 50
	c.ParallelN(8, (len(limits)+chunk-1)/chunk, func(ci int) {
		c.Case(fmt.Sprintf("file size limit %s chunk=%d", sc.name, ci), func() error {
			dir, clean := c.Dir()
			defer clean()
			job := crashJob{Dir: dir, Rows: sc.rows, KillAt: -1, Limits: limits[ci*chunk : min(len(limits), (ci+1)*chunk)]}
			for _, s := range sc.specs {
				job.Specs = append(job.Specs, s.json())
			}
			var res []limitResult
			runChild(c, "limited-builds", job, &res)
			for n, r := range res {
				c.State(sc.name, "limit", r.Limit)
				fs := readFileSet(filepath.Join(dir, strconv.Itoa(n)))
				if !r.Failed {
					return violf(prefix+":failing-write-ignored", "%s: the file cannot grow over %d of its %d bytes, but the build of %s succeeds", sc.name, r.Limit, size, last)
				}
				c.Outcome("build-failed")
				if err := sc.afterCrash(c, fs, fmt.Sprintf("failed build (file limited to %d of %d bytes)", r.Limit, size), prefix+":failed-build"); err != nil {
					return err
				}
			}
			return nil
		})
	})
}
