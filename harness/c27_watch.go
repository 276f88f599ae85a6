package main

// C27: a change of an input file is noticed, and nothing else is.

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"github.com/fsnotify/fsnotify"
	"github.com/rodb-io/rodb/pkg/input/record"
)

func init() {
	register("C27", "model_checking",
		"The real inputs on real files: every kind of input x setting of dieOnInputChange x form of the path x what rodb was doing (nothing, a read by position, an iteration in progress or finished, an index built beside) x every history of one or two (thorough: three) operations on the file system, among the ways of writing, shortening, extending or replacing the content and the operations that leave it alone. After each operation, a marker event pushed through the same watcher says that everything before it has been processed; the reactions logged are then compared with those expected. The real program is run for every kind, setting and a subset of the operations. A state is a (configuration, history); a transition is one file operation.",
		runC27)
}

// Effects of an operation.
const (
	opNeutral = iota
	opChange
	opReplace // the path designates another file afterwards
	opError   // the watcher fails once; what follows must still be noticed
)

type watchOp struct {
	name   string
	effect int
	f      func(e *watchEnv)
}

type watchEnv struct {
	st         *Stack
	dir        string
	path, real string // as configured, and where the file is
	content    string
	kept       *os.File // opened for writing before rodb
	mapped     *os.File
	watcher    *fsnotify.Watcher
	marker     string
	it         record.Iterator
	end        func() error
	n          int
	dead       bool // the file has been replaced
}

var watchOps = []watchOp{
	{"append", opChange, func(e *watchEnv) { e.write(os.O_APPEND, -1, e.content) }},
	{"overwrite one byte", opChange, func(e *watchEnv) { e.write(0, 0, "#") }},
	{"overwrite the last byte", opChange, func(e *watchEnv) { e.write(0, e.size()-1, "#") }},
	{"rewrite", opChange, func(e *watchEnv) { must(os.WriteFile(e.real, []byte(e.content+e.content), 0o644)) }},
	{"empty", opChange, func(e *watchEnv) { must(os.Truncate(e.real, 0)) }},
	{"shorten", opChange, func(e *watchEnv) { must(os.Truncate(e.real, e.size()/2)) }},
	{"extend", opChange, func(e *watchEnv) { must(os.Truncate(e.real, e.size()+10)) }},
	{"write and restore the times", opChange, func(e *watchEnv) {
		info, err := os.Stat(e.real)
		must(err)
		e.write(os.O_APPEND, -1, "#")
		must(os.Chtimes(e.real, info.ModTime(), info.ModTime()))
	}},
	{"write through a descriptor opened before", opChange, func(e *watchEnv) {
		_, err := e.kept.WriteAt([]byte("#"), 1)
		must(err)
	}},
	{"write through a hard link", opChange, func(e *watchEnv) {
		l := e.fresh("hard")
		must(os.Link(e.real, l))
		must(appendTo(l, "#"))
	}},
	{"write through a symbolic link", opChange, func(e *watchEnv) {
		l := e.fresh("soft")
		must(os.Symlink(e.real, l))
		must(appendTo(l, "#"))
	}},
	{"copy into it", opChange, func(e *watchEnv) {
		src, err := os.Open(e.sibling("source"))
		must(err)
		defer src.Close()
		dst, err := os.OpenFile(e.real, os.O_WRONLY, 0)
		must(err)
		defer dst.Close()
		_, err = io.Copy(dst, src) // copy_file_range
		must(err)
	}},
	{"write slowly", opChange, func(e *watchEnv) {
		f, err := os.OpenFile(e.real, os.O_WRONLY|os.O_APPEND, 0)
		must(err)
		defer f.Close()
		for k := 0; k < 3; k++ {
			_, err = f.WriteString("#")
			must(err)
		}
		must(f.Sync())
	}},

	{"nothing", opNeutral, func(e *watchEnv) {}},
	{"read", opNeutral, func(e *watchEnv) { _, err := os.ReadFile(e.real); must(err) }},
	{"open for writing and close", opNeutral, func(e *watchEnv) {
		f, err := os.OpenFile(e.real, os.O_RDWR, 0)
		must(err)
		must(f.Close())
	}},
	{"change the mode", opNeutral, func(e *watchEnv) {
		must(os.Chmod(e.real, 0o600))
		must(os.Chmod(e.real, 0o644))
	}},
	{"change the times", opNeutral, func(e *watchEnv) { must(os.Chtimes(e.real, time.Now(), time.Unix(1e9, 0))) }},
	{"change the owner", opNeutral, func(e *watchEnv) { must(os.Chown(e.real, os.Getuid(), os.Getgid())) }},
	{"link it", opNeutral, func(e *watchEnv) {
		l := e.fresh("link")
		must(os.Link(e.real, l))
		must(os.Remove(l))
	}},
	{"rename it away and back", opNeutral, func(e *watchEnv) {
		away := e.fresh("away")
		must(os.Rename(e.real, away))
		must(os.Rename(away, e.real))
	}},
	{"write another file", opNeutral, func(e *watchEnv) { must(appendTo(e.sibling("other"), "#")) }},
	{"create another file", opNeutral, func(e *watchEnv) { must(os.WriteFile(e.fresh("new"), []byte("x"), 0o644)) }},
	{"write a file of the same name elsewhere", opNeutral, func(e *watchEnv) {
		d := e.fresh("dir")
		must(os.Mkdir(d, 0o755))
		must(os.WriteFile(filepath.Join(d, filepath.Base(e.real)), []byte(e.content), 0o644))
	}},
	// What the kernel reports when too many events are waiting, or the system when
	// it cannot read them.
	{"an error of the watcher", opError, func(e *watchEnv) {
		if e.watcher == nil {
			return
		}
		select {
		case e.watcher.Errors <- errors.New("injected: event queue overflow"):
		case <-time.After(3 * time.Second):
			panic(violf("watcher-stopped", "the errors of the watcher are not read any more"))
		}
	}},
	{"read through rodb", opNeutral, func(e *watchEnv) {
		it, end, err := e.st.Inputs["in"].IterateAll()
		if err == nil {
			for k := 0; k < 10; k++ {
				if r, err := it(); err != nil || r == nil {
					break
				}
			}
			must(end())
		}
	}},

	{"rename another file over it", opReplace, func(e *watchEnv) {
		n := e.fresh("over")
		must(os.WriteFile(n, []byte(e.content+e.content), 0o644))
		must(os.Rename(n, e.real))
	}},
	{"remove it and create it again", opReplace, func(e *watchEnv) {
		must(os.Remove(e.real))
		must(os.WriteFile(e.real, []byte(e.content+e.content), 0o644))
	}},
}

func appendTo(path, s string) error {
	f, err := os.OpenFile(path, os.O_WRONLY|os.O_APPEND, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	_, err = f.WriteString(s)
	return err
}

func (e *watchEnv) size() int64 {
	info, err := os.Stat(e.real)
	must(err)
	return info.Size()
}

func (e *watchEnv) write(flag int, at int64, s string) {
	f, err := os.OpenFile(e.real, os.O_WRONLY|flag, 0)
	must(err)
	defer f.Close()
	if at < 0 && flag&os.O_APPEND == 0 {
		at = 0
	}
	if at >= 0 {
		_, err = f.WriteAt([]byte(s), at)
	} else {
		_, err = f.WriteString(s)
	}
	must(err)
}

func (e *watchEnv) fresh(name string) string {
	e.n++
	return filepath.Join(filepath.Dir(e.real), fmt.Sprintf("%s-%d", name, e.n))
}

func (e *watchEnv) sibling(name string) string { return filepath.Join(filepath.Dir(e.real), name) }

func (l *logSink) Reset() {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.b.Reset()
}

// barrier waits until everything that has happened so far has been reported to
// the input. It gives false when the marker does not go through, which
// happens when the watcher is not the one expected.
func (e *watchEnv) barrier() bool {
	if e.watcher == nil {
		time.Sleep(300 * time.Millisecond)
		return false
	}
	before := strings.Count(e.st.Log.String(), e.marker)
	must(appendTo(e.marker, "."))
	for begin := time.Now(); strings.Count(e.st.Log.String(), e.marker) == before; {
		if time.Since(begin) > 3*time.Second {
			return false
		}
		time.Sleep(50 * time.Microsecond)
	}
	return true
}

// reactions counts the lines logged about the file, by level.
func (e *watchEnv) reactions() map[string]int {
	out := map[string]int{}
	for _, line := range strings.Split(e.st.Log.String(), "\n") {
		if line == "" || strings.Contains(line, e.marker) {
			continue
		}
		level := "other"
		for _, l := range []string{"fatal", "error", "warning"} {
			if strings.Contains(line, "level="+l) {
				level = l
			}
		}
		// An iteration over a file that has just been damaged warns about it.
		if level == "warning" && !strings.Contains(line, filepath.Base(e.path)) {
			continue
		}
		out[level]++
	}
	return out
}

type watchConfig struct {
	kind, die, form, activity string
}

func (w watchConfig) String() string {
	return fmt.Sprintf("%s, dieOnInputChange %s, path %s, %s", w.kind, w.die, w.form, w.activity)
}

func newWatchEnv(dir string, w watchConfig) *watchEnv {
	e := &watchEnv{dir: dir}
	file := map[string]string{"csv": "in.csv", "json": "in.json", "xml": "in.xml"}[w.kind]
	e.content = map[string]string{
		"csv":  "id,g\n1,a\n2,b\n",
		"json": "{\"id\":1,\"g\":\"a\"}\n{\"id\":2,\"g\":\"b\"}\n",
		"xml":  "<all><r><id>1</id><g>a</g></r><r><id>2</id><g>b</g></r></all>",
	}[w.kind]
	data := filepath.Join(dir, "data")
	must(os.MkdirAll(data, 0o755))
	e.real = filepath.Join(data, file)
	e.path = e.real
	switch w.form {
	case "plain":
	case "not canonical":
		e.path = dir + "/data/../data//" + file
	case "symbolic link":
		e.path = filepath.Join(dir, "link-"+file)
		must(os.Symlink(e.real, e.path))
	case "symbolic link to the directory":
		must(os.Symlink(data, filepath.Join(dir, "linkdir")))
		e.path = filepath.Join(dir, "linkdir", file)
	case "unusual name":
		e.real = filepath.Join(data, "é [1]*% "+file)
		e.path = e.real
	}
	must(os.WriteFile(e.real, []byte(e.content), 0o644))
	must(os.WriteFile(e.sibling("other"), []byte("x"), 0o644))
	must(os.WriteFile(e.sibling("source"), []byte("source"), 0o644))
	e.marker = filepath.Join(dir, "marker")
	must(os.WriteFile(e.marker, []byte("."), 0o644))
	var err error
	e.kept, err = os.OpenFile(e.real, os.O_RDWR, 0)
	must(err)
	die := ""
	if w.die != "unset" {
		die = ", dieOnInputChange: " + w.die
	}
	y := "inputs:\n  - {name: in, type: " + w.kind + ", path: " + yamlQuote(e.path) + die
	switch w.kind {
	case "csv":
		y += ", autodetectColumns: true"
	case "xml":
		y += ", recordXpath: //r, properties: [{name: id, type: primitive, parser: integer, xpath: number(id)}, {name: g, type: primitive, parser: string, xpath: string(g)}]"
	}
	y += "}\n"
	if w.activity == "an index built beside" {
		y += "indexes: [{name: ix, type: sqlite, input: in, dsn: " + yamlQuote(e.sibling("ix.db")) + ", properties: [{name: g}]}]\n"
	}
	e.st, err = NewStack(dir, y, "indexes")
	if err != nil {
		panic(violf("refused", "%s: %v", w, err))
	}
	in := e.st.Inputs["in"]
	e.watcher = watcherOf(in)
	if e.watcher != nil {
		must(e.watcher.Add(e.marker))
	}
	positions := recordPositionsOf(in)
	switch w.activity {
	case "after a read by position":
		_, err := in.Get(positions[1])
		must(err)
	case "an iteration in progress":
		e.it, e.end, err = in.IterateAll()
		must(err)
		_, err = e.it()
		must(err)
	}
	return e
}

type iterable interface {
	IterateAll() (record.Iterator, func() error, error)
}

func recordPositionsOf(in iterable) []record.Position {
	out := []record.Position{}
	it, end, err := in.IterateAll()
	must(err)
	for {
		r, err := it()
		must(err)
		if r == nil {
			break
		}
		out = append(out, r.Position())
	}
	must(end())
	return out
}

func (e *watchEnv) close() {
	if e.end != nil {
		_ = e.end()
	}
	e.kept.Close()
	e.st.Close()
}

// apply performs an operation and judges the reactions.
func (e *watchEnv) apply(w watchConfig, history string, op watchOp) error {
	e.st.Log.Reset()
	op.f(e)
	exact := e.barrier()
	got := e.reactions()
	die := w.die != "false"
	switch op.effect {
	case opError:
		if got["fatal"] > 0 || got["warning"] > 0 {
			return violf("reaction-without-change:"+op.name, "%s: after %s, %q makes rodb react: %s", w, history, op.name, clip(e.st.Log.String(), 800))
		}
	case opNeutral:
		if len(got) > 0 {
			return violf("reaction-without-change:"+op.name, "%s: after %s, %q makes rodb react: %s", w, history, op.name, clip(e.st.Log.String(), 800))
		}
	default:
		level := "fatal"
		if !die {
			level = "warning"
		}
		for begin := time.Now(); !exact && e.reactions()[level] == 0 && time.Since(begin) < 3*time.Second; {
			time.Sleep(5 * time.Millisecond)
		}
		got = e.reactions()
		if got[level] == 0 {
			return violf("unnoticed:"+op.name, "%s: after %s, %q is not noticed (%v): %s", w, history, op.name, got, clip(e.st.Log.String(), 800))
		}
		if !die && (got["fatal"] > 0 || got["error"] > 0) {
			return violf("wrong-reaction:"+op.name, "%s: after %s, %q gives %v: %s", w, history, op.name, got, clip(e.st.Log.String(), 800))
		}
	}
	return nil
}

func runC27(c *Ctx) {
	kinds := []string{"csv", "json", "xml"}
	dies := []string{"unset", "true", "false"}
	forms := []string{"plain", "not canonical", "symbolic link", "symbolic link to the directory", "unusual name"}
	activities := []string{"nothing", "after a read by position", "an iteration in progress", "an index built beside"}
	type job struct {
		w       watchConfig
		history []watchOp
	}
	jobs := []job{}
	for _, kind := range kinds {
		for _, die := range dies {
			for _, form := range forms {
				for _, activity := range activities {
					depth := 1
					if form == "plain" || c.Thorough() {
						depth = 2
					}
					if form == "plain" && c.Thorough() {
						depth = 3
					}
					var rec func(h []watchOp)
					rec = func(h []watchOp) {
						if len(h) == depth || len(h) > 0 && h[len(h)-1].effect == opReplace {
							if len(h) > 0 {
								jobs = append(jobs, job{watchConfig{kind, die, form, activity}, append([]watchOp{}, h...)})
							}
							return
						}
						for _, op := range watchOps {
							rec(append(h, op))
						}
					}
					rec(nil)
				}
			}
		}
	}
	closing := make(chan struct{}, 40) // closing a watcher mostly waits
	c.ParallelN(12, len(jobs), func(i int) {
		j := jobs[i]
		names := []string{}
		for _, op := range j.history {
			names = append(names, op.name)
		}
		id := fmt.Sprintf("%s: %s", j.w, strings.Join(names, ", then "))
		c.Case(id, func() error {
			dir, cleanup := c.Dir()
			e := newWatchEnv(dir, j.w)
			defer func() {
				closing <- struct{}{}
				go func() {
					e.close()
					cleanup()
					<-closing
				}()
			}()
			if !e.barrier() {
				c.Outcome("no marker")
			}
			e.st.Log.Reset()
			for k, op := range j.history {
				before := "the start"
				if k > 0 {
					before = strings.Join(names[:k], ", then ")
				}
				if err := e.apply(j.w, before, op); err != nil {
					return err
				}
				c.Step(1)
				c.State(j.w, strings.Join(names[:k+1], ","))
				c.Outcome([]string{"left alone", "changed", "replaced", "watcher error"}[op.effect])
			}
			c.Trace()
			return nil
		})
	})
	for k := 0; k < cap(closing); k++ {
		closing <- struct{}{}
	}
	c.Extra("histories", len(jobs))
	c27Pairs(c, kinds)
	c27Program(c, kinds, dies)
}

// c27Pairs has two inputs, on two files or on the same one, each with its own
// setting: a change is noticed by the inputs it concerns and by no other.
func c27Pairs(c *Ctx, kinds []string) {
	ops := []watchOp{}
	for _, op := range watchOps {
		if op.effect == opChange && (c.Thorough() || op.name == "append" || op.name == "overwrite one byte" || op.name == "shorten") {
			ops = append(ops, op)
		}
	}
	type job struct {
		a, b       string
		dieA, dieB string
		same       bool
		target     int
		op         watchOp
	}
	jobs := []job{}
	for _, a := range kinds {
		for _, b := range kinds {
			for _, dieA := range []string{"true", "false"} {
				for _, dieB := range []string{"true", "false"} {
					for _, op := range ops {
						jobs = append(jobs, job{a, b, dieA, dieB, false, 0, op}, job{a, b, dieA, dieB, false, 1, op})
						if a == b {
							jobs = append(jobs, job{a, b, dieA, dieB, true, 0, op})
						}
					}
				}
			}
		}
	}
	content := map[string]string{
		"csv":  "id,g\n1,a\n2,b\n",
		"json": "{\"id\":1,\"g\":\"a\"}\n{\"id\":2,\"g\":\"b\"}\n",
		"xml":  "<all><r><id>1</id><g>a</g></r><r><id>2</id><g>b</g></r></all>",
	}
	more := map[string]string{
		"csv": ", autodetectColumns: true", "json": "",
		"xml": ", recordXpath: //r, properties: [{name: id, type: primitive, parser: integer, xpath: number(id)}]",
	}
	closing := make(chan struct{}, 40)
	c.ParallelN(10, len(jobs), func(i int) {
		j := jobs[i]
		kinds, dies := []string{j.a, j.b}, []string{j.dieA, j.dieB}
		id := fmt.Sprintf("two inputs: %s (%s) and %s (%s), same file %v: %s on file %d", j.a, j.dieA, j.b, j.dieB, j.same, j.op.name, j.target)
		c.Case(id, func() error {
			dir, cleanup := c.Dir()
			files := []string{filepath.Join(dir, "first.data"), filepath.Join(dir, "second.data")}
			if j.same {
				files[1] = files[0]
			}
			y := "inputs:\n"
			for k, kind := range kinds {
				must(os.WriteFile(files[k], []byte(content[kind]), 0o644))
				y += fmt.Sprintf("  - {name: in%d, type: %s, path: %s, dieOnInputChange: %s%s}\n", k, kind, yamlQuote(files[k]), dies[k], more[kind])
			}
			must(os.WriteFile(filepath.Join(dir, "source"), []byte("source"), 0o644))
			st, err := NewStack(dir, y, "inputs")
			if err != nil {
				return violf("refused", "%s: %v", id, err)
			}
			e := &watchEnv{st: st, dir: dir, real: files[j.target], path: files[j.target], content: content[kinds[j.target]]}
			e.kept, err = os.OpenFile(e.real, os.O_RDWR, 0)
			must(err)
			defer func() {
				closing <- struct{}{}
				go func() {
					e.close()
					cleanup()
					<-closing
				}()
			}()
			// One marker for each input, so that the barrier holds for both.
			markers := []string{}
			for k := range kinds {
				marker := filepath.Join(dir, fmt.Sprintf("marker%d", k))
				must(os.WriteFile(marker, []byte("."), 0o644))
				w := watcherOf(st.Inputs[fmt.Sprintf("in%d", k)])
				if w != nil {
					must(w.Add(marker))
				}
				markers = append(markers, marker)
			}
			barrier := func() {
				for _, marker := range markers {
					before := strings.Count(st.Log.String(), marker)
					must(appendTo(marker, "."))
					for begin := time.Now(); strings.Count(st.Log.String(), marker) == before && time.Since(begin) < 3*time.Second; {
						time.Sleep(50 * time.Microsecond)
					}
				}
			}
			barrier()
			st.Log.Reset()
			j.op.f(e)
			barrier()
			c.Step(1)
			c.State(id)
			c.Trace()
			got := map[string]int{}
			for _, line := range strings.Split(st.Log.String(), "\n") {
				for k, name := range []string{"first.data", "second.data"} {
					for _, l := range []string{"fatal", "error", "warning"} {
						if strings.Contains(line, name) && strings.Contains(line, "level="+l) {
							got[fmt.Sprintf("%s %d", l, k)]++
						}
					}
				}
			}
			want := map[string]bool{}
			level := map[string]string{"true": "fatal", "false": "warning"}
			want[fmt.Sprintf("%s %d", level[dies[j.target]], j.target)] = true
			if j.same {
				want[fmt.Sprintf("%s %d", level[dies[1]], 0)] = true
			}
			for w := range want {
				if got[w] == 0 {
					return violf("unnoticed:"+j.op.name, "%s: expected the reactions %v, got %v: %s", id, want, got, clip(st.Log.String(), 800))
				}
			}
			for g := range got {
				if !want[g] {
					return violf("wrong-reaction:"+j.op.name, "%s: expected the reactions %v, got %v: %s", id, want, got, clip(st.Log.String(), 800))
				}
			}
			c.Outcome("two inputs")
			return nil
		})
	})
	for k := 0; k < cap(closing); k++ {
		closing <- struct{}{}
	}
	c.Extra("pairs_of_inputs", len(jobs))
}

// watcherOf gives the watcher of an input, nil when it has none.
func watcherOf(in interface{}) (w *fsnotify.Watcher) {
	if v := reflect.ValueOf(in); v.Kind() == reflect.Ptr && v.Elem().Kind() == reflect.Struct {
		for i := 0; i < v.Elem().NumField(); i++ {
			if f := v.Elem().Field(i); f.Type() == reflect.TypeOf(w) {
				w = *(**fsnotify.Watcher)(unsafe.Pointer(f.UnsafeAddr()))
			}
		}
	}
	return w
}

// c27Program runs the whole program: it ends with an error, or goes on.
func c27Program(c *Ctx, kinds, dies []string) {
	type job struct {
		kind, die string
		op        watchOp
	}
	jobs := []job{}
	for _, kind := range kinds {
		for _, die := range dies {
			for k, op := range watchOps {
				if op.effect == opReplace || op.effect == opError || op.name == "read through rodb" || !c.Thorough() && k%4 != 0 {
					continue
				}
				jobs = append(jobs, job{kind, die, op})
			}
		}
	}
	c.ParallelN(8, len(jobs), func(i int) {
		j := jobs[i]
		id := fmt.Sprintf("program: %s, dieOnInputChange %s: %s", j.kind, j.die, j.op.name)
		c.Case(id, func() error {
			dir, cleanup := c.Dir()
			defer cleanup()
			e := &watchEnv{dir: dir}
			e.content = map[string]string{"csv": "id,g\n1,a\n2,b\n", "json": "{\"id\":1,\"g\":\"a\"}\n", "xml": "<all><r><id>1</id><g>a</g></r></all>"}[j.kind]
			data := filepath.Join(dir, "data")
			must(os.MkdirAll(data, 0o755))
			e.real = filepath.Join(data, "in."+j.kind)
			e.path = e.real
			must(os.WriteFile(e.real, []byte(e.content), 0o644))
			must(os.WriteFile(e.sibling("other"), []byte("x"), 0o644))
			must(os.WriteFile(e.sibling("source"), []byte("source"), 0o644))
			var err error
			e.kept, err = os.OpenFile(e.real, os.O_RDWR, 0)
			must(err)
			defer e.kept.Close()
			die := ""
			if j.die != "unset" {
				die = ", dieOnInputChange: " + j.die
			}
			extra := map[string]string{"csv": ", autodetectColumns: true", "json": "", "xml": ", recordXpath: //r, properties: [{name: id, type: primitive, parser: integer, xpath: number(id)}]"}[j.kind]
			addr := fmt.Sprintf("127.0.0.1:%d", freePort())
			y := "inputs: [{name: in, type: " + j.kind + ", path: " + yamlQuote(e.path) + die + extra + "}]\n" +
				"outputs: [{name: all, type: jsonArray, input: in}]\n" +
				"services: [{name: s, type: http, http: {listen: '" + addr + "'}, routes: [{output: all, path: /}]}]\n"
			p := startProgram(dir, y)
			defer p.kill()
			p.ready(id, addr)
			alive := func(when string) error {
				client := &http.Client{Timeout: gateWait, Transport: &http.Transport{DisableKeepAlives: true}}
				resp, err := client.Get("http://" + addr + "/")
				if err != nil {
					return violf("program-ended", "%s: %s the program does not answer: %v; it logged %s", id, when, err, clip(p.logged(), 1500))
				}
				resp.Body.Close()
				return nil
			}
			noticed := func() bool { return strings.Contains(p.logged(), filepath.Base(e.path)) }
			if err := alive("before the operation"); err != nil {
				return err
			}
			op := j.op
			if op.effect == opNeutral {
				op.f(e)
				c.Step(1)
				if err := alive("after " + op.name); err != nil {
					return err
				}
				if noticed() {
					return violf("reaction-without-change:"+op.name, "%s: the program logged %s", id, clip(p.logged(), 1500))
				}
				// Then a change.
				op = watchOps[0]
			}
			op.f(e)
			c.Step(1)
			c.Trace()
			if j.die == "false" {
				for begin := time.Now(); !noticed(); time.Sleep(time.Millisecond) {
					if time.Since(begin) > gateWait {
						return violf("unnoticed:"+op.name, "%s: nothing is logged: %s", id, clip(p.logged(), 1500))
					}
				}
				if err := alive("after " + op.name); err != nil {
					return err
				}
				must(p.cmd.Process.Signal(syscall.SIGINT))
				if code := p.wait(id); code != 0 {
					return violf("exit-code", "%s: the program then ends with %d: %s", id, code, clip(p.logged(), 1500))
				}
				c.Outcome("program: went on")
				return nil
			}
			select {
			case <-p.ended:
			case <-time.After(gateWait):
				return violf("unnoticed:"+op.name, "%s: the program does not end: %s", id, clip(p.logged(), 1500))
			}
			if code := p.cmd.ProcessState.ExitCode(); code <= 0 || !noticed() {
				return violf("exit-code", "%s: the program ends with %d: %s", id, code, clip(p.logged(), 1500))
			}
			c.Outcome("program: ended")
			return nil
		})
	})
	c.Extra("program_cases", len(jobs))
}
