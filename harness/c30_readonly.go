package main

// C30: nothing but the index files is ever changed.

import (
	"bufio"
	"bytes"
	"crypto/sha1"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/rodb-io/rodb/pkg/input/record"
)

func init() {
	register("C30", "model_checking",
		"Two explorations. (1) For every kind of input x every kind of index x the index absent or left by a previous start: every history up to the depth of requests (lists, objects, not found, refused values, unknown positions, abandoned iterations, index queries) and outside events (input deleted, rewritten, replaced) runs on the real components; after every step the complete tree (names, types, modes, owners, links, sizes, modification and change times, inodes, contents) around the index files must be as before. (2) The real program runs under strace for every one of those configurations in every state of its files (index absent, valid, outdated, damaged, truncated, foreign; input missing, symbolic link, hard link, read-only, empty; directory missing; configuration refused at each stage; https), answers every kind of request, and is interrupted: every system call of every thread that creates, truncates, renames, removes or changes the attributes of a file must concern an index file it is configured to build (or the journal or temporary files sqlite keeps for it), and the tree is compared as well. A state is one (configuration, history prefix); a transition is one step.",
		runC30)
}

// treeState describes everything below a directory.
func treeState(root string, skip func(rel string) bool) map[string]string {
	out := map[string]string{}
	must(filepath.Walk(root, func(path string, info os.FileInfo, err error) error {
		must(err)
		rel, _ := filepath.Rel(root, path)
		if skip != nil && skip(rel) {
			return nil
		}
		st := info.Sys().(*syscall.Stat_t)
		s := fmt.Sprintf("%v ino=%d nlink=%d %d:%d", info.Mode(), st.Ino, st.Nlink, st.Uid, st.Gid)
		if !info.IsDir() {
			s += fmt.Sprintf(" size=%d", info.Size())
		}
		s += fmt.Sprintf(" mtime=%d.%d ctime=%d.%d", st.Mtim.Sec, st.Mtim.Nsec, st.Ctim.Sec, st.Ctim.Nsec)
		switch {
		case info.Mode()&os.ModeSymlink != 0:
			to, err := os.Readlink(path)
			must(err)
			s += " -> " + to
		case info.Mode().IsRegular():
			data, err := os.ReadFile(path)
			must(err)
			s += fmt.Sprintf(" %x", sha1.Sum(data))
		}
		out[rel] = s
		return nil
	}))
	return out
}

func treeDiff(before, after map[string]string) (key, text string) {
	names := map[string]bool{}
	for n := range before {
		names[n] = true
	}
	for n := range after {
		names[n] = true
	}
	sorted := []string{}
	for n := range names {
		sorted = append(sorted, n)
	}
	sort.Strings(sorted)
	for _, n := range sorted {
		b, a := before[n], after[n]
		if a == b {
			continue
		}
		k := "changed"
		if b == "" {
			k = "created"
		} else if a == "" {
			k = "removed"
		}
		if key == "" || key == "changed" && k != "changed" {
			key = k
		}
		text += fmt.Sprintf("%s: before %q, after %q\n", n, b, a)
	}
	return key, text
}

// ---------------------------------------------------------------------------
// The files and the configuration.

type roWorld struct {
	src, kind string
	dir       string
}

var roSources = map[string]struct{ file, yaml, content, other string }{
	"csv": {"data.csv", "{name: in, type: csv, path: '%s', ignoreFirstRow: true, dieOnInputChange: %v, columns: [{name: id, parser: integer}, {name: g, parser: string}, {name: k, parser: float}]}",
		"id,g,k\n1,a,2.5\n2,b,1.5\n3,a,0.5\n", "id,g,k\n1,a,2.5\n2,b,1.5\n3,a,0.5\n4,c,9\n"},
	"xml": {"data.xml", "{name: in, type: xml, path: '%s', dieOnInputChange: %v, recordXpath: //r, properties: [{name: id, type: primitive, parser: integer, xpath: 'number(@id)'}, {name: g, type: primitive, parser: string, xpath: 'string(g)'}, {name: k, type: primitive, parser: float, xpath: 'number(k)'}]}",
		"<all><r id='1'><g>a</g><k>2.5</k></r><r id='2'><g>b</g><k>1.5</k></r><r id='3'><g>a</g><k>0.5</k></r></all>", "<all><r id='1'><g>a</g><k>2.5</k></r><r id='2'><g>bb</g><k>1.5</k></r></all>"},
	"json": {"data.json", "{name: in, type: json, path: '%s', dieOnInputChange: %v}",
		"{\"id\":1,\"g\":\"a\",\"k\":2.5}\n{\"id\":2,\"g\":\"b\",\"k\":1.5}\n{\"id\":3,\"g\":\"a\",\"k\":0.5}\n", "{\"id\":1,\"g\":\"a\",\"k\":2.5}\n{\"id\":2,\"g\":\"b\",\"k\":1.5,\"x\":1}\n"},
}

var roKinds = []string{"default", "noop", "map", "sqlite", "fts5", "wildcard", "all"}

// index files of a kind, relative to the directory.
func roIndexFiles(kind string) []string {
	switch kind {
	case "sqlite", "fts5", "wildcard":
		return []string{"ix/" + kind + ".db"}
	case "all":
		return []string{"ix/sqlite.db", "ix/fts5.db", "ix/wildcard.db"}
	}
	return nil
}

func (w roWorld) input() string { return filepath.Join(w.dir, "in", roSources[w.src].file) }

// create writes the files: the input, neighbours of it and of the indexes.
func (w roWorld) create() {
	for _, d := range []string{"in", "ix", "conf", "home", "tmp", "cwd"} {
		must(os.Mkdir(filepath.Join(w.dir, d), 0o755))
	}
	writeFile(w.input(), roSources[w.src].content)
	for _, suffix := range []string{"~", ".bak", ".tmp", ".idx", ".lock", "-journal", "-wal"} {
		writeFile(w.input()+suffix, "neighbour "+suffix)
	}
	writeFile(filepath.Join(w.dir, "ix", "neighbour"), "neighbour")
	writeFile(filepath.Join(w.dir, "ix", "sqlite.db.bak"), "neighbour")
	writeFile(filepath.Join(w.dir, "cwd", "neighbour"), "neighbour")
	old := time.Unix(1600000000, 123456789)
	must(filepath.Walk(w.dir, func(p string, info os.FileInfo, err error) error {
		must(err)
		must(os.Chtimes(p, old, old))
		return nil
	}))
}

func (w roWorld) yaml(service string, die bool) string {
	ix := func(f string) string { return filepath.Join(w.dir, "ix", f+".db") }
	y := "inputs:\n  - " + fmt.Sprintf(roSources[w.src].yaml, w.input(), die) + "\nindexes:\n"
	add := func(kind string) {
		switch kind {
		case "noop":
			y += "  - {name: noop, type: noop}\n"
		case "map":
			y += "  - {name: map, type: map, input: in, properties: [g]}\n"
		case "sqlite":
			y += "  - {name: sqlite, type: sqlite, input: in, dsn: '" + ix(kind) + "', properties: [{name: g}]}\n"
		case "fts5":
			y += "  - {name: fts5, type: fts5, input: in, dsn: '" + ix(kind) + "', properties: [g]}\n"
		case "wildcard":
			y += "  - {name: wildcard, type: wildcard, input: in, path: '" + ix(kind) + "', properties: [g]}\n"
		}
	}
	list := []string{w.kind}
	if w.kind == "all" {
		list = []string{"noop", "map", "sqlite", "fts5", "wildcard"}
	} else if w.kind == "default" {
		y = strings.TrimSuffix(y, "indexes:\n")
	}
	for _, k := range list {
		add(k)
	}
	p := []string{}
	for _, k := range list {
		prop := "g"
		if k == "fts5" {
			prop = "match"
		}
		p = append(p, fmt.Sprintf("%s: {property: %s, parser: string, index: %s}", k, prop, k))
	}
	par := strings.Join(p, ", ")
	rel := "relationships: {peers: {input: in, isArray: true, sort: [{property: k, ascending: true}], match: [{parentProperty: g, childProperty: g, childIndex: default}]}}"
	y += "outputs:\n" +
		"  - {name: arr, type: jsonArray, input: in, parameters: {" + par + ", id: {property: id, parser: integer}}, " + rel + "}\n" +
		"  - {name: obj, type: jsonObject, input: in, parameters: {id: {property: id, parser: integer}}, " + rel + "}\n" +
		"  - {name: bad, type: jsonArray, input: in, relationships: {x: {input: in, match: [{parentProperty: nope, childProperty: g, childIndex: default}]}}}\n"
	return y + service
}

func (w roWorld) param() string {
	if w.kind == "all" {
		return "sqlite"
	}
	return w.kind
}

// companions says whether a path is one of the index files or a file that
// sqlite keeps beside it.
func companions(files []string, path string) bool {
	for _, f := range files {
		if path == f || strings.HasSuffix(f, ".db") && (path == f+"-journal" || path == f+"-wal" || path == f+"-shm") {
			return true
		}
	}
	return false
}

func runC30(c *Ctx) {
	c30Program(c)
	c30Histories(c)
}

// ---------------------------------------------------------------------------
// 1. Histories on the components.

type roStep struct {
	name  string
	event bool
	do    func(w roWorld, st *Stack)
}

func roSteps(w roWorld) []roStep {
	ask := func(out string, params map[string]string) func(roWorld, *Stack) {
		return func(_ roWorld, st *Stack) { Ask(st.Outputs[out], params) }
	}
	p := w.param()
	steps := []roStep{
		{"list", false, ask("arr", nil)},
		{"filtered list", false, ask("arr", map[string]string{p: "a"})},
		{"list with a refused value", false, ask("arr", map[string]string{"id": "x", p: "a"})},
		{"failing list", false, ask("bad", nil)},
		{"object", false, ask("obj", map[string]string{"id": "2"})},
		{"object not found", false, ask("obj", map[string]string{"id": "77"})},
		{"known positions", false, func(w roWorld, st *Stack) {
			for _, pos := range []int64{0, 7, 15, 99999, -1} {
				r, err := st.Inputs["in"].Get(record.Position(pos))
				if err == nil && r != nil {
					_, _ = r.All()
				}
			}
		}},
		{"abandoned iteration", false, func(w roWorld, st *Stack) {
			it, end, err := st.Inputs["in"].IterateAll()
			if err != nil {
				return
			}
			_, _ = it()
			_ = end()
		}},
		{"size and time", false, func(w roWorld, st *Stack) {
			_, _ = st.Inputs["in"].Size()
			_, _ = st.Inputs["in"].ModTime()
		}},
		{"close and start again", false, nil},
		{"[the input is deleted]", true, func(w roWorld, st *Stack) { _ = os.Remove(w.input()) }},
		{"[the input is rewritten]", true, func(w roWorld, st *Stack) { writeFile(w.input(), roSources[w.src].other) }},
		{"[the input is replaced]", true, func(w roWorld, st *Stack) {
			tmp := w.input() + ".new"
			writeFile(tmp, roSources[w.src].other)
			must(os.Rename(tmp, w.input()))
		}},
	}
	return steps
}

func c30Histories(c *Ctx) {
	type job struct {
		src, kind string
		again     bool
		first     int
		depth     int
	}
	n := len(roSteps(roWorld{src: "csv", kind: "map"}))
	jobs := []job{}
	for _, src := range []string{"csv", "xml", "json"} {
		for _, kind := range roKinds {
			for _, again := range []bool{false, true} {
				if again && len(roIndexFiles(kind)) == 0 {
					continue
				}
				depth := 1
				if kind == "all" || kind == "default" {
					depth = 2
				}
				for f := 0; f < n; f++ {
					jobs = append(jobs, job{src, kind, again, f, c.Pick(depth, depth+1)})
				}
			}
		}
	}
	c.ParallelN(8, len(jobs), func(i int) {
		j := jobs[i]
		id := fmt.Sprintf("components: %s %s index left by a previous start=%v", j.src, j.kind, j.again)
		steps := roSteps(roWorld{src: j.src, kind: j.kind})
		c.Case(fmt.Sprintf("%s, from %q", id, steps[j.first].name), func() error {
			// The sequences start with the given step; the last one is only
			// reached through its own prefix, so every prefix is checked once.
			var walk func(h []int) error
			run := func(h []int) error {
				dir, cleanup := c.Dir()
				defer cleanup()
				w := roWorld{j.src, j.kind, dir}
				w.create()
				y := w.yaml("", false)
				conf := filepath.Join(dir, "conf")
				open := func() *Stack {
					st, err := NewStack(conf, y, "outputs")
					if err != nil {
						return nil
					}
					return st
				}
				files := roIndexFiles(j.kind)
				skip := func(rel string) bool {
					return rel == "conf" || strings.HasPrefix(rel, "conf/") || len(files) > 0 && rel == "ix" || companions(files, rel)
				}
				if j.again {
					st := open()
					if st == nil {
						panic(&harnessError{fmt.Errorf("%s: refused", id)})
					}
					st.Close()
				}
				// The clock of the file system has a coarse resolution.
				time.Sleep(8 * time.Millisecond)
				before := treeState(dir, skip)
				st := open()
				defer func() {
					if st != nil {
						st.Close()
					}
				}()
				done := []string{"start"}
				check := func() error {
					after := treeState(dir, skip)
					c.Step(1)
					if k, text := treeDiff(before, after); k != "" {
						return violf(k, "%s: after %s: %s", id, strings.Join(done, ", "), text)
					}
					return nil
				}
				if err := check(); err != nil {
					return err
				}
				if st == nil {
					panic(&harnessError{fmt.Errorf("%s: refused", id)})
				}
				for _, k := range h {
					s := steps[k]
					done = append(done, s.name)
					if s.do == nil {
						if st != nil {
							st.Close()
						}
						st = open()
					} else if s.event {
						s.do(w, st)
						time.Sleep(8 * time.Millisecond)
						before = treeState(dir, skip)
					} else if st != nil {
						s.do(w, st)
					}
					if err := check(); err != nil {
						return err
					}
				}
				if st != nil {
					st.Close()
					st = nil
				}
				done = append(done, "close")
				c.State(id, h)
				c.Trace()
				c.Outcome("components " + j.kind)
				return check()
			}
			walk = func(h []int) error {
				if len(h) == j.depth || c.Expired() {
					return run(h)
				}
				for k := range steps {
					if err := walk(append(append([]int{}, h...), k)); err != nil {
						return err
					}
				}
				return nil
			}
			return walk([]int{j.first})
		})
	})
}

// ---------------------------------------------------------------------------
// 2. The program under strace.

var roCalls = "open,openat,openat2,creat,rename,renameat,renameat2,unlink,unlinkat,rmdir,mkdir,mkdirat,link,linkat,symlink,symlinkat,mknod,mknodat,chmod,fchmod,fchmodat,chown,fchown,lchown,fchownat,truncate,ftruncate,fallocate,utime,utimes,utimensat,futimesat,setxattr,lsetxattr,fsetxattr,removexattr,lremovexattr,fremovexattr,mount,umount2,chroot,swapon"

var roLine = regexp.MustCompile(`^(\d+) +(.*)$`)

// roViolations reads a trace and gives the calls that change something else
// than an index file. paths are absolute.
func roViolations(trace []byte, allowed func(path string) bool, existed func(path string) bool) (calls int, bad []string, err error) {
	pending := map[string]string{}
	sc := bufio.NewScanner(bytes.NewReader(trace))
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		m := roLine.FindStringSubmatch(sc.Text())
		if m == nil {
			continue
		}
		pid, rest := m[1], m[2]
		if strings.HasPrefix(rest, "---") || strings.HasPrefix(rest, "+++") {
			continue
		}
		if i := strings.Index(rest, " <unfinished ...>"); i >= 0 {
			pending[pid] = rest[:i]
			continue
		}
		if strings.HasPrefix(rest, "<... ") {
			i := strings.Index(rest, " resumed>")
			if i < 0 {
				return calls, bad, fmt.Errorf("cannot parse %q", clip(rest, 200))
			}
			rest = pending[pid] + rest[i+len(" resumed>"):]
			delete(pending, pid)
		}
		open, eq := strings.IndexByte(rest, '('), strings.LastIndex(rest, " = ")
		if open < 0 || eq < 0 {
			continue
		}
		name, args, ret := rest[:open], rest[open+1:eq], strings.TrimSpace(rest[eq+3:])
		calls++
		if strings.HasPrefix(ret, "-1") || strings.HasPrefix(ret, "?") {
			continue
		}
		// The paths: quoted ones, relative to the directory of a descriptor
		// when there is one, and those of the descriptors.
		paths := []string{}
		base := ""
		for _, a := range strings.Split(args, ", ") {
			a = strings.TrimSuffix(a, ")")
			if strings.HasPrefix(a, `"`) {
				p := unhex(strings.Trim(a, `"`))
				if !strings.HasPrefix(p, "/") {
					p = filepath.Join(base, p)
				}
				paths = append(paths, filepath.Clean(p))
			} else if i := strings.IndexByte(a, '<'); i >= 0 && strings.HasSuffix(a, ">") {
				base = strings.TrimSuffix(unhex(a[i+1:len(a)-1]), " (deleted)")
				if strings.HasPrefix(name, "f") && name != "futimesat" && name != "fchmodat" && name != "fchownat" || name == "utimensat" && strings.Contains(args, ", NULL") {
					paths = append(paths, base)
				}
			}
		}
		switch name {
		case "open", "openat", "openat2", "creat":
			changing := name == "creat" || strings.Contains(args, "O_TRUNC") || strings.Contains(args, "O_TMPFILE")
			if strings.Contains(args, "O_CREAT") && len(paths) > 0 && !existed(paths[0]) {
				changing = true
			}
			if !changing {
				continue
			}
		}
		for _, p := range paths {
			if !allowed(p) {
				bad = append(bad, clip(rest, 400)+" ["+p+"]")
			}
		}
	}
	return calls, bad, sc.Err()
}

type roState struct {
	name    string
	prepare func(w roWorld)
	change  func(yaml string) string
	die     bool
	during  func(w roWorld) // an outside event between two series of requests
	refused bool            // documentation only: the program is expected to refuse
	onInput bool            // the dsn of the indexes is the input
}

func roStates(w roWorld) []roState {
	src := roSources[w.src]
	states := []roState{
		{name: "as it is"},
		{name: "input rewritten while running", during: func(w roWorld) { writeFile(w.input(), src.other) }},
		{name: "input rewritten while running, to die", die: true, during: func(w roWorld) { writeFile(w.input(), src.other) }},
		{name: "input deleted while running", during: func(w roWorld) { must(os.Remove(w.input())) }},
		{name: "input deleted while running, to die", die: true, during: func(w roWorld) { must(os.Remove(w.input())) }},
		{name: "missing input", refused: true, prepare: func(w roWorld) { must(os.Remove(w.input())) }},
		{name: "missing input directory", refused: true, prepare: func(w roWorld) { must(os.RemoveAll(filepath.Join(w.dir, "in"))) }},
		{name: "empty input", prepare: func(w roWorld) { writeFile(w.input(), "") }},
		{name: "damaged input", prepare: func(w roWorld) { writeFile(w.input(), "\"<{[\n1,\"2\n\x00\xff") }},
		{name: "symbolic link", prepare: func(w roWorld) {
			must(os.Rename(w.input(), w.input()+".real"))
			must(os.Symlink(filepath.Base(w.input())+".real", w.input()))
		}},
		{name: "dangling symbolic link", refused: true, prepare: func(w roWorld) {
			must(os.Remove(w.input()))
			must(os.Symlink(filepath.Join(w.dir, "home", "target"), w.input()))
		}},
		{name: "hard link", prepare: func(w roWorld) { must(os.Link(w.input(), w.input()+".link")) }},
		{name: "read-only input", prepare: func(w roWorld) {
			must(os.Chmod(w.input(), 0o444))
			must(os.Chmod(filepath.Join(w.dir, "in"), 0o555))
		}},
		{name: "input is a directory", refused: true, prepare: func(w roWorld) {
			must(os.Remove(w.input()))
			must(os.Mkdir(w.input(), 0o755))
		}},
		{name: "refused configuration", refused: true, change: func(y string) string { return y + "\nnothing: known\n" }},
		{name: "refused parser", refused: true, change: func(y string) string { return "parsers: [{name: p, type: split, parser: nope}]\n" + y }},
		{name: "refused output", refused: true, change: func(y string) string {
			return strings.Replace(y, "outputs:\n", "outputs:\n  - {name: z, type: jsonArray, input: in, relationships: {r: {input: in, match: [{parentProperty: g, childProperty: g, childIndex: none}]}}}\n", 1)
		}},
		{name: "refused service", refused: true, change: func(y string) string {
			return regexp.MustCompile(`listen: '127.0.0.1:\d+'`).ReplaceAllString(y, "listen: '256.0.0.1:1'")
		}},
		{name: "https", change: func(y string) string {
			cert := certificate(filepath.Join(w.dir, "conf"))
			return strings.Replace(y, "http: {listen", "https: {certificatePath: '"+cert.CertificatePath+"', privateKeyPath: '"+cert.PrivateKeyPath+"', listen", 1)
		}},
	}
	files := roIndexFiles(w.kind)
	if len(files) == 0 {
		return states
	}
	each := func(f func(path string)) func(w roWorld) {
		return func(w roWorld) {
			w.build()
			for _, x := range files {
				f(filepath.Join(w.dir, x))
			}
		}
	}
	alone := func(f func(path string)) func(w roWorld) {
		return func(w roWorld) {
			for _, x := range files {
				f(filepath.Join(w.dir, x))
			}
		}
	}
	states = append(states,
		roState{name: "valid index", prepare: each(func(string) {})},
		roState{name: "index older than the input", refused: true, prepare: func(w roWorld) {
			w.build()
			writeFile(w.input(), src.other)
		}},
		roState{name: "damaged index", prepare: each(func(p string) {
			data, err := os.ReadFile(p)
			must(err)
			for k := range data {
				if k%97 == 13 {
					data[k] ^= 0x55
				}
			}
			must(os.WriteFile(p, data, 0o644))
		})},
		roState{name: "cut index", prepare: each(func(p string) {
			info, err := os.Stat(p)
			must(err)
			must(os.Truncate(p, info.Size()/2))
		})},
		roState{name: "foreign file in place of the index", refused: true, prepare: alone(func(p string) { writeFile(p, "something else, "+strings.Repeat("of some length ", 400)) })},
		roState{name: "the index of the input is the input", refused: true, onInput: true, prepare: func(w roWorld) {
			// Neighbours which would be the journals of that database.
			must(os.Remove(w.input() + "-journal"))
			must(os.Remove(w.input() + "-wal"))
		}, change: func(y string) string {
			for _, f := range files {
				y = strings.ReplaceAll(y, "'"+filepath.Join(w.dir, f)+"'", "'"+w.input()+"'")
			}
			return y
		}},
		roState{name: "directory in place of the index", refused: true, prepare: alone(func(p string) { must(os.Mkdir(p, 0o755)) })},
		roState{name: "missing index directory", refused: true, prepare: func(w roWorld) { must(os.RemoveAll(filepath.Join(w.dir, "ix"))) }},
		roState{name: "index of another configuration", prepare: func(w roWorld) {
			w.buildWith(func(y string) string {
				return strings.ReplaceAll(strings.ReplaceAll(y, "properties: [g]}", "properties: [g, id]}"), "properties: [{name: g}]}", "properties: [{name: g, collate: nocase}]}")
			})
		}},
	)
	return states
}

// build makes the indexes in this process, with the real constructors.
func (w roWorld) build() { w.buildWith(nil) }

func (w roWorld) buildWith(change func(string) string) {
	y := w.yaml("", false)
	if change != nil {
		y = change(y)
	}
	if i := strings.Index(y, "outputs:\n"); i >= 0 {
		y = y[:i]
	}
	if st, err := NewStack(filepath.Join(w.dir, "conf"), y, "indexes"); err == nil {
		st.Close()
	}
}

func c30Program(c *Ctx) {
	type job struct {
		src, kind string
		state     int
	}
	jobs := []job{}
	for _, src := range []string{"csv", "xml", "json"} {
		for _, kind := range roKinds {
			for s := range roStates(roWorld{src: src, kind: kind}) {
				if !c.Thorough() && kind != "all" && kind != "default" && src != "csv" {
					continue
				}
				jobs = append(jobs, job{src, kind, s})
			}
		}
	}
	c.ParallelN(8, len(jobs), func(i int) {
		j := jobs[i]
		name := roStates(roWorld{src: j.src, kind: j.kind})[j.state].name
		id := fmt.Sprintf("program: %s %s: %s", j.src, j.kind, name)
		c.Case(id, func() error {
			dir, cleanup := c.Dir()
			defer cleanup()
			defer func() { _ = os.Chmod(filepath.Join(dir, "in"), 0o755) }()
			w := roWorld{j.src, j.kind, dir}
			w.create()
			state := roStates(w)[j.state]
			if state.prepare != nil {
				state.prepare(w)
			}
			addr := fmt.Sprintf("127.0.0.1:%d", freePort())
			y := w.yaml(fmt.Sprintf("services:\n  - {name: h, type: http, http: {listen: '%s'}, routes: [{output: arr, path: /arr}, {output: obj, path: '/obj/{id}'}, {output: bad, path: /bad}]}\n", addr), state.die)
			if state.change != nil {
				y = state.change(y)
			}
			conf := filepath.Join(dir, "conf", "rodb.yaml")
			writeFile(conf, y)
			files := roIndexFiles(j.kind)
			skip := func(rel string) bool {
				return len(files) > 0 && (rel == "ix" || companions(files, rel))
			}
			time.Sleep(8 * time.Millisecond)
			initial := treeState(dir, nil)
			before := treeState(dir, skip)
			trace := dir + ".trace"
			defer os.Remove(trace)
			cmd := exec.Command("strace", "-D", "-f", "-qq", "-y", "-xx", "-s", "4096", "-o", trace, "-e", "trace="+roCalls, programBin(), "-c", conf)
			cmd.Dir = filepath.Join(dir, "cwd")
			cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "HOME=" + filepath.Join(dir, "home"), "TMPDIR=" + filepath.Join(dir, "tmp")}
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			p := &program{dir: dir, cmd: cmd, ended: make(chan struct{})}
			cmd.Stdout, cmd.Stderr = p, p
			must(cmd.Start())
			go func() {
				p.err = cmd.Wait()
				close(p.ended)
			}()
			defer p.kill()
			scheme := "http"
			if name == "https" {
				scheme = "https"
			}
			up := false
			for begin := time.Now(); !up; time.Sleep(3 * time.Millisecond) {
				select {
				case <-p.ended:
				default:
					if conn, err := dialQuick(addr); err == nil {
						conn.Close()
						up = true
						continue
					}
					if time.Since(begin) > gateWait {
						return violf("program-stuck", "%s: %s", id, clip(p.logged(), 1500))
					}
					continue
				}
				break
			}
			asked := 0
			if up {
				client := &http.Client{Transport: insecureTransport(), Timeout: gateWait}
				series := func() {
					for _, t := range []string{"/arr", "/arr?" + w.param() + "=a", "/arr?id=x", "/arr?limit=1&offset=1", "/obj/2", "/obj/77", "/obj/x", "/bad", "/nowhere"} {
						resp, err := client.Get(scheme + "://" + addr + t)
						if err == nil {
							_, _ = io.Copy(io.Discard, resp.Body)
							resp.Body.Close()
							asked++
						}
						c.Step(1)
					}
				}
				series()
				if state.during != nil {
					if k, text := treeDiff(before, treeState(dir, skip)); k != "" {
						return violf(k, "%s: before the event: %s", id, text)
					}
					state.during(w)
					time.Sleep(8 * time.Millisecond)
					before = treeState(dir, skip)
					series()
				}
				client.CloseIdleConnections()
				_ = cmd.Process.Signal(os.Interrupt)
			}
			select {
			case <-p.ended:
			case <-time.After(gateWait):
				return violf("program-stuck", "%s: the program does not end: %s", id, clip(p.logged(), 1500))
			}
			text := p.logged()
			if strings.Contains(text, "panic:") {
				return violf("crash", "%s: %s", id, clip(text, 3000))
			}
			// The end of the outputs, which strace shares, is the end of strace too.
			data, err := os.ReadFile(trace)
			must(err)
			calls, bad, err := roViolations(data, func(path string) bool {
				for _, d := range []string{"/dev/", "/proc/", "/sys/"} {
					if strings.HasPrefix(path, d) {
						return true
					}
				}
				rel, err := filepath.Rel(dir, path)
				if err != nil {
					return false
				}
				if state.onInput && strings.HasPrefix(path, w.input()+"-") {
					return true
				}
				return companions(files, rel) || len(files) > 0 && strings.Contains(filepath.Base(path), "etilqs_")
			}, func(path string) bool {
				rel, err := filepath.Rel(dir, path)
				if err == nil && !strings.HasPrefix(rel, "..") {
					_, ok := initial[rel]
					return ok
				}
				_, err = os.Lstat(path)
				return err == nil
			})
			must(err)
			if calls == 0 {
				panic(&harnessError{fmt.Errorf("%s: nothing traced", id)})
			}
			c.Step(calls)
			if len(bad) > 0 {
				return violf("call", "%s: the program changes something else than its indexes: %s", id, strings.Join(bad, "\n"))
			}
			if k, text := treeDiff(before, treeState(dir, skip)); k != "" {
				return violf(k, "%s: %s", id, text)
			}
			c.State(id)
			c.Trace()
			if asked > 0 {
				c.Outcome("program serving: " + name)
			} else {
				c.Outcome("program refusing: " + name)
			}
			if os.Getenv("VERIF_SHOW") != "" {
				fmt.Fprintf(os.Stderr, "%s: asked=%d calls=%d %s\n", id, asked, calls, clip(strings.ReplaceAll(text, "\n", " | "), 300))
			}
			return nil
		})
	})
}

func dialQuick(addr string) (net.Conn, error) { return net.DialTimeout("tcp", addr, gateWait) }

func insecureTransport() *http.Transport {
	return &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}, DisableKeepAlives: true}
}
