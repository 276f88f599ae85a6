package main

// C31: serving requests does not accumulate resources.

import (
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

func init() {
	register("C31", "model_checking",
		"Every request of the stacks of C32 (each index kind and pair of kinds, relationships, every single failing call) over inputs that record each iteration: it must be closed, exactly once, when the request ends; same for every index build, also failing at every call. Child processes with the garbage collector off run every sequence of up to two requests (three in thorough), through the outputs and through HTTP, over real files and every index kind, comparing the open files, goroutines and sockets after each history with those before; then everything is closed and compared with the state before the construction. A state is one (stack, history); a transition is one request or build.",
		runC31)
	childCommands["leaks"] = func(in []byte) interface{} { return leakRun(in) }
}

func runC31(c *Ctx) {
	c31Iterations(c)
	c31Builds(c)
	c31Process(c)
}

// leftOpen judges the iterations of one input after a request.
func leftOpen(m *memInput, reason, what string) error {
	for _, it := range m.iters {
		state := "unfinished"
		if it.exhausted {
			state = "exhausted"
		} else if it.failed {
			state = "failed"
		}
		switch {
		case it.closed > 1:
			return violf("request:closed-twice", "%s: an iteration of %s (%s) was closed %d times", what, m.name, state, it.closed)
		case it.closed == 0 && it.exhausted:
			return violf("request:exhausted-not-closed", "%s: an iteration of %s reached its end and was not closed", what, m.name)
		case it.closed == 0:
			return violf("request:scan-abandoned:"+reason, "%s: an %s iteration of %s was not closed", what, state, m.name)
		}
	}
	return nil
}

func c31Iterations(c *Ctx) {
	worlds := requestWorlds(c.Thorough())
	c.ParallelN(16, len(worlds), func(i int) {
		rw := worlds[i]
		dir, cleanup := c.Dir()
		defer cleanup()
		var ins []*memInput
		var w *world
		var build error
		func() {
			defer func() {
				if r := recover(); r != nil {
					build = fmt.Errorf("%v", r)
				}
			}()
			in, wo, outs := rw.build(dir)
			ins, w = in, wo
			for _, m := range ins {
				m.track = true
			}
			// request runs one request and gives the iterations it left.
			request := func(rq reqCase, side int, at int64, from bool) Reply {
				for _, m := range ins {
					m.calls, m.iters, m.failed = 0, nil, ""
				}
				if side >= 0 {
					if from {
						ins[side].from = at
					} else {
						ins[side].failAt = at
					}
				}
				rep := Ask(outs[rq.Output], rq.Params)
				for _, m := range ins {
					m.from, m.failAt = -1, -1
				}
				c.Step(1)
				return rep
			}
			joined := strings.Contains(strings.SplitN(rw.name, " ", 2)[0], "+") && !strings.Contains(rw.name, "+ ")
			for _, rq := range rw.requests {
				rq := rq
				plain := request(rq, -1, 0, false)
				calls := []int64{}
				for _, m := range ins {
					calls = append(calls, m.calls)
				}
				c.Outcome(fmt.Sprintf("plain-%d", plain.Status))
				c.State("iterations", rw.name, rq.Output, rq.Params)
				reason := "none"
				switch {
				case joined && len(rq.Params) > 1 && rq.Params["a"] != "":
					reason = "join"
				case rq.Output == "obj":
					reason = "object"
				case rq.Params["limit"] != "":
					reason = "limit"
				}
				for side := range ins {
					side := side
					r := reason
					if side > 0 {
						r = "none"
					}
					c.Case(fmt.Sprintf("iterations of %s after %s %v of %s", ins[side].name, rq.Output, rq.Params, rw.name), func() error {
						request(rq, -1, 0, false)
						return leftOpen(ins[side], r, fmt.Sprintf("%s: %s %v", rw.name, rq.Output, rq.Params))
					})
					c.Case(fmt.Sprintf("iterations after faults of %s in %s %v of %s", ins[side].name, rq.Output, rq.Params, rw.name), func() error {
						for at := int64(0); at < calls[side]; at++ {
							for _, from := range []bool{false, true} {
								rep := request(rq, side, at, from)
								if rep.Status != 500 {
									continue
								}
								for k, m := range ins {
									if err := leftOpen(m, "failure", fmt.Sprintf("%s: %s %v with call %d of input %s failing (side %d)", rw.name, rq.Output, rq.Params, at, ins[side].name, k)); err != nil {
										return err
									}
								}
							}
						}
						return nil
					})
				}
			}
			c.Trace()
		}()
		if w != nil {
			w.close()
		}
		if build != nil {
			c.Case("stack "+rw.name, func() error { return violf("stack", "%v", build) })
		}
	})
}

func c31Builds(c *Ctx) {
	rows := []object{{"a": "x", "b": "y"}, {"a": "xy", "b": "z"}}
	for _, kind := range []string{"map", "sqlite", "fts5", "wildcard"} {
		for at := int64(-1); ; at++ {
			reached := false
			c.Case(fmt.Sprintf("build of %s failing at %d", kind, at), func() error {
				dir, cleanup := c.Dir()
				defer cleanup()
				b := bcase{kind: kind, props: []string{"a", "b"}, file: kind != "map"}
				m := newMem("in", rows)
				m.track, m.failAt = true, at
				ix, err := b.open(m, dir)
				c.Step(1)
				c.State("build", kind, at)
				reached = m.failed != "" || at < 0
				what := fmt.Sprintf("%s index, call %d (%s) failing", kind, at, m.failed)
				for _, it := range m.iters {
					if it.closed != 1 {
						return violf("build:iteration", "%s: the iteration was closed %d times", what, it.closed)
					}
				}
				if err == nil {
					c.Outcome("built")
					if err := ix.Close(); err != nil {
						return violf("build:close", "%s: %v", what, err)
					}
				} else {
					c.Outcome("build-failed")
				}
				return nil
			})
			if !reached {
				break
			}
		}
	}
}

// fdList gives what each descriptor of the process designates.
func fdList() []string {
	out := []string{}
	es, err := os.ReadDir("/proc/self/fd")
	must(err)
	for _, e := range es {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil {
			continue // the one reading the directory
		}
		if strings.HasPrefix(l, "/proc/") || strings.Contains(l, "eventpoll") || strings.Contains(l, "eventfd") {
			continue
		}
		if strings.HasPrefix(l, "socket:") {
			l = "socket"
		}
		if strings.HasPrefix(l, "pipe:") {
			l = "pipe"
		}
		out = append(out, l)
	}
	sort.Strings(out)
	return out
}

func fdDiff(before, after []string) []string {
	n := map[string]int{}
	for _, f := range after {
		n[f]++
	}
	for _, f := range before {
		n[f]--
	}
	out := []string{}
	for f, k := range n {
		if k != 0 {
			out = append(out, fmt.Sprintf("%s %+d", f, k))
		}
	}
	sort.Strings(out)
	return out
}

// goroutineList gives the stacks of the goroutines, by their creation site.
func goroutineList() map[string]int {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	out := map[string]int{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		i := strings.LastIndex(g, "created by ")
		if i < 0 {
			continue
		}
		site := strings.SplitN(g[i:], "\n", 2)[0]
		if j := strings.Index(site, " in goroutine"); j > 0 {
			site = site[:j]
		}
		out[site]++
	}
	return out
}

// goroutineStacks gives the stacks of the goroutines created at these sites.
func goroutineStacks(sites []string) string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	out := ""
	for _, g := range strings.Split(string(buf), "\n\n") {
		for _, site := range sites {
			if strings.Contains(g, strings.SplitN(site, " +", 2)[0]) {
				out += clip(g, 3000) + "\n\n"
				break
			}
		}
	}
	return clip(out, 6000)
}

func goroutineDiff(before, after map[string]int) []string {
	out := []string{}
	for s, n := range after {
		if n > before[s] {
			out = append(out, fmt.Sprintf("%s +%d", s, n-before[s]))
		}
	}
	sort.Strings(out)
	return out
}

type leakJob struct {
	Dir      string
	Yaml     string
	Requests []leakRequest
	Depth    int
	Http     bool
	File     string
	Gone     string // what happens to the input file before everything is closed
}

type leakRequest struct {
	Name     string
	Output   string
	Params   map[string]string
	Raw      string // over HTTP
	Cut      int    // close the connection after sending this many bytes (0: all)
	Abandons bool   // stops a scan before its end
}

type leak struct {
	Key    string
	Detail string
}

type leakResult struct {
	Refused string
	Leaks   []leak
	Steps   int
	States  int
}

// settled waits until the condition holds; nothing but the code under test is waited for.
func settled(cond func() bool) bool {
	deadline := time.Now().Add(45 * time.Second)
	for !cond() {
		if time.Now().After(deadline) {
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
	return true
}

func leakRun(stdin []byte) leakResult {
	var job leakJob
	must(json.Unmarshal(stdin, &job))
	res := leakResult{}
	debug.SetGCPercent(-1)
	add := func(key, format string, args ...interface{}) {
		for _, l := range res.Leaks {
			if l.Key == key {
				return
			}
		}
		res.Leaks = append(res.Leaks, leak{key, fmt.Sprintf(format, args...)})
	}
	// The runtime opens its own descriptors at the first use of the network.
	if l, err := net.Listen("tcp", "127.0.0.1:0"); err == nil {
		l.Close()
	}
	upTo := "outputs"
	if job.Http {
		upTo = "services"
	}
	// Once before measuring, for what is created lazily and kept for ever.
	if st, err := NewStack(job.Dir, job.Yaml, upTo); err != nil {
		res.Refused = err.Error()
		return res
	} else {
		st.Close()
	}
	gc := func() {
		for i := 0; i < 3; i++ {
			runtime.GC()
		}
	}
	gc()
	time.Sleep(20 * time.Millisecond)
	fds0, gor0 := fdList(), goroutineList()
	st, err := NewStack(job.Dir, job.Yaml, upTo)
	if err != nil {
		res.Refused = err.Error()
		return res
	}
	addr := ""
	if job.Http {
		addr = strings.TrimPrefix(st.Services["h"].Address(), "http://")
	}
	blocked := false
	do := func(r leakRequest) {
		if blocked {
			return
		}
		res.Steps++
		if !job.Http {
			Ask(st.Outputs[r.Output], r.Params)
			return
		}
		conn, err := net.Dial("tcp", addr)
		must(err)
		defer conn.Close()
		_ = conn.SetDeadline(time.Now().Add(60 * time.Second))
		if r.Cut > 0 {
			_, _ = conn.Write([]byte(r.Raw[:r.Cut]))
			return
		}
		_, _ = conn.Write([]byte(r.Raw))
		buf := make([]byte, 4096)
		for {
			_, err := conn.Read(buf)
			if ne, ok := err.(net.Error); ok && ne.Timeout() {
				if stacks := waitingInRodb(20 * time.Second); stacks != "" {
					blocked = true
					add("request:blocked", "request %q: not answered, its goroutine waits for ever in rodb:\n%s", r.Name, stacks)
				}
			}
			if err != nil {
				return
			}
		}
	}
	for _, r := range job.Requests {
		do(r)
	}
	if blocked {
		return res
	}
	gc()
	quiet := func(fds []string, gor map[string]int) func() bool {
		return func() bool {
			return len(fdDiff(fds, fdList())) == 0 && len(goroutineDiff(gor, goroutineList())) == 0
		}
	}
	// After the first requests: only what the components themselves hold.
	time.Sleep(20 * time.Millisecond)
	var fds1 []string
	var gor1 map[string]int
	settled(func() bool {
		fds1, gor1 = fdList(), goroutineList()
		time.Sleep(5 * time.Millisecond)
		return len(fdDiff(fds1, fdList())) == 0 && len(goroutineDiff(gor1, goroutineList())) == 0
	})
	var seqs [][]int
	for _, t := range tuples(len(job.Requests), job.Depth) {
		if len(t) > 0 {
			seqs = append(seqs, t)
		}
	}
	for _, t := range seqs {
		names := []string{}
		abandons := false
		for _, k := range t {
			names = append(names, job.Requests[k].Name)
			abandons = abandons || job.Requests[k].Abandons
		}
		for round := 0; round < 2; round++ {
			for _, k := range t {
				do(job.Requests[k])
			}
		}
		res.States++
		what := "after twice " + strings.Join(names, " then ")
		var fdd, gord []string
		measure := func() bool {
			fdd, gord = fdDiff(fds1, fdList()), goroutineDiff(gor1, goroutineList())
			for _, f := range fdd {
				if !abandons || !strings.Contains(f, job.Dir+"/in.") {
					return false
				}
			}
			return len(gord) == 0
		}
		if job.Http {
			// The connections are accepted in order: once this one is answered, no other is pending.
			do(leakRequest{Raw: "GET /nowhere HTTP/1.1\r\nHost: l\r\nConnection: close\r\n\r\n"})
			// The connections are closed; the server notices it asynchronously.
			settled(measure)
		} else {
			measure()
		}
		if len(gord) > 0 {
			add("request:goroutine", "%s: goroutines %v\n%s", what, gord, goroutineStacks(gord))
		}
		if len(fdd) > 0 {
			if !abandons {
				add("request:descriptor", "%s: open files %v", what, fdd)
			} else {
				for _, f := range fdd {
					if !strings.Contains(f, job.Dir+"/in.") {
						add("request:descriptor", "%s: open files %v", what, fdd)
					}
				}
				add("request:scan-abandoned:file", "%s: open files %v until the garbage collection", what, fdd)
				gc()
				if !settled(quiet(fds1, gor1)) {
					add("request:kept", "%s: still open after a garbage collection: %v %v", what, fdDiff(fds1, fdList()), goroutineDiff(gor1, goroutineList()))
				}
			}
		}
		// Only the abandoned scans are known: after anything else the counts never settle again.
		for _, l := range res.Leaks {
			if blocked {
				return res
			}
			if l.Key != "request:scan-abandoned:file" {
				seqs = nil
			}
		}
		if seqs == nil {
			break
		}
	}
	in := filepath.Join(job.Dir, job.File)
	switch job.Gone {
	case "deleted":
		must(os.Remove(in))
	case "replaced":
		writeFile(in+".new", "1,1\n")
		must(os.Rename(in+".new", in))
	case "renamed":
		must(os.Rename(in, in+".old"))
	case "truncated":
		must(os.Truncate(in, 0))
	}
	st.Close()
	var fdd, gord []string
	// Watchers and connections end asynchronously.
	settled(func() bool {
		fdd, gord = fdDiff(fds0, fdList()), goroutineDiff(gor0, goroutineList())
		return len(fdd) == 0 && len(gord) == 0
	})
	if len(fdd) > 0 {
		add("close:descriptor", "after closing everything: open files %v", fdd)
	}
	if len(gord) > 0 {
		add("close:goroutine", "after closing everything: goroutines %v\n%s", gord, goroutineStacks(gord))
	}
	return res
}

func c31Process(c *Ctx) {
	type source struct{ name, file, yaml, content string }
	sources := []source{
		{"csv", "in.csv", "{name: in, type: csv, path: '%s', ignoreFirstRow: true, columns: [{name: id, parser: integer}, {name: g, parser: string}]}", "id,g\n1,a\n2,b\n3,a\nx,bad\n"},
		{"xml", "in.xml", "{name: in, type: xml, path: '%s', recordXpath: //r, properties: [{name: id, type: primitive, parser: integer, xpath: string(@id)}, {name: g, type: primitive, parser: string, xpath: string(g)}]}", "<all><r id='1'><g>a</g></r><r id='2'><g>b</g></r><r id='3'><g>a</g></r></all>"},
		// A header that cannot be read: every scan fails before its first record.
		{"csv-header", "in.csv", "{name: in, type: csv, path: '%s', ignoreFirstRow: true, columns: [{name: id, parser: integer}, {name: g, parser: string}]}", "i\"d,g\n1,a\n2,b\n"},
		{"xml-empty", "in.xml", "{name: in, type: xml, path: '%s', recordXpath: //r, properties: [{name: id, type: primitive, parser: integer, xpath: string(@id)}, {name: g, type: primitive, parser: string, xpath: string(g)}]}", "<all><r"},
		{"json-broken", "in.json", "{name: in, type: json, path: '%s'}", "{\"id\":1,\"g\":\"a\"}\n]\n"},
		{"json", "in.json", "{name: in, type: json, path: '%s'}", "{\"id\":1,\"g\":\"a\"}\n{\"id\":2,\"g\":\"b\"}\n{\"id\":3,\"g\":\"a\"}\n"},
	}
	kinds := []string{"default", "map", "sqlite", "sqlite-memory", "wildcard", "fts5"}
	type pcase struct {
		src  int
		kind string
		http bool
		gone string
	}
	cases := []pcase{}
	for s := range sources {
		for _, k := range kinds {
			if strings.Contains(sources[s].name, "-") && k != "default" {
				continue // refused
			}
			cases = append(cases, pcase{s, k, false, ""}, pcase{s, k, true, ""})
		}
		for _, g := range []string{"deleted", "replaced", "renamed", "truncated"} {
			cases = append(cases, pcase{s, "default", false, g})
		}
	}
	c.ParallelN(8, len(cases), func(i int) {
		x := cases[i]
		src := sources[x.src]
		dir, cleanup := c.Dir()
		defer cleanup()
		path := filepath.Join(dir, src.file)
		writeFile(path, src.content)
		y := "parsers: []\ninputs:\n  - " + fmt.Sprintf(src.yaml, path) + "\n"
		if x.gone != "" {
			y = strings.Replace(y, "{name: in,", "{name: in, dieOnInputChange: false,", 1)
		}
		ix, prop := "ix", "g"
		file := filepath.Join(dir, "ix")
		switch x.kind {
		case "default":
			ix = "default"
		case "map":
			y += "indexes:\n  - {name: ix, type: map, input: in, properties: [g]}\n"
		case "sqlite":
			y += "indexes:\n  - {name: ix, type: sqlite, input: in, dsn: '" + file + "', properties: [{name: g}]}\n"
		case "sqlite-memory":
			y += "indexes:\n  - {name: ix, type: sqlite, input: in, dsn: ':memory:', properties: [{name: g}]}\n"
		case "wildcard":
			y += "indexes:\n  - {name: ix, type: wildcard, input: in, path: '" + file + "', properties: [g]}\n"
		case "fts5":
			y += "indexes:\n  - {name: ix, type: fts5, input: in, dsn: '" + file + "', properties: [g]}\n"
			prop = "match"
		}
		y += "outputs:\n"
		for _, t := range []string{"jsonArray", "jsonObject"} {
			y += fmt.Sprintf("  - {name: %s, type: %s, input: in, parameters: {g: {property: %s, parser: string, index: %s}}, relationships: {peers: {input: in, isArray: true, limit: 1, match: [{parentProperty: g, childProperty: g, childIndex: default}]}}}\n", t, t, prop, ix)
			y += fmt.Sprintf("  - {name: %sById, type: %s, input: in, parameters: {id: {property: id, parser: integer, index: default}}}\n", t, t)
		}
		y += "services:\n  - {name: h, type: http, http: {listen: '127.0.0.1:0'}, routes: [{output: jsonArray, path: /arr}, {output: jsonObject, path: /obj}, {output: jsonArrayById, path: /arrid}, {output: jsonObjectById, path: /objid}]}\n"
		scan := x.kind == "default"
		reqs := []leakRequest{
			{Name: "list", Output: "jsonArray", Params: map[string]string{"g": "a"}},
			{Name: "list all", Output: "jsonArray", Params: map[string]string{}},
			{Name: "list none", Output: "jsonArray", Params: map[string]string{"g": "zz"}},
			{Name: "list limit", Output: "jsonArray", Params: map[string]string{"g": "a", "limit": "1"}, Abandons: scan},
			{Name: "list all limit", Output: "jsonArray", Params: map[string]string{"limit": "1"}, Abandons: true},
			{Name: "bad limit", Output: "jsonArray", Params: map[string]string{"limit": "x"}},
			{Name: "object", Output: "jsonObject", Params: map[string]string{"g": "a"}, Abandons: scan},
			{Name: "object none", Output: "jsonObject", Params: map[string]string{"g": "zz"}},
			{Name: "by id", Output: "jsonArrayById", Params: map[string]string{"id": "2", "limit": "1"}, Abandons: true},
			{Name: "bad id", Output: "jsonObjectById", Params: map[string]string{"id": "x"}},
		}
		if src.name == "csv" || src.name == "json-broken" || src.name == "xml-empty" {
			// A row that cannot be read: the requests reaching it fail.
			for k := range reqs {
				if src.name != "csv" || reqs[k].Output == "jsonArrayById" || reqs[k].Name == "list all" {
					reqs[k].Abandons = true
				}
			}
		}
		if x.kind == "fts5" {
			reqs = append(reqs, leakRequest{Name: "bad match", Output: "jsonArray", Params: map[string]string{"g": "\"a"}})
		}
		if x.http {
			paths := map[string]string{"jsonArray": "/arr", "jsonObject": "/obj", "jsonArrayById": "/arrid", "jsonObjectById": "/objid"}
			for k := range reqs {
				q := []string{}
				for n, v := range reqs[k].Params {
					q = append(q, n+"="+strings.ReplaceAll(v, "\"", "%22"))
				}
				sort.Strings(q)
				reqs[k].Raw = "GET " + paths[reqs[k].Output] + "?" + strings.Join(q, "&") + " HTTP/1.1\r\nHost: l\r\nConnection: close\r\n\r\n"
			}
			cut := reqs[0]
			cut.Name, cut.Cut = "list cut short", 12
			left := reqs[1]
			left.Name, left.Cut = "list and leave", len(left.Raw)
			reqs = append(reqs, cut, left, leakRequest{Name: "nowhere", Raw: "GET /nowhere HTTP/1.1\r\nHost: l\r\nConnection: close\r\n\r\n"},
				leakRequest{Name: "malformed", Raw: "GET\r\n\r\n"}, leakRequest{Name: "post", Raw: "POST /arr HTTP/1.1\r\nHost: l\r\nConnection: close\r\nContent-Length: 3\r\n\r\nabc"})
		}
		job := leakJob{Dir: dir, Yaml: y, Requests: reqs, Depth: c.Pick(2, 3), Http: x.http, File: src.file, Gone: x.gone}
		if x.gone != "" {
			job.Depth = 1
		}
		id := fmt.Sprintf("process %s %s http=%v", src.name, x.kind, x.http)
		if x.gone != "" {
			id += " " + x.gone
		}
		var res leakResult
		c.Case(id, func() error {
			runChild(c, "leaks", job, &res)
			c.Step(res.Steps)
			for n := 0; n < res.States; n++ {
				c.State("process", src.name, x.kind, x.http, n)
			}
			if res.Refused != "" {
				return violf("stack", "%s: %s", id, res.Refused)
			}
			c.Outcome("process-ran")
			c.Trace()
			return nil
		})
		for _, l := range res.Leaks {
			l := l
			c.Case(id+" leak "+l.Key, func() error {
				return violf(l.Key, "%s: %s", id, l.Detail)
			})
		}
	})
}
