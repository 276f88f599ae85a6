package main

// C25: concurrent requests, explored over every schedule up to a preemption
// bound on the instrumented code (see instr/ and sched/).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

func init() {
	register("C25", "model_checking",
		"For every pair (thorough: and triple) of operations - list and object requests through the outputs and through the HTTP handler, with relationships and sorting, reads by position, whole iterations, index queries - on components shared over csv, json and xml inputs and every kind of index, every schedule with at most the given number of preemptions is executed on the real code, instrumented with a scheduling point before every statement and with scheduler-aware mutexes; the Go race detector, from which the scheduler's own hand-overs are hidden, watches each schedule. Each answer is compared with the answer obtained alone; after each schedule every operation is repeated alone on the same components. A state is a vector of positions of the threads after a given preemption; a transition is one scheduling step; a trace is one schedule executed on the real code.",
		runC25)
}

type schedOp struct {
	Kind   string // ask, http, get, iterate, find
	Name   string
	Target string
	Params map[string]string
	Pos    int
}

func (o schedOp) String() string {
	keys := []string{}
	for k, v := range o.Params {
		keys = append(keys, k+"="+v)
	}
	sort.Strings(keys)
	return fmt.Sprintf("%s %s%s%v", o.Kind, o.Name, o.Target, keys)
}

type schedJob struct {
	Dir    string
	Yaml   string
	Ops    []schedOp
	Bound  int
	Shard  int
	Shards int
	Second int // limit in seconds
	Plan   []schedChoice
	Replay bool
	Race   bool // under the race detector, preempting at the synchronisations only
}

// schedChoice forces a thread at a scheduling step.
type schedChoice struct{ Step, To int }

type schedResult struct {
	Runs      int
	Steps     int
	States    int
	MaxSteps  int
	Complete  bool
	External  int
	Key       string
	Detail    string
	Plan      []schedChoice
	Preempted int // runs with at least one preemption
}

var (
	raceFrame = regexp.MustCompile(`(?m)^  (\S+)\(.*\)$`)
	planLine  = regexp.MustCompile(`(?m)^PLAN (.*)$`)
)

// runSchedule runs a job in its own process, where the race detector halts at
// the first race.
func runSchedule(c *Ctx, job schedJob) (res schedResult) {
	self := os.Getenv("VERIF_SCHED_BIN")
	if job.Race {
		self = os.Getenv("VERIF_RACE_BIN")
	}
	data, err := json.Marshal(job)
	must(err)
	if f := os.Getenv("VERIF_DUMP_JOB"); f != "" {
		_ = os.WriteFile(f, data, 0o644)
	}
	cmd := exec.Command(self, "child", "schedule")
	cmd.Env = append(os.Environ(), "TMPDIR="+c.Scratch, "GORACE=halt_on_error=1 exitcode=66 history_size=4", "GOMAXPROCS=2")
	cmd.Stdin = bytes.NewReader(data)
	errPath := filepath.Join(job.Dir, fmt.Sprintf("stderr-%d-%d-%v", job.Shard, job.Bound, job.Race))
	errFile, err := os.Create(errPath)
	must(err)
	cmd.Stderr = errFile
	out, err := cmd.Output()
	errFile.Close()
	stderr, _ := os.ReadFile(errPath)
	_ = os.Remove(errPath)
	if err == nil {
		must(json.Unmarshal(out, &res))
		return res
	}
	text := string(stderr)
	if m := planLine.FindAllStringSubmatch(text, -1); len(m) > 0 {
		_ = json.Unmarshal([]byte(m[len(m)-1][1]), &res.Plan)
		res.Runs = len(m)
	}
	text = planLine.ReplaceAllString(text, "")
	switch {
	case strings.Contains(text, "WARNING: DATA RACE"):
		text = text[strings.Index(text, "WARNING: DATA RACE"):]
		site := "unknown"
		for _, m := range raceFrame.FindAllStringSubmatch(text, -1) {
			if strings.Contains(m[1], "rodb-io/rodb/pkg/") && !strings.Contains(m[1], "verifsched") {
				site = m[1][strings.Index(m[1], "pkg/")+4:]
				break
			}
		}
		if site == "unknown" {
			panic(&harnessError{fmt.Errorf("a data race outside of rodb: %s", clip(text, 3000))})
		}
		res.Key = "race:" + site
		res.Detail = fmt.Sprintf("plan %v: unsynchronised accesses\n%s", res.Plan, clip(text, 5000))
	case strings.Contains(text, "fatal error:") || strings.Contains(text, "panic:"):
		res.Key = "crash"
		i := strings.Index(text, "fatal error:")
		if j := strings.Index(text, "panic:"); i < 0 || j >= 0 && j < i {
			i = j
		}
		if !strings.Contains(text[i:], "rodb-io/rodb/pkg/") || strings.Contains(text[i:], "main.(*harnessError)") || strings.Contains(text[i:], "harnessError") {
			panic(&harnessError{fmt.Errorf("child: %v: %s", err, clip(text[i:], 3000))})
		}
		res.Detail = fmt.Sprintf("plan %v: the process died\n%s", res.Plan, clip(text[i:], 5000))
	default:
		panic(&harnessError{fmt.Errorf("child: %v: %s", err, clip(text, 2000))})
	}
	return res
}

type schedWorld struct {
	name string
	yaml func(dir string) string
	ops  []schedOp
}

func schedWorlds() []schedWorld {
	type source struct{ name, file, yaml, content string }
	latin := func(s string) string { return strings.ReplaceAll(s, "é", "\xe9") }
	sources := []source{
		{"csv", "in.csv", "{name: in, type: csv, path: '%s', ignoreFirstRow: true, columns: [{name: id, parser: integer}, {name: g, parser: string}, {name: l, parser: latin}, {name: s, parser: list}, {name: k, parser: float}, {name: b, parser: boolean}, {name: j, parser: jis}]}",
			latin("id,g,l,s,k,b,j\n1,a,\u00e9t\u00e9,x|y,2.5,true,\x1b$B$$\x1b(Bo\n2,b,caf\u00e9,z,1.5,false,plain\n3,a,\u00e9,x,0.5,true,a\x1b$B$$$*\n")},
		{"xml", "in.xml", "{name: in, type: xml, path: '%s', recordXpath: //r, properties: [{name: id, type: primitive, parser: integer, xpath: 'number(@id)'}, {name: g, type: primitive, parser: string, xpath: 'string(g)'}, {name: l, type: primitive, parser: string, xpath: 'string(l)'}, {name: s, type: array, xpath: s, items: {type: primitive, parser: string, xpath: 'string(.)'}}, {name: k, type: primitive, parser: float, xpath: 'number(k)'}, {name: b, type: primitive, parser: boolean, xpath: 'boolean(b)'}, {name: e, type: primitive, parser: boolean, xpath: g = 'a'}, {name: f, type: primitive, parser: boolean, xpath: g = 'a' and k > 1}, {name: n, type: primitive, parser: float, xpath: 'number(@id) + count(s[. != \"x\"])'}, {name: z, type: primitive, parser: string, xpath: 's[position()=1]'}]}",
			"<all><r id='1'><g>a</g><l>u</l><s>x</s><s>y</s><k>2.5</k><b/></r><r id='2'><g>b</g><l>vv</l><s>z</s><k>1.5</k></r><r id='3'><g>a</g><l>www</l><k>0.5</k><b/></r></all>"},
		{"json", "in.json", "{name: in, type: json, path: '%s'}",
			"{\"id\":1,\"g\":\"a\",\"l\":\"u\",\"s\":[\"x\",\"y\"],\"k\":2.5,\"b\":true}\n{\"id\":2,\"g\":\"b\",\"l\":\"vv\",\"s\":[\"z\"],\"k\":1.5,\"b\":false}\n{\"id\":3,\"g\":\"a\",\"l\":\"www\",\"s\":[],\"k\":0.5,\"b\":true}\n"},
	}
	out := []schedWorld{}
	for _, src := range sources {
		for _, kind := range []string{"noop", "map", "sqlite", "wildcard", "fts5"} {
			src, kind := src, kind
			w := schedWorld{name: src.name + " " + kind}
			w.yaml = func(dir string) string {
				path := filepath.Join(dir, src.file)
				if _, err := os.Stat(path); err != nil {
					writeFile(path, src.content)
				}
				y := "parsers: [{name: latin, type: string, convertFromCharset: windows-1252}, {name: jis, type: string, convertFromCharset: iso-2022-jp}, {name: list, type: split, delimiter: '|', parser: string}]\ninputs:\n  - " + fmt.Sprintf(src.yaml, path) + "\n"
				ix, prop := "ix", "g"
				file := filepath.Join(dir, "ix")
				switch kind {
				case "noop":
					ix = "default"
				case "map":
					y += "indexes:\n  - {name: ix, type: map, input: in, properties: [g, s]}\n"
				case "sqlite":
					y += "indexes:\n  - {name: ix, type: sqlite, input: in, dsn: '" + file + "', properties: [{name: g}]}\n"
				case "wildcard":
					y += "indexes:\n  - {name: ix, type: wildcard, input: in, path: '" + file + "', properties: [g]}\n"
				case "fts5":
					y += "indexes:\n  - {name: ix, type: fts5, input: in, dsn: '" + file + "', properties: [g]}\n"
					prop = "match"
				}
				y += "outputs:\n"
				rel := "relationships: {peers: {input: in, isArray: true, limit: 2, sort: [{property: k, ascending: true}], match: [{parentProperty: g, childProperty: " + prop + ", childIndex: " + ix + "}]}}"
				if kind == "fts5" {
					rel = "relationships: {peers: {input: in, isArray: true, limit: 2, sort: [{property: k, ascending: true}], match: [{parentProperty: g, childProperty: g, childIndex: default}]}}"
				}
				for _, t := range []string{"jsonArray", "jsonObject"} {
					y += fmt.Sprintf("  - {name: %s, type: %s, input: in, parameters: {g: {property: %s, parser: string, index: %s}}, %s}\n", t, t, prop, ix, rel)
				}
				y += "services:\n  - {name: h, type: http, http: {listen: '127.0.0.1:0'}, routes: [{output: jsonArray, path: /arr}, {output: jsonObject, path: '/obj/{g}'}]}\n"
				return y
			}
			find := schedOp{Kind: "find", Name: "ix", Target: "in", Params: map[string]string{"g": "a"}}
			if kind == "fts5" {
				find.Params = map[string]string{"match": "a"}
			}
			if kind == "noop" {
				find.Name = "default"
			}
			find2 := find
			find2.Params = map[string]string{}
			for k := range find.Params {
				find2.Params[k] = "b"
			}
			w.ops = []schedOp{
				{Kind: "ask", Name: "jsonArray", Params: map[string]string{"g": "a"}},
				{Kind: "ask", Name: "jsonObject", Params: map[string]string{"g": "b"}},
				find, find2,
				{Kind: "get", Name: "in", Pos: 0},
				{Kind: "get", Name: "in", Pos: 2},
				{Kind: "iterate", Name: "in"},
				{Kind: "http", Target: "/arr?g=a&limit=1&offset=1"},
				{Kind: "http", Target: "/obj/b"},
			}
			out = append(out, w)
		}
	}
	return out
}

func runC25(c *Ctx) {
	type scenario struct {
		id    string
		world schedWorld
		ops   []schedOp
		bound int
		race  bool
		cost  int
	}
	scenarios := []scenario{}
	for _, w := range schedWorlds() {
		parts := strings.Fields(w.name)
		if !c.Thorough() && parts[0] != "csv" && parts[1] != "map" {
			continue
		}
		add := func(ops []schedOp, bound, cost int, race bool) {
			names := []string{}
			for _, o := range ops {
				names = append(names, o.String())
			}
			mode := "every statement"
			if race {
				mode = "races"
			}
			scenarios = append(scenarios, scenario{fmt.Sprintf("%s: %s (%s, preemptions <= %d)", w.name, strings.Join(names, " || "), mode, bound), w, ops, bound, race, cost})
		}
		for i := range w.ops {
			for j := i; j < len(w.ops); j++ {
				a, b := w.ops[i], w.ops[j]
				ops := []schedOp{a, b}
				// The input alone does not depend on the kind of index.
				inputOnly := func(o schedOp) bool { return o.Kind == "get" || o.Kind == "iterate" }
				if inputOnly(a) && inputOnly(b) && parts[1] != "map" {
					continue
				}
				small := func(o schedOp) bool {
					return o.Kind == "get" || o.Kind == "find" && parts[1] != "noop" || o.Kind == "iterate" && parts[0] != "csv"
				}
				heavy := func(o schedOp) int {
					if small(o) {
						return 1
					}
					return 4
				}
				// The evaluation of an XPath expression takes a lock each time.
				long := parts[0] == "xml" && !(small(a) && small(b) && a.Kind != "iterate" && b.Kind != "iterate")
				if long {
					add(ops, c.Pick(1, 2), 1, true)
				} else {
					add(ops, c.Pick(2, 3), 1, true)
				}
				add(ops, 1, heavy(a)*heavy(b), false)
				if small(a) && small(b) && a.Kind == b.Kind && parts[0] != "xml" || c.Thorough() {
					add(ops, 2, 10*heavy(a)*heavy(b), false)
				}
				if small(a) && small(b) && c.Thorough() {
					add(ops, 3, 1000, false)
				}
			}
		}
		triples := [][]schedOp{{w.ops[4], w.ops[5], w.ops[4]}, {w.ops[0], w.ops[1], w.ops[4]}, {w.ops[2], w.ops[3], w.ops[5]}}
		for k, t := range triples {
			add(t, 1, 5, true)
			if k == 0 || c.Thorough() {
				add(t, 1, 40, false)
			}
		}
	}
	// The deepest ones last, so that they are the ones the time limit cuts.
	if only := os.Getenv("VERIF_ONLY"); only != "" {
		kept := scenarios[:0]
		for _, s := range scenarios {
			if strings.HasPrefix(s.id, only) {
				kept = append(kept, s)
			}
		}
		scenarios = kept
	}
	sort.SliceStable(scenarios, func(i, j int) bool { return scenarios[i].cost < scenarios[j].cost })
	var mu sync.Mutex
	totals := map[string]int{}
	completed := 0
	c.ParallelN(10, len(scenarios), func(i int) {
		s := scenarios[i]
		c.Case(s.id, func() error {
			dir, cleanup := c.Dir()
			defer cleanup()
			left := int(c.Left().Seconds())
			if left < 1 {
				left = 1
			}
			job := schedJob{Dir: dir, Yaml: s.world.yaml(dir), Ops: s.ops, Bound: s.bound, Shards: 1, Second: left, Race: s.race}
			begin := time.Now()
			res := runSchedule(c, job)
			if os.Getenv("VERIF_TIMES") != "" {
				fmt.Fprintf(os.Stderr, "TIME %6.1f runs=%d steps=%d ext=%d %s\n", time.Since(begin).Seconds(), res.Runs, res.MaxSteps, res.External, s.id)
			}
			kind := "statements"
			if s.race {
				kind = "races"
			}
			mu.Lock()
			totals["schedules_"+kind] += res.Runs
			totals["schedules_with_preemption"] += res.Preempted
			totals["blocked_outside"] += res.External
			if res.MaxSteps > totals["longest_schedule"] {
				totals["longest_schedule"] = res.MaxSteps
			}
			if res.Complete {
				completed++
			}
			mu.Unlock()
			c.Step(res.Steps)
			c.Count(res.States, res.Runs)
			c.Outcome(kind + " " + s.ops[0].Kind + "||" + s.ops[1].Kind)
			if res.Key != "" {
				return violf(res.Key, "%s: %s", s.id, res.Detail)
			}
			if !res.Complete {
				c.mu.Lock()
				c.capped = true
				c.mu.Unlock()
				c.Note("%s: not all schedules explored in the time", s.id)
			}
			return nil
		})
	})
	for k, v := range totals {
		c.Extra(k, v)
	}
	c.Extra("scenarios", len(scenarios))
	c.Extra("scenarios_explored_completely", completed)
}
