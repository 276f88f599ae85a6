package main

// C29: no answer depends on the iteration order of a map. The code is built
// with every iteration over a map driven by the harness (see instr/ and sched/).

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

func init() {
	register("C29", "model_checking",
		"Every map iteration of the code is replaced, at build time, by one whose order the harness chooses. For every small configuration - every pair (and some triples) of parameters over every kind of index, the same property filtered twice included, every pair of relationships including ones named like a property another one reads, nested ones, several matches - and every request of the grid (matching, not matching, invalid, absent values; error answers included), every combination of iteration orders met while the request is served is executed (when their number exceeds the bound: every combination of at most two iterations that are not in sorted order) and the complete answer must be the same. Likewise for the orders met while everything is validated and built: with at most one (thorough: two) iterations out of the sorted order, the acceptance and all answers must be the same, and the same again from the index files left by the previous start. A state is one (request or start, vector of orders); a transition is one execution; a trace is one configuration explored completely.",
		runC29)
}

type mapsJob struct {
	Dir    string
	Yaml   string
	Ops    []schedOp
	Build  bool // permute while building rather than while answering
	Bound  int  // iterations out of the sorted order, at most (0: any number up to Cap executions)
	Cap    int
	Second int
	Reopen bool
	Files  []string // the index files, removed before each start
}

type mapsResult struct {
	Runs     int
	States   int
	Points   int // longest vector of orders
	Full     int // explored with any number of orders
	Bounded  int
	Sites    map[string]int
	Answers  map[string]int
	Complete bool
	Key      string
	Detail   string
}

func runMaps(c *Ctx, job mapsJob) (res mapsResult) {
	data, err := json.Marshal(job)
	must(err)
	cmd := exec.Command(os.Getenv("VERIF_SCHED_BIN"), "child", "maps")
	cmd.Env = append(os.Environ(), "TMPDIR="+c.Scratch, "GOMAXPROCS=2")
	cmd.Stdin = bytes.NewReader(data)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		text := stderr.String()
		i := strings.Index(text, "panic:")
		if j := strings.Index(text, "fatal error:"); j >= 0 && (i < 0 || j < i) {
			i = j
		}
		if i >= 0 && strings.Contains(text[i:], "rodb-io/rodb/pkg/") && !strings.Contains(text[i:], "harnessError") {
			res.Key, res.Detail = "crash", clip(text[i:], 4000)
			return res
		}
		panic(&harnessError{fmt.Errorf("child maps: %v: %s", err, clip(text, 3000))})
	}
	must(json.Unmarshal(out, &res))
	return res
}

type mapsWorld struct {
	name  string
	yaml  string
	ops   []schedOp
	build bool
	bound int
	files []string
}

// mapsBase writes the files and gives the beginning of the configuration.
func mapsBase(dir string) (yaml string, files []string) {
	in := filepath.Join(dir, "in.json")
	writeFile(in, `{"id":1,"b":"x","c":["x","y"],"d":"one two","n":null,"m":5}`+"\n"+
		`{"id":2,"b":"y","c":["y"],"d":"two","n":"x"}`+"\n"+
		`{"id":3,"b":"x","c":[],"d":"three one","n":"y","m":{"k":1}}`+"\n"+
		`{"id":1,"b":"xy","c":"x","d":"x","n":"z","m":7}`+"\n")
	kids := filepath.Join(dir, "kids.json")
	writeFile(kids, `{"p":1,"q":"x","r":"k1","s":2}`+"\n"+
		`{"p":1,"q":"y","r":"k2","s":1}`+"\n"+
		`{"p":2,"q":"x","r":"k3","s":3}`+"\n"+
		`{"p":1,"q":"x","r":"k4"}`+"\n")
	bad := filepath.Join(dir, "bad.csv")
	writeFile(bad, "id,f,t\n1,1.5,x\nno,2.5,y\n2,no,x\nno,no,z\n1,2.5,x\n")
	s1, s2, f1, w1, w2 := filepath.Join(dir, "s1"), filepath.Join(dir, "s2"), filepath.Join(dir, "f1"), filepath.Join(dir, "w1"), filepath.Join(dir, "w2")
	yaml = fmt.Sprintf(`
parsers:
  - {name: comma, type: split, delimiter: ',', parser: string}
inputs:
  - {name: in, type: json, path: '%s'}
  - {name: kids, type: json, path: '%s'}
  - {name: bad, type: csv, path: '%s', ignoreFirstRow: true, columns: [{name: id, parser: integer}, {name: f, parser: float}, {name: t, parser: string}]}
indexes:
  - {name: scan, type: noop}
  - {name: map, type: map, input: in, properties: [id, b, c]}
  - {name: map2, type: map, input: in, properties: [b, c]}
  - {name: sqlite, type: sqlite, input: in, dsn: '%s', properties: [{name: b}, {name: d}, {name: n}]}
  - {name: sqlite2, type: sqlite, input: in, dsn: '%s', properties: [{name: b, collate: nocase}]}
  - {name: fts5, type: fts5, input: in, dsn: '%s', properties: [b, d]}
  - {name: wild, type: wildcard, input: in, path: '%s', properties: [b, d]}
  - {name: kmap, type: map, input: kids, properties: [p, q]}
  - {name: kwild, type: wildcard, input: kids, path: '%s', properties: [q, r], ignoreCase: true}
outputs:
`, in, kids, bad, s1, s2, f1, w1, w2)
	return yaml, []string{s1, s2, f1, w1, w2}
}

type mapsParam struct {
	index, prop, parser string
	values              []string
}

var mapsParams = []mapsParam{
	{"default", "id", "integer", []string{"1", "9", "z"}},
	{"default", "b", "string", []string{"x", "q"}},
	{"default", "c", "string", []string{"x"}},
	{"scan", "n", "string", []string{"x", "q"}},
	{"map", "b", "string", []string{"x", "q"}},
	{"map", "c", "string", []string{"x", "y"}},
	{"map", "c", "boolean", []string{"true", "no"}},
	{"map2", "c", "string", []string{"y"}},
	{"map", "id", "float", []string{"1", "w"}},
	{"sqlite", "b", "string", []string{"x", "q"}},
	{"sqlite", "n", "string", []string{"x"}},
	{"sqlite", "d", "boolean", []string{"true", "maybe"}},
	{"sqlite2", "b", "string", []string{"X"}},
	{"fts5", "match", "string", []string{"one", `"`, "x"}},
	{"wild", "b", "string", []string{"x", "zz"}},
	{"wild", "d", "string", []string{"o"}},
	{"wild", "d", "integer", []string{"1", "u"}},
}

func (p mapsParam) String() string { return p.index + "." + p.prop + ":" + p.parser }

func (p mapsParam) yaml(name string) string {
	return fmt.Sprintf("%s: {property: %s, parser: %s, index: %s}", name, p.prop, p.parser, p.index)
}

// mapsRequests gives every request with a value (or nothing) for each parameter.
func mapsRequests(path string, names []string, ps []mapsParam) []schedOp {
	ops := []schedOp{}
	var walk func(i int, q url.Values)
	walk = func(i int, q url.Values) {
		if i == len(ps) {
			ops = append(ops, schedOp{Kind: "http", Target: path + "?" + q.Encode()})
			return
		}
		walk(i+1, q)
		for _, v := range ps[i].values {
			q2 := url.Values{}
			for k, x := range q {
				q2[k] = x
			}
			q2.Set(names[i], v)
			walk(i+1, q2)
		}
	}
	walk(0, url.Values{})
	// Names that only look like the one of a parameter.
	for i, p := range ps {
		first, last := url.QueryEscape(p.values[0]), url.QueryEscape(p.values[len(p.values)-1])
		for _, like := range []string{strings.ToUpper(names[i]), names[i] + "%20", names[i] + "[]", "%EF%BB%BF" + names[i]} {
			ops = append(ops, schedOp{Kind: "http", Target: fmt.Sprintf("%s?%s=%s&%s=%s", path, names[i], first, like, last)})
		}
		ops = append(ops, schedOp{Kind: "http", Target: fmt.Sprintf("%s?%s=%s&%s=%s&limit=1", path, names[i], first, names[i], last)})
	}
	return ops
}

type mapsRel struct{ name, body string }

func (r mapsRel) String() string { return r.name + ": " + r.body }

func mapsWorlds(c *Ctx, dir string) []mapsWorld {
	base, files := mapsBase(dir)
	worlds := []mapsWorld{}
	service := func(routes []string) string {
		return "services:\n  - {name: h, type: http, http: {listen: '127.0.0.1:0'}, routes: [" + strings.Join(routes, ", ") + "]}\n"
	}
	// Parameters.
	group := func(name string, sets [][]mapsParam) {
		for _, typ := range []string{"jsonArray", "jsonObject"} {
			for at := 0; at < len(sets); at += 20 {
				w := mapsWorld{name: fmt.Sprintf("%s %s %d", name, typ, at), yaml: base, files: files}
				routes := []string{}
				for i := at; i < at+20 && i < len(sets); i++ {
					names, list := []string{}, []string{}
					for k, p := range sets[i] {
						n := []string{"u", "v", "w"}[k]
						names = append(names, n)
						list = append(list, p.yaml(n))
					}
					w.yaml += fmt.Sprintf("  - {name: o%d, type: %s, input: in, parameters: {%s}}\n", i, typ, strings.Join(list, ", "))
					routes = append(routes, fmt.Sprintf("{output: o%d, path: /%d}", i, i), fmt.Sprintf("{output: o%d, path: '/%d/{u}'}", i, i))
					w.ops = append(w.ops, mapsRequests(fmt.Sprintf("/%d", i), names, sets[i])...)
					for _, v := range sets[i][0].values[:1] {
						w.ops = append(w.ops, mapsRequests(fmt.Sprintf("/%d/%s", i, url.PathEscape(v)), names, sets[i])[:c.Pick(3, 100)%(len(w.ops)+1)]...)
					}
				}
				w.yaml += service(routes)
				worlds = append(worlds, w)
			}
		}
	}
	pairs, triples := [][]mapsParam{}, [][]mapsParam{}
	for i := range mapsParams {
		for j := i; j < len(mapsParams); j++ {
			pairs = append(pairs, []mapsParam{mapsParams[i], mapsParams[j]})
		}
	}
	few := []int{0, 1, 4, 5, 9, 13, 14, 16}
	for i := range few {
		for j := i; j < len(few); j++ {
			for k := j; k < len(few); k++ {
				triples = append(triples, []mapsParam{mapsParams[few[i]], mapsParams[few[j]], mapsParams[few[k]]})
			}
		}
	}
	if !c.Thorough() {
		kept := triples[:0]
		for i, t := range triples {
			if i%4 == 0 {
				kept = append(kept, t)
			}
		}
		triples = kept
	}
	group("pairs", pairs)
	group("triples", triples)
	// Values that cannot be read, met by a scan.
	{
		w := mapsWorld{name: "unreadable", yaml: base, files: files}
		routes := []string{}
		cols := []mapsParam{{"default", "id", "integer", []string{"1", "2", "z"}}, {"default", "f", "float", []string{"2.5", "9", "z"}}, {"default", "t", "string", []string{"x", "q"}}}
		n := 0
		for _, typ := range []string{"jsonArray", "jsonObject"} {
			for _, set := range [][]mapsParam{{cols[0], cols[1]}, {cols[1], cols[2]}, {cols[0], cols[2]}, {cols[0], cols[0]}, cols} {
				names, list := []string{}, []string{}
				for k, p := range set {
					nm := []string{"u", "v", "w"}[k]
					names = append(names, nm)
					list = append(list, p.yaml(nm))
				}
				w.yaml += fmt.Sprintf("  - {name: o%d, type: %s, input: bad, parameters: {%s}}\n", n, typ, strings.Join(list, ", "))
				routes = append(routes, fmt.Sprintf("{output: o%d, path: /%d}", n, n))
				w.ops = append(w.ops, mapsRequests(fmt.Sprintf("/%d", n), names, set)...)
				n++
			}
		}
		w.yaml += service(routes)
		worlds = append(worlds, w)
	}
	// Relationships.
	bodies := []string{
		"input: kids, isArray: true, match: [{parentProperty: id, childProperty: p, childIndex: kmap}]",
		"input: kids, isArray: true, sort: [{property: s, ascending: false}], match: [{parentProperty: b, childProperty: q, childIndex: default}]",
		"input: kids, match: [{parentProperty: id, childProperty: p, childIndex: kmap}, {parentProperty: b, childProperty: q, childIndex: kmap}]",
		"input: kids, isArray: true, match: [{parentProperty: id, childProperty: p, childIndex: kmap}, {parentProperty: b, childProperty: q, childIndex: kwild}]",
		"input: kids, isArray: true, match: [{parentProperty: m, childProperty: p, childIndex: kmap}]",
		"input: kids, isArray: true, match: [{parentProperty: c, childProperty: q, childIndex: kmap}]",
		"input: kids, isArray: true, match: [{parentProperty: c, childProperty: q, childIndex: kwild}, {parentProperty: m, childProperty: p, childIndex: default}]",
		"input: in, isArray: true, limit: 1, match: [{parentProperty: r, childProperty: b, childIndex: sqlite}]",
		"input: kids, isArray: true, match: [{parentProperty: n, childProperty: q, childIndex: kwild}, {parentProperty: m, childProperty: p, childIndex: kmap}]",
	}
	names := [][]string{{"r", "s"}, {"id", "r"}, {"b", "id"}, {"c", "m"}, {"m", "b"}}
	rels := [][]mapsRel{}
	for _, n := range names {
		for i := range bodies {
			for j := range bodies {
				rels = append(rels, []mapsRel{{n[0], bodies[i]}, {n[1], bodies[j]}})
			}
		}
	}
	for at := 0; at < len(rels); at += 30 {
		w := mapsWorld{name: fmt.Sprintf("relationships %d", at), yaml: base, files: files}
		routes := []string{}
		for i := at; i < at+30 && i < len(rels); i++ {
			a, b := rels[i][0], rels[i][1]
			w.yaml += fmt.Sprintf("  - {name: o%d, type: jsonObject, input: in, parameters: {u: {property: b, parser: string, index: map}}, relationships: {%s: {%s}, %s: {%s}}}\n", i, a.name, a.body, b.name, b.body)
			w.yaml += fmt.Sprintf("  - {name: a%d, type: jsonArray, input: in, relationships: {%s: {%s}, %s: {%s}}}\n", i, a.name, a.body, b.name, b.body)
			routes = append(routes, fmt.Sprintf("{output: o%d, path: '/o%d/{u}'}, {output: a%d, path: /a%d}", i, i, i, i))
			w.ops = append(w.ops, schedOp{Kind: "http", Target: fmt.Sprintf("/o%d/x", i)}, schedOp{Kind: "http", Target: fmt.Sprintf("/o%d/y", i)}, schedOp{Kind: "http", Target: fmt.Sprintf("/a%d?limit=1", i)}, schedOp{Kind: "http", Target: fmt.Sprintf("/a%d?limit=2&offset=1", i)})
		}
		w.yaml += service(routes)
		worlds = append(worlds, w)
	}
	// Nested ones: the inner pair below an outer one, next to a third.
	inner := []string{
		"input: in, isArray: true, match: [{parentProperty: p, childProperty: id, childIndex: map}]",
		"input: in, match: [{parentProperty: q, childProperty: b, childIndex: sqlite}]",
		"input: kids, isArray: true, match: [{parentProperty: s, childProperty: p, childIndex: default}, {parentProperty: q, childProperty: q, childIndex: kwild}]",
		"input: in, isArray: true, match: [{parentProperty: s, childProperty: id, childIndex: default}]",
	}
	w := mapsWorld{name: "nested relationships", yaml: base, files: files}
	routes := []string{}
	n := 0
	for _, nm := range [][]string{{"x", "y"}, {"p", "q"}, {"s", "p"}} {
		for i := range inner {
			for j := range inner {
				w.yaml += fmt.Sprintf("  - {name: a%d, type: jsonArray, input: in, relationships: {one: {%s, relationships: {%s: {%s}, %s: {%s}}}, two: {%s}}}\n", n, bodies[0], nm[0], inner[i], nm[1], inner[j], bodies[1])
				routes = append(routes, fmt.Sprintf("{output: a%d, path: /a%d}", n, n))
				w.ops = append(w.ops, schedOp{Kind: "http", Target: fmt.Sprintf("/a%d?limit=1", n)}, schedOp{Kind: "http", Target: fmt.Sprintf("/a%d?limit=1&offset=1", n)})
				n++
			}
		}
	}
	w.yaml += service(routes)
	worlds = append(worlds, w)
	// Orders met while starting.
	outs := func(extra string) string {
		return "  - {name: o, type: jsonObject, input: in, parameters: {u: {property: b, parser: string, index: map}, v: {property: n, parser: string, index: default}}, relationships: {k: {" + bodies[0] + "}, l: {" + bodies[2] + "}}}\n" +
			"  - {name: a, type: jsonArray, input: in, parameters: {u: {property: b, parser: string, index: sqlite}, v: {property: match, parser: string, index: fts5}, w: {property: d, parser: string, index: wild}, x: {property: c, parser: string, index: default}}, relationships: {k: {" + bodies[3] + ", relationships: {i: {" + inner[0] + "}, j: {" + inner[1] + "}}}, l: {" + bodies[1] + "}}}\n" + extra
	}
	ops := []schedOp{}
	for _, t := range []string{"/o/x?v=y", "/o/y?v=x", "/o/x", "/a", "/a?u=x", "/a?v=one", "/a?w=two&u=y", "/a?x=x,y", "/a?x=x", "/a?limit=1&offset=2", "/none", "/o2?u=x&v=2", "/o2?u=z&v=no"} {
		ops = append(ops, schedOp{Kind: "http", Target: t})
	}
	start := func(name, yaml string, files []string) {
		worlds = append(worlds, mapsWorld{name: "start: " + name, yaml: yaml, ops: ops, build: true, bound: c.Pick(1, 2), files: files})
	}
	two := service([]string{"{output: o, path: '/o/{u}'}", "{output: a, path: /a}"})
	start("every kind of component", base+outs("")+two, files)
	start("two services", base+outs("  - {name: o2, type: jsonArray, input: bad, parameters: {u: {property: id, parser: integer}, v: {property: f, parser: float}}}\n")+
		service([]string{"{output: o, path: '/o/{u}'}", "{output: a, path: /a}", "{output: o2, path: /o2}"})+
		"  - {name: g, type: http, http: {listen: '127.0.0.1:0'}, routes: [{output: a, path: /a}]}\n", files)
	sub := func(y, old, new string) string {
		if !strings.Contains(y, old) {
			panic(&harnessError{fmt.Errorf("no %q in the configuration", old)})
		}
		return strings.ReplaceAll(y, old, new)
	}
	// Parsers that depend on one another.
	chain := sub(base, "  - {name: comma, type: split, delimiter: ',', parser: string}\n",
		"  - {name: comma, type: split, delimiter: ',', parser: upper}\n  - {name: upper, type: string, convertFromCharset: windows-1252}\n  - {name: bar, type: split, delimiter: '|', parser: comma}\n")
	start("parsers of parsers", chain+outs("")+two, files)
	// Two indexes kept in the same file.
	same := sub(base, "dsn: '"+files[1]+"'", "dsn: '"+files[0]+"'")
	start("two indexes in one file", same+outs("")+two, files)
	same = sub(same, "dsn: '"+files[2]+"'", "dsn: '"+files[0]+"'")
	start("three indexes in one file", same+outs("")+two, files)
	// Refused ones: they must be refused in every order.
	start("refused parser", sub(base, "delimiter: ',', parser: string", "delimiter: ',', parser: comma")+outs("")+two, files)
	start("refused relationship", base+outs("  - {name: z, type: jsonArray, input: in, relationships: {k: {"+bodies[0]+"}, l: {input: kids}}}\n")+two, files)
	start("unusual match", base+outs("  - {name: z, type: jsonArray, input: bad, relationships: {k: {"+bodies[0]+"}, l: {input: kids, match: [{parentProperty: nowhere, childProperty: p, childIndex: kmap}]}}}\n")+two, files)
	start("refused data", sub(base, "  - {name: scan, type: noop}\n", "  - {name: scan, type: noop}\n  - {name: zmap, type: map, input: bad, properties: [id, f]}\n")+outs("")+two, files)
	return worlds
}

func runC29(c *Ctx) {
	shared, cleanup := c.Dir()
	worlds := mapsWorlds(c, shared)
	cleanup()
	if only := os.Getenv("VERIF_ONLY"); only != "" {
		kept := worlds[:0]
		for _, w := range worlds {
			if strings.HasPrefix(w.name, only) {
				kept = append(kept, w)
			}
		}
		worlds = kept
	}
	var mu sync.Mutex
	sites := map[string]int{}
	totals := map[string]int{}
	requests := 0
	c.ParallelN(8, len(worlds), func(i int) {
		c.Case(worlds[i].name, func() error {
			dir, cleanup := c.Dir()
			defer cleanup()
			w := mapsWorlds(c, dir)
			world := w[0]
			for _, x := range w {
				if x.name == worlds[i].name {
					world = x
				}
			}
			left := int(c.Left().Seconds())
			if left < 1 {
				left = 1
			}
			begin := time.Now()
			res := runMaps(c, mapsJob{Dir: dir, Yaml: world.yaml, Ops: world.ops, Build: world.build, Bound: world.bound, Cap: c.Pick(600, 20000), Second: left, Reopen: true, Files: world.files})
			if os.Getenv("VERIF_TIMES") != "" {
				fmt.Fprintf(os.Stderr, "TIME %6.1f runs=%d points=%d full=%d bounded=%d %s\n", time.Since(begin).Seconds(), res.Runs, res.Points, res.Full, res.Bounded, world.name)
			}
			c.Step(res.Runs)
			c.Count(res.States, 1)
			mu.Lock()
			requests += len(world.ops)
			for s, n := range res.Sites {
				sites[s] += n
			}
			totals["explored_with_any_number_of_orders"] += res.Full
			totals["explored_with_bounded_orders"] += res.Bounded
			if res.Points > totals["longest_vector_of_orders"] {
				totals["longest_vector_of_orders"] = res.Points
			}
			mu.Unlock()
			for a := range res.Answers {
				c.Outcome(strings.Fields(world.name)[0] + " " + a)
			}
			if res.Key != "" {
				return violf(res.Key, "%s: %s", world.name, res.Detail)
			}
			if !res.Complete {
				c.mu.Lock()
				c.capped = true
				c.mu.Unlock()
				c.Note("%s: not all orders explored in the time", world.name)
			}
			return nil
		})
	})
	for k, v := range totals {
		c.Extra(k, v)
	}
	c.Extra("map_iterations_permuted", sites)
	c.Extra("configurations", len(worlds))
	c.Extra("requests_and_starts", requests)
}
