package main

// C32: a failure of any component is reported.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/output/relationship"
)

func init() {
	register("C32", "model_checking",
		"For every build of every index kind and every request of the grid (object and list outputs, each index kind and pairs of kinds, relationships: single, list, sorted, two levels), every single call of the input interface is made to fail, once or from then on, and every record of real files is made unreadable in turn; a child process runs whole stacks on real files under strace with every single read of the input file and of the index file failing. The result must be an error, or (when the failing call is not needed for the answer) exactly the right answer. A state is one (build or request, failing call); a transition is one build or request.",
		runC32)
	childCommands["fault-stack"] = func(in []byte) interface{} { return faultStack(in) }
}

// needed says whether the answer depends on the failing call: the progress
// display and the closing after a complete iteration do not lose data.
func needed(site string) bool { return site != "end" && site != "size" }

func runC32(c *Ctx) {
	c32Builds(c)
	c32Requests(c)
	c32Records(c)
	c32Reads(c)
}

type bcase struct {
	kind  string
	props []string
	file  bool
	data  int
	from  bool
	at    int64
}

func (b bcase) spec() pspec {
	s := pspec{kind: b.kind, name: "ix", props: b.props, path: "ix"}
	if !b.file {
		s.path = ""
	}
	return s
}

func (b bcase) open(m *memInput, dir string) (index.Index, error) {
	if b.kind == "map" {
		cfg := &index.MapConfig{Name: "ix", Input: m.name, Properties: b.props}
		if err := cfg.Validate(m.configs(), quietEntry()); err != nil {
			return nil, err
		}
		return index.NewMap(cfg, m.list())
	}
	if !b.file {
		return b.spec().open(m, ":memory:")
	}
	return b.spec().open(m, dir)
}

func c32Builds(c *Ctx) {
	datasets := [][]object{
		{},
		{{"a": "x", "b": "y"}},
		{{"a": "x", "b": "y"}, {"a": "xy", "b": "yx"}, {"a": "x", "b": "z"}},
	}
	if c.Thorough() {
		rows := []object{}
		for i := 0; i < 40; i++ {
			rows = append(rows, object{"a": fmt.Sprintf("v%d", i%7), "b": fmt.Sprint(i)})
		}
		datasets = append(datasets, rows)
	}
	answers := func(b bcase, ix index.Index, m *memInput, key, what string) error {
		texts := []string{"x", "y", "xy", "z", "v1", "1", "none"}
		if b.kind != "map" {
			return b.spec().ask(c, ix, m, texts, false, key, what)
		}
		for _, p := range b.props {
			for _, t := range texts {
				f := object{p: t}
				got, err := positionsOf(ix, m, f, 1000)
				c.Step(1)
				want := wantPositions(m, f, func(_ string, v, f interface{}) bool { return v == f })
				if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
					return violf(key, "%s: query %v: expected %v got %v, %v", what, f, want, got, err)
				}
			}
		}
		return nil
	}
	cases := []bcase{}
	for _, kind := range []string{"map", "sqlite", "fts5", "wildcard"} {
		for _, props := range [][]string{{"a"}, {"a", "b"}} {
			for _, file := range []bool{false, true} {
				if kind == "map" && file || kind == "wildcard" && !file {
					continue
				}
				for d := range datasets {
					b := bcase{kind: kind, props: props, file: file, data: d, at: -1}
					dir, cleanup := c.Dir()
					m := newMem("in", datasets[d])
					c.Case(fmt.Sprintf("build %+v", b), func() error {
						ix, err := b.open(m, dir)
						if err != nil {
							return violf("build-fault:plain", "%v", err)
						}
						return ix.Close()
					})
					cleanup()
					for at := int64(0); at < m.calls; at++ {
						for _, from := range []bool{false, true} {
							b.at, b.from = at, from
							cases = append(cases, b)
						}
					}
				}
			}
		}
	}
	c.ParallelN(16, len(cases), func(i int) {
		b := cases[i]
		c.Case(fmt.Sprintf("build %+v", b), func() error {
			dir, cleanup := c.Dir()
			defer cleanup()
			m := newMem("in", datasets[b.data])
			if b.from {
				m.from = b.at
			} else {
				m.failAt = b.at
			}
			ix, err := b.open(m, dir)
			c.Step(1)
			c.State("build", b)
			site := m.failed
			if err == nil {
				defer ix.Close()
				if needed(site) {
					return violf("build-fault:"+b.kind+":"+site, "%+v: the call %s failed and the index was built", b, site)
				}
				m.from, m.failAt = -1, -1
				c.Outcome("build-unaffected")
				return answers(b, ix, m, "build-fault:"+b.kind+":answers", fmt.Sprintf("%+v", b))
			}
			c.Outcome("build-failed")
			if !b.file {
				return nil
			}
			// What the failed build left is refused, or right.
			m2 := newMem("in", datasets[b.data])
			ix2, err := b.open(m2, dir)
			c.Step(1)
			if err != nil {
				c.Outcome("reopening-refused")
				return nil
			}
			defer ix2.Close()
			c.Outcome("reopening-right")
			return answers(b, ix2, m2, "build-fault:"+b.kind+":reopened", fmt.Sprintf("%+v then opened again", b))
		})
	})
}

// reqWorld is one stack over in-memory inputs with its requests.
type reqWorld struct {
	name     string
	build    func(dir string) (ins []*memInput, w *world, outs map[string]output.Output)
	requests []reqCase
}

type reqCase struct {
	Output string
	Params map[string]string
}

func faultRows() (parents, children, grand []object) {
	parents = []object{
		{"id": "1", "g": "a", "t": "xa ya"}, {"id": "2", "g": "b", "t": "xb"}, {"id": "3", "g": "a", "t": "ya xb"}, {"id": "4", "g": nil, "t": "xa"},
	}
	children = []object{
		{"g": "a", "n": int64(3), "h": "p"}, {"g": "b", "n": int64(1), "h": "q"}, {"g": "a", "n": int64(1), "h": "q"}, {"g": "a", "n": int64(2), "h": "r"}, {"g": nil, "n": int64(0), "h": "p"},
	}
	grand = []object{{"h": "p", "v": "1"}, {"h": "q", "v": "2"}, {"h": "q", "v": "1"}}
	return
}

// requestWorlds gives the stacks: every kind of index for the parameters, and
// every form of relationship.
func requestWorlds(thorough bool) []reqWorld {
	out := []reqWorld{}
	kinds := []string{"noop", "map", "sqlite", "fts5", "wildcard"}
	shapes := []string{"none", "single", "list", "sorted", "limited", "two-levels"}
	relKinds := []string{"default", "map", "sqlite"}
	for _, kind := range kinds {
		for _, second := range append([]string{""}, kinds...) {
			for _, shape := range shapes {
				for _, rk := range relKinds {
					if shape == "none" && rk != "default" {
						continue
					}
					if second != "" && shape != "none" && !thorough && (shape != "two-levels" || rk != "default") {
						continue
					}
					kind, second, shape, rk := kind, second, shape, rk
					rw := reqWorld{name: fmt.Sprintf("%s+%s %s/%s", kind, second, shape, rk)}
					rw.build = func(dir string) ([]*memInput, *world, map[string]output.Output) {
						pr, cr, gr := faultRows()
						p, k, g := newMem("p", pr), newMem("k", cr), newMem("g", gr)
						w := newWorld(p, k, g)
						add := func(kind, name, prop string) {
							if kind == "wildcard" {
								w.addWildcard(name, "p", filepath.Join(dir, name), prop)
							} else {
								w.addKind(kind, name, "p", prop)
							}
						}
						// The first parameter filters on g (or t for the text searches), the second one on t.
						prop := "g"
						if kind == "fts5" || kind == "wildcard" {
							prop = "t"
						}
						add(kind, "one", prop)
						if kind == "fts5" {
							prop = "match"
						}
						pp := params{"a": param(prop, "one", "string")}
						if second != "" {
							add(second, "two", "t")
							prop := "t"
							if second == "fts5" {
								prop = "match"
							}
							pp["b"] = param(prop, "two", "string")
						}
						ci, gi := "default", "default"
						if rk != "default" {
							w.addKind(rk, "ci", "k", "g")
							w.addKind(rk, "gi", "g", "h")
							ci, gi = "ci", "gi"
						}
						rel := &relationship.RelationshipConfig{Input: "k", Match: []*relationship.RelationshipMatchConfig{{ParentProperty: "g", ChildProperty: "g", ChildIndex: ci}}}
						yes, no := true, false
						switch shape {
						case "list", "two-levels":
							rel.IsArray = true
						case "limited":
							rel.IsArray, rel.Limit = true, 1
						case "sorted":
							rel.IsArray, rel.Limit = true, 2
							rel.Sort = []*record.SortConfig{{Property: "n", Ascending: &no}, {Property: "h", Ascending: &yes}}
						}
						if shape == "two-levels" {
							rel.Sort = []*record.SortConfig{{Property: "h", Ascending: &yes}}
							rel.Relationships = rels{"gc": {Input: "g", IsArray: true, Limit: 1, Sort: []*record.SortConfig{{Property: "v", Ascending: &no}},
								Match: []*relationship.RelationshipMatchConfig{{ParentProperty: "h", ChildProperty: "h", ChildIndex: gi}}}}
						}
						rl := rels{}
						if shape != "none" {
							rl["kids"] = rel
						}
						outs := map[string]output.Output{
							"obj": w.mustOutput(&output.JsonObjectConfig{Name: "obj", Input: "p", Parameters: pp, Relationships: rl}),
							"arr": w.mustOutput(&output.JsonArrayConfig{Name: "arr", Input: "p", Parameters: pp, Relationships: rl}),
						}
						return []*memInput{p, k, g}, w, outs
					}
					as := []string{"a", "b", "zz"}
					if kind == "fts5" || kind == "wildcard" {
						as = []string{"xa", "xb", "zz"}
					}
					for _, a := range as {
						if second == "" {
							rw.requests = append(rw.requests, reqCase{"obj", map[string]string{"a": a}}, reqCase{"arr", map[string]string{"a": a}})
							continue
						}
						b := map[string]string{"fts5": "xb", "wildcard": "xb"}[second]
						if b == "" {
							b = "ya xb"
						}
						rw.requests = append(rw.requests, reqCase{"obj", map[string]string{"a": a, "b": b}}, reqCase{"arr", map[string]string{"a": a, "b": b}})
					}
					rw.requests = append(rw.requests, reqCase{"arr", nil}, reqCase{"arr", map[string]string{"limit": "1", "offset": "1"}})
					out = append(out, rw)
				}
			}
		}
	}
	return out
}

func c32Requests(c *Ctx) {
	worlds := requestWorlds(c.Thorough())
	c.ParallelN(16, len(worlds), func(i int) {
		rw := worlds[i]
		c.Case("requests "+rw.name, func() error {
			dir, cleanup := c.Dir()
			defer cleanup()
			ins, w, outs := rw.build(dir)
			defer w.close()
			for _, rq := range rw.requests {
				for _, in := range ins {
					in.calls = 0
				}
				plain := Ask(outs[rq.Output], rq.Params)
				if plain.Status == 500 || plain.Count != 1 || plain.Ret != nil {
					return violf("request-fault:plain", "%s %s %v: %s", rw.name, rq.Output, rq.Params, plain)
				}
				c.Outcome(fmt.Sprintf("plain-%d", plain.Status))
				calls := []int64{}
				for _, in := range ins {
					calls = append(calls, in.calls)
				}
				for side, in := range ins {
					for at := int64(0); at < calls[side]; at++ {
						for _, from := range []bool{false, true} {
							in.calls, in.failed = 0, ""
							if from {
								in.from = at
							} else {
								in.failAt = at
							}
							rep := Ask(outs[rq.Output], rq.Params)
							site := in.failed
							in.from, in.failAt = -1, -1
							c.Step(1)
							what := fmt.Sprintf("%s %s %v with the call %d (%s) of input %s failing", rw.name, rq.Output, rq.Params, at, site, in.name)
							if site == "" {
								// The number of calls may depend on the order in which two indexes are asked.
								if rep.Status != plain.Status || rep.Body != plain.Body {
									return violf("request-fault:after", "%s: got %s, before %s", what, rep, plain)
								}
								c.Outcome("request-call-not-made")
								continue
							}
							if rep.Count != 1 || rep.Ret != nil {
								return violf("request-fault:answers", "%s: %d answers, returned %v", what, rep.Count, rep.Ret)
							}
							c.State("request", rw.name, rq.Output, rq.Params, side, at)
							switch {
							case rep.Status == 500 && rep.Err != "" && rep.Body == "":
								c.Outcome("request-failed")
							case !needed(site) && rep.Status == plain.Status && rep.Body == plain.Body:
								c.Outcome("request-unaffected")
							default:
								return violf("request-fault:"+site, "%s: expected an error, got %s (without the failure: %s)", what, rep, plain)
							}
						}
					}
				}
				// The failures leave nothing behind.
				if rep := Ask(outs[rq.Output], rq.Params); rep.Status != plain.Status || rep.Body != plain.Body {
					return violf("request-fault:after", "%s %s %v after failures: got %s, before %s", rw.name, rq.Output, rq.Params, rep, plain)
				}
			}
			c.Trace()
			return nil
		})
	})
}

// c32Records: real files of which one record cannot be read.
func c32Records(c *Ctx) {
	type source struct {
		name string
		yaml string
		file string
		rows func(bad int, n int) string
	}
	sources := []source{
		{"csv", "  - name: in\n    type: csv\n    path: %s\n    columns:\n      - {name: id, parser: integer}\n      - {name: g, parser: string}\n", "in.csv", func(bad, n int) string {
			var b strings.Builder
			for i := 0; i < n; i++ {
				id := fmt.Sprint(i)
				if i == bad {
					id = "x"
				}
				fmt.Fprintf(&b, "%s,%c\n", id, 'a'+rune(i%2))
			}
			return b.String()
		}},
		{"xml", "  - name: in\n    type: xml\n    path: %s\n    recordXpath: //r\n    properties:\n      - {name: id, type: primitive, parser: integer, xpath: string(@id)}\n      - {name: g, type: primitive, parser: string, xpath: string(g)}\n", "in.xml", func(bad, n int) string {
			var b strings.Builder
			b.WriteString("<all>")
			for i := 0; i < n; i++ {
				id := fmt.Sprint(i)
				if i == bad {
					id = "x"
				}
				fmt.Fprintf(&b, "<r id='%s'><g>%c</g></r>", id, 'a'+rune(i%2))
			}
			return b.String() + "</all>"
		}},
	}
	kinds := []string{"default", "map", "sqlite", "wildcard", "fts5"}
	type rcase struct {
		src    int
		kind   string
		n, bad int
	}
	cases := []rcase{}
	for s := range sources {
		for _, k := range kinds {
			for n := 1; n <= c.Pick(4, 7); n++ {
				for bad := 0; bad < n; bad++ {
					cases = append(cases, rcase{s, k, n, bad})
				}
			}
		}
	}
	c.ParallelN(16, len(cases), func(i int) {
		x := cases[i]
		c.Case(fmt.Sprintf("unreadable record %s %s n=%d bad=%d", sources[x.src].name, x.kind, x.n, x.bad), func() error {
			dir, cleanup := c.Dir()
			defer cleanup()
			src := sources[x.src]
			path := filepath.Join(dir, src.file)
			writeFile(path, src.rows(x.bad, x.n))
			base := "parsers:\n  - {name: unused, type: string}\ninputs:\n" + fmt.Sprintf(src.yaml, path)
			// An index over the unreadable property cannot be built.
			ixYaml := func(prop string) string {
				switch x.kind {
				case "map":
					return "indexes:\n  - {name: ix, type: map, input: in, properties: [" + prop + "]}\n"
				case "sqlite":
					return "indexes:\n  - {name: ix, type: sqlite, input: in, dsn: '" + filepath.Join(dir, "db-"+prop) + "', properties: [{name: " + prop + "}]}\n"
				case "fts5":
					return "indexes:\n  - {name: ix, type: fts5, input: in, dsn: '" + filepath.Join(dir, "fts-"+prop) + "', properties: [" + prop + "]}\n"
				case "wildcard":
					return "indexes:\n  - {name: ix, type: wildcard, input: in, path: '" + filepath.Join(dir, "w-"+prop) + "', properties: [" + prop + "]}\n"
				}
				return ""
			}
			if x.kind != "default" {
				st, err := NewStack(dir, base+ixYaml("id"), "indexes")
				c.Step(1)
				if err == nil {
					st.Close()
					return violf("unreadable:build", "%s: record %d of %d cannot be parsed and the %s index was built", src.name, x.bad, x.n, x.kind)
				}
				if strings.Contains(err.Error(), "config:") {
					panic(&harnessError{err})
				}
				c.Outcome("unreadable-build-failed")
			}
			ix, prop := "ix", "g"
			if x.kind == "default" {
				ix = "default"
			}
			if x.kind == "fts5" {
				prop = "match"
			}
			out := func(name, typ string) string {
				return fmt.Sprintf("  - name: %s\n    type: %s\n    input: in\n    parameters:\n      g: {property: %s, parser: string, index: %s}\n", name, typ, prop, ix)
			}
			outs := "outputs:\n" + out("arr", "jsonArray") + out("obj", "jsonObject")
			if x.kind == "default" {
				outs += "  - name: byid\n    type: jsonArray\n    input: in\n    parameters:\n      id: {property: id, parser: integer, index: default}\n"
			}
			outs += "  - name: rel\n    type: jsonArray\n    input: in\n    relationships:\n      peers:\n        input: in\n        isArray: true\n        limit: 1\n        sort: [{property: id, ascending: false}]\n        match: [{parentProperty: g, childProperty: g, childIndex: default}]\n"
			st, err := NewStack(dir, base+ixYaml("g")+outs, "outputs")
			if err != nil {
				return violf("unreadable:refused", "%s %s: %v", src.name, x.kind, err)
			}
			defer st.Close()
			rec := func(i int) object { return object{"id": int64(i), "g": string(rune('a' + i%2))} }
			want := func(g string, offset, limit int) (items []interface{}, fails bool) {
				items = []interface{}{}
				for i := 0; i < x.n; i++ {
					if g != "" && rec(i)["g"] != g {
						continue
					}
					if offset > 0 {
						offset--
						continue
					}
					if len(items) >= limit {
						break
					}
					if i == x.bad {
						return nil, true
					}
					items = append(items, rec(i))
				}
				return items, false
			}
			judge := func(key string, rep Reply, items interface{}, fails bool, what string) error {
				what = fmt.Sprintf("%s %s, record %d of %d cannot be parsed: %s", src.name, x.kind, x.bad, x.n, what)
				c.Step(1)
				c.State("unreadable", src.name, x.kind, x.n, x.bad, what)
				if fails {
					c.Outcome("unreadable-error")
					return checkStatus("unreadable:"+key, rep, 500, what)
				}
				c.Outcome("unreadable-avoided")
				return checkOk("unreadable:"+key, rep, items, what)
			}
			for _, g := range []string{"", "a", "b", "c"} {
				for offset := 0; offset <= x.n; offset++ {
					for limit := 1; limit <= x.n; limit++ {
						p := map[string]string{"limit": fmt.Sprint(limit), "offset": fmt.Sprint(offset)}
						if g != "" {
							p["g"] = g
						}
						items, fails := want(g, offset, limit)
						if err := judge("list", Ask(st.Outputs["arr"], p), items, fails, fmt.Sprintf("list %v", p)); err != nil {
							return err
						}
					}
				}
				if g == "" {
					continue
				}
				items, fails := want(g, 0, 1)
				rep := Ask(st.Outputs["obj"], map[string]string{"g": g})
				if !fails && len(items) == 0 {
					if err := checkStatus("unreadable:object", rep, 404, "object "+g); err != nil {
						return err
					}
				} else if fails {
					if err := judge("object", rep, nil, true, "object "+g); err != nil {
						return err
					}
				} else if err := judge("object", rep, items[0], false, "object "+g); err != nil {
					return err
				}
			}
			if x.kind == "default" {
				// A scan that passes over the unreadable property.
				for id := 0; id < x.n; id++ {
					for limit := 1; limit <= 2; limit++ {
						fails := x.bad <= id || limit == 2
						if err := judge("scan", Ask(st.Outputs["byid"], map[string]string{"id": fmt.Sprint(id), "limit": fmt.Sprint(limit)}), []interface{}{rec(id)}, fails, fmt.Sprintf("list id=%d limit=%d", id, limit)); err != nil {
							return err
						}
					}
				}
			}
			// The unreadable record takes part in the sort of its peers.
			for i := 0; i < x.n; i++ {
				fails := i%2 == x.bad%2
				last := i%2 + (x.n-1-i%2)/2*2
				r := rec(i)
				r["peers"] = []interface{}{rec(last)}
				if err := judge("sort", Ask(st.Outputs["rel"], map[string]string{"limit": "1", "offset": fmt.Sprint(i)}), []interface{}{r}, fails, fmt.Sprintf("relationship of record %d", i)); err != nil {
					return err
				}
			}
			c.Trace()
			return nil
		})
	})
}

// ---- failing reads of real files ----

type faultJob struct {
	Dir      string
	Yaml     string
	Open     bool // the index file exists already
	Requests []reqCase
}

type faultResult struct {
	Stage string // where the stack was refused, or ""
	Err   string
	Reps  []Reply
}

// faultStack builds a stack and runs requests, from a single thread.
func faultStack(stdin []byte) faultResult {
	runtime.LockOSThread()
	var job faultJob
	must(json.Unmarshal(stdin, &job))
	st, err := NewStack(job.Dir, job.Yaml, "outputs")
	if err != nil {
		return faultResult{Stage: "refused", Err: err.Error()}
	}
	defer st.Close()
	res := faultResult{}
	for _, rq := range job.Requests {
		rep := Ask(st.Outputs[rq.Output], rq.Params)
		if rep.Ret != nil {
			rep.Err, rep.Ret = "returned: "+rep.Ret.Error(), nil
		}
		res.Reps = append(res.Reps, rep)
	}
	return res
}

// c32Reads makes every single read of the input file, then of the index file,
// fail in a child process.
func c32Reads(c *Ctx) {
	type source struct {
		name, file, yaml, content string
	}
	rows := 6
	var csv, xml, jsn strings.Builder
	xml.WriteString("<all>")
	for i := 0; i < rows; i++ {
		// Longer than the buffer of the reader, so that a file takes several reads.
		pad := strings.Repeat("p", 1500)
		fmt.Fprintf(&csv, "%d,%c,t%d,%s\n", i, 'a'+rune(i%2), i, pad)
		fmt.Fprintf(&xml, "<r id='%d'><g>%c</g><t>t%d</t><pad>%s</pad></r>", i, 'a'+rune(i%2), i, pad)
		fmt.Fprintf(&jsn, "{\"id\":\"%d\",\"g\":\"%c\",\"t\":\"t%d\",\"pad\":\"%s\"}\n", i, 'a'+rune(i%2), i, pad)
	}
	xml.WriteString("</all>")
	sources := []source{
		{"csv", "in.csv", "{name: in, type: csv, path: '%s', columns: [{name: id, parser: string}, {name: g, parser: string}, {name: t, parser: string}, {name: pad, parser: string}]}", csv.String()},
		{"xml", "in.xml", "{name: in, type: xml, path: '%s', recordXpath: //r, properties: [{name: id, type: primitive, parser: string, xpath: string(@id)}, {name: g, type: primitive, parser: string, xpath: string(g)}, {name: t, type: primitive, parser: string, xpath: string(t)}, {name: pad, type: primitive, parser: string, xpath: string(pad)}]}", xml.String()},
		{"json", "in.json", "{name: in, type: json, path: '%s'}", jsn.String()},
	}
	kinds := []string{"default", "map", "sqlite", "wildcard", "fts5"}
	type combo struct {
		src    int
		kind   string
		reopen bool
	}
	combos := []combo{}
	for s := range sources {
		for _, k := range kinds {
			combos = append(combos, combo{s, k, false})
			if k == "sqlite" || k == "wildcard" || k == "fts5" {
				combos = append(combos, combo{s, k, true})
			}
		}
	}
	self, err := os.Executable()
	must(err)
	run := func(job faultJob, target string, at int) (res faultResult, reads int, crashed string) {
		out := filepath.Join(job.Dir, "trace")
		args := []string{"-f", "--seccomp-bpf", "-qq", "-o", out, "-e", "trace=read,pread64", "-P", target}
		if at > 0 {
			args = append(args, "-e", fmt.Sprintf("inject=read,pread64:error=EIO:when=%d", at))
		}
		cmd := exec.Command("strace", append(args, self, "child", "fault-stack")...)
		data, err := json.Marshal(job)
		must(err)
		cmd.Stdin = bytes.NewReader(data)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "TMPDIR="+job.Dir)
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		stdout, err := cmd.Output()
		if err != nil {
			if strings.Contains(stderr.String(), "panic:") || strings.Contains(stderr.String(), "fatal error:") {
				return res, 0, stderr.String()
			}
			panic(&harnessError{fmt.Errorf("strace: %v: %s", err, clip(stderr.String(), 500))})
		}
		must(json.Unmarshal(stdout, &res))
		trace, err := os.ReadFile(out)
		must(err)
		return res, strings.Count(string(trace), "read("+"") + strings.Count(string(trace), "pread64("), ""
	}
	type fcase struct {
		combo
		target string
		at     int
	}
	// files creates the input (always with the same times) and, for a
	// reopening, copies the index built once.
	prepare := func(x combo, dir string) (faultJob, string, string) {
		src := sources[x.src]
		path := filepath.Join(dir, src.file)
		writeFile(path, src.content)
		ixFile := filepath.Join(dir, "ix")
		yaml := "parsers: []\ninputs:\n  - " + fmt.Sprintf(src.yaml, path) + "\n"
		ix, prop := "ix", "g"
		switch x.kind {
		case "default":
			ix = "default"
		case "map":
			yaml += "indexes:\n  - {name: ix, type: map, input: in, properties: [g]}\n"
		case "sqlite":
			yaml += "indexes:\n  - {name: ix, type: sqlite, input: in, dsn: '" + ixFile + "', properties: [{name: g}]}\n"
		case "wildcard":
			yaml += "indexes:\n  - {name: ix, type: wildcard, input: in, path: '" + ixFile + "', properties: [g, t]}\n"
		case "fts5":
			yaml += "indexes:\n  - {name: ix, type: fts5, input: in, dsn: '" + ixFile + "', properties: [g, t]}\n"
			prop = "match"
		}
		yaml += "outputs:\n"
		for _, t := range []string{"jsonArray", "jsonObject"} {
			yaml += fmt.Sprintf("  - {name: %s, type: %s, input: in, parameters: {g: {property: %s, parser: string, index: %s}}, relationships: {peer: {input: in, match: [{parentProperty: id, childProperty: id, childIndex: default}]}}}\n", t, t, prop, ix)
		}
		job := faultJob{Dir: dir, Yaml: yaml, Requests: []reqCase{{"jsonArray", map[string]string{"g": "b"}}, {"jsonObject", map[string]string{"g": "a"}}, {"jsonObject", map[string]string{"g": "zz"}}, {"jsonArray", map[string]string{"offset": "4"}}}}
		if x.reopen {
			st, err := NewStack(dir, yaml, "indexes")
			if err != nil {
				panic(violf("read-fault:plain", "%v", err))
			}
			st.Close()
		}
		return job, path, ixFile
	}
	var cases []fcase
	plain := make([]faultResult, len(combos))
	counts := make([][2]int, len(combos))
	c.ParallelN(16, len(combos), func(i int) {
		x := combos[i]
		c.Case(fmt.Sprintf("reads of %+v", x), func() error {
			for side := 0; side < 2; side++ {
				dir, cleanup := c.Dir()
				defer cleanup()
				job, inFile, ixFile := prepare(x, dir)
				if side == 1 && (x.kind == "default" || x.kind == "map") {
					continue
				}
				if side == 1 && !x.reopen {
					writeFile(ixFile+"-unused", "")
				}
				res, n, crash := run(job, []string{inFile, ixFile}[side], 0)
				if crash != "" || res.Stage != "" {
					return violf("read-fault:plain", "%+v: %s %s %s", x, res.Stage, res.Err, crash)
				}
				for j, rep := range res.Reps {
					want := []int{200, 200, 404, 200}[j]
					if rep.Status != want {
						return violf("read-fault:plain", "%+v request %d: %s", x, j, rep)
					}
				}
				plain[i], counts[i][side] = res, n
			}
			return nil
		})
	})
	index := map[combo]int{}
	for i, x := range combos {
		index[x] = i
		for side, n := range counts[i] {
			for at := 1; at <= n; at++ {
				if !c.Thorough() && n > 60 && at > 20 && at < n-20 && at%(n/20) != 0 {
					c.Extra("reads_grid", "in runs of more than 60 reads, the middle ones are on a grid")
					continue
				}
				cases = append(cases, fcase{x, []string{"input", "index"}[side], at})
			}
		}
	}
	sort.SliceStable(cases, func(i, j int) bool { return cases[i].at < cases[j].at })
	c.ParallelN(12, len(cases), func(i int) {
		x := cases[i]
		c.Case(fmt.Sprintf("failing read %+v", x), func() error {
			dir, cleanup := c.Dir()
			defer cleanup()
			job, inFile, ixFile := prepare(x.combo, dir)
			target := inFile
			if x.target == "index" {
				target = ixFile
			}
			what := fmt.Sprintf("%s input, %s index (existing: %v), read %d of the %s file failing", sources[x.src].name, x.kind, x.reopen, x.at, x.target)
			res, _, crash := run(job, target, x.at)
			c.Step(1)
			c.State("read", x)
			if crash != "" {
				return violf("read-fault:crash:"+panicSite(crash), "%s: %s", what, clip(crash, 2500))
			}
			if res.Stage != "" {
				c.Outcome("read-fault-refused")
				return nil
			}
			failed := 0
			ref := plain[index[x.combo]]
			for j, rep := range res.Reps {
				if rep.Status == 500 && rep.Count == 1 && rep.Body == "" {
					failed++
					continue
				}
				if rep.Status != ref.Reps[j].Status || rep.Body != ref.Reps[j].Body || rep.Count != 1 {
					return violf(fmt.Sprintf("read-fault:%s:%s:%s", sources[x.src].name, x.kind, x.target), "%s: request %v: expected an error or %s, got %s", what, job.Requests[j], clip(ref.Reps[j].String(), 300), clip(rep.String(), 300))
				}
			}
			c.Outcome(fmt.Sprintf("read-fault-%d-requests-failed", failed))
			c.Trace()
			return nil
		})
	})
}
