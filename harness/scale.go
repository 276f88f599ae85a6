package main

// The same properties at every size of a grid around the sizes which
// buffers, batches, caches and counters usually have: numbers of records, of
// equal values, of columns, of children, of routes and of parameters.

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/output/relationship"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/rodb-io/rodb/pkg/service"
)

func scaleSizes(c *Ctx, max int) []int {
	all := []int{4, 5, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 21, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 499, 500, 501, 511, 512, 513,
		999, 1000, 1001, 1023, 1024, 1025, 1999, 2000, 2001, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 5001}
	if c.Thorough() {
		all = append(all, 8191, 8192, 8193, 9999, 10000, 10001, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 100001)
	}
	out := []int{}
	for _, n := range all {
		if n <= max {
			out = append(out, n)
		}
	}
	return out
}

var scalePatterns = []struct {
	name string
	at   func(i, n int) interface{}
}{
	{"same", func(i, n int) interface{} { return "v" }},
	{"alternate", func(i, n int) interface{} { return []interface{}{"v", "w"}[i%2] }},
	{"seven", func(i, n int) interface{} { return fmt.Sprintf("v%d", i%7) }},
	{"blocks", func(i, n int) interface{} { return fmt.Sprintf("v%d", i*3/n) }},
	{"distinct", func(i, n int) interface{} { return fmt.Sprintf("v%d", i) }},
	{"ends", func(i, n int) interface{} {
		if i == 0 || i == n-1 {
			return "v"
		}
		return "w"
	}},
}

// scaleIndex builds an index on n records and asks for every value (the first
// and last ones when all are different), alone and with a second property.
func scaleIndex(c *Ctx, name string, max int, build func(m *memInput, dir string) (index.Index, error), filter func(v string) map[string]interface{}, match func(p string, v, f interface{}) bool) {
	sizes := scaleSizes(c, max)
	c.ParallelN(16, len(sizes)*len(scalePatterns), func(i int) {
		n, pat := sizes[len(sizes)-1-i/len(scalePatterns)], scalePatterns[i%len(scalePatterns)]
		c.Case(fmt.Sprintf("scale %s records=%d %s", name, n, pat.name), func() error {
			rows := []map[string]interface{}{}
			values, seen := []string{}, map[string]bool{}
			for r := 0; r < n; r++ {
				v := pat.at(r, n).(string)
				rows = append(rows, map[string]interface{}{"p": v, "q": []interface{}{"x", "y", "z"}[r%3]})
				if !seen[v] {
					seen[v] = true
					values = append(values, v)
				}
			}
			if len(values) > 40 {
				values = append(append(append([]string{}, values[:14]...), values[len(values)/2-6:len(values)/2+6]...), values[len(values)-14:]...)
			}
			m := newMem("in", rows)
			dir, clean := c.Dir()
			defer clean()
			ix, err := build(m, dir)
			if err != nil {
				return violf(name+":build", "%d records: %v", n, err)
			}
			defer ix.Close()
			for _, v := range append(values, "none") {
				for _, both := range []string{"", "x", "z"} {
					f := filter(v)
					ref := map[string]interface{}{"p": v}
					if both != "" {
						if len(f) != 1 || f["p"] == nil {
							continue
						}
						f["q"] = both
						ref["q"] = both
					}
					want := wantPositions(m, ref, match)
					got, err := positionsOf(ix, m, f, n+1)
					c.Step(1)
					if err != nil || len(got) != len(want) || fmt.Sprint(got) != fmt.Sprint(want) {
						return violf(name+":wrong", "%d records (%s), filter %v: expected %d positions %s, got %d %s (%v)", n, pat.name, f, len(want), clip(fmt.Sprint(want), 200), len(got), clip(fmt.Sprint(got), 200), err)
					}
				}
			}
			c.State("scale", name, n, pat.name)
			return nil
		})
	})
}

func scaleEqual(v string) map[string]interface{} { return map[string]interface{}{"p": v} }

// scaleInput: files of n records, iterated and then read by position in two orders.
func scaleInput(c *Ctx, kind string) {
	type shape struct {
		file, begin, end, prop string
		yaml                   func(p string) string
		line                   func(i int) string
		want                   func(i int) interface{}
	}
	text := func(i int) interface{} { return fmt.Sprintf("n%d", i) }
	s := map[string]shape{
		"csv":  {"in.csv", "", "", "c1", func(p string) string { return csvShape{2, "", false}.yaml(p) }, func(i int) string { return fmt.Sprintf("k,n%d\n", i) }, text},
		"json": {"in.json", "", "", "c1", jsonYaml, func(i int) string { return fmt.Sprintf(`{"c1":"n%d"}`+"\n", i) }, text},
		"xml":  {"in.xml", "<root>\n", "</root>", "name", func(p string) string { return xmlYaml(p, "//item") }, func(i int) string { return fmt.Sprintf("<item><name>n%d</name></item>\n", i) }, text},
	}[kind]
	sizes := scaleSizes(c, 10001)
	if kind == "xml" {
		sizes = scaleSizes(c, 2049)
	}
	c.ParallelN(24, len(sizes), func(i int) {
		n := sizes[len(sizes)-1-i]
		c.Case(fmt.Sprintf("scale %s records=%d", kind, n), func() error {
			var b strings.Builder
			b.WriteString(s.begin)
			for r := 0; r < n; r++ {
				b.WriteString(s.line(r))
			}
			b.WriteString(s.end)
			dir, clean := c.Dir()
			path := filepath.Join(dir, s.file)
			writeFile(path, b.String())
			st, err := NewStack(dir, s.yaml(path), "inputs")
			if err != nil {
				return violf("scale:refused", "%v", err)
			}
			defer c.Later(func() { st.Close(); clean() })
			in := st.Inputs["in"]
			check := func(what string, i int, r record.Record, err error) error {
				if err != nil || r == nil {
					return violf("scale:"+what, "record %d of %d: %v", i, n, err)
				}
				got, err := r.Get(s.prop)
				if err != nil || got != s.want(i) {
					return violf("scale:"+what, "record %d of %d: expected %v, got %s (%v)", i, n, s.want(i), show(got), err)
				}
				return nil
			}
			recs, err := drainRecords(in, n+2)
			if err != nil || len(recs) != n {
				return violf("scale:count", "expected %d records, got %d, %v", n, len(recs), err)
			}
			positions := []int64{}
			for ri, r := range recs {
				if err := check("iterated", ri, r, nil); err != nil {
					return err
				}
				positions = append(positions, r.Position())
			}
			c.Step(n)
			recs = nil
			for k := 0; k < n; k++ {
				for _, ri := range []int{n - 1 - k, (k * 613) % n} {
					r, err := in.Get(positions[ri])
					c.Step(1)
					if err := check("get", ri, r, err); err != nil {
						return err
					}
				}
			}
			c.State("scale", kind, n)
			return nil
		})
	})
	// Wide records.
	wide := scaleSizes(c, 2049)
	c.ParallelN(24, len(wide), func(i int) {
		n := wide[len(wide)-1-i]
		c.Case(fmt.Sprintf("scale %s properties=%d", kind, n), func() error {
			dir, clean := c.Dir()
			path := filepath.Join(dir, s.file)
			var y, t strings.Builder
			fmt.Fprintf(&y, "inputs:\n- name: in\n  type: %s\n  path: %s\n", kind, path)
			switch kind {
			case "csv":
				y.WriteString("  columns:\n")
			case "xml":
				y.WriteString("  recordXpath: //item\n  properties:\n")
			}
			for row := 0; row < 2; row++ {
				t.WriteString(map[string]string{"csv": "", "json": "{", "xml": map[bool]string{true: "<root><item>", false: "<item>"}[row == 0]}[kind])
				for p := 0; p < n; p++ {
					sep := ","
					if p == 0 {
						sep = ""
					}
					switch kind {
					case "csv":
						fmt.Fprintf(&t, "%sv%d-%d", sep, p, row)
						if row == 0 {
							fmt.Fprintf(&y, "  - {name: p%d}\n", p)
						}
					case "json":
						fmt.Fprintf(&t, `%s"p%d":"v%d-%d"`, sep, p, p, row)
					case "xml":
						fmt.Fprintf(&t, "<p%d>v%d-%d</p%d>", p, p, row, p)
						if row == 0 {
							fmt.Fprintf(&y, "  - {name: p%d, xpath: string(./p%d)}\n", p, p)
						}
					}
				}
				t.WriteString(map[string]string{"csv": "\n", "json": "}\n", "xml": map[bool]string{true: "</item>", false: "</item></root>"}[row == 0]}[kind])
			}
			writeFile(path, t.String())
			st, err := NewStack(dir, y.String()+yamlTail("in"), "inputs")
			if err != nil {
				return violf("scale:refused", "%d properties: %v", n, err)
			}
			defer c.Later(func() { st.Close(); clean() })
			recs, err := drainRecords(st.Inputs["in"], 4)
			if err != nil || len(recs) != 2 {
				return violf("scale:count", "%d properties: %d records, %v", n, len(recs), err)
			}
			for row, r := range recs {
				again, err := st.Inputs["in"].Get(r.Position())
				if err != nil {
					return violf("scale:wide", "%d properties: %v", n, err)
				}
				for _, x := range []record.Record{r, again} {
					all, err := x.All()
					if err != nil || len(all) != n {
						return violf("scale:wide", "%d properties: %d are read, %v", n, len(all), err)
					}
					for p := 0; p < n; p++ {
						want := fmt.Sprintf("v%d-%d", p, row)
						if all[fmt.Sprintf("p%d", p)] != want {
							return violf("scale:wide", "%d properties: p%d is %s", n, p, show(all[fmt.Sprintf("p%d", p)]))
						}
						if kind == "xml" && p%97 != 0 && p < n-2 {
							continue // looked for among the configured ones each time
						}
						if got, err := x.Get(fmt.Sprintf("p%d", p)); err != nil || got != want {
							return violf("scale:wide", "%d properties: p%d is %s, %v", n, p, show(got), err)
						}
					}
				}
			}
			c.State("scale-wide", kind, n)
			return nil
		})
	})
}

// scaleJoin: lists whose lengths are in the grid, with common elements at regular places.
func scaleJoin(c *Ctx) {
	sizes := scaleSizes(c, 10001)
	steps := [][]int64{{1, 1}, {2, 3}, {1, 7}, {7, 1}, {5, 5, 5}, {2, 3, 4}, {1, 2, 1}, {4096, 1}, {1, 4096}, {3, 1000, 1}}
	c.Parallel(len(sizes), func(i int) {
		n := sizes[i]
		c.Case(fmt.Sprintf("scale join length=%d", n), func() error {
			for _, st := range steps {
				for _, shift := range []int64{0, 1} {
					its := []record.PositionIterator{}
					for li, s := range st {
						l := record.PositionList{}
						for x := shift * int64(li); x < int64(n); x++ {
							if x%s == 0 {
								l = append(l, x)
							}
						}
						its = append(its, l.Iterate())
					}
					got, err := drainPositions(record.JoinPositionIterators(its...), n+1)
					if err != nil {
						return violf("scale:join", "%v", err)
					}
					want := []int64{}
					for x := shift * int64(len(st)-1); x < int64(n); x++ {
						in := true
						for _, s := range st {
							in = in && x%s == 0
						}
						if in {
							want = append(want, x)
						}
					}
					if fmt.Sprint(got) != fmt.Sprint(want) {
						return violf("scale:join", "length %d, steps %v, shift %d: expected %d, got %d: %s", n, st, shift, len(want), len(got), clip(fmt.Sprint(got), 200))
					}
					c.Step(len(got) + 1)
				}
			}
			c.State("scale-join", n)
			return nil
		})
	})
}

// scaleRelationship: one parent with n children, among others.
func scaleRelationship(c *Ctx) {
	sizes := scaleSizes(c, 2049)
	c.ParallelN(16, len(sizes), func(i int) {
		n := sizes[len(sizes)-1-i]
		c.Case(fmt.Sprintf("scale relationship children=%d", n), func() error {
			kids := []map[string]interface{}{}
			all := []object{}
			for k := 0; k < n; k++ {
				o := object{"pid": int64(1), "k": int64(k * 37 % 1009), "id": int64(k)}
				all = append(all, o)
				kids = append(kids, o)
				if k%3 == 0 {
					kids = append(kids, object{"pid": int64(2), "k": int64(k), "id": int64(-k)})
				}
			}
			w := newWorld(newMem("p", []map[string]interface{}{{"id": int64(1)}}), newMem("k", kids))
			defer w.close()
			w.addKind("map", "m", "k", "pid")
			asc := true
			for _, limit := range []uint{0, uint(n) - 1, uint(n), uint(n) + 1} {
				for _, sorted := range []bool{false, true} {
					rc := &relationship.RelationshipConfig{Input: "k", IsArray: true, Limit: limit, Match: []*relationship.RelationshipMatchConfig{{ParentProperty: "id", ChildProperty: "pid", ChildIndex: "m"}}}
					if sorted {
						rc.Sort = []*record.SortConfig{{Property: "k", Ascending: &asc}, {Property: "id", Ascending: &asc}}
					}
					want := append([]object{}, all...)
					if sorted {
						byKey := map[int64][]object{}
						for _, o := range all {
							byKey[o["k"].(int64)] = append(byKey[o["k"].(int64)], o)
						}
						want = want[:0]
						for k := int64(0); k < 1009; k++ {
							want = append(want, byKey[k]...)
						}
					}
					if limit > 0 && int(limit) < n {
						want = want[:limit]
					}
					o := w.mustOutput(&output.JsonArrayConfig{Name: fmt.Sprintf("o%d%v", limit, sorted), Input: "p", Relationships: rels{"kids": rc}})
					rep := Ask(o, nil)
					c.Step(1)
					if rep.Status != 200 || !jsonEqual(rep.Body, []interface{}{object{"id": int64(1), "kids": want}}) {
						return violf("scale:relationship", "%d children, limit %d, sorted %v: %d %s %s", n, limit, sorted, rep.Status, rep.Err, clip(rep.Body, 200))
					}
				}
			}
			c.State("scale-relationship", n)
			return nil
		})
	})
}

// scaleRoutes: services with n routes, and routes with n parameters; every route is asked.
func scaleRoutes(c *Ctx, ps map[string]parser.Parser) {
	sizes := scaleSizes(c, c.Pick(129, 1025))
	c.ParallelN(8, len(sizes), func(i int) {
		n := sizes[len(sizes)-1-i]
		c.Case(fmt.Sprintf("scale routes=%d", n), func() error {
			outs := map[string]output.Output{}
			routes := [][2]string{}
			for r := 0; r < n; r++ {
				name := fmt.Sprintf("o%d", r)
				outs[name] = &echoOutput{name: name, parsers: ps}
				routes = append(routes, [2]string{fmt.Sprintf("/r%d/{s}", r), name})
			}
			many := map[string]parser.Parser{}
			path := "/many"
			query := ""
			for p := 0; p < n; p++ {
				many[fmt.Sprintf("p%d", p)] = ps["s"]
				if p < 100 {
					path += fmt.Sprintf("/{p%d}", p)
				} else {
					query += fmt.Sprintf("&p%d=q%d", p, p)
				}
			}
			outs["many"] = &echoOutput{name: "many", parsers: many}
			routes = append(routes, [2]string{path, "many"})
			svc := mustService2(outs, routes)
			defer svc.Close()
			rc := newRawClient(svc.Address())
			defer rc.close()
			ask := func(target, name string, params map[string]string) error {
				resp, body, err := rc.do("GET", "GET "+target+" HTTP/1.1\r\nHost: localhost\r\n\r\n")
				c.Step(1)
				if err != nil || resp.StatusCode != 200 {
					return violf("scale:route", "%d routes, %s: %v %s", n, clip(target, 200), err, clip(string(body), 200))
				}
				hexed := object{}
				for k, v := range params {
					hexed[fmt.Sprintf("%x", k)] = fmt.Sprintf("%x", v)
				}
				if !jsonEqual(string(body), object{"output": name, "params": hexed, "payload": ""}) {
					return violf("scale:route", "%d routes, %s: got %s", n, clip(target, 200), clip(string(body), 300))
				}
				return nil
			}
			for r := 0; r < n; r++ {
				if err := ask(fmt.Sprintf("/r%d/x%d", r, r), fmt.Sprintf("o%d", r), map[string]string{"s": fmt.Sprintf("x%d", r)}); err != nil {
					return err
				}
			}
			params := map[string]string{}
			target := "/many"
			for p := 0; p < n; p++ {
				v := fmt.Sprintf("q%d", p)
				params[fmt.Sprintf("p%d", p)] = v
				if p < 100 {
					target += "/" + v
				}
			}
			if query != "" {
				target += "?" + query[1:]
			}
			if err := ask(target, "many", params); err != nil {
				return err
			}
			long := strings.Repeat("x", n*100)
			if err := ask("/r0/"+long, "o0", map[string]string{"s": long}); err != nil {
				return err
			}
			c.State("scale-routes", n)
			return nil
		})
	})
}

func mustService2(outs map[string]output.Output, routes [][2]string) service.Service {
	svc, _ := mustService(outs, routes, nil)
	return svc
}
