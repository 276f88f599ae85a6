package main

// C22: relationships embed exactly the matching records.

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/output/relationship"
)

func init() {
	register("C22", "model_checking",
		"Every dataset of parents and children up to the bound (keys over two values and null, sort values with ties) is served by real jsonObject and jsonArray outputs with every relationship shape (single or array, limit, sort directions, one or two matches, through each index kind, nested two levels, self-referencing); the embedded records are compared with the reference: exactly the matching children, in the requested order, truncated to the limit, and the parent's own data intact. A state is one (dataset, shape); a transition is one request.",
		runC22)
}

type relShape struct {
	array bool
	limit uint
	sort  string // "", "+s", "-s", "+s-id", "-s+id"
	kind  string
	both  bool // match on two properties
}

func (s relShape) sorts() []*record.SortConfig {
	out := []*record.SortConfig{}
	rest := s.sort
	for rest != "" {
		asc := rest[0] == '+'
		rest = rest[1:]
		j := strings.IndexAny(rest, "+-")
		if j < 0 {
			j = len(rest)
		}
		out = append(out, &record.SortConfig{Property: rest[:j], Ascending: &asc})
		rest = rest[j:]
	}
	return out
}

// embedded checks the value of a relationship against the reference. Ties of
// the sort may come in any order, so equal keys are compared as sets.
func (s relShape) embedded(got interface{}, matching []map[string]interface{}) error {
	less := func(a, b map[string]interface{}) int {
		for _, sc := range s.sorts() {
			x, y := a[sc.Property].(int64), b[sc.Property].(int64)
			if x != y {
				r := 1
				if x < y {
					r = -1
				}
				if !*sc.Ascending {
					r = -r
				}
				return r
			}
		}
		return 0
	}
	want := append([]map[string]interface{}{}, matching...)
	sort.SliceStable(want, func(i, j int) bool { return less(want[i], want[j]) < 0 })
	if !s.array {
		if len(want) == 0 {
			if got != nil {
				return fmt.Errorf("expected null, got %s", show(got))
			}
			return nil
		}
		return sameJson(got, want[0])
	}
	list, ok := got.([]interface{})
	if !ok {
		return fmt.Errorf("expected an array, got %s", show(got))
	}
	n := len(want)
	if s.limit > 0 && int(s.limit) < n {
		n = int(s.limit)
	}
	if len(list) != n {
		return fmt.Errorf("expected %d items, got %s", n, show(got))
	}
	if s.sort == "" {
		for i := range list {
			if err := sameJson(list[i], want[i]); err != nil {
				return err
			}
		}
		return nil
	}
	used := map[int]bool{}
	for i := range list {
		found := -1
		for j := range want {
			if !used[j] && less(want[j], want[i]) == 0 && sameJson(list[i], want[j]) == nil {
				found = j
				break
			}
		}
		if found < 0 {
			return fmt.Errorf("item %d is %s, which does not belong there (expected order %s)", i, show(list[i]), js(want))
		}
		used[found] = true
	}
	return nil
}

func sameJson(got interface{}, want interface{}) error {
	b, err := json.Marshal(got)
	must(err)
	if !jsonEqual(string(b), want) {
		return fmt.Errorf("expected %s, got %s", js(want), string(b))
	}
	return nil
}

func decodeJson(text string) (interface{}, error) {
	var v interface{}
	dec := json.NewDecoder(strings.NewReader(text))
	dec.UseNumber()
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	return v, nil
}

func runC22(c *Ctx) {
	c22Real(c)
	c22Alike(c)
	scaleRelationship(c)
	keys := []interface{}{"a", "b", nil}
	shapes := []relShape{}
	for _, kind := range []string{"default", "map", "sqlite"} {
		for _, both := range []bool{false, true} {
			shapes = append(shapes, relShape{false, 0, "", kind, both}, relShape{false, 2, "", kind, both})
			for _, limit := range []uint{0, 1, 2} {
				for _, so := range []string{"", "+s", "-s", "+s-id", "-s+id"} {
					shapes = append(shapes, relShape{true, limit, so, kind, both})
				}
			}
		}
	}
	nChildren := c.Pick(3, 4)
	sizes := []int{}
	for n := 0; n <= nChildren; n++ {
		sizes = append(sizes, n)
	}
	for _, n := range sizes {
		// each child: key (3) x sort value (2)
		ts := fixedTuples(6, n)
		const chunk = 8
		c.ParallelN(8, (len(ts)+chunk-1)/chunk, func(ch int) {
			c.Case(fmt.Sprintf("relationship children=%d chunk=%d", n, ch), func() error {
				for _, t := range ts[ch*chunk : min(len(ts), (ch+1)*chunk)] {
					childRows := []map[string]interface{}{}
					for i, k := range t {
						childRows = append(childRows, map[string]interface{}{"id": int64(i), "k": keys[k%3], "s": int64(k / 3), "l": "L" + fmt.Sprint(k/3)})
					}
					parentRows := []map[string]interface{}{}
					for i, k := range keys {
						parentRows = append(parentRows, map[string]interface{}{"id": fmt.Sprint(i), "k": k, "l": "L" + fmt.Sprint(i%2), "own": []interface{}{"kept", nil}})
					}
					if err := relDataset(c, parentRows, childRows, shapes); err != nil {
						return err
					}
					c.Trace()
				}
				return nil
			})
		})
	}
	// Two levels, and a relationship of an input with itself.
	ts := fixedTuples(2, 6)
	c.ParallelN(8, len(ts), func(i int) {
		c.Case(fmt.Sprintf("nested dataset=%d", i), func() error {
			t := ts[i]
			ab := []string{"a", "b"}
			parents := newMem("parents", []map[string]interface{}{{"id": "0", "k": ab[t[0]]}, {"id": "1", "k": "c"}})
			children := newMem("children", []map[string]interface{}{{"id": int64(0), "k": ab[t[1]], "g": ab[t[2]]}, {"id": int64(1), "k": ab[t[3]], "g": "b"}})
			grand := newMem("grand", []map[string]interface{}{{"g": ab[t[4]], "v": "x"}, {"g": ab[t[5]], "v": "y"}})
			for _, kind := range []string{"default", "map", "sqlite"} {
				for _, arrays := range [][2]bool{{true, true}, {true, false}, {false, true}, {false, false}} {
					if err := func() error {
						w := newWorld(parents, children, grand)
						defer w.close()
						ci, gi := "default", "default"
						if kind != "default" {
							w.addKind(kind, "ci", "children", "k")
							w.addKind(kind, "gi", "grand", "g")
							ci, gi = "ci", "gi"
						}
						o := w.mustOutput(&output.JsonArrayConfig{Name: "o", Input: "parents", Relationships: rels{"c": {
							Input: "children", IsArray: arrays[0],
							Match: []*relationship.RelationshipMatchConfig{{ParentProperty: "k", ChildProperty: "k", ChildIndex: ci}},
							Relationships: rels{"gc": {Input: "grand", IsArray: arrays[1],
								Match: []*relationship.RelationshipMatchConfig{{ParentProperty: "g", ChildProperty: "g", ChildIndex: gi}}}},
						}}})
						want := []interface{}{}
						for _, p := range parents.recs {
							cs := []interface{}{}
							for _, ch := range children.recs {
								if ch.props["k"] != p.props["k"] {
									continue
								}
								gs := []interface{}{}
								for _, g := range grand.recs {
									if g.props["g"] == ch.props["g"] {
										gs = append(gs, map[string]interface{}(g.props))
									}
								}
								cm := map[string]interface{}{}
								for k, v := range ch.props {
									cm[k] = v
								}
								cm["gc"] = pickRel(gs, arrays[1])
								cs = append(cs, cm)
							}
							pm := map[string]interface{}{"id": p.props["id"], "k": p.props["k"], "c": pickRel(cs, arrays[0])}
							want = append(want, pm)
						}
						c.Step(1)
						c.State("nested", t, arrays)
						return checkOk("nested", Ask(o, nil), want, fmt.Sprintf("dataset %v kind %s arrays %v", t, kind, arrays))
					}(); err != nil {
						return err
					}
				}
			}
			// people with a manager among themselves
			ppl := newMem("ppl", []map[string]interface{}{{"id": "a", "boss": ab[t[0]]}, {"id": "b", "boss": nil}, {"id": ab[t[1]], "boss": "zz"}})
			w := newWorld(ppl)
			defer w.close()
			w.addKind("map", "byid", "ppl", "id")
			o := w.mustOutput(&output.JsonArrayConfig{Name: "o", Input: "ppl", Relationships: rels{"manager": {
				Input: "ppl", Match: []*relationship.RelationshipMatchConfig{{ParentProperty: "boss", ChildProperty: "id", ChildIndex: "byid"}}}}})
			want := []interface{}{}
			for _, p := range ppl.recs {
				var boss interface{}
				for _, q := range ppl.recs {
					if q.props["id"] == p.props["boss"] && boss == nil {
						boss = map[string]interface{}(q.props)
					}
				}
				want = append(want, map[string]interface{}{"id": p.props["id"], "boss": p.props["boss"], "manager": boss})
			}
			c.Step(1)
			c.Trace()
			return checkOk("self", Ask(o, nil), want, showRows(ppl))
		})
	})
	// A parent without the property: an error, not a wrong match.
	c.Case("missing parent property", func() error {
		parents := newMem("parents", []map[string]interface{}{{"id": "0"}})
		children := newMem("children", []map[string]interface{}{{"k": "a"}, {"k": nil}})
		w := newWorld(parents, children)
		o := w.mustOutput(&output.JsonArrayConfig{Name: "o", Input: "parents", Relationships: rels{"c": {
			Input: "children", IsArray: true, Match: []*relationship.RelationshipMatchConfig{{ParentProperty: "k", ChildProperty: "k"}}}}})
		return checkStatus("missing-parent-property", Ask(o, nil), 500, "parent without the property")
	})
}

func pickRel(items []interface{}, array bool) interface{} {
	if array {
		return items
	}
	if len(items) == 0 {
		return nil
	}
	return items[0]
}

func relDataset(c *Ctx, parentRows, childRows []map[string]interface{}, shapes []relShape) error {
	for _, sh := range shapes {
		if err := func() error {
			parents := newMem("parents", parentRows)
			children := newMem("children", childRows)
			w := newWorld(parents, children)
			defer w.close()
			ix := "default"
			if sh.kind != "default" {
				w.addKind(sh.kind, "ci", "children", "k", "l")
				ix = "ci"
			}
			match := []*relationship.RelationshipMatchConfig{{ParentProperty: "k", ChildProperty: "k", ChildIndex: ix}}
			if sh.both {
				// the second one through the default index
				match = append(match, &relationship.RelationshipMatchConfig{ParentProperty: "l", ChildProperty: "l"})
			}
			mk := func() rels {
				return rels{"kids": {Input: "children", IsArray: sh.array, Limit: sh.limit, Sort: sh.sorts(), Match: match}}
			}
			arr := w.mustOutput(&output.JsonArrayConfig{Name: "o", Input: "parents", Relationships: mk()})
			obj := w.mustOutput(&output.JsonObjectConfig{Name: "o", Input: "parents", Parameters: params{"id": param("id", "", "")}, Relationships: mk()})
			check := func(got interface{}, i int) error {
				m, ok := got.(map[string]interface{})
				if !ok {
					return violf("relationship:shape", "parent %d is %s", i, show(got))
				}
				kids, exists := m["kids"]
				if !exists {
					return violf("relationship:absent", "parent %d has no relationship: %s", i, show(got))
				}
				own := map[string]interface{}{}
				for k, v := range m {
					if k != "kids" {
						own[k] = v
					}
				}
				if err := sameJson(own, parentRows[i]); err != nil {
					return violf("relationship:parent-data", "parent %d: %v", i, err)
				}
				matching := []map[string]interface{}{}
				for _, ch := range childRows {
					if ch["k"] == parentRows[i]["k"] && (!sh.both || ch["l"] == parentRows[i]["l"]) {
						matching = append(matching, ch)
					}
				}
				if err := sh.embedded(kids, matching); err != nil {
					return violf("relationship:wrong", "children %s shape %+v parent %s: %v", js(childRows), sh, js(parentRows[i]), err)
				}
				c.Outcome(fmt.Sprintf("children%d", len(matching)))
				return nil
			}
			rep := Ask(arr, nil)
			c.Step(1)
			if rep.Status != 200 {
				return violf("relationship:error", "children %s shape %+v: %s", js(childRows), sh, rep)
			}
			v, err := decodeJson(rep.Body)
			if err != nil {
				return violf("relationship:json", "%v: %s", err, rep.Body)
			}
			list, _ := v.([]interface{})
			if len(list) != len(parentRows) {
				return violf("relationship:parents", "%s", rep.Body)
			}
			for i := range list {
				if err := check(list[i], i); err != nil {
					return err
				}
				rep := Ask(obj, map[string]string{"id": fmt.Sprint(i)})
				c.Step(1)
				if rep.Status != 200 {
					return violf("relationship:error", "children %s shape %+v parent %d: %s", js(childRows), sh, i, rep)
				}
				one, err := decodeJson(rep.Body)
				if err != nil {
					return violf("relationship:json", "%v", err)
				}
				if err := check(one, i); err != nil {
					return err
				}
			}
			c.State(js(childRows), sh)
			return nil
		}(); err != nil {
			return err
		}
	}
	return nil
}

// c22Real: outputs with different relationships on the same real inputs; every
// sequence of requests, each answer compared with the reference join (an answer
// must not depend on what was embedded in the records before).
func c22Real(c *Ctx) {
	type rec struct{ id, parent, v int64 }
	recs := []rec{{1, 2, 5}, {2, 2, 7}, {3, 1, 5}, {4, 2, 6}}
	files := map[string][2]string{"csv": {"id,parent,v\n", ""}, "json": {"", ""}, "xml": {"<root>\n", "</root>\n"}}
	line := func(kind string, r rec) string {
		switch kind {
		case "csv":
			return fmt.Sprintf("%d,%d,%d\n", r.id, r.parent, r.v)
		case "json":
			return fmt.Sprintf(`{"id":%d,"parent":%d,"v":%d}`+"\n", r.id, r.parent, r.v)
		}
		return fmt.Sprintf(`<r id="%d"><parent>%d</parent><v>%d</v></r>`+"\n", r.id, r.parent, r.v)
	}
	inputYaml := map[string]string{
		"csv":  "{name: in, type: csv, path: DIR/in.csv, ignoreFirstRow: true, columns: [{name: id, parser: P}, {name: parent, parser: P}, {name: v, parser: P}]}",
		"json": "{name: in, type: json, path: DIR/in.json}",
		"xml":  "{name: in, type: xml, path: DIR/in.xml, recordXpath: //r, properties: [{name: id, xpath: string(@id), parser: P}, {name: parent, xpath: string(./parent), parser: P}, {name: v, xpath: string(./v), parser: P}]}",
	}
	type request struct {
		output string
		params map[string]string
		want   interface{}
	}
	plain := func(r rec) object { return object{"id": r.id, "parent": r.parent, "v": r.v} }
	with := func(o object, name string, v interface{}) object {
		out := object{}
		for k, x := range o {
			out[k] = x
		}
		out[name] = v
		return out
	}
	children := func(id int64) []interface{} { // by v descending, then id
		out := []interface{}{}
		for v := int64(9); v >= 0; v-- {
			for _, r := range recs {
				if r.parent == id && r.v == v {
					out = append(out, plain(r))
				}
			}
		}
		return out
	}
	byId := func(id int64) rec { return recs[id-1] }
	all := func(f func(r rec) object) []interface{} {
		out := []interface{}{}
		for _, r := range recs {
			out = append(out, f(r))
		}
		return out
	}
	up := func(r rec) object {
		p := byId(r.parent)
		return with(plain(r), "up", with(plain(p), "up", plain(byId(p.parent))))
	}
	requests := []request{
		{"plain", nil, all(plain)},
		{"one", map[string]string{"id": "2"}, plain(recs[1])},
		{"self", nil, all(func(r rec) object { return with(plain(r), "r", []interface{}{plain(r)}) })},
		{"kids", nil, all(func(r rec) object { return with(plain(r), "kids", children(r.id)) })},
		{"up", map[string]string{"id": "3"}, up(recs[2])},
		{"up", map[string]string{"id": "2"}, up(recs[1])},
		{"over", nil, all(func(r rec) object { return with(plain(r), "parent", plain(byId(r.parent))) })},
	}
	yaml := `
parsers:
- {name: P, type: integer}
inputs:
- INPUT
indexes:
- {name: m, type: INDEX, input: in, PROPS}
outputs:
- {name: plain, type: jsonArray, input: in}
- {name: one, type: jsonObject, input: in, parameters: {id: {property: id, index: m, parser: NUM}}}
- {name: self, type: jsonArray, input: in, relationships: {r: {input: in, isArray: true, match: [{parentProperty: id, childProperty: id, childIndex: m}]}}}
- {name: kids, type: jsonArray, input: in, relationships: {kids: {input: in, isArray: true, sort: [{property: v, ascending: false}, {property: id, ascending: true}], match: [{parentProperty: id, childProperty: parent, childIndex: m}]}}}
- {name: up, type: jsonObject, input: in, parameters: {id: {property: id, index: m, parser: NUM}}, relationships: {up: {input: in, isArray: false, match: [{parentProperty: parent, childProperty: id, childIndex: m}], relationships: {up: {input: in, isArray: false, match: [{parentProperty: parent, childProperty: id}]}}}}}
- {name: over, type: jsonArray, input: in, relationships: {parent: {input: in, isArray: false, match: [{parentProperty: parent, childProperty: id, childIndex: m}]}}}
`
	depth := c.Pick(3, 4)
	kinds := []string{"csv", "json", "xml"}
	indexes := []string{"map", "sqlite"}
	props := map[string]string{"map": "properties: [id, parent]", "sqlite": "dsn: DIR/m.db, properties: [{name: id}, {name: parent}]"}
	tail := fixedTuples(len(requests), depth-1)
	c.ParallelN(16, len(kinds)*len(indexes)*len(requests), func(i int) {
		kind, ixKind, first := kinds[i/len(requests)%len(kinds)], indexes[i/len(requests)/len(kinds)], i%len(requests)
		c.Case(fmt.Sprintf("real %s %s first=%d", kind, ixKind, first), func() error {
			dir, clean := c.Dir()
			text := files[kind][0]
			for _, r := range recs {
				text += line(kind, r)
			}
			writeFile(filepath.Join(dir, "in."+kind), text+files[kind][1])
			y := strings.ReplaceAll(yaml, "INPUT", inputYaml[kind])
			y = strings.ReplaceAll(strings.ReplaceAll(y, "INDEX", ixKind), "PROPS", props[ixKind])
			num := "P"
			if kind == "json" {
				num = "float" // the numbers of a JSON file
			}
			y = strings.ReplaceAll(strings.ReplaceAll(y, "NUM", num), "DIR", dir)
			st, err := NewStack(dir, y, "outputs")
			if err != nil {
				return violf("real:refused", "%v", err)
			}
			defer c.Later(func() { st.Close(); clean() })
			ask := func(ri int, seq []int) error {
				rq := requests[ri]
				c.Step(1)
				got := Ask(st.Outputs[rq.output], rq.params)
				if got.Status != 200 || !jsonEqual(got.Body, rq.want) {
					return violf("real:wrong", "%s: %s%v after the requests %d,%v: expected %s, got %d %s", kind, rq.output, rq.params, first, seq, js(rq.want), got.Status, clip(got.Body, 600))
				}
				return nil
			}
			if err := ask(first, nil); err != nil {
				return err
			}
			for _, seq := range tail {
				for k, ri := range seq {
					if err := ask(ri, seq[:k]); err != nil {
						return err
					}
				}
				c.State("real", kind, ixKind, first, seq)
				c.Trace()
			}
			return nil
		})
	})
}

// c22Alike: values of different types that are written alike (1, "1", true, "true",
// null, "<nil>"…), in two relationships of the same record to the same input.
func c22Alike(c *Ctx) {
	values := []interface{}{int64(1), "1", 1.5, "1.5", true, "true", nil, "", "<nil>", "null", "1 b:1", "map[k:1]"}
	childRows := []map[string]interface{}{}
	for i, v := range values {
		childRows = append(childRows, map[string]interface{}{"k": v, "l": v, "id": int64(i)})
	}
	for _, kind := range []string{"default", "map"} {
		for _, second := range []string{"k", "l"} {
			for _, arrays := range [][2]bool{{true, true}, {true, false}, {false, true}, {false, false}} {
				kind, second, arrays := kind, second, arrays
				c.Case(fmt.Sprintf("values written alike: %s %s %v", kind, second, arrays), func() error {
					parentRows := []map[string]interface{}{}
					for _, a := range values {
						for _, b := range values {
							parentRows = append(parentRows, map[string]interface{}{"a": a, "b": b})
						}
					}
					w := newWorld(newMem("parents", parentRows), newMem("children", childRows))
					defer w.close()
					index := "default"
					if kind != "default" {
						w.addKind(kind, "ci", "children", "k", "l")
						index = "ci"
					}
					asc := false
					rel := func(from, to string, array bool) *relationship.RelationshipConfig {
						r := &relationship.RelationshipConfig{Input: "children", IsArray: array,
							Match: []*relationship.RelationshipMatchConfig{{ParentProperty: from, ChildProperty: to, ChildIndex: index}}}
						if array {
							r.Sort = []*record.SortConfig{{Property: "id", Ascending: &asc}}
						}
						return r
					}
					o := w.mustOutput(&output.JsonArrayConfig{Name: "o", Input: "parents", Limit: output.JsonArrayLimitConfig{Default: 1000, Max: 1000},
						Relationships: rels{"r": rel("a", "k", arrays[0]), "s": rel("b", second, arrays[1])}})
					want := []interface{}{}
					for i := range parentRows {
						child := func(k int, array bool) interface{} {
							if array {
								return []interface{}{childRows[k]}
							}
							return childRows[k]
						}
						want = append(want, map[string]interface{}{"a": parentRows[i]["a"], "b": parentRows[i]["b"],
							"r": child(i/len(values), arrays[0]), "s": child(i%len(values), arrays[1])})
						c.State("alike", kind, second, arrays, i)
					}
					c.Step(len(parentRows))
					return checkOk("alike", Ask(o, nil), want, "values written alike")
				})
			}
		}
	}
}
