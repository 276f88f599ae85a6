package main

// C13: the kind of index serving a parameter never changes the answer.
// C20: jsonObject. C21: jsonArray filtering and paging.

import (
	"fmt"
	"math"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/output"
)

func init() {
	register("C13", "model_checking",
		"Every dataset of up to 3 records with two text properties is served by a real jsonArray and jsonObject whose two parameters go through every pair of index kinds (default, noop, map, sqlite; one shared index or two), plus combinations with wildcard and fts5; every combination of parameter values is asked and compared with the reference filter. A state is one (dataset, parameter values); a transition is one request.",
		runC13)
	register("C20", "model_checking",
		"Every dataset of up to 4 records is served by a real jsonObject with one and two parameters (typed), through several index kinds; every parameter value combination, including values that match nothing or cannot be parsed, is asked; the answer must be the first matching record with all its properties, or 404, or an error. A state is one (dataset, request); a transition is one request.",
		runC20)
	register("C21", "model_checking",
		"For every dataset size up to the bound, every limit/offset configuration and every limit, offset and filter value of a boundary grid is asked from a real jsonArray and compared with the slice of the filtered list; walking the pages must give every record exactly once. A state is one (size, configuration, request); a transition is one request.",
		runC21)
}

func refArray(m *memInput, filters map[string]interface{}, match func(string, interface{}, interface{}) bool) []interface{} {
	out := []interface{}{}
	for _, r := range m.recs {
		ok := true
		for p, f := range filters {
			ok = ok && match(p, r.props[p], f)
		}
		if ok {
			out = append(out, map[string]interface{}(r.props))
		}
	}
	return out
}

func runC13(c *Ctx) {
	kinds := []string{"default", "noop", "map", "sqlite"}
	values := []interface{}{"", "a", "A", nil}
	asked := []string{"", "a", "A", "b"}
	props := []string{"p", "q"}
	type wiring struct{ p, q string }
	wirings := []wiring{}
	for _, a := range kinds {
		for _, b := range kinds {
			wirings = append(wirings, wiring{a, b})
			if a == b && a != "default" {
				wirings = append(wirings, wiring{a, "shared"})
			}
		}
	}
	sizes := []int{0, 1, 2}
	if c.Thorough() {
		sizes = append(sizes, 3)
	}
	for _, n := range sizes {
		vals := values
		if n == 3 {
			vals = []interface{}{"a", "A", nil}
		}
		ts := fixedTuples(len(vals), n*2)
		c.ParallelN(8, len(ts), func(i int) {
			c.Case(fmt.Sprintf("interchange records=%d dataset=%d", n, i), func() error {
				m := newMem("in", rowsFrom(ts[i], props, vals))
				for _, wi := range wirings {
					if err := func() error {
						w := newWorld(m)
						defer w.close()
						ip, iq := "default", "default"
						if wi.q == "shared" {
							w.addKind(wi.p, "both", "in", "p", "q")
							ip, iq = "both", "both"
						} else {
							if wi.p != "default" {
								w.addKind(wi.p, "ip", "in", "p")
								ip = "ip"
							}
							if wi.q != "default" {
								w.addKind(wi.q, "iq", "in", "q")
								iq = "iq"
							}
						}
						ps := params{"x": param("p", ip, ""), "y": param("q", iq, "")}
						arr := w.mustOutput(&output.JsonArrayConfig{Name: "o", Input: "in", Parameters: ps})
						obj := w.mustOutput(&output.JsonObjectConfig{Name: "o", Input: "in", Parameters: params{"x": param("p", ip, ""), "y": param("q", iq, "")}})
						for a := -1; a < len(asked); a++ {
							for b := -1; b < len(asked); b++ {
								req := map[string]string{"ignored": "zzz"}
								f := map[string]interface{}{}
								if a >= 0 {
									req["x"], f["p"] = asked[a], asked[a]
								}
								if b >= 0 {
									req["y"], f["q"] = asked[b], asked[b]
								}
								want := refArray(m, f, exactMatch)
								what := fmt.Sprintf("%s wiring %v request %v", showRows(m), wi, req)
								if err := checkOk("array", Ask(arr, req), want, what); err != nil {
									return err
								}
								c.Step(1)
								c.State(showRows(m), req)
								if a >= 0 && b >= 0 {
									rep := Ask(obj, req)
									c.Step(1)
									if len(want) == 0 {
										if err := checkStatus("object", rep, 404, what); err != nil {
											return err
										}
									} else if err := checkOk("object", rep, want[0], what); err != nil {
										return err
									}
								}
								c.Outcome(fmt.Sprintf("matches%d", len(want)))
							}
						}
						c.Trace()
						return nil
					}(); err != nil {
						return err
					}
				}
				return nil
			})
		})
	}
	c13Typed(c)
	// Search indexes combined with exact ones: the answer is the intersection.
	texts := []interface{}{"ab cd", "ab", "cd ab", "b"}
	tags := []interface{}{"t", "u"}
	combos := [][]string{{"wildcard", "map"}, {"wildcard", "fts5"}, {"fts5", "sqlite"}, {"wildcard", "fts5", "map"}, {"wildcard", "default"}, {"fts5", "default", "map"}}
	ts := fixedTuples(len(texts)*len(tags), 3)
	c.ParallelN(8, len(ts), func(i int) {
		c.Case(fmt.Sprintf("combined dataset=%d", i), func() error {
			dir, clean := c.Dir()
			defer clean()
			rows := []map[string]interface{}{}
			for _, k := range ts[i] {
				rows = append(rows, map[string]interface{}{"text": texts[k%len(texts)], "tag": tags[k/len(texts)]})
			}
			m := newMem("in", rows)
			w := newWorld(m)
			defer w.close()
			w.addWildcard("wildcard", "in", filepath.Join(dir, "w"), "text")
			w.addKind("fts5", "fts5", "in", "text")
			w.addKind("map", "map", "in", "tag")
			w.addKind("sqlite", "sqlite", "in", "tag")
			for _, combo := range combos {
				ps := params{}
				for _, k := range combo {
					switch k {
					case "wildcard":
						ps["wildcard"] = param("text", k, "")
					case "fts5":
						ps["fts5"] = param("match", k, "")
					default:
						ps[k] = param("tag", k, "")
					}
				}
				arr := w.mustOutput(&output.JsonArrayConfig{Name: "o", Input: "in", Parameters: ps})
				for _, wq := range []string{"b", "ab", "d a", "zz"} {
					for _, fq := range []string{"ab", "cd", "ab cd", "c*"} {
						for _, tq := range []string{"t", "u", "v"} {
							req := map[string]string{}
							want := []interface{}{}
							for _, r := range m.recs {
								text, tag := r.props["text"].(string), r.props["tag"].(string)
								ok := true
								for _, k := range combo {
									switch k {
									case "wildcard":
										req[k] = wq
										ok = ok && strings.Contains(text, wq)
									case "fts5":
										req[k] = fq
										for _, word := range strings.Fields(fq) {
											ok = ok && ftsPhrase(strings.Fields(text), []string{strings.TrimSuffix(word, "*")}, strings.HasSuffix(word, "*"))
										}
									default:
										req[k] = tq
										ok = ok && tag == tq
									}
								}
								if ok {
									want = append(want, map[string]interface{}(r.props))
								}
							}
							if err := checkOk("combined", Ask(arr, req), want, fmt.Sprintf("%s request %v", showRows(m), req)); err != nil {
								return err
							}
							c.Step(1)
							c.State("combined", showRows(m), req)
						}
					}
				}
			}
			c.Trace()
			return nil
		})
	})

	// Several parameters on the same property, through the same index or through
	// two of them: every one of them applies.
	same := fixedTuples(len(texts), 2)
	sameKinds := []string{"default", "noop", "map", "sqlite", "wildcard", "fts5"}
	c.ParallelN(8, len(same), func(i int) {
		c.Case(fmt.Sprintf("same property dataset=%d", i), func() error {
			dir, clean := c.Dir()
			defer clean()
			rows := []map[string]interface{}{}
			for j, k := range same[i] {
				rows = append(rows, map[string]interface{}{"text": texts[k], "tag": tags[j%len(tags)]})
			}
			m := newMem("in", rows)
			w := newWorld(m)
			defer w.close()
			w.addWildcard("wildcard", "in", filepath.Join(dir, "w"), "text", "tag")
			for _, k := range []string{"fts5", "map", "sqlite", "noop"} {
				w.addKind(k, k, "in", "text", "tag")
			}
			asked := []string{"ab", "ab cd", "b", "zz"}
			meets := func(kind, text, asked string) bool {
				switch kind {
				case "wildcard":
					return strings.Contains(text, asked)
				case "fts5":
					for _, word := range strings.Fields(asked) {
						if !ftsPhrase(strings.Fields(text), []string{word}, false) {
							return false
						}
					}
					return true
				}
				return text == asked
			}
			for _, a := range sameKinds {
				for _, b := range sameKinds {
					prop := func(kind string) string {
						if kind == "fts5" {
							return "match"
						}
						return "text"
					}
					ps := func() params {
						out := params{"x": param(prop(a), a, ""), "y": param(prop(b), b, "")}
						if a != "fts5" {
							out["t"] = param("tag", a, "")
						}
						return out
					}
					arr := w.mustOutput(&output.JsonArrayConfig{Name: "o", Input: "in", Parameters: ps()})
					obj := w.mustOutput(&output.JsonObjectConfig{Name: "o", Input: "in", Parameters: ps()})
					for _, x := range asked {
						for _, y := range asked {
							for _, t := range []string{"", "t", "u"} {
								if t != "" && a == "fts5" {
									continue
								}
								req := map[string]string{"x": x, "y": y}
								if t != "" {
									req["t"] = t
								}
								want := []interface{}{}
								for _, r := range m.recs {
									text, tag := r.props["text"].(string), r.props["tag"].(string)
									if meets(a, text, x) && meets(b, text, y) && (t == "" || tag == t) {
										want = append(want, map[string]interface{}(r.props))
									}
								}
								what := fmt.Sprintf("%s: %s and %s on the same property, request %v", showRows(m), a, b, req)
								if err := checkOk("same-property", Ask(arr, req), want, what); err != nil {
									return err
								}
								c.Step(1)
								c.State("same", a, b, showRows(m), req)
								if t == "" && a != "fts5" {
									continue
								}
								rep := Ask(obj, req)
								c.Step(1)
								if len(want) == 0 {
									if err := checkStatus("same-property-object", rep, 404, what); err != nil {
										return err
									}
								} else if err := checkOk("same-property-object", rep, want[0], what); err != nil {
									return err
								}
								c.Outcome(fmt.Sprintf("same property: matches%d", len(want)))
							}
						}
					}
				}
			}
			c.Trace()
			return nil
		})
	})
}

// c13Typed: the values of the records and of the parameters have any type.
func c13Typed(c *Ctx) {
	values := []interface{}{nil, "", "1", "true", int64(0), int64(1), int64(-1), int64(1) << 53, int64(1)<<53 + 1, 0.0, 1.0, -1.0, 1.5, float64(int64(1) << 53), true, false}
	asked := map[string]map[string]interface{}{
		"string":  {"": "", "1": "1", "true": "true", "0": "0", "1.5": "1.5"},
		"integer": {"0": int64(0), "1": int64(1), "-1": int64(-1), "9007199254740992": int64(1) << 53, "9007199254740993": int64(1)<<53 + 1},
		"float":   {"0": 0.0, "1": 1.0, "-1": -1.0, "1.5": 1.5, "9007199254740992": float64(int64(1) << 53)},
		"boolean": {"true": true, "false": false},
	}
	// What sqlite compares: it has no boolean, and compares its numbers by value.
	number := func(v interface{}) (string, bool) {
		switch x := v.(type) {
		case bool:
			if x {
				return "1", true
			}
			return "0", true
		case int64:
			return fmt.Sprint(x), true
		case float64:
			return strconv.FormatFloat(x, 'f', -1, 64), true
		}
		return "", false
	}
	sqliteMatch := func(property string, value, filter interface{}) bool {
		v, isNumber := number(value)
		f, filterIsNumber := number(filter)
		return exactMatch(property, value, filter) || isNumber && filterIsNumber && v == f
	}
	kinds := []string{"default", "noop", "map", "sqlite"}
	ts := fixedTuples(len(values), 2)
	c.ParallelN(8, len(ts), func(i int) {
		m := newMem("in", []object{{"p": values[ts[i][0]], "q": "a"}, {"p": values[ts[i][1]], "q": "b"}})
		var w *world
		c.Case("typed indexes "+showRows(m), func() error {
			w = newWorld(m)
			for _, k := range kinds[1:] {
				w.addKind(k, k, "in", "p", "q")
			}
			return nil
		})
		if w == nil {
			return
		}
		defer w.close()
		for _, kind := range kinds {
			for _, ps := range []string{"string", "integer", "float", "boolean"} {
				kind, ps := kind, ps
				// Whether each deviation is explained by the numbers of sqlite.
				for _, numbers := range []bool{false, true} {
					c.Case(fmt.Sprintf("typed %s %s parameter, same number: %v, %s", kind, ps, numbers, showRows(m)), func() error {
						arr := w.mustOutput(&output.JsonArrayConfig{Name: "o", Input: "in", Parameters: params{"x": param("p", kind, ps), "y": param("q", kind, "")}})
						for _, text := range sortedKeys(asked[ps]) {
							filter := asked[ps][text]
							same := false
							for _, r := range m.recs {
								v, isNumber := number(r.props["p"])
								f, filterIsNumber := number(filter)
								same = same || isNumber && filterIsNumber && v == f && !exactMatch("", r.props["p"], filter)
							}
							if same != numbers {
								continue
							}
							for _, q := range []string{"", "a", "b"} {
								req, f := map[string]string{"x": text}, map[string]interface{}{"p": filter}
								if q != "" {
									req["y"], f["q"] = q, q
								}
								want := refArray(m, f, exactMatch)
								c.Step(1)
								c.State("typed", showRows(m), ps, req)
								rep := Ask(arr, req)
								what := fmt.Sprintf("%s: %s index, %s parameter, request %v", showRows(m), kind, ps, req)
								err := checkOk("typed", rep, want, what)
								if err != nil && numbers && kind == "sqlite" && checkOk("typed", rep, refArray(m, f, sqliteMatch), what) == nil {
									return violf("typed:same-number:sqlite", "%v", err)
								}
								if err != nil {
									return err
								}
								c.Outcome(fmt.Sprintf("typed: matches%d", len(want)))
							}
						}
						return nil
					})
				}
			}
		}
		c.Trace()
	})
}

func runC20(c *Ctx) {
	collidingRequests(c, true)
	type column struct {
		parser string
		values []interface{}
		asked  []string
		parse  func(s string) (interface{}, bool)
	}
	cols := []column{
		{"string", []interface{}{"a", "b", "", nil}, []string{"a", "b", "", "c"}, func(s string) (interface{}, bool) { return s, true }},
		{"integer", []interface{}{int64(1), int64(-2), nil}, []string{"1", "-2", "01", "+1", "1.0", "x", ""}, func(s string) (interface{}, bool) {
			n, err := strconv.Atoi(s)
			return int64(n), err == nil
		}},
		{"float", []interface{}{1.5, -2.0, nil}, []string{"1.5", "-2", "1.50", "x", ""}, func(s string) (interface{}, bool) {
			n, err := strconv.ParseFloat(s, 64)
			return n, err == nil
		}},
		{"boolean", []interface{}{true, false, nil}, []string{"true", "false", "TRUE", ""}, func(s string) (interface{}, bool) {
			return s == "true", s == "true" || s == "false"
		}},
	}
	// The index of each of the two parameters; the same name is the same index.
	kinds := [][2]string{{"default", "default"}, {"map", "map"}, {"sqlite", "sqlite"}, {"map", "map2"}, {"default", "map"}, {"map", "sqlite"}}
	for ci, a := range cols {
		for cj, b := range cols {
			for _, kind := range kinds {
				n := c.Pick(2, 3)
				vals := fixedTuples(len(a.values)*len(b.values), n)
				const chunk = 32
				c.ParallelN(8, (len(vals)+chunk-1)/chunk, func(ch int) {
					c.Case(fmt.Sprintf("object cols=%d,%d kind=%v records=%d chunk=%d", ci, cj, kind, n, ch), func() error {
						for _, t := range vals[ch*chunk : min(len(vals), (ch+1)*chunk)] {
							rows := []map[string]interface{}{}
							for i, k := range t {
								rows = append(rows, map[string]interface{}{"p": a.values[k%len(a.values)], "q": b.values[k/len(a.values)], "id": int64(i), "more": []interface{}{"x", nil}})
							}
							m := newMem("in", rows)
							w := newWorld(m)
							for k, name := range kind {
								if name != "default" && (k == 0 || name != kind[0]) {
									w.addKind(strings.TrimSuffix(name, "2"), name, "in", "p", "q")
								}
							}
							both := w.mustOutput(&output.JsonObjectConfig{Name: "o", Input: "in", Parameters: params{"x": param("p", kind[0], a.parser), "y": param("q", kind[1], b.parser)}})
							one := w.mustOutput(&output.JsonObjectConfig{Name: "o", Input: "in", Parameters: params{"x": param("p", kind[0], a.parser)}})
							// A parameter that is not given counts as an empty text.
							ea, okEa := a.parse("")
							eb, okEb := b.parse("")
							missing := func(req map[string]string, va interface{}, oka bool, vb interface{}, okb bool) error {
								what := fmt.Sprintf("%s (%v) only %v", showRows(m), kind, req)
								return objectAsk(c, m, both, req, map[string]interface{}{"p": va, "q": vb}, oka && okb, what)
							}
							err := missing(map[string]string{}, ea, okEa, eb, okEb)
							for _, sa := range a.asked {
								if va, oka := a.parse(sa); err == nil {
									err = missing(map[string]string{"x": sa, "other": sa}, va, oka, eb, okEb)
								}
							}
							for _, sb := range b.asked {
								if vb, okb := b.parse(sb); err == nil {
									err = missing(map[string]string{"y": sb, "X": sb}, ea, okEa, vb, okb)
								}
							}
							if err != nil {
								w.close()
								return err
							}
							for _, sa := range a.asked {
								va, oka := a.parse(sa)
								what := fmt.Sprintf("%s (%v) x=%q", showRows(m), kind, sa)
								if err := objectAsk(c, m, one, map[string]string{"x": sa}, map[string]interface{}{"p": va}, oka, what); err != nil {
									w.close()
									return err
								}
								for _, sb := range b.asked {
									vb, okb := b.parse(sb)
									what := fmt.Sprintf("%s (%v) x=%q y=%q", showRows(m), kind, sa, sb)
									if err := objectAsk(c, m, both, map[string]string{"x": sa, "y": sb}, map[string]interface{}{"p": va, "q": vb}, oka && okb, what); err != nil {
										w.close()
										return err
									}
								}
							}
							w.close()
							c.Trace()
						}
						return nil
					})
				})
			}
		}
	}
	c.Case("object without parameters is refused", func() error {
		w := newWorld(newMem("in", nil))
		if _, err := w.output(&output.JsonObjectConfig{Name: "o", Input: "in"}); err == nil {
			return violf("object:no-parameters", "accepted")
		}
		return nil
	})
}

func objectAsk(c *Ctx, m *memInput, o output.Output, req map[string]string, f map[string]interface{}, ok bool, what string) error {
	rep := Ask(o, req)
	c.Step(1)
	c.State(what)
	if !ok {
		c.Outcome("unparsable")
		return checkStatus("object-unparsable", rep, 500, what)
	}
	want := refArray(m, f, exactMatch)
	if len(want) == 0 {
		c.Outcome("not-found")
		return checkStatus("object-missing", rep, 404, what)
	}
	c.Outcome("found")
	return checkOk("object", rep, want[0], what)
}

func runC21(c *Ctx) {
	collidingRequests(c, false)
	type conf struct {
		def, max  uint
		lim, off  string
		effective [2]int
	}
	confs := []conf{
		{0, 0, "", "", [2]int{100, 1000}}, {2, 0, "", "", [2]int{2, 1000}}, {2, 3, "", "", [2]int{2, 3}}, {3, 3, "n", "skip", [2]int{3, 3}}, {1, 5, "size", "", [2]int{1, 5}},
		// The biggest settings, whose sums do not fit.
		{math.MaxUint, math.MaxUint, "", "", [2]int{math.MaxInt, math.MaxInt}}, {2, math.MaxUint, "", "", [2]int{2, math.MaxInt}},
		{math.MaxInt, math.MaxInt, "", "", [2]int{math.MaxInt, math.MaxInt}}, {math.MaxInt + 1, math.MaxInt + 1, "", "", [2]int{math.MaxInt, math.MaxInt}},
	}
	limits := []string{"", "1", "2", "3", "4", "5", "6", "100", "101", "1000", "1001", "0", "-1", "x", "1.5", " 1", "+2", "99999999999999999999", "9223372036854775807", "<empty>", "010", "0x2", "1_0", "1e1", "٢"}
	offsets := []string{"", "0", "1", "2", "3", "4", "5", "6", "99", "100", "-1", "x", "00", "+1", "99999999999999999999", "9223372036854775807", "<empty>", "010", "0x2", "1_0", "1e1", "٢"}
	sizes := []int{0, 1, 2, 3, 4, 5, 13}
	if c.Thorough() {
		sizes = append(sizes, 6, 7, 8)
	}
	big := []int{99, 100, 101, 999, 1000, 1001, 1002}
	rowsOf := func(n int) []map[string]interface{} {
		rows := []map[string]interface{}{}
		for i := 0; i < n; i++ {
			rows = append(rows, map[string]interface{}{"id": int64(i), "g": fmt.Sprint(i % 2)})
		}
		return rows
	}
	kinds := []string{"default", "map", "sqlite"}
	one := func(n int, ci int, cf conf, kind string, limits, offsets []string) error {
		m := newMem("in", rowsOf(n))
		w := newWorld(m)
		defer w.close()
		ix := "default"
		if kind != "default" {
			w.addKind(kind, "ix", "in", "g")
			ix = "ix"
		}
		o := w.mustOutput(&output.JsonArrayConfig{Name: "o", Input: "in",
			Limit:      output.JsonArrayLimitConfig{Default: cf.def, Max: cf.max, Parameter: cf.lim},
			Offset:     output.JsonArrayOffsetConfig{Parameter: cf.off},
			Parameters: params{"g": param("g", ix, "")},
		})
		limName, offName := cf.lim, cf.off
		if limName == "" {
			limName = "limit"
		}
		if offName == "" {
			offName = "offset"
		}
		for _, l := range limits {
			for _, of := range offsets {
				for _, g := range []string{"", "0", "1", "2"} {
					req := map[string]string{}
					lim, off, bad := cf.effective[0], 0, false
					if l == "<empty>" {
						req[limName] = ""
						bad = true
					} else if l != "" {
						req[limName] = l
						v, err := strconv.Atoi(l)
						bad = bad || err != nil || v <= 0
						lim = v
					}
					if lim > cf.effective[1] {
						lim = cf.effective[1]
					}
					if of == "<empty>" {
						req[offName] = ""
						bad = true
					} else if of != "" {
						req[offName] = of
						v, err := strconv.Atoi(of)
						bad = bad || err != nil || v < 0
						off = v
					}
					f := map[string]interface{}{}
					if g != "" {
						req["g"] = g
						f["g"] = g
					}
					what := fmt.Sprintf("%d records, limit %+v, %s, request %v", n, cf, kind, req)
					rep := Ask(o, req)
					c.Step(1)
					c.State(n, ci, req)
					if bad {
						c.Outcome("refused")
						if err := checkStatus("paging-bad", rep, 500, what); err != nil {
							return err
						}
						continue
					}
					all := refArray(m, f, exactMatch)
					from := min(off, len(all))
					to := len(all)
					if lim < to-from {
						to = from + lim
					}
					c.Outcome(fmt.Sprintf("page%d", min(to-from, 6)))
					if err := checkOk("paging", rep, all[from:to], what); err != nil {
						return err
					}
				}
			}
		}
		c.Trace()
		return nil
	}
	for ci, cf := range confs {
		for _, kind := range kinds {
			c.ParallelN(8, len(sizes), func(i int) {
				c.Case(fmt.Sprintf("paging size=%d conf=%d kind=%s", sizes[i], ci, kind), func() error {
					return one(sizes[i], ci, cf, kind, limits, offsets)
				})
			})
		}
		c.ParallelN(8, len(big), func(i int) {
			c.Case(fmt.Sprintf("paging size=%d conf=%d", big[i], ci), func() error {
				return one(big[i], ci, cf, "default", []string{"", "1", "99", "100", "101", "999", "1000", "1001", "5000"}, []string{"", "1", "998", "1000", "1001"})
			})
		})
	}
	// Walking the pages gives every matching record exactly once, in order.
	for n := 0; n <= c.Pick(9, 14); n++ {
		for lim := 1; lim <= n+1; lim++ {
			for _, kind := range kinds {
				for _, g := range []string{"", "0", "1"} {
					c.Case(fmt.Sprintf("walk size=%d limit=%d kind=%s g=%s", n, lim, kind, g), func() error {
						m := newMem("in", rowsOf(n))
						w := newWorld(m)
						defer w.close()
						ix := "default"
						if kind != "default" {
							w.addKind(kind, "ix", "in", "g")
							ix = "ix"
						}
						o := w.mustOutput(&output.JsonArrayConfig{Name: "o", Input: "in", Parameters: params{"g": param("g", ix, "")}})
						f := map[string]interface{}{}
						if g != "" {
							f["g"] = g
						}
						all := refArray(m, f, exactMatch)
						for off := 0; off <= len(all); off += lim {
							req := map[string]string{"limit": fmt.Sprint(lim), "offset": fmt.Sprint(off)}
							if g != "" {
								req["g"] = g
							}
							to := min(off+lim, len(all))
							if err := checkOk("walk", Ask(o, req), all[off:to], fmt.Sprintf("%d records, %v", n, req)); err != nil {
								return err
							}
							c.Step(1)
						}
						c.Trace()
						return nil
					})
				}
			}
		}
	}
	for _, cf := range []output.JsonArrayLimitConfig{{Default: 4, Max: 3}, {Default: 2000}} {
		c.Case(fmt.Sprintf("inconsistent limit %+v is refused", cf), func() error {
			w := newWorld(newMem("in", nil))
			if _, err := w.output(&output.JsonArrayConfig{Name: "o", Input: "in", Limit: cf}); err == nil {
				return violf("paging:config-accepted", "%+v accepted", cf)
			}
			return nil
		})
	}
	_ = index.Close
}

// collidingRequests: requests whose parameters differ, but not once they are
// written one after the other with some separators (whatever the output may keep
// between the requests, each one gets its own answer).
func collidingRequests(c *Ctx, object bool) {
	seps := []string{"", "&", "=", "/", ",", ":", ";", " ", "|", "_", "-", "\x00", "\n", "\t", ".", "\"", "+", "%26", "\x1f"}
	for _, kind := range []string{"default", "map", "sqlite"} {
		kind := kind
		c.ParallelN(8, len(seps), func(first int) {
			c.Case(fmt.Sprintf("colliding requests object=%v kind=%s separator=%q", object, kind, seps[first]), func() error {
				for _, sep := range seps {
					s1, s2 := seps[first], sep
					values := [][2]string{
						{"x", "y" + s1 + "b" + s2 + "z"}, {"x" + s1 + "b" + s2 + "y", "z"},
						{"x", "y" + s1 + "z"}, {"x" + s1 + "y", "z"},
						{"x" + s1, s2 + "z"}, {"x", s1 + s2 + "z"}, {"x" + s1 + s2, "z"},
						{"X", "z"}, {"x", "z"}, {"z", "x"}, {"x ", "z"}, {"x", ""}, {"", "x"},
					}
					rows := []map[string]interface{}{}
					for i, v := range values {
						rows = append(rows, map[string]interface{}{"a": v[0], "b": v[1], "id": int64(i)})
					}
					w := newWorld(newMem("in", rows))
					name := "default"
					if kind != "default" {
						w.addKind(kind, "ix", "in", "a", "b")
						name = "ix"
					}
					ps := params{"a": param("a", name, "string"), "b": param("b", name, "string")}
					var o output.Output
					if object {
						o = w.mustOutput(&output.JsonObjectConfig{Name: "o", Input: "in", Parameters: ps})
					} else {
						o = w.mustOutput(&output.JsonArrayConfig{Name: "o", Input: "in", Parameters: ps})
					}
					ask := func(a, b string) error {
						found := []interface{}{}
						for _, r := range rows {
							if r["a"] == a && r["b"] == b {
								found = append(found, r)
							}
						}
						rep := Ask(o, map[string]string{"a": a, "b": b})
						c.Step(1)
						what := fmt.Sprintf("a=%q b=%q through %s, after other requests", a, b, kind)
						if !object {
							return checkOk("colliding", rep, found, what)
						}
						if len(found) == 0 {
							return checkStatus("colliding", rep, 404, what)
						}
						return checkOk("colliding", rep, found[0], what)
					}
					err := func() error {
						for round := 0; round < 2; round++ {
							for i := range values {
								if err := ask(values[i][0], values[i][1]); err != nil {
									return err
								}
								if err := ask(values[i][1], values[i][0]); err != nil {
									return err
								}
							}
						}
						return nil
					}()
					w.close()
					if err != nil {
						return err
					}
					c.State("colliding", object, kind, s1, s2)
				}
				return nil
			})
		})
	}
}
