package main

// C06: sorting returns a sorted permutation; Compare is a total order.

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/parser"
)

type plainRecord struct {
	values map[string]interface{}
	pos    int64
}

func (r *plainRecord) All() (map[string]interface{}, error) { return r.values, nil }
func (r *plainRecord) Get(path string) (interface{}, error) {
	return record.GetSubValue(r.values, strings.Split(path, "."))
}
func (r *plainRecord) Position() int64 { return r.pos }

// refCompare: -1, 0, 1; ok=false for incomparable kinds.
func refCompare(a, b interface{}) (int, bool) {
	switch x := a.(type) {
	case string:
		y, ok := b.(string)
		return strings.Compare(x, y), ok
	case int64:
		y, ok := b.(int64)
		return cmp3(x < y, x > y), ok
	case float64:
		y, ok := b.(float64)
		// Not a number comes first.
		return cmp3(x < y || math.IsNaN(x) && !math.IsNaN(y), x > y || !math.IsNaN(x) && math.IsNaN(y)), ok
	case bool:
		y, ok := b.(bool)
		return cmp3(!x && y, x && !y), ok
	}
	return 0, false
}

func cmp3(lt, gt bool) int {
	if lt {
		return -1
	}
	if gt {
		return 1
	}
	return 0
}

func init() {
	register("C06", "model_checking",
		"Every list up to the length bound over small value domains of each type, with nulls and mixed types, and longer patterned lists, is sorted under every one- and two-key ascending/descending configuration by the real sorter, and every pair of values of all kinds goes through the real comparison; results are compared with a reference order. A state is one distinct sorted result; a transition is one sort or comparison.",
		runC06)
}

func runC06(c *Ctx) {
	log, _ := newLogger()
	vals := []interface{}{"", "a", "B", "ab", "é", "10", "9", int64(-5), int64(0), int64(9), int64(10), int64(1) << 62,
		int64(1)<<53 - 1, int64(1) << 53, int64(1)<<53 + 1, -int64(1)<<53 - 1, -int64(1) << 53, int64(math.MaxInt64), int64(math.MaxInt64) - 1, int64(math.MinInt64), int64(math.MinInt64) + 1, int64(1)<<31 - 1, int64(1) << 31, int64(1)<<32 + 1,
		-1.5, 0.0, math.Copysign(0, -1), 0.25, 1.0, 1 + 0x1p-52, 5e-324, 1e300, -1e300, math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN(), float64(1 << 53), 9007199254740994.0,
		"aa", "a\x00", "b", "Z", "z", "\xff", "e\u0301", "\U0001F600", "\uFFFD", strings.Repeat("a", 40), strings.Repeat("a", 39) + "b", true, false, nil, []interface{}{"a"}, map[string]interface{}{}}
	for _, a := range vals {
		for _, b := range vals {
			c.Case(fmt.Sprintf("compare %s %s", show(a), show(b)), func() error {
				c.Step(1)
				got, err := parser.Compare(a, b)
				want, ok := refCompare(a, b)
				if ok != (err == nil) {
					return violf("compare-status", "Compare(%s,%s): error %v, expected comparable=%v", show(a), show(b), err, ok)
				}
				if !ok {
					c.Outcome("incomparable")
					return nil
				}
				g := 0
				if got != nil && *got {
					g = -1
				} else if got != nil {
					g = 1
				}
				c.Outcome(fmt.Sprintf("compare%d", g))
				if g != want {
					return violf("compare-value", "Compare(%s,%s): expected %d got %d", show(a), show(b), want, g)
				}
				return nil
			})
		}
	}
	domains := [][]interface{}{
		{"", "a", "B", "ab"},
		{int64(-5), int64(9), int64(10), int64(0)},
		{int64(1) << 53, int64(1)<<53 + 1, int64(math.MaxInt64), int64(math.MinInt64)},
		{-1.5, 0.0, 0.25, 10.0},
		{math.Inf(-1), 1.0, 1 + 0x1p-52, math.Inf(1)},
		{true, false},
	}
	asc := []*bool{nil, ptr(true), ptr(false)}
	maxLen := c.Pick(6, 7)
	for di, d := range domains {
		ts := tuples(len(d), maxLen)
		c.Parallel((len(ts)+99)/100, func(chunk int) {
			c.Case(fmt.Sprintf("sort domain=%d chunk=%d length<=%d", di, chunk, maxLen), func() error {
				for _, t := range ts[chunk*100 : min(len(ts), chunk*100+100)] {
					for ai, a := range asc {
						rs := []map[string]interface{}{}
						for _, k := range t {
							rs = append(rs, map[string]interface{}{"k": d[k]})
						}
						if err := sortCase(c, rs, []*record.SortConfig{{Property: "k", Ascending: a, Logger: log.WithField("o", 1)}}, fmt.Sprintf("domain %d tuple %v asc %d", di, t, ai)); err != nil {
							return err
						}
					}
				}
				c.Trace()
				return nil
			})
		})
	}
	// Nulls and mixed types: the result does not depend on the arrangement.
	mixed := [][]interface{}{
		{nil, int64(1), int64(2), int64(3)},
		{nil, "a", "b", ""},
		{nil, 0.5, -0.5, 7.0},
		{nil, math.NaN(), -1.0, 2.0, math.Inf(-1)},
		{nil, false, true},
		{nil, "1", int64(1), 1.5, true, "0", int64(0), -3.0, false},
	}
	for di, d := range mixed {
		maxLen := c.Pick(6, 7)
		if len(d) > 5 {
			maxLen = c.Pick(4, 5)
		}
		ts := tuples(len(d), maxLen)
		byBag := map[string][][]int{}
		bags := []string{}
		for _, t := range ts {
			bag := append([]int{}, t...)
			sort.Ints(bag)
			k := fmt.Sprint(bag)
			if byBag[k] == nil {
				bags = append(bags, k)
			}
			byBag[k] = append(byBag[k], t)
		}
		c.Parallel(len(bags), func(bi int) {
			c.Case(fmt.Sprintf("sort mixed domain=%d values=%s", di, bags[bi]), func() error {
				for ai, a := range asc {
					first := ""
					for ti, t := range byBag[bags[bi]] {
						rs := []map[string]interface{}{}
						for _, k := range t {
							rs = append(rs, map[string]interface{}{"k": d[k]})
						}
						desc, err := sortDesc(c, rs, []*record.SortConfig{{Property: "k", Ascending: a, Logger: log.WithField("o", 1)}}, fmt.Sprintf("mixed domain %d tuple %v asc %d", di, t, ai))
						if err != nil {
							return err
						}
						if ti == 0 {
							first = desc
						} else if desc != first {
							return violf("sort-arrangement", "mixed domain %d tuple %v asc %d: sorted as %s, another arrangement of the same values as %s", di, t, ai, desc, first)
						}
					}
				}
				c.Trace()
				return nil
			})
		})
	}
	// Longer lists, beyond the insertion sort: every arrangement of two
	// values, and every short pattern repeated.
	long := [][]int{}
	for n := 11; n <= c.Pick(13, 15); n++ {
		for m := 0; m < 1<<n; m++ {
			t := make([]int, n)
			for i := range t {
				t[i] = m >> i & 1
			}
			long = append(long, t)
		}
	}
	for _, p := range tuples(4, c.Pick(4, 5))[1:] {
		for _, n := range []int{12, 13, 24, 25, 50, 51, 130} {
			t := make([]int, n)
			for i := range t {
				t[i] = p[i%len(p)]
			}
			long = append(long, t)
		}
	}
	c.Parallel((len(long)+99)/100, func(chunk int) {
		c.Case(fmt.Sprintf("sort long chunk=%d", chunk), func() error {
			for _, t := range long[chunk*100 : min(len(long), chunk*100+100)] {
				for _, d := range [][]interface{}{{"b", "a", "c", "ab"}, {nil, int64(4), int64(3), int64(9)}} {
					for _, a := range asc {
						rs := []map[string]interface{}{}
						for i, k := range t {
							rs = append(rs, map[string]interface{}{"k": d[k], "i": int64(i)})
						}
						if err := sortCase(c, rs, []*record.SortConfig{{Property: "k", Ascending: a, Logger: log.WithField("o", 1)}}, fmt.Sprintf("long tuple %v", t)); err != nil {
							return err
						}
					}
				}
			}
			c.Trace()
			return nil
		})
	})
	// Two keys of different types, one of them nested.
	pairs := []map[string]interface{}{}
	for _, x := range []interface{}{"a", "b"} {
		for _, y := range []interface{}{int64(1), int64(2), int64(10)} {
			pairs = append(pairs, map[string]interface{}{"k": x, "o": map[string]interface{}{"n": []interface{}{y}}})
		}
	}
	ts := tuples(len(pairs), c.Pick(4, 5))
	c.Parallel((len(ts)+99)/100, func(chunk int) {
		c.Case(fmt.Sprintf("sort two keys chunk=%d", chunk), func() error {
			for _, t := range ts[chunk*100 : min(len(ts), chunk*100+100)] {
				for _, a := range asc {
					for _, b := range asc {
						for _, order := range []bool{false, true} {
							rs := []map[string]interface{}{}
							for _, k := range t {
								rs = append(rs, pairs[k])
							}
							cfg := []*record.SortConfig{
								{Property: "k", Ascending: a, Logger: log.WithField("o", 1)},
								{Property: "o.n.0", Ascending: b, Logger: log.WithField("o", 1)},
							}
							if order {
								cfg[0], cfg[1] = cfg[1], cfg[0]
							}
							if err := sortCase(c, rs, cfg, fmt.Sprintf("two keys tuple %v", t)); err != nil {
								return err
							}
						}
					}
				}
			}
			c.Trace()
			return nil
		})
	})
}

func ptr[T any](v T) *T { return &v }

func sortCase(c *Ctx, rs []map[string]interface{}, cfg []*record.SortConfig, what string) error {
	_, err := sortDesc(c, rs, cfg, what)
	return err
}

// sortDesc sorts, checks the order, and gives the arrangement obtained.
func sortDesc(c *Ctx, rs []map[string]interface{}, cfg []*record.SortConfig, what string) (string, error) {
	list := record.List{}
	for i, v := range rs {
		list = append(list, &plainRecord{v, int64(i)})
	}
	out := list.Sort(cfg)
	c.Step(1)
	if len(out) != len(rs) {
		return "", violf("sort-length", "%s: %d records in, %d out", what, len(rs), len(out))
	}
	seen := map[int64]bool{}
	desc := []string{}
	for i, r := range out {
		if r == nil || seen[r.Position()] {
			return "", violf("sort-not-permutation", "%s: record duplicated or lost", what)
		}
		seen[r.Position()] = true
		all, _ := r.All()
		desc = append(desc, show(all))
		// Ordered with respect to every record before it.
		for before := 0; before < i; before++ {
			for _, s := range cfg {
				a, err1 := out[before].Get(s.Property)
				b, err2 := r.Get(s.Property)
				if err1 != nil || err2 != nil {
					return "", violf("harness", "%v %v", err1, err2)
				}
				k, ok := refCompare(a, b)
				if !ok && show(a) != show(b) {
					break // different types
				}
				if s.Ascending != nil && !*s.Ascending {
					k = -k
				}
				if k < 0 {
					break
				}
				if k > 0 {
					return "", violf("sort-order", "%s: %v is out of order at %d and %d", what, desc, before, i)
				}
			}
		}
	}
	c.State(desc)
	c.Outcome(fmt.Sprintf("sorted%d", len(rs)))
	return strings.Join(desc, " "), nil
}
