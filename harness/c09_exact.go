package main

// C09: the map and noop indexes find exactly the records equal to the filter.

import (
	"fmt"
	"math"
	"strings"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input/record"
)

func init() {
	register("C09", "model_checking",
		"Every dataset of up to 4 records (1 property; up to 3 records with 2 properties) over an alphabet of typed values is indexed by the real map and noop indexes; every single and double filter over the alphabet is evaluated and compared with the reference equality, every pair of queries is also advanced in an interleaved way, and arrays, unknown properties and foreign inputs are enumerated. A state is one (dataset, filter); a transition is one query.",
		runC09)
	register("C10", "model_checking",
		"Every dataset of up to 3 records (1 property) or 2 records (2 properties) over one value type per column is indexed by the real sqlite index under every collation; every filter is evaluated and compared with the reference semantics of the collation; queries are left unfinished, interleaved and repeated beyond the connection pool size. A state is one (dataset, collation, filter); a transition is one query.",
		runC10)
}

var exactValues = []interface{}{"", "a", "A", "a ", "1", int64(0), int64(1), float64(1), true, nil}

// Values that only differ by what a careless comparison would lose.
var extremeValues = []interface{}{"\x00", "\x00\x00", "é", "e\u0301", "\xff", strings.Repeat("x", 5000), strings.Repeat("x", 5001),
	int64(math.MaxInt64), int64(math.MaxInt64 - 1), int64(math.MinInt64), int64(1<<53 + 1), int64(1 << 53), float64(1 << 53), float64(1<<53 + 2),
	math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), 0.30000000000000004, 0.3, false, "false", "0"}

func exactMatch(_ string, value, filter interface{}) bool {
	return fmt.Sprintf("%T:%v", value, value) == fmt.Sprintf("%T:%v", filter, filter)
}

type namedIndex struct {
	name string
	ix   index.Index
}

func exactIndexes(m *memInput, props []string) []namedIndex {
	mi, err := index.NewMap(&index.MapConfig{Name: "m", Input: m.name, Properties: props, Logger: quietEntry()}, m.list())
	if err != nil {
		panic(violf("map:build", "map index refused %v: %v", showRows(m), err))
	}
	return []namedIndex{{"map", mi}, {"noop", index.NewNoop(&index.NoopConfig{Name: "n", Logger: quietEntry()}, m.list())}}
}

func showRows(m *memInput) string {
	rows := []interface{}{}
	for _, r := range m.recs {
		rows = append(rows, map[string]interface{}(r.props))
	}
	return show(rows)
}

func runC09(c *Ctx) {
	for k, name := range []string{"map", "noop"} {
		scaleIndex(c, name, []int{100001, c.Pick(2049, 10001)}[k], func(m *memInput, dir string) (index.Index, error) {
			return exactIndexes(m, []string{"p", "q"})[k].ix, nil
		}, scaleEqual, exactMatch)
	}
	type grid struct {
		props   []string
		records int
		values  []interface{}
	}
	small := []interface{}{"", "a", int64(1), nil}
	grids := []grid{
		{[]string{"p"}, 0, exactValues}, {[]string{"p"}, 1, exactValues}, {[]string{"p"}, 2, exactValues},
		{[]string{"p"}, 3, exactValues}, {[]string{"p", "q"}, 1, exactValues}, {[]string{"p", "q"}, 2, small}, {[]string{"p", "q"}, 3, small},
		{[]string{"p"}, 5, small},
		{[]string{"p"}, 2, extremeValues}, {[]string{"p", "q"}, 1, extremeValues},
	}
	if c.Thorough() {
		grids = append(grids, grid{[]string{"p"}, 4, exactValues}, grid{[]string{"p", "q"}, 2, exactValues}, grid{[]string{"p"}, 7, small})
	}
	for _, g := range grids {
		ts := fixedTuples(len(g.values), g.records*len(g.props))
		filters := filterSets(g.props, g.values)
		const chunk = 64
		c.ParallelN(8, (len(ts)+chunk-1)/chunk, func(ci int) {
			c.Case(fmt.Sprintf("exact props=%v records=%d values=%d chunk=%d", g.props, g.records, len(g.values), ci), func() error {
				for _, t := range ts[ci*chunk : min(len(ts), (ci+1)*chunk)] {
					m := newMem("in", rowsFrom(t, g.props, g.values))
					for _, ni := range exactIndexes(m, g.props) {
						for _, f := range filters {
							if err := exactQuery(c, m, ni, f, exactMatch); err != nil {
								return err
							}
						}
						if g.records <= 3 && len(filters) <= 16 {
							if err := interleavedQueries(c, m, ni, filters, exactMatch); err != nil {
								return err
							}
						}
					}
					if m.opened != m.closed {
						return violf("iteration-left-open", "%s: %d iterations opened, %d closed", showRows(m), m.opened, m.closed)
					}
					c.Trace()
				}
				return nil
			})
		})
	}
	// Arrays: a record is found once by each of its values, in order.
	arr := []interface{}{"a", "b", int64(1), nil,
		[]interface{}{}, []interface{}{"a"}, []interface{}{"a", "b"}, []interface{}{"b", "a", "b"}, []interface{}{"a", "a"}, []interface{}{int64(1), "a", nil}, []interface{}{[]interface{}{"b"}, "a"}, []interface{}{[]interface{}{"b"}, "b"}, []interface{}{[]interface{}{"a", nil}, []interface{}{[]interface{}{nil}, "b"}, "a"}}
	var flat func(v interface{}) []interface{}
	flat = func(v interface{}) []interface{} {
		if a, ok := v.([]interface{}); ok {
			out := []interface{}{}
			for _, x := range a {
				out = append(out, flat(x)...)
			}
			return out
		}
		return []interface{}{v}
	}
	ts := fixedTuples(len(arr), 3)
	c.ParallelN(8, len(arr)*len(arr), func(ci int) {
		c.Case(fmt.Sprintf("map arrays chunk=%d", ci), func() error {
			for _, t := range ts[ci*len(arr) : (ci+1)*len(arr)] {
				m := newMem("in", rowsFrom(t, []string{"p"}, arr))
				ni := exactIndexes(m, []string{"p"})[0]
				for _, f := range []interface{}{"a", "b", int64(1), nil, "c"} {
					err := exactQuery(c, m, ni, map[string]interface{}{"p": f}, func(p string, v, f interface{}) bool {
						for _, x := range flat(v) {
							if exactMatch(p, x, f) {
								return true
							}
						}
						return false
					})
					if err != nil {
						return err
					}
				}
			}
			return nil
		})
	})
	// Values a filter cannot be compared with must never match nor crash.
	odd := []interface{}{[]interface{}{"a"}, []interface{}{}, map[string]interface{}{"a": "b"}, map[string]interface{}{}}
	for vi, v := range append(append([]interface{}{}, odd...), "a", nil) {
		for fi, f := range odd {
			c.Case(fmt.Sprintf("odd value=%d filter=%d", vi, fi), func() error {
				m := newMem("in", []map[string]interface{}{{"p": "a"}, {"p": v}})
				for _, kind := range []string{"map", "noop"} {
					var ix index.Index
					var err error
					if kind == "map" {
						ix, err = index.NewMap(&index.MapConfig{Name: "m", Input: "in", Properties: []string{"p"}, Logger: quietEntry()}, m.list())
						if err != nil {
							continue // objects may be refused
						}
					} else {
						ix = index.NewNoop(&index.NoopConfig{Name: "n", Logger: quietEntry()}, m.list())
					}
					got, err := positionsOf(ix, m, map[string]interface{}{"p": f}, 10)
					for _, g := range got {
						if g == m.recs[0].pos || show(v) != show(f) {
							return violf(kind+":odd-match", "value %s matched filter %s (%v)", show(v), show(f), err)
						}
					}
				}
				return nil
			})
		}
	}
	c.Case("refusals", func() error {
		m := newMem("in", []map[string]interface{}{{"p": "a", "q": "b"}})
		other := newMem("other", []map[string]interface{}{{"p": "a", "q": "b"}})
		ix := exactIndexes(m, []string{"p"})[0].ix
		for what, f := range map[string]map[string]interface{}{"unknown property": {"q": "b"}, "one known one unknown": {"p": "a", "q": "b"}, "no filter": {}} {
			if got, err := positionsOf(ix, m, f, 10); err == nil {
				return violf("map:not-refused", "%s: %v gave %v and no error", what, f, got)
			}
		}
		if got, err := positionsOf(ix, other, map[string]interface{}{"p": "a"}, 10); err == nil {
			return violf("map:not-refused", "foreign input gave %v and no error", got)
		}
		return nil
	})
}

func exactQuery(c *Ctx, m *memInput, ni namedIndex, f map[string]interface{}, match func(string, interface{}, interface{}) bool) error {
	want := wantPositions(m, f, match)
	got, err := positionsOf(ni.ix, m, f, len(m.recs)+1)
	c.Step(1)
	if err != nil {
		return violf(ni.name+":error", "%s filter %s: %v", showRows(m), show(f), err)
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return violf(ni.name+":wrong", "%s filter %s: expected positions %v, got %v", showRows(m), show(f), want, got)
	}
	c.State(ni.name, showRows(m), show(f))
	c.Outcome(fmt.Sprintf("%s:%d", ni.name, min(len(want), 3)))
	return nil
}

// interleavedQueries opens every ordered pair of queries and advances them in
// turns: neither may disturb the other.
func interleavedQueries(c *Ctx, m *memInput, ni namedIndex, filters []map[string]interface{}, match func(string, interface{}, interface{}) bool) error {
	for _, f := range filters {
		for _, g := range filters {
			its := [2]record.PositionIterator{}
			var err error
			if its[0], err = ni.ix.GetRecordPositions(m, f); err != nil {
				return violf(ni.name+":error", "%v", err)
			}
			if its[1], err = ni.ix.GetRecordPositions(m, g); err != nil {
				return violf(ni.name+":error", "%v", err)
			}
			got := [2][]int64{{}, {}}
			for turn := 0; turn < 2*(len(m.recs)+2); turn++ {
				p, err := its[turn%2]()
				if err != nil {
					return violf(ni.name+":error", "%v", err)
				}
				if p != nil {
					got[turn%2] = append(got[turn%2], *p)
				}
			}
			want := [2][]int64{wantPositions(m, f, match), wantPositions(m, g, match)}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return violf(ni.name+":interleaved", "%s: filters %s and %s advanced in turns: expected %v, got %v", showRows(m), show(f), show(g), want, got)
			}
			c.Step(1)
		}
	}
	return nil
}
