package main

import (
	"fmt"
	"math"
	"path/filepath"
	"strings"

	"github.com/rodb-io/rodb/pkg/index"
)

func asciiLower(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'A' && r <= 'Z' {
			return r + 32
		}
		return r
	}, s)
}

// collateMatch is equality under a sqlite collation.
func collateMatch(collate map[string]string) func(string, interface{}, interface{}) bool {
	return func(p string, value, filter interface{}) bool {
		a, okA := value.(string)
		b, okB := filter.(string)
		if okA && okB {
			switch strings.ToLower(collate[p]) {
			case "nocase":
				return asciiLower(a) == asciiLower(b)
			case "rtrim":
				return strings.TrimRight(a, " ") == strings.TrimRight(b, " ")
			}
			return a == b
		}
		return exactMatch(p, value, filter)
	}
}

func newSqliteIndex(m *memInput, name, dsn string, props []string, collate map[string]string) (index.Index, error) {
	cfg := &index.SqliteConfig{Name: name, Type: "sqlite", Dsn: dsn, Input: m.name}
	for _, p := range props {
		cfg.Properties = append(cfg.Properties, &index.SqlitePropertyConfig{Name: p, Collate: collate[p]})
	}
	if err := cfg.Validate(m.configs(), quietEntry()); err != nil {
		return nil, err
	}
	return index.NewSqlite(cfg, m.list())
}

func runC10(c *Ctx) {
	scaleIndex(c, "sqlite", 65537, func(m *memInput, dir string) (index.Index, error) {
		return newSqliteIndex(m, "ix", ":memory:", []string{"p", "q"}, map[string]string{"p": "binary", "q": "nocase"})
	}, scaleEqual, exactMatch)
	strs := []interface{}{"", "a", "A", "a ", " a", "1", "É", "é", nil}
	ints := []interface{}{int64(0), int64(1), int64(-1), int64(1) << 60, int64(1)<<60 + 1, nil}
	floats := []interface{}{0.5, -1.25, 1e300, 2.0, nil}
	bools := []interface{}{true, false, nil}
	type grid struct {
		name    string
		props   []string
		records int
		values  []interface{}
		collate []map[string]string
	}
	one := []string{"p"}
	two := []string{"p", "q"}
	allC := []map[string]string{{}, {"p": "binary"}, {"p": "nocase"}, {"p": "rtrim"}, {"p": "NoCase"}}
	mixed := []map[string]string{{"p": "binary", "q": "nocase"}, {"p": "rtrim", "q": "binary"}, {"p": "nocase", "q": "rtrim"}}
	grids := []grid{
		{"str", one, 0, strs, allC}, {"str", one, 1, strs, allC}, {"str", one, 2, strs, allC},
		{"int", one, 3, ints, allC[:1]}, {"float", one, 3, floats, allC[:1]}, {"bool", one, 3, bools, allC[:1]},
		{"bytes", one, 2, []interface{}{"a", "a\x00", "a\x00b", "\x00", "a\xff", "\xff", "\xfe", "e\u0301", "é", "\U0001F600", "\uFFFD", strings.Repeat("a", 3000), strings.Repeat("a", 3000) + "b", "x'61'", "a'--", "a%", "NULL"}, allC[:2]},
		{"extreme", one, 2, []interface{}{math.Inf(1), math.Inf(-1), 5e-324, math.MaxFloat64, 9007199254740994.0, 0.1, 1e15 + 0.5, nil}, allC[:1]},
		{"extreme-int", one, 2, []interface{}{int64(math.MaxInt64), int64(math.MaxInt64) - 1, int64(math.MinInt64), int64(1) << 53, int64(1)<<53 + 1, int64(1)<<31 - 1, int64(1) << 31, int64(255), int64(256)}, allC[:1]},
		{"str2", two, 2, []interface{}{"a", "A ", "a ", nil}, mixed},
		{"str", one, 3, []interface{}{"a", "A", "a ", nil}, allC},
	}
	if c.Thorough() {
		grids = append(grids, grid{"str", one, 3, strs, allC}, grid{"str2", two, 2, strs, mixed[:2]}, grid{"int", one, 4, ints, allC[:1]},
			grid{"str2", two, 3, []interface{}{"a", "A ", nil}, mixed})
	}
	for _, g := range grids {
		ts := fixedTuples(len(g.values), g.records*len(g.props))
		filters := filterSets(g.props, g.values)
		const chunk = 16
		for coi, collate := range g.collate {
			c.ParallelN(8, (len(ts)+chunk-1)/chunk, func(ci int) {
				c.Case(fmt.Sprintf("sqlite %s props=%v records=%d values=%d collate=%d chunk=%d", g.name, g.props, g.records, len(g.values), coi, ci), func() error {
					for _, t := range ts[ci*chunk : min(len(ts), (ci+1)*chunk)] {
						m := newMem("in", rowsFrom(t, g.props, g.values))
						ix, err := newSqliteIndex(m, "ix", ":memory:", g.props, collate)
						if err != nil {
							return violf("sqlite:build", "%s collate %v: %v", showRows(m), collate, err)
						}
						ni := namedIndex{"sqlite", ix}
						match := collateMatch(collate)
						for _, f := range filters {
							if err := exactQuery(c, m, ni, f, match); err != nil {
								ix.Close()
								return err
							}
						}
						if len(filters) <= 6 {
							if err := interleavedQueries(c, m, ni, filters, match); err != nil {
								ix.Close()
								return err
							}
						}
						if err := ix.Close(); err != nil {
							return violf("sqlite:close", "%v", err)
						}
						if m.opened != m.closed {
							return violf("iteration-left-open", "%d opened, %d closed", m.opened, m.closed)
						}
						c.Trace()
					}
					return nil
				})
			})
		}
	}
	// Property and index names are data: any text works, and several indexes in
	// one database do not disturb each other.
	names := []string{"p", "p q", `p"q`, "p'q", "select", "a.b", "É", "0", "%w", "offset", "p]", "-"}
	for i, a := range names {
		for j, b := range names {
			if a == b {
				continue
			}
			c.Case(fmt.Sprintf("sqlite names %d,%d", i, j), func() error {
				dir, clean := c.Dir()
				defer clean()
				dsn := filepath.Join(dir, "db.sqlite")
				rows := []map[string]interface{}{{a: "x", b: "y"}, {a: "y", b: "x"}, {a: "x", b: "x"}, {a: a, b: b}}
				m := newMem("in", rows)
				ixs := []index.Index{}
				defer func() {
					for _, ix := range ixs {
						ix.Close()
					}
				}()
				for _, name := range []string{"i1", a} {
					ix, err := newSqliteIndex(m, name, dsn, []string{a, b}, nil)
					if err != nil {
						return violf("sqlite:names-build", "index %q properties %q,%q: %v", name, a, b, err)
					}
					ixs = append(ixs, ix)
				}
				for _, ix := range ixs {
					for _, f := range filterSets([]string{a, b}, []interface{}{"x", "y", "z", a, b}) {
						if err := exactQuery(c, m, namedIndex{"sqlite-names", ix}, f, exactMatch); err != nil {
							return err
						}
					}
				}
				c.Trace()
				return nil
			})
		}
	}
	// Queries abandoned half-way, again and again, never block the next one.
	for _, dsn := range []string{":memory:", "file"} {
		c.Case("sqlite abandoned queries dsn="+dsn, func() error {
			dir, clean := c.Dir()
			defer clean()
			d := dsn
			if d == "file" {
				d = filepath.Join(dir, "db.sqlite")
			}
			rows := []map[string]interface{}{}
			for i := 0; i < 40; i++ {
				rows = append(rows, map[string]interface{}{"p": fmt.Sprint(i % 2)})
			}
			m := newMem("in", rows)
			ix, err := newSqliteIndex(m, "ix", d, one, nil)
			if err != nil {
				return violf("sqlite:build", "%v", err)
			}
			defer ix.Close()
			done := make(chan error, 1)
			go func() {
				done <- guarded(func() error {
					for i := 0; i < 60; i++ {
						it, err := ix.GetRecordPositions(m, map[string]interface{}{"p": "1"})
						if err != nil {
							return violf("sqlite:abandoned-error", "query %d: %v", i, err)
						}
						for k := 0; k < i%4; k++ {
							if p, err := it(); err != nil || p == nil {
								return violf("sqlite:abandoned-error", "query %d: %v %v", i, p, err)
							}
						}
						if err := exactQuery(c, m, namedIndex{"sqlite", ix}, map[string]interface{}{"p": "0"}, exactMatch); err != nil {
							return err
						}
					}
					return nil
				})
			}()
			return waitFor(done, "sqlite:blocked", "a query after abandoned queries never answered")
		})
	}
	c.Case("sqlite refusals", func() error {
		m := newMem("in", []map[string]interface{}{{"p": "a", "q": "b"}})
		other := newMem("other", []map[string]interface{}{{"p": "a", "q": "b"}})
		ix, err := newSqliteIndex(m, "ix", ":memory:", one, nil)
		if err != nil {
			return violf("sqlite:build", "%v", err)
		}
		defer ix.Close()
		for what, f := range map[string]map[string]interface{}{"unknown property": {"q": "b"}, "one known one unknown": {"p": "a", "q": "b"}, "no filter": {}} {
			if got, err := positionsOf(ix, m, f, 10); err == nil {
				return violf("sqlite:not-refused", "%s: %v gave %v and no error", what, f, got)
			}
		}
		if got, err := positionsOf(ix, other, map[string]interface{}{"p": "a"}, 10); err == nil {
			return violf("sqlite:not-refused", "foreign input gave %v and no error", got)
		}
		return nil
	})
}
