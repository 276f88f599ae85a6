package main

// C11: the fts5 index answers full-text queries exactly.

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/rodb-io/rodb/pkg/index"
)

func init() {
	register("C11", "model_checking",
		"Every dataset of up to 3 documents (words from a small vocabulary, one or two columns, nulls) is indexed by the real fts5 index under several tokenizers and prefix settings; every query of a small grammar (word, prefix, phrase, AND, OR, NOT, column filter) is evaluated and compared with the reference evaluation of that query, and malformed queries must be errors. A state is one (dataset, configuration, query); a transition is one query.",
		runC11)
}

func newFts5(m *memInput, name, dsn string, props []string, tokenize string, prefix []int) (index.Index, error) {
	cfg := &index.Fts5Config{Name: name, Type: "fts5", Dsn: dsn, Input: m.name, Properties: props, Tokenize: tokenize, Prefix: prefix}
	if err := cfg.Validate(m.configs(), quietEntry()); err != nil {
		return nil, err
	}
	return index.NewFts5(cfg, m.list())
}

// ftsQuery is a query with its reference meaning over the columns' words.
type ftsQuery struct {
	text  string
	match func(cols map[string][]string) bool
}

func ftsPhrase(words []string, seq []string, prefix bool) bool {
	for i := 0; i+len(seq) <= len(words); i++ {
		ok := true
		for k, w := range seq {
			if prefix && k == len(seq)-1 {
				ok = ok && strings.HasPrefix(words[i+k], w)
			} else {
				ok = ok && words[i+k] == w
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func ftsQueries(props []string, vocab []string) []ftsQuery {
	anyCol := func(f func(words []string) bool) func(map[string][]string) bool {
		return func(cols map[string][]string) bool {
			for _, p := range props {
				if f(cols[p]) {
					return true
				}
			}
			return false
		}
	}
	atoms := []ftsQuery{}
	for _, w := range vocab {
		w := w
		atoms = append(atoms, ftsQuery{w, anyCol(func(ws []string) bool { return ftsPhrase(ws, []string{w}, false) })})
	}
	out := append([]ftsQuery{}, atoms...)
	for _, w := range append([]string{"a", "x"}, vocab...) {
		w := w
		out = append(out, ftsQuery{w + "*", anyCol(func(ws []string) bool { return ftsPhrase(ws, []string{w}, true) })})
	}
	for _, v := range vocab {
		for _, w := range vocab {
			v, w := v, w
			out = append(out, ftsQuery{`"` + v + " " + w + `"`, anyCol(func(ws []string) bool { return ftsPhrase(ws, []string{v, w}, false) })})
		}
	}
	for _, p := range props {
		for _, w := range vocab {
			p, w := p, w
			out = append(out, ftsQuery{p + " : " + w, func(cols map[string][]string) bool { return ftsPhrase(cols[p], []string{w}, false) }})
		}
	}
	for _, a := range atoms {
		for _, b := range atoms {
			a, b := a, b
			out = append(out,
				ftsQuery{a.text + " " + b.text, func(c map[string][]string) bool { return a.match(c) && b.match(c) }},
				ftsQuery{a.text + " AND " + b.text, func(c map[string][]string) bool { return a.match(c) && b.match(c) }},
				ftsQuery{a.text + " OR " + b.text, func(c map[string][]string) bool { return a.match(c) || b.match(c) }},
				ftsQuery{a.text + " NOT " + b.text, func(c map[string][]string) bool { return a.match(c) && !b.match(c) }},
			)
		}
	}
	return out
}

func runC11(c *Ctx) {
	scaleIndex(c, "fts5", 65537, func(m *memInput, dir string) (index.Index, error) {
		return newFts5(m, "ix", ":memory:", []string{"p", "q"}, "unicode61", nil)
	}, func(v string) map[string]interface{} { return map[string]interface{}{"match": v} }, exactMatch)
	one, two := []string{"p"}, []string{"p", "q"}
	vocab := []string{"ab", "ac", "b"}
	texts := func(max int) []interface{} {
		out := []interface{}{nil}
		for _, t := range tuples(len(vocab), max) {
			ws := []string{}
			for _, i := range t {
				ws = append(ws, vocab[i])
			}
			out = append(out, strings.Join(ws, " "))
		}
		return out
	}
	type grid struct {
		props   []string
		records int
		values  []interface{}
	}
	grids := []grid{{one, 0, texts(1)}, {one, 1, texts(3)}, {one, 2, texts(2)}, {two, 1, texts(2)}, {one, 3, texts(1)}}
	if c.Thorough() {
		grids = append(grids, grid{two, 2, texts(1)}, grid{one, 3, texts(2)}, grid{one, 2, texts(3)})
	}
	type conf struct {
		tokenize string
		prefix   []int
	}
	confs := []conf{{"", nil}, {"unicode61", []int{1}}, {"ascii", []int{1, 2}}, {"unicode61 remove_diacritics 0", []int{2, 3}}}
	run := func(m *memInput, props []string, cf conf, qs []ftsQuery, words func(v interface{}) []string) error {
		ix, err := newFts5(m, "f", ":memory:", props, cf.tokenize, cf.prefix)
		if err != nil {
			return violf("fts5:build", "%s: %v", showRows(m), err)
		}
		defer ix.Close()
		for _, q := range qs {
			want := []int64{}
			for _, r := range m.recs {
				cols := map[string][]string{}
				for _, p := range props {
					cols[p] = words(r.props[p])
				}
				if q.match(cols) {
					want = append(want, r.pos)
				}
			}
			got, err := positionsOf(ix, m, map[string]interface{}{"match": q.text}, len(m.recs)+1)
			c.Step(1)
			if err != nil {
				return violf("fts5:error", "%s query %q: %v", showRows(m), q.text, err)
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				return violf("fts5:wrong", "%s (%+v) query %q: expected %v, got %v", showRows(m), cf, q.text, want, got)
			}
			c.State(showRows(m), cf, q.text)
			c.Outcome(fmt.Sprintf("fts5:%d", len(want)))
		}
		if m.opened != m.closed {
			return violf("iteration-left-open", "%d opened, %d closed", m.opened, m.closed)
		}
		c.Trace()
		return nil
	}
	split := func(v interface{}) []string {
		if v == nil {
			return nil
		}
		return strings.Fields(v.(string))
	}
	for gi, g := range grids {
		ts := fixedTuples(len(g.values), g.records*len(g.props))
		qs := ftsQueries(g.props, vocab)
		for fi, cf := range confs {
			const chunk = 16
			c.ParallelN(8, (len(ts)+chunk-1)/chunk, func(ci int) {
				c.Case(fmt.Sprintf("fts5 grid=%d conf=%d chunk=%d", gi, fi, ci), func() error {
					for _, t := range ts[ci*chunk : min(len(ts), (ci+1)*chunk)] {
						if err := run(newMem("in", rowsFrom(t, g.props, g.values)), g.props, cf, qs, split); err != nil {
							return err
						}
					}
					return nil
				})
			})
		}
	}
	// Tokenizers: case, diacritics, porter stems, trigrams.
	texts2 := []string{"Hello World", "hello", "café", "cafe", "CAFÉ", "running runs", "run", "a-b c.d", "日本 語"}
	word := func(w ...string) ftsQuery { return ftsQuery{text: w[0]} }
	expect := []struct {
		tokenize string
		query    ftsQuery
		docs     []int
	}{
		{"unicode61", word("hello"), []int{0, 1}}, {"unicode61", word("HELLO"), []int{0, 1}},
		{"unicode61", word("cafe"), []int{2, 3, 4}}, {"unicode61", word("café"), []int{2, 3, 4}},
		{"unicode61 remove_diacritics 0", word("cafe"), []int{3}}, {"unicode61 remove_diacritics 0", word("café"), []int{2, 4}},
		{"ascii", word("hello"), []int{0, 1}}, {"ascii", word(`"café"`), []int{2}},
		{"unicode61", word("run"), []int{6}}, {"porter", word("run"), []int{5, 6}}, {"porter unicode61", word("runs"), []int{5, 6}},
		{"unicode61", word(`"a b"`), []int{7}}, {"unicode61", word("b"), []int{7}},
		{"trigram", word("ell"), []int{0, 1}}, {"trigram", word("orl"), []int{0}}, {"unicode61", word("ell"), []int{}},
		{"unicode61", word("日本"), []int{8}},
	}
	for i, e := range expect {
		c.Case(fmt.Sprintf("fts5 tokenizer %d", i), func() error {
			rows := []map[string]interface{}{}
			for _, t := range texts2 {
				rows = append(rows, map[string]interface{}{"p": t})
			}
			m := newMem("in", rows)
			ix, err := newFts5(m, "f", ":memory:", one, e.tokenize, nil)
			if err != nil {
				return violf("fts5:build", "tokenize %q: %v", e.tokenize, err)
			}
			defer ix.Close()
			want := []int64{}
			for _, d := range e.docs {
				want = append(want, m.recs[d].pos)
			}
			got, err := positionsOf(ix, m, map[string]interface{}{"match": e.query.text}, 20)
			if err != nil || fmt.Sprint(got) != fmt.Sprint(want) {
				return violf("fts5:tokenizer", "tokenize %q query %q: expected %v got %v (%v)", e.tokenize, e.query.text, want, got, err)
			}
			c.Step(1)
			return nil
		})
	}
	// A query fts5 cannot parse is an error, not an empty answer.
	bad := []string{`"`, `AND`, `a AND`, `(a`, `a)`, `nosuchcolumn : a`, `a OR OR b`, `NOT a`, `*`, `"a`, `a:`, `^`, `NEAR(`, ``}
	for i, q := range bad {
		for records := 0; records <= 2; records++ {
			c.Case(fmt.Sprintf("fts5 bad query %d records=%d", i, records), func() error {
				rows := []map[string]interface{}{{"p": "a b"}, {"p": "c"}}[:records]
				m := newMem("in", rows)
				ix, err := newFts5(m, "f", ":memory:", one, "", nil)
				if err != nil {
					return violf("fts5:build", "%v", err)
				}
				defer ix.Close()
				got, err := positionsOf(ix, m, map[string]interface{}{"match": q}, 20)
				c.Step(1)
				if len(got) > 0 {
					return violf("fts5:bad-query-answer", "query %q answered %v", q, got)
				}
				if err == nil && q != "" {
					return violf("fts5:bad-query-silent", "malformed query %q answered nothing and no error", q)
				}
				// The index is still usable.
				if records > 0 {
					got, err = positionsOf(ix, m, map[string]interface{}{"match": "a"}, 20)
					if err != nil || len(got) != 1 {
						return violf("fts5:after-bad-query", "after %q, query a: %v %v", q, got, err)
					}
				}
				c.Outcome("bad-query-error")
				return nil
			})
		}
	}
	for _, names := range [][]string{{"p", "q"}, {"p q", "r"}, {`p"q`, "r"}, {"a.b", "É"}, {"select", "0"}} {
		c.Case(fmt.Sprintf("fts5 names %q", names), func() error {
			dir, clean := c.Dir()
			defer clean()
			m := newMem("in", []map[string]interface{}{{names[0]: "a", names[1]: "b"}, {names[0]: "b", names[1]: "a"}, {names[0]: "c", names[1]: nil}})
			for _, name := range []string{"i", names[0], names[1]} {
				ix, err := newFts5(m, name, filepath.Join(dir, "db"), names, "", nil)
				if err != nil {
					return violf("fts5:names-build", "index %q properties %q: %v", name, names, err)
				}
				for q, want := range map[string]string{"a": "[3 10]", "c": "[17]", "d": "[]", `"` + strings.ReplaceAll(names[0], `"`, `""`) + `" : a`: "[3]", `"` + strings.ReplaceAll(names[1], `"`, `""`) + `" : a`: "[10]"} {
					got, err := positionsOf(ix, m, map[string]interface{}{"match": q}, 20)
					if err != nil || fmt.Sprint(got) != want {
						ix.Close()
						return violf("fts5:names", "properties %q query %q: expected %v got %v (%v)", names, q, want, got, err)
					}
				}
				ix.Close()
			}
			return nil
		})
	}
	c.Case("fts5 refusals", func() error {
		m := newMem("in", []map[string]interface{}{{"p": "a"}})
		other := newMem("other", []map[string]interface{}{{"p": "a"}})
		ix, err := newFts5(m, "f", ":memory:", one, "", nil)
		if err != nil {
			return violf("fts5:build", "%v", err)
		}
		defer ix.Close()
		for _, f := range []map[string]interface{}{{}, {"p": "a"}, {"match": "a", "p": "a"}} {
			if got, err := positionsOf(ix, m, f, 10); err == nil {
				return violf("fts5:not-refused", "filters %v gave %v and no error", f, got)
			}
		}
		if got, err := positionsOf(ix, other, map[string]interface{}{"match": "a"}, 10); err == nil {
			return violf("fts5:not-refused", "foreign input gave %v and no error", got)
		}
		return nil
	})
}
