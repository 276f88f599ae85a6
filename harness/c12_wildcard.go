package main

// C12: the wildcard index is a substring search. C19: its storage stream is a
// byte array.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/index/wildcard"
)

func init() {
	register("C12", "model_checking",
		"Every dataset of short strings over small alphabets (up to 4 records, one and two properties, arrays, ignoring case or not, multi-byte text, and long texts over the stream buffer size) is indexed by the real wildcard index on disk; every non-empty filter up to one letter more than the longest text is evaluated on the index just built and on the same file reopened, against plain substring search. A state is one (dataset, filter); a transition is one query.",
		runC12)
	register("C19", "model_checking",
		"Every sequence of operations (add, replace at boundary offsets, flush, reopen) up to the depth bound, with sizes around the stream's buffer size, runs on the real storage stream of the wildcard index; after every operation every window of interest is read and compared with a plain byte array, and the file is compared after the final flush. A state is one (size, flushed size) pair with its history hash; a transition is one operation.",
		runC19)
}

func newWildcard(m *memInput, path string, props []string, ignoreCase bool) (index.Index, error) {
	cfg := &index.WildcardConfig{Name: "w", Type: "wildcard", Path: path, Input: m.name, Properties: props, IgnoreCase: &ignoreCase}
	if err := cfg.Validate(m.configs(), quietEntry()); err != nil {
		return nil, err
	}
	return index.NewWildcard(cfg, m.list())
}

func substringMatch(ignoreCase bool) func(string, interface{}, interface{}) bool {
	var match func(p string, v, f interface{}) bool
	match = func(p string, v, f interface{}) bool {
		if a, ok := v.([]interface{}); ok {
			for _, x := range a {
				if match(p, x, f) {
					return true
				}
			}
			return false
		}
		s, t := v.(string), f.(string)
		if ignoreCase {
			s, t = strings.ToLower(s), strings.ToLower(t)
		}
		return strings.Contains(s, t)
	}
	return match
}

func nonEmptyWords(alphabet []string, max int) []interface{} {
	out := []interface{}{}
	for _, w := range words(alphabet, max) {
		if w != "" {
			out = append(out, w)
		}
	}
	return out
}

func asValues(w []string) []interface{} {
	out := []interface{}{}
	for _, x := range w {
		out = append(out, x)
	}
	return out
}

func runC12(c *Ctx) {
	scaleIndex(c, "wildcard", c.Pick(1025, 5001), func(m *memInput, dir string) (index.Index, error) {
		return newWildcard(m, filepath.Join(dir, "w.idx"), []string{"p", "q"}, false)
	}, scaleEqual, substringMatch(false))
	type grid struct {
		name    string
		props   []string
		records int
		values  []interface{}
		filters []interface{}
		ignore  bool
	}
	ab := []string{"a", "b"}
	one, two := []string{"p"}, []string{"p", "q"}
	arrays := []interface{}{"ab", []interface{}{}, []interface{}{"a", "b"}, []interface{}{"ab", "a"}, []interface{}{"ba", "ba"}, []interface{}{[]interface{}{"b"}, "a"}}
	grids := []grid{
		{"ab", one, 0, asValues(words(ab, 1)), nonEmptyWords(ab, 2), false},
		{"ab", one, 1, asValues(words(ab, 7)), nonEmptyWords(ab, 5), false},
		{"ab", one, 2, asValues(words(ab, 4)), nonEmptyWords(ab, 5), false},
		{"ab", one, 3, asValues(words(ab, 2)), nonEmptyWords(ab, 3), false},
		{"ab", two, 2, asValues(words(ab, 2)[:5]), nonEmptyWords(ab, 2), false},
		{"abc", one, 1, asValues(words([]string{"a", "b", "c"}, 5)), nonEmptyWords([]string{"a", "b", "c"}, 3), false},
		{"aA", one, 2, asValues(words([]string{"a", "A"}, 3)), nonEmptyWords([]string{"a", "A"}, 3), true},
		{"aA", one, 2, asValues(words([]string{"a", "A"}, 3)), nonEmptyWords([]string{"a", "A"}, 3), false},
		{"utf8", one, 2, asValues(words([]string{"é", "è", "É"}, 2)), nonEmptyWords([]string{"é", "è", "É", "e"}, 2), true},
		{"utf8", one, 2, asValues(words([]string{"é", "è", "\x00"}, 2)), nonEmptyWords([]string{"é", "è", "\x00"}, 2), false},
		{"arrays", one, 2, arrays, nonEmptyWords(ab, 3), false},
		{"bytes", one, 2, asValues(words([]string{"\xff", "\xc3", "\xa9"}, 2)), nonEmptyWords([]string{"\xff", "\xc3", "\xa9"}, 2), false},
		{"fold", one, 2, asValues(words([]string{"İ", "i", "\u212a", "k"}, 2)), nonEmptyWords([]string{"İ", "i", "\u212a", "k"}, 2), true},
		{"fold", one, 1, asValues(words([]string{"ß", "ẞ", "Σ", "ς", "σ"}, 3)), nonEmptyWords([]string{"ß", "ẞ", "Σ", "ς", "σ"}, 2), true},
	}
	if c.Thorough() {
		grids = append(grids,
			grid{"ab", one, 2, asValues(words(ab, 5)), nonEmptyWords(ab, 6), false},
			grid{"ab", one, 1, asValues(words(ab, 10)), nonEmptyWords(ab, 6), false},
			grid{"ab", one, 3, asValues(words(ab, 3)), nonEmptyWords(ab, 4), false},
			grid{"ab", one, 4, asValues(words(ab, 2)), nonEmptyWords(ab, 3), false},
			grid{"ab", two, 2, asValues(words(ab, 2)), nonEmptyWords(ab, 3), false},
			grid{"aA", one, 3, asValues(words([]string{"a", "A"}, 2)), nonEmptyWords([]string{"a", "A"}, 3), true},
		)
	}
	check := func(m *memInput, path string, g grid) error {
		_ = os.Remove(path)
		match := substringMatch(g.ignore)
		filters := filterSets(g.props, g.filters)
		for _, when := range []string{"built", "reopened"} {
			ix, err := newWildcard(m, path, g.props, g.ignore)
			if err != nil {
				return violf("wildcard:"+when+":refused", "%s: %v", showRows(m), err)
			}
			for _, f := range filters {
				if err := exactQuery(c, m, namedIndex{"wildcard:" + when, ix}, f, match); err != nil {
					ix.Close()
					return err
				}
			}
			if g.records <= 2 && len(filters) <= 14 {
				if err := interleavedQueries(c, m, namedIndex{"wildcard:" + when, ix}, filters, match); err != nil {
					ix.Close()
					return err
				}
			}
			if err := ix.Close(); err != nil {
				return violf("wildcard:close", "%v", err)
			}
		}
		if m.opened != m.closed {
			return violf("iteration-left-open", "%d opened, %d closed", m.opened, m.closed)
		}
		c.Trace()
		return nil
	}
	for gi, g := range grids {
		ts := fixedTuples(len(g.values), g.records*len(g.props))
		const chunk = 16
		c.ParallelN(8, (len(ts)+chunk-1)/chunk, func(ci int) {
			c.Case(fmt.Sprintf("wildcard grid=%d %s props=%v records=%d ignoreCase=%v chunk=%d", gi, g.name, g.props, g.records, g.ignore, ci), func() error {
				dir, clean := c.Dir()
				defer clean()
				for _, t := range ts[ci*chunk : min(len(ts), (ci+1)*chunk)] {
					if err := check(newMem("in", rowsFrom(t, g.props, g.values)), filepath.Join(dir, "w.idx"), g); err != nil {
						return err
					}
				}
				return nil
			})
		})
	}
	// Long texts: the index does not fit in the stream's buffer.
	long := map[string][]string{}
	for _, n := range []int{30, 60, 180} {
		texts := []string{}
		x := uint32(n)
		for i := 0; i < n; i++ {
			s := ""
			for k := 0; k < 12; k++ {
				x = x*1664525 + 1013904223
				s += string(rune('a' + (x>>24)%3))
			}
			texts = append(texts, s)
		}
		long[fmt.Sprint("many", n)] = texts
	}
	long["one-letter"] = []string{strings.Repeat("a", 60), strings.Repeat("a", 61), "b" + strings.Repeat("a", 30) + "b"}
	long["periodic"] = []string{strings.Repeat("ab", 50), strings.Repeat("ba", 50), strings.Repeat("abc", 40), strings.Repeat("aab", 40)}
	names := []string{"many30", "many60", "many180", "one-letter", "periodic"}
	c.ParallelN(5, len(names), func(i int) {
		texts := long[names[i]]
		c.Case("wildcard long "+names[i], func() error {
			dir, clean := c.Dir()
			defer clean()
			rows := []map[string]interface{}{}
			for _, s := range texts {
				rows = append(rows, map[string]interface{}{"p": s})
			}
			filters := nonEmptyWords([]string{"a", "b", "c"}, c.Pick(4, 6))
			for _, s := range texts {
				filters = append(filters, s, s[1:], s[:len(s)-1], s[len(s)/2:], s+"a", "c"+s)
			}
			return check(newMem("in", rows), filepath.Join(dir, "w.idx"), grid{props: one, filters: filters, records: len(rows)})
		})
	})
	// A value around the size of the stream's buffer, before, between and after others.
	size := wildcard.STREAM_BUFFER_SIZE
	lengths := []int{size / 2, size - 100, size - 1, size, size + 1, size + 100, 2*size + 1}
	c.ParallelN(8, 3*len(lengths), func(i int) {
		at, length := i%3, lengths[i/3]
		c.Case(fmt.Sprintf("wildcard value of %d bytes at %d", length, at), func() error {
			dir, clean := c.Dir()
			defer clean()
			text := make([]byte, length)
			x := uint32(length)
			for k := range text {
				x = x*1664525 + 1013904223
				text[k] = 'a' + byte(x>>24)%26
			}
			texts := []string{"ab", "abc", "cab"}
			texts = append(texts[:at], append([]string{string(text)}, texts[at:]...)...)
			rows := []map[string]interface{}{}
			for _, s := range texts {
				rows = append(rows, map[string]interface{}{"p": s})
			}
			filters := nonEmptyWords([]string{"a", "b", "c"}, 3)
			for k := 0; k < length; k += length / 40 {
				for _, n := range []int{3, 20, length - k} {
					filters = append(filters, string(text[k:min(length, k+n)]), string(text[k:min(length, k+n)])+"-")
				}
			}
			return check(newMem("in", rows), filepath.Join(dir, "w.idx"), grid{props: one, filters: filters, records: len(rows)})
		})
	})
	// What cannot be searched is refused, never answered wrongly.
	for i, v := range []interface{}{nil, int64(1), 1.5, true, map[string]interface{}{"a": "a"}, []interface{}{"a", nil}} {
		c.Case(fmt.Sprintf("wildcard odd %d", i), func() error {
			dir, clean := c.Dir()
			defer clean()
			good := newMem("in", []map[string]interface{}{{"p": "ab"}, {"p": "b"}})
			ix, err := newWildcard(good, filepath.Join(dir, "g.idx"), one, false)
			if err != nil {
				return violf("wildcard:refused", "%v", err)
			}
			if got, err := positionsOf(ix, good, map[string]interface{}{"p": v}, 10); err == nil && len(got) > 0 {
				return violf("wildcard:odd-filter", "filter %s matched %v", show(v), got)
			}
			bad := newMem("in", []map[string]interface{}{{"p": "ab"}, {"p": v}})
			ix, err = newWildcard(bad, filepath.Join(dir, "b.idx"), one, false)
			if err != nil {
				c.Outcome("odd-refused")
				return nil
			}
			return exactQuery(c, bad, namedIndex{"wildcard:odd", ix}, map[string]interface{}{"p": "ab"}, func(_ string, v, f interface{}) bool { return v == "ab" })
		})
	}
	c.Case("wildcard refusals", func() error {
		dir, clean := c.Dir()
		defer clean()
		m := newMem("in", []map[string]interface{}{{"p": "a", "q": "b"}})
		other := newMem("other", []map[string]interface{}{{"p": "a", "q": "b"}})
		ix, err := newWildcard(m, filepath.Join(dir, "g.idx"), one, false)
		if err != nil {
			return violf("wildcard:refused", "%v", err)
		}
		for what, f := range map[string]map[string]interface{}{"unknown property": {"q": "b"}, "one known one unknown": {"p": "a", "q": "b"}, "no filter": {}} {
			if got, err := positionsOf(ix, m, f, 10); err == nil {
				return violf("wildcard:not-refused", "%s: %v gave %v and no error", what, f, got)
			}
		}
		if got, err := positionsOf(ix, other, map[string]interface{}{"p": "a"}, 10); err == nil {
			return violf("wildcard:not-refused", "foreign input gave %v and no error", got)
		}
		return nil
	})
}

type streamOp struct {
	kind string
	a, b int // meaning depends on kind
}

func runC19(c *Ctx) {
	size := wildcard.STREAM_BUFFER_SIZE
	ops := []streamOp{
		{"add", 0, 0}, {"add", 1, 0}, {"add", 100, 0}, {"add", size - 1, 0}, {"add", size, 0}, {"add", size + 1, 0},
		{"flush", 0, 0}, {"reopen", 0, 0},
		// replace: a selects the offset, b the length
		{"replace", 0, 1}, {"replace", 0, 60}, {"replace", 0, -1}, {"replace", 1, 1}, {"replace", 1, 5}, {"replace", 2, 3},
		{"replace", 3, 50}, {"replace", 3, -1}, {"replace", 4, 40}, {"replace", 5, size + 20},
	}
	depth := c.Pick(4, 5)
	seqs := fixedTuples(len(ops), depth)
	const chunk = 512
	c.ParallelN(8, (len(seqs)+chunk-1)/chunk, func(ci int) {
		c.Case(fmt.Sprintf("stream depth=%d chunk=%d", depth, ci), func() error {
			dir, clean := c.Dir()
			defer clean()
			for _, seq := range seqs[ci*chunk : min(len(seqs), (ci+1)*chunk)] {
				if err := streamRun(c, filepath.Join(dir, "s"), ops, seq); err != nil {
					return err
				}
				c.Trace()
				if c.Expired() {
					return nil
				}
			}
			return nil
		})
	})
}

func streamRun(c *Ctx, path string, ops []streamOp, seq []int) error {
	f, err := os.Create(path)
	must(err)
	defer func() { f.Close() }()
	s := wildcard.NewStream(f, 0)
	model := []byte{}
	fill := byte(1)
	data := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = fill + byte(i%7)
		}
		fill += 11
		return b
	}
	hist := func(k int) string {
		out := []string{}
		for _, o := range seq[:k+1] {
			out = append(out, fmt.Sprint(ops[o]))
		}
		return strings.Join(out, " ")
	}
	flushed := 0
	for k, oi := range seq {
		op := ops[oi]
		c.Step(1)
		switch op.kind {
		case "add":
			b := data(op.a)
			off, err := s.Add(append([]byte{}, b...))
			if err != nil || off != int64(len(model)) {
				return violf("stream-add", "%s: Add gave offset %d (%v), expected %d", hist(k), off, err, len(model))
			}
			model = append(model, b...)
		case "replace":
			offs := []int{0, len(model) - 1, len(model), len(model) / 2, flushed - 20, len(model) - 10}
			o := min(max(offs[op.a], 0), len(model))
			n := op.b
			if n < 0 {
				n = len(model) - o
			}
			b := data(n)
			if err := s.Replace(int64(o), append([]byte{}, b...)); err != nil {
				return violf("stream-replace", "%s: %v", hist(k), err)
			}
			if o+n > len(model) {
				model = append(model, make([]byte, o+n-len(model))...)
			}
			copy(model[o:], b)
		case "flush", "reopen":
			if err := s.Flush(); err != nil {
				return violf("stream-flush", "%s: %v", hist(k), err)
			}
			flushed = len(model)
			if op.kind == "reopen" {
				f.Close()
				f, err = os.OpenFile(path, os.O_RDWR, 0)
				must(err)
				st, err := f.Stat()
				must(err)
				if st.Size() != int64(len(model)) {
					return violf("stream-file-size", "%s: file has %d bytes, expected %d", hist(k), st.Size(), len(model))
				}
				s = wildcard.NewStream(f, st.Size())
			}
		}
		n := len(model)
		for _, w := range [][2]int{{0, n}, {0, 1}, {n - 1, n}, {n / 2, n}, {0, n / 2}, {flushed - 1, flushed + 1}, {flushed, n}, {n / 3, n/3 + 56}, {n - 100, n - 40}, {9990, 10010}} {
			if w[0] < 0 || w[1] > n || w[0] > w[1] {
				continue
			}
			got, err := s.Get(int64(w[0]), w[1]-w[0])
			if err != nil || !bytes.Equal(got, model[w[0]:w[1]]) {
				return violf("stream-get", "%s: bytes [%d,%d) of %d differ from the written ones (error %v)", hist(k), w[0], w[1], n, err)
			}
		}
		if _, err := s.Get(int64(n), 1); err == nil {
			return violf("stream-get-past-end", "%s: reading past the end gave no error", hist(k))
		}
		c.State(n, flushed, oi)
	}
	if err := s.Flush(); err != nil {
		return violf("stream-flush", "%v", err)
	}
	got, err := os.ReadFile(path)
	must(err)
	if !bytes.Equal(got, model) {
		return violf("stream-file", "%s: after the flush the file (%d bytes) differs from what was written (%d bytes)", hist(len(seq)-1), len(got), len(model))
	}
	return nil
}
