package main

// C15: a reopened persisted index answers like a fresh one.
// C16: a stale, foreign or damaged index file never serves wrong records.

import (
	"crypto/sha1"
	"database/sql"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	_ "github.com/mattn/go-sqlite3"
	"github.com/rodb-io/rodb/pkg/index"
)

func init() {
	register("C15", "model_checking",
		"For every dataset of the grid, every sequence of up to 2 (thorough: 3) program starts, each opening an ordered subset of up to 3 indexes (two sqlite, one fts5 in the same database; wildcard files beside it), runs on real files: every start must succeed, read the input only for the indexes it creates, answer every query like the reference, and leave the files untouched when it creates nothing; every ordered pair of a grid of index and property names shares one database. A state is the set of indexes stored with the operation reaching it; a transition is one index opening.",
		runC15)
	register("C16", "model_checking",
		"Completely built wildcard, sqlite and fts5 files are subjected to every single damage of the grid (each input identity change, each configuration change, every truncation length, every corrupted byte of the identification header under three masks, every foreign file, every metadata row edit) and reopened by the real constructor: it must refuse, or every query must fail or equal the reference for the current data and configuration; a refused file must be unchanged. A state is one (index kind, damage, outcome); a transition is one reopening or query.",
		runC16)
}

// pspec is one persisted index.
type pspec struct {
	kind     string
	name     string
	props    []string
	collate  map[string]string // sqlite
	ignore   bool              // wildcard
	tokenize string            // fts5
	prefix   []int
	path     string // file, relative to the directory
}

func (s pspec) String() string {
	return fmt.Sprintf("%s:%s%v%v", s.kind, s.name, s.props, map[bool]string{true: "/i", false: ""}[s.ignore])
}

func (s pspec) open(m *memInput, dir string) (index.Index, error) {
	path := filepath.Join(dir, s.path)
	switch s.kind {
	case "wildcard":
		ignore := s.ignore
		cfg := &index.WildcardConfig{Name: s.name, Type: "wildcard", Path: path, Input: m.name, Properties: s.props, IgnoreCase: &ignore}
		if err := cfg.Validate(m.configs(), quietEntry()); err != nil {
			return nil, err
		}
		return index.NewWildcard(cfg, m.list())
	case "sqlite":
		return newSqliteIndex(m, s.name, path, s.props, s.collate)
	case "fts5":
		return newFts5(m, s.name, path, s.props, s.tokenize, s.prefix)
	}
	panic("kind " + s.kind)
}

// closeIndex avoids a nil *T in a non-nil interface.
func closeIndex(ix index.Index, err error) {
	if err == nil && ix != nil {
		_ = ix.Close()
	}
}

type pquery struct {
	filter map[string]interface{}
	want   []int64
}

// queries gives the queries of this index and their reference answers.
func (s pspec) queries(m *memInput, texts []string) []pquery {
	out := []pquery{}
	if s.kind == "fts5" {
		for _, t := range texts {
			if t == "" || strings.ContainsAny(t, " ") {
				continue
			}
			q := pquery{map[string]interface{}{"match": `"` + t + `"`}, []int64{}}
			for _, r := range m.recs {
				found := false
				for _, p := range s.props {
					if v, ok := r.props[p].(string); ok {
						for _, w := range strings.Fields(v) {
							a, b := w, t
							if s.tokenize != "porter" {
								a, b = strings.ToLower(a), strings.ToLower(b)
							}
							found = found || a == b
						}
					}
				}
				if found {
					q.want = append(q.want, r.pos)
				}
			}
			out = append(out, q)
		}
		return out
	}
	match := substringMatch(s.ignore)
	if s.kind == "sqlite" {
		match = collateMatch(s.collate)
	}
	for _, p := range s.props {
		for _, t := range texts {
			if s.kind == "wildcard" && t == "" {
				continue
			}
			f := map[string]interface{}{p: t}
			out = append(out, pquery{f, wantPositions(m, f, match)})
		}
	}
	return out
}

// ask runs the queries. errorsOk: a query may fail, but never be wrong.
func (s pspec) ask(c *Ctx, ix index.Index, m *memInput, texts []string, errorsOk bool, key, what string) error {
	for _, q := range s.queries(m, texts) {
		c.Step(1)
		got, err := positionsOf(ix, m, q.filter, len(m.recs)+2)
		if err != nil {
			if v, ok := err.(*Viol); ok {
				return v
			}
			if errorsOk {
				c.Outcome("query-error")
				continue
			}
			return violf(key+":query-error", "%s: %s filter %s: %v", what, s, show(q.filter), err)
		}
		if fmt.Sprint(got) != fmt.Sprint(q.want) {
			return violf(key+":wrong", "%s: %s over %s filter %s: expected %v, got %v", what, s, showRows(m), show(q.filter), q.want, got)
		}
		c.Outcome(fmt.Sprintf("answers%d", min(len(got), 3)))
	}
	return nil
}

// dirState hashes the content of a directory.
func dirState(dir string) string {
	var names []string
	entries, err := os.ReadDir(dir)
	must(err)
	for _, e := range entries {
		names = append(names, e.Name())
	}
	sort.Strings(names)
	out := ""
	for _, n := range names {
		data, err := os.ReadFile(filepath.Join(dir, n))
		if err != nil {
			out += n + ":dir "
			continue
		}
		out += fmt.Sprintf("%s:%d:%x ", n, len(data), sha1.Sum(data))
	}
	return out
}

var persistTexts = []string{"", "a", "b", "A", "ab", "ba", "a b", "c", "abc"}

func persistDatasets() [][]map[string]interface{} {
	row := func(p, q string) map[string]interface{} { return map[string]interface{}{"p": p, "q": q} }
	return [][]map[string]interface{}{
		{},
		{row("ab", "a")},
		{row("a b", "A"), row("", "a"), row("abab", "B")},
		{row("a", "b"), row("b", "a"), row("a", "b"), row("ba", "ab")},
	}
}

func persistSpecs() []pspec {
	return []pspec{
		{kind: "sqlite", name: "s1", props: []string{"p"}, collate: map[string]string{"p": "BINARY"}, path: "db"},
		{kind: "sqlite", name: "s2", props: []string{"q", "p"}, collate: map[string]string{"p": "NOCASE", "q": "NOCASE"}, path: "db"},
		{kind: "fts5", name: "f1", props: []string{"p", "q"}, path: "db"},
		{kind: "wildcard", name: "w1", props: []string{"p"}, path: "w1.idx"},
		{kind: "wildcard", name: "w2", props: []string{"q", "p"}, ignore: true, path: "w2.idx"},
	}
}

func runC15(c *Ctx) {
	specs := persistSpecs()
	starts := [][]int{}
	for _, sub := range subsets(len(specs)) {
		if len(sub) == 0 || len(sub) > 3 {
			continue
		}
		wild := 0
		for _, i := range sub {
			if specs[i].kind == "wildcard" {
				wild++
			}
		}
		for _, p := range perms(len(sub)) {
			start := make([]int, len(sub))
			for k, i := range p {
				start[k] = sub[i]
			}
			// the order matters between indexes sharing a file
			if wild > 0 && !sort.IntsAreSorted(start) {
				continue
			}
			starts = append(starts, start)
		}
	}
	// one history: a sequence of starts
	history := func(rows []map[string]interface{}, hist [][]int) error {
		dir, clean := c.Dir()
		defer clean()
		m := newMem("in", rows)
		exists := map[int]bool{}
		for n, start := range hist {
			what := fmt.Sprintf("starts %v, start %d", hist, n)
			before := dirState(dir)
			created := false
			opened := []index.Index{}
			closeAll := func() {
				for _, ix := range opened {
					_ = ix.Close()
				}
			}
			for _, i := range start {
				iterations := m.opened
				ix, err := specs[i].open(m, dir)
				c.Step(1)
				if err != nil {
					closeAll()
					return violf("persist:"+specs[i].kind+":refused", "%s: %s: %v", what, specs[i], err)
				}
				opened = append(opened, ix)
				if exists[i] && m.opened != iterations {
					closeAll()
					return violf("persist:"+specs[i].kind+":rebuilt", "%s: %s exists but the input was read again", what, specs[i])
				}
				created = created || !exists[i]
				exists[i] = true
				if err := specs[i].ask(c, ix, m, persistTexts, false, "persist:"+specs[i].kind+":just-opened", what); err != nil {
					closeAll()
					return err
				}
			}
			for k, i := range start {
				if err := specs[i].ask(c, opened[k], m, persistTexts, false, "persist:"+specs[i].kind, what); err != nil {
					closeAll()
					return err
				}
			}
			for k, i := range start {
				if err := opened[k].Close(); err != nil {
					return violf("persist:"+specs[i].kind+":close", "%s: %v", what, err)
				}
			}
			if after := dirState(dir); !created && after != before {
				return violf("persist:modified", "%s: nothing was created but the files changed: before %s, after %s", what, before, after)
			}
			if m.opened != m.closed {
				return violf("persist:iteration-left-open", "%s: %d opened, %d closed", what, m.opened, m.closed)
			}
			keys := []int{}
			for i := range exists {
				keys = append(keys, i)
			}
			sort.Ints(keys)
			c.State(show(fmt.Sprint(rows)), keys, start, n)
		}
		return nil
	}
	data := persistDatasets()
	type job struct {
		d    int
		hist [][]int
	}
	jobs := []job{}
	for d := range data {
		for _, a := range starts {
			for _, b := range starts {
				jobs = append(jobs, job{d, [][]int{a, b}})
			}
		}
	}
	// three starts: the single and ordered-pair starts of the shared database
	for _, d := range []int{2} {
		for _, a := range starts {
			for _, b := range starts {
				for _, e := range starts {
					if !c.Thorough() && (len(a) > 2 || len(b) > 2 || len(e) > 2 || a[len(a)-1] > 2 || b[len(b)-1] > 2 || e[len(e)-1] > 2 || a[0] > 2 || b[0] > 2 || e[0] > 2) {
						continue
					}
					jobs = append(jobs, job{d, [][]int{a, b, e}})
				}
			}
		}
	}
	const chunk = 8
	c.ParallelN(16, (len(jobs)+chunk-1)/chunk, func(ci int) {
		c.Case(fmt.Sprintf("persist histories chunk=%d", ci), func() error {
			for _, j := range jobs[ci*chunk : min(len(jobs), (ci+1)*chunk)] {
				if err := history(data[j.d], j.hist); err != nil {
					return err
				}
				c.Trace()
			}
			return nil
		})
	})
	// Names: whatever they are, two indexes in one database stay apart.
	names := []string{"x", "x_y", "y", "X", "x index", `x"y`, "x'y", "x;y", "é", "index", "sqlite_x", "x_y_index", "x_y_metadata", "%s", "?", "x.y", "x_", "_x"}
	propNames := [][]string{{"z"}, {"y_z"}, {"_y_z", "z"}, {`z"`, "z'"}, {"Z"}, {"offset"}, {"rowid"}}
	type nj struct {
		a, b pspec
	}
	njs := []nj{}
	for _, a := range names {
		for _, b := range names {
			if a == b {
				continue
			}
			for _, pa := range propNames {
				for _, pb := range propNames {
					if !c.Thorough() && fmt.Sprint(pa) != "[z]" && fmt.Sprint(pb) != "[z]" {
						continue
					}
					njs = append(njs, nj{pspec{kind: "sqlite", name: a, props: pa, path: "db"}, pspec{kind: "sqlite", name: b, props: pb, path: "db"}})
				}
			}
			njs = append(njs, nj{pspec{kind: "fts5", name: a, props: []string{"z"}, path: "db"}, pspec{kind: "fts5", name: b, props: []string{"z"}, path: "db"}},
				nj{pspec{kind: "sqlite", name: a, props: []string{"z"}, path: "db"}, pspec{kind: "fts5", name: b, props: []string{"z"}, path: "db"}},
				nj{pspec{kind: "fts5", name: a, props: []string{"z"}, path: "db"}, pspec{kind: "sqlite", name: b, props: []string{"z"}, path: "db"}})
		}
	}
	mrow := func(v string) map[string]interface{} {
		out := map[string]interface{}{}
		for _, ps := range propNames {
			for i, p := range ps {
				out[p] = v
				if i%2 == 1 {
					out[p] = v + "b"
				}
			}
		}
		return out
	}
	c.ParallelN(16, len(njs), func(i int) {
		j := njs[i]
		c.Case(fmt.Sprintf("persist names %s then %s", j.a, j.b), func() error {
			key := "persist:names"
			if strings.EqualFold(j.a.name, j.b.name) {
				key = "persist:names-differing-in-case"
			}
			dir, clean := c.Dir()
			defer clean()
			m := newMem("in", []map[string]interface{}{mrow("a"), mrow("b"), mrow("")})
			for n := 0; n < 2; n++ {
				before := dirState(dir)
				var open []index.Index
				for _, s := range []pspec{j.a, j.b} {
					ix, err := s.open(m, dir)
					c.Step(1)
					if err != nil {
						for _, o := range open {
							_ = o.Close()
						}
						return violf(key+":refused", "start %d of %s and %s in one database: %s: %v", n, j.a, j.b, s, err)
					}
					open = append(open, ix)
				}
				for k, s := range []pspec{j.a, j.b} {
					if err := s.ask(c, open[k], m, []string{"a", "ab", "b", "bb"}, false, key, fmt.Sprintf("start %d of %s and %s", n, j.a, j.b)); err != nil {
						open[0].Close()
						open[1].Close()
						return err
					}
				}
				open[0].Close()
				open[1].Close()
				if n == 1 && before != dirState(dir) {
					return violf(key+":modified", "%s and %s: reopening changed the files", j.a, j.b)
				}
			}
			c.Trace()
			c.State("names", j.a, j.b)
			return nil
		})
	})
}

func runC16(c *Ctx) {
	row := func(p, q string) map[string]interface{} { return map[string]interface{}{"p": p, "q": q} }
	base := []map[string]interface{}{row("ab", "b"), row("ba", "a"), row("a", "ab"), row("B", "A")}
	changed := []map[string]interface{}{row("ba", "a"), row("a", "B"), row("b", "ba"), row("ab", "b")}
	texts := []string{"a", "b", "ab", "ba", "A", "B", "bb"}
	specs := []pspec{
		{kind: "wildcard", name: "x", props: []string{"p"}, path: "f"},
		{kind: "wildcard", name: "x", props: []string{"p", "q"}, ignore: true, path: "f"},
		{kind: "sqlite", name: "x", props: []string{"p"}, collate: map[string]string{"p": "BINARY"}, path: "f"},
		{kind: "sqlite", name: "x", props: []string{"p", "q"}, collate: map[string]string{"p": "NOCASE", "q": "BINARY"}, path: "f"},
		{kind: "fts5", name: "x", props: []string{"p"}, path: "f"},
		{kind: "fts5", name: "x", props: []string{"p", "q"}, path: "f"},
	}
	images := make([][]byte, len(specs))
	for i, s := range specs {
		dir, clean := c.Dir()
		m := newMem("in", base)
		ix, err := s.open(m, dir)
		if err != nil {
			clean()
			c.Case(fmt.Sprintf("build %s", s), func() error { return violf("stale:build-refused", "%s: %v", s, err) })
			return
		}
		_ = ix.Close()
		images[i], err = os.ReadFile(filepath.Join(dir, "f"))
		must(err)
		clean()
	}
	// try opens the image as s over m. checkBytes: a refusal must not modify it.
	try := func(key, what string, image []byte, s pspec, m *memInput, checkBytes bool) error {
		dir, clean := c.Dir()
		defer clean()
		path := filepath.Join(dir, s.path)
		must(os.WriteFile(path, image, 0o644))
		ix, err := s.open(m, dir)
		c.Step(1)
		if err != nil {
			c.Outcome("refused")
			c.State(s.kind, key, "refused")
			if checkBytes {
				after, err := os.ReadFile(path)
				if err != nil || string(after) != string(image) {
					return violf(key+":refused-modified", "%s: refused, but the file was modified (%v)", what, err)
				}
			}
			return nil
		}
		defer ix.Close()
		c.State(s.kind, key, "opened")
		return s.ask(c, ix, m, texts, true, key, what)
	}
	for si, s := range specs {
		s, image := s, images[si]
		// Input identity.
		type ident struct {
			name  string
			rows  []map[string]interface{}
			size  int64
			delta time.Duration
		}
		idents := []ident{}
		for _, ds := range []int64{-1, 0, 1, 1 << 32} {
			for _, dt := range []time.Duration{-100000 * time.Hour, -time.Hour, -time.Second, 0, time.Second, time.Hour, 100000 * time.Hour} {
				if ds != 0 || dt != 0 {
					idents = append(idents, ident{fmt.Sprintf("size%+d,mtime%+v", ds, dt), changed, ds, dt})
				}
			}
		}
		for _, id := range idents {
			c.Case(fmt.Sprintf("stale %s input %s", s, id.name), func() error {
				m := newMem("in", id.rows)
				m.size += id.size
				m.modTime = m.modTime.Add(id.delta)
				if err := try("stale:"+s.kind+":input", fmt.Sprintf("input changed (%s)", id.name), image, s, m, true); err != nil {
					return err
				}
				// The same rows: still refused or right.
				m = newMem("in", base)
				m.size += id.size
				m.modTime = m.modTime.Add(id.delta)
				return try("stale:"+s.kind+":input-same-rows", fmt.Sprintf("input touched (%s)", id.name), image, s, m, true)
			})
		}
		// Configuration.
		for _, t := range c16Configs(s) {
			c.Case(fmt.Sprintf("config %s opened as %s %+v", s, t.what, t.spec), func() error {
				return try("stale:"+s.kind+":config:"+t.what, fmt.Sprintf("built as %+v, opened as %+v", s, t.spec), image, t.spec, newMem("in", base), t.spec.name == s.name && t.spec.kind == s.kind)
			})
		}
		// Truncation at every length.
		step := 1
		if s.kind != "wildcard" && !c.Thorough() {
			step = 37
		}
		lens := map[int]bool{}
		for n := 0; n < len(image); n += step {
			lens[n] = true
		}
		for n := 0; n < len(image); n += 512 {
			for d := -2; d <= 2; d++ {
				if n+d >= 0 && n+d < len(image) {
					lens[n+d] = true
				}
			}
		}
		cuts := []int{}
		for n := range lens {
			cuts = append(cuts, n)
		}
		sort.Ints(cuts)
		c.ParallelN(8, (len(cuts)+31)/32, func(ci int) {
			c.Case(fmt.Sprintf("truncated %s chunk=%d", s, ci), func() error {
				for _, n := range cuts[ci*32 : min(len(cuts), ci*32+32)] {
					key := "damaged:" + s.kind + ":truncated"
					if s.kind != "wildcard" && n > len(image)-4096 {
						key += "-inside-last-page"
					}
					if err := try(key, fmt.Sprintf("file cut at %d of %d bytes", n, len(image)), image[:n], s, newMem("in", base), n > 100); err != nil {
						return err
					}
				}
				return nil
			})
		})
		// Identification header.
		header := 47
		if s.kind != "wildcard" {
			header = 16
		}
		c.Case(fmt.Sprintf("header %s", s), func() error {
			for b := 0; b < header; b++ {
				for _, mask := range []byte{0x01, 0x02, 0x80, 0xff} {
					img := append([]byte{}, image...)
					img[b] ^= mask
					if err := try("damaged:"+s.kind+":header", fmt.Sprintf("byte %d xor %#x", b, mask), img, s, newMem("in", base), true); err != nil {
						return err
					}
				}
			}
			return nil
		})
		// Extra bytes at the end do not matter, or are refused.
		for _, extra := range []int{1, 56, 4096} {
			c.Case(fmt.Sprintf("extended %s by %d", s, extra), func() error {
				return try("damaged:"+s.kind+":extended", fmt.Sprintf("%d more bytes", extra), append(append([]byte{}, image...), make([]byte, extra)...), s, newMem("in", base), false)
			})
		}
		// Foreign files.
		foreign := map[string][]byte{
			"empty": {}, "newline": []byte("\n"), "text": []byte("id,name\n1,a\n"), "zeros": make([]byte, 5000),
			"ones": []byte(strings.Repeat("\xff", 5000)), "magic-only": []byte("RODB/INDEX/WILDCARD"), "sqlite-magic-only": []byte("SQLite format 3\x00"),
		}
		for k, o := range specs {
			if o.kind != s.kind {
				foreign[fmt.Sprintf("index%d", k)] = images[k]
			}
		}
		for name, img := range foreign {
			c.Case(fmt.Sprintf("foreign %s as %s", name, s), func() error {
				return try("foreign:"+s.kind, "file "+name, img, s, newMem("in", base), s.kind == "wildcard" || (len(img) > 0 && !strings.HasPrefix(name, "index")))
			})
		}
		c.Case(fmt.Sprintf("foreign directory as %s", s), func() error {
			dir, clean := c.Dir()
			defer clean()
			must(os.Mkdir(filepath.Join(dir, "f"), 0o755))
			m := newMem("in", base)
			ix, err := s.open(m, dir)
			if err == nil {
				defer ix.Close()
				return s.ask(c, ix, m, texts, true, "foreign:"+s.kind+":directory", "a directory")
			}
			return nil
		})
		// Metadata rows of the sqlite formats.
		if s.kind != "wildcard" {
			table := `"rodb_x_metadata"`
			edits := map[string]bool{ // statement: must a refusal leave the file as it was
				`UPDATE ` + table + ` SET version = version + 1`:                                     true,
				`UPDATE ` + table + ` SET version = version - 1`:                                     true,
				`UPDATE ` + table + ` SET version = NULL`:                                            true,
				`UPDATE ` + table + ` SET completed = 0`:                                             true,
				`UPDATE ` + table + ` SET inputFileSize = inputFileSize + 1`:                         true,
				`UPDATE ` + table + ` SET inputFileModificationTime = inputFileModificationTime - 1`: true,
				`UPDATE ` + table + ` SET inputFileSize = 'x'`:                                       true,
				`DELETE FROM ` + table:                                                               true,
				`ALTER TABLE ` + table + ` RENAME COLUMN completed TO finished`:                      true,
				`DROP TABLE ` + table:                                                                false,
				`DROP TABLE "rodb_x_index"`:                                                          true,
				`DROP TABLE "rodb_x_index"; CREATE TABLE "rodb_x_index" ("other" INTEGER)`:           true,
				`DROP TABLE ` + table + `; DROP TABLE "rodb_x_index"`:                                false,
				`UPDATE ` + table + ` SET version = version + 65536`:                                 true,
				`UPDATE ` + table + ` SET version = version + 1, completed = 0`:                      true,
				`DELETE FROM ` + table + `; INSERT INTO ` + table + ` VALUES (1, 0, 0, 1)`:           true,
			}
			stmts := []string{}
			for e := range edits {
				// not damage of the metadata: another table in the place of the data
				if s.kind == "fts5" && strings.Contains(e, `("other"`) {
					continue
				}
				stmts = append(stmts, e)
			}
			sort.Strings(stmts)
			for _, e := range stmts {
				c.Case(fmt.Sprintf("metadata %s %s", s, e), func() error {
					dir, clean := c.Dir()
					defer clean()
					path := filepath.Join(dir, "g")
					must(os.WriteFile(path, image, 0o644))
					db, err := sql.Open("sqlite3", path)
					must(err)
					_, err = db.Exec(e)
					db.Close()
					if err != nil {
						c.Outcome("edit-impossible")
						return nil // e.g. the metadata is stored in another way
					}
					img, err := os.ReadFile(path)
					must(err)
					mustRefuse := !strings.HasPrefix(e, "DROP") && !strings.Contains(e, "65536")
					if mustRefuse {
						m := newMem("in", changed)
						if err := try("damaged:"+s.kind+":metadata", e, img, s, m, edits[e]); err != nil {
							return err
						}
					}
					return try("damaged:"+s.kind+":metadata", e, img, s, newMem("in", base), edits[e])
				})
			}
		}
		c.Trace()
	}
}

type c16Config struct {
	what string
	spec pspec
}

// c16Configs gives the configurations that differ from s in one way.
func c16Configs(s pspec) []c16Config {
	out := []c16Config{}
	add := func(what string, f func(t *pspec)) {
		t := s
		t.props = append([]string{}, s.props...)
		t.collate = map[string]string{}
		for k, v := range s.collate {
			t.collate[k] = v
		}
		f(&t)
		out = append(out, c16Config{what, t})
	}
	add("same", func(t *pspec) {})
	add("property-renamed", func(t *pspec) { t.props[0] = map[string]string{"p": "q", "q": "p"}[t.props[0]]; t.props = t.props[:1] })
	if len(s.props) == 2 {
		add("properties-reordered", func(t *pspec) { t.props[0], t.props[1] = t.props[1], t.props[0] })
		add("property-removed", func(t *pspec) { t.props = t.props[:1] })
		add("property-removed-first", func(t *pspec) { t.props = t.props[1:] })
	} else {
		add("property-added", func(t *pspec) { t.props = append(t.props, "q") })
		add("property-added-first", func(t *pspec) { t.props = []string{"q", t.props[0]} })
	}
	add("no-property", func(t *pspec) { t.props = nil })
	add("name", func(t *pspec) { t.name = "y" })
	add("name-case", func(t *pspec) { t.name = "X" })
	switch s.kind {
	case "wildcard":
		add("ignore-case", func(t *pspec) { t.ignore = !t.ignore })
	case "sqlite":
		for _, co := range []string{"BINARY", "NOCASE", "RTRIM"} {
			if co != s.collate["p"] {
				add("collate", func(t *pspec) { t.collate["p"] = co })
			}
		}
		add("kind", func(t *pspec) { t.kind = "fts5" })
	case "fts5":
		add("prefix", func(t *pspec) { t.prefix = []int{1, 2} })
		add("tokenizer", func(t *pspec) { t.tokenize = "ascii" })
		add("kind", func(t *pspec) { t.kind = "sqlite" })
	}
	return out
}
