package main

// C01: CSV iteration returns exactly the rows of the file.

import (
	"encoding/csv"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"github.com/rodb-io/rodb/pkg/input"
)

type csvShape struct {
	columns   int // 0 = autodetect
	delimiter string
	header    bool
}

func (s csvShape) String() string {
	return fmt.Sprintf("columns=%d delimiter=%q ignoreFirstRow=%v", s.columns, s.delimiter, s.header)
}

func (s csvShape) yaml(path string) string {
	var b strings.Builder
	fmt.Fprintf(&b, "inputs:\n- name: in\n  type: csv\n  path: %s\n  dieOnInputChange: false\n", path)
	if s.delimiter != "" {
		fmt.Fprintf(&b, "  delimiter: %s\n", yamlQuote(s.delimiter))
	}
	if s.header {
		b.WriteString("  ignoreFirstRow: true\n")
	}
	if s.columns == 0 {
		b.WriteString("  autodetectColumns: true\n")
	} else {
		b.WriteString("  columns:\n")
		for i := 0; i < s.columns; i++ {
			fmt.Fprintf(&b, "  - name: c%d\n", i)
		}
	}
	b.WriteString(yamlTail("in"))
	return b.String()
}

// yamlTail completes a configuration with the output and the service every
// configuration needs.
func yamlTail(inputName string) string {
	return fmt.Sprintf("outputs:\n- name: all\n  type: jsonArray\n  input: %s\nservices:\n- name: web\n  type: http\n  http:\n    listen: 127.0.0.1:0\n  routes:\n  - path: /all\n    output: all\n", inputName)
}

type expRow struct {
	values map[string]interface{}
	offset int64 // where the row starts for encoding/csv
}

// csvModel is the reference: the rows of the text, and whether the file is
// malformed after them.
type csvModel struct {
	refused bool // the constructor must refuse the file
	rows    []expRow
	broken  bool
}

func modelCsv(s csvShape, content string) csvModel {
	var m csvModel
	comma := ','
	if s.delimiter != "" {
		comma = []rune(s.delimiter)[0]
	}
	names := []string{}
	if s.columns == 0 {
		r := csv.NewReader(strings.NewReader(content))
		r.Comma = comma
		r.FieldsPerRecord = -1
		head, err := r.Read()
		if err != nil {
			m.refused = true
			return m
		}
		seen := map[string]bool{}
		for _, n := range head {
			if n == "" || seen[n] {
				m.refused = true
				return m
			}
			seen[n] = true
			names = append(names, n)
		}
	} else {
		for i := 0; i < s.columns; i++ {
			names = append(names, fmt.Sprintf("c%d", i))
		}
	}
	r := csv.NewReader(strings.NewReader(content))
	r.Comma = comma
	r.FieldsPerRecord = -1
	first := true
	for {
		off := r.InputOffset()
		row, err := r.Read()
		if err == io.EOF {
			return m
		}
		if err != nil {
			m.broken = true
			return m
		}
		if first && s.header {
			first = false
			continue
		}
		first = false
		v := map[string]interface{}{}
		for i, n := range names {
			if i < len(row) {
				v[n] = row[i]
			} else {
				v[n] = nil
			}
		}
		m.rows = append(m.rows, expRow{v, off})
	}
}

// compareIteration iterates the whole input and compares with the model.
func compareIteration(c *Ctx, in input.Input, m csvModel, what string) error {
	recs, err := drainRecords(in, len(m.rows)+5)
	c.Step(len(recs) + 1)
	if v := (*Viol)(nil); errors.As(err, &v) {
		return v
	}
	if m.broken && err == nil {
		return violf("truncated", "%s: malformed data after row %d was silently dropped (got %d rows and no error)", what, len(m.rows), len(recs))
	}
	if !m.broken && err != nil {
		return violf("iteration-error", "%s: expected %d rows, got error %v after %d", what, len(m.rows), err, len(recs))
	}
	if len(recs) > len(m.rows) || (len(recs) != len(m.rows) && !m.broken) {
		return violf("row-count", "%s: expected %d rows, got %d", what, len(m.rows), len(recs))
	}
	if m.broken && len(recs) != len(m.rows) {
		return violf("row-count", "%s: expected %d rows before the error, got %d", what, len(m.rows), len(recs))
	}
	last := int64(-1)
	for i, r := range recs {
		got, err := recShow(r)
		if err != nil {
			return violf("all-error", "%s: row %d: %v", what, i, err)
		}
		if want := show(m.rows[i].values); got != want {
			return violf("row-values", "%s: row %d: expected %s got %s", what, i, want, got)
		}
		if r.Position() <= last {
			return violf("positions-not-ascending", "%s: row %d has position %d after %d", what, i, r.Position(), last)
		}
		last = r.Position()
	}
	return nil
}

func init() {
	register("C01", "model_checking",
		"Every text over a 6-symbol CSV alphabet up to the length bound, and every alignment of each token around the 4096-byte buffer edge, is written to a file and iterated by the real CSV input under every listed configuration; rows, nulls, order and errors are compared with a reference reader of the same text. A state is one (configuration, expected rows) class; a transition is one record read.",
		runC01)
}

func runC01(c *Ctx) {
	scaleInput(c, "csv")
	shapes := []csvShape{
		{1, "", false}, {2, "", false}, {2, "", true}, {3, ";", false}, {0, "", true}, {0, "", false}, {2, "a", true},
	}
	maxLen := c.Pick(6, 7)
	texts := words([]string{"a", ",", "\n", "\"", "\r", ";"}, maxLen)
	c.Extra("texts", len(texts))
	c.Extra("length_bound", maxLen)
	var mu sync.Mutex
	refused := []csvJob{}
	one := func(s csvShape, text string) {
		id := fmt.Sprintf("csv %s text=%q", s, text)
		if len(text) > 200 {
			id = fmt.Sprintf("csv %s text-len=%d sha=%s", s, len(text), shortHash(text))
		}
		m := modelCsv(s, text)
		if m.refused {
			// Refused constructors leave watchers behind: done in child processes.
			mu.Lock()
			refused = append(refused, csvJob{s.columns, s.delimiter, s.header, text})
			mu.Unlock()
			return
		}
		c.Case(id, func() error {
			dir, clean := c.Dir()
			path := filepath.Join(dir, "in.csv")
			writeFile(path, text)
			st, err := NewStack(dir, s.yaml(path), "inputs")
			if err != nil {
				return violf("refused-good-file", "%v", err)
			}
			defer c.Later(func() { st.Close(); clean() })
			c.State(s, len(m.rows), m.broken, fmt.Sprint(m.rows))
			if m.broken {
				c.Outcome("malformed")
			} else {
				c.Outcome(fmt.Sprintf("rows%d", len(m.rows)))
			}
			c.Trace()
			if err := compareIteration(c, st.Inputs["in"], m, "first pass"); err != nil {
				return err
			}
			return compareIteration(c, st.Inputs["in"], m, "second pass")
		})
	}
	c.Parallel(len(texts), func(i int) {
		for si, s := range shapes {
			// The longest texts run under the first shapes only.
			if len(texts[i]) == maxLen && si >= 1 && !c.Thorough() {
				continue
			}
			if len(texts[i]) == maxLen && si >= 3 {
				continue
			}
			if c.Expired() {
				return
			}
			one(s, texts[i])
		}
	})
	// Buffer edges: every token of a row slides over the 4096 byte boundary.
	rows := []string{"aa,bb\n", "\"x,y\",z\n", "\"l1\nl2\",\"q\"\"q\"\r\n", "one\n", "a,b,c\n", "\n\nw,é\n"}
	type edge struct {
		pad  int
		tail string
	}
	edges := []edge{}
	pads := []int{}
	for p := 4078; p <= 4098; p++ {
		pads = append(pads, p)
	}
	for p := 8176; p <= 8194; p += c.Pick(3, 1) {
		pads = append(pads, p)
	}
	for _, p := range pads {
		for _, t := range tuples(len(rows), 2) {
			tail := ""
			for _, i := range t {
				tail += rows[i]
			}
			edges = append(edges, edge{p, tail})
		}
	}
	c.Parallel(len(edges), func(i int) {
		e := edges[i]
		for _, style := range []int{0, 1} {
			var pad string
			if style == 0 { // many short rows
				pad = strings.Repeat("p,q\n", e.pad/4) + strings.Repeat("z", e.pad%4) + ",w\n"
			} else { // one long row
				pad = strings.Repeat("p", e.pad-3) + ",r\n"
			}
			one(csvShape{2, "", false}, pad+e.tail)
			one(csvShape{2, "", true}, pad+e.tail)
		}
	})
	// Unusable headers must be refused.
	const batch = 12 // a refused header keeps its watcher, of which a user can only have 128
	c.ParallelN(6, (len(refused)+batch-1)/batch, func(i int) {
		jobs := refused[i*batch : min(len(refused), (i+1)*batch)]
		results := []string{}
		runChild(c, "csvrefuse", jobs, &results)
		for j, job := range jobs {
			c.Case(fmt.Sprintf("csv refused %+v", job), func() error {
				c.Outcome("refused")
				c.Step(1)
				if j < len(results) && results[j] == "accepted" {
					return violf("accepted-bad-header", "the autodetected header is unusable but the input was accepted")
				}
				if j < len(results) && results[j] != "refused" {
					return violf("header-panic", "%s", results[j])
				}
				return nil
			})
		}
	})
}

type csvJob struct {
	Columns   int
	Delimiter string
	Header    bool
	Text      string
}

func init() {
	childCommands["csvrefuse"] = func(stdin []byte) interface{} {
		jobs := []csvJob{}
		must(json.Unmarshal(stdin, &jobs))
		out := []string{}
		dir, err := os.MkdirTemp("", "csvrefuse")
		must(err)
		defer os.RemoveAll(dir)
		for _, j := range jobs {
			path := filepath.Join(dir, "in.csv")
			writeFile(path, j.Text)
			err := guarded(func() error {
				st, err := NewStack(dir, csvShape{j.Columns, j.Delimiter, j.Header}.yaml(path), "inputs")
				if err == nil {
					st.Close()
				}
				return err
			})
			if _, isViol := err.(*Viol); isViol {
				out = append(out, err.Error())
			} else if err == nil {
				out = append(out, "accepted")
			} else {
				out = append(out, "refused")
			}
		}
		return out
	}
}
