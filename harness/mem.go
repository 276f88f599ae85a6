package main

// An in-memory input (the real interface), with typed values and fault
// injection, for exploring indexes and outputs over very many datasets.

import (
	"errors"
	"fmt"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/sirupsen/logrus"
)

type memRecord struct {
	in    *memInput
	pos   int64
	props map[string]interface{}
}

func (r *memRecord) All() (map[string]interface{}, error) {
	if err := r.in.fault("all"); err != nil {
		return nil, err
	}
	out := map[string]interface{}{}
	for k, v := range r.props {
		out[k] = v
	}
	return out, nil
}

func (r *memRecord) Get(path string) (interface{}, error) {
	if err := r.in.fault("value"); err != nil {
		return nil, err
	}
	return r.props[path], nil
}

func (r *memRecord) Position() record.Position { return r.pos }

type memInput struct {
	name    string
	recs    []*memRecord
	size    int64
	modTime time.Time

	calls  int64  // fault points passed
	failAt int64  // -1: never; fail exactly at this call
	killAt int64  // the process dies at this call (-1: never)
	from   int64  // fail at this call and all the following ones (-1: never)
	failed string // site of the last injected failure
	sites  []string
	opened int64
	closed int64
	iters  []*memIter
	trace  bool
	track  bool
}

// memIter is what happened to one iteration.
type memIter struct {
	exhausted, failed bool
	closed            int
}

var errInjected = errors.New("injected fault")

func (m *memInput) fault(site string) error {
	n := atomic.AddInt64(&m.calls, 1) - 1
	if m.trace {
		m.sites = append(m.sites, site)
	}
	if m.killAt >= 0 && n == m.killAt {
		_ = syscall.Kill(syscall.Getpid(), syscall.SIGKILL)
		select {}
	}
	if m.failAt >= 0 && n == m.failAt || m.from >= 0 && n >= m.from {
		m.failed = site
		return fmt.Errorf("%w at %s", errInjected, site)
	}
	return nil
}

func newMem(name string, rows []map[string]interface{}) *memInput {
	m := &memInput{name: name, failAt: -1, killAt: -1, from: -1, size: int64(len(rows)*10 + 1), modTime: time.Unix(1600000000, 0)}
	for i, r := range rows {
		m.recs = append(m.recs, &memRecord{in: m, pos: int64(i*7 + 3), props: r})
	}
	return m
}

func (m *memInput) Name() string { return m.name }

func (m *memInput) Get(position record.Position) (record.Record, error) {
	if err := m.fault("get"); err != nil {
		return nil, err
	}
	for _, r := range m.recs {
		if r.pos == position {
			return r, nil
		}
	}
	return nil, fmt.Errorf("no record at %v", position)
}

func (m *memInput) Size() (int64, error) {
	if err := m.fault("size"); err != nil {
		return 0, err
	}
	return m.size, nil
}

func (m *memInput) ModTime() (time.Time, error) {
	if err := m.fault("modtime"); err != nil {
		return time.Time{}, err
	}
	return m.modTime, nil
}

func (m *memInput) IterateAll() (record.Iterator, func() error, error) {
	if err := m.fault("iterate"); err != nil {
		return nil, nil, err
	}
	atomic.AddInt64(&m.opened, 1)
	i := 0
	it := &memIter{}
	if m.track {
		m.iters = append(m.iters, it)
	}
	return func() (record.Record, error) {
			if err := m.fault("next"); err != nil {
				it.failed = true
				return nil, err
			}
			if i >= len(m.recs) {
				it.exhausted = true
				return nil, nil
			}
			i++
			return m.recs[i-1], nil
		}, func() error {
			if it.closed == 0 {
				atomic.AddInt64(&m.closed, 1)
			}
			it.closed++
			return m.fault("end")
		}, nil
}

func (m *memInput) Close() error { return nil }

func (m *memInput) list() input.List { return input.List{m.name: m} }

func quietEntry() *logrus.Entry {
	log, _ := newLogger()
	return logrus.NewEntry(log)
}

// positionsOf runs a query to its end.
func positionsOf(ix index.Index, in input.Input, filters map[string]interface{}, max int) ([]int64, error) {
	f := map[string]interface{}{}
	for k, v := range filters {
		f[k] = v
	}
	it, err := ix.GetRecordPositions(in, f)
	if err != nil {
		return nil, err
	}
	return drainPositions(it, max)
}

// wantPositions is the reference: positions of the records for which all the
// filters match.
func wantPositions(m *memInput, filters map[string]interface{}, match func(prop string, value, filter interface{}) bool) []int64 {
	out := []int64{}
	for _, r := range m.recs {
		ok := true
		for p, f := range filters {
			ok = ok && match(p, r.props[p], f)
		}
		if ok {
			out = append(out, r.pos)
		}
	}
	return out
}

// rowsFrom builds the rows for one tuple of value choices, props-major.
func rowsFrom(t []int, props []string, values []interface{}) []map[string]interface{} {
	n := len(t) / len(props)
	rows := make([]map[string]interface{}, n)
	for i := range rows {
		rows[i] = map[string]interface{}{}
		for j, p := range props {
			rows[i][p] = values[t[i*len(props)+j]]
		}
	}
	return rows
}

// fixedTuples enumerates every sequence of exactly l items.
func fixedTuples(n, l int) [][]int {
	out := [][]int{{}}
	for k := 0; k < l; k++ {
		next := make([][]int, 0, len(out)*n)
		for _, w := range out {
			for a := 0; a < n; a++ {
				next = append(next, append(append(make([]int, 0, l), w...), a))
			}
		}
		out = next
	}
	return out
}

// filterSets enumerates single and double filters over the properties.
func filterSets(props []string, values []interface{}) []map[string]interface{} {
	out := []map[string]interface{}{}
	for _, p := range props {
		for _, v := range values {
			out = append(out, map[string]interface{}{p: v})
		}
	}
	if len(props) == 2 {
		for _, v := range values {
			for _, w := range values {
				out = append(out, map[string]interface{}{props[0]: v, props[1]: w})
			}
		}
	}
	return out
}

type memConfig struct{ name string }

func (m *memConfig) Validate(map[string]parser.Config, *logrus.Entry) error { return nil }
func (m *memConfig) GetName() string                                        { return m.name }
func (m *memConfig) ShouldDieOnInputChange() bool                           { return false }

func (m *memInput) configs() map[string]input.Config {
	return map[string]input.Config{m.name: &memConfig{m.name}}
}

// waitFor waits for a result that the code under test owes without waiting for
// anything else; the bound is far beyond any scheduling delay.
func waitFor(done <-chan error, key, what string) error {
	select {
	case err := <-done:
		return err
	case <-time.After(60 * time.Second):
		return violf(key, "%s (no answer after 60 s)", what)
	}
}
