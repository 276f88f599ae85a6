package main

// C02: JSON iteration returns exactly the objects of the stream.

import (
	"encoding/json"
	"errors"
	"fmt"
	"path/filepath"
	"strings"
)

// parseJSONStream is the reference: a strict left-to-right reader of
// whitespace-separated JSON objects. broken means that something that is not
// a JSON object follows the returned objects.
func parseJSONStream(text string) (rows []expRow, broken bool) {
	rest := text
	base := int64(0)
	for {
		trimmed := strings.TrimLeft(rest, " \t\r\n")
		base += int64(len(rest) - len(trimmed))
		rest = trimmed
		if rest == "" {
			return rows, false
		}
		if strings.HasPrefix(rest, "null") {
			// a null document is a record without any property
			rows = append(rows, expRow{map[string]interface{}{}, base})
			rest = rest[4:]
			base += 4
			continue
		}
		if rest[0] != '{' {
			return rows, true
		}
		// Find the shortest prefix that is a valid object.
		end := -1
		for i := 1; i <= len(rest); i++ {
			if rest[i-1] == '}' && json.Valid([]byte(rest[:i])) {
				end = i
				break
			}
		}
		if end < 0 {
			return rows, true
		}
		var v map[string]interface{}
		if json.Unmarshal([]byte(rest[:end]), &v) != nil {
			return rows, true
		}
		rows = append(rows, expRow{v, base})
		base += int64(end)
		rest = rest[end:]
	}
}

func jsonYaml(path string) string {
	return fmt.Sprintf("inputs:\n- name: in\n  type: json\n  path: %s\n  dieOnInputChange: false\n", path) + yamlTail("in")
}

func init() {
	register("C02", "model_checking",
		"Every sequence of up to k tokens (objects, separators, cut and foreign tokens) from the alphabet, and object streams whose tokens straddle the decoder's buffer edges, are iterated by the real JSON input; objects, order, positions and errors are compared with a reference reader. A state is one distinct expected stream; a transition is one record read.",
		runC02)
}

func runC02(c *Ctx) {
	scaleInput(c, "json")
	toks := []string{"{}", `{"a":1}`, `{"a":"x}","b":[1,{"c":null}]}`, "\n", " \t", "null", "{", "}", "]", "[1]", `{"a":}`, "7"}
	depth := c.Pick(4, 5)
	seqs := tuples(len(toks), depth)
	c.Extra("tokens", toks)
	c.Extra("depth", depth)
	one := func(text string) {
		id := fmt.Sprintf("json text=%q", text)
		if len(text) > 300 {
			id = fmt.Sprintf("json text-len=%d sha=%s", len(text), shortHash(text))
		}
		c.Case(id, func() error {
			dir, clean := c.Dir()
			path := filepath.Join(dir, "in.json")
			writeFile(path, text)
			rows, broken := parseJSONStream(text)
			st, err := NewStack(dir, jsonYaml(path), "inputs")
			if err != nil {
				return violf("refused", "%v", err)
			}
			defer c.Later(func() { st.Close(); clean() })
			recs, err := drainRecords(st.Inputs["in"], len(rows)+3)
			if v := (*Viol)(nil); errors.As(err, &v) {
				return v
			}
			c.Step(len(recs) + 1)
			c.Trace()
			c.State(len(rows), broken, fmt.Sprint(rows))
			c.Outcome(fmt.Sprintf("rows=%d broken=%v", len(rows), broken))
			if !broken && err != nil {
				return violf("iteration-error", "expected %d records, got error %v after %d", len(rows), err, len(recs))
			}
			if broken && err == nil {
				return violf("truncated", "invalid data after record %d was silently dropped (%d records, no error)", len(rows), len(recs))
			}
			if len(recs) != len(rows) {
				return violf("row-count", "expected %d records, got %d", len(rows), len(recs))
			}
			last := int64(-1)
			for i, r := range recs {
				got, err := recShow(r)
				if err != nil {
					return violf("all-error", "record %d: %v", i, err)
				}
				if want := show(rows[i].values); got != want {
					return violf("row-values", "record %d: expected %s got %s", i, want, got)
				}
				if r.Position() <= last {
					return violf("positions-not-ascending", "record %d at %d after %d", i, r.Position(), last)
				}
				last = r.Position()
			}
			return nil
		})
	}
	c.Parallel(len(seqs), func(i int) {
		t := seqs[i]
		text := ""
		for _, k := range t {
			text += toks[k]
		}
		one(text)
	})
	// Buffer edges of the decoder (512 bytes, doubling).
	edges := []string{}
	for _, size := range []int{512, 1024, 1536, 2048, 4096} {
		for d := -18; d <= 2; d++ {
			for _, tail := range []string{`{"a":1}` + "\n" + `{"b":"é"}`, `  {"k":[1,2]}{"z":{}}`, `{"a":1}]{"b":2}`, `{"a":1`} {
				edges = append(edges, `{"p":"`+strings.Repeat("x", size+d-8)+`"}`+tail)
				edges = append(edges, strings.Repeat("{}\n", (size+d)/3)+strings.Repeat(" ", (size+d)%3)+tail)
			}
		}
	}
	c.Parallel(len(edges), func(i int) { one(edges[i]) })
}
