package main

// C07: a value read by path is the value found by walking the whole record.

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/rodb-io/rodb/pkg/input/record"
)

type pathResult struct {
	kind string // value, missing-top, missing, below-null, bad
	val  interface{}
}

func walk(v interface{}, path []string, top bool) pathResult {
	if len(path) == 0 {
		return pathResult{"value", v}
	}
	switch t := v.(type) {
	case map[string]interface{}:
		x, ok := t[path[0]]
		if !ok {
			if top {
				return pathResult{"missing-top", nil}
			}
			return pathResult{"missing", nil}
		}
		return walk(x, path[1:], false)
	case []interface{}:
		i, err := strconv.Atoi(path[0])
		if err != nil {
			return pathResult{"bad", nil}
		}
		if i < 0 {
			return pathResult{"negative", nil}
		}
		if i >= len(t) {
			return pathResult{"missing", nil}
		}
		return walk(t[i], path[1:], false)
	case nil:
		return pathResult{"below-null", nil}
	}
	return pathResult{"bad", nil}
}

// checkPath compares Get(path) with the walk of All().
func checkPath(c *Ctx, r record.Record, path string, topMissingIsNull bool, what string) error {
	c.Step(1)
	all, err := r.All()
	if err != nil {
		return violf("all-error", "%s: %v", what, err)
	}
	got, gotErr := r.Get(path)
	if path == "" {
		if gotErr == nil {
			return violf("empty-path", "%s: the empty path gave %s", what, show(got))
		}
		return nil
	}
	w := walk(all, strings.Split(path, "."), true)
	c.Outcome(w.kind)
	c.State(what, path, w.kind, show(w.val))
	switch w.kind {
	case "value":
		if gotErr != nil {
			return violf("path-error", "%s: Get(%q): expected %s, got error %v", what, path, show(w.val), gotErr)
		}
		if show(got) != show(w.val) {
			return violf("path-value", "%s: Get(%q): expected %s, got %s", what, path, show(w.val), show(got))
		}
	case "missing":
		if gotErr != nil || got != nil {
			return violf("path-missing", "%s: Get(%q): expected null, got %s, %v", what, path, show(got), gotErr)
		}
	case "missing-top":
		if topMissingIsNull && gotErr != nil {
			return violf("path-missing", "%s: Get(%q): expected null, got error %v", what, path, gotErr)
		}
		if got != nil {
			return violf("path-missing", "%s: Get(%q): expected nothing, got %s", what, path, show(got))
		}
	case "below-null", "negative":
		if got != nil {
			return violf("path-missing", "%s: Get(%q): expected nothing, got %s", what, path, show(got))
		}
	case "bad":
		if gotErr == nil {
			return violf("path-through-primitive", "%s: Get(%q): expected an error, got %s", what, path, show(got))
		}
	}
	return nil
}

func init() {
	register("C07", "model_checking",
		"For every nested value up to the size bound, stored in a JSON record, a CSV cell (json and split parsers) and an XML property, every dotted path up to the depth bound (names, indexes, negative and non-numeric indexes, empty segments) is read from the real record and compared with walking the whole record. A state is one distinct (record, path class, value).",
		runC07)
}

func runC07(c *Ctx) {
	// Every JSON value up to depth 2 over a small grammar.
	leaves := []string{`1`, `"s"`, `null`, `true`}
	level1 := append([]string{}, leaves...)
	level1 = append(level1, `[]`, `{}`, `[1]`, `["s",null]`, `{"a":1}`, `{"0":"z","b":null}`)
	level2 := append([]string{}, level1...)
	for _, x := range level1 {
		level2 = append(level2, `[`+x+`]`, `{"a":`+x+`}`, `[0,`+x+`]`, `{"b":2,"1":`+x+`}`)
	}
	if c.Thorough() {
		for _, x := range append([]string{}, level2...) {
			level2 = append(level2, `[`+x+`,`+x+`]`, `{"a":`+x+`,"x":[`+x+`]}`)
		}
	}
	segs := []string{"a", "b", "0", "1", "2", "-1", "x", "", "99999999999999999999"}
	tails := []string{}
	for _, t := range tuples(len(segs), 3) {
		parts := []string{}
		for _, k := range t {
			parts = append(parts, segs[k])
		}
		tails = append(tails, strings.Join(parts, "."))
	}
	paths := func(heads ...string) []string {
		out := []string{""}
		for _, h := range heads {
			for _, t := range tails {
				if t == "" {
					out = append(out, h)
				} else {
					out = append(out, h+"."+t)
				}
			}
		}
		return out
	}
	const batch = 12
	c.Parallel((len(level2)+batch-1)/batch, func(b int) {
		vals := level2[b*batch : min(len(level2), (b+1)*batch)]
		c.Case(fmt.Sprintf("paths json+csv+xml values %v", vals), func() error {
			dir, clean := c.Dir()
			jp, cp, xp := filepath.Join(dir, "in.json"), filepath.Join(dir, "in.csv"), filepath.Join(dir, "in.xml")
			var jb, cb, xb strings.Builder
			xb.WriteString("<root>")
			for _, v := range vals {
				jb.WriteString(`{"v":` + v + `,"w":5}` + "\n")
				cb.WriteString(`"` + strings.ReplaceAll(v, `"`, `""`) + "\",y;n;y\n")
				xb.WriteString("<item><j>" + xmlEsc(v, false) + "</j></item>")
			}
			xb.WriteString("</root>")
			writeFile(jp, jb.String())
			writeFile(cp, cb.String())
			writeFile(xp, xb.String())
			y := "parsers:\n- name: yn\n  type: boolean\n  trueValues: [y]\n  falseValues: [n]\n- name: sp\n  type: split\n  delimiter: \";\"\n  parser: yn\n" +
				"inputs:\n- name: j\n  type: json\n  path: " + jp + "\n- name: c\n  type: csv\n  path: " + cp + "\n  columns:\n  - name: v\n    parser: json\n  - name: s\n    parser: sp\n" +
				"- name: x\n  type: xml\n  path: " + xp + "\n  recordXpath: //item\n  properties:\n  - name: v\n    parser: json\n    xpath: string(./j)\n" + yamlTail("j")
			st, err := NewStack(dir, y, "inputs")
			if err != nil {
				return violf("refused", "%v", err)
			}
			defer c.Later(func() { st.Close(); clean() })
			for name, heads := range map[string][]string{"j": {"v", "w", "zz"}, "c": {"v", "s", "zz"}, "x": {"v", "zz"}} {
				recs, err := drainRecords(st.Inputs[name], len(vals)+2)
				if err != nil || len(recs) != len(vals) {
					return violf("iteration", "%s: %d records, %v", name, len(recs), err)
				}
				for i, r := range recs {
					var want interface{}
					must(json.Unmarshal([]byte(vals[i]), &want))
					all, err := r.All()
					if err != nil || show(all["v"]) != show(want) {
						return violf("all-value", "%s: expected %s got %s (%v)", name, show(want), show(all), err)
					}
					for _, p := range paths(heads...) {
						if err := checkPath(c, r, p, name == "j", name+":"+vals[i]); err != nil {
							return err
						}
					}
				}
				c.Trace()
			}
			return nil
		})
	})
	c07Shapes(c)
	// XML arrays and objects (configured, not parsed).
	recs := []xmlRec{{1, "a", []string{"t", "", "v"}, 3}, {2, "", nil, 0}, {3, "b", []string{"u"}, 1}, {4, "b", []string{"u", "u"}, 2}}
	c.Case("paths xml structure", func() error {
		dir, clean := c.Dir()
		defer clean()
		p := filepath.Join(dir, "in.xml")
		writeFile(p, renderXml(recs, xmlStyle{indent: true}))
		st, err := NewStack(dir, xmlYaml(p, "//item"), "inputs")
		if err != nil {
			return violf("refused", "%v", err)
		}
		defer st.Close()
		got, err := drainRecords(st.Inputs["in"], 9)
		if err != nil || len(got) != len(recs) {
			return violf("iteration", "%d records, %v", len(got), err)
		}
		segs := []string{"v", "has", "k", "l", "0", "1", "2", "-1", "zz"}
		for i, r := range got {
			for _, head := range []string{"id", "name", "count", "half", "hasobj", "tags", "lists", "obj", "nope"} {
				for _, t := range tuples(len(segs), 3) {
					path := head
					for _, k := range t {
						path += "." + segs[k]
					}
					if err := checkPath(c, r, path, false, fmt.Sprintf("xml%d", i)); err != nil {
						return err
					}
				}
			}
			c.Trace()
		}
		return nil
	})
}
