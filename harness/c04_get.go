package main

// C04: reading a record by position gives the iterated record, whatever was
// read before.

import (
	"fmt"
	"path/filepath"
	"strings"

	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
)

type getDataset struct {
	name    string
	key     string // violation key prefix
	file    string
	content string
	yaml    func(path string) string
	records int
	bad     []int64 // positions that are no record: must not disturb anything
}

func xmlGetContent(n int, pad int, multi bool) string {
	recs := []xmlRec{}
	pool := []xmlRec{{1, "a", []string{"t"}, 3}, {2, "", nil, 0}, {3, "x<y", []string{"u", ""}, 2}, {4, "z", nil, 1}}
	for i := 0; i < n; i++ {
		recs = append(recs, pool[i%len(pool)])
	}
	if pad > 0 {
		recs[0].name = strings.Repeat("p", pad)
	}
	text := renderXml(recs, xmlStyle{indent: true, comments: true})
	if multi {
		parts := strings.SplitAfter(text, "</item>\n  ")
		text = "<root>" + "<list>" + strings.TrimPrefix(parts[0], "<root>") + "</list>"
		for _, p := range parts[1 : len(parts)-1] {
			text += "<list>" + p + "</list>"
		}
		text += "</root>"
	}
	return text
}

func getDatasets(c *Ctx) []getDataset {
	ds := []getDataset{}
	csvY := func(s csvShape) func(string) string { return func(p string) string { return s.yaml(p) } }
	ds = append(ds,
		getDataset{"csv-plain", "csv", "in.csv", "a,b\nc,d\ne,f\n", csvY(csvShape{2, "", false}), 3, []int64{12, 4000}},
		getDataset{"csv-quoted-multiline", "csv", "in.csv", "h1,h2\n\"a\n\"\"b\",x\r\n\nshort\nlong,1,2\n", csvY(csvShape{2, "", true}), 3, []int64{7, 4000}},
		getDataset{"csv-autodetect", "csv", "in.csv", "h1,h2\na,b\n\"\",é\n,\n", csvY(csvShape{0, "", true}), 3, []int64{4000}},
		getDataset{"csv-long", "csv", "in.csv", strings.Repeat("p", 4090) + ",q\nab,cd\n" + strings.Repeat("r", 5000) + ",s\n", csvY(csvShape{2, "", false}), 3, []int64{9999999}},
		getDataset{"csv-one-column", "csv", "in.csv", "a\n\"\"\nb", csvY(csvShape{1, "", false}), 3, nil},
		getDataset{"json-plain", "json", "in.json", "{\"a\":1}\n{\"a\":{\"b\":[1,2]}} {\"c\":null}", jsonYaml, 3, []int64{2, 4000}},
		getDataset{"json-glued", "json", "in.json", "{\"a\":\"}{\"}{}{\"é\":true}\n\n", jsonYaml, 3, []int64{3}},
		getDataset{"json-long", "json", "in.json", "{\"p\":\"" + strings.Repeat("x", 600) + "\"}{\"b\":1}\n{\"q\":\"" + strings.Repeat("y", 5000) + "\"}", jsonYaml, 3, []int64{300}},
		getDataset{"xml-siblings", "xml-siblings", "in.xml", xmlGetContent(3, 0, false), func(p string) string { return xmlYaml(p, "//item") }, 3, nil},
		getDataset{"xml-siblings-long", "xml-siblings", "in.xml", xmlGetContent(3, 4030, false), func(p string) string { return xmlYaml(p, "//item") }, 3, nil},
		getDataset{"xml-absolute", "xml-absolute-xpath", "in.xml", xmlGetContent(3, 0, false), func(p string) string { return xmlYaml(p, "/root/item") }, 3, nil},
		getDataset{"xml-nested", "xml-several-parents", "in.xml", xmlGetContent(3, 0, true), func(p string) string { return xmlYaml(p, "//item") }, 3, nil},
	)
	// The same formats with four records.
	ds = append(ds,
		getDataset{"csv-four", "csv", "in.csv", "a,b\n\"c\n\",d\r\ne\nf,\"\"\"\"\n", csvY(csvShape{2, "", false}), 4, nil},
		getDataset{"json-four", "json", "in.json", "{\"a\":1}{\"a\":2}\t{\"a\":[]}\r\n{}", jsonYaml, 4, nil},
		getDataset{"xml-four", "xml-siblings", "in.xml", xmlGetContent(4, 0, false), func(p string) string { return xmlYaml(p, "//item") }, 4, nil},
	)
	return ds
}

func init() {
	register("C04", "model_checking",
		"For each file, every sequence of operations up to the depth bound (read record i by position, read at a position that is no record, open an iterator, advance one of two iterators, release one) runs against one live input; every result is compared with the first full iteration, and every record handed out is read again at the end. A state is (dataset, iterator progress, last operation); a transition is one operation.",
		runC04)
}

func runC04(c *Ctx) {
	bigRecords(c)
	ds := getDatasets(c)
	c.Parallel(len(ds), func(di int) {
		d := ds[di]
		depth := c.Pick(5, 6)
		if strings.HasPrefix(d.key, "xml") {
			depth = c.Pick(4, 5)
		}
		if d.records == 4 {
			depth--
		}
		// Split by first operation to use several instances.
		nops := d.records + 3
		if len(d.bad) > 0 {
			nops++
		}
		for first := 0; first < nops; first++ {
			c.Case(fmt.Sprintf("get dataset=%s first=%d depth=%d", d.name, first, depth), func() error {
				return getExplore(c, d, first, nops, depth)
			})
			// The same histories, each on a fresh input, for the short ones.
			for second := 0; second < nops; second++ {
				for third := 0; third < nops; third++ {
					c.Case(fmt.Sprintf("get-fresh dataset=%s ops=%d,%d,%d", d.name, first, second, third), func() error {
						if err := getFresh(c, d, [][]int{{first, second, third}}); err != nil {
							return err
						}
						scribbled := d
						scribbled.name = "scribble-" + d.name // write in the maps of the records read, like the relationships do
						return getFresh(c, scribbled, [][]int{{first, second, third}})
					})
				}
			}
		}
	})
}

func getExplore(c *Ctx, d getDataset, first, nops, depth int) error {
	seqs := [][]int{}
	for _, t := range tuples(nops, depth-1) {
		if len(t) == depth-1 { // shorter histories are prefixes
			seqs = append(seqs, append([]int{first}, t...))
		}
	}
	return getFresh(c, d, seqs)
}

func scribble(r record.Record) {
	if all, err := r.All(); err == nil {
		for k := range all {
			all[k] = "overwritten"
		}
		all["added"] = true
	}
}

type openIter struct {
	it   record.Iterator
	end  func() error
	next int
}

func getFresh(c *Ctx, d getDataset, seqs [][]int) error {
	dir, clean := c.Dir()
	path := filepath.Join(dir, d.file)
	writeFile(path, d.content)
	st, err := NewStack(dir, d.yaml(path), "inputs")
	if err != nil {
		return violf(d.key+":refused", "%v", err)
	}
	defer c.Later(func() { st.Close(); clean() })
	in := st.Inputs["in"]
	base, err := drainRecords(in, d.records+3)
	if err != nil || len(base) != d.records {
		return violf(d.key+":iteration", "expected %d records, got %d, error %v", d.records, len(base), err)
	}
	want := []string{}
	pos := []int64{}
	for _, r := range base {
		s, err := recShow(r)
		if err != nil {
			return violf(d.key+":all", "%v", err)
		}
		want = append(want, s)
		pos = append(pos, r.Position())
	}
	for _, seq := range seqs {
		if c.Expired() {
			return nil
		}
		if err := getSequence(c, d, in, seq, want, pos); err != nil {
			return err
		}
		c.Trace()
	}
	return nil
}

func getSequence(c *Ctx, d getDataset, in input.Input, seq []int, want []string, pos []int64) (err error) {
	type heldRec struct {
		r record.Record
		i int
	}
	held := []heldRec{}
	iters := []*openIter{}
	defer func() {
		for _, it := range iters {
			_ = it.end()
		}
	}()
	n := d.records
	for k, op := range seq {
		c.Step(1)
		switch {
		case op < n:
			r, err := in.Get(pos[op])
			if err != nil || r == nil {
				return violf(d.key+":get-error", "%s: history %v step %d: Get of record %d at %d: %v", d.name, seq, k, op, pos[op], err)
			}
			got, err := recShow(r)
			if err != nil || got != want[op] {
				return violf(d.key+":get-wrong", "%s: history %v step %d: Get of record %d at %d: expected %s got %s (%v)", d.name, seq, k, op, pos[op], want[op], got, err)
			}
			if r.Position() != pos[op] {
				return violf(d.key+":get-position", "%s: record %d has position %d, expected %d", d.name, op, r.Position(), pos[op])
			}
			if strings.HasPrefix(d.name, "scribble-") {
				scribble(r)
			} else {
				held = append(held, heldRec{r, op})
			}
		case op == n: // open an iterator (at most two)
			if len(iters) == 2 {
				_ = iters[0].end()
				iters = iters[1:]
			}
			it, end, err := in.IterateAll()
			if err != nil {
				return violf(d.key+":iterate-error", "%v", err)
			}
			iters = append(iters, &openIter{it, end, 0})
		case op == n+1 || op == n+2: // advance an iterator
			which := op - n - 1
			if which >= len(iters) {
				continue
			}
			it := iters[which]
			r, err := it.it()
			if err != nil {
				return violf(d.key+":iterate-error", "%s: history %v step %d: %v", d.name, seq, k, err)
			}
			if it.next >= n {
				if r != nil {
					return violf(d.key+":iterate-past-end", "%s: history %v: record after the end", d.name, seq)
				}
				continue
			}
			if r == nil {
				return violf(d.key+":iterate-short", "%s: history %v step %d: ended at record %d", d.name, seq, k, it.next)
			}
			got, err := recShow(r)
			if err != nil || got != want[it.next] || r.Position() != pos[it.next] {
				return violf(d.key+":iterate-wrong", "%s: history %v step %d: record %d: expected %s@%d got %s@%d (%v)", d.name, seq, k, it.next, want[it.next], pos[it.next], got, r.Position(), err)
			}
			if strings.HasPrefix(d.name, "scribble-") {
				scribble(r)
			} else {
				held = append(held, heldRec{r, it.next})
			}
			it.next++
		default: // a position that is no record
			for _, b := range d.bad {
				_, _ = in.Get(b)
			}
		}
		prog := []int{}
		for _, it := range iters {
			prog = append(prog, it.next)
		}
		c.State(d.name, op, prog)
	}
	for _, h := range held {
		got, err := recShow(h.r)
		if err != nil || got != want[h.i] {
			return violf(d.key+":record-changed", "%s: after history %v the record %d handed out earlier reads %s (%v), expected %s", d.name, seq, h.i, got, err, want[h.i])
		}
	}
	c.Outcome(d.key)
	return nil
}

// bigRecords: three records, one of which is much bigger than the others (and
// than the buffers commonly put between a file and its reader), every sequence
// of three reads, against the values the file was made from.
func bigRecords(c *Ctx) {
	sizes := []int{1<<16 - 1, 1 << 16, 1<<16 + 1, 1<<17 + 5, 1<<20 + 3}
	if c.Thorough() {
		sizes = append(sizes, 1<<15, 1<<18+1, 1<<22+1, 1<<24+1)
	}
	kinds := []struct {
		name, file, begin, end string
		yaml                   func(string) string
		record                 func(big string) string
		prop                   string
	}{
		{"csv", "in.csv", "", "", func(p string) string { return csvShape{2, "", false}.yaml(p) }, func(v string) string { return "k," + v + "\n" }, "c1"},
		{"csv-multiline", "in.csv", "", "", func(p string) string { return csvShape{2, "", false}.yaml(p) }, func(v string) string { return "k,\"" + strings.ReplaceAll(v, "y", "\n") + "\"\n" }, "c1"},
		{"json", "in.json", "", "", jsonYaml, func(v string) string { return `{"c1":"` + v + `"}` + "\n" }, "c1"},
		{"json-many", "in.json", "", "", jsonYaml, func(v string) string {
			return `{"l":[` + strings.Repeat("1,\n", len(v)/3) + `1],"c1":"` + v + `"}`
		}, "c1"},
		{"xml", "in.xml", "<root>", "</root>", func(p string) string { return xmlYaml(p, "//item") }, func(v string) string {
			return `<item><name>` + v + "</name></item>\n"
		}, "name"},
		{"xml-many", "in.xml", "<root>", "</root>", func(p string) string { return xmlYaml(p, "//item") }, func(v string) string {
			return `<item>` + strings.Repeat("<z/>\n", len(v)/5) + `<name>` + v + "</name></item>\n"
		}, "name"},
	}
	seqs := fixedTuples(3, 3)
	c.Parallel(len(kinds)*len(sizes)*3, func(i int) {
		k, size, place := kinds[i/3/len(sizes)], sizes[i/3%len(sizes)], i%3
		c.Case(fmt.Sprintf("big records %s size=%d place=%d", k.name, size, place), func() error {
			values := []string{"a", "b", "c"}
			values[place] = strings.Repeat("xy", size/2) + strings.Repeat("z", size%2)
			text := k.begin
			for _, v := range values {
				text += k.record(v)
			}
			if k.name == "csv-multiline" {
				values[place] = strings.ReplaceAll(values[place], "y", "\n")
			}
			dir, clean := c.Dir()
			path := filepath.Join(dir, k.file)
			writeFile(path, text+k.end)
			st, err := NewStack(dir, k.yaml(path), "inputs")
			if err != nil {
				return violf("big:"+k.name+":refused", "%v", err)
			}
			defer c.Later(func() { st.Close(); clean() })
			in := st.Inputs["in"]
			check := func(what string, r record.Record, err error, want string) error {
				if err != nil || r == nil {
					return violf("big:"+k.name+":"+what, "a record of %d bytes: %v", size, err)
				}
				got, err := r.Get(k.prop)
				if text, ok := got.(string); err != nil || !ok || text != want {
					return violf("big:"+k.name+":"+what, "a value of %d bytes is read as %.60q (%d bytes), %v", len(want), show(got), len(show(got)), err)
				}
				return nil
			}
			recs, err := drainRecords(in, 6)
			if err != nil || len(recs) != 3 {
				return violf("big:"+k.name+":iteration", "expected 3 records, got %d, error %v", len(recs), err)
			}
			pos := []int64{}
			for ri, r := range recs {
				if err := check("iteration", r, nil, values[ri]); err != nil {
					return err
				}
				pos = append(pos, r.Position())
			}
			for _, seq := range seqs {
				for _, ri := range seq {
					c.Step(1)
					r, err := in.Get(pos[ri])
					if err := check("get", r, err, values[ri]); err != nil {
						return err
					}
				}
				c.State("big", k.name, size, place, seq)
				if c.Expired() || size > 1<<17 && !c.Thorough() && seq[0] == 1 {
					break // fewer histories of the biggest ones
				}
			}
			return nil
		})
	})
}
