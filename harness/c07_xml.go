package main

// C07: XML properties of every shape, against an independent reading of the file.

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/antchfx/xmlquery"
	"github.com/antchfx/xpath"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/parser"
)

type shape struct {
	kind, xpath, parser string
	items               *shape
	props               map[string]*shape
}

func (s *shape) String() string {
	switch s.kind {
	case "array":
		return fmt.Sprintf("array(%s of %s)", s.xpath, s.items)
	case "object":
		return fmt.Sprintf("object(%s of %v)", s.xpath, s.props)
	}
	return fmt.Sprintf("%s as %s", s.xpath, s.parser)
}

func (s *shape) config(name string) *input.XmlPropertyConfig {
	p := &input.XmlPropertyConfig{Name: name, Type: input.XmlInputPropertyType(s.kind), XPath: s.xpath, Parser: s.parser}
	if s.items != nil {
		p.Items = s.items.config("")
	}
	for _, n := range []string{"a", "b"} {
		if x := s.props[n]; x != nil {
			p.Properties = append(p.Properties, x.config(n))
		}
	}
	return p
}

// evaluated and selected call the XPath library, which panics on some expressions.
func evaluated(node *xmlquery.Node, expr string) (v interface{}, ok bool) {
	defer func() { _ = recover() }()
	return xpath.MustCompile(expr).Evaluate(xmlquery.CreateXPathNavigator(node)), true
}

func selected(node *xmlquery.Node, expr string) (nodes []*xmlquery.Node, ok bool) {
	defer func() { _ = recover() }()
	return xmlquery.QuerySelectorAll(node, xpath.MustCompile(expr)), true
}

func outputXml(it *xpath.NodeIterator) (text string, ok bool) {
	defer func() { _ = recover() }()
	for it.MoveNext() {
		text += it.Current().(*xmlquery.NodeNavigator).Current().OutputXML(true)
	}
	return text, true
}

var anyOutcome = &struct{}{}

// read gives the value at a path; ok is false when it must be an error.
func (s *shape) read(node *xmlquery.Node, path []string, ps parser.List) (v interface{}, ok bool) {
	switch s.kind {
	case "array":
		nodes, ok := selected(node, s.xpath)
		if !ok {
			return nil, false
		}
		if len(path) == 0 {
			out := []interface{}{}
			for _, n := range nodes {
				v, ok := s.items.read(n, nil, ps)
				if !ok {
					return nil, false
				}
				if v == anyOutcome {
					return anyOutcome, true
				}
				out = append(out, v)
			}
			return out, true
		}
		i, err := strconv.Atoi(path[0])
		if err != nil {
			return nil, false
		}
		if i < 0 || i >= len(nodes) {
			return nil, true
		}
		return s.items.read(nodes[i], path[1:], ps)
	case "object":
		nodes, ok := selected(node, s.xpath)
		if !ok {
			return nil, false
		}
		if len(nodes) == 0 {
			return nil, true
		}
		if len(nodes) > 1 {
			return nil, false
		}
		if len(path) == 0 {
			out := map[string]interface{}{}
			for n, x := range s.props {
				v, ok := x.read(nodes[0], nil, ps)
				if !ok {
					return nil, false
				}
				if v == anyOutcome {
					return anyOutcome, true
				}
				out[n] = v
			}
			return out, true
		}
		x := s.props[path[0]]
		if x == nil {
			return nil, true
		}
		return x.read(nodes[0], path[1:], ps)
	}
	got, ok := evaluated(node, s.xpath)
	if !ok {
		return nil, false
	}
	if text, isText := got.(string); isText {
		v, err := ps[s.parser].Parse(text)
		if err != nil {
			return nil, false
		}
		r := walk(v, path, false)
		switch r.kind {
		case "value":
			return r.val, true
		case "missing", "negative":
			return nil, true
		case "below-null":
			return anyOutcome, true
		}
		return nil, false
	}
	if len(path) > 0 {
		return nil, false
	}
	switch x := got.(type) {
	case float64:
		if s.parser == "float" {
			return x, true
		}
		if s.parser == "integer" && (math.IsNaN(x) || x < -(1<<63) || x >= 1<<63) {
			return nil, false // no integer has that value
		}
		return int64(x), s.parser == "integer"
	case bool:
		return x, s.parser == "boolean"
	case *xpath.NodeIterator:
		if s.parser != "string" {
			return nil, false
		}
		return outputXml(x)
	}
	return nil, false
}

func c07Shapes(c *Ctx) {
	doc := `<root><item id="1"><name>a</name><tag>t</tag><tag>2</tag><obj k="x"><l>1</l><l>2.5</l></obj><j>{"a":[1,{"b":null}],"0":"z"}</j></item>` +
		`<item id="x"><tag>true</tag><obj><l>3</l></obj><obj><l/></obj></item><item><name>a b</name><j>null</j></item><item id=""><tag/><obj/><j>[[1]]</j></item></root>`
	prims := []string{"string(@id)", "string(./name)", "count(./tag)", "boolean(./obj)", "./tag", "./nowhere", ".", "@id", "number(./name)", "string(./j)", "substring(./name, 'x')", "count(1)", "concat('a', ./name)", "string(.)", "1 div 0", "-1 div 0", "9223372036854774784", "9223372036854775808", "-9223372036854775808", "-9223372036854777856", "1 div 3", "-7 div 2", "string-length(.) > 1", "string(./tag[substring(., 'x')])", "./tag[substring(., 'x')]", "name()"}
	parsers := []string{"string", "integer", "float", "boolean", "json", "words"}
	selectors := []string{"./tag", "./obj", "./obj/l", "./nowhere", ".", "@id", "count(1)", "string(@id)", "./tag[2]", "substring(./name, 'x')", "*", "./tag[substring(., 'x')]", "count(./tag)"}
	deepPrims := [][2]string{{"string(.)", "string"}, {"string(./j)", "json"}, {"count(./l)", "integer"}, {"count(1)", "float"}, {"string(.)", "words"}}
	deepSelectors := []string{"./tag", "./obj", "./l", ".", "./nowhere", "count(1)", "./tag[substring(., 'x')]"}
	shapes := []*shape{}
	for _, p := range prims {
		for _, ps := range parsers {
			leaf := &shape{kind: "primitive", xpath: p, parser: ps}
			shapes = append(shapes, leaf)
			for _, s := range selectors {
				shapes = append(shapes, &shape{kind: "array", xpath: s, items: leaf})
				shapes = append(shapes, &shape{kind: "object", xpath: s, props: map[string]*shape{"a": leaf}})
			}
		}
	}
	wrap := func(x *shape) []*shape {
		out := []*shape{}
		for _, s := range deepSelectors {
			out = append(out, &shape{kind: "array", xpath: s, items: x}, &shape{kind: "object", xpath: s, props: map[string]*shape{"a": x}},
				&shape{kind: "object", xpath: s, props: map[string]*shape{"a": {kind: "primitive", xpath: "string(.)", parser: "string"}, "b": x}})
		}
		return out
	}
	level := []*shape{}
	for _, p := range deepPrims {
		level = append(level, &shape{kind: "primitive", xpath: p[0], parser: p[1]})
	}
	for depth := 0; depth < c.Pick(2, 3); depth++ {
		next := []*shape{}
		for _, x := range level {
			next = append(next, wrap(x)...)
		}
		level = next
		if depth > 0 {
			shapes = append(shapes, level...)
		}
	}
	segs := []string{"0", "1", "a", "b", "zz", "-1"}
	paths := tuples(len(segs), c.Pick(3, 4))
	const batch = 24
	c.ParallelN(8, (len(shapes)+batch-1)/batch, func(b int) {
		c.Case(fmt.Sprintf("xml shapes %d", b), func() error {
			dir, clean := c.Dir()
			defer clean()
			file := filepath.Join(dir, "in.xml")
			writeFile(file, doc)
			pcfg := map[string]parser.Config{
				"string": &parser.StringConfig{Name: "string"}, "integer": &parser.IntegerConfig{Name: "integer"}, "float": &parser.FloatConfig{Name: "float", DecimalSeparator: "."},
				"boolean": &parser.BooleanConfig{Name: "boolean", TrueValues: []string{"true"}, FalseValues: []string{"false"}}, "json": &parser.JsonConfig{Name: "json"},
				"words": &parser.SplitConfig{Name: "words", Delimiter: ptr(" "), Parser: "string"},
			}
			for _, p := range pcfg {
				if err := p.Validate(pcfg, quietEntry()); err != nil {
					return violf("refused", "parser: %v", err)
				}
			}
			ps, err := parser.NewFromConfigs(pcfg)
			must(err)
			f, err := os.Open(file)
			must(err)
			root, err := xmlquery.Parse(f)
			f.Close()
			must(err)
			items := xmlquery.Find(root, "//item")
			for _, s := range shapes[b*batch : min(len(shapes), (b+1)*batch)] {
				cfg := &input.XmlConfig{Name: "in", Path: file, RecordXPath: "//item", Properties: []*input.XmlPropertyConfig{s.config("p")}, DieOnInputChange: ptr(false)}
				if err := cfg.Validate(pcfg, quietEntry()); err != nil {
					return violf("refused", "%s: %v", s, err)
				}
				in, err := input.NewXml(cfg, ps)
				if err != nil {
					return violf("refused", "%s: %v", s, err)
				}
				recs, err := drainRecords(in, len(items)+1)
				in.Close()
				if err != nil || len(recs) != len(items) {
					return violf("iteration", "%s: %d records, %v", s, len(recs), err)
				}
				for i, r := range recs {
					judge := func(how string, got interface{}, err error, path []string) error {
						c.Step(1)
						want, ok := s.read(items[i], path, ps)
						what := fmt.Sprintf("property %s of record %d: %s", s, i, how)
						switch {
						case want == anyOutcome:
							c.Outcome("xml-any")
							return nil
						case ok && err != nil:
							return violf("xml-error", "%s: expected %s, got error %v", what, show(want), err)
						case !ok && err == nil:
							return violf("xml-no-error", "%s: expected an error, got %s", what, show(got))
						case !ok:
							c.Outcome("xml-error")
						case show(got) != show(want):
							return violf("xml-value", "%s: expected %s, got %s", what, show(want), show(got))
						default:
							c.Outcome("xml-value")
						}
						return nil
					}
					c.State("shape", s.String(), i)
					all, err := r.All()
					if err := judge("All()", all["p"], err, nil); err != nil {
						return err
					}
					for _, t := range paths {
						path := []string{}
						for _, k := range t {
							path = append(path, segs[k])
						}
						name := strings.Join(append([]string{"p"}, path...), ".")
						got, err := r.Get(name)
						if err := judge("Get("+name+")", got, err, path); err != nil {
							return err
						}
					}
				}
				c.Trace()
			}
			return nil
		})
	})
}
