package main

// C03: XML records carry exactly the configured values of each element.

import (
	"errors"
	"fmt"
	"path/filepath"
	"strings"

	"github.com/rodb-io/rodb/pkg/input/record"
)

type xmlRec struct {
	id   int
	name string
	tags []string
	obj  int // 0 absent, 1 present without k, 2 present with k, 3 present with k and nested list
}

func (r xmlRec) values() map[string]interface{} {
	tags := []interface{}{}
	for _, t := range r.tags {
		tags = append(tags, t)
	}
	lists := []interface{}{}
	for _, t := range r.tags {
		lists = append(lists, map[string]interface{}{"v": t, "has": t != ""})
	}
	var obj interface{}
	if r.obj > 0 {
		k := ""
		l := []interface{}{}
		if r.obj >= 2 {
			k = "kv"
		}
		if r.obj == 3 {
			l = []interface{}{int64(1), int64(22)}
		}
		obj = map[string]interface{}{"k": k, "l": l}
	}
	return map[string]interface{}{
		"id": int64(r.id), "name": r.name, "count": int64(len(r.tags)), "half": float64(r.id) / 2,
		"hasobj": r.obj > 0, "tags": tags, "lists": lists, "obj": obj,
	}
}

const xmlProps = `  properties:
  - name: id
    parser: integer
    xpath: string(@id)
  - name: name
    xpath: string(./name)
  - name: count
    parser: integer
    xpath: count(./tag)
  - name: half
    parser: float
    xpath: number(@id) div 2
  - name: hasobj
    parser: boolean
    xpath: boolean(./obj)
  - name: tags
    type: array
    xpath: ./tag
    items:
      type: primitive
      xpath: string(.)
  - name: lists
    type: array
    xpath: ./tag
    items:
      type: object
      xpath: "."
      properties:
      - name: v
        xpath: string(.)
      - name: has
        parser: boolean
        xpath: string-length(.) > 0
  - name: obj
    type: object
    xpath: ./obj
    properties:
    - name: k
      xpath: string(./k)
    - name: l
      type: array
      xpath: ./l
      items:
        type: primitive
        parser: integer
        xpath: number(.)
`

type xmlStyle struct {
	prolog   bool
	indent   bool
	comments bool
	cdata    bool
	squote   bool
	wrap     int // 0: <root><item>, 1: <root><list><item>, 2: also foreign siblings
}

func (s xmlStyle) String() string {
	return fmt.Sprintf("prolog=%v indent=%v comments=%v cdata=%v squote=%v wrap=%d", s.prolog, s.indent, s.comments, s.cdata, s.squote, s.wrap)
}

func xmlEsc(s string, cdata bool) string {
	if cdata && s != "" {
		return "<![CDATA[" + s + "]]>"
	}
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;").Replace(s)
}

func renderXml(recs []xmlRec, st xmlStyle) string {
	var b strings.Builder
	if st.prolog {
		b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
	}
	nl := ""
	if st.indent {
		nl = "\n  "
	}
	cm := ""
	if st.comments {
		cm = "<!-- item <item id='9'/> -->"
	}
	q := `"`
	if st.squote {
		q = "'"
	}
	b.WriteString("<root>" + nl)
	if st.wrap >= 1 {
		b.WriteString("<list>" + nl)
	}
	for _, r := range recs {
		if st.wrap == 2 {
			b.WriteString("<other id=\"77\"><name>no</name></other>" + nl)
		}
		fmt.Fprintf(&b, "<item id=%s%d%s>%s", q, r.id, q, nl)
		b.WriteString(cm)
		if r.name != "" {
			b.WriteString("<name>" + xmlEsc(r.name, st.cdata) + "</name>" + nl)
		} else if st.indent {
			b.WriteString("<name/>" + nl)
		}
		for _, t := range r.tags {
			b.WriteString("<tag>" + cm + xmlEsc(t, st.cdata) + "</tag>" + nl)
		}
		switch r.obj {
		case 1:
			b.WriteString("<obj/>" + nl)
		case 2:
			b.WriteString("<obj><k>kv</k></obj>" + nl)
		case 3:
			b.WriteString("<obj>" + nl + "<k>kv</k>" + cm + "<l>1</l><l>22</l></obj>" + nl)
		}
		b.WriteString("</item>" + nl)
	}
	if st.wrap >= 1 {
		b.WriteString("</list>" + nl)
	}
	b.WriteString("</root>")
	if st.indent {
		b.WriteString("\n")
	}
	return b.String()
}

func xmlYaml(path, recordXpath string) string {
	return fmt.Sprintf("inputs:\n- name: in\n  type: xml\n  path: %s\n  dieOnInputChange: false\n  recordXpath: %s\n", path, yamlQuote(recordXpath)) + xmlProps + yamlTail("in")
}

func init() {
	register("C03", "model_checking",
		"Record lists (up to 3 records over small value domains) are rendered under every rendering style and every record xpath form, and every prefix of chosen documents is tried as a truncated file; the real XML input must return the modelled values, counts, order and errors. A state is one distinct (records, style) pair; a transition is one record read.",
		runC03)
}

func runC03(c *Ctx) {
	scaleInput(c, "xml")
	names := []string{"", "a", "x<y&z>", "é]"}
	tagsDom := [][]string{{}, {"t"}, {"", "u"}, {"t", "t", "v"}}
	all := []xmlRec{}
	for _, n := range names {
		for _, t := range tagsDom {
			for o := 0; o < 4; o++ {
				all = append(all, xmlRec{7, n, t, o})
			}
		}
	}
	small := []xmlRec{{1, "a", nil, 0}, {2, "", []string{"t"}, 3}, {30, "é]", []string{"", "u"}, 2}}
	styles := []xmlStyle{}
	for m := 0; m < 32; m++ {
		for w := 0; w < 3; w++ {
			styles = append(styles, xmlStyle{m&1 != 0, m&2 != 0, m&4 != 0, m&8 != 0, m&16 != 0, w})
		}
	}
	one := func(recs []xmlRec, st xmlStyle, xp string) {
		text := renderXml(recs, st)
		c.Case(fmt.Sprintf("xml recs=%v style{%v} xpath=%s", recs, st, xp), func() error {
			return xmlIterCase(c, text, xp, recs, true)
		})
	}
	xpaths := func(st xmlStyle) []string {
		if st.wrap == 0 {
			return []string{"//item", "/root/item", "item", "/root/*"}
		}
		return []string{"//item", "/root/list/item", "//list/item"}
	}
	c.Parallel(len(all), func(i int) {
		for _, st := range styles {
			for xi, xp := range xpaths(st) {
				if xp == "item" || xi > 0 && !c.Thorough() && i%7 != 0 {
					continue
				}
				one([]xmlRec{all[i]}, st, xp)
			}
		}
	})
	tups := tuples(len(small), 3)
	c.Parallel(len(tups), func(i int) {
		recs := []xmlRec{}
		for j, k := range tups[i] {
			r := small[k]
			r.id += j * 100
			recs = append(recs, r)
		}
		for _, st := range styles {
			for xi, xp := range xpaths(st) {
				if xp == "item" || xi > 1 && !c.Thorough() {
					continue
				}
				one(recs, st, xp)
			}
		}
	})
	c03Names(c)
	c03Texts(c)
	// Truncated files: every prefix.
	cuts := []struct {
		recs []xmlRec
		st   xmlStyle
	}{
		{[]xmlRec{small[0], small[1]}, xmlStyle{}},
		{[]xmlRec{small[2], small[1]}, xmlStyle{true, true, true, true, false, 1}},
	}
	for _, cut := range cuts {
		text := renderXml(cut.recs, cut.st)
		c.Parallel(len(text)+1, func(i int) {
			c.Case(fmt.Sprintf("xml prefix %d of recs=%v style{%v}", i, cut.recs, cut.st), func() error {
				prefix := text[:i]
				complete := strings.Count(prefix, "</item>")
				whole := strings.Contains(prefix, "</root>")
				blank := strings.TrimSpace(prefix) == "" || (strings.HasSuffix(strings.TrimSpace(prefix), "?>"))
				if whole || blank {
					return xmlIterCase(c, prefix, "//item", cut.recs[:complete], true)
				}
				return xmlIterCase(c, prefix, "//item", cut.recs[:complete], false)
			})
		})
	}
	// Buffer edges: the second record slides over the 4096 byte boundary.
	c.Parallel(140, func(i int) {
		pad := 3950 + i
		recs := []xmlRec{{1, strings.Repeat("p", pad), nil, 0}, {2, "é<", []string{"t", "u"}, 3}, {3, "z", nil, 2}}
		c.Case(fmt.Sprintf("xml edge pad=%d", pad), func() error {
			return xmlIterCase(c, renderXml(recs, xmlStyle{indent: true}), "//item", recs, true)
		})
	})
}

// c03Read iterates a document whose records have the given properties (all strings).
func c03Read(c *Ctx, text, recordXpath string, props [][2]string, want [][]string) error {
	dir, clean := c.Dir()
	path := filepath.Join(dir, "in.xml")
	writeFile(path, text)
	y := fmt.Sprintf("inputs:\n- name: in\n  type: xml\n  path: %s\n  recordXpath: %s\n  properties:\n", path, yamlQuote(recordXpath))
	for _, p := range props {
		y += fmt.Sprintf("  - {name: %s, xpath: %s}\n", yamlQuote(p[0]), yamlQuote(p[1]))
	}
	st, err := NewStack(dir, y+yamlTail("in"), "inputs")
	if err != nil {
		return violf("refused", "%q: %v", clip(text, 300), err)
	}
	defer c.Later(func() { st.Close(); clean() })
	in := st.Inputs["in"]
	recs, err := drainRecords(in, len(want)+3)
	if err != nil || len(recs) != len(want) {
		return violf("record-count", "%q: expected %d records, got %d, %v", clip(text, 300), len(want), len(recs), err)
	}
	for i, r := range recs {
		again, err := in.Get(r.Position())
		if err != nil {
			return violf("get", "%q: record %d: %v", clip(text, 300), i, err)
		}
		for pi, p := range props {
			for _, x := range []record.Record{r, again} {
				got, err := x.Get(p[0])
				if err != nil || got != want[i][pi] {
					return violf("value", "%q: record %d, %s: expected %q, got %s (%v)", clip(text, 300), i, p[1], want[i][pi], show(got), err)
				}
			}
		}
		c.Step(2)
	}
	c.State(text)
	c.Trace()
	return nil
}

// c03Names: elements and attributes whatever their names, in particular those
// which have a meaning in other languages (HTML) or in XPath.
func c03Names(c *Ctx) {
	names := strings.Fields("a abbr area b base basefont bgsound body br button canvas col colgroup command dd div dl dt embed fieldset form frame frameset h1 head hr html i iframe img input isindex keygen label legend li link meta nobr noscript object ol optgroup option p param plaintext pre script select source span style table tbody td textarea tfoot th thead title tr track u ul wbr xmp svg math LINK Br item2 Item id name root " +
		"text node comment position last count string number not and or div mod true false self child parent descendant ancestor following preceding attribute namespace processing-instruction lang sum concat " +
		"_ _a a.b a-b a1 é É ü日本 x0 xs A AA xm")
	c.Parallel(len(names), func(i int) {
		n := names[i]
		c.Case("xml name "+n, func() error {
			text := fmt.Sprintf(`<root><item %[1]s="at"><%[1]s>one</%[1]s><z>1</z></item><item><%[1]s/><%[1]s><z>in</z></%[1]s><%[1]s a="b">two</%[1]s></item><item><z>3</z></item></root>`, n)
			step := "*[name()='" + n + "']"
			err := c03Read(c, text, "//item", [][2]string{{"v", "string(" + step + ")"}, {"z", "string(./z)"}, {"d", "string(.//z)"}, {"k", "string(@*)"}},
				[][]string{{"one", "1", "1", "at"}, {"", "", "in", ""}, {"", "3", "3", ""}})
			if err != nil {
				return err
			}
			// The records themselves have this name (the xpath library only reads ASCII ones).
			if strings.IndexFunc(n, func(r rune) bool { return r > 127 }) >= 0 {
				return nil
			}
			text = fmt.Sprintf(`<top><%[1]s id="1"><z>x</z></%[1]s>`+"\n"+`<%[1]s id="2"/><other/><%[1]s id="3">t<z>y</z></%[1]s></top>`, n)
			return c03Read(c, text, "//"+n, [][2]string{{"i", "string(@id)"}, {"z", "string(./z)"}, {"all", "string(.)"}},
				[][]string{{"1", "x", "x"}, {"2", "", ""}, {"3", "y", "ty"}})
		})
	})
}

// c03Texts: each character, in an element and in an attribute, in each way of writing it.
func c03Texts(c *Ctx) {
	runes := []rune{}
	for r := rune(0x20); r < 0x180; r++ {
		runes = append(runes, r)
	}
	runes = append(runes, '\t', '\n', 0x2028, 0x3000, 0xfeff, 0xfffd, 0x1f600, 0x10fffd, 0xd7ff, 0xe000)
	write := func(r rune, form int) (string, bool) {
		switch form {
		case 0:
			if named, ok := map[rune]string{'<': "&lt;", '>': "&gt;", '&': "&amp;", '"': "&quot;", '\'': "&apos;"}[r]; ok {
				return named, true
			}
			return string(r), true
		case 1:
			return fmt.Sprintf("&#%d;", r), true
		case 2:
			return fmt.Sprintf("&#x%X;", r), true
		}
		return "<![CDATA[" + string(r) + "]]>", true
	}
	c.Parallel(len(runes), func(i int) {
		r := runes[i]
		c.Case(fmt.Sprintf("xml character U+%04X", r), func() error {
			for form := 0; form < 4; form++ {
				w, _ := write(r, form)
				at := w
				if form == 3 {
					at, _ = write(r, 0)
				}
				text := `<root><item k="a` + at + `b"><name>` + w + `</name><t>x` + w + w + `y</t></item><item k="` + at + `"><name>` + w + `z</name><t>` + w + `<i/>` + w + `</t></item></root>`
				s := string(r)
				if err := c03Read(c, text, "//item", [][2]string{{"n", "string(./name)"}, {"t", "string(./t)"}, {"k", "string(@k)"}},
					[][]string{{s, "x" + s + s + "y", "a" + s + "b"}, {s + "z", s + s, s}}); err != nil {
					return err
				}
			}
			return nil
		})
	})
}

// xmlIterCase: complete says that the text is a whole document.
func xmlIterCase(c *Ctx, text, xp string, want []xmlRec, complete bool) error {
	dir, clean := c.Dir()
	path := filepath.Join(dir, "in.xml")
	writeFile(path, text)
	st, err := NewStack(dir, xmlYaml(path, xp), "inputs")
	if err != nil {
		return violf("refused", "%v", err)
	}
	defer c.Later(func() { st.Close(); clean() })
	recs, err := drainRecords(st.Inputs["in"], len(want)+3)
	if v := (*Viol)(nil); errors.As(err, &v) {
		return v
	}
	c.Step(len(recs) + 1)
	c.Trace()
	c.State(text, xp)
	c.Outcome(fmt.Sprintf("records=%d complete=%v", len(want), complete))
	if complete && err != nil {
		return violf("iteration-error", "expected %d records, got error %v after %d in %q", len(want), err, len(recs), clip(text, 500))
	}
	if !complete && err == nil {
		return violf("truncated", "the document is cut but iteration ended without an error after %d records: %q", len(recs), clip(text, 500))
	}
	if complete && len(recs) != len(want) || len(recs) > len(want) {
		return violf("record-count", "expected %d records, got %d in %q", len(want), len(recs), clip(text, 500))
	}
	last := int64(-1)
	for i, r := range recs {
		got, err := recShow(r)
		if err != nil {
			return violf("all-error", "record %d: %v", i, err)
		}
		if w := show(want[i].values()); got != w {
			return violf("record-values", "record %d: expected %s got %s", i, w, got)
		}
		if r.Position() <= last {
			return violf("positions-not-ascending", "record %d at %d after %d", i, r.Position(), last)
		}
		last = r.Position()
	}
	return nil
}
