package main

// C28: a configuration is refused with an error or it works; never a crash.

import (
	"crypto/tls"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/antchfx/xpath"
	"github.com/rodb-io/rodb/pkg/config"
	"github.com/rodb-io/rodb/pkg/index"
	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/output/relationship"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/rodb-io/rodb/pkg/service"
	"golang.org/x/text/encoding/ianaindex"
	yaml "gopkg.in/yaml.v2"
)

func init() {
	register("C28", "model_checking",
		"Every single change (thorough: also every pair of changes of the same component) of valid configurations that use every documented setting of every component: each value removed, nulled, emptied, given every other type, out of range, duplicated, renamed, redirected to every other name, type, property, file or enumerated value; unknown, repeated and renamed keys at every level; each component and property consistently given odd names (same answers). Each one is loaded, built, asked through every output and route, and closed by the real code, and the result compared with an independent validator written from the documented schemas (must be refused, must work, unspecified). A state is a configuration with its verdict; a transition is a loading, a building stage or a request.",
		runC28)
}

// ---- a configuration as a tree -------------------------------------------

type cnode struct {
	kind  byte // 's' scalar, 'l' list, 'm' mapping
	raw   string
	items []*cnode
	keys  []string
}

func cscalar(raw string) *cnode { return &cnode{kind: 's', raw: raw} }
func cstr(s string) *cnode      { return cscalar(yamlQuote(s)) }
func clist(items ...*cnode) *cnode {
	return &cnode{kind: 'l', items: items}
}

func (n *cnode) clone() *cnode {
	m := &cnode{kind: n.kind, raw: n.raw, keys: append([]string{}, n.keys...)}
	for _, x := range n.items {
		m.items = append(m.items, x.clone())
	}
	return m
}

// in is the tree with the name of the directory of a case.
func (n *cnode) in(dir string) *cnode {
	m := n.clone()
	var walk func(n *cnode)
	walk = func(n *cnode) {
		n.raw = strings.ReplaceAll(n.raw, "DIR", dir)
		for _, x := range n.items {
			walk(x)
		}
	}
	walk(m)
	return m
}

func (n *cnode) text(b *strings.Builder) {
	switch n.kind {
	case 's':
		b.WriteString(n.raw)
	case 'l':
		b.WriteByte('[')
		for i, x := range n.items {
			if i > 0 {
				b.WriteString(", ")
			}
			x.text(b)
		}
		b.WriteByte(']')
	default:
		b.WriteByte('{')
		for i, x := range n.items {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(yamlQuote(n.keys[i]))
			b.WriteString(": ")
			x.text(b)
		}
		b.WriteByte('}')
	}
}

func (n *cnode) yaml() string {
	var b strings.Builder
	for i, x := range n.items {
		b.WriteString(yamlQuote(n.keys[i]))
		b.WriteString(": ")
		x.text(&b)
		b.WriteByte('\n')
	}
	if len(n.items) == 0 {
		return "{}\n"
	}
	return b.String()
}

// get is nil when the key is absent or null.
func (n *cnode) get(key string) *cnode {
	if n == nil || n.kind != 'm' {
		return nil
	}
	for i, k := range n.keys {
		if k == key {
			if n.items[i].null() {
				return nil
			}
			return n.items[i]
		}
	}
	return nil
}

func (n *cnode) null() bool { return n.kind == 's' && (n.raw == "null" || n.raw == "~") }

func (n *cnode) list() []*cnode {
	if n == nil || n.kind != 'l' {
		return nil
	}
	return n.items
}

// value is the text of a scalar, as a string setting receives it.
func (n *cnode) value() string {
	if n == nil || n.kind != 's' || n.null() {
		return ""
	}
	if strings.HasPrefix(n.raw, `"`) {
		var s string
		must(yaml.Unmarshal([]byte(n.raw), &s))
		return s
	}
	return n.raw
}

func (n *cnode) str(key string) string { return n.get(key).value() }
func (n *cnode) isTrue(key string) bool {
	return n.get(key).value() == "true"
}

func cparse(text string) *cnode {
	var v interface{}
	var ms yaml.MapSlice
	must(yaml.Unmarshal([]byte(text), &ms))
	v = ms
	return cbuild(v)
}

func cbuild(v interface{}) *cnode {
	switch t := v.(type) {
	case yaml.MapSlice:
		n := &cnode{kind: 'm'}
		for _, it := range t {
			n.keys = append(n.keys, fmt.Sprint(it.Key))
			n.items = append(n.items, cbuild(it.Value))
		}
		return n
	case []interface{}:
		n := &cnode{kind: 'l'}
		for _, x := range t {
			n.items = append(n.items, cbuild(x))
		}
		return n
	case string:
		return cstr(t)
	case nil:
		return cscalar("null")
	default:
		return cscalar(fmt.Sprint(t))
	}
}

// ---- the documented schemas ----------------------------------------------

type cfield struct {
	name string
	kind string // str, ref, path, db, bool, uint, strs, ints, {obj}, [obj], <obj> (named entries)
	req  bool
	def  string // documented default, as a scalar
}

var cspecs = map[string][]cfield{
	"config": {{"parsers", "[parser]", false, ""}, {"inputs", "[input]", false, ""}, {"indexes", "[index]", false, ""},
		{"outputs", "[output]", false, ""}, {"services", "[service]", false, ""}},
	"parser/string":     {{"name", "str", true, ""}, {"type", "str", true, ""}, {"convertFromCharset", "charset", false, `""`}},
	"parser/integer":    {{"name", "str", true, ""}, {"type", "str", true, ""}, {"ignoreCharacters", "str", false, `""`}},
	"parser/float":      {{"name", "str", true, ""}, {"type", "str", true, ""}, {"decimalSeparator", "str", true, ""}, {"ignoreCharacters", "str", false, `""`}},
	"parser/boolean":    {{"name", "str", true, ""}, {"type", "str", true, ""}, {"trueValues", "strs", true, ""}, {"falseValues", "strs", true, ""}},
	"parser/json":       {{"name", "str", true, ""}, {"type", "str", true, ""}},
	"parser/split":      {{"name", "str", true, ""}, {"type", "str", true, ""}, {"delimiter", "regexp", true, ""}, {"delimiterIsRegexp", "bool", false, "false"}, {"parser", "ref", true, ""}},
	"input/csv":         {{"name", "str", true, ""}, {"type", "str", true, ""}, {"path", "path", true, ""}, {"dieOnInputChange", "bool", false, "true"}, {"ignoreFirstRow", "bool", false, "false"}, {"autodetectColumns", "bool", false, "false"}, {"delimiter", "delim", false, `","`}, {"columns", "[column]", false, ""}},
	"column":            {{"name", "str", true, ""}, {"parser", "ref", false, `"string"`}},
	"input/json":        {{"name", "str", true, ""}, {"type", "str", true, ""}, {"path", "path", true, ""}, {"dieOnInputChange", "bool", false, "true"}},
	"input/xml":         {{"name", "str", true, ""}, {"type", "str", true, ""}, {"path", "path", true, ""}, {"dieOnInputChange", "bool", false, "true"}, {"recordXpath", "xpath", true, ""}, {"properties", "[xmlprop]", true, ""}},
	"xmlprop":           {{"name", "str", true, ""}, {"type", "xmltype", false, `"primitive"`}, {"xpath", "xpath", true, ""}, {"parser", "ref", false, `"string"`}, {"items", "{xmlitem}", false, ""}, {"properties", "[xmlprop]", false, ""}},
	"xmlitem":           {{"name", "str", false, ""}, {"type", "xmltype", false, `"primitive"`}, {"xpath", "xpath", true, ""}, {"parser", "ref", false, `"string"`}, {"items", "{xmlitem}", false, ""}, {"properties", "[xmlprop]", false, ""}},
	"index/map":         {{"name", "str", true, ""}, {"type", "str", true, ""}, {"input", "ref", true, ""}, {"properties", "strs", true, ""}},
	"index/noop":        {{"name", "str", true, ""}, {"type", "str", true, ""}},
	"index/sqlite":      {{"name", "str", true, ""}, {"type", "str", true, ""}, {"dsn", "db", true, ""}, {"input", "ref", true, ""}, {"properties", "[sqliteprop]", true, ""}},
	"sqliteprop":        {{"name", "str", true, ""}, {"collate", "collate", false, `"binary"`}},
	"index/fts5":        {{"name", "str", true, ""}, {"type", "str", true, ""}, {"dsn", "db", true, ""}, {"input", "ref", true, ""}, {"prefix", "ints", false, ""}, {"tokenize", "tokenize", false, `"unicode61"`}, {"properties", "strs", true, ""}},
	"index/wildcard":    {{"name", "str", true, ""}, {"type", "str", true, ""}, {"path", "db", true, ""}, {"input", "ref", true, ""}, {"ignoreCase", "bool", false, "false"}, {"properties", "strs", true, ""}},
	"output/jsonObject": {{"name", "str", true, ""}, {"type", "str", true, ""}, {"input", "ref", true, ""}, {"parameters", "<parameter>", true, ""}, {"relationships", "<relationship>", false, ""}},
	"output/jsonArray":  {{"name", "str", true, ""}, {"type", "str", true, ""}, {"input", "ref", true, ""}, {"limit", "{limit}", false, ""}, {"offset", "{offset}", false, ""}, {"parameters", "<parameter>", false, ""}, {"relationships", "<relationship>", false, ""}},
	"limit":             {{"default", "uint", false, "100"}, {"max", "uint", false, "1000"}, {"parameter", "str", false, `"limit"`}},
	"offset":            {{"parameter", "str", false, `"offset"`}},
	"parameter":         {{"property", "str", true, ""}, {"index", "ref", false, `"default"`}, {"parser", "ref", false, `"string"`}},
	"relationship":      {{"input", "ref", true, ""}, {"isArray", "bool", false, "false"}, {"limit", "uint", false, ""}, {"sort", "[sort]", false, ""}, {"match", "[match]", true, ""}, {"relationships", "<relationship>", false, ""}},
	"sort":              {{"property", "str", true, ""}, {"ascending", "bool", false, "true"}},
	"match":             {{"parentProperty", "str", true, ""}, {"childProperty", "str", true, ""}, {"childIndex", "ref", false, `"default"`}},
	"service/http":      {{"name", "str", true, ""}, {"type", "str", true, ""}, {"http", "{http}", false, ""}, {"https", "{https}", false, ""}, {"errorsType", "str", false, `"application/json"`}, {"routes", "[route]", true, ""}},
	"http":              {{"listen", "listen", false, `"127.0.0.1:0"`}},
	"https":             {{"listen", "listen", false, `"127.0.0.1:0"`}, {"certificatePath", "path", true, ""}, {"privateKeyPath", "path", true, ""}},
	"route":             {{"path", "str", true, ""}, {"output", "ref", true, ""}},
}

var ctyped = map[string]bool{"parser": true, "input": true, "index": true, "output": true, "service": true}

// cspec is the schema of an object, from its kind and its type.
func cspec(kind string, n *cnode) []cfield {
	if ctyped[kind] {
		return cspecs[kind+"/"+n.str("type")]
	}
	return cspecs[kind]
}

// ---- the verdict on a configuration --------------------------------------

type cverdict struct {
	refuse []string
	unsure []string
	data   int // how many of unsure only say that indexing the records may fail
}

func (v *cverdict) no(format string, args ...interface{}) {
	v.refuse = append(v.refuse, fmt.Sprintf(format, args...))
}
func (v *cverdict) maybe(format string, args ...interface{}) {
	v.unsure = append(v.unsure, fmt.Sprintf(format, args...))
}

func (v *cverdict) String() string {
	switch {
	case len(v.refuse) > 0:
		return "must be refused: " + strings.Join(v.refuse, "; ")
	case len(v.unsure) > 0:
		return "unspecified: " + strings.Join(v.unsure, "; ")
	}
	return "must work"
}

var cInteger = regexp.MustCompile(`^-?[0-9]+$`)

func (v *cverdict) shape(kind string, n *cnode, at string) {
	if n.null() {
		v.no("%s is null", at)
		return
	}
	if n.kind != 'm' {
		v.no("%s is not an object", at)
		return
	}
	seen := map[string]bool{}
	for _, k := range n.keys {
		if seen[k] {
			v.no("%s.%s is given twice", at, k)
		}
		seen[k] = true
	}
	if ctyped[kind] {
		t := n.get("type")
		if t.value() == "" {
			v.no("%s has no type", at)
			return
		}
		if !strings.HasPrefix(t.raw, `"`) {
			v.no("%s.type is not a string", at)
			return
		}
	}
	spec := cspec(kind, n)
	if spec == nil {
		v.no("%s has an unknown type", at)
		return
	}
	fields := map[string]cfield{}
	for _, f := range spec {
		fields[f.name] = f
		if f.req && n.get(f.name) == nil {
			if (kind == "match" || kind == "sort") && strings.Contains(strings.ToLower(f.name), "property") {
				v.maybe("%s.%s is missing", at, f.name) // validated at runtime
			} else if kind == "xmlitem" || strings.HasPrefix(kind, "index") && f.name == "properties" {
				v.maybe("%s.%s is missing", at, f.name)
			} else {
				v.no("%s.%s is missing", at, f.name)
			}
		}
	}
	for i, k := range n.keys {
		f, known := fields[k]
		if !known {
			v.no("%s.%s is unknown", at, k)
			continue
		}
		v.field(f, n.items[i], at+"."+k)
	}
}

func (v *cverdict) field(f cfield, n *cnode, at string) {
	if n.null() {
		if strings.HasPrefix(f.kind, "{") && f.kind != "{xmlitem}" {
			v.maybe("%s is null", at)
		}
		return // like a missing one
	}
	switch f.kind[0] {
	case '{':
		v.shape(strings.Trim(f.kind, "{}"), n, at)
		return
	case '[':
		if n.kind != 'l' {
			v.no("%s is not a list", at)
			return
		}
		for i, x := range n.items {
			v.shape(strings.Trim(f.kind, "[]"), x, fmt.Sprintf("%s[%d]", at, i))
		}
		return
	case '<':
		if n.kind != 'm' {
			v.no("%s is not an object", at)
			return
		}
		seen := map[string]bool{}
		for i, x := range n.items {
			if seen[n.keys[i]] {
				v.no("%s.%s is given twice", at, n.keys[i])
			}
			seen[n.keys[i]] = true
			v.shape(strings.Trim(f.kind, "<>"), x, at+"."+n.keys[i])
		}
		return
	}
	scalar := func(kind string, n *cnode, at string) {
		if n.null() {
			v.maybe("%s is null", at)
			return
		}
		if n.kind != 's' {
			v.no("%s is not a scalar", at)
			return
		}
		quoted := strings.HasPrefix(n.raw, `"`)
		switch kind {
		case "bool":
			if quoted {
				switch strings.ToLower(n.value()) {
				case "true", "false", "yes", "no", "on", "off", "y", "n":
					v.maybe("%s is a string", at)
				default:
					v.no("%s is not a boolean", at)
				}
			} else if n.raw != "true" && n.raw != "false" {
				v.no("%s is not a boolean", at)
			}
		case "uint":
			if n.raw == "1.5" {
				v.maybe("%s is truncated by the yaml decoder", at)
			} else if quoted || !cInteger.MatchString(n.raw) || strings.HasPrefix(n.raw, "-") {
				if quoted && cInteger.MatchString(n.value()) {
					v.maybe("%s is a string", at)
				} else {
					v.no("%s is not a positive integer", at)
				}
			} else if x, err := strconv.ParseUint(n.raw, 10, 64); err != nil {
				v.no("%s is too big", at)
			} else if x == 0 {
				v.maybe("%s is 0", at)
			}
		case "int":
			if n.raw == "1.5" {
				v.maybe("%s is truncated by the yaml decoder", at)
			} else if quoted || !cInteger.MatchString(n.raw) {
				v.no("%s is not an integer", at)
			} else if _, err := strconv.ParseInt(n.raw, 10, 64); err != nil {
				v.no("%s is too big", at)
			}
		default:
			if !quoted {
				v.maybe("%s is not a string", at)
			}
		}
	}
	switch f.kind {
	case "strs", "ints":
		if n.kind != 'l' {
			v.no("%s is not a list", at)
			return
		}
		for i, x := range n.items {
			scalar(strings.TrimSuffix(f.kind, "s"), x, fmt.Sprintf("%s[%d]", at, i))
		}
	default:
		scalar(f.kind, n, at)
	}
}

func isFile(path string) (bool, string) {
	info, err := os.Stat(path)
	if err != nil {
		return false, "does not exist"
	}
	if info.IsDir() {
		return false, "is a directory"
	}
	return true, ""
}

// rules checks what the documentation says beyond the shapes.
func (v *cverdict) rules(n *cnode) {
	unique := func(at string, items []*cnode, key func(*cnode) string) {
		seen := map[string]bool{}
		for _, x := range items {
			if x.kind == 's' && x.null() {
				continue
			}
			k := key(x)
			if seen[k] {
				v.no("%s: %q is there twice", at, k)
			}
			seen[k] = true
		}
	}
	name := func(x *cnode) string { return x.str("name") }
	named := func(at string, x *cnode) {
		if x.kind == 'm' && x.str("name") == "" {
			v.no("%s has no name", at)
		}
	}
	parsers := map[string]*cnode{"string": cparse("type: string"), "integer": cparse("type: integer"),
		"float": cparse("type: float"), "boolean": cparse("type: boolean"), "json": cparse("type: json")}
	inputs := map[string]*cnode{}
	indexes := map[string]*cnode{"default": cparse("type: noop")}
	outputs := map[string]*cnode{}
	for i, group := range []string{"parsers", "inputs", "indexes", "outputs", "services"} {
		into := []map[string]*cnode{parsers, inputs, indexes, outputs, nil}[i]
		items := n.get(group).list()
		unique(group, items, name)
		for j, x := range items {
			named(fmt.Sprintf("%s[%d]", group, j), x)
			if into != nil && x.kind == 'm' {
				into[x.str("name")] = x
			}
		}
	}
	ref := func(at string, into map[string]*cnode, name, def string) *cnode {
		if name == "" {
			name = def
		}
		x, exists := into[name]
		if !exists {
			v.no("%s: %q does not exist", at, name)
		}
		return x
	}
	aFile := func(at, path string) {
		if ok, why := isFile(path); !ok {
			v.no("%s %q %s", at, path, why)
		}
	}
	anXpath := func(at, x string) {
		if x == "" {
			v.maybe("%s is empty", at)
		} else if _, err := xpath.Compile(x); err != nil {
			v.no("%s is invalid", at)
		}
	}
	for nm, p := range parsers {
		at := "parser " + nm
		switch p.str("type") {
		case "string":
			if cs := p.str("convertFromCharset"); cs != "" {
				if e, err := ianaindex.MIME.Encoding(cs); err != nil || e == nil {
					v.no("%s: unknown or unsupported charset", at)
				}
			}
		case "float":
			if p.get("decimalSeparator") != nil && p.str("decimalSeparator") == "" {
				v.no("%s: no decimal separator", at)
			}
		case "boolean":
			for _, k := range []string{"trueValues", "falseValues"} {
				if l := p.get(k); l != nil && len(l.items) == 0 {
					v.no("%s: no %s", at, k)
				}
			}
		case "split":
			if p.isTrue("delimiterIsRegexp") {
				if _, err := regexp.Compile(p.str("delimiter")); err != nil {
					v.no("%s: invalid expression", at)
				}
			}
			seen := map[string]bool{nm: true}
			for cur := p; cur.str("type") == "split"; {
				next := cur.str("parser")
				cur = ref(at, parsers, next, "")
				if cur == nil {
					break
				}
				if seen[next] {
					v.no("%s: endless recursion", at)
					break
				}
				seen[next] = true
			}
		}
	}
	var xmlProps func(at string, items []*cnode)
	var xmlProp func(at string, x *cnode)
	xmlProps = func(at string, items []*cnode) {
		unique(at, items, name)
		for i, x := range items {
			named(fmt.Sprintf("%s[%d]", at, i), x)
			xmlProp(fmt.Sprintf("%s[%d]", at, i), x)
		}
	}
	xmlProp = func(at string, x *cnode) {
		if x.kind != 'm' {
			return
		}
		anXpath(at+".xpath", x.str("xpath"))
		t := x.str("type")
		if t == "" {
			t = "primitive"
		}
		props := x.get("properties")
		switch t {
		case "primitive":
			ref(at+".parser", parsers, x.str("parser"), "string")
		case "array":
			if x.get("items") == nil {
				v.no("%s.items is missing", at)
			} else {
				xmlProp(at+".items", x.get("items"))
			}
		case "object":
			if len(props.list()) == 0 {
				v.no("%s.properties is missing", at)
			}
			xmlProps(at+".properties", props.list())
		default:
			v.no("%s.type is unknown", at)
		}
		if t != "primitive" && x.str("parser") != "" {
			v.no("%s.parser is not for %s", at, t)
		}
		if t != "array" && x.get("items") != nil {
			v.no("%s.items is not for %s", at, t)
		}
		if t != "object" && len(props.list()) > 0 {
			v.no("%s.properties is not for %s", at, t)
		}
	}
	for nm, in := range inputs {
		at := "input " + nm
		aFile(at+".path", in.str("path"))
		switch in.str("type") {
		case "csv":
			cols := in.get("columns").list()
			if in.isTrue("autodetectColumns") != (len(cols) == 0) {
				v.no("%s: autodetectColumns or columns", at)
			}
			if d := in.str("delimiter"); len([]rune(d)) > 1 {
				v.no("%s: long delimiter", at)
			} else if len(d) > 1 {
				v.maybe("%s: delimiter is not ascii", at)
			} else if d == "\"" || d == "\n" || d == "\r" || d == "\x00" {
				v.maybe("%s: impossible delimiter", at)
			}
			unique(at+".columns", cols, name)
			for i, col := range cols {
				named(fmt.Sprintf("%s.columns[%d]", at, i), col)
				ref(at+".columns", parsers, col.str("parser"), "string")
			}
		case "xml":
			anXpath(at+".recordXpath", in.str("recordXpath"))
			if in.get("properties") != nil && len(in.get("properties").list()) == 0 {
				v.no("%s: no properties", at)
			}
			xmlProps(at+".properties", in.get("properties").list())
		}
		if base := filepath.Base(in.str("path")); base != nm+"."+in.str("type") {
			v.maybe("%s: the file may not be a %s", at, in.str("type"))
		}
	}
	plain := func(x *cnode) string { return x.value() }
	for nm, ix := range indexes {
		at := "index " + nm
		t := ix.str("type")
		if t == "noop" {
			continue
		}
		in := ref(at+".input", inputs, ix.str("input"), "")
		props := ix.get("properties").list()
		if len(props) == 0 {
			v.maybe("%s: no properties", at)
		}
		key := plain
		if t == "sqlite" {
			key = name
		}
		unique(at+".properties", props, key)
		for i, p := range props {
			pa := fmt.Sprintf("%s.properties[%d]", at, i)
			if t == "sqlite" {
				named(pa, p)
				if co := strings.ToLower(p.str("collate")); co != "" && co != "binary" && co != "nocase" && co != "rtrim" {
					v.no("%s: unknown collation", pa)
				}
			}
			if known := c28Properties(in); known != nil && !known[key(p)] {
				v.maybe("%s does not exist", pa)
			}
			if in.str("type") == "csv" {
				for _, col := range in.get("columns").list() {
					if ps := parsers[col.str("parser")].str("type"); col.str("name") == key(p) && (ps == "split" || ps == "json") {
						v.maybe("%s is not a primitive", pa)
					}
				}
			}
			if in.str("type") == "json" && key(p) != "id" && key(p) != "v" {
				v.maybe("%s does not exist", pa)
			}
		}
		if t == "wildcard" {
			if in != nil && t == "wildcard" {
				for _, p := range props {
					if key(p) != "name" {
						v.maybe("%s: the values may not be strings", at)
					}
				}
			}
			if ix.str("path") == "" {
				v.no("%s: no path", at)
			} else if info, err := os.Stat(ix.str("path")); err == nil {
				if info.IsDir() {
					v.no("%s: the path is a directory", at)
				} else {
					v.maybe("%s: the file exists", at)
				}
			} else if info, err := os.Stat(filepath.Dir(ix.str("path"))); err != nil || !info.IsDir() || strings.Contains(ix.str("path"), "\x00") {
				v.no("%s: the folder does not exist", at)
			} else if len(filepath.Base(ix.str("path"))) > 255 {
				v.no("%s: the path is too long", at)
			}
		}
		if t == "sqlite" || t == "fts5" {
			if strings.Contains(nm, "\x00") {
				v.maybe("%s: impossible table name", at)
			}
			if d := ix.str("dsn"); d == "" {
				v.no("%s: no dsn", at)
			} else if d != ":memory:" {
				if strings.HasPrefix(d, "file:") || strings.ContainsAny(d, "?") {
					v.maybe("%s: special dsn", at)
				} else if info, err := os.Stat(d); err == nil {
					if info.IsDir() {
						v.no("%s: the database is a directory", at)
					} else {
						v.maybe("%s: the database exists", at)
					}
				} else if info, err := os.Stat(filepath.Dir(d)); strings.ContainsAny(d, "?%#\x00") || len(filepath.Base(d)) > 200 {
					v.maybe("%s: special path", at)
				} else if err != nil || !info.IsDir() {
					v.no("%s: the folder of the database does not exist", at)
				}
			}
		}
		if t == "fts5" {
			if tk := ix.str("tokenize"); tk != "" && tk != "unicode61" && tk != "ascii" && tk != "porter" && tk != "trigram" {
				if tk == "zz" {
					v.no("%s: unknown tokenizer", at)
				} else {
					v.maybe("%s: tokenizer", at)
				}
			}
			for _, p := range ix.get("prefix").list() {
				if x, err := strconv.Atoi(p.value()); err == nil && x < 0 {
					v.no("%s: negative prefix", at)
				} else if err != nil || x == 0 || x > 999 {
					v.maybe("%s: prefix", at)
				}
			}
			for _, p := range props {
				if s := p.value(); s == "rank" || s == "rowid" {
					v.maybe("%s: reserved column", at)
				}
			}
		}
	}
	handles := func(at string, ix, in *cnode, inName, property string) {
		if ix == nil || in == nil {
			return
		}
		switch t := ix.str("type"); t {
		case "noop":
			return
		case "fts5":
			if property != "match" {
				v.no("%s: not a property of the index", at)
			}
		default:
			found := false
			for _, p := range ix.get("properties").list() {
				if t == "sqlite" && p.str("name") == property || t != "sqlite" && p.value() == property && p.kind == 's' {
					found = true
				}
			}
			if !found {
				v.no("%s: not a property of the index", at)
			}
		}
		if ix.str("input") != inName {
			v.no("%s: the index is for another input", at)
		}
	}
	var relationships func(at string, rels *cnode)
	relationships = func(at string, rels *cnode) {
		if rels == nil || rels.kind != 'm' {
			return
		}
		for i, rel := range rels.items {
			at := at + "." + rels.keys[i]
			if rel.kind != 'm' {
				continue
			}
			in := ref(at+".input", inputs, rel.str("input"), "")
			sorts := rel.get("sort").list()
			if len(sorts) > 0 && !rel.isTrue("isArray") {
				v.no("%s: sort without isArray", at)
			}
			unique(at+".sort", sorts, func(x *cnode) string { return x.str("property") })
			match := rel.get("match").list()
			if len(match) == 0 {
				v.no("%s: no match", at)
			}
			unique(at+".match", match, func(x *cnode) string { return x.str("childProperty") })
			for _, m := range match {
				ix := ref(at+".match.childIndex", indexes, m.str("childIndex"), "default")
				handles(at+".match", ix, in, rel.str("input"), m.str("childProperty"))
			}
			relationships(at, rel.get("relationships"))
		}
	}
	// A file used twice, or for two things
	files := map[string]string{}
	for nm, ix := range indexes {
		for _, k := range []string{"path", "dsn"} {
			f := strings.TrimPrefix(ix.str(k), "file:")
			if f == "" || f == ":memory:" {
				continue
			}
			if was, used := files[f]; used {
				v.maybe("%s: the file is also for the index %s", nm, was)
			}
			files[f] = nm
		}
	}
	paramNames := map[string]map[string]*cnode{}
	for nm, out := range outputs {
		at := "output " + nm
		in := ref(at+".input", inputs, out.str("input"), "")
		params := out.get("parameters")
		paramNames[nm] = map[string]*cnode{}
		limitName, offsetName := out.get("limit").str("parameter"), out.get("offset").str("parameter")
		if limitName == "" {
			limitName = "limit"
		}
		if offsetName == "" {
			offsetName = "offset"
		}
		isArray := out.str("type") == "jsonArray"
		if isArray {
			if limitName == offsetName {
				v.no("%s: the same parameter for the limit and the offset", at)
			}
			paramNames[nm][limitName], paramNames[nm][offsetName] = parsers["integer"], parsers["integer"]
			d, m := uint64(100), uint64(1000)
			if x, err := strconv.ParseUint(out.get("limit").str("default"), 10, 64); err == nil && x > 0 {
				d = x
			}
			if x, err := strconv.ParseUint(out.get("limit").str("max"), 10, 64); err == nil && x > 0 {
				m = x
			}
			if d > m {
				v.no("%s: the default limit is above the maximum", at)
			}
		} else if params != nil && len(params.items) == 0 {
			v.no("%s: no parameters", at)
		}
		if params != nil && params.kind == 'm' {
			for i, p := range params.items {
				at := at + ".parameters." + params.keys[i]
				if isArray && (params.keys[i] == limitName || params.keys[i] == offsetName) {
					v.no("%s: already used for paging", at)
				}
				if p.str("property") == "" {
					v.no("%s: no property", at)
				}
				ix := ref(at+".index", indexes, p.str("index"), "default")
				handles(at, ix, in, out.str("input"), p.str("property"))
				ps := ref(at+".parser", parsers, p.str("parser"), "string")
				if ps.str("type") == "json" || ps.str("type") == "split" {
					v.no("%s: not a primitive parser", at)
				}
				paramNames[nm][params.keys[i]] = ps
			}
		}
		relationships(at, out.get("relationships"))
	}
	placeholder := regexp.MustCompile("{([^}]+)}")
	for j, s := range n.get("services").list() {
		at := fmt.Sprintf("services[%d]", j)
		if s.get("http") == nil && s.get("https") == nil {
			v.no("%s: neither http nor https", at)
		}
		if h := s.get("https"); h != nil {
			for _, k := range []string{"certificatePath", "privateKeyPath"} {
				aFile(at+".https."+k, h.str(k))
			}
			if _, err := tls.LoadX509KeyPair(h.str("certificatePath"), h.str("privateKeyPath")); err != nil {
				v.no("%s: the key and certificate cannot be used", at)
			}
		}
		for _, k := range []string{"http", "https"} {
			if l := s.get(k).str("listen"); l != "" && l != "127.0.0.1:0" {
				v.maybe("%s: other address", at)
				if l == "zz" {
					v.no("%s: not an address", at)
				}
			}
		}
		if e := s.str("errorsType"); e != "" && e != "application/json" {
			v.no("%s: unknown errorsType", at)
		}
		routes := s.get("routes").list()
		if s.get("routes") != nil && len(routes) == 0 {
			v.no("%s: no routes", at)
		}
		unique(at+".routes", routes, func(x *cnode) string { return x.str("path") })
		for _, r := range routes {
			if r.str("path") == "" {
				v.no("%s: route without a path", at)
			}
			o := ref(at+".routes.output", outputs, r.str("output"), "")
			if o == nil {
				continue
			}
			for _, m := range placeholder.FindAllStringSubmatch(r.str("path"), -1) {
				if m[1] == o.get("limit").str("parameter") || m[1] == o.get("offset").str("parameter") || m[1] == "limit" || m[1] == "offset" {
					v.maybe("%s: a placeholder for the paging", at)
				} else if paramNames[r.str("output")][m[1]] == nil {
					v.no("%s: %q is not a parameter of the output", at, m[1])
				}
			}
		}
	}
}

// c28Properties are the properties of a csv input with columns or of an xml input.
func c28Properties(in *cnode) map[string]bool {
	known := map[string]bool{}
	switch in.str("type") {
	case "csv":
		if in.isTrue("autodetectColumns") {
			return map[string]bool{"id": true, "name": true}
		}
		for _, col := range in.get("columns").list() {
			known[col.str("name")] = true
		}
	case "xml":
		for _, p := range in.get("properties").list() {
			if t := p.str("type"); t == "" || t == "primitive" {
				known[p.str("name")] = true
			}
		}
	default:
		return nil
	}
	return known
}

func cjudge(n *cnode) *cverdict {
	v := &cverdict{}
	v.shape("config", n, "config")
	v.rules(n)
	return v
}

// ---- the mutations --------------------------------------------------------

type cmutation struct {
	name  string
	apply func(n *cnode) // on a clone of the whole tree
}

// at finds a node by its path of child numbers.
func (n *cnode) at(path []int) *cnode {
	for _, i := range path {
		n = n.items[i]
	}
	return n
}

func (n *cnode) label(path []int) string {
	var b strings.Builder
	for _, i := range path {
		if n.kind == 'm' {
			b.WriteString("." + n.keys[i])
		} else {
			fmt.Fprintf(&b, "[%d]", i)
		}
		n = n.items[i]
	}
	return strings.TrimPrefix(b.String(), ".")
}

func (n *cnode) remove(i int) {
	n.items = append(append([]*cnode{}, n.items[:i]...), n.items[i+1:]...)
	if n.kind == 'm' {
		n.keys = append(append([]string{}, n.keys[:i]...), n.keys[i+1:]...)
	}
}

// each visits the nodes with the kind of field they are.
func (n *cnode) each(kind string, path []int, visit func(path []int, kind string, n *cnode)) {
	visit(path, kind, n)
	child := func(i int) []int { return append(append([]int{}, path...), i) }
	switch {
	case kind == "":
	case kind == "strs" || kind == "ints":
		for i, x := range n.items {
			x.each(strings.TrimSuffix(kind, "s"), child(i), visit)
		}
	case kind[0] == '[' || kind[0] == '<':
		for i, x := range n.items {
			x.each("{"+strings.Trim(kind, "[]<>")+"}", child(i), visit)
		}
	case kind[0] == '{':
		fields := map[string]string{}
		for _, f := range cspec(strings.Trim(kind, "{}"), n) {
			fields[f.name] = f.kind
		}
		for i, x := range n.items {
			x.each(fields[n.keys[i]], child(i), visit)
		}
	}
}

// cmutations lists every change of one node.
func cmutations(base *cnode, dir string) []cmutation {
	var out []cmutation
	set := func(path []int, what string, v *cnode) {
		out = append(out, cmutation{base.label(path) + " = " + what, func(n *cnode) {
			*n.at(path) = *v.clone()
		}})
	}
	names := map[string]bool{"default": true, "string": true, "integer": true, "json": true, "nowhere": true}
	props := map[string]bool{"match": true, "nowhere": true, "a.b": true, "-1": true}
	types := map[string]bool{"graphql": true, "nowhere": true, "STRING": true}
	for k := range cspecs {
		if i := strings.Index(k, "/"); i > 0 {
			types[k[i+1:]] = true
		}
	}
	base.each("{config}", nil, func(path []int, kind string, n *cnode) {
		if kind == "{column}" || kind == "{xmlprop}" {
			props[n.str("name")] = true
		}
		if strings.HasPrefix(kind, "{") && ctyped[strings.Trim(kind, "{}")] {
			names[n.str("name")] = true
		}
	})
	sorted := func(m map[string]bool) []string {
		var l []string
		for k := range m {
			l = append(l, k)
		}
		sort.Strings(l)
		return l
	}
	base.each("{config}", nil, func(path []int, kind string, n *cnode) {
		if len(path) > 0 {
			parent, last := path[:len(path)-1], path[len(path)-1]
			out = append(out, cmutation{base.label(path) + " removed", func(n *cnode) { n.at(parent).remove(last) }})
			if base.at(parent).kind == 'l' {
				out = append(out, cmutation{base.label(path) + " repeated", func(n *cnode) {
					p := n.at(parent)
					p.items = append(p.items, p.items[last].clone())
				}}, cmutation{base.label(path) + " moved to the end", func(n *cnode) {
					p := n.at(parent)
					x := p.items[last]
					p.remove(last)
					p.items = append(p.items, x)
				}})
			} else {
				for _, k := range []string{"nowhere", strings.ToUpper(base.at(parent).keys[last]), base.at(parent).keys[last] + "s", ""} {
					k := k
					out = append(out, cmutation{base.label(path) + " renamed to " + yamlQuote(k), func(n *cnode) { n.at(parent).keys[last] = k }})
				}
				out = append(out, cmutation{base.label(path) + " given twice", func(n *cnode) {
					p := n.at(parent)
					p.keys = append(p.keys, p.keys[last])
					p.items = append(p.items, p.items[last].clone())
				}})
			}
			odd := []string{"null", "{}", "[]", "[null]", "[{}]", `[""]`, `{"a": {}}`}
			if kind != "db" {
				odd = append(odd, `""`, "0", "1", "-1", "1.5", "true", "false", `"true"`, `"7"`, "18446744073709551615", "99999999999999999999")
			}
			for _, raw := range odd {
				if raw != n.raw {
					v := cscalar(raw)
					switch raw[0] {
					case '[', '{':
						v = cparse(`a: ` + raw).items[0]
					}
					set(path, raw, v)
				}
			}
		}
		strings_ := func(values ...string) {
			for _, s := range values {
				if s != n.value() {
					set(path, clip(strings.ReplaceAll(yamlQuote(s), dir, "."), 60), cstr(s))
				}
			}
		}
		add := func(what string, x *cnode) {
			out = append(out, cmutation{base.label(path) + " with " + what + " added", func(n *cnode) {
				p := n.at(path)
				p.items = append(p.items, x.clone())
			}})
		}
		field := ""
		if len(path) > 0 && base.at(path[:len(path)-1]).kind == 'm' {
			field = base.at(path[:len(path)-1]).keys[path[len(path)-1]]
		}
		switch {
		case kind == "":
		case n.kind == 'm':
			for _, k := range []string{"unknown", "Name", "name ", "comment", "logger", "columnindexbyname", "compiledxpath", "delimiterregexp", "evaluationlock", "<<"} {
				k := k
				out = append(out, cmutation{base.label(path) + " with the key " + yamlQuote(k) + " added", func(n *cnode) {
					p := n.at(path)
					p.keys = append(p.keys, k)
					p.items = append(p.items, cstr("zz"))
				}})
			}
			// and each documented key of other objects
			if kind[0] == '{' {
				own := map[string]bool{}
				for _, f := range cspec(strings.Trim(kind, "{}"), n) {
					own[f.name] = true
				}
				seen := map[string]bool{}
				for _, spec := range sortedSpecs() {
					for _, f := range cspecs[spec] {
						if !own[f.name] && !seen[f.name] {
							seen[f.name] = true
							k := f.name
							out = append(out, cmutation{base.label(path) + " with the key " + k + " added", func(n *cnode) {
								p := n.at(path)
								p.keys = append(p.keys, k)
								p.items = append(p.items, cstr("zz"))
							}})
						}
					}
				}
				// and its own, when it does not use them
				for _, f := range cspec(strings.Trim(kind, "{}"), n) {
					if n.get(f.name) == nil && f.def != "" {
						f := f
						out = append(out, cmutation{base.label(path) + "." + f.name + " = its default", func(n *cnode) {
							p := n.at(path)
							p.keys = append(p.keys, f.name)
							p.items = append(p.items, cscalar(f.def))
						}})
					}
				}
			}
		case n.kind == 'l':
			for _, raw := range []string{"null", `""`, "0", "true", "{}", "[]", `"nowhere"`, `{"name": "other"}`, `{"type": "string"}`} {
				add(raw, cparse("a: " + raw).items[0])
			}
		case kind == "ref":
			strings_(sorted(names)...)
		case kind == "path" || kind == "db":
			strings_(dir, dir+"/none", dir+"/none/none", dir+"/c.csv", dir+"/c.csv/none", dir+"/a.csv", dir+"/j.json", dir+"/x.xml",
				dir+"/cert.pem", dir+"/key.pem", dir+"/empty", dir+"/\x00", dir+"/"+strings.Repeat("n", 300))
			if kind == "db" {
				strings_(":memory:", "file:"+dir+"/other.db", "file:"+dir+"/other.db?mode=ro", dir+"/other.db?_foo=bar", dir+"/é %41.db", dir+"/cs.db", dir+"/cf.db", dir+"/cw.db")
			}
		case kind == "bool" || kind == "uint" || kind == "int":
			for _, raw := range []string{"2", "3", "1000000", "9223372036854775807"} {
				set(path, raw, cscalar(raw))
			}
		case field == "type":
			strings_(sorted(types)...)
			fallthrough
		default:
			strings_("zz", " ", "é", "a\nb", "\x00", "%", "[", "(", "//", "'", `"`, "{", "}", "id", "name", "limit", "offset", "-", "\xff")
			if strings.Contains(strings.ToLower(field), "property") || kind == "str" && field == "" || field == "name" {
				strings_(sorted(props)...)
			}
			switch kind {
			case "charset":
				strings_("utf-8", "Shift_JIS", "US-ASCII", "ISO-2022-KR", "UTF-7", "utf-16", "ISO-8859-1", "hp-roman8", "csUnicode11")
			case "collate":
				strings_("binary", "nocase", "rtrim", "BINARY", "NoCase", "rtirm")
			case "xmltype":
				strings_("primitive", "array", "object", "Primitive")
			case "delim", "regexp":
				strings_(",", ";", "\t", "ab", "(?", "[0-9]+", "")
			case "xpath":
				strings_("//r", "/r", "name", "@id", "string(name)", "number(id)", "count(//a)", "//*", "1", "'a'", "true()", "concat(", "//r[", "foo(id)", "$x", "contains(1, 2)", "//r[sum('a')]", "sum('a')", "//r[contains(1, 2)]", "//text()", "//comment()", "..", ".", "/..", "//@id", "id | name", "1 + 2", "1 = 'a'", "not(name)", "name()", "position()", "last()", "-name", "substring(name, 1)", "ancestor::*", "following-sibling::*", "processing-instruction()")
			case "tokenize":
				strings_("ascii", "porter", "trigram", "unicode61 remove_diacritics 2", "unicode61 zz", "porter zz", "'")
			case "listen":
				strings_("127.0.0.1:0", "127.0.0.1", ":0", "127.0.0.1:99999", "127.0.0.1:-1", "999.0.0.1:0", "[::1]:0", "localhost:0")
			}
			if field == "path" {
				strings_("/{id}/{id}", "/{nowhere}", "/{", "/}", "/{}", "none", "/(", "/one/{id}", "/xl", "/{limit}", "//", "*", "/a b", "/é", "/{name}{id}", "/%7Bid%7D")
			}
			if field == "errorsType" {
				strings_("application/json", "text/html", "Application/JSON")
			}
		}
	})
	return out
}

func sortedSpecs() []string {
	var l []string
	for k := range cspecs {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// ---- the configurations ---------------------------------------------------

const c28Full = `
parsers:
- {name: str, type: string, convertFromCharset: ""}
- {name: sjis, type: string, convertFromCharset: Shift_JIS}
- {name: int, type: integer, ignoreCharacters: ","}
- {name: flt, type: float, decimalSeparator: ".", ignoreCharacters: ""}
- {name: boo, type: boolean, trueValues: ["y", "yes"], falseValues: ["n"]}
- {name: jsn, type: json}
- {name: spl, type: split, delimiter: "/", delimiterIsRegexp: false, parser: int}
- {name: spr, type: split, delimiter: "[0-9]", delimiterIsRegexp: true, parser: spl}
inputs:
- name: c
  type: csv
  path: DIR/c.csv
  dieOnInputChange: true
  ignoreFirstRow: false
  autodetectColumns: false
  delimiter: ","
  columns:
  - {name: id, parser: int}
  - {name: name, parser: string}
  - {name: price, parser: flt}
  - {name: ok, parser: boo}
  - {name: tags, parser: spl}
  - {name: doc, parser: jsn}
- {name: a, type: csv, path: DIR/a.csv, ignoreFirstRow: true, autodetectColumns: true, delimiter: ";"}
- {name: j, type: json, path: DIR/j.json, dieOnInputChange: true}
- name: x
  type: xml
  path: DIR/x.xml
  dieOnInputChange: true
  recordXpath: //r
  properties:
  - {name: id, type: primitive, xpath: "string(@id)", parser: int}
  - {name: name, type: primitive, xpath: "string(name)", parser: string}
  - {name: list, type: array, xpath: "l", items: {type: primitive, xpath: "string(.)", parser: string}}
  - {name: obj, type: object, xpath: "o", properties: [{name: p, type: primitive, xpath: "string(p)", parser: string}]}
indexes:
- {name: cm, type: map, input: c, properties: [id, name]}
- {name: cs, type: sqlite, dsn: DIR/cs.db, input: c, properties: [{name: id, collate: binary}, {name: name, collate: nocase}]}
- {name: cf, type: fts5, dsn: DIR/cf.db, input: c, prefix: [2, 3], tokenize: unicode61, properties: [id, name]}
- {name: cw, type: wildcard, path: DIR/cw.db, input: c, ignoreCase: false, properties: [name]}
- {name: noo, type: noop}
- {name: jm, type: map, input: j, properties: [id, v]}
outputs:
- name: one
  type: jsonObject
  input: c
  parameters:
    id: {property: id, index: cm, parser: int}
  relationships:
    friends:
      input: j
      isArray: true
      limit: 2
      sort: [{property: v, ascending: true}, {property: id, ascending: false}]
      match: [{parentProperty: id, childProperty: id, childIndex: jm}]
      relationships:
        back:
          input: x
          isArray: false
          match: [{parentProperty: id, childProperty: id, childIndex: default}]
- name: list
  type: jsonArray
  input: c
  limit: {default: 100, max: 1000, parameter: limit}
  offset: {parameter: offset}
  parameters:
    name: {property: name, index: default, parser: string}
    s: {property: name, index: cs, parser: str}
    t: {property: match, index: cf, parser: str}
    w: {property: name, index: cw, parser: str}
    p: {property: price, index: noo, parser: float}
  relationships:
    peer:
      input: a
      isArray: false
      match: [{parentProperty: name, childProperty: name, childIndex: default}]
      relationships:
        deeper:
          input: j
          isArray: true
          limit: 3
          sort: [{property: id, ascending: false}]
          match: [{parentProperty: id, childProperty: id, childIndex: jm}]
- name: xl
  type: jsonArray
  input: x
  limit: {parameter: count}
  parameters:
    id: {property: id, parser: integer}
services:
- name: web
  type: http
  http: {listen: "127.0.0.1:0"}
  errorsType: application/json
  routes:
  - {path: "/one/{id}", output: one}
  - {path: "/list/{name}", output: list}
  - {path: "/list", output: list}
  - {path: "/xl", output: xl}
- name: webs
  type: http
  https: {listen: "127.0.0.1:0", certificatePath: DIR/cert.pem, privateKeyPath: DIR/key.pem}
  routes:
  - {path: "/one/{id}", output: one}
`

var c28Files = map[string]string{
	"c.csv":  "1,ab,1.5,y,1/2,\"{\"\"k\"\":1}\"\n2,AB,2.5,n,3,[1]\n3,cd,3.5,yes,,null\n",
	"a.csv":  "id;name\n1;ab\n2;cd\n",
	"j.json": `{"id":1,"v":"b"}` + "\n" + `{"id":1,"v":"a"}` + "\n" + `{"id":2,"v":"c"}` + "\n",
	"x.xml":  `<d><r id="1"><name>ab</name><l>u</l><l>v</l><o><p>q</p></o></r><r id="2"><name>é</name><o><p/></o></r></d>`,
	"empty":  "",
}

// c28Minimal uses as few settings as each component allows.
const c28Minimal = `
parsers:
- {name: spl, type: split, delimiter: "/", parser: string}
inputs:
- {name: c, type: csv, path: DIR/c.csv, columns: [{name: id}, {name: name}]}
- {name: j, type: json, path: DIR/j.json}
- {name: x, type: xml, path: DIR/x.xml, recordXpath: //r, properties: [{name: name, xpath: "string(name)"}]}
indexes:
- {name: cs, type: sqlite, dsn: DIR/cs.db, input: c, properties: [{name: id}]}
- {name: cf, type: fts5, dsn: DIR/cf.db, input: c, properties: [name]}
- {name: cw, type: wildcard, path: DIR/cw.db, input: c, properties: [name]}
outputs:
- name: one
  type: jsonObject
  input: c
  parameters: {id: {property: id}}
  relationships:
    friends: {input: x, match: [{parentProperty: name, childProperty: name}]}
- name: list
  type: jsonArray
  input: c
  relationships:
    friends: {input: c, isArray: true, sort: [{property: name}], match: [{parentProperty: name, childProperty: name}]}
services:
- {name: web, type: http, http: {}, routes: [{path: "/one/{id}", output: one}, {path: "/list", output: list}]}
`

var c28Asks = []map[string]string{
	{"id": "1"}, {"id": "2"}, {"id": "9"}, {"id": "zz"}, {},
	{"name": "ab"}, {"s": "aB"}, {"t": "ab"}, {"t": "\""}, {"w": "b"}, {"p": "1.5"},
	{"limit": "1"}, {"limit": "2000"}, {"offset": "1"}, {"limit": "zz"}, {"limit": "-1"}, {"name": "ab", "w": "a"},
}

var c28Gets = []string{"/", "/one/1", "/one/9", "/one/zz", "/one/1,000", "/list", "/list/ab", "/list?s=ab&limit=1", "/list?limit=1&offset=1", "/xl", "/xl?id=1", "/?id=1"}

type c28Result struct {
	err     error
	answers []string
	refs    []string
}

// c28References lists what an accepted configuration designates and does not exist.
func c28References(cfg *config.Config) (bad []string) {
	need := func(ok bool, format string, args ...interface{}) {
		if !ok {
			bad = append(bad, fmt.Sprintf(format, args...))
		}
	}
	for n, p := range cfg.Parsers {
		need(n == p.GetName(), "parser %s is called %s", n, p.GetName())
		if s, ok := p.(*parser.SplitConfig); ok {
			need(cfg.Parsers[s.Parser] != nil, "parser %s: %s", n, s.Parser)
		}
	}
	var xmlProps func(props []*input.XmlPropertyConfig)
	xmlProps = func(props []*input.XmlPropertyConfig) {
		for _, p := range props {
			if p.Type == input.XmlInputPropertyTypePrimitive {
				need(cfg.Parsers[p.Parser] != nil, "xml property %s: %s", p.Name, p.Parser)
			}
			if p.Items != nil {
				xmlProps([]*input.XmlPropertyConfig{p.Items})
			}
			xmlProps(p.Properties)
		}
	}
	for n, in := range cfg.Inputs {
		switch i := in.(type) {
		case *input.CsvConfig:
			for _, col := range i.Columns {
				need(cfg.Parsers[col.Parser] != nil, "input %s: %s", n, col.Parser)
			}
		case *input.XmlConfig:
			xmlProps(i.Properties)
		}
	}
	for n, ix := range cfg.Indexes {
		name := ""
		switch i := ix.(type) {
		case *index.MapConfig:
			name = i.Input
		case *index.SqliteConfig:
			name = i.Input
		case *index.Fts5Config:
			name = i.Input
		case *index.WildcardConfig:
			name = i.Input
		default:
			continue
		}
		need(cfg.Inputs[name] != nil, "index %s: %s", n, name)
	}
	var rels func(n string, m map[string]*relationship.RelationshipConfig)
	rels = func(n string, m map[string]*relationship.RelationshipConfig) {
		for k, r := range m {
			need(cfg.Inputs[r.Input] != nil, "relationship %s: %s", k, r.Input)
			for _, x := range r.Match {
				need(cfg.Indexes[x.ChildIndex] != nil, "match of %s: %s", k, x.ChildIndex)
			}
			rels(k, r.Relationships)
		}
	}
	for n, o := range cfg.Outputs {
		switch x := o.(type) {
		case *output.JsonObjectConfig:
			need(cfg.Inputs[x.Input] != nil, "output %s: %s", n, x.Input)
			for k, p := range x.Parameters {
				need(cfg.Indexes[p.Index] != nil && cfg.Parsers[p.Parser] != nil, "parameter %s: %s %s", k, p.Index, p.Parser)
			}
			rels(n, x.Relationships)
		case *output.JsonArrayConfig:
			need(cfg.Inputs[x.Input] != nil, "output %s: %s", n, x.Input)
			for k, p := range x.Parameters {
				need(cfg.Indexes[p.Index] != nil && cfg.Parsers[p.Parser] != nil, "parameter %s: %s %s", k, p.Index, p.Parser)
			}
			rels(n, x.Relationships)
		}
	}
	for n, s := range cfg.Services {
		if h, ok := s.(*service.HttpConfig); ok {
			for _, r := range h.Routes {
				need(cfg.Outputs[r.Output] != nil, "route %s of %s: %s", r.Path, n, r.Output)
			}
		}
	}
	return bad
}

// c28Try loads, builds, asks and closes.
func c28Try(c *Ctx, dir, text string) (res *c28Result, err error) {
	done := make(chan error, 1)
	var progress sync.Map
	go func() {
		done <- guarded(func() error {
			r, e := c28Run(c, dir, text, func(s string) { progress.Store("at", s) })
			res = r
			return e
		})
	}()
	select {
	case err = <-done:
		return res, err
	case <-time.After(150 * time.Second):
		at, _ := progress.Load("at")
		return nil, violf(fmt.Sprintf("hang:%v", at), "still %v after 150 s", at)
	}
}

func c28Run(c *Ctx, dir, text string, at func(string)) (*c28Result, error) {
	at("building")
	s, err := NewStack(dir, text, "services")
	c.Step(1)
	if err != nil {
		return &c28Result{err: err}, nil
	}
	res := &c28Result{refs: c28References(s.Config)}
	defer func() {
		at("closing")
		s.Close()
	}()
	var names []string
	for n := range s.Outputs {
		names = append(names, n)
	}
	sort.Strings(names)
	answer := func(what string, status int, body string) error {
		c.Step(1)
		res.answers = append(res.answers, fmt.Sprintf("%s: %d %s", what, status, strings.TrimSpace(body)))
		if status == 200 && !json.Valid([]byte(body)) {
			return violf("answer-not-json", "%s: %q", what, clip(body, 500))
		}
		return nil
	}
	for _, n := range names {
		for _, q := range c28Asks {
			what := n + " " + js(q)
			at("asking " + what)
			r := Ask(s.Outputs[n], q)
			if r.Count != 1 {
				return nil, violf("not-one-answer", "%s: %d answers (%v)", what, r.Count, r.Ret)
			}
			body := r.Body
			if r.Status != 200 {
				body = "-"
				if r.Err == "" {
					return nil, violf("empty-error", "%s: error %d without a message", what, r.Status)
				}
			}
			if err := answer(what, r.Status, body); err != nil {
				return nil, err
			}
		}
	}
	var services []string
	for n := range s.Services {
		services = append(services, n)
	}
	sort.Strings(services)
	for _, n := range services {
		tr := &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}, MaxIdleConnsPerHost: 2}
		client := &http.Client{Transport: tr, Timeout: 100 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
		defer tr.CloseIdleConnections()
		for _, g := range c28Gets {
			what := n + " GET " + g
			at("asking " + what)
			resp, err := client.Get(s.Services[n].Address() + g)
			if err != nil {
				return nil, violf("no-response", "%s: %v\n%s", what, err, clip(s.Log.String(), 500))
			}
			body, err := io.ReadAll(resp.Body)
			resp.Body.Close()
			if err != nil || !json.Valid(body) {
				return nil, violf("response-not-json", "%s: %d %q %v", what, resp.StatusCode, clip(string(body), 300), err)
			}
			if resp.StatusCode != 200 {
				body = []byte("-")
			}
			if err := answer(what, resp.StatusCode, string(body)); err != nil {
				return nil, err
			}
		}
	}
	return res, nil
}

// refuseKey groups the configurations wrongly accepted or refused by their reason.
func refuseKey(s string) string {
	s = regexp.MustCompile(`"[^"]*"|\[[0-9]+\]|[0-9]+`).ReplaceAllString(s, "*")
	if i := strings.LastIndexAny(s, ":"); i > 0 && strings.HasPrefix(s, "index ") {
		return s
	}
	return s
}

func runC28(c *Ctx) {
	must(os.Chdir(c.Scratch))
	keys := filepath.Join(c.Scratch, "keys")
	must(os.MkdirAll(keys, 0o755))
	certificate(keys)
	for _, f := range []string{"cert.pem", "key.pem"} {
		data, err := os.ReadFile(filepath.Join(keys, f))
		must(err)
		c28Files[f] = string(data)
	}
	for _, base := range []struct{ name, text string }{{"full", c28Full}, {"minimal", c28Minimal}} {
		c28Base(c, base.name, base.text)
	}
}

func c28Base(c *Ctx, baseName, text string) {
	prepare := func() (string, func()) {
		dir, clean := c.Dir()
		for f, content := range c28Files {
			writeFile(filepath.Join(dir, f), content)
		}
		return dir, clean
	}
	// The trees have DIR for the directory of a case
	tree0 := cparse(text)
	group0 := map[string]string{}
	for _, group := range []string{"parsers", "inputs"} {
		group0[group] = cnormal("["+strings.TrimSuffix(group, "s")+"]", orEmpty(tree0.get(group)))
	}
	neutral0 := cnormal("{config}", tree0)
	var want []string
	c.Case(baseName, func() error {
		dir, clean := prepare()
		defer clean()
		tree := tree0.in(dir)
		if v := cjudge(tree); len(v.refuse)+len(v.unsure) > 0 {
			return &harnessError{fmt.Errorf("the base configuration is not valid: %s", v)}
		}
		r, err := c28Try(c, dir, tree.yaml())
		if err != nil {
			return err
		}
		if r.err != nil {
			return violf("valid-refused:base", "%v", r.err)
		}
		want = r.answers
		return nil
	})
	if want == nil {
		return
	}
	if os.Getenv("VERIF_SHOW") != "" {
		for _, a := range want {
			fmt.Fprintln(os.Stderr, clip(a, 300))
		}
	}
	muts := cmutations(tree0, "DIR")
	run := func(id string, indices ...int) {
		c.Case(id, func() error {
			dir, clean := prepare()
			defer clean()
			tree := tree0.clone()
			for _, i := range indices {
				muts[i].apply(tree)
			}
			conf := tree.in(dir).yaml()
			v := cjudge(tree.in(dir))
			for group, before := range group0 {
				if cnormal("["+strings.TrimSuffix(group, "s")+"]", orEmpty(tree.get(group))) != before {
					v.maybe("the values of the records may not suit the %s", group)
					v.data++
				}
			}
			for _, r := range v.refuse {
				if strings.Contains(r, "endless recursion") {
					// Answering such a request would end this process
					cfg, _, err := loadConfig(dir, conf)
					if err == nil && cfg != nil {
						return violf("accepted:endless-recursion", "%s\n%s", id, r)
					}
					return nil
				}
			}
			r, err := c28Try(c, dir, conf)
			if err != nil {
				if x, ok := err.(*Viol); ok {
					return violf(x.Key, "%s\n(%s)\n%s", id, v, x.Detail)
				}
				return err
			}
			verdict := v.String()
			c.State(baseName, strings.ReplaceAll(conf, dir, "DIR"), verdict[:8])
			switch {
			case r.err != nil && strings.TrimSpace(innermost(r.err).Error()) == "":
				return violf("refused-without-message", "%s: %v", id, r.err)
			case r.err != nil && len(v.refuse) == 0 && (len(v.unsure) == 0 || len(v.unsure) == v.data && stageOf(r.err) != "indexes"):
				return violf("valid-refused:"+refuseKey(r.err.Error()), "%s: %v", id, r.err)
			case r.err == nil && len(v.refuse) > 0:
				return violf("accepted:"+refuseKey(v.refuse[0]), "%s must be refused: %s", id, strings.Join(v.refuse, "; "))
			case len(r.refs) > 0:
				return violf("dangling", "%s: %s", id, strings.Join(r.refs, "; "))
			}
			c.Outcome(map[bool]string{true: "refused", false: "accepted"}[r.err != nil] + "/" + strings.SplitN(verdict, ":", 2)[0])
			if r.err == nil && cnormal("{config}", tree) == neutral0 {
				c.Outcome("same answers as without the change")
				for i, w := range want {
					if i >= len(r.answers) || r.answers[i] != w {
						got := "nothing"
						if i < len(r.answers) {
							got = r.answers[i]
						}
						return violf("default-differs", "%s: the answer should not change\n%s\n%s", id, w, got)
					}
				}
			}
			return nil
		})
	}
	c.ParallelN(2*runtime.NumCPU(), len(muts), func(i int) {
		run(baseName+": "+muts[i].name, i)
	})
	c.Extra("changes of "+baseName, len(muts))
	c28Renames(c, baseName, tree0, want, prepare)
	if !c.Thorough() {
		return
	}
	// Pairs of the structural changes of a same component
	byComponent := map[string][]int{}
	var components []string
	for i, m := range muts {
		if j := strings.Index(m.name, "]"); j > 0 && c28Structural.MatchString(m.name) {
			if byComponent[m.name[:j]] == nil {
				components = append(components, m.name[:j])
			}
			byComponent[m.name[:j]] = append(byComponent[m.name[:j]], i)
		}
	}
	type pair struct{ a, b int }
	var pairs []pair
	for _, comp := range components {
		l := byComponent[comp]
		for x := range l {
			for y := x + 1; y < len(l); y++ {
				pairs = append(pairs, pair{l[x], l[y]})
			}
		}
	}
	c.Extra("pairs of changes of "+baseName, len(pairs))
	c.ParallelN(2*runtime.NumCPU(), len(pairs), func(i int) {
		// The later one first: it does not move what the other one designates
		run(baseName+": "+muts[pairs[i].b].name+", then "+muts[pairs[i].a].name, pairs[i].b, pairs[i].a)
	})
}

var c28Structural = regexp.MustCompile(`( removed| repeated| = (null|""|0|true|{}|\[\]|"nowhere"|"default"|"id"|"c"|"x")| with the key "unknown" added)$`)

var c28Names = []string{"é", "a b", `"`, "'", "{x}", "%", "%d", "-", "0", "-1", "null", "true", "select", "rank ", "*", "\\", "a\nb", "a/b", "a?b=c", "`", "[x]", "(", ";--", "日本", strings.Repeat("n", 300), "name_", "rodb_c", "match", "_", "A", "limit ", "~"}

// c28Renames gives odd names to each component and to each property,
// everywhere they are designated: the answers must be the same.
func c28Renames(c *Ctx, baseName string, tree0 *cnode, want []string, prepare func() (string, func())) {
	type renaming struct {
		what  string
		apply func(n *cnode, to string)
		prop  string
		from  string
	}
	var list []renaming
	field := func(n *cnode, path []int) string {
		if p := n.at(path[:len(path)-1]); p.kind == 'm' {
			return p.keys[path[len(path)-1]]
		}
		return ""
	}
	refs := map[string][]string{"parsers": {"parser"}, "inputs": {"input"}, "indexes": {"index", "childIndex"}, "outputs": {"output"}, "services": nil}
	for _, group := range []string{"parsers", "inputs", "indexes", "outputs", "services"} {
		for i, x := range tree0.get(group).list() {
			group, i, old := group, i, x.str("name")
			list = append(list, renaming{group + " " + old, func(n *cnode, to string) {
				var set []*cnode
				n.each("{config}", nil, func(path []int, kind string, x *cnode) {
					if kind == "ref" && x.value() == old {
						for _, f := range refs[group] {
							if f == field(n, path) {
								set = append(set, x)
							}
						}
					}
				})
				set = append(set, n.get(group).items[i].get("name"))
				for _, x := range set {
					*x = *cstr(to)
				}
			}, "", old})
		}
	}
	for _, prop := range []string{"id", "name"} {
		prop := prop
		list = append(list, renaming{"property " + prop, func(n *cnode, to string) {
			var set []*cnode
			n.each("{config}", nil, func(path []int, kind string, x *cnode) {
				if len(path) < 2 || x.kind != 's' || x.value() != prop {
					return
				}
				parent := path[:len(path)-1]
				switch f := field(n, path); {
				case kind == "str" && f == "" && len(path) == 4 && n.keys[path[0]] == "indexes" && c28Of(n, n.at(path[:2]).str("input")):
					set = append(set, x)
				case f == "name" && len(path) == 5 && n.keys[path[0]] == "indexes" && c28Of(n, n.at(path[:2]).str("input")):
					set = append(set, x)
				case f == "name" && len(path) == 5 && n.keys[path[0]] == "inputs" && c28Of(n, n.at(path[:2]).str("name")):
					set = append(set, x)
				case f == "property" && len(path) == 5 && c28Of(n, n.at(path[:2]).str("input")):
					set = append(set, x)
				case f == "property" && c28Of(n, n.at(parent[:len(parent)-2]).str("input")):
					set = append(set, x)
				case f == "childProperty" && c28Of(n, n.at(parent[:len(parent)-2]).str("input")):
					set = append(set, x)
				case f == "parentProperty" && c28Of(n, n.at(parent[:len(parent)-4]).str("input")):
					set = append(set, x)
				}
			})
			for _, x := range set {
				*x = *cstr(to)
			}
		}, prop, prop})
	}
	c.ParallelN(2*runtime.NumCPU(), len(list)*len(c28Names), func(i int) {
		r, to := list[i/len(c28Names)], c28Names[i%len(c28Names)]
		id := baseName + ": " + r.what + " called " + yamlQuote(clip(to, 40)) + " everywhere"
		c.Case(id, func() error {
			dir, clean := prepare()
			defer clean()
			tree := tree0.clone()
			r.apply(tree, to)
			tree = tree.in(dir)
			if v := cjudge(tree); len(v.refuse) > 0 {
				return &harnessError{fmt.Errorf("%s: %s", id, v)}
			}
			res, err := c28Try(c, dir, tree.yaml())
			if err != nil {
				return err
			}
			c.State(baseName, r.what, to)
			if res.err != nil {
				return violf("name-refused:"+strings.Fields(r.what)[0], "%s: %v", id, res.err)
			}
			got := append([]string{}, res.answers...)
			if len(got) != len(want) {
				return violf("renamed-differs", "%s: %d answers instead of %d", id, len(got), len(want))
			}
			for k := range got {
				for _, l := range []*string{&got[k]} {
					if strings.HasPrefix(*l, to+" ") {
						*l = r.from + (*l)[len(to):]
					}
				}
			}
			expect := append([]string{}, want...)
			sort.Strings(got)
			sort.Strings(expect)
			for k := range got {
				a, b := expect[k], got[k]
				if r.prop != "" {
					b = c28RenameKey(b, to, r.prop)
					a = c28RenameKey(a, to, r.prop)
				}
				if a != b {
					return violf("renamed-differs:"+strings.Fields(r.what)[0], "%s:\n%s\n%s", id, clip(a, 1000), clip(b, 1000))
				}
			}
			return nil
		})
	})
}

// c28Of says whether an input is the one whose properties are renamed.
func c28Of(n *cnode, name string) bool { return name == "c" }

func c28RenameKey(answer, from, to string) string {
	i := strings.Index(answer, ": 200 ")
	if i < 0 {
		return answer
	}
	var v interface{}
	dec := json.NewDecoder(strings.NewReader(answer[i+6:]))
	dec.UseNumber()
	if dec.Decode(&v) != nil {
		return answer
	}
	var walk func(v interface{}) interface{}
	walk = func(v interface{}) interface{} {
		switch t := v.(type) {
		case []interface{}:
			for i := range t {
				t[i] = walk(t[i])
			}
		case map[string]interface{}:
			out := map[string]interface{}{}
			for k, x := range t {
				if k == from {
					k = to
				}
				out[k] = walk(x)
			}
			return out
		}
		return v
	}
	return answer[:i+6] + js(walk(v))
}

func orEmpty(n *cnode) *cnode {
	if n == nil {
		return cscalar("")
	}
	return n
}

func stageOf(err error) string {
	var se *stageError
	if errors.As(err, &se) {
		return se.stage
	}
	return ""
}

func innermost(err error) error {
	var se *stageError
	if errors.As(err, &se) {
		return se.err
	}
	return err
}

// cnormal is the same for two trees that differ only by documented defaults.
func cnormal(kind string, n *cnode) string {
	if kind == "" || n.kind == 's' {
		return n.raw
	}
	var parts []string
	switch kind[0] {
	case '{':
		for _, f := range cspec(strings.Trim(kind, "{}"), n) {
			x := n.get(f.name)
			s := f.def
			if x != nil {
				s = cnormal(f.kind, x)
			}
			if s == `""` && f.def != "" && f.name != "convertFromCharset" && f.name != "ignoreCharacters" {
				s = f.def
			}
			parts = append(parts, f.name+"="+s)
		}
		for i, k := range n.keys {
			if x := n.items[i]; x != nil {
				known := false
				for _, f := range cspec(strings.Trim(kind, "{}"), n) {
					known = known || f.name == k
				}
				if !known {
					parts = append(parts, "?"+k)
				}
			}
		}
	case '<':
		for i, x := range n.items {
			parts = append(parts, n.keys[i]+"="+cnormal("{"+strings.Trim(kind, "<>")+"}", x))
		}
		sort.Strings(parts)
	case '[':
		for _, x := range n.items {
			parts = append(parts, cnormal("{"+strings.Trim(kind, "[]")+"}", x))
		}
	default:
		for _, x := range n.items {
			parts = append(parts, cnormal("", x))
		}
	}
	return kind + strings.Join(parts, ",") + ")"
}
