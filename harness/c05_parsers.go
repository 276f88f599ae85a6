package main

// C05: parsers convert text exactly as documented, whatever was parsed before.

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/rodb-io/rodb/pkg/parser"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/unicode"
)

const parsersYaml = `parsers:
- name: int
  type: integer
- name: intIgn
  type: integer
  ignoreCharacters: ", €"
- name: intDash
  type: integer
  ignoreCharacters: " -,"
- name: flt
  type: float
  decimalSeparator: "."
- name: fltComma
  type: float
  decimalSeparator: ","
  ignoreCharacters: " '"
- name: bool
  type: boolean
  trueValues: ["yes", "y", "1"]
  falseValues: ["no", "n", "", "("]
- name: js
  type: json
- name: str
  type: string
- name: latin
  type: string
  convertFromCharset: iso-8859-1
- name: utf16
  type: string
  convertFromCharset: UTF-16LE
- name: jis
  type: string
  convertFromCharset: ISO-2022-JP
- name: sjis
  type: string
  convertFromCharset: Shift_JIS
- name: splitComma
  type: split
  delimiter: ","
  parser: int
- name: splitLong
  type: split
  delimiter: "--"
  parser: str
- name: splitRegexp
  type: split
  delimiter: "[,;]+"
  delimiterIsRegexp: true
  parser: str
- name: splitSplit
  type: split
  delimiter: ";"
  parser: splitComma
- name: splitDot
  type: split
  delimiter: "."
  parser: bool
`

type parseResult struct {
	ok  bool
	val interface{}
}

var intRe = regexp.MustCompile(`^[+-]?[0-9]+$`)
var fltRe = regexp.MustCompile(`^[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?$`)

func refInt(s, ignore string) parseResult {
	var b strings.Builder
	for _, r := range s {
		if !strings.ContainsRune(ignore, r) {
			b.WriteRune(r)
		}
	}
	t := b.String()
	if !intRe.MatchString(t) {
		return parseResult{}
	}
	n, _ := new(big.Int).SetString(strings.TrimPrefix(t, "+"), 10)
	if !n.IsInt64() {
		return parseResult{}
	}
	return parseResult{true, n.Int64()}
}

func refFloat(s, sep, ignore string) parseResult {
	var b strings.Builder
	for _, r := range s {
		if !strings.ContainsRune(ignore, r) {
			b.WriteRune(r)
		}
	}
	t := strings.ReplaceAll(b.String(), sep, ".")
	if !fltRe.MatchString(t) {
		return parseResult{}
	}
	r, ok := new(big.Rat).SetString(strings.TrimPrefix(t, "+"))
	if !ok {
		return parseResult{}
	}
	f, _ := r.Float64()
	if math.IsInf(f, 0) {
		return parseResult{}
	}
	if f == 0 && strings.HasPrefix(t, "-") {
		f = math.Copysign(0, -1)
	}
	return parseResult{true, f}
}

func refDecode(e encoding.Encoding, s string) parseResult {
	out, err := e.NewDecoder().Bytes([]byte(s))
	if err != nil {
		return parseResult{}
	}
	return parseResult{true, string(out)}
}

func refSplit(parts []string, f func(string) parseResult) parseResult {
	vals := []interface{}{}
	for _, p := range parts {
		r := f(p)
		if !r.ok {
			return parseResult{}
		}
		vals = append(vals, r.val)
	}
	return parseResult{true, vals}
}

var refParsers = map[string]func(string) parseResult{}

func init() {
	id := func(s string) parseResult { return parseResult{true, s} }
	refParsers["str"] = id
	refParsers["int"] = func(s string) parseResult { return refInt(s, "") }
	refParsers["intIgn"] = func(s string) parseResult { return refInt(s, ", €") }
	refParsers["intDash"] = func(s string) parseResult { return refInt(s, " -,") }
	refParsers["flt"] = func(s string) parseResult { return refFloat(s, ".", "") }
	refParsers["fltComma"] = func(s string) parseResult { return refFloat(s, ",", " '") }
	refParsers["bool"] = func(s string) parseResult {
		switch s {
		case "yes", "y", "1":
			return parseResult{true, true}
		case "no", "n", "", "(":
			return parseResult{true, false}
		}
		return parseResult{}
	}
	refParsers["js"] = func(s string) parseResult {
		if !json.Valid([]byte(s)) {
			return parseResult{}
		}
		var v interface{}
		if json.Unmarshal([]byte(s), &v) != nil {
			return parseResult{}
		}
		return parseResult{true, v}
	}
	refParsers["latin"] = func(s string) parseResult { return refDecode(charmap.ISO8859_1, s) }
	refParsers["utf16"] = func(s string) parseResult {
		return refDecode(unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM), s)
	}
	refParsers["jis"] = func(s string) parseResult { return refDecode(japanese.ISO2022JP, s) }
	refParsers["sjis"] = func(s string) parseResult { return refDecode(japanese.ShiftJIS, s) }
	refParsers["splitComma"] = func(s string) parseResult { return refSplit(strings.Split(s, ","), refParsers["int"]) }
	refParsers["splitLong"] = func(s string) parseResult { return refSplit(strings.Split(s, "--"), id) }
	refParsers["splitRegexp"] = func(s string) parseResult {
		parts := []string{""}
		in := false
		for _, r := range s {
			if r == ',' || r == ';' {
				if !in {
					parts = append(parts, "")
				}
				in = true
			} else {
				in = false
				parts[len(parts)-1] += string(r)
			}
		}
		return refSplit(parts, id)
	}
	refParsers["splitSplit"] = func(s string) parseResult {
		return refSplit(strings.Split(s, ";"), refParsers["splitComma"])
	}
	refParsers["splitDot"] = func(s string) parseResult { return refSplit(strings.Split(s, "."), refParsers["bool"]) }

	register("C05", "model_checking",
		"Every text up to the length bound over an alphabet chosen for each parser (digits, signs, separators, ignored characters, delimiters, escape sequences) is parsed by the real parser and compared with an independent reference; every ordered pair of texts is also parsed in sequence on one instance, and every canonical value is matched against the parser's route pattern. A state is one distinct (parser, result); a transition is one Parse call.",
		runC05)
}

func buildParsers(c *Ctx) (parser.List, func()) {
	dir, clean := c.Dir()
	path := filepath.Join(dir, "in.csv")
	writeFile(path, "a\n")
	st, err := NewStack(dir, parsersYaml+csvShape{1, "", false}.yaml(path), "config")
	if err != nil {
		clean()
		panic(&Viol{Key: "config-refused", Detail: err.Error()})
	}
	list, err := parser.NewFromConfigs(st.Config.Parsers)
	if err != nil {
		clean()
		panic(&Viol{Key: "parsers-refused", Detail: err.Error()})
	}
	return list, clean
}

func parseOne(c *Ctx, list parser.List, name, text string) error {
	p, ok := list[name]
	if !ok {
		return violf("missing-parser", "%s", name)
	}
	v, err := p.Parse(text)
	c.Step(1)
	want := refParsers[name](text)
	if (err == nil) != want.ok {
		return violf("parse-status:"+name, "%s.Parse(%q): expected ok=%v value %s, got %s, %v", name, text, want.ok, show(want.val), show(v), err)
	}
	if err == nil && show(v) != show(want.val) {
		return violf("parse-value:"+name, "%s.Parse(%q): expected %s, got %s", name, text, show(want.val), show(v))
	}
	c.State(name, err == nil, show(v))
	return nil
}

func runC05(c *Ctx) {
	type job struct {
		name     string
		alphabet []string
		max      int
	}
	d := c.Pick(0, 1)
	jobs := []job{
		{"int", []string{"0", "1", "9", "-", "+", " ", ",", "_", "x"}, 5 + d},
		{"intIgn", []string{"0", "7", "-", "+", ",", " ", "€", "x"}, 5 + d},
		{"intDash", []string{"0", "7", "-", "+", ",", " ", "!"}, 5 + d},
		{"flt", []string{"0", "1", ".", "-", "+", "e", ",", " "}, 6},
		{"fltComma", []string{"0", "1", ".", ",", "-", "'", "e"}, 6 + d},
		{"bool", []string{"y", "e", "s", "n", "o", "1", "(", "Y"}, 4 + d},
		{"js", []string{"1", "\"", "[", "]", "{", "}", ":", ",", "null", " "}, 5 + d},
		{"str", []string{"a", "é", "\x00", "\xff", "\n"}, 5 + d},
		{"latin", []string{"a", "\xe9", "\x80", "\xff", "\x00"}, 5 + d},
		{"utf16", []string{"a", "\x00", "\xd8", "\xdc", "\xff", "\xfe"}, 5 + d},
		{"jis", []string{"\x1b$B", "\x1b(B", "\x1b(J", "$\"", "\x1b", "a", "\x0e"}, 5 + d},
		{"sjis", []string{"\x82", "\xa0", "a", "\xb1", "\xff", "\x81"}, 5 + d},
		{"splitComma", []string{"1", "2", ",", "-", " "}, 5 + d},
		{"splitLong", []string{"-", "a", "b"}, 7 + d},
		{"splitRegexp", []string{",", ";", "a", "é"}, 6 + d},
		{"splitSplit", []string{"1", ",", ";"}, 7 + d},
		{"splitDot", []string{"y", "n", ".", "x"}, 6 + d},
	}
	list, clean := buildParsers(c)
	defer clean()
	c.Parallel(len(jobs), func(ji int) {
		j := jobs[ji]
		ws := words(j.alphabet, j.max)
		if j.name == "int" || j.name == "intIgn" {
			for _, s := range []string{"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999", "00000000000000000000000001"} {
				ws = append(ws, s)
			}
		}
		if j.name == "flt" {
			ws = append(ws, "1e308", "1e309", "-1e309", "5e-324", "1e-400", "0.1", "123456789.123456789", "9007199254740993")
		}
		// A private instance: stateful decoders are exercised in a fixed order.
		mine, clean := buildParsers(c)
		defer clean()
		const chunk = 500
		for i := 0; i < len(ws); i += chunk {
			part := ws[i:min(len(ws), i+chunk)]
			c.Case(fmt.Sprintf("parse %s texts %d..%d of the length<=%d enumeration", j.name, i, i+len(part), j.max), func() error {
				for _, w := range part {
					if err := parseOne(c, mine, j.name, w); err != nil {
						return err
					}
				}
				c.Trace()
				c.Outcome(j.name)
				return nil
			})
			if c.Expired() {
				return
			}
		}
		// Histories: all ordered pairs of short texts.
		short := words(j.alphabet, 2)
		c.Case("parse-pairs "+j.name, func() error {
			for _, a := range short {
				for _, b := range short {
					if _, err := mine[j.name].Parse(a); err == nil != refParsers[j.name](a).ok {
						return violf("parse-status:"+j.name, "%q", a)
					}
					if err := parseOne(c, mine, j.name, b); err != nil {
						return violf("parse-history:"+j.name, "after Parse(%q): %v", a, err)
					}
				}
			}
			c.Trace()
			return nil
		})
	})
	// Route patterns: canonical texts are matched entirely.
	full := func(name string) *regexp.Regexp {
		re, err := regexp.Compile("^(?:" + list[name].GetRegexpPattern() + ")$")
		if err != nil {
			panic(&Viol{Key: "pattern-invalid:" + name, Detail: err.Error()})
		}
		return re
	}
	type canon struct {
		name string
		ign  []string
		base []string
	}
	for _, k := range []canon{
		{"int", nil, []string{"0", "7", "-7", "1234567890", "-9223372036854775808"}},
		{"intIgn", []string{",", " ", "€"}, []string{"0", "12", "-12", "1234"}},
		{"intDash", []string{",", " ", "-"}, []string{"0", "12", "1234"}},
		{"flt", nil, []string{"0", "1.5", "-1.25", "10"}},
		{"fltComma", []string{" ", "'"}, []string{"0", "1,5", "-12,25", "10"}},
		{"bool", nil, []string{"yes", "y", "1", "no", "n", "("}},
		{"str", nil, []string{"a", "é/b", "x y?", "a\nb", "\n", "\xff"}},
	} {
		c.Case("pattern "+k.name, func() error {
			re := full(k.name)
			texts := append([]string{}, k.base...)
			for _, b := range k.base {
				for _, g := range k.ign {
					for i := 0; i <= len(b); i++ {
						texts = append(texts, b[:i]+g+b[i:])
					}
				}
			}
			for _, t := range texts {
				c.Step(1)
				sepCut := k.name == "fltComma" && (strings.Contains(t, ", ") || strings.Contains(t, ",'"))
				if !re.MatchString(t) && !sepCut {
					return violf("pattern-misses:"+k.name, "the route pattern %q of parser %s does not match %q", list[k.name].GetRegexpPattern(), k.name, t)
				}
				if !refParsers[k.name](t).ok {
					return violf("harness", "bad canonical text %q", t)
				}
			}
			c.Outcome("pattern")
			return nil
		})
	}
	c.Case("pattern-rejects", func() error {
		for name, texts := range map[string][]string{
			"int": {"", "a", "1a", "1.5", "--1"}, "flt": {"", "x", "1.", "."}, "bool": {"Y", "yess", "maybe"},
			"intDash": {"!", "%12", "1*2"},
		} {
			re := full(name)
			for _, t := range texts {
				c.Step(1)
				if re.MatchString(t) {
					return violf("pattern-accepts:"+name, "the route pattern of %s matches %q", name, t)
				}
			}
		}
		return nil
	})
}
