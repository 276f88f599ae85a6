package main

// C14: a record is found by the values it displays.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

func init() {
	register("C14", "model_checking",
		"For every column parser of the grid and every cell text of its domain, a CSV file with these cells (all of them, and every ordered pair in thorough) is served over HTTP by the whole stack built from a YAML configuration; every displayed value is requested back by its text, through path and query parameters, in every percent-encoding style, through the default scan, the memory, sqlite, shared and combined indexes: the answer must be exactly the records displaying an equal value. A state is one (parser, text, index, request form); a transition is one request.",
		runC14)
}

// rawClient is a keep-alive HTTP/1.1 connection sending exact bytes.
type rawClient struct {
	addr string
	conn net.Conn
	r    *bufio.Reader
}

func newRawClient(addr string) *rawClient {
	return &rawClient{addr: strings.TrimPrefix(strings.TrimPrefix(addr, "http://"), "https://")}
}

func (rc *rawClient) close() {
	if rc.conn != nil {
		rc.conn.Close()
		rc.conn = nil
	}
}

// do sends the bytes and reads one response. A dead idle connection is replaced once.
func (rc *rawClient) do(method, raw string) (*http.Response, []byte, error) {
	for try := 0; ; try++ {
		fresh := rc.conn == nil
		if fresh {
			conn, err := net.DialTimeout("tcp", rc.addr, 30*time.Second)
			if err != nil {
				return nil, nil, err
			}
			rc.conn, rc.r = conn, bufio.NewReader(conn)
		}
		_ = rc.conn.SetDeadline(time.Now().Add(120 * time.Second))
		_, err := rc.conn.Write([]byte(raw))
		var resp *http.Response
		if err == nil {
			resp, err = http.ReadResponse(rc.r, &http.Request{Method: method})
		}
		if err == nil {
			var body []byte
			body, err = io.ReadAll(resp.Body)
			resp.Body.Close()
			if err == nil {
				if resp.Close {
					rc.close()
				}
				return resp, body, nil
			}
		}
		rc.close()
		if fresh || try > 0 {
			return nil, nil, err
		}
	}
}

func (rc *rawClient) get(target string) (int, []byte, error) {
	resp, body, err := rc.do("GET", "GET "+target+" HTTP/1.1\r\nHost: localhost\r\n\r\n")
	if err != nil {
		return 0, nil, err
	}
	return resp.StatusCode, body, nil
}

// escapeStyles gives the ways of writing a text in a path segment or a query value.
func escapeStyles(s string, query bool) []string {
	unreserved := func(b byte) bool {
		return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || strings.IndexByte("-._~", b) >= 0
	}
	legal := func(b byte) bool { // may stand for itself
		if unreserved(b) || strings.IndexByte("!$'()*,:@/", b) >= 0 {
			return true
		}
		if query {
			return b == '?'
		}
		return b == '+' || b == '&' || b == '='
	}
	enc := func(keep func(byte) bool, format string, plus bool) string {
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			switch {
			case plus && s[i] == ' ':
				b.WriteByte('+')
			case keep(s[i]):
				b.WriteByte(s[i])
			default:
				fmt.Fprintf(&b, format, s[i])
			}
		}
		return b.String()
	}
	all := []string{
		enc(unreserved, "%%%02X", false),
		enc(legal, "%%%02x", false),
		enc(func(byte) bool { return false }, "%%%02X", false),
	}
	if query {
		all = append(all, enc(unreserved, "%%%02X", true))
	}
	out, seen := []string{}, map[string]bool{}
	for _, a := range all {
		if !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
	}
	return out
}

type rtParser struct {
	name  string
	yaml  string // definition, "" for a default parser
	texts []string
	// value gives the canonical value of a text, to know which are equal
	value    func(string) string
	wildcard bool
}

func rtParsers() []rtParser {
	id := func(s string) string { return s }
	strip := func(chars string) func(string) string {
		return func(s string) string {
			return strings.Map(func(r rune) rune {
				if strings.ContainsRune(chars, r) {
					return -1
				}
				return r
			}, s)
		}
	}
	integer := func(f func(string) string) func(string) string {
		return func(s string) string {
			s = f(s)
			neg := strings.HasPrefix(s, "-")
			s = strings.TrimLeft(strings.TrimLeft(s, "-+"), "0")
			if s == "" {
				return "0"
			}
			if neg {
				return "-" + s
			}
			return s
		}
	}
	float := func(sep string, f func(string) string) func(string) string {
		return func(s string) string {
			s = f(s)
			if sep != "." {
				s = strings.ReplaceAll(s, sep, ".")
			}
			var v float64
			must(json.Unmarshal([]byte(integerPart(s)), &v))
			if v == 0 {
				v = 0
			}
			return fmt.Sprint(v)
		}
	}
	boolean := func(yes ...string) func(string) string {
		return func(s string) string {
			for _, y := range yes {
				if s == y {
					return "true"
				}
			}
			return "false"
		}
	}
	return []rtParser{
		{"string", "", []string{"", "a", "A", "b c", "b+c", "b%20c", "%", "a/b", "/", "a?b", "?", "#", "&", "a=b", "a&p=b", "é", "日本", "a,b", `"q"`, "'", ";", ".", "..", "a\nb", "a\\b", "{p}", "$", "^a", "a|b", "(a)", "*", "0", "1", "true", "null", " ", " a", "a ", "\x7f", "~", "a;b", "<>", "[a]"}, id, true},
		{"integer", "", []string{"0", "1", "-1", "01", "007", "10", "9007199254740993", "9223372036854775807", "-9223372036854775808", "-0"}, integer(id), false},
		{"float", "", []string{"0", "1", "1.0", "-1", "0.5", "00.5", "-0.25", "0.1", "0.30000000000000004", "0.3", "123456789.123", "1000000000000000000000", "-0", "100"}, float(".", id), false},
		{"boolean", "", []string{"true", "1", "TRUE", "false", "0", "FALSE"}, boolean("true", "1", "TRUE"), false},
		{"grouped", "  - {name: grouped, type: integer, ignoreCharacters: \" ,'\"}\n", []string{"1 000", "1000", "1,000", "-1'000", "12", "1 2", " 12", "0", "-5"}, integer(strip(" ,'")), false},
		{"money", "  - {name: money, type: float, decimalSeparator: \",\", ignoreCharacters: \" €.\"}\n", []string{"1 000,50", "1000,5", "1.000,50€", "0,5", "-3", "3,0", "3", "-3,0"}, float(",", strip(" €.")), false},
		{"yesno", "  - {name: yesno, type: boolean, trueValues: [\"yes\", \"y/y\", \"o|p\", \"ja!\"], falseValues: [\"no\", \"n.n\", \"yes no\", \"\\u00e9\"]}\n", []string{"yes", "no", "y/y", "n.n", "o|p", "yes no", "ja!", "é"}, boolean("yes", "y/y", "o|p", "ja!"), false},
		{"latin", "  - {name: latin, type: string, convertFromCharset: ISO-8859-1}\n", []string{"a", "\xe9", "\xe9\xe8", "a\xa0b", "\xff", "\xc3\xa9", "A"}, id, true},
		{"sjis", "  - {name: sjis, type: string, convertFromCharset: Shift_JIS}\n", []string{"a", "\x93\x8c\x8b\x9e", "\x83\x5c", "\x83\x41\x83\x42", "\x5c", "\xb1", "\x41"}, id, true},
	}
}

func integerPart(s string) string {
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimLeft(strings.TrimLeft(s, "-+"), "0")
	if s == "" || s[0] == '.' {
		s = "0" + s
	}
	if neg {
		s = "-" + s
	}
	return s
}

func csvCell(s string) string {
	if s == "" || strings.ContainsAny(s, ",\"\n\r ") {
		return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
	}
	return s
}

var rtKinds = []string{"default", "noop", "map", "sqlite", "shared-map", "shared-sqlite"}

func rtYaml(dir string, p rtParser) string {
	var b strings.Builder
	if p.yaml != "" {
		b.WriteString("parsers:\n" + p.yaml)
	}
	b.WriteString(`inputs:
  - name: in
    type: csv
    path: ` + yamlQuote(filepath.Join(dir, "in.csv")) + `
    dieOnInputChange: false
    columns:
      - {name: id, parser: integer}
      - {name: p, parser: ` + p.name + `}
      - {name: q, parser: ` + p.name + `}
indexes:
  - {name: noop, type: noop}
  - {name: map, type: map, input: in, properties: [p]}
  - {name: mapq, type: map, input: in, properties: [q]}
  - {name: shared-map, type: map, input: in, properties: [id, p, q]}
  - {name: sqlite, type: sqlite, dsn: ":memory:", input: in, properties: [{name: p}]}
  - {name: shared-sqlite, type: sqlite, dsn: ":memory:", input: in, properties: [{name: id}, {name: p}, {name: q}]}
`)
	if p.wildcard {
		b.WriteString("  - {name: wildcard, type: wildcard, path: " + yamlQuote(filepath.Join(dir, "w.idx")) + ", input: in, properties: [p], ignoreCase: false}\n")
	}
	b.WriteString("outputs:\n  - {name: all, type: jsonArray, input: in, limit: {default: 1000, max: 1000}}\n")
	var routes strings.Builder
	routes.WriteString("      - {path: /all, output: all}\n")
	kinds := rtKinds
	if p.wildcard {
		kinds = append(append([]string{}, kinds...), "wildcard")
	}
	for _, k := range kinds {
		q := "default"
		switch k {
		case "shared-map", "shared-sqlite":
			q = k
		case "map":
			q = "mapq"
		}
		fmt.Fprintf(&b, "  - {name: %s-array, type: jsonArray, input: in, limit: {default: 1000, max: 1000}, parameters: {p: {property: p, index: %s, parser: %s}, q: {property: q, index: %s, parser: %s}}}\n", k, k, p.name, q, p.name)
		fmt.Fprintf(&b, "  - {name: %s-object, type: jsonObject, input: in, parameters: {p: {property: p, index: %s, parser: %s}}}\n", k, k, p.name)
		fmt.Fprintf(&b, "  - {name: %s-both, type: jsonObject, input: in, parameters: {p: {property: p, index: %s, parser: %s}, id: {property: id, index: %s, parser: integer}}}\n", k, k, p.name, map[bool]string{true: k, false: "default"}[strings.HasPrefix(k, "shared")])
		fmt.Fprintf(&routes, "      - {path: \"/%s/array\", output: %s-array}\n      - {path: \"/%s/array/{p}\", output: %s-array}\n      - {path: \"/%s/object\", output: %s-object}\n      - {path: \"/%s/object/{p}\", output: %s-object}\n      - {path: \"/%s/both/{id}/{p}\", output: %s-both}\n      - {path: \"/%s/rev/{p}/{id}\", output: %s-both}\n", k, k, k, k, k, k, k, k, k, k, k, k)
	}
	b.WriteString("services:\n  - name: http\n    type: http\n    http: {listen: \"127.0.0.1:0\"}\n    routes:\n" + routes.String())
	return b.String()
}

func runC14(c *Ctx) {
	type job struct {
		p     rtParser
		cells [][2]string
		what  string
	}
	jobs := []job{}
	for _, p := range rtParsers() {
		texts := p.texts
		all := [][2]string{}
		for i, t := range texts {
			all = append(all, [2]string{t, texts[(i*3+1)%len(texts)]})
		}
		all = append(all, [2]string{texts[0], texts[0]}, [2]string{texts[len(texts)-1], texts[1]})
		jobs = append(jobs, job{p, all, "all"})
		limit := len(texts)
		if !c.Thorough() && limit > 8 {
			limit = 8
		}
		for i := 0; i < limit; i++ {
			for j := 0; j < limit; j++ {
				jobs = append(jobs, job{p, [][2]string{{texts[i], texts[j]}, {texts[j], texts[i]}, {texts[j], texts[j]}}, fmt.Sprintf("%d,%d", i, j)})
			}
		}
	}
	c.ParallelN(24, len(jobs), func(n int) {
		j := jobs[n]
		c.Case(fmt.Sprintf("roundtrip %s %s %q", j.p.name, j.what, j.cells), func() error {
			return c.roundTrip(j.p, j.cells, j.what)
		})
	})
}

func (c *Ctx) roundTrip(p rtParser, cells [][2]string, what string) error {
	dir, clean := c.Dir()
	defer clean()
	text := ""
	for i, cell := range cells {
		text += fmt.Sprintf("%d,%s,%s\n", i, csvCell(cell[0]), csvCell(cell[1]))
	}
	writeFile(filepath.Join(dir, "in.csv"), text)
	s, err := NewStack(dir, rtYaml(dir, p), "services")
	if err != nil {
		return violf("roundtrip:"+p.name+":refused", "%v", err)
	}
	defer s.Close()
	rc := newRawClient(s.Services["http"].Address())
	defer rc.close()
	status, body, err := rc.get("/all")
	if err != nil || status != 200 {
		return violf("roundtrip:"+p.name+":all", "listing all records: %d %s %v", status, body, err)
	}
	parse := func(body []byte) ([]map[string]json.RawMessage, error) {
		var out []map[string]json.RawMessage
		if len(body) > 0 && body[0] == '{' {
			var one map[string]json.RawMessage
			if err := json.Unmarshal(body, &one); err != nil {
				return nil, err
			}
			return append(out, one), nil
		}
		err := json.Unmarshal(body, &out)
		return out, err
	}
	all, err := parse(body)
	if err != nil || len(all) != len(cells) {
		return violf("roundtrip:"+p.name+":all", "expected %d records, got %d (%v): %s", len(cells), len(all), err, body)
	}
	// The displayed values are equal exactly when the texts mean the same.
	for i := range cells {
		for k := range cells {
			same := p.value(cells[i][0]) == p.value(cells[k][0])
			if shown := jsonSame(all[i]["p"], all[k]["p"]); shown != same {
				return violf("roundtrip:"+p.name+":display", "the cells %q and %q are displayed as %s and %s", cells[i][0], cells[k][0], all[i]["p"], all[k]["p"])
			}
		}
	}
	ids := func(body []byte) (string, error) {
		recs, err := parse(body)
		if err != nil {
			return "", err
		}
		out := []string{}
		for _, r := range recs {
			id := strings.TrimSpace(string(r["id"]))
			var n int
			if _, err := fmt.Sscan(id, &n); err != nil || n < 0 || n >= len(all) {
				return "", fmt.Errorf("id %s", id)
			}
			for k := range all[n] {
				if !bytes.Equal(all[n][k], r[k]) {
					return "", fmt.Errorf("record %d is displayed differently: %s instead of %s", n, r[k], all[n][k])
				}
			}
			out = append(out, id)
		}
		return strings.Join(out, ","), nil
	}
	expect := func(pText string, qText *string) (string, string) {
		out := []string{}
		for i, cell := range cells {
			if p.value(cell[0]) == p.value(pText) && (qText == nil || p.value(cell[1]) == p.value(*qText)) {
				out = append(out, fmt.Sprint(i))
			}
		}
		first := ""
		if len(out) > 0 {
			first = out[0]
		}
		return strings.Join(out, ","), first
	}
	kinds := rtKinds
	if p.wildcard {
		kinds = append(append([]string{}, kinds...), "wildcard")
	}
	check := func(kind, form, target, want, text string) error {
		status, body, err := rc.get(target)
		c.Step(1)
		c.State(p.name, text, kind, form)
		key := "roundtrip:" + p.name + ":" + kind + ":" + form
		if err != nil {
			return violf(key+":no-answer", "GET %s: %v", target, err)
		}
		if want == "" {
			if (strings.HasPrefix(form, "array") && status == 200 && strings.TrimSpace(string(body)) == "[]") || status == 404 {
				c.Outcome("none")
				return nil
			}
			return violf(key+":wrong", "GET %s: no record is displayed with these values, got %d %s", target, status, clip(string(body), 500))
		}
		if status != 200 {
			return violf(key+":status", "GET %s (text %q): expected the records %s, got %d %s", target, text, want, status, clip(string(body), 500))
		}
		got, err := ids(body)
		if err != nil {
			return violf(key+":wrong", "GET %s: %v in %s", target, err, clip(string(body), 500))
		}
		if got != want {
			return violf(key+":wrong", "GET %s (text %q, cells %q): expected the records %s, got %s", target, text, cells, want, got)
		}
		c.Outcome(fmt.Sprintf("found%d", min(3, strings.Count(got, ",")+1)))
		return nil
	}
	seen := map[string]bool{}
	texts := []string{}
	for _, cell := range cells {
		for _, t := range cell {
			if !seen[t] {
				seen[t] = true
				texts = append(texts, t)
			}
		}
	}
	sort.Strings(texts)
	for _, kind := range kinds {
		for ti, t := range texts {
			list, first := expect(t, nil)
			if kind == "wildcard" {
				if t == "" {
					continue
				}
				// a text search also finds the records containing the text
				out := []string{}
				for i := range cells {
					if strings.Contains(rtShown(all[i]["p"]), rtShownText(p, cells, all, t)) {
						out = append(out, fmt.Sprint(i))
					}
				}
				if list == "" {
					continue
				}
				list, first = strings.Join(out, ","), out[0]
			}
			for _, e := range escapeStyles(t, true) {
				if err := check(kind, "array-query", "/"+kind+"/array?p="+e, list, t); err != nil {
					return err
				}
				if err := check(kind, "object-query", "/"+kind+"/object?p="+e, first, t); err != nil {
					return err
				}
				if kind != "wildcard" {
					u := texts[(ti*5+2)%len(texts)]
					both, _ := expect(t, &u)
					if err := check(kind, "array-query-both", "/"+kind+"/array?q="+escapeStyles(u, true)[0]+"&p="+e, both, t); err != nil {
						return err
					}
				}
			}
			if t == "" {
				continue // an empty path segment is not a parameter
			}
			for _, e := range escapeStyles(t, false) {
				if err := check(kind, "array-path", "/"+kind+"/array/"+e, list, t); err != nil {
					return err
				}
				if err := check(kind, "object-path", "/"+kind+"/object/"+e, first, t); err != nil {
					return err
				}
				n := 0
				if list != "" {
					fmt.Sscan(list[strings.LastIndex(list, ",")+1:], &n)
					if err := check(kind, "both-path", fmt.Sprintf("/%s/both/%d/%s", kind, n, e), fmt.Sprint(n), t); err != nil {
						return err
					}
					if err := check(kind, "rev-path", fmt.Sprintf("/%s/rev/%s/%d", kind, e, n), fmt.Sprint(n), t); err != nil {
						return err
					}
				}
			}
		}
	}
	c.Trace()
	return nil
}

func rtShown(raw json.RawMessage) string {
	var s string
	_ = json.Unmarshal(raw, &s)
	return s
}

// rtShownText gives the displayed form of a cell text (charset conversions).
func rtShownText(p rtParser, cells [][2]string, all []map[string]json.RawMessage, t string) string {
	for i := range cells {
		for k, prop := range []string{"p", "q"} {
			if cells[i][k] == t {
				return rtShown(all[i][prop])
			}
		}
	}
	return t
}

func jsonSame(a, b json.RawMessage) bool {
	var x, y interface{}
	da, db := json.NewDecoder(bytes.NewReader(a)), json.NewDecoder(bytes.NewReader(b))
	da.UseNumber()
	db.UseNumber()
	if da.Decode(&x) != nil || db.Decode(&y) != nil {
		return false
	}
	nx, okx := x.(json.Number)
	ny, oky := y.(json.Number)
	if okx && oky {
		if nx == "-0" {
			nx = "0"
		}
		if ny == "-0" {
			ny = "0"
		}
		return nx == ny
	}
	return show(x) == show(y)
}
