package main

// C23: routing.

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"

	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/rodb-io/rodb/pkg/service"
	"github.com/sirupsen/logrus"
)

func init() {
	register("C23", "model_checking",
		"The real HTTP service is started for every route table of the grid (every template alone, every ordered pair, every ordered triple of a subset; literal texts with regular expression metacharacters, one or two parameters of each parser, adjacent and inner parameters; GET and POST outputs), with outputs that echo what they receive; every request of the grid (paths derived from the templates and perturbed, query strings, methods, percent-encodings) is compared with a reference matcher on strings. A state is one (table, expected route); a transition is one request.",
		runC23)
}

// echoOutput answers with what it received.
type echoOutput struct {
	name    string
	parsers map[string]parser.Parser
	payload *string
}

func (o *echoOutput) Name() string                 { return o.name }
func (o *echoOutput) ResponseType() string         { return "application/json" }
func (o *echoOutput) ExpectedPayloadType() *string { return o.payload }
func (o *echoOutput) Close() error                 { return nil }
func (o *echoOutput) HasParameter(n string) bool   { _, ok := o.parsers[n]; return ok }
func (o *echoOutput) GetParameterParser(n string) (parser.Parser, error) {
	if p, ok := o.parsers[n]; ok {
		return p, nil
	}
	return nil, fmt.Errorf("no parameter %s", n)
}
func (o *echoOutput) Handle(params map[string]string, payload []byte, sendError func(error) error, sendSuccess func() io.Writer) error {
	hexed := map[string]string{}
	for k, v := range params {
		hexed[fmt.Sprintf("%x", k)] = fmt.Sprintf("%x", v)
	}
	b, err := json.Marshal(map[string]interface{}{"output": o.name, "params": hexed, "payload": string(payload)})
	if err != nil {
		return sendError(err)
	}
	_, err = sendSuccess().Write(b)
	return err
}

// rtTemplate is a route path split in literals and parameters.
type rtTemplate struct {
	path  string
	parts []string // literal, parameter, literal, ... (always odd)
}

func template(path string) rtTemplate {
	t := rtTemplate{path: path}
	rest := path
	for {
		i := strings.IndexByte(rest, '{')
		j := -1
		if i >= 0 {
			j = strings.IndexByte(rest[i:], '}')
		}
		if i < 0 || j < 2 {
			t.parts = append(t.parts, rest)
			return t
		}
		t.parts = append(t.parts, rest[:i], rest[i+1:i+j])
		rest = rest[i+j+1:]
	}
}

func digits(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return true
}

// routeAccepts says whether the text is of the form of the parameter.
var routeAccepts = map[string]func(string) bool{
	"s": func(s string) bool { return s != "" },
	"t": func(s string) bool { return s != "" },
	"n": func(s string) bool { return digits(strings.TrimPrefix(s, "-")) },
	"f": func(s string) bool {
		s = strings.TrimPrefix(s, "-")
		if i := strings.IndexByte(s, '.'); i >= 0 {
			return digits(s[:i]) && digits(s[i+1:])
		}
		return digits(s)
	},
	"b": func(s string) bool { return s == "true" || s == "false" || s == "a.b" || s == "1|2" },
}

// matches gives every decomposition of path along the template.
func (t rtTemplate) matches(path string) []map[string]string {
	out := []map[string]string{}
	var rec func(i int, rest string, got map[string]string)
	rec = func(i int, rest string, got map[string]string) {
		lit := t.parts[i]
		if !strings.HasPrefix(rest, lit) {
			return
		}
		rest = rest[len(lit):]
		if i == len(t.parts)-1 {
			if rest == "" {
				m := map[string]string{}
				for k, v := range got {
					m[k] = v
				}
				out = append(out, m)
			}
			return
		}
		name := t.parts[i+1]
		for n := 1; n <= len(rest); n++ {
			if routeAccepts[name](rest[:n]) {
				got[name] = rest[:n]
				rec(i+2, rest[n:], got)
				delete(got, name)
			}
		}
	}
	rec(0, path, map[string]string{})
	return out
}

func runC23(c *Ctx) {
	pcfg := map[string]parser.Config{
		"string":  &parser.StringConfig{Name: "string"},
		"integer": &parser.IntegerConfig{Name: "integer"},
		"float":   &parser.FloatConfig{Name: "float", DecimalSeparator: "."},
		"boolean": &parser.BooleanConfig{Name: "boolean", TrueValues: []string{"true", "a.b"}, FalseValues: []string{"false", "1|2"}},
	}
	for _, p := range pcfg {
		must(p.Validate(pcfg, quietEntry()))
	}
	ps, err := parser.NewFromConfigs(pcfg)
	must(err)
	params := map[string]parser.Parser{"s": ps["string"], "t": ps["string"], "n": ps["integer"], "f": ps["float"], "b": ps["boolean"]}
	scaleRoutes(c, params)
	json_ := "application/json"
	text := "text/plain"
	literal := []string{"/", "/a", "/a/", "/a/b", "/a.b", "/a+b", "/(a)", "/[a]", "/a|b", "/^a$", "/a*", "/é", "/a b", "/A", "/a%20b", "/\\d", "/a?b", "/a//b", "/{}", "/a{", "/.*"}
	single := []string{"/{s}", "/a/{s}", "/{s}/b", "/{n}", "/a/{n}", "/{b}", "/{f}", "/a{n}b", "/{n}.json", "/{s}.json", "/a.{n}", "/a/{s}/b", "{s}", "/x-{b}"}
	double := []string{"/{s}/{n}", "/{n}/{s}", "/{n}-{s}", "/{s}{n}", "/{s}/{t}", "/{b}/{n}", "/{n}/{f}", "/{f}/{b}", "/{n}{b}", "/{t}/x/{s}"}
	all := append(append(append([]string{}, literal...), single...), double...)
	var tables [][]string
	for _, a := range all {
		tables = append(tables, []string{a})
	}
	pairs := append(append(append([]string{}, literal[:8]...), single...), double...)
	if c.Thorough() {
		pairs = all
	}
	for _, a := range pairs {
		for _, b := range pairs {
			if a != b {
				tables = append(tables, []string{a, b})
			}
		}
	}
	triple := []string{"/a", "/{s}", "/{n}", "/a/{s}", "/{b}", "/{s}/{n}", "/a/b"}
	if c.Thorough() {
		triple = append(triple, "/{n}/{s}", "/{s}.json", "/{s}/b", "/a.b", "/")
	}
	for _, a := range triple {
		for _, b := range triple {
			for _, d := range triple {
				if a != b && b != d && a != d {
					tables = append(tables, []string{a, b, d})
				}
			}
		}
	}
	// Decoded request paths.
	paths := []string{"/", "/a", "/a/", "/a/b", "/a.b", "/aXb", "/a+b", "/aab", "/(a)", "/[a]", "/a|b", "/b", "/^a$", "/a*", "/aa", "/é", "/e", "/a b", "/A", "/a%20b", "/\\d", "/5", "/a?b", "/a//b", "/{}", "/a{", "/.*", "//a", "/a/a",
		"/12", "/-3", "/1.5", "/1x", "/a/12", "/a/-0", "/a/1.5", "/true", "/false", "/a.b/7", "/1|2", "/2", "/a1b", "/a-1b", "/ab", "/7.json", "/7xjson", "/x.json", "/.json", "/a.9", "/a/x/b", "/a/x/y/b", "/x/b", "/x/9", "/9/x", "/9-x", "/9-8-7", "/x9", "/99", "/x/y/z", "/true/4", "/4/2.5", "/2.5/false", "/7true", "/x-true", "/p/x/q", "/x/x/x/x", "/s/\n/9", "/\n", "/a\n", "/99999999999999999999", "/a/99999999999999999999", "/;a=b", "/a;b", "/a&b=c", "/#", "/~", "/\xff", "/a/\xff\xfe", "/%"}
	queries := []struct {
		raw  string
		want map[string]string
	}{
		{"", nil},
		{"?", nil},
		{"?s=q", map[string]string{"s": "q"}},
		{"?n=1&s=%26%3d&other=x%20y+z", map[string]string{"n": "1", "s": "&=", "other": "x y z"}},
		{"?s=first&s=second", map[string]string{"s": "first"}},
		{"?s=q&S=Q&s%20=r&s[]=t&%73=u", map[string]string{"s": "q", "S": "Q", "s ": "r", "s[]": "t"}},
		{"?S=Q&+s=r&N=1&UPPER=lower&Mixed.Name=é", map[string]string{"S": "Q", " s": "r", "N": "1", "UPPER": "lower", "Mixed.Name": "é"}},
		{"?s=&n", map[string]string{"s": "", "n": ""}},
		{"?s=a%2Bb%25%C3%A9%FF?/", map[string]string{"s": "a+b%é\xff?/"}},
		{"?b=%00&f=%0A", map[string]string{"b": "\x00", "f": "\n"}},
		{"?n=5&b=true&f=2&t=zz&s=yy", map[string]string{"n": "5", "b": "true", "f": "2", "t": "zz", "s": "yy"}},
	}
	type kind struct {
		payload *string
	}
	run := func(table []string, payloads []*string) error {
		what := fmt.Sprintf("routes %q", table)
		cfg := &service.HttpConfig{Name: "h", Http: &service.HttpHttpConfig{Listen: "127.0.0.1:0"}, ErrorsType: "application/json"}
		outputs := map[string]output.Output{}
		templates := []rtTemplate{}
		for i, path := range table {
			name := fmt.Sprintf("o%d", i)
			var pl *string
			if payloads != nil {
				pl = payloads[i]
			}
			outputs[name] = &echoOutput{name, params, pl}
			cfg.Routes = append(cfg.Routes, &service.HttpRouteConfig{Output: name, Path: path})
			templates = append(templates, template(path))
		}
		log, _ := newLogger()
		cfg.Logger = logrus.NewEntry(log)
		list, err := service.NewFromConfigs(map[string]service.Config{"h": cfg}, outputs, log)
		if err != nil {
			return violf("route:refused", "%s: %v", what, err)
		}
		defer service.Close(list)
		rc := newRawClient(list["h"].Address())
		defer rc.close()
		type request struct {
			method, path, query, ctype, body string
			qwant                            map[string]string
			escape                           int
		}
		requests := []request{}
		post := payloads != nil
		for pi, p := range paths {
			requests = append(requests, request{method: "GET", path: p})
			if post || pi%4 == 0 {
				for _, m := range []string{"POST", "PUT", "HEAD", "DELETE", "OPTIONS"} {
					requests = append(requests, request{method: m, path: p, body: "{}"})
				}
			}
			if post {
				requests = append(requests, request{method: "POST", path: p, ctype: json_, body: "{\"a\":\"é\"}"},
					request{method: "POST", path: p, ctype: text, body: ""},
					request{method: "GET", path: p, ctype: json_})
			}
			for esc := 1; esc <= 2; esc++ {
				requests = append(requests, request{method: "GET", path: p, escape: esc})
			}
			if len(table) == 1 || pi%5 == 1 {
				for _, q := range queries[1:] {
					requests = append(requests, request{method: "GET", path: p, query: q.raw, qwant: q.want})
				}
			}
		}
		for _, r := range requests {
			target := ""
			switch styles := escapeStyles(r.path, false); {
			case r.escape == 0:
				target = styles[min(1, len(styles)-1)]
			case r.escape == 1:
				target = strings.ReplaceAll(styles[0], "%2F", "/")
			default:
				target = styles[0]
			}
			if !strings.HasPrefix(target, "/") {
				target = "/" + strings.TrimPrefix(target, "%2F")
			}
			target += r.query
			// The path as RFC 3986 decodes it.
			decoded, err := url.PathUnescape(strings.SplitN(target, "?", 2)[0])
			must(err)
			want := -1
			var alternatives []map[string]string
			for i, t := range templates {
				var pl *string
				if payloads != nil {
					pl = payloads[i]
				}
				if !(r.method == "GET" && pl == nil || r.method == "POST" && pl != nil && r.ctype == *pl) {
					continue
				}
				if alternatives = t.matches(decoded); len(alternatives) > 0 {
					want = i
					break
				}
			}
			raw := r.method + " " + target + " HTTP/1.1\r\nHost: localhost\r\n"
			if r.ctype != "" {
				raw += "Content-Type: " + r.ctype + "\r\n"
			}
			if r.body != "" || r.ctype != "" {
				raw += fmt.Sprintf("Content-Length: %d\r\n", len(r.body))
			}
			resp, body, err := rc.do(r.method, raw+"\r\n"+r.body)
			c.Step(1)
			id := fmt.Sprintf("%s: %s %q (content type %q)", what, r.method, target, r.ctype)
			if err != nil {
				return violf("route:no-answer", "%s: %v", id, err)
			}
			if want < 0 {
				if resp.StatusCode != http.StatusNotFound {
					return violf("route:unexpected-match", "%s: no route matches, got %d %s", id, resp.StatusCode, body)
				}
				c.Outcome("none")
				continue
			}
			c.State(strings.Join(table, " "), want, r.method)
			if resp.StatusCode != 200 {
				return violf("route:missed", "%s: expected the route %q, got %d %s", id, table[want], resp.StatusCode, body)
			}
			var got struct {
				Output  string
				Params  map[string]string
				Payload string
			}
			if err := json.Unmarshal(body, &got); err != nil {
				return violf("route:body", "%s: %v in %s", id, err, body)
			}
			if got.Output != fmt.Sprintf("o%d", want) {
				return violf("route:wrong-route", "%s: expected the route %q, reached %s", id, table[want], got.Output)
			}
			wantPayload := ""
			if r.method == "POST" {
				wantPayload = r.body
			}
			if got.Payload != wantPayload {
				return violf("route:payload", "%s: sent %q, received %q", id, wantPayload, got.Payload)
			}
			ok := false
			for _, a := range alternatives {
				exp := map[string]string{}
				for k, v := range r.qwant {
					exp[fmt.Sprintf("%x", k)] = fmt.Sprintf("%x", v)
				}
				for k, v := range a {
					exp[fmt.Sprintf("%x", k)] = fmt.Sprintf("%x", v)
				}
				ok = ok || fmt.Sprint(exp) == fmt.Sprint(got.Params)
			}
			if !ok {
				return violf("route:parameters", "%s: expected one of the parameter sets %q with the query parameters %q, received (in hexadecimal) %v", id, alternatives, r.qwant, got.Params)
			}
			c.Outcome(fmt.Sprintf("matched-%d-parameters", len(alternatives[0])))
		}
		c.Trace()
		return nil
	}
	c.ParallelN(16, len(tables), func(i int) {
		c.Case(fmt.Sprintf("routes %q", tables[i]), func() error { return run(tables[i], nil) })
	})
	// Outputs that expect a payload.
	posts := []string{"/a", "/{s}", "/{n}", "/a/{s}"}
	kinds := []*string{nil, &json_, &text}
	type pt struct {
		table    []string
		payloads []*string
	}
	pts := []pt{}
	for _, a := range posts {
		for _, b := range append(posts, "/a") {
			for _, ka := range kinds {
				for _, kb := range kinds {
					pts = append(pts, pt{[]string{a, b}, []*string{ka, kb}})
				}
			}
		}
	}
	c.ParallelN(16, len(pts), func(i int) {
		names := []string{}
		for _, k := range pts[i].payloads {
			if k == nil {
				names = append(names, "get")
			} else {
				names = append(names, *k)
			}
		}
		c.Case(fmt.Sprintf("routes %q %q", pts[i].table, names), func() error { return run(pts[i].table, pts[i].payloads) })
	})
}
