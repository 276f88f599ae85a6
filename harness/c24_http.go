package main

// C24: every request gets one well-formed response with the right status.

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	"math"
	"math/big"
	"mime"
	"net"
	"net/http"
	"path/filepath"
	"strings"
	"time"

	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/output/relationship"
	"github.com/rodb-io/rodb/pkg/service"
	"github.com/sirupsen/logrus"
)

func init() {
	register("C24", "model_checking",
		"The real HTTP and HTTPS service, with real object and array outputs: every value of the domain in every place it can reach a response (property, nested array, nested object, parent, embedded record); every single failing call of the input during every request; every pair of the request forms (methods, versions, bodies, parameters, truncated and malformed requests, clients that leave) on one connection, sent one after the other and pipelined. The raw bytes of each response are parsed: one response per request, announced length, content type, status and one JSON document. A state is one (request, expected answer); a transition is one request.",
		runC24)
}

// httpService starts the real service over outputs.
func httpService(outputs map[string]output.Output, routes [][2]string, https *service.HttpHttpsConfig) (service.Service, *logSink, error) {
	cfg := &service.HttpConfig{Name: "h", Http: &service.HttpHttpConfig{}, Https: https}
	for _, r := range routes {
		cfg.Routes = append(cfg.Routes, &service.HttpRouteConfig{Output: r[1], Path: r[0]})
	}
	ocfg := map[string]output.Config{}
	for n := range outputs {
		ocfg[n] = nil
	}
	log, sink := newLogger()
	if err := cfg.Validate(ocfg, logrus.NewEntry(log)); err != nil {
		return nil, sink, err
	}
	list, err := service.NewFromConfigs(map[string]service.Config{"h": cfg}, outputs, log)
	if err != nil {
		return nil, sink, err
	}
	return list["h"], sink, nil
}

func mustService(outputs map[string]output.Output, routes [][2]string, https *service.HttpHttpsConfig) (service.Service, *logSink) {
	s, sink, err := httpService(outputs, routes, https)
	if err != nil {
		panic(violf("service-refused", "%v", err))
	}
	return s, sink
}

// oneJSON parses exactly one JSON document.
func oneJSON(body []byte) (interface{}, error) {
	dec := json.NewDecoder(strings.NewReader(string(body)))
	dec.UseNumber()
	var v interface{}
	if err := dec.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := dec.Token(); err != io.EOF {
		return nil, fmt.Errorf("content after the document")
	}
	return v, nil
}

// wellFormed checks everything that holds for all the responses of rodb; the
// status must be one of those given.
func wellFormed(key, what, method string, resp *http.Response, body []byte, statuses ...int) (interface{}, error) {
	ok := false
	for _, s := range statuses {
		ok = ok || s == resp.StatusCode
	}
	if !ok {
		return nil, violf(key+":status", "%s: expected the status %v, got %d %s", what, statuses, resp.StatusCode, clip(string(body), 300))
	}
	ct := resp.Header.Values("Content-Type")
	if len(ct) != 1 {
		return nil, violf(key+":content-type", "%s: content types %q", what, ct)
	}
	mt, args, err := mime.ParseMediaType(ct[0])
	if err != nil || mt != "application/json" || !strings.EqualFold(args["charset"], "utf-8") {
		return nil, violf(key+":content-type", "%s: content type %q", what, ct[0])
	}
	if method == "HEAD" {
		if len(body) > 0 {
			return nil, violf(key+":body", "%s: body %q", what, body)
		}
		return nil, nil
	}
	if resp.ContentLength < 0 && resp.ProtoMinor > 0 && len(resp.TransferEncoding) == 0 && !resp.Close {
		return nil, violf(key+":length", "%s: neither a length nor chunks", what)
	}
	if !strings.Contains(strings.ToValidUTF8(string(body), ""), string(body)) {
		return nil, violf(key+":encoding", "%s: the body is not UTF-8: %q", what, body)
	}
	v, err := oneJSON(body)
	if err != nil {
		return nil, violf(key+":json", "%s: %d %q is not one JSON document: %v", what, resp.StatusCode, clip(string(body), 300), err)
	}
	if resp.StatusCode != 200 {
		m, ok := v.(map[string]interface{})
		if !ok || len(m) != 1 {
			return nil, violf(key+":error-document", "%s: %q", what, body)
		}
		if s, ok := m["error"].(string); !ok || s == "" {
			return nil, violf(key+":error-document", "%s: %q", what, body)
		}
	}
	return v, nil
}

// sameJSON compares a decoded document (with json.Number) with a value, by meaning.
func sameJSON(got interface{}, want interface{}) bool {
	switch w := want.(type) {
	case nil:
		return got == nil
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok || len(g) != len(w) {
			return false
		}
		for k, v := range w {
			x, ok := g[toUTF8(k)]
			if !ok || !sameJSON(x, v) {
				return false
			}
		}
		return true
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !sameJSON(g[i], w[i]) {
				return false
			}
		}
		return true
	case string:
		g, ok := got.(string)
		return ok && g == toUTF8(w)
	case bool:
		g, ok := got.(bool)
		return ok && g == w
	case float64:
		g, ok := got.(json.Number)
		if !ok {
			return false
		}
		f, err := g.Float64()
		return err == nil && f == w
	case int64:
		g, ok := got.(json.Number)
		return ok && g.String() == fmt.Sprint(w)
	case json.Number:
		g, ok := got.(json.Number)
		return ok && g == w
	}
	return false
}

// toUTF8 replaces each invalid byte.
func toUTF8(s string) string { return string([]rune(s)) }

func certificate(dir string) *service.HttpHttpsConfig {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	must(err)
	tmpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "localhost"},
		NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1<<33, 0), IPAddresses: []net.IP{net.ParseIP("127.0.0.1")}}
	der, err := x509.CreateCertificate(rand.Reader, tmpl, tmpl, &key.PublicKey, key)
	must(err)
	kder, err := x509.MarshalECPrivateKey(key)
	must(err)
	cfg := &service.HttpHttpsConfig{CertificatePath: filepath.Join(dir, "cert.pem"), PrivateKeyPath: filepath.Join(dir, "key.pem")}
	writeFile(cfg.CertificatePath, string(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})))
	writeFile(cfg.PrivateKeyPath, string(pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kder})))
	return cfg
}

type object = map[string]interface{}

func runC24(c *Ctx) {
	c24Values(c)
	c24ErrorTexts(c)
	c24Faults(c)
	c24Forms(c)
}

func c24Values(c *Ctx) {
	big1 := strings.Repeat("x", 70000)
	texts := []string{"", "a", "é", "\"", "\\", "/", "</script>", "<&>", "\x00", "\x1f\x7f", "\n\r\t\b\f", "\u2028\u2029", "\ufeff", "\ufffd", "\U0001F600", "\xff", "a\xc3", "\xed\xa0\x80", "e\u0301", "null", "{}", "0", "1e5", "%s%d%!", "\u0085", big1, strings.Repeat("é", 3000)}
	numbers := []interface{}{int64(0), int64(-1), int64(math.MaxInt64), int64(math.MinInt64), int64(1 << 53), 0.5, -0.0, 1e21, 1e-7, 5e-324, math.MaxFloat64, 1.0, 123456789012345680.0}
	values := []interface{}{nil, true, false}
	for _, t := range texts {
		values = append(values, t)
	}
	values = append(values, numbers...)
	values = append(values, []interface{}{}, object{}, []interface{}{nil, "a", []interface{}{int64(1), object{"k": nil}}}, object{"": "", "a.b": []interface{}{}, "é\xff": "v"})
	deep := interface{}("leaf")
	for i := 0; i < 300; i++ {
		if i%2 == 0 {
			deep = []interface{}{deep}
		} else {
			deep = object{"d": deep}
		}
	}
	values = append(values, deep)
	broken := []interface{}{math.NaN(), math.Inf(1), math.Inf(-1), make(chan int), func() {}, complex(1, 2)}
	type place struct {
		name string
		wrap func(v interface{}) interface{}
	}
	places := []place{
		{"property", func(v interface{}) interface{} { return v }},
		{"array", func(v interface{}) interface{} { return []interface{}{"a", v, v} }},
		{"object", func(v interface{}) interface{} { return object{"in": object{"side": v}} }},
	}
	names := []string{"v", "é", "", "a.b", "\"", "\xff", "error", "<x>"}
	check := func(propName string, pl place, v interface{}, encodable bool) error {
		val := pl.wrap(v)
		before := []interface{}{"b", val, int64(7)}
		rows := []object{}
		kids := []object{}
		for i, x := range before {
			rows = append(rows, object{"id": int64(i), propName: x})
			kids = append(kids, object{"pid": int64(i), "ok": "fine"}, object{"pid": int64(2 - i), propName: x})
		}
		parents, children := newMem("p", rows), newMem("k", kids)
		w := newWorld(parents, children)
		w.addKind("map", "m", "p", "id")
		defer w.close()
		rel := func(arr bool) rels {
			return rels{"kids": {Input: "k", IsArray: arr, Match: []*relationship.RelationshipMatchConfig{{ParentProperty: "id", ChildProperty: "pid"}}}}
		}
		outs := map[string]output.Output{
			"obj":  w.mustOutput(&output.JsonObjectConfig{Name: "obj", Input: "p", Parameters: params{"id": param("id", "m", "integer")}}),
			"arr":  w.mustOutput(&output.JsonArrayConfig{Name: "arr", Input: "p", Parameters: params{"id": param("id", "default", "integer")}}),
			"robj": w.mustOutput(&output.JsonObjectConfig{Name: "robj", Input: "p", Parameters: params{"id": param("id", "m", "integer")}, Relationships: rel(false)}),
			"rarr": w.mustOutput(&output.JsonArrayConfig{Name: "rarr", Input: "p", Parameters: params{"id": param("id", "m", "integer")}, Relationships: rel(true)}),
		}
		svc, _ := mustService(outs, [][2]string{{"/obj/{id}", "obj"}, {"/arr", "arr"}, {"/robj/{id}", "robj"}, {"/rarr", "rarr"}}, nil)
		defer svc.Close()
		rc := newRawClient(svc.Address())
		defer rc.close()
		kidsOf := func(id int64) []interface{} {
			out := []interface{}{}
			for _, k := range kids {
				if k["pid"] == id {
					out = append(out, k)
				}
			}
			return out
		}
		withKids := func(r object, arr bool) object {
			out := object{}
			for k, v := range r {
				out[k] = v
			}
			ks := kidsOf(r["id"].(int64))
			if arr {
				out["kids"] = ks
			} else {
				out["kids"] = ks[0]
			}
			return out
		}
		// A request that reaches the value fails if it cannot be encoded; the others succeed.
		ask := func(target string, want interface{}, touches bool) error {
			resp, body, err := rc.do("GET", "GET "+target+" HTTP/1.1\r\nHost: localhost\r\n\r\n")
			c.Step(1)
			what := fmt.Sprintf("%s with %s in %s of %q", target, clip(show(v), 60), pl.name, propName)
			if err != nil {
				return violf("value:no-answer", "%s: %v", what, err)
			}
			status := 200
			if touches && !encodable {
				status = 500
			}
			doc, err := wellFormed("value", what, "GET", resp, body, status)
			if err != nil {
				return err
			}
			if status == 200 && !sameJSON(doc, want) {
				return violf("value:wrong", "%s: got %s", what, clip(string(body), 500))
			}
			c.Outcome(fmt.Sprintf("value-%d", status))
			c.State("value", target, propName, pl.name, clip(show(v), 100))
			return nil
		}
		for round := 0; round < 2; round++ {
			for i, r := range rows {
				one := []interface{}{r}
				if err := ask(fmt.Sprintf("/obj/%d", i), r, i == 1); err != nil {
					return err
				}
				if err := ask(fmt.Sprintf("/arr?id=%d", i), one, i == 1); err != nil {
					return err
				}
				// The first child of parent 2 is the second record; of 0 the first; of 1 its own ok record.
				wr := withKids(r, false)
				if err := ask(fmt.Sprintf("/robj/%d", i), wr, i == 1); err != nil {
					return err
				}
				if err := ask(fmt.Sprintf("/rarr?id=%d", i), []interface{}{withKids(r, true)}, i == 1); err != nil {
					return err
				}
			}
			all := []interface{}{rows[0], rows[1], rows[2]}
			if err := ask("/arr", all, true); err != nil {
				return err
			}
			if err := ask("/arr?limit=1", all[:1], false); err != nil {
				return err
			}
			if err := ask("/arr?offset=2", all[2:], false); err != nil {
				return err
			}
		}
		c.Trace()
		return nil
	}
	type one struct {
		name string
		pl   place
		v    interface{}
		ok   bool
	}
	cases := []one{}
	for _, pl := range places {
		for _, v := range values {
			cases = append(cases, one{"v", pl, v, true})
		}
		for _, v := range broken {
			cases = append(cases, one{"v", pl, v, false})
		}
		for _, n := range names[1:] {
			for _, v := range []interface{}{nil, "t", int64(4)} {
				cases = append(cases, one{n, pl, v, true})
			}
			cases = append(cases, one{n, pl, math.NaN(), false})
		}
	}
	c.ParallelN(16, len(cases), func(i int) {
		x := cases[i]
		c.Case(fmt.Sprintf("value %s in %s of %q", clip(fmt.Sprintf("%T(%v)", x.v, x.v), 60), x.pl.name, x.name), func() error {
			return check(x.name, x.pl, x.v, x.ok)
		})
	})
}

// c24Faults: every failing call during a request gives a 500 with a JSON
// error, and the next request on the same connection is served.
// c24ErrorTexts: refused parameters holding every byte, and characters that
// the usual ways of quoting a text do not write like JSON does.
func c24ErrorTexts(c *Ctx) {
	texts := []string{}
	for b := 0; b < 256; b++ {
		texts = append(texts, string([]byte{byte(b)}), "a"+string([]byte{byte(b)})+"b")
	}
	for r := rune(0x80); r < 0x180; r++ {
		texts = append(texts, string(r))
	}
	for _, r := range []rune{0x378, 0x200b, 0x200d, 0x200e, 0x2028, 0x2029, 0x3000, 0xe000, 0xfeff, 0xfff9, 0xfffd, 0xfffe, 0xffff, 0x1f600, 0xe0001, 0xf0000, 0x10fffd, 0x10ffff} {
		texts = append(texts, string(r), "a"+string(r)+"b")
	}
	texts = append(texts, "\\u0000", "\\x00", "%s", "%!d", "%", "{}", "\"}", "</script>", "\xed\xa0\x80", "\xf4\x90\x80\x80", strings.Repeat("z", 4000), strings.Repeat("\x07", 1000))
	m := newMem("p", []object{{"id": int64(1), "s": "a"}})
	w := newWorld(m)
	w.addKind("fts5", "f", "p", "s")
	defer w.close()
	outs := map[string]output.Output{
		"arr": w.mustOutput(&output.JsonArrayConfig{Name: "arr", Input: "p", Parameters: params{"b": param("id", "default", "boolean"), "i": param("id", "default", "integer"), "f": param("id", "default", "float"), "m": param("match", "f", "string")}}),
		"obj": w.mustOutput(&output.JsonObjectConfig{Name: "obj", Input: "p", Parameters: params{"b": param("id", "default", "boolean")}}),
	}
	svc, _ := mustService(outs, [][2]string{{"/arr", "arr"}, {"/obj", "obj"}}, nil)
	defer svc.Close()
	targets := []string{"/arr?b=", "/arr?i=", "/arr?f=", "/arr?m=", "/arr?limit=", "/arr?offset=", "/obj?b=", "/nowhere?b=", "/nowhere/"}
	c.ParallelN(len(targets), len(targets), func(ti int) {
		c.Case("error texts "+targets[ti], func() error {
			rc := newRawClient(svc.Address())
			defer rc.close()
			for _, t := range texts {
				var enc strings.Builder
				for i := 0; i < len(t); i++ {
					fmt.Fprintf(&enc, "%%%02X", t[i])
				}
				resp, body, err := rc.do("GET", "GET "+targets[ti]+enc.String()+" HTTP/1.1\r\nHost: localhost\r\n\r\n")
				c.Step(1)
				what := fmt.Sprintf("%s with %q", targets[ti], clip(t, 60))
				if err != nil {
					return violf("error-text:no-answer", "%s: %v", what, err)
				}
				if _, err := wellFormed("error-text", what, "GET", resp, body, 200, 404, 500); err != nil {
					return err
				}
				c.State("error-text", ti, t)
				c.Outcome(fmt.Sprintf("error-text-%d", resp.StatusCode))
			}
			return nil
		})
	})
}

func c24Faults(c *Ctx) {
	targets := []string{"/obj/1", "/obj/9", "/arr", "/arr?id=2", "/arr?offset=1&limit=1", "/robj/2", "/rarr", "/mobj/1"}
	build := func() (*memInput, *memInput, *world, service.Service) {
		p := newMem("p", []object{{"id": int64(1), "g": "a"}, {"id": int64(2), "g": "b"}, {"id": int64(3), "g": "a"}})
		k := newMem("k", []object{{"g": "a", "n": int64(2)}, {"g": "b", "n": int64(1)}, {"g": "a", "n": int64(1)}})
		w := newWorld(p, k)
		w.addKind("map", "m", "p", "id")
		rel := rels{"kids": {Input: "k", IsArray: true, Match: []*relationship.RelationshipMatchConfig{{ParentProperty: "g", ChildProperty: "g"}}}}
		outs := map[string]output.Output{
			"obj":  w.mustOutput(&output.JsonObjectConfig{Name: "obj", Input: "p", Parameters: params{"id": param("id", "default", "integer")}}),
			"mobj": w.mustOutput(&output.JsonObjectConfig{Name: "mobj", Input: "p", Parameters: params{"id": param("id", "m", "integer")}}),
			"arr":  w.mustOutput(&output.JsonArrayConfig{Name: "arr", Input: "p", Parameters: params{"id": param("id", "default", "integer")}}),
			"robj": w.mustOutput(&output.JsonObjectConfig{Name: "robj", Input: "p", Parameters: params{"id": param("id", "m", "integer")}, Relationships: rel}),
			"rarr": w.mustOutput(&output.JsonArrayConfig{Name: "rarr", Input: "p", Relationships: rel}),
		}
		svc, _ := mustService(outs, [][2]string{{"/obj/{id}", "obj"}, {"/mobj/{id}", "mobj"}, {"/arr", "arr"}, {"/robj/{id}", "robj"}, {"/rarr", "rarr"}}, nil)
		return p, k, w, svc
	}
	type fcase struct {
		target string
		side   int
		at     int64
	}
	cases := []fcase{}
	for _, t := range targets {
		p, k, w, svc := build()
		rc := newRawClient(svc.Address())
		p.calls, k.calls = 0, 0
		if _, _, err := rc.get(t); err != nil {
			c.Case("plain "+t, func() error { return violf("fault:no-answer", "%s: %v", t, err) })
		}
		np, nk := p.calls, k.calls
		rc.close()
		svc.Close()
		w.close()
		for i := int64(0); i < np; i++ {
			cases = append(cases, fcase{t, 0, i})
		}
		for i := int64(0); i < nk; i++ {
			cases = append(cases, fcase{t, 1, i})
		}
	}
	c.ParallelN(16, len(cases), func(i int) {
		x := cases[i]
		c.Case(fmt.Sprintf("fault %s side %d call %d", x.target, x.side, x.at), func() error {
			p, k, w, svc := build()
			defer w.close()
			defer svc.Close()
			rc := newRawClient(svc.Address())
			defer rc.close()
			m := []*memInput{p, k}[x.side]
			m.calls, m.failAt = 0, x.at
			what := fmt.Sprintf("%s failing at call %d", x.target, x.at)
			resp, body, err := rc.do("GET", "GET "+x.target+" HTTP/1.1\r\nHost: localhost\r\n\r\n")
			c.Step(1)
			if err != nil {
				return violf("fault:no-answer", "%s: %v", what, err)
			}
			m.failAt = -1
			if _, err := wellFormed("fault", what, "GET", resp, body, 500); err != nil {
				return err
			}
			for _, t := range targets {
				resp, body, err := rc.do("GET", "GET "+t+" HTTP/1.1\r\nHost: localhost\r\n\r\n")
				c.Step(1)
				if err != nil {
					return violf("fault:following", "%s, then %s: %v", what, t, err)
				}
				want := 200
				if t == "/obj/9" {
					want = 404
				}
				if _, err := wellFormed("fault:following", what+", then "+t, "GET", resp, body, want); err != nil {
					return err
				}
			}
			c.Outcome("fault")
			c.State("fault", x.target, x.side, x.at)
			c.Trace()
			return nil
		})
	})
}

// form is one request as sent on the wire.
type form struct {
	name   string
	method string
	raw    string
	status []int  // expected; empty: the HTTP library may refuse it as malformed
	want   string // expected document, if any
	closes bool   // the connection may be closed after it
}

func c24RequestForms() []form {
	get := func(name, target string, status int, want string) form {
		return form{name: name, method: "GET", raw: "GET " + target + " HTTP/1.1\r\nHost: localhost\r\n\r\n", status: []int{status}, want: want}
	}
	one := `{"g":"a","id":1}`
	out := []form{
		get("object", "/obj/1", 200, one),
		get("object missing", "/obj/9", 404, ""),
		get("object unparsable", "/qobj?id=x", 500, ""),
		get("object no parameter", "/qobj", 500, ""),
		get("object empty parameter", "/qobj?id=", 500, ""),
		get("object query", "/qobj?id=1", 200, one),
		get("object not in route", "/obj/x", 404, ""),
		get("list", "/arr", 200, `[{"g":"a","id":1},{"g":"b","id":2},{"g":"é\"","id":3}]`),
		get("list limited", "/arr?limit=1&offset=1", 200, `[{"g":"b","id":2}]`),
		get("list empty", "/arr?g=zz", 200, `[]`),
		get("list far offset", "/arr?offset=100", 200, `[]`),
		get("list bad limit", "/arr?limit=0", 500, ""),
		get("list bad offset", "/arr?offset=-1", 500, ""),
		get("list quote", "/arr?limit=%22%3C%0A", 500, ""),
		get("list bad escape", "/arr?limit=%zz&g=b", 200, `[{"g":"b","id":2}]`),
		get("list semicolon", "/arr?g=b;limit=1", 200, `[{"g":"a","id":1},{"g":"b","id":2},{"g":"é\"","id":3}]`),
		get("list text", "/arr?g=%C3%A9%22", 200, `[{"g":"é\"","id":3}]`),
		get("list invalid text", "/arr?g=%ff", 200, `[]`),
		get("nowhere", "/nowhere", 404, ""),
		get("root", "/", 404, ""),
		get("slash", "/arr/", 404, ""),
		get("absolute", "http://localhost/arr?g=b", 200, `[{"g":"b","id":2}]`),
		get("NaN", "/nan", 500, ""),
		get("long", "/arr?g="+strings.Repeat("y", 20000), 200, `[]`),
		get("long path", "/"+strings.Repeat("y/", 8000), 404, ""),
		get("big", "/big", 200, ""),
		get("many parameters", "/arr?"+strings.Repeat("z=1&", 2000)+"g=b", 200, `[{"g":"b","id":2}]`),
		get("duplicated", "/arr?g=b&g=a", 200, `[{"g":"b","id":2}]`),
	}
	for _, m := range []string{"HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE", "PROPFIND", "get"} {
		out = append(out, form{name: m, method: m, raw: m + " /arr HTTP/1.1\r\nHost: localhost\r\n\r\n", status: []int{404}})
	}
	body := `{"a":1}`
	post := func(name, head, body string, status int, want string) form {
		return form{name: name, method: "POST", raw: "POST /echo HTTP/1.1\r\nHost: localhost\r\n" + head + "\r\n" + body, status: []int{status}, want: want}
	}
	echo := func(s string) string {
		b, _ := json.Marshal(s)
		return `{"output":"echo","params":{},"payload":` + string(b) + `}`
	}
	ct := "Content-Type: application/json\r\n"
	out = append(out,
		post("payload", ct+fmt.Sprintf("Content-Length: %d\r\n", len(body)), body, 200, echo(body)),
		post("payload empty", ct+"Content-Length: 0\r\n", "", 200, echo("")),
		post("payload chunked", ct+"Transfer-Encoding: chunked\r\n", "3\r\n{\"a\r\n4\r\n\":1}\r\n0\r\n\r\n", 200, echo(body)),
		post("payload other type", "Content-Type: text/plain\r\nContent-Length: 2\r\n", "{}", 404, ""),
		post("payload no type", "Content-Length: 2\r\n", "{}", 404, ""),
		form{name: "get with body", method: "GET", raw: "GET /arr?g=b HTTP/1.1\r\nHost: localhost\r\nContent-Length: 5\r\n\r\nhello", status: []int{200}, want: `[{"g":"b","id":2}]`},
		form{name: "get on payload", method: "GET", raw: "GET /echo HTTP/1.1\r\nHost: localhost\r\n\r\n", status: []int{404}},
		form{name: "close", method: "GET", raw: "GET /arr?g=b HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n", status: []int{200}, want: `[{"g":"b","id":2}]`, closes: true},
		form{name: "http 1.0", method: "GET", raw: "GET /arr?g=b HTTP/1.0\r\n\r\n", status: []int{200}, want: `[{"g":"b","id":2}]`, closes: true},
		form{name: "http 1.0 missing", method: "GET", raw: "GET /obj/9 HTTP/1.0\r\n\r\n", status: []int{404}, closes: true},
		form{name: "bad chunks", method: "POST", raw: "POST /echo HTTP/1.1\r\nHost: localhost\r\n" + ct + "Transfer-Encoding: chunked\r\n\r\nzz\r\n", status: []int{500}, closes: true},
		form{name: "no host", method: "GET", raw: "GET /arr HTTP/1.1\r\n\r\n", closes: true},
		form{name: "bad request line", method: "GET", raw: "GET\r\n\r\n", closes: true},
		form{name: "bad version", method: "GET", raw: "GET / HTTP/9.9\r\nHost: localhost\r\n\r\n", closes: true},
		form{name: "bad path escape", method: "GET", raw: "GET /%zz HTTP/1.1\r\nHost: localhost\r\n\r\n", closes: true},
	)
	return out
}

func c24Forms(c *Ctx) {
	dir, cleanup := c.Dir()
	defer cleanup()
	bigRows := []object{}
	for i := 0; i < 900; i++ {
		bigRows = append(bigRows, object{"n": int64(i), "t": strings.Repeat("é", i%50)})
	}
	m := newMem("p", []object{{"id": int64(1), "g": "a"}, {"id": int64(2), "g": "b"}, {"id": int64(3), "g": "é\""}})
	n := newMem("n", []object{{"id": int64(1)}, {"id": math.NaN()}})
	b := newMem("b", bigRows)
	w := newWorld(m, n, b)
	defer w.close()
	ctype := "application/json"
	outs := map[string]output.Output{
		"obj":  w.mustOutput(&output.JsonObjectConfig{Name: "obj", Input: "p", Parameters: params{"id": param("id", "default", "integer")}}),
		"arr":  w.mustOutput(&output.JsonArrayConfig{Name: "arr", Input: "p", Parameters: params{"g": param("g", "default", "string")}}),
		"nan":  w.mustOutput(&output.JsonArrayConfig{Name: "nan", Input: "n"}),
		"big":  w.mustOutput(&output.JsonArrayConfig{Name: "big", Input: "b", Limit: output.JsonArrayLimitConfig{Default: 900, Max: 900}}),
		"echo": &echoOutput{name: "echo", payload: &ctype},
	}
	routes := [][2]string{{"/obj/{id}", "obj"}, {"/qobj", "obj"}, {"/arr", "arr"}, {"/nan", "nan"}, {"/big", "big"}, {"/echo", "echo"}}
	svc, _ := mustService(outs, routes, nil)
	defer svc.Close()
	addr := strings.TrimPrefix(svc.Address(), "http://")
	secure, _ := mustService(outs, routes, certificate(dir))
	defer secure.Close()
	saddr := strings.TrimPrefix(secure.Address(), "https://")
	forms := c24RequestForms()
	dial := func(tlsOn bool) net.Conn {
		for try := 0; ; try++ {
			var conn net.Conn
			var err error
			if tlsOn {
				conn, err = tls.Dial("tcp", saddr, &tls.Config{InsecureSkipVerify: true})
			} else {
				conn, err = net.DialTimeout("tcp", addr, 30*time.Second)
			}
			if err == nil {
				_ = conn.SetDeadline(time.Now().Add(120 * time.Second))
				return conn
			}
			if try > 20 {
				must(err)
			}
			time.Sleep(50 * time.Millisecond)
		}
	}
	// expect reads the answer of one form; done says that the connection is over.
	expect := func(key, what string, f form, r *bufio.Reader) (done bool, err error) {
		resp, err := http.ReadResponse(r, &http.Request{Method: f.method})
		if err != nil {
			return true, violf(key+":no-answer", "%s: %v", what, err)
		}
		body, err := io.ReadAll(resp.Body)
		resp.Body.Close()
		if err != nil && len(f.status) > 0 {
			return true, violf(key+":cut-short", "%s: status %d, body %q: %v", what, resp.StatusCode, clip(string(body), 200), err)
		}
		if len(f.status) == 0 {
			if resp.StatusCode < 400 || resp.StatusCode >= 600 {
				return true, violf(key+":malformed-accepted", "%s: %d %q", what, resp.StatusCode, body)
			}
			return true, nil
		}
		doc, err := wellFormed(key, what, f.method, resp, body, f.status...)
		if err != nil {
			return true, err
		}
		if f.want != "" {
			exp, err := oneJSON([]byte(f.want))
			must(err)
			if show(doc) != show(exp) {
				return true, violf(key+":wrong", "%s: expected %s, got %s", what, f.want, clip(string(body), 400))
			}
		}
		if f.name == "big" && len(doc.([]interface{})) != len(bigRows) {
			return true, violf(key+":wrong", "%s: %d records", what, len(doc.([]interface{})))
		}
		c.Outcome(fmt.Sprintf("form-%d", resp.StatusCode))
		if resp.Close && !f.closes {
			return true, violf(key+":closed", "%s: the connection is closed after %d %s", what, resp.StatusCode, clip(string(body), 200))
		}
		return resp.Close || f.closes, nil
	}
	sequence := func(key string, tlsOn, pipelined bool, fs ...form) error {
		names := []string{}
		for _, f := range fs {
			names = append(names, f.name)
		}
		what := strings.Join(names, " then ")
		conn := dial(tlsOn)
		defer conn.Close()
		r := bufio.NewReader(conn)
		if pipelined {
			all := ""
			for _, f := range fs {
				all += f.raw
			}
			go func() { _, _ = io.WriteString(conn, all) }()
		}
		for i, f := range fs {
			if !pipelined {
				if _, err := io.WriteString(conn, f.raw); err != nil {
					return violf(key+":connection", "%s: cannot send %s: %v", what, f.name, err)
				}
			}
			done, err := expect(key, fmt.Sprintf("%s (request %d)", what, i), f, r)
			c.Step(1)
			if err != nil {
				return err
			}
			c.State(key, tlsOn, f.name, i)
			if done {
				// Nothing may follow on the connection, for a request that was sent alone.
				rest, _ := io.ReadAll(r)
				if len(rest) > 0 && len(f.status) > 0 {
					return violf(key+":extra", "%s: %q after the last response", what, clip(string(rest), 200))
				}
				c.Trace()
				return nil
			}
		}
		// No more bytes than the responses announced: the answer to a last
		// request with Connection: close comes right after.
		if _, err := io.WriteString(conn, "GET /nowhere HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n"); err != nil {
			return violf(key+":connection", "%s: %v", what, err)
		}
		if _, err := expect(key+":extra", what+" then the last request", form{name: "last", method: "GET", status: []int{404}, closes: true}, r); err != nil {
			return err
		}
		rest, _ := io.ReadAll(r)
		if len(rest) > 0 {
			return violf(key+":extra", "%s: %q after the last response", what, clip(string(rest), 200))
		}
		c.Trace()
		return nil
	}
	type seq struct {
		tlsOn, pipe bool
		fs          []form
	}
	seqs := []seq{}
	for _, f := range forms {
		seqs = append(seqs, seq{false, false, []form{f}}, seq{true, false, []form{f}})
		for _, g := range forms {
			seqs = append(seqs, seq{false, false, []form{f, g}})
			if f.closes {
				// The bytes that follow may reset the connection before the answer is read.
				continue
			}
			seqs = append(seqs, seq{false, true, []form{f, g}})
			if g.closes {
				continue
			}
			seqs = append(seqs, seq{true, true, []form{f, g}})
			for hi, h := range forms {
				if !c.Thorough() && hi%3 != 0 {
					continue
				}
				seqs = append(seqs, seq{false, true, []form{f, g, h}})
				if c.Thorough() && !h.closes {
					seqs = append(seqs, seq{true, true, []form{f, g, h}})
					for ki := 0; ki < len(forms); ki += 4 {
						seqs = append(seqs, seq{false, true, []form{f, g, h, forms[ki]}})
					}
				}
			}
		}
	}
	c.ParallelN(16, len(seqs), func(i int) {
		s := seqs[i]
		names := []string{}
		for _, f := range s.fs {
			names = append(names, f.name)
		}
		c.Case(fmt.Sprintf("requests %q tls=%v pipelined=%v", names, s.tlsOn, s.pipe), func() error {
			return sequence("form", s.tlsOn, s.pipe, s.fs...)
		})
	})
	// A client that leaves after any prefix of its request, or before reading
	// the answer, does not disturb another one.
	for _, f := range forms {
		step := max(1, len(f.raw)/c.Pick(12, 120))
		cuts := []int{}
		for n := 0; n <= len(f.raw); n += step {
			cuts = append(cuts, n)
		}
		cuts = append(cuts, len(f.raw))
		c.ParallelN(16, len(cuts), func(i int) {
			c.Case(fmt.Sprintf("client leaves after %d bytes of %s", cuts[i], f.name), func() error {
				conn := dial(false)
				_, _ = io.WriteString(conn, f.raw[:cuts[i]])
				conn.Close()
				return sequence("left", false, false, forms[i%3], forms[7])
			})
		})
	}
}
