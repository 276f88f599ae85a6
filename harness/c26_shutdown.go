package main

// C26: a shutdown completes the requests in progress and then releases everything.

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/rodb-io/rodb/pkg/output"
	"github.com/rodb-io/rodb/pkg/parser"
	"github.com/rodb-io/rodb/pkg/service"
	"github.com/sirupsen/logrus"
)

func init() {
	register("C26", "model_checking",
		"The real service over an output whose requests stop at gates: every pair, and every triple of the states that net/http does not delay (thorough: one more), of connection states at the moment of the closing (just connected, half a request line, half a body, before, during and after the writing of an answer or of an error, idle, idle with half of a next request) x HTTP, HTTPS, both, two services x one or two closers x the order in which the requests are then let go, one gate at a time; after each step, that neither Close nor Wait has returned while a request is in progress; at the end, the answers, the ports, the connections and repeated closings. The real program, with its signal handling: every number of answers in progress and of interrupts, and an interrupt at each system call from the start to the answer. A state is a vector of connection states and of what has returned; a transition is one step of a request or of the closing.",
		runC26)
}

// gatedOutput is an output whose requests stop at each gate until let through.
type gatedOutput struct {
	mu       sync.Mutex
	requests map[string]*gatedRequest
	payload  *string
}

type gatedRequest struct {
	arrived  chan string
	proceed  chan struct{}
	finished int32
}

func (o *gatedOutput) request(id string) *gatedRequest {
	o.mu.Lock()
	defer o.mu.Unlock()
	r := o.requests[id]
	if r == nil {
		r = &gatedRequest{arrived: make(chan string, 16), proceed: make(chan struct{}, 16)}
		o.requests[id] = r
	}
	return r
}

func (o *gatedOutput) Name() string                 { return "gated" }
func (o *gatedOutput) ExpectedPayloadType() *string { return o.payload }
func (o *gatedOutput) ResponseType() string         { return "application/json" }
func (o *gatedOutput) HasParameter(string) bool     { return true }
func (o *gatedOutput) Close() error                 { return nil }
func (o *gatedOutput) GetParameterParser(string) (parser.Parser, error) {
	return parser.NewString(&parser.StringConfig{Name: "string"})
}

var gatedPart = strings.Repeat("0123456789abcdef", 1024)

func (o *gatedOutput) Handle(params map[string]string, payload []byte, sendError func(error) error, sendSuccess func() io.Writer) error {
	id := params["id"]
	r := o.request(id)
	defer atomic.StoreInt32(&r.finished, 1)
	stop := func(gate string) {
		r.arrived <- gate
		<-r.proceed
	}
	stop("start")
	if strings.HasPrefix(id, "err") {
		err := sendError(errors.New("failure of " + id))
		stop("error sent")
		return err
	}
	w := sendSuccess()
	stop("begun")
	if _, err := io.WriteString(w, `{"id":"`+id+`","part":"`+gatedPart); err != nil {
		return err
	}
	stop("part")
	if _, err := io.WriteString(w, `","payload":`+strconv.Quote(string(payload))+`}`); err != nil {
		return err
	}
	stop("written")
	return nil
}

func gatedAnswer(id, payload string) string {
	return `{"id":"` + id + `","part":"` + gatedPart + `","payload":` + strconv.Quote(payload) + `}`
}

// The states of a connection at the moment of the closing. "gates" is the
// number of gates already passed by its request.
type connState struct {
	name     string
	accepted bool // the request has been accepted: it must be answered
	gates    int  // gates the handler has reached
	err      bool
	slow     bool // net/http waits five seconds before it considers it idle
}

var connStates = []connState{
	{name: "new", slow: true},
	{name: "half a head", slow: true},
	{name: "half a body", accepted: true},
	{name: "start", accepted: true, gates: 1},
	{name: "begun", accepted: true, gates: 2},
	{name: "part", accepted: true, gates: 3},
	{name: "written", accepted: true, gates: 4},
	{name: "error start", accepted: true, gates: 1, err: true},
	{name: "error sent", accepted: true, gates: 2, err: true},
	{name: "idle"},
	{name: "half a second head"},
}

type gatedConn struct {
	state   connState
	id      string
	service int
	conn    net.Conn
	br      *bufio.Reader
	req     *gatedRequest
	left    int // gates still to be passed
	body    bool
}

const gateWait = 100 * time.Second

func (g *gatedConn) send(s string) error {
	_ = g.conn.SetWriteDeadline(time.Now().Add(gateWait))
	_, err := io.WriteString(g.conn, s)
	return err
}

func (g *gatedConn) gate(what string) {
	select {
	case <-g.req.arrived:
	case <-time.After(gateWait):
		panic(violf("request-stuck", "%s: the request %s (%s) does not progress", what, g.id, g.state.name))
	}
}

// readAnswer gives nil when the connection ended without any byte.
func (g *gatedConn) readAnswer(what string) (*http.Response, []byte) {
	_ = g.conn.SetReadDeadline(time.Now().Add(gateWait))
	if _, err := g.br.Peek(1); err != nil {
		var t net.Error
		if errors.As(err, &t) && t.Timeout() {
			panic(violf("connection-stuck", "%s: the connection %s is neither answered nor closed", what, g.state.name))
		}
		return nil, nil
	}
	resp, err := http.ReadResponse(g.br, nil)
	if err != nil {
		panic(violf("answer-cut", "%s: connection %s: %v", what, g.state.name, err))
	}
	body, err := io.ReadAll(resp.Body)
	if err != nil {
		panic(violf("answer-cut", "%s: connection %s: status %d, %d bytes then %v", what, g.state.name, resp.StatusCode, len(body), err))
	}
	return resp, body
}

func (g *gatedConn) check(what string, resp *http.Response, body []byte, payload string) {
	want, status := gatedAnswer(g.id, payload), 200
	if g.state.err {
		want, status = `{"error":"failure of `+g.id+`"}`, 500
	}
	if resp.StatusCode != status || string(body) != want {
		panic(violf("answer-wrong", "%s: connection %s: status %d %s instead of %d %s", what, g.state.name, resp.StatusCode, clip(string(body), 200), status, clip(want, 200)))
	}
}

var nextPort int32 = 20000

// freePort gives a port that nothing else in this sandbox asks for.
func freePort() int {
	for {
		p := int(atomic.AddInt32(&nextPort, 1))
		if p > 31000 {
			panic(&harnessError{errors.New("no free port")})
		}
		l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", p))
		if err == nil {
			l.Close()
			return p
		}
	}
}

func runC26(c *Ctx) {
	dir, cleanup := c.Dir()
	defer cleanup()
	cert := certificate(dir)
	c26Service(c, cert)
	c26Program(c)
	c26Calls(c)
}

// target is one listening address of the case.
type target struct {
	service int
	addr    string
	https   bool
}

func c26Service(c *Ctx, cert *service.HttpHttpsConfig) {
	width := c.Pick(3, 4)
	combos := [][]int{}
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) > 0 {
			combos = append(combos, append([]int{}, cur...))
		}
		if len(cur) == width {
			return
		}
		first := 0
		if len(cur) > 0 {
			first = cur[len(cur)-1]
		}
		for s := first; s < len(connStates); s++ {
			rec(append(cur, s))
		}
	}
	rec(nil)
	type variant struct {
		layout  string
		closers int
		order   string
	}
	type job struct {
		combo []int
		v     variant
		hold  time.Duration
	}
	jobs := []job{}
	// The requests may last for long: the closing waits for them all the same.
	for s, st := range connStates {
		if st.accepted {
			for _, layout := range []string{"http", "https", "both", "two services"} {
				combo := []int{s}
				if layout == "both" || layout == "two services" {
					combo = []int{s, s}
				}
				jobs = append(jobs, job{combo, variant{layout, 1, "first to last"}, time.Duration(c.Pick(12, 65)) * time.Second})
			}
		}
	}
	c.Extra("seconds_long_requests_are_held", c.Pick(12, 65))
	for _, combo := range append([][]int{{}}, combos...) {
		for _, layout := range []string{"http", "https", "both", "two services"} {
			for closers := 1; closers <= 2; closers++ {
				orders := []string{"first to last"}
				if len(combo) > 1 {
					orders = []string{"first to last", "last to first", "alternately"}
				}
				for _, order := range orders {
					slow := false
					for _, s := range combo {
						slow = slow || connStates[s].slow
					}
					if slow && len(combo) == width {
						continue
					}
					if slow && !c.Thorough() && (order != "first to last" || closers == 2 && layout != "both") {
						continue
					}
					jobs = append(jobs, job{combo, variant{layout, closers, order}, 10 * time.Millisecond})
				}
			}
		}
	}
	c.ParallelN(48, len(jobs), func(i int) {
		j := jobs[i]
		names := []string{}
		for _, s := range j.combo {
			names = append(names, connStates[s].name)
		}
		id := fmt.Sprintf("close %s with [%s], %d closer(s), then %s", j.v.layout, strings.Join(names, ", "), j.v.closers, j.v.order)
		if j.hold > time.Second {
			id += fmt.Sprintf(", held for %v", j.hold)
		}
		c.Case(id, func() error {
			return c26Case(c, id, cert, j.combo, j.v.layout, j.v.closers, j.v.order, j.hold)
		})
	})
	c.Extra("closing_cases", len(jobs))
}

func c26Case(c *Ctx, id string, cert *service.HttpHttpsConfig, combo []int, layout string, closers int, order string, hold time.Duration) error {
	payloadType := "application/json"
	get := &gatedOutput{requests: map[string]*gatedRequest{}}
	post := &gatedOutput{requests: map[string]*gatedRequest{}, payload: &payloadType}
	outputs := map[string]output.Output{"get": get, "post": post}
	log, _ := newLogger()
	configs := map[string]service.Config{}
	targets := []target{}
	add := func(name string, http, https bool) {
		cfg := &service.HttpConfig{Name: name, Routes: []*service.HttpRouteConfig{{Output: "get", Path: "/get"}, {Output: "post", Path: "/post"}}}
		if http {
			a := fmt.Sprintf("127.0.0.1:%d", freePort())
			cfg.Http = &service.HttpHttpConfig{Listen: a}
			targets = append(targets, target{len(configs), a, false})
		}
		if https {
			a := fmt.Sprintf("127.0.0.1:%d", freePort())
			cfg.Https = &service.HttpHttpsConfig{Listen: a, CertificatePath: cert.CertificatePath, PrivateKeyPath: cert.PrivateKeyPath}
			targets = append(targets, target{len(configs), a, true})
		}
		must(cfg.Validate(map[string]output.Config{"get": nil, "post": nil}, logrus.NewEntry(log)))
		configs[name] = cfg
	}
	switch layout {
	case "http":
		add("a", true, false)
	case "https":
		add("a", false, true)
	case "both":
		add("a", true, true)
	case "two services":
		add("a", true, false)
		add("b", true, false)
	}
	list, err := service.NewFromConfigs(configs, outputs, log)
	if err != nil {
		return violf("service-refused", "%s: %v", id, err)
	}
	conns := make([]*gatedConn, len(combo))
	defer func() {
		// Lets everything go when the case stops half-way.
		for _, g := range conns {
			if g != nil {
				for k := 0; k < 8; k++ {
					select {
					case g.req.proceed <- struct{}{}:
					default:
					}
				}
				g.conn.Close()
			}
		}
	}()
	open := func(k int, st connState, t target) *gatedConn {
		g := &gatedConn{state: st, id: fmt.Sprintf("r%d", k), service: t.service}
		if st.err {
			g.id = fmt.Sprintf("err%d", k)
		}
		conn, err := net.DialTimeout("tcp", t.addr, gateWait)
		if err != nil {
			panic(violf("refused-before-closing", "%s: %v", id, err))
		}
		if t.https {
			tc := tls.Client(conn, &tls.Config{InsecureSkipVerify: true})
			_ = tc.SetDeadline(time.Now().Add(gateWait))
			if err := tc.Handshake(); err != nil {
				panic(violf("refused-before-closing", "%s: %v", id, err))
			}
			_ = tc.SetDeadline(time.Time{})
			conn = tc
		}
		g.conn, g.br = conn, bufio.NewReader(conn)
		g.req = get.request(g.id)
		head := "GET /get?id=" + g.id + " HTTP/1.1\r\nHost: h\r\n\r\n"
		switch st.name {
		case "new":
		case "half a head":
			must(g.send(head[:20]))
		case "half a body":
			g.req = post.request(g.id)
			must(g.send("POST /post?id=" + g.id + " HTTP/1.1\r\nHost: h\r\nContent-Type: application/json\r\nContent-Length: 6\r\nExpect: 100-continue\r\n\r\n"))
			_ = g.conn.SetReadDeadline(time.Now().Add(gateWait))
			resp, err := http.ReadResponse(g.br, nil)
			if err != nil || resp.StatusCode != 100 {
				panic(violf("no-continue", "%s: %v", id, err))
			}
			must(g.send("abc"))
			g.left, g.body = 4, true
		case "idle", "half a second head":
			must(g.send(head))
			for k := 0; k < 4; k++ {
				g.gate(id)
				g.req.proceed <- struct{}{}
			}
			resp, body := g.readAnswer(id)
			if resp == nil {
				panic(violf("answer-cut", "%s: no answer before the closing", id))
			}
			g.check(id, resp, body, "")
			if st.name == "half a second head" {
				must(g.send(head[:20]))
			}
		default:
			must(g.send(head))
			for k := 0; k < st.gates; k++ {
				g.gate(id)
				if k+1 < st.gates {
					g.req.proceed <- struct{}{}
				}
			}
			total := 4
			if st.err {
				total = 2
			}
			g.left = total - st.gates + 1
		}
		return g
	}
	for k, s := range combo {
		conns[k] = open(k, connStates[s], targets[k%len(targets)])
		c.Step(1)
	}
	// The closing.
	type returned struct {
		who string
		err error
	}
	events := make(chan returned, 16)
	seen := []returned{}
	start := func(who string, f func() error) {
		go func() {
			err := guarded(f)
			events <- returned{who, err}
		}()
	}
	start("Wait", func() error { return service.Wait(list) })
	for k := 0; k < closers; k++ {
		start("Close", func() error { return service.Close(list) })
	}
	pending := 1 + closers
	inProgress := func() string {
		for _, g := range conns {
			if g.state.accepted && atomic.LoadInt32(&g.req.finished) == 0 {
				return g.state.name
			}
		}
		return ""
	}
	note := func(e returned) {
		if e.err != nil {
			if v, ok := e.err.(*Viol); ok {
				panic(v)
			}
			panic(violf("closing-fails", "%s: %s: %v", id, e.who, e.err))
		}
		if name := inProgress(); name != "" {
			panic(violf("returned-early", "%s: %s has returned while a request is in progress (%s)", id, e.who, name))
		}
		seen = append(seen, e)
		pending--
	}
	drain := func(wait time.Duration) {
		timer := time.NewTimer(wait)
		defer timer.Stop()
		for pending > 0 {
			select {
			case e := <-events:
				note(e)
			case <-timer.C:
				return
			}
		}
	}
	// The new connections end up being refused (those of the second server of
	// a service once the first one is closed).
	refusedAll := func(ts []target) {
		for _, t := range ts {
			for begin := time.Now(); ; {
				conn, err := net.DialTimeout("tcp", t.addr, gateWait)
				if err != nil {
					break
				}
				conn.Close()
				if time.Since(begin) > gateWait {
					panic(violf("still-listening", "%s: %s accepts connections during the closing", id, t.addr))
				}
				time.Sleep(time.Millisecond)
			}
		}
	}
	if len(targets) == 1 {
		refusedAll(targets)
	}
	drain(hold)
	c.State(id, "closing", len(seen))
	// The requests go on, one gate at a time.
	turns := []int{}
	switch order {
	case "first to last":
		for k := range conns {
			for n := 0; n < 8; n++ {
				turns = append(turns, k)
			}
		}
	case "last to first":
		for k := len(conns) - 1; k >= 0; k-- {
			for n := 0; n < 8; n++ {
				turns = append(turns, k)
			}
		}
	case "alternately":
		for n := 0; n < 8; n++ {
			for k := range conns {
				turns = append(turns, k)
			}
		}
	}
	for _, k := range turns {
		g := conns[k]
		if g.left == 0 {
			continue
		}
		if g.body {
			g.body = false
			must(g.send("def"))
			g.gate(id)
		} else {
			g.req.proceed <- struct{}{}
			if g.left--; g.left > 0 {
				g.gate(id)
			}
		}
		drain(0)
		c.Step(1)
		c.State(id, k, g.left, len(seen))
	}
	for _, g := range conns {
		payload := ""
		switch g.state.name {
		case "new":
			_ = g.send("GET /none HTTP/1.1\r\nHost: h\r\n\r\n")
		case "half a head", "half a second head":
			_ = g.send(("GET /get?id=" + g.id + " HTTP/1.1\r\nHost: h\r\n\r\n")[20:])
		case "idle":
			_ = g.send("GET /none HTTP/1.1\r\nHost: h\r\n\r\n")
		case "half a body":
			payload = "abcdef"
		}
		// A request that was not accepted may be refused, or answered. Its
		// handler is let through, should it be reached.
		if !g.state.accepted {
			for k := 0; k < 4; k++ {
				select {
				case g.req.proceed <- struct{}{}:
				default:
				}
			}
		}
		resp, body := g.readAnswer(id)
		if resp == nil {
			if g.state.accepted {
				return violf("answer-lost", "%s: the request in progress (%s) is not answered", id, g.state.name)
			}
			c.Outcome("not accepted: refused")
			continue
		}
		if g.state.accepted {
			g.check(id, resp, body, payload)
			c.Outcome("in progress: answered")
		} else {
			if _, err := oneJSON(body); err != nil {
				return violf("answer-wrong", "%s: connection %s: %d %s", id, g.state.name, resp.StatusCode, clip(string(body), 200))
			}
			c.Outcome("not accepted: answered")
		}
		// Then the connection is closed.
		if resp, _ := g.readAnswer(id); resp != nil {
			return violf("answer-twice", "%s: connection %s: a second answer", id, g.state.name)
		}
	}
	drain(gateWait)
	if pending > 0 {
		return violf("never-returns", "%s: %d calls of Close or Wait do not return although all the requests have ended; %v have", id, pending, seen)
	}
	// Everything is released, and closing or waiting again does no harm.
	for _, t := range targets {
		l, err := net.Listen("tcp", t.addr)
		if err != nil {
			return violf("port-held", "%s: the address %s cannot be used after the closing: %v", id, t.addr, err)
		}
		l.Close()
	}
	for k := 0; k < 2; k++ {
		if err := service.Close(list); err != nil {
			return violf("closing-again", "%s: closing again fails: %v", id, err)
		}
		if err := service.Wait(list); err != nil {
			return violf("closing-again", "%s: waiting again fails: %v", id, err)
		}
		c.Step(2)
	}
	c.Trace()
	c.State(id, "closed")
	return nil
}

// programBin is the rodb program built from the current tree.
func programBin() string { return filepath.Join(os.Getenv("VERIF_WORK"), "rodb") }

// program is a running rodb.
type program struct {
	cmd    *exec.Cmd
	mu     sync.Mutex
	log    bytes.Buffer
	ended  chan struct{}
	err    error
	dir    string
	signal chan struct{}
}

func (p *program) Write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.log.Write(b)
}

func (p *program) logged() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.log.String()
}

func startProgram(dir, yaml string, args ...string) *program {
	path := filepath.Join(dir, "rodb.yaml")
	writeFile(path, yaml)
	p := &program{dir: dir, ended: make(chan struct{})}
	p.cmd = exec.Command(programBin(), append([]string{"-c", path}, args...)...)
	p.cmd.Dir = dir
	p.cmd.Env = append(os.Environ(), "TMPDIR="+dir)
	p.cmd.Stdout, p.cmd.Stderr = p, p
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(p.cmd.Start())
	go func() {
		p.err = p.cmd.Wait()
		close(p.ended)
	}()
	return p
}

func (p *program) kill() {
	_ = p.cmd.Process.Kill()
	<-p.ended
}

// wait gives the exit code.
func (p *program) wait(what string) int {
	select {
	case <-p.ended:
	case <-time.After(gateWait):
		panic(violf("program-stuck", "%s: the program does not end; it logged %s", what, clip(p.logged(), 1500)))
	}
	return p.cmd.ProcessState.ExitCode()
}

// ready waits until the program listens.
func (p *program) ready(what, addr string) {
	for begin := time.Now(); ; time.Sleep(2 * time.Millisecond) {
		conn, err := net.Dial("tcp", addr)
		if err == nil {
			conn.Close()
			return
		}
		select {
		case <-p.ended:
			panic(violf("program-ended", "%s: the program ended: %s", what, clip(p.logged(), 1500)))
		default:
		}
		if time.Since(begin) > gateWait {
			panic(violf("program-stuck", "%s: the program does not listen; it logged %s", what, clip(p.logged(), 1500)))
		}
	}
}

func c26Program(c *Ctx) {
	// A list too large for the buffers of the connection: its writing blocks
	// until the client reads it.
	row := strings.Repeat("v", 120000)
	const rows = 120
	var csv strings.Builder
	csv.WriteString("id,v\n")
	for k := 0; k < rows; k++ {
		fmt.Fprintf(&csv, "%d,%s\n", k, row)
	}
	dir0, cleanup0 := c.Dir()
	defer cleanup0()
	input := filepath.Join(dir0, "in.csv")
	writeFile(input, csv.String())
	type job struct {
		clients    int
		idle       int
		interrupts int
		when       string // when the second interrupt is sent
		services   int
		index      string
	}
	jobs := []job{}
	for clients := 0; clients <= c.Pick(2, 3); clients++ {
		for idle := 0; idle <= 1; idle++ {
			for interrupts := 1; interrupts <= 2; interrupts++ {
				for services := 1; services <= 2; services++ {
					for _, ix := range []string{"map", "sqlite"} {
						if ix == "sqlite" && (idle != 1 || services != 1) && !c.Thorough() {
							continue
						}
						for _, when := range []string{"at once", "during the answers"} {
							if interrupts == 1 && when != "at once" {
								continue
							}
							jobs = append(jobs, job{clients, idle, interrupts, when, services, ix})
						}
					}
				}
			}
		}
	}
	c.ParallelN(8, len(jobs), func(i int) {
		j := jobs[i]
		id := fmt.Sprintf("interrupt the program %d time(s) (%s) with %d answer(s) in progress, %d idle connection(s), %d service(s), %s index", j.interrupts, j.when, j.clients, j.idle, j.services, j.index)
		c.Case(id, func() error {
			dir, cleanup := c.Dir()
			defer cleanup()
			addrs := []string{}
			y := "inputs: [{name: in, type: csv, path: '" + input + "', ignoreFirstRow: true, columns: [{name: id, parser: integer}, {name: v, parser: string}]}]\n"
			if j.index == "map" {
				y += "indexes: [{name: ix, type: map, input: in, properties: [id]}]\n"
			} else {
				y += "indexes: [{name: ix, type: sqlite, input: in, dsn: '" + filepath.Join(dir, "ix.db") + "', properties: [{name: id}]}]\n"
			}
			y += "outputs: [{name: all, type: jsonArray, input: in, limit: {default: 1000, max: 1000}, parameters: {id: {property: id, parser: integer, index: ix}}}]\nservices:\n"
			for k := 0; k < j.services; k++ {
				a := fmt.Sprintf("127.0.0.1:%d", freePort())
				addrs = append(addrs, a)
				y += fmt.Sprintf("  - {name: s%d, type: http, http: {listen: '%s'}, routes: [{output: all, path: /}]}\n", k, a)
			}
			p := startProgram(dir, y)
			defer p.kill()
			for _, a := range addrs {
				p.ready(id, a)
			}
			type client struct {
				conn *net.TCPConn
				br   *bufio.Reader
			}
			dial := func(k int) client {
				conn, err := net.Dial("tcp", addrs[k%len(addrs)])
				if err != nil {
					panic(violf("refused-before-closing", "%s: %v", id, err))
				}
				tc := conn.(*net.TCPConn)
				_ = tc.SetReadBuffer(1 << 16)
				_ = tc.SetDeadline(time.Now().Add(gateWait))
				return client{tc, bufio.NewReaderSize(tc, 16)}
			}
			busy, idle := []client{}, []client{}
			for k := 0; k < j.idle; k++ {
				cl := dial(k)
				defer cl.conn.Close()
				_, err := io.WriteString(cl.conn, "GET /?id=3 HTTP/1.1\r\nHost: h\r\n\r\n")
				must(err)
				resp, err := http.ReadResponse(cl.br, nil)
				if err != nil {
					return violf("answer-cut", "%s: before the interrupt: %v", id, err)
				}
				if _, err := io.ReadAll(resp.Body); err != nil {
					return violf("answer-cut", "%s: before the interrupt: %v", id, err)
				}
				idle = append(idle, cl)
			}
			for k := 0; k < j.clients; k++ {
				cl := dial(k)
				defer cl.conn.Close()
				_, err := io.WriteString(cl.conn, "GET / HTTP/1.1\r\nHost: h\r\n\r\n")
				must(err)
				if _, err := cl.br.Peek(1); err != nil {
					return violf("answer-cut", "%s: before the interrupt: %v", id, err)
				}
				busy = append(busy, cl)
			}
			must(p.cmd.Process.Signal(os.Interrupt))
			if j.interrupts == 2 && j.when == "at once" {
				must(p.cmd.Process.Signal(os.Interrupt))
			}
			c.Step(2)
			if j.services == 1 {
				// The port is refused before the answers end.
				for begin := time.Now(); ; time.Sleep(time.Millisecond) {
					conn, err := net.Dial("tcp", addrs[0])
					if err != nil {
						break
					}
					conn.Close()
					if time.Since(begin) > gateWait {
						return violf("still-listening", "%s: the program accepts connections after the interrupt", id)
					}
				}
			} else {
				time.Sleep(20 * time.Millisecond)
			}
			for _, cl := range busy {
				if j.interrupts == 2 && j.when != "at once" {
					_ = p.cmd.Process.Signal(os.Interrupt)
				}
				c.Step(1)
				_ = cl.conn.SetDeadline(time.Now().Add(gateWait))
				resp, err := http.ReadResponse(bufio.NewReaderSize(cl.br, 1<<16), nil)
				if err != nil {
					return violf("answer-cut", "%s: the answer in progress: %v; the program logged %s", id, err, clip(p.logged(), 800))
				}
				body, err := io.ReadAll(resp.Body)
				if err != nil {
					return violf("answer-cut", "%s: the answer in progress stops after %d bytes: %v; the program logged %s", id, len(body), err, clip(p.logged(), 800))
				}
				v, err := oneJSON(body)
				if err != nil {
					return violf("answer-cut", "%s: the answer in progress: %v", id, err)
				}
				if a, ok := v.([]interface{}); !ok || len(a) != rows {
					return violf("answer-wrong", "%s: the answer in progress has %d records", id, len(a))
				}
				c.Outcome("program: answered")
			}
			if code := p.wait(id); code != 0 {
				return violf("exit-code", "%s: the program exits with %d: %s", id, code, clip(p.logged(), 1500))
			}
			if strings.Contains(p.logged(), "level=error") {
				return violf("closing-fails", "%s: the program logged %s", id, clip(p.logged(), 1500))
			}
			for _, cl := range idle {
				if n, err := cl.br.Read(make([]byte, 16)); n > 0 || err == nil {
					return violf("answer-twice", "%s: %d bytes on an idle connection", id, n)
				}
			}
			for _, a := range addrs {
				l, err := net.Listen("tcp", a)
				if err != nil {
					return violf("port-held", "%s: %v", id, err)
				}
				l.Close()
			}
			c.Trace()
			c.State(id)
			return nil
		})
	})
	c.Extra("program_cases", len(jobs))
}

// c26Calls delivers the interrupt at each system call of the program, from its
// start to the answering of a request: from the moment a service listens, the
// program ends cleanly, and a request that it has read is answered.
func c26Calls(c *Ctx) {
	calls := []string{"listen", "getsockname", "accept4", "setsockopt", "epoll_ctl", "read", "write", "lseek", "openat", "close"}
	dir0, cleanup0 := c.Dir()
	defer cleanup0()
	input := filepath.Join(dir0, "in.csv")
	var csv strings.Builder
	csv.WriteString("id,v\n")
	for k := 0; k < 30; k++ {
		fmt.Fprintf(&csv, "%d,%s\n", k, strings.Repeat("v", 400))
	}
	writeFile(input, csv.String())
	type outcome struct {
		body              string
		answered, refused bool
		code              int
		log, trace        string
	}
	run := func(id, index, inject string) outcome {
		dir, cleanup := c.Dir()
		defer cleanup()
		addr := fmt.Sprintf("127.0.0.1:%d", freePort())
		y := "inputs: [{name: in, type: csv, path: '" + input + "', ignoreFirstRow: true, columns: [{name: id, parser: integer}, {name: v, parser: string}]}]\n"
		if index == "map" {
			y += "indexes: [{name: ix, type: map, input: in, properties: [id]}]\n"
		} else {
			y += "indexes: [{name: ix, type: sqlite, input: in, dsn: '" + filepath.Join(dir, "ix.db") + "', properties: [{name: id}]}]\n"
		}
		y += "outputs: [{name: all, type: jsonArray, input: in, limit: {default: 30, max: 30}, parameters: {id: {property: id, parser: integer, index: ix}}}]\n" +
			"services: [{name: s, type: http, http: {listen: '" + addr + "'}, routes: [{output: all, path: /}]}]\n"
		path, trace := filepath.Join(dir, "rodb.yaml"), filepath.Join(dir, "trace")
		writeFile(path, y)
		args := []string{"-f", "-qq", "-s", "64", "-o", trace, "-e", "trace=" + strings.Join(calls, ",")}
		if inject != "" {
			args = append(args, "-e", "inject="+inject)
		}
		p := &program{dir: dir, ended: make(chan struct{})}
		p.cmd = exec.Command("strace", append(args, programBin(), "-c", path)...)
		p.cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "TMPDIR="+dir)
		p.cmd.Stdout, p.cmd.Stderr = p, p
		p.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		must(p.cmd.Start())
		go func() {
			p.err = p.cmd.Wait()
			close(p.ended)
		}()
		defer func() {
			_ = syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
			<-p.ended
		}()
		var o outcome
		over := false
		for begin := time.Now(); !over; {
			select {
			case <-p.ended:
				o.refused, over = true, true
				continue
			default:
			}
			conn, err := net.Dial("tcp", addr)
			if err != nil {
				if time.Since(begin) > gateWait {
					panic(violf("program-stuck", "%s: the program neither listens nor ends: %s", id, clip(p.logged(), 1500)))
				}
				time.Sleep(time.Millisecond)
				continue
			}
			over = true
			_ = conn.SetDeadline(time.Now().Add(gateWait))
			_, _ = io.WriteString(conn, "GET / HTTP/1.1\r\nHost: h\r\nConnection: close\r\n\r\n")
			g := &gatedConn{conn: conn, br: bufio.NewReader(conn)}
			resp, body := g.readAnswer(id)
			conn.Close()
			if resp == nil {
				o.refused = true
			} else {
				o.answered, o.body = true, fmt.Sprintf("%d %s", resp.StatusCode, body)
			}
		}
		// The interrupt has been delivered, or it comes now.
		for begin := time.Now(); ; time.Sleep(5 * time.Millisecond) {
			ended := false
			select {
			case <-p.ended:
				ended = true
			default:
			}
			if ended {
				break
			}
			// The traced process is the child of strace.
			kids, _ := os.ReadFile(fmt.Sprintf("/proc/%d/task/%d/children", p.cmd.Process.Pid, p.cmd.Process.Pid))
			for _, k := range strings.Fields(string(kids)) {
				pid, _ := strconv.Atoi(k)
				_ = syscall.Kill(pid, syscall.SIGINT)
			}
			if time.Since(begin) > gateWait {
				panic(violf("program-stuck", "%s: the program does not end: %s", id, clip(p.logged(), 1500)))
			}
		}
		o.code, o.log = p.cmd.ProcessState.ExitCode(), p.logged()
		data, _ := os.ReadFile(trace)
		o.trace = string(data)
		return o
	}
	type job struct {
		index, call string
		at          int
	}
	jobs := []job{}
	reference := map[string]string{}
	for _, index := range []string{"map", "sqlite"} {
		if index == "sqlite" && !c.Thorough() {
			continue
		}
		ref := run("reference "+index, index, "")
		if !ref.answered || ref.code != 0 {
			c.Case("calls: reference "+index, func() error {
				return violf("exit-code", "without injection: exit code %d, answer %q, log %s", ref.code, clip(ref.body, 300), clip(ref.log, 1500))
			})
			return
		}
		reference[index] = ref.body
		for _, call := range calls {
			// The calls are counted by thread.
			counts := map[string]int{}
			most := 0
			for _, line := range strings.Split(ref.trace, "\n") {
				f := strings.Fields(line)
				if len(f) > 1 && strings.HasPrefix(f[1], call+"(") {
					if counts[f[0]]++; counts[f[0]] > most {
						most = counts[f[0]]
					}
				}
			}
			for k := 1; k <= most; k++ {
				jobs = append(jobs, job{index, call, k})
			}
		}
	}
	c.ParallelN(8, len(jobs), func(i int) {
		j := jobs[i]
		id := fmt.Sprintf("interrupt at call %d of %s (%s index)", j.at, j.call, j.index)
		c.Case(id, func() error {
			o := run(id, j.index, fmt.Sprintf("%s:signal=INT:when=%d", j.call, j.at))
			sig := strings.Index(o.trace, "--- SIGINT")
			listen := strings.Index(o.trace, "listen(")
			read := strings.Index(o.trace, `"GET / HTTP`)
			c.Step(strings.Count(o.trace, "\n"))
			c.Trace()
			moment := "after the request"
			switch {
			case sig < 0:
				return nil
			case listen < 0 || sig < listen:
				moment = "before the services"
			case read < 0 || sig < read:
				moment = "before the request"
			}
			c.State(j.index, j.call, j.at, moment, o.answered)
			c.Outcome("interrupt " + moment)
			if o.answered && o.body != reference[j.index] {
				return violf("answer-wrong", "%s: the request is answered %s instead of %s", id, clip(o.body, 300), clip(reference[j.index], 300))
			}
			if moment == "before the services" {
				return nil
			}
			if o.code != 0 || strings.Contains(o.log, "level=error") {
				return violf("exit-code", "%s (%s): the program ends with %d: %s", id, moment, o.code, clip(o.log, 1500))
			}
			if moment == "after the request" && !o.answered {
				return violf("answer-lost", "%s: the request has been read and is not answered: %s", id, clip(o.log, 1500))
			}
			return nil
		})
	})
	c.Extra("interrupted_calls", len(jobs))
}
