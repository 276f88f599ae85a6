//go:build verifsched

package main

// The part of C25 that runs in the instrumented build.

import (
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"reflect"
	"runtime/pprof"
	"strings"
	"time"
	"unsafe"

	"github.com/rodb-io/rodb/pkg/input"
	"github.com/rodb-io/rodb/pkg/input/record"
	"verif/verifsched"
)

func init() {
	childCommands["schedule"] = func(stdin []byte) interface{} {
		if p := os.Getenv("VERIF_PROF"); p != "" {
			f, err := os.Create(p)
			must(err)
			must(pprof.StartCPUProfile(f))
			defer pprof.StopCPUProfile()
		}
		return schedRun(stdin)
	}
}

func schedPlan(p []schedChoice) []verifsched.Choice {
	out := make([]verifsched.Choice, len(p))
	for i, x := range p {
		out[i] = verifsched.Choice{Step: x.Step, To: x.To}
	}
	return out
}

// httpHandler finds the handler of the HTTP service, whatever its fields are called.
func httpHandler(svc interface{}) http.Handler {
	v := reflect.ValueOf(svc)
	for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return nil
	}
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf(&http.Server{}) && !v.Field(i).IsNil() {
			s := *(**http.Server)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
			return s.Handler
		}
	}
	return nil
}

type schedEnv struct {
	st        *Stack
	handler   http.Handler
	positions map[string][]int64
}

func (e *schedEnv) do(op schedOp) string {
	switch op.Kind {
	case "ask":
		r := Ask(e.st.Outputs[op.Name], op.Params)
		return fmt.Sprintf("%d %q %q %v %d", r.Status, r.Body, r.Err, r.Ret, r.Count)
	case "http":
		if e.handler == nil {
			return "no handler"
		}
		rec := httptest.NewRecorder()
		e.handler.ServeHTTP(rec, httptest.NewRequest("GET", op.Target, nil))
		return fmt.Sprintf("%d %q %q", rec.Code, rec.Header().Get("Content-Type"), rec.Body.String())
	case "get":
		ps := e.positions[op.Name]
		if op.Pos >= len(ps) {
			return "no position"
		}
		return showRecord(e.st.Inputs[op.Name].Get(record.Position(ps[op.Pos])))
	case "iterate":
		it, end, err := e.st.Inputs[op.Name].IterateAll()
		if err != nil {
			return "error " + err.Error()
		}
		out := ""
		for {
			r, err := it()
			if err != nil {
				out += "error " + err.Error()
				break
			}
			if r == nil {
				break
			}
			out += showRecord(r, nil) + "\n"
		}
		if err := end(); err != nil {
			out += "close " + err.Error()
		}
		return out
	case "find":
		f := map[string]interface{}{}
		for k, v := range op.Params {
			f[k] = v
		}
		it, err := e.st.Indexes[op.Name].GetRecordPositions(e.st.Inputs[op.Target], f)
		if err != nil {
			return "error " + err.Error()
		}
		out := ""
		for {
			p, err := it()
			if err != nil {
				return out + "error " + err.Error()
			}
			if p == nil {
				return out
			}
			out += fmt.Sprintf("%d ", *p)
		}
	}
	panic("op " + op.Kind)
}

func showRecord(r record.Record, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	all, err := r.All()
	if err != nil {
		return "error " + err.Error()
	}
	return fmt.Sprintf("%d %s", r.Position(), js(all))
}

func recordPositions(in input.Input) []int64 {
	out := []int64{}
	it, end, err := in.IterateAll()
	must(err)
	for {
		r, err := it()
		must(err)
		if r == nil {
			break
		}
		out = append(out, int64(r.Position()))
	}
	must(end())
	return out
}

func schedRun(stdin []byte) (res schedResult) {
	var job schedJob
	must(json.Unmarshal(stdin, &job))
	deadline := time.Now().Add(time.Duration(job.Second) * time.Second)
	upTo := "outputs"
	for _, o := range job.Ops {
		if o.Kind == "http" {
			upTo = "services"
		}
	}
	open := func() *schedEnv {
		st, err := NewStack(job.Dir, job.Yaml, upTo)
		must(err)
		e := &schedEnv{st: st, positions: map[string][]int64{}}
		if upTo == "services" {
			e.handler = httpHandler(st.Services["h"])
		}
		return e
	}
	// What each operation gives alone, on components of its own.
	positions := map[string][]int64{}
	want := make([]string, len(job.Ops))
	for i, op := range job.Ops {
		e := open()
		if len(positions) == 0 {
			for n, in := range e.st.Inputs {
				positions[n] = recordPositions(in)
			}
			e.st.Close()
			e = open()
		}
		e.positions = positions
		want[i] = e.do(op)
		e.st.Close()
	}
	got := make([]string, len(job.Ops))
	closing := make(chan struct{}, 10)
	var explore func(plan []schedChoice, bound int, top bool) bool
	stop := false
	fail := func(plan []schedChoice, key, format string, args ...interface{}) {
		if res.Key == "" {
			res.Key, res.Detail = key, fmt.Sprintf(format, args...)
			res.Plan = append([]schedChoice{}, plan...)
		}
		stop = true
	}
	describe := func(plan []schedChoice) string {
		out := []string{}
		for _, p := range plan {
			at := "start"
			if p.Step < verifsched.NSteps && p.Step > 0 {
				if pl := int(verifsched.Steps[p.Step].Place); pl >= 0 && pl < len(verifsched.Places) {
					at = verifsched.Places[pl]
				} else if pl == -2 {
					at = "lock"
				} else if pl == -3 {
					at = "unlock"
				}
			}
			out = append(out, fmt.Sprintf("step %d (%s) -> thread %d", p.Step, at, p.To))
		}
		return strings.Join(out, ", ")
	}
	explore = func(plan []schedChoice, bound int, top bool) bool {
		if stop {
			return false
		}
		if time.Now().After(deadline) {
			return false
		}
		// The race detector ends the process: say beforehand where we are.
		planText, _ := json.Marshal(plan)
		fmt.Fprintf(os.Stderr, "PLAN %s\n", planText)
		e := open()
		e.positions = positions
		bodies := make([]func(), len(job.Ops))
		for i := range job.Ops {
			i := i
			got[i] = ""
			bodies[i] = func() {
				defer func() {
					if r := recover(); r != nil {
						got[i] = fmt.Sprintf("panic: %v", r)
					}
				}()
				got[i] = e.do(job.Ops[i])
			}
		}
		dead, ext, stacks := verifsched.Run(bodies, schedPlan(plan))
		res.Runs++
		res.Steps += verifsched.NSteps
		res.External += ext
		if verifsched.NSteps > res.MaxSteps {
			res.MaxSteps = verifsched.NSteps
		}
		if len(plan) > 0 {
			res.Preempted++
		}
		if dead {
			fail(plan, "deadlock", "schedule [%s]: the operations block for ever\n%s", describe(plan), clip(stacks, 6000))
			return false
		}
		for i := range job.Ops {
			if got[i] != want[i] {
				key := "answer"
				if strings.HasPrefix(got[i], "panic") {
					key = "panic"
				}
				fail(plan, key, "schedule [%s]: operation %d (%s) gave %s; alone it gives %s", describe(plan), i, job.Ops[i], clip(got[i], 900), clip(want[i], 900))
				return false
			}
		}
		// The exploration of the alternatives of this run.
		n := verifsched.NSteps
		if n > len(verifsched.Steps) {
			n = len(verifsched.Steps)
		}
		steps := append([]verifsched.Step{}, verifsched.Steps[:n]...)
		for i, op := range job.Ops {
			if again := e.do(op); again != want[i] {
				fail(plan, "afterwards", "schedule [%s]: afterwards, operation %d (%s) alone gives %s instead of %s", describe(plan), i, op, clip(again, 900), clip(want[i], 900))
				return false
			}
		}
		closing <- struct{}{} // closing a watcher mostly waits
		go func() {
			e.st.Close()
			<-closing
		}()
		if job.Replay {
			return true
		}
		first := 0
		if len(plan) > 0 {
			first = plan[len(plan)-1].Step + 1
		}
		// What is after the last choice has not been visited by another run.
		res.States += n - first
		complete := true
		idx := 0
		for s := first; s < n; s++ {
			for t := 0; t < len(job.Ops); t++ {
				if t == int(steps[s].Thread) || steps[s].Enabled&(1<<uint(t)) == 0 {
					continue
				}
				cost := 1
				if steps[s].Forced {
					cost = 0
				} else if job.Race && steps[s].Place >= 0 {
					// What races depends on the order of the synchronisations only.
					continue
				}
				if cost > bound {
					continue
				}
				idx++
				if top && idx%job.Shards != job.Shard {
					continue
				}
				next := append(append([]schedChoice{}, plan...), schedChoice{Step: s, To: t})
				if len(next) > 12 {
					complete = false
					continue
				}
				if !explore(next, bound-cost, false) {
					complete = false
				}
				if stop {
					return false
				}
			}
		}
		return complete
	}
	res.Complete = explore(job.Plan, job.Bound, true)
	return res
}
