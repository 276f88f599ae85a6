//go:build verifsched

package main

// The part of C29 that runs in the instrumented build.

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"verif/verifsched"
)

func init() {
	childCommands["maps"] = func(stdin []byte) interface{} { return mapsRun(stdin) }
}

// keyOrders gives the permutations tried for n keys, the sorted one excluded:
// all of them up to 4 keys; beyond, each key first, each key last, and the
// reversed order (so that any two keys are met in both orders).
func keyOrders(n int) [][]int {
	out := [][]int{}
	if n <= 4 {
		for _, p := range perms(n) {
			if !sort.IntsAreSorted(p) {
				out = append(out, p)
			}
		}
		return out
	}
	seen := map[string]bool{fmt.Sprint(identity(n)): true}
	add := func(p []int) {
		if k := fmt.Sprint(p); !seen[k] {
			seen[k] = true
			out = append(out, p)
		}
	}
	rev := make([]int, n)
	for i := range rev {
		rev[i] = n - 1 - i
	}
	add(rev)
	for k := 0; k < n; k++ {
		first, last := []int{k}, []int{}
		for i := 0; i < n; i++ {
			if i != k {
				first, last = append(first, i), append(last, i)
			}
		}
		add(first)
		add(append(last, k))
	}
	return out
}

func identity(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

type orderChoice struct{ at, order int }

// mapOrders plays one vector of orders and records the points met.
type mapOrders struct {
	plan  map[int]int
	sizes []int
	sites []string
	shown []string
}

func (o *mapOrders) hook(site string, keys []string) {
	at := len(o.sizes)
	o.sizes = append(o.sizes, len(keys))
	o.sites = append(o.sites, site)
	if k, ok := o.plan[at]; ok {
		orders := keyOrders(len(keys))
		if k >= len(orders) {
			o.shown = append(o.shown, fmt.Sprintf("%s: fewer keys than before", site))
			return
		}
		sorted := append([]string{}, keys...)
		for i, x := range orders[k] {
			keys[i] = sorted[x]
		}
		o.shown = append(o.shown, fmt.Sprintf("%s: %s", site, strings.Join(keys, ", ")))
	}
}

func mapsRun(stdin []byte) (res mapsResult) {
	var job mapsJob
	must(json.Unmarshal(stdin, &job))
	deadline := time.Now().Add(time.Duration(job.Second) * time.Second)
	res.Sites, res.Answers, res.Complete = map[string]int{}, map[string]int{}, true
	// Everything must be met from this goroutine only, or the points would not
	// be in a reproducible order: the hook is removed as soon as one is not.
	with := func(plan []orderChoice, f func()) *mapOrders {
		o := &mapOrders{plan: map[int]int{}}
		for _, p := range plan {
			o.plan[p.at] = p.order
		}
		verifsched.Order = o.hook
		f()
		verifsched.Order = nil
		return o
	}
	// explore executes f under every vector of orders with at most bound
	// iterations out of the sorted order (0: any number if they fit in the cap).
	explore := func(what string, bound int, f func() string) bool {
		want := ""
		first := with(nil, func() { want = f() })
		res.Runs++
		if bound == 0 {
			bound = len(first.sizes)
			product := 1
			for _, n := range first.sizes {
				product *= len(keyOrders(n)) + 1
				if product > job.Cap {
					bound = 2
					break
				}
			}
			if bound == 2 && len(first.sizes) > 2 {
				res.Bounded++
			} else {
				res.Full++
			}
		} else {
			res.Bounded++
		}
		var walk func(plan []orderChoice, met *mapOrders) bool
		walk = func(plan []orderChoice, met *mapOrders) bool {
			res.States++
			if len(met.sizes) > res.Points {
				res.Points = len(met.sizes)
			}
			if len(plan) >= bound {
				return true
			}
			from := 0
			if len(plan) > 0 {
				from = plan[len(plan)-1].at + 1
			}
			for at := from; at < len(met.sizes); at++ {
				for k := range keyOrders(met.sizes[at]) {
					if time.Now().After(deadline) {
						res.Complete = false
						return true
					}
					next := append(append([]orderChoice{}, plan...), orderChoice{at, k})
					got := ""
					o := with(next, func() { got = f() })
					res.Runs++
					res.Sites[met.sites[at]]++
					if got != want {
						res.Key = "order:" + met.sites[at][:strings.LastIndex(met.sites[at], ":")]
						res.Detail = fmt.Sprintf("%s: with every map iterated in sorted order:\n%s\nwith %s:\n%s", what, clip(want, 3000), strings.Join(o.shown, "; "), clip(got, 3000))
						return false
					}
					if !walk(next, o) {
						return false
					}
				}
			}
			return true
		}
		return walk(nil, first)
	}
	fresh := func() {
		for _, f := range job.Files {
			for _, suffix := range []string{"", "-wal", "-shm", "-journal"} {
				_ = os.RemoveAll(f + suffix)
			}
		}
	}
	answers := func(e *schedEnv) []string {
		out := make([]string, len(job.Ops))
		for i, op := range job.Ops {
			out[i] = e.do(op)
		}
		return out
	}
	open := func() (*schedEnv, string) {
		st, err := NewStack(job.Dir, job.Yaml, "services")
		if err != nil {
			if se, ok := err.(*stageError); ok {
				return nil, "refused: " + se.stage
			}
			panic(err)
		}
		e := &schedEnv{st: st}
		e.handler = httpHandler(st.Services["h"])
		return e, ""
	}
	if !job.Build {
		e, refused := open()
		if refused != "" {
			_, err := NewStack(job.Dir, job.Yaml, "services")
			panic(&harnessError{fmt.Errorf("%s: %v", refused, err)})
		}
		defer e.st.Close()
		want := answers(e)
		for i, op := range job.Ops {
			res.Answers[strings.Fields(want[i])[0]]++
			if !explore(op.Target, 0, func() string { return e.do(op) }) {
				return res
			}
			if got := e.do(op); got != want[i] {
				res.Key = "repeated"
				res.Detail = fmt.Sprintf("%s: first\n%s\nand later\n%s", op.Target, want[i], got)
				return res
			}
		}
		return res
	}
	// The orders met while starting. Those met while answering stay sorted.
	explore("start", job.Bound, func() string {
		fresh()
		out := ""
		for _, start := range []string{"first start", "second start"} {
			hook := verifsched.Order
			if start == "second start" && !job.Reopen {
				break
			}
			e, refused := open()
			verifsched.Order = nil
			if refused != "" {
				res.Answers[strings.Replace(refused, " ", "", -1)]++
				verifsched.Order = hook
				return out + start + " " + refused
			}
			for i, a := range answers(e) {
				res.Answers[strings.Fields(a)[0]]++
				out += fmt.Sprintf("%s: %s: %s\n", start, job.Ops[i].Target, a)
			}
			e.st.Close()
			verifsched.Order = hook
		}
		return out
	})
	return res
}
