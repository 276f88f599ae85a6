package main

// C08: combining position lists yields exactly the common positions, in order.

import (
	"errors"
	"fmt"

	"github.com/rodb-io/rodb/pkg/input/record"
)

func init() {
	register("C08", "model_checking",
		"Every tuple of up to 4 ascending position lists drawn from all subsets of a small universe (and shifted/large positions) is combined by the real join, for every order of the lists; each call is compared with the reference intersection, including calls after the end, and an error is injected at every call of every source. A state is one distinct (lists, progress); a transition is one call of the combined iterator.",
		runC08)
}

func runC08(c *Ctx) {
	scaleJoin(c)
	injected := errors.New("injected")
	toList := func(s []int, scale int64) record.PositionList {
		l := record.PositionList{}
		for _, x := range s {
			l = append(l, int64(x)*scale)
		}
		return l
	}
	run := func(lists []record.PositionList, failList, failAt int) (out []int64, err error, calls int) {
		its := []record.PositionIterator{}
		for li, l := range lists {
			inner := l.Iterate()
			k := 0
			li := li
			its = append(its, func() (*record.Position, error) {
				if li == failList && k == failAt {
					return nil, injected
				}
				k++
				return inner()
			})
		}
		j := record.JoinPositionIterators(its...)
		for calls = 0; calls < 64; calls++ {
			p, e := j()
			c.Step(1)
			if e != nil {
				return out, e, calls
			}
			if p == nil {
				// It must stay at its end.
				for n := 0; n < 3; n++ {
					q, e := j()
					if e != nil && failList >= 0 {
						return out, e, calls
					}
					if e != nil || q != nil {
						return out, violf("join-not-ended", "a call after the end returned %v, %v", q, e), calls
					}
				}
				return out, nil, calls
			}
			out = append(out, *p)
		}
		return out, violf("join-endless", "no end after 64 calls"), calls
	}
	check := func(lists []record.PositionList) error {
		want := []int64{}
		if len(lists) > 0 {
			for _, p := range lists[0] {
				all := true
				for _, l := range lists[1:] {
					found := false
					for _, q := range l {
						found = found || q == p
					}
					all = all && found
				}
				if all {
					want = append(want, p)
				}
			}
		}
		got, err, _ := run(lists, -1, -1)
		if err != nil {
			return violf("join-error", "%v: %v", lists, err)
		}
		if fmt.Sprint(got) != fmt.Sprint(want) {
			return violf("join-value", "lists %v: expected %v, got %v", lists, want, got)
		}
		c.State(fmt.Sprint(lists))
		c.Outcome(fmt.Sprintf("common%d", len(want)))
		return nil
	}
	checkFaults := func(lists []record.PositionList) error {
		want, _, _ := run(lists, -1, -1)
		for li, l := range lists {
			for at := 0; at <= len(l); at++ {
				got, err, _ := run(lists, li, at)
				if v := (*Viol)(nil); errors.As(err, &v) {
					return v
				}
				for i := range got {
					if i >= len(want) || got[i] != want[i] {
						return violf("join-fault-value", "lists %v with source %d failing at %d: got %v", lists, li, at, got)
					}
				}
				if err == nil && len(got) != len(want) {
					return violf("join-fault-swallowed", "lists %v with source %d failing at %d: ended with %v instead of %v and no error", lists, li, at, got, want)
				}
				c.Outcome(fmt.Sprintf("fault-error=%v", err != nil))
			}
		}
		return nil
	}
	// two lists over 6 positions, three over 5 (4 quick), four over 3
	for _, k := range []struct{ n, u int }{{1, 6}, {2, c.Pick(6, 7)}, {3, c.Pick(4, 5)}, {4, 3}} {
		subs := subsets(k.u)
		ts := tuples(len(subs), k.n)
		full := [][]int{}
		for _, t := range ts {
			if len(t) == k.n {
				full = append(full, t)
			}
		}
		c.Parallel((len(full)+199)/200, func(chunk int) {
			c.Case(fmt.Sprintf("join lists=%d universe=%d chunk=%d", k.n, k.u, chunk), func() error {
				for _, t := range full[chunk*200 : min(len(full), chunk*200+200)] {
					for _, scale := range []int64{1, 1 << 40} {
						lists := []record.PositionList{}
						for _, s := range t {
							lists = append(lists, toList(subs[s], scale))
						}
						if err := check(lists); err != nil {
							return err
						}
						if scale == 1 {
							if err := checkFaults(lists); err != nil {
								return err
							}
						}
					}
				}
				c.Trace()
				return nil
			})
		})
	}
	c.Case("join of nothing", func() error { return check(nil) })
	c.Case("empty iterator", func() error {
		for i := 0; i < 3; i++ {
			if p, err := record.EmptyIterator(); p != nil || err != nil {
				return violf("empty-iterator", "%v %v", p, err)
			}
		}
		return nil
	})
}
