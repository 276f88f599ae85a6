package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"time"
)

type check struct {
	level string
	rule  string
	run   func(c *Ctx)
}

var checks = map[string]*check{}

func register(prop, level, rule string, run func(c *Ctx)) {
	checks[prop] = &check{level, rule, run}
}

func main() {
	if len(os.Args) >= 2 && os.Args[1] == "list" {
		ids := []string{}
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	if len(os.Args) >= 2 && childMain != nil && os.Args[1] == "child" {
		childMain(os.Args[2:])
		return
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vh PROPERTY quick|thorough")
		os.Exit(3)
	}
	prop, tier := os.Args[1], os.Args[2]
	ck, ok := checks[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(3)
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	limit := 420 * time.Second
	if tier == "thorough" {
		limit = 3600 * time.Second
	}
	if s := os.Getenv("VERIF_LIMIT_S"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			limit = time.Duration(n) * time.Second
		}
	}
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = os.TempDir()
	}
	scratch, err := os.MkdirTemp(base, "vh-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	c := &Ctx{
		Prop: prop, Tier: tier, Seed: seed, Verif: verif, Repo: repo, Scratch: scratch,
		start: time.Now(), limit: limit,
		states: map[[8]byte]struct{}{}, outcomes: map[string]int64{}, violKeys: map[string]bool{},
		extra: map[string]interface{}{}, Level: ck.level, Rule: ck.rule,
		replayOnly: os.Getenv("VERIF_CASE"),
	}
	c.known = loadKnown(filepath.Join(verif, "KNOWN_FINDINGS"), prop)
	go c.watchdog()
	if err := guarded(func() error { ck.run(c); return nil }); err != nil {
		// A panic outside of a case: either the code under test panicked in a
		// place no case covers (a violation) or the harness is broken.
		if v, ok := err.(*Viol); ok && v.Key != "panic:outside-rodb" {
			c.report("top-level", v)
		} else {
			c.Note("harness failure: %v", err)
			c.capped = true
		}
	}
	rc := c.finish()
	_ = os.RemoveAll(scratch)
	os.Exit(rc)
}

// childMain is set by checks that re-execute this binary.
var childMain func(args []string)
