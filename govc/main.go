package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) > 2 && os.Args[1] == "check" {
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		repo, vdir := "/repo", "/verif"
		if x := os.Getenv("VERIF_REPO"); x != "" {
			repo = x
		}
		if x := os.Getenv("VERIF_DIR"); x != "" {
			vdir = x
		}
		os.Exit(checkMain(repo, vdir, os.Args[2], tier, seed))
	}
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "/verif/contracts", "contracts")
	hdir := flag.String("harness", "/verif/harness", "client functions")
	prop := flag.String("prop", "", "property")
	fns := flag.String("fn", "", "only these functions")
	only := flag.String("only", "", "only obligations with this in their name")
	ms := flag.Int("ms", 10000, "per condition")
	dump := flag.String("dump", "", "write failed scripts here")
	verbose := flag.Bool("v", false, "verbose")
	lemma := flag.Bool("lemma", false, "verify as lemmas")
	list := flag.Bool("list", false, "list functions")
	flag.Parse()
	t0 := time.Now()
	e, err := Load(*repo, *hdir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if *list {
		for _, k := range sortedFns(e) {
			fmt.Println(k)
		}
		return
	}
	e.specs, err = LoadSpecs(*dir)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %v\n", time.Since(t0).Round(time.Millisecond))
	o := Opts{Ms: *ms, Budget: 600 * time.Second, DumpDir: *dump, Only: *only}
	var sps []*FuncSpec
	for _, k := range e.specs.Order {
		sp := e.specs.Funcs[k]
		if *fns != "" && !strings.Contains(k, *fns) {
			continue
		}
		if *lemma && sp.Lemma || !*lemma && sp.concerns(*prop) {
			sps = append(sps, sp)
		}
	}
	rs := make([]*FnResult, len(sps))
	var wg sync.WaitGroup
	for i, sp := range sps {
		wg.Add(1)
		go func(i int, sp *FuncSpec) {
			defer wg.Done()
			rs[i] = e.Verify(sp, *prop, *lemma, map[string]bool{}, o)
		}(i, sp)
	}
	wg.Wait()
	for _, r := range rs {
		printResult(r, *verbose)
	}
	fmt.Printf("total %v, queries %d solver time %v, feasibility %d %v, tools %v\n", time.Since(t0).Round(time.Millisecond), stats.Queries, stats.Time.Round(time.Millisecond), stats.Feas, stats.FeasTime.Round(time.Millisecond), stats.ByTool)
}

func (sp *FuncSpec) concerns(prop string) bool {
	if hasLabel(sp.Panics, prop) || hasLabel(sp.Locks, prop) || hasLabel(sp.Syncs, prop) {
		return true
	}
	for _, c := range sp.Ensures {
		if hasLabel(c.Labels, prop) {
			return true
		}
	}
	return false
}

func printResult(r *FnResult, verbose bool) {
	st := "ok"
	if !r.OK() {
		st = "FAILED"
	}
	fmt.Printf("%s: %s (%d paths, %d steps, symbolic %v, total %v)\n", r.Key, st, r.Paths, r.Steps, r.SymDur.Round(time.Millisecond), r.Dur.Round(time.Millisecond))
	if r.Err != "" {
		fmt.Println("   error:", r.Err)
	}
	for _, o := range r.Obls {
		if o.OK() && !verbose {
			continue
		}
		s := "ok"
		if !o.OK() {
			s = "FAIL"
		}
		fmt.Printf("   %s %s: %d static, %d/%d proved %v %v\n", s, o.ID(), o.Static, o.Proved, len(o.VCs), o.Tools, o.Time.Round(time.Millisecond))
		if o.Err != "" {
			fmt.Println("      ", o.Err)
		}
		if o.Fail != nil {
			fmt.Println("      ", o.Fail.res.Status, o.Fail.res.Tool, o.Fail.res.Model)
			fmt.Println("       goal:", clip(o.Fail.goal.String(), 600))
			for _, t := range o.Fail.trace {
				fmt.Println("         ", t)
			}
		}
	}
	if verbose {
		fmt.Println("   inlined:", r.Inlined)
		fmt.Println("   contracts used:", r.Used)
		fmt.Println("   trusted:", r.Trusted)
		fmt.Println("   assumed:", r.Assumed)
		for _, l := range r.LoopLog {
			fmt.Println("   loop:", l)
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func sortedFns(e *Engine) []string {
	m := map[string]bool{}
	for k := range e.funcs {
		m[k] = true
	}
	return sortedKeys(m)
}
