package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Finding is a recorded defect that is not reported again.
type Finding struct{ Prop, Key, Desc string }

func loadFindings(file string) []Finding {
	data, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var out []Finding
	for _, l := range strings.Split(string(data), "\n") {
		// finding: property=C01 key=<key> -- description
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property=")
		k := strings.SplitN(l, " key=", 2)
		if len(k) != 2 {
			continue
		}
		d := strings.SplitN(k[1], " -- ", 2)
		f := Finding{Prop: k[0], Key: d[0]}
		if len(d) == 2 {
			f.Desc = d[1]
		}
		out = append(out, f)
	}
	return out
}

// racResult is the outcome of the runtime contract driver.
type racResult struct {
	Available bool
	Note      string
	Cases     int
	Kinds     map[string]int
	Failed    bool
	Key       string
	What      string
	Replay    json.RawMessage
	Dur       time.Duration
}

func runRac(bin, prop, tier string, seed int, seconds int, scratch string) (r racResult) {
	start := time.Now()
	defer func() { r.Dur = time.Since(start) }()
	if _, err := os.Stat(bin); err != nil {
		r.Note = "runtime driver not built"
		return
	}
	cmd := exec.Command(bin, "-prop", prop, "-seed", strconv.Itoa(seed), "-seconds", strconv.Itoa(seconds), "-scratch", scratch)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	var errb strings.Builder
	cmd.Stderr = &errb
	out, err := cmd.Output()
	if strings.Contains(errb.String(), "WARNING: DATA RACE") {
		r.Available, r.Failed, r.Key, r.Cases = true, true, "race", 1
		t := errb.String()
		t = t[strings.Index(t, "WARNING: DATA RACE"):]
		r.What = "two calls running at the same time touch the same state without a lock: " + clip(t, 3000)
		r.Replay, _ = json.Marshal(fmt.Sprintf("%s -prop %s -seed %d -seconds %d (built with -race)", bin, prop, seed, seconds))
		return
	}
	var x struct {
		Cases  int
		Kinds  map[string]int
		Failed bool
		Key    string
		What   string
		Replay json.RawMessage
	}
	k := strings.LastIndex(strings.TrimSpace(string(out)), "\n")
	last := strings.TrimSpace(string(out))[k+1:]
	if e := json.Unmarshal([]byte(last), &x); e != nil {
		r.Note = fmt.Sprintf("runtime driver gave no result: %v %v", err, e)
		return
	}
	r.Available = true
	r.Cases, r.Kinds, r.Failed, r.Key, r.What, r.Replay = x.Cases, x.Kinds, x.Failed, x.Key, x.What, x.Replay
	return
}

func buildRac(dir, repo, out, prop string) string {
	race := ""
	if prop == "C11" || prop == "C23" {
		race = "-race"
	}
	cmd := exec.Command("bash", filepath.Join(dir, "build.sh"), repo, out, race)
	b, err := cmd.CombinedOutput()
	if err != nil {
		return clip(string(b), 2000) + err.Error()
	}
	return ""
}

// racFound is set when a failing input is known: a proof that does not go through needs no second attempt.
var racFound atomic.Bool

// checkMain runs the check of one property and returns the exit status.
func checkMain(repo, vdir, prop, tier string, seed int) int {
	start := time.Now()
	thorough := tier == "thorough"
	scratch, err := os.MkdirTemp("", "verif-"+prop+"-")
	if err != nil {
		fmt.Println(err)
		return 1
	}
	defer os.RemoveAll(scratch)
	// runtime contracts, in parallel with the proof
	racBin := filepath.Join(scratch, "rac")
	racCh := make(chan racResult, 1)
	racSecs := 6
	if thorough {
		racSecs = 120
	}
	go func() {
		if msg := buildRac(filepath.Join(vdir, "rac"), repo, racBin, prop); msg != "" {
			racCh <- racResult{Note: "runtime driver does not build: " + msg}
			return
		}
		r := runRac(racBin, prop, tier, seed, racSecs, scratch)
		racFound.Store(r.Failed)
		racCh <- r
	}()

	specs, err := LoadSpecs(filepath.Join(vdir, "contracts"))
	var results []*FnResult
	var lemmas []*FnResult
	var loadErr string
	noContr := map[string]bool{}
	if err != nil {
		loadErr = "contracts: " + err.Error()
	} else {
		e, err := Load(repo, filepath.Join(vdir, "harness"))
		if err != nil {
			loadErr = err.Error()
		} else {
			e.specs = specs
			o := Opts{Ms: 12000, Budget: 420 * time.Second, Total: 480 * time.Second}
			if thorough {
				o.Ms = 60000
				o.Budget = 1500 * time.Second
				o.Total = 1800 * time.Second
			}
			hardStop.Store(start.Add(o.Total))
			results, lemmas, noContr = e.VerifyProperty(prop, o)
			hardStop.Store(time.Now().Add(time.Hour))
		}
	}
	rac := <-racCh
	// failed obligations
	type failure struct {
		key, detail string
	}
	var fails []failure
	if loadErr != "" {
		fails = append(fails, failure{"load", loadErr})
	}
	obl, dis, groups, groupsOK := 0, 0, 0, 0
	tools := map[string]int{}
	var solver time.Duration
	for _, r := range append(append([]*FnResult(nil), results...), lemmas...) {
		if r.Lemma && noContr[r.Key] {
			continue // not used
		}
		if r.Err != "" {
			fails = append(fails, failure{r.Key + " / reach", r.Err})
		}
		for _, g := range r.Obls {
			groups++
			obl += len(g.VCs) + g.Static
			dis += g.Proved + g.Static
			if g.Err != "" {
				obl++
			}
			for k, n := range g.Tools {
				tools[k] += n
			}
			tools["simplifier"] += g.Static
			solver += g.Time
			if g.OK() {
				groupsOK++
				continue
			}
			var b strings.Builder
			fmt.Fprintf(&b, "obligation: %s\n", g.ID())
			if g.Src != "" {
				fmt.Fprintf(&b, "contract: %s\n", g.Src)
			}
			if g.Err != "" {
				fmt.Fprintf(&b, "verifier: %s\n", g.Err)
			}
			if g.Fail != nil {
				fmt.Fprintf(&b, "verifier: not discharged on the path below; solver %s answers %s\n", g.Fail.res.Tool, g.Fail.res.Status)
				fmt.Fprintf(&b, "goal: %s\n", clip(g.Fail.goal.String(), 3000))
				fmt.Fprintf(&b, "path:\n")
				for _, t := range g.Fail.trace {
					fmt.Fprintf(&b, "  %s\n", t)
				}
			}
			fails = append(fails, failure{g.ID(), b.String()})
		}
	}
	if len(results) == 0 && loadErr == "" {
		fails = append(fails, failure{"guard", "no function is under contract for this property"})
	}
	if obl == 0 && loadErr == "" {
		fails = append(fails, failure{"guard", "no obligations were generated"})
	}
	if len(fails) > 0 && rac.Available && !rac.Failed {
		// look longer for a failing input
		secs := 90
		if thorough {
			secs = 240
		}
		fmt.Printf("%d obligation(s) not discharged; searching for a failing input\n", len(fails))
		r2 := runRac(racBin, prop, tier, seed+1000, secs, scratch)
		r2.Cases += rac.Cases
		if r2.Available {
			rac = r2
		}
	}
	findings := loadFindings(filepath.Join(vdir, "known_findings.txt"))
	known := func(key string) *Finding {
		for i := range findings {
			if findings[i].Prop == prop && findings[i].Key == key {
				return &findings[i]
			}
		}
		return nil
	}
	status := 0
	violations := 0
	for _, f := range findings {
		if f.Prop == prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", prop, f.Key, f.Desc)
		}
	}
	var open []failure
	for _, f := range fails {
		if known(f.key) == nil {
			open = append(open, f)
		}
	}
	rdir := filepath.Join(vdir, "evidence", "replay")
	os.MkdirAll(rdir, 0755)
	racFailed := rac.Failed && known(rac.Key) == nil
	if len(open) > 0 || racFailed {
		violations = len(open)
		if violations == 0 {
			violations = 1
		}
		rp := filepath.Join(rdir, prop+".txt")
		var b strings.Builder
		fmt.Fprintf(&b, "property: %s\n", prop)
		if racFailed {
			fmt.Fprintf(&b, "\nfailing input, run against the real code:\n%s\nkey: %s\ninput: %s\n", rac.What, rac.Key, rac.Replay)
			fmt.Fprintf(&b, "repeat: bash /verif/check %s replay %s\n", prop, rp)
		} else if rac.Available {
			fmt.Fprintf(&b, "\nno failing input found in %d runs of the runtime contract driver\n", rac.Cases)
		} else {
			fmt.Fprintf(&b, "\nno failing input: %s\n", rac.Note)
		}
		for _, f := range open {
			fmt.Fprintf(&b, "\nfailed obligation: %s\n%s\n", f.key, f.detail)
		}
		if racFailed && len(open) == 0 {
			fmt.Fprintf(&b, "\nevery obligation was discharged: the input breaks an assumption of the proof\n")
		}
		os.WriteFile(rp, []byte(b.String()), 0644)
		for _, f := range open {
			fmt.Printf("failed obligation: %s\n", f.key)
		}
		if racFailed {
			fmt.Printf("failing input: %s\n", clip(rac.What, 500))
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, rp)
		}
		status = 1
	}
	// evidence
	trusted, assumed := map[string]bool{}, map[string]bool{}
	type fnEv struct {
		Function    string
		Role        string
		Obligations int
		Discharged  int
		Paths       int
		Loops       int
		Requires    []string `json:",omitempty"`
		Inlined     []string `json:",omitempty"`
		Contracts   []string `json:"Contracts used,omitempty"`
		Seconds     float64
	}
	var fev []fnEv
	var oblNames []string
	inlined := map[string]bool{}
	for _, r := range append(append([]*FnResult(nil), results...), lemmas...) {
		if r.Lemma && noContr[r.Key] {
			continue
		}
		f := fnEv{Function: r.Key, Role: "property", Paths: r.Paths, Loops: r.Loops, Requires: r.Requires, Inlined: r.Inlined, Contracts: r.Used, Seconds: round2(r.Dur)}
		if r.Lemma {
			f.Role = "helper"
		}
		for _, g := range r.Obls {
			f.Obligations += len(g.VCs) + g.Static
			f.Discharged += g.Proved + g.Static
			oblNames = append(oblNames, g.ID())
		}
		for _, t := range r.Trusted {
			trusted[t] = true
		}
		for _, t := range r.Assumed {
			assumed[t] = true
		}
		for _, t := range r.Inlined {
			inlined[t] = true
		}
		fev = append(fev, f)
	}
	var tb []string
	tb = append(tb, "govc: symbolic execution of golang.org/x/tools/go/ssa (the semantics it gives each instruction and its text simplifier)", "solvers: z3 5.3.2, z3 4.8.12, cvc5 1.1.2 (an obligation counts when one of them answers unsat)")
	for _, t := range sortedKeys(trusted) {
		tb = append(tb, "contract assumed for "+t)
	}
	as := []string{"machine integers as mathematical integers except where a conversion or a shift narrows them (lengths, counters and times stay far below 2^63)"}
	as = append(as, sortedKeys(assumed)...)
	if tier != "thorough" {
		tier = "quick"
	}
	cov := map[string]interface{}{
		"obligations": obl, "discharged": dis, "named_obligations": groups, "named_obligations_discharged": groupsOK,
		"checker_cmd":              "bash /verif/check " + prop + " " + tier,
		"trusted_base":             tb,
		"functions_under_contract": fev, "functions_executed_inline": sortedKeys(inlined),
		"discharged_by": tools, "solver_seconds": round2(solver), "solver_queries": stats.Queries, "feasibility_queries": stats.Feas,
		"obligation_names": oblNames,
		"runtime_contract_driver": map[string]interface{}{"available": rac.Available, "note": rac.Note, "cases": rac.Cases, "kinds": rac.Kinds, "failed": rac.Failed, "seconds": round2(rac.Dur),
			"purpose": "looks for a concrete failing input on the compiled code and exercises the assumed contracts; it decides nothing that is counted as discharged"},
	}
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": as, "wall_s": round2(time.Since(start)), "violations": violations}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(vdir, "evidence"), 0755)
	os.WriteFile(filepath.Join(vdir, "evidence", prop+".json"), append(j, '\n'), 0644)
	fmt.Printf("%s: %d functions under contract, %d/%d obligations discharged (%d named), %d runtime cases, %.1fs\n", prop, len(fev), dis, obl, groups, rac.Cases, time.Since(start).Seconds())
	return status
}

func round2(d time.Duration) float64 { return float64(int(d.Seconds()*100)) / 100 }

// VerifyProperty verifies every function whose contract carries the property, and the helper contracts they use.
func (e *Engine) VerifyProperty(prop string, o Opts) (results, lemmas []*FnResult, noContr map[string]bool) {
	noContr = map[string]bool{}
	var sps []*FuncSpec
	for _, k := range e.specs.Order {
		if sp := e.specs.Funcs[k]; sp.concerns(prop) {
			sps = append(sps, sp)
		}
	}
	for _, sp := range e.autoSpecs(prop) {
		e.specs.Funcs[sp.Key] = sp
		sps = append(sps, sp)
	}
	par := func(list []*FuncSpec, lemma bool) []*FnResult {
		rs := make([]*FnResult, len(list))
		var wg sync.WaitGroup
		sem := make(chan struct{}, 4)
		for i, sp := range list {
			wg.Add(1)
			go func(i int, sp *FuncSpec) {
				sem <- struct{}{}
				defer func() { <-sem; wg.Done() }()
				nc := map[string]bool{}
				for k := range noContr {
					nc[k] = true
				}
				rs[i] = e.Verify(sp, prop, lemma, nc, o)
			}(i, sp)
		}
		wg.Wait()
		return rs
	}
	byKey := map[string]*FnResult{}
	lemByKey := map[string]*FnResult{}
	todo := sps
	for round := 0; round < 6; round++ {
		for _, r := range par(todo, false) {
			byKey[r.Key] = r
		}
		// verify the helper contracts in use
		for {
			need := map[string]bool{}
			collect := func(r *FnResult) {
				for _, k := range r.Used {
					if !noContr[k] && lemByKey[k] == nil {
						need[k] = true
					}
				}
			}
			for _, r := range byKey {
				collect(r)
			}
			for _, r := range lemByKey {
				collect(r)
			}
			if len(need) == 0 {
				break
			}
			var list []*FuncSpec
			for _, k := range sortedKeys(need) {
				if sp := e.specs.Funcs[k]; sp != nil {
					list = append(list, sp)
				}
			}
			for _, r := range par(list, true) {
				lemByKey[r.Key] = r
			}
		}
		bad := map[string]bool{}
		for k, r := range lemByKey {
			if !r.OK() && !noContr[k] {
				if os.Getenv("GOVC_ROUNDS") != "" {
					fmt.Fprintln(os.Stderr, "not proved:", k, r.Err)
				}
				bad[k] = true
			}
		}
		if len(bad) == 0 {
			break
		}
		// a helper contract that does not hold any more is not used: the helper's body is, instead
		for k := range bad {
			noContr[k] = true
		}
		uses := func(r *FnResult) bool {
			for _, k := range r.Used {
				if bad[k] {
					return true
				}
			}
			return false
		}
		todo = nil
		for _, sp := range sps {
			if uses(byKey[sp.Key]) {
				todo = append(todo, sp)
			}
		}
		for k, r := range lemByKey {
			if uses(r) && !noContr[k] {
				delete(lemByKey, k)
			}
		}
	}
	// a function that is not proved from the contracts of its callees may be from their bodies
	var again []*FuncSpec
	for _, sp := range sps {
		if r := byKey[sp.Key]; !r.OK() && len(r.Used) > 0 {
			again = append(again, sp)
		}
	}
	if os.Getenv("GOVC_ROUNDS") != "" {
		for _, sp := range again {
			r := byKey[sp.Key]
			fmt.Fprintln(os.Stderr, "again:", sp.Key, r.Err)
			for _, ob := range r.Obls {
				if !ob.OK() {
					fmt.Fprintln(os.Stderr, "   ", ob.ID(), ob.Err)
				}
			}
		}
	}
	if len(again) > 0 && len(again) <= 6 && !racFound.Load() {
		o2 := o
		if o2.Budget > 120*time.Second {
			o2.Budget = 120 * time.Second
		}
		if o.Total > 0 {
			hardStop.Store(time.Now().Add(o2.Budget))
		}
		all := map[string]bool{}
		for k := range e.specs.Funcs {
			all[k] = true
		}
		var wg sync.WaitGroup
		rs := make([]*FnResult, len(again))
		for i, sp := range again {
			wg.Add(1)
			go func(i int, sp *FuncSpec) {
				defer wg.Done()
				rs[i] = e.Verify(sp, prop, false, all, o2)
			}(i, sp)
		}
		wg.Wait()
		for _, r := range rs {
			if r.OK() {
				byKey[r.Key] = r
			}
		}
	}
	for _, sp := range sps {
		results = append(results, byKey[sp.Key])
	}
	var ks []string
	for k := range lemByKey {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		lemmas = append(lemmas, lemByKey[k])
	}
	return
}

// autoSpecs: contracts for exported operations of a database that the contract files do not name.
func (e *Engine) autoSpecs(prop string) (out []*FuncSpec) {
	if prop != "C11" && prop != "C16" {
		return
	}
	for _, k := range sortedFns(e) {
		fn := e.funcs[k]
		name, ok := strings.CutPrefix(k, "identity.(*Database).")
		if !ok || !ast.IsExported(name) || fn.Signature.Recv() == nil || e.specs.Funcs[k] != nil || fn.Synthetic != "" {
			continue
		}
		sp := &FuncSpec{Key: k, Lets: map[string]ast.Expr{}, file: "(automatic)", Opts: map[string]string{}}
		for i, p := range fn.Params {
			n := fmt.Sprintf("p%d", i)
			if i == 0 {
				n = "db"
			}
			sp.Params = append(sp.Params, n)
			src := ""
			if i == 0 {
				src = "inv(db)"
			} else if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				src = n + " != nil"
			} else {
				continue
			}
			x, err := parser.ParseExpr(src)
			if err != nil {
				continue
			}
			sp.Requires = append(sp.Requires, &Clause{Kind: "requires", Name: n, Src: src, Expr: x})
		}
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			sp.Results = append(sp.Results, fmt.Sprintf("res%d", i))
		}
		if prop == "C11" {
			sp.Locks = []string{prop}
		} else {
			sp.Panics = []string{prop}
		}
		out = append(out, sp)
	}
	return
}
