package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// VC is one verification condition: a path and a goal.
type VC struct {
	hyps  []*Term
	goal  *Term
	trace []string
	res   Result
	ok    bool
	mode  string
}

// OblGroup is one named obligation of a function with its verification conditions.
type OblGroup struct {
	Fn, Kind, Name, Pos string
	Src                 string
	VCs                 []*VC
	Static              int // conditions closed by simplification
	Proved              int
	Tools               map[string]int
	Err                 string
	Fail                *VC
	Time                time.Duration
}

func (o *OblGroup) OK() bool { return o.Err == "" && o.Fail == nil }

func (o *OblGroup) ID() string {
	s := o.Fn + " / " + o.Kind
	if o.Name != "" {
		s += " / " + o.Name
	}
	if o.Pos != "" && o.Kind != "ensures" {
		s += " @ " + o.Pos
	}
	return s
}

// FnResult is the outcome for one function.
type FnResult struct {
	Key      string
	Lemma    bool
	Obls     []*OblGroup
	Paths    int
	Steps    int
	Loops    int
	Houdini  int
	Err      string
	Used     []string
	Inlined  []string
	Trusted  []string
	Assumed  []string
	LoopLog  []string
	LockOK   int
	Dur      time.Duration
	SymDur   time.Duration
	Requires []string
}

func (r *FnResult) OK() bool {
	if r.Err != "" {
		return false
	}
	for _, o := range r.Obls {
		if !o.OK() {
			return false
		}
	}
	return true
}

type Opts struct {
	Ms      int // per verification condition
	Budget  time.Duration
	Total   time.Duration // for the whole property
	Debug   bool
	DumpDir string
	Only    string // substring of obligation name
}

func hasLabel(ls []string, p string) bool {
	for _, l := range ls {
		if l == p {
			return true
		}
	}
	return false
}

func setup(sp *FuncSpec, name string) bool { return hasLabel(strings.Fields(sp.Opts["labels"]), name) }

// Verify decides the obligations of one function for a property ("" with lemma: all clauses).
func (e *Engine) Verify(sp *FuncSpec, prop string, lemma bool, noContr map[string]bool, o Opts) (res *FnResult) {
	start := time.Now()
	res = &FnResult{Key: sp.Key, Lemma: lemma}
	defer func() { res.Dur = time.Since(start) }()
	fn := e.funcs[sp.Key]
	if fn == nil {
		res.Err = "the function under contract does not exist"
		return
	}
	if len(fn.Params) != len(sp.Params) {
		res.Err = fmt.Sprintf("the contract names %d parameters, the function has %d", len(sp.Params), len(fn.Params))
		return
	}
	if fn.Signature.Results().Len() != len(sp.Results) {
		res.Err = fmt.Sprintf("the contract names %d results, the function has %d", len(sp.Results), fn.Signature.Results().Len())
		return
	}
	u := NewUnit(e, fn)
	defer u.g.Close()
	defer func() { u.g.Close() }()
	u.spec = sp
	u.labels[prop] = true
	u.debug = u.debug || o.Debug
	u.noContr = noContr
	u.prop = prop
	u.lemma = lemma
	u.panics = hasLabel(sp.Panics, prop) || lemma && prop == "C16"
	locks := hasLabel(sp.Locks, prop) && !lemma
	u.syncs = hasLabel(sp.Syncs, prop) && !lemma
	u.deadline = start.Add(o.Budget)
	if t, ok := hardStop.Load().(time.Time); ok && t.Before(u.deadline) {
		u.deadline = t
	}
	groups := map[string]*OblGroup{}
	var order []string
	group := func(kind, name, pos, src string) *OblGroup {
		k := kind + "\x00" + name + "\x00" + pos
		g := groups[k]
		if g == nil {
			g = &OblGroup{Fn: sp.Key, Kind: kind, Name: name, Pos: pos, Src: src, Tools: map[string]int{}}
			groups[k] = g
			order = append(order, k)
		}
		return g
	}
	defer func() {
		for _, k := range order {
			res.Obls = append(res.Obls, groups[k])
		}
		res.Steps, res.Houdini = u.steps, u.houdini
		res.Used, res.Inlined, res.Trusted, res.Assumed = sortedKeys(u.used), sortedKeys(u.inlined), sortedKeys(u.trusted), sortedKeys(u.assumed)
		res.LoopLog = u.loopLog
		res.LockOK = u.lockOK
		res.Loops = len(u.nloops)
	}()
	defer func() {
		if r := recover(); r != nil {
			if ue, ok := r.(unsupErr); ok {
				res.Err = ue.msg
				return
			}
			if se, ok := r.(specErr); ok {
				res.Err = "contract: " + se.msg
				return
			}
			res.Err = fmt.Sprintf("internal: %v\n%s", r, debug.Stack())
		}
	}()
	st := u.newState()
	var args []Val
	for i, p := range fn.Params {
		v := u.freshVal(st, "p_"+p.Name(), p.Type())
		if i == 0 && fn.Signature.Recv() != nil {
			if t, ok := v.(*Term); ok && t.Sort == SInt {
				if _, isp := p.Type().Underlying().(*types.Pointer); isp {
					st.assume(u.c.Lt(u.c.Int(0), t))
				}
			}
		}
		args = append(args, v)
	}
	st.frames = []*Frame{u.newFrame(fn, args, nil)}
	pre := st.clone()
	en := u.envFor(sp, fn, args, nil, st, pre)
	for _, r := range sp.Requires {
		if len(r.Labels) > 0 && !lemma && !hasLabel(r.Labels, prop) {
			continue
		}
		t, err := en.evalClause(r)
		if err != nil {
			res.Err = "contract: precondition " + r.Name + ": " + err.Error()
			return
		}
		st.assume(u.skolemHyp(t))
		res.Requires = append(res.Requires, r.Src)
	}
	for _, d := range sp.Decode {
		if len(d.Labels) > 0 && !hasLabel(d.Labels, prop) {
			continue
		}
		d := d
		u.decodeAssume = append(u.decodeAssume, func(s *State, db, old *Term) {
			en := u.envFor(sp, fn, args, nil, s, pre)
			en.vars["db"] = SV{db, u.e.dbPtrType()}
			t, err := en.evalClause(d)
			if err != nil {
				panic(unsup("decode assumption " + d.Name + ": " + err.Error()))
			}
			s.assume(u.skolemHyp(t))
		})
		res.Requires = append(res.Requires, "of a decoded file: "+d.Src)
	}
	if locks {
		u.setupLocks(st, fn, args)
	}
	pre = st.clone()
	pre.frames = nil
	u.entry = pre
	u.args = args
	done := u.run(st)
	res.Paths = len(done)
	res.SymDur = time.Since(start)
	u.deadline = time.Time{}
	// obligations from the body
	for _, ob := range u.obls {
		if ob.Kind == "term" && !u.panics {
			continue
		}
		g := group(ob.Kind, ob.Name, ob.Pos, "")
		g.VCs = append(g.VCs, &VC{hyps: ob.Hyps, goal: ob.Goal, trace: ob.Trace})
	}
	nret := 0
	for _, s := range done {
		switch s.end {
		case "return":
			nret++
		case "panic":
			if u.panics {
				g := group("panic", "explicit panic: "+s.reason, "", "")
				g.VCs = append(g.VCs, &VC{hyps: s.pc, goal: u.c.False, trace: s.trace})
			}
		case "backedge", "exit":
			// covered by the loop's invariant
		default:
			g := group("reach", "body within reach of the verifier: "+s.reason, "", "")
			g.VCs = append(g.VCs, &VC{hyps: s.pc, goal: u.c.False, trace: s.trace})
		}
	}
	// the specification must not be vacuous
	if nret == 0 {
		g := group("guard", "some path returns", "", "")
		g.Err = "no path of the function returns"
	}
	for _, cl := range sp.Ensures {
		if !(lemma && !sp.private(cl, prop) || hasLabel(cl.Labels, prop)) {
			continue
		}
		g := group("ensures", cl.Name, "", cl.Src)
		for _, s := range done {
			if s.end != "return" {
				continue
			}
			en := u.envFor(sp, fn, args, s.res, s, pre)
			t, err := en.evalClause(cl)
			if err != nil {
				g.Err = "contract: " + err.Error()
				break
			}
			u.addVCs(g, s, t)
		}
	}
	if locks {
		ga := group("lock", "every access to shared state is under the lock", "", "")
		ga.Static += u.lockOK
		g := group("lock", "released when the operation returns", "", "")
		for _, s := range done {
			if s.end == "return" {
				u.addVCs(g, s, u.c.Bool(s.lock == 0))
			}
		}
	}
	if u.syncs {
		ga := group("lock", "every use of state that outlives the call is under one lock", "", "")
		ga.Static += u.lockOK
		g := group("lock", "released when the function returns", "", "")
		for _, s := range done {
			if s.end == "return" {
				u.addVCs(g, s, u.c.Bool(len(s.held) == 0))
			}
		}
	}
	if lemma || sp.Frame != nil && hasLabel(sp.Frame.Labels, prop) {
		g := group("frame", "changes nothing but what the contract names", "", "")
		for _, s := range done {
			if s.end == "return" {
				u.frameVCs(g, s, sp, fn, args, pre)
			}
		}
	}
	var gs []*OblGroup
	for _, k := range order {
		if o.Only == "" || strings.Contains(groups[k].Name, o.Only) {
			gs = append(gs, groups[k])
		}
	}
	u.solveGroups(gs, o)
	// vacuity: the entry condition and at least one returning path are not refutable
	gv := group("guard", "preconditions and returning paths are not contradictory", "", "")
	live := false
	for i, s := range done {
		if s.end != "return" {
			continue
		}
		if i > 40 {
			live = true
			break
		}
		r := runTool("z3-new", u.c.Script(s.pc, StrAbstract, true)+"(check-sat)\n", 700)
		if r.Status != "unsat" {
			live = true
			break
		}
	}
	if !live {
		gv.Err = "every returning path is contradictory"
	} else {
		gv.Static++
	}
	return
}

// underPath rewrites a goal with the literal facts of the path.
func (u *Unit) underPath(s *State, t *Term) *Term {
	c := u.c
	m := map[*Term]*Term{}
	for _, p := range s.pc {
		switch p.Op {
		case "not":
			if p.Args[0].qf {
				m[p.Args[0]] = c.False
			}
			continue
		case "=":
			a, b := p.Args[0], p.Args[1]
			if b.isLit() && !a.isLit() {
				m[a] = b
			} else if a.isLit() && !b.isLit() {
				m[b] = a
			}
		}
		if p.qf && p.Op != "true" {
			m[p] = c.True
		}
	}
	return c.Subst(t, m)
}

func (u *Unit) addVCs(g *OblGroup, s *State, t *Term) {
	t = u.underPath(s, t)
	for _, p := range u.skolemGoal(t) {
		u.addCases(g, s, p.hyps, p.goal, 0)
	}
}

// addCases adds a goal, one case for each outcome of the conditions of string-valued conditionals in it.
func (u *Unit) addCases(g *OblGroup, s *State, gh []*Term, goal *Term, depth int) {
	c := u.c
	if goal.Op == "true" || s.pcset[goal] {
		g.Static++
		return
	}
	if depth < 5 {
		if cond := strIteCond(goal, map[*Term]bool{}); cond != nil {
			for _, v := range []*Term{c.True, c.False} {
				h := cond
				if v == c.False {
					h = c.Not(cond)
				}
				if s.pcset[c.Not(h)] {
					continue
				}
				u.addCases(g, s, append(append([]*Term(nil), gh...), h), c.Subst(goal, map[*Term]*Term{cond: v}), depth+1)
			}
			return
		}
	}
	hyps := append([]*Term(nil), s.pc...)
	for _, h := range gh {
		h = u.skolemHyp(h)
		for _, x := range conjuncts(h) {
			if x.Op == "false" || s.pcset[c.Not(x)] {
				g.Static++
				return
			}
			hyps = append(hyps, x)
		}
	}
	g.VCs = append(g.VCs, &VC{hyps: hyps, goal: goal, trace: s.trace})
}

// strIteCond returns the condition of a string-valued conditional below an equation.
func strIteCond(t *Term, seen map[*Term]bool) *Term {
	if seen[t] || !t.qf {
		return nil
	}
	seen[t] = true
	if t.Op == "ite" && t.Sort == SStr {
		if x := strIteCond(t.Args[0], seen); x != nil {
			return x
		}
		return t.Args[0]
	}
	for _, a := range t.Args {
		if x := strIteCond(a, seen); x != nil {
			return x
		}
	}
	return nil
}

// frameVCs: every cell that existed at entry keeps its value except those named by modifies.
func (u *Unit) frameVCs(g *OblGroup, s *State, sp *FuncSpec, fn *ssa.Function, args []Val, pre *State) {
	c := u.c
	each := map[string][]func(*Term) *Term{}
	st := pre.clone()
	if !sp.Pure {
		en := u.envFor(sp, fn, args, nil, st, pre)
		for _, m := range sp.Modifies {
			if strings.HasPrefix(m, "fresh(") {
				continue
			}
			if strings.HasPrefix(m, "each(") {
				e, err := parser.ParseExpr(m)
				if err != nil {
					panic(unsup("modifies " + m))
				}
				t, in := u.eachOf(en.with(pre), e.(*ast.CallExpr).Args[0], m)
				for _, l := range eachFields(t, e.(*ast.CallExpr)) {
					each[objRegion(t, l.path)] = append(each[objRegion(t, l.path)], in)
				}
				continue
			}
			u.havocTarget(st, en.with(pre), m, pre.next)
		}
	}
	for _, n := range sortedHeap(s.heap) {
		cur := s.heap[n]
		old := u.initOf(n)
		if cur == old {
			continue
		}
		if !cur.Sort.isArr() {
			if v, ok := pre.ghost[n]; !ok || v != cur {
				u.addVCs(g, s, c.Eq(cur, old))
			}
			continue
		}
		x := c.FreshBVar("x", SInt)
		c.upper[x] = u.next0
		cond := c.Lt(x, u.next0)
		// cells written by the modifies clause
		if h, ok := st.heap[n]; ok && h != old {
			for h.Op == "store" {
				cond = c.And(cond, c.Not(c.Eq(x, h.Args[1])))
				h = h.Args[0]
			}
		}
		for _, in := range each[n] {
			cond = c.And(cond, c.Not(in(x)))
		}
		u.addVCs(g, s, c.Forall([]*Term{x}, c.Implies(cond, c.Eq(c.Select(cur, x), c.Select(old, x)))))
	}
	for _, n := range sortedHeap(s.ghost) {
		if v, ok := pre.ghost[n]; ok && v == s.ghost[n] || strings.HasPrefix(n, "tmp:") {
			continue
		}
		u.addVCs(g, s, c.Eq(s.ghost[n], u.ghostVar(pre.clone(), n, s.ghost[n].Sort)))
	}
}

func sortedHeap(m map[string]*Term) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type vcTask struct {
	g    *OblGroup
	vc   *VC
	a, s string // scripts: abstract strings, string theory
}

// solveGroups decides all verification conditions, sharing identical ones.
func (u *Unit) solveGroups(gs []*OblGroup, o Opts) {
	type job struct {
		script, full, strs string
		res                Result
		ok                 bool
		owners             []*vcTask
	}
	jobs := map[string]*job{}
	var order []*job
	for _, g := range gs {
		for _, vc := range g.VCs {
			ng := u.c.Not(vc.goal)
			cn := u.relevant(vc.hyps, vc.goal)
			sc := u.c.Script(append(append([]*Term(nil), cn...), ng), StrAbstract, true)
			j := jobs[sc]
			if j == nil {
				j = &job{script: sc}
				if len(cn) != len(vc.hyps) {
					j.full = u.c.Script(append(append([]*Term(nil), vc.hyps...), ng), StrAbstract, true)
				}
				all := append(append([]*Term(nil), cn...), ng)
				if needsStrings(all) {
					j.strs = u.c.Script(all, StrTheory, true)
				}
				jobs[sc] = j
				order = append(order, j)
			}
			j.owners = append(j.owners, &vcTask{g: g, vc: vc})
		}
	}
	var wg sync.WaitGroup
	failed := map[*OblGroup]bool{}
	var mu sync.Mutex
	sem := make(chan struct{}, 16)
	for _, j := range order {
		wg.Add(1)
		sem <- struct{}{}
		go func(j *job) {
			defer func() { <-sem; wg.Done() }()
			mu.Lock()
			all := true
			for _, t := range j.owners {
				if !failed[t.g] {
					all = false
				}
			}
			mu.Unlock()
			if all { // the obligation has already failed on another path
				j.res = Result{Status: "skipped"}
				return
			}
			j.res = runTool("z3-new", j.script+"(check-sat)\n", min(o.Ms, 3000))
			if j.res.Status != "unsat" && j.strs != "" {
				j.res = better(j.res, solveStr(j.strs, min(o.Ms, 8000)))
			}
			if j.res.Status != "unsat" {
				j.res = better(j.res, Solve(j.script, o.Ms, false))
			}
			if j.res.Status != "unsat" && j.full != "" {
				j.res = better(j.res, Solve(j.full, o.Ms, false))
			}
			if j.res.Status != "unsat" {
				mu.Lock()
				for _, t := range j.owners {
					failed[t.g] = true
				}
				mu.Unlock()
			}
		}(j)
	}
	wg.Wait()
	for _, j := range order {
		for _, t := range j.owners {
			t.vc.res = j.res
			t.g.Time += j.res.Dur / time.Duration(len(j.owners))
			if j.res.Status == "unsat" {
				t.g.Proved++
				t.g.Tools[j.res.Tool]++
				t.vc.ok = true
			} else if t.g.Fail == nil && j.res.Status != "skipped" {
				t.g.Fail = t.vc
				if o.DumpDir != "" {
					os.MkdirAll(o.DumpDir, 0755)
					os.WriteFile(filepath.Join(o.DumpDir, sanitizeFile(t.g.ID())+".smt2"), []byte(j.script+"(check-sat)\n"), 0644)
					if j.strs != "" {
						os.WriteFile(filepath.Join(o.DumpDir, sanitizeFile(t.g.ID())+".str.smt2"), []byte(j.strs+"(check-sat)\n"), 0644)
					}
				}
			}
		}
	}
}

func better(a, b Result) Result {
	b.Dur += a.Dur
	if b.Status == "unknown" && a.Status == "sat" {
		b.Status = a.Status
		b.Tool = a.Tool
	}
	return b
}

func solveStr(script string, ms int) Result {
	script += "(check-sat)\n"
	ch := make(chan Result, 2)
	for _, n := range []string{"cvc5", "z3-new-mbqi"} {
		go func(n string) { ch <- runTool(n, script, ms) }(n)
	}
	var best Result
	for i := 0; i < 2; i++ {
		r := <-ch
		if r.Status == "unsat" {
			return r
		}
		if best.Status == "" || r.Status == "sat" {
			best = r
		}
	}
	return best
}

func sanitizeFile(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '.' {
			return r
		}
		return '_'
	}, s)
}

func (e *Engine) dbPtrType() types.Type {
	for _, p := range e.spkgs {
		if p != nil {
			if o := p.Pkg.Scope().Lookup("Database"); o != nil {
				return types.NewPointer(o.Type())
			}
		}
	}
	panic(unsup("no Database type"))
}

// setupLocks: the receiver's lock and the types reachable from it.
func (u *Unit) setupLocks(st *State, fn *ssa.Function, args []Val) {
	t := fn.Params[0].Type()
	p := u.toPtr(args[0], t)
	q := *p
	q.Path += ".mu"
	s, ok := p.T.Underlying().(*types.Struct)
	if !ok {
		panic(unsup("locked: not a struct"))
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "mu" {
			q.T = s.Field(i).Type()
		}
	}
	u.lockRef = u.term(u.load(st, &q, q.T))
	st.assume(u.c.Lt(u.c.Int(0), u.lockRef))
	u.locks = true
	for _, g := range u.e.graphTypes(p.T) {
		u.sharedT[typeKey(g)] = true
	}
	u.sharedT[typeKey(p.T)] = true
}

// String renders a term for reports.
func (t *Term) String() string {
	p := &printer{c: nil, mode: StrAbstract, names: map[*Term]string{}, lits: map[string]string{}}
	defer func() { recover() }()
	s := p.t(t)
	for l, n := range p.lits {
		s = strings.ReplaceAll(s, n+" ", fmt.Sprintf("%q ", l))
		s = strings.ReplaceAll(s, n+")", fmt.Sprintf("%q)", l))
	}
	return s
}
