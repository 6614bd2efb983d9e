package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Cut is a loop that is verified by an invariant.
type Cut struct {
	loop    *Loop
	fn      *ssa.Function
	depth   int
	pre     *State
	phis    []*ssa.Phi
	entry   map[*ssa.Phi]Val
	hv      map[*ssa.Phi]*Term
	hregs   map[string]*Term // havoc'd regions
	hnext   *Term
	inv     []*Inv
	subst   map[*Term]*Term // havoc symbol -> pre-state value
	name    string
	backs   []*State
	exits   []*State
	variant bool
	ind     *Term  // the index of the current iteration, if there is one
	over    string // the field the loop ranges over, if it does
	effects bool   // only the effects of the body are being collected
}

type Inv struct {
	name string
	t    *Term
}

func (u *Unit) jump(st *State, to *ssa.BasicBlock) []*State {
	f := st.top()
	from := f.block
	li := u.e.loopInfo(f.fn)
	// leaving loops
	for l := range f.cuts {
		if !l.body[to] {
			ct := f.cuts[l]
			delete(f.cuts, l)
			if st.stop == ct {
				st.end = "exit"
				return nil
			}
		}
	}
	for l := range f.unroll {
		if !l.body[to] {
			delete(f.unroll, l)
		}
	}
	l := li.header[to]
	if l == nil {
		u.enter(st, from, to, nil)
		return nil
	}
	if l.body[from] {
		// back edge
		if ct, ok := f.cuts[l]; ok {
			u.enter(st, from, to, nil)
			st.end = "backedge"
			st.cut = ct
			return nil
		}
		f.unroll[l]++
		if f.unroll[l] > 70 {
			panic(unsup("loop unrolling limit"))
		}
		u.enter(st, from, to, nil)
		return nil
	}
	u.enter(st, from, to, nil)
	if u.forced(st, l) {
		f.unroll[l] = 0
		return nil
	}
	u.cutLoop(st, l)
	return nil
}

// enter moves to block 'to', evaluating its phis.
func (u *Unit) enter(st *State, from, to *ssa.BasicBlock, _ interface{}) {
	f := st.top()
	k := -1
	for i, p := range to.Preds {
		if p == from {
			k = i
		}
	}
	var vals []Val
	n := 0
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, u.eval(st, ph.Edges[k]))
		n++
	}
	for i := 0; i < n; i++ {
		f.regs[to.Instrs[i].(*ssa.Phi)] = vals[i]
	}
	f.prev = from
	f.block = to
	f.ip = n
}

// forced: the number of iterations is a small constant.
func (u *Unit) forced(st *State, l *Loop) bool {
	f := st.top()
	// the header must end in an If whose condition compares an induction variable with a literal
	h := l.head
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	var ind *ssa.Phi
	var step int64
	var off int64
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	match := func(v ssa.Value) bool {
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == h {
			ind, off = ph, 0
			return true
		}
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
			if ph, ok := b.X.(*ssa.Phi); ok && ph.Block() == h {
				if c, ok := b.Y.(*ssa.Const); ok {
					ind, off = ph, c.Int64()
					return true
				}
			}
		}
		return false
	}
	if cmp.Op != token.LSS || !match(cmp.X) {
		return false
	}
	for i, e := range ind.Edges {
		if l.body[h.Preds[i]] {
			b, ok := e.(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.X != ssa.Value(ind) {
				return false
			}
			c, ok := b.Y.(*ssa.Const)
			if !ok {
				return false
			}
			step = c.Int64()
		}
	}
	if step < 1 {
		return false
	}
	start, ok := u.term(f.regs[ind]).litInt()
	if !ok {
		return false
	}
	var bound *Term
	if c, ok := cmp.Y.(*ssa.Const); ok {
		bound = u.term(u.constVal(c))
	} else {
		if in, ok := cmp.Y.(ssa.Instruction); !ok || !l.body[in.Block()] {
			bound = u.term(u.eval(st, cmp.Y))
		} else if call, ok := cmp.Y.(*ssa.Call); ok {
			if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				// len recomputed in the header: only if its operand is defined outside
				if o, ok := call.Call.Args[0].(ssa.Instruction); !ok || !l.body[o.Block()] {
					x := u.term(u.eval(st, call.Call.Args[0]))
					if x.Sort == SSlice {
						bound = u.c.SLen(x)
					} else if x.Sort == SStr {
						bound = u.c.StrLen(x)
					}
				}
			}
		}
	}
	if bound == nil {
		return false
	}
	n, ok := bound.litInt()
	if !ok {
		// perhaps the path condition fixes it
		for k := int64(0); k <= 3; k++ {
			if st.pcset[u.c.Eq(bound, u.c.Int(k))] {
				n, ok = k, true
				break
			}
		}
		if !ok {
			return false
		}
	}
	trip := (n - start - off + step - 1) / step
	exits := 0
	for b := range l.body {
		for _, s := range b.Succs {
			if !l.body[s] {
				exits++
			}
		}
	}
	if trip <= 4 {
		return true
	}
	return trip <= 12 && exits == 1
}

// cutLoop replaces the loop by its invariant: on return st is an arbitrary iteration.
func (u *Unit) cutLoop(st *State, l *Loop) {
	c := u.c
	f := st.top()
	ct := &Cut{loop: l, fn: f.fn, depth: len(st.frames), pre: st.clone(), entry: map[*ssa.Phi]Val{}, hv: map[*ssa.Phi]*Term{}, hregs: map[string]*Term{}, subst: map[*Term]*Term{}}
	ct.name = fmt.Sprintf("%s loop %d", fnKey(f.fn), l.idx)
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ct.phis = append(ct.phis, ph)
		ct.entry[ph] = f.regs[ph]
	}
	// 1. effects
	mod := map[string]bool{}
	var wr *Writes
	allocs := false
	ct.effects = true
	for round := 0; ; round++ {
		s := ct.pre.clone()
		u.havocLoop(s, ct, mod, allocs)
		wr = &Writes{regions: map[string]map[*Term]bool{}}
		u.explore(s, ct, wr)
		grew := false
		for r := range wr.regions {
			if !mod[r] {
				mod[r] = true
				grew = true
			}
		}
		if wr.alloc && !allocs {
			allocs = true
			grew = true
		}
		if !grew {
			break
		}
		if round > 8 {
			panic(unsup("loop effects do not stabilise"))
		}
	}
	// 2. candidate invariants over the havoc symbols
	s := ct.pre.clone()
	u.havocLoop(s, ct, mod, allocs)
	wr = &Writes{regions: map[string]map[*Term]bool{}}
	backs := u.explore(s.clone(), ct, wr)
	ct.effects = false
	var cands []*Inv
	if !u.collecting(st) {
		cands = u.candidates(s, ct, wr, backs)
	}
	// candidates that failed when this loop was last analysed inside the same outer loop fail again, as a rule
	nest := u.nesting(st)
	if nest != "" {
		var k []*Inv
		for _, iv := range cands {
			if !u.failedInv[nest+ct.name+iv.name] {
				k = append(k, iv)
			}
		}
		cands = k
	}
	failed := func(iv *Inv) {
		if nest != "" {
			if u.failedInv == nil {
				u.failedInv = map[string]bool{}
			}
			u.failedInv[nest+ct.name+iv.name] = true
		}
	}
	// entry
	pre := ct.pre
	var keep []*Inv
	var goals []*query
	for _, iv := range cands {
		g := c.Subst(iv.t, ct.subst)
		q := u.mkQuery(pre.pc, g)
		q.hard = strings.HasPrefix(iv.name, "spec")
		goals = append(goals, q)
	}
	res := u.solveAll(goals, 1500)
	for i, iv := range cands {
		if res[i] {
			keep = append(keep, iv)
			continue
		}
		failed(iv)
		if u.debug {
			u.logf("loop %s: entry fails: %s: %s", ct.name, iv.name, c.Subst(iv.t, ct.subst))
			if strings.HasPrefix(iv.name, "spec") {
				for n, sc := range goals[i].scripts {
					os.WriteFile(fmt.Sprintf("/tmp/entry_%s_%d_%d.smt2", sanitizeFile(iv.name), u.houdini, n), []byte(sc+"(check-sat)\n"), 0644)
				}
			}
		}
	}
	// 3. Houdini
	for round := 0; len(keep) > 0; round++ {
		s := ct.pre.clone()
		u.havocLoop(s, ct, mod, allocs)
		for _, iv := range keep {
			s.assume(iv.t)
		}
		backs = u.explore(s, ct, &Writes{regions: map[string]map[*Term]bool{}})
		type ref struct{ i int }
		var qs []*query
		var refs []int
		for _, b := range backs {
			m := u.backSubst(b, ct)
			for i, iv := range keep {
				if m == nil {
					continue
				}
				g := c.Subst(iv.t, m)
				if g.Op == "true" || b.pcset[g] {
					continue
				}
				q := u.mkQuery(b.pc, g)
				q.hard = strings.HasPrefix(iv.name, "spec")
				qs = append(qs, q)
				refs = append(refs, i)
			}
		}
		ms := 1500
		res := u.solveAll(qs, ms)
		bad := map[int]bool{}
		for k, ok := range res {
			if !ok {
				bad[refs[k]] = true
			}
		}
		if len(bad) == 0 {
			break
		}
		var nk []*Inv
		for i, iv := range keep {
			if !bad[i] {
				nk = append(nk, iv)
				continue
			}
			failed(iv)
			if u.debug {
				u.logf("loop %s: not preserved: %s", ct.name, iv.name)
				if strings.HasPrefix(iv.name, "spec") {
					for k, x := range refs {
						if x == i && !res[k] {
							for _, sc := range qs[k].scripts {
								os.WriteFile("/tmp/inv_"+sanitizeFile(iv.name)+".smt2", []byte(sc+"(check-sat)\n"), 0644)
							}
						}
					}
				}
			}
		}
		keep = nk
		if round > 25 {
			panic(unsup("invariant inference does not stabilise"))
		}
	}
	ct.inv = keep
	u.nloops[ct.name] = len(keep)
	if u.debug {
		var ns []string
		for _, k := range keep {
			ns = append(ns, k.name)
		}
		u.logf("loop %s in %s: %d candidates, kept: %s", ct.name, fnKey(u.fn), len(cands), strings.Join(ns, "; "))
	}
	if st.writes != nil {
		for r := range mod {
			n := 0
			for b := range wr.regions[r] {
				u.noteWrite(st, r, b)
				n++
			}
			if n == 0 {
				u.noteWrite(st, r, c.Int(0))
			}
		}
		if allocs {
			st.writes.alloc = true
		}
	}
	// 4. continue from an arbitrary iteration
	u.havocLoop(st, ct, mod, allocs)
	for _, iv := range keep {
		st.assume(iv.t)
	}
	if u.panics && st.quiet == 0 {
		u.checkTermination(st, ct, backs)
	}
}

// collecting: the state belongs to a run that only collects the effects of an enclosing loop.
func (u *Unit) collecting(st *State) bool {
	for _, f := range st.frames {
		for _, ct := range f.cuts {
			if ct.effects {
				return true
			}
		}
	}
	return false
}

// nesting names the loops around the current point ("" if there are none).
func (u *Unit) nesting(st *State) string {
	n := ""
	for _, f := range st.frames {
		var ns []string
		for _, ct := range f.cuts {
			ns = append(ns, ct.name)
		}
		sort.Strings(ns)
		for _, x := range ns {
			n += x + "/"
		}
	}
	return n
}

func (u *Unit) logf(f string, a ...interface{}) {
	fmt.Printf("# "+f+"\n", a...)
}

// havocLoop sets the state to an arbitrary iteration of the loop.
func (u *Unit) havocLoop(st *State, ct *Cut, mod map[string]bool, allocs bool) {
	c := u.c
	f := st.top()
	for _, ph := range ct.phis {
		h := ct.hv[ph]
		ev := ct.entry[ph]
		et, ok := ev.(*Term)
		if !ok {
			if p, isP := ev.(*Ptr); isP {
				et = u.ptrTerm(p)
				if p.Elem || p.Path != "" {
					panic(unsup("interior pointer carried by a loop"))
				}
			} else {
				panic(unsup(fmt.Sprintf("%T carried by a loop", ev)))
			}
		}
		if h == nil {
			h = c.Fresh("it_"+phiName(ph), et.Sort)
			ct.hv[ph] = h
			ct.subst[h] = et
		}
		f.regs[ph] = h
	}
	if allocs {
		if ct.hnext == nil {
			ct.hnext = c.Fresh("next", SInt)
			c.symFact[ct.hnext] = []*Term{c.Le(ct.pre.next, ct.hnext)}
			c.lower[ct.hnext] = ct.pre.next
			ct.subst[ct.hnext] = ct.pre.next
		}
		st.next = ct.hnext
		st.assume(c.Le(ct.pre.next, ct.hnext))
	}
	for _, ph := range ct.phis {
		st.assume(u.typeFact(ct.hv[ph], ph.Type(), st.next))
		st.assume(u.sliceWF(ct.hv[ph]))
		st.assume(u.ifaceFact(ct.hv[ph], ph.Type()))
	}
	var names []string
	for r := range mod {
		names = append(names, r)
	}
	sort.Strings(names)
	for _, r := range names {
		h := ct.hregs[r]
		if h == nil {
			ri := u.reginfo[r]
			h = c.Fresh("Hl:"+r, ri.sort)
			ct.hregs[r] = h
			pv, ok := ct.pre.heap[r]
			if !ok {
				pv = u.initOf(r)
			}
			ct.subst[h] = pv
		}
		if ri := u.reginfo[r]; ri.kind == "" {
			u.registerBase(h, ri, st.next)
		}
		st.heap[r] = h
	}
	f.cuts[ct.loop] = ct
}

func (u *Unit) sliceWF(x *Term) *Term {
	c := u.c
	if x.Sort != SSlice {
		return c.True
	}
	nonneg := c.True
	if l := c.SLen(x); l.Op == "slen" && l.bv {
		nonneg = c.mk(&Term{Op: "<=", Args: []*Term{c.Int(0), l}, Sort: SBool})
	}
	return c.And(nonneg, c.Le(c.Int(0), c.SLen(x)), c.Le(c.SLen(x), c.SCap(x)), c.Le(c.Int(0), c.SOff(x)),
		c.Implies(c.Eq(c.SBase(x), c.Int(0)), c.Eq(x, c.NilSlice())))
}

func phiName(ph *ssa.Phi) string {
	if ph.Comment != "" {
		return ph.Comment
	}
	return ph.Name()
}

// explore runs the loop body once from s (quietly) and returns the back-edge states.
func (u *Unit) explore(s *State, ct *Cut, wr *Writes) []*State {
	s.quiet++
	s.stop = ct
	s.depth = ct.depth
	s.writes = wr
	s.branch = nil
	lock, held := s.lock, len(s.held)
	outs := u.run(s)
	var backs []*State
	for _, o := range outs {
		switch o.end {
		case "backedge":
			if o.lock != lock || len(o.held) != held {
				panic(unsup("a loop iteration changes whether the lock is held"))
			}
			if o.cut == ct {
				backs = append(backs, o)
			}
		case "unsup":
			panic(unsup(o.reason))
		}
	}
	return backs
}

// backSubst maps the havoc symbols to the values at the end of an iteration.
func (u *Unit) backSubst(b *State, ct *Cut) map[*Term]*Term {
	m := map[*Term]*Term{}
	f := b.frames[ct.depth-1]
	for _, ph := range ct.phis {
		m[ct.hv[ph]] = u.term(f.regs[ph])
	}
	for r, h := range ct.hregs {
		if v, ok := b.heap[r]; ok {
			m[h] = v
		}
	}
	if ct.hnext != nil {
		m[ct.hnext] = b.next
	}
	return m
}

type query struct {
	scripts []string
	static  int  // 1 proved, -1 false
	hard    bool // ask the other solvers too
	modes   []StrMode
}

func (u *Unit) mkQuery(hyps []*Term, goal *Term) *query {
	if goal.Op == "true" {
		return &query{static: 1}
	}
	q := &query{}
	for _, g := range conjuncts(goal) {
		as := append(append([]*Term(nil), u.relevant(hyps, g)...), u.c.Not(g))
		q.scripts = append(q.scripts, u.c.Script(as, StrAbstract, true))
	}
	return q
}

// solveAll decides queries in parallel with one solver and a short limit.
func (u *Unit) solveAll(qs []*query, ms int) []bool {
	out := make([]bool, len(qs))
	var wg sync.WaitGroup
	for i, q := range qs {
		if q.static != 0 {
			out[i] = q.static == 1
			continue
		}
		wg.Add(1)
		go func(i int, q *query) {
			defer wg.Done()
			for _, s := range q.scripts {
				ok := false
				turns := []struct {
					tool string
					ms   int
				}{{"z3-new", ms}}
				if q.hard {
					turns[0].ms = ms / 4
					turns = append(turns, turns[0], turns[0], turns[0])
					turns[1].tool, turns[1].ms = "z3", ms
					turns[2].tool, turns[2].ms = "cvc5", ms
					turns[3].ms = ms
				}
				for _, t := range turns {
					r := runTool(t.tool, s+"(check-sat)\n", t.ms)
					if r.Status == "unsat" {
						ok = true
					}
					if r.Status != "unknown" {
						break
					}
				}
				if !ok {
					return
				}
			}
			out[i] = true
		}(i, q)
	}
	wg.Wait()
	u.houdini += len(qs)
	return out
}

// candidates generates invariant candidates from the shape of the loop and its effects.
func (u *Unit) candidates(s *State, ct *Cut, wr *Writes, backs []*State) []*Inv {
	c := u.c
	var out []*Inv
	add := func(name string, t *Term) {
		if t == nil || t.Op == "true" || t.Op == "false" {
			return
		}
		for _, o := range out {
			if o.t == t {
				return
			}
		}
		out = append(out, &Inv{name, t})
	}
	havoc := map[*Term]bool{}
	for _, h := range ct.hv {
		havoc[h] = true
	}
	for _, h := range ct.hregs {
		havoc[h] = true
	}
	if ct.hnext != nil {
		havoc[ct.hnext] = true
	}
	// induction variables
	var ind *Term // index of the current iteration (last completed one)
	var indIsRange bool
	var down *Term // index that counts downwards
	f := s.top()
	for _, ph := range ct.phis {
		h := ct.hv[ph]
		et := ct.subst[h]
		switch h.Sort {
		case SInt:
			if _, isPtr := ph.Type().Underlying().(*types.Pointer); isPtr {
				add(phiName(ph)+" = entry", c.Eq(h, et))
				add(phiName(ph)+" != nil", c.Not(c.Eq(h, c.Int(0))))
				continue
			}
			add(phiName(ph)+" >= entry", c.Le(et, h))
			add(phiName(ph)+" <= entry", c.Le(h, et))
			// increases by one?
			inc := len(backs) > 0
			for _, b := range backs {
				nv := u.term(b.frames[ct.depth-1].regs[ph])
				if nv != c.Add(h, c.Int(1)) {
					inc = false
				}
			}
			if inc && (ind == nil || down != nil || ph.Comment == "rangeindex") {
				ind, down = h, nil
				indIsRange = et.isInt(-1)
			}
			dec := len(backs) > 0 && ind == nil
			for _, b := range backs {
				dec = dec && u.term(b.frames[ct.depth-1].regs[ph]) == c.Sub(h, c.Int(1))
			}
			if dec {
				ind, down = h, h
			}
		case SBool:
			add(phiName(ph)+" = entry", c.Eq(h, et))
		case SSlice:
			add(phiName(ph)+" = entry", c.Eq(h, et))
			add(phiName(ph)+" fresh", c.Or(c.Eq(h, et), c.Le(ct.pre.next, c.SBase(h))))
			add(phiName(ph)+" fresh or nil", c.Or(c.Eq(c.SBase(h), c.Int(0)), c.Le(ct.pre.next, c.SBase(h))))
			add(phiName(ph)+" fresh or entry base", c.Or(c.Eq(c.SBase(h), c.SBase(et)), c.Le(ct.pre.next, c.SBase(h))))
			add(phiName(ph)+" not nil", c.Lt(c.Int(0), c.SBase(h)))
			add(phiName(ph)+" off", c.Eq(c.SOff(h), c.SOff(et)))
			add(phiName(ph)+" len>=", c.Le(c.SLen(et), c.SLen(h)))
		default:
			add(phiName(ph)+" = entry", c.Eq(h, et))
		}
	}
	// done: position j belongs to a completed iteration of a loop that starts at lo
	done := func(lo, j *Term) *Term {
		if down != nil {
			return c.And(c.Lt(ind, j), c.Le(j, lo))
		}
		return c.And(c.Le(lo, j), c.Lt(j, ind))
	}
	// bounds from the header condition
	for _, in := range ct.loop.head.Instrs {
		cmp, ok := in.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch cmp.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
		default:
			continue
		}
		hs := s.clone()
		hs.quiet++
		x, y, ok := u.headOperands(hs, ct, cmp)
		if !ok || x.Sort != SInt {
			continue
		}
		for _, t := range []*Term{x, y} {
			if t.Op == "slen" && t.Args[0].Op == "select" {
				ct.over = t.Args[0].Args[0].String()
			}
		}
		for _, pr := range [][2]*Term{{x, y}, {y, x}} {
			a, b := pr[0], pr[1]
			add("bound", c.Le(a, b))
			add("bound-1", c.Le(c.Sub(a, c.Int(1)), b))
			_ = b
		}
	}
	_ = f
	// literal bounds from comparisons in the body
	for _, ph := range ct.phis {
		h := ct.hv[ph]
		if h.Sort != SInt {
			continue
		}
		for _, r := range *ph.Referrers() {
			if b, ok := r.(*ssa.BinOp); ok {
				if k, ok := b.Y.(*ssa.Const); ok && b.X == ssa.Value(ph) {
					switch b.Op {
					case token.GTR, token.LSS, token.GEQ, token.LEQ:
						add("limit", c.Le(h, c.Int(k.Int64()+1)))
						add("limit", c.Le(c.Int(k.Int64()-1), h))
					}
				}
			}
		}
		// len(x) relations between counters and slices
		for _, ph2 := range ct.phis {
			h2 := ct.hv[ph2]
			if h2.Sort == SSlice {
				d := c.Sub(c.SLen(ct.subst[h2]), ct.subst[h])
				add("len="+phiName(ph), c.Eq(c.SLen(h2), c.Add(h, d)))
				add("len<="+phiName(ph), c.Le(c.SLen(h2), c.Add(h, d)))
			}
		}
	}
	// relations between int counters
	for _, p1 := range ct.phis {
		for _, p2 := range ct.phis {
			h1, h2 := ct.hv[p1], ct.hv[p2]
			if p1 != p2 && h1.Sort == SInt && h2.Sort == SInt && isIntT(p1.Type()) && isIntT(p2.Type()) && h1.id < h2.id {
				d := c.Sub(ct.subst[h1], ct.subst[h2])
				add("diff", c.Eq(h1, c.Add(h2, d)))
			}
		}
	}
	// frames of modified regions
	var regs []string
	for r := range ct.hregs {
		regs = append(regs, r)
	}
	sort.Strings(regs)
	for _, r := range regs {
		h := ct.hregs[r]
		pv := ct.subst[h]
		ri := u.reginfo[r]
		if ri.nest == 0 {
			add("G "+r+" unchanged", c.Eq(h, pv))
			continue
		}
		x := c.FreshBVar("x", SInt)
		old := c.Lt(x, ct.pre.next)
		same := c.Eq(c.Select(h, x), c.Select(pv, x))
		pat := []*Term{c.Select(h, x)}
		add("unchanged "+r, c.Eq(h, pv))
		add("frame(fresh) "+r, c.Forall([]*Term{x}, c.Implies(old, same), pat))
		// targets
		var inv []*Term
		variant := false
		var vars []*Term
		for b := range wr.regions[r] {
			for _, a := range iteLeaves(b) {
				if !contains(a, havoc) {
					inv = append(inv, a)
				} else if lo := u.freshBase(a, ct); !lo {
					variant = true
					vars = append(vars, a)
				}
			}
		}
		sort.Slice(inv, func(i, j int) bool { return inv[i].id < inv[j].id })
		if len(inv) > 0 {
			var ne []*Term
			for _, a := range inv {
				ne = append(ne, c.Not(c.Eq(x, a)))
			}
			add("frame "+r, c.Forall([]*Term{x}, c.Implies(c.And(append(ne, old)...), same), pat))
		}
		if variant {
			// slice accumulators with an old base: everything else keeps its value
			var ne []*Term
			for _, a := range inv {
				ne = append(ne, c.Not(c.Eq(x, a)))
			}
			for _, ph := range ct.phis {
				if ct.hv[ph].Sort == SSlice {
					ne = append(ne, c.Not(c.Eq(x, c.SBase(ct.subst[ct.hv[ph]]))))
				}
			}
			add("frame(acc) "+r, c.Forall([]*Term{x}, c.Implies(c.And(append(ne, old)...), same), pat))
			// objects reached through the iteration: x is one of those visited
			if ind != nil {
				var ne2 []*Term
				ne2 = append(ne2, ne...)
				okv := true
				for _, a := range vars {
					set := map[*Term]bool{ind: true}
					if !contains(a, set) {
						okv = false
						break
					}
					hv2 := map[*Term]bool{}
					for k := range havoc {
						if k != ind {
							hv2[k] = true
						}
					}
					if contains(a, hv2) {
						okv = false
						break
					}
					j := c.FreshBVar("j", SInt)
					// at iteration ind the body uses position ind+1 (range loops) or ind
					at := c.Subst(a, map[*Term]*Term{ind: c.Add(j, c.Int(0))})
					lo := ct.subst[ind]
					ne2 = append(ne2, c.Forall([]*Term{j}, c.Implies(done(lo, j), c.Not(c.Eq(x, at)))))
				}
				if okv {
					add("frame(visited) "+r, c.Forall([]*Term{x}, c.Implies(c.And(append(ne2, old)...), same), pat))
				}
			}
		}
		// cells of loop-invariant targets: same candidates as for phis
		for _, a := range inv {
			cell := c.Select(h, a)
			pcell := c.Select(pv, a)
			switch cell.Sort {
			case SSlice:
				add("cell fresh "+r, c.Or(c.Eq(cell, pcell), c.Le(ct.pre.next, c.SBase(cell))))
				add("cell fresh2 "+r, c.Or(c.Eq(c.SBase(cell), c.SBase(pcell)), c.Le(ct.pre.next, c.SBase(cell))))
				add("cell fresh3 "+r, c.Or(c.Eq(c.SBase(cell), c.Int(0)), c.Le(ct.pre.next, c.SBase(cell))))
				add("cell off "+r, c.Eq(c.SOff(cell), c.SOff(pcell)))
				add("cell wf "+r, u.sliceWF(cell))
				add("cell next "+r, c.Lt(c.SBase(cell), s.next))
				for _, r2 := range regs {
					h2 := ct.hregs[r2]
					if _, to := arrPartsOK(h2.Sort); to == SInt && u.reginfo[r2].nest == 1 && isIntT(u.reginfo[r2].typ) {
						cell2 := c.Select(h2, a)
						d := c.Sub(c.SLen(pcell), c.Select(ct.subst[h2], a))
						add("cell len/count", c.Eq(c.SLen(cell), c.Add(cell2, d)))
					}
				}
				if ind != nil {
					d := c.Sub(c.SLen(pcell), ct.subst[ind])
					add("cell len "+r, c.Eq(c.SLen(cell), c.Add(ind, d)))
					add("cell len<= "+r, c.Le(c.SLen(cell), c.Add(ind, d)))
				}
				add("cell len>= "+r, c.Le(c.SLen(pcell), c.SLen(cell)))
			case SInt, SBool, SStr, SIface, STime:
				add("cell = "+r, c.Eq(cell, pcell))
				if cell.Sort == SInt {
					add("cell >= "+r, c.Le(pcell, cell))
				}
			}
		}
	}
	// search loops: every completed iteration took a continuing path
	if ind != nil && len(backs) > 0 {
		j := c.FreshBVar("j", SInt)
		first := ct.subst[ind]
		var alts []*Term
		ok := true
		hv2 := map[*Term]bool{}
		for k := range havoc {
			if k != ind {
				hv2[k] = true
			}
		}
		for _, b := range backs {
			var cs []*Term
			for _, d := range b.branch {
				if contains(d, hv2) {
					continue
				}
				if !onlyOld(d, s, ct) {
					continue
				}
				if contains(d, map[*Term]bool{ind: true}) {
					cs = append(cs, c.Subst(d, map[*Term]*Term{ind: j}))
				}
			}
			alts = append(alts, c.And(cs...))
		}
		cond := c.Or(alts...)
		if ok && cond.Op != "true" {
			lo := first
			body := c.Implies(done(lo, j), cond)
			// shift so that the position read is a plain variable
			if indIsRange {
				k := c.FreshBVar("k", SInt)
				body = c.Subst(body, map[*Term]*Term{j: c.Sub(k, c.Int(1))})
				add("searched", c.Forall([]*Term{k}, body, u.patsFor(body, k)...))
			} else {
				add("searched", c.Forall([]*Term{j}, body, u.patsFor(body, j)...))
			}
		}
		// each alternative's conjunct that is common to all back edges
		if len(alts) > 1 {
			common := conjuncts(alts[0])
			for _, a := range alts[1:] {
				set := map[*Term]bool{}
				for _, x := range conjuncts(a) {
					set[x] = true
				}
				var k []*Term
				for _, x := range common {
					if set[x] {
						k = append(k, x)
					}
				}
				common = k
			}
			for _, x := range common {
				body := c.Implies(done(first, j), x)
				if indIsRange {
					k := c.FreshBVar("k", SInt)
					body = c.Subst(body, map[*Term]*Term{j: c.Sub(k, c.Int(1))})
					add("searched-part", c.Forall([]*Term{k}, body, u.patsFor(body, k)...))
				} else {
					add("searched-part", c.Forall([]*Term{j}, body, u.patsFor(body, j)...))
				}
			}
		}
	}
	// flags: set exactly if some completed iteration took a path that sets it
	if ind != nil {
		j := c.FreshBVar("j", SInt)
		lo := ct.subst[ind]
		hv2 := map[*Term]bool{}
		for k := range havoc {
			if k != ind {
				hv2[k] = true
			}
		}
	flags:
		for _, ph := range ct.phis {
			h := ct.hv[ph]
			if h.Sort != SBool {
				continue
			}
			var alts []*Term
			for _, b := range backs {
				nv := u.term(b.frames[ct.depth-1].regs[ph])
				set, ok := u.setCond(nv, h)
				if !ok {
					continue flags
				}
				if set.Op == "false" {
					continue
				}
				cs := []*Term{set}
				for _, d := range b.branch {
					if contains(d, map[*Term]bool{ind: true}) && !contains(d, hv2) && onlyOld(d, s, ct) {
						cs = append(cs, d)
					}
				}
				alts = append(alts, c.And(cs...))
			}
			cond := c.Or(alts...)
			if len(alts) == 0 || contains(cond, hv2) {
				continue
			}
			cond = c.Subst(cond, map[*Term]*Term{ind: j})
			rng := done(lo, j)
			v := j
			some := c.And(rng, cond)
			none := c.Implies(rng, c.Not(cond))
			if indIsRange {
				k := c.FreshBVar("k", SInt)
				m := map[*Term]*Term{j: c.Sub(k, c.Int(1))}
				some, none, v = c.Subst(some, m), c.Subst(none, m), k
			}
			add("flag set by an iteration", c.Implies(h, c.Or(ct.subst[h], c.Exists([]*Term{v}, some))))
			add("flag set by every such iteration", c.Or(h, c.And(c.Not(ct.subst[h]), c.Forall([]*Term{v}, none, u.patsFor(none, v)...))))
		}
	}
	// invariants from the specification
	if ind != nil {
		ct.ind = ind
		if indIsRange {
			ct.ind = c.Add(ind, c.Int(1))
		}
	}
	for _, iv := range u.specCandidates(s, ct, wr, ind, indIsRange) {
		add(iv.name, iv.t)
	}
	return out
}

func isIntT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func arrPartsOK(s Sort) (Sort, Sort) {
	if !s.isArr() {
		return "", ""
	}
	return arrParts(s)
}

func iteLeaves(t *Term) []*Term {
	if t.Op == "ite" {
		return append(iteLeaves(t.Args[1]), iteLeaves(t.Args[2])...)
	}
	return []*Term{t}
}

// freshBase: the written base was allocated inside the loop.
func (u *Unit) freshBase(a *Term, ct *Cut) bool {
	if ct.hnext == nil {
		return false
	}
	d := u.c.lin(u.c.Sub(a, ct.hnext))
	return len(d.coef) == 0 && d.c.Cmp(big.NewInt(0)) >= 0
}

// onlyOld: the term uses no symbol that was created inside the loop body.
func onlyOld(t *Term, s *State, ct *Cut) bool {
	ok := true
	seen := map[*Term]bool{}
	limit := 0
	for _, h := range ct.hv {
		if h.id > limit {
			limit = h.id
		}
	}
	for _, h := range ct.hregs {
		if h.id > limit {
			limit = h.id
		}
	}
	if ct.hnext != nil && ct.hnext.id > limit {
		limit = ct.hnext.id
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !ok {
			return
		}
		seen[t] = true
		if t.Op == "sym" && t.id > limit && !strings.HasPrefix(t.Name, "H0:") && !strings.HasPrefix(t.Name, "time_zero") {
			ok = false
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return ok
}

// patsFor picks triggers: element reads at the quantified position.
func (u *Unit) patsFor(body *Term, v *Term) [][]*Term {
	var best []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "forall" || t.Op == "exists" {
			return
		}
		if t.Op == "select" {
			i := t.Args[1]
			if i == v && !t.Args[0].fv[v] {
				best = append(best, t)
			} else if i.Op == "app" && i.Name == "idx" && i.Args[1] == v && !t.Args[0].fv[v] {
				best = append(best, t)
			}
		}
		if t.Op == "app" && t.fv[v] {
			for _, a := range t.Args {
				if a == v && t.Name != "idx" && len(t.fv) == 1 {
					best = append(best, t)
				}
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(body)
	var out [][]*Term
	done := map[*Term]bool{}
	for _, b := range best {
		if !done[b] {
			done[b] = true
			out = append(out, []*Term{b})
		}
	}
	return out
}

// headOperands evaluates the operands of a comparison in the loop header in the havoc'd state.
func (u *Unit) headOperands(st *State, ct *Cut, cmp *ssa.BinOp) (x, y *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupErr); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	f := st.top()
	for f.ip < len(f.block.Instrs) {
		in := f.block.Instrs[f.ip]
		if in == ssa.Instruction(cmp) {
			return u.term(u.eval(st, cmp.X)), u.term(u.eval(st, cmp.Y)), true
		}
		switch in.(type) {
		case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.TypeAssert, *ssa.Next:
			return nil, nil, false
		}
		if more := u.step(st); len(more) > 0 || st.end != "" {
			return nil, nil, false
		}
		if st.top() != f {
			return nil, nil, false
		}
	}
	return nil, nil, false
}

// checkTermination records the obligation that the loop ends.
func (u *Unit) checkTermination(st *State, ct *Cut, backs []*State) {
	c := u.c
	if len(backs) == 0 {
		return
	}
	// map iteration ends because every step visits a new key
	for _, in := range ct.loop.head.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return
		}
	}
	// a counter that every iteration increases and that is bounded
	var goals []*Term
	for _, ph := range ct.phis {
		h := ct.hv[ph]
		if h.Sort != SInt || !isIntT(ph.Type()) {
			continue
		}
		inc, dec := true, true
		for _, b := range backs {
			nv := u.term(b.frames[ct.depth-1].regs[ph])
			d := c.lin(c.Sub(nv, h))
			if len(d.coef) != 0 || d.c.Sign() <= 0 {
				inc = false
			}
			if len(d.coef) != 0 || d.c.Sign() >= 0 {
				dec = false
			}
		}
		// an upper bound that does not change
		hs := map[*Term]bool{}
		for _, x := range ct.hv {
			hs[x] = true
		}
		for _, x := range ct.hregs {
			hs[x] = true
		}
		for _, iv := range ct.inv {
			if iv.t.Op != "<=" && iv.t.Op != "<" {
				continue
			}
			lo, hi := iv.t.Args[0], iv.t.Args[1]
			if inc && contains(lo, map[*Term]bool{h: true}) && !contains(hi, hs) {
				return
			}
			if dec && contains(hi, map[*Term]bool{h: true}) && !contains(lo, hs) {
				return
			}
		}
		// the header condition bounds it
		if inc || dec {
			for _, b := range backs {
				_ = b
			}
			hb := true
			for _, b := range backs {
				found := false
				for _, d := range b.branch {
					if d.Op == "<=" || d.Op == "<" {
						if inc && contains(d.Args[0], map[*Term]bool{h: true}) && !contains(d.Args[1], hs) {
							found = true
						}
						if dec && contains(d.Args[1], map[*Term]bool{h: true}) && !contains(d.Args[0], hs) {
							found = true
						}
					}
				}
				if !found {
					hb = false
				}
			}
			if hb {
				return
			}
		}
	}
	goals = append(goals, c.False)
	u.obls = append(u.obls, &Obl{Name: "termination of " + ct.name, Kind: "term", Pos: fnKey(ct.fn), Hyps: st.pc, Goal: goals[0], Fn: fnKey(u.fn)})
}

// setCond: the condition under which a flag that held h becomes set; not ok if it may be cleared.
func (u *Unit) setCond(nv, h *Term) (*Term, bool) {
	c := u.c
	if nv == h {
		return c.False, true
	}
	if !contains(nv, map[*Term]bool{h: true}) {
		if nv.Op == "true" {
			return c.True, true
		}
		return nil, false
	}
	switch nv.Op {
	case "or":
		var ds []*Term
		for _, a := range nv.Args {
			d, ok := u.setCond(a, h)
			if a != h && !contains(a, map[*Term]bool{h: true}) {
				d, ok = a, true
			}
			if !ok {
				return nil, false
			}
			ds = append(ds, d)
		}
		return c.Or(ds...), true
	case "ite":
		a, ok1 := u.setCond(nv.Args[1], h)
		b, ok2 := u.setCond(nv.Args[2], h)
		if !ok1 || !ok2 {
			return nil, false
		}
		return c.Or(c.And(nv.Args[0], a), c.And(c.Not(nv.Args[0]), b)), true
	}
	return nil, false
}
