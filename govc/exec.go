package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obl is one proof obligation.
type Obl struct {
	Name   string
	Kind   string // ensures, panic, frame, requires, term, lock, guard
	Labels []string
	Pos    string
	Hyps   []*Term
	Goal   *Term
	Trace  []string
	Result Result
	Ms     int
	Fn     string
}

// Unit is the verification of one function.
type Unit struct {
	e            *Engine
	c            *Ctx
	fn           *ssa.Function
	spec         *FuncSpec
	g            *Ground
	obls         []*Obl
	reginfo      map[string]regionInfo
	regorder     []string
	init0        map[string]*Term
	next0        *Term
	states       int
	steps        int
	maxState     int
	labels       map[string]bool // properties being decided
	panics       bool            // record panic obligations
	locks        bool            // track the database lock
	syncs        bool            // track the locks of package variables
	prop         string
	failedInv    map[string]bool
	maptypes     map[string]types.Type
	noContr      map[string]bool // contracts not to be used (failed lemmas)
	trusted      map[string]bool // external functions used
	used         map[string]bool // contracts used at call sites
	inlined      map[string]bool
	assumed      map[string]bool
	feasMemo     map[string]bool
	houdini      int
	deadline     time.Time
	entry        *State
	loopLog      []string
	exitDom      map[string]bool
	nloops       map[string]int
	debug        bool
	lockRef      *Term
	args         []Val
	sharedT      map[string]bool
	lemma        bool // a helper contract is being verified
	lockOK       int
	statErr      []*Term
	jsonVals     map[*Term]bool
	decodeAssume []func(st *State, db, old *Term)
}

func NewUnit(e *Engine, fn *ssa.Function) *Unit {
	c := NewCtx()
	u := &Unit{e: e, c: c, fn: fn, reginfo: map[string]regionInfo{}, init0: map[string]*Term{}, maxState: 6000,
		labels: map[string]bool{}, maptypes: map[string]types.Type{}, noContr: map[string]bool{}, trusted: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{}, assumed: map[string]bool{}, feasMemo: map[string]bool{}, nloops: map[string]int{}, jsonVals: map[*Term]bool{}, sharedT: map[string]bool{}}
	u.next0 = c.Sym("next0", SInt)
	c.symFact[u.next0] = []*Term{c.Le(c.Int(1000), u.next0)}
	u.debug = os.Getenv("GOVC_TRACE") != ""
	return u
}

func (u *Unit) newState() *State {
	st := &State{heap: map[string]*Term{}, next: u.next0, pcset: map[*Term]bool{}, ghost: map[string]*Term{}}
	st.assume(u.c.Le(u.c.Int(1000), u.next0))
	return st
}

func (u *Unit) newFrame(fn *ssa.Function, args []Val, dest ssa.Value) *Frame {
	f := &Frame{fn: fn, block: fn.Blocks[0], regs: map[ssa.Value]Val{}, dest: dest, cuts: map[*Loop]*Cut{}, unroll: map[*Loop]int{}}
	for i, p := range fn.Params {
		f.regs[p] = args[i]
	}
	return f
}

// run explores all paths from st until the base frame (depth base) ends.
func (u *Unit) run(st *State) []*State {
	work := []*State{st}
	var done []*State
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		for s.end == "" {
			more := u.stepSafe(s)
			work = append(work, more...)
			u.steps++
		}
		if s.end != "dead" {
			done = append(done, s)
		}
		u.states++
		if u.states > u.maxState {
			panic(unsup("too many paths"))
		}
		if !u.deadline.IsZero() && time.Now().After(u.deadline) {
			panic(unsup("time budget exhausted"))
		}
	}
	return done
}

func (u *Unit) stepSafe(s *State) (more []*State) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(unsupErr); ok {
				if e.msg == "too many paths" || e.msg == "time budget exhausted" {
					panic(r)
				}
				s.end = "unsup"
				s.reason = e.msg
				if len(s.frames) > 0 {
					s.reason += " in " + fnKey(s.top().fn)
				}
				return
			}
			panic(r)
		}
	}()
	return u.step(s)
}

// feasible asks whether the ground part of the path condition is satisfiable.
func (u *Unit) feasible(st *State, extra *Term) bool {
	if extra.Op == "false" || st.pcset[u.c.Not(extra)] {
		return false
	}
	if extra.Op == "true" || st.pcset[extra] {
		return true
	}
	var as []*Term
	for _, t := range st.pc {
		if t.qf {
			as = append(as, t)
		}
	}
	as = u.cone(as, extra)
	as = append(as, extra)
	var key strings.Builder
	for _, a := range as {
		fmt.Fprintf(&key, "%d,", a.id)
	}
	if r, ok := u.feasMemo[key.String()]; ok {
		return r
	}
	if u.g == nil {
		u.g = NewGround()
	}
	mode := StrAbstract
	script := u.c.ScriptQ(as, mode)
	r, _ := u.g.ask(script, 400)
	res := r != "unsat"
	if res && needsStrings([]*Term{extra}) {
		script = u.c.ScriptQ(as, StrTheory)
		r, _ = u.g.ask(script, 400)
		res = r != "unsat"
	}
	u.feasMemo[key.String()] = res
	return res
}

func needsStrings(as []*Term) bool {
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == "app" {
			switch t.Name {
			case "prefixof", "contains", "substr", "strbyte", "suffixof":
				return true
			}
			if strings.HasPrefix(t.Name, "inre:") {
				return true
			}
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	for _, a := range as {
		if walk(a) {
			return true
		}
	}
	return false
}

// cone keeps the facts connected to the goal by shared symbols.
func (u *Unit) cone(as []*Term, goal *Term) []*Term {
	set := u.c.syms(goal)
	in := make([]bool, len(as))
	for changed := true; changed; {
		changed = false
		for i, a := range as {
			if in[i] {
				continue
			}
			s := u.c.syms(a)
			hit := len(s) == 0
			for x := range s {
				if set[x] {
					hit = true
					break
				}
			}
			if hit {
				in[i] = true
				changed = true
				for x := range s {
					set[x] = true
				}
			}
		}
	}
	var out []*Term
	for i, a := range as {
		if in[i] {
			out = append(out, a)
		}
	}
	return out
}

// syms returns the non-heap symbols of a term (a fresh copy).
func (c *Ctx) syms(t *Term) map[*Term]bool {
	out := map[*Term]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "sym" && !strings.HasPrefix(t.Name, "next0") {
			out[t] = true
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(t)
	return out
}

func (u *Unit) pos(in ssa.Instruction) string {
	p := in.Pos()
	if !p.IsValid() {
		return fnKey(in.Parent())
	}
	q := u.e.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, u.e.repo+"/"), q.Line)
}

// branchOn splits a state on a condition. Either result may be nil.
func (u *Unit) branchOn(st *State, cond *Term, note string) (t, f *State) {
	if cond.Op == "true" {
		return st, nil
	}
	if cond.Op == "false" {
		return nil, st
	}
	n := u.c.Not(cond)
	ft := u.feasible(st, cond)
	ff := true
	if ft {
		ff = u.feasible(st, n)
	}
	if ft && !ff {
		st.assume(cond)
		return st, nil
	}
	if !ft {
		st.assume(n)
		return nil, st
	}
	o := st.clone()
	st.assume(cond)
	st.branch = append(st.branch, cond)
	st.trace = append(st.trace, note+" [true]")
	o.assume(n)
	o.branch = append(o.branch, n)
	o.trace = append(o.trace, note+" [false]")
	return st, o
}

// check records an obligation that must hold here, then assumes it.
func (u *Unit) check(st *State, kind, name string, in ssa.Instruction, goal *Term) {
	if goal.Op == "true" || st.pcset[goal] {
		return
	}
	if kind == "panic" && !u.panics || st.quiet > 0 {
		st.assume(goal)
		return
	}
	pos := ""
	if in != nil {
		pos = u.pos(in)
	}
	u.obls = append(u.obls, &Obl{Name: name, Kind: kind, Pos: pos, Hyps: append([]*Term(nil), st.pc...), Goal: goal, Trace: append([]string(nil), st.trace...), Fn: fnKey(u.fn)})
	st.assume(goal)
}

func (u *Unit) eval(st *State, v ssa.Value) Val {
	c := u.c
	switch v := v.(type) {
	case *ssa.Const:
		return u.constVal(v)
	case *ssa.Global:
		ref := u.e.gref[v]
		t := derefType(v.Type())
		if ref == 0 {
			return &Ptr{Base: c.App("extglobal:"+v.String(), SInt), Root: t, T: t}
		}
		return &Ptr{Base: c.Int(ref), Root: t, T: t}
	case *ssa.Function:
		return &FuncV{Fn: v}
	case *ssa.Builtin:
		return v
	}
	r, ok := st.top().regs[v]
	if !ok {
		panic(unsup("no value for " + v.Name() + " " + v.String()))
	}
	return r
}

func (u *Unit) constVal(v *ssa.Const) Val {
	c := u.c
	t := v.Type()
	if v.Value == nil {
		return u.zeroVal(t)
	}
	switch constant.Val(v.Value); v.Value.Kind() {
	case constant.Bool:
		return c.Bool(constant.BoolVal(v.Value))
	case constant.String:
		return c.Str(constant.StringVal(v.Value))
	case constant.Int, constant.Float:
		if s, _ := sortOf(t); s == SReal {
			r, _ := new(big.Rat).SetString(constant.ToFloat(v.Value).ExactString())
			return c.RealLit(r)
		}
		i, ok := new(big.Int).SetString(constant.ToInt(v.Value).ExactString(), 10)
		if !ok {
			panic(unsup("constant " + v.String()))
		}
		return c.BigInt(i)
	}
	panic(unsup("constant " + v.String()))
}

func (u *Unit) set(st *State, v ssa.Value, x Val) { st.top().regs[v] = x }

func (u *Unit) nilCheck(st *State, p *Ptr, in ssa.Instruction) {
	if p.Elem || p.Path != "" {
		return
	}
	if p.Base.Op == "int" && p.Base.Int.Sign() < 0 {
		return
	}
	u.check(st, "panic", "nil pointer dereference", in, u.c.Not(u.c.Eq(p.Base, u.c.Int(0))))
}

func (u *Unit) step(st *State) []*State {
	c := u.c
	f := st.top()
	if f.ip >= len(f.block.Instrs) {
		panic(unsup("fell off block"))
	}
	in := f.block.Instrs[f.ip]
	f.ip++
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		// evaluated by jump
	case *ssa.Alloc:
		t := derefType(in.Type())
		r := u.newObj(st, t)
		u.set(st, in, r)
		if typeKey(t) == "strings.Builder" || typeKey(t) == "bytes.Buffer" {
			u.setGhostStr(st, "G:builder", r, c.Str(""))
		}
	case *ssa.UnOp:
		return u.unop(st, in)
	case *ssa.BinOp:
		x, y := u.eval(st, in.X), u.eval(st, in.Y)
		u.set(st, in, u.binop(st, in.Op, x, y, in.X.Type(), in.Type(), in))
	case *ssa.FieldAddr:
		p := u.toPtr(u.eval(st, in.X), in.X.Type())
		u.nilCheck(st, p, in)
		stt := p.T.Underlying().(*types.Struct)
		fl := stt.Field(in.Field)
		q := *p
		q.Path = p.Path + "." + fl.Name()
		q.T = fl.Type()
		u.set(st, in, &q)
	case *ssa.Field:
		sv := u.eval(st, in.X).(*StructV)
		stt := sv.T.Underlying().(*types.Struct)
		fl := stt.Field(in.Field)
		u.set(st, in, fieldOf(sv, "."+fl.Name(), fl.Type()))
	case *ssa.IndexAddr:
		idx := u.term(u.eval(st, in.Index))
		xv := u.eval(st, in.X)
		if sl, ok := in.X.Type().Underlying().(*types.Slice); ok {
			s := u.term(xv)
			u.check(st, "panic", "index out of range", in, c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.SLen(s))))
			u.set(st, in, &Ptr{Elem: true, Base: c.SBase(s), Idx: c.Idx(c.SOff(s), idx), Root: sl.Elem(), T: sl.Elem()})
			break
		}
		p := u.toPtr(xv, in.X.Type())
		at, ok := isArrayT(p.T)
		if !ok {
			panic(unsup("IndexAddr"))
		}
		u.nilCheck(st, p, in)
		u.check(st, "panic", "index out of range", in, c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Int(at.Len()))))
		u.set(st, in, &Ptr{Elem: true, Base: u.arrayBase(p), Idx: idx, Root: at.Elem(), T: at.Elem()})
	case *ssa.Index:
		idx := u.term(u.eval(st, in.Index))
		x := u.term(u.eval(st, in.X))
		if a, ok := isArrayT(in.X.Type()); ok {
			u.check(st, "panic", "index out of range", in, c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.Int(a.Len()))))
			u.set(st, in, c.Select(x, idx))
		} else { // string
			u.check(st, "panic", "index out of range", in, c.And(c.Le(c.Int(0), idx), c.Lt(idx, c.StrLen(x))))
			u.set(st, in, c.App("strbyte", SInt, x, idx))
		}
	case *ssa.Lookup:
		x := u.eval(st, in.X)
		k := u.term(u.eval(st, in.Index))
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			v, dom := u.lookupMap(st, in.X, x, k)
			if in.CommaOk {
				u.set(st, in, Tuple{v, dom})
			} else {
				u.set(st, in, v)
			}
		} else {
			s := u.term(x)
			u.check(st, "panic", "index out of range", in, c.And(c.Le(c.Int(0), k), c.Lt(k, c.StrLen(s))))
			u.set(st, in, c.App("strbyte", SInt, s, k))
		}
	case *ssa.Store:
		p := u.toPtr(u.eval(st, in.Addr), in.Addr.Type())
		u.nilCheck(st, p, in)
		u.store(st, p, p.T, u.eval(st, in.Val))
	case *ssa.MapUpdate:
		m := u.term(u.eval(st, in.Map))
		u.check(st, "panic", "assignment to entry in nil map", in, c.Not(c.Eq(m, c.Int(0))))
		u.mapUpdate(st, in.Map.Type(), m, u.term(u.eval(st, in.Key)), u.eval(st, in.Value))
	case *ssa.MakeMap:
		u.set(st, in, u.makeMap(st, in.Type()))
	case *ssa.MakeSlice:
		n := u.term(u.eval(st, in.Len))
		k := u.term(u.eval(st, in.Cap))
		u.check(st, "panic", "makeslice: length out of range", in, c.And(c.Le(c.Int(0), n), c.Le(n, k)))
		elem := in.Type().Underlying().(*types.Slice).Elem()
		r := u.alloc(st)
		u.zeroArray(st, r, elem, 0)
		u.set(st, in, c.MkSlice(r, c.Int(0), n, k))
	case *ssa.Slice:
		u.sliceOp(st, in)
	case *ssa.MakeInterface:
		u.set(st, in, u.makeIface(st, u.eval(st, in.X), in.X.Type()))
	case *ssa.ChangeInterface:
		x := u.term(u.eval(st, in.X))
		st.assume(u.ifaceFact(x, in.X.Type()))
		u.set(st, in, x)
	case *ssa.ChangeType:
		u.set(st, in, u.retype(u.eval(st, in.X), in.Type()))
	case *ssa.Convert:
		u.set(st, in, u.convert(st, u.eval(st, in.X), in.X.Type(), in.Type()))
	case *ssa.TypeAssert:
		return u.typeAssert(st, in)
	case *ssa.Extract:
		u.set(st, in, u.eval(st, in.Tuple).(Tuple)[in.Index])
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range in.Bindings {
			bs = append(bs, u.eval(st, b))
		}
		u.set(st, in, &FuncV{Fn: in.Fn.(*ssa.Function), Binds: bs})
	case *ssa.Range:
		u.rangeOp(st, in)
	case *ssa.Next:
		return u.nextOp(st, in)
	case *ssa.Jump:
		return u.jump(st, f.block.Succs[0])
	case *ssa.If:
		cond := u.term(u.eval(st, in.Cond))
		if cond.Op != "true" && cond.Op != "false" {
			if u.tryMerge(st, in, cond) {
				return nil
			}
		}
		t, e := u.branchOn(st, cond, u.condPos(f, in))
		var more []*State
		tb, fb := f.block.Succs[0], f.block.Succs[1]
		if e != nil && e != st {
			more = append(more, e)
			more = append(more, u.jump(e, fb)...)
		} else if e == st {
			return u.jump(st, fb)
		}
		if t != nil {
			more = append(more, u.jump(t, tb)...)
		}
		return more
	case *ssa.Return:
		var res []Val
		for _, r := range in.Results {
			res = append(res, u.eval(st, r))
		}
		u.ret(st, res)
	case *ssa.RunDefers:
		return u.runDefers(st)
	case *ssa.Defer:
		d := &deferred{call: in.Call}
		for _, a := range in.Call.Args {
			d.args = append(d.args, u.eval(st, a))
		}
		d.fn = u.eval2(st, in.Call.Value)
		f.defers = append(f.defers, d)
	case *ssa.Call:
		return u.call(st, &in.Call, in, nil)
	case *ssa.Panic:
		u.check(st, "panic", "explicit panic", in, c.False)
		st.end = "panic"
	case *ssa.Go:
		panic(unsup("go statement"))
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		panic(unsup("channels"))
	default:
		panic(unsup(fmt.Sprintf("instruction %T", in)))
	}
	return nil
}

func (u *Unit) condPos(f *Frame, in *ssa.If) string {
	p := in.Cond.Pos()
	if !p.IsValid() {
		for i := len(f.block.Instrs) - 1; i >= 0; i-- {
			if f.block.Instrs[i].Pos().IsValid() {
				p = f.block.Instrs[i].Pos()
				break
			}
		}
	}
	if !p.IsValid() {
		return fnKey(f.fn)
	}
	q := u.e.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, u.e.repo+"/"), q.Line)
}

func (u *Unit) eval2(st *State, v ssa.Value) Val {
	if v == nil {
		return nil
	}
	if _, ok := v.(*ssa.Builtin); ok {
		return v
	}
	return u.eval(st, v)
}

func fieldOf(sv *StructV, path string, t types.Type) Val {
	if isStruct(t) {
		n := &StructV{T: t, F: map[string]*Term{}}
		for k, v := range sv.F {
			if strings.HasPrefix(k, path+".") {
				n.F[k[len(path):]] = v
			}
		}
		return n
	}
	return sv.F[path]
}

func (u *Unit) retype(v Val, t types.Type) Val {
	if sv, ok := v.(*StructV); ok {
		return &StructV{T: t, F: sv.F}
	}
	return v
}

func (u *Unit) ret(st *State, res []Val) {
	f := st.top()
	if st.stop != nil && len(st.frames) == st.depth {
		st.end = "exit"
		st.res = res
		return
	}
	if len(st.frames) == 1 {
		st.end = "return"
		st.res = res
		return
	}
	st.frames = st.frames[:len(st.frames)-1]
	if f.after != nil {
		f.after(st, res)
		return
	}
	if f.dest != nil {
		if len(res) == 1 {
			u.set(st, f.dest, res[0])
		} else {
			u.set(st, f.dest, Tuple(res))
		}
	}
}

func (u *Unit) runDefers(st *State) []*State {
	f := st.top()
	if len(f.defers) == 0 {
		return nil
	}
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	f.ip-- // RunDefers runs again for the remaining ones
	return u.callWith(st, &d.call, d.fn, d.args, nil, nil)
}

func (u *Unit) unop(st *State, in *ssa.UnOp) []*State {
	c := u.c
	switch in.Op {
	case token.MUL:
		p := u.toPtr(u.eval(st, in.X), in.X.Type())
		u.nilCheck(st, p, in)
		if g, ok := in.X.(*ssa.Global); ok {
			if v := u.globalVal(st, g, "", p.T); v != nil {
				u.set(st, in, v)
				return nil
			}
		}
		if p.Base.Op == "int" && p.Base.Int.Sign() < 0 && !p.Elem {
			if g := u.e.globalByRef(p.Base.Int.Int64()); g != nil {
				if v := u.globalVal(st, g, p.Path, p.T); v != nil {
					u.set(st, in, v)
					return nil
				}
			}
		}
		if u.syncs && p.Base.Op == "int" && p.Base.Int.Sign() < 0 && !p.Elem {
			if g := u.e.globalByRef(p.Base.Int.Int64()); g != nil && !u.e.frozen[g] {
				u.syncUse(st, "read of "+g.Name(), g.Name(), p.Base, 1)
			}
		}
		u.set(st, in, u.load(st, p, p.T))
	case token.NOT:
		u.set(st, in, c.Not(u.term(u.eval(st, in.X))))
	case token.SUB:
		x := u.term(u.eval(st, in.X))
		if x.Sort == SReal {
			u.set(st, in, c.Sub(c.RealLit(new(big.Rat)), x))
		} else {
			u.set(st, in, u.wrap(c.Neg(x), in.Type()))
		}
	case token.XOR:
		x := u.term(u.eval(st, in.X))
		if isUnsigned(in.Type()) {
			b, _, _ := intBits(in.Type())
			u.set(st, in, c.Sub(c.BigInt(maxU(b)), x))
		} else {
			u.set(st, in, c.Sub(c.Int(-1), x))
		}
	default:
		panic(unsup("unop " + in.Op.String()))
	}
	return nil
}

// wrap reduces the result of integer arithmetic: unsigned types wrap, signed ones narrower
// than 64 bits wrap, int and int64 are treated as mathematical integers (stated assumption).
func (u *Unit) wrap(x *Term, t types.Type) *Term {
	c := u.c
	bits, uns, ok := intBits(t)
	if !ok {
		return x
	}
	if uns {
		return c.Mod(x, c.BigInt(pow2(bits)))
	}
	if bits < 64 {
		lo, hi := c.bounds(x, 6)
		if lo != nil && hi != nil && lo.Cmp(new(big.Int).Neg(pow2(bits-1))) >= 0 && hi.Cmp(pow2(bits-1)) < 0 {
			return x
		}
		h := c.BigInt(pow2(bits - 1))
		return c.Sub(c.Mod(c.Add(x, h), c.BigInt(pow2(bits))), h)
	}
	return x
}

func (u *Unit) binop(st *State, op token.Token, xv, yv Val, t, rt types.Type, in ssa.Instruction) Val {
	c := u.c
	switch op {
	case token.EQL, token.NEQ:
		r := u.eqVals(xv, yv)
		if op == token.NEQ {
			r = c.Not(r)
		}
		return r
	}
	x, y := u.term(xv), u.term(yv)
	switch op {
	case token.ADD:
		if x.Sort == SStr {
			return c.Concat(x, y)
		}
		return u.wrap(c.Add(x, y), rt)
	case token.SUB:
		return u.wrap(c.Sub(x, y), rt)
	case token.MUL:
		return u.wrap(c.Mul(x, y), rt)
	case token.QUO:
		if x.Sort == SReal {
			return c.mk(&Term{Op: "/", Args: []*Term{x, y}, Sort: SReal})
		}
		u.check(st, "panic", "integer divide by zero", in, c.Not(c.Eq(y, c.Int(0))))
		return u.goDiv(x, y)
	case token.REM:
		u.check(st, "panic", "integer divide by zero", in, c.Not(c.Eq(y, c.Int(0))))
		return u.goRem(x, y)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if x.Sort == SStr {
			switch op {
			case token.LSS:
				return c.App("strlt", SBool, x, y)
			case token.GTR:
				return c.App("strlt", SBool, y, x)
			case token.LEQ:
				return c.Not(c.App("strlt", SBool, y, x))
			}
			return c.Not(c.App("strlt", SBool, x, y))
		}
		switch op {
		case token.LSS:
			return c.Lt(x, y)
		case token.LEQ:
			return c.Le(x, y)
		case token.GTR:
			return c.Lt(y, x)
		}
		return c.Le(y, x)
	case token.AND:
		if x.Sort == SBool {
			return c.And(x, y)
		}
		return u.bitAnd(x, y)
	case token.OR:
		if x.Sort == SBool {
			return c.Or(x, y)
		}
		return u.bitOr(x, y, rt)
	case token.SHL:
		if n, ok := y.litInt(); ok && n >= 0 && n < 64 {
			return u.wrap(c.MulC(pow2(int(n)), x), rt)
		}
		return u.wrap(c.Mul(x, c.App("pow2", SInt, y)), rt)
	case token.SHR:
		if n, ok := y.litInt(); ok && n >= 0 && n < 64 {
			return c.Div(x, c.BigInt(pow2(int(n))))
		}
		return c.Div(x, c.App("pow2", SInt, y))
	case token.XOR, token.AND_NOT:
		return u.wrap(c.App("bit"+map[token.Token]string{token.XOR: "xor", token.AND_NOT: "andnot"}[op], SInt, x, y), rt)
	}
	panic(unsup("binop " + op.String()))
}

func (u *Unit) goDiv(x, y *Term) *Term {
	c := u.c
	if y.Op == "int" && y.Int.Sign() > 0 {
		lo, _ := c.bounds(x, 6)
		if lo != nil && lo.Sign() >= 0 {
			return c.Div(x, y)
		}
		return c.Ite(c.Le(c.Int(0), x), c.Div(x, y), c.Neg(c.Div(c.Neg(x), y)))
	}
	// truncated division
	ax := c.Ite(c.Le(c.Int(0), x), x, c.Neg(x))
	ay := c.Ite(c.Le(c.Int(0), y), y, c.Neg(y))
	q := c.Div(ax, ay)
	same := c.Eq(c.Le(c.Int(0), x), c.Le(c.Int(0), y))
	return c.Ite(same, q, c.Neg(q))
}

func (u *Unit) goRem(x, y *Term) *Term {
	c := u.c
	if y.Op == "int" && y.Int.Sign() > 0 {
		lo, _ := c.bounds(x, 6)
		if lo != nil && lo.Sign() >= 0 {
			return c.Mod(x, y)
		}
		return c.Ite(c.Le(c.Int(0), x), c.Mod(x, y), c.Neg(c.Mod(c.Neg(x), y)))
	}
	ay := c.Ite(c.Le(c.Int(0), y), y, c.Neg(y))
	return c.Ite(c.Le(c.Int(0), x), c.Mod(x, ay), c.Neg(c.Mod(c.Neg(x), ay)))
}

// bitAnd with a constant mask.
func (u *Unit) bitAnd(x, y *Term) *Term {
	c := u.c
	if x.Op == "int" && y.Op != "int" {
		x, y = y, x
	}
	if y.Op == "int" && y.Int.Sign() >= 0 {
		if x.Op == "int" && x.Int.Sign() >= 0 {
			return c.BigInt(new(big.Int).And(x.Int, y.Int))
		}
		m := y.Int
		if m.Sign() == 0 {
			return c.Int(0)
		}
		// contiguous runs of ones
		var parts []*Term
		for i := 0; i < m.BitLen(); {
			if m.Bit(i) == 0 {
				i++
				continue
			}
			j := i
			for j < m.BitLen() && m.Bit(j) == 1 {
				j++
			}
			p := c.Mod(c.Div(x, c.BigInt(pow2(i))), c.BigInt(pow2(j-i)))
			parts = append(parts, c.MulC(pow2(i), p))
			i = j
		}
		return c.Add(append(parts, c.Int(0))...)
	}
	return c.App("bitand", SInt, x, y)
}

// bitOr of operands with disjoint bits is their sum.
func (u *Unit) bitOr(x, y *Term, t types.Type) *Term {
	c := u.c
	if x.Op == "int" && y.Op == "int" {
		return c.BigInt(new(big.Int).Or(x.Int, y.Int))
	}
	if bx, ok := u.bitMask(x, 8); ok {
		if by, ok := u.bitMask(y, 8); ok && new(big.Int).And(bx, by).Sign() == 0 {
			return c.Add(x, y)
		}
	}
	return c.App("bitor", SInt, x, y)
}

// bitMask over-approximates the set bits of a non-negative term.
func (u *Unit) bitMask(t *Term, d int) (*big.Int, bool) {
	if d == 0 {
		return nil, false
	}
	switch t.Op {
	case "int":
		if t.Int.Sign() >= 0 {
			return t.Int, true
		}
		return nil, false
	case "*":
		if len(t.Args) == 2 && t.Args[0].Op == "int" && t.Args[0].Int.Sign() > 0 {
			k := t.Args[0].Int
			sh := k.BitLen() - 1
			if k.Cmp(pow2(sh)) == 0 {
				m, ok := u.bitMask(t.Args[1], d-1)
				if ok {
					return new(big.Int).Lsh(m, uint(sh)), true
				}
			}
		}
	case "+":
		acc := new(big.Int)
		for _, a := range t.Args {
			m, ok := u.bitMask(a, d-1)
			if !ok || new(big.Int).And(acc, m).Sign() != 0 {
				acc = nil
				break
			}
			acc.Or(acc, m)
		}
		if acc != nil {
			return acc, true
		}
	}
	lo, hi := u.c.bounds(t, 6)
	if hi == nil && t.Op == "select" && t.Sort == SInt {
		// a byte read from memory
		if u.isByteSel(t) {
			return big.NewInt(255), true
		}
	}
	if lo != nil && hi != nil && lo.Sign() >= 0 {
		return new(big.Int).Sub(pow2(hi.BitLen()), big.NewInt(1)), true
	}
	return nil, false
}

func (u *Unit) isByteSel(t *Term) bool {
	a := t.Args[0]
	for a.Op == "store" {
		a = a.Args[0]
	}
	if a.Op == "select" {
		b := a.Args[0]
		for b.Op == "store" {
			b = b.Args[0]
		}
		if b.Op == "sym" {
			if strings.HasPrefix(b.Name, "H0:E:uint8") || strings.HasPrefix(b.Name, "H0:E:byte") || strings.HasPrefix(b.Name, "Hl:E:uint8") || strings.HasPrefix(b.Name, "Hl:E:byte") {
				return true
			}
		}
	}
	return a.Op == "app" && (a.Name == "hmacsum" || a.Name == "sha256" || a.Name == "bytes_of" || a.Name == "b64dec")
}

func (u *Unit) eqVals(x, y Val) *Term {
	c := u.c
	if sx, ok := x.(*StructV); ok {
		sy := y.(*StructV)
		var cs []*Term
		var ks []string
		for k := range sx.F {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			cs = append(cs, c.Eq(sx.F[k], sy.F[k]))
		}
		return c.And(cs...)
	}
	a, b := u.term(x), u.term(y)
	if a.Sort == SSlice {
		// only comparison with nil is legal
		if b.Op == "mkslice" && b == c.NilSlice() {
			return c.Eq(c.SBase(a), c.Int(0))
		}
		if a == c.NilSlice() {
			return c.Eq(c.SBase(b), c.Int(0))
		}
	}
	if a.Sort == SIface {
		if b == c.NilIf() {
			return c.Eq(c.ITag(a), c.Int(0))
		}
		if a == c.NilIf() {
			return c.Eq(c.ITag(b), c.Int(0))
		}
	}
	return c.Eq(a, b)
}

func (u *Unit) sliceOp(st *State, in *ssa.Slice) {
	c := u.c
	xv := u.eval(st, in.X)
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return u.term(u.eval(st, v))
	}
	if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s := u.term(xv)
		lo := get(in.Low, c.Int(0))
		hi := get(in.High, c.StrLen(s))
		u.check(st, "panic", "slice bounds out of range", in, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, c.StrLen(s))))
		r := c.App("substr", SStr, s, lo, hi)
		st.assume(c.Eq(c.StrLen(r), c.Sub(hi, lo)))
		u.set(st, in, r)
		return
	}
	var s *Term
	if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
		s = u.term(xv)
	} else {
		p := u.toPtr(xv, in.X.Type())
		a, ok := isArrayT(p.T)
		if !ok {
			panic(unsup("slice of " + typeKey(in.X.Type())))
		}
		u.nilCheck(st, p, in)
		s = c.MkSlice(u.arrayBase(p), c.Int(0), c.Int(a.Len()), c.Int(a.Len()))
	}
	lo := get(in.Low, c.Int(0))
	hi := get(in.High, c.SLen(s))
	max := get(in.Max, c.SCap(s))
	u.check(st, "panic", "slice bounds out of range", in, c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, max), c.Le(max, c.SCap(s))))
	if lo.isInt(0) {
		u.set(st, in, c.MkSlice(c.SBase(s), c.SOff(s), hi, max))
		return
	}
	u.set(st, in, c.MkSlice(c.SBase(s), c.Idx(c.SOff(s), lo), c.Sub(hi, lo), c.Sub(max, lo)))
}

func (u *Unit) convert(st *State, v Val, from, to types.Type) Val {
	c := u.c
	fu, tu := from.Underlying(), to.Underlying()
	x := u.term(v)
	if tb, ok := tu.(*types.Basic); ok {
		switch {
		case tb.Info()&types.IsString != 0:
			if x.Sort == SStr {
				return x
			}
			if fs, ok := fu.(*types.Slice); ok {
				eb, _ := fs.Elem().Underlying().(*types.Basic)
				if eb != nil && eb.Kind() == types.Uint8 {
					return u.bytesToStr(st, x, fs.Elem())
				}
				a := u.elemArr(st, fs.Elem(), "", fs.Elem(), c.SBase(x))
				return c.App("runes2str", SStr, a, c.SOff(x), c.SLen(x))
			}
			if x.Sort == SInt {
				return c.App("runestr", SStr, x)
			}
		case tb.Info()&types.IsInteger != 0:
			if x.Sort == SReal {
				if x.Op == "to_real" {
					return u.wrap(x.Args[0], to)
				}
				if x.Op == "app" && x.Name == "pow10" {
					return c.App("ipow10", SInt, x.Args[0])
				}
				if x.Op == "app" && x.Name == "floor" {
					if q := x.Args[0]; q.Op == "/" && q.Args[0].Op == "to_real" && q.Args[1].Op == "to_real" {
						// floor of a quotient of integers
						a, b := q.Args[0].Args[0], q.Args[1].Args[0]
						return u.wrap(c.Ite(c.Lt(c.Int(0), b), c.Div(a, b), c.mk(&Term{Op: "to_int", Args: []*Term{q}, Sort: SInt})), to)
					}
					return u.wrap(c.mk(&Term{Op: "to_int", Args: []*Term{x.Args[0]}, Sort: SInt}), to)
				}
				i := c.mk(&Term{Op: "to_int", Args: []*Term{x}, Sort: SInt})
				ni := c.Neg(c.mk(&Term{Op: "to_int", Args: []*Term{c.Sub(c.RealLit(new(big.Rat)), x)}, Sort: SInt}))
				zero := c.RealLit(new(big.Rat))
				return u.wrap(c.Ite(c.Le(zero, x), i, ni), to)
			}
			if x.Sort == SInt {
				fb, fun, ok1 := intBits(from)
				tbits, tun, ok2 := intBits(to)
				if ok1 && ok2 {
					if fun == tun && tbits >= fb || !tun && fun && tbits > fb {
						return x
					}
					if !tun && tbits == 64 {
						if fun && fb == 64 {
							h := c.BigInt(pow2(63))
							return c.Ite(c.Lt(x, h), x, c.Sub(x, c.BigInt(pow2(64))))
						}
						return x
					}
					return u.wrap(x, to)
				}
				return x
			}
		case tb.Info()&types.IsFloat != 0:
			if x.Sort == SReal {
				return x
			}
			if x.Op == "int" {
				return c.RealLit(new(big.Rat).SetInt(x.Int))
			}
			return c.mk(&Term{Op: "to_real", Args: []*Term{x}, Sort: SReal})
		}
	}
	if ts, ok := tu.(*types.Slice); ok && x.Sort == SStr {
		eb, _ := ts.Elem().Underlying().(*types.Basic)
		if eb != nil && eb.Kind() == types.Uint8 {
			return u.newSlice(st, ts.Elem(), c.App("bytes_of", arr(SInt, SInt), x), c.StrLen(x))
		}
		n := c.App("runecount", SInt, x)
		st.assume(c.Le(c.Int(0), n), c.Le(n, c.StrLen(x)))
		if x.Op == "str" && asciiOnly(x.Name) {
			n = c.Int(int64(len(x.Name)))
			return u.newSlice(st, ts.Elem(), c.App("bytes_of", arr(SInt, SInt), x), n)
		}
		return u.newSlice(st, ts.Elem(), c.App("runes_of", arr(SInt, SInt), x), n)
	}
	if s1, ok := sortOf(from); ok {
		if s2, ok := sortOf(to); ok && s1 == s2 {
			return x
		}
	}
	panic(unsup("convert " + typeKey(from) + " to " + typeKey(to)))
}

func (u *Unit) typeAssert(st *State, in *ssa.TypeAssert) []*State {
	c := u.c
	x := u.term(u.eval(st, in.X))
	st.assume(u.ifaceFact(x, in.X.Type()))
	t := in.AssertedType
	var ok *Term
	isI := types.IsInterface(t)
	if isI {
		ok = c.And(c.Not(c.Eq(c.ITag(x), c.Int(0))), u.implements(c.ITag(x), t))
	} else {
		ok = c.Eq(c.ITag(x), c.Int(u.e.tag(t)))
	}
	val := func(s *State) Val {
		if isI {
			return x
		}
		return u.unbox(s, x, t)
	}
	if !in.CommaOk {
		u.check(st, "panic", "interface conversion", in, ok)
		u.set(st, in, val(st))
		return nil
	}
	t1, f1 := u.branchOn(st, ok, u.pos(in)+" type test")
	if t1 != nil {
		u.set(t1, in, Tuple{val(t1), c.True})
	}
	if f1 != nil {
		u.set(f1, in, Tuple{u.zeroVal(t), c.False})
	}
	if t1 != nil && f1 != nil {
		return []*State{f1}
	}
	return nil
}

// ---- map iteration ----

func (u *Unit) rangeOp(st *State, in *ssa.Range) {
	c := u.c
	x := u.term(u.eval(st, in.X))
	if m, ok := in.X.Type().Underlying().(*types.Map); ok {
		ks := mustSort(m.Key())
		loc := u.alloc(st)
		n := "G:visited:" + string(ks)
		u.ghostRegion(st, n, arr(ks, SBool))
		u.setRegion(st, n, loc, c.ConstArr(arr(ks, SBool), c.False))
		u.set(st, in, &IterV{M: x, T: in.X.Type(), Loc: loc})
		return
	}
	loc := u.alloc(st)
	u.ghostRegion(st, "G:stritpos", SInt)
	u.setRegion(st, "G:stritpos", loc, c.Int(0))
	u.set(st, in, &IterV{Str: x, Loc: loc})
}

func (u *Unit) nextOp(st *State, in *ssa.Next) []*State {
	c := u.c
	it := u.eval(st, in.Iter).(*IterV)
	if it.Str != nil {
		pos := c.Select(u.ghostRegion(st, "G:stritpos", SInt), it.Loc)
		st.assume(c.Le(c.Int(0), pos))
		t, f := u.branchOn(st, c.Lt(pos, c.StrLen(it.Str)), u.pos(in)+" string iteration")
		if t != nil {
			r := c.App("runeat", SInt, it.Str, pos)
			w := c.App("runewidth", SInt, it.Str, pos)
			t.assume(c.Le(c.Int(1), w), c.Le(w, c.Int(4)), c.Le(c.Int(0), r), c.Le(r, c.Int(0x10ffff)))
			u.setRegion(t, "G:stritpos", it.Loc, c.Add(pos, w))
			u.set(t, in, Tuple{c.True, pos, r})
		}
		if f != nil {
			u.set(f, in, Tuple{c.False, c.Int(0), c.Int(0)})
		}
		if t != nil && f != nil {
			return []*State{f}
		}
		return nil
	}
	mt, ks, _ := mapSorts(it.T)
	_, d := u.mapDom(st, it.T)
	dom := c.Select(d, it.M)
	n := "G:visited:" + string(ks)
	vis := c.Select(u.ghostRegion(st, n, arr(ks, SBool)), it.Loc)
	k := c.Fresh("key", ks)
	kv := c.FreshBVar("k", ks)
	f := st.clone()
	// one more key
	st.assume(c.Select(dom, k), c.Not(c.Select(vis, k)))
	st.branch = append(st.branch, c.Select(dom, k))
	names, ls := u.mapVals(st, it.T)
	var v Val
	if isStruct(mt.Elem()) {
		sv := &StructV{T: mt.Elem(), F: map[string]*Term{}}
		for i, l := range ls {
			sv.F[l.path] = c.Select(c.Select(st.heap[names[i]], it.M), k)
		}
		v = sv
	} else {
		v = u.typedLoad(st, c.Select(c.Select(st.heap[names[0]], it.M), k), mt.Elem())
		if p, ok := mt.Elem().Underlying().(*types.Pointer); ok && !u.repoType(p.Elem()) {
			st.assume(c.Not(c.Eq(v.(*Term), c.Int(0))))
			u.assumed["records in a map made by external code ("+typeKey(it.T)+") are present"] = true
		}
	}
	u.setRegion(st, n, it.Loc, c.Store(vis, k, c.True))
	u.set(st, in, Tuple{c.True, k, v})
	// finished: everything visited
	f.assume(c.Forall([]*Term{kv}, c.Implies(c.Select(dom, kv), c.Select(vis, kv)), []*Term{c.Select(dom, kv)}))
	f.assume(c.Implies(c.Eq(it.M, c.Int(0)), c.True))
	u.set(f, in, Tuple{c.False, u.zeroTerm(mt.Key()), u.zeroVal(mt.Elem())})
	// a nil map has no keys
	if it.M.isInt(0) {
		st.end = "dead"
		st.reason = "nil map"
	}
	return []*State{f}
}

// ghostRegion is an Array Int <sort> that has no Go counterpart.
func (u *Unit) ghostRegion(st *State, name string, s Sort) *Term {
	if r, ok := st.heap[name]; ok {
		return r
	}
	if _, ok := u.reginfo[name]; !ok {
		u.reginfo[name] = regionInfo{arr(SInt, s), "ghost", 1, types.Typ[types.Bool]}
		u.regorder = append(u.regorder, name)
	}
	r, ok := u.init0[name]
	if !ok {
		r = u.c.Sym("H0:"+name, arr(SInt, s))
		u.init0[name] = r
	}
	st.heap[name] = r
	return r
}

// ghost scalar
func (u *Unit) ghostVar(st *State, name string, s Sort) *Term {
	if r, ok := st.heap[name]; ok {
		return r
	}
	if _, ok := u.reginfo[name]; !ok {
		u.reginfo[name] = regionInfo{s, "scalar", 0, types.Typ[types.Bool]}
		u.regorder = append(u.regorder, name)
	}
	r, ok := u.init0[name]
	if !ok {
		r = u.c.Sym("H0:"+name, s)
		if strings.HasSuffix(name, "_failed") {
			r = u.c.False // nothing has failed when the function starts
		}
		u.init0[name] = r
	}
	st.heap[name] = r
	return r
}

func (u *Unit) setGhostVar(st *State, name string, v *Term) {
	u.ghostVar(st, name, v.Sort)
	u.noteWrite(st, name, u.c.Int(0))
	st.heap[name] = v
}

func (u *Unit) setGhostStr(st *State, name string, base, v *Term) {
	u.ghostRegion(st, name, v.Sort)
	u.setRegion(st, name, base, v)
}

// ---- merging of small branches ----

// tryMerge executes "if c { simple } else { simple }" without splitting the path.
func (u *Unit) tryMerge(st *State, in *ssa.If, cond *Term) bool {
	f := st.top()
	b := f.block
	tb, fb := b.Succs[0], b.Succs[1]
	li := u.e.loopInfo(f.fn)
	var join *ssa.BasicBlock
	simple := func(x *ssa.BasicBlock) bool {
		if len(x.Preds) != 1 || len(x.Succs) != 1 || li.header[x] != nil {
			return false
		}
		for _, i := range x.Instrs {
			switch i := i.(type) {
			case *ssa.Store, *ssa.FieldAddr, *ssa.MapUpdate, *ssa.DebugRef, *ssa.Jump, *ssa.BinOp, *ssa.Field, *ssa.IndexAddr:
				_ = i
			case *ssa.UnOp:
			case *ssa.Call:
				if bi, ok := i.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	switch {
	case simple(tb) && simple(fb) && tb.Succs[0] == fb.Succs[0]:
		join = tb.Succs[0]
	case simple(tb) && tb.Succs[0] == fb:
		join = fb
	case simple(fb) && fb.Succs[0] == tb:
		join = tb
	default:
		return false
	}
	if join == b {
		return false
	}
	for _, l := range li.order {
		if l.body[b] != l.body[join] {
			return false
		}
	}
	hl := li.header[join]
	if hl != nil {
		// next round of an unrolled loop
		if _, ok := f.unroll[hl]; !ok || f.cuts[hl] != nil || f.unroll[hl] > 70 {
			return false
		}
	}
	if tb == fb {
		return false
	}
	// both sides must be feasible, otherwise splitting is cheaper
	if !u.feasible(st, cond) || !u.feasible(st, u.c.Not(cond)) {
		return false
	}
	nobl := len(u.obls)
	arm := func(blk *ssa.BasicBlock, g *Term) (*State, bool) {
		s := st.clone()
		s.assume(g)
		if blk == join {
			return s, true
		}
		fr := s.top()
		fr.prev = b
		fr.block = blk
		fr.ip = 0
		for {
			i := blk.Instrs[fr.ip]
			if _, ok := i.(*ssa.Jump); ok {
				return s, true
			}
			if more := u.step(s); len(more) > 0 || s.end != "" {
				return nil, false
			}
		}
	}
	s1, ok1 := arm(tb, cond)
	var s2 *State
	ok2 := false
	if ok1 {
		s2, ok2 = arm(fb, u.c.Not(cond))
	}
	if !ok1 || !ok2 {
		u.obls = u.obls[:nobl]
		return false
	}
	// phis of the join
	pv := func(s *State, from *ssa.BasicBlock) ([]Val, bool) {
		var out []Val
		k := -1
		for i, p := range join.Preds {
			if p == from {
				k = i
			}
		}
		for _, i := range join.Instrs {
			ph, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			if k < 0 {
				return nil, false
			}
			out = append(out, u.eval(s, ph.Edges[k]))
		}
		return out, true
	}
	from1, from2 := tb, fb
	if tb == join {
		from1 = b
	}
	if fb == join {
		from2 = b
	}
	v1, k1 := pv(s1, from1)
	v2, k2 := pv(s2, from2)
	merge := func() bool {
		if !k1 || !k2 {
			return false
		}
		for i := range v1 {
			_, a := v1[i].(*Term)
			_, bb := v2[i].(*Term)
			if !a || !bb {
				return false
			}
			if v1[i].(*Term).Sort != v2[i].(*Term).Sort {
				return false
			}
		}
		return true
	}
	if !merge() {
		u.obls = u.obls[:nobl]
		return false
	}
	c := u.c
	base := map[*Term]bool{}
	for t := range st.pcset {
		base[t] = true
	}
	nc := c.Not(cond)
	var add []*Term
	for _, t := range s1.pc {
		if !base[t] && t != cond {
			add = append(add, c.Implies(cond, t))
		}
	}
	for _, t := range s2.pc {
		if !base[t] && t != nc {
			add = append(add, c.Implies(nc, t))
		}
	}
	if s1.next != st.next || s2.next != st.next {
		u.obls = u.obls[:nobl]
		return false
	}
	names := map[string]bool{}
	for n := range s1.heap {
		names[n] = true
	}
	for n := range s2.heap {
		names[n] = true
	}
	for n := range names {
		h1, o1 := s1.heap[n]
		h2, o2 := s2.heap[n]
		if !o1 {
			h1 = u.initOf(n)
		}
		if !o2 {
			h2 = u.initOf(n)
		}
		if h1 != h2 {
			st.heap[n] = u.mergeArr(cond, h1, h2)
		} else {
			st.heap[n] = h1
		}
	}
	st.assume(add...)
	if hl != nil {
		f.unroll[hl]++
	}
	f.prev = from1
	f.block = join
	f.ip = 0
	j := 0
	for _, i := range join.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		f.regs[ph] = c.Ite(cond, v1[j].(*Term), v2[j].(*Term))
		j++
		f.ip++
	}
	return true
}

func (u *Unit) initOf(n string) *Term {
	if r, ok := u.init0[n]; ok {
		return r
	}
	return u.heap0(n)
}

// mergeArr: ite over two versions of a region, kept as a store where they differ in one cell.
func (u *Unit) mergeArr(cond, a, b *Term) *Term {
	c := u.c
	if a.Sort.isArr() {
		if a.Op == "store" && a.Args[0] == b {
			return c.Store(b, a.Args[1], u.mergeArr(cond, a.Args[2], c.Select(b, a.Args[1])))
		}
		if b.Op == "store" && b.Args[0] == a {
			return c.Store(a, b.Args[1], u.mergeArr(cond, c.Select(a, b.Args[1]), b.Args[2]))
		}
		if a.Op == "store" && b.Op == "store" && a.Args[1] == b.Args[1] && a.Args[0] == b.Args[0] {
			return c.Store(a.Args[0], a.Args[1], u.mergeArr(cond, a.Args[2], b.Args[2]))
		}
	}
	return c.Ite(cond, a, b)
}
