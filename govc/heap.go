package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: *Term, *Ptr, *StructV, Tuple, *FuncV, *IterV.
type Val interface{}

// Ptr is an address. Kind "obj": the leaf Path below the object Base of type Root.
// Kind "elem": the leaf Path below element Idx of backing array Base with element type Root.
type Ptr struct {
	Elem bool
	Base *Term
	Idx  *Term // absolute position in the backing array
	Root types.Type
	Path string
	T    types.Type // pointed-to type
}

type StructV struct {
	T types.Type
	F map[string]*Term // leaf path -> value
}

type Tuple []Val

type FuncV struct {
	Fn    *ssa.Function
	Binds []Val
}

// IterV is a map iterator.
type IterV struct {
	M   *Term // map reference (0 for strings)
	T   types.Type
	Loc *Term // reference of the visited set
	Str *Term
}

type Frame struct {
	fn     *ssa.Function
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	ip     int
	regs   map[ssa.Value]Val
	defers []*deferred
	dest   ssa.Value // register of the caller that receives the result
	cuts   map[*Loop]*Cut
	unroll map[*Loop]int
	after  func(st *State, res []Val) // called when the frame returns (contract-free inlining)
}

type deferred struct {
	call ssa.CallCommon
	args []Val
	fn   Val
}

type State struct {
	frames []*Frame
	heap   map[string]*Term
	next   *Term
	pc     []*Term
	pcset  map[*Term]bool
	branch []*Term // branch decisions only, in order
	trace  []string
	ghost  map[string]*Term
	writes *Writes
	// termination
	end        string // "return", "panic", "backedge", "exit", "dead", "unsup"
	cut        *Cut
	res        []Val
	reason     string
	stop       *Cut // loop body exploration that this state belongs to
	depth      int  // frame depth of stop
	quiet      int  // obligations are not recorded
	opened     []*Cut
	lock       int
	held       map[string]int // locks of package variables
	snaps      map[*Term]*snap
	decoded    *snap
	decodedOld *Term
	nows       []*Term // readings of the clock, in order
}

// Writes records the effects of a loop body exploration.
type Writes struct {
	regions map[string]map[*Term]bool // region -> written bases
	alloc   bool
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = make(map[ssa.Value]Val, len(f.regs)+8)
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.defers = append([]*deferred(nil), f.defers...)
	n.cuts = map[*Loop]*Cut{}
	for k, v := range f.cuts {
		n.cuts[k] = v
	}
	n.unroll = map[*Loop]int{}
	for k, v := range f.unroll {
		n.unroll[k] = v
	}
	return &n
}

func (s *State) clone() *State {
	n := *s
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	n.heap = make(map[string]*Term, len(s.heap)+8)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.pc = append([]*Term(nil), s.pc...)
	n.pcset = make(map[*Term]bool, len(s.pcset)+8)
	for k := range s.pcset {
		n.pcset[k] = true
	}
	n.branch = append([]*Term(nil), s.branch...)
	n.trace = append([]string(nil), s.trace...)
	n.ghost = make(map[string]*Term, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.opened = append([]*Cut(nil), s.opened...)
	return &n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) assume(ts ...*Term) {
	for _, t := range ts {
		for _, x := range conjuncts(t) {
			if x.Op == "true" || s.pcset[x] {
				continue
			}
			s.pcset[x] = true
			s.pc = append(s.pc, x)
		}
	}
}

// ---- regions ----

type regionInfo struct {
	sort Sort
	kind string // ptr, slice, uint:<bits>, iface, str, bool, int...
	nest int    // 1: Array Int V, 2: Array Int (Array K V)
	typ  types.Type
}

func elemRegion(elem types.Type, path string) string { return "E:" + typeKey(elem) + path }

func objRegion(root types.Type, path string) string {
	if isStruct(root) {
		return typeKey(root) + path
	}
	return "P:" + typeKey(root)
}

// region returns the current array of a region, creating the initial symbol on first use.
func (u *Unit) region(st *State, name string, t types.Type, nest int, keySort Sort) *Term {
	if r, ok := st.heap[name]; ok {
		return r
	}
	s, ok := sortOf(t)
	if !ok {
		panic(unsup("region of type " + typeKey(t)))
	}
	full := arr(SInt, s)
	if nest == 2 {
		full = arr(SInt, arr(keySort, s))
	}
	if _, ok := u.reginfo[name]; !ok {
		u.reginfo[name] = regionInfo{full, "", nest, t}
		u.regorder = append(u.regorder, name)
	}
	r := u.heap0(name)
	st.heap[name] = r
	return r
}

// heap0 is the symbol of a region at function entry.
func (u *Unit) heap0(name string) *Term {
	if r, ok := u.init0[name]; ok {
		return r
	}
	ri := u.reginfo[name]
	r := u.c.Sym("H0:"+name, ri.sort)
	u.init0[name] = r
	u.registerBase(r, ri, u.next0)
	return r
}

// registerBase attaches the typing facts of a heap symbol.
func (u *Unit) registerBase(r *Term, ri regionInfo, next *Term) {
	c := u.c
	fact := func(v *Term) *Term { return u.typeFact(v, ri.typ, next) }
	ks := SInt
	if ri.nest == 2 {
		_, in := arrParts(ri.sort)
		ks, _ = arrParts(in)
	}
	probe := c.Sym("probe", mustSort(ri.typ))
	if fact(probe).Op == "true" {
		return
	}
	kind := 0
	switch ri.typ.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		kind = 1
	case *types.Slice:
		kind = 2
	}
	c.baseFact[r] = baseFact{ri.nest, fact, ks, kind, next}
}

type baseFact struct {
	nest int
	fact func(v *Term) *Term
	key  Sort
	kind int   // 1: references, 2: slices
	next *Term // above all references
}

func mustSort(t types.Type) Sort {
	s, ok := sortOf(t)
	if !ok {
		panic(unsup("sort of " + typeKey(t)))
	}
	return s
}

// typeFact: what the type of a stored value guarantees. Slice well-formedness is structural (see instFacts).
func (u *Unit) typeFact(v *Term, t types.Type, next *Term) *Term {
	c := u.c
	switch b := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		_ = b
		return c.Lt(v, next)
	case *types.Slice:
		return c.And(c.Lt(c.SBase(v), next), u.sliceWF(v))
	case *types.Basic:
		if bits, uns, ok := intBits(t); ok {
			if uns {
				return c.And(c.Le(c.Int(0), v), c.Le(v, c.BigInt(maxU(bits))))
			}
			if bits < 64 {
				return c.And(c.Le(c.BigInt(new(big.Int).Neg(pow2(bits-1))), v), c.Lt(v, c.BigInt(pow2(bits-1))))
			}
		}
	case *types.Array:
		if bits, uns, ok := intBits(b.Elem()); ok && uns {
			_ = bits
		}
	}
	return c.True
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }
func maxU(n int) *big.Int { return new(big.Int).Sub(pow2(n), big.NewInt(1)) }

type unsupErr struct{ msg string }

func unsup(msg string) unsupErr { return unsupErr{msg} }

// freshVal makes an arbitrary value of type t, valid in the given heap.
func (u *Unit) freshVal(st *State, prefix string, t types.Type) Val {
	c := u.c
	if tp, ok := t.(*types.Tuple); ok {
		var out Tuple
		for i := 0; i < tp.Len(); i++ {
			out = append(out, u.freshVal(st, prefix, tp.At(i).Type()))
		}
		return out
	}
	if isStruct(t) {
		sv := &StructV{T: t, F: map[string]*Term{}}
		for _, l := range leaves(t) {
			x := c.Fresh(prefix+l.path, l.sort)
			st.assume(u.typeFact(x, l.t, st.next))
			sv.F[l.path] = x
		}
		return sv
	}
	x := c.Fresh(prefix, mustSort(t))
	st.assume(u.typeFact(x, t, st.next))
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		c.upper[x] = st.next
	case *types.Slice:
		c.upper[c.SBase(x)] = st.next
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		st.assume(u.ifaceFact(x, t))
	}
	return x
}

// ifaceFact: a value of a non-empty interface type is nil or implements it.
func (u *Unit) ifaceFact(x *Term, t types.Type) *Term {
	c := u.c
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return c.True
	}
	f := c.Le(c.Int(0), c.ITag(x))
	f = c.And(f, c.Implies(c.Eq(c.ITag(x), c.Int(0)), c.Eq(x, c.NilIf())))
	if it.NumMethods() == 0 {
		return f
	}
	return c.And(f, c.Or(c.Eq(c.ITag(x), c.Int(0)), u.implements(c.ITag(x), t)))
}

func (u *Unit) implements(tag *Term, t types.Type) *Term {
	c := u.c
	it := t.Underlying().(*types.Interface)
	if it.NumMethods() == 0 {
		return c.Lt(c.Int(0), tag)
	}
	if tag.Op == "ite" {
		return c.Ite(tag.Args[0], u.implements(tag.Args[1], t), u.implements(tag.Args[2], t))
	}
	if n, ok := tag.litInt(); ok {
		ct := u.e.tagType(n)
		if ct == nil {
			return c.False
		}
		return c.Bool(types.Implements(ct, it))
	}
	return c.App("impl_"+typeKey(t), SBool, tag)
}

func (u *Unit) zeroTerm(t types.Type) *Term {
	c := u.c
	s := mustSort(t)
	return u.zeroSort(c, s)
}
func (u *Unit) zeroSort(c *Ctx, s Sort) *Term {
	switch s {
	case SInt:
		return c.Int(0)
	case SBool:
		return c.False
	case SStr:
		return c.Str("")
	case SReal:
		return c.RealLit(new(big.Rat))
	case SSlice:
		return c.NilSlice()
	case SIface:
		return c.NilIf()
	case STime:
		return c.Sym("time_zero", STime)
	}
	if s.isArr() {
		_, to := arrParts(s)
		return c.ConstArr(s, u.zeroSort(c, to))
	}
	panic(unsup("zero of " + string(s)))
}

func (u *Unit) zeroVal(t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		var out Tuple
		for i := 0; i < tp.Len(); i++ {
			out = append(out, u.zeroVal(tp.At(i).Type()))
		}
		return out
	}
	if isStruct(t) {
		sv := &StructV{T: t, F: map[string]*Term{}}
		for _, l := range leaves(t) {
			sv.F[l.path] = u.zeroTerm(l.t)
		}
		return sv
	}
	return u.zeroTerm(t)
}

// alloc returns a fresh reference.
func (u *Unit) alloc(st *State) *Term {
	r := st.next
	st.next = u.c.Add(st.next, u.c.Int(1))
	if st.writes != nil {
		st.writes.alloc = true
	}
	return r
}

func (u *Unit) noteWrite(st *State, region string, base *Term) {
	if st.writes == nil {
		return
	}
	m := st.writes.regions[region]
	if m == nil {
		m = map[*Term]bool{}
		st.writes.regions[region] = m
	}
	m[base] = true
}

func (u *Unit) setRegion(st *State, name string, base, v *Term) {
	u.noteWrite(st, name, base)
	if u.syncs && !strings.HasPrefix(name, "G:") {
		u.syncUse(st, "write of "+name, name, base, 2)
	}
	st.heap[name] = u.c.Store(st.heap[name], base, v)
}

// ---- loads and stores ----

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic(unsup("deref of " + typeKey(t)))
}

// toPtr views a pointer value of static type t as an address.
func (u *Unit) toPtr(v Val, t types.Type) *Ptr {
	switch v := v.(type) {
	case *Ptr:
		return v
	case *Term:
		et := derefType(t)
		return &Ptr{Base: v, Root: et, T: et}
	}
	panic(unsup(fmt.Sprintf("pointer value %T", v)))
}

func (u *Unit) ptrTerm(p *Ptr) *Term {
	if !p.Elem && p.Path == "" {
		return p.Base
	}
	if p.Elem {
		return u.c.App("elemptr:"+typeKey(p.Root)+p.Path, SInt, p.Base, p.Idx)
	}
	return u.c.App("fldptr:"+typeKey(p.Root)+p.Path, SInt, p.Base)
}

// term converts any single value to a term for storing into the heap or comparing.
func (u *Unit) term(v Val) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *Ptr:
		return u.ptrTerm(v)
	case *FuncV:
		n := "nil"
		if v.Fn != nil {
			n = v.Fn.String()
		}
		return u.c.App("func:"+n, SInt)
	}
	panic(unsup(fmt.Sprintf("term of %T", v)))
}

func isArrayT(t types.Type) (*types.Array, bool) {
	a, ok := t.Underlying().(*types.Array)
	return a, ok
}

// arrayBase is the backing-array reference of an array variable.
func (u *Unit) arrayBase(p *Ptr) *Term {
	if p.Elem {
		return u.c.App("elemarr:"+typeKey(p.Root)+p.Path, SInt, p.Base, p.Idx)
	}
	if p.Path == "" {
		return p.Base
	}
	return u.c.App("fldarr:"+typeKey(p.Root)+p.Path, SInt, p.Base)
}

func (u *Unit) loadLeaf(st *State, p *Ptr, path string, t types.Type) *Term {
	c := u.c
	if a, ok := isArrayT(t); ok {
		q := *p
		q.Path = p.Path + path
		b := u.arrayBase(&q)
		r := u.region(st, elemRegion(a.Elem(), ""), a.Elem(), 2, SInt)
		return c.Select(r, b)
	}
	if p.Elem {
		u.sharedElem(st, p.Root, "element", p.Base, false)
		r := u.region(st, elemRegion(p.Root, p.Path+path), t, 2, SInt)
		v := c.Select(c.Select(r, p.Base), p.Idx)
		return u.typedLoad(st, v, t)
	}
	u.sharedAccess(st, p.Root, p.Path+path, p.Base, false)
	r := u.region(st, objRegion(p.Root, p.Path+path), t, 1, SInt)
	v := c.Select(r, p.Base)
	return u.typedLoad(st, v, t)
}

// typedLoad adds the facts that hold for a value read from the heap.
func (u *Unit) typedLoad(st *State, v *Term, t types.Type) *Term {
	if v.isLit() {
		return v
	}
	f := u.typeFact(v, t, st.next)
	if f.Op != "true" && !v.bv {
		st.assume(f)
	}
	if _, ok := t.Underlying().(*types.Interface); ok && !v.bv && v.Op != "mkif" {
		st.assume(u.ifaceFact(v, t))
	}
	return v
}

func (u *Unit) storeLeaf(st *State, p *Ptr, path string, t types.Type, v *Term) {
	c := u.c
	if a, ok := isArrayT(t); ok {
		q := *p
		q.Path = p.Path + path
		b := u.arrayBase(&q)
		n := elemRegion(a.Elem(), "")
		u.region(st, n, a.Elem(), 2, SInt)
		u.setRegion(st, n, b, v)
		return
	}
	if p.Elem {
		u.sharedElem(st, p.Root, "element", p.Base, true)
		n := elemRegion(p.Root, p.Path+path)
		r := u.region(st, n, t, 2, SInt)
		in := c.Store(c.Select(r, p.Base), p.Idx, v)
		u.setRegion(st, n, p.Base, in)
		return
	}
	u.sharedAccess(st, p.Root, p.Path+path, p.Base, true)
	n := objRegion(p.Root, p.Path+path)
	u.region(st, n, t, 1, SInt)
	u.setRegion(st, n, p.Base, v)
}

func (u *Unit) load(st *State, p *Ptr, t types.Type) Val {
	if isStruct(t) {
		sv := &StructV{T: t, F: map[string]*Term{}}
		for _, l := range leaves(t) {
			sv.F[l.path] = u.loadLeaf(st, p, l.path, l.t)
		}
		return sv
	}
	return u.loadLeaf(st, p, "", t)
}

func (u *Unit) store(st *State, p *Ptr, t types.Type, v Val) {
	if isStruct(t) {
		sv, ok := v.(*StructV)
		if !ok {
			panic(unsup("store of non-struct"))
		}
		for _, l := range leaves(t) {
			u.storeLeaf(st, p, l.path, l.t, sv.F[l.path])
		}
		return
	}
	u.storeLeaf(st, p, "", t, u.term(v))
}

// newObj allocates a zeroed object of type t.
func (u *Unit) newObj(st *State, t types.Type) *Term {
	r := u.alloc(st)
	p := &Ptr{Base: r, Root: t, T: t}
	if a, ok := isArrayT(t); ok {
		u.zeroArray(st, r, a.Elem(), a.Len())
		return r
	}
	u.store(st, p, t, u.zeroVal(t))
	return r
}

func (u *Unit) zeroArray(st *State, r *Term, elem types.Type, n int64) {
	c := u.c
	for _, l := range leaves(elem) {
		name := elemRegion(elem, l.path)
		u.region(st, name, l.t, 2, SInt)
		u.setRegion(st, name, r, c.ConstArr(arr(SInt, l.sort), u.zeroTerm(l.t)))
	}
}

// ---- interfaces ----

func (u *Unit) makeIface(st *State, v Val, t types.Type) *Term {
	c := u.c
	if _, ok := t.Underlying().(*types.Interface); ok {
		return u.term(v)
	}
	tag := c.Int(u.e.tag(t))
	if isStruct(t) {
		r := u.alloc(st)
		p := &Ptr{Base: r, Root: t, T: t}
		sv := v.(*StructV)
		for _, l := range leaves(t) {
			n := "B:" + typeKey(t) + l.path
			u.region(st, n, l.t, 1, SInt)
			u.setRegion(st, n, r, sv.F[l.path])
		}
		_ = p
		return c.MkIf(tag, r)
	}
	x := u.term(v)
	return c.MkIf(tag, u.box(x, t))
}

func (u *Unit) box(x *Term, t types.Type) *Term {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return x
	}
	return u.c.App("box_"+boxName(x.Sort), SInt, x)
}

func boxName(s Sort) string {
	r := strings.NewReplacer("(", "", ")", "", " ", "_")
	return r.Replace(string(s))
}

// unbox reads a value of concrete type t from an interface whose tag is known to be t's.
func (u *Unit) unbox(st *State, v *Term, t types.Type) Val {
	c := u.c
	iv := c.IVal(v)
	if isStruct(t) {
		sv := &StructV{T: t, F: map[string]*Term{}}
		for _, l := range leaves(t) {
			n := "B:" + typeKey(t) + l.path
			r := u.region(st, n, l.t, 1, SInt)
			sv.F[l.path] = c.Select(r, iv)
		}
		return sv
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		st.assume(u.typeFact(iv, t, st.next))
		return iv
	}
	s := mustSort(t)
	x := c.App("unbox_"+boxName(s), s, iv)
	return u.typedLoad(st, x, t)
}

// ---- maps ----

func mapSorts(t types.Type) (*types.Map, Sort, Sort) {
	m := t.Underlying().(*types.Map)
	ks := mustSort(m.Key())
	return m, ks, ""
}

func (u *Unit) mapDom(st *State, t types.Type) (string, *Term) {
	m, ks, _ := mapSorts(t)
	n := "MD:" + typeKey(t.Underlying())
	u.maptypes[n] = m
	return n, u.region(st, n, types.Typ[types.Bool], 2, ks)
}

func (u *Unit) mapVals(st *State, t types.Type) ([]string, []leaf) {
	m, ks, _ := mapSorts(t)
	var names []string
	ls := leaves(m.Elem())
	for _, l := range ls {
		n := "MV:" + typeKey(t.Underlying()) + l.path
		u.region(st, n, l.t, 2, ks)
		names = append(names, n)
	}
	return names, ls
}

func (u *Unit) mapLookup(st *State, t types.Type, m, k *Term) (Val, *Term) {
	c := u.c
	mt, _, _ := mapSorts(t)
	_, d := u.mapDom(st, t)
	u.sharedElem(st, mt.Elem(), "table entry", m, false)
	dom := c.Select(c.Select(d, m), k)
	if m.isInt(0) {
		dom = c.False
	} else if _, ok := mt.Elem().Underlying().(*types.Basic); ok && dom != c.False && !dom.bv {
		st.assume(c.Implies(dom, c.Not(c.Eq(m, c.Int(0))))) // a nil map has no entries
	}
	names, ls := u.mapVals(st, t)
	if isStruct(mt.Elem()) {
		sv := &StructV{T: mt.Elem(), F: map[string]*Term{}}
		for i, l := range ls {
			sv.F[l.path] = c.Ite(dom, c.Select(c.Select(st.heap[names[i]], m), k), u.zeroTerm(l.t))
		}
		return sv, dom
	}
	raw := c.Select(c.Select(st.heap[names[0]], m), k)
	u.typedLoad(st, raw, mt.Elem())
	return c.Ite(dom, raw, u.zeroTerm(mt.Elem())), dom
}

func (u *Unit) mapUpdate(st *State, t types.Type, m, k *Term, v Val) {
	c := u.c
	mt, _, _ := mapSorts(t)
	dn, d := u.mapDom(st, t)
	u.sharedElem(st, mt.Elem(), "table entry", m, true)
	u.setRegion(st, dn, m, c.Store(c.Select(d, m), k, c.True))
	names, ls := u.mapVals(st, t)
	for i, l := range ls {
		var x *Term
		if isStruct(mt.Elem()) {
			x = v.(*StructV).F[l.path]
		} else {
			x = u.term(v)
		}
		r := st.heap[names[i]]
		u.setRegion(st, names[i], m, c.Store(c.Select(r, m), k, x))
	}
}

func (u *Unit) mapDelete(st *State, t types.Type, m, k *Term) {
	c := u.c
	dn, d := u.mapDom(st, t)
	u.sharedElem(st, t.Underlying().(*types.Map).Elem(), "table entry", m, true)
	u.setRegion(st, dn, m, c.Store(c.Select(d, m), k, c.False))
}

func (u *Unit) makeMap(st *State, t types.Type) *Term {
	c := u.c
	r := u.alloc(st)
	_, ks, _ := mapSorts(t)
	dn, _ := u.mapDom(st, t)
	u.setRegion(st, dn, r, c.ConstArr(arr(ks, SBool), c.False))
	return r
}

// ---- slices ----

// elemsOf returns the content array (leaf path "") of a slice of scalars.
func (u *Unit) elemArr(st *State, elem types.Type, path string, t types.Type, base *Term) *Term {
	r := u.region(st, elemRegion(elem, path), t, 2, SInt)
	return u.c.Select(r, base)
}

func (u *Unit) sliceElem(s Val, t types.Type, i *Term) *Ptr {
	c := u.c
	sl := u.term(s)
	elem := t.Underlying().(*types.Slice).Elem()
	return &Ptr{Elem: true, Base: c.SBase(sl), Idx: c.Idx(c.SOff(sl), i), Root: elem, T: elem}
}

// appendVals models append(s, vs...): in place when the capacity suffices, into a fresh array otherwise.
// The fresh array keeps the layout of the old one, which is not observable.
func (u *Unit) appendVals(st *State, s *Term, elem types.Type, vs []Val) *Term {
	c := u.c
	if len(vs) == 0 {
		return s
	}
	n := c.Add(c.SLen(s), c.Int(int64(len(vs))))
	fr := u.alloc(st)
	fits := c.Le(n, c.SCap(s))
	base := c.Ite(fits, c.SBase(s), fr)
	var ncap *Term
	if fits.Op == "true" {
		ncap = c.SCap(s)
	} else {
		fc := c.Fresh("cap", SInt)
		st.assume(c.Le(n, fc))
		ncap = c.Ite(fits, c.SCap(s), fc)
	}
	for _, l := range leaves(elem) {
		name := elemRegion(elem, l.path)
		r := u.region(st, name, l.t, 2, SInt)
		in := c.Select(r, c.SBase(s))
		if c.SBase(s).isInt(0) {
			in = c.ConstArr(arr(SInt, l.sort), u.zeroTerm(l.t))
		}
		for i, v := range vs {
			var x *Term
			if sv, ok := v.(*StructV); ok {
				x = sv.F[l.path]
			} else {
				x = u.term(v)
			}
			in = c.Store(in, c.Idx(c.SOff(s), c.Add(c.SLen(s), c.Int(int64(i)))), x)
		}
		u.setRegion(st, name, base, in)
	}
	return c.MkSlice(base, c.SOff(s), n, ncap)
}

// newSlice makes a slice with the given content array (scalars only), offset 0 and cap = len.
func (u *Unit) newSlice(st *State, elem types.Type, content, n *Term) *Term {
	c := u.c
	r := u.alloc(st)
	name := elemRegion(elem, "")
	u.region(st, name, elem, 2, SInt)
	u.setRegion(st, name, r, content)
	return c.MkSlice(r, c.Int(0), n, n)
}

func (u *Unit) bytesToStr(st *State, s *Term, elem types.Type) *Term {
	a := u.elemArr(st, elem, "", elem, u.c.SBase(s))
	return u.c.App("bytes2str", SStr, a, u.c.SOff(s), u.c.SLen(s))
}
