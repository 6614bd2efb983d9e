package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (u *Unit) call(st *State, cc *ssa.CallCommon, dest ssa.Value, _ interface{}) []*State {
	var args []Val
	for _, a := range cc.Args {
		args = append(args, u.eval(st, a))
	}
	var fn Val
	if cc.IsInvoke() {
		fn = u.eval(st, cc.Value)
	} else {
		fn = u.eval2(st, cc.Value)
	}
	var in ssa.Instruction
	if d, ok := dest.(ssa.Instruction); ok {
		in = d
	}
	return u.callWith(st, cc, fn, args, dest, in)
}

func (u *Unit) setRes(st *State, dest ssa.Value, res ...Val) {
	if dest == nil {
		return
	}
	if tp, ok := dest.Type().(*types.Tuple); ok {
		if tp.Len() == 0 {
			return
		}
		u.set(st, dest, Tuple(res))
		return
	}
	if len(res) == 1 {
		u.set(st, dest, res[0])
	}
}

func (u *Unit) callWith(st *State, cc *ssa.CallCommon, fn Val, args []Val, dest ssa.Value, in ssa.Instruction) []*State {
	c := u.c
	if cc.IsInvoke() {
		recv := u.term(fn)
		u.check(st, "panic", "method call on nil interface", in, c.Not(c.Eq(c.ITag(recv), c.Int(0))))
		if n, ok := c.ITag(recv).litInt(); ok {
			if t := u.e.tagType(n); t != nil && !isExtType(t) {
				ms := u.e.prog.MethodSets.MethodSet(t)
				if sel := ms.Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
					if m := u.e.prog.MethodValue(sel); m != nil && u.e.inRepo(m) {
						return u.static(st, m, append([]Val{u.unbox(st, recv, t)}, args...), nil, dest, in)
					}
				}
			}
		}
		return u.invoke(st, cc, recv, args, dest, in)
	}
	switch f := fn.(type) {
	case *ssa.Builtin:
		return u.builtin(st, f, cc, args, dest, in)
	case *FuncV:
		if f.Fn == nil {
			u.check(st, "panic", "call of nil function", in, c.False)
			st.end = "dead"
			return nil
		}
		return u.static(st, f.Fn, args, f.Binds, dest, in)
	}
	// unknown function value
	u.assumed["call of an unknown function value in "+fnKey(st.top().fn)] = true
	u.setFresh(st, dest, "fv")
	return nil
}

func (u *Unit) setFresh(st *State, dest ssa.Value, name string) {
	if dest == nil {
		return
	}
	if tp, ok := dest.Type().(*types.Tuple); ok && tp.Len() == 0 {
		return
	}
	v := u.freshVal(st, name, dest.Type())
	u.set(st, dest, v)
}

// static calls a known function: by contract, by inlining, or as an external.
func (u *Unit) static(st *State, fn *ssa.Function, args []Val, binds []Val, dest ssa.Value, in ssa.Instruction) []*State {
	if u.e.inRepo(fn) {
		key := fnKey(fn)
		if sp := u.e.specs.Funcs[key]; sp != nil && sp.callable(u) && !u.noContr[key] && !u.inlineCallee(key) && fn != u.fn && (!u.syncs || hasLabel(sp.Syncs, u.prop)) {
			u.used[key] = true
			return u.applyContract(st, sp, fn, args, dest, in)
		}
		if len(st.frames) > 60 {
			panic(unsup("call depth"))
		}
		if fn != u.fn {
			u.inlined[key] = true
		}
		f := u.newFrame(fn, args, dest)
		for i, fv := range fn.FreeVars {
			f.regs[fv] = binds[i]
		}
		st.frames = append(st.frames, f)
		return nil
	}
	if u.syncs {
		u.syncExtern(st, fn, args)
	}
	return u.extern(st, extName(fn), fn, args, dest, in)
}

// inlineCallee reports whether the contract asks for the body of a callee instead of its contract.
func (u *Unit) inlineCallee(key string) bool {
	if u.spec == nil {
		return false
	}
	for _, x := range strings.Fields(u.spec.Opts["bodies"]) {
		if strings.HasSuffix(key, x) {
			return true
		}
	}
	return false
}

func (u *Unit) builtin(st *State, f *ssa.Builtin, cc *ssa.CallCommon, args []Val, dest ssa.Value, in ssa.Instruction) []*State {
	c := u.c
	switch f.Name() {
	case "len", "cap":
		x := u.term(args[0])
		t := cc.Args[0].Type().Underlying()
		switch t := t.(type) {
		case *types.Slice:
			if f.Name() == "cap" {
				u.setRes(st, dest, c.SCap(x))
			} else {
				u.setRes(st, dest, c.SLen(x))
			}
		case *types.Basic:
			u.setRes(st, dest, c.StrLen(x))
		case *types.Array:
			u.setRes(st, dest, c.Int(t.Len()))
		case *types.Pointer:
			u.setRes(st, dest, c.Int(t.Elem().Underlying().(*types.Array).Len()))
		case *types.Map:
			_, d := u.mapDom(st, t)
			n := c.App("card:"+string(d.Sort), SInt, c.Select(d, x))
			k := c.Fresh("mk", mustSort(t.Key()))
			st.assume(c.Le(c.Int(0), n))
			// positive exactly if some key is present (witness k)
			st.assume(c.Implies(c.Lt(c.Int(0), n), c.Select(c.Select(d, x), k)))
			kv := c.FreshBVar("k", mustSort(t.Key()))
			st.assume(c.Implies(c.Eq(n, c.Int(0)), c.Forall([]*Term{kv}, c.Not(c.Select(c.Select(d, x), kv)), []*Term{c.Select(c.Select(d, x), kv)})))
			u.setRes(st, dest, n)
		default:
			panic(unsup("len of " + typeKey(t)))
		}
	case "append":
		s := u.term(args[0])
		elem := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		y := u.term(args[1])
		if y.Sort == SStr {
			u.setRes(st, dest, u.appendStr(st, s, elem, y))
			return nil
		}
		// a literal number of elements
		if n, ok := c.SLen(y).litInt(); ok && n <= 12 {
			var vs []Val
			for i := int64(0); i < n; i++ {
				p := &Ptr{Elem: true, Base: c.SBase(y), Idx: c.Idx(c.SOff(y), c.Int(i)), Root: elem, T: elem}
				vs = append(vs, u.load(st, p, elem))
			}
			u.setRes(st, dest, u.appendVals(st, s, elem, vs))
			return nil
		}
		u.setRes(st, dest, u.appendSlice(st, s, elem, y))
	case "copy":
		d := u.term(args[0])
		elem := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		y := u.term(args[1])
		var n, src, so *Term
		var ylen *Term
		if y.Sort == SStr {
			ylen = c.StrLen(y)
			src, so = c.App("bytes_of", arr(SInt, SInt), y), c.Int(0)
		} else {
			ylen = c.SLen(y)
			src, so = u.elemArr(st, elem, "", elem, c.SBase(y)), c.SOff(y)
		}
		if isStruct(elem) {
			panic(unsup("copy of structs"))
		}
		n = c.Ite(c.Le(ylen, c.SLen(d)), ylen, c.SLen(d))
		old := u.elemArr(st, elem, "", elem, c.SBase(d))
		nw := c.Fresh("copy", old.Sort)
		i := c.FreshBVar("i", SInt)
		in := c.And(c.Le(c.Int(0), i), c.Lt(i, n))
		at := c.Idx(c.SOff(d), i)
		st.assume(c.Forall([]*Term{i}, c.Implies(in, c.Eq(c.Select(nw, at), c.Select(src, c.Idx(so, i)))), []*Term{c.Select(nw, at)}))
		st.assume(c.Forall([]*Term{i}, c.Or(c.And(c.Le(c.SOff(d), i), c.Lt(i, c.Add(c.SOff(d), n))), c.Eq(c.Select(nw, i), c.Select(old, i))), []*Term{c.Select(nw, i)}))
		u.setRegion(st, elemRegion(elem, ""), c.SBase(d), nw)
		u.setRes(st, dest, n)
	case "delete":
		u.mapDelete(st, cc.Args[0].Type(), u.term(args[0]), u.term(args[1]))
	case "print", "println":
	case "panic":
		u.check(st, "panic", "explicit panic", in, c.False)
		st.end = "panic"
	case "ssa:wrapnilchk":
		u.setRes(st, dest, args[0])
	case "min", "max":
		x, y := u.term(args[0]), u.term(args[1])
		if f.Name() == "max" {
			u.setRes(st, dest, c.Ite(c.Le(x, y), y, x))
		} else {
			u.setRes(st, dest, c.Ite(c.Le(x, y), x, y))
		}
	default:
		panic(unsup("builtin " + f.Name()))
	}
	return nil
}

// appendSlice models append(s, t...) with t of unknown length.
func (u *Unit) appendSlice(st *State, s *Term, elem types.Type, y *Term) *Term {
	c := u.c
	m := c.SLen(y)
	n := c.Add(c.SLen(s), m)
	fr := u.alloc(st)
	fits := c.Le(n, c.SCap(s))
	base := c.Ite(fits, c.SBase(s), fr)
	fc := c.Fresh("cap", SInt)
	st.assume(c.Le(n, fc))
	ncap := c.Ite(fits, c.SCap(s), fc)
	for _, l := range leaves(elem) {
		name := elemRegion(elem, l.path)
		r := u.region(st, name, l.t, 2, SInt)
		old := c.Select(r, c.SBase(s))
		src := c.Select(r, c.SBase(y))
		nw := c.Fresh("app", old.Sort)
		i := c.FreshBVar("i", SInt)
		// appended part
		at := c.Idx(c.SOff(s), c.Add(c.SLen(s), i))
		k := c.FreshBVar("k", SInt)
		st.assume(c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, m)), c.Eq(c.Select(nw, at), c.Select(src, c.Idx(c.SOff(y), i)))), []*Term{c.Select(src, c.Idx(c.SOff(y), i))}))
		// everything below keeps its value
		st.assume(c.Forall([]*Term{k}, c.Implies(c.And(c.Le(c.SLen(s), k), c.Lt(k, n)), c.Eq(c.Select(nw, c.Idx(c.SOff(s), k)), c.Select(src, c.Idx(c.SOff(y), c.Sub(k, c.SLen(s)))))), []*Term{c.Select(nw, c.Idx(c.SOff(s), k))}))
		st.assume(c.Forall([]*Term{k}, c.Implies(c.And(c.Le(c.Int(0), k), c.Lt(k, c.SLen(s))), c.Eq(c.Select(nw, c.Idx(c.SOff(s), k)), c.Select(old, c.Idx(c.SOff(s), k)))), []*Term{c.Select(nw, c.Idx(c.SOff(s), k))}))
		// positions outside the appended part, for sharing in place
		st.assume(c.Forall([]*Term{k}, c.Or(c.And(c.Le(c.Add(c.SOff(s), c.SLen(s)), k), c.Lt(k, c.Add(c.SOff(s), n))), c.Eq(c.Select(nw, k), c.Select(old, k))), []*Term{c.Select(nw, k)}))
		u.setRegion(st, name, base, nw)
		if isByte(elem) {
			// as strings: concatenation
			a := c.App("bytes2str", SStr, old, c.SOff(s), c.SLen(s))
			b := c.App("bytes2str", SStr, src, c.SOff(y), m)
			st.assume(c.mkEqRaw(c.App("bytes2str", SStr, nw, c.SOff(s), n), c.Concat(a, b)))
		}
	}
	return c.MkSlice(base, c.SOff(s), n, ncap)
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (u *Unit) appendStr(st *State, s *Term, elem types.Type, y *Term) *Term {
	c := u.c
	tmp := u.newSlice(st, elem, c.App("bytes_of", arr(SInt, SInt), y), c.StrLen(y))
	return u.appendSlice(st, s, elem, tmp)
}

// ---- globals ----

func (e *Engine) globalByRef(r int64) *ssa.Global {
	for g, k := range e.gref {
		if k == r {
			return g
		}
	}
	return nil
}

type ginit struct {
	lit    map[string]interface{} // leaf path -> constant
	regex  string
	isRe   bool
	mapLit map[string]bool
	opaque bool
	nonnil bool
}

// globalVal: the value of a package variable that nothing writes after initialisation.
func (u *Unit) globalVal(st *State, g *ssa.Global, path string, t types.Type) Val {
	if !u.e.frozen[g] {
		return nil
	}
	gi := u.e.ginit(g)
	if gi == nil {
		return nil
	}
	c := u.c
	if isStruct(t) {
		sv := &StructV{T: t, F: map[string]*Term{}}
		for _, l := range leaves(t) {
			x := u.globalLeaf(st, g, gi, path+l.path, l.t)
			if x == nil {
				return nil
			}
			sv.F[l.path] = x
		}
		return sv
	}
	_ = c
	x := u.globalLeaf(st, g, gi, path, t)
	if x == nil {
		return nil
	}
	return x
}

func (u *Unit) globalLeaf(st *State, g *ssa.Global, gi *ginit, path string, t types.Type) *Term {
	c := u.c
	if gi.isRe {
		x := c.Sym("global:"+g.Name(), SInt)
		c.symFact[x] = []*Term{c.Lt(c.Int(0), x), c.Lt(x, c.Int(900))}
		u.ghostRegion(st, "G:regex", SStr)
		st.assume(c.Eq(c.Select(u.init0["G:regex"], x), c.Str(gi.regex)))
		return x
	}
	if gi.mapLit != nil {
		x := c.Sym("global:"+g.Name(), SInt)
		c.symFact[x] = []*Term{c.Lt(c.Int(0), x), c.Lt(x, c.Int(900))}
		return x
	}
	if v, ok := gi.lit[path]; ok {
		switch v := v.(type) {
		case string:
			return c.Str(v)
		case bool:
			return c.Bool(v)
		case *big.Int:
			return c.BigInt(v)
		}
	}
	s, ok := sortOf(t)
	if !ok {
		return nil
	}
	if gi.lit != nil && !gi.opaque {
		return u.zeroTerm(t)
	}
	x := c.Sym("global:"+g.Name()+path, s)
	if gi.nonnil && s == SInt {
		c.symFact[x] = []*Term{c.Lt(c.Int(0), x), c.Lt(x, c.Int(900))}
	}
	return x
}

// lookupMap: map read, with the contents of frozen literal maps known.
func (u *Unit) lookupMap(st *State, v ssa.Value, x Val, k *Term) (Val, *Term) {
	c := u.c
	m := u.term(x)
	if m.Op == "sym" && strings.HasPrefix(m.Name, "global:") {
		for g := range u.e.gref {
			if "global:"+g.Name() == m.Name {
				if gi := u.e.ginit(g); gi != nil && gi.mapLit != nil {
					var ors []*Term
					val := c.False
					for _, key := range sortedKeys(gi.mapLit) {
						e := c.Eq(k, c.Str(key))
						ors = append(ors, e)
						if gi.mapLit[key] {
							val = c.Or(val, e)
						}
					}
					return val, c.Or(ors...)
				}
			}
		}
	}
	return u.mapLookup(st, v.Type(), m, k)
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sortStrings(out)
	return out
}

// ginit reads the initial value of a global from the package initialisers.
func (e *Engine) ginit(g *ssa.Global) *ginit {
	e.lmu.Lock()
	defer e.lmu.Unlock()
	if e.ginits == nil {
		e.ginits = map[*ssa.Global]*ginit{}
	}
	if r, ok := e.ginits[g]; ok {
		return r
	}
	gi := &ginit{lit: map[string]interface{}{}}
	stores := 0
	var handle func(path string, v ssa.Value)
	var addrUses func(path string, v ssa.Value, init bool)
	handle = func(path string, v ssa.Value) {
		stores++
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value == nil {
				gi.lit[path] = nil
				delete(gi.lit, path)
				return
			}
			cx := NewCtx()
			uu := &Unit{c: cx}
			t := uu.constVal(v).(*Term)
			switch t.Op {
			case "str":
				gi.lit[path] = t.Name
			case "true", "false":
				gi.lit[path] = t.Op == "true"
			case "int":
				gi.lit[path] = t.Int
			default:
				gi.opaque = true
			}
		case *ssa.Call:
			if f := v.Call.StaticCallee(); f != nil {
				n := extName(f)
				if n == "regexp.MustCompile" {
					if s, ok := constStr(v.Call.Args[0]); ok {
						gi.isRe = true
						gi.regex = s
						return
					}
				}
				if strings.HasPrefix(f.Name(), "New") || strings.HasPrefix(f.Name(), "Must") {
					gi.nonnil = true
				}
			}
			gi.opaque = true
		case *ssa.MakeMap:
			m := map[string]bool{}
			ok := true
			for _, r := range *v.Referrers() {
				switch r := r.(type) {
				case *ssa.MapUpdate:
					k, ok1 := constStr(r.Key)
					c, ok2 := r.Value.(*ssa.Const)
					if !ok1 || !ok2 || c.Value == nil {
						ok = false
						break
					}
					m[k] = c.Value.String() == "true"
				case *ssa.Store, *ssa.DebugRef:
				default:
					ok = false
				}
			}
			mt := v.Type().Underlying().(*types.Map)
			if b, isB := mt.Elem().Underlying().(*types.Basic); !isB || b.Kind() != types.Bool {
				ok = false
			}
			if ok && e.mapReadOnly(g) {
				gi.mapLit = m
				return
			}
			gi.opaque = true
		case *ssa.UnOp:
			// a composite literal built in a temporary
			if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL && onlyInitialised(a) {
				addrUses(path, a, true)
				return
			}
			gi.opaque = true
		default:
			gi.opaque = true
		}
	}
	addrUses = func(path string, v ssa.Value, init bool) {
		refs := v.Referrers()
		if refs == nil {
			return
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					handle(path, r.Val)
				}
			case *ssa.FieldAddr:
				st := derefType(r.X.Type()).Underlying().(*types.Struct)
				addrUses(path+"."+st.Field(r.Field).Name(), r, init)
			}
		}
	}
	for _, fn := range e.funcs {
		if fn.Name() != "init" && !strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		seen := map[ssa.Instruction]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) || seen[in] {
						continue
					}
					seen[in] = true
					switch in := in.(type) {
					case *ssa.Store:
						if in.Addr == ssa.Value(g) {
							handle("", in.Val)
						} else {
							gi.opaque = true
						}
					case *ssa.FieldAddr:
						st := derefType(in.X.Type()).Underlying().(*types.Struct)
						addrUses("."+st.Field(in.Field).Name(), in, true)
					case *ssa.UnOp:
					default:
						gi.opaque = true
					}
				}
			}
		}
	}
	e.ginits[g] = gi
	return gi
}

// onlyInitialised: a temporary is only stored to, field by field, and read as a whole.
func onlyInitialised(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != v {
				return false
			}
		case *ssa.FieldAddr:
			if !onlyInitialised(r) {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

func constStr(v ssa.Value) (string, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		if b, ok := v.(*ssa.BinOp); ok {
			x, ok1 := constStr(b.X)
			y, ok2 := constStr(b.Y)
			return x + y, ok1 && ok2
		}
		return "", false
	}
	cx := NewCtx()
	uu := &Unit{c: cx}
	t := uu.constVal(c).(*Term)
	if t.Op != "str" {
		return "", false
	}
	return t.Name, true
}

// mapReadOnly: outside initialisers the map in g is only read.
func (e *Engine) mapReadOnly(g *ssa.Global) bool {
	for _, fn := range e.funcs {
		if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(g) {
						continue
					}
					ld, ok := in.(*ssa.UnOp)
					if !ok {
						return false
					}
					for _, r := range *ld.Referrers() {
						switch r := r.(type) {
						case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
						case *ssa.Call:
							if bi, ok := r.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
								return false
							}
						default:
							return false
						}
					}
				}
			}
		}
	}
	return true
}

func (u *Unit) unknownExtern(name string) string { return fmt.Sprintf("external %s", name) }
