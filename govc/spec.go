package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Clause is one named condition of a contract.
type Clause struct {
	Name   string
	Labels []string
	Expr   ast.Expr
	Src    string
	Case   ast.Expr // only on paths where this holds
	Kind   string
}

type FuncSpec struct {
	Key      string
	Params   []string
	Results  []string
	Requires []*Clause
	Ensures  []*Clause
	LoopInv  []*Clause
	Modifies []string
	Lets     map[string]ast.Expr
	Lemma    bool     // may be used at call sites
	Pure     bool     // changes nothing
	Panics   []string // labels for which absence of panics is an obligation
	Locks    []string
	Syncs    []string // labels for which unsynchronised use of state that outlives the call is excluded
	Split    []ast.Expr
	Inline   bool
	file     string
	Opts     map[string]string
	Decode   []*Clause // assumptions about a decoded database file
	Frame    *Clause
}

func (s *FuncSpec) callable(u *Unit) bool { return s.Lemma }

type Pred struct {
	Params []string
	Body   ast.Expr
	Opaque bool
}

type SpecDB struct {
	Funcs map[string]*FuncSpec
	Order []string
	Preds map[string]*Pred
	UFuns map[string][]Sort // argument sorts..., result
}

var labelRe = regexp.MustCompile(`^\[([A-Z0-9, ]+)\]\s*`)
var nameRe = regexp.MustCompile(`^([a-zA-Z0-9_ -]+):\s+`)

func LoadSpecs(dir string) (*SpecDB, error) {
	db := &SpecDB{Funcs: map[string]*FuncSpec{}, Preds: map[string]*Pred{}, UFuns: map[string][]Sort{}}
	fs, _ := filepath.Glob(filepath.Join(dir, "*.gspec"))
	sort.Strings(fs)
	for _, f := range fs {
		if err := db.load(f); err != nil {
			return nil, err
		}
	}
	return db, nil
}

func (db *SpecDB) load(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	type item struct {
		line int
		txt  string
	}
	var items []item
	kw := regexp.MustCompile(`^(func|pred|opaque|ufunc|requires|ensures|case|endcase|modifies|loopinv|let|lemma|pure|panicfree|locked|synchronized|option|inline|decode)\b`)
	for i, l := range strings.Split(string(data), "\n") {
		if k := strings.Index(l, "//"); k >= 0 && !strings.Contains(l[:k], `"`) {
			l = l[:k]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		if kw.MatchString(t) {
			items = append(items, item{i + 1, t})
		} else if len(items) > 0 {
			items[len(items)-1].txt += " " + t
		} else {
			return fmt.Errorf("%s:%d: unexpected %q", file, i+1, t)
		}
	}
	var cur *FuncSpec
	var cs ast.Expr
	csName := ""
	for _, it := range items {
		fail := func(e error) error { return fmt.Errorf("%s:%d: %v in %q", file, it.line, e, it.txt) }
		w := it.txt
		k := strings.IndexAny(w, " \t")
		rest := ""
		if k >= 0 {
			rest = strings.TrimSpace(w[k:])
			w = w[:k]
		}
		clause := func() (*Clause, error) {
			c := &Clause{Src: rest, Case: cs, Kind: w}
			if m := labelRe.FindStringSubmatch(rest); m != nil {
				for _, l := range strings.Split(m[1], ",") {
					c.Labels = append(c.Labels, strings.TrimSpace(l))
				}
				rest = rest[len(m[0]):]
			}
			if m := nameRe.FindStringSubmatch(rest); m != nil {
				c.Name = strings.TrimSpace(m[1])
				rest = rest[len(m[0]):]
			}
			if c.Name == "" {
				c.Name = fmt.Sprintf("%s line %d", filepath.Base(file), it.line)
			}
			if csName != "" {
				c.Name = c.Name + " (" + csName + ")"
			}
			e, err := parser.ParseExpr(rest)
			c.Expr = e
			return c, err
		}
		switch w {
		case "func":
			m := regexp.MustCompile(`^(\S+?[\w])\(([^()]*)\)(?:\s*\(([^()]*)\))?$`).FindStringSubmatch(rest)
			if m == nil {
				return fail(fmt.Errorf("bad func header"))
			}
			cur = &FuncSpec{Key: m[1], Lets: map[string]ast.Expr{}, file: filepath.Base(file), Opts: map[string]string{}}
			split := func(s string) []string {
				var out []string
				for _, x := range strings.Split(s, ",") {
					if x = strings.TrimSpace(x); x != "" {
						out = append(out, x)
					}
				}
				return out
			}
			cur.Params, cur.Results = split(m[2]), split(m[3])
			cs, csName = nil, ""
			if old := db.Funcs[cur.Key]; old != nil {
				// more clauses for the same function
				if strings.Join(old.Params, ",") != strings.Join(cur.Params, ",") || strings.Join(old.Results, ",") != strings.Join(cur.Results, ",") {
					return fail(fmt.Errorf("contract with other names"))
				}
				cur = old
				break
			}
			db.Funcs[cur.Key] = cur
			db.Order = append(db.Order, cur.Key)
			cs, csName = nil, ""
		case "pred", "opaque":
			m := regexp.MustCompile(`^(\w+)\(([^()]*)\)\s*:=\s*(.*)$`).FindStringSubmatch(rest)
			if m == nil {
				return fail(fmt.Errorf("bad pred"))
			}
			p := &Pred{}
			for _, x := range strings.Split(m[2], ",") {
				if x = strings.TrimSpace(x); x != "" {
					p.Params = append(p.Params, x)
				}
			}
			e, err := parser.ParseExpr(m[3])
			if err != nil {
				return fail(err)
			}
			p.Body = e
			if p.Opaque = w == "opaque"; p.Opaque {
				ast.Inspect(e, func(n ast.Node) bool {
					if _, ok := n.(*ast.SelectorExpr); ok {
						err = fmt.Errorf("an opaque definition may only use values")
					}
					return err == nil
				})
				if err != nil {
					return fail(err)
				}
			}
			db.Preds[m[1]] = p
		case "ufunc":
			m := regexp.MustCompile(`^(\w+)\(([^()]*)\)\s*(\w+)$`).FindStringSubmatch(rest)
			if m == nil {
				return fail(fmt.Errorf("bad ufunc"))
			}
			sm := map[string]Sort{"Int": SInt, "Str": SStr, "Bool": SBool, "Time": STime, "Iface": SIface, "Real": SReal}
			var ss []Sort
			for _, x := range strings.Split(m[2], ",") {
				if x = strings.TrimSpace(x); x != "" {
					ss = append(ss, sm[x])
				}
			}
			db.UFuns[m[1]] = append(ss, sm[m[3]])
		case "let":
			i := strings.Index(rest, "=")
			e, err := parser.ParseExpr(rest[i+1:])
			if err != nil {
				return fail(err)
			}
			cur.Lets[strings.TrimSpace(rest[:i])] = e
		case "requires", "ensures", "loopinv", "decode":
			c, err := clause()
			if err != nil {
				return fail(err)
			}
			switch w {
			case "requires":
				cur.Requires = append(cur.Requires, c)
			case "ensures":
				cur.Ensures = append(cur.Ensures, c)
			case "decode":
				cur.Decode = append(cur.Decode, c)
			default:
				cur.LoopInv = append(cur.LoopInv, c)
			}
		case "case":
			i := strings.Index(rest, ": ")
			csName = strings.TrimSpace(rest[:i])
			e, err := parser.ParseExpr(rest[i+1:])
			if err != nil {
				return fail(err)
			}
			cs = e
		case "endcase":
			cs, csName = nil, ""
		case "modifies":
			for _, x := range strings.Split(rest, ";") {
				cur.Modifies = append(cur.Modifies, strings.TrimSpace(x))
			}
		case "lemma":
			cur.Lemma = true
		case "pure":
			cur.Pure = true
		case "inline":
			cur.Inline = true
		case "panicfree":
			cur.Panics = append(cur.Panics, strings.Fields(strings.Trim(strings.ReplaceAll(rest, ",", " "), "[]"))...)
		case "locked":
			cur.Locks = append(cur.Locks, strings.Fields(strings.Trim(strings.ReplaceAll(rest, ",", " "), "[]"))...)
		case "synchronized":
			cur.Syncs = append(cur.Syncs, strings.Fields(strings.Trim(strings.ReplaceAll(rest, ",", " "), "[]"))...)
		case "option":
			kv := strings.SplitN(rest, "=", 2)
			v := ""
			if len(kv) == 2 {
				v = strings.TrimSpace(kv[1])
			}
			cur.Opts[strings.TrimSpace(kv[0])] = v
		}
	}
	return nil
}

// ---- evaluation ----

// SV is a specification value: a program value with its Go type (nil for specification sorts).
type SV struct {
	v Val
	t types.Type
}

type Env struct {
	u       *Unit
	sp      *FuncSpec
	vars    map[string]SV
	cur     *State
	old     *State
	pkg     *types.Package
	lets    map[string]ast.Expr
	dep     int
	visited *Term // the keys a loop over a map has visited
	call    bool  // the contract is used at a call
}

type specErr struct{ msg string }

func (en *Env) fail(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (en *Env) with(st *State) *Env { n := *en; n.cur = st; return &n }

func (en *Env) bind(name string, v SV) *Env {
	n := *en
	n.vars = make(map[string]SV, len(en.vars)+1)
	for k, x := range en.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

// reading must not add facts or record accesses
func (en *Env) quietly(f func() Val) Val {
	u := en.u
	l := u.locks
	u.locks = false
	defer func() { u.locks = l }()
	return f()
}

func (en *Env) term(e ast.Expr) *Term {
	v := en.eval(e)
	switch x := v.v.(type) {
	case *Term:
		return x
	case *Ptr:
		return en.u.ptrTerm(x)
	}
	en.fail("not a scalar: %s", exprStr(e))
	return nil
}

func (en *Env) bool(e ast.Expr) *Term {
	t := en.term(e)
	if t.Sort != SBool {
		en.fail("not a condition: %s", exprStr(e))
	}
	return t
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

var intT types.Type = types.Typ[types.Int]
var boolT types.Type = types.Typ[types.Bool]

func (en *Env) eval(e ast.Expr) SV {
	c := en.u.c
	switch e := e.(type) {
	case *ast.ParenExpr:
		return en.eval(e.X)
	case *ast.BasicLit:
		switch e.Kind {
		case token.INT:
			n, ok := new(big.Int).SetString(e.Value, 0)
			if !ok {
				en.fail("literal %s", e.Value)
			}
			return SV{c.BigInt(n), intT}
		case token.STRING:
			s, _ := strconv.Unquote(e.Value)
			return SV{c.Str(s), stringT}
		}
	case *ast.Ident:
		if v, ok := en.vars[e.Name]; ok {
			return v
		}
		switch e.Name {
		case "true":
			return SV{c.True, boolT}
		case "false":
			return SV{c.False, boolT}
		case "nil":
			return SV{nil, nil}
		}
		if l, ok := en.lets[e.Name]; ok {
			return en.eval(l)
		}
		en.fail("unknown name %s", e.Name)
	case *ast.UnaryExpr:
		switch e.Op {
		case token.NOT:
			return SV{c.Not(en.bool(e.X)), boolT}
		case token.SUB:
			return SV{c.Neg(en.term(e.X)), intT}
		}
	case *ast.BinaryExpr:
		return en.binary(e)
	case *ast.SelectorExpr:
		x := en.eval(e.X)
		return en.field(x, e.Sel.Name)
	case *ast.IndexExpr:
		x := en.eval(e.X)
		return en.index(x, en.eval(e.Index))
	case *ast.CallExpr:
		return en.callExpr(e)
	case *ast.StarExpr:
		x := en.eval(e.X)
		p := en.u.toPtr(x.v, x.t)
		return SV{en.quietly(func() Val { return en.u.load(en.cur, p, p.T) }), p.T}
	}
	en.fail("unsupported expression %s", exprStr(e))
	return SV{}
}

func (en *Env) binary(e *ast.BinaryExpr) SV {
	c := en.u.c
	switch e.Op {
	case token.LAND:
		x := en.bool(e.X)
		if x.Op == "false" {
			return SV{x, boolT}
		}
		return SV{c.And(x, en.bool(e.Y)), boolT}
	case token.LOR:
		x := en.bool(e.X)
		if x.Op == "true" {
			return SV{x, boolT}
		}
		return SV{c.Or(x, en.bool(e.Y)), boolT}
	case token.EQL, token.NEQ:
		x, y := en.eval(e.X), en.eval(e.Y)
		r := en.equal(x, y)
		if e.Op == token.NEQ {
			r = c.Not(r)
		}
		return SV{r, boolT}
	}
	x, y := en.term(e.X), en.term(e.Y)
	switch e.Op {
	case token.ADD:
		if x.Sort == SStr {
			return SV{c.Concat(x, y), stringT}
		}
		return SV{c.Add(x, y), intT}
	case token.SUB:
		return SV{c.Sub(x, y), intT}
	case token.MUL:
		return SV{c.Mul(x, y), intT}
	case token.QUO:
		return SV{c.Div(x, y), intT}
	case token.REM:
		return SV{c.Mod(x, y), intT}
	case token.LSS:
		return SV{c.Lt(x, y), boolT}
	case token.LEQ:
		return SV{c.Le(x, y), boolT}
	case token.GTR:
		return SV{c.Lt(y, x), boolT}
	case token.GEQ:
		return SV{c.Le(y, x), boolT}
	}
	en.fail("operator %s", e.Op)
	return SV{}
}

func (en *Env) equal(x, y SV) *Term {
	u := en.u
	c := u.c
	if x.v == nil && y.v == nil {
		return c.True
	}
	if x.v == nil {
		x, y = y, x
	}
	if y.v == nil {
		t := u.term(x.v)
		switch t.Sort {
		case SSlice:
			return c.Eq(c.SBase(t), c.Int(0))
		case SIface:
			return c.Eq(c.ITag(t), c.Int(0))
		}
		return c.Eq(t, c.Int(0))
	}
	if _, ok := x.v.(*StructV); ok {
		return u.eqVals(x.v, y.v)
	}
	a, b := u.term(x.v), u.term(y.v)
	if a.Sort != b.Sort {
		en.fail("comparison of %s and %s", a.Sort, b.Sort)
	}
	return c.Eq(a, b)
}

func (en *Env) field(x SV, name string) SV {
	u := en.u
	if x.t == nil {
		en.fail("field %s of a specification value", name)
	}
	if sv, ok := x.v.(*StructV); ok {
		ft := en.fieldT(sv.T, name)
		return SV{fieldOf(sv, "."+name, ft), ft}
	}
	if _, ok := x.t.Underlying().(*types.Pointer); !ok {
		en.fail("field %s of %s", name, typeKey(x.t))
	}
	p := u.toPtr(x.v, x.t)
	ft := en.fieldT(p.T, name)
	q := *p
	q.Path += "." + name
	q.T = ft
	return SV{en.quietly(func() Val { return en.load(&q, ft) }), ft}
}

// load reads without adding typing facts about bound variables.
func (en *Env) load(p *Ptr, t types.Type) Val { return en.u.load(en.cur, p, t) }

func (en *Env) fieldT(t types.Type, name string) types.Type {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		en.fail("field %s of %s", name, typeKey(t))
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return s.Field(i).Type()
		}
	}
	en.fail("no field %s in %s", name, typeKey(t))
	return nil
}

func (en *Env) index(x, i SV) SV {
	u := en.u
	c := u.c
	it := u.term(i.v)
	if x.t != nil {
		switch t := x.t.Underlying().(type) {
		case *types.Slice:
			s := u.term(x.v)
			p := &Ptr{Elem: true, Base: c.SBase(s), Idx: c.Idx(c.SOff(s), it), Root: t.Elem(), T: t.Elem()}
			return SV{en.quietly(func() Val { return en.load(p, t.Elem()) }), t.Elem()}
		case *types.Map:
			v := en.quietly(func() Val { v, _ := u.mapLookup(en.cur, x.t, u.term(x.v), it); return v })
			return SV{v, t.Elem()}
		case *types.Basic:
			return SV{c.App("strbyte", SInt, u.term(x.v), it), types.Typ[types.Uint8]}
		}
	}
	a := u.term(x.v)
	if a.Sort.isArr() {
		_, to := arrParts(a.Sort)
		return SV{c.Select(a, it), sortType(to)}
	}
	en.fail("index")
	return SV{}
}

func sortType(s Sort) types.Type {
	switch s {
	case SInt:
		return intT
	case SBool:
		return boolT
	case SStr:
		return stringT
	}
	return nil
}

var builtinFns = map[string][]Sort{
	"lower": {SStr, SStr}, "trim": {SStr, SStr}, "contains": {SStr, SStr, SBool}, "prefixof": {SStr, SStr, SBool}, "itoa": {SInt, SStr},
	"bcrypt_ok": {SStr, SStr, SBool}, "is_bcrypt": {SStr, SBool}, "bcrypt_cost": {SStr, SInt}, "queryescape": {SStr, SStr}, "b64enc": {SStr, SStr},
	"b64ok": {SStr, SBool}, "b64dec": {SStr, SStr}, "hmacsum": {SStr, SStr, SStr, SStr}, "be64": {SInt, SStr}, "zpad": {SInt, SInt, SStr},
	"cutafter": {SStr, SStr, SStr}, "unix": {STime, SInt}, "ipow10": {SInt, SInt}, "sha256": {SStr, SStr}, "hexstr": {SStr, SStr}, "substr": {SStr, SInt, SInt, SStr}, "timeadd": {STime, SInt, STime}, "utc": {STime, STime},
	"splitcount": {SStr, SStr, SInt}, "b32enc": {SStr, SStr, SStr}, "b32with": {SStr, SInt, SStr}, "charset_ok": {SStr, SBool}, "alnum": {SInt, SBool}, "strbyte": {SStr, SInt, SInt}, "filedata": {SStr, SStr},
}

func (en *Env) callExpr(e *ast.CallExpr) SV {
	u := en.u
	c := u.c
	id, ok := e.Fun.(*ast.Ident)
	if !ok {
		en.fail("call of %s", exprStr(e.Fun))
	}
	name := id.Name
	argn := func(n int) {
		if len(e.Args) != n {
			en.fail("%s needs %d arguments: %s", name, n, exprStr(e))
		}
	}
	B := func(t *Term) SV { return SV{t, boolT} }
	switch name {
	case "imp":
		argn(2)
		a := en.bool(e.Args[0])
		if a.Op == "false" {
			return B(c.True)
		}
		return B(c.Implies(a, en.bool(e.Args[1])))
	case "iff":
		argn(2)
		return B(c.Eq(en.bool(e.Args[0]), en.bool(e.Args[1])))
	case "ite":
		argn(3)
		x, y := en.eval(e.Args[1]), en.eval(e.Args[2])
		return SV{c.Ite(en.bool(e.Args[0]), u.term(x.v), u.term(y.v)), x.t}
	case "old":
		argn(1)
		return en.with(en.old).eval(e.Args[0])
	case "forall", "exists":
		if name == "forall" && len(e.Args) > 4 && len(e.Args)%3 == 1 {
			// several variables under one quantifier
			var vs, gs []*Term
			en2 := en
			for i := 0; i+3 < len(e.Args); i += 3 {
				v := e.Args[i].(*ast.Ident).Name
				lo, hi := en2.term(e.Args[i+1]), en2.term(e.Args[i+2])
				b := c.FreshBVar(v, SInt)
				en2 = en2.bind(v, SV{b, intT})
				vs = append(vs, b)
				gs = append(gs, c.Le(lo, b), c.Lt(b, hi))
			}
			f := c.Implies(c.And(gs...), en2.bool(e.Args[len(e.Args)-1]))
			var pat []*Term
			cov := map[*Term]bool{}
			for i := len(vs) - 1; i >= 0; i-- {
				if cov[vs[i]] {
					continue
				}
				ps := u.patsFor(f, vs[i])
				if len(ps) == 0 {
					continue
				}
				pat = append(pat, ps[0][0])
				for v := range ps[0][0].fv {
					cov[v] = true
				}
			}
			return B(c.Forall(vs, f, pat))
		}
		argn(4)
		v := e.Args[0].(*ast.Ident).Name
		lo, hi := en.term(e.Args[1]), en.term(e.Args[2])
		b := c.FreshBVar(v, SInt)
		body := en.bind(v, SV{b, intT}).bool(e.Args[3])
		rng := c.And(c.Le(lo, b), c.Lt(b, hi))
		if name == "exists" {
			return B(c.Exists([]*Term{b}, c.And(rng, body)))
		}
		f := c.Implies(rng, body)
		return B(c.Forall([]*Term{b}, f, u.patsFor(f, b)...))
	case "forallstr", "forallint", "existsint", "existsstr":
		argn(2)
		v := e.Args[0].(*ast.Ident).Name
		srt, tt := SStr, stringT
		if strings.HasSuffix(name, "int") {
			srt, tt = SInt, intT
		}
		b := c.FreshBVar(v, srt)
		body := en.bind(v, SV{b, tt}).bool(e.Args[1])
		if strings.HasPrefix(name, "exists") {
			return B(c.Exists([]*Term{b}, body))
		}
		return B(c.Forall([]*Term{b}, body, u.patsFor(body, b)...))
	case "forallkey":
		argn(3)
		v := e.Args[0].(*ast.Ident).Name
		m := en.eval(e.Args[1])
		mt, ks, _ := mapSorts(m.t)
		b := c.FreshBVar(v, ks)
		_, d := u.mapDom(en.cur, m.t)
		dom := c.Select(c.Select(d, u.term(m.v)), b)
		body := en.bind(v, SV{b, mt.Key()}).bool(e.Args[2])
		body = u.simpUnder(body, dom)
		return B(c.Forall([]*Term{b}, c.Implies(dom, body), []*Term{dom}))
	case "forallref":
		// forallref(x, T, P): every object of type T that existed at entry
		argn(3)
		v := e.Args[0].(*ast.Ident).Name
		t := en.typeOf(e.Args[1])
		b := c.FreshBVar(v, SInt)
		body := en.bind(v, SV{b, types.NewPointer(t)}).bool(e.Args[2])
		f := c.Implies(c.And(c.Lt(c.Int(0), b), c.Lt(b, en.old.next)), body)
		return B(c.Forall([]*Term{b}, f, u.patsFor(f, b)...))
	case "has":
		argn(2)
		m := en.eval(e.Args[0])
		_, d := u.mapDom(en.cur, m.t)
		mr := u.term(m.v)
		if mr.isInt(0) {
			return B(c.False)
		}
		return B(c.And(c.Not(c.Eq(mr, c.Int(0))), c.Select(c.Select(d, mr), en.term(e.Args[1]))))
	case "len":
		argn(1)
		x := en.eval(e.Args[0])
		t := u.term(x.v)
		switch t.Sort {
		case SSlice:
			return SV{c.SLen(t), intT}
		case SStr:
			return SV{c.StrLen(t), intT}
		}
		en.fail("len of %s", exprStr(e.Args[0]))
	case "filteredto", "countof": // filteredto(new, src, k, cond, n): new holds, in order, the elements k of src below n with cond
		args := e.Args
		if name == "countof" {
			argn(4)
			args = append([]ast.Expr{nil}, args...)
		} else {
			argn(5)
		}
		oe := en.with(en.old) // the source is what it was at entry
		src := oe.eval(args[1])
		kn := args[2].(*ast.Ident).Name
		v := c.FreshBVar("i", SInt)
		el := oe.index(src, SV{v, intT})
		cond := oe.bind(kn, el).bool(args[3])
		cn := c.Counter(cond, v)
		n := en.term(args[4])
		if name == "countof" {
			return SV{c.Cnt(cn, n), intT}
		}
		nw := en.eval(args[0])
		at := en.index(nw, SV{c.Cnt(cn, v), intT})
		f := c.Implies(c.And(c.Le(c.Int(0), v), c.Lt(v, n), cond), u.eqVals(at.v, el.v))
		return B(c.And(c.Eq(c.SLen(u.term(nw.v)), c.Cnt(cn, n)), c.Forall([]*Term{v}, f, u.patsFor(f, v)...)))
	case "fresh":
		argn(1)
		x := en.eval(e.Args[0])
		t := u.term(x.v)
		if t.Sort == SSlice {
			t = c.SBase(t)
		}
		return B(c.Le(en.old.next, t))
	case "base": // the backing array of a slice
		argn(1)
		return SV{c.SBase(en.term(e.Args[0])), intT}
	case "allocated": // existed at entry
		argn(1)
		x := en.eval(e.Args[0])
		t := u.term(x.v)
		if t.Sort == SSlice {
			t = c.SBase(t)
		}
		return B(c.Lt(t, en.old.next))
	case "sameslice": // identical elements, in order
		argn(2)
		return B(en.sameSlice(en.eval(e.Args[0]), en, en.eval(e.Args[1]), en))
	case "keptslice": // the slice expression has the same value and elements as at entry
		argn(1)
		n := en.eval(e.Args[0])
		o := en.with(en.old)
		ov := o.eval(e.Args[0])
		return B(en.sameSlice(n, en, ov, o))
	case "appended": // appended(s, x): s is old(s) followed by x
		argn(2)
		n := en.eval(e.Args[0])
		oe := en.with(en.old)
		ov := oe.eval(e.Args[0])
		x := en.eval(e.Args[1])
		ns, os := u.term(n.v), u.term(ov.v)
		i := c.FreshBVar("i", SInt)
		a := en.index(n, SV{i, intT})
		b := oe.index(ov, SV{i, intT})
		last := en.index(n, SV{c.SLen(os), intT})
		f := c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, c.SLen(os))), u.eqVals(a.v, b.v))
		return B(c.And(c.Eq(c.SLen(ns), c.Add(c.SLen(os), c.Int(1))), u.eqVals(last.v, x.v), c.Forall([]*Term{i}, f, u.patsFor(f, i)...)))
	case "unchanged", "unchangedbut": // unchanged(T...) / unchangedbut(x, T...): objects existing at entry keep their fields
		args := e.Args
		var except *Term
		if name == "unchangedbut" {
			except = en.term(args[0])
			args = args[1:]
		}
		var cs []*Term
		for _, a := range args {
			cs = append(cs, en.unchangedT(a, except))
		}
		return B(c.And(cs...))
	case "unchangedobj": // the fields of the object are as at entry
		argn(1)
		x := en.eval(e.Args[0])
		pt, ok := x.t.Underlying().(*types.Pointer)
		if !ok {
			en.fail("unchangedobj needs a pointer")
		}
		var cs []*Term
		for _, l := range leaves(pt.Elem()) {
			cur, old := en.regionPair(objRegion(pt.Elem(), l.path), l.t, 1, SInt)
			cs = append(cs, c.Eq(c.Select(cur, u.term(x.v)), c.Select(old, u.term(x.v))))
		}
		return B(c.And(cs...))
	case "keptarrays": // keptarrays(s): backing arrays of that element type, other than the one of s at entry, are as at entry
		argn(1)
		o := en.with(en.old).eval(e.Args[0])
		sl, ok := o.t.Underlying().(*types.Slice)
		if !ok {
			en.fail("keptarrays needs a slice")
		}
		x := c.FreshBVar("x", SInt)
		var cs []*Term
		for _, l := range leaves(sl.Elem()) {
			cur, old := en.regionPair(elemRegion(sl.Elem(), l.path), l.t, 2, SInt)
			if cur == old {
				continue
			}
			cs = append(cs, c.Forall([]*Term{x}, c.Implies(c.And(c.Lt(x, en.old.next), c.Not(c.Eq(x, c.SBase(u.term(o.v))))), c.Eq(c.Select(cur, x), c.Select(old, x))), []*Term{c.Select(cur, x)}))
		}
		return B(c.And(cs...))
	case "untouched": // untouched(ps): objects not held by the slice of pointers at entry are as at entry
		argn(1)
		t, in := u.eachOf(en.with(en.old), e.Args[0], "untouched")
		x := c.FreshBVar("x", SInt)
		var cs []*Term
		for _, l := range leaves(t) {
			cur, old := en.regionPair(objRegion(t, l.path), l.t, 1, SInt)
			if cur == old {
				continue
			}
			cs = append(cs, c.Forall([]*Term{x}, c.Implies(c.And(c.Lt(x, en.old.next), c.Not(in(x))), c.Eq(c.Select(cur, x), c.Select(old, x)))))
		}
		return B(c.And(cs...))
	case "graphunchanged": // graphunchanged(x): no object reachable through the type of x changed
		argn(1)
		x := en.eval(e.Args[0])
		return B(en.graphUnchanged(derefType(x.t), nil))
	case "graphunchangedbut": // graphunchangedbut(x, "region", ...): except the named regions
		x := en.eval(e.Args[0])
		ex := map[string]bool{}
		for _, a := range e.Args[1:] {
			s, _ := strconv.Unquote(a.(*ast.BasicLit).Value)
			ex[s] = true
		}
		return B(en.graphUnchanged(derefType(x.t), ex))
	case "istype": // istype(iface, T)
		argn(2)
		x := en.term(e.Args[0])
		return B(c.Eq(c.ITag(x), c.Int(u.e.tag(en.typeOf(e.Args[1])))))
	case "iserror": // a value whose type implements error
		argn(1)
		x := en.term(e.Args[0])
		return B(c.And(c.Not(c.Eq(c.ITag(x), c.Int(0))), u.implements(c.ITag(x), types.Universe.Lookup("error").Type())))
	case "b32": // base32 without padding
		argn(1)
		return SV{c.App("b32enc", SStr, c.App("b32with", SStr, c.Str("encoding/base32.StdEncoding"), c.Int(-1)), en.term(e.Args[0])), stringT}
	case "alnum":
		argn(1)
		return B(c.alnum(en.term(e.Args[0])))
	case "stringof": // the string in an interface holding one
		argn(1)
		return SV{u.rawUnbox(en.term(e.Args[0]), SStr), stringT}
	case "visited":
		argn(1)
		if en.visited == nil {
			en.fail("visited: not a loop over a map")
		}
		return B(c.Select(en.visited, en.term(e.Args[0])))
	case "attime": // attime(t, P): P holds for a reading t of the clock made by the function
		argn(2)
		v := e.Args[0].(*ast.Ident).Name
		if en.call {
			x := c.Fresh("now", STime)
			u.clock(en.cur, x)
			en.cur.nows = append(en.cur.nows[:len(en.cur.nows):len(en.cur.nows)], x)
			return B(en.bind(v, SV{x, nil}).bool(e.Args[1]))
		}
		var ds []*Term
		for _, x := range en.cur.nows {
			ds = append(ds, en.bind(v, SV{x, nil}).bool(e.Args[1]))
		}
		return B(c.Or(ds...))
	case "jsonstr", "jsonbool", "jsonint", "jsonhas", "jsonlen": // the value at a path of a JSON text
		argn(2)
		t, p := en.term(e.Args[0]), "json:"+en.term(e.Args[1]).Name
		switch name {
		case "jsonstr":
			return SV{c.App(p+":"+boxName(SStr), SStr, t), stringT}
		case "jsonbool":
			return B(c.App(p+":"+boxName(SBool), SBool, t))
		case "jsonint":
			return SV{c.App(p+":"+boxName(SInt), SInt, t), intT}
		case "jsonhas":
			return B(c.App("has:"+p, SBool, t))
		}
		return SV{c.Ite(c.App("has:"+p, SBool, t), c.App("len:"+p, SInt, t), c.Int(0)), intT}
	case "jsonelem": // the i-th string of a list
		argn(3)
		p := "json:" + en.term(e.Args[1]).Name
		return SV{c.Select(c.App("elems:"+p, arr(SInt, SStr), en.term(e.Args[0])), en.term(e.Args[2])), stringT}
	case "jsonjoin": // the strings of a list joined by a separator
		argn(3)
		t, p := en.term(e.Args[0]), "json:"+en.term(e.Args[1]).Name
		return SV{c.Ite(c.App("has:"+p, SBool, t), c.App("joinarr", SStr, c.App("elems:"+p, arr(SInt, SStr), t), c.Int(0), c.App("len:"+p, SInt, t), en.term(e.Args[2])), c.Str("")), stringT}
	case "jsonkey", "jsonhaskey", "jsonflag": // the value of a key of an object
		argn(3)
		t, p, k := en.term(e.Args[0]), "json:"+en.term(e.Args[1]).Name, en.term(e.Args[2])
		dom := c.Select(c.App("dom:"+p, arr(SStr, SBool), t), k)
		switch name {
		case "jsonhaskey":
			return B(dom)
		case "jsonflag":
			return B(c.And(dom, c.Select(c.App("vals:"+p, arr(SStr, SBool), t), k)))
		}
		return SV{c.Select(c.App("vals:"+p, arr(SStr, SIface), t), k), types.NewInterfaceType(nil, nil)}
	case "jsonvalid": // jsonvalid(T, text): the text can be decoded into a T
		argn(2)
		return B(c.App("json_ok:"+typeKey(en.typeOf(e.Args[0])), SBool, en.term(e.Args[1])))
	case "p256ok": // p256ok(x, y, data, sig): an ECDSA signature with SHA-256 by the P-256 key with these coordinates
		argn(4)
		return B(c.App("ecdsaok", SBool, c.MkIf(c.Int(u.e.tag(extObjT)), c.Sym("global:P256", SInt)), en.term(e.Args[0]), en.term(e.Args[1]), c.Int(10), en.term(e.Args[2]), en.term(e.Args[3])))
	case "isnumber": // isnumber(v, n): the interface holds the floating-point number n
		argn(2)
		ft := types.Typ[types.Float64]
		x := c.mk(&Term{Op: "to_real", Args: []*Term{en.term(e.Args[1])}, Sort: SReal})
		if n := en.term(e.Args[1]); n.Op == "int" {
			x = c.RealLit(new(big.Rat).SetInt(n.Int))
		}
		return B(c.Eq(en.term(e.Args[0]), c.MkIf(c.Int(u.e.tag(ft)), u.box(x, ft))))
	case "unwrap":
		argn(1)
		x := en.term(e.Args[0])
		return SV{c.Select(u.ghostRegion(en.cur, "G:unwrap", SIface), c.IVal(x)), nil}
	case "sprintf_d":
		argn(1)
		return SV{c.App("itoa", SStr, en.term(e.Args[0])), stringT}
	case "bytesof": // a byte slice as a string
		argn(1)
		x := en.eval(e.Args[0])
		return SV{u.bytesToStr(en.cur, u.term(x.v), byteT), stringT}
	case "part": // part(s, sep, i): i-th part of the split
		argn(3)
		return SV{c.Select(c.App("splitarr", arr(SInt, SStr), en.term(e.Args[0]), en.term(e.Args[1])), en.term(e.Args[2])), stringT}
	case "matches": // matches(s, "regexp")
		argn(2)
		re, _ := strconv.Unquote(e.Args[1].(*ast.BasicLit).Value)
		n, ok := regexPred(re)
		if !ok {
			en.fail("regexp %s", re)
		}
		return B(c.App(n, SBool, en.term(e.Args[0])))
	case "wrote": // number of file writes
		return SV{c.Sub(u.ghostVar(en.cur, "G:writes", SInt), u.ghostVar(en.old, "G:writes", SInt)), intT}
	case "writepath":
		return SV{u.ghostVar(en.cur, "G:writepath", SStr), stringT}
	case "writeperm":
		return SV{u.ghostVar(en.cur, "G:writeperm", SInt), intT}
	case "readpath":
		return SV{u.ghostVar(en.cur, "G:readpath", SStr), stringT}
	case "iofailed":
		return B(c.Or(c.And(u.ghostVar(en.cur, "G:marshal_failed", SBool), c.Not(u.ghostVar(en.old, "G:marshal_failed", SBool))), c.And(u.ghostVar(en.cur, "G:write_failed", SBool), c.Not(u.ghostVar(en.old, "G:write_failed", SBool)))))
	case "openfailed": // the file could not be examined or read, or its directory not made
		return B(c.And(u.ghostVar(en.cur, "G:open_failed", SBool), c.Not(u.ghostVar(en.old, "G:open_failed", SBool))))
	case "decodeddb", "decodedtext", "decodedok": // the object decoded into, the text, and whether it was accepted
		d := en.cur.decoded
		if d == nil {
			en.fail("nothing was decoded")
		}
		switch name {
		case "decodeddb":
			return SV{d.obj, u.e.dbPtrType()}
		case "decodedtext":
			return SV{d.text, stringT}
		}
		return B(d.ok)
	case "persisted": // persisted(db): the last written text encodes the current state of db
		argn(1)
		return B(en.persisted(en.eval(e.Args[0])))
	case "roundtrips": // roundtrips(x, "field"...): encoding as JSON and decoding loses nothing but the named unexported fields
		allowed := map[string]bool{}
		for _, a := range e.Args[1:] {
			s, _ := strconv.Unquote(a.(*ast.BasicLit).Value)
			allowed[s] = true
		}
		if msg := u.e.jsonSchema(derefType(en.eval(e.Args[0]).t), allowed); msg != "" {
			en.fail("not restored from JSON: %s", msg)
		}
		return B(c.True)
	case "asdecoded":
		argn(1)
		return B(en.asDecoded(en.eval(e.Args[0]), nil))
	case "asdecodedbut":
		ex := map[string]bool{}
		for _, a := range e.Args[1:] {
			s, _ := strconv.Unquote(a.(*ast.BasicLit).Value)
			ex[s] = true
		}
		return B(en.asDecoded(en.eval(e.Args[0]), ex))
	case "decoded": // evaluate in the state right after decoding
		argn(1)
		st := en.cur
		if st.decoded == nil {
			en.fail("nothing was decoded")
		}
		d := st.clone()
		for k, v := range st.decoded.heap {
			d.heap[k] = v
		}
		return en.with(d).eval(e.Args[0])
	case "wasdecoded":
		return B(c.Bool(en.cur.decoded != nil))
	}
	if p, ok := en.u.e.specs.Preds[name]; ok {
		if len(p.Params) != len(e.Args) {
			en.fail("%s needs %d arguments", name, len(p.Params))
		}
		en2 := *en
		en2.vars = map[string]SV{}
		for i, a := range e.Args {
			en2.vars[p.Params[i]] = en.eval(a)
		}
		en2.lets = nil
		if en.dep > 40 {
			en.fail("recursive predicate %s", name)
		}
		en2.dep++
		v := en2.eval(p.Body)
		if p.Opaque && len(en.u.noContr) == 0 && !(en.u.spec != nil && hasLabel(strings.Fields(en.u.spec.Opts["reveal"]), name)) {
			// only its name matters here: its definition is used where it is revealed
			var as []*Term
			for i := range e.Args {
				as = append(as, en2.vars[p.Params[i]].v.(*Term))
			}
			return SV{c.App("opaque:"+name, v.v.(*Term).Sort, as...), v.t}
		}
		return v
	}
	ss, ok := builtinFns[name]
	if !ok {
		ss, ok = en.u.e.specs.UFuns[name]
	}
	if !ok {
		// json text functions: json_T_path(text)
		en.fail("unknown function %s", name)
	}
	argn(len(ss) - 1)
	var as []*Term
	for i, a := range e.Args {
		t := en.term(a)
		if t.Sort != ss[i] {
			en.fail("argument %d of %s has sort %s", i, name, t.Sort)
		}
		as = append(as, t)
	}
	r := ss[len(ss)-1]
	return SV{c.App(name, r, as...), sortType(r)}
}

func (u *Unit) simpUnder(t, dom *Term) *Term {
	return u.c.Subst(t, map[*Term]*Term{dom: u.c.True})
}

func (en *Env) typeOf(e ast.Expr) types.Type {
	switch e := e.(type) {
	case *ast.StarExpr:
		return types.NewPointer(en.typeOf(e.X))
	case *ast.Ident:
		if o := types.Universe.Lookup(e.Name); o != nil {
			return o.Type()
		}
		if o := en.pkg.Scope().Lookup(e.Name); o != nil {
			return o.Type()
		}
	case *ast.SelectorExpr:
		pn := e.X.(*ast.Ident).Name
		for _, p := range en.u.e.spkgs {
			if p != nil && p.Pkg.Name() == pn {
				if o := p.Pkg.Scope().Lookup(e.Sel.Name); o != nil {
					return o.Type()
				}
			}
		}
	}
	en.fail("unknown type %s", exprStr(e))
	return nil
}

func (en *Env) sameSlice(n SV, ne *Env, o SV, oe *Env) *Term {
	u := en.u
	c := u.c
	ns, os := u.term(n.v), u.term(o.v)
	i := c.FreshBVar("i", SInt)
	a := ne.index(n, SV{i, intT})
	b := oe.index(o, SV{i, intT})
	f := c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, c.SLen(ns))), u.eqVals(a.v, b.v))
	return c.And(c.Eq(c.SLen(ns), c.SLen(os)), c.Forall([]*Term{i}, f, u.patsFor(f, i)...))
}

func (en *Env) regionPair(name string, t types.Type, nest int, key Sort) (*Term, *Term) {
	u := en.u
	cur := u.region(en.cur, name, t, nest, key)
	old := u.region(en.old, name, t, nest, key)
	return cur, old
}

// unchangedT: T or T.Field
func (en *Env) unchangedT(e ast.Expr, except *Term) *Term {
	u := en.u
	c := u.c
	var t types.Type
	only := ""
	if s, ok := e.(*ast.SelectorExpr); ok {
		t = en.typeOf(s.X)
		only = "." + s.Sel.Name
	} else if s, ok := e.(*ast.ArrayType); ok {
		// []T: elements of backing arrays
		el := en.typeOf(s.Elt)
		var cs []*Term
		for _, l := range leaves(el) {
			cur, old := en.regionPair(elemRegion(el, l.path), l.t, 2, SInt)
			cs = append(cs, en.sameOn(cur, old, except))
		}
		return c.And(cs...)
	} else {
		t = en.typeOf(e)
	}
	var cs []*Term
	for _, l := range leaves(t) {
		if only != "" && l.path != only && !strings.HasPrefix(l.path, only+".") {
			continue
		}
		cur, old := en.regionPair(objRegion(t, l.path), l.t, 1, SInt)
		cs = append(cs, en.sameOn(cur, old, except))
	}
	_ = u
	return c.And(cs...)
}

func (en *Env) sameOn(cur, old, except *Term) *Term {
	c := en.u.c
	if cur == old {
		return c.True
	}
	x := c.FreshBVar("x", SInt)
	c.upper[x] = en.old.next
	cond := c.Lt(x, en.old.next)
	if except != nil {
		cond = c.And(cond, c.Not(c.Eq(x, except)))
	}
	return c.Forall([]*Term{x}, c.Implies(cond, c.Eq(c.Select(cur, x), c.Select(old, x))), []*Term{c.Select(cur, x)})
}

func (en *Env) graphUnchanged(t types.Type, ex map[string]bool) *Term {
	u := en.u
	c := u.c
	var cs []*Term
	for _, g := range u.e.graphRegionsAll(t) {
		if ex[g.name] {
			continue
		}
		cur, old := en.regionPair(g.name, g.t, g.nest, g.key)
		cs = append(cs, en.sameOn(cur, old, nil))
	}
	return c.And(cs...)
}

// graphRegionsAll also covers unexported fields and what they reference (the lookup maps).
func (e *Engine) graphRegionsAll(t types.Type) []gregion {
	out := e.graphRegions(t)
	seen := map[string]bool{}
	for _, g := range out {
		seen[g.name] = true
	}
	for _, s := range e.graphTypes(t) {
		for _, l := range leaves(s) {
			if m, ok := l.t.Underlying().(*types.Map); ok {
				ks := mustSort(m.Key())
				add := func(g gregion) {
					if !seen[g.name] {
						seen[g.name] = true
						out = append(out, g)
					}
				}
				add(gregion{"MD:" + typeKey(l.t.Underlying()), types.Typ[types.Bool], 2, ks, l.exp})
				for _, l2 := range leaves(m.Elem()) {
					add(gregion{"MV:" + typeKey(l.t.Underlying()) + l2.path, l2.t, 2, ks, l.exp})
				}
			}
		}
	}
	return out
}

func (en *Env) persisted(x SV) *Term {
	u := en.u
	c := u.c
	st := en.cur
	d := u.ghostVar(st, "G:writedata", SStr)
	sn := st.snaps[d]
	if sn == nil {
		return c.False
	}
	var cs []*Term
	cs = append(cs, c.Eq(c.IVal(sn.obj), u.term(x.v)), c.Eq(c.ITag(sn.obj), c.Int(u.e.tag(x.t))))
	for _, g := range u.e.graphRegions(derefType(x.t)) {
		if !g.exp {
			continue
		}
		cur := u.region(st, g.name, g.t, g.nest, g.key)
		old, ok := sn.heap[g.name]
		if !ok {
			old = u.initOf(g.name)
		}
		if cur == old {
			continue
		}
		b := c.FreshBVar("x", SInt)
		c.upper[b] = sn.next
		cs = append(cs, c.Forall([]*Term{b}, c.Implies(c.Lt(b, sn.next), c.Eq(c.Select(cur, b), c.Select(old, b))), []*Term{c.Select(cur, b)}))
	}
	return c.And(cs...)
}

// asDecoded: the exported graph of x is what was decoded, except for the named regions.
func (en *Env) asDecoded(x SV, ex map[string]bool) *Term {
	u := en.u
	c := u.c
	st := en.cur
	if st.decoded == nil {
		return c.False
	}
	var cs []*Term
	cs = append(cs, c.Eq(st.decoded.obj, u.term(x.v)))
	for _, g := range u.e.graphRegions(derefType(x.t)) {
		if !g.exp || ex[g.name] {
			continue
		}
		cur := u.region(st, g.name, g.t, g.nest, g.key)
		old := st.decoded.heap[g.name]
		if cur == old {
			continue
		}
		b := c.FreshBVar("x", SInt)
		cs = append(cs, c.Forall([]*Term{b}, c.Implies(c.Lt(b, st.decoded.next), c.Eq(c.Select(cur, b), c.Select(old, b))), []*Term{c.Select(cur, b)}))
	}
	return c.And(cs...)
}

// ---- environments ----

func (u *Unit) envFor(sp *FuncSpec, fn *ssa.Function, args []Val, res []Val, cur, old *State) *Env {
	en := &Env{u: u, sp: sp, vars: map[string]SV{}, cur: cur, old: old, lets: sp.Lets}
	if fn.Pkg != nil {
		en.pkg = fn.Pkg.Pkg
	} else {
		en.pkg = u.e.spkgs[0].Pkg
	}
	for i, p := range sp.Params {
		if i < len(args) && p != "_" {
			en.vars[p] = SV{args[i], fn.Params[i].Type()}
		}
	}
	rt := fn.Signature.Results()
	for i, r := range sp.Results {
		if i < len(res) && r != "_" {
			en.vars[r] = SV{res[i], rt.At(i).Type()}
		}
	}
	return en
}

// evalClause evaluates a clause; a specification error is reported as a failure of the clause.
func (en *Env) evalClause(cl *Clause) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			if e, ok := r.(unsupErr); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	if cl.Case != nil {
		cs := en.bool(cl.Case)
		if cs.Op == "false" {
			return en.u.c.True, nil
		}
		t = en.bool(cl.Expr)
		return en.u.c.Implies(cs, t), nil
	}
	return en.bool(cl.Expr), nil
}

// ---- contracts at call sites ----

func (u *Unit) applyContract(st *State, sp *FuncSpec, fn *ssa.Function, args []Val, dest ssa.Value, in ssa.Instruction) []*State {
	pre := st.clone()
	u.sharedCall(st, sp, fn, args)
	en := u.envFor(sp, fn, args, nil, st, pre)
	for _, r := range sp.Requires {
		g, err := en.evalClause(r)
		if err != nil {
			panic(unsup("precondition " + r.Name + " of " + sp.Key + ": " + err.Error()))
		}
		u.check(st, "requires", sp.Key+": "+r.Name, in, g)
	}
	// effects: only allocation for pure contracts
	c := u.c
	nn := c.Fresh("next", SInt)
	c.symFact[nn] = []*Term{c.Le(st.next, nn)}
	c.lower[nn] = st.next
	st.assume(c.Le(st.next, nn))
	st.next = nn
	if st.writes != nil {
		st.writes.alloc = true
	}
	if !sp.Pure {
		for _, m := range sp.Modifies {
			u.havocTarget(st, en.with(pre), m, pre.next)
		}
	}
	var res []Val
	rt := fn.Signature.Results()
	for i := 0; i < rt.Len(); i++ {
		res = append(res, u.freshVal(st, "r_"+fn.Name(), rt.At(i).Type()))
	}
	en2 := u.envFor(sp, fn, args, res, st, pre)
	en2.call = true
	for _, e := range sp.Ensures {
		if sp.private(e, u.prop) {
			continue
		}
		g, err := en2.evalClause(e)
		if err != nil {
			panic(unsup("postcondition " + e.Name + " of " + sp.Key + ": " + err.Error()))
		}
		st.assume(u.skolemHyp(g))
	}
	u.setRes(st, dest, res...)
	return nil
}

// havocTarget: "x.Field" (one cell), "elems(x.F)" (the backing array of a slice),
// "fresh(T)" (objects of type T allocated by the callee, and the maps and arrays they hold).
func (u *Unit) havocTarget(st *State, en *Env, m string, before *Term) {
	e, err := parser.ParseExpr(m)
	if err != nil {
		panic(unsup("modifies " + m))
	}
	if cl, ok := e.(*ast.CallExpr); ok {
		id, _ := cl.Fun.(*ast.Ident)
		if id == nil || len(cl.Args) == 0 || len(cl.Args) > 1 && id.Name != "each" {
			panic(unsup("modifies " + m))
		}
		switch id.Name {
		case "elems":
			x := en.eval(cl.Args[0])
			sl, ok := x.t.Underlying().(*types.Slice)
			if !ok {
				panic(unsup("modifies " + m))
			}
			if u.c.SBase(u.term(x.v)).isInt(0) {
				return // a nil slice has no elements
			}
			for _, l := range leaves(sl.Elem()) {
				n := elemRegion(sl.Elem(), l.path)
				r := u.region(st, n, l.t, 2, SInt)
				_, row := arrParts(r.Sort)
				f := u.c.Fresh("mod", row)
				i := u.c.FreshBVar("i", SInt)
				fact := u.typeFact(u.c.Select(f, i), l.t, st.next)
				if fact.Op != "true" {
					st.assume(u.c.Forall([]*Term{i}, fact, []*Term{u.c.Select(f, i)}))
				}
				u.setRegion(st, n, u.c.SBase(u.term(x.v)), f)
			}
			return
		case "each": // the objects a slice of pointers holds
			t, in := u.eachOf(en, cl.Args[0], m)
			for _, l := range eachFields(t, cl) {
				n := objRegion(t, l.path)
				old := u.region(st, n, l.t, 1, SInt)
				nw := u.c.Fresh("Hc:"+n, old.Sort)
				u.registerBase(nw, u.reginfo[n], st.next)
				x := u.c.FreshBVar("x", SInt)
				st.assume(u.c.Forall([]*Term{x}, u.c.Implies(u.c.And(u.c.Lt(x, before), u.c.Not(in(x))), u.c.Eq(u.c.Select(nw, x), u.c.Select(old, x))), []*Term{u.c.Select(nw, x)}))
				st.heap[n] = nw
				u.noteWrite(st, n, u.c.Fresh("any", SInt))
			}
			return
		case "fresh":
			var t types.Type
			var elem types.Type
			if at, ok := cl.Args[0].(*ast.ArrayType); ok && at.Len == nil {
				elem = en.typeOf(at.Elt)
			} else {
				t = en.typeOf(cl.Args[0])
			}
			re := func(name string, lt types.Type, nest int, key Sort) {
				old := u.region(st, name, lt, nest, key)
				nw := u.c.Fresh("Hc:"+name, old.Sort)
				u.registerBase(nw, u.reginfo[name], st.next)
				x := u.c.FreshBVar("x", SInt)
				st.assume(u.c.Forall([]*Term{x}, u.c.Implies(u.c.Lt(x, before), u.c.Eq(u.c.Select(nw, x), u.c.Select(old, x))), []*Term{u.c.Select(nw, x)}))
				u.c.kept[nw] = keptArr{old, before}
				st.heap[name] = nw
				u.noteWrite(st, name, before)
			}
			if elem != nil {
				for _, l := range leaves(elem) {
					re(elemRegion(elem, l.path), l.t, 2, SInt)
				}
				return
			}
			for _, l := range leaves(t) {
				re(objRegion(t, l.path), l.t, 1, SInt)
				switch ft := l.t.Underlying().(type) {
				case *types.Map:
					ks := mustSort(ft.Key())
					re("MD:"+typeKey(ft), types.Typ[types.Bool], 2, ks)
					for _, l2 := range leaves(ft.Elem()) {
						re("MV:"+typeKey(ft)+l2.path, l2.t, 2, ks)
					}
				case *types.Slice:
					for _, l2 := range leaves(ft.Elem()) {
						re(elemRegion(ft.Elem(), l2.path), l2.t, 2, SInt)
					}
				}
			}
			return
		}
		panic(unsup("modifies " + m))
	}
	q := u.cellOf(en, e)
	if q == nil {
		panic(unsup("modifies " + m))
	}
	u.store(st, q, q.T, u.freshVal(st, "mod", q.T))
}

// cellOf is the place a selector expression denotes.
func (u *Unit) cellOf(en *Env, e ast.Expr) *Ptr {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return nil
	}
	x := en.eval(s.X)
	var p *Ptr
	if _, isS := x.v.(*StructV); isS {
		if p = u.cellOf(en, s.X); p == nil {
			return nil
		}
	} else {
		p = u.toPtr(x.v, x.t)
	}
	q := *p
	q.Path += "." + s.Sel.Name
	q.T = en.fieldT(p.T, s.Sel.Name)
	return &q
}

// skolemHyp replaces top-level existentials of a hypothesis by fresh constants.
func (u *Unit) skolemHyp(t *Term) *Term {
	c := u.c
	switch t.Op {
	case "and":
		var out []*Term
		for _, a := range t.Args {
			out = append(out, u.skolemHyp(a))
		}
		return c.And(out...)
	case "exists":
		m := map[*Term]*Term{}
		for _, v := range t.Vars {
			m[v] = c.Fresh("sk_"+v.Name, v.Sort)
			if b, ok := c.upper[v]; ok {
				c.upper[m[v]] = b
			}
		}
		return u.skolemHyp(c.Subst(t.Args[0], m))
	case "or":
		var out []*Term
		for _, a := range t.Args {
			out = append(out, u.skolemHyp(a))
		}
		return c.Or(out...)
	case "=>":
		return c.Implies(t.Args[0], u.skolemHyp(t.Args[1]))
	}
	return t
}

// skolemGoal replaces top-level universals of a goal by fresh constants and returns the parts.
func (u *Unit) skolemGoal(t *Term) []*goalPart {
	c := u.c
	switch t.Op {
	case "and":
		var out []*goalPart
		for _, a := range t.Args {
			out = append(out, u.skolemGoal(a)...)
		}
		return out
	case "forall":
		m := map[*Term]*Term{}
		for _, v := range t.Vars {
			m[v] = c.Fresh("sk_"+v.Name, v.Sort)
			if b, ok := c.upper[v]; ok {
				c.upper[m[v]] = b
			}
		}
		return u.skolemGoal(c.Subst(t.Args[0], m))
	case "=>":
		var out []*goalPart
		for _, p := range u.skolemGoal(t.Args[1]) {
			out = append(out, &goalPart{append([]*Term{t.Args[0]}, p.hyps...), p.goal})
		}
		return out
	case "=":
		if t.Args[0].Sort == SBool && (!t.Args[0].qf || !t.Args[1].qf) {
			a, b := t.Args[0], t.Args[1]
			return append(u.skolemGoal(c.Implies(a, b)), u.skolemGoal(c.Implies(b, a))...)
		}
	}
	return []*goalPart{{nil, t}}
}

type goalPart struct {
	hyps []*Term
	goal *Term
}

func (u *Unit) relevant(h []*Term, g *Term) []*Term { return u.cone(h, g) }

// ---- loop invariants from the specification ----

func (u *Unit) specCandidates(s *State, ct *Cut, wr *Writes, ind *Term, indIsRange bool) []*Inv {
	c := u.c
	f := s.top()
	var envs []*Env
	var specs []*FuncSpec
	if u.spec != nil && len(u.spec.LoopInv) > 0 && u.entry != nil {
		envs = append(envs, u.envFor(u.spec, u.fn, u.args, nil, s, u.entry))
		specs = append(specs, u.spec)
	}
	if sp := u.e.specs.Funcs[fnKey(ct.fn)]; sp != nil && sp != u.spec && len(sp.LoopInv) > 0 {
		var args []Val
		for _, p := range ct.fn.Params {
			args = append(args, f.regs[p])
		}
		envs = append(envs, u.envFor(sp, ct.fn, args, nil, s, ct.pre))
		specs = append(specs, sp)
	}
	if len(envs) == 0 {
		return nil
	}
	var iter *Term
	if ind != nil {
		iter = ind
		if indIsRange {
			iter = c.Add(ind, c.Int(1))
		}
	}
	// the enclosing loop, in this function or a caller of it
	var outer *Cut
	for k := len(s.frames) - 1; k >= 0 && outer == nil; k-- {
		for l, o := range s.frames[k].cuts {
			if o != ct && (k < len(s.frames)-1 || l.body[ct.loop.head]) && o.ind != nil && (outer == nil || outer.loop.body[l.head]) {
				outer = o
			}
		}
	}
	// accumulators: slices and flags carried by the loop, slice cells and slices it writes
	var heldl []SV
	helds := map[*Term]bool{}
	var accs, saccs, flags, maccs, picks, spicks []SV
	var vis *Term
	for _, in := range ct.loop.head.Instrs {
		if nx, ok := in.(*ssa.Next); ok {
			if it, ok := f.regs[nx.Iter].(*IterV); ok && it.Str == nil {
				_, ks, _ := mapSorts(it.T)
				vis = c.Select(u.ghostRegion(s, "G:visited:"+string(ks), arr(ks, SBool)), it.Loc)
			}
		}
	}
	seen := map[*Term]bool{}
	addAcc := func(t *Term, ty types.Type) {
		if !seen[t] {
			seen[t] = true
			accs = append(accs, SV{t, ty})
		}
	}
	for _, ph := range ct.phis {
		switch h := ct.hv[ph]; h.Sort {
		case SSlice:
			addAcc(h, ph.Type())
		case SBool:
			flags = append(flags, SV{h, ph.Type()}, SV{c.Not(h), ph.Type()})
		case SInt:
			// a counter, a position or a pointer tells as much as a flag
			if h == iter || ind != nil && h == ind || ct.ind != nil && h == ct.ind {
				break
			}
			boolT := types.Typ[types.Bool]
			switch t := ph.Type().Underlying().(type) {
			case *types.Pointer:
				picks = append(picks, SV{h, ph.Type()})
				flags = append(flags, SV{c.Not(c.Eq(h, c.Int(0))), boolT})
			case *types.Basic:
				if t.Info()&types.IsInteger != 0 {
					flags = append(flags, SV{c.Lt(c.Int(0), h), boolT}, SV{c.Le(c.Int(0), h), boolT})
				}
			}
		case SIface:
			flags = append(flags, SV{c.Eq(h, c.NilIf()), types.Typ[types.Bool]}, SV{c.Not(c.Eq(h, c.NilIf())), types.Typ[types.Bool]})
		case SStr:
			if b, ok := ph.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				spicks = append(spicks, SV{h, ph.Type()})
				flags = append(flags, SV{c.Not(c.Eq(h, c.Str(""))), types.Typ[types.Bool]})
			}
		}
	}
	for _, r := range sortedHeap(ct.hregs) {
		h := ct.hregs[r]
		ri := u.reginfo[r]
		if ri.nest == 0 {
			continue
		}
		_, to := arrPartsOK(h.Sort)
		for _, b := range sortedTerms(wr.regions[r]) {
			for _, a := range iteLeaves(b) {
				if a.isInt(0) || u.varies(a, ct) {
					continue
				}
				switch {
				case u.maptypes[r] != nil:
					maccs = append(maccs, SV{a, u.maptypes[r]})
				case ri.nest == 1 && to == SSlice:
					addAcc(c.Select(h, a), ri.typ)
				case r == "G:builder":
					saccs = append(saccs, SV{c.Select(h, a), stringT})
				}
			}
		}
	}
	for v, x := range f.regs {
		t, ok := x.(*Term)
		if !ok || t.Sort != SSlice {
			continue
		}
		st, ok := v.Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		for _, l := range leaves(st.Elem()) {
			if _, ok := ct.hregs[elemRegion(st.Elem(), l.path)]; ok {
				addAcc(t, v.Type())
				break
			}
		}
	}
	// records that the function holds when the loop begins
	for v, x := range f.regs {
		if p, ok := v.Type().Underlying().(*types.Pointer); ok && isStruct(p.Elem()) {
			if t, ok := x.(*Term); ok && !helds[t] && !u.varies(t, ct) && !t.isInt(0) {
				helds[t] = true
				heldl = append(heldl, SV{t, v.Type()})
			}
		}
	}
	sort.SliceStable(heldl, func(i, j int) bool { return heldl[i].v.(*Term).id < heldl[j].v.(*Term).id })
	sort.SliceStable(accs, func(i, j int) bool { return accs[i].v.(*Term).id < accs[j].v.(*Term).id })
	var out []*Inv
	for k, en := range envs {
		if iter != nil {
			en.vars["iter"] = SV{iter, intT}
		}
		en.visited = vis
		if _, ok := en.vars["db"]; !ok && s.decoded != nil {
			en.vars["db"] = SV{s.decoded.obj, u.e.dbPtrType()}
		}
		nested := false
		for _, li := range specs[k].LoopInv {
			nested = nested || wordIn(li.Src, "outer")
		}
		if outer != nil {
			en.vars["outer"] = SV{outer.ind, intT}
		}
		for _, li := range specs[k].LoopInv {
			// where some invariants are stated for inner loops, the others are for the outer one
			if len(li.Labels) > 0 && !hasLabel(li.Labels, u.prop) {
				continue
			}
			_, field, over := strings.Cut(li.Name, " over ")
			if over && ct.over != "" && !strings.Contains(ct.over, "."+field+"!") && !strings.Contains(ct.over, "."+field+"0") && !strings.HasSuffix(strings.TrimRight(ct.over, "|"), "."+field) {
				continue
			}
			if nested && !over && wordIn(li.Src, "outer") != (outer != nil) {
				continue
			}
			try := func(en *Env, nm string) {
				t, err := en.evalClause(li)
				if err != nil {
					if u.debug {
						u.logf("loop invariant %s: %v", li.Name, err)
					}
					return
				}
				parts := u.splitConj(t, 3)
				for k, x := range parts {
					pn := ""
					if len(parts) > 1 {
						pn = fmt.Sprintf(".%d", k)
					}
					out = append(out, &Inv{"spec: " + li.Name + nm + pn, x})
				}
			}
			used := false
			for nm, list := range map[string][]SV{"acc": accs, "sacc": saccs, "flag": flags, "macc": maccs, "held": heldl, "pick": picks, "spick": spicks} {
				if !wordIn(li.Src, nm) {
					continue
				}
				used = true
				for i, a := range list {
					try(en.bind(nm, a), fmt.Sprintf("/%s%d", nm, i))
				}
			}
			if !used {
				try(en, "")
			}
		}
	}
	return out
}

// splitConj splits a condition into conjuncts, also below universal quantifiers and implications.
func (u *Unit) splitConj(t *Term, d int) []*Term {
	c := u.c
	if d == 0 {
		return []*Term{t}
	}
	switch t.Op {
	case "and":
		var out []*Term
		for _, a := range t.Args {
			out = append(out, u.splitConj(a, d)...)
		}
		return out
	case "=>":
		ps := u.splitConj(t.Args[1], d-1)
		if len(ps) < 2 {
			break
		}
		var out []*Term
		for _, p := range ps {
			out = append(out, c.Implies(t.Args[0], p))
		}
		return out
	case "forall":
		ps := u.splitConj(t.Args[0], d-1)
		if len(ps) < 2 {
			break
		}
		var out []*Term
		for _, p := range ps {
			var pats [][]*Term
			if len(t.Vars) == 1 {
				pats = u.patsFor(p, t.Vars[0])
			} else {
				pats = t.Pats
			}
			out = append(out, c.Forall(t.Vars, p, pats...))
		}
		return out
	}
	return []*Term{t}
}

func wordIn(s, w string) bool {
	return regexp.MustCompile(`\b` + w + `\b`).MatchString(s)
}

func sortedTerms(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

// varies: the term changes between iterations.
func (u *Unit) varies(a *Term, ct *Cut) bool {
	set := map[*Term]bool{}
	for _, h := range ct.hv {
		set[h] = true
	}
	for _, h := range ct.hregs {
		set[h] = true
	}
	if ct.hnext != nil {
		set[ct.hnext] = true
	}
	return contains(a, set)
}

// private: clauses whose only labels are listed under "option private" are left out of other properties' proofs.
func (sp *FuncSpec) private(cl *Clause, prop string) bool {
	pr := strings.Fields(sp.Opts["private"])
	if len(pr) == 0 || len(cl.Labels) == 0 {
		return false
	}
	for _, l := range cl.Labels {
		if l == prop || !hasLabel(pr, l) {
			return false
		}
	}
	return true
}

// eachOf: the struct type and the membership test of "each(slice of pointers)".
func (u *Unit) eachOf(en *Env, e ast.Expr, m string) (types.Type, func(x *Term) *Term) {
	c := u.c
	v := en.eval(e)
	sl, ok := v.t.Underlying().(*types.Slice)
	if !ok {
		panic(unsup("modifies " + m))
	}
	pt, ok := sl.Elem().Underlying().(*types.Pointer)
	if !ok {
		panic(unsup("modifies " + m))
	}
	s := u.term(v.v)
	a := u.elemArr(en.old, sl.Elem(), "", sl.Elem(), c.SBase(s))
	return pt.Elem(), func(x *Term) *Term {
		j := c.FreshBVar("j", SInt)
		return c.Exists([]*Term{j}, c.And(c.Le(c.Int(0), j), c.Lt(j, c.SLen(s)), c.Eq(x, c.Select(a, c.Idx(c.SOff(s), j)))))
	}
}

// eachFields: the fields "each(ps, F, G)" names (all if none).
func eachFields(t types.Type, cl *ast.CallExpr) []leaf {
	if len(cl.Args) == 1 {
		return leaves(t)
	}
	var out []leaf
	for _, l := range leaves(t) {
		for _, a := range cl.Args[1:] {
			p := "." + exprStr(a)
			if l.path == p || strings.HasPrefix(l.path, p+".") {
				out = append(out, l)
				break
			}
		}
	}
	return out
}
