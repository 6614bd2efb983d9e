package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Terms are hash-consed per Ctx. Every verification unit owns one Ctx.

type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SStr   Sort = "Str"
	SReal  Sort = "Real"
	SSlice Sort = "Slice"
	SIface Sort = "Iface"
	STime  Sort = "Time"
)

func arr(from, to Sort) Sort { return Sort("(Array " + string(from) + " " + string(to) + ")") }

// arrParts splits "(Array A B)" into A and B.
func arrParts(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	str = str[7 : len(str)-1]
	if str[0] == '(' {
		d := 0
		for i := range str {
			if str[i] == '(' {
				d++
			} else if str[i] == ')' {
				d--
				if d == 0 {
					return Sort(str[:i+1]), Sort(str[i+2:])
				}
			}
		}
	}
	i := strings.IndexByte(str, ' ')
	return Sort(str[:i]), Sort(str[i+1:])
}

func (s Sort) isArr() bool { return strings.HasPrefix(string(s), "(Array ") }

type Term struct {
	Op   string // "int","str","real","true","false","sym","app","bvar","forall","exists" or an SMT operator
	Name string // symbol / function / literal text
	Args []*Term
	Sort Sort
	Int  *big.Int
	Vars []*Term   // quantifier variables
	Pats [][]*Term // triggers
	id   int
	bv   bool // contains a bound variable that is free in it
	qf   bool // contains no quantifier
	fv   map[*Term]bool
}

type FuncDecl struct {
	Name string
	Args []Sort
	Ret  Sort
}

// keptArr: the array equals old below the counter.
type keptArr struct{ old, below *Term }

type Ctx struct {
	tab   map[string]*Term
	n     int
	fresh map[string]int
	funcs map[string]FuncDecl
	True  *Term
	False *Term
	strs  map[string]*Term

	baseFact map[*Term]baseFact      // typing facts of heap symbols
	lower    map[*Term]*Term         // allocation counters: no smaller than
	apart    map[[2]*Term]bool
	kept     map[*Term]keptArr       // arrays that agree with an older one on old objects
	upper    map[*Term]*Term         // references of old objects: smaller than
	symFact  map[*Term][]*Term       // facts that accompany a symbol
	hooks    []func(t *Term) []*Term // further ground facts per application
	counters map[*Term]*counter
	cntName  map[string]*counter
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, fresh: map[string]int{}, funcs: map[string]FuncDecl{}, strs: map[string]*Term{}, baseFact: map[*Term]baseFact{}, symFact: map[*Term][]*Term{}, lower: map[*Term]*Term{}, upper: map[*Term]*Term{}, apart: map[[2]*Term]bool{}, kept: map[*Term]keptArr{}}
	c.True = c.mk(&Term{Op: "true", Sort: SBool})
	c.False = c.mk(&Term{Op: "false", Sort: SBool})
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	sb.WriteByte('|')
	sb.WriteString(string(t.Sort))
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	for _, a := range t.Vars {
		fmt.Fprintf(&sb, ";%d", a.id)
	}
	for _, p := range t.Pats {
		sb.WriteByte('/')
		for _, a := range p {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
	}
	k := sb.String()
	if o, ok := c.tab[k]; ok {
		return o
	}
	c.n++
	t.id = c.n
	t.qf = t.Op != "forall" && t.Op != "exists"
	for _, a := range t.Args {
		if !a.qf {
			t.qf = false
		}
		if a.bv {
			for v := range a.fv {
				if t.fv == nil {
					t.fv = map[*Term]bool{}
				}
				t.fv[v] = true
			}
		}
	}
	if t.Op == "bvar" {
		t.fv = map[*Term]bool{t: true}
	}
	for _, v := range t.Vars {
		delete(t.fv, v)
	}
	t.bv = len(t.fv) > 0
	c.tab[k] = t
	return t
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Int(i int64) *Term { return c.BigInt(big.NewInt(i)) }
func (c *Ctx) BigInt(i *big.Int) *Term {
	return c.mk(&Term{Op: "int", Name: i.String(), Sort: SInt, Int: i})
}
func (c *Ctx) Str(s string) *Term {
	t := c.mk(&Term{Op: "str", Name: s, Sort: SStr})
	c.strs[s] = t
	return t
}
func (c *Ctx) RealLit(r *big.Rat) *Term {
	return c.mk(&Term{Op: "real", Name: r.RatString(), Sort: SReal})
}
func (c *Ctx) Sym(name string, s Sort) *Term {
	return c.mk(&Term{Op: "sym", Name: name, Sort: s})
}
func (c *Ctx) Fresh(prefix string, s Sort) *Term {
	prefix = sanitize(prefix)
	c.fresh[prefix]++
	return c.Sym(fmt.Sprintf("%s!%d", prefix, c.fresh[prefix]), s)
}
func (c *Ctx) FreshBVar(prefix string, s Sort) *Term {
	c.fresh["bv:"+prefix]++
	return c.mk(&Term{Op: "bvar", Name: fmt.Sprintf("%s?%d", sanitize(prefix), c.fresh["bv:"+prefix]), Sort: s})
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("._$!@<>*:/[]{}", r) {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (t *Term) isLit() bool {
	switch t.Op {
	case "int", "str", "true", "false", "real":
		return true
	}
	return false
}
func (t *Term) isInt(i int64) bool { return t.Op == "int" && t.Int.IsInt64() && t.Int.Int64() == i }
func (t *Term) litInt() (int64, bool) {
	if t.Op == "int" && t.Int.IsInt64() {
		return t.Int.Int64(), true
	}
	return 0, false
}

// App applies an uninterpreted function.
func (c *Ctx) App(name string, ret Sort, args ...*Term) *Term {
	name = sanitize(name)
	if _, ok := c.funcs[name]; !ok {
		d := FuncDecl{Name: name, Ret: ret}
		for _, a := range args {
			d.Args = append(d.Args, a.Sort)
		}
		c.funcs[name] = d
	} else {
		d := c.funcs[name]
		if len(d.Args) != len(args) || d.Ret != ret {
			panic(fmt.Sprintf("function %s used with different signatures", name))
		}
		for i := range args {
			if d.Args[i] != args[i].Sort {
				panic(fmt.Sprintf("function %s arg %d sort %s vs %s", name, i, d.Args[i], args[i].Sort))
			}
		}
	}
	// unbox(box(x)) = x
	if strings.HasPrefix(name, "unbox_") && len(args) == 1 {
		a := args[0]
		if a.Op == "app" && a.Name == "box_"+name[6:] {
			return a.Args[0]
		}
		if a.Op == "ite" {
			return c.Ite(a.Args[0], c.App(name, ret, a.Args[1]), c.App(name, ret, a.Args[2]))
		}
	}
	if r := c.simpApp(name, args); r != nil {
		return r
	}
	return c.mk(&Term{Op: "app", Name: name, Args: args, Sort: ret})
}

func (c *Ctx) Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return c.False
	case "false":
		return c.True
	case "not":
		return a.Args[0]
	case "<":
		return c.Le(a.Args[1], a.Args[0])
	case "<=":
		if a.Args[0].Sort == SInt {
			return c.Lt(a.Args[1], a.Args[0])
		}
	}
	return c.mk(&Term{Op: "not", Args: []*Term{a}, Sort: SBool})
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.Op == "true" || seen[t] {
			return true
		}
		if t.Op == "false" {
			return false
		}
		if t.Op == "and" {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if t.Op == "not" && seen[t.Args[0]] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False
		}
	}
	for _, o := range out {
		if o.Op == "not" && seen[o.Args[0]] {
			return c.False
		}
	}
	switch len(out) {
	case 0:
		return c.True
	case 1:
		return out[0]
	}
	return c.mk(&Term{Op: "and", Args: out, Sort: SBool})
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.Op == "true" {
			return c.True
		}
		if a.Op == "false" || seen[a] {
			continue
		}
		if a.Op == "or" {
			for _, x := range a.Args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, o := range out {
		if seen[c.Not(o)] {
			return c.True
		}
	}
	switch len(out) {
	case 0:
		return c.False
	case 1:
		return out[0]
	}
	return c.mk(&Term{Op: "or", Args: out, Sort: SBool})
}

func (c *Ctx) Implies(a, b *Term) *Term {
	if a.Op == "true" {
		return b
	}
	if a.Op == "false" || b.Op == "true" || a == b {
		return c.True
	}
	if b.Op == "false" {
		return c.Not(a)
	}
	return c.mk(&Term{Op: "=>", Args: []*Term{a, b}, Sort: SBool})
}

func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p.Op == "true" || a == b {
		return a
	}
	if p.Op == "false" {
		return b
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts %s %s: %s / %s", a.Sort, b.Sort, show(a), show(b)))
	}
	if a.Sort == SBool {
		if a.Op == "true" && b.Op == "false" {
			return p
		}
		if a.Op == "false" && b.Op == "true" {
			return c.Not(p)
		}
		if a.Op == "true" {
			return c.Or(p, b)
		}
		if a.Op == "false" {
			return c.And(c.Not(p), b)
		}
		if b.Op == "true" {
			return c.Or(c.Not(p), a)
		}
		if b.Op == "false" {
			return c.And(p, a)
		}
	}
	if p.Op == "not" {
		return c.Ite(p.Args[0], b, a)
	}
	return c.mk(&Term{Op: "ite", Args: []*Term{p, a, b}, Sort: a.Sort})
}

// linear form: base terms with coefficients plus constant
type lin struct {
	c    *big.Int
	coef map[*Term]*big.Int
}

func (c *Ctx) lin(t *Term) lin {
	r := lin{c: new(big.Int), coef: map[*Term]*big.Int{}}
	var walk func(t *Term, k *big.Int)
	walk = func(t *Term, k *big.Int) {
		switch t.Op {
		case "int":
			r.c.Add(r.c, new(big.Int).Mul(k, t.Int))
			return
		case "+":
			for _, a := range t.Args {
				walk(a, k)
			}
			return
		case "*":
			if len(t.Args) == 2 && t.Args[0].Op == "int" {
				walk(t.Args[1], new(big.Int).Mul(k, t.Args[0].Int))
				return
			}
		}
		if v, ok := r.coef[t]; ok {
			v.Add(v, k)
		} else {
			r.coef[t] = new(big.Int).Set(k)
		}
	}
	walk(t, big.NewInt(1))
	for k, v := range r.coef {
		if v.Sign() == 0 {
			delete(r.coef, k)
		}
	}
	return r
}

func (c *Ctx) unlin(l lin) *Term {
	var ts []*Term
	for t := range l.coef {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	one := big.NewInt(1)
	for _, t := range ts {
		k := l.coef[t]
		if k.Cmp(one) == 0 {
			out = append(out, t)
		} else {
			out = append(out, c.mk(&Term{Op: "*", Args: []*Term{c.BigInt(k), t}, Sort: SInt}))
		}
	}
	if l.c.Sign() != 0 || len(out) == 0 {
		out = append(out, c.BigInt(l.c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk(&Term{Op: "+", Args: out, Sort: SInt})
}

func (c *Ctx) Add(as ...*Term) *Term {
	if as[0].Sort == SReal {
		return c.mk(&Term{Op: "+", Args: as, Sort: SReal})
	}
	return c.unlin(c.lin(c.mk(&Term{Op: "+", Args: as, Sort: SInt})))
}
func (c *Ctx) Neg(a *Term) *Term { return c.MulC(big.NewInt(-1), a) }
func (c *Ctx) MulC(k *big.Int, a *Term) *Term {
	return c.unlin(c.lin(c.mk(&Term{Op: "*", Args: []*Term{c.BigInt(k), a}, Sort: SInt})))
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if a.Sort == SReal {
		return c.mk(&Term{Op: "-", Args: []*Term{a, b}, Sort: SReal})
	}
	return c.Add(a, c.Neg(b))
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.Sort == SReal {
		return c.mk(&Term{Op: "*", Args: []*Term{a, b}, Sort: SReal})
	}
	if a.Op == "int" {
		return c.MulC(a.Int, b)
	}
	if b.Op == "int" {
		return c.MulC(b.Int, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{Op: "*", Args: []*Term{a, b}, Sort: SInt})
}

// Div and Mod are SMT-LIB (Euclidean) division; callers handle Go semantics.
func (c *Ctx) Div(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.Int.Sign() != 0 {
		return c.BigInt(new(big.Int).Div(a.Int, b.Int))
	}
	if b.isInt(1) {
		return a
	}
	if b.Op == "int" && b.Int.Sign() > 0 && (a.Op == "+" || a.Op == "*" || a.Op == "mod") {
		// multiples of the divisor, and a rest below it
		l := c.lin(a)
		q, rest := lin{c: new(big.Int), coef: map[*Term]*big.Int{}}, lin{c: new(big.Int).Set(l.c), coef: map[*Term]*big.Int{}}
		for t, k := range l.coef {
			if new(big.Int).Mod(k, b.Int).Sign() == 0 {
				q.coef[t] = new(big.Int).Div(k, b.Int)
			} else {
				rest.coef[t] = k
			}
		}
		lo, hi := c.bounds(c.unlin(rest), 6)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.Int) < 0 {
			return c.unlin(q)
		}
	}
	return c.mk(&Term{Op: "div", Args: []*Term{a, b}, Sort: SInt})
}
func (c *Ctx) Mod(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.Int.Sign() != 0 {
		return c.BigInt(new(big.Int).Mod(a.Int, b.Int))
	}
	if b.Op == "int" && b.Int.Sign() > 0 {
		lo, hi := c.bounds(a, 6)
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.Int) < 0 {
			return a
		}
		if a.Op == "mod" && a.Args[1].Op == "int" && new(big.Int).Mod(a.Args[1].Int, b.Int).Sign() == 0 {
			return c.Mod(a.Args[0], b)
		}
		if a.Op == "+" || a.Op == "*" {
			// reduce the summands
			l := c.lin(a)
			r := lin{c: new(big.Int).Mod(l.c, b.Int), coef: map[*Term]*big.Int{}}
			changed := r.c.Cmp(l.c) != 0
			for t, k := range l.coef {
				if new(big.Int).Mod(k, b.Int).Sign() == 0 {
					changed = true
					continue
				}
				if lo, hi := c.bounds(t, 6); k.Sign() > 0 && lo != nil && hi != nil && lo.Sign() >= 0 && new(big.Int).Mod(b.Int, k).Sign() == 0 {
					if m := new(big.Int).Div(b.Int, k); hi.Cmp(m) >= 0 {
						t, changed = c.Mod(t, c.BigInt(m)), true
					}
				}
				if v, ok := r.coef[t]; ok {
					v.Add(v, k)
				} else {
					r.coef[t] = new(big.Int).Set(k)
				}
			}
			if changed {
				return c.Mod(c.unlin(r), b)
			}
		}
	}
	return c.mk(&Term{Op: "mod", Args: []*Term{a, b}, Sort: SInt})
}

// bounds gives syntactic bounds of an integer term (nil = unknown).
func (c *Ctx) bounds(t *Term, d int) (lo, hi *big.Int) {
	if d == 0 {
		return nil, nil
	}
	switch t.Op {
	case "int":
		return t.Int, t.Int
	case "mod":
		if t.Args[1].Op == "int" && t.Args[1].Int.Sign() > 0 {
			return big.NewInt(0), new(big.Int).Sub(t.Args[1].Int, big.NewInt(1))
		}
	case "div":
		if t.Args[1].Op == "int" && t.Args[1].Int.Sign() > 0 {
			l, h := c.bounds(t.Args[0], d-1)
			if l != nil {
				l = new(big.Int).Div(l, t.Args[1].Int)
			}
			if h != nil {
				h = new(big.Int).Div(h, t.Args[1].Int)
			}
			return l, h
		}
	case "slen", "scap", "strlen":
		return big.NewInt(0), nil
	case "app":
		switch t.Name {
		case "strbyte", "bytes2":
			return big.NewInt(0), big.NewInt(255)
		case "strlen":
			return big.NewInt(0), nil
		}
	case "select":
		// byte arrays
		if t.Sort == SInt {
			a := t.Args[0]
			if a.Op == "app" && (a.Name == "hmacsum" || a.Name == "sha256") {
				return big.NewInt(0), big.NewInt(255)
			}
		}
	case "*":
		if len(t.Args) == 2 && t.Args[0].Op == "int" {
			l, h := c.bounds(t.Args[1], d-1)
			k := t.Args[0].Int
			if k.Sign() < 0 {
				l, h = h, l
			}
			if l != nil {
				l = new(big.Int).Mul(l, k)
			}
			if h != nil {
				h = new(big.Int).Mul(h, k)
			}
			return l, h
		}
	case "+":
		l, h := big.NewInt(0), big.NewInt(0)
		for _, a := range t.Args {
			al, ah := c.bounds(a, d-1)
			if l != nil && al != nil {
				l = new(big.Int).Add(l, al)
			} else {
				l = nil
			}
			if h != nil && ah != nil {
				h = new(big.Int).Add(h, ah)
			} else {
				h = nil
			}
		}
		return l, h
	case "ite":
		l1, h1 := c.bounds(t.Args[1], d-1)
		l2, h2 := c.bounds(t.Args[2], d-1)
		var l, h *big.Int
		if l1 != nil && l2 != nil {
			l = l1
			if l2.Cmp(l1) < 0 {
				l = l2
			}
		}
		if h1 != nil && h2 != nil {
			h = h1
			if h2.Cmp(h1) > 0 {
				h = h2
			}
		}
		return l, h
	}
	return nil, nil
}

func (c *Ctx) cmp(op string, a, b *Term) *Term {
	if a.Sort == SReal {
		if a.isLit() && b.isLit() {
			x, _ := new(big.Rat).SetString(a.Name)
			y, _ := new(big.Rat).SetString(b.Name)
			if op == "<=" {
				return c.Bool(x.Cmp(y) <= 0)
			}
			return c.Bool(x.Cmp(y) < 0)
		}
		return c.mk(&Term{Op: op, Args: []*Term{a, b}, Sort: SBool})
	}
	d := c.lin(c.Sub(b, a)) // b-a
	if len(d.coef) == 0 {
		if op == "<=" {
			return c.Bool(d.c.Sign() >= 0)
		}
		return c.Bool(d.c.Sign() > 0)
	}
	lo, hi := c.bounds(c.unlin(d), 5)
	if op == "<=" {
		if lo != nil && lo.Sign() >= 0 {
			return c.True
		}
		if hi != nil && hi.Sign() < 0 {
			return c.False
		}
	} else {
		if lo != nil && lo.Sign() > 0 {
			return c.True
		}
		if hi != nil && hi.Sign() <= 0 {
			return c.False
		}
	}
	// normalise: pos <=|< neg with positive parts on each side
	l, r := lin{c: new(big.Int), coef: map[*Term]*big.Int{}}, lin{c: new(big.Int), coef: map[*Term]*big.Int{}}
	for t, k := range d.coef {
		if k.Sign() > 0 {
			r.coef[t] = k
		} else {
			l.coef[t] = new(big.Int).Neg(k)
		}
	}
	k := new(big.Int).Set(d.c) // r - l + k >= 0
	if op == "<" {             // r - l + k > 0  <=>  l - k + 1 <= r
		op = "<="
		k.Sub(k, big.NewInt(1))
	}
	if k.Sign() >= 0 {
		r.c = k
	} else {
		l.c = new(big.Int).Neg(k)
	}
	// a <= b+... ; prefer strict form when l.c is 1 and others
	lt, rt := c.unlin(l), c.unlin(r)
	if l.c.Cmp(big.NewInt(1)) == 0 && len(l.coef) > 0 {
		l.c = new(big.Int)
		return c.mk(&Term{Op: "<", Args: []*Term{c.unlin(l), rt}, Sort: SBool})
	}
	return c.mk(&Term{Op: "<=", Args: []*Term{lt, rt}, Sort: SBool})
}
func (c *Ctx) Le(a, b *Term) *Term { return c.cmp("<=", a, b) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.cmp("<", a, b) }
func (c *Ctx) Ge(a, b *Term) *Term { return c.cmp("<=", b, a) }
func (c *Ctx) Gt(a, b *Term) *Term { return c.cmp("<", b, a) }

// distinct reports whether two terms are syntactically known to differ.
func (c *Ctx) distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	if a.isLit() && b.isLit() {
		return true
	}
	if a.Sort == SInt {
		d := c.lin(c.Sub(a, b))
		if len(d.coef) == 0 {
			return d.c.Sign() != 0
		}
		lo, hi := c.bounds(c.unlin(d), 5)
		return lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 || c.knownDistinct(a, b)
	}
	return false
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("eq sorts %s %s: %s = %s", a.Sort, b.Sort, show(a), show(b)))
	}
	if c.distinct(a, b) {
		return c.False
	}
	if a.Sort == SBool {
		if a.Op == "true" {
			return b
		}
		if b.Op == "true" {
			return a
		}
		if a.Op == "false" {
			return c.Not(b)
		}
		if b.Op == "false" {
			return c.Not(a)
		}
	}
	if a.Op == "mkslice" && b.Op == "mkslice" || a.Op == "mkif" && b.Op == "mkif" {
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, c.Eq(a.Args[i], b.Args[i]))
		}
		return c.And(cs...)
	}
	if a.Op == "app" && b.Op == "app" && a.Name == b.Name && strings.HasPrefix(a.Name, "box_") {
		return c.Eq(a.Args[0], b.Args[0])
	}
	// push equality with a literal through ite
	if b.isLit() && a.Op == "ite" {
		return c.Ite(a.Args[0], c.Eq(a.Args[1], b), c.Eq(a.Args[2], b))
	}
	if a.isLit() && b.Op == "ite" {
		return c.Ite(b.Args[0], c.Eq(b.Args[1], a), c.Eq(b.Args[2], a))
	}
	if a.Sort == SStr {
		if r := c.eqStr(a, b); r != nil {
			return r
		}
	}
	if a.Sort == SInt {
		d := c.lin(c.Sub(a, b))
		// normalise x - y + k = 0
		if len(d.coef) == 1 {
			for t, k := range d.coef {
				q, r := new(big.Int).QuoRem(new(big.Int).Neg(d.c), k, new(big.Int))
				if r.Sign() != 0 {
					return c.False
				}
				a, b = t, c.BigInt(q)
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{Op: "=", Args: []*Term{a, b}, Sort: SBool})
}

// eqStr simplifies an equality of strings, or returns nil.
func (c *Ctx) eqStr(a, b *Term) *Term {
	if b.Op == "str" {
		a, b = b, a
	}
	if a.Op == "str" && a.Name == "" && b.Op == "app" && b.Name == "lower" {
		return c.Eq(b.Args[0], a)
	}
	if a.Op != "concat" && b.Op != "concat" {
		return nil
	}
	args := func(t *Term) []*Term {
		if t.Op == "concat" {
			return append([]*Term(nil), t.Args...)
		}
		if t.Op == "str" && t.Name == "" {
			return nil
		}
		return []*Term{t}
	}
	x, y := args(a), args(b)
	changed := false
	for len(x) > 0 && len(y) > 0 {
		if x[0] == y[0] {
			x, y, changed = x[1:], y[1:], true
			continue
		}
		if x[0].Op == "str" && y[0].Op == "str" {
			p, q := x[0].Name, y[0].Name
			n := 0
			for n < len(p) && n < len(q) && p[n] == q[n] {
				n++
			}
			if n < len(p) && n < len(q) {
				return c.False
			}
			cut := func(z []*Term) []*Term {
				r := z[0].Name[n:]
				if r == "" {
					return z[1:]
				}
				return append([]*Term{c.Str(r)}, z[1:]...)
			}
			x, y, changed = cut(x), cut(y), true
			continue
		}
		break
	}
	for len(x) > 0 && len(y) > 0 {
		i, j := len(x)-1, len(y)-1
		if x[i] == y[j] {
			x, y, changed = x[:i], y[:j], true
			continue
		}
		if x[i].Op == "str" && y[j].Op == "str" {
			p, q := x[i].Name, y[j].Name
			n := 0
			for n < len(p) && n < len(q) && p[len(p)-1-n] == q[len(q)-1-n] {
				n++
			}
			if n < len(p) && n < len(q) {
				return c.False
			}
			cut := func(z []*Term, i int) []*Term {
				r := z[i].Name[:len(z[i].Name)-n]
				if r == "" {
					return z[:i]
				}
				return append(append([]*Term(nil), z[:i]...), c.Str(r))
			}
			x, y, changed = cut(x, i), cut(y, j), true
			continue
		}
		break
	}
	for _, z := range [][2][]*Term{{x, y}, {y, x}} {
		if len(z[0]) == 0 {
			// the other side must be empty
			var cs []*Term
			for _, t := range z[1] {
				if t.Op == "str" && t.Name != "" {
					return c.False
				}
				cs = append(cs, c.Eq(t, c.Str("")))
			}
			return c.And(cs...)
		}
	}
	if !changed {
		return nil
	}
	return c.Eq(c.Concat(x...), c.Concat(y...))
}

func (c *Ctx) Select(a, i *Term) *Term {
	for {
		if a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if c.distinct(a.Args[1], i) || c.knownDistinct(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		if k, ok := c.kept[a]; ok && c.above(k.below, i) {
			a = k.old
			continue
		}
		break
	}
	if a.Op == "ite" && (a.Args[1].Op == "store" || a.Args[2].Op == "store" || a.Args[1].Op == "constarr" || a.Args[2].Op == "constarr") {
		return c.Ite(a.Args[0], c.Select(a.Args[1], i), c.Select(a.Args[2], i))
	}
	if a.Op == "app" && a.Name == "bytes_of" {
		if i.Op == "app" && i.Name == "idx" && i.Args[1].Op == "int" {
			i = c.Add(i.Args[0], i.Args[1])
		}
		return c.App("strbyte", SInt, a.Args[0], i)
	}
	_, to := arrParts(a.Sort)
	return c.mk(&Term{Op: "select", Args: []*Term{a, i}, Sort: to})
}

// knownDistinct: a fresh reference (next!k + n) differs from anything known to be older.
func (c *Ctx) knownDistinct(a, b *Term) bool {
	if a.Sort != SInt {
		return false
	}
	if a.id > b.id {
		a, b = b, a
	}
	k := [2]*Term{a, b}
	if v, ok := c.apart[k]; ok {
		return v
	}
	v := c.above(a, b) || c.above(b, a)
	c.apart[k] = v
	return v
}

// upperOf: an allocation counter above the reference t, if one is known.
func (c *Ctx) upperOf(t *Term) *Term {
	if b, ok := c.upper[t]; ok {
		return b
	}
	kind := 1
	if t.Op == "sbase" {
		kind = 2
		t = t.Args[0]
	}
	if t.Op == "select" {
		a := t.Args[0]
		if f, ok := c.baseFact[a]; ok && f.nest == 1 && f.kind == kind {
			return f.next
		}
		if a.Op == "select" {
			if f, ok := c.baseFact[a.Args[0]]; ok && f.nest == 2 && f.kind == kind {
				return f.next
			}
		}
	}
	return nil
}

// above: a > b follows from the lower bounds of allocation counters.
func (c *Ctx) above(a, b *Term) bool {
	d := c.Sub(a, b)
	for n := 0; n < 12; n++ {
		l := c.lin(d)
		if len(l.coef) == 0 {
			return l.c.Sign() > 0
		}
		var x *Term
		for t, k := range l.coef {
			if k.IsInt64() && k.Int64() == -1 && c.upperOf(t) != nil {
				x = t
			}
		}
		if x != nil && len(l.coef) <= 2 {
			d = c.Add(d, x, c.Int(1), c.Neg(c.upperOf(x)))
			continue
		}
		for t, k := range l.coef {
			if _, ok := c.lower[t]; ok && k.IsInt64() && k.Int64() == 1 {
				x = t
			}
		}
		if x == nil || len(l.coef) > 2 {
			return false
		}
		d = c.Add(c.Sub(d, x), c.lower[x])
	}
	return false
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	from, to := arrParts(a.Sort)
	if from != i.Sort || to != v.Sort {
		panic(fmt.Sprintf("store %s [%s] := %s", a.Sort, i.Sort, v.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		return c.Store(a.Args[0], i, v)
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return c.mk(&Term{Op: "store", Args: []*Term{a, i, v}, Sort: a.Sort})
}
func (c *Ctx) ConstArr(s Sort, v *Term) *Term {
	return c.mk(&Term{Op: "constarr", Args: []*Term{v}, Sort: s})
}

func (c *Ctx) MkSlice(b, o, l, k *Term) *Term {
	if b.Op == "sbase" && o.Op == "soff" && l.Op == "slen" && k.Op == "scap" && b.Args[0] == o.Args[0] && b.Args[0] == l.Args[0] && b.Args[0] == k.Args[0] {
		return b.Args[0]
	}
	return c.mk(&Term{Op: "mkslice", Args: []*Term{b, o, l, k}, Sort: SSlice})
}
func (c *Ctx) sproj(op string, n int, s *Term) *Term {
	if s.Op == "mkslice" {
		return s.Args[n]
	}
	if s.Op == "ite" {
		return c.Ite(s.Args[0], c.sproj(op, n, s.Args[1]), c.sproj(op, n, s.Args[2]))
	}
	return c.mk(&Term{Op: op, Args: []*Term{s}, Sort: SInt})
}
func (c *Ctx) SBase(s *Term) *Term { return c.sproj("sbase", 0, s) }
func (c *Ctx) SOff(s *Term) *Term  { return c.sproj("soff", 1, s) }
func (c *Ctx) SLen(s *Term) *Term  { return c.sproj("slen", 2, s) }
func (c *Ctx) SCap(s *Term) *Term  { return c.sproj("scap", 3, s) }
func (c *Ctx) NilSlice() *Term {
	z := c.Int(0)
	return c.MkSlice(z, z, z, z)
}
func (c *Ctx) MkIf(tag, v *Term) *Term {
	if tag.Op == "itag" && v.Op == "ival" && tag.Args[0] == v.Args[0] {
		return tag.Args[0]
	}
	return c.mk(&Term{Op: "mkif", Args: []*Term{tag, v}, Sort: SIface})
}
func (c *Ctx) NilIf() *Term { return c.MkIf(c.Int(0), c.Int(0)) }
func (c *Ctx) ITag(i *Term) *Term {
	if i.Op == "mkif" {
		return i.Args[0]
	}
	if i.Op == "ite" {
		return c.Ite(i.Args[0], c.ITag(i.Args[1]), c.ITag(i.Args[2]))
	}
	return c.mk(&Term{Op: "itag", Args: []*Term{i}, Sort: SInt})
}
func (c *Ctx) IVal(i *Term) *Term {
	if i.Op == "mkif" {
		return i.Args[1]
	}
	if i.Op == "ite" {
		return c.Ite(i.Args[0], c.IVal(i.Args[1]), c.IVal(i.Args[2]))
	}
	return c.mk(&Term{Op: "ival", Args: []*Term{i}, Sort: SInt})
}

// Idx is the position of element i of a slice with offset o.
func (c *Ctx) Idx(o, i *Term) *Term {
	if o.isInt(0) {
		return i
	}
	if o.Op == "int" && i.Op == "int" {
		return c.Add(o, i)
	}
	return c.App("idx", SInt, o, i)
}

func (c *Ctx) Quant(op string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if body.isLit() {
		return body
	}
	// drop unused variables
	var vs []*Term
	for _, v := range vars {
		if body.fv[v] {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return body
	}
	if op == "forall" && body.Op == "and" {
		var cs []*Term
		for _, b := range body.Args {
			cs = append(cs, c.Quant(op, vars, b, nil))
		}
		if pats == nil {
			return c.And(cs...)
		}
	}
	// triggers must mention every variable and be applications
	var ok [][]*Term
	for _, p := range pats {
		good := true
		fv := map[*Term]bool{}
		for _, t := range p {
			if t.Op != "app" && t.Op != "select" || t.Op == "select" && (t.Args[0].Op == "constarr") {
				good = false
			}
			for v := range t.fv {
				fv[v] = true
			}
		}
		for _, v := range vs {
			if !fv[v] {
				good = false
			}
		}
		if good {
			ok = append(ok, p)
		}
	}
	return c.mk(&Term{Op: op, Args: []*Term{body}, Vars: vs, Pats: ok, Sort: SBool})
}
func (c *Ctx) Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return c.Quant("forall", vars, body, pats)
}
func (c *Ctx) Exists(vars []*Term, body *Term) *Term {
	if len(vars) == 1 && vars[0].Sort == SInt {
		return c.existsSplit(vars[0], body, 3)
	}
	return c.Quant("exists", vars, body, nil)
}

// existsSplit separates the witness at a position the element array was just stored to.
func (c *Ctx) existsSplit(v, body *Term, d int) *Term {
	if d == 0 || !body.fv[v] {
		return c.Quant("exists", []*Term{v}, body, nil)
	}
	var hit *Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if hit != nil || seen[t] || !t.fv[v] {
			return
		}
		seen[t] = true
		if t.Op == "select" && t.Args[0].Op == "store" && !t.Args[0].fv[v] {
			i, e := t.Args[1], t.Args[0].Args[1]
			if i.Op == "app" && i.Name == "idx" && i.Args[1] == v && e.Op == "app" && e.Name == "idx" && e.Args[0] == i.Args[0] {
				ok := true
				for range t.Args[0].fv {
					ok = false
				}
				if ok {
					hit = t
					return
				}
			}
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(body)
	if hit == nil {
		return c.Quant("exists", []*Term{v}, body, nil)
	}
	e := hit.Args[0].Args[1].Args[1]
	at := c.Subst(body, map[*Term]*Term{v: e})
	below := c.Subst(body, map[*Term]*Term{hit: c.Select(hit.Args[0].Args[0], hit.Args[1])})
	return c.Or(at, c.existsSplit(v, c.And(c.Not(c.Eq(v, e)), below), d-1))
}

// Rebuild re-creates a term node with new arguments through the simplifier.
func (c *Ctx) rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "app":
		return c.App(t.Name, t.Sort, args...)
	case "not":
		return c.Not(args[0])
	case "and":
		return c.And(args...)
	case "or":
		return c.Or(args...)
	case "=>":
		return c.Implies(args[0], args[1])
	case "ite":
		return c.Ite(args[0], args[1], args[2])
	case "+":
		return c.Add(args...)
	case "-":
		return c.Sub(args[0], args[1])
	case "*":
		return c.Mul(args[0], args[1])
	case "div":
		return c.Div(args[0], args[1])
	case "mod":
		return c.Mod(args[0], args[1])
	case "<=":
		return c.Le(args[0], args[1])
	case "<":
		return c.Lt(args[0], args[1])
	case "=":
		return c.Eq(args[0], args[1])
	case "select":
		return c.Select(args[0], args[1])
	case "store":
		return c.Store(args[0], args[1], args[2])
	case "constarr":
		return c.ConstArr(t.Sort, args[0])
	case "mkslice":
		return c.MkSlice(args[0], args[1], args[2], args[3])
	case "sbase":
		return c.SBase(args[0])
	case "soff":
		return c.SOff(args[0])
	case "slen":
		return c.SLen(args[0])
	case "scap":
		return c.SCap(args[0])
	case "mkif":
		return c.MkIf(args[0], args[1])
	case "itag":
		return c.ITag(args[0])
	case "ival":
		return c.IVal(args[0])
	case "concat":
		return c.Concat(args...)
	}
	if len(args) == 0 {
		return t
	}
	return c.mk(&Term{Op: t.Op, Name: t.Name, Args: args, Sort: t.Sort})
}

// Subst replaces terms by terms (bottom-up, memoised).
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.Op == "forall" || t.Op == "exists" {
			body := walk(t.Args[0])
			var pats [][]*Term
			for _, p := range t.Pats {
				var q []*Term
				for _, x := range p {
					q = append(q, walk(x))
				}
				pats = append(pats, q)
			}
			r = c.Quant(t.Op, t.Vars, body, pats)
		} else {
			args := make([]*Term, len(t.Args))
			ch := false
			for i, a := range t.Args {
				args[i] = walk(a)
				if args[i] != a {
					ch = true
				}
			}
			if ch {
				r = c.rebuild(t, args)
			} else {
				r = t
			}
		}
		memo[t] = r
		return r
	}
	return walk(t)
}

// contains reports whether t contains any of the terms in set.
func contains(t *Term, set map[*Term]bool) bool {
	memo := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if set[t] {
			return true
		}
		if memo[t] {
			return false
		}
		memo[t] = true
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

func conjuncts(t *Term) []*Term {
	if t.Op == "and" {
		var out []*Term
		for _, a := range t.Args {
			out = append(out, conjuncts(a)...)
		}
		return out
	}
	return []*Term{t}
}

// Concat of strings, flattened with adjacent literals merged.
func (c *Ctx) Concat(as ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == "concat" {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		if t.Op == "str" {
			if t.Name == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].Op == "str" {
				out[n-1] = c.Str(out[n-1].Name + t.Name)
				return
			}
		}
		out = append(out, t)
	}
	for _, a := range as {
		add(a)
	}
	switch len(out) {
	case 0:
		return c.Str("")
	case 1:
		return out[0]
	}
	return c.mk(&Term{Op: "concat", Args: out, Sort: SStr})
}

func show(t *Term) string { return showD(t, 12) }
func showD(t *Term, d int) string {
	if d == 0 {
		return "…"
	}
	switch t.Op {
	case "int", "sym", "real", "bvar":
		return t.Name
	case "str":
		return fmt.Sprintf("%q", t.Name)
	case "true", "false":
		return t.Op
	}
	var sb strings.Builder
	sb.WriteByte('(')
	if t.Op == "app" {
		sb.WriteString(t.Name)
	} else {
		sb.WriteString(t.Op)
	}
	if t.Vars != nil {
		for _, v := range t.Vars {
			sb.WriteString(" " + v.Name)
		}
		sb.WriteString(" ::")
	}
	for _, a := range t.Args {
		sb.WriteByte(' ')
		sb.WriteString(showD(a, d-1))
	}
	sb.WriteByte(')')
	return sb.String()
}
