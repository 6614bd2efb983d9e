package main

import (
	"fmt"
	"math/big"
	"regexp/syntax"
	"strconv"
	"strings"
	"sync"
)

// Axiom is a set of facts about uninterpreted symbols, added when all of syms occur.
type Axiom struct {
	syms  []string
	mode  int // 0 both, 1 abstract strings only, 2 string theory only
	build func(c *Ctx) []*Term
}

var axioms []Axiom

var regexSMT = map[string]string{}

func isWS(b byte) bool {
	return b == ' ' || b == '\t' || b == '\n' || b == '\r' || b == '\v' || b == '\f'
}

func asciiOnly(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 {
			return false
		}
	}
	return true
}

// StrLen of a string term.
func (c *Ctx) StrLen(s *Term) *Term { return c.App("strlen", SInt, s) }

// simpApp simplifies applications of functions with a fixed meaning.
func (c *Ctx) simpApp(name string, a []*Term) *Term {
	lit := func(i int) bool { return a[i].Op == "str" }
	switch name {
	case "strlen":
		if lit(0) {
			return c.Int(int64(len(a[0].Name)))
		}
		if a[0].Op == "concat" {
			var ts []*Term
			for _, x := range a[0].Args {
				ts = append(ts, c.StrLen(x))
			}
			return c.Add(ts...)
		}
		if a[0].Op == "ite" {
			return c.Ite(a[0].Args[0], c.StrLen(a[0].Args[1]), c.StrLen(a[0].Args[2]))
		}
		if a[0].Op == "app" {
			switch a[0].Name {
			case "bytes2str":
				return a[0].Args[2]
			case "be64":
				return c.Int(8)
			case "bytestr":
				return c.Int(1)
			case "sha256":
				return c.Int(32)
			case "hmacsum":
				if h := a[0].Args[0]; h.Op == "str" {
					if n, ok := map[string]int64{"crypto/sha1.New": 20, "crypto/sha256.New": 32, "crypto/sha512.New": 64}[h.Name]; ok {
						return c.Int(n)
					}
				}
			}
		}
	case "bytes2str":
		if a[2].isInt(0) {
			return c.Str("")
		}
		if a[0].Op == "app" && a[0].Name == "bytes_of" {
			s := a[0].Args[0]
			if a[1].isInt(0) && c.StrLen(s) == a[2] {
				return s
			}
			return c.App("substr", SStr, s, a[1], c.Add(a[1], a[2]))
		}
	case "substr":
		if a[1] == a[2] {
			return c.Str("")
		}
		if a[0].Op == "app" && a[0].Name == "bytes2str" {
			// of a slice expression that is in range
			o := a[0].Args[1]
			if !a[1].isInt(0) {
				o = c.Idx(o, a[1])
			}
			return c.App("bytes2str", SStr, a[0].Args[0], o, c.Sub(a[2], a[1]))
		}
		if a[1].isInt(0) && c.StrLen(a[0]) == a[2] {
			return a[0]
		}
		if lit(0) {
			i, ok1 := a[1].litInt()
			j, ok2 := a[2].litInt()
			if ok1 && ok2 && 0 <= i && i <= j && int(j) <= len(a[0].Name) {
				return c.Str(a[0].Name[i:j])
			}
		}
	case "strbyte":
		if lit(0) {
			if i, ok := a[1].litInt(); ok && i >= 0 && int(i) < len(a[0].Name) {
				return c.Int(int64(a[0].Name[i]))
			}
		}
	case "lower":
		if lit(0) && asciiOnly(a[0].Name) {
			return c.Str(strings.ToLower(a[0].Name))
		}
		if a[0].Op == "app" && a[0].Name == "lower" {
			return a[0]
		}
	case "trim":
		if lit(0) && asciiOnly(a[0].Name) {
			return c.Str(strings.TrimSpace(a[0].Name))
		}
		if a[0].Op == "app" && a[0].Name == "trim" {
			return a[0]
		}
		if a[0].Op == "concat" {
			x := a[0].Args
			if f := x[0]; f.Op == "str" && asciiOnly(f.Name) && isWS(f.Name[0]) {
				y := append([]*Term{c.Str(strings.TrimLeft(f.Name, " \t\n\r\v\f"))}, x[1:]...)
				return c.App("trim", SStr, c.Concat(y...))
			}
			if l := x[len(x)-1]; l.Op == "str" && asciiOnly(l.Name) && isWS(l.Name[len(l.Name)-1]) {
				y := append(append([]*Term{}, x[:len(x)-1]...), c.Str(strings.TrimRight(l.Name, " \t\n\r\v\f")))
				return c.App("trim", SStr, c.Concat(y...))
			}
		}
	case "contains":
		if lit(0) && lit(1) {
			return c.Bool(strings.Contains(a[0].Name, a[1].Name))
		}
		if lit(1) && a[0].Op == "concat" {
			for _, x := range a[0].Args {
				if x.Op == "str" && strings.Contains(x.Name, a[1].Name) {
					return c.True
				}
			}
			if len(a[1].Name) == 1 {
				var ts []*Term
				for _, x := range a[0].Args {
					ts = append(ts, c.App("contains", SBool, x, a[1]))
				}
				return c.Or(ts...)
			}
		}
	case "prefixof":
		if lit(0) && lit(1) {
			return c.Bool(strings.HasPrefix(a[0].Name, a[1].Name))
		}
		if a[0].Op == "concat" && lit(1) && a[0].Args[0].Op == "str" {
			f := a[0].Args[0].Name
			if strings.HasPrefix(f, a[1].Name) {
				return c.True
			}
			if len(f) >= len(a[1].Name) || !strings.HasPrefix(a[1].Name, f) {
				return c.False
			}
		}
	case "suffixof":
		if lit(0) && lit(1) {
			return c.Bool(strings.HasSuffix(a[0].Name, a[1].Name))
		}
	case "itoa":
		if a[0].Op == "int" {
			return c.Str(a[0].Name)
		}
	case "charset_ok":
		if lit(0) {
			for i := 0; i < len(a[0].Name); i++ {
				b := a[0].Name[i]
				if !(b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9') {
					return c.False
				}
			}
			return c.True
		}
		switch a[0].Op {
		case "concat":
			var ts []*Term
			for _, x := range a[0].Args {
				ts = append(ts, c.App("charset_ok", SBool, x))
			}
			return c.And(ts...)
		case "ite":
			return c.Ite(a[0].Args[0], c.App("charset_ok", SBool, a[0].Args[1]), c.App("charset_ok", SBool, a[0].Args[2]))
		case "app":
			switch a[0].Name {
			case "bytestr", "runestr":
				return c.alnum(a[0].Args[0])
			case "bytes2str":
				b := a[0].Args
				j := c.FreshBVar("j", SInt)
				e := c.Select(b[0], c.Idx(b[1], j))
				return c.Forall([]*Term{j}, c.Implies(c.And(c.Le(c.Int(0), j), c.Lt(j, b[2])), c.alnum(e)), []*Term{e})
			}
		}
	case "unix":
		if a[0].Op == "app" && a[0].Name == "utc" {
			return c.App("unix", SInt, a[0].Args[0])
		}
	case "utc":
		if a[0].Op == "app" && a[0].Name == "utc" {
			return a[0]
		}
	}
	return nil
}

func atoi(s string) (int64, bool) {
	v, err := strconv.ParseInt(s, 10, 64)
	return v, err == nil
}

// instFacts are ground facts that accompany a term.
func (c *Ctx) instFacts(t *Term) []*Term {
	if t.bv {
		return nil
	}
	var out []*Term
	switch t.Op {
	case "select":
		a := t.Args[0]
		if f, ok := c.baseFact[a]; ok && f.nest == 1 {
			out = append(out, f.fact(t))
		}
		if a.Op == "select" {
			if f, ok := c.baseFact[a.Args[0]]; ok && f.nest == 2 {
				out = append(out, f.fact(t))
			}
		}
	case "sym":
		if f, ok := c.baseFact[t]; ok {
			if f.nest == 1 {
				x := c.mk(&Term{Op: "bvar", Name: "bf?x", Sort: SInt})
				s := c.Select(t, x)
				out = append(out, c.Forall([]*Term{x}, f.fact(s), []*Term{s}))
			} else {
				x := c.mk(&Term{Op: "bvar", Name: "bf?x", Sort: SInt})
				y := c.mk(&Term{Op: "bvar", Name: "bf?y_" + string(f.key), Sort: f.key})
				s := c.Select(c.Select(t, x), y)
				out = append(out, c.Forall([]*Term{x, y}, f.fact(s), []*Term{s}))
			}
		}
		if ex, ok := c.symFact[t]; ok {
			out = append(out, ex...)
		}
	case "itag":
		out = append(out, c.Le(c.Int(0), t))
	case "div":
		if x, d := t.Args[0], t.Args[1]; d.Op != "int" {
			out = append(out, c.Implies(c.And(c.Lt(c.Int(0), d), c.Le(c.Int(0), x)), c.And(c.Le(c.Int(0), t), c.Le(t, x))))
		}
	case "mod":
		if d := t.Args[1]; d.Op != "int" {
			out = append(out, c.Implies(c.Lt(c.Int(0), d), c.And(c.Le(c.Int(0), t), c.Lt(t, d))))
		}
	case "app":
		switch t.Name {
		case "strlen":
			out = append(out, c.Le(c.Int(0), t), c.Eq(c.Eq(t, c.Int(0)), c.Eq(t.Args[0], c.Str(""))))
		case "strbyte":
			out = append(out, c.Le(c.Int(0), t), c.Le(t, c.Int(255)))
			if t.Args[0].Op == "str" {
				// the byte is one of the literal's
				lo, hi := byte(255), byte(0)
				var ors []*Term
				seen := map[byte]bool{}
				s := t.Args[0].Name
				for i := 0; i < len(s); i++ {
					seen[s[i]] = true
					if s[i] < lo {
						lo = s[i]
					}
					if s[i] > hi {
						hi = s[i]
					}
				}
				// ranges
				for b := 0; b < 256; {
					if !seen[byte(b)] {
						b++
						continue
					}
					e := b
					for e+1 < 256 && seen[byte(e+1)] {
						e++
					}
					ors = append(ors, c.And(c.Le(c.Int(int64(b)), t), c.Le(t, c.Int(int64(e)))))
					b = e + 1
				}
				in := c.And(c.Le(c.Int(0), t.Args[1]), c.Lt(t.Args[1], c.Int(int64(len(s)))))
				out = append(out, c.Implies(in, c.Or(ors...)))
			}
		case "trim":
			out = append(out, c.Le(c.StrLen(t), c.StrLen(t.Args[0])))
		case "lower":
			out = append(out, c.mkIff(c.mkEqRaw(t, c.Str("")), c.Eq(t.Args[0], c.Str(""))))
		case "runestr":
			out = append(out, c.Implies(c.And(c.Le(c.Int(0), t.Args[0]), c.Lt(t.Args[0], c.Int(128))), c.Eq(c.StrLen(t), c.Int(1))))
		case "unix":
			if x := t.Args[0]; x.Op == "app" && x.Name == "timeadd" {
				n := c.Int(1000000000)
				out = append(out, c.Implies(c.Eq(c.Mod(x.Args[1], n), c.Int(0)), c.mkEqRaw(t, c.Add(c.App("unix", SInt, x.Args[0]), c.Div(x.Args[1], n)))))
			}
		case "hmacsum":
			for _, h := range []struct {
				n string
				l int64
			}{{"crypto/sha1.New", 20}, {"crypto/sha256.New", 32}, {"crypto/sha512.New", 64}} {
				out = append(out, c.Implies(c.Eq(t.Args[0], c.Str(h.n)), c.Eq(c.App("strlen", SInt, t), c.Int(h.l))))
			}
		case "zpad":
			for d := int64(0); d <= 10; d++ {
				out = append(out, c.Implies(c.And(c.Eq(t.Args[0], c.Int(d)), c.Le(c.Int(0), t.Args[1]), c.Lt(t.Args[1], c.BigInt(pow10(d)))), c.Eq(c.StrLen(t), c.Int(max64(d, 1)))))
			}
		case "x:bytes.IndexAny:0", "x:bytes.Index:0", "x:bytes.IndexByte:0", "x:strings.IndexAny:0", "x:strings.LastIndex:0", "x:strings.IndexRune:0", "x:strings.LastIndexByte:0":
			out = append(out, c.Le(c.Int(-1), t), c.Le(t, c.StrLen(t.Args[0])), c.Implies(c.Lt(c.Int(0), c.StrLen(t.Args[0])), c.Or(c.Eq(t, c.Int(-1)), c.Lt(t, c.StrLen(t.Args[0])), c.Eq(t, c.StrLen(t.Args[0])))))
		case "ipow10":
			for d := int64(0); d <= 18; d++ {
				out = append(out, c.Implies(c.Eq(t.Args[0], c.Int(d)), c.mkEqRaw(t, c.BigInt(pow10(d)))))
			}
		case "contains":
			if x := t.Args[0]; x.Op == "app" && x.Name == "trim" {
				out = append(out, c.Implies(t, c.App("contains", SBool, x.Args[0], t.Args[1])))
			}
		case "joinarr":
			out = append(out, c.Implies(c.Eq(t.Args[2], c.Int(0)), c.mkEqRaw(t, c.Str(""))))
			// the parts of a split after the first one
			a := t.Args[0]
			if a.Op == "app" && a.Name == "splitarr" && t.Args[1].isInt(1) && t.Args[3] == a.Args[1] {
				n := c.App("splitcount", SInt, a.Args[0], a.Args[1])
				out = append(out, c.Implies(c.And(c.Le(c.Int(2), n), c.Eq(t.Args[2], c.Sub(n, c.Int(1)))), c.mkEqRaw(t, c.App("cutafter", SStr, a.Args[0], a.Args[1]))))
			}
		case "cutafter":
			// s = first part + sep + rest
			s, sep := t.Args[0], t.Args[1]
			arr0 := c.App("splitarr", arr(SInt, SStr), s, sep)
			out = append(out, c.Implies(c.App("contains", SBool, s, sep), c.Eq(s, c.Concat(c.Select(arr0, c.Int(0)), sep, t))))
			out = append(out, c.Implies(c.Eq(c.App("splitcount", SInt, s, sep), c.Int(2)), c.Eq(t, c.Select(arr0, c.Int(1)))))
			if sep.Op == "str" && len(sep.Name) == 1 {
				f := c.Select(arr0, c.Int(0))
				out = append(out, c.Implies(c.And(c.Eq(f, c.Str("")), c.App("contains", SBool, s, sep)), c.App("prefixof", SBool, s, sep)))
				// dividing lines: the first part is empty exactly if the text begins with the separator
				out = append(out, c.Implies(c.App("prefixof", SBool, s, sep), c.Eq(f, c.Str(""))))
			}
		case "splitnarr":
			s, sep, lim := t.Args[0], t.Args[1], t.Args[2]
			if lim.isInt(2) {
				n0 := c.App("splitcount", SInt, s, sep)
				arr0 := c.App("splitarr", arr(SInt, SStr), s, sep)
				e0, e1 := c.Select(t, c.Int(0)), c.Select(t, c.Int(1))
				out = append(out, c.Eq(e0, c.Select(arr0, c.Int(0))), c.Implies(c.Le(c.Int(2), n0), c.Eq(e1, c.App("cutafter", SStr, s, sep))))
			}
		case "splitcount":
			s, sep := t.Args[0], t.Args[1]
			out = append(out, c.Le(c.Int(0), t))
			if sep.Op == "str" && sep.Name != "" {
				out = append(out, c.Le(c.Int(1), t), c.Eq(c.Le(c.Int(2), t), c.App("contains", SBool, s, sep)))
				// a string without the separator is its only part
				arr0 := c.App("splitarr", arr(SInt, SStr), s, sep)
				out = append(out, c.Implies(c.Eq(t, c.Int(1)), c.Eq(c.Select(arr0, c.Int(0)), s)))
				// two parts
				p0, p1 := c.Select(arr0, c.Int(0)), c.Select(arr0, c.Int(1))
				out = append(out, c.Implies(c.Eq(t, c.Int(2)), c.Eq(s, c.Concat(p0, sep, p1))))
				out = append(out, c.Not(c.App("contains", SBool, p0, sep)))
				out = append(out, c.Implies(c.Eq(t, c.Int(2)), c.Not(c.App("contains", SBool, p1, sep))))
				// a text put together from pieces with one separator between them
				if s.Op == "concat" && len(sep.Name) == 1 {
					for i, x := range s.Args {
						if x.Op != "str" {
							continue
						}
						k := strings.Index(x.Name, sep.Name)
						if k < 0 {
							continue
						}
						pre := append(append([]*Term(nil), s.Args[:i]...), c.Str(x.Name[:k]))
						post := append([]*Term{c.Str(x.Name[k+1:])}, s.Args[i+1:]...)
						a, b := c.Concat(pre...), c.Concat(post...)
						na, nb := c.Not(c.App("contains", SBool, a, sep)), c.Not(c.App("contains", SBool, b, sep))
						out = append(out, c.Implies(na, c.And(c.Eq(p0, a), c.Eq(c.App("trim", SStr, p0), c.App("trim", SStr, a)))), c.Implies(c.And(na, nb), c.And(c.Eq(t, c.Int(2)), c.Eq(p1, b), c.Eq(c.App("trim", SStr, p1), c.App("trim", SStr, b)))))
						break
					}
				}
			}
		case "join":
			// join(arr, off, n, sep): unfold when the number of parts is known small
		case "fldarr", "elemarr":
		}
		if strings.HasPrefix(t.Name, "fldarr:") || strings.HasPrefix(t.Name, "elemarr:") || strings.HasPrefix(t.Name, "fldptr:") || strings.HasPrefix(t.Name, "elemptr:") || strings.HasPrefix(t.Name, "func:") || strings.HasPrefix(t.Name, "extglobal:") {
			out = append(out, c.Lt(t, c.Int(-1000)))
		}
		if strings.HasPrefix(t.Name, "inre:") {
			regexMu.Lock()
			re := regexSrc[t.Name]
			regexMu.Unlock()
			for _, sep := range []string{"@", " ", "/", ","} {
				if lo, hi, ok := regexCount(re, sep[0]); ok && lo == hi {
					n := c.App("splitcount", SInt, t.Args[0], c.Str(sep))
					out = append(out, c.Implies(t, c.Eq(n, c.Int(int64(lo)+1))))
				}
			}
			if lo, _, ok := regexCount(re, 0); ok && lo > 0 {
				out = append(out, c.Implies(t, c.Le(c.Int(int64(lo)), c.StrLen(t.Args[0]))))
			}
		}
		if strings.HasPrefix(t.Name, "cnt:") {
			out = append(out, c.cntFacts(t)...)
		}
		if strings.HasPrefix(t.Name, "box_") {
			un := "unbox_" + t.Name[4:]
			x := c.mk(&Term{Op: "app", Name: sanitize(un), Args: []*Term{t}, Sort: t.Args[0].Sort})
			c.funcs[sanitize(un)] = FuncDecl{sanitize(un), []Sort{SInt}, t.Args[0].Sort}
			out = append(out, c.mkEqRaw(x, t.Args[0]))
		}
		for _, f := range c.hooks {
			out = append(out, f(t)...)
		}
	}
	var res []*Term
	for _, o := range out {
		if o.Op != "true" {
			res = append(res, o)
		}
	}
	return res
}

// mkEqRaw builds an equality without simplification of its sides.
func (c *Ctx) mkEqRaw(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	return c.mk(&Term{Op: "=", Args: []*Term{a, b}, Sort: SBool})
}

func pow10(n int64) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(n), nil) }

var regexMu sync.Mutex
var regexNames = map[string]string{}
var regexSrc = map[string]string{}

// regexPred returns the predicate symbol for "s matches the regular expression".
func regexPred(re string) (string, bool) {
	regexMu.Lock()
	defer regexMu.Unlock()
	if n, ok := regexNames[re]; ok {
		return n, n != ""
	}
	regexNames[re] = ""
	p, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		return "", false
	}
	body, ok := smtRegexTop(p.Simplify())
	if !ok {
		return "", false
	}
	n := fmt.Sprintf("inre:%d", len(regexNames))
	regexNames[re] = n
	regexSMT[n] = body
	regexSrc[n] = re
	return n, true
}

func smtRegexTop(r *syntax.Regexp) (string, bool) {
	begin, end := false, false
	subs := []*syntax.Regexp{r}
	if r.Op == syntax.OpConcat {
		subs = r.Sub
	}
	if len(subs) > 0 && subs[0].Op == syntax.OpBeginText {
		begin = true
		subs = subs[1:]
	}
	if len(subs) > 0 && subs[len(subs)-1].Op == syntax.OpEndText {
		end = true
		subs = subs[:len(subs)-1]
	}
	var ps []string
	if !begin {
		ps = append(ps, "re.all")
	}
	for _, s := range subs {
		x, ok := smtRegex(s)
		if !ok {
			return "", false
		}
		ps = append(ps, x)
	}
	if !end {
		ps = append(ps, "re.all")
	}
	return reCat(ps), true
}

func reCat(ps []string) string {
	switch len(ps) {
	case 0:
		return `(str.to_re "")`
	case 1:
		return ps[0]
	}
	return "(re.++ " + strings.Join(ps, " ") + ")"
}

func smtRegex(r *syntax.Regexp) (string, bool) {
	sub := func() ([]string, bool) {
		var out []string
		for _, s := range r.Sub {
			x, ok := smtRegex(s)
			if !ok {
				return nil, false
			}
			out = append(out, x)
		}
		return out, true
	}
	switch r.Op {
	case syntax.OpEmptyMatch:
		return `(str.to_re "")`, true
	case syntax.OpLiteral:
		if r.Flags&syntax.FoldCase != 0 {
			return "", false
		}
		return "(str.to_re " + smtStr(string(r.Rune)) + ")", true
	case syntax.OpCharClass:
		var alts []string
		for i := 0; i+1 < len(r.Rune); i += 2 {
			lo, hi := r.Rune[i], r.Rune[i+1]
			if lo > 127 {
				continue // matched text is treated as bytes; classes with non-ASCII members are refused below
			}
			if hi > 127 {
				return "", false
			}
			if lo == hi {
				alts = append(alts, "(str.to_re "+smtStr(string(lo))+")")
			} else {
				alts = append(alts, "(re.range "+smtStr(string(lo))+" "+smtStr(string(hi))+")")
			}
		}
		if len(alts) == 0 {
			return "re.none", true
		}
		if len(alts) == 1 {
			return alts[0], true
		}
		return "(re.union " + strings.Join(alts, " ") + ")", true
	case syntax.OpCapture:
		return smtRegex(r.Sub[0])
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest:
		s, ok := smtRegex(r.Sub[0])
		if !ok {
			return "", false
		}
		return "(" + map[syntax.Op]string{syntax.OpStar: "re.*", syntax.OpPlus: "re.+", syntax.OpQuest: "re.opt"}[r.Op] + " " + s + ")", true
	case syntax.OpRepeat:
		s, ok := smtRegex(r.Sub[0])
		if !ok {
			return "", false
		}
		if r.Max < 0 {
			return fmt.Sprintf("(re.++ ((_ re.^ %d) %s) (re.* %s))", r.Min, s, s), true
		}
		return fmt.Sprintf("((_ re.loop %d %d) %s)", r.Min, r.Max, s), true
	case syntax.OpConcat:
		ps, ok := sub()
		if !ok {
			return "", false
		}
		return reCat(ps), true
	case syntax.OpAlternate:
		ps, ok := sub()
		if !ok {
			return "", false
		}
		return "(re.union " + strings.Join(ps, " ") + ")", true
	}
	return "", false
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

// mkIff is an equivalence built without simplification.
func (c *Ctx) mkIff(a, b *Term) *Term { return c.And(c.Implies(a, b), c.Implies(b, a)) }

func (c *Ctx) alnum(b *Term) *Term {
	in := func(lo, hi byte) *Term { return c.And(c.Le(c.Int(int64(lo)), b), c.Le(b, c.Int(int64(hi)))) }
	return c.Or(in('a', 'z'), in('A', 'Z'), in('0', '9'))
}

// regexCount bounds how often a byte occurs in the texts an anchored expression accepts (0: their length).
func regexCount(re string, b byte) (lo, hi int, ok bool) {
	p, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		return 0, 0, false
	}
	p = p.Simplify()
	if p.Op != syntax.OpConcat || len(p.Sub) < 2 || p.Sub[0].Op != syntax.OpBeginText || p.Sub[len(p.Sub)-1].Op != syntax.OpEndText {
		return 0, 0, false
	}
	const inf = 1 << 30
	var cnt func(r *syntax.Regexp) (int, int, bool)
	cnt = func(r *syntax.Regexp) (int, int, bool) {
		switch r.Op {
		case syntax.OpEmptyMatch, syntax.OpBeginText, syntax.OpEndText:
			return 0, 0, true
		case syntax.OpLiteral:
			if r.Flags&syntax.FoldCase != 0 {
				return 0, 0, false
			}
			n := 0
			for _, x := range string(r.Rune) {
				if x > 127 {
					return 0, 0, false
				}
				if b == 0 || byte(x) == b {
					n++
				}
			}
			return n, n, true
		case syntax.OpCharClass:
			all, some := true, false
			for i := 0; i+1 < len(r.Rune); i += 2 {
				l, h := r.Rune[i], r.Rune[i+1]
				if h > 127 {
					return 0, 0, false
				}
				if rune(b) >= l && rune(b) <= h {
					some = true
					if l != h {
						all = false
					}
				} else {
					all = false
				}
			}
			if b == 0 {
				return 1, 1, true
			}
			if some && all {
				return 1, 1, true
			}
			if some {
				return 0, 1, true
			}
			return 0, 0, true
		case syntax.OpCapture:
			return cnt(r.Sub[0])
		case syntax.OpConcat:
			l, h := 0, 0
			for _, s := range r.Sub {
				a, z, k := cnt(s)
				if !k {
					return 0, 0, false
				}
				l, h = l+a, h+z
			}
			if h > inf {
				h = inf
			}
			return l, h, true
		case syntax.OpAlternate:
			l, h := inf, 0
			for _, s := range r.Sub {
				a, z, k := cnt(s)
				if !k {
					return 0, 0, false
				}
				if a < l {
					l = a
				}
				if z > h {
					h = z
				}
			}
			return l, h, true
		case syntax.OpStar, syntax.OpPlus, syntax.OpQuest, syntax.OpRepeat:
			a, z, k := cnt(r.Sub[0])
			if !k {
				return 0, 0, false
			}
			mn, mx := 0, inf
			switch r.Op {
			case syntax.OpPlus:
				mn = 1
			case syntax.OpQuest:
				mx = 1
			case syntax.OpRepeat:
				mn, mx = r.Min, r.Max
				if mx < 0 {
					mx = inf
				}
			}
			h := 0
			if z > 0 {
				h = inf
				if mx < inf && z < inf {
					h = z * mx
				}
			}
			return a * mn, h, true
		}
		return 0, 0, false
	}
	return cnt(p)
}

// counters: cnt:k(n) is the number of positions below n at which a condition holds.
type counter struct {
	name string
	cond *Term // over v
	v    *Term
}

// Counter returns the counting function of a condition over the canonical variable.
func (c *Ctx) Counter(cond, v *Term) string {
	cv := c.mk(&Term{Op: "bvar", Name: "cnt?i", Sort: SInt})
	k := c.Subst(cond, map[*Term]*Term{v: cv})
	if c.counters == nil {
		c.counters = map[*Term]*counter{}
		c.cntName = map[string]*counter{}
	}
	if x, ok := c.counters[k]; ok {
		return x.name
	}
	x := &counter{fmt.Sprintf("cnt:%d", len(c.counters)), k, cv}
	c.counters[k] = x
	c.cntName[x.name] = x
	return x.name
}

func (c *Ctx) Cnt(name string, n *Term) *Term {
	if n.isInt(0) {
		return n
	}
	return c.App(name, SInt, n)
}

func (c *Ctx) cntFacts(t *Term) []*Term {
	x := c.cntName[t.Name]
	if x == nil {
		return nil
	}
	return x.at(c, t.Args[0])
}

func (x *counter) at(c *Ctx, n *Term) []*Term {
	f, f0 := c.App(x.name, SInt, n), c.App(strings.Replace(x.name, "cnt:", "cntp:", 1), SInt, n)
	p := c.Sub(n, c.Int(1))
	f1 := c.App(strings.Replace(x.name, "cnt:", "cntp:", 1), SInt, p)
	return []*Term{
		c.mkEqRaw(f, f0),
		c.Implies(c.Eq(n, c.Int(0)), c.mkEqRaw(f, c.Int(0))),
		c.Implies(c.Le(c.Int(0), n), c.And(c.Le(c.Int(0), f), c.Le(f, n))),
		c.Implies(c.Le(c.Int(1), n), c.mkEqRaw(f, c.Add(f1, c.Ite(c.Subst(x.cond, map[*Term]*Term{x.v: p}), c.Int(1), c.Int(0))))),
	}
}

// cntAxioms are the quantified forms of the counter facts.
func (c *Ctx) cntAxioms(name string) []*Term {
	x := c.cntName[name]
	if x == nil {
		return nil
	}
	i := c.mk(&Term{Op: "bvar", Name: "cf?i", Sort: SInt})
	j := c.mk(&Term{Op: "bvar", Name: "cf?j", Sort: SInt})
	fi, fj := c.App(name, SInt, i), c.App(name, SInt, j)
	var out []*Term
	out = append(out, c.Forall([]*Term{i}, c.And(x.at(c, i)...), []*Term{fi}))
	ci := c.Ite(c.Subst(x.cond, map[*Term]*Term{x.v: i}), c.Int(1), c.Int(0))
	out = append(out, c.Forall([]*Term{i, j}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, j)), c.Le(c.Add(fi, ci), fj)), []*Term{fi, fj}))
	return out
}
