package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// StrMode selects how strings are presented to the solver.
type StrMode int

const (
	StrAbstract StrMode = iota // uninterpreted sort with axioms
	StrTheory                  // SMT-LIB strings
)

// names with a fixed SMT meaning in string-theory mode
var strTheoryNames = map[string]string{
	"strlen": "str.len", "contains": "str.contains", "prefixof": "str.prefixof", "suffixof": "str.suffixof",
}

type printer struct {
	c     *Ctx
	mode  StrMode
	sb    strings.Builder
	names map[*Term]string
	lits  map[string]string
}

func (p *printer) sort(s Sort) string {
	if p.mode == StrTheory {
		return strings.ReplaceAll(string(s), "Str", "String")
	}
	return string(s)
}

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case ch == '"':
			b.WriteString(`""`)
		case ch == '\\' || ch < 32 || ch > 126:
			fmt.Fprintf(&b, `\u{%x}`, ch)
		default:
			b.WriteByte(ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func quoteSym(s string) string { return "|" + s + "|" }

func (p *printer) t(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	return p.raw(t)
}

func (p *printer) app(name string, args []*Term) string {
	if len(args) == 0 {
		return name
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(name)
	for _, a := range args {
		sb.WriteByte(' ')
		sb.WriteString(p.t(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

func (p *printer) raw(t *Term) string {
	switch t.Op {
	case "int":
		if t.Int.Sign() < 0 {
			return "(- " + t.Name[1:] + ")"
		}
		return t.Name
	case "real":
		s := t.Name
		neg := strings.HasPrefix(s, "-")
		s = strings.TrimPrefix(s, "-")
		if i := strings.IndexByte(s, '/'); i >= 0 {
			s = "(/ " + s[:i] + ".0 " + s[i+1:] + ".0)"
		} else {
			s += ".0"
		}
		if neg {
			s = "(- " + s + ")"
		}
		return s
	case "str":
		if p.mode == StrTheory {
			return smtStr(t.Name)
		}
		n, ok := p.lits[t.Name]
		if !ok {
			n = "lit" + strconv.Itoa(len(p.lits))
			p.lits[t.Name] = n
		}
		return n
	case "true", "false":
		return t.Op
	case "sym", "bvar":
		return quoteSym(t.Name)
	case "app":
		if p.mode == StrTheory {
			if n, ok := strTheoryNames[t.Name]; ok {
				switch t.Name {
				case "prefixof", "suffixof": // prefixof(s, p): p is a prefix of s
					return p.app(n, []*Term{t.Args[1], t.Args[0]})
				}
				return p.app(n, t.Args)
			}
			switch t.Name {
			case "strbyte":
				return "(str.to_code (str.at " + p.t(t.Args[0]) + " " + p.t(t.Args[1]) + "))"
			case "substr": // s[i:j]
				return "(str.substr " + p.t(t.Args[0]) + " " + p.t(t.Args[1]) + " (- " + p.t(t.Args[2]) + " " + p.t(t.Args[1]) + "))"
			case "indexof":
				return "(str.indexof " + p.t(t.Args[0]) + " " + p.t(t.Args[1]) + " 0)"
			}
			if strings.HasPrefix(t.Name, "inre:") {
				return "(str.in_re " + p.t(t.Args[0]) + " " + regexSMT[t.Name] + ")"
			}
		}
		return p.app(quoteSym(t.Name), t.Args)
	case "concat":
		if p.mode == StrTheory {
			return p.app("str.++", t.Args)
		}
		// right-nested uninterpreted concatenation
		r := p.t(t.Args[len(t.Args)-1])
		for i := len(t.Args) - 2; i >= 0; i-- {
			r = "(concat2 " + p.t(t.Args[i]) + " " + r + ")"
		}
		return r
	case "forall", "exists":
		var sb strings.Builder
		sb.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			sb.WriteString("(" + quoteSym(v.Name) + " " + p.sort(v.Sort) + ")")
		}
		sb.WriteString(") ")
		pats := t.Pats
		if len(pats) > 0 && t.Op == "forall" {
			sb.WriteString("(! ")
		}
		sb.WriteString(p.t(t.Args[0]))
		if len(pats) > 0 && t.Op == "forall" {
			for _, q := range pats {
				sb.WriteString(" :pattern (")
				for i, x := range q {
					if i > 0 {
						sb.WriteByte(' ')
					}
					sb.WriteString(p.t(x))
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return sb.String()
	case "constarr":
		return "((as const " + p.sort(t.Sort) + ") " + p.t(t.Args[0]) + ")"
	case "=>", "and", "or", "not", "ite", "+", "-", "*", "div", "mod", "<", "<=", "=", "select", "store", "mkslice", "sbase", "soff", "slen", "scap", "mkif", "itag", "ival", "to_real", "to_int", "/":
		return p.app(t.Op, t.Args)
	}
	panic("print: " + t.Op)
}

// ScriptQ renders quantifier-free assertions with ground facts only.
func (c *Ctx) ScriptQ(asserts []*Term, mode StrMode) string {
	return c.script(asserts, mode, 1)
}

// Script renders the assertions; the caller appends check-sat.
func (c *Ctx) Script(asserts []*Term, mode StrMode, useAx bool) string {
	if useAx {
		return c.script(asserts, mode, 2)
	}
	return c.script(asserts, mode, 0)
}

func (c *Ctx) script(asserts []*Term, mode StrMode, ax int) string {
	p := &printer{c: c, mode: mode, names: map[*Term]string{}, lits: map[string]string{}}
	// relevant axioms to a fixpoint
	present := map[string]bool{}
	refs := map[*Term]int{}
	var order []*Term
	var walk func(t *Term)
	addAll := func(t *Term) { walk(t) }
	walk = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		if t.Op == "app" {
			present[t.Name] = true
		} else if t.Op == "concat" {
			present["concat2"] = true
		}
		for _, a := range t.Args {
			walk(a)
		}
		for _, ps := range t.Pats {
			for _, a := range ps {
				walk(a)
			}
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		addAll(a)
	}
	all := append([]*Term(nil), asserts...)
	done := map[int]bool{}
	doneT := map[*Term]bool{}
	cntDone := map[string]bool{}
	for changed := ax > 0; changed; {
		changed = false
		for i, axr := range axioms {
			if done[i] || (axr.mode != 0 && axr.mode != int(mode)+1) {
				continue
			}
			ok := true
			for _, s := range axr.syms {
				if !present[s] {
					ok = false
				}
			}
			if !ok {
				continue
			}
			done[i] = true
			changed = true
			for _, t := range axr.build(c) {
				if ax == 1 && !t.qf {
					continue
				}
				all = append(all, t)
				walk(t)
			}
		}
		if ax == 2 {
			for _, n := range sortedKeys(present) {
				if strings.HasPrefix(n, "cnt:") && !cntDone[n] {
					cntDone[n] = true
					changed = true
					for _, t := range c.cntAxioms(n) {
						all = append(all, t)
						walk(t)
					}
				}
			}
		}
		for i := 0; i < len(order); i++ {
			t := order[i]
			if doneT[t] {
				continue
			}
			doneT[t] = true
			if u := c.instFacts(t); u != nil {
				for _, x := range u {
					if ax == 1 && !x.qf {
						continue
					}
					all = append(all, x)
					walk(x)
					changed = true
				}
			}
		}
	}
	var body strings.Builder
	syms := map[string]Sort{}
	usedFn := map[string]bool{}
	for _, t := range order {
		switch t.Op {
		case "sym":
			syms[t.Name] = t.Sort
		case "app":
			usedFn[t.Name] = true
		}
		if refs[t] > 1 && !t.bv && len(t.Args) > 0 {
			s := p.raw(t)
			if len(s) > 24 {
				n := "t" + strconv.Itoa(t.id)
				fmt.Fprintf(&body, "(define-fun %s () %s %s)\n", n, p.sort(t.Sort), s)
				p.names[t] = n
			}
		}
	}
	for _, t := range order {
		if (t.Op == "slen" || t.Op == "scap") && !t.bv {
			body.WriteString("(assert (<= 0 " + p.t(t) + "))\n")
		}
	}
	seen := map[*Term]bool{}
	for _, a := range all {
		if seen[a] {
			continue
		}
		seen[a] = true
		body.WriteString("(assert " + p.t(a) + ")\n")
	}
	var sb strings.Builder
	if mode == StrAbstract {
		sb.WriteString("(declare-sort Str 0)\n")
	}
	sb.WriteString("(declare-sort Time 0)\n")
	sb.WriteString("(declare-datatypes ((Slice 0) (Iface 0)) (((mkslice (sbase Int) (soff Int) (slen Int) (scap Int))) ((mkif (itag Int) (ival Int)))))\n")
	if mode == StrAbstract {
		if present["concat2"] {
			sb.WriteString("(declare-fun concat2 (Str Str) Str)\n")
		}
		var ls []string
		for l := range p.lits {
			ls = append(ls, l)
		}
		sort.Slice(ls, func(i, j int) bool { return p.lits[ls[i]] < p.lits[ls[j]] })
		for _, l := range ls {
			fmt.Fprintf(&sb, "(declare-fun %s () Str)\n", p.lits[l])
		}
		if len(ls) > 1 {
			sb.WriteString("(assert (distinct")
			for _, l := range ls {
				sb.WriteString(" " + p.lits[l])
			}
			sb.WriteString("))\n")
		}
		if present["strlen"] {
			sb.WriteString("(declare-fun |strlen| (Str) Int)\n")
			delete(usedFn, "strlen")
			for _, l := range ls {
				fmt.Fprintf(&sb, "(assert (= (|strlen| %s) %d))\n", p.lits[l], len(l))
			}
		}
	}
	var fns []string
	for f := range usedFn {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	for _, f := range fns {
		if mode == StrTheory {
			if _, ok := strTheoryNames[f]; ok || f == "strbyte" || f == "substr" || f == "indexof" || strings.HasPrefix(f, "inre:") {
				continue
			}
		}
		d := c.funcs[f]
		fmt.Fprintf(&sb, "(declare-fun %s (", quoteSym(f))
		for i, a := range d.Args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(p.sort(a))
		}
		fmt.Fprintf(&sb, ") %s)\n", p.sort(d.Ret))
		if f == "idx" {
			sb.WriteString("(assert (forall ((o Int) (i Int)) (! (= (|idx| o i) (+ o i)) :pattern ((|idx| o i)))))\n")
		}
	}
	var ss []string
	for s := range syms {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	for _, s := range ss {
		fmt.Fprintf(&sb, "(declare-fun %s () %s)\n", quoteSym(s), p.sort(syms[s]))
	}
	sb.WriteString(body.String())
	return sb.String()
}

// ---------- running solvers ----------

var solverSem = make(chan struct{}, runtime.NumCPU())

type SolveStats struct {
	sync.Mutex
	Queries  int
	ByTool   map[string]int
	Time     time.Duration
	Feas     int
	FeasTime time.Duration
}

var stats = SolveStats{ByTool: map[string]int{}}

type Result struct {
	Status string // unsat, sat, unknown
	Tool   string
	Model  string
	Dur    time.Duration
}

type tool struct {
	name string
	args func(ms int) []string
	pre  string
}

var tools = map[string]tool{
	"z3-new": {"z3-new", func(ms int) []string {
		return []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms), "smt.auto_config=false", "smt.mbqi=false"}
	}, ""},
	"z3-new-mbqi": {"z3-new", func(ms int) []string { return []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms)} }, ""},
	"z3":          {"z3", func(ms int) []string { return []string{"-in", "-smt2", fmt.Sprintf("-t:%d", ms)} }, ""},
	"cvc5": {"cvc5", func(ms int) []string {
		return []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--strings-exp", "-"}
	}, "(set-logic ALL)\n"},
}

var curProcs int64

// hardStop is the time after which no solver is asked any more.
var hardStop atomic.Value

func runTool(name, script string, ms int) Result {
	tl := tools[name]
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	start := time.Now()
	if t, ok := hardStop.Load().(time.Time); ok && start.After(t) {
		return Result{Status: "unknown", Tool: name, Model: "no time left"}
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(ms+2000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, tl.name, tl.args(ms)...)
	cmd.Stdin = strings.NewReader(tl.pre + script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	atomic.AddInt64(&curProcs, 1)
	cmd.Run()
	atomic.AddInt64(&curProcs, -1)
	d := time.Since(start)
	s := out.String()
	r := Result{Status: "unknown", Tool: name, Dur: d}
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" || l == "timeout" {
			if l == "timeout" {
				l = "unknown"
			}
			r.Status = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			r.Status = "unknown"
			r.Model = l
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "solver error:", name, l)
				os.WriteFile("/tmp/govc_err.smt2", []byte(script), 0600)
			}
			break
		}
	}
	stats.Lock()
	stats.Queries++
	stats.Time += d
	if r.Status == "unsat" {
		stats.ByTool[name]++
	}
	stats.Unlock()
	return r
}

// Solve runs the portfolio. quickMs bounds the first try, ms the later ones.
func Solve(script string, ms int, strs bool) Result {
	script += "(check-sat)\n"
	first := "z3-new"
	q := ms
	if q > 4000 {
		q = 4000
	}
	r := runTool(first, script, q)
	if r.Status != "unknown" && !(r.Status == "sat" && !strs && false) {
		if r.Status == "unsat" {
			return r
		}
	}
	best := r
	// race the others
	names := []string{"z3-new-mbqi", "cvc5", "z3"}
	ch := make(chan Result, len(names))
	for _, n := range names {
		go func(n string) { ch <- runTool(n, script, ms) }(n)
	}
	for range names {
		r := <-ch
		if r.Status == "unsat" {
			return r
		}
		if r.Status == "sat" {
			best = r
		}
	}
	return best
}

// Ground is a persistent solver for feasibility checks.
type Ground struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func NewGround() *Ground {
	g := &Ground{}
	g.cmd = exec.Command("z3-new", "-in", "-smt2")
	g.in, _ = g.cmd.StdinPipe()
	o, _ := g.cmd.StdoutPipe()
	g.out = bufio.NewReader(o)
	if err := g.cmd.Start(); err != nil {
		return nil
	}
	return g
}
func (g *Ground) Close() {
	if g != nil && g.cmd != nil {
		g.in.Close()
		g.cmd.Process.Kill()
		g.cmd.Wait()
	}
}

func (g *Ground) ask(script string, ms int) (string, string) {
	start := time.Now()
	io.WriteString(g.in, fmt.Sprintf("(reset)\n(set-option :timeout %d)\n%s(check-sat)\n(echo \"done\")\n", ms, script))
	st := "unknown"
	var extra strings.Builder
	for {
		l, err := g.out.ReadString('\n')
		if err != nil {
			break
		}
		l = strings.TrimSpace(l)
		if l == "done" {
			break
		}
		if l == "sat" || l == "unsat" {
			st = l
		} else {
			extra.WriteString(l + "\n")
		}
	}
	if os.Getenv("GOVC_DEBUG") != "" && strings.Contains(extra.String(), "error") {
		fmt.Fprintln(os.Stderr, "ground error:", extra.String())
		os.WriteFile("/tmp/govc_err.smt2", []byte(script), 0600)
	}
	if d := time.Since(start); d > 30*time.Millisecond && os.Getenv("GOVC_SLOWFEAS") != "" {
		fmt.Fprintln(os.Stderr, "slow feasibility query:", d, st, len(script))
		os.WriteFile(fmt.Sprintf("/tmp/slowfeas_%d.smt2", stats.Feas), []byte(script+"(check-sat)\n"), 0600)
	}
	stats.Lock()
	stats.Feas++
	stats.FeasTime += time.Since(start)
	stats.Unlock()
	return st, extra.String()
}
