package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	repo     string
	prog     *ssa.Program
	pkgs     []*packages.Package
	spkgs    []*ssa.Package
	mod      string
	fset     *token.FileSet
	funcs    map[string]*ssa.Function // short name -> function
	frozen   map[*ssa.Global]bool
	gref     map[*ssa.Global]int64
	specs    *SpecDB
	loops    map[*ssa.Function]*LoopInfo
	lmu      sync.Mutex
	syncHeld map[string]map[string]bool

	tagMu  sync.Mutex
	tags   map[string]int64
	tagTyp map[int64]types.Type

	ginits map[*ssa.Global]*ginit
	impl   map[string]bool
}

func Load(repo, harness string) (*Engine, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:  repo,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0"),
	}
	if harness != "" {
		// client functions under contract that only call the code of the repository
		cfg.Overlay = map[string][]byte{}
		fs, _ := filepath.Glob(filepath.Join(harness, "*", "*.go"))
		rel := map[string]string{"identity": "", "errors": "pkg/errors", "qr": "pkg/qr"}
		for _, f := range fs {
			d, ok := rel[filepath.Base(filepath.Dir(f))]
			if !ok {
				return nil, fmt.Errorf("harness %s", f)
			}
			data, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			cfg.Overlay[filepath.Join(repo, d, "zz_verif_"+filepath.Base(f))] = data
		}
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var msgs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			msgs = append(msgs, e.Error())
		}
	}
	if len(msgs) > 0 {
		return nil, fmt.Errorf("packages: %s", strings.Join(msgs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	e := &Engine{repo: repo, prog: prog, pkgs: pkgs, spkgs: spkgs, fset: prog.Fset, funcs: map[string]*ssa.Function{},
		frozen: map[*ssa.Global]bool{}, gref: map[*ssa.Global]int64{}, loops: map[*ssa.Function]*LoopInfo{}, tags: map[string]int64{}, tagTyp: map[int64]types.Type{}, impl: map[string]bool{}}
	if len(pkgs) > 0 && pkgs[0].Module != nil {
		e.mod = pkgs[0].Module.Path
	}
	for fn := range ssautil.AllFunctions(prog) {
		if e.inRepo(fn) {
			e.funcs[fnKey(fn)] = fn
		}
	}
	e.findFrozen()
	return e, nil
}

// inRepo: the function has a body from the repository under verification.
func (e *Engine) inRepo(fn *ssa.Function) bool {
	if fn.Blocks == nil {
		return false
	}
	p := fn.Package()
	if p == nil && fn.Parent() != nil {
		p = fn.Parent().Package()
	}
	if p == nil && fn.Object() != nil {
		return fn.Object().Pkg() != nil && strings.HasPrefix(fn.Object().Pkg().Path(), e.mod)
	}
	return p != nil && strings.HasPrefix(p.Pkg.Path(), e.mod)
}

// fnKey: "identity.(*Database).AddUser", "errors.(StandardError).WithArgs", "identity.NewID"
func fnKey(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return fnKey(fn.Parent()) + "$" + strings.TrimPrefix(fn.Name(), fn.Parent().Name()+"$")
	}
	pk := ""
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg.Name() + "."
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pk = fn.Object().Pkg().Name() + "."
	}
	if r := fn.Signature.Recv(); r != nil {
		return pk + "(" + types.TypeString(r.Type(), func(*types.Package) string { return "" }) + ")." + fn.Name()
	}
	return pk + fn.Name()
}

// extName: full name of a callee without body, e.g. "strings.ToLower", "(time.Time).UTC".
func extName(fn *ssa.Function) string {
	if o, ok := fn.Object().(*types.Func); ok {
		return o.FullName()
	}
	return fn.String()
}

func (e *Engine) findFrozen() {
	var gs []*ssa.Global
	for _, p := range e.spkgs {
		if p == nil {
			continue
		}
		var names []string
		for n := range p.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := p.Members[n].(*ssa.Global); ok {
				gs = append(gs, g)
			}
		}
	}
	k := int64(-1)
	written := map[*ssa.Global]bool{}
	var bad func(v ssa.Value, g *ssa.Global)
	bad = func(v ssa.Value, g *ssa.Global) {
		refs := v.Referrers()
		if refs == nil {
			return
		}
		for _, r := range *refs {
			switch r := r.(type) {
			case *ssa.FieldAddr:
				bad(r, g)
			case *ssa.IndexAddr:
				bad(r, g)
			case *ssa.UnOp:
			case *ssa.DebugRef:
			default:
				written[g] = true
			}
		}
	}
	use := map[*ssa.Global][]ssa.Instruction{}
	for _, fn := range e.funcs {
		isInit := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		if isInit {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						use[g] = append(use[g], in)
						switch in := in.(type) {
						case *ssa.UnOp:
						case *ssa.FieldAddr:
							bad(in, g)
						case *ssa.IndexAddr:
							bad(in, g)
						default:
							written[g] = true
						}
					}
				}
			}
		}
	}
	for _, g := range gs {
		e.gref[g] = k
		k--
		e.frozen[g] = !written[g]
	}
}

func (e *Engine) tag(t types.Type) int64 {
	k := typeKey(t)
	e.tagMu.Lock()
	defer e.tagMu.Unlock()
	if v, ok := e.tags[k]; ok {
		return v
	}
	v := int64(len(e.tags) + 1)
	e.tags[k] = v
	e.tagTyp[v] = t
	return v
}

func (e *Engine) tagType(v int64) types.Type {
	e.tagMu.Lock()
	defer e.tagMu.Unlock()
	return e.tagTyp[v]
}

func pkgQual(p *types.Package) string { return p.Name() }

var typeKeys sync.Map

func typeKey(t types.Type) string {
	if s, ok := typeKeys.Load(t); ok {
		return s.(string)
	}
	s := types.TypeString(t, pkgQual)
	s = reByte.ReplaceAllString(s, "${1}uint8")
	s = reRune.ReplaceAllString(s, "${1}int32")
	s = reAny.ReplaceAllString(s, "${1}interface{}")
	typeKeys.Store(t, s)
	return s
}

var (
	reByte = regexp.MustCompile(`(^|[^\w.])byte\b`)
	reRune = regexp.MustCompile(`(^|[^\w.])rune\b`)
	reAny  = regexp.MustCompile(`(^|[^\w.])any\b`)
)

// ---------- loops ----------

type LoopInfo struct {
	header map[*ssa.BasicBlock]*Loop
	order  []*Loop
}
type Loop struct {
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
	idx  int
}

func (e *Engine) loopInfo(fn *ssa.Function) *LoopInfo {
	e.lmu.Lock()
	defer e.lmu.Unlock()
	if l, ok := e.loops[fn]; ok {
		return l
	}
	li := &LoopInfo{header: map[*ssa.BasicBlock]*Loop{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.header[s]
				if l == nil {
					l = &Loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					li.header[s] = l
					li.order = append(li.order, l)
				}
				// natural loop
				var stack []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	sort.Slice(li.order, func(i, j int) bool { return li.order[i].head.Index < li.order[j].head.Index })
	for i, l := range li.order {
		l.idx = i
	}
	e.loops[fn] = li
	return li
}

func sortStrings(s []string) { sort.Strings(s) }
