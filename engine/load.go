package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/l1va/goosli"

type Engine struct {
	repo    string
	verif   string
	prop    string
	skip    map[string]bool // harness files left out
	misfits []string
	overlay map[string]string // path in the repository -> real file
	prog    *ssa.Program
	pkgs    []*ssa.Package
	infos   map[*ssa.Function]*fnInfo
	infoMu  sync.RWMutex
	cov     sync.Map
	mergeMu sync.Mutex
	mergeM  map[*ssa.Function]int
	methMu  sync.Mutex

	stdGlobals map[*ssa.Global]*Value
	inits      []*ssa.Function
	harnesses  []*Harness
	thorough   bool
	known      map[string]bool
	stubs      bool
	scratch    string
}

type Harness struct {
	Name     string
	fn       *ssa.Function
	Doc      string
	sched    bool
	preempt  int
	mapOrder bool
	noise    bool
	exitBad  bool
	tier     string
	time     float64
	steps    int64
	maxPaths int64
	maxConc  int
	concInt  bool // whole numbers made from floats are split into their values
	maxCand  int
	race     bool
	nocover  bool
	main     bool
	workers  int
	bounds   string
	pkgDir   string // relative to the repository
	replace  []string
	repl     map[*ssa.Function]*ssa.Function
}

// resolve finds the functions that the harness replaces by their specification
// (a function of the harness package, checked by another harness).
func (h *Harness) resolve(sp *ssa.Package, all map[string]*ssa.Function) error {
	for _, r := range h.replace {
		i := strings.IndexByte(r, ':')
		to := sp.Func(r[i+1:])
		if to == nil {
			return fmt.Errorf("no function %s", r[i+1:])
		}
		from := all[r[:i]]
		if from == nil || len(from.Params) != len(to.Params) {
			continue
		}
		ok := from.Signature.Results().Len() == to.Signature.Results().Len()
		for j := range from.Params {
			ok = ok && types.Identical(from.Params[j].Type(), to.Params[j].Type())
		}
		if !ok {
			continue
		}
		if h.repl == nil {
			h.repl = map[*ssa.Function]*ssa.Function{}
		}
		h.repl[from] = to
	}
	return nil
}

func shortName(fn *ssa.Function) string {
	n := strings.NewReplacer("(", "", ")", "", "*", "").Replace(fn.String())
	return strings.TrimPrefix(n, modPath+"/")
}

func fileExists(p string) bool { _, err := os.Stat(p); return err == nil }

// buildOverlay maps harness files into the repository tree.
func (e *Engine) buildOverlay() error {
	e.overlay = map[string]string{}
	add := func(dst, src string) {
		fs, _ := filepath.Glob(filepath.Join(src, "*.go"))
		for _, f := range fs {
			if e.skip[f] {
				continue
			}
			e.overlay[filepath.Join(e.repo, dst, filepath.Base(f))] = f
		}
	}
	add("zzverif/vh", filepath.Join(e.verif, "harness/vh"))
	add("zzverif/hx", filepath.Join(e.verif, "harness/hx"))
	p := strings.ToLower(e.prop)
	add("zzverif/"+p, filepath.Join(e.verif, "harness", p))
	// files placed inside a package of the repository: harness/cNN/in_<dir with _>/x.go
	ds, _ := filepath.Glob(filepath.Join(e.verif, "harness", p, "in", "*"))
	for _, d := range ds {
		dst := strings.ReplaceAll(filepath.Base(d), "__", "/")
		add(dst, d)
	}
	return nil
}

// Load reads the tree with the harnesses. Harness files inside the packages of
// the repository that no longer fit them are left out.
func (e *Engine) Load() error {
	for n := 0; ; n++ {
		bad, err := e.load()
		if err == nil || len(bad) == 0 || n > 8 {
			return err
		}
		for _, f := range bad {
			if e.skip == nil {
				e.skip = map[string]bool{}
			}
			e.skip[f] = true
			e.misfits = append(e.misfits, filepath.Base(f)+" does not fit the tree: "+err.Error())
		}
		e.harnesses = nil
	}
}

func (e *Engine) load() (bad []string, err error) {
	if err := e.buildOverlay(); err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for dst, src := range e.overlay {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	pats := []string{"./zzverif/" + strings.ToLower(e.prop)}
	ds, _ := filepath.Glob(filepath.Join(e.verif, "harness", strings.ToLower(e.prop), "in", "*"))
	for _, d := range ds {
		pats = append(pats, "./"+strings.ReplaceAll(filepath.Base(d), "__", "/"))
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: e.repo, Overlay: ov, Env: append(os.Environ(), "CGO_ENABLED=0"),
		Fset: token.NewFileSet(), BuildFlags: []string{"-modfile=" + e.modfile()},
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var msgs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) || p.PkgPath == "" {
			for _, er := range p.Errors {
				msgs = append(msgs, er.Error())
				f := er.Pos
				if i := strings.Index(f, ".go:"); i >= 0 {
					f = f[:i+3]
				}
				if src := e.overlay[f]; strings.Contains(src, "/in/") {
					bad = append(bad, src)
				}
			}
		}
	})
	if len(msgs) > 0 {
		return bad, fmt.Errorf("the tree does not load: %s", strings.Join(msgs[:1], "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e.prog = prog
	e.infos = map[*ssa.Function]*fnInfo{}
	e.mergeM = map[*ssa.Function]int{}
	// package initialisation order
	seen := map[*types.Package]bool{}
	var order []*ssa.Package
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		imps := append([]*types.Package{}, p.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, q := range imps {
			visit(q)
		}
		if sp := prog.Package(p); sp != nil {
			order = append(order, sp)
		}
	}
	for _, p := range ps {
		visit(p.Types)
	}
	e.pkgs = order
	for _, p := range ps {
		sp := prog.Package(p.Types)
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				n := fd.Name.Name
				if !strings.HasPrefix(n, "H_") && !strings.HasPrefix(n, "T_") && !strings.HasPrefix(n, "K_") {
					continue
				}
				h := &Harness{Name: n, fn: sp.Func(n), steps: 3000000, maxPaths: 200000, maxConc: 64, maxCand: 6, preempt: 2, time: 0}
				h.main = p.Types.Name() == "main"
				h.pkgDir = strings.TrimPrefix(strings.TrimPrefix(p.PkgPath, modPath), "/")
				if strings.HasPrefix(n, "K_") {
					h.tier = "known"
				}
				if strings.HasPrefix(n, "T_") {
					h.tier = "thorough"
				}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
						if strings.HasPrefix(t, "vh:opt") {
							if err := h.opts(strings.TrimSpace(strings.TrimPrefix(t, "vh:opt"))); err != nil {
								return nil, err
							}
						} else if strings.HasPrefix(t, "vh:bounds") {
							h.bounds = strings.TrimSpace(strings.TrimPrefix(t, "vh:bounds"))
						} else {
							h.Doc += t + " "
						}
					}
				}
				e.harnesses = append(e.harnesses, h)
			}
		}
	}
	byName := map[string]*ssa.Function{}
	any := false
	for _, h := range e.harnesses {
		any = any || len(h.replace) > 0
	}
	all := map[*ssa.Function]bool{}
	if any {
		all = ssautil.AllFunctions(prog)
	}
	for fn := range all {
		if fn.Synthetic == "" && fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
			byName[shortName(fn)] = fn
		}
	}
	for _, h := range e.harnesses {
		if err := h.resolve(h.fn.Pkg, byName); err != nil {
			return nil, err
		}
	}
	sort.Slice(e.harnesses, func(i, j int) bool { return e.harnesses[i].Name < e.harnesses[j].Name })
	e.initStd()
	return nil, nil
}

func (h *Harness) opts(s string) error {
	for _, f := range strings.Fields(s) {
		k, v := f, ""
		if i := strings.IndexByte(f, '='); i >= 0 {
			k, v = f[:i], f[i+1:]
		}
		n, _ := strconv.ParseFloat(v, 64)
		switch k {
		case "sched":
			h.sched = true
		case "preempt":
			h.preempt = int(n)
		case "maporder":
			h.mapOrder = true
		case "noise":
			h.noise = true
		case "exitbad":
			h.exitBad = true
		case "tier":
			h.tier = v
		case "time":
			h.time = n
		case "steps":
			h.steps = int64(n)
		case "paths":
			h.maxPaths = int64(n)
		case "concint":
			h.concInt = true
		case "conc":
			h.maxConc = int(n)
		case "cand":
			h.maxCand = int(n)
		case "race":
			h.race = true
		case "nocover":
			h.nocover = true
		case "replace":
			if !strings.Contains(v, ":") {
				return fmt.Errorf("bad option %s", f)
			}
			h.replace = append(h.replace, v)
		case "workers":
			h.workers = int(n)
		default:
			return fmt.Errorf("unknown harness option %q", k)
		}
	}
	return nil
}

// packages of the standard library whose code is executed from source
var interpPkgs = map[string]bool{
	"errors": true, "io": true, "bufio": true, "bytes": true, "strings": true, "sort": true, "slices": true, "cmp": true,
	"container/list": true, "container/heap": true, "container/ring": true, "unicode/utf8": true, "math/bits": true, "maps": true,
	"encoding/binary": true, "iter": true, "internal/stringslite": true, "internal/byteorder": true,
}

func fnPkgPath(fn *ssa.Function) string {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func (e *Engine) interpretable(fn *ssa.Function) bool {
	p := fnPkgPath(fn)
	return p == "" || interpPkgs[p] || strings.HasPrefix(p, modPath)
}

func (e *Engine) covered(fn *ssa.Function) {
	if _, ok := e.cov.Load(fn); !ok {
		e.cov.Store(fn, true)
	}
}

func (e *Engine) initStd() {
	e.stdGlobals = map[*ssa.Global]*Value{}
	run := &Run{eng: e, h: &Harness{steps: 5000000, maxConc: 4}, ctx: NewCtx(), qc: NewQCache(), ends: map[string]int{}, undecided: map[string]int{}, obls: map[string]*Obligation{}, candBy: map[string]int{}}
	run.cond = sync.NewCond(&run.mu)
	run.deadline = farFuture
	m := run.newMachine(Task{}, nil)
	for _, p := range e.pkgs {
		path := p.Pkg.Path()
		if interpPkgs[path] {
			func() {
				defer func() {
					if r := recover(); r != nil && os.Getenv("VENGINE_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, "init", path, r)
					}
				}()
				m.runInit(p)
			}()
		} else if strings.HasPrefix(path, modPath) {
			e.inits = append(e.inits, p.Func("init"))
		}
	}
	e.stdGlobals = m.globals
}

// runInit executes a package initialiser without those of its imports.
func (m *Machine) runInit(p *ssa.Package) {
	fn := p.Func("init")
	fi := m.eng.info(fn)
	m.skipInit = fn
	m.exec(nil, fn, fi, nil, nil)
}

func (m *Machine) initGlobals() {
	for _, fn := range m.eng.inits {
		m.runInit(fn.Pkg)
	}
	m.skipInit = nil
}

func (e *Engine) lookupMethod(t types.Type, f *types.Func) *ssa.Function {
	e.methMu.Lock()
	defer e.methMu.Unlock()
	return e.prog.LookupMethod(t, f.Pkg(), f.Name())
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

// mergeable: acyclic, no side effects outside its own locals, scalar results.
func (e *Engine) mergeable(fn *ssa.Function) bool {
	e.mergeMu.Lock()
	defer e.mergeMu.Unlock()
	return e.mergeableL(fn, true)
}

func scalarType(t types.Type, top bool) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsNumeric|types.IsBoolean) != 0 && u.Info()&types.IsComplex == 0
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !scalarType(u.Field(i).Type(), false) {
				return false
			}
		}
		return true
	}
	return false
}

func (e *Engine) mergeableL(fn *ssa.Function, top bool) bool {
	key := 0
	if top {
		key = 4
	}
	if s, ok := e.mergeM[fn]; ok && (s>>key)&3 != 0 {
		return (s>>key)&3 == 1
	}
	e.mergeM[fn] |= 2 << key // in progress counts as no
	ok := e.mergeCheck(fn, top)
	e.mergeM[fn] &^= 3 << key
	if ok {
		e.mergeM[fn] |= 1 << key
	} else {
		e.mergeM[fn] |= 2 << key
	}
	return ok
}

func (e *Engine) mergeCheck(fn *ssa.Function, top bool) bool {
	if fn.Blocks == nil || len(fn.FreeVars) > 0 || len(fn.Blocks) > 30 {
		return false
	}
	if top {
		rs := fn.Signature.Results()
		if rs.Len() == 0 {
			return false
		}
		for i := 0; i < rs.Len(); i++ {
			if !scalarType(rs.At(i).Type(), true) {
				return false
			}
		}
	}
	// acyclic: every successor has a larger dominator preorder is not enough; do a DFS
	state := map[*ssa.BasicBlock]int{}
	var cyc bool
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if state[s] == 1 {
				cyc = true
			} else if state[s] == 0 {
				dfs(s)
			}
		}
		state[b] = 2
	}
	dfs(fn.Blocks[0])
	if cyc {
		return false
	}
	var local func(v ssa.Value) bool
	local = func(v ssa.Value) bool {
		switch v := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			return local(v.X)
		case *ssa.IndexAddr:
			return local(v.X)
		}
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if !local(in.Addr) {
					return false
				}
			case *ssa.Go, *ssa.Defer, *ssa.RunDefers, *ssa.Panic, *ssa.Send, *ssa.Select, *ssa.MapUpdate, *ssa.Range, *ssa.Next,
				*ssa.MakeClosure, *ssa.MakeChan, *ssa.MakeMap:
				return false
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					return false
				}
			case *ssa.Call:
				if _, ok := in.Call.Value.(*ssa.Builtin); ok {
					switch in.Call.Value.Name() {
					case "len", "cap", "min", "max", "ssa:wrapnilchk":
						continue
					}
					return false
				}
				cal := in.Call.StaticCallee()
				if cal == nil {
					return false
				}
				p := fnPkgPath(cal)
				if p == "math" {
					continue
				}
				if !strings.HasPrefix(p, modPath) || strings.Contains(p, "/zzverif") {
					return false
				}
				// only code without memory effects
				if !e.mergeableL(cal, false) {
					return false
				}
			}
		}
	}
	return true
}

// importGraphRepoFuncs lists functions declared in the repository (for evidence).
func (e *Engine) coveredNames() []string {
	var out []string
	e.cov.Range(func(k, _ interface{}) bool {
		fn := k.(*ssa.Function)
		if fn.Synthetic == "" && fn.Pos().IsValid() {
			p := e.prog.Fset.Position(fn.Pos())
			rel, _ := filepath.Rel(e.repo, p.Filename)
			out = append(out, fmt.Sprintf("%s (%s:%d)", strings.TrimPrefix(fn.String(), modPath+"/"), rel, p.Line))
		}
		return true
	})
	sort.Strings(out)
	return out
}

// harnessNames parses the harness sources only (no type checking).
func harnessNames(dir string) ([]string, error) {
	fset := token.NewFileSet()
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var out []string
	for _, f := range fs {
		af, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && (strings.HasPrefix(fd.Name.Name, "H_") || strings.HasPrefix(fd.Name.Name, "T_") || strings.HasPrefix(fd.Name.Name, "K_")) {
				out = append(out, fd.Name.Name)
			}
		}
	}
	sort.Strings(out)
	return out, nil
}
