package main

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// modfile is a copy of the repository's go.mod, so that no go command touches
// the original.
func (e *Engine) modfile() string {
	dst := filepath.Join(e.scratch, "go.mod")
	if fileExists(dst) {
		return dst
	}
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(e.repo, n))
		if err == nil {
			os.WriteFile(filepath.Join(e.scratch, n), b, 0644)
		}
	}
	return dst
}

// Native builds harnesses with the real toolchain and runs them.
type Nat struct {
	eng  *Engine
	mu   sync.Mutex
	bins map[string]string
	errs map[string]error
	n    int64
	runs int64
}

func newNative(e *Engine) *Nat {
	return &Nat{eng: e, bins: map[string]string{}, errs: map[string]error{}}
}

type buildKind struct {
	dir         string // package of the harness
	race, yield bool
}

func (nt *Nat) binary(k buildKind) (string, error) {
	nt.mu.Lock()
	defer nt.mu.Unlock()
	key := fmt.Sprint(k)
	if b, ok := nt.bins[key]; ok {
		return b, nt.errs[key]
	}
	b, err := nt.build(k, len(nt.bins))
	nt.bins[key] = b
	nt.errs[key] = err
	if err != nil && os.Getenv("VENGINE_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "native build:", err)
	}
	return b, err
}

func (nt *Nat) build(k buildKind, n int) (string, error) {
	e := nt.eng
	dir := filepath.Join(e.scratch, fmt.Sprintf("nat%d", n))
	os.MkdirAll(dir, 0755)
	rep := map[string]string{}
	for d, s := range e.overlay {
		rep[d] = s
	}
	put := func(dst string, text []byte) error {
		f := filepath.Join(dir, fmt.Sprintf("f%d.go", len(rep)))
		rep[dst] = f
		return os.WriteFile(f, text, 0644)
	}
	var names []string
	isMain := false
	for _, h := range e.harnesses {
		if h.pkgDir == k.dir {
			names = append(names, h.Name)
			isMain = isMain || h.main
		}
	}
	var b strings.Builder
	target := "./zzverif/run"
	if isMain {
		fmt.Fprintf(&b, "package main\nimport (\n\t\"os\"\n\tvh_ %q\n)\nfunc init() {\n\tif os.Getenv(\"VH_JOB\") == \"\" { return }\n\tvh_.Main(map[string]func(){\n", modPath+"/zzverif/vh")
		for _, x := range names {
			fmt.Fprintf(&b, "\t%q: %s,\n", x, x)
		}
		b.WriteString("})\n}\n")
		target = "./" + k.dir
		if err := put(filepath.Join(e.repo, k.dir, "zz_vh_run.go"), []byte(b.String())); err != nil {
			return "", err
		}
	} else {
		fmt.Fprintf(&b, "package main\nimport (\n\th %q\n\tvh %q\n)\nfunc main() {\n\tvh.Main(map[string]func(){\n", modPath+"/"+k.dir, modPath+"/zzverif/vh")
		for _, x := range names {
			fmt.Fprintf(&b, "\t%q: h.%s,\n", x, x)
		}
		b.WriteString("})\n}\n")
		if err := put(filepath.Join(e.repo, "zzverif/run/main.go"), []byte(b.String())); err != nil {
			return "", err
		}
	}
	if k.yield {
		if err := nt.instrument(put); err != nil {
			return "", err
		}
	}
	mod := e.modfile()
	if e.stubs {
		var err error
		if mod, err = nt.stubbed(dir, put); err != nil {
			return "", err
		}
	}
	oj, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, oj, 0644)
	bin := filepath.Join(dir, "h")
	args := []string{"build", "-overlay", of, "-modfile=" + mod, "-o", bin}
	if k.race {
		args = append(args, "-race")
	}
	args = append(args, target)
	c := exec.Command("go", args...)
	c.Dir = e.repo
	c.Env = os.Environ()
	if k.race {
		c.Env = append(c.Env, "CGO_ENABLED=1")
	} else {
		c.Env = append(c.Env, "CGO_ENABLED=0")
	}
	out, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, out)
	}
	return bin, nil
}

// stubbed replaces the mesh reduction library by a stand-in that reports how it is called.
func (nt *Nat) stubbed(dir string, put func(string, []byte) error) (string, error) {
	e := nt.eng
	sd := filepath.Join(dir, "simplify")
	os.MkdirAll(sd, 0755)
	os.WriteFile(filepath.Join(sd, "go.mod"), []byte("module github.com/fogleman/simplify\n"), 0644)
	src, err := os.ReadFile(filepath.Join(e.verif, "harness/stubs/simplify.go.txt"))
	if err != nil {
		return "", err
	}
	os.WriteFile(filepath.Join(sd, "simplify.go"), src, 0644)
	b, err := os.ReadFile(e.modfile())
	if err != nil {
		return "", err
	}
	md := filepath.Join(dir, "go.mod")
	b = append(b, []byte("\nreplace github.com/fogleman/simplify => "+sd+"\n")...)
	os.WriteFile(md, b, 0644)
	if s, err := os.ReadFile(filepath.Join(e.repo, "go.sum")); err == nil {
		os.WriteFile(filepath.Join(dir, "go.sum"), s, 0644)
	}
	err = put(filepath.Join(e.repo, "zzverif/vh/zz_hook.go"), []byte(`package vh
import "github.com/fogleman/simplify"
func init() {
	simplify.Hook = func(m *simplify.Mesh, f float64) *simplify.Mesh { return SimplifyHook(m, f).(*simplify.Mesh) }
}
`))
	return md, err
}

// instrument adds a scheduling disturbance before the statements of every file
// that starts goroutines or is used by them.
func (nt *Nat) instrument(put func(string, []byte) error) error {
	e := nt.eng
	seen := map[string]bool{}
	for _, p := range e.pkgs {
		path := p.Pkg.Path()
		if !strings.HasPrefix(path, modPath) || strings.Contains(path, "/zzverif") || p.Pkg.Name() == "main" {
			continue
		}
		dir := filepath.Join(e.repo, strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/"))
		fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") || seen[f] {
				continue
			}
			seen[f] = true
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, nil, 0)
			if err != nil {
				return err
			}
			conc := false
			ast.Inspect(af, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.GoStmt, *ast.SendStmt, *ast.ChanType:
					conc = true
				case *ast.UnaryExpr:
					conc = conc || x.Op == token.ARROW
				case *ast.SelectorExpr:
					if id, ok := x.X.(*ast.Ident); ok && id.Name == "sync" {
						conc = true
					}
				case *ast.Ident:
					conc = conc || strings.HasPrefix(x.Name, "DoInParallel")
				}
				return true
			})
			if !conc {
				continue
			}
			add := func(l []ast.Stmt) []ast.Stmt {
				var o []ast.Stmt
				for _, s := range l {
					o = append(o, &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vhy_"), Sel: ast.NewIdent("Yield")}}}, s)
				}
				return o
			}
			used := false
			ast.Inspect(af, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					if len(x.List) > 0 {
						if _, ok := x.List[0].(*ast.CaseClause); ok {
							return true
						}
						if _, ok := x.List[0].(*ast.CommClause); ok {
							return true
						}
						x.List = add(x.List)
						used = true
					}
				case *ast.CaseClause:
					x.Body = add(x.Body)
					used = used || len(x.Body) > 0
				case *ast.CommClause:
					x.Body = add(x.Body)
					used = used || len(x.Body) > 0
				}
				return true
			})
			if !used {
				continue
			}
			imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("vhy_"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(modPath + "/zzverif/vh")}}}}
			af.Decls = append([]ast.Decl{imp}, af.Decls...)
			var b bytes.Buffer
			if err := format.Node(&b, fset, af); err != nil {
				return err
			}
			if err := put(f, b.Bytes()); err != nil {
				return err
			}
		}
	}
	return nil
}

type nativeRes struct {
	code    int
	out     string
	timeout bool
	obs     [][]interface{}
}

func (r nativeRes) asserted() string {
	i := strings.LastIndex(r.out, "VH-ASSERT ")
	if r.code != 3 || i < 0 {
		return ""
	}
	s := r.out[i+len("VH-ASSERT "):]
	if j := strings.IndexByte(s, '\n'); j >= 0 {
		s = s[:j]
	}
	return s
}

func (r nativeRes) racy() bool {
	return r.code == 66 || strings.Contains(r.out, "WARNING: DATA RACE")
}
func (r nativeRes) deadlocked() bool {
	return r.timeout || strings.Contains(r.out, "all goroutines are asleep")
}

type Job struct {
	Prop    string `json:",omitempty"`
	Pkg     string `json:",omitempty"`
	Label   string `json:",omitempty"`
	Message string `json:",omitempty"`
	Race    bool   `json:",omitempty"`
	Yield   bool   `json:",omitempty"`
	Name    string
	Inputs  map[string]float64
	Seed    int64
	Dir     string
	Out     string
	Tier    string
	Known   map[string]bool
}

func (nt *Nat) run(k buildKind, job Job, timeout time.Duration) (nativeRes, error) {
	bin, err := nt.binary(k)
	if err != nil {
		return nativeRes{}, err
	}
	nt.mu.Lock()
	nt.n++
	nt.runs++
	id := nt.n
	nt.mu.Unlock()
	d := filepath.Join(nt.eng.scratch, fmt.Sprintf("run%d", id))
	os.MkdirAll(filepath.Join(d, "w"), 0755)
	defer os.RemoveAll(d)
	job.Dir = filepath.Join(d, "w")
	job.Out = filepath.Join(d, "out.json")
	job.Tier = "quick"
	if nt.eng.thorough {
		job.Tier = "thorough"
	}
	job.Known = nt.eng.known
	jb, _ := json.Marshal(job)
	jf := filepath.Join(d, "job.json")
	os.WriteFile(jf, jb, 0644)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	c := exec.CommandContext(ctx, bin)
	c.Dir = job.Dir
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	c.WaitDelay = 2 * time.Second
	c.Env = append(os.Environ(), "VH_JOB="+jf, "GOMEMLIMIT=2GiB")
	var buf limited
	c.Stdout = &buf
	c.Stderr = &buf
	err = c.Run()
	r := nativeRes{out: buf.String()}
	if ctx.Err() != nil {
		r.timeout = true
		r.code = -1
		return r, nil
	}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		r.code = ee.ExitCode()
	} else if err != nil {
		return r, err
	}
	if b, err := os.ReadFile(job.Out); err == nil {
		json.Unmarshal(b, &r.obs)
	}
	return r, nil
}

type limited struct {
	mu sync.Mutex
	b  []byte
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.b) < 1<<20 {
		l.b = append(l.b, p...)
	} else if len(p) < 4096 {
		l.b = append(l.b[:1<<19], append(l.b[len(l.b)-(1<<19)+len(p):], p...)...)
	}
	return len(p), nil
}
func (l *limited) String() string { l.mu.Lock(); defer l.mu.Unlock(); return string(l.b) }

// variants of a model: the solver's own values and rounder ones near them.
func variants(in map[string]float64) []map[string]float64 {
	out := []map[string]float64{in}
	seen := map[string]bool{sig(in): true}
	rf := []func(float64) float64{
		func(x float64) float64 { return math.Round(x*1e6) / 1e6 },
		func(x float64) float64 { return math.Round(x*1e3) / 1e3 },
		func(x float64) float64 { return math.Round(x*64) / 64 },
		func(x float64) float64 { return math.Round(x*10) / 10 },
		func(x float64) float64 { return math.Round(x) },
	}
	for _, f := range rf {
		v := map[string]float64{}
		for k, x := range in {
			v[k] = f(x)
		}
		if s := sig(v); !seen[s] {
			seen[s] = true
			out = append(out, v)
		}
	}
	// the model leaves rounding errors open: look nearby for inputs that realise them
	rng := rand.New(rand.NewSource(7))
	var ks []string
	for k := range in {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i := 0; i < 12; i++ {
		mag := []float64{1e-6, 1e-4, 1e-2, 0.3}[i%4]
		v := map[string]float64{}
		for _, k := range ks {
			v[k] = in[k]
			if in[k] != math.Trunc(in[k]) || i%2 == 0 {
				v[k] += (rng.Float64()*2 - 1) * mag
			}
		}
		out = append(out, v)
	}
	return out
}

func sig(m map[string]float64) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%v ", k, m[k])
	}
	return b.String()
}

// confirm replays a candidate against the real code. It returns the job that
// fails and what fails, or nil.
func (nt *Nat) confirm(h *Harness, c *Candidate) (*Job, string) {
	mk := func(in map[string]float64, seed int64, k buildKind) Job {
		return Job{Prop: nt.eng.prop, Pkg: h.pkgDir, Label: c.Label, Message: c.Msg, Name: h.Name, Inputs: in, Seed: seed, Race: k.race, Yield: k.yield}
	}
	judge := func(r nativeRes) string {
		switch {
		case r.asserted() != "":
			return r.asserted()
		case r.racy():
			return "no data race"
		case r.code == 2 && strings.Contains(r.out, "all goroutines are asleep"):
			return "no deadlock"
		case r.code == 2 && (strings.Contains(r.out, "panic:") || strings.Contains(r.out, "fatal error:") || strings.Contains(r.out, "runtime:") || strings.Contains(r.out, "goroutine ")):
			return "no panic"
		case r.timeout && (c.Label == "terminates" || c.Label == "no deadlock"):
			return c.Label
		case r.code == 1 && h.exitBad:
			return "no exit"
		}
		return ""
	}
	to := 20 * time.Second
	plain := buildKind{dir: h.pkgDir}
	try := func(in map[string]float64, seed int64, k buildKind) (*Job, string) {
		j := mk(in, seed, k)
		r, err := nt.run(k, j, to)
		if err != nil {
			return nil, ""
		}
		if w := judge(r); w != "" {
			j.Label = w
			out := r.out
			if len(out) > 3000 {
				out = out[:1500] + "\n...\n" + out[len(out)-1500:]
			}
			j.Message = out
			return &j, w
		}
		return nil, ""
	}
	if !h.sched {
		for _, in := range variants(c.Names) {
			if j, w := try(in, 0, plain); j != nil {
				return j, w
			}
		}
		return nil, ""
	}
	to = 10 * time.Second
	in := c.Names
	kinds := []buildKind{{h.pkgDir, false, true}, {h.pkgDir, true, true}}
	if c.Label == "no data race" {
		kinds[0], kinds[1] = kinds[1], kinds[0]
	}
	if j, w := try(in, 0, plain); j != nil {
		return j, w
	}
	for i, k := range kinds {
		n := 40
		if i == 1 {
			n = 15
		}
		for s := 1; s <= n; s++ {
			if j, w := try(in, int64(s), k); j != nil {
				return j, w
			}
		}
	}
	return nil, ""
}
