package main

import (
	"bufio"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Proc struct {
	args []string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	mu   sync.Mutex
}

func (p *Proc) start() error {
	p.cmd = exec.Command(p.args[0], p.args[1:]...)
	in, err := p.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	p.in = in
	p.out = bufio.NewReaderSize(out, 1<<16)
	return p.cmd.Start()
}

func (p *Proc) kill() {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.cmd != nil && p.cmd.Process != nil {
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
	p.cmd = nil
}

// ask sends text and reads lines up to the end mark.
func (p *Proc) ask(text string, hard time.Duration) ([]string, error) {
	if p.cmd == nil {
		if err := p.start(); err != nil {
			return nil, err
		}
	}
	cmd := p.cmd
	var fired atomic.Bool
	t := time.AfterFunc(hard, func() { fired.Store(true); cmd.Process.Kill() })
	defer t.Stop()
	if _, err := io.WriteString(p.in, text+"\n(echo \"@@end\")\n"); err != nil {
		p.kill()
		return nil, err
	}
	var lines []string
	for {
		l, err := p.out.ReadString('\n')
		if err != nil {
			p.kill()
			return lines, fmt.Errorf("solver died")
		}
		l = strings.TrimRight(l, "\n")
		if strings.Contains(l, "@@end") {
			return lines, nil
		}
		lines = append(lines, l)
	}
}

type Stats struct {
	Queries, SatN, UnsatN, UnknownN, CacheHits, WitnessHits int64
	SolverNs                                                int64
}

type qres struct {
	res   Res
	model map[*Var]float64
}

type Solver struct {
	ctx   *Ctx
	z3    *Proc
	nl    *Proc
	cvc   *Proc
	stats *Stats
	cache *QCache
	fast  time.Duration
	slow  time.Duration
	trace bool
}

type QCache struct {
	mu sync.Mutex
	m  map[string]qres
	cl map[int][]*Var
	fd map[[2]int]*Poly // known quotients
}

func NewQCache() *QCache {
	return &QCache{m: map[string]qres{}, cl: map[int][]*Var{}, fd: map[[2]int]*Poly{}}
}

var z3bin = func() string {
	if p, err := exec.LookPath("z3-new"); err == nil {
		return p
	}
	return "z3"
}()

func NewSolver(ctx *Ctx, st *Stats, qc *QCache) *Solver {
	return &Solver{ctx: ctx, stats: st, cache: qc, fast: 400 * time.Millisecond, slow: 3 * time.Second,
		z3:  &Proc{args: []string{z3bin, "-in", "-smt2"}},
		nl:  &Proc{args: []string{z3bin, "-in", "-smt2"}},
		cvc: &Proc{args: []string{"cvc5", "--incremental", "--lang=smt2", "--produce-models", "-q"}}}
}

func (s *Solver) Close() {
	s.z3.kill()
	s.nl.kill()
	s.cvc.kill()
}

// closure returns all variables reachable from b through definitions.
func (s *Solver) closure(b *Bool) []*Var {
	s.cache.mu.Lock()
	if c, ok := s.cache.cl[b.ID]; ok {
		s.cache.mu.Unlock()
		return c
	}
	s.cache.mu.Unlock()
	seen := map[*Var]bool{}
	var st []*Var
	push := func(vs []*Var) {
		for _, v := range vs {
			if !seen[v] {
				seen[v] = true
				st = append(st, v)
			}
		}
	}
	push(b.vars)
	for i := 0; i < len(st); i++ {
		for _, d := range s.ctx.Def(st[i]) {
			push(d.vars)
		}
	}
	sort.Slice(st, func(i, j int) bool { return st[i].ID < st[j].ID })
	s.cache.mu.Lock()
	s.cache.cl[b.ID] = st
	s.cache.mu.Unlock()
	return st
}

// slice keeps the constraints connected to goal.
func (s *Solver) slice(pc []*Bool, goal *Bool) []*Bool {
	in := map[*Var]bool{}
	for _, v := range s.closure(goal) {
		in[v] = true
	}
	used := make([]bool, len(pc))
	for ch := true; ch; {
		ch = false
		for i, b := range pc {
			if used[i] {
				continue
			}
			cl := s.closure(b)
			hit := false
			for _, v := range cl {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for _, v := range cl {
					in[v] = true
				}
			}
		}
	}
	var out []*Bool
	for i, b := range pc {
		if used[i] {
			out = append(out, b)
		}
	}
	return out
}

func ratSMT(r *big.Rat) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var s string
	if a.IsInt() {
		s = a.Num().String() + ".0"
	} else {
		s = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + s + ")"
	}
	return s
}

type printer struct {
	ctx   *Ctx
	sb    strings.Builder
	decl  map[*Var]bool
	bdone map[*Bool]bool
	todo  []*Var
	nonl  bool
	ints  bool
	whole bool // declare the floors as integers
	fl    bool // there are floors
	ins   []*Var
}

func (p *printer) isInt(v *Var) bool {
	return v.Int && (v.Kind == KInput || p.whole && v.Kind == KFloor)
}

func (p *printer) v(v *Var) {
	if p.decl[v] {
		return
	}
	p.decl[v] = true
	sort := "Real"
	if v.Kind == KFloor {
		p.fl = true
	}
	if p.isInt(v) {
		sort = "Int"
		p.ints = true
	}
	fmt.Fprintf(&p.sb, "(declare-const v%d %s)\n", v.ID, sort)
	if v.Kind == KInput {
		p.ins = append(p.ins, v)
	}
	p.todo = append(p.todo, v)
}

func (p *printer) poly(q *Poly) string {
	if len(q.t) == 0 {
		return "0.0"
	}
	var ts []string
	for _, t := range q.t {
		if t.m.deg == 0 {
			ts = append(ts, ratSMT(t.c))
			continue
		}
		if t.m.deg > 1 {
			p.nonl = true
		}
		var fs []string
		if t.c.Cmp(big1) != 0 {
			fs = append(fs, ratSMT(t.c))
		}
		for _, f := range t.m.f {
			p.v(f.v)
			n := "v" + strconv.Itoa(f.v.ID)
			if p.isInt(f.v) {
				n = "(to_real " + n + ")"
			}
			for i := 0; i < f.e; i++ {
				fs = append(fs, n)
			}
		}
		if len(fs) == 1 {
			ts = append(ts, fs[0])
		} else {
			ts = append(ts, "(* "+strings.Join(fs, " ")+")")
		}
	}
	if len(ts) == 1 {
		return ts[0]
	}
	return "(+ " + strings.Join(ts, " ") + ")"
}

func (p *printer) b(b *Bool) string {
	switch b.op {
	case 'T':
		return "true"
	case 'F':
		return "false"
	case 'b':
		p.v(b.v)
		return fmt.Sprintf("(= v%d 1)", b.v.ID)
	case '!':
		return "(not " + p.b(b.args[0]) + ")"
	}
	n := "b" + strconv.Itoa(b.ID)
	if p.bdone[b] {
		return n
	}
	var body string
	if b.op == 'a' {
		rel := "<"
		if b.rel == '=' {
			rel = "="
		} else if b.rel == 'l' {
			rel = "<="
		}
		// move constant and negative terms to the right-hand side for readability of LRA
		body = "(" + rel + " " + p.poly(b.p) + " 0.0)"
	} else {
		var as []string
		for _, x := range b.args {
			as = append(as, p.b(x))
		}
		op := "and"
		if b.op == '|' {
			op = "or"
		}
		body = "(" + op + " " + strings.Join(as, " ") + ")"
	}
	p.bdone[b] = true
	fmt.Fprintf(&p.sb, "(define-fun %s () Bool %s)\n", n, body)
	return n
}

// factored splits atoms whose polynomial has a linear factor that occurs
// elsewhere in the query: the sign of such a product follows from its factors.
func (s *Solver) factored(cs []*Bool) []*Bool {
	var facts []*Poly
	seenP := map[*Poly]bool{}
	seenB := map[*Bool]bool{}
	var big []*Bool
	addF := func(p *Poly) {
		if p == nil || seenP[p] || len(facts) > 40 {
			return
		}
		seenP[p] = true
		if p.deg == 1 && len(p.t) >= 2 && len(p.t) <= 4 && p.constTerm().Sign() == 0 {
			facts = append(facts, p)
		}
	}
	var walk func(b *Bool)
	walk = func(b *Bool) {
		if seenB[b] {
			return
		}
		seenB[b] = true
		if b.op == 'a' {
			addF(b.p)
			if b.p.deg >= 2 && len(b.p.t) >= 4 {
				big = append(big, b)
			}
			for _, v := range b.p.vars {
				switch v.Kind {
				case KDiv:
					addF(v.B)
				case KInv:
					addF(v.A)
				}
			}
		}
		for _, x := range b.args {
			walk(x)
		}
	}
	for _, b := range cs {
		walk(b)
	}
	if len(big) == 0 || len(facts) == 0 {
		return cs
	}
	rep := map[*Bool]*Bool{}
	for _, b := range big {
		var fs []*Poly
		p := b.p
		for _, f := range facts {
			if q := s.quot(p, f); q != nil {
				fs = append(fs, f)
				p = q
				if p.deg < 1 || len(fs) == 2 {
					break
				}
			}
		}
		if len(fs) == 0 {
			continue
		}
		neg, zero := s.ctx.signProd(append(fs, p), 1)
		switch b.rel {
		case '<':
			rep[b] = neg
		case '=':
			rep[b] = zero
		default:
			rep[b] = s.ctx.Or(neg, zero)
		}
	}
	if len(rep) == 0 {
		return cs
	}
	memo := map[*Bool]*Bool{}
	var sub func(b *Bool) *Bool
	sub = func(b *Bool) *Bool {
		if r, ok := memo[b]; ok {
			return r
		}
		r := b
		if x, ok := rep[b]; ok {
			r = x
		} else if len(b.args) > 0 {
			ch := false
			var as []*Bool
			for _, x := range b.args {
				y := sub(x)
				ch = ch || y != x
				as = append(as, y)
			}
			if ch {
				switch b.op {
				case '&':
					r = s.ctx.And(as...)
				case '|':
					r = s.ctx.Or(as...)
				case '!':
					r = s.ctx.Not(as[0])
				}
			}
		}
		memo[b] = r
		return r
	}
	var out []*Bool
	for _, b := range cs {
		out = append(out, sub(b))
	}
	return out
}

func (s *Solver) quot(p, f *Poly) *Poly {
	in := map[*Var]bool{}
	for _, v := range p.vars {
		in[v] = true
	}
	for _, v := range f.vars {
		if !in[v] {
			return nil
		}
	}
	if p == f || len(p.t) > 150 {
		return nil
	}
	k := [2]int{p.ID, f.ID}
	s.cache.mu.Lock()
	q, ok := s.cache.fd[k]
	s.cache.mu.Unlock()
	if ok {
		return q
	}
	q, ok = s.ctx.exactDiv(p, f)
	if !ok || q.IsConst() {
		q = nil
	}
	s.cache.mu.Lock()
	s.cache.fd[k] = q
	s.cache.mu.Unlock()
	return q
}

func (s *Solver) render(cs []*Bool) (string, []*Var, bool, bool) {
	p := s.print(cs, false)
	return p.sb.String(), p.ins, p.nonl, p.ints
}

func (s *Solver) print(cs []*Bool, whole bool) *printer {
	p := &printer{ctx: s.ctx, whole: whole, decl: map[*Var]bool{}, bdone: map[*Bool]bool{}}
	for _, b := range cs {
		n := p.b(b)
		fmt.Fprintf(&p.sb, "(assert %s)\n", n)
	}
	for i := 0; i < len(p.todo); i++ {
		for _, d := range s.ctx.Def(p.todo[i]) {
			n := p.b(d)
			fmt.Fprintf(&p.sb, "(assert %s)\n", n)
		}
	}
	return p
}

// linear tells whether the query has no products of variables.
func (s *Solver) linear(cs []*Bool) bool {
	_, _, nonl, _ := s.render(cs)
	return !nonl
}

// Check decides the conjunction of cs. The model maps inputs to doubles.
func (s *Solver) Check(cs []*Bool, full bool) (Res, map[*Var]float64) {
	ids := make([]int, 0, len(cs))
	var list []*Bool
	seen := map[*Bool]bool{}
	for _, b := range cs {
		if b == s.ctx.False {
			return Unsat, nil
		}
		if b == s.ctx.True || seen[b] {
			continue
		}
		seen[b] = true
		ids = append(ids, b.ID)
		list = append(list, b)
	}
	if len(list) == 0 {
		return Sat, map[*Var]float64{}
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(' ')
	}
	if full {
		kb.WriteByte('F')
	}
	key := kb.String()
	s.cache.mu.Lock()
	if r, ok := s.cache.m[key]; ok {
		s.cache.mu.Unlock()
		atomic.AddInt64(&s.stats.CacheHits, 1)
		return r.res, r.model
	}
	s.cache.mu.Unlock()
	fac := s.factored(list)
	p := s.print(fac, false)
	text := p.sb.String()
	t0 := time.Now()
	res, model := s.solve(text, p.ins, p.nonl, p.ints, full)
	if res != Unsat && p.fl && (full || !p.nonl) {
		// so far without the integrality of floors
		p = s.print(fac, true)
		if r, m := s.solve(p.sb.String(), p.ins, p.nonl, p.ints, full); r != Unknown || res == Unknown {
			res, model, text = r, m, p.sb.String()
		}
	}
	dt := time.Since(t0)
	atomic.AddInt64(&s.stats.SolverNs, int64(dt))
	atomic.AddInt64(&s.stats.Queries, 1)
	switch res {
	case Sat:
		atomic.AddInt64(&s.stats.SatN, 1)
	case Unsat:
		atomic.AddInt64(&s.stats.UnsatN, 1)
	default:
		atomic.AddInt64(&s.stats.UnknownN, 1)
	}
	if d := os.Getenv("VENGINE_SLOWQ"); d != "" && (dt > 500*time.Millisecond || res == Unknown || os.Getenv("VENGINE_ALLQ") != "") {
		h := fnv.New32a()
		h.Write([]byte(text))
		os.WriteFile(fmt.Sprintf("%s/q%08x-%s-%dms.smt2", d, h.Sum32(), res, dt.Milliseconds()), []byte(text+"(check-sat)\n"), 0644)
	}
	s.cache.mu.Lock()
	s.cache.m[key] = qres{res, model}
	s.cache.mu.Unlock()
	return res, model
}

func (s *Solver) solve(text string, ins []*Var, nonl, ints, full bool) (Res, map[*Var]float64) {
	var gv strings.Builder
	if len(ins) > 0 {
		gv.WriteString("(get-value (")
		for _, v := range ins {
			fmt.Fprintf(&gv, "v%d ", v.ID)
		}
		gv.WriteString("))")
	}
	slow := s.slow
	if full {
		slow *= 4
	}
	fast := s.fast
	if !nonl {
		fast = slow
	}
	r, m := s.run(s.z3, "", "(check-sat)", text, gv.String(), ins, fast)
	if r != Unknown || !nonl {
		return r, m
	}
	// race nlsat, cvc5 and the default solver
	type rr struct {
		r Res
		m map[*Var]float64
	}
	ch := make(chan rr, 3)
	n := 0
	launch := func(p *Proc, pre, chk string) {
		n++
		go func() {
			r, m := s.run(p, pre, chk, text, gv.String(), ins, slow)
			ch <- rr{r, m}
		}()
	}
	if !ints {
		launch(s.nl, "", "(check-sat-using qfnra-nlsat)")
	}
	launch(s.z3, "", "(check-sat)")
	if full || ints {
		logic := "(set-logic QF_NRA)"
		if ints {
			logic = "(set-logic QF_NIRA)"
		}
		launch(s.cvc, logic, "(check-sat)")
	}
	out := rr{Unknown, nil}
	for i := 0; i < n; i++ {
		x := <-ch
		if x.r != Unknown && out.r == Unknown {
			out = x
			// stop the others
			for _, p := range []*Proc{s.nl, s.z3, s.cvc} {
				p.mu.Lock()
				if p.cmd != nil && p.cmd.Process != nil && i < n-1 {
					p.cmd.Process.Kill()
				}
				p.mu.Unlock()
			}
		}
	}
	if n > 1 {
		for _, p := range []*Proc{s.nl, s.z3, s.cvc} {
			p.kill()
		}
	}
	return out.r, out.m
}

func (s *Solver) run(p *Proc, pre, chk, text, gv string, ins []*Var, to time.Duration) (Res, map[*Var]float64) {
	ms := int(to / time.Millisecond)
	var head string
	isCvc := strings.Contains(p.args[0], "cvc5")
	if isCvc {
		head = "(reset)\n(set-option :produce-models true)\n(set-option :tlimit-per " + strconv.Itoa(ms) + ")\n" + pre + "\n"
	} else {
		head = "(reset)\n(set-option :timeout " + strconv.Itoa(ms) + ")\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n" + pre + "\n"
	}
	lines, err := p.ask(head+text+chk, to*2+time.Second)
	if err != nil {
		return Unknown, nil
	}
	res := Unknown
	for _, l := range lines {
		if strings.HasPrefix(l, "(error") {
			if os.Getenv("VENGINE_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "SOLVER", l)
				os.WriteFile("/tmp/vengine_err.smt2", []byte(head+text+chk), 0644)
			}
			return Unknown, nil
		}
		switch strings.TrimSpace(l) {
		case "sat":
			res = Sat
		case "unsat":
			res = Unsat
		}
	}
	if res != Sat {
		return res, nil
	}
	model := map[*Var]float64{}
	if gv == "" {
		return Sat, model
	}
	lines, err = p.ask(gv, 5*time.Second)
	if err != nil {
		return Sat, nil
	}
	parseModel(strings.Join(lines, " "), ins, model)
	return Sat, model
}

// parseModel reads ((v1 val) (v2 val) ...).
func parseModel(s string, ins []*Var, m map[*Var]float64) {
	by := map[string]*Var{}
	for _, v := range ins {
		by["v"+strconv.Itoa(v.ID)] = v
	}
	toks := tokenize(s)
	i := 0
	var parse func() interface{}
	parse = func() interface{} {
		if i >= len(toks) {
			return nil
		}
		t := toks[i]
		i++
		if t == "(" {
			var l []interface{}
			for i < len(toks) && toks[i] != ")" {
				l = append(l, parse())
			}
			i++
			return l
		}
		return t
	}
	top, _ := parse().([]interface{})
	for _, e := range top {
		pr, ok := e.([]interface{})
		if !ok || len(pr) != 2 {
			continue
		}
		n, _ := pr[0].(string)
		if v := by[n]; v != nil {
			if f, ok := smtNum(pr[1]); ok {
				m[v] = f
			}
		}
	}
}

func tokenize(s string) []string {
	s = strings.ReplaceAll(s, "(", " ( ")
	s = strings.ReplaceAll(s, ")", " ) ")
	return strings.Fields(s)
}

func smtNum(x interface{}) (float64, bool) {
	switch t := x.(type) {
	case string:
		t = strings.TrimSuffix(t, "?")
		r, ok := new(big.Rat).SetString(t)
		if !ok {
			return 0, false
		}
		f, _ := r.Float64()
		return f, true
	case []interface{}:
		if len(t) == 0 {
			return 0, false
		}
		op, _ := t[0].(string)
		switch op {
		case "-":
			if len(t) == 2 {
				a, ok := smtNum(t[1])
				return -a, ok
			}
		case "/":
			if len(t) == 3 {
				a, ok1 := smtNum(t[1])
				b, ok2 := smtNum(t[2])
				if ok1 && ok2 && b != 0 {
					// exact when both are plain numerals
					if sa, ok := t[1].(string); ok {
						if sb, ok := t[2].(string); ok {
							ra, o1 := new(big.Rat).SetString(sa)
							rb, o2 := new(big.Rat).SetString(sb)
							if o1 && o2 && rb.Sign() != 0 {
								f, _ := new(big.Rat).Quo(ra, rb).Float64()
								return f, true
							}
						}
					}
					return a / b, true
				}
			}
		case "to_real":
			return smtNum(t[1])
		}
	}
	return math.NaN(), false
}
