package main

import (
	"fmt"
	"go/token"
	"math"
	"math/big"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Decision is one resolved choice of a path.
type Decision struct {
	kind   byte // 'b' branch, 'c' choose, 'k' concretize, 'm' merge outcome
	id     int
	val    int64
	forced bool
}

type Task struct {
	prefix []Decision
	wit    map[*Var]float64
}

// Obligation is one assertion site of a harness.
type Obligation struct {
	Label                    string
	Checked, Proved, Unknown int64
	Candidates, Unreproduced int64
	Trivial                  int64
	example                  string
}

type Candidate struct {
	Harness string
	Label   string
	Model   map[*Var]float64
	Names   map[string]float64
	Msg     string
	pc      []*Bool
	neg     *Bool
	path    []Decision
}

type PathSample struct {
	names map[string]float64
	obs   []obsV
	env   map[*Var]float64
	outc  string
}

type obsV struct {
	label string
	v     Value
}

// Run explores one harness function.
type Run struct {
	eng   *Engine
	h     *Harness
	ctx   *Ctx
	qc    *QCache
	stats Stats

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []Task
	active   int
	stop     bool
	deadline time.Time

	paths, okPaths, infeasible, cutPaths int64
	decisions, forced, steps             int64
	merges                               int64
	maxDepth                             int64
	undecided                            map[string]int
	ends                                 map[string]int
	obls                                 map[string]*Obligation
	covers                               map[string]int
	cands                                []*Candidate
	candBy                               map[string]int
	samples                              []*PathSample
	timedOut                             bool
	funcs                                sync.Map
	decRec                               map[string]int
	onCand                               func(r *Run, c *Candidate) bool
}

type mergeAbort struct{ why string }

type subState struct {
	conds  []*Bool
	pcSet  map[*Bool]bool
	prefix []bool
	pos    int
	trail  []bool
	forced []bool
	todo   [][]bool
	n      int
	parent *subState
	fr     *Frame
}

type Machine struct {
	eng     *Engine
	run     *Run
	ctx     *Ctx
	sol     *Solver
	globals map[*ssa.Global]*Value
	cur     *Gor
	gors    []*Gor
	live    sync.WaitGroup
	dead    bool
	outcome interface{}
	shadow  map[*Value]*shadow

	steps    int64
	maxSteps int64
	noMerge  int
	multi    bool
	quiet    bool
	sched    bool
	preempt  int
	mapOrder bool
	noise    bool
	noiseAdd bool

	prefix []Decision
	pos    int
	trail  []Decision
	pc     []*Bool
	pcSet  map[*Bool]bool
	wit    map[*Var]float64
	env    *Env
	sub    *subState

	obs      []obsV
	inputs   map[string]*Var
	fs       *memFS
	ph       []phEntry
	cpu      int64
	nfresh   int
	covers   []string
	known    string
	natives  map[string]interface{}
	exited   *targetExit
	skipInit *ssa.Function
	nonneg   map[*Poly]bool
	bounds   map[*Poly]*bound
	syncs    map[*Value]*syncObj
}

func (r *Run) newMachine(t Task, sol *Solver) *Machine {
	m := &Machine{eng: r.eng, run: r, ctx: r.ctx, sol: sol, globals: map[*ssa.Global]*Value{}, maxSteps: r.h.steps,
		prefix: t.prefix, pcSet: map[*Bool]bool{}, wit: t.wit, inputs: map[string]*Var{}, fs: newMemFS(), cpu: 4,
		natives: map[string]interface{}{}}
	for g, p := range r.eng.stdGlobals {
		m.globals[g] = p
	}
	m.sched = r.h.sched
	m.preempt = r.h.preempt
	m.mapOrder = r.h.mapOrder
	m.noise = r.h.noise
	g := &Gor{id: 0, wake: make(chan struct{})}
	m.gors = []*Gor{g}
	m.cur = g
	if m.wit == nil && len(t.prefix) == 0 {
		m.wit = map[*Var]float64{}
	}
	if m.wit != nil {
		m.env = NewEnv(m.wit)
	}
	return m
}

func (m *Machine) setWit(w map[*Var]float64) {
	m.wit = w
	if w == nil {
		m.env = nil
	} else {
		m.env = NewEnv(w)
	}
}

// overlay returns base overwritten by model.
func overlay(base, model map[*Var]float64) map[*Var]float64 {
	if model == nil {
		return nil
	}
	n := make(map[*Var]float64, len(base)+len(model))
	for k, v := range base {
		n[k] = v
	}
	for k, v := range model {
		n[k] = v
	}
	return n
}

func (m *Machine) addPC(b *Bool) {
	if b == m.ctx.True || m.pcSet[b] {
		return
	}
	if b.op == '&' {
		for _, x := range b.args {
			m.addPC(x)
		}
		return
	}
	m.pcSet[b] = true
	m.pc = append(m.pc, b)
	if b.op == 'a' {
		m.noteBound(b)
	}
}

// bound is what the path condition says about a polynomial without its constant.
type bound struct {
	lo, hi   *big.Rat // nil: none
	lox, hix bool     // excluded
}

// split writes p as k*q + c with q without constant term and leading coefficient 1.
func (c *Ctx) split(p *Poly) (q *Poly, k, ct *big.Rat) {
	ct = p.constTerm()
	q = p
	if ct.Sign() != 0 {
		q = c.Sub(p, c.Const(ct))
	}
	k = q.lead()
	if k.Cmp(big1) != 0 {
		q = c.Scale(q, new(big.Rat).Inv(k))
	}
	return
}

func (m *Machine) noteBound(b *Bool) {
	if b.p.IsConst() {
		return
	}
	q, k, ct := m.ctx.split(b.p)
	v := new(big.Rat).Quo(new(big.Rat).Neg(ct), k)
	if m.bounds == nil {
		m.bounds = map[*Poly]*bound{}
	}
	bd := m.bounds[q]
	if bd == nil {
		bd = &bound{}
		m.bounds[q] = bd
	}
	up := func(x bool) {
		if bd.hi == nil || v.Cmp(bd.hi) < 0 || v.Cmp(bd.hi) == 0 && x {
			bd.hi, bd.hix = v, x
		}
	}
	down := func(x bool) {
		if bd.lo == nil || v.Cmp(bd.lo) > 0 || v.Cmp(bd.lo) == 0 && x {
			bd.lo, bd.lox = v, x
		}
	}
	switch {
	case b.rel == '=':
		up(false)
		down(false)
	case k.Sign() > 0:
		up(b.rel == '<')
	default:
		down(b.rel == '<')
	}
}

// byBound decides an atom from the bounds of its polynomial.
func (m *Machine) byBound(b *Bool) int {
	if len(m.bounds) == 0 || b.p.IsConst() {
		return 0
	}
	q, k, ct := m.ctx.split(b.p)
	bd := m.bounds[q]
	if bd == nil {
		return 0
	}
	v := new(big.Rat).Quo(new(big.Rat).Neg(ct), k)
	// q compared with v
	below, belowEq, above, aboveEq := false, false, false, false
	if bd.hi != nil {
		d := bd.hi.Cmp(v)
		below = d < 0 || d == 0 && bd.hix
		belowEq = d <= 0
	}
	if bd.lo != nil {
		d := bd.lo.Cmp(v)
		above = d > 0 || d == 0 && bd.lox
		aboveEq = d >= 0
	}
	if b.rel == '=' {
		if below || above {
			return -1
		}
		if belowEq && aboveEq {
			return 1
		}
		return 0
	}
	if k.Sign() < 0 {
		below, belowEq, above, aboveEq = above, aboveEq, below, belowEq
	}
	if b.rel == '<' {
		if below {
			return 1
		}
		if aboveEq {
			return -1
		}
	} else {
		if belowEq {
			return 1
		}
		if above {
			return -1
		}
	}
	return 0
}

// known truth of b from the path condition, syntactically.
func (m *Machine) synt(b *Bool) int {
	if b == m.ctx.True {
		return 1
	}
	if b == m.ctx.False {
		return -1
	}
	if m.hasPC(b) {
		return 1
	}
	if m.hasPC(m.ctx.Not(b)) {
		return -1
	}
	switch b.op {
	case '&':
		r := 1
		for _, x := range b.args {
			if y := m.synt(x); y < r {
				r = y
			}
		}
		return r
	case '|':
		r := -1
		for _, x := range b.args {
			if y := m.synt(x); y > r {
				r = y
			}
		}
		return r
	case 'a':
		c := m.ctx
		switch b.rel {
		case '<':
			if m.nonneg[c.unit(b.p)] {
				return -1
			}
		case 'l':
			if m.nonneg[c.unit(c.Neg(b.p))] {
				return 1
			}
		}
		if r := m.byBound(b); r != 0 {
			return r
		}
		lt, eq, le := c.rawAtomQ(b.p, '<'), c.rawAtomQ(b.p, '='), c.rawAtomQ(b.p, 'l')
		np := c.Neg(b.p)
		gt, ge := c.rawAtomQ(np, '<'), c.rawAtomQ(np, 'l')
		eq2 := c.rawAtomQ(np, '=')
		has := func(x *Bool) bool { return x != nil && m.hasPC(x) }
		isEq := has(eq) || has(eq2)
		switch b.rel {
		case '<':
			if has(ge) || has(gt) || isEq {
				return -1
			}
		case 'l':
			if has(lt) || isEq {
				return 1
			}
			if has(gt) {
				return -1
			}
		case '=':
			if has(lt) || has(gt) {
				return -1
			}
			if has(le) && has(ge) {
				return 1
			}
		}
	}
	return 0
}

// noteSign remembers squares and sums of squares seen on this path.
func (m *Machine) noteSign(op token.Token, a, b, r *Poly) {
	ok := false
	nn := func(p *Poly) bool { return p.lo >= 0 || m.nonneg[m.ctx.unit(p)] }
	switch op {
	case token.MUL:
		ok = a == b || (nn(a) && nn(b))
	case token.ADD:
		ok = nn(a) && nn(b)
	case token.QUO:
		ok = nn(a) && b.lo > 0
	}
	if ok && r.lo < 0 {
		if m.nonneg == nil {
			m.nonneg = map[*Poly]bool{}
		}
		m.nonneg[m.ctx.unit(r)] = true
	}
}

// rawAtomQ looks an atom up without creating it.
func (c *Ctx) rawAtomQ(p *Poly, rel byte) *Bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.bools[fmt.Sprintf("a%c%d", rel, p.ID)]
}

func (m *Machine) hasPC(b *Bool) bool {
	if m.pcSet[b] {
		return true
	}
	for s := m.sub; s != nil; s = s.parent {
		if s.pcSet[b] {
			return true
		}
	}
	return false
}

func (m *Machine) allPC() []*Bool {
	if m.sub == nil {
		return m.pc
	}
	out := append([]*Bool{}, m.pc...)
	for s := m.sub; s != nil; s = s.parent {
		out = append(out, s.conds...)
	}
	return out
}

// feasible asks whether b can hold together with the path condition.
func (m *Machine) feasible(b *Bool) (Res, map[*Var]float64) {
	pc := m.allPC()
	cs := append(m.sol.slice(pc, b), b)
	return m.sol.Check(cs, false)
}

func (m *Machine) branch(b *Bool) bool {
	switch m.synt(b) {
	case 1:
		return true
	case -1:
		return false
	}
	if m.sub != nil {
		return m.subBranch(b)
	}
	nb := m.ctx.Not(b)
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		if d.kind != 'b' || d.id != b.ID {
			panic(unsupported{fmt.Sprintf("replay divergence (decision %d)", m.pos-1)})
		}
		m.trail = append(m.trail, d)
		if d.val == 1 {
			m.addPC(b)
			return true
		}
		m.addPC(nb)
		return false
	}
	m.checkTime()
	atomic.AddInt64(&m.run.decisions, 1)
	// which side does the witness take?
	w := 0
	if m.env != nil {
		w = m.env.Robust(b)
		if w != 0 {
			atomic.AddInt64(&m.run.stats.WitnessHits, 1)
		}
	}
	take := true
	var other *Bool
	forced := false
	switch {
	case w > 0:
		take, other = true, nb
	case w < 0:
		take, other = false, b
	default:
		r, mod := m.feasible(b)
		if r == Unsat {
			take, forced = false, true
			m.setWit(m.wit)
		} else {
			r2, mod2 := m.feasible(nb)
			if r2 == Unsat {
				take, forced = true, true
				if r == Sat && m.wit == nil {
					m.setWit(nil)
				}
			} else {
				// both possible: continue with the true side, queue the other
				m.push(Decision{'b', b.ID, 0, false}, r2, mod2)
				take = true
				if r == Sat {
					m.setWit(overlay(m.wit, mod))
				} else {
					m.setWit(nil)
				}
			}
		}
	}
	if other != nil {
		r, mod := m.feasible(other)
		if r == Unsat {
			forced = true
		} else {
			v := int64(0)
			if !take {
				v = 1
			}
			m.push(Decision{'b', b.ID, v, false}, r, mod)
		}
	}
	v := int64(0)
	if take {
		v = 1
	}
	if forced {
		atomic.AddInt64(&m.run.forced, 1)
	}
	m.trail = append(m.trail, Decision{'b', b.ID, v, forced})
	m.pos = len(m.trail)
	m.prefix = m.trail
	if take {
		m.addPC(b)
	} else {
		m.addPC(nb)
	}
	return take
}

func (m *Machine) push(d Decision, r Res, mod map[*Var]float64) {
	p := make([]Decision, len(m.trail)+1)
	copy(p, m.trail)
	p[len(m.trail)] = d
	var w map[*Var]float64
	if r == Sat && mod != nil {
		w = overlay(m.wit, mod)
	}
	m.run.enqueue(Task{p, w})
}

func (m *Machine) choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	if m.sub != nil {
		panic(mergeAbort{"choice"})
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		if d.kind != 'c' || d.id != n {
			panic(unsupported{"replay divergence (choice)"})
		}
		m.trail = append(m.trail, d)
		return int(d.val)
	}
	m.checkTime()
	atomic.AddInt64(&m.run.decisions, 1)
	for k := n - 1; k >= 1; k-- {
		p := make([]Decision, len(m.trail)+1)
		copy(p, m.trail)
		p[len(m.trail)] = Decision{'c', n, int64(k), false}
		m.run.enqueue(Task{p, m.wit})
	}
	m.trail = append(m.trail, Decision{'c', n, 0, false})
	m.pos = len(m.trail)
	m.prefix = m.trail
	return 0
}

func (m *Machine) concretize(p *Poly) int64 {
	if p.IsConst() {
		return p.Rat().Num().Int64()
	}
	if m.sub != nil {
		panic(mergeAbort{"concretisation"})
	}
	for i := 0; i < m.run.h.maxConc; i++ {
		var k int64
		if m.pos < len(m.prefix) {
			d := m.prefix[m.pos]
			if d.kind != 'k' || d.id != p.ID {
				panic(unsupported{"replay divergence (value)"})
			}
			m.pos++
			m.trail = append(m.trail, d)
			k = d.val
		} else {
			got := false
			if m.env != nil {
				f := m.env.Poly(p)
				k = int64(math.Round(f))
				got = !math.IsNaN(f) && m.synt(m.ctx.Atom(m.ctx.Sub(p, m.ctx.ConstI(k)), '=')) >= 0
			}
			if !got {
				// any value consistent with the path
				lo := int64(math.Max(math.Ceil(p.lo), -1e6))
				hi := int64(math.Min(math.Floor(p.hi), 1e6))
				for x := lo; x <= hi; x++ {
					a := m.ctx.Atom(m.ctx.Sub(p, m.ctx.ConstI(x)), '=')
					if m.synt(a) < 0 {
						continue
					}
					if r, _ := m.feasible(a); r != Unsat {
						k, got = x, true
						break
					}
				}
				if !got {
					panic(pathEnd{"infeasible"})
				}
			}
			m.trail = append(m.trail, Decision{'k', p.ID, k, false})
			m.pos = len(m.trail)
			m.prefix = m.trail
		}
		if m.branch(m.ctx.Atom(m.ctx.Sub(p, m.ctx.ConstI(k)), '=')) {
			return k
		}
	}
	m.undecided("bound: more than " + fmt.Sprint(m.run.h.maxConc) + " values of an integer")
	panic(pathEnd{"bound: values of an integer"})
}

func (m *Machine) undecided(why string) {
	m.run.mu.Lock()
	m.run.undecided[why]++
	m.run.mu.Unlock()
}

func (m *Machine) checkTime() {
	if m.run.stop || time.Now().After(m.run.deadline) {
		m.run.mu.Lock()
		if !m.run.stop {
			m.run.timedOut = true
			m.run.stop = true
			m.run.cond.Broadcast()
		}
		m.run.mu.Unlock()
		panic(pathEnd{"time"})
	}
}

func (m *Machine) assume(b *Bool) {
	switch m.synt(b) {
	case 1:
		return
	case -1:
		panic(pathEnd{"assume"})
	}
	if m.sub != nil {
		panic(mergeAbort{"assume"})
	}
	if m.pos < len(m.prefix) {
		// still replaying: the prefix was feasible with this assumption
		m.addPC(b)
		return
	}
	if m.env != nil && m.env.Robust(b) > 0 {
		m.addPC(b)
		return
	}
	r, mod := m.feasible(b)
	switch r {
	case Unsat:
		panic(pathEnd{"assume"})
	case Sat:
		m.setWit(overlay(m.wit, mod))
	default:
		m.setWit(nil)
	}
	m.addPC(b)
}

func (r *Run) obl(label string) *Obligation {
	r.mu.Lock()
	defer r.mu.Unlock()
	o := r.obls[label]
	if o == nil {
		o = &Obligation{Label: label}
		r.obls[label] = o
	}
	return o
}

func (m *Machine) assert(v Value, label string) {
	o := m.run.obl(label)
	b := m.asBool(v)
	if m.sub != nil {
		panic(mergeAbort{"assert"})
	}
	atomic.AddInt64(&o.Checked, 1)
	if b == m.ctx.True {
		atomic.AddInt64(&o.Proved, 1)
		atomic.AddInt64(&o.Trivial, 1)
		return
	}
	replaying := m.pos < len(m.prefix)
	if replaying {
		// decided by the path that queued this prefix
		atomic.AddInt64(&o.Checked, -1)
		if b != m.ctx.False {
			m.addPC(b)
			return
		}
	}
	if m.synt(b) > 0 {
		atomic.AddInt64(&o.Proved, 1)
		return
	}
	nb := m.ctx.Not(b)
	if b == m.ctx.False || m.synt(b) < 0 {
		m.violation(label, nb, "")
		panic(pathEnd{"assertion failed"})
	}
	// conjunctions are decided one by one
	parts := []*Bool{b}
	if b.op == '&' {
		parts = b.args
	}
	unk, bad := false, false
	if len(parts) > 2 {
		// a linear conjunction is decided at once
		nb := m.ctx.Not(b)
		cs := append(m.sol.slice(m.pc, nb), nb)
		if m.sol.linear(cs) {
			r, _ := m.sol.Check(cs, true)
			if r == Unsat {
				parts = nil
			}
		}
	}
	for _, x := range parts {
		nx := m.ctx.Not(x)
		if m.synt(x) > 0 {
			continue
		}
		m.checkTime()
		cs := append(m.sol.slice(m.pc, nx), nx)
		r, mod := m.sol.Check(cs, true)
		switch r {
		case Unsat:
		case Sat:
			m.candidate(label, nx, overlay(m.wit, mod), "")
			bad = true
		default:
			unk = true
			if m.env != nil && m.env.Robust(nx) > 0 {
				m.candidate(label, nx, m.wit, "")
			}
		}
	}
	if unk && !bad {
		atomic.AddInt64(&o.Unknown, 1)
		m.run.mu.Lock()
		if o.example == "" {
			o.example = b.String()
			if len(o.example) > 300 {
				o.example = o.example[:300]
			}
		}
		m.run.mu.Unlock()
	}
	if !unk && !bad {
		atomic.AddInt64(&o.Proved, 1)
	}
	// continue under the assertion
	if m.env == nil || m.env.Robust(b) <= 0 {
		r, mod := m.feasible(b)
		if r == Unsat {
			panic(pathEnd{"assertion failed"})
		}
		if r == Sat {
			m.setWit(overlay(m.wit, mod))
		} else {
			m.setWit(nil)
		}
	}
	m.addPC(b)
}

// violation: the current path as a whole violates the property.
func (m *Machine) violation(label string, neg *Bool, msg string) {
	wit := m.wit
	if wit == nil {
		r, mod := m.sol.Check(m.pc, true)
		if r == Unsat {
			return
		}
		if r == Sat {
			wit = mod
		}
	}
	if wit == nil {
		o := m.run.obl(label)
		atomic.AddInt64(&o.Unknown, 1)
		return
	}
	m.candidate(label, neg, wit, msg)
}

func (m *Machine) candidate(label string, neg *Bool, wit map[*Var]float64, msg string) {
	o := m.run.obl(label)
	atomic.AddInt64(&o.Candidates, 1)
	c := &Candidate{Harness: m.run.h.Name, Label: label, Model: wit, Msg: msg, neg: neg, pc: append([]*Bool{}, m.pc...), path: append([]Decision{}, m.trail...)}
	c.Names = m.named(wit)
	r := m.run
	r.mu.Lock()
	r.candBy[label]++
	n := r.candBy[label]
	r.mu.Unlock()
	if n > r.h.maxCand {
		atomic.AddInt64(&o.Unreproduced, 1)
		return
	}
	if r.onCand != nil {
		// candidates with a larger margin are easier to reproduce
		if r.onCand(r, c) {
			r.mu.Lock()
			r.cands = append(r.cands, c)
			r.stop = true
			r.cond.Broadcast()
			r.mu.Unlock()
			panic(pathEnd{"violation confirmed"})
		}
		for _, delta := range []float64{1e-4, 1e-2, 0.3, 3} {
			if neg == nil || neg == m.ctx.True {
				break
			}
			sn := m.ctx.strengthen(neg, delta)
			if sn == m.ctx.False {
				break
			}
			cs := append(m.sol.slice(m.pc, sn), sn)
			rr, mod := m.sol.Check(cs, true)
			if rr != Sat {
				break
			}
			c2 := *c
			c2.Model = overlay(wit, mod)
			c2.Names = m.named(c2.Model)
			if r.onCand(r, &c2) {
				r.mu.Lock()
				r.cands = append(r.cands, &c2)
				r.stop = true
				r.cond.Broadcast()
				r.mu.Unlock()
				panic(pathEnd{"violation confirmed"})
			}
		}
	}
	atomic.AddInt64(&o.Unreproduced, 1)
	r.mu.Lock()
	if len(r.cands) < 40 {
		r.cands = append(r.cands, c)
	}
	r.mu.Unlock()
}

// strengthen moves every inequality by delta so that it holds with a margin.
func (c *Ctx) strengthen(b *Bool, d float64) *Bool {
	switch b.op {
	case 'a':
		if b.rel == '=' {
			return b
		}
		return c.Atom(c.Add(b.p, c.ConstF(d)), b.rel)
	case '&', '|':
		var a []*Bool
		for _, x := range b.args {
			a = append(a, c.strengthen(x, d))
		}
		return c.nary(b.op, a)
	case '!':
		x := b.args[0]
		if x.op == 'a' && x.rel == '=' {
			dp := c.ConstF(d)
			return c.Or(c.Atom(c.Add(x.p, dp), '<'), c.Atom(c.Sub(dp, x.p), '<'))
		}
	}
	return b
}

func (m *Machine) named(w map[*Var]float64) map[string]float64 {
	n := map[string]float64{}
	e := NewEnv(w)
	for k, v := range m.inputs {
		n[k] = e.Var(v)
	}
	// decisions that are not inputs but native replays need
	return n
}

// ---- merging of pure functions ----

const maxSub = 24

func (m *Machine) callMerged(caller *Frame, fn *ssa.Function, fi *fnInfo, args []Value, env []Value) (res Value, ok bool) {
	s := &subState{parent: m.sub, pcSet: map[*Bool]bool{}}
	s.todo = [][]bool{nil}
	type outc struct {
		cond *Bool
		v    Value
	}
	var outs []outc
	saved := m.sub
	steps0 := m.steps
	defer func() { m.sub = saved }()
	for len(s.todo) > 0 {
		if len(outs) >= maxSub {
			m.sub = saved
			m.steps = steps0
			return nil, false
		}
		s.prefix = s.todo[len(s.todo)-1]
		s.todo = s.todo[:len(s.todo)-1]
		s.pos = 0
		s.trail = nil
		s.conds = nil
		s.pcSet = map[*Bool]bool{}
		m.sub = s
		v, good := m.trySub(caller, fn, fi, args, env)
		m.sub = saved
		if !good {
			m.steps = steps0
			return nil, false
		}
		outs = append(outs, outc{m.ctx.And(s.conds...), v})
	}
	if len(outs) == 1 {
		return outs[0].v, true
	}
	v := outs[len(outs)-1].v
	for i := len(outs) - 2; i >= 0; i-- {
		nv, good := m.iteVal(outs[i].cond, outs[i].v, v, fn)
		if !good {
			return nil, false
		}
		v = nv
	}
	atomic.AddInt64(&m.run.merges, 1)
	return v, true
}

func (m *Machine) trySub(caller *Frame, fn *ssa.Function, fi *fnInfo, args, env []Value) (v Value, good bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case mergeAbort, targetPanic, unsupported, targetExit:
				good = false
				return
			}
			panic(r)
		}
	}()
	a := make([]Value, len(args))
	for i := range args {
		a[i] = copyVal(args[i])
	}
	v = m.exec(caller, fn, fi, a, env)
	return v, mergeableVal(v)
}

func mergeableVal(v Value) bool {
	switch v := v.(type) {
	case float64:
		return !math.IsNaN(v) && !math.IsInf(v, 0)
	case int64, uint64, bool, *Poly, *Bool:
		return true
	case Struct:
		for _, x := range v {
			if !mergeableVal(x) {
				return false
			}
		}
		return true
	case Tuple:
		for _, x := range v {
			if !mergeableVal(x) {
				return false
			}
		}
		return true
	}
	return false
}

func (m *Machine) iteVal(c *Bool, a, b Value, fn *ssa.Function) (Value, bool) {
	switch x := a.(type) {
	case Struct:
		y := b.(Struct)
		n := make(Struct, len(x))
		for i := range x {
			v, ok := m.iteVal(c, x[i], y[i], fn)
			if !ok {
				return nil, false
			}
			n[i] = v
		}
		return n, true
	case Tuple:
		y := b.(Tuple)
		n := make(Tuple, len(x))
		for i := range x {
			v, ok := m.iteVal(c, x[i], y[i], fn)
			if !ok {
				return nil, false
			}
			n[i] = v
		}
		return n, true
	case bool, *Bool:
		return m.boolV(m.ctx.IteB(c, m.asBool(a), m.asBool(b))), true
	case uint64:
		if y, ok := b.(uint64); ok && x == y {
			return a, true
		}
	case int64:
		if y, ok := b.(int64); ok && x == y {
			return a, true
		}
	case float64:
		if y, ok := b.(float64); ok && x == y {
			return a, true
		}
	}
	p, ok1 := m.poly(a)
	q, ok2 := m.poly(b)
	if !ok1 || !ok2 {
		return nil, false
	}
	return m.ctx.Ite(c, p, q), true
}

func (m *Machine) subBranch(b *Bool) bool {
	s := m.sub
	c := m.ctx
	nb := c.Not(b)
	add := func(x *Bool) {
		s.conds = append(s.conds, x)
		s.pcSet[x] = true
		if x.op == '&' {
			for _, y := range x.args {
				s.pcSet[y] = true
			}
		}
	}
	if s.pos < len(s.prefix) {
		v := s.prefix[s.pos]
		s.pos++
		s.trail = append(s.trail, v)
		if v {
			add(b)
		} else {
			add(nb)
		}
		return v
	}
	m.checkTime()
	s.n++
	if s.n > 200 {
		panic(mergeAbort{"too many branches"})
	}
	w := 0
	if m.env != nil {
		w = m.env.Robust(b)
		for q := s; q != nil && w != 0; q = q.parent {
			for _, x := range q.conds {
				if m.env.Robust(x) <= 0 {
					w = 0
					break
				}
			}
		}
	}
	ft, ff := true, true
	if w <= 0 {
		if r, _ := m.feasible(b); r == Unsat {
			ft = false
		}
	}
	if w >= 0 && ft {
		if r, _ := m.feasible(nb); r == Unsat {
			ff = false
		}
	}
	take := ft
	if ft && ff {
		alt := append(append([]bool{}, s.trail...), false)
		s.todo = append(s.todo, alt)
	}
	s.trail = append(s.trail, take)
	s.pos = len(s.trail)
	s.prefix = s.trail
	if ft != ff {
		// implied: no condition needed, but remember it
		if take {
			s.pcSet[b] = true
		} else {
			s.pcSet[nb] = true
		}
		return take
	}
	add(b)
	return true
}

// ---- queue ----

func (r *Run) enqueue(t Task) {
	r.mu.Lock()
	r.queue = append(r.queue, t)
	r.cond.Signal()
	r.mu.Unlock()
}

func (r *Run) next() (Task, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stop {
			return Task{}, false
		}
		if len(r.queue) > 0 {
			t := r.queue[len(r.queue)-1]
			r.queue = r.queue[:len(r.queue)-1]
			r.active++
			return t, true
		}
		if r.active == 0 {
			r.cond.Broadcast()
			return Task{}, false
		}
		r.cond.Wait()
	}
}

func (r *Run) doneTask() {
	r.mu.Lock()
	r.active--
	if r.active == 0 {
		r.cond.Broadcast()
	}
	r.mu.Unlock()
}

func (r *Run) Explore(workers int) {
	r.cond = sync.NewCond(&r.mu)
	r.queue = []Task{{}}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sol := NewSolver(r.ctx, &r.stats, r.qc)
			defer sol.Close()
			for {
				t, ok := r.next()
				if !ok {
					return
				}
				r.runPath(t, sol)
				r.doneTask()
			}
		}()
	}
	wg.Wait()
}

func (r *Run) runPath(t Task, sol *Solver) {
	m := r.newMachine(t, sol)
	atomic.AddInt64(&r.paths, 1)
	if r.paths > r.h.maxPaths {
		r.mu.Lock()
		if !r.stop {
			r.undecided[fmt.Sprintf("bound: more than %d paths", r.h.maxPaths)]++
			r.stop = true
			r.cond.Broadcast()
		}
		r.mu.Unlock()
		return
	}
	end := m.runTop()
	m.killAll()
	atomic.AddInt64(&r.steps, m.steps)
	r.mu.Lock()
	defer r.mu.Unlock()
	if int64(len(m.trail)) > r.maxDepth {
		r.maxDepth = int64(len(m.trail))
	}
	r.ends[end]++
	if end == "ok" {
		for _, c := range m.covers {
			r.covers[c]++
		}
		r.okPaths++
		if m.wit != nil && (len(r.samples) < 4 || (len(r.samples) < 64 && r.okPaths%int64(1+len(r.samples)*len(r.samples)) == 0)) {
			r.samples = append(r.samples, &PathSample{names: m.named(m.wit), obs: m.obs, env: m.wit})
		}
	} else if strings.HasPrefix(end, "bound") || strings.HasPrefix(end, "unsupported") {
		r.undecided[end]++
	}
}

func (m *Machine) runTop() (end string) {
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		end = m.classify(x)
	}()
	m.initGlobals()
	m.callSSA(nil, m.run.h.fn, nil, nil)
	return "ok"
}

func (m *Machine) classify(x interface{}) (end string) {
	defer func() {
		if y := recover(); y != nil {
			if p, ok := y.(pathEnd); ok {
				end = p.why
				return
			}
			panic(y)
		}
	}()
	m.sub = nil
	switch x := x.(type) {
	case pathEnd:
		if strings.HasPrefix(x.why, "bound: recursion") || (strings.HasPrefix(x.why, "bound: more than") && strings.HasSuffix(x.why, "steps")) {
			m.violation("terminates", nil, x.why)
		}
		return x.why
	case unsupported:
		return "unsupported: " + x.msg
	case targetPanic:
		label := "no panic"
		msg := x.msg + " at " + x.where
		if strings.Contains(x.msg, "data race") {
			label = "no data race"
		} else if strings.Contains(x.msg, "deadlock") {
			label = "no deadlock"
		}
		o := m.run.obl(label)
		atomic.AddInt64(&o.Checked, 1)
		m.violation(label, nil, msg)
		return "panic: " + msg
	case targetExit:
		if m.run.h.exitBad {
			m.violation("no exit", nil, x.msg)
		}
		return "exit"
	case mergeAbort:
		return "unsupported: merge abort " + x.why
	case killed:
		return "killed"
	}
	panic(x)
}

func (m *Machine) fresh(prefix string) string {
	m.nfresh++
	return fmt.Sprintf("%s#%d", prefix, m.nfresh)
}

func (r *Run) sortedObls() []*Obligation {
	var o []*Obligation
	for _, x := range r.obls {
		o = append(o, x)
	}
	sort.Slice(o, func(i, j int) bool { return o[i].Label < o[j].Label })
	return o
}
