package main

// Symbolic terms: polynomials over variables with exact rational
// coefficients, variables with definitions (quotients, roots, floors,
// conditionals ...), and boolean formulas over polynomial atoms.
// Everything is hash-consed per Ctx.

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type VKind int

const (
	KInput VKind = iota
	KDiv
	KInv
	KSqrt
	KFloor
	KIte
	KCos
	KSin
	KAcos
	KAtan
	KF32
	KDec
	KAlias
	KOpaque
	KNoise
	KFrac
)

type Var struct {
	ID     int
	Name   string
	Kind   VKind
	Int    bool // integral value
	A, B   *Poly
	C      *Bool
	N      int
	Lo, Hi float64
	eval   func(args []float64) float64
	args   []*Poly
	def    []*Bool
	defOK  bool
	mu     sync.Mutex
}

type VE struct {
	v *Var
	e int
}

type Mono struct {
	ID     int
	f      []VE
	deg    int
	lo, hi float64
}

type Term struct {
	m  *Mono
	c  *big.Rat
	cf float64
}

type Poly struct {
	ID     int
	t      []Term
	lo, hi float64
	vars   []*Var
	deg    int
	integ  bool
}

type Bool struct {
	ID   int
	op   byte // 'T','F','a' atom, '&','|','!','b' variable
	p    *Poly
	rel  byte // '<' '=' 'l'(<=)
	args []*Bool
	v    *Var // for 'b': 0/1 integer input
	vars []*Var
}

type Ctx struct {
	mu     sync.Mutex
	monos  map[string]*Mono
	mprod  map[[2]int]*Mono
	polys  map[string]*Poly
	bools  map[string]*Bool
	vars   map[string]*Var
	nvar   int
	one    *Mono
	zero   *Poly
	True   *Bool
	False  *Bool
	intg   sync.Map        // polynomials known to be integral although their parts are not
	assume map[string]bool // notes about approximations used
}

func NewCtx() *Ctx {
	c := &Ctx{monos: map[string]*Mono{}, mprod: map[[2]int]*Mono{}, polys: map[string]*Poly{},
		bools: map[string]*Bool{}, vars: map[string]*Var{}, assume: map[string]bool{}}
	c.one = &Mono{ID: 0, lo: 1, hi: 1}
	c.monos[""] = c.one
	c.zero = c.mkPoly(nil)
	c.True = &Bool{ID: 1, op: 'T'}
	c.False = &Bool{ID: 2, op: 'F'}
	c.bools["T"] = c.True
	c.bools["F"] = c.False
	c.bools["#"] = c.False
	return c
}

func (c *Ctx) note(s string) {
	c.mu.Lock()
	c.assume[s] = true
	c.mu.Unlock()
}

// ---- intervals (outward rounded) ----

func dn(x float64) float64 {
	if math.IsInf(x, 0) || x == 0 {
		return x
	}
	return math.Nextafter(x, math.Inf(-1))
}
func up(x float64) float64 {
	if math.IsInf(x, 0) || x == 0 {
		return x
	}
	return math.Nextafter(x, math.Inf(1))
}
func mul0(a, b float64) float64 {
	if a == 0 || b == 0 {
		return 0
	}
	return a * b
}
func ivMul(al, ah, bl, bh float64) (float64, float64) {
	p := [4]float64{mul0(al, bl), mul0(al, bh), mul0(ah, bl), mul0(ah, bh)}
	lo, hi := p[0], p[0]
	for _, x := range p[1:] {
		lo = math.Min(lo, x)
		hi = math.Max(hi, x)
	}
	if al == math.Trunc(al) && ah == math.Trunc(ah) && bl == math.Trunc(bl) && bh == math.Trunc(bh) && math.Abs(lo) < 1e15 && math.Abs(hi) < 1e15 {
		return lo, hi
	}
	return dn(lo), up(hi)
}
func ivPow(l, h float64, e int) (float64, float64) {
	if e == 1 {
		return l, h
	}
	if e%2 == 0 {
		m := math.Max(math.Abs(l), math.Abs(h))
		n := math.Min(math.Abs(l), math.Abs(h))
		if l <= 0 && h >= 0 {
			n = 0
		}
		a, b := math.Pow(n, float64(e)), math.Pow(m, float64(e))
		if math.IsInf(m, 0) {
			b = math.Inf(1)
		}
		return math.Max(0, dn(a)), up(b)
	}
	return dn(math.Pow(l, float64(e))), up(math.Pow(h, float64(e)))
}
func addInf(a, b float64) float64 { // a+b with opposite infinities impossible on the same side
	return a + b
}

// ---- construction ----

func (c *Ctx) mkVar(key, name string, k VKind, isInt bool, lo, hi float64, a, b *Poly, cd *Bool, n int) *Var {
	c.mu.Lock()
	defer c.mu.Unlock()
	if v, ok := c.vars[key]; ok {
		return v
	}
	c.nvar++
	v := &Var{ID: c.nvar, Name: name, Kind: k, Int: isInt, A: a, B: b, C: cd, N: n, Lo: lo, Hi: hi}
	if name == "" {
		v.Name = fmt.Sprintf("t%d", v.ID)
	}
	c.vars[key] = v
	return v
}

func (c *Ctx) mkMono(f []VE) *Mono {
	if len(f) == 0 {
		return c.one
	}
	var sb strings.Builder
	deg := 0
	for _, x := range f {
		sb.WriteString(strconv.Itoa(x.v.ID))
		sb.WriteByte('^')
		sb.WriteString(strconv.Itoa(x.e))
		sb.WriteByte(' ')
		deg += x.e
	}
	k := sb.String()
	c.mu.Lock()
	defer c.mu.Unlock()
	if m, ok := c.monos[k]; ok {
		return m
	}
	lo, hi := 1.0, 1.0
	for _, x := range f {
		l, h := ivPow(x.v.Lo, x.v.Hi, x.e)
		lo, hi = ivMul(lo, hi, l, h)
	}
	m := &Mono{ID: len(c.monos), f: f, deg: deg, lo: lo, hi: hi}
	c.monos[k] = m
	return m
}

func (c *Ctx) mulMono(a, b *Mono) *Mono {
	if a.deg == 0 {
		return b
	}
	if b.deg == 0 {
		return a
	}
	k := [2]int{a.ID, b.ID}
	if a.ID > b.ID {
		k = [2]int{b.ID, a.ID}
	}
	c.mu.Lock()
	if m, ok := c.mprod[k]; ok {
		c.mu.Unlock()
		return m
	}
	c.mu.Unlock()
	var f []VE
	i, j := 0, 0
	for i < len(a.f) || j < len(b.f) {
		switch {
		case j == len(b.f) || (i < len(a.f) && a.f[i].v.ID < b.f[j].v.ID):
			f = append(f, a.f[i])
			i++
		case i == len(a.f) || b.f[j].v.ID < a.f[i].v.ID:
			f = append(f, b.f[j])
			j++
		default:
			f = append(f, VE{a.f[i].v, a.f[i].e + b.f[j].e})
			i++
			j++
		}
	}
	m := c.mkMono(f)
	c.mu.Lock()
	c.mprod[k] = m
	c.mu.Unlock()
	return m
}

// mkPoly interns; t must be sorted by mono ID, no zero coefficients.
func (c *Ctx) mkPoly(t []Term) *Poly {
	var sb strings.Builder
	for _, x := range t {
		sb.WriteString(strconv.Itoa(x.m.ID))
		sb.WriteByte(':')
		sb.WriteString(x.c.RatString())
		sb.WriteByte(' ')
	}
	k := sb.String()
	c.mu.Lock()
	if p, ok := c.polys[k]; ok {
		c.mu.Unlock()
		return p
	}
	c.mu.Unlock()
	p := &Poly{t: t, integ: true}
	seen := map[*Var]bool{}
	for i := range t {
		x := &t[i]
		x.cf, _ = x.c.Float64()
		cl, ch := x.cf, x.cf
		if _, ex := x.c.Float64(); !ex {
			cl, ch = dn(cl), up(ch)
		}
		l, h := ivMul(x.m.lo, x.m.hi, cl, ch)
		if i == 0 {
			p.lo, p.hi = l, h
		} else {
			nl, nh := p.lo+l, p.hi+h
			if nl != math.Trunc(nl) || math.Abs(nl) > 1e15 {
				nl = dn(nl)
			}
			if nh != math.Trunc(nh) || math.Abs(nh) > 1e15 {
				nh = up(nh)
			}
			p.lo, p.hi = nl, nh
		}
		if x.m.deg > p.deg {
			p.deg = x.m.deg
		}
		if !x.c.IsInt() {
			p.integ = false
		}
		for _, f := range x.m.f {
			if !f.v.Int {
				p.integ = false
			}
			if !seen[f.v] {
				seen[f.v] = true
				p.vars = append(p.vars, f.v)
			}
		}
	}
	sort.Slice(p.vars, func(i, j int) bool { return p.vars[i].ID < p.vars[j].ID })
	c.mu.Lock()
	defer c.mu.Unlock()
	if q, ok := c.polys[k]; ok {
		return q
	}
	p.ID = len(c.polys)
	c.polys[k] = p
	return p
}

func (p *Poly) IsConst() bool { return len(p.t) == 0 || (len(p.t) == 1 && p.t[0].m.deg == 0) }
func (p *Poly) Rat() *big.Rat {
	if len(p.t) == 0 {
		return new(big.Rat)
	}
	return p.t[0].c
}
func (p *Poly) constTerm() *big.Rat {
	for _, x := range p.t {
		if x.m.deg == 0 {
			return x.c
		}
	}
	return new(big.Rat)
}

func ratF(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }

func (c *Ctx) Const(r *big.Rat) *Poly {
	if r.Sign() == 0 {
		return c.zero
	}
	return c.mkPoly([]Term{{m: c.one, c: r}})
}
func (c *Ctx) ConstF(f float64) *Poly { return c.Const(ratF(f)) }
func (c *Ctx) ConstI(i int64) *Poly   { return c.Const(new(big.Rat).SetInt64(i)) }
func (c *Ctx) VarP(v *Var) *Poly {
	return c.mkPoly([]Term{{m: c.mkMono([]VE{{v, 1}}), c: big.NewRat(1, 1)}})
}

func (c *Ctx) Add(a, b *Poly) *Poly { return c.lin(a, big1, b) }
func (c *Ctx) Sub(a, b *Poly) *Poly { return c.lin(a, bigM1, b) }
func (c *Ctx) Neg(a *Poly) *Poly    { return c.Scale(a, bigM1) }

var big1 = big.NewRat(1, 1)
var bigM1 = big.NewRat(-1, 1)

func (c *Ctx) lin(a *Poly, k *big.Rat, b *Poly) *Poly {
	t := make([]Term, 0, len(a.t)+len(b.t))
	i, j := 0, 0
	isOne := k.Cmp(big1) == 0
	sc := func(x *big.Rat) *big.Rat {
		if isOne {
			return x
		}
		return new(big.Rat).Mul(x, k)
	}
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j == len(b.t) || (i < len(a.t) && a.t[i].m.ID < b.t[j].m.ID):
			t = append(t, Term{m: a.t[i].m, c: a.t[i].c})
			i++
		case i == len(a.t) || b.t[j].m.ID < a.t[i].m.ID:
			t = append(t, Term{m: b.t[j].m, c: sc(b.t[j].c)})
			j++
		default:
			s := new(big.Rat).Add(a.t[i].c, sc(b.t[j].c))
			if s.Sign() != 0 {
				t = append(t, Term{m: a.t[i].m, c: s})
			}
			i++
			j++
		}
	}
	return c.mkPoly(t)
}

func (c *Ctx) Scale(a *Poly, k *big.Rat) *Poly {
	if k.Sign() == 0 {
		return c.zero
	}
	if k.Cmp(big1) == 0 {
		return a
	}
	t := make([]Term, len(a.t))
	for i, x := range a.t {
		t[i] = Term{m: x.m, c: new(big.Rat).Mul(x.c, k)}
	}
	return c.mkPoly(t)
}

func (c *Ctx) mulRaw(a, b *Poly) *Poly {
	if len(a.t) == 0 || len(b.t) == 0 {
		return c.zero
	}
	if a.IsConst() {
		return c.Scale(b, a.Rat())
	}
	if b.IsConst() {
		return c.Scale(a, b.Rat())
	}
	acc := map[*Mono]*big.Rat{}
	for _, x := range a.t {
		for _, y := range b.t {
			m := c.mulMono(x.m, y.m)
			pr := new(big.Rat).Mul(x.c, y.c)
			if o, ok := acc[m]; ok {
				o.Add(o, pr)
			} else {
				acc[m] = pr
			}
		}
	}
	return c.fromAcc(acc)
}

func (c *Ctx) fromAcc(acc map[*Mono]*big.Rat) *Poly {
	t := make([]Term, 0, len(acc))
	for m, r := range acc {
		if r.Sign() != 0 {
			t = append(t, Term{m: m, c: r})
		}
	}
	sort.Slice(t, func(i, j int) bool { return t[i].m.ID < t[j].m.ID })
	return c.mkPoly(t)
}

const maxProd = 220

func (c *Ctx) Mul(a, b *Poly) *Poly {
	if len(a.t)*len(b.t) > maxProd && len(a.t) > 1 && len(b.t) > 1 {
		if len(a.t) > 12 {
			a = c.Alias(a)
		}
		if len(a.t)*len(b.t) > maxProd && len(b.t) > 12 {
			b = c.Alias(b)
		}
	}
	return c.reduce(c.mulRaw(a, b))
}

// reduce rewrites s^2 -> x for roots s=sqrt(x), sin^2 -> 1-cos^2, s*inv(s) -> 1.
func (c *Ctx) reduce(p *Poly) *Poly {
	for iter := 0; iter < 8; iter++ {
		var out *Poly
		changed := false
		var keep []Term
		for _, x := range p.t {
			var hit bool
			for fi, f := range x.m.f {
				if f.e >= 2 && ((f.v.Kind == KSqrt && len(f.v.A.t) <= 12) || f.v.Kind == KSin) {
					rest := append([]VE{}, x.m.f[:fi]...)
					if f.e > 2 {
						rest = append(rest, VE{f.v, f.e - 2})
					}
					rest = append(rest, x.m.f[fi+1:]...)
					rp := c.mkPoly([]Term{{m: c.mkMono(rest), c: x.c}})
					var sub *Poly
					if f.v.Kind == KSqrt {
						sub = f.v.A
					} else {
						cv := c.VarP(c.cosVar(f.v.A))
						sub = c.Sub(c.ConstI(1), c.mulRaw(cv, cv))
					}
					if out == nil {
						out = c.zero
					}
					out = c.Add(out, c.mulRaw(rp, sub))
					hit = true
					break
				}
				if f.v.Kind == KInv { // inv(b) * b where b is a single variable
					if len(f.v.A.t) == 1 && f.v.A.t[0].m.deg == 1 && f.v.A.t[0].c.Cmp(big1) == 0 {
						bv := f.v.A.t[0].m.f[0].v
						for gi, g := range x.m.f {
							if g.v == bv {
								k := f.e
								if g.e < k {
									k = g.e
								}
								var rest []VE
								for hi, h := range x.m.f {
									e := h.e
									if hi == fi || hi == gi {
										e -= k
									}
									if e > 0 {
										rest = append(rest, VE{h.v, e})
									}
								}
								if out == nil {
									out = c.zero
								}
								out = c.Add(out, c.mkPoly([]Term{{m: c.mkMono(rest), c: x.c}}))
								hit = true
								break
							}
						}
						if hit {
							break
						}
					}
				}
			}
			if hit {
				changed = true
			} else {
				keep = append(keep, x)
			}
		}
		if !changed {
			return p
		}
		p = c.Add(out, c.mkPoly(keep))
	}
	return p
}

func (c *Ctx) Alias(p *Poly) *Poly {
	v := c.mkVar(fmt.Sprintf("alias %d", p.ID), "", KAlias, p.integ, p.lo, p.hi, p, nil, nil, 0)
	return c.VarP(v)
}

// lead scaling: returns positive-free normal form p/|k| and k
func (p *Poly) lead() *big.Rat {
	// coefficient of the highest-ID monomial (never the constant unless alone)
	return p.t[len(p.t)-1].c
}

func (c *Ctx) Input(name string, isInt bool, lo, hi float64) *Poly {
	if lo == hi {
		return c.ConstF(lo)
	}
	return c.VarP(c.mkVar(fmt.Sprintf("in %s %v %v %v", name, isInt, lo, hi), name, KInput, isInt, lo, hi, nil, nil, nil, 0))
}

// commonMono returns the gcd monomial of all terms
func (c *Ctx) commonMono(p *Poly) []VE {
	if len(p.t) == 0 {
		return nil
	}
	cur := append([]VE{}, p.t[0].m.f...)
	for _, x := range p.t[1:] {
		var nx []VE
		for _, f := range cur {
			for _, g := range x.m.f {
				if g.v == f.v {
					e := f.e
					if g.e < e {
						e = g.e
					}
					nx = append(nx, VE{f.v, e})
				}
			}
		}
		cur = nx
		if len(cur) == 0 {
			return nil
		}
	}
	return cur
}

func (c *Ctx) divMono(p *Poly, d []VE) *Poly {
	if len(d) == 0 {
		return p
	}
	acc := map[*Mono]*big.Rat{}
	for _, x := range p.t {
		var f []VE
		for _, g := range x.m.f {
			e := g.e
			for _, h := range d {
				if h.v == g.v {
					e -= h.e
				}
			}
			if e > 0 {
				f = append(f, VE{g.v, e})
			}
		}
		acc[c.mkMono(f)] = x.c
	}
	return c.fromAcc(acc)
}

// lexicographic comparison of monomials for exact division / square roots
func lexCmp(a, b *Mono) int {
	i, j := 0, 0
	for i < len(a.f) && j < len(b.f) {
		x, y := a.f[i], b.f[j]
		if x.v.ID != y.v.ID {
			if x.v.ID < y.v.ID {
				return 1
			}
			return -1
		}
		if x.e != y.e {
			if x.e > y.e {
				return 1
			}
			return -1
		}
		i++
		j++
	}
	if i < len(a.f) {
		return 1
	}
	if j < len(b.f) {
		return -1
	}
	return 0
}
func leadLex(p *Poly) Term {
	b := p.t[0]
	for _, x := range p.t[1:] {
		if lexCmp(x.m, b.m) > 0 {
			b = x
		}
	}
	return b
}
func monoDiv(a, b *Mono) ([]VE, bool) {
	var f []VE
	j := 0
	for _, x := range a.f {
		e := x.e
		if j < len(b.f) && b.f[j].v.ID < x.v.ID {
			return nil, false
		}
		if j < len(b.f) && b.f[j].v == x.v {
			e -= b.f[j].e
			j++
			if e < 0 {
				return nil, false
			}
		}
		if e > 0 {
			f = append(f, VE{x.v, e})
		}
	}
	if j < len(b.f) {
		return nil, false
	}
	return f, true
}

// exactDiv returns a/b if b divides a.
func (c *Ctx) exactDiv(a, b *Poly) (*Poly, bool) {
	if len(b.t) == 0 {
		return nil, false
	}
	lb := leadLex(b)
	q := c.zero
	r := a
	for n := 0; len(r.t) > 0; n++ {
		if n > 40 || len(r.t) > 200 {
			return nil, false
		}
		lr := leadLex(r)
		f, ok := monoDiv(lr.m, lb.m)
		if !ok {
			return nil, false
		}
		t := c.mkPoly([]Term{{m: c.mkMono(f), c: new(big.Rat).Quo(lr.c, lb.c)}})
		q = c.Add(q, t)
		r = c.Sub(r, c.mulRaw(t, b))
	}
	return q, true
}

func ratSqrt(r *big.Rat) (*big.Rat, bool) {
	if r.Sign() < 0 {
		return nil, false
	}
	n := new(big.Int).Sqrt(r.Num())
	d := new(big.Int).Sqrt(r.Denom())
	if new(big.Int).Mul(n, n).Cmp(r.Num()) != 0 || new(big.Int).Mul(d, d).Cmp(r.Denom()) != 0 {
		return nil, false
	}
	return new(big.Rat).SetFrac(n, d), true
}

// perfectSqrt returns q with q*q == p.
func (c *Ctx) perfectSqrt(p *Poly) (*Poly, bool) {
	if len(p.t) == 0 {
		return c.zero, true
	}
	if len(p.t) > 40 {
		return nil, false
	}
	l := leadLex(p)
	var f []VE
	for _, x := range l.m.f {
		if x.e%2 != 0 {
			return nil, false
		}
		f = append(f, VE{x.v, x.e / 2})
	}
	rc, ok := ratSqrt(l.c)
	if !ok {
		return nil, false
	}
	lead := Term{m: c.mkMono(f), c: rc}
	q := c.mkPoly([]Term{{m: lead.m, c: lead.c}})
	r := c.Sub(p, c.mulRaw(q, q))
	two := big.NewRat(2, 1)
	for n := 0; len(r.t) > 0; n++ {
		if n > 12 {
			return nil, false
		}
		lr := leadLex(r)
		g, ok := monoDiv(lr.m, lead.m)
		if !ok {
			return nil, false
		}
		t := c.mkPoly([]Term{{m: c.mkMono(g), c: new(big.Rat).Quo(lr.c, new(big.Rat).Mul(two, lead.c))}})
		if lexCmp(t.t[0].m, lead.m) >= 0 {
			return nil, false
		}
		nq := c.Add(q, t)
		r = c.Sub(p, c.mulRaw(nq, nq))
		q = nq
	}
	return q, true
}

// Div: b is known to be non-zero in the current context.
func (c *Ctx) Div(a, b *Poly) *Poly {
	if b.IsConst() {
		return c.Scale(a, new(big.Rat).Inv(b.Rat()))
	}
	if len(a.t) == 0 {
		return c.zero
	}
	// cancel common monomial factors
	ca, cb := c.commonMono(a), c.commonMono(b)
	if len(ca) > 0 && len(cb) > 0 {
		var g []VE
		for _, x := range ca {
			for _, y := range cb {
				if x.v == y.v {
					e := x.e
					if y.e < e {
						e = y.e
					}
					g = append(g, VE{x.v, e})
				}
			}
		}
		if len(g) > 0 {
			return c.Div(c.divMono(a, g), c.divMono(b, g))
		}
	}
	if q, ok := c.exactDiv(a, b); ok {
		return q
	}
	if cb := c.commonMono(b); len(cb) > 0 {
		if len(b.t) == 1 {
			if len(a.t) <= 12 {
				// a * 1/v * 1/w ...
				r := c.Scale(a, new(big.Rat).Inv(b.t[0].c))
				for _, f := range cb {
					iv := c.Inv(c.VarP(f.v))
					for i := 0; i < f.e; i++ {
						r = c.Mul(r, iv)
					}
				}
				return r
			}
		} else if q, ok := c.exactDiv(a, c.divMono(b, cb)); ok {
			return c.Div(q, c.mkPoly([]Term{{m: c.mkMono(cb), c: new(big.Rat).Set(big1)}}))
		}
	}
	if !a.IsConst() && len(a.t) <= len(b.t) {
		if q, ok := c.exactDiv(b, a); ok && !q.IsConst() {
			kq := q.lead()
			return c.Scale(c.Inv(c.Scale(q, new(big.Rat).Inv(kq))), new(big.Rat).Inv(kq))
		}
	}
	// normalise scale of b
	k := b.lead()
	if k.Cmp(big1) != 0 {
		ik := new(big.Rat).Inv(k)
		return c.Div(c.Scale(a, ik), c.Scale(b, ik))
	}
	if len(b.t) == 1 && b.t[0].m.deg == 1 && b.t[0].m.f[0].v.Kind == KSqrt && len(a.t) <= 3 {
		// multiply by the reciprocal of the root
		return c.Mul(a, c.Inv(b))
	}
	// normalise scale of a
	ka := a.lead()
	if ka.Cmp(big1) != 0 {
		return c.Scale(c.Div(c.Scale(a, new(big.Rat).Inv(ka)), b), ka)
	}
	if a.IsConst() { // 1/b
		return c.Inv(b)
	}
	lo, hi := math.Inf(-1), math.Inf(1)
	if b.lo > 0 || b.hi < 0 {
		lo, hi = ivDiv(a.lo, a.hi, b.lo, b.hi)
	}
	v := c.mkVar(fmt.Sprintf("div %d %d", a.ID, b.ID), "", KDiv, false, lo, hi, a, b, nil, 0)
	return c.VarP(v)
}

func ivDiv(al, ah, bl, bh float64) (float64, float64) {
	p := [4]float64{al / bl, al / bh, ah / bl, ah / bh}
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, x := range p {
		if math.IsNaN(x) {
			return math.Inf(-1), math.Inf(1)
		}
		lo = math.Min(lo, x)
		hi = math.Max(hi, x)
	}
	return dn(lo), up(hi)
}

func (c *Ctx) Inv(b *Poly) *Poly {
	lo, hi := math.Inf(-1), math.Inf(1)
	if b.lo > 0 || b.hi < 0 {
		lo, hi = ivDiv(1, 1, b.lo, b.hi)
	} else if b.lo >= 0 {
		lo = 0
		if !math.IsInf(b.hi, 0) && b.hi > 0 {
			lo = dn(1 / b.hi)
		}
	}
	return c.VarP(c.mkVar(fmt.Sprintf("inv %d", b.ID), "", KInv, false, lo, hi, b, nil, nil, 0))
}

func (c *Ctx) Sqrt(a *Poly) *Poly { // a known non-negative
	if a.IsConst() {
		if r, ok := ratSqrt(a.Rat()); ok {
			return c.Const(r)
		}
		f, _ := a.Rat().Float64()
		return c.ConstF(math.Sqrt(f))
	}
	if q, ok := c.perfectSqrt(a); ok {
		return c.Abs(q)
	}
	if q, ok := c.sqrtSin(a); ok {
		return q
	}
	// pull out square constant factors
	k := new(big.Rat).Abs(a.lead())
	if k.Cmp(big1) != 0 {
		if r, ok := ratSqrt(k); ok {
			return c.Scale(c.Sqrt(c.Scale(a, new(big.Rat).Inv(k))), r)
		}
	}
	lo, hi := 0.0, math.Inf(1)
	if a.lo > 0 {
		lo = dn(math.Sqrt(a.lo))
	}
	if a.hi >= 0 && !math.IsInf(a.hi, 0) {
		hi = up(math.Sqrt(a.hi))
	}
	return c.VarP(c.mkVar(fmt.Sprintf("sqrt %d", a.ID), "", KSqrt, false, lo, hi, a, nil, nil, 0))
}

// sqrtSin: the root of q^2 * sin^2, whose square is kept as 1 - cos^2.
func (c *Ctx) sqrtSin(a *Poly) (*Poly, bool) {
	if len(a.t) > 40 {
		return nil, false
	}
	seen := map[*Var]bool{}
	for _, t := range a.t {
		for _, f := range t.m.f {
			if f.v.Kind != KCos || f.e < 2 || seen[f.v] {
				continue
			}
			seen[f.v] = true
			cv := c.VarP(f.v)
			q, ok := c.exactDiv(a, c.Sub(c.ConstI(1), c.mulRaw(cv, cv)))
			if !ok {
				continue
			}
			var r *Poly
			if q.IsConst() && q.Rat().Sign() > 0 {
				r = c.Sqrt(q)
			} else if s, ok := c.perfectSqrt(q); ok {
				r = c.Abs(s)
			} else if s, ok := c.sqrtSin(q); ok {
				r = s
			} else {
				continue
			}
			return c.Mul(r, c.Abs(c.VarP(c.sinVar(f.v.A)))), true
		}
	}
	return nil, false
}

func (c *Ctx) Abs(a *Poly) *Poly {
	if a.lo >= 0 {
		return a
	}
	if a.hi <= 0 {
		return c.Neg(a)
	}
	if !a.IsConst() && a.lead().Sign() < 0 {
		a = c.Neg(a)
	}
	return c.Ite(c.Atom(c.Neg(a), 'l'), a, c.Neg(a))
}

func (c *Ctx) Min(a, b *Poly) *Poly { return c.Ite(c.Atom(c.Sub(a, b), 'l'), a, b) }
func (c *Ctx) Max(a, b *Poly) *Poly { return c.Ite(c.Atom(c.Sub(b, a), 'l'), a, b) }

func (c *Ctx) isInt(a *Poly) bool {
	if a.integ {
		return true
	}
	_, ok := c.intg.Load(a)
	return ok
}

func (c *Ctx) Floor(a *Poly) *Poly {
	if c.isInt(a) {
		return a
	}
	if a.IsConst() {
		n := new(big.Int).Div(a.Rat().Num(), a.Rat().Denom()) // Euclidean: floor for positive denominators
		return c.Const(new(big.Rat).SetInt(n))
	}
	// pull integral part out
	var in, fr []Term
	for _, x := range a.t {
		ok := x.c.IsInt()
		for _, f := range x.m.f {
			if !f.v.Int {
				ok = false
			}
		}
		if ok {
			in = append(in, Term{m: x.m, c: x.c})
		} else {
			fr = append(fr, Term{m: x.m, c: x.c})
		}
	}
	if len(in) > 0 {
		r := c.Add(c.mkPoly(in), c.Floor(c.mkPoly(fr)))
		c.intg.Store(r, true)
		return r
	}
	if a.hi-a.lo > 1e5 {
		// a - frac(a): keeps the relation to a linear
		v := c.mkVar(fmt.Sprintf("frac %d", a.ID), "", KFrac, false, 0, 1, a, nil, nil, 0)
		r := c.Sub(a, c.VarP(v))
		c.intg.Store(r, true)
		return r
	}
	v := c.mkVar(fmt.Sprintf("floor %d", a.ID), "", KFloor, true, math.Floor(a.lo), math.Floor(a.hi), a, nil, nil, 0)
	return c.VarP(v)
}
func (c *Ctx) Ceil(a *Poly) *Poly {
	if c.isInt(a) {
		return a
	}
	r := c.Neg(c.Floor(c.Neg(a)))
	c.intg.Store(r, true)
	return r
}
func (c *Ctx) Trunc(a *Poly) *Poly {
	if c.isInt(a) {
		return a
	}
	if a.lo >= 0 {
		return c.Floor(a)
	}
	if a.hi <= 0 {
		return c.Ceil(a)
	}
	return c.Ite(c.Atom(c.Neg(a), 'l'), c.Floor(a), c.Ceil(a))
}

func (c *Ctx) Ite(cd *Bool, a, b *Poly) *Poly {
	if cd == c.True || a == b {
		return a
	}
	if cd == c.False {
		return b
	}
	if cd.op == '!' {
		return c.Ite(cd.args[0], b, a)
	}
	// pull the common part out: ite(c, x+d, y+d) = ite(c, x, y) + d
	ins := c.isInt(a) && c.isInt(b)
	var cm, ra, rb []Term
	bm := map[*Mono]*Term{}
	for i := range b.t {
		bm[b.t[i].m] = &b.t[i]
	}
	used := map[*Mono]bool{}
	for _, x := range a.t {
		if y := bm[x.m]; y != nil && x.m.deg > 0 && y.c.Cmp(x.c) == 0 {
			cm = append(cm, Term{m: x.m, c: x.c})
			used[x.m] = true
		} else {
			ra = append(ra, Term{m: x.m, c: x.c})
		}
	}
	if len(cm) > 0 {
		for _, y := range b.t {
			if !used[y.m] {
				rb = append(rb, Term{m: y.m, c: y.c})
			}
		}
		r := c.Add(c.mkPoly(cm), c.Ite(cd, c.mkPoly(ra), c.mkPoly(rb)))
		if ins {
			c.intg.Store(r, true)
		}
		return r
	}
	v := c.mkVar(fmt.Sprintf("ite %d %d %d", cd.ID, a.ID, b.ID), "", KIte, a.integ && b.integ,
		math.Min(a.lo, b.lo), math.Max(a.hi, b.hi), a, b, cd, 0)
	return c.VarP(v)
}

func (c *Ctx) cosVar(th *Poly) *Var {
	lo, hi := sinRange(th.lo+math.Pi/2, th.hi+math.Pi/2)
	return c.mkVar(fmt.Sprintf("cos %d", th.ID), "", KCos, false, lo, hi, th, nil, nil, 0)
}
func (c *Ctx) sinVar(th *Poly) *Var {
	lo, hi := sinRange(th.lo, th.hi)
	return c.mkVar(fmt.Sprintf("sin %d", th.ID), "", KSin, false, lo, hi, th, nil, nil, 0)
}

// sinRange: bounds of the sine over an interval.
func sinRange(a, b float64) (float64, float64) {
	if !(b-a < 2*math.Pi) || math.Abs(a) > 1e6 {
		return -1, 1
	}
	lo, hi := math.Min(math.Sin(a), math.Sin(b)), math.Max(math.Sin(a), math.Sin(b))
	// an extreme value inside
	for k := math.Floor(a/math.Pi) - 1; k <= b/math.Pi+1; k++ {
		if x := (k + 0.5) * math.Pi; x > a-1e-9 && x < b+1e-9 {
			if math.Mod(math.Abs(k), 2) == 0 {
				hi = 1
			} else {
				lo = -1
			}
		}
	}
	return math.Max(-1, lo-1e-12), math.Min(1, hi+1e-12)
}

// sinAtom: sin(a+sh) compared with k, where the sine is monotonic over the range of a.
func (c *Ctx) sinAtom(a *Poly, sh float64, k *big.Rat, rel byte, pos bool, depth int) *Bool {
	f, _ := k.Float64()
	if rel == '=' || f < -1 || f > 1 || math.Abs(a.lo) > 1e6 || math.Abs(a.hi) > 1e6 {
		return nil
	}
	n := math.Floor(((a.lo+a.hi)/2+sh)/math.Pi + 0.5)
	if a.lo+sh < (n-0.5)*math.Pi-1e-12 || a.hi+sh > (n+0.5)*math.Pi+1e-12 {
		return nil
	}
	c.note("comparisons of sines and cosines with constants are decided on the angle where they are monotonic (the bound rounded to double)")
	as := math.Asin(f)
	if math.Mod(math.Abs(n), 2) == 1 {
		as, pos = -as, !pos
	}
	q := c.Sub(a, c.ConstF(n*math.Pi+as-sh))
	if !pos {
		q = c.Neg(q)
	}
	return c.atom(q, rel, depth+1)
}
func (c *Ctx) Cos(th *Poly) *Poly {
	if !th.IsConst() && th.lead().Sign() < 0 {
		th = c.Neg(th)
	}
	return c.VarP(c.cosVar(th))
}
func (c *Ctx) Sin(th *Poly) *Poly {
	neg := false
	if !th.IsConst() && th.lead().Sign() < 0 {
		th = c.Neg(th)
		neg = true
	}
	c.cosVar(th)
	p := c.VarP(c.sinVar(th))
	if neg {
		return c.Neg(p)
	}
	return p
}
func (c *Ctx) Acos(x *Poly) *Poly {
	return c.VarP(c.mkVar(fmt.Sprintf("acos %d", x.ID), "", KAcos, false, 0, up(math.Pi), x, nil, nil, 0))
}

// Atan2 is the angle of (x, y), which is not (0, 0).
func (c *Ctx) Atan2(y, x *Poly) *Poly {
	return c.VarP(c.mkVar(fmt.Sprintf("atan2 %d %d", y.ID, x.ID), "", KAtan, false, dn(-math.Pi), up(math.Pi), y, x, nil, 0))
}
func (c *Ctx) F32(x *Poly) *Poly {
	if len(x.t) == 1 && x.t[0].m.deg == 1 && x.t[0].m.f[0].v.Kind == KF32 && (x.t[0].c.Cmp(big1) == 0 || x.t[0].c.Cmp(bigM1) == 0) {
		return x
	}
	if x.IsConst() {
		f, _ := x.Rat().Float32()
		return c.ConstF(float64(f))
	}
	lo, hi := x.lo-math.Abs(x.lo)*1e-7-1e-40, x.hi+math.Abs(x.hi)*1e-7+1e-40
	return c.VarP(c.mkVar(fmt.Sprintf("f32 %d", x.ID), "", KF32, false, lo, hi, x, nil, nil, 0))
}

// decRound: f to n decimals (n < 0: to tens, hundreds, ...)
func decRound(f float64, n int) float64 {
	if n < 0 {
		u := math.Pow(10, float64(-n))
		return math.Round(f/u) * u
	}
	g, _ := strconv.ParseFloat(strconv.FormatFloat(f, 'f', n, 64), 64)
	return g
}

// Dec: x printed with n decimals and read back.
func (c *Ctx) Dec(x *Poly, n int) *Poly {
	if c.isInt(x) {
		return x
	}
	if x.IsConst() {
		f, _ := x.Rat().Float64()
		return c.ConstF(decRound(f, n))
	}
	h := math.Pow(10, -float64(n))
	return c.VarP(c.mkVar(fmt.Sprintf("dec %d %d", x.ID, n), "", KDec, false, x.lo-h, x.hi+h, x, nil, nil, n))
}

func (c *Ctx) Opaque(name string, lo, hi float64, ev func([]float64) float64, args ...*Poly) *Poly {
	k := "op " + name
	for _, a := range args {
		k += " " + strconv.Itoa(a.ID)
	}
	v := c.mkVar(k, "", KOpaque, false, lo, hi, nil, nil, nil, 0)
	v.mu.Lock()
	v.eval = ev
	v.args = args
	v.mu.Unlock()
	c.note("function " + name + " on symbolic arguments is treated as an arbitrary bounded value")
	return c.VarP(v)
}

// ---- booleans ----

func (c *Ctx) internBool(k string, mk func() *Bool) *Bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if b, ok := c.bools[k]; ok {
		return b
	}
	b := mk()
	b.ID = len(c.bools)
	c.bools[k] = b
	return b
}

func (c *Ctx) BoolVar(name string) *Bool {
	v := c.mkVar("in "+name, name, KInput, true, 0, 1, nil, nil, nil, 0)
	return c.internBool("b"+strconv.Itoa(v.ID), func() *Bool { return &Bool{op: 'b', v: v, vars: []*Var{v}} })
}

func (c *Ctx) rawAtom(p *Poly, rel byte) *Bool {
	return c.internBool(fmt.Sprintf("a%c%d", rel, p.ID), func() *Bool { return &Bool{op: 'a', p: p, rel: rel, vars: p.vars} })
}

// Atom: p rel 0, rel in '<','l'(<=),'='
func (c *Ctx) Atom(p *Poly, rel byte) *Bool { return c.atom(p, rel, 0) }

func (c *Ctx) atom(p *Poly, rel byte, depth int) *Bool {
	if p.IsConst() {
		s := p.Rat().Sign()
		ok := false
		switch rel {
		case '<':
			ok = s < 0
		case 'l':
			ok = s <= 0
		case '=':
			ok = s == 0
		}
		if ok {
			return c.True
		}
		return c.False
	}
	switch rel {
	case '<':
		if p.hi < 0 {
			return c.True
		}
		if p.lo >= 0 {
			return c.False
		}
	case 'l':
		if p.hi <= 0 {
			return c.True
		}
		if p.lo > 0 {
			return c.False
		}
	case '=':
		if p.lo > 0 || p.hi < 0 {
			return c.False
		}
	}
	// integral tightening: p + c rel 0 with integral non-constant part
	if rel != '=' {
		if ct := p.constTerm(); true {
			np := c.Sub(p, c.Const(ct))
			if np.integ {
				// np < -ct  -> np <= ceil(-ct)-1 ; np <= -ct -> np <= floor(-ct)
				m := new(big.Rat).Neg(ct)
				fl := new(big.Int).Div(m.Num(), m.Denom())
				isInt := m.IsInt()
				if rel == '<' && isInt {
					fl.Sub(fl, big.NewInt(1))
				}
				p = c.Sub(np, c.Const(new(big.Rat).SetInt(fl)))
				rel = 'l'
				if p.hi <= 0 {
					return c.True
				}
				if p.lo > 0 {
					return c.False
				}
			}
		}
	} else {
		ct := p.constTerm()
		if !ct.IsInt() && c.Sub(p, c.Const(ct)).integ {
			return c.False
		}
	}
	// scale
	k := p.lead()
	if rel == '=' {
		if k.Cmp(big1) != 0 {
			p = c.Scale(p, new(big.Rat).Inv(k))
		}
	} else {
		ak := new(big.Rat).Abs(k)
		if ak.Cmp(big1) != 0 {
			p = c.Scale(p, new(big.Rat).Inv(ak))
		}
	}
	if depth > 6 {
		return c.rawAtom(p, rel)
	}
	// factor out common monomial
	if cm := c.commonMono(p); len(cm) > 0 && !(len(p.t) == 1 && p.t[0].m.deg == 1) {
		q := c.divMono(p, cm)
		if rel == '=' {
			var or []*Bool
			for _, f := range cm {
				or = append(or, c.atom(c.VarP(f.v), '=', depth+1))
			}
			or = append(or, c.atom(q, '=', depth+1))
			return c.Or(or...)
		}
		var nz []*Bool // even factors must be non-zero for '<'
		var odd []*Poly
		for _, f := range cm {
			if f.e%2 == 0 {
				nz = append(nz, c.Not(c.atom(c.VarP(f.v), '=', depth+1)))
			} else {
				odd = append(odd, c.VarP(f.v))
			}
		}
		odd = append(odd, q)
		if len(odd) <= 3 {
			neg, zero := c.signProd(odd, depth+1)
			if rel == '<' {
				return c.And(append(nz, neg)...)
			}
			or := []*Bool{neg, zero}
			for _, x := range nz {
				or = append(or, c.Not(x))
			}
			return c.Or(or...)
		}
	}
	// single-variable rewriting
	if len(p.vars) == 1 && p.deg == 1 {
		v := p.vars[0]
		var cv, ct *big.Rat
		ct = p.constTerm()
		for _, x := range p.t {
			if x.m.deg == 1 {
				cv = x.c
			}
		}
		// v rel' k with rel' direction by sign of cv
		kk := new(big.Rat).Quo(new(big.Rat).Neg(ct), cv)
		pos := cv.Sign() > 0
		if b := c.varAtom(v, kk, rel, pos, depth); b != nil {
			return b
		}
	}
	if rel != '=' {
		if b := c.acosAtom(p, rel, depth); b != nil {
			return b
		}
	}
	if rel == '=' && c.identZero(p) {
		return c.True
	}
	if !p.IsConst() && rel == '=' && p.lead().Sign() < 0 {
		p = c.Neg(p)
	}
	return c.rawAtom(p, rel)
}

// signProd: returns (product<0, product==0)
func (c *Ctx) signProd(f []*Poly, depth int) (*Bool, *Bool) {
	neg := c.atom(f[0], '<', depth)
	pos := c.atom(c.Neg(f[0]), '<', depth)
	zero := c.atom(f[0], '=', depth)
	for _, q := range f[1:] {
		n2 := c.atom(q, '<', depth)
		p2 := c.atom(c.Neg(q), '<', depth)
		z2 := c.atom(q, '=', depth)
		neg, pos = c.Or(c.And(neg, p2), c.And(pos, n2)), c.Or(c.And(neg, n2), c.And(pos, p2))
		zero = c.Or(zero, z2)
	}
	return neg, zero
}

// varAtom: (pos: v rel k ; !pos: -v rel -k i.e. v >rel k)
func (c *Ctx) varAtom(v *Var, k *big.Rat, rel byte, pos bool, depth int) *Bool {
	kp := c.Const(k)
	mk := func(q *Poly, pos bool) *Bool { // q rel 0 or -q rel 0
		if !pos {
			q = c.Neg(q)
		}
		return c.atom(q, rel, depth+1)
	}
	switch v.Kind {
	case KSqrt:
		if k.Sign() < 0 {
			if rel == '=' {
				return c.False
			}
			if pos {
				return c.False
			}
			return c.True
		}
		return mk(c.Sub(v.A, c.Const(new(big.Rat).Mul(k, k))), pos)
	case KFloor:
		fl := new(big.Int).Div(k.Num(), k.Denom())
		fr := new(big.Rat).SetInt(fl)
		isInt := k.IsInt()
		one := big.NewRat(1, 1)
		if rel == '=' {
			if !isInt {
				return c.False
			}
			return c.And(c.atom(c.Sub(c.Const(fr), v.A), 'l', depth+1), c.atom(c.Sub(v.A, c.Const(new(big.Rat).Add(fr, one))), '<', depth+1))
		}
		if pos {
			// floor(x) <= k  <=> x < floor(k)+1 ; floor(x) < k <=> x < ceil(k)
			t := new(big.Rat).Add(fr, one)
			if rel == '<' && isInt {
				t = fr
			}
			return c.atom(c.Sub(v.A, c.Const(t)), '<', depth+1)
		}
		// floor(x) >= k <=> x >= ceil(k) ; floor(x) > k <=> x >= floor(k)+1
		t := new(big.Rat).Add(fr, one)
		if rel == 'l' && isInt {
			t = fr
		}
		return c.atom(c.Sub(c.Const(t), v.A), 'l', depth+1)
	case KIte:
		if depth < 4 {
			return c.Or(c.And(v.C, mk(c.Sub(v.A, kp), pos)), c.And(c.Not(v.C), mk(c.Sub(v.B, kp), pos)))
		}
	case KDiv:
		q := c.Sub(v.A, c.Scale(v.B, k))
		if rel == '=' {
			return c.atom(q, '=', depth+1)
		}
		if v.B.lo > 0 {
			return mk(q, pos)
		}
		if v.B.hi < 0 {
			return mk(q, !pos)
		}
		bp := c.atom(c.Neg(v.B), '<', depth+1)
		bn := c.atom(v.B, '<', depth+1)
		return c.Or(c.And(bp, mk(q, pos)), c.And(bn, mk(q, !pos)))
	case KInv:
		q := c.Sub(c.ConstI(1), c.Scale(v.A, k))
		if rel == '=' {
			return c.atom(q, '=', depth+1)
		}
		if v.A.lo >= 0 {
			return mk(q, pos)
		}
		bp := c.atom(c.Neg(v.A), '<', depth+1)
		bn := c.atom(v.A, '<', depth+1)
		return c.Or(c.And(bp, mk(q, pos)), c.And(bn, mk(q, !pos)))
	case KAcos:
		f, _ := k.Float64()
		if f < 0 {
			if rel == '=' || pos {
				return c.False
			}
			return c.True
		}
		if f > math.Pi {
			if rel == '=' || !pos {
				return c.False
			}
			return c.True
		}
		// acos(x) rel k <=> -x rel -cos k
		c.note("comparisons of arc cosines are decided on the cosine (cosine of the bound rounded to double)")
		return mk(c.Sub(c.ConstF(math.Cos(f)), v.A), pos)
	case KSin:
		return c.sinAtom(v.A, 0, k, rel, pos, depth)
	case KCos:
		return c.sinAtom(v.A, math.Pi/2, k, rel, pos, depth)
	case KAlias:
		return mk(c.Sub(v.A, kp), pos)
	}
	return nil
}

// unit scales p so that its leading coefficient is 1 or -1.
func (c *Ctx) unit(p *Poly) *Poly {
	if len(p.t) == 0 || p.IsConst() {
		return p
	}
	k := new(big.Rat).Abs(p.lead())
	if k.Cmp(big1) == 0 {
		return p
	}
	return c.Scale(p, new(big.Rat).Inv(k))
}

// identZero: p vanishes identically once quotients and roots are multiplied out.
func (c *Ctx) identZero(p *Poly) bool {
	has := false
	for _, v := range p.vars {
		if v.Kind == KDiv || v.Kind == KInv || v.Kind == KAlias || v.Kind == KSqrt {
			has = true
		}
	}
	if !has {
		return len(p.t) == 0
	}
	for iter := 0; iter < 24; iter++ {
		if len(p.t) == 0 {
			return true
		}
		if len(p.t) > 1500 {
			return false
		}
		// eliminate the youngest eliminable variable
		var best *Var
		for _, v := range p.vars {
			ok := v.Kind == KDiv || v.Kind == KInv || v.Kind == KAlias
			if v.Kind == KSqrt {
				ok = true
				for _, x := range p.t {
					for _, g := range x.m.f {
						if g.v == v && g.e%2 != 0 {
							ok = false
						}
					}
				}
			}
			if ok && (best == nil || v.ID > best.ID) {
				best = v
			}
		}
		if best == nil {
			return len(p.t) == 0
		}
		num, den := best.A, best.B
		if best.Kind == KInv {
			num, den = c.ConstI(1), best.A
		}
		if best.Kind == KAlias || best.Kind == KSqrt {
			den = c.ConstI(1)
		}
		// split by power of best
		by := map[int]map[*Mono]*big.Rat{}
		max := 0
		for _, x := range p.t {
			e := 0
			var f []VE
			for _, g := range x.m.f {
				if g.v == best {
					e = g.e
				} else {
					f = append(f, g)
				}
			}
			if best.Kind == KSqrt {
				e /= 2
			}
			if e > max {
				max = e
			}
			if by[e] == nil {
				by[e] = map[*Mono]*big.Rat{}
			}
			m := c.mkMono(f)
			if o, ok := by[e][m]; ok {
				by[e][m] = new(big.Rat).Add(o, x.c)
			} else {
				by[e][m] = x.c
			}
		}
		acc := c.zero
		np := []*Poly{c.ConstI(1)}
		dp := []*Poly{c.ConstI(1)}
		for i := 1; i <= max; i++ {
			a, b := np[i-1], dp[i-1]
			if len(a.t)*len(num.t) > 3000 || len(b.t)*len(den.t) > 3000 {
				return false
			}
			np = append(np, c.reduce(c.mulRaw(a, num)))
			dp = append(dp, c.reduce(c.mulRaw(b, den)))
		}
		for e, m := range by {
			q := c.fromAcc(m)
			if len(q.t)*len(np[e].t)*len(dp[max-e].t) > 20000 {
				return false
			}
			acc = c.Add(acc, c.reduce(c.mulRaw(c.mulRaw(q, np[e]), dp[max-e])))
		}
		p = acc
	}
	return len(p.t) == 0
}

func (c *Ctx) Not(b *Bool) *Bool {
	switch b.op {
	case 'T':
		return c.False
	case 'F':
		return c.True
	case '!':
		return b.args[0]
	case 'a':
		if b.rel == '<' {
			return c.negAtom(b.p, 'l')
		}
		if b.rel == 'l' {
			return c.negAtom(b.p, '<')
		}
	case '&':
		a := make([]*Bool, len(b.args))
		for i, x := range b.args {
			a[i] = c.Not(x)
		}
		return c.Or(a...)
	case '|':
		a := make([]*Bool, len(b.args))
		for i, x := range b.args {
			a[i] = c.Not(x)
		}
		return c.And(a...)
	}
	return c.internBool("!"+strconv.Itoa(b.ID), func() *Bool { return &Bool{op: '!', args: []*Bool{b}, vars: b.vars} })
}

func (c *Ctx) negAtom(p *Poly, rel byte) *Bool {
	q := c.Neg(p)
	// integral: not(p<=0) -> p>=1
	if rel == '<' && q.integ {
		return c.rawAtom(c.Add(q, c.ConstI(1)), 'l')
	}
	return c.rawAtom(q, rel)
}

func (c *Ctx) nary(op byte, args []*Bool) *Bool {
	unit, zero := c.True, c.False
	if op == '|' {
		unit, zero = c.False, c.True
	}
	var fl []*Bool
	seen := map[*Bool]bool{}
	var add func(b *Bool) bool
	add = func(b *Bool) bool {
		if b == zero {
			return false
		}
		if b == unit || seen[b] {
			return true
		}
		if b.op == op {
			for _, x := range b.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[b] = true
		fl = append(fl, b)
		return true
	}
	for _, b := range args {
		if !add(b) {
			return zero
		}
	}
	for _, b := range fl {
		if (b.op == 'a' || b.op == '!' || b.op == 'b') && seen[c.Not(b)] {
			return zero
		}
	}
	if len(fl) == 0 {
		return unit
	}
	if len(fl) == 1 {
		return fl[0]
	}
	sort.Slice(fl, func(i, j int) bool { return fl[i].ID < fl[j].ID })
	var sb strings.Builder
	sb.WriteByte(op)
	for _, b := range fl {
		sb.WriteString(strconv.Itoa(b.ID))
		sb.WriteByte(' ')
	}
	vs := map[*Var]bool{}
	var vars []*Var
	for _, b := range fl {
		for _, v := range b.vars {
			if !vs[v] {
				vs[v] = true
				vars = append(vars, v)
			}
		}
	}
	return c.internBool(sb.String(), func() *Bool { return &Bool{op: op, args: fl, vars: vars} })
}
func (c *Ctx) And(a ...*Bool) *Bool { return c.nary('&', a) }
func (c *Ctx) Or(a ...*Bool) *Bool  { return c.nary('|', a) }
func (c *Ctx) IteB(cd, a, b *Bool) *Bool {
	return c.Or(c.And(cd, a), c.And(c.Not(cd), b))
}
func (c *Ctx) Iff(a, b *Bool) *Bool { return c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b))) }

// BoolNum: 1 if b else 0
func (c *Ctx) BoolNum(b *Bool) *Poly { return c.Ite(b, c.ConstI(1), c.zero) }

// ---- definitions ----

func (c *Ctx) Def(v *Var) []*Bool {
	v.mu.Lock()
	defer v.mu.Unlock()
	if v.defOK {
		return v.def
	}
	vp := c.VarP(v)
	var d []*Bool
	raw := func(p *Poly, rel byte) *Bool {
		if p.IsConst() {
			return c.atom(p, rel, 0)
		}
		return c.rawAtom(p, rel)
	}
	bounds := func() {
		if !math.IsInf(v.Lo, 0) && math.Abs(v.Lo) < 1e100 {
			d = append(d, raw(c.Sub(c.ConstF(v.Lo), vp), 'l'))
		}
		if !math.IsInf(v.Hi, 0) && math.Abs(v.Hi) < 1e100 {
			d = append(d, raw(c.Sub(vp, c.ConstF(v.Hi)), 'l'))
		}
	}
	switch v.Kind {
	case KInput:
		bounds()
	case KDiv:
		d = append(d, raw(c.Sub(c.mulRaw(vp, v.B), v.A), '='))
	case KInv:
		d = append(d, raw(c.Sub(c.mulRaw(vp, v.A), c.ConstI(1)), '='))
	case KSqrt:
		d = append(d, raw(c.Sub(c.mulRaw(vp, vp), v.A), '='), raw(c.Neg(vp), 'l'))
		for _, x := range v.A.t {
			if len(x.m.f) == 1 && x.m.f[0].v.Kind == KDiv {
				// the root of a quotient vanishes where the quotient does
				pos := c.atom(c.Neg(v.A), '<', 0)
				d = append(d, c.Or(c.Not(pos), raw(c.Neg(vp), '<')), c.Or(pos, raw(vp, 'l')))
				break
			}
		}
	case KFloor:
		d = append(d, raw(c.Sub(vp, v.A), 'l'), raw(c.Sub(c.Sub(v.A, c.ConstI(1)), vp), '<'))
	case KIte:
		if fracOnly(v.A) && fracOnly(v.B) {
			// a rounding error: only its size matters
			bounds()
			break
		}
		d = append(d, c.Or(c.And(v.C, raw2(c, c.Sub(vp, v.A))), c.And(c.Not(v.C), raw2(c, c.Sub(vp, v.B)))))
	case KCos, KSin:
		var cv, sv *Poly
		cv = c.VarP(c.cosVar(v.A))
		sv = c.VarP(c.sinVar(v.A))
		d = append(d, raw(c.Sub(c.Add(c.mulRaw(cv, cv), c.mulRaw(sv, sv)), c.ConstI(1)), '='))
		bounds()
		// those of a number that was written and read back are near those of the number
		if w, k, ok := v.A.scaledVar(); ok && (w.Kind == KDec || w.Kind == KF32) {
			f, _ := k.Float64()
			e := math.Inf(1)
			if w.Kind == KDec {
				e = 0.5*math.Pow(10, -float64(w.N)) + 1e-12
			} else if m := math.Max(math.Abs(w.A.lo), math.Abs(w.A.hi)); m < 1e9 {
				e = math.Ldexp(m, -24) + 1e-30
			}
			if e *= math.Abs(f) * (1 + 1e-9); e < 0.1 {
				t := c.trig(c.Scale(w.A, k), v.Kind == KCos)
				d = append(d, raw(c.Sub(c.Sub(vp, t), c.ConstF(e)), 'l'), raw(c.Sub(c.Sub(t, vp), c.ConstF(e)), 'l'))
			}
		}
	case KAcos:
		bounds()
	case KAtan:
		pi := c.ConstF(math.Pi)
		d = append(d, c.Or(
			c.And(raw(v.A, '<'), raw(vp, '<'), raw(c.Sub(c.Neg(pi), vp), 'l')),
			c.And(raw(c.Neg(v.A), '<'), raw(c.Neg(vp), '<'), raw(c.Sub(vp, pi), 'l')),
			c.And(raw(v.A, '='), raw(c.Neg(v.B), '<'), raw(vp, '=')),
			c.And(raw(v.A, '='), raw(v.B, '<'), raw(c.Sub(vp, pi), '='))))
	case KF32:
		u := big.NewRat(1, 1<<24)
		t := new(big.Rat).SetFloat64(math.Ldexp(1, -149))
		e := c.Add(c.Scale(v.A, u), c.Const(t))
		e2 := c.Add(c.Scale(v.A, new(big.Rat).Neg(u)), c.Const(t))
		df := c.Sub(vp, v.A)
		d = append(d, c.Or(
			c.And(raw(c.Neg(v.A), 'l'), raw(c.Sub(df, e), 'l'), raw(c.Sub(c.Neg(df), e), 'l')),
			c.And(raw(v.A, '<'), raw(c.Sub(df, e2), 'l'), raw(c.Sub(c.Neg(df), e2), 'l'))))
	case KDec:
		n := int64(v.N)
		if n < 0 {
			n = -n
		}
		pw := new(big.Int).Exp(big.NewInt(10), big.NewInt(n), nil)
		h := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Mul(big.NewInt(2), pw))
		if v.N < 0 {
			h = new(big.Rat).SetFrac(pw, big.NewInt(2))
		}
		h.Add(h, new(big.Rat).SetFloat64(1e-12))
		df := c.Sub(vp, v.A)
		d = append(d, raw(c.Sub(df, c.Const(h)), 'l'), raw(c.Sub(c.Neg(df), c.Const(h)), 'l'))
	case KAlias:
		d = append(d, raw(c.Sub(vp, v.A), '='))
	case KFrac:
		d = append(d, raw(c.Neg(vp), 'l'), raw(c.Sub(vp, c.ConstI(1)), '<'))
	case KOpaque, KNoise:
		bounds()
		d = append(d, v.def...)
	}
	v.def = d
	v.defOK = true
	return d
}

func fracOnly(p *Poly) bool {
	for _, v := range p.vars {
		if v.Kind != KFrac {
			return false
		}
	}
	return len(p.vars) > 0
}

func raw2(c *Ctx, p *Poly) *Bool {
	if p.IsConst() {
		return c.atom(p, '=', 0)
	}
	return c.rawAtom(p, '=')
}

// ---- evaluation under float assignments ----

type Env struct {
	in   map[*Var]float64
	memo map[*Var]float64
}

func NewEnv(in map[*Var]float64) *Env { return &Env{in: in, memo: map[*Var]float64{}} }

func (e *Env) Var(v *Var) float64 {
	if v.Kind == KInput {
		if x, ok := e.in[v]; ok {
			return x
		}
		// default: a value within range
		if v.Lo <= 0 && v.Hi >= 0 {
			return 0
		}
		if math.IsInf(v.Lo, 0) {
			return v.Hi
		}
		if math.IsInf(v.Hi, 0) {
			return v.Lo
		}
		m := (v.Lo + v.Hi) / 2
		if v.Int {
			m = math.Floor(m)
		}
		return m
	}
	if x, ok := e.memo[v]; ok {
		return x
	}
	var r float64
	switch v.Kind {
	case KDiv:
		r = e.Poly(v.A) / e.Poly(v.B)
	case KInv:
		r = 1 / e.Poly(v.A)
	case KSqrt:
		a := e.Poly(v.A)
		if a < 0 && a > -1e-9 {
			a = 0
		}
		r = math.Sqrt(a)
	case KFloor:
		r = math.Floor(e.Poly(v.A))
	case KIte:
		if e.Bool(v.C) {
			r = e.Poly(v.A)
		} else {
			r = e.Poly(v.B)
		}
	case KCos:
		r = math.Cos(e.Poly(v.A))
	case KSin:
		r = math.Sin(e.Poly(v.A))
	case KAcos:
		r = math.Acos(math.Max(-1, math.Min(1, e.Poly(v.A))))
	case KAtan:
		r = math.Atan2(e.Poly(v.A), e.Poly(v.B))
	case KF32:
		r = float64(float32(e.Poly(v.A)))
	case KDec:
		r = decRound(e.Poly(v.A), v.N)
	case KAlias:
		r = e.Poly(v.A)
	case KFrac:
		r = e.Poly(v.A)
		r -= math.Floor(r)
	case KOpaque:
		var a []float64
		for _, x := range v.args {
			a = append(a, e.Poly(x))
		}
		if v.eval != nil {
			r = v.eval(a)
		}
	case KNoise:
		r = 0
	}
	e.memo[v] = r
	return r
}

func (e *Env) Poly(p *Poly) float64 {
	s := 0.0
	for _, t := range p.t {
		x := t.cf
		for _, f := range t.m.f {
			y := e.Var(f.v)
			for i := 0; i < f.e; i++ {
				x *= y
			}
		}
		s += x
	}
	return s
}

func (e *Env) Bool(b *Bool) bool {
	switch b.op {
	case 'T':
		return true
	case 'F':
		return false
	case 'b':
		return e.Var(b.v) != 0
	case '!':
		return !e.Bool(b.args[0])
	case '&':
		for _, x := range b.args {
			if !e.Bool(x) {
				return false
			}
		}
		return true
	case '|':
		for _, x := range b.args {
			if e.Bool(x) {
				return true
			}
		}
		return false
	}
	x := e.Poly(b.p)
	switch b.rel {
	case '<':
		return x < 0
	case 'l':
		return x <= 0
	}
	if b.p.deg == 1 || b.p.integ {
		return x == 0
	}
	return x == 0
}

// robust: truth of b with a margin (1 true, -1 false, 0 too close to call)
func (e *Env) Robust(b *Bool) int {
	switch b.op {
	case 'T':
		return 1
	case 'F':
		return -1
	case 'b':
		if e.Var(b.v) != 0 {
			return 1
		}
		return -1
	case '!':
		return -e.Robust(b.args[0])
	case '&':
		r := 1
		for _, x := range b.args {
			if y := e.Robust(x); y < r {
				r = y
			}
		}
		return r
	case '|':
		r := -1
		for _, x := range b.args {
			if y := e.Robust(x); y > r {
				r = y
			}
		}
		return r
	}
	s, m := 0.0, 0.0
	for _, t := range b.p.t {
		x := t.cf
		for _, f := range t.m.f {
			y := e.Var(f.v)
			for i := 0; i < f.e; i++ {
				x *= y
			}
		}
		s += x
		m += math.Abs(x)
	}
	if math.IsNaN(s) || math.IsInf(m, 0) {
		return 0
	}
	tol := m * 1e-13
	if b.p.integ && m < 1e12 {
		tol = 0
	}
	exact := tol == 0 || b.p.deg == 1 && dyadicSmall(b.p)
	switch b.rel {
	case '=':
		if math.Abs(s) > tol {
			return -1
		}
		if s == 0 && exact {
			return 1
		}
		return 0
	case '<':
		if s < -tol || (exact && s < 0) {
			return 1
		}
		if s > tol || (exact && s >= 0) {
			return -1
		}
		return 0
	default:
		if s < -tol || (exact && s <= 0) {
			return 1
		}
		if s > tol || (exact && s > 0) {
			return -1
		}
		return 0
	}
}

func dyadicSmall(p *Poly) bool {
	for _, t := range p.t {
		if !t.c.IsInt() || math.Abs(t.cf) > 1e6 {
			return false
		}
		for _, f := range t.m.f {
			if f.v.Kind != KInput {
				return false
			}
		}
	}
	return true
}

// ---- printing ----

func (p *Poly) String() string {
	if len(p.t) == 0 {
		return "0"
	}
	var s []string
	for _, t := range p.t {
		x := t.c.RatString()
		if len(x) > 14 {
			x = strconv.FormatFloat(t.cf, 'g', 6, 64)
		}
		for _, f := range t.m.f {
			x += "*" + f.v.Name
			if f.e > 1 {
				x += "^" + strconv.Itoa(f.e)
			}
		}
		s = append(s, x)
	}
	return strings.Join(s, " + ")
}

func (v *Var) Describe() string {
	switch v.Kind {
	case KInput:
		return fmt.Sprintf("%s in [%g,%g]", v.Name, v.Lo, v.Hi)
	case KDiv:
		return fmt.Sprintf("%s = (%s)/(%s)", v.Name, v.A, v.B)
	case KInv:
		return fmt.Sprintf("%s = 1/(%s)", v.Name, v.A)
	case KSqrt:
		return fmt.Sprintf("%s = sqrt(%s)", v.Name, v.A)
	case KFloor:
		return fmt.Sprintf("%s = floor(%s)", v.Name, v.A)
	case KIte:
		return fmt.Sprintf("%s = ite(%s, %s, %s)", v.Name, v.C, v.A, v.B)
	case KAlias:
		return fmt.Sprintf("%s = %s", v.Name, v.A)
	}
	return fmt.Sprintf("%s kind%d(%v)", v.Name, v.Kind, v.A)
}

func (b *Bool) String() string {
	switch b.op {
	case 'T':
		return "true"
	case 'F':
		return "false"
	case 'b':
		return b.v.Name
	case '!':
		return "!(" + b.args[0].String() + ")"
	case 'a':
		r := string(b.rel)
		if r == "l" {
			r = "<="
		}
		return b.p.String() + " " + r + " 0"
	}
	var s []string
	for _, x := range b.args {
		s = append(s, x.String())
	}
	j := " && "
	if b.op == '|' {
		j = " || "
	}
	return "(" + strings.Join(s, j) + ")"
}

// scaledVar: p = k·v.
func (p *Poly) scaledVar() (*Var, *big.Rat, bool) {
	if len(p.t) == 1 && p.t[0].m.deg == 1 {
		return p.t[0].m.f[0].v, p.t[0].c, true
	}
	return nil, nil, false
}

// roundCoefs rounds the coefficients to 12 significant digits, so that degrees
// turned into radians by different but equivalent formulas give one angle.
func (c *Ctx) roundCoefs(p *Poly) *Poly {
	r := c.zero
	for _, t := range p.t {
		k := t.c
		if k.Denom().BitLen() > 20 {
			if q, ok := new(big.Rat).SetString(strconv.FormatFloat(t.cf, 'e', 11, 64)); ok {
				k = q
			}
		}
		r = c.Add(r, c.mkPoly([]Term{{m: t.m, c: k}}))
	}
	return r
}

// trig splits off concrete summands: cos(a+k) by the addition theorem.
func (c *Ctx) trig(p *Poly, cos bool) *Poly {
	k := p.constTerm()
	if k.Sign() == 0 || p.IsConst() {
		if p.IsConst() {
			f, _ := p.Rat().Float64()
			if cos {
				return c.ConstF(math.Cos(f))
			}
			return c.ConstF(math.Sin(f))
		}
		cr, sr := c.trigVar(p)
		if cos {
			return cr
		}
		return sr
	}
	f, _ := k.Float64()
	rest := c.Sub(p, c.Const(k))
	cr, sr := c.trigVar(rest)
	snap := func(x float64) *Poly {
		if math.Abs(x) < 1e-15 {
			x = 0
		}
		return c.ConstF(x)
	}
	ck, sk := snap(math.Cos(f)), snap(math.Sin(f))
	if cos {
		return c.Sub(c.Mul(cr, ck), c.Mul(sr, sk))
	}
	return c.Add(c.Mul(sr, ck), c.Mul(cr, sk))
}

// trigVar: cosine and sine of p. Those of an arc cosine, taken through degrees
// and back or not, are its argument and the root of one less its square; the
// conversion constants differ from one another in the last bit only.
func (c *Ctx) trigVar(p *Poly) (*Poly, *Poly) {
	p = c.roundCoefs(p)
	if v, k, ok := p.scaledVar(); ok && (v.Kind == KAcos || v.Kind == KAtan) {
		f, _ := k.Float64()
		if math.Abs(math.Abs(f)-1) < 1e-10 {
			if v.Kind == KAtan {
				h := c.Sqrt(c.Add(c.Mul(v.A, v.A), c.Mul(v.B, v.B)))
				s := c.Div(v.A, h)
				if f < 0 {
					s = c.Neg(s)
				}
				return c.Div(v.B, h), s
			}
			s := c.Sqrt(c.Sub(c.ConstI(1), c.Mul(v.A, v.A)))
			if f < 0 {
				s = c.Neg(s)
			}
			return v.A, s
		}
	}
	return c.Cos(p), c.Sin(p)
}

// acosAtom decides comparisons of an arc cosine with another one or with an
// angle that contains none.
func (c *Ctx) acosAtom(p *Poly, rel byte, depth int) *Bool {
	var at []Term
	for _, x := range p.t {
		for _, f := range x.m.f {
			if f.v.Kind == KAcos {
				if x.m.deg != 1 {
					return nil
				}
				at = append(at, x)
			}
		}
	}
	if depth > 6 {
		return nil
	}
	if len(at) == 2 && len(p.t) == 2 && at[0].c.Cmp(new(big.Rat).Neg(at[1].c)) == 0 {
		// k(a-b) rel 0: the cosine falls
		x, y := at[0].m.f[0].v.A, at[1].m.f[0].v.A
		if at[0].c.Sign() < 0 {
			x, y = y, x
		}
		return c.atom(c.Sub(y, x), rel, depth+1)
	}
	if len(at) != 1 {
		return nil
	}
	k := at[0].c
	a := at[0].m.f[0].v
	rest := c.Sub(p, c.mkPoly([]Term{at[0]}))
	t := c.Scale(rest, new(big.Rat).Inv(new(big.Rat).Neg(k))) // a against t
	co := c.trig(t, true)
	pi := c.ConstF(math.Pi)
	c.note("comparisons of arc cosines are decided on the cosine (cosine of the bound rounded to double)")
	if k.Sign() > 0 { // a rel t
		return c.Or(c.atom(c.Sub(pi, t), rel, depth+1), c.And(c.atom(c.Neg(t), rel, depth+1), c.atom(c.Sub(co, a.A), rel, depth+1)))
	}
	// t rel a
	return c.Or(c.atom(t, rel, depth+1), c.And(c.atom(c.Sub(t, pi), rel, depth+1), c.atom(c.Sub(a.A, co), rel, depth+1)))
}
