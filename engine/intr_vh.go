package main

import (
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

const tokADD = token.ADD

func (m *Machine) constF(v Value) float64 {
	switch x := v.(type) {
	case float64:
		return x
	case int64:
		return float64(x)
	case *Poly:
		if x.IsConst() {
			f, _ := x.Rat().Float64()
			return f
		}
	}
	panic(unsupported{"harness: a bound must be concrete"})
}

func regVH(reg func(string, intrinsic)) {
	input := func(m *Machine, name string, isInt bool, lo, hi float64) *Poly {
		p := m.ctx.Input(name, isInt, lo, hi)
		if !p.IsConst() {
			if v := m.inputs[name]; v != nil && v != p.vars[0] {
				panic(unsupported{"input " + name + " is used with two ranges"})
			}
			m.inputs[name] = p.vars[0]
		}
		return p
	}
	reg("vh.F", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.num(input(m, a[0].(string), false, m.constF(a[1]), m.constF(a[2])), fT)
	})
	reg("vh.I", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.num(input(m, a[0].(string), true, m.constF(a[1]), m.constF(a[2])), types.Typ[types.Int])
	})
	reg("vh.B", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := m.ctx.BoolVar(a[0].(string))
		m.inputs[a[0].(string)] = b.v
		return b
	})
	reg("vh.Choose", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := m.index(fr, a[1])
		if n <= 1 {
			return int64(0)
		}
		return m.concretize(input(m, a[0].(string), true, 0, float64(n-1)))
	})
	reg("vh.Conc", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.index(fr, a[0]) })
	reg("vh.Assume", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.assume(m.asBool(a[0]))
		return nil
	})
	reg("vh.Assert", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.assert(a[0], a[1].(string))
		return nil
	})
	reg("vh.Split", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.truth(a[0]) })
	reg("vh.Zero", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		p, ok := m.poly(a[0])
		if !ok {
			return false
		}
		for _, t := range p.t {
			if c, _ := t.c.Float64(); math.Abs(c) > 1e-9 {
				return false
			}
		}
		return true
	})
	reg("vh.Known", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		if !m.eng.known[a[0].(string)] {
			return false
		}
		return m.truth(a[1])
	})
	reg("vh.Cover", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.covers = append(m.covers, a[0].(string))
		return nil
	})
	reg("vh.Observe", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.obs = append(m.obs, obsV{a[0].(string), a[1]})
		return nil
	})
	reg("vh.Thorough", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.eng.thorough })
	reg("vh.Symbolic", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return true })
	reg("vh.SetCPU", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.cpu = m.index(fr, a[0])
		return nil
	})
	reg("vh.Dir", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return "/vh" })
	reg("vh.FailWritesAfter", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		p, _ := m.poly(a[0])
		m.fs.failAt = p
		if m.truth(m.boolV(m.ctx.Atom(p, '<'))) {
			m.fs.failAt = nil
		}
		m.fs.written = 0
		return nil
	})
	reg("vh.FileSize", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		f := m.fs.files[absPath(a[0].(string))]
		if f == nil {
			return int64(-1)
		}
		if f.room != nil {
			return m.num(m.ctx.Add(m.ctx.ConstI(int64(len(f.data))), f.room), types.Typ[types.Int])
		}
		return int64(len(f.data))
	})
	reg("vh.Write", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		f := &memFile{}
		for _, b := range []byte(a[1].(string)) {
			f.data = append(f.data, uint64(b))
		}
		m.fs.files[absPath(a[0].(string))] = f
		return nil
	})
	reg("vh.Truncate", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		f := m.fs.files[absPath(a[0].(string))]
		m.settle(f)
		n := m.index(fr, a[1])
		f.data = f.data[:n]
		return nil
	})
	reg("vh.And", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		var bs []*Bool
		for _, x := range vslice(a[0]) {
			bs = append(bs, m.asBool(x))
		}
		return m.boolV(m.ctx.And(bs...))
	})
	reg("vh.Or", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		var bs []*Bool
		for _, x := range vslice(a[0]) {
			bs = append(bs, m.asBool(x))
		}
		return m.boolV(m.ctx.Or(bs...))
	})
	reg("vh.Not", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.boolV(m.ctx.Not(m.asBool(a[0])))
	})
	reg("vh.Implies", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.boolV(m.ctx.Or(m.ctx.Not(m.asBool(a[0])), m.asBool(a[1])))
	})
	reg("vh.Iff", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.boolV(m.ctx.Iff(m.asBool(a[0]), m.asBool(a[1])))
	})
	reg("vh.Near", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, ok1 := m.poly(a[0])
		y, ok2 := m.poly(a[1])
		e, ok3 := m.poly(a[2])
		if !ok1 || !ok2 || !ok3 {
			return false
		}
		c := m.ctx
		d := c.Sub(x, y)
		if c.identZero(d) {
			return m.boolV(c.Atom(c.Neg(e), 'l'))
		}
		return m.boolV(c.And(c.Atom(c.Sub(d, e), 'l'), c.Atom(c.Sub(c.Neg(d), e), 'l')))
	})
	reg("vh.Ite", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := m.asBool(a[0])
		x, ok1 := m.poly(a[1])
		y, ok2 := m.poly(a[2])
		if !ok1 || !ok2 {
			if m.truth(a[0]) {
				return a[1]
			}
			return a[2]
		}
		return m.num(m.ctx.Ite(b, x, y), fT)
	})
	reg("vh.IteI", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := m.asBool(a[0])
		x, _ := m.poly(a[1])
		y, _ := m.poly(a[2])
		return m.num(m.ctx.Ite(b, x, y), types.Typ[types.Int])
	})
	reg("vh.Finite", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		if f, ok := a[0].(float64); ok {
			return !math.IsNaN(f) && !math.IsInf(f, 0)
		}
		return true
	})
	reg("vh.SimplifyCalls", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		n, _ := m.natives["simplify.n"].(int64)
		return n
	})
	reg("vh.SimplifyFactor", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.natives["simplify.factor"]
	})
	reg("vh.SimplifyIn", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		t, ok := m.natives["simplify.type"].(types.Type)
		if !ok {
			return Iface{}
		}
		return Iface{t: t, v: m.natives["simplify.in"].(Value)}
	})
	reg("vh.SimplifyReturn", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.natives["simplify.out"] = a[0]
		return nil
	})
}
