package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type unsupported struct{ msg string }
type pathEnd struct{ why string } // assume false, infeasible, budget, exit
type targetPanic struct {
	v       Value
	runtime bool
	msg     string
	where   string
}
type targetExit struct {
	code int
	msg  string
}

type fnInfo struct {
	idx       map[ssa.Value]int
	n         int
	hasDefer  bool
	mergeable int // 0 unknown 1 yes 2 no 3 in progress
	name      string
	intr      intrinsic
	repo      bool
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
	next *deferred
}

type Frame struct {
	m         *Machine
	g         *Gor
	caller    *Frame
	fn        *ssa.Function
	info      *fnInfo
	env       []Value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    *deferred
	result    Value
	panicking bool
	panicV    interface{}
	depth     int
	instr     ssa.Instruction
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	e.infoMu.RLock()
	fi := e.infos[fn]
	e.infoMu.RUnlock()
	if fi != nil {
		return fi
	}
	fi = &fnInfo{idx: map[ssa.Value]int{}, name: fn.String()}
	for _, p := range fn.Params {
		fi.idx[p] = fi.n
		fi.n++
	}
	for _, p := range fn.FreeVars {
		fi.idx[p] = fi.n
		fi.n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				fi.idx[v] = fi.n
				fi.n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDefer = true
			}
		}
	}
	fi.intr = e.findIntrinsic(fn)
	pk := fn.Package()
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Package()
	}
	if pk != nil && strings.HasPrefix(pk.Pkg.Path(), modPath) && !strings.Contains(pk.Pkg.Path(), "/zzverif") {
		fi.repo = true
	}
	e.infoMu.Lock()
	e.infos[fn] = fi
	e.infoMu.Unlock()
	return fi
}

func (fr *Frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Global:
		return fr.m.global(v)
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	}
	i, ok := fr.info.idx[v]
	if !ok {
		panic(unsupported{"no value for " + v.Name()})
	}
	return fr.env[i]
}

func (fr *Frame) set(v ssa.Value, x Value) { fr.env[fr.info.idx[v]] = x }

func (m *Machine) global(g *ssa.Global) *Value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = zero(g.Type().(*types.Pointer).Elem())
	m.globals[g] = p
	return p
}

func (m *Machine) rtPanic(fr *Frame, msg string) {
	w := ""
	for f := fr; f != nil && w == ""; f = f.caller {
		if f.info.repo {
			w = m.eng.pos(f)
		}
	}
	panic(targetPanic{v: Iface{}, runtime: true, msg: "runtime error: " + msg, where: w})
}

func (e *Engine) pos(f *Frame) string {
	if f.fn == nil {
		return "?"
	}
	if f.instr == nil {
		return f.fn.String()
	}
	p := e.prog.Fset.Position(f.instr.Pos())
	return fmt.Sprintf("%s (%s:%d)", f.fn.String(), p.Filename, p.Line)
}

const maxDepth = 400

// callFn calls a function value.
func (m *Machine) callFn(fr *Frame, f Value, args []Value) Value {
	switch f := f.(type) {
	case *ssa.Function:
		if f == nil {
			m.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		return m.callSSA(fr, f, args, nil)
	case *Closure:
		if f == nil {
			m.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		return m.callSSA(fr, f.fn, args, f.env)
	case *ssa.Builtin:
		return m.callBuiltin(fr, f, args, nil)
	case *NativeFn:
		return f.fn(args)
	}
	panic(unsupported{fmt.Sprintf("call of %T", f)})
}

func (m *Machine) callSSA(caller *Frame, fn *ssa.Function, args []Value, env []Value) Value {
	if m.skipInit != nil && fn.Synthetic == "package initializer" {
		return nil
	}
	if to := m.run.h.repl[fn]; to != nil {
		return m.callSSA(caller, to, args, nil)
	}
	fi := m.eng.info(fn)
	if fi.intr != nil {
		return fi.intr(m, caller, fn, args)
	}
	if fn.Blocks == nil {
		panic(unsupported{"function without body: " + fi.name})
	}
	if fi.repo {
		m.eng.covered(fn)
	} else if !m.eng.interpretable(fn) {
		panic(unsupported{"external function " + fi.name})
	}
	if m.noMerge == 0 && len(fn.Blocks) > 1 && fi.repo && m.eng.mergeable(fn) && hasSym(args) {
		if v, ok := m.callMerged(caller, fn, fi, args, env); ok {
			return v
		}
	}
	return m.exec(caller, fn, fi, args, env)
}

func hasSym(args []Value) bool {
	for _, a := range args {
		if isSym(a, 0) {
			return true
		}
	}
	return false
}
func isSym(a Value, d int) bool {
	switch a := a.(type) {
	case *Poly, *Bool:
		return true
	case Struct:
		for _, x := range a {
			if isSym(x, d) {
				return true
			}
		}
	case Array:
		for _, x := range a {
			if isSym(x, d) {
				return true
			}
		}
	case *Value:
		if a != nil && d < 3 {
			return isSym(*a, d+1)
		}
	}
	return false
}

func (m *Machine) exec(caller *Frame, fn *ssa.Function, fi *fnInfo, args []Value, env []Value) Value {
	fr := &Frame{m: m, caller: caller, fn: fn, info: fi, env: make([]Value, fi.n)}
	if caller != nil {
		fr.depth = caller.depth + 1
		fr.g = caller.g
	} else {
		fr.g = m.cur
	}
	if fr.depth > maxDepth {
		panic(pathEnd{"bound: recursion deeper than " + fmt.Sprint(maxDepth) + " in " + fi.name})
	}
	for i := range fn.Params {
		fr.env[i] = args[i]
	}
	for i := range fn.FreeVars {
		fr.env[len(fn.Params)+i] = env[i]
	}
	fr.block = fn.Blocks[0]
	if fi.hasDefer {
		for fr.block != nil {
			m.runDeferFrame(fr)
		}
	} else {
		m.runBlocks(fr)
	}
	return fr.result
}

func (m *Machine) runDeferFrame(fr *Frame) {
	defer func() {
		if fr.block == nil {
			return
		}
		r := recover()
		if _, ok := r.(targetPanic); !ok {
			panic(r)
		}
		fr.panicking = true
		fr.panicV = r
		m.runDefers(fr)
		fr.block = fr.fn.Recover
		if fr.block == nil && fr.panicking {
			panic(fr.panicV)
		}
		if fr.block == nil {
			// recovered, no named results: zero results
			fr.result = zeroResults(fr.fn)
		}
	}()
	m.runBlocks(fr)
}

// opaqueResults: something new and empty of the type of the result.
func opaqueResults(fn *ssa.Function) Value {
	rs := fn.Signature.Results()
	if rs.Len() == 1 {
		if p, ok := rs.At(0).Type().Underlying().(*types.Pointer); ok {
			v := new(Value)
			*v = zero(p.Elem())
			return v
		}
	}
	return zeroResults(fn)
}

func zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (m *Machine) runDefers(fr *Frame) {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.next
		m.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

func (m *Machine) runDefer(fr *Frame, d *deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			if _, is := r.(targetPanic); !is {
				panic(r)
			}
			fr.panicking = true
			fr.panicV = r
		}
	}()
	if b, is := d.fn.(*ssa.Builtin); is {
		m.callBuiltin(fr, b, d.args, d.call)
	} else {
		m.callFn(fr, d.fn, d.args)
	}
	ok = true
}

// runBlocks executes until return; fr.block becomes nil.
func (m *Machine) runBlocks(fr *Frame) {
	for {
		b := fr.block
	instrs:
		for _, in := range b.Instrs {
			m.steps++
			if m.steps > m.maxSteps {
				panic(pathEnd{"bound: more than " + fmt.Sprint(m.maxSteps) + " steps"})
			}
			fr.instr = in
			switch in := in.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				// evaluated below in parallel
				m.doPhis(fr, b)
				continue instrs
			case *ssa.BinOp:
				fr.set(in, m.binop(fr, in.Op, in.X.Type(), fr.get(in.X), fr.get(in.Y)))
			case *ssa.UnOp:
				fr.set(in, m.unop(fr, in))
			case *ssa.Alloc:
				p := new(Value)
				*p = zero(in.Type().Underlying().(*types.Pointer).Elem())
				fr.set(in, p)
			case *ssa.Store:
				p := fr.get(in.Addr).(*Value)
				if p == nil {
					m.rtPanic(fr, "invalid memory address or nil pointer dereference")
				}
				m.access(fr, p, true)
				storeInto(p, copyVal(fr.get(in.Val)))
			case *ssa.FieldAddr:
				p := fr.get(in.X).(*Value)
				if p == nil {
					m.rtPanic(fr, "invalid memory address or nil pointer dereference")
				}
				s, ok := (*p).(Struct)
				if !ok {
					panic(unsupported{fmt.Sprintf("field of %T in %s", *p, fr.fn)})
				}
				fr.set(in, &s[in.Field])
			case *ssa.Field:
				fr.set(in, fr.get(in.X).(Struct)[in.Field])
			case *ssa.IndexAddr:
				x := fr.get(in.X)
				i := m.index(fr, fr.get(in.Index))
				switch x := x.(type) {
				case []Value:
					if i < 0 || i >= int64(len(x)) {
						m.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", i, len(x)))
					}
					fr.set(in, &x[i])
				case *Value:
					if x == nil {
						m.rtPanic(fr, "invalid memory address or nil pointer dereference")
					}
					a := (*x).(Array)
					if i < 0 || i >= int64(len(a)) {
						m.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", i, len(a)))
					}
					fr.set(in, &a[i])
				default:
					panic(unsupported{fmt.Sprintf("IndexAddr %T", x)})
				}
			case *ssa.Index:
				x := fr.get(in.X)
				i := m.index(fr, fr.get(in.Index))
				switch x := x.(type) {
				case Array:
					if i < 0 || i >= int64(len(x)) {
						m.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", i, len(x)))
					}
					fr.set(in, x[i])
				case string:
					if i < 0 || i >= int64(len(x)) {
						m.rtPanic(fr, fmt.Sprintf("index out of range [%d] with length %d", i, len(x)))
					}
					fr.set(in, uint64(x[i]))
				default:
					panic(unsupported{fmt.Sprintf("Index %T", x)})
				}
			case *ssa.Lookup:
				fr.set(in, m.lookup(fr, in))
			case *ssa.MapUpdate:
				mp := fr.get(in.Map).(*Map)
				if mp == nil {
					panic(targetPanic{runtime: true, msg: "assignment to entry in nil map", where: m.eng.pos(fr)})
				}
				m.access(fr, &mp.cell, true)
				m.mapSet(fr, mp, copyVal(fr.get(in.Key)), copyVal(fr.get(in.Value)), in.Map.Type().Underlying().(*types.Map).Key())
			case *ssa.If:
				c := m.truth(fr.get(in.Cond))
				fr.prev = b
				if c {
					fr.block = b.Succs[0]
				} else {
					fr.block = b.Succs[1]
				}
				break instrs
			case *ssa.Jump:
				fr.prev = b
				fr.block = b.Succs[0]
				break instrs
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
				case 1:
					fr.result = fr.get(in.Results[0])
				default:
					t := make(Tuple, len(in.Results))
					for i, r := range in.Results {
						t[i] = fr.get(r)
					}
					fr.result = t
				}
				fr.block = nil
				return
			case *ssa.Call:
				fr.set(in, m.call(fr, &in.Call))
			case *ssa.Defer:
				fn, args := m.prepareCall(fr, &in.Call)
				fr.defers = &deferred{fn: fn, args: args, call: &in.Call, next: fr.defers}
			case *ssa.RunDefers:
				m.runDefers(fr)
			case *ssa.Go:
				fn, args := m.prepareCall(fr, &in.Call)
				m.spawn(fr, fn, args)
			case *ssa.Panic:
				v := fr.get(in.X)
				panic(targetPanic{v: v, msg: "panic: " + show(v), where: m.eng.pos(fr)})
			case *ssa.Extract:
				fr.set(in, fr.get(in.Tuple).(Tuple)[in.Index])
			case *ssa.MakeInterface:
				fr.set(in, Iface{t: in.X.Type(), v: copyVal(fr.get(in.X))})
			case *ssa.ChangeInterface:
				fr.set(in, fr.get(in.X))
			case *ssa.ChangeType:
				fr.set(in, fr.get(in.X))
			case *ssa.Convert:
				fr.set(in, m.convert(fr, in.Type(), in.X.Type(), fr.get(in.X)))
			case *ssa.MakeClosure:
				cl := &Closure{fn: in.Fn.(*ssa.Function)}
				for _, b := range in.Bindings {
					cl.env = append(cl.env, fr.get(b))
				}
				fr.set(in, cl)
			case *ssa.MakeSlice:
				n := m.index(fr, fr.get(in.Len))
				cp := m.index(fr, fr.get(in.Cap))
				if n < 0 || n > 1<<27 {
					m.rtPanic(fr, "makeslice: len out of range")
				}
				if cp < n || cp > 1<<27 {
					m.rtPanic(fr, "makeslice: cap out of range")
				}
				if cp > 1<<21 {
					panic(pathEnd{"bound: slice of more than 2^21 elements"})
				}
				et := in.Type().Underlying().(*types.Slice).Elem()
				s := make([]Value, cp)
				z := zero(et)
				for i := range s {
					s[i] = copyVal(z)
				}
				fr.set(in, s[:n])
			case *ssa.MakeMap:
				fr.set(in, &Map{idx: map[string]int{}})
			case *ssa.MakeChan:
				n := m.index(fr, fr.get(in.Size))
				if n < 0 {
					m.rtPanic(fr, "makechan: size out of range")
				}
				fr.set(in, &Chan{cap: int(n)})
			case *ssa.Slice:
				fr.set(in, m.slice(fr, in))
			case *ssa.SliceToArrayPointer:
				s := fr.get(in.X).([]Value)
				n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
				if int64(len(s)) < n {
					m.rtPanic(fr, "cannot convert slice to array pointer")
				}
				p := new(Value)
				*p = Array(s[:n:n])
				fr.set(in, p)
			case *ssa.Send:
				m.send(fr, fr.get(in.Chan).(*Chan), copyVal(fr.get(in.X)))
			case *ssa.Select:
				fr.set(in, m.selectStmt(fr, in))
			case *ssa.TypeAssert:
				fr.set(in, m.typeAssert(fr, in))
			case *ssa.Range:
				fr.set(in, m.rangeIter(fr, in))
			case *ssa.Next:
				fr.set(in, m.next(fr, in))
			default:
				panic(unsupported{fmt.Sprintf("instruction %T", in)})
			}
		}
	}
}

// doPhis evaluates all phis of the block at once, when reached at the first one.
func (m *Machine) doPhis(fr *Frame, b *ssa.BasicBlock) {
	if fr.instr != b.Instrs[0] {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == fr.prev {
			pi = i
			break
		}
	}
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
		vals = append(vals, fr.get(p.Edges[pi]))
	}
	for i, p := range phis {
		fr.set(p, vals[i])
	}
}

// storeInto keeps the identity of the cells of aggregates.
func storeInto(p *Value, v Value) {
	switch nv := v.(type) {
	case Struct:
		if ov, ok := (*p).(Struct); ok && len(ov) == len(nv) {
			for i := range nv {
				storeInto(&ov[i], nv[i])
			}
			return
		}
	case Array:
		if ov, ok := (*p).(Array); ok && len(ov) == len(nv) {
			for i := range nv {
				storeInto(&ov[i], nv[i])
			}
			return
		}
	}
	*p = v
}

func (m *Machine) prepareCall(fr *Frame, c *ssa.CallCommon) (Value, []Value) {
	args := make([]Value, 0, len(c.Args)+1)
	var fn Value
	if c.IsInvoke() {
		recv := fr.get(c.Value).(Iface)
		if recv.t == nil {
			m.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		f := m.eng.lookupMethod(recv.t, c.Method)
		if f == nil {
			panic(unsupported{"method " + c.Method.Name() + " of " + recv.t.String()})
		}
		fn = f
		args = append(args, recv.v)
	} else {
		fn = fr.get(c.Value)
	}
	for _, a := range c.Args {
		args = append(args, copyVal(fr.get(a)))
	}
	return fn, args
}

func (m *Machine) call(fr *Frame, c *ssa.CallCommon) Value {
	fn, args := m.prepareCall(fr, c)
	if b, ok := fn.(*ssa.Builtin); ok {
		return m.callBuiltin(fr, b, args, c)
	}
	return m.callFn(fr, fn, args)
}

// index concretises an integer.
func (m *Machine) index(fr *Frame, v Value) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case uint64:
		if v > math.MaxInt64 {
			return -1
		}
		return int64(v)
	case *Poly:
		return m.concretize(v)
	}
	panic(unsupported{fmt.Sprintf("index %T", v)})
}

func (m *Machine) unop(fr *Frame, in *ssa.UnOp) Value {
	x := fr.get(in.X)
	switch in.Op {
	case token.MUL:
		p, ok := x.(*Value)
		if !ok {
			panic(unsupported{fmt.Sprintf("load from %T", x)})
		}
		if p == nil {
			m.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		m.access(fr, p, false)
		return copyVal(*p)
	case token.NOT:
		switch x := x.(type) {
		case bool:
			return !x
		case *Bool:
			return m.boolV(m.ctx.Not(x))
		}
	case token.SUB:
		switch x := x.(type) {
		case int64:
			return wrapInt(in.Type(), -x)
		case uint64:
			return wrapUint(in.Type(), -x)
		case float64:
			return -x
		case *Poly:
			return m.num(m.ctx.Neg(x), in.Type())
		}
	case token.XOR:
		switch x := x.(type) {
		case int64:
			return wrapInt(in.Type(), ^x)
		case uint64:
			return wrapUint(in.Type(), ^x)
		case *Poly:
			k := m.concretize(x)
			if isUnsigned(in.Type()) {
				return wrapUint(in.Type(), ^uint64(k))
			}
			return wrapInt(in.Type(), ^k)
		}
	case token.ARROW:
		v, ok := m.recv(fr, x.(*Chan), in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, ok}
		}
		return v
	}
	panic(unsupported{fmt.Sprintf("unop %s %T", in.Op, x)})
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}
func isFloatT(t types.Type) bool { b := basicOf(t); return b != nil && b.Info()&types.IsFloat != 0 }
func isIntT(t types.Type) bool   { b := basicOf(t); return b != nil && b.Info()&types.IsInteger != 0 }
func isUnsigned(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsUnsigned != 0
}

func wrapInt(t types.Type, x int64) Value {
	switch basicOf(t).Kind() {
	case types.Int8:
		return int64(int8(x))
	case types.Int16:
		return int64(int16(x))
	case types.Int32, types.UntypedRune:
		return int64(int32(x))
	}
	return x
}
func wrapUint(t types.Type, x uint64) Value {
	switch basicOf(t).Kind() {
	case types.Uint8:
		return uint64(uint8(x))
	case types.Uint16:
		return uint64(uint16(x))
	case types.Uint32:
		return uint64(uint32(x))
	}
	return x
}

// num turns a constant polynomial back into a concrete value of type t.
func (m *Machine) num(p *Poly, t types.Type) Value {
	if !p.IsConst() {
		return p
	}
	r := p.Rat()
	if isFloatT(t) {
		f, _ := r.Float64()
		if basicOf(t).Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	}
	if !r.IsInt() {
		panic(unsupported{"non-integral integer " + r.String()})
	}
	if isUnsigned(t) {
		return r.Num().Uint64()
	}
	return r.Num().Int64()
}

func (m *Machine) boolV(b *Bool) Value {
	if b == m.ctx.True {
		return true
	}
	if b == m.ctx.False {
		return false
	}
	return b
}

func (m *Machine) asBool(v Value) *Bool {
	switch v := v.(type) {
	case bool:
		if v {
			return m.ctx.True
		}
		return m.ctx.False
	case *Bool:
		return v
	}
	panic(unsupported{fmt.Sprintf("bool from %T", v)})
}

func (m *Machine) truth(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Bool:
		return m.branch(v)
	}
	panic(unsupported{fmt.Sprintf("truth of %T", v)})
}

// poly lifts a finite number; ok=false for NaN/Inf.
func (m *Machine) poly(v Value) (*Poly, bool) {
	switch v := v.(type) {
	case *Poly:
		return v, true
	case int64:
		return m.ctx.ConstI(v), true
	case uint64:
		if v < 1<<62 {
			return m.ctx.ConstI(int64(v)), true
		}
		return m.ctx.ConstF(float64(v)), true
	case float64:
		if math.IsNaN(v) || math.IsInf(v, 0) {
			return nil, false
		}
		return m.ctx.ConstF(v), true
	}
	panic(unsupported{fmt.Sprintf("number from %T", v)})
}

func (m *Machine) binop(fr *Frame, op token.Token, t types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return m.boolV(m.eq(fr, t, x, y))
	case token.NEQ:
		return m.boolV(m.ctx.Not(m.eq(fr, t, x, y)))
	}
	_, xs := x.(*Poly)
	_, ys := y.(*Poly)
	if xs || ys {
		return m.symBin(fr, op, t, x, y)
	}
	switch a := x.(type) {
	case int64:
		switch op {
		case token.SHL, token.SHR:
			var s uint64
			switch b := y.(type) {
			case int64:
				if b < 0 {
					m.rtPanic(fr, "negative shift amount")
				}
				s = uint64(b)
			case uint64:
				s = b
			}
			if op == token.SHL {
				return wrapInt(t, a<<s)
			}
			return wrapInt(t, a>>s)
		}
		b, ok := y.(int64)
		if !ok {
			panic(unsupported{fmt.Sprintf("binop int64 %T", y)})
		}
		switch op {
		case token.ADD:
			return wrapInt(t, a+b)
		case token.SUB:
			return wrapInt(t, a-b)
		case token.MUL:
			return wrapInt(t, a*b)
		case token.QUO:
			if b == 0 {
				m.rtPanic(fr, "integer divide by zero")
			}
			return wrapInt(t, a/b)
		case token.REM:
			if b == 0 {
				m.rtPanic(fr, "integer divide by zero")
			}
			return wrapInt(t, a%b)
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.XOR:
			return a ^ b
		case token.AND_NOT:
			return a &^ b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case uint64:
		switch op {
		case token.SHL, token.SHR:
			var s uint64
			switch b := y.(type) {
			case int64:
				if b < 0 {
					m.rtPanic(fr, "negative shift amount")
				}
				s = uint64(b)
			case uint64:
				s = b
			}
			if op == token.SHL {
				return wrapUint(t, a<<s)
			}
			return wrapUint(t, a>>s)
		}
		b, ok := y.(uint64)
		if !ok {
			panic(unsupported{fmt.Sprintf("binop uint64 %T", y)})
		}
		switch op {
		case token.ADD:
			return wrapUint(t, a+b)
		case token.SUB:
			return wrapUint(t, a-b)
		case token.MUL:
			return wrapUint(t, a*b)
		case token.QUO:
			if b == 0 {
				m.rtPanic(fr, "integer divide by zero")
			}
			return a / b
		case token.REM:
			if b == 0 {
				m.rtPanic(fr, "integer divide by zero")
			}
			return a % b
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.XOR:
			return a ^ b
		case token.AND_NOT:
			return a &^ b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case float64:
		b := y.(float64)
		rnd := func(f float64) Value {
			if basicOf(t) != nil && basicOf(t).Kind() == types.Float32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return rnd(a + b)
		case token.SUB:
			return rnd(a - b)
		case token.MUL:
			return rnd(a * b)
		case token.QUO:
			return rnd(a / b)
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case string:
		b := y.(string)
		switch op {
		case token.ADD:
			return a + b
		}
		if hasPH(a) || hasPH(b) {
			panic(unsupported{"ordering of symbolic text"})
		}
		switch op {
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case bool, *Bool:
		switch op {
		case token.AND, token.LAND:
			return m.boolV(m.ctx.And(m.asBool(x), m.asBool(y)))
		case token.OR, token.LOR:
			return m.boolV(m.ctx.Or(m.asBool(x), m.asBool(y)))
		}
	}
	panic(unsupported{fmt.Sprintf("binop %s %T %T", op, x, y)})
}

func (m *Machine) symBin(fr *Frame, op token.Token, t types.Type, x, y Value) Value {
	c := m.ctx
	a, aok := m.poly(x)
	b, bok := m.poly(y)
	isF := isFloatT(t)
	if !aok || !bok {
		return m.specialBin(op, x, y, a, b)
	}
	switch op {
	case token.LSS:
		return m.boolV(c.Atom(c.Sub(a, b), '<'))
	case token.LEQ:
		return m.boolV(c.Atom(c.Sub(a, b), 'l'))
	case token.GTR:
		return m.boolV(c.Atom(c.Sub(b, a), '<'))
	case token.GEQ:
		return m.boolV(c.Atom(c.Sub(b, a), 'l'))
	}
	if isF {
		var r *Poly
		switch op {
		case token.ADD:
			r = c.Add(a, b)
		case token.SUB:
			r = c.Sub(a, b)
		case token.MUL:
			r = c.Mul(a, b)
		case token.QUO:
			if !b.IsConst() {
				if m.branch(c.Atom(b, '=')) {
					return m.divZero(a)
				}
			} else if b.Rat().Sign() == 0 {
				return m.divZero(a)
			}
			r = c.Div(a, b)
		default:
			panic(unsupported{"symbolic float " + op.String()})
		}
		m.noteSign(op, a, b, r)
		if m.noise && !r.IsConst() && op != token.ADD && op != token.SUB || m.noise && !r.IsConst() && m.noiseAdd {
			r = m.addNoise(r)
		}
		if basicOf(t).Kind() == types.Float32 {
			r = c.F32(r)
		}
		return m.num(r, t)
	}
	// integers
	switch op {
	case token.ADD:
		return m.intRes(fr, c.Add(a, b), t)
	case token.SUB:
		return m.intRes(fr, c.Sub(a, b), t)
	case token.MUL:
		return m.intRes(fr, c.Mul(a, b), t)
	case token.QUO, token.REM:
		if m.branch(c.Atom(b, '=')) {
			m.rtPanic(fr, "integer divide by zero")
		}
		if !b.IsConst() {
			b = c.ConstI(m.concretize(b))
		}
		q := c.Trunc(c.Div(a, b))
		if op == token.QUO {
			return m.intRes(fr, q, t)
		}
		return m.intRes(fr, c.Sub(a, c.Mul(b, q)), t)
	}
	// bit operations: concretise
	var xv, yv Value = x, y
	conc := func(p *Poly, tt types.Type) Value {
		k := m.concretize(p)
		if isUnsigned(tt) {
			return uint64(k)
		}
		return k
	}
	if p, ok := x.(*Poly); ok {
		xv = conc(p, t)
	}
	if p, ok := y.(*Poly); ok {
		if op == token.SHL || op == token.SHR {
			yv = m.concretize(p)
		} else {
			yv = conc(p, t)
		}
	}
	return m.binop(fr, op, t, xv, yv)
}

// intRes checks that the exact result fits the machine type (otherwise the
// wrap-around is outside what is modelled and the path is cut as undecided).
func (m *Machine) intRes(fr *Frame, p *Poly, t types.Type) Value {
	lo, hi := intRange(t)
	if p.lo < lo || p.hi > hi {
		c := m.ctx
		in := c.And(c.Atom(c.Sub(c.ConstF(lo), p), 'l'), c.Atom(c.Sub(p, c.ConstF(hi)), 'l'))
		if in != c.True && !m.branch(in) {
			panic(unsupported{"integer wrap-around in " + m.eng.pos(fr)})
		}
	}
	return m.num(p, t)
}

func intRange(t types.Type) (float64, float64) {
	switch basicOf(t).Kind() {
	case types.Int8:
		return -128, 127
	case types.Int16:
		return -32768, 32767
	case types.Int32:
		return math.MinInt32, math.MaxInt32
	case types.Uint8:
		return 0, 255
	case types.Uint16:
		return 0, 65535
	case types.Uint32:
		return 0, math.MaxUint32
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, 18446744073709549568
	}
	return -9.2e18, 9.2e18
}

func (m *Machine) divZero(a *Poly) Value {
	c := m.ctx
	if m.branch(c.Atom(a, '=')) {
		return math.NaN()
	}
	if m.branch(c.Atom(a, '<')) {
		return math.Inf(-1) // sign of the zero divisor taken as +0
	}
	return math.Inf(1)
}

// specialBin: at least one operand is NaN or Inf and the other symbolic.
func (m *Machine) specialBin(op token.Token, x, y Value, a, b *Poly) Value {
	c := m.ctx
	rep := func(v Value, p *Poly) float64 { // representative finite value by sign
		if f, ok := v.(float64); ok {
			return f
		}
		if op != token.MUL && op != token.QUO {
			return 1
		}
		if m.branch(c.Atom(p, '=')) {
			return 0
		}
		if m.branch(c.Atom(p, '<')) {
			return -1
		}
		return 1
	}
	f, g := rep(x, a), rep(y, b)
	switch op {
	case token.ADD:
		return f + g
	case token.SUB:
		return f - g
	case token.MUL:
		return f * g
	case token.QUO:
		return f / g
	case token.LSS:
		return f < g
	case token.LEQ:
		return f <= g
	case token.GTR:
		return f > g
	case token.GEQ:
		return f >= g
	}
	panic(unsupported{"special " + op.String()})
}

func (m *Machine) eq(fr *Frame, t types.Type, x, y Value) *Bool {
	c := m.ctx
	b2 := func(b bool) *Bool {
		if b {
			return c.True
		}
		return c.False
	}
	switch a := x.(type) {
	case *Poly:
		p, ok := m.poly(y)
		if !ok {
			return c.False
		}
		return c.Atom(c.Sub(a, p), '=')
	case int64:
		if q, ok := y.(*Poly); ok {
			return c.Atom(c.Sub(q, c.ConstI(a)), '=')
		}
		return b2(a == y.(int64))
	case uint64:
		if q, ok := y.(*Poly); ok {
			p, _ := m.poly(a)
			return c.Atom(c.Sub(q, p), '=')
		}
		return b2(a == y.(uint64))
	case float64:
		if q, ok := y.(*Poly); ok {
			p, ok := m.poly(a)
			if !ok {
				return c.False
			}
			return c.Atom(c.Sub(q, p), '=')
		}
		return b2(a == y.(float64))
	case bool, *Bool:
		return c.Iff(m.asBool(x), m.asBool(y))
	case string:
		return m.strEq(a, y.(string))
	case *Value:
		b, _ := y.(*Value)
		return b2(a == b)
	case Struct:
		b := y.(Struct)
		st := t.Underlying().(*types.Struct)
		var fs []*Bool
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			fs = append(fs, m.eq(fr, st.Field(i).Type(), a[i], b[i]))
		}
		return c.And(fs...)
	case Array:
		b := y.(Array)
		et := t.Underlying().(*types.Array).Elem()
		var fs []*Bool
		for i := range a {
			fs = append(fs, m.eq(fr, et, a[i], b[i]))
		}
		return c.And(fs...)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			panic(unsupported{fmt.Sprintf("iface == %T", y)})
		}
		if a.t == nil || b.t == nil {
			return b2(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return c.False
		}
		if !types.Comparable(a.t) {
			m.rtPanic(fr, "comparing uncomparable type "+a.t.String())
		}
		return m.eq(fr, a.t, a.v, b.v)
	case []Value:
		b, _ := y.([]Value)
		if a == nil || b == nil {
			return b2(a == nil && b == nil)
		}
	case *Map:
		b, _ := y.(*Map)
		return b2(a == b)
	case *Chan:
		b, _ := y.(*Chan)
		return b2(a == b)
	case *ssa.Function:
		switch b := y.(type) {
		case *ssa.Function:
			return b2(a == b)
		case *Closure:
			return b2(a == nil && b == nil)
		}
	case *Closure:
		return b2(a == nil)
	case *ssa.Builtin:
		return c.False
	}
	panic(unsupported{fmt.Sprintf("== on %T, %T", x, y)})
}

func (m *Machine) convert(fr *Frame, to, from types.Type, v Value) Value {
	tb, fb := basicOf(to), basicOf(from)
	if tb != nil && fb != nil {
		switch {
		case tb.Info()&types.IsString != 0 && fb.Info()&types.IsString != 0:
			return v
		case tb.Info()&types.IsString != 0 && fb.Info()&types.IsInteger != 0:
			return string(rune(m.index(fr, v)))
		case tb.Info()&types.IsNumeric != 0 && fb.Info()&types.IsNumeric != 0:
			return m.convNum(fr, to, from, v)
		case tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer:
			return v
		}
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if s, ok := v.([]Value); ok {
			et := from.Underlying().(*types.Slice).Elem()
			if basicOf(et).Kind() == types.Uint8 {
				return m.bytesToStr(s)
			}
			var r []rune
			for _, x := range s {
				r = append(r, rune(m.index(fr, x)))
			}
			return string(r)
		}
	}
	if sl, ok := to.Underlying().(*types.Slice); ok {
		if s, ok := v.(string); ok {
			if basicOf(sl.Elem()).Kind() == types.Uint8 {
				return strToBytes(s)
			}
			var r []Value
			for _, x := range s {
				r = append(r, int64(x))
			}
			return r
		}
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	panic(unsupported{fmt.Sprintf("convert %s to %s", from, to)})
}

func strToBytes(s string) []Value {
	r := make([]Value, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = uint64(s[i])
	}
	return r
}

func (m *Machine) convNum(fr *Frame, to, from types.Type, v Value) Value {
	toF := isFloatT(to)
	switch x := v.(type) {
	case int64:
		if toF {
			return rndF(to, float64(x))
		}
		if isUnsigned(to) {
			return wrapUint(to, uint64(x))
		}
		return wrapInt(to, x)
	case uint64:
		if toF {
			return rndF(to, float64(x))
		}
		if isUnsigned(to) {
			return wrapUint(to, x)
		}
		return wrapInt(to, int64(x))
	case float64:
		if toF {
			return rndF(to, x)
		}
		if isUnsigned(to) {
			return wrapUint(to, uint64(x))
		}
		return wrapInt(to, int64(x))
	case *Poly:
		if toF {
			if basicOf(to).Kind() == types.Float32 && basicOf(from).Kind() != types.Float32 {
				return m.num(m.ctx.F32(x), to)
			}
			return x
		}
		if isFloatT(from) {
			p := m.ctx.Trunc(x)
			if m.run.h.concInt && m.sub == nil {
				p = m.ctx.ConstI(m.concretize(p))
			}
			return m.intRes(fr, p, to)
		}
		return m.intRes(fr, x, to)
	}
	panic(unsupported{fmt.Sprintf("numeric conversion of %T", v)})
}

func rndF(t types.Type, f float64) Value {
	if basicOf(t).Kind() == types.Float32 {
		return float64(float32(f))
	}
	return f
}

func (m *Machine) slice(fr *Frame, in *ssa.Slice) Value {
	x := fr.get(in.X)
	lo, hi, max := int64(0), int64(-1), int64(-1)
	if in.Low != nil {
		lo = m.index(fr, fr.get(in.Low))
	}
	if in.High != nil {
		hi = m.index(fr, fr.get(in.High))
	}
	if in.Max != nil {
		max = m.index(fr, fr.get(in.Max))
	}
	switch x := x.(type) {
	case string:
		if hi < 0 && in.High == nil {
			hi = int64(len(x))
		}
		if lo < 0 || hi < lo || hi > int64(len(x)) {
			m.rtPanic(fr, fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, len(x)))
		}
		return x[lo:hi]
	case []Value:
		if in.High == nil {
			hi = int64(len(x))
		}
		if in.Max == nil {
			max = int64(cap(x))
		}
		if lo < 0 || hi < lo || max < hi || max > int64(cap(x)) {
			m.rtPanic(fr, fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", lo, hi, cap(x)))
		}
		if x == nil {
			return x
		}
		return x[lo:hi:max]
	case *Value:
		if x == nil {
			m.rtPanic(fr, "invalid memory address or nil pointer dereference")
		}
		a := (*x).(Array)
		if in.High == nil {
			hi = int64(len(a))
		}
		if in.Max == nil {
			max = int64(len(a))
		}
		if lo < 0 || hi < lo || max < hi || max > int64(len(a)) {
			m.rtPanic(fr, "slice bounds out of range")
		}
		return []Value(a)[lo:hi:max]
	}
	panic(unsupported{fmt.Sprintf("slice of %T", x)})
}

func (m *Machine) typeAssert(fr *Frame, in *ssa.TypeAssert) Value {
	x := fr.get(in.X).(Iface)
	ok := false
	var v Value
	if x.t != nil {
		if it, is := in.AssertedType.Underlying().(*types.Interface); is {
			ok = m.eng.implements(x.t, it)
			v = x
		} else {
			ok = types.Identical(x.t, in.AssertedType)
			v = x.v
		}
	}
	if !ok {
		if !in.CommaOk {
			m.rtPanic(fr, "interface conversion: wrong dynamic type")
		}
		v = zero(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{copyVal(v), ok}
	}
	return copyVal(v)
}

// ---- maps ----

func (m *Machine) mapFind(fr *Frame, mp *Map, k Value, kt types.Type) int {
	if mp == nil {
		return -1
	}
	if ck, ok := canon(k); ok && !mp.sym {
		if i, ok := mp.idx[ck]; ok {
			return i
		}
		return -1
	}
	for i := range mp.keys {
		e := m.eq(fr, kt, mp.keys[i], k)
		if e == m.ctx.True || (e != m.ctx.False && m.branch(e)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapSet(fr *Frame, mp *Map, k, v Value, kt types.Type) {
	if i := m.mapFind(fr, mp, k, kt); i >= 0 {
		mp.vals[i] = v
		return
	}
	if ck, ok := canon(k); ok {
		mp.idx[ck] = len(mp.keys)
	} else {
		mp.sym = true
	}
	mp.keys = append(mp.keys, k)
	mp.vals = append(mp.vals, v)
}

func (m *Machine) mapDelete(fr *Frame, mp *Map, k Value, kt types.Type) {
	i := m.mapFind(fr, mp, k, kt)
	if i < 0 {
		return
	}
	nk := append([]Value{}, mp.keys[:i]...)
	nk = append(nk, mp.keys[i+1:]...)
	nv := append([]Value{}, mp.vals[:i]...)
	nv = append(nv, mp.vals[i+1:]...)
	mp.keys, mp.vals = nk, nv
	mp.idx = map[string]int{}
	mp.sym = false
	for j, k := range nk {
		if ck, ok := canon(k); ok {
			mp.idx[ck] = j
		} else {
			mp.sym = true
		}
	}
}

func (m *Machine) lookup(fr *Frame, in *ssa.Lookup) Value {
	x := fr.get(in.X)
	if s, ok := x.(string); ok {
		i := m.index(fr, fr.get(in.Index))
		if i < 0 || i >= int64(len(s)) {
			m.rtPanic(fr, "index out of range")
		}
		return uint64(s[i])
	}
	mp := x.(*Map)
	mt := in.X.Type().Underlying().(*types.Map)
	if mp != nil {
		m.access(fr, &mp.cell, false)
	}
	i := m.mapFind(fr, mp, fr.get(in.Index), mt.Key())
	var v Value
	if i >= 0 {
		v = copyVal(mp.vals[i])
	} else {
		v = zero(mt.Elem())
	}
	if in.CommaOk {
		return Tuple{v, i >= 0}
	}
	return v
}

type iter struct {
	mp   *Map
	rest []Value
	str  string
	pos  int
	isS  bool
	kt   types.Type
}

func (m *Machine) rangeIter(fr *Frame, in *ssa.Range) Value {
	x := fr.get(in.X)
	if s, ok := x.(string); ok {
		return &iter{str: s, isS: true}
	}
	mp := x.(*Map)
	it := &iter{mp: mp, kt: in.X.Type().Underlying().(*types.Map).Key()}
	if mp != nil {
		m.access(fr, &mp.cell, false)
		it.rest = append(it.rest, mp.keys...)
	}
	return it
}

func (m *Machine) next(fr *Frame, in *ssa.Next) Value {
	it := fr.get(in.Iter).(*iter)
	if it.isS {
		if it.pos >= len(it.str) {
			return Tuple{false, int64(0), int64(0)}
		}
		p := it.pos
		for i, r := range it.str[p:] {
			if i > 0 {
				it.pos = p + i
				return Tuple{true, int64(p), int64(firstRune(it.str[p:]))}
			}
			_ = r
		}
		it.pos = len(it.str)
		return Tuple{true, int64(p), int64(firstRune(it.str[p:]))}
	}
	for len(it.rest) > 0 {
		i := 0
		if m.mapOrder && len(it.rest) > 1 {
			i = m.choose(len(it.rest), "map order")
		}
		k := it.rest[i]
		it.rest = append(append([]Value{}, it.rest[:i]...), it.rest[i+1:]...)
		j := m.mapFind(fr, it.mp, k, it.kt)
		if j < 0 {
			continue // deleted meanwhile
		}
		return Tuple{true, copyVal(k), copyVal(it.mp.vals[j])}
	}
	return Tuple{false, nil, nil}
}

func firstRune(s string) rune {
	for _, r := range s {
		return r
	}
	return 0
}

// ---- builtins ----

func (m *Machine) callBuiltin(fr *Frame, b *ssa.Builtin, args []Value, call *ssa.CallCommon) Value {
	switch b.Name() {
	case "append":
		var et types.Type = types.Typ[types.Uint8]
		if call != nil {
			et = call.Args[0].Type().Underlying().(*types.Slice).Elem()
		}
		s, _ := args[0].([]Value)
		if len(args) == 1 {
			return s
		}
		var add []Value
		switch y := args[1].(type) {
		case string:
			add = strToBytes(y)
		case []Value:
			add = make([]Value, len(y))
			for i := range y {
				m.access(fr, &y[i], false)
				add[i] = copyVal(y[i])
			}
		}
		if m.multi {
			r := s[:cap(s)]
			if len(s)+len(add) <= cap(s) {
				for i := len(s); i < len(s)+len(add); i++ {
					m.access(fr, &r[i], true)
				}
			}
		}
		return appendVals(s, et, add)
	case "copy":
		dst := args[0].([]Value)
		var src []Value
		switch y := args[1].(type) {
		case string:
			src = strToBytes(y)
		case []Value:
			src = y
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			m.access(fr, &src[i], false)
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			m.access(fr, &dst[i], true)
			storeInto(&dst[i], tmp[i])
		}
		return int64(n)
	case "len":
		switch x := args[0].(type) {
		case string:
			return int64(len(x))
		case []Value:
			return int64(len(x))
		case Array:
			return int64(len(x))
		case *Map:
			if x == nil {
				return int64(0)
			}
			m.access(fr, &x.cell, false)
			return int64(len(x.keys))
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		case *Value:
			return int64(len((*x).(Array)))
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return int64(cap(x))
		case Array:
			return int64(len(x))
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(x.cap)
		}
	case "close":
		m.closeChan(fr, args[0].(*Chan))
		return nil
	case "delete":
		mp := args[0].(*Map)
		var kt types.Type
		if call != nil {
			kt = call.Args[0].Type().Underlying().(*types.Map).Key()
		}
		if mp != nil {
			m.access(fr, &mp.cell, true)
			m.mapDelete(fr, mp, args[1], kt)
		}
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{v: args[0], msg: "panic: " + show(args[0]), where: m.eng.pos(fr)})
	case "recover":
		// fr is the deferred function's frame; its caller is the panicking frame
		if fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			p := fr.caller.panicV.(targetPanic)
			if p.runtime {
				return Iface{t: types.Universe.Lookup("error").Type(), v: p.msg}
			}
			if i, ok := p.v.(Iface); ok {
				return i
			}
			return Iface{}
		}
		return Iface{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.rtPanic(fr, "value method called using nil pointer")
		}
		return args[0]
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			r = m.minmax(fr, b.Name() == "min", r, y, call.Args[0].Type())
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			x.keys, x.vals, x.idx, x.sym = nil, nil, map[string]int{}, false
		}
		return nil
	}
	panic(unsupported{"builtin " + b.Name()})
}

func (m *Machine) minmax(fr *Frame, isMin bool, x, y Value, t types.Type) Value {
	a, ok1 := m.poly(x)
	b, ok2 := m.poly(y)
	if !ok1 || !ok2 {
		f, g := 0.0, 0.0
		if v, ok := x.(float64); ok {
			f = v
		}
		if v, ok := y.(float64); ok {
			g = v
		}
		if math.IsNaN(f) || math.IsNaN(g) {
			return math.NaN()
		}
		if !ok1 && ((f < 0) == isMin) {
			return x
		}
		if !ok1 {
			return y
		}
		if (g < 0) == isMin {
			return y
		}
		return x
	}
	if isMin {
		return m.num(m.ctx.Min(a, b), t)
	}
	return m.num(m.ctx.Max(a, b), t)
}
