package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

var farFuture = time.Now().Add(1000 * time.Hour)

type intrinsic func(m *Machine, caller *Frame, fn *ssa.Function, args []Value) Value

var intrinsics map[string]intrinsic

func (e *Engine) findIntrinsic(fn *ssa.Function) intrinsic {
	n := fn.String()
	if i, ok := intrinsics[n]; ok {
		return i
	}
	p := fnPkgPath(fn)
	if p == modPath+"/zzverif/vh" {
		if i, ok := intrinsics["vh."+fn.Name()]; ok {
			return i
		}
	}
	switch p {
	case "gopkg.in/alecthomas/kingpin.v2":
		return func(m *Machine, fr *Frame, fn *ssa.Function, args []Value) Value { return opaqueResults(fn) }
	case "math":
		if _, ok := math1[fn.Name()]; ok {
			return mathCall
		}
	case "unicode":
		return unicodeCall
	}
	return nil
}

func stubZero(m *Machine, fr *Frame, fn *ssa.Function, args []Value) Value { return zeroResults(fn) }

func unicodeCall(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
	r := rune(m.index(fr, a[0]))
	switch fn.Name() {
	case "IsSpace":
		switch r {
		case '\t', '\n', '\v', '\f', '\r', ' ', 0x85, 0xA0:
			return true
		}
		return false
	case "IsDigit":
		return r >= '0' && r <= '9'
	case "IsLetter":
		return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'
	case "ToLower":
		return int64(strings.ToLower(string(r))[0])
	case "ToUpper":
		return int64(strings.ToUpper(string(r))[0])
	}
	panic(unsupported{"unicode." + fn.Name()})
}

var math1 = map[string]func(float64) float64{
	"Sqrt": math.Sqrt, "Abs": math.Abs, "Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Round": math.Round,
	"Cos": math.Cos, "Sin": math.Sin, "Tan": math.Tan, "Acos": math.Acos, "Asin": math.Asin, "Atan": math.Atan,
	"Exp": math.Exp, "Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Cbrt": math.Cbrt, "RoundToEven": math.RoundToEven,
	"Pow": nil, "Min": nil, "Max": nil, "Mod": nil, "Atan2": nil, "Hypot": nil, "IsNaN": nil, "IsInf": nil, "Inf": nil, "NaN": nil,
	"Float32bits": nil, "Float32frombits": nil, "Float64bits": nil, "Float64frombits": nil, "Signbit": nil, "Copysign": nil,
	"Modf": nil, "Sincos": nil, "FMA": nil, "Dim": nil,
}

var fT = types.Typ[types.Float64]

func (m *Machine) symSqrt(fr *Frame, p *Poly) Value {
	if m.branch(m.ctx.Atom(p, '<')) {
		return math.NaN()
	}
	r := m.ctx.Sqrt(p)
	if m.noise {
		r = m.addNoise(r)
	}
	return m.num(r, fT)
}

func mathCall(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
	c := m.ctx
	name := fn.Name()
	switch name {
	case "Inf":
		return math.Inf(int(m.index(fr, a[0])))
	case "NaN":
		return math.NaN()
	case "Float32bits":
		switch x := a[0].(type) {
		case float64:
			return uint64(math.Float32bits(float32(x)))
		case *Poly:
			return &Bits32{x}
		}
	case "Float32frombits":
		switch x := a[0].(type) {
		case uint64:
			return float64(math.Float32frombits(uint32(x)))
		case *Bits32:
			return m.num(x.p, types.Typ[types.Float32])
		}
	case "Float64bits":
		if x, ok := a[0].(float64); ok {
			return math.Float64bits(x)
		}
	case "Float64frombits":
		if x, ok := a[0].(uint64); ok {
			return math.Float64frombits(x)
		}
	}
	sym := false
	for _, x := range a {
		if _, ok := x.(*Poly); ok {
			sym = true
		}
	}
	if !sym {
		f := func(i int) float64 {
			switch x := a[i].(type) {
			case float64:
				return x
			case int64:
				return float64(x)
			}
			panic(unsupported{fmt.Sprintf("math.%s of %T", name, a[i])})
		}
		if g := math1[name]; g != nil {
			return g(f(0))
		}
		switch name {
		case "Pow":
			return math.Pow(f(0), f(1))
		case "Min":
			return math.Min(f(0), f(1))
		case "Max":
			return math.Max(f(0), f(1))
		case "Mod":
			return math.Mod(f(0), f(1))
		case "Atan2":
			return math.Atan2(f(0), f(1))
		case "Hypot":
			return math.Hypot(f(0), f(1))
		case "Dim":
			return math.Dim(f(0), f(1))
		case "FMA":
			return math.FMA(f(0), f(1), f(2))
		case "IsNaN":
			return math.IsNaN(f(0))
		case "IsInf":
			return math.IsInf(f(0), int(f(1)))
		case "Signbit":
			return math.Signbit(f(0))
		case "Copysign":
			return math.Copysign(f(0), f(1))
		case "Modf":
			x, y := math.Modf(f(0))
			return Tuple{x, y}
		case "Sincos":
			x, y := math.Sincos(f(0))
			return Tuple{x, y}
		}
		panic(unsupported{"math." + name})
	}
	switch name {
	case "IsNaN", "IsInf":
		return false
	}
	var ps []*Poly
	for _, x := range a {
		p, ok := m.poly(x)
		if !ok {
			// an infinite or undefined operand next to a symbolic one
			switch name {
			case "Min", "Max":
				return m.minmax(fr, name == "Min", a[0], a[1], fT)
			}
			panic(unsupported{"math." + name + " with special operand"})
		}
		ps = append(ps, p)
	}
	r := func(p *Poly) Value { return m.num(p, fT) }
	nz := func(p *Poly) Value {
		if m.noise && !p.IsConst() {
			p = m.addNoise(p)
		}
		return m.num(p, fT)
	}
	switch name {
	case "Sqrt":
		return m.symSqrt(fr, ps[0])
	case "Abs":
		return r(c.Abs(ps[0]))
	case "Floor":
		return r(c.Floor(ps[0]))
	case "Ceil":
		return r(c.Ceil(ps[0]))
	case "Trunc":
		return r(c.Trunc(ps[0]))
	case "Round":
		h := c.Const(big.NewRat(1, 2))
		if m.ctx.isInt(ps[0]) {
			return r(ps[0])
		}
		return r(c.Ite(c.Atom(c.Neg(ps[0]), 'l'), c.Floor(c.Add(ps[0], h)), c.Ceil(c.Sub(ps[0], h))))
	case "Min":
		return r(c.Min(ps[0], ps[1]))
	case "Max":
		return r(c.Max(ps[0], ps[1]))
	case "Dim":
		return r(c.Max(c.Sub(ps[0], ps[1]), c.zero))
	case "Hypot":
		x, y := c.Mul(ps[0], ps[0]), c.Mul(ps[1], ps[1])
		s := c.Add(x, y)
		m.noteSign(token.MUL, ps[0], ps[0], x)
		m.noteSign(token.MUL, ps[1], ps[1], y)
		m.noteSign(token.ADD, x, y, s)
		return m.symSqrt(fr, s)
	case "FMA":
		return r(c.Add(c.Mul(ps[0], ps[1]), ps[2]))
	case "Pow":
		if ps[1].IsConst() {
			e := ps[1].Rat()
			if e.IsInt() {
				k := e.Num().Int64()
				if k == 0 {
					return 1.0
				}
				if k > 0 && k <= 6 {
					x := ps[0]
					for i := int64(1); i < k; i++ {
						x = c.Mul(x, ps[0])
					}
					if k == 2 {
						m.noteSign(token.MUL, ps[0], ps[0], x)
					}
					return nz(x)
				}
				if k < 0 && k >= -3 {
					if m.branch(c.Atom(ps[0], '=')) {
						return math.Inf(1)
					}
					x := ps[0]
					for i := int64(1); i < -k; i++ {
						x = c.Mul(x, ps[0])
					}
					return nz(c.Div(c.ConstI(1), x))
				}
			}
			if e.Cmp(big.NewRat(1, 2)) == 0 {
				return m.symSqrt(fr, ps[0])
			}
		}
	case "Mod":
		if ps[1].IsConst() && ps[1].Rat().Sign() != 0 {
			q := c.Trunc(c.Div(ps[0], ps[1]))
			return r(c.Sub(ps[0], c.Mul(ps[1], q)))
		}
	case "Cos":
		return r(c.trig(ps[0], true))
	case "Sin":
		return r(c.trig(ps[0], false))
	case "Sincos":
		return Tuple{r(c.trig(ps[0], false)), r(c.trig(ps[0], true))}
	case "Tan":
		s, co := c.trig(ps[0], false), c.trig(ps[0], true)
		if m.branch(c.Atom(co, '=')) {
			return math.Inf(1)
		}
		return r(c.Div(s, co))
	case "Acos":
		one := c.ConstI(1)
		if m.branch(c.Or(c.Atom(c.Sub(one, ps[0]), '<'), c.Atom(c.Add(one, ps[0]), '<'))) {
			return math.NaN()
		}
		return r(c.Acos(ps[0]))
	case "Asin":
		one := c.ConstI(1)
		if m.branch(c.Or(c.Atom(c.Sub(one, ps[0]), '<'), c.Atom(c.Add(one, ps[0]), '<'))) {
			return math.NaN()
		}
		return r(c.Sub(c.ConstF(math.Pi/2), c.Acos(ps[0])))
	case "Atan2":
		if m.branch(c.And(c.Atom(ps[0], '='), c.Atom(ps[1], '='))) {
			return 0.0
		}
		return r(c.Atan2(ps[0], ps[1]))
	case "Signbit":
		return m.boolV(c.Atom(ps[0], '<'))
	case "Copysign":
		ab := c.Abs(ps[0])
		return r(c.Ite(c.Atom(ps[1], '<'), c.Neg(ab), ab))
	}
	panic(unsupported{"math." + name + " of a symbolic value"})
}

// addNoise models one rounding: r*(1+e), |e| <= 2^-53.
func (m *Machine) addNoise(r *Poly) *Poly {
	c := m.ctx
	if w, _, ok := r.scaledVar(); ok && (w.Kind == KAcos || w.Kind == KAtan) {
		return r // the turning of radians into degrees counts as exact
	}
	v := c.mkVar(fmt.Sprintf("noise %d", r.ID), "", KNoise, false, -math.Ldexp(1, -53), math.Ldexp(1, -53), nil, nil, nil, 0)
	return c.Add(r, c.Mul(r, c.VarP(v)))
}

// ---- text with symbolic numbers ----

type phEntry struct {
	p    *Poly
	prec int // -1: exact
	f32  bool
}

const (
	exactPrec = -1
	sigPrec   = -2 // significant digits; the value is the rounded one
)

const phLen = 8

func (m *Machine) mkPH(p *Poly, prec int, f32 bool) string {
	for i, e := range m.ph {
		if e.p == p && e.prec == prec && e.f32 == f32 {
			return phStr(i)
		}
	}
	m.ph = append(m.ph, phEntry{p, prec, f32})
	return phStr(len(m.ph) - 1)
}
func phStr(i int) string {
	b := []byte{1, 0, 0, 0, 0, 0, 0, 2}
	for k := 0; k < 6; k++ {
		b[1+k] = 0x10 + byte(i>>(4*(5-k)))&15
	}
	return string(b)
}

func hasPH(s string) bool { return strings.IndexByte(s, 1) >= 0 }

func (m *Machine) phAt(s string) (phEntry, bool) {
	if len(s) != phLen || s[0] != 1 || s[7] != 2 {
		return phEntry{}, false
	}
	i := 0
	for k := 1; k < 7; k++ {
		if s[k] < 0x10 || s[k] > 0x1f {
			return phEntry{}, false
		}
		i = i<<4 | int(s[k]-0x10)
	}
	if i >= len(m.ph) {
		return phEntry{}, false
	}
	return m.ph[i], true
}

func (m *Machine) phVal(e phEntry) *Poly {
	if e.prec < 0 {
		return e.p
	}
	return m.ctx.Dec(e.p, e.prec)
}

// split text into literal and number parts
func (m *Machine) textParts(s string) ([]string, []phEntry, bool) {
	var lit []string
	var nums []phEntry
	for {
		i := strings.IndexByte(s, 1)
		if i < 0 {
			lit = append(lit, s)
			return lit, nums, true
		}
		if len(s) < i+phLen {
			return nil, nil, false
		}
		e, ok := m.phAt(s[i : i+phLen])
		if !ok {
			return nil, nil, false
		}
		lit = append(lit, s[:i])
		nums = append(nums, e)
		s = s[i+phLen:]
	}
}

func (m *Machine) strEq(a, b string) *Bool {
	c := m.ctx
	if a == b {
		return c.True
	}
	if !hasPH(a) && !hasPH(b) {
		return c.False
	}
	la, na, ok1 := m.textParts(a)
	lb, nb, ok2 := m.textParts(b)
	if !ok1 || !ok2 {
		panic(unsupported{"comparison of cut symbolic text"})
	}
	if len(la) == len(lb) {
		same := true
		for i := range la {
			if la[i] != lb[i] {
				same = false
			}
		}
		if same {
			var cs []*Bool
			for i := range na {
				df := c.Atom(c.Sub(m.phVal(na[i]), m.phVal(nb[i])), '=')
				if pa, pb := na[i].prec, nb[i].prec; pa != pb {
					if pa != exactPrec && pb != exactPrec && pa != sigPrec && pb != sigPrec {
						return c.False // another number of decimals
					}
					// the same number may or may not be written the same way
					df = c.And(df, c.Atom(c.Opaque(m.fresh("spelling"), -1, 1, nil), '<'))
				}
				cs = append(cs, df)
			}
			return c.And(cs...)
		}
	}
	// one side concrete, the other literal+number+literal
	if len(na) == 1 && len(nb) == 0 || len(nb) == 1 && len(na) == 0 {
		if len(nb) == 1 {
			la, na, b = lb, nb, a
		}
		if strings.HasPrefix(b, la[0]) && strings.HasSuffix(b, la[1]) && len(b) >= len(la[0])+len(la[1]) {
			mid := b[len(la[0]) : len(b)-len(la[1])]
			f, err := strconv.ParseFloat(mid, 64)
			if err != nil {
				return c.False
			}
			if na[0].prec >= 0 && strconv.FormatFloat(f, 'f', na[0].prec, 64) != mid {
				return c.False
			}
			return c.Atom(c.Sub(m.phVal(na[0]), c.ConstF(f)), '=')
		}
		return c.False
	}
	// a number never contains letters or blanks: compare the skeletons of letters
	if skeleton(la) != skeleton(lb) {
		return c.False
	}
	// nor any of these: compare what stands between them
	const seps = " \n\t,|;:"
	ta, tb := strings.FieldsFunc(a, isSep(seps)), strings.FieldsFunc(b, isSep(seps))
	if len(ta) != len(tb) {
		return c.False
	}
	if len(ta) == 1 {
		panic(unsupported{"comparison of symbolic text"})
	}
	var cs []*Bool
	for i := range ta {
		x := m.strEq(ta[i], tb[i])
		if x == c.False {
			return x
		}
		cs = append(cs, x)
	}
	return c.And(cs...)
}

func isSep(seps string) func(rune) bool {
	return func(r rune) bool { return strings.ContainsRune(seps, r) }
}

func skeleton(l []string) string {
	var sb strings.Builder
	for _, s := range l {
		for _, r := range s {
			if !(r >= '0' && r <= '9' || r == '.' || r == '-' || r == '+') {
				sb.WriteRune(r)
			}
		}
	}
	return sb.String()
}

func (m *Machine) bytesToStr(s []Value) Value {
	b := make([]byte, len(s))
	for i, x := range s {
		switch x := x.(type) {
		case uint64:
			b[i] = byte(x)
		case *ByteTok:
			b[i] = 0x80 // an arbitrary non-text byte
		case *Poly:
			b[i] = byte(m.concretize(x))
		default:
			panic(unsupported{fmt.Sprintf("string of %T", x)})
		}
	}
	return string(b)
}

func (m *Machine) fmtNum(v Value, f byte, prec, bits int) string {
	switch x := v.(type) {
	case float64:
		return strconv.FormatFloat(x, f, prec, bits)
	case *Poly:
		if f != 'f' && prec >= 0 {
			return m.sigPH(x, f, prec)
		}
		return m.mkPH(x, prec, bits == 32)
	}
	panic(unsupported{fmt.Sprintf("FormatFloat of %T", v)})
}

// sigPH: a number written with so many significant digits
func (m *Machine) sigPH(x *Poly, f byte, prec int) string {
	if f != 'g' && f != 'G' && f != 'e' && f != 'E' {
		panic(unsupported{"number format " + string(f)})
	}
	n := prec
	if f == 'e' || f == 'E' {
		n++
	} else if n == 0 {
		n = 1
	}
	c := m.ctx
	ab := c.Abs(x)
	for j := 7; j >= -6; j-- {
		if m.branch(c.Not(c.Atom(c.Sub(ab, c.ConstF(math.Pow(10, float64(j)))), '<'))) {
			return m.mkPH(c.Dec(x, n-1-j), sigPrec, false)
		}
	}
	return m.mkPH(c.Dec(x, n+6), sigPrec, false)
}

func (m *Machine) errVal(msg string) Value {
	for _, p := range m.eng.pkgs {
		if p.Pkg.Path() == "errors" {
			t := p.Type("errorString").Type()
			pv := new(Value)
			*pv = Struct{msg}
			return Iface{t: types.NewPointer(t), v: pv}
		}
	}
	panic(unsupported{"errors package not loaded"})
}

func (m *Machine) stdErr(pkg, name string) Value {
	for _, p := range m.eng.pkgs {
		if p.Pkg.Path() == pkg {
			if g := p.Var(name); g != nil {
				return *m.global(g)
			}
		}
	}
	return m.errVal(name)
}

func errMsg(m *Machine, fr *Frame, v Value) string {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return "<nil>"
	}
	return m.fmtVal(fr, i, 'v', -1)
}

// fmtVal formats one operand.
func (m *Machine) fmtVal(fr *Frame, i Iface, verb byte, prec int) string {
	if i.t == nil {
		return "<nil>"
	}
	if verb == 'v' || verb == 's' {
		for _, n := range []string{"Error", "String"} {
			if ms := types.NewMethodSet(i.t).Lookup(nil, n); ms != nil {
				if f, ok := ms.Obj().(*types.Func); ok && f.Type().(*types.Signature).Params().Len() == 0 {
					sf := m.eng.lookupMethod(i.t, f)
					if sf != nil && m.eng.interpretable(sf) {
						r := m.callSSA(fr, sf, []Value{i.v}, nil)
						if s, ok := r.(string); ok {
							return s
						}
					}
				}
			}
		}
	}
	return m.fmtPlain(fr, i.t, i.v, verb, prec)
}

func (m *Machine) fmtPlain(fr *Frame, t types.Type, v Value, verb byte, prec int) string {
	switch x := v.(type) {
	case string:
		if verb == 'q' {
			return strconv.Quote(x)
		}
		return x
	case int64:
		if verb == 'c' {
			return string(rune(x))
		}
		if verb == 'x' {
			return strconv.FormatInt(x, 16)
		}
		return strconv.FormatInt(x, 10)
	case uint64:
		if verb == 'x' {
			return strconv.FormatUint(x, 16)
		}
		return strconv.FormatUint(x, 10)
	case bool:
		return strconv.FormatBool(x)
	case *Bool:
		if m.branch(x) {
			return "true"
		}
		return "false"
	case float64:
		switch verb {
		case 'f', 'F':
			if prec < 0 {
				prec = 6
			}
			return strconv.FormatFloat(x, 'f', prec, 64)
		case 'e', 'g':
			return strconv.FormatFloat(x, verb, prec, 64)
		}
		if prec >= 0 {
			return strconv.FormatFloat(x, 'g', prec, 64)
		}
		bits := 64
		if basicOf(t) != nil && basicOf(t).Kind() == types.Float32 {
			bits = 32
		}
		return fmt.Sprint(fl(x, bits))
	case *Poly:
		if m.ctx.isInt(x) && (isIntT(t) || isUnsigned(t)) {
			return m.mkPH(x, -1, false)
		}
		switch verb {
		case 'f', 'F':
			if prec < 0 {
				prec = 6
			}
			return m.mkPH(x, prec, false)
		}
		if prec < 0 {
			return m.mkPH(x, -1, false)
		}
		return m.sigPH(x, byte(verb), prec)
	case Struct:
		st, ok := t.Underlying().(*types.Struct)
		var ps []string
		for i, f := range x {
			ft := fT.Underlying()
			if ok {
				ft = st.Field(i).Type()
			}
			if ii, is := f.(Iface); is {
				ps = append(ps, m.fmtVal(fr, ii, verb, prec))
			} else {
				ps = append(ps, m.fmtVal(fr, Iface{ft, f}, verb, prec))
			}
		}
		return "{" + strings.Join(ps, " ") + "}"
	case []Value:
		et := types.Type(fT)
		if sl, ok := t.Underlying().(*types.Slice); ok {
			et = sl.Elem()
			if basicOf(et) != nil && basicOf(et).Kind() == types.Uint8 && (verb == 's') {
				return m.bytesToStr(x).(string)
			}
		}
		var ps []string
		for _, f := range x {
			ps = append(ps, m.fmtVal(fr, Iface{et, f}, verb, prec))
		}
		return "[" + strings.Join(ps, " ") + "]"
	case Iface:
		return m.fmtVal(fr, x, verb, prec)
	case *Value:
		if x == nil {
			return "<nil>"
		}
		if s, ok := (*x).(Struct); ok {
			return "&" + m.fmtPlain(fr, t.Underlying().(*types.Pointer).Elem(), s, verb, prec)
		}
		return "0xc000010000"
	case nil:
		return "<nil>"
	}
	return fmt.Sprintf("%v", v)
}

func fl(x float64, bits int) interface{} {
	if bits == 32 {
		return float32(x)
	}
	return x
}

func (m *Machine) sprintf(fr *Frame, format string, args []Value) string {
	var sb strings.Builder
	ai := 0
	next := func() Iface {
		if ai >= len(args) {
			return Iface{}
		}
		ai++
		return args[ai-1].(Iface)
	}
	for i := 0; i < len(format); i++ {
		ch := format[i]
		if ch != '%' {
			sb.WriteByte(ch)
			continue
		}
		i++
		start := i
		for i < len(format) && strings.IndexByte("+-# 0", format[i]) >= 0 {
			i++
		}
		flags := format[start:i]
		w, prec := -1, -1
		num := func() int {
			if i < len(format) && format[i] == '*' {
				i++
				return int(m.index(fr, next().v))
			}
			j := i
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				i++
			}
			if j == i {
				return -1
			}
			n, _ := strconv.Atoi(format[j:i])
			return n
		}
		w = num()
		if i < len(format) && format[i] == '.' {
			i++
			prec = num()
			if prec < 0 {
				prec = 0
			}
		}
		if i >= len(format) {
			sb.WriteString("%!(NOVERB)")
			break
		}
		v := format[i]
		if v == '%' {
			sb.WriteByte('%')
			continue
		}
		if ai >= len(args) {
			sb.WriteString("%!" + string(v) + "(MISSING)")
			continue
		}
		a := next()
		var s string
		if v == 'T' {
			s = a.t.String()
		} else {
			verb := v
			if v == 'd' || v == 't' || v == 'w' {
				verb = 'v'
				if v == 'd' {
					verb = 'd'
				}
			}
			s = m.fmtVal(fr, a, verb, prec)
			if v == 's' && prec >= 0 && len(s) > prec {
				s = s[:prec]
			}
		}
		if strings.Contains(flags, "+") && v != 'v' && len(s) > 0 && s[0] != '-' {
			if hasPH(s) {
				panic(unsupported{"signed format of a symbolic number"})
			}
			s = "+" + s
		}
		if w > len(s) {
			if hasPH(s) {
				panic(unsupported{"padded format of a symbolic number"})
			}
			pad := strings.Repeat(" ", w-len(s))
			if strings.Contains(flags, "-") {
				s += pad
			} else if strings.Contains(flags, "0") {
				s = strings.Repeat("0", w-len(s)) + s
			} else {
				s = pad + s
			}
		}
		sb.WriteString(s)
	}
	if ai < len(args) {
		sb.WriteString("%!(EXTRA)")
	}
	return sb.String()
}

func (m *Machine) sprint(fr *Frame, args []Value, ln bool) string {
	var sb strings.Builder
	for i, a := range args {
		x := a.(Iface)
		_, isStr := x.v.(string)
		if i > 0 {
			_, pStr := args[i-1].(Iface).v.(string)
			if ln || (!isStr && !pStr) {
				sb.WriteByte(' ')
			}
		}
		sb.WriteString(m.fmtVal(fr, x, 'v', -1))
	}
	if ln {
		sb.WriteByte('\n')
	}
	return sb.String()
}

func vslice(v Value) []Value { s, _ := v.([]Value); return s }

// toBytes returns concrete bytes or an error for symbolic ones.
func (m *Machine) concBytes(s []Value) ([]byte, bool) {
	b := make([]byte, len(s))
	for i, x := range s {
		u, ok := x.(uint64)
		if !ok {
			return nil, false
		}
		b[i] = byte(u)
	}
	return b, true
}

func str1(f func(string) Value) intrinsic {
	return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return f(a[0].(string)) }
}

func toStrs(ss []string) Value {
	if ss == nil {
		return []Value(nil)
	}
	r := make([]Value, len(ss))
	for i, s := range ss {
		r[i] = s
	}
	return r
}

// insertion sort / pdqsort as in package sort
func (m *Machine) sortSlice(fr *Frame, s []Value, less Value, stable bool) {
	n := len(s)
	swap := func(i, j int) {
		a, b := copyVal(s[i]), copyVal(s[j])
		m.access(fr, &s[i], true)
		m.access(fr, &s[j], true)
		storeInto(&s[i], b)
		storeInto(&s[j], a)
	}
	ls := func(i, j int) bool {
		return m.truth(m.callFn(fr, less, []Value{int64(i), int64(j)}))
	}
	if n <= 12 && !stable || stable && n <= 20 {
		for i := 1; i < n; i++ {
			for j := i; j > 0 && ls(j, j-1); j-- {
				swap(j, j-1)
			}
		}
		return
	}
	name := "pdqsort_func"
	var args []Value
	st := Struct{less, &NativeFn{func(a []Value) Value { swap(int(m.index(fr, a[0])), int(m.index(fr, a[1]))); return nil }}}
	if stable {
		name = "stable_func"
		args = []Value{st, int64(n)}
	} else {
		limit := 0
		for x := n; x > 0; x >>= 1 {
			limit++
		}
		args = []Value{st, int64(0), int64(n), int64(limit)}
	}
	for _, p := range m.eng.pkgs {
		if p.Pkg.Path() == "sort" {
			m.callSSA(fr, p.Func(name), args, nil)
			return
		}
	}
	panic(unsupported{"sort"})
}

func init() {
	intrinsics = map[string]intrinsic{}
	reg := func(n string, f intrinsic) { intrinsics[n] = f }
	regVH(reg)
	regOS(reg)

	// strconv
	reg("strconv.FormatFloat", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.fmtNum(a[0], byte(m.index(fr, a[1])), int(m.index(fr, a[2])), int(m.index(fr, a[3])))
	})
	reg("strconv.Itoa", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		if p, ok := a[0].(*Poly); ok {
			return m.mkPH(p, -1, false)
		}
		return strconv.Itoa(int(a[0].(int64)))
	})
	reg("strconv.FormatInt", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		if p, ok := a[0].(*Poly); ok {
			return m.mkPH(p, -1, false)
		}
		return strconv.FormatInt(a[0].(int64), int(m.index(fr, a[1])))
	})
	reg("strconv.FormatBool", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return strconv.FormatBool(m.truth(a[0]))
	})
	reg("strconv.ParseBool", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		b, err := strconv.ParseBool(a[0].(string))
		if err != nil {
			return Tuple{b, m.errVal(err.Error())}
		}
		return Tuple{b, Iface{}}
	})
	reg("strconv.ParseFloat", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(string)
		bits := int(m.index(fr, a[1]))
		if hasPH(s) {
			neg := false
			t := s
			if strings.HasPrefix(t, "-") {
				neg, t = true, t[1:]
			} else if strings.HasPrefix(t, "+") {
				t = t[1:]
			}
			e, ok := m.phAt(t)
			if !ok {
				return Tuple{0.0, m.errVal("strconv.ParseFloat: parsing: invalid syntax")}
			}
			p := m.phVal(e)
			if bits == 32 {
				p = m.ctx.F32(p)
			}
			if neg {
				p = m.ctx.Neg(p)
			}
			return Tuple{m.num(p, fT), Iface{}}
		}
		f, err := strconv.ParseFloat(s, bits)
		if err != nil {
			return Tuple{f, m.errVal(err.Error())}
		}
		return Tuple{f, Iface{}}
	})
	reg("strconv.Atoi", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(string)
		if hasPH(s) {
			e, ok := m.phAt(s)
			if ok && m.ctx.isInt(e.p) {
				return Tuple{m.num(e.p, types.Typ[types.Int]), Iface{}}
			}
			return Tuple{int64(0), m.errVal("invalid syntax")}
		}
		n, err := strconv.Atoi(s)
		if err != nil {
			return Tuple{int64(n), m.errVal(err.Error())}
		}
		return Tuple{int64(n), Iface{}}
	})
	reg("strconv.ParseInt", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		n, err := strconv.ParseInt(a[0].(string), int(m.index(fr, a[1])), int(m.index(fr, a[2])))
		if err != nil {
			return Tuple{n, m.errVal(err.Error())}
		}
		return Tuple{n, Iface{}}
	})
	reg("strconv.Quote", str1(func(s string) Value { return strconv.Quote(s) }))

	// fmt / log
	reg("fmt.Sprintf", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.sprintf(fr, a[0].(string), vslice(a[1]))
	})
	reg("fmt.Sprint", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.sprint(fr, vslice(a[0]), false)
	})
	reg("fmt.Sprintln", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.sprint(fr, vslice(a[0]), true)
	})
	reg("fmt.Errorf", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.errVal(m.sprintf(fr, a[0].(string), vslice(a[1])))
	})
	fpr := func(f func(m *Machine, fr *Frame, a []Value) string) intrinsic {
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			s := f(m, fr, a[1:])
			w := a[0].(Iface)
			if w.t == nil {
				m.rtPanic(fr, "invalid memory address or nil pointer dereference")
			}
			wm := types.NewMethodSet(w.t).Lookup(nil, "Write")
			sf := m.eng.prog.MethodValue(wm)
			return m.callSSA(fr, sf, []Value{w.v, strToBytes(s)}, nil)
		}
	}
	reg("fmt.Fprintf", fpr(func(m *Machine, fr *Frame, a []Value) string { return m.sprintf(fr, a[0].(string), vslice(a[1])) }))
	reg("fmt.Fprintln", fpr(func(m *Machine, fr *Frame, a []Value) string { return m.sprint(fr, vslice(a[0]), true) }))
	reg("fmt.Fprint", fpr(func(m *Machine, fr *Frame, a []Value) string { return m.sprint(fr, vslice(a[0]), false) }))
	quiet := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return zeroResults(fn) }
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "log.Println", "log.Printf", "log.Print", "log.SetFlags", "log.SetOutput"} {
		reg(n, quiet)
	}
	exit := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		panic(targetExit{1, "log.Fatal at " + m.eng.pos(fr)})
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln"} {
		reg(n, exit)
	}
	reg("os.Exit", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		panic(targetExit{int(m.index(fr, a[0])), "os.Exit"})
	})
	lp := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		panic(targetPanic{v: Iface{}, msg: "log.Panic", where: m.eng.pos(fr)})
	}
	for _, n := range []string{"log.Panic", "log.Panicf", "log.Panicln"} {
		reg(n, lp)
	}
	reg("errors.New", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.errVal(a[0].(string)) })

	// strings: whole-text operations on (possibly symbolic) text
	reg("strings.Index", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return int64(strings.Index(a[0].(string), a[1].(string)))
	})
	reg("strings.LastIndex", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return int64(strings.LastIndex(a[0].(string), a[1].(string)))
	})
	reg("strings.IndexByte", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return int64(strings.IndexByte(a[0].(string), byte(m.index(fr, a[1]))))
	})
	reg("strings.IndexRune", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return int64(strings.IndexRune(a[0].(string), rune(m.index(fr, a[1]))))
	})
	reg("strings.IndexAny", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return int64(strings.IndexAny(a[0].(string), a[1].(string)))
	})
	reg("strings.Contains", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return strings.Contains(a[0].(string), a[1].(string))
	})
	reg("strings.HasPrefix", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return strings.HasPrefix(a[0].(string), a[1].(string))
	})
	reg("strings.HasSuffix", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return strings.HasSuffix(a[0].(string), a[1].(string))
	})
	reg("strings.Count", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return int64(strings.Count(a[0].(string), a[1].(string)))
	})
	reg("strings.Replace", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return strings.Replace(a[0].(string), a[1].(string), a[2].(string), int(m.index(fr, a[3])))
	})
	reg("strings.ReplaceAll", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return strings.ReplaceAll(a[0].(string), a[1].(string), a[2].(string))
	})
	reg("strings.Split", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return toStrs(strings.Split(a[0].(string), a[1].(string)))
	})
	reg("strings.SplitN", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return toStrs(strings.SplitN(a[0].(string), a[1].(string), int(m.index(fr, a[2]))))
	})
	reg("strings.Fields", str1(func(s string) Value { return toStrs(strings.Fields(s)) }))
	reg("strings.TrimSpace", str1(func(s string) Value { return strings.TrimSpace(s) }))
	reg("strings.ToLower", str1(func(s string) Value { return strings.ToLower(s) }))
	reg("strings.ToUpper", str1(func(s string) Value { return strings.ToUpper(s) }))
	reg("strings.Repeat", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return strings.Repeat(a[0].(string), int(m.index(fr, a[1])))
	})
	for _, n := range []string{"TrimPrefix", "TrimSuffix", "Trim", "TrimLeft", "TrimRight"} {
		n := n
		reg("strings."+n, func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			s, t := a[0].(string), a[1].(string)
			switch n {
			case "TrimPrefix":
				return strings.TrimPrefix(s, t)
			case "TrimSuffix":
				return strings.TrimSuffix(s, t)
			case "Trim":
				return strings.Trim(s, t)
			case "TrimLeft":
				return strings.TrimLeft(s, t)
			}
			return strings.TrimRight(s, t)
		})
	}
	reg("strings.Join", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		var ss []string
		for _, x := range vslice(a[0]) {
			ss = append(ss, x.(string))
		}
		return strings.Join(ss, a[1].(string))
	})
	reg("strings.NewReplacer", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		var ss []string
		for _, x := range vslice(a[0]) {
			ss = append(ss, x.(string))
		}
		if len(ss)%2 == 1 {
			panic(targetPanic{v: Iface{}, msg: "strings.NewReplacer: odd argument count", where: m.eng.pos(fr)})
		}
		p := new(Value)
		*p = &Native{"replacer", strings.NewReplacer(ss...)}
		return p
	})
	reg("(*strings.Replacer).Replace", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return (*a[0].(*Value)).(*Native).data.(*strings.Replacer).Replace(a[1].(string))
	})
	reg("strings.EqualFold", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return strings.EqualFold(a[0].(string), a[1].(string))
	})
	// strings.Builder: the real one plays tricks with its own address
	sb := func(m *Machine, a Value) *Value {
		st := (*a.(*Value)).(Struct)
		return &st[len(st)-1]
	}
	_ = sb
	bld := func(p Value) *Value {
		st := (*p.(*Value)).(Struct)
		return &st[1] // buf []byte
	}
	reg("(*strings.Builder).WriteString", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := bld(a[0])
		s := a[1].(string)
		*b = append(vslice(*b), strToBytes(s)...)
		return Tuple{int64(len(s)), Iface{}}
	})
	reg("(*strings.Builder).Write", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := bld(a[0])
		*b = append(vslice(*b), vslice(a[1])...)
		return Tuple{int64(len(vslice(a[1]))), Iface{}}
	})
	reg("(*strings.Builder).WriteByte", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := bld(a[0])
		*b = append(vslice(*b), a[1])
		return Iface{}
	})
	reg("(*strings.Builder).WriteRune", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := bld(a[0])
		s := string(rune(m.index(fr, a[1])))
		*b = append(vslice(*b), strToBytes(s)...)
		return Tuple{int64(len(s)), Iface{}}
	})
	reg("(*strings.Builder).String", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return m.bytesToStr(vslice(*bld(a[0])))
	})
	reg("(*strings.Builder).Len", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return int64(len(vslice(*bld(a[0])))) })
	reg("(*strings.Builder).Grow", quiet)
	reg("(*strings.Builder).Reset", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		*bld(a[0]) = []Value(nil)
		return nil
	})

	// bytes
	idxByte := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		ch, isC := a[1].(uint64)
		for i, x := range vslice(a[0]) {
			if u, ok := x.(uint64); ok && isC {
				if u == ch {
					return int64(i)
				}
			}
		}
		return int64(-1)
	}
	reg("bytes.IndexByte", idxByte)
	reg("internal/bytealg.IndexByte", idxByte)
	reg("internal/bytealg.IndexByteString", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		return int64(strings.IndexByte(a[0].(string), byte(m.index(fr, a[1]))))
	})
	reg("internal/bytealg.MakeNoZero", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := m.index(fr, a[0])
		s := make([]Value, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	})
	reg("bytes.Equal", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		x, y := vslice(a[0]), vslice(a[1])
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if tx, ok := x[i].(*ByteTok); ok {
				ty, ok2 := y[i].(*ByteTok)
				if !ok2 || *tx != *ty {
					return false
				}
				continue
			}
			if _, ok := y[i].(*ByteTok); ok {
				return false
			}
			if !m.truth(m.boolV(m.eq(fr, types.Typ[types.Uint8], x[i], y[i]))) {
				return false
			}
		}
		return true
	})
	reg("bytes.growSlice", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		b := vslice(a[0])
		n := int(m.index(fr, a[1]))
		c := len(b) + n
		if c < 2*cap(b) {
			c = 2 * cap(b)
		}
		r := make([]Value, c)
		copy(r, b)
		for i := len(b); i < c; i++ {
			r[i] = uint64(0)
		}
		return r[:len(b)]
	})

	// sort
	reg("sort.Slice", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.sortSlice(fr, vslice(a[0].(Iface).v), a[1], false)
		return nil
	})
	reg("sort.SliceStable", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.sortSlice(fr, vslice(a[0].(Iface).v), a[1], true)
		return nil
	})

	// runtime, sync, time
	reg("runtime.NumCPU", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.cpu })
	reg("runtime.GOMAXPROCS", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.cpu })
	reg("runtime.Gosched", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { m.yieldPoint(fr); return nil })
	reg("runtime.NumGoroutine", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return int64(len(m.gors)) })
	reg("time.Now", stubZero)
	reg("(time.Time).Format", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return "02 Jan 06 15:04 UTC" })
	reg("time.Sleep", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { m.yieldPoint(fr); return nil })
	regSync(reg)

	// third parties
	reg("(*github.com/fogleman/simplify.Mesh).Simplify", stubSimplify)
	reg("gopkg.in/yaml.v2.Unmarshal", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return Iface{} })
}

// stubSimplify records how the external reduction is called and returns what
// the harness prepared (vh.SimplifyResult).
func stubSimplify(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
	m.natives["simplify.in"] = a[0]
	m.natives["simplify.factor"] = a[1]
	n, _ := m.natives["simplify.n"].(int64)
	m.natives["simplify.n"] = n + 1
	m.natives["simplify.type"] = fn.Signature.Recv().Type()
	if r, ok := m.natives["simplify.out"].(Iface); ok {
		return r.v
	}
	return a[0]
}
