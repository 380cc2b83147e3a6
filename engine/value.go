package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	bool | *Bool            booleans
//	int64, uint64, float64 | *Poly   numbers
//	string, *Value (pointer), Struct, Array, []Value (slice), *Map, *Chan,
//	Iface, *Closure, *ssa.Function, *ssa.Builtin, Tuple, nil-ish zero values, *Native
type Value interface{}

type Struct []Value
type Array []Value
type Tuple []Value
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
}
type Map struct {
	keys []Value
	vals []Value
	idx  map[string]int // canonical key -> position, for fully concrete keys
	sym  bool           // some key is symbolic
	cell Value          // race shadow location
}
type Chan struct {
	buf     []chanMsg
	cap     int
	closed  bool
	clkCls  vclock
	recvq   []*waiter
	sendq   []*waiter
	recvClk []vclock
}
type chanMsg struct {
	v   Value
	clk vclock
}

// Native is an opaque engine object (file, scanner...)
type Native struct {
	kind string
	data interface{}
}

// NativeFn is a function value implemented by the engine
type NativeFn struct {
	fn func(args []Value) Value
}

// Bits32 is the bit pattern of a symbolic float32; ByteTok one byte of it
type Bits32 struct{ p *Poly }
type ByteTok struct {
	p *Poly
	i int // byte index, little endian
}

type ptr = *Value

func isSigned(b *types.Basic) bool {
	return b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UntypedNil:
			return nil
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsString != 0:
			return ""
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsUnsigned != 0:
			return uint64(0)
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case t.Info()&types.IsComplex != 0:
			return complex(0, 0)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Tuple:
		tu := make(Tuple, t.Len())
		for i := range tu {
			tu[i] = zero(t.At(i).Type())
		}
		return tu
	case *types.TypeParam:
		panic(unsupported{"type parameter"})
	}
	panic(unsupported{"zero of " + t.String()})
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i := range v {
			n[i] = copyVal(v[i])
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i := range v {
			n[i] = copyVal(v[i])
		}
		return n
	}
	return v
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		case b.Info()&types.IsFloat != 0:
			f := c.Float64()
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsUnsigned != 0:
			return c.Uint64()
		case b.Info()&types.IsInteger != 0:
			return c.Int64()
		}
	}
	panic(unsupported{"constant " + c.String()})
}

// canonical key for concrete map keys
func canon(v Value) (string, bool) {
	switch v := v.(type) {
	case bool:
		return fmt.Sprint("b", v), true
	case int64:
		return fmt.Sprint("i", v), true
	case uint64:
		return fmt.Sprint("u", v), true
	case float64:
		if v == 0 {
			v = 0
		}
		return fmt.Sprint("f", math.Float64bits(v+0)), !math.IsNaN(v)
	case string:
		return "s" + v, true
	case *Value:
		return fmt.Sprintf("p%p", v), true
	case Struct:
		var sb strings.Builder
		for _, x := range v {
			k, ok := canon(x)
			if !ok {
				return "", false
			}
			sb.WriteString(k)
			sb.WriteByte('|')
		}
		return "{" + sb.String() + "}", true
	case Array:
		var sb strings.Builder
		for _, x := range v {
			k, ok := canon(x)
			if !ok {
				return "", false
			}
			sb.WriteString(k)
			sb.WriteByte('|')
		}
		return "[" + sb.String() + "]", true
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := canon(v.v)
		return v.t.String() + ":" + k, ok
	case *Poly:
		return "", false
	case *Bool:
		return "", false
	}
	return fmt.Sprintf("?%p", v), false
}

// ---- slice growth as in the Go runtime ----

type capKey struct {
	size, kind, oldcap, oldlen, n int64
}

var capMemo sync.Map

func hasPtr(t types.Type) bool {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		return t.Info()&types.IsString != 0 || t.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if hasPtr(t.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return t.Len() > 0 && hasPtr(t.Elem())
	}
	return true
}

var sizes = types.SizesFor("gc", "amd64")

func growCap(elem types.Type, oldlen, oldcap, n int) int {
	k := capKey{sizes.Sizeof(elem), 0, int64(oldcap), int64(oldlen), int64(n)}
	if hasPtr(elem) {
		k.kind = 1
	}
	if c, ok := capMemo.Load(k); ok {
		return c.(int)
	}
	var et reflect.Type
	if k.kind == 1 && k.size%8 == 0 && k.size > 0 {
		et = reflect.ArrayOf(int(k.size/8), reflect.TypeOf((*int)(nil)))
	} else {
		et = reflect.ArrayOf(int(k.size), reflect.TypeOf(byte(0)))
	}
	st := reflect.SliceOf(et)
	s := reflect.MakeSlice(st, oldlen, oldcap)
	s = reflect.AppendSlice(s, reflect.MakeSlice(st, n, n))
	c := s.Cap()
	capMemo.Store(k, c)
	return c
}

func appendVals(s []Value, elem types.Type, add []Value) []Value {
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		for i, x := range add {
			storeInto(&r[len(s)+i], x)
		}
		return r
	}
	if len(add) == 0 {
		return s
	}
	nc := growCap(elem, len(s), cap(s), len(add))
	r := make([]Value, n, nc)
	for i, x := range s {
		r[i] = copyVal(x)
	}
	copy(r[len(s):], add)
	ext := r[n:nc]
	if len(ext) > 0 {
		z := zero(elem)
		for i := range ext {
			ext[i] = copyVal(z)
		}
	}
	return r
}

// ---- vector clocks ----

type vclock map[int]int

func (a vclock) copy() vclock {
	n := make(vclock, len(a))
	for k, v := range a {
		n[k] = v
	}
	return n
}
func (a vclock) join(b vclock) {
	for k, v := range b {
		if v > a[k] {
			a[k] = v
		}
	}
}

// debug printing
func show(v Value) string {
	switch v := v.(type) {
	case *Poly:
		return "<" + v.String() + ">"
	case *Bool:
		return "<" + v.String() + ">"
	case Struct:
		var s []string
		for _, x := range v {
			s = append(s, show(x))
		}
		return "{" + strings.Join(s, " ") + "}"
	case []Value:
		var s []string
		for i, x := range v {
			if i > 20 {
				s = append(s, "...")
				break
			}
			s = append(s, show(x))
		}
		return "[" + strings.Join(s, " ") + "]"
	case *Value:
		if v == nil {
			return "nil"
		}
		return "&" + show(*v)
	case Iface:
		return "i(" + show(v.v) + ")"
	}
	return fmt.Sprint(v)
}

func sortedKeys(m map[string]bool) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
