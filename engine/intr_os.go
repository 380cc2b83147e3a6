package main

import (
	"fmt"
	"go/types"
	"math"
	"path"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- in-memory files ----

type memFile struct {
	data []Value
	// what a write that failed at a symbolic place may have added: the first
	// room bytes of tail
	tail []Value
	room *Poly
}
type memFS struct {
	files    map[string]*memFile
	failAt   *Poly // total bytes that can be written before writes fail; nil: never
	written  int64
	failOpen bool
}
type openFile struct {
	f      *memFile
	name   string
	pos    int64
	rd, wr bool
	app    bool
	closed bool
}

func newMemFS() *memFS { return &memFS{files: map[string]*memFile{}} }

func (m *Machine) osType(name string) types.Type {
	for _, p := range m.eng.pkgs {
		if p.Pkg.Path() == "os" {
			if t := p.Type(name); t != nil {
				return t.Type()
			}
		}
	}
	panic(unsupported{"type os." + name})
}

func (m *Machine) newFile(of *openFile) Value {
	p := new(Value)
	*p = &Native{"file", of}
	return p
}

func (m *Machine) file(fr *Frame, v Value) *openFile {
	p, ok := v.(*Value)
	if !ok || p == nil {
		return nil
	}
	n, ok := (*p).(*Native)
	if !ok {
		if _, isS := (*p).(Struct); isS {
			return nil
		}
		panic(unsupported{"file value"})
	}
	return n.data.(*openFile)
}

// absPath: the programs run in the scratch directory of the harness.
func absPath(n string) string {
	if !strings.HasPrefix(n, "/") {
		n = "/vh/" + n
	}
	return path.Clean(n)
}

func nilFile() Value { return (*Value)(nil) }

func (m *Machine) open(fr *Frame, name string, flag int64) (Value, Value) {
	const (
		wronly = 1
		rdwr   = 2
		create = 0x40
		excl   = 0x80
		trunc  = 0x200
		app    = 0x400
	)
	name = absPath(name)
	f := m.fs.files[name]
	if f == nil {
		if flag&create == 0 {
			return nilFile(), m.errVal("open " + name + ": no such file or directory")
		}
		if i := strings.LastIndex(name, "/"); i > 0 && strings.Contains(name[:i], "missing") {
			return nilFile(), m.errVal("open " + name + ": no such file or directory")
		}
		f = &memFile{}
		m.fs.files[name] = f
	} else if flag&excl != 0 && flag&create != 0 {
		return nilFile(), m.errVal("open " + name + ": file exists")
	}
	m.settle(f)
	of := &openFile{f: f, name: name, rd: flag&wronly == 0, wr: flag&(wronly|rdwr) != 0, app: flag&app != 0}
	if flag&trunc != 0 && of.wr {
		f.data = nil
	}
	return m.newFile(of), Iface{}
}

// fwrite appends or overwrites and honours injected faults.
func (m *Machine) fwrite(of *openFile, b []Value) (Value, Value) {
	if of.closed {
		return int64(0), m.errVal("write " + of.name + ": file already closed")
	}
	if !of.wr {
		return int64(0), m.errVal("write " + of.name + ": bad file descriptor")
	}
	n := len(b)
	m.settle(of.f)
	if m.fs.failAt != nil {
		room := m.ctx.Sub(m.fs.failAt, m.ctx.ConstI(m.fs.written))
		if !m.truth(m.boolV(m.ctx.Atom(m.ctx.Sub(m.ctx.ConstI(int64(n)), room), 'l'))) {
			err := m.errVal("write " + of.name + ": file too large")
			k := m.num(room, types.Typ[types.Int])
			if c, ok := k.(int64); ok {
				if c < 0 {
					c = 0
				}
				m.put(of, b[:c])
				return c, err
			}
			if of.app || of.pos >= int64(len(of.f.data)) {
				of.f.tail, of.f.room = append([]Value{}, b...), room
				m.fs.failAt = m.ctx.ConstI(0)
				return k, err
			}
			c := m.concretize(room)
			m.put(of, b[:c])
			return c, err
		}
	}
	m.put(of, b)
	return int64(n), Iface{}
}

func (m *Machine) put(of *openFile, b []Value) {
	if of.app {
		of.pos = int64(len(of.f.data))
	}
	for i := range b {
		if of.pos < int64(len(of.f.data)) {
			of.f.data[of.pos] = b[i]
		} else {
			of.f.data = append(of.f.data, b[i])
		}
		of.pos++
	}
	m.fs.written += int64(len(b))
}

// settle fixes how much a failed write has added, where that matters.
func (m *Machine) settle(f *memFile) {
	if f != nil && f.room != nil {
		n := m.concretize(f.room)
		f.data = append(f.data, f.tail[:n]...)
		f.tail, f.room = nil, nil
	}
}

func regOS(reg func(string, intrinsic)) {
	reg("os.Open", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		f, e := m.open(fr, a[0].(string), 0)
		return Tuple{f, e}
	})
	reg("os.Create", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		f, e := m.open(fr, a[0].(string), 2|0x40|0x200)
		return Tuple{f, e}
	})
	reg("os.OpenFile", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		f, e := m.open(fr, a[0].(string), m.index(fr, a[1]))
		return Tuple{f, e}
	})
	rf := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		f := m.fs.files[absPath(a[0].(string))]
		if f == nil {
			return Tuple{[]Value(nil), m.errVal("open: no such file or directory")}
		}
		m.settle(f)
		return Tuple{append([]Value{}, f.data...), Iface{}}
	}
	reg("os.ReadFile", rf)
	reg("io/ioutil.ReadFile", rf)
	wf := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		f, e := m.open(fr, a[0].(string), 1|0x40|0x200)
		if e.(Iface).t != nil {
			return e
		}
		_, e = m.fwrite(m.file(fr, f), vslice(a[1]))
		return e
	}
	reg("os.WriteFile", wf)
	reg("io/ioutil.WriteFile", wf)
	reg("os.Remove", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		n := absPath(a[0].(string))
		if m.fs.files[n] == nil {
			return m.errVal("remove " + n + ": no such file or directory")
		}
		delete(m.fs.files, n)
		return Iface{}
	})
	reg("os.Rename", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		n, t := absPath(a[0].(string)), absPath(a[1].(string))
		if m.fs.files[n] == nil {
			return m.errVal("rename: no such file or directory")
		}
		m.fs.files[t] = m.fs.files[n]
		delete(m.fs.files, n)
		return Iface{}
	})
	isNE := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		return i.t != nil && strings.Contains(errMsg(m, fr, i), "no such file")
	}
	reg("os.IsNotExist", isNE)
	reg("os.IsExist", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		return i.t != nil && strings.Contains(errMsg(m, fr, i), "file exists")
	})
	stat := func(m *Machine, f *memFile, name string) Value {
		p := new(Value)
		*p = &Native{"stat", &openFile{f: f, name: name}}
		return Tuple{Iface{t: types.NewPointer(m.osType("fileStat")), v: p}, Iface{}}
	}
	reg("os.Stat", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		f := m.fs.files[absPath(a[0].(string))]
		if f == nil {
			return Tuple{Iface{}, m.errVal("stat: no such file or directory")}
		}
		return stat(m, f, a[0].(string))
	})
	reg("(*os.File).Stat", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		of := m.file(fr, a[0])
		if of == nil {
			return Tuple{Iface{}, m.errVal("invalid argument")}
		}
		return stat(m, of.f, of.name)
	})
	reg("(*os.fileStat).Size", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		of := m.file(fr, a[0])
		m.settle(of.f)
		return int64(len(of.f.data))
	})
	reg("(*os.fileStat).Name", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.file(fr, a[0]).name })
	reg("(*os.fileStat).IsDir", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return false })
	reg("(*os.File).Name", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return m.file(fr, a[0]).name })
	reg("(*os.File).Close", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		of := m.file(fr, a[0])
		if of == nil {
			return m.errVal("invalid argument")
		}
		if of.closed {
			return m.errVal("close: file already closed")
		}
		of.closed = true
		return Iface{}
	})
	reg("(*os.File).Sync", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { return Iface{} })
	reg("(*os.File).Read", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		of := m.file(fr, a[0])
		if of == nil {
			return Tuple{int64(0), m.errVal("invalid argument")}
		}
		m.settle(of.f)
		if of.closed || !of.rd {
			return Tuple{int64(0), m.errVal("read: bad file")}
		}
		b := vslice(a[1])
		if len(b) == 0 {
			return Tuple{int64(0), Iface{}}
		}
		n := 0
		for n < len(b) && of.pos < int64(len(of.f.data)) {
			b[n] = of.f.data[of.pos]
			n++
			of.pos++
		}
		if n == 0 {
			return Tuple{int64(0), m.stdErr("io", "EOF")}
		}
		return Tuple{int64(n), Iface{}}
	})
	reg("(*os.File).Write", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		of := m.file(fr, a[0])
		if of == nil {
			return Tuple{int64(0), m.errVal("invalid argument")}
		}
		n, e := m.fwrite(of, vslice(a[1]))
		return Tuple{n, e}
	})
	reg("(*os.File).WriteString", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		of := m.file(fr, a[0])
		if of == nil {
			return Tuple{int64(0), m.errVal("invalid argument")}
		}
		n, e := m.fwrite(of, strToBytes(a[1].(string)))
		return Tuple{n, e}
	})
	reg("(*os.File).Seek", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		of := m.file(fr, a[0])
		if of == nil {
			return Tuple{int64(0), m.errVal("invalid argument")}
		}
		m.settle(of.f)
		o := m.index(fr, a[1])
		switch m.index(fr, a[2]) {
		case 1:
			o += of.pos
		case 2:
			o += int64(len(of.f.data))
		}
		if o < 0 {
			return Tuple{int64(0), m.errVal("seek: invalid argument")}
		}
		of.pos = o
		return Tuple{o, Iface{}}
	})
	ra := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		if p, ok := i.v.(*Value); ok && p != nil {
			if n, ok := (*p).(*Native); ok && n.kind == "file" {
				of := n.data.(*openFile)
				r := append([]Value{}, of.f.data[min64(of.pos, int64(len(of.f.data))):]...)
				of.pos = int64(len(of.f.data))
				return Tuple{r, Iface{}}
			}
		}
		return m.exec(fr, fn, m.eng.info(fn), a, nil)
	}
	reg("io.ReadAll", ra)
	reg("io/ioutil.ReadAll", ra)

	tmp := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		dir, pat := a[0].(string), a[1].(string)
		if dir == "" {
			dir = "/tmp"
		}
		if strings.Contains(pat, "*") {
			pat = strings.Replace(pat, "*", fmt.Sprint(len(m.fs.files)), 1)
		} else {
			pat += fmt.Sprint(len(m.fs.files))
		}
		f, e := m.open(fr, dir+"/"+pat, 2|0x40|0x80)
		return Tuple{f, e}
	}
	reg("os.CreateTemp", tmp)
	reg("io/ioutil.TempFile", tmp)
	// as in package bufio, but for the buffer's content after a failure, which
	// nothing can see
	reg("(*bufio.Writer).Flush", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		st := (*a[0].(*Value)).(Struct) // err, buf, n, wr
		if st[0].(Iface).t != nil {
			return st[0]
		}
		n := m.index(fr, st[2])
		if n == 0 {
			return Iface{}
		}
		r := m.callMethod(fr, st[3].(Iface), "Write", append([]Value{}, vslice(st[1])[:n]...)).(Tuple)
		err := r[1]
		if k, ok := r[0].(int64); ok && k < n && err.(Iface).t == nil {
			err = m.stdErr("io", "ErrShortWrite")
		}
		if err.(Iface).t != nil {
			st[0] = err
			return err
		}
		st[2] = int64(0)
		return Iface{}
	})

	// encoding/binary
	reg("encoding/binary.Read", binRead)
	reg("encoding/binary.Write", binWrite)
	reg("encoding/binary.Size", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		t, v := i.t, i.v
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
			v = *v.(*Value)
		}
		return int64(binSize(t, v))
	})
	u32 := func(le bool) intrinsic {
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			b := vslice(a[1])
			if len(b) < 4 {
				m.rtPanic(fr, fmt.Sprintf("index out of range [3] with length %d", len(b)))
			}
			return m.fromBytes(fr, b[:4], le)
		}
	}
	reg("(encoding/binary.littleEndian).Uint32", u32(true))
	reg("(encoding/binary.bigEndian).Uint32", u32(false))
	p32 := func(le bool) intrinsic {
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			b := vslice(a[1])
			if len(b) < 4 {
				m.rtPanic(fr, fmt.Sprintf("index out of range [3] with length %d", len(b)))
			}
			for i, x := range m.toBytes(fr, a[2], 4, le) {
				b[i] = x
			}
			return nil
		}
	}
	reg("(encoding/binary.littleEndian).PutUint32", p32(true))
	reg("(encoding/binary.bigEndian).PutUint32", p32(false))
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// fromBytes builds an unsigned value of len(b) bytes.
func (m *Machine) fromBytes(fr *Frame, b []Value, le bool) Value {
	at := func(i int) Value { // i-th byte, least significant first
		if le {
			return b[i]
		}
		return b[len(b)-1-i]
	}
	var tok *Poly
	same, any := true, false
	for i := range b {
		t, ok := at(i).(*ByteTok)
		if !ok {
			same = false
			continue
		}
		any = true
		if t.i != i || (tok != nil && tok != t.p) {
			same = false
		}
		tok = t.p
	}
	if any {
		if same && len(b) == 4 {
			return &Bits32{tok}
		}
		// bytes of different numbers mixed up: an arbitrary float
		v := m.ctx.Opaque(m.fresh("mixed bytes"), -math.MaxFloat32, math.MaxFloat32, func([]float64) float64 { return 12345.5 })
		return &Bits32{v}
	}
	sym := false
	for i := range b {
		if _, ok := b[i].(*Poly); ok {
			sym = true
		}
	}
	if sym {
		acc := m.ctx.zero
		for i := len(b) - 1; i >= 0; i-- {
			p, _ := m.poly(at(i))
			acc = m.ctx.Add(m.ctx.Scale(acc, m.ctx.ConstI(256).Rat()), p)
		}
		return m.num(acc, types.Typ[types.Uint64])
	}
	var u uint64
	for i := len(b) - 1; i >= 0; i-- {
		u = u<<8 | at(i).(uint64)
	}
	return u
}

func (m *Machine) toBytes(fr *Frame, v Value, n int, le bool) []Value {
	r := make([]Value, n)
	put := func(i int, x Value) {
		if le {
			r[i] = x
		} else {
			r[n-1-i] = x
		}
	}
	switch x := v.(type) {
	case *Bits32:
		for i := 0; i < n; i++ {
			put(i, &ByteTok{x.p, i})
		}
	case uint64:
		for i := 0; i < n; i++ {
			put(i, uint64(byte(x>>(8*uint(i)))))
		}
	case int64:
		for i := 0; i < n; i++ {
			put(i, uint64(byte(x>>(8*uint(i)))))
		}
	case *Poly:
		u := uint64(m.concretize(x))
		for i := 0; i < n; i++ {
			put(i, uint64(byte(u>>(8*uint(i)))))
		}
	case bool, *Bool:
		u := uint64(0)
		if m.truth(v) {
			u = 1
		}
		put(0, u)
	default:
		panic(unsupported{fmt.Sprintf("bytes of %T", v)})
	}
	return r
}

func basicSize(b *types.Basic) int {
	switch b.Kind() {
	case types.Bool, types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32, types.Float32:
		return 4
	case types.Int64, types.Uint64, types.Float64:
		return 8
	}
	return -1
}

func binSize(t types.Type, v Value) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return basicSize(u)
	case *types.Array:
		return int(u.Len()) * binSize(u.Elem(), nil)
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			n += binSize(u.Field(i).Type(), nil)
		}
		return n
	case *types.Slice:
		return len(vslice(v)) * binSize(u.Elem(), nil)
	}
	return -1
}

func isLE(order Value) bool {
	return strings.Contains(order.(Iface).t.String(), "littleEndian")
}

func (m *Machine) encode(fr *Frame, t types.Type, v Value, le bool) []Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n := basicSize(u)
		if n < 0 {
			panic(unsupported{"binary encoding of " + t.String()})
		}
		if u.Kind() == types.Float32 {
			switch x := v.(type) {
			case float64:
				return m.toBytes(fr, uint64(math.Float32bits(float32(x))), 4, le)
			case *Poly:
				return m.toBytes(fr, &Bits32{x}, 4, le)
			}
		}
		if u.Kind() == types.Float64 {
			if x, ok := v.(float64); ok {
				return m.toBytes(fr, math.Float64bits(x), 8, le)
			}
			panic(unsupported{"binary encoding of symbolic float64"})
		}
		return m.toBytes(fr, v, n, le)
	case *types.Array:
		var r []Value
		for _, x := range v.(Array) {
			r = append(r, m.encode(fr, u.Elem(), x, le)...)
		}
		return r
	case *types.Slice:
		var r []Value
		for _, x := range vslice(v) {
			r = append(r, m.encode(fr, u.Elem(), x, le)...)
		}
		return r
	case *types.Struct:
		var r []Value
		for i, x := range v.(Struct) {
			if u.Field(i).Name() == "_" {
				for k := binSize(u.Field(i).Type(), nil); k > 0; k-- {
					r = append(r, uint64(0))
				}
				continue
			}
			r = append(r, m.encode(fr, u.Field(i).Type(), x, le)...)
		}
		return r
	}
	panic(unsupported{"binary encoding of " + t.String()})
}

func (m *Machine) decode(fr *Frame, t types.Type, b []Value, le bool) (Value, []Value) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n := basicSize(u)
		if n < 0 {
			panic(unsupported{"binary decoding of " + t.String()})
		}
		x := m.fromBytes(fr, b[:n], le)
		if y, ok := x.(uint64); ok && u.Info()&types.IsBoolean != 0 {
			return y != 0, b[n:]
		}
		switch {
		case u.Kind() == types.Float32:
			switch y := x.(type) {
			case uint64:
				return float64(math.Float32frombits(uint32(y))), b[n:]
			case *Bits32:
				return m.num(y.p, t), b[n:]
			}
		case u.Kind() == types.Float64:
			if y, ok := x.(uint64); ok {
				return math.Float64frombits(y), b[n:]
			}
			panic(unsupported{"binary decoding of symbolic float64"})
		}
		switch y := x.(type) {
		case uint64:
			if isUnsigned(t) {
				return y, b[n:]
			}
			return wrapInt(t, int64(y)), b[n:]
		case *Bits32:
			// an integer made of the bytes of a coordinate
			return m.ctx.Opaque(m.fresh("bits of float"), 0, math.MaxUint32, func([]float64) float64 { return 1e9 }), b[n:]
		}
		return x, b[n:]
	case *types.Array:
		r := make(Array, u.Len())
		for i := range r {
			r[i], b = m.decode(fr, u.Elem(), b, le)
		}
		return r, b
	case *types.Struct:
		r := make(Struct, u.NumFields())
		for i := range r {
			if u.Field(i).Name() == "_" {
				n := binSize(u.Field(i).Type(), nil)
				r[i] = zero(u.Field(i).Type())
				b = b[n:]
				continue
			}
			r[i], b = m.decode(fr, u.Field(i).Type(), b, le)
		}
		return r, b
	}
	panic(unsupported{"binary decoding of " + t.String()})
}

func (m *Machine) callMethod(fr *Frame, recv Iface, name string, args ...Value) Value {
	if recv.t == nil {
		m.rtPanic(fr, "invalid memory address or nil pointer dereference")
	}
	sel := types.NewMethodSet(recv.t).Lookup(nil, name)
	if sel == nil {
		panic(unsupported{"method " + name})
	}
	return m.callSSA(fr, m.eng.prog.MethodValue(sel), append([]Value{recv.v}, args...), nil)
}

func binWrite(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
	w := a[0].(Iface)
	d := a[2].(Iface)
	t, v := d.t, d.v
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
		v = *v.(*Value)
	}
	if binSize(t, v) < 0 {
		return m.errVal("binary.Write: some values are not fixed-sized in type " + t.String())
	}
	b := m.encode(fr, t, v, isLE(a[1]))
	r := m.callMethod(fr, w, "Write", b).(Tuple)
	return r[1]
}

func binRead(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
	rd := a[0].(Iface)
	d := a[2].(Iface)
	le := isLE(a[1])
	readFull := func(n int) ([]Value, Value) {
		buf := make([]Value, n)
		for i := range buf {
			buf[i] = uint64(0)
		}
		got := 0
		for got < n {
			r := m.callMethod(fr, rd, "Read", buf[got:]).(Tuple)
			k := int(m.index(fr, r[0]))
			got += k
			if r[1].(Iface).t != nil {
				if got >= n {
					break
				}
				if got == 0 {
					return nil, r[1]
				}
				if errMsg(m, fr, r[1]) == "EOF" {
					return nil, m.stdErr("io", "ErrUnexpectedEOF")
				}
				return nil, r[1]
			}
		}
		return buf, Iface{}
	}
	switch u := d.t.Underlying().(type) {
	case *types.Pointer:
		p := d.v.(*Value)
		n := binSize(u.Elem(), *p)
		if n < 0 {
			return m.errVal("binary.Read: invalid type " + d.t.String())
		}
		b, err := readFull(n)
		if err.(Iface).t != nil {
			return err
		}
		v, _ := m.decode(fr, u.Elem(), b, le)
		storeInto(p, v)
		return Iface{}
	case *types.Slice:
		s := vslice(d.v)
		n := len(s) * binSize(u.Elem(), nil)
		b, err := readFull(n)
		if err.(Iface).t != nil {
			return err
		}
		for i := range s {
			var v Value
			v, b = m.decode(fr, u.Elem(), b, le)
			storeInto(&s[i], v)
		}
		return Iface{}
	}
	return m.errVal("binary.Read: invalid type " + d.t.String())
}

// ---- sync ----

type syncObj struct {
	n       int64
	locked  bool
	readers int
	done    bool
	clk     vclock
}

func (m *Machine) syncOf(v Value) *syncObj {
	p := v.(*Value)
	if m.syncs == nil {
		m.syncs = map[*Value]*syncObj{}
	}
	// identify by the first cell of the structure
	for {
		s, ok := (*p).(Struct)
		if !ok || len(s) == 0 {
			break
		}
		p = &s[0]
	}
	o := m.syncs[p]
	if o == nil {
		o = &syncObj{clk: vclock{}}
		m.syncs[p] = o
	}
	return o
}

func regSync(reg func(string, intrinsic)) {
	rel := func(m *Machine, o *syncObj) {
		if m.multi {
			o.clk.join(m.cur.clk)
			m.tick()
		}
	}
	acq := func(m *Machine, o *syncObj) { m.joinClk(o.clk) }
	add := func(m *Machine, fr *Frame, v Value, n int64) {
		m.yieldPoint(fr)
		o := m.syncOf(v)
		o.n += n
		if o.n < 0 {
			panic(targetPanic{runtime: true, msg: "sync: negative WaitGroup counter", where: m.eng.pos(fr)})
		}
		rel(m, o)
	}
	reg("(*sync.WaitGroup).Add", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		add(m, fr, a[0], m.index(fr, a[1]))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value { add(m, fr, a[0], -1); return nil })
	reg("(*sync.WaitGroup).Wait", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.yieldPoint(fr)
		o := m.syncOf(a[0])
		m.block(fr, "WaitGroup.Wait", func() bool { return o.n == 0 })
		acq(m, o)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		add(m, fr, a[0], 1)
		wg, f := a[0], a[1]
		m.spawn(fr, &NativeFn{func([]Value) Value {
			m.callFn(nil, f, nil)
			add(m, nil, wg, -1)
			return nil
		}}, nil)
		return nil
	})
	lock := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.yieldPoint(fr)
		o := m.syncOf(a[0])
		m.block(fr, "Lock", func() bool { return !o.locked && o.readers == 0 })
		o.locked = true
		acq(m, o)
		return nil
	}
	unlock := func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		o := m.syncOf(a[0])
		if !o.locked {
			panic(targetPanic{runtime: true, msg: "sync: unlock of unlocked mutex", where: m.eng.pos(fr)})
		}
		rel(m, o)
		o.locked = false
		m.yieldPoint(fr)
		return nil
	}
	reg("(*sync.Mutex).Lock", lock)
	reg("(*sync.Mutex).Unlock", unlock)
	reg("(*sync.RWMutex).Lock", lock)
	reg("(*sync.RWMutex).Unlock", unlock)
	reg("(*sync.RWMutex).RLock", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		m.yieldPoint(fr)
		o := m.syncOf(a[0])
		m.block(fr, "RLock", func() bool { return !o.locked })
		o.readers++
		acq(m, o)
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		o := m.syncOf(a[0])
		rel(m, o)
		o.readers--
		m.yieldPoint(fr)
		return nil
	})
	reg("(*sync.Once).Do", func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
		o := m.syncOf(a[0])
		m.block(fr, "Once", func() bool { return !o.locked })
		if !o.done {
			o.locked = true
			m.callFn(fr, a[1], nil)
			o.done = true
			o.locked = false
			rel(m, o)
		} else {
			acq(m, o)
		}
		return nil
	})
	// atomics: sequentially consistent, synchronising
	at := func(f func(m *Machine, fr *Frame, p *Value, a []Value) Value) intrinsic {
		return func(m *Machine, fr *Frame, fn *ssa.Function, a []Value) Value {
			m.yieldPoint(fr)
			p := a[0].(*Value)
			if p == nil {
				m.rtPanic(fr, "invalid memory address or nil pointer dereference")
			}
			o := m.syncOf(p)
			acq(m, o)
			v := f(m, fr, p, a)
			rel(m, o)
			return v
		}
	}
	for _, s := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		var t types.Type
		switch s {
		case "Int32":
			t = types.Typ[types.Int32]
		case "Int64":
			t = types.Typ[types.Int64]
		case "Uint32":
			t = types.Typ[types.Uint32]
		default:
			t = types.Typ[types.Uint64]
		}
		t2 := t
		// the value lives in a cell of its own inside the typed wrappers
		cell := func(p *Value) *Value {
			if st, ok := (*p).(Struct); ok {
				return &st[len(st)-1]
			}
			return p
		}
		mk := func(op string) intrinsic {
			return at(func(m *Machine, fr *Frame, p *Value, a []Value) Value {
				c := cell(p)
				switch op {
				case "Add":
					*c = m.binop(fr, tokADD, t2, *c, a[1])
					return *c
				case "Load":
					return *c
				case "Store":
					*c = a[1]
					return nil
				case "Swap":
					old := *c
					*c = a[1]
					return old
				case "CompareAndSwap":
					if m.truth(m.boolV(m.eq(fr, t2, *c, a[1]))) {
						*c = a[2]
						return true
					}
					return false
				}
				return nil
			})
		}
		for _, op := range []string{"Add", "Load", "Store", "Swap", "CompareAndSwap"} {
			reg("sync/atomic."+op+s, mk(op))
			reg("(*sync/atomic."+s+")."+op, mk(op))
		}
	}
}
