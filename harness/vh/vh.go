// Package vh is the interface between a harness and what executes it: the
// symbolic engine gives these functions their symbolic meaning, this source is
// what a native replay of a counterexample links against.
package vh

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math"
	"os"
	"os/signal"
	"runtime"
	"sort"
	"syscall"
	"time"
	"unsafe"
)

// Known tells whether inputs fall under a listed finding, which the harness
// then leaves aside.
func Known(id string, cond bool) bool { return cond && cur.Known[id] }

type job struct {
	Name   string
	Inputs map[string]float64
	Seed   int64
	Dir    string
	Out    string
	Quiet  bool
	Tier   string
	Known  map[string]bool
}

var cur job
var obs []interface{}
var wantCPU int

func rnd(x float64) float64 { return math.Floor(x + 0.5) }

// F is a real input between lo and hi.
func F(name string, lo, hi float64) float64 {
	v, ok := cur.Inputs[name]
	if !ok {
		v = def(lo, hi)
	}
	return math.Max(lo, math.Min(hi, v))
}

func def(lo, hi float64) float64 {
	if lo <= 0 && hi >= 0 {
		return 0
	}
	return (lo + hi) / 2
}

// I is an integer input between lo and hi.
func I(name string, lo, hi int) int {
	v, ok := cur.Inputs[name]
	if !ok {
		v = math.Floor(def(float64(lo), float64(hi)))
	}
	return int(math.Max(float64(lo), math.Min(float64(hi), rnd(v))))
}

// B is a boolean input.
func B(name string) bool { return cur.Inputs[name] > 0.5 }

// Choose is an integer input below n of which every value is explored on its own.
func Choose(name string, n int) int { return I(name, 0, n-1) }

// Conc makes an integer concrete.
func Conc(i int) int { return i }

func exit(code int) {
	flush()
	os.Exit(code)
}

func flush() {
	if cur.Out == "" {
		return
	}
	b, _ := json.Marshal(obs)
	ioutil.WriteFile(cur.Out, b, 0644)
}

// Assume restricts the inputs considered.
func Assume(b bool) {
	if !b {
		exit(4)
	}
}

// Assert is an obligation.
func Assert(b bool, label string) {
	if !b {
		fmt.Println("VH-ASSERT " + label)
		exit(3)
	}
}

// Split makes the engine consider both values of b on separate paths.
func Split(b bool) bool { return b }

// Zero tells if x is 0 for all inputs because of its form (for specifications,
// which do not run natively).
func Zero(x float64) bool { return math.Abs(x) <= 1e-9 }

// Cover records that a place was reached.
func Cover(label string) {}

// Observe records a value for comparing the engine with the real code.
func Observe(label string, v interface{}) {
	switch x := v.(type) {
	case float64:
		v = num(x)
	case bool:
		if x {
			v = 1.0
		} else {
			v = 0.0
		}
	}
	obs = append(obs, []interface{}{label, v})
}

func num(x float64) interface{} {
	if math.IsNaN(x) || math.IsInf(x, 0) {
		return fmt.Sprint(x)
	}
	return x
}

// Thorough tells the tier.
func Thorough() bool { return cur.Tier == "thorough" }

// Symbolic is true only under the engine.
func Symbolic() bool { return false }

// SetCPU sets the number of processors the code under test sees.
func SetCPU(n int) {
	if runtime.NumCPU() == n {
		runtime.GOMAXPROCS(n)
		return
	}
	if os.Getenv("VH_CPU") != "" {
		return
	}
	var mask, want [16]uint64
	syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, unsafe.Sizeof(mask), uintptr(unsafe.Pointer(&mask)))
	left := n
	for i := 0; i < 1024 && left > 0; i++ {
		if mask[i/64]&(1<<uint(i%64)) != 0 {
			want[i/64] |= 1 << uint(i%64)
			left--
		}
	}
	if left > 0 {
		return
	}
	// every thread of the new program inherits the mask of this one
	runtime.LockOSThread()
	syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, unsafe.Sizeof(want), uintptr(unsafe.Pointer(&want)))
	os.Setenv("VH_CPU", "1")
	syscall.Exec("/proc/self/exe", os.Args, os.Environ())
}

// Dir is a scratch directory.
func Dir() string { return cur.Dir }

// FailWritesAfter makes file writing fail beyond n bytes per file.
func FailWritesAfter(n int) {
	signal.Ignore(syscall.SIGXFSZ)
	l := uint64(n)
	if n < 0 {
		l = math.MaxUint64
	}
	syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: l, Max: math.MaxUint64})
}

// Write makes a file, and the directories it is in.
func Write(p, text string) {
	for i := 1; i < len(p); i++ {
		if p[i] == '/' {
			os.Mkdir(p[:i], 0755)
		}
	}
	if err := os.WriteFile(p, []byte(text), 0644); err != nil {
		panic(err)
	}
}

// FileSize is the size of a file or -1.
func FileSize(p string) int {
	fi, err := os.Stat(p)
	if err != nil {
		return -1
	}
	return int(fi.Size())
}

// Truncate cuts a file.
func Truncate(p string, n int) { os.Truncate(p, int64(n)) }

func And(b ...bool) bool {
	for _, x := range b {
		if !x {
			return false
		}
	}
	return true
}

func Or(b ...bool) bool {
	for _, x := range b {
		if x {
			return true
		}
	}
	return false
}

func Not(b bool) bool        { return !b }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// Near: |a-b| <= eps.
func Near(a, b, eps float64) bool { return math.Abs(a-b) <= eps }

func Ite(c bool, a, b float64) float64 {
	if c {
		return a
	}
	return b
}

func IteI(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Finite is false for NaN and infinities.
func Finite(x float64) bool { return !math.IsNaN(x) && !math.IsInf(x, 0) }

var simpOut, simpIn interface{}
var simpFactor float64
var simpCalls int

func SimplifyCalls() int           { return simpCalls }
func SimplifyFactor() float64      { return simpFactor }
func SimplifyIn() interface{}      { return simpIn }
func SimplifyReturn(v interface{}) { simpOut = v }

// SimplifyHook is what the stand-in of the reduction library calls.
func SimplifyHook(in interface{}, f float64) interface{} {
	simpIn, simpFactor = in, f
	simpCalls++
	if simpOut != nil {
		return simpOut
	}
	return in
}

var ySeed uint64
var yMode uint64

// Yield disturbs the schedule of a native replay. It must not synchronise.
func Yield() {
	if ySeed == 0 {
		return
	}
	x := (uint64(time.Now().UnixNano()) ^ ySeed) * 0x9e3779b97f4a7c15
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 32
	switch k := x % 100; {
	case k < 25:
		runtime.Gosched()
	case k < 25+yMode:
		time.Sleep(time.Duration(x>>40%300) * time.Microsecond)
	}
}

// Main runs one harness with the inputs of the environment.
func Main(fs map[string]func()) {
	f := os.Getenv("VH_JOB")
	if os.Getenv("VH_LIST") != "" {
		var ns []string
		for n := range fs {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		fmt.Println(ns)
		return
	}
	b, err := ioutil.ReadFile(f)
	if err != nil {
		fmt.Println("vh:", err)
		os.Exit(9)
	}
	if err := json.Unmarshal(b, &cur); err != nil {
		fmt.Println("vh:", err)
		os.Exit(9)
	}
	if cur.Seed != 0 {
		ySeed = uint64(cur.Seed)
		yMode = []uint64{0, 5, 20, 50}[cur.Seed%4]
	}
	fn := fs[cur.Name]
	if fn == nil {
		os.Exit(9)
	}
	fn()
	exit(0)
}
