package c03

import (
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

const eps = 1e-5

// apart: every two values are equal or clearly different.
func apart(x []float64) {
	for i := range x {
		for j := 0; j < i; j++ {
			d := x[i] - x[j]
			vh.Assume(vh.Or(d == 0, d > 1e-3, d < -1e-3))
		}
	}
}

type step struct{ a, b hx.V }

func steps(p []primitives.Path) []step {
	var r []step
	for _, q := range p {
		for i := 1; i < len(q.Points); i++ {
			r = append(r, step{hx.P(q.Points[i-1]), hx.P(q.Points[i])})
		}
	}
	return r
}

func (s step) is(t step) bool { return vh.And(s.a.Near(t.a, eps), s.b.Near(t.b, eps)) }

func count(l []step, s step, undirected bool) int {
	n := 0
	for _, t := range l {
		same := s.is(t)
		if undirected {
			same = vh.Or(same, step{s.b, s.a}.is(t))
		}
		n += vh.IteI(same, 1, 0)
	}
	return n
}

// kept: the joined paths have exactly the steps of the given ones.
func kept(in []step, out []primitives.Path, undirected bool) {
	got := steps(out)
	vh.Assert(len(got) == len(in), "the number of steps is kept")
	ok := true
	for _, s := range in {
		ok = vh.And(ok, count(got, s, undirected) == count(in, s, undirected))
	}
	vh.Assert(ok, "every step is kept exactly once")
	for _, p := range out {
		vh.Assert(len(p.Points) > 0, "no empty path comes out")
	}
}

func ends(p primitives.Path) (hx.V, hx.V) {
	return hx.P(p.Points[0]), hx.P(p.Points[len(p.Points)-1])
}

// unjoined: no path ends where exactly one other path starts and nothing else does.
func unjoined(out []primitives.Path) {
	ok := true
	for i, p := range out {
		_, e := ends(p)
		for j, q := range out {
			if i == j {
				continue
			}
			s, _ := ends(q)
			n := 0
			for _, r := range out {
				s2, e2 := ends(r)
				n += vh.IteI(s2.Near(e, eps), 1, 0) + vh.IteI(e2.Near(e, eps), 1, 0)
			}
			ok = vh.And(ok, vh.Not(vh.And(s.Near(e, eps), n == 2)))
		}
	}
	vh.Assert(ok, "paths that meet end to start are joined")
}

func closed(p primitives.Path) bool {
	s, e := ends(p)
	return vh.And(len(p.Points) > 1, s.Near(e, eps))
}

func on(axis int, x float64) primitives.Point {
	switch axis {
	case 0:
		return primitives.Point{X: x, Y: 1, Z: 2}
	case 1:
		return primitives.Point{X: 1, Y: x, Z: 2}
	}
	return primitives.Point{X: 1, Y: 2, Z: x}
}

func path(p ...primitives.Point) primitives.Path { return primitives.Path{Points: p} }

var names = []string{"a0", "b0", "a1", "b1", "a2", "b2", "a3", "b3"}

func anySegs(n, axis int) []primitives.Path {
	x := make([]float64, 2*n)
	for i := range x {
		x[i] = vh.F(names[i], -10, 10)
	}
	apart(x)
	var in []primitives.Path
	for i := 0; i < n; i++ {
		vh.Assume(x[2*i] != x[2*i+1])
		in = append(in, path(on(axis, x[2*i]), on(axis, x[2*i+1])))
	}
	return in
}

func join(in []primitives.Path) {
	want := steps(in)
	out := primitives.JoinPaths3(in)
	kept(want, out, false)
	unjoined(out)
}

// H_Three: any three directed segments between points of a line.
//vh:bounds 3 segments between points of the X axis that are equal or more than 0.001 apart, the first ascending
func H_Three() {
	in := anySegs(3, 0)
	vh.Assume(in[0].Points[0].X < in[0].Points[1].X)
	join(in)
}

// H_Two: any two directed segments between points of a line.
//vh:bounds 2 segments along each axis
func H_Two() { join(anySegs(2, vh.Choose("axis", 3))) }

// T_Three: the same as H_Three, in both directions along all axes.
func T_Three() { join(anySegs(3, vh.Choose("axis", 3))) }

// jit is p moved by less than the joining tolerance.
func jit(n string, p primitives.Point, all bool) primitives.Point {
	const e = 2e-7
	if !all {
		p.X += vh.F(n+".x", -e, e)
		return p
	}
	return primitives.Point{X: p.X + vh.F(n+".x", -e, e), Y: p.Y + vh.F(n+".y", -e, e), Z: p.Z + vh.F(n+".z", -e, e)}
}

func pt(n string) primitives.Point { return hx.Pt(n, 50) }

// distinct: points clearly apart in some coordinate, and no coordinates nearly equal unless equal.
func distinct(p ...primitives.Point) {
	for i := range p {
		for j := 0; j < i; j++ {
			dx, dy, dz := p[i].X-p[j].X, p[i].Y-p[j].Y, p[i].Z-p[j].Z
			vh.Assume(vh.Not(vh.And(dx == 0, dy == 0, dz == 0)))
			for _, d := range []float64{dx, dy, dz} {
				vh.Assume(vh.Or(d == 0, d > 1e-3, d < -1e-3))
			}
		}
	}
}

// perm returns the k-th order of n items.
func perm(n, k int) []int {
	free := make([]int, n)
	for i := range free {
		free[i] = i
	}
	var r []int
	for m := n; m > 0; m-- {
		i := k % m
		k /= m
		r = append(r, free[i])
		free = append(append([]int{}, free[:i]...), free[i+1:]...)
	}
	return r
}

func order(in []primitives.Path) []primitives.Path {
	f := 1
	for i := 2; i <= len(in); i++ {
		f *= i
	}
	var r []primitives.Path
	for _, i := range perm(len(in), vh.Choose("order", f)) {
		r = append(r, in[i])
	}
	return r
}

// H_Loop: segments around a loop, in any order, come out as that loop.
//vh:bounds loops of 3 points anywhere in space, sharing coordinates or not, all orders of the segments
func H_Loop() {
	a, b, c := pt("a"), pt("b"), pt("c")
	distinct(a, b, c)
	in := order([]primitives.Path{path(a, b), path(b, c), path(c, a)})
	want := steps(in)
	out := primitives.JoinPaths3(in)
	kept(want, out, false)
	vh.Assert(len(out) == 1, "one loop comes out")
	vh.Assert(closed(out[0]), "the loop is closed")
}

// H_Long: paths of several points are joined end to start.
//vh:bounds one path of 3 points and one of 4, closing a loop, points anywhere
func H_Long() {
	a, b, c, d, e := pt("a"), pt("b"), pt("c"), pt("d"), pt("e")
	distinct(a, c)
	in := order([]primitives.Path{path(a, b, c), path(c, d, e, a)})
	want := steps(in)
	out := primitives.JoinPaths3(in)
	kept(want, out, false)
	vh.Assert(len(out) == 1, "one loop comes out")
	vh.Assert(closed(out[0]), "the loop is closed")
}

func twist(all bool) {
	a, b, c := pt("a"), pt("b"), pt("c")
	distinct(a, b, c)
	in := order([]primitives.Path{path(a, b), path(jit("b2", b, all), c), path(jit("c2", c, all), jit("a2", a, all))})
	want := steps(in)
	out := primitives.JoinPaths3(in)
	kept(want, out, false)
	vh.Assert(len(out) == 1, "one loop comes out")
	vh.Assert(closed(out[0]), "the loop is closed")
}

// H_Twist: as H_Loop, but the two copies of each corner differ by less than the joining tolerance.
//vh:bounds loops of 3 points, copies within 2e-7 in X, equal coordinates at other corners
func H_Twist() { twist(false) }

// T_Twist: as H_Twist, the copies differing in all coordinates.
//vh:bounds loops of 3 points, copies within 2e-7 in every coordinate, equal coordinates at other corners
func T_Twist() { twist(true) }

// H_Touch: loops that touch in a corner come out closed.
//vh:bounds two loops of two segments with a common corner, all orders of the segments
func H_Touch() {
	v, a, b := on(0, vh.F("v", -50, 50)), on(0, vh.F("a", -50, 50)), on(0, vh.F("b", -50, 50))
	distinct(v, a, b)
	in := order([]primitives.Path{path(a, v), path(v, a), path(v, b), path(b, v)})
	want := steps(in)
	out := primitives.JoinPaths3(in)
	kept(want, out, false)
	for _, p := range out {
		vh.Assert(closed(p), "every path is a closed loop")
	}
}

// H_Apart: segments of two separate loops come out as the two loops.
//vh:bounds two loops of two segments each
func H_Apart() {
	a, b, c, d := on(0, vh.F("a", -50, 50)), on(0, vh.F("b", -50, 50)), on(0, vh.F("c", -50, 50)), on(0, vh.F("d", -50, 50))
	distinct(a, b, c, d)
	in := order([]primitives.Path{path(a, b), path(b, a), path(c, d), path(d, c)})
	want := steps(in)
	out := primitives.JoinPaths3(in)
	kept(want, out, false)
	vh.Assert(len(out) == 2, "two loops come out")
	for _, p := range out {
		vh.Assert(len(p.Points) == 3, "each loop comes out by itself")
		vh.Assert(closed(p), "every path is a closed loop")
	}
}

// H_Either: joining that may reverse paths keeps every step.
//vh:bounds 3 segments between points of the X axis on a grid of 1 mm and of 0.00002 mm
//vh:opt maporder
func H_Either() {
	g := 1.0
	if vh.B("fine") {
		g = 1.0 / 65536
	}
	var in []primitives.Path
	for i := 0; i < 3; i++ {
		a, b := vh.I(names[2*i], -3, 3), vh.I(names[2*i+1], -3, 3)
		vh.Assume(a != b)
		in = append(in, path(on(0, g*float64(a)), on(0, g*float64(b))))
	}
	want := steps(in)
	kept(want, primitives.JoinPaths2(in), true)
}

// H_EitherLoop: segments of a loop, each in any direction, come out as the loop.
//vh:bounds 3 corners, each segment in either direction, all orders
//vh:opt maporder
func H_EitherLoop() {
	axis := vh.Choose("axis", 3)
	a, b, c := on(axis, float64(vh.I("a", -3, 3))), on(axis, float64(vh.I("b", -3, 3))), on(axis, float64(vh.I("c", -3, 3)))
	distinct(a, b, c)
	in := []primitives.Path{path(a, b), path(b, c), path(c, a)}
	for i := range in {
		if vh.B(names[i]) {
			in[i] = path(in[i].Points[1], in[i].Points[0])
		}
	}
	in = order(in)
	want := steps(in)
	out := primitives.JoinPaths2(in)
	kept(want, out, true)
	vh.Assert(len(out) == 1, "one loop comes out")
	vh.Assert(closed(out[0]), "the loop is closed")
}
