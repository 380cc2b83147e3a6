package c27

import (
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

var names = []string{"a", "b", "c", "d", "e", "f", "g", "h"}

// planes are pairs of orthogonal vectors of one length along a plane.
var planes = [][2]hx.V{
	{{1, 0, 0}, {0, 1, 0}}, {{0, 1, 0}, {-1, 0, 0}}, {{3, 4, 0}, {-4, 3, 0}}, {{1, 0, 0}, {0, -1, 0}}, {{-5, 12, 0}, {12, 5, 0}},
	{{1, 0, 0}, {0, 0, 1}}, {{0, 0, 1}, {0, 1, 0}}, {{1, 2, 2}, {2, -2, 1}}, {{2, 1, -2}, {-2, 2, -1}},
}

type p2 [2]float64

func cross(a, b, c p2) float64 { return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0]) }

// convex is a convex contour of n corners turning left, its first edge along
// the first axis.
func convex(n int) []p2 {
	x, y := vh.F("xa", -20, 20), vh.F("ya", -20, 20)
	ps := []p2{{x, y}, {x + vh.F("k", 0.5, 20), y}}
	for i := 2; i < n; i++ {
		ps = append(ps, p2{vh.F("x"+names[i], -20, 20), vh.F("y"+names[i], -20, 20)})
		vh.Assume(ps[i][1] > y)
	}
	for i := 1; i < n; i++ {
		vh.Assume(cross(ps[i-1], ps[i], ps[(i+1)%n]) > 0)
		if i > 1 && i+1 < n {
			vh.Assume(cross(ps[0], ps[i], ps[i+1]) > 0)
		}
	}
	return ps
}

func space(o hx.V, f [2]hx.V, p p2) primitives.Point {
	return o.Add(f[0].Mul(p[0])).Add(f[1].Mul(p[1])).Pt()
}

func contour(o hx.V, f [2]hx.V, ps []p2) primitives.Path {
	var path primitives.Path
	for i := 0; i <= len(ps); i++ {
		path.Points = append(path.Points, space(o, f, ps[i%len(ps)]))
	}
	return path
}

func place() (hx.V, [2]hx.V) {
	return hx.P(hx.Pt("o", 50)), planes[vh.Choose("plane", len(planes))]
}

// inside looks at the point o of the plane.
func inside(n int) {
	ps := convex(n)
	o, f := place()
	in, out := true, false
	for i := range ps {
		c := cross(p2{}, ps[i], ps[(i+1)%n])
		in = vh.And(in, c > 0)
		out = vh.Or(out, c < 0)
	}
	vh.Assume(vh.Or(in, out))
	path := contour(o, f, ps)
	got := o.Pt().Inside(path)
	vh.Assert(vh.Implies(in, got), "a point inside is reported inside")
	vh.Assert(vh.Implies(out, vh.Not(got)), "a point outside is reported outside")
}

// H_Inside3: triangles.
//vh:bounds triangles of any shape with the first edge in 9 directions of space, any point of their plane clearly in or out
func H_Inside3() { inside(3) }

// H_Inside4: four corners.
//vh:bounds convex contours of 4 corners with the first edge in 9 directions of space, any point of their plane clearly in or out
func H_Inside4() { inside(4) }

// H_Inside5: five corners.
//vh:bounds convex contours of 5 corners with the first edge in 9 directions of space, any point of their plane clearly in or out
func H_Inside5() { inside(5) }

// T_Inside6: six corners.
//vh:bounds convex contours of 6 corners with the first edge in 9 directions of space, any point of their plane clearly in or out
func T_Inside6() { inside(6) }

// T_Inside8: seven and eight corners.
//vh:bounds convex contours of 7 and 8 corners with the first edge in 9 directions of space, any point of their plane clearly in or out
func T_Inside8() { inside(7 + vh.Choose("more", 2)) }

func opposite(x, y float64) bool { return vh.Or(vh.And(x > 0, y < 0), vh.And(x < 0, y > 0)) }

func crossing(a, b, c, d p2) bool {
	return vh.And(opposite(cross(a, b, c), cross(a, b, d)), opposite(cross(c, d, a), cross(c, d, b)))
}

var calls int

// meet is what is asked of a segment's meeting another one in a horizontal
// plane: it must be reported when they cross, and may be otherwise.
func meet(l primitives.Line, l1 *primitives.Line) *primitives.Point {
	calls++
	b := vh.B("meet" + string(rune('a'+calls)))
	vh.Assume(vh.Implies(crossing(p2{l.P1.X, l.P1.Y}, p2{l.P2.X, l.P2.Y}, p2{l1.P1.X, l1.P1.Y}, p2{l1.P2.X, l1.P2.Y}), b))
	if vh.Split(b) {
		return &l1.P1
	}
	return nil
}

// holds is the reference of a point's being inside a convex contour in a
// horizontal plane.
func holds(a primitives.Point, path primitives.Path) bool {
	l, r := true, true
	for i := 1; i < len(path.Points); i++ {
		p, q := path.Points[i-1], path.Points[i]
		c := cross(p2{p.X, p.Y}, p2{q.X, q.Y}, p2{a.X, a.Y})
		l, r = vh.And(l, c > 0), vh.And(r, c < 0)
	}
	return vh.Or(l, r)
}

// always: any point counts as inside.
func always(a primitives.Point, path primitives.Path) bool { return true }

// apart is a segment's meeting another one that it has no point in common with.
func apart(l primitives.Line, l1 *primitives.Line) *primitives.Point { return nil }

func left(ps []p2, a p2) (in, out bool) {
	in = true
	for i := range ps {
		c := cross(ps[i], ps[(i+1)%len(ps)], a)
		in = vh.And(in, c > 0)
		out = vh.Or(out, c < 0)
	}
	return
}

func other(n int) (qs []p2) {
	for i := 0; i < n; i++ {
		qs = append(qs, p2{vh.F("p"+names[i], -20, 20), vh.F("q"+names[i], -20, 20)})
	}
	return
}

func nested(n, m int) {
	ps := convex(n)
	qs := other(m)
	all := true
	for _, q := range qs {
		in, _ := left(ps, q)
		all = vh.And(all, in)
	}
	vh.Assume(all)
	o, f := hx.P(hx.Pt("o", 50)), planes[0]
	vh.Assert(contour(o, f, qs).IsInside(contour(o, f, ps)), "a contour within another is inside it")
}

// H_Nested: a contour within another.
//vh:opt replace=primitives.Line.IntersectLine:apart
//vh:bounds any triangle strictly within any convex contour of 3 or 4 corners in a horizontal plane
func H_Nested() { nested(3+vh.Choose("n", 2), 3) }

// H_Apart: contours apart, on two sides of a line.
//vh:opt replace=primitives.Line.IntersectLine:apart
//vh:opt replace=primitives.Point.Inside:holds
//vh:bounds any triangle beyond an edge of any convex contour of 3 or 4 corners in a horizontal plane
func H_Apart() {
	n := 3 + vh.Choose("n", 2)
	ps := convex(n)
	qs := other(3)
	e := vh.Choose("edge", n)
	for _, q := range qs {
		vh.Assume(cross(ps[e], ps[(e+1)%n], q) < 0)
	}
	o, f := hx.P(hx.Pt("o", 50)), planes[0]
	vh.Assert(vh.Not(contour(o, f, qs).IsInside(contour(o, f, ps))), "a contour apart from another is not inside it")
}

// H_Crossing: contours that cross.
//vh:opt replace=primitives.Line.IntersectLine:meet
//vh:opt replace=primitives.Point.Inside:always
//vh:bounds any two contours of 3 or 4 and 3 corners in a horizontal plane of which any two edges cross
func H_Crossing() {
	n := 3 + vh.Choose("n", 2)
	ps, qs := other(n), []p2{}
	for i := 0; i < 3; i++ {
		qs = append(qs, p2{vh.F("r"+names[i], -20, 20), vh.F("s"+names[i], -20, 20)})
	}
	e, k := vh.Choose("edge", n), vh.Choose("other edge", 3)
	a, b, c, d := ps[e], ps[(e+1)%n], qs[k], qs[(k+1)%3]
	vh.Assume(crossing(a, b, c, d))
	o, f := hx.P(hx.Pt("o", 50)), planes[0]
	x, y := contour(o, f, ps), contour(o, f, qs)
	if vh.B("swap") {
		x, y = y, x
	}
	vh.Assert(vh.Not(x.IsInside(y)), "a contour that crosses another is not inside it")
}

func winding(n int) {
	qs := other(n)
	area := 0.0
	for i := range qs {
		p, q := qs[i], qs[(i+1)%n]
		area += p[0]*q[1] - p[1]*q[0]
	}
	vh.Assume(vh.Or(area > 0, area < 0))
	o := hx.P(hx.Pt("o", 50))
	path := contour(o, planes[0], qs)
	if vh.B("open") {
		path.Points = path.Points[:n]
	}
	cw := path.IsWindingCW()
	vh.Assert(vh.Iff(cw, area < 0), "the winding is that of the area")
	vh.Assert(vh.Iff(path.Reverse().IsWindingCW(), vh.Not(cw)), "the winding turns over with the contour")
	vh.Assert(vh.Iff(path.IsHole(), vh.Not(path.IsSolid())), "hole and solid are opposites")
	vh.Assert(vh.Iff(path.IsHole(), vh.Not(path.Reverse().IsHole())), "a reversed hole is a solid")
}

// H_Winding: the winding of horizontal contours.
//vh:bounds any contour of 3 to 6 corners (8 thorough), closed or left open, at any height
func H_Winding() {
	max := 4
	if vh.Thorough() {
		max = 6
	}
	winding(3 + vh.Choose("n", max))
}

// H_Rects: two rectangles, with nothing replaced.
//vh:bounds two upright rectangles of any places and sizes from 0.5 to 40 in a horizontal plane, from any two corners, in the same or in opposite directions, their sides not within 0.01 of each other
func H_Rects() {
	rect := func(n string) (x0, y0, x1, y1 float64) {
		x0, y0 = vh.F(n+".x", -20, 20), vh.F(n+".y", -20, 20)
		return x0, y0, x0 + vh.F(n+".w", 0.5, 40), y0 + vh.F(n+".h", 0.5, 40)
	}
	a0, b0, a1, b1 := rect("inner")
	c0, d0, c1, d1 := rect("outer")
	for _, x := range []float64{a0, a1} {
		for _, y := range []float64{c0, c1} {
			vh.Assume(vh.Not(vh.Near(x, y, 0.01)))
		}
	}
	for _, x := range []float64{b0, b1} {
		for _, y := range []float64{d0, d1} {
			vh.Assume(vh.Not(vh.Near(x, y, 0.01)))
		}
	}
	path := func(x0, y0, x1, y1 float64, from int, back bool) primitives.Path {
		c := []p2{{x0, y0}, {x1, y0}, {x1, y1}, {x0, y1}}
		var r []p2
		for i := 0; i < 4; i++ {
			k := (from + i) % 4
			if back {
				k = (from + 4 - i) % 4
			}
			r = append(r, c[k])
		}
		return contour(hx.V{}, planes[0], r)
	}
	in := vh.And(a0 > c0, a1 < c1, b0 > d0, b1 < d1)
	got := path(a0, b0, a1, b1, vh.Choose("from", 4), false).IsInside(path(c0, d0, c1, d1, vh.Choose("outer from", 4), vh.B("back")))
	vh.Assert(vh.Iff(got, in), "inside exactly when within the other one")
}
