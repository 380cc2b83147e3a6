package c13

import (
	"math"

	"github.com/l1va/goosli/helpers"
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

var names = []string{"p0", "p1", "p2", "p3", "p4"}

// distance is the reference distance of p from the line through a and b.
func distance(p, a, b primitives.Point) float64 {
	v, d := hx.P(p).Sub(hx.P(a)), hx.P(b).Sub(hx.P(a))
	if d.Len2() == 0 {
		return math.Sqrt(v.Len2())
	}
	vd := v.Dot(d)
	return math.Sqrt((v.Len2()*d.Len2() - vd*vd) / d.Len2())
}

// H_Distance: the distance of a point from a line is that of the reference.
//vh:bounds lines in any direction through any two points 0.05 to 6 apart, points within 20
func H_Distance() {
	b := hx.P(hx.Pt("b", 20))
	d, l := hx.Ray("d", 2)
	v := hx.W(hx.Vec("v", 20))
	got := b.Add(v).Pt().DistanceToLine(b.Pt(), b.Add(d).Pt())
	x := v.Dot(d)
	vh.Assert(got >= 0, "distances are not negative")
	vh.Assert(vh.Near(got*got*l*l, v.Len2()*l*l-x*x, 1e-6), "the distance from a line is that of the nearest point")
}

// H_DistancePoint: the distance from a line of no length is that from its point.
func H_DistancePoint() {
	b, p := hx.Pt("b", 20), hx.Pt("p", 20)
	got := p.DistanceToLine(b, b)
	vh.Assert(got >= 0, "distances are not negative")
	vh.Assert(vh.Near(got*got, hx.P(p).Sub(hx.P(b)).Len2(), 1e-6), "the distance from a line of no length is that from its point")
}

func check(ps []primitives.Point, tol float64, closed bool) {
	n := len(ps)
	for i := range ps {
		for j := 0; j < i; j++ {
			d := hx.P(ps[i]).Sub(hx.P(ps[j]))
			vh.Assume(vh.Or(closed && j == 0 && i == n-1, d.Len2() >= 0.01))
		}
	}
	in := append([]primitives.Point{}, ps...)
	got := helpers.SimplifyLine(ps, tol)
	for i := range in {
		vh.Assert(ps[i] == in[i], "the input is left unchanged")
	}
	vh.Assert(len(got) >= 2 && len(got) <= n, "the result has two points at least and no more than the input")
	vh.Assert(got[0] == in[0], "the result begins with the first point")
	vh.Assert(got[len(got)-1] == in[n-1], "the result ends with the last point")
	// some choice of kept points explains the result
	some, near := false, false
	for s := 0; s < 1<<uint(n-2); s++ {
		keep := []int{0}
		for i := 0; i < n-2; i++ {
			if s>>uint(i)&1 == 1 {
				keep = append(keep, i+1)
			}
		}
		keep = append(keep, n-1)
		if len(keep) != len(got) {
			continue
		}
		is := true
		for i, k := range keep {
			is = vh.And(is, got[i].X == in[k].X, got[i].Y == in[k].Y, got[i].Z == in[k].Z)
		}
		some = vh.Or(some, is)
		for i := 1; i < len(keep); i++ {
			for j := keep[i-1] + 1; j < keep[i]; j++ {
				is = vh.And(is, distance(in[j], in[keep[i-1]], in[keep[i]]) <= tol+1e-6)
			}
		}
		near = vh.Or(near, is)
	}
	vh.Assert(some, "the result is a subsequence of the input")
	vh.Assert(near, "every dropped point is within the tolerance of the line through its neighbours")
}

// H_Three: lines of three points.
//vh:opt replace=primitives.Point.DistanceToLine:distance
//vh:bounds any 3 points within 20, tolerance 0.001 to 5
func H_Three() {
	tol := vh.F("tol", 0.001, 5)
	var ps []primitives.Point
	for i := 0; i < 3; i++ {
		ps = append(ps, hx.Pt(names[i], 20))
	}
	check(ps, tol, false)
}

// H_Flat: lines of four points in a plane of space.
//vh:opt replace=primitives.Point.DistanceToLine:distance
//vh:bounds 4 points of the planes along two axes, tolerance 0.001 to 5
func H_Flat() { flat(4, false) }

// H_FlatRun: lines of five points in a plane of space that go on in one direction.
//vh:opt replace=primitives.Point.DistanceToLine:distance
//vh:bounds 5 points of the planes along two axes, one coordinate increasing, tolerance 0.001 to 5
func H_FlatRun() { flat(5, true) }

// onwards: the first coordinate increases.
func onwards(x []float64) {
	for i := 1; i < len(x); i++ {
		vh.Assume(x[i-1] < x[i]-0.01)
	}
}

func flat(n int, on bool) {
	var xs []float64
	tol := vh.F("tol", 0.001, 5)
	axis := vh.Choose("axis", 3)
	var ps []primitives.Point
	for i := 0; i < n; i++ {
		x, y := vh.F(names[i]+".x", -20, 20), vh.F(names[i]+".y", -20, 20)
		xs = append(xs, x)
		switch axis {
		case 0:
			ps = append(ps, primitives.Point{X: x, Y: y, Z: 3})
		case 1:
			ps = append(ps, primitives.Point{X: 3, Y: x, Z: y})
		default:
			ps = append(ps, primitives.Point{X: y, Y: 3, Z: x})
		}
	}
	if on {
		onwards(xs)
	}
	check(ps, tol, false)
}

func space(n int, closed bool) []primitives.Point {
	var ps []primitives.Point
	var xs []float64
	for i := 0; i < n; i++ {
		ps = append(ps, hx.Pt(names[i], 20))
		xs = append(xs, ps[i].X)
	}
	if n > 3 {
		onwards(xs)
	}
	if closed {
		ps = append(ps, ps[0])
	}
	return ps
}

// H_Four: lines of four points of space.
//vh:opt replace=primitives.Point.DistanceToLine:distance
//vh:bounds 4 points within 20, X increasing, tolerance 0.001 to 5
func H_Four() { check(space(4, false), vh.F("tol", 0.001, 5), false) }

// H_Closed: lines that end where they begin.
//vh:opt replace=primitives.Point.DistanceToLine:distance
//vh:bounds any 3 points within 20 and the first again, tolerance 0.001 to 5
func H_Closed() { check(space(3, true), vh.F("tol", 0.001, 5), true) }

// T_Five: lines of five points of space.
//vh:opt replace=primitives.Point.DistanceToLine:distance
//vh:bounds 5 points within 20, X increasing, tolerance 0.001 to 5
func T_Five() { check(space(5, false), vh.F("tol", 0.001, 5), false) }

// H_Two: a line of two points stays as it is.
func H_Two() {
	check([]primitives.Point{hx.Pt("p0", 20), hx.Pt("p1", 20)}, vh.F("tol", 0.001, 5), false)
}

// H_Spikes: long lines with two points off the straight.
//vh:bounds straight lines of 8 points, any two inner ones moved aside by up to 20, tolerance 0.001 to 5
//vh:opt replace=primitives.Point.DistanceToLine:distance
func H_Spikes() {
	const n = 8
	tol := vh.F("tol", 0.001, 5)
	i := 1 + vh.Choose("i", n-2)
	j := 1 + vh.Choose("j", n-2)
	vh.Assume(i <= j)
	y := make([]float64, n)
	y[i] = vh.F("yi", -20, 20)
	y[j] = vh.F("yj", -20, 20)
	var in []primitives.Point
	for k := 0; k < n; k++ {
		in = append(in, primitives.Point{X: float64(k), Y: y[k], Z: 1})
	}
	got := helpers.SimplifyLine(append([]primitives.Point{}, in...), tol)
	vh.Assert(got[0] == in[0] && got[len(got)-1] == in[n-1], "the ends are kept")
	last := 0
	for g := 1; g < len(got); g++ {
		k := int(got[g].X)
		vh.Assert(k > last && k < n, "the points are kept in order")
		vh.Assert(got[g] == in[k], "every kept point is an original point")
		for d := last + 1; d < k; d++ {
			vh.Assert(distance(in[d], in[last], in[k]) <= tol+1e-6, "every dropped point is within the tolerance of the line through its neighbours")
		}
		last = k
	}
}
