package c10

import (
	"math"

	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

const eps = 1e-6

// H_Cross: cross and dot product, sum, difference and scaling follow their definitions.
//vh:bounds any vectors within 20
func H_Cross() {
	a, b := hx.Vec("a", 20), hx.Vec("b", 20)
	k := vh.F("k", -20, 20)
	x, y := hx.W(a), hx.W(b)
	c := hx.W(a.Cross(b))
	vh.Assert(c.Near(x.Cross(y), eps), "the cross product follows the right-hand rule")
	vh.Assert(vh.And(vh.Near(c.Dot(x), 0, eps), vh.Near(c.Dot(y), 0, eps)), "the cross product is orthogonal to both factors")
	vh.Assert(hx.W(b.Cross(a)).Near(c.Mul(-1), eps), "the cross product turns over with its factors")
	vh.Assert(vh.Near(c.Len2(), x.Len2()*y.Len2()-x.Dot(y)*x.Dot(y), 1e-3), "the cross product has the area of its factors")
	vh.Assert(vh.Near(a.Dot(b), x.Dot(y), eps), "the dot product is the sum of products")
	vh.Assert(hx.W(a.Add(b)).Near(x.Add(y), eps), "vectors add up")
	vh.Assert(hx.W(a.Sub(b)).Near(x.Sub(y), eps), "vectors are subtracted")
	vh.Assert(hx.W(a.MulScalar(k)).Near(x.Mul(k), eps), "vectors are scaled")
	vh.Assert(hx.W(a.Reverse()).Near(x.Mul(-1), eps), "a reversed vector points the other way")
	vh.Assert(vh.Near(a.LengthSquare(), x.Len2(), eps), "the square of the length")
	l := a.Length()
	vh.Assert(vh.And(l >= 0, vh.Near(l*l, x.Len2(), 1e-4)), "the length")
	d := x.Dot(y)
	cd := a.CodirectedWith(b)
	vh.Assert(vh.And(vh.Implies(d > eps, cd), vh.Implies(d < -eps, vh.Not(cd))), "vectors are codirected when they make an acute angle")
}

// H_Points: vectors between points.
//vh:bounds any points within 20
func H_Points() {
	p, q := hx.Pt("p", 20), hx.Pt("q", 20)
	v := hx.P(q).Sub(hx.P(p))
	vh.Assert(hx.W(p.VectorTo(q)).Near(v, eps), "the vector from one point to another")
	vh.Assert(hx.W(primitives.ToVector(p, q)).Near(v, eps), "the vector between points")
	vh.Assert(hx.W(primitives.Line{P1: p, P2: q}.ToVector()).Near(v, eps), "the vector of a line")
	vh.Assert(hx.P(p.Shift(p.VectorTo(q))).Near(hx.P(q), eps), "shifting by the vector to a point leads there")
	d := p.DistanceTo(q)
	vh.Assert(vh.And(d >= 0, vh.Near(d*d, v.Len2(), 1e-4)), "the distance of points")
	l := primitives.Line{P1: p, P2: q}.Len()
	vh.Assert(vh.And(l >= 0, vh.Near(l*l, v.Len2(), 1e-4)), "the length of a line")
	r := primitives.Line{P1: p, P2: q}.Reverse()
	vh.Assert(r.P1 == q && r.P2 == p, "a reversed line")
	vh.Assert(p.ToVector().ToPoint() == p, "points and vectors")
}

// H_Normalize: a normalised vector has unit length and the same direction.
//vh:bounds vectors of any direction, length 0.05 to 60
func H_Normalize() {
	a, l := hx.Ray("a", 20)
	n := hx.W(a.Vec().Normalize())
	vh.Assert(vh.Near(n.Len2(), 1, eps), "a normalised vector has unit length")
	vh.Assert(n.Cross(a).Near(hx.V{}, eps), "a normalised vector is parallel to the original")
	vh.Assert(vh.Near(n.Dot(a), l, eps), "a normalised vector has the direction of the original")
}

// H_NormalizeZero: nothing happens to the zero vector.
func H_NormalizeZero() {
	vh.Assert(primitives.V(0, 0, 0).Normalize() == primitives.V(0, 0, 0), "normalising the zero vector leaves it as it is")
}

// H_NormalizeAny: the direction of every vector is kept.
//vh:bounds vectors of any direction, length over 0.001
func H_NormalizeAny() {
	a := hx.W(hx.Dir("a", 20, 1e-6))
	n := hx.W(a.Vec().Normalize())
	vh.Assert(n.Cross(a).Near(hx.V{}, eps), "a normalised vector is parallel to the original")
}

// H_Project: projections on a vector and on the plane across it.
//vh:bounds any vectors within 20, projection on vectors longer than 0.1
func H_Project() {
	a, b := hx.Vec("a", 20), hx.Dir("b", 20, 0.01)
	x, y := hx.W(a), hx.W(b)
	on := hx.W(a.ProjectOn(b))
	off := hx.W(a.ProjectOnPlane(primitives.Plane{P: hx.Pt("p", 20), N: b}))
	vh.Assert(on.Add(off).Near(x, eps), "the projections add up to the vector")
	vh.Assert(on.Cross(y).Near(hx.V{}, eps), "the projection on a vector is parallel to it")
	vh.Assert(vh.Near(off.Dot(y), 0, eps), "the projection on a plane is orthogonal to its normal")
	vh.Assert(vh.Near(on.Dot(off), 0, eps), "the projections are orthogonal")
}

// H_ProjectPoint: projecting a point on a line gives its nearest point.
//vh:bounds lines of any direction through points within 20, points within 20
func H_ProjectPoint() {
	b, p := hx.P(hx.Pt("b", 20)), hx.P(hx.Pt("p", 20))
	d, _ := hx.Ray("d", 5)
	q := hx.P(p.Pt().ProjectOnLine(b.Pt(), b.Add(d).Pt()))
	vh.Assert(q.Sub(b).Cross(d).Near(hx.V{}, eps), "the projection lies on the line")
	vh.Assert(vh.Near(p.Sub(q).Dot(d), 0, eps), "the projection is the nearest point of the line")
}

// H_ProjectPointAny: the same for a line through any two points.
//vh:bounds any points within 20, the line's at least 0.1 apart
func H_ProjectPointAny() {
	b, p := hx.P(hx.Pt("b", 20)), hx.P(hx.Pt("p", 20))
	d := hx.W(hx.Dir("d", 20, 0.01))
	q := hx.P(p.Pt().ProjectOnLine(b.Pt(), b.Add(d).Pt()))
	vh.Assert(q.Sub(b).Cross(d).Near(hx.V{}, eps), "the projection lies on the line")
	vh.Assert(vh.Near(p.Sub(q).Dot(d), 0, eps), "the projection is the nearest point of the line")
}

// some is any vector, or one where the rounding of lengths is known to matter.
func some() primitives.Vector {
	l := []hx.V{{}, {2, 9, 8}, {11, 9, 16}, {5, 0, 16}, {6, 13, 10}, {0.1, 0.7, 0.3}, {-1, 2, 7}}
	if i := vh.Choose("listed", len(l)); i > 0 {
		return l[i].Vec()
	}
	return hx.Dir("a", 20, 0.01)
}

// H_Opposite: vectors of opposite direction are at 180 degrees, rounding included.
//vh:bounds vectors of any direction, length 0.1 to 40, rounding errors symbolic
//vh:opt noise
func H_Opposite() {
	a := some()
	g := a.Angle(a.Reverse())
	vh.Assert(vh.And(g >= 179.99, g <= 180.0001), "opposite vectors are at 180 degrees")
}

// H_Equal: equal vectors are at 0 degrees, rounding included.
//vh:bounds vectors of any direction, length 0.1 to 40, rounding errors symbolic
//vh:opt noise
func H_Equal() {
	a := some()
	g := a.Angle(a)
	vh.Assert(vh.And(g >= -0.0001, g <= 0.01), "vectors of one direction are at 0 degrees")
}

// cosine of the angle in degrees
func cosDeg(g float64) float64 { return math.Cos(g * math.Pi / 180) }

// H_Angle: the angle is that of the cosine rule, between 0 and 180.
//vh:bounds one vector along an axis, the other of any direction, lengths 0.05 to 60
func H_Angle() {
	k := vh.F("k", 0.05, 20)
	var a hx.V
	switch vh.Choose("axis", 3) {
	case 0:
		a = hx.V{X: k}
	case 1:
		a = hx.V{Y: -k}
	default:
		a = hx.V{Z: k}
	}
	b, l := hx.Ray("b", 5)
	g := a.Vec().Angle(b.Vec())
	vh.Assert(vh.And(g >= 0, g <= 180), "angles lie between 0 and 180 degrees")
	vh.Assert(vh.Near(cosDeg(g)*l*k, a.Dot(b), 1e-4), "the angle has the cosine of the vectors")
	h := b.Vec().Angle(a.Vec())
	t := float64(15 * vh.Choose("threshold", 13))
	vh.Assert(vh.And(vh.Implies(g < t, h < t+0.01), vh.Implies(h < t, g < t+0.01)), "the angle is symmetric")
}

// H_AngleRange: angles lie between 0 and 180 degrees for any two vectors.
//vh:bounds any vectors longer than 0.1 within 20
func H_AngleRange() {
	a, b := hx.Dir("a", 20, 0.01), hx.Dir("b", 20, 0.01)
	g := a.Angle(b)
	vh.Assert(vh.And(g >= 0, g <= 180), "angles lie between 0 and 180 degrees")
}

// H_RotateAbout: turning keeps length and the component along the axis, and turns by the angle.
//vh:bounds axes along a coordinate direction or one of 4 slanting ones, vectors up to 100 long of any direction, angles within a turn either way
func H_RotateAbout() {
	k := vh.F("k", 0.05, 20)
	e, f, g := hx.V{X: 1}, hx.V{Y: 1}, hx.V{Z: 1}
	s := 1.0
	if vh.B("slanting") {
		s = 3
		e, f, g = hx.V{1, 2, 2}, hx.V{2, -2, 1}, hx.V{2, 1, -2}
		if vh.B("more") {
			s = 7
			e, f, g = hx.V{2, 3, 6}, hx.V{3, -6, 2}, hx.V{6, 2, -3}
		}
		if vh.B("up") {
			e, g = g, e.Mul(-1)
		}
	} else {
		switch vh.Choose("axis", 3) {
		case 1:
			e, f, g = f, g, e
		case 2:
			e, f, g = g, e, f
		}
	}
	if vh.B("back") {
		e, f = e.Mul(-1), f.Mul(-1)
	}
	turn(e, f, g, s, k)
}

// turn: e, f, g are orthogonal with length s; the axis has the direction of e and length k*s.
func turn(e, f, g hx.V, s, k float64) {
	al := vh.F("along", -20, 20)
	// the part across the axis has length m
	t, m := vh.F("t", -1, 1), 0.0
	if !vh.B("along it") {
		m = vh.F("m", 0.01, 10)
	}
	x, y := m*(1-t*t), m*2*t
	switch vh.Choose("quarter", 4) {
	case 1:
		x, y = -x, y
	case 2:
		x, y = y, x
	case 3:
		x, y = y, -x
	}
	m = m * (1 + t*t)
	a := e.Mul(al).Add(f.Mul(x)).Add(g.Mul(y))
	b := e.Mul(k)
	deg := vh.F("angle", -360, 360)
	r := hx.W(a.Vec().RotateAbout(b.Vec(), deg))
	co, si := math.Cos(deg*(math.Pi/180)), math.Sin(deg*(math.Pi/180))
	vh.Assert(vh.Near(r.Dot(e), al*s*s, eps), "the component along the axis is kept")
	vh.Assert(vh.Near(r.Len2(), (al*al+m*m)*s*s, 1e-4), "the length is kept")
	want := e.Mul(al).Add(f.Mul(x*co - y*si)).Add(g.Mul(x*si + y*co))
	vh.Assert(r.Near(want, 1e-4), "the vector is turned by the angle, anticlockwise seen against the axis")
}
