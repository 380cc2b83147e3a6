package c01

import (
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

func inputs() (primitives.Plane, primitives.Point, primitives.Point, float64, float64) {
	p := primitives.Plane{P: hx.Pt("p", 50), N: hx.Dir("n", 4, 0.01)}
	a := hx.Pt("a", 50)
	b := hx.Pt("b", 50)
	da := hx.P(a).Sub(hx.P(p.P)).Dot(hx.W(p.N))
	db := hx.P(b).Sub(hx.P(p.P)).Dot(hx.W(p.N))
	return p, a, b, da, db
}

// H_Opposite: ends on opposite sides give a point on the plane and on the segment, in both orders.
//vh:bounds coordinates within 50, normals within 4, ends at least 0.001 off the plane (scaled by the normal)
func H_Opposite() {
	p, a, b, da, db := inputs()
	vh.Assume(vh.Or(vh.And(da > 0.001, db < -0.001), vh.And(da < -0.001, db > 0.001)))
	r := p.IntersectSegment(a, b)
	vh.Assert(r != nil, "ends on opposite sides give a point")
	q := p.IntersectSegment(b, a)
	vh.Assert(q != nil, "ends on opposite sides give a point in the other order")
	vh.Observe("x", r.X)
	vh.Observe("z", r.Z)
	ab := hx.P(b).Sub(hx.P(a))
	ar := hx.P(*r).Sub(hx.P(a))
	vh.Assert(vh.Near(hx.P(*r).Sub(hx.P(p.P)).Dot(hx.W(p.N)), 0, 1e-6), "the point lies on the plane")
	vh.Assert(ar.Cross(ab).Near(hx.V{}, 1e-6), "the point lies on the line of the segment")
	vh.Assert(hx.P(*r).Between(hx.P(a), hx.P(b), 1e-6), "the point lies between the ends")
	vh.Assert(hx.P(*r).Near(hx.P(*q), 1e-6), "the order of the ends does not matter")
}

// H_SameSide: ends strictly on one side give no point.
func H_SameSide() {
	p, a, b, da, db := inputs()
	vh.Assume(vh.Or(vh.And(da > 0.001, db > 0.001), vh.And(da < -0.001, db < -0.001)))
	vh.Assert(p.IntersectSegment(a, b) == nil, "ends on the same side give no point")
}

// H_Side: side, distance and projection agree.
func H_Side() {
	p, a, _, da, _ := inputs()
	vh.Assume(vh.Or(da > 0.001, da < -0.001))
	vh.Assert(vh.Iff(p.PointInFront(a), da > 0), "in front exactly when the signed distance is positive")
	vh.Assert(!p.PointBelongs(a), "a point off the plane does not belong to it")
	q := p.ProectionPointToPlane(a)
	n := hx.W(p.N)
	vh.Assert(vh.Near(hx.P(q).Sub(hx.P(p.P)).Dot(n), 0, 1e-6), "the projection lies on the plane")
	vh.Assert(hx.P(q).Sub(hx.P(a)).Cross(n).Near(hx.V{}, 1e-6), "the projection moves along the normal")
	vh.Assert(p.PointBelongs(q), "the projection belongs to the plane")
}

func axis(n float64) primitives.Vector {
	switch vh.Choose("axis", 3) {
	case 0:
		return primitives.Vector{X: n}
	case 1:
		return primitives.Vector{Y: n}
	}
	return primitives.Vector{Z: n}
}

// H_Parallel: a segment parallel to the plane, also one inside it, is not cut.
//vh:bounds planes across a coordinate axis, coordinates within 50
func H_Parallel() {
	n := vh.F("n", -4, 4)
	vh.Assume(vh.Or(n > 0.01, n < -0.01))
	p := primitives.Plane{P: hx.Pt("p", 50), N: axis(n)}
	a, b := hx.Pt("a", 50), hx.Pt("b", 50)
	if p.N.X != 0 {
		b.X = a.X
	} else if p.N.Y != 0 {
		b.Y = a.Y
	} else {
		b.Z = a.Z
	}
	vh.Assert(p.IntersectSegment(a, b) == nil, "a parallel segment gives no point")
}

// H_Touch: a segment that ends exactly on the plane meets it there.
//vh:bounds planes across a coordinate axis, coordinates within 50
func H_Touch() {
	n := vh.F("n", -4, 4)
	vh.Assume(vh.Or(n > 0.01, n < -0.01))
	p := primitives.Plane{P: hx.Pt("p", 50), N: axis(n)}
	a, b := hx.Pt("a", 50), hx.Pt("b", 50)
	switch {
	case p.N.X != 0:
		a.X = p.P.X
		vh.Assume(vh.Not(vh.Near(b.X, a.X, 0.01)))
	case p.N.Y != 0:
		a.Y = p.P.Y
		vh.Assume(vh.Not(vh.Near(b.Y, a.Y, 0.01)))
	default:
		a.Z = p.P.Z
		vh.Assume(vh.Not(vh.Near(b.Z, a.Z, 0.01)))
	}
	r := p.IntersectSegment(a, b)
	vh.Assert(r != nil, "a segment that starts on the plane meets it")
	vh.Assert(hx.P(*r).Near(hx.P(a), 1e-6), "it meets it in its own end")
	r = p.IntersectSegment(b, a)
	vh.Assert(r != nil, "a segment that ends on the plane meets it")
	vh.Assert(hx.P(*r).Near(hx.P(a), 1e-6), "it meets it in its own end (2)")
	vh.Assert(p.PointInFront(a), "a point of the plane counts as in front")
	vh.Assert(p.PointBelongs(a), "a point of the plane belongs to it")
}

// H_Level: also a segment that is almost parallel to the plane meets it exactly when its ends are on both sides.
//vh:bounds planes across a coordinate axis with normals down to 1e-5, ends 1e-9 to 0.01 off the plane on any sides, coordinates within 50
func H_Level() {
	n := vh.F("n", -4, 4)
	vh.Assume(vh.Or(n > 1e-5, n < -1e-5))
	p := primitives.Plane{N: axis(n)}
	a, b := hx.Pt("a", 50), hx.Pt("b", 50)
	da, db := vh.F("da", -0.01, 0.01), vh.F("db", -0.01, 0.01)
	vh.Assume(vh.And(vh.Or(da > 1e-9, da < -1e-9), vh.Or(db > 1e-9, db < -1e-9)))
	switch {
	case p.N.X != 0:
		a.X, b.X = da, db
	case p.N.Y != 0:
		a.Y, b.Y = da, db
	default:
		a.Z, b.Z = da, db
	}
	r, q := p.IntersectSegment(a, b), p.IntersectSegment(b, a)
	if vh.Split(vh.And(da > 0, db < 0)) || vh.Split(vh.And(da < 0, db > 0)) {
		vh.Assert(r != nil, "ends on opposite sides give a point")
		vh.Assert(q != nil, "ends on opposite sides give a point in the other order")
		vh.Assert(hx.P(*r).Between(hx.P(a), hx.P(b), 1e-6), "the point lies between the ends")
	} else {
		vh.Assert(r == nil, "ends on the same side give no point")
		vh.Assert(q == nil, "ends on the same side give no point in the other order")
	}
}
