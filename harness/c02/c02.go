package c02

import (
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

func dist(p primitives.Plane, a primitives.Point) float64 {
	return hx.P(a).Sub(hx.P(p.P)).Dot(hx.W(p.N))
}

func plane(axis int) primitives.Plane {
	n := vh.F("n", -4, 4)
	vh.Assume(vh.Or(n > 0.1, n < -0.1))
	p := primitives.Plane{P: hx.Pt("p", 20)}
	switch axis {
	case 0:
		p.N.X = n
	case 1:
		p.N.Y = n
	default:
		p.N.Z = n
	}
	return p
}

// far is the corner reached from a through q, k times as far as q.
func far(a, q hx.V, k float64) hx.V { return a.Add(q.Sub(a).Mul(k)) }

// crossed: corner a is alone on its side; the plane meets the edges from it in
// q1 and q2, and the other corners lie k1 and k2 times as far.
func crossed(p primitives.Plane, q1, q2 hx.V) {
	n := hx.W(p.N)
	av := hx.P(hx.Pt("a", 10))
	k1, k2 := vh.F("k1", 1.05, 8), vh.F("k2", 1.05, 8)
	da := av.Sub(hx.P(p.P)).Dot(n)
	front := vh.Choose("front", 2) == 1
	if front {
		vh.Assume(da > 0.05)
	} else {
		vh.Assume(da < -0.05)
	}
	vh.Assume(vh.Not(q1.Near(q2, 1e-2)))
	b, c := far(av, q1, k1), far(av, q2, k2)
	var t primitives.Triangle
	switch vh.Choose("first", 3) {
	case 0:
		t = primitives.NewTriangle(av.Pt(), b.Pt(), c.Pt())
	case 1:
		t = primitives.NewTriangle(c.Pt(), av.Pt(), b.Pt())
	default:
		t = primitives.NewTriangle(b.Pt(), c.Pt(), av.Pt())
	}
	vh.Assert(p.Intersect(&t), "a crossed triangle is reported as crossed")
	l := p.IntersectTriangle(&t)
	vh.Assert(l != nil, "a crossed triangle has a section")
	vh.Observe("x", l.P1.X)
	vh.Observe("y", l.P2.Y)
	fwd := vh.And(hx.P(l.P1).Near(q1, 1e-6), hx.P(l.P2).Near(q2, 1e-6))
	bwd := vh.And(hx.P(l.P1).Near(q2, 1e-6), hx.P(l.P2).Near(q1, 1e-6))
	vh.Assert(vh.Or(fwd, bwd), "the section runs between the points where the plane meets the edges")
	// walking along the section with the normal up, the outside is always on one hand
	side := q2.Sub(q1).Cross(n).Dot(q1.Sub(av).Cross(q2.Sub(av)))
	vh.Assert(vh.And(vh.Or(side < 1e-3, bwd), vh.Or(side > -1e-3, fwd)), "the outward side is always on the same hand")
}

// H_Section: section of a triangle whose corners lie clearly on both sides.
//vh:bounds planes across a coordinate axis, corners within 90, at least 0.05 off the plane, sections longer than 0.01
func H_Section() {
	axis := vh.Choose("axis", 3)
	p := plane(axis)
	x1, y1, x2, y2 := vh.F("x1", -10, 10), vh.F("y1", -10, 10), vh.F("x2", -10, 10), vh.F("y2", -10, 10)
	switch axis {
	case 0:
		crossed(p, hx.V{X: p.P.X, Y: x1, Z: y1}, hx.V{X: p.P.X, Y: x2, Z: y2})
	case 1:
		crossed(p, hx.V{X: x1, Y: p.P.Y, Z: y1}, hx.V{X: x2, Y: p.P.Y, Z: y2})
	default:
		crossed(p, hx.V{X: x1, Y: y1, Z: p.P.Z}, hx.V{X: x2, Y: y2, Z: p.P.Z})
	}
}

// T_Section: the same for a plane in any position.
//vh:bounds any plane normal within 4, corners within 200
func T_Section() {
	p := primitives.Plane{P: hx.Pt("p", 10), N: hx.Dir("n", 4, 0.1)}
	u, v := hx.Vec("u", 4), hx.Vec("v", 4)
	crossed(p, hx.P(p.P).Add(hx.W(u).Cross(hx.W(p.N))), hx.P(p.P).Add(hx.W(v).Cross(hx.W(p.N))))
}

// H_Corner: the plane passes through one corner and between the two others.
//vh:bounds planes across a coordinate axis, corners within 90
func H_Corner() {
	axis := vh.Choose("axis", 3)
	p := plane(axis)
	x1, y1, x2, y2 := vh.F("x1", -10, 10), vh.F("y1", -10, 10), vh.F("x2", -10, 10), vh.F("y2", -10, 10)
	k := vh.F("k", 1.05, 8)
	bv := hx.P(hx.Pt("b", 10))
	var q1, q2 hx.V
	switch axis {
	case 0:
		q1, q2 = hx.V{X: p.P.X, Y: x1, Z: y1}, hx.V{X: p.P.X, Y: x2, Z: y2}
	case 1:
		q1, q2 = hx.V{X: x1, Y: p.P.Y, Z: y1}, hx.V{X: x2, Y: p.P.Y, Z: y2}
	default:
		q1, q2 = hx.V{X: x1, Y: y1, Z: p.P.Z}, hx.V{X: x2, Y: y2, Z: p.P.Z}
	}
	n := hx.W(p.N)
	db := bv.Sub(hx.P(p.P)).Dot(n)
	vh.Assume(vh.Or(db > 0.05, db < -0.05))
	vh.Assume(vh.Not(q1.Near(q2, 1e-2)))
	c := far(bv, q2, k)
	// corners q1, b, c: the section runs from q1 to q2
	var t primitives.Triangle
	switch vh.Choose("first", 3) {
	case 0:
		t = primitives.NewTriangle(q1.Pt(), bv.Pt(), c.Pt())
	case 1:
		t = primitives.NewTriangle(c.Pt(), q1.Pt(), bv.Pt())
	default:
		t = primitives.NewTriangle(bv.Pt(), c.Pt(), q1.Pt())
	}
	vh.Assert(p.Intersect(&t), "a triangle crossed through a corner is reported as crossed")
	l := p.IntersectTriangle(&t)
	vh.Assert(l != nil, "a triangle crossed through a corner has a section")
	fwd := vh.And(hx.P(l.P1).Near(q1, 1e-6), hx.P(l.P2).Near(q2, 1e-6))
	bwd := vh.And(hx.P(l.P1).Near(q2, 1e-6), hx.P(l.P2).Near(q1, 1e-6))
	vh.Assert(vh.Or(fwd, bwd), "the section runs from the corner to the opposite edge")
	side := q2.Sub(q1).Cross(n).Dot(bv.Sub(q1).Cross(c.Sub(q1)))
	vh.Assert(vh.And(vh.Or(side < 1e-3, bwd), vh.Or(side > -1e-3, fwd)), "the outward side is always on the same hand")
}

// H_Miss: all corners strictly on one side.
//vh:bounds any plane normal within 4, corners within 20
func H_Miss() {
	p := primitives.Plane{P: hx.Pt("p", 20), N: hx.Dir("n", 4, 0.1)}
	a, b, c := hx.Pt("a", 20), hx.Pt("b", 20), hx.Pt("c", 20)
	da, db, dc := dist(p, a), dist(p, b), dist(p, c)
	vh.Assume(vh.Or(vh.And(da > 0.01, db > 0.01, dc > 0.01), vh.And(da < -0.01, db < -0.01, dc < -0.01)))
	t := primitives.NewTriangle(a, b, c)
	vh.Assert(!p.Intersect(&t), "a triangle on one side is not reported as crossed")
	vh.Assert(p.IntersectTriangle(&t) == nil, "a triangle on one side has no section")
}

// H_Range: the height range of a triangle is that of its corners.
func H_Range() {
	z := hx.Dir("z", 4, 0.1)
	a, b, c := hx.Pt("a", 20), hx.Pt("b", 20), hx.Pt("c", 20)
	t := primitives.NewTriangle(a, b, c)
	lo, hi := t.MinMaxZ(z)
	h := [3]float64{hx.P(a).Dot(hx.W(z)), hx.P(b).Dot(hx.W(z)), hx.P(c).Dot(hx.W(z))}
	const e = 1e-6
	vh.Assert(vh.And(lo <= h[0]+e, lo <= h[1]+e, lo <= h[2]+e), "nothing lies below the lowest height")
	vh.Assert(vh.And(hi >= h[0]-e, hi >= h[1]-e, hi >= h[2]-e), "nothing lies above the highest height")
	vh.Assert(vh.Or(vh.Near(lo, h[0], e), vh.Near(lo, h[1], e), vh.Near(lo, h[2], e)), "the lowest height is a corner's")
	vh.Assert(vh.Or(vh.Near(hi, h[0], e), vh.Near(hi, h[1], e), vh.Near(hi, h[2], e)), "the highest height is a corner's")
	vh.Assert(vh.And(vh.Near(t.MinZ(z), lo, e), vh.Near(t.MaxZ(z), hi, e)), "lowest, highest and range agree")
	n := hx.P(b).Sub(hx.P(a)).Cross(hx.P(c).Sub(hx.P(a)))
	vh.Assert(vh.And(hx.W(t.N).Cross(n).Near(hx.V{}, 1e-3), hx.W(t.N).Dot(n) >= 0), "the facing follows the right-hand rule of the corners")
}
