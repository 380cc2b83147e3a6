package c32

import (
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

const eps = 1e-4

// frame chooses two directions of space and the one across them.
func frame(slanting bool) (e, f, g hx.V) {
	e, f, g = hx.V{X: 1}, hx.V{Y: 1}, hx.V{Z: 1}
	n := 3
	if slanting {
		n = 6
	}
	switch vh.Choose("plane", n) {
	case 1:
		e, f, g = f, g, e
	case 2:
		e, f, g = g, e, f
	case 3:
		e, f, g = hx.V{1, 2, 2}, hx.V{2, -2, 1}, hx.V{2, 1, -2}
	case 4:
		e, f, g = hx.V{1, 1, 0}, hx.V{Z: 1}, hx.V{1, -1, 0}
	case 5:
		e, f, g = hx.V{1, 0, 0}, hx.V{0, 1, 2}, hx.V{0, -2, 1}
	}
	return
}

func flat(n string, e, f hx.V) hx.V {
	return e.Mul(vh.F(n+".1", -10, 10)).Add(f.Mul(vh.F(n+".2", -10, 10)))
}

// on: p lies on the segment from a to b.
func on(p, a, b hx.V) bool {
	return vh.And(p.Between(a, b, eps), p.Sub(a).Cross(b.Sub(a)).Near(hx.V{}, 20*eps))
}

func line(a, b hx.V) primitives.Line { return primitives.Line{P1: a.Pt(), P2: b.Pt()} }

// H_Cross: segments that properly cross are reported, in the right place.
//vh:bounds crossings anywhere within 10 in coordinate and slanting planes, ends up to 20 away
func H_Cross() {
	e, f, g := frame(true)
	c := flat("c", e, f).Add(g.Mul(vh.F("level", -10, 10)))
	a := e.Mul([]float64{1, 0, 1, 2}[vh.Choose("direction", 4)]).Add(f)
	b := a.Mul(vh.F("b.1", -5, 5)).Add(f.Cross(g).Mul(vh.F("b.2", 0.05, 1)))
	if vh.B("left") {
		b = b.Mul(-1)
	}
	l := line(c.Sub(a.Mul(vh.F("u", 0.1, 10))), c.Add(a.Mul(vh.F("v", 0.1, 10))))
	m := line(c.Sub(b.Mul(vh.F("w", 0.1, 10))), c.Add(b.Mul(vh.F("z", 0.1, 10))))
	if vh.B("swapped") {
		l, m = m, l
	}
	p := l.IntersectLine(&m)
	vh.Assert(p != nil, "crossing segments are reported")
	vh.Assert(l.IsIntersectingSegment(&m), "crossing segments intersect")
	if p != nil {
		vh.Assert(hx.P(*p).Near(c, eps), "the point reported is where they cross")
	}
}

// H_Real: a point reported lies on both segments.
//vh:bounds segments in one coordinate plane, the one along an axis, the other of any position within 10, parallel or off parallel by over 0.01
func H_Real() {
	e, f, _ := frame(false)
	along := vh.F("along", -10, 10)
	across := 0.0
	if !vh.B("parallel") {
		across = vh.F("across", 0.01, 10)
		if vh.B("down") {
			across = -across
		}
	}
	c := flat("c", e, f)
	pair(e, f, c, e.Mul(along).Add(f.Mul(across)))
}

// H_Space: the same for a segment anywhere in space.
//vh:bounds one segment along a coordinate axis, the other of any position within 10, parallel to its plane over 0.001 away or crossing the plane, on the first's line or over 0.001 off it
func H_Space() {
	e, f, g := frame(false)
	var c, d hx.V
	if vh.B("slanting") {
		gap := 0.0
		if vh.B("passing") {
			gap = vh.F("gap", 0.001, 10)
		}
		t, l, u := vh.F("slant", -3, 3), vh.F("level.s", -5, 5), vh.F("up", 0.1, 5)
		c = e.Mul(vh.F("c.1", -10, 10)).Add(f.Mul(l*t + gap)).Add(g.Mul(l))
		d = e.Mul(vh.F("along", -10, 10)).Add(f.Mul(t * u)).Add(g.Mul(u))
	} else {
		c = flat("c", e, f).Add(g.Mul(vh.F("level", 0.001, 10)))
		d = e.Mul(vh.F("along", -10, 10)).Add(f.Mul(vh.F("across", -10, 10)))
	}
	pair(e, f, c, d)
}

func pair(e, f, c, dir hx.V) {
	d := c.Add(dir)
	vh.Assume(dir.Len2() >= 0.01)
	b := vh.F("b", 0.1, 10)
	l, m := line(hx.V{}, e.Mul(b)), line(c, d)
	if vh.B("swapped") {
		l, m = m, l
	}
	if p := l.IntersectLine(&m); p != nil {
		q := hx.P(*p)
		x := q.Dot(e)
		vh.Assert(vh.And(q.Sub(e.Mul(x)).Near(hx.V{}, eps), x >= -eps, x <= b+eps), "the point reported lies on the one segment")
		vh.Assert(on(q, c, d), "the point reported lies on the other segment")
	}
}

// H_Belongs: a point belongs to a triangle if it lies in its plane between its edges.
//vh:bounds triangles in coordinate and slanting planes, sides 0.5 to 10 long, any point clearly inside or clearly outside
func H_Belongs() {
	e, f, g := frame(true)
	a := hx.P(hx.Pt("a", 10))
	u := e.Mul(vh.F("u", 0.5, 10))
	v := e.Mul(vh.F("v.1", -10, 10)).Add(f.Mul(vh.F("v.2", 0.5, 10)))
	if vh.B("turned") {
		u, v = v, u
	}
	t := primitives.NewTriangle(a.Pt(), a.Add(u).Pt(), a.Add(v).Pt())
	s, r := vh.F("s", -2, 2), vh.F("r", -2, 2)
	p := a.Add(u.Mul(s)).Add(v.Mul(r))
	off := vh.B("off the plane")
	if off {
		p = p.Add(g.Mul(vh.F("off", 0.001, 5)))
	}
	got := t.PointBelongs(p.Pt())
	const m = 0.001
	vh.Assert(vh.Implies(off, !got), "a point off the plane does not belong to the triangle")
	vh.Assert(vh.Implies(vh.Or(s < -m, r < -m, s+r > 1+m), vh.Not(got)), "a point outside the edges does not belong to the triangle")
	vh.Assert(vh.Implies(vh.And(!off, s > m, r > m, s+r < 1-m), got), "a point inside belongs to the triangle")
}

// the scene of H_Triangles, and how often each specification was asked
var scene struct {
	e, f, g, p, q, u, v hx.V
	meets               int
}

// section: the section of the other triangle by the plane of the first one (C02).
func section(pl primitives.Plane, t *primitives.Triangle) *primitives.Line {
	l := line(scene.p, scene.q)
	if vh.B("section.back") {
		l = line(scene.q, scene.p)
	}
	return &l
}

// coords of a point of the plane in the triangle.
func coords(x hx.V) (s, r float64) {
	e, f, u, v := scene.e, scene.f, scene.u, scene.v
	x1, x2 := x.Dot(e)/e.Len2(), x.Dot(f)/f.Len2()
	u1, v1, v2 := u.Dot(e)/e.Len2(), v.Dot(e)/e.Len2(), v.Dot(f)/f.Len2()
	r = x2 / v2
	return (x1 - r*v1) / u1, r
}

// belongs: what H_Belongs shows, for points of the plane.
func belongs(t *primitives.Triangle, p primitives.Point) bool {
	s, r := coords(hx.P(p))
	return vh.Split(vh.And(s >= 0, r >= 0, s+r <= 1))
}

func side(l primitives.Line, p primitives.Point) float64 {
	a := hx.P(l.P1)
	return hx.P(l.P2).Sub(a).Cross(hx.P(p).Sub(a)).Dot(scene.g)
}

// meet: what H_Real and H_Cross show of segments of one plane: nothing, unless
// they properly cross, or a common point.
func meet(l primitives.Line, m *primitives.Line) *primitives.Point {
	scene.meets++
	n := "meet " + string(rune('0'+scene.meets))
	if !vh.B(n) {
		o1, o2 := side(l, m.P1), side(l, m.P2)
		o3, o4 := side(*m, l.P1), side(*m, l.P2)
		const z = 1e-3
		vh.Assume(vh.Not(vh.And(vh.Or(vh.And(o1 > z, o2 < -z), vh.And(o1 < -z, o2 > z)), vh.Or(vh.And(o3 > z, o4 < -z), vh.And(o3 < -z, o4 > z)))))
		return nil
	}
	k, j := vh.F(n+".k", 0, 1), vh.F(n+".j", 0, 1)
	p := hx.P(m.P1).Add(hx.P(m.P2).Sub(hx.P(m.P1)).Mul(k))
	q := hx.P(l.P1).Add(hx.P(l.P2).Sub(hx.P(l.P1)).Mul(j))
	vh.Assume(p.Near(q, 1e-7))
	// this follows
	a, b := hx.P(m.P1), hx.P(m.P2)
	vh.Assume(vh.And(q.Between(a, b, 1e-6), q.Sub(a).Cross(b.Sub(a)).Near(hx.V{}, eps)))
	r := q.Pt()
	return &r
}

// H_Triangles: a segment reported for two triangles lies in both.
//vh:bounds a triangle in a coordinate plane, another one that crosses the plane along any segment
//vh:opt replace=primitives.Plane.IntersectTriangle:section replace=primitives.Triangle.PointBelongs:belongs replace=primitives.Line.IntersectLine:meet
func H_Triangles() {
	e, f, g := frame(false)
	// what is left of the code sees only the specifications, which do not depend on the shape
	u, v := e.Mul(4), f.Mul(4)
	t := primitives.NewTriangle(hx.V{}.Pt(), u.Pt(), v.Pt())
	// the section of the other one, and its apex
	p, q := flat("p", e, f), flat("q", e, f)
	scene.e, scene.f, scene.g, scene.p, scene.q, scene.u, scene.v, scene.meets = e, f, g, p, q, u, v, 0
	a := e.Add(g)
	b, c := p.Mul(2).Sub(a), q.Mul(2).Sub(a)
	o := primitives.NewTriangle(a.Pt(), b.Pt(), c.Pt())
	l := t.IntersectTriangle(&o)
	if l == nil {
		return
	}
	for _, x := range []hx.V{hx.P(l.P1), hx.P(l.P2)} {
		vh.Assert(on(x, p, q), "the segment reported lies in the other triangle")
		vh.Assert(vh.Near(x.Dot(g), 0, eps), "the segment reported lies in the plane of the triangle")
		s, r := coords(x)
		vh.Assert(vh.And(r >= -0.001, s >= -0.001, r+s <= 1.001), "the segment reported lies inside the edges of the triangle")
	}
}

// H_Through: triangles that properly cross are reported, with all that they share.
//
//vh:bounds a triangle in a coordinate plane, crossed from edge to edge or from corner to edge anywhere over 0.05 from the corners, by a triangle that reaches beyond by a twentieth to three times that length, or ends inside at one side or both
//vh:opt replace=primitives.Plane.IntersectTriangle:section
func H_Through() {
	e, f, g := frame(false)
	c := []hx.V{{}, e.Mul(4), f.Mul(4)}
	i := vh.Choose("edge", 3)
	w := vh.F("w", 0.05, 0.95)
	x := c[(i+1)%3].Mul(1 - w).Add(c[(i+2)%3].Mul(w))
	y := c[i]
	if vh.Choose("to", 2) == 1 {
		w := vh.F("w2", 0.05, 0.95)
		y = c[i].Mul(1 - w).Add(c[(i+1)%3].Mul(w))
	}
	p, q := x, y
	wx, wy := x, y
	d := y.Sub(x)
	ends := vh.Choose("ends", 4)
	if ends&1 == 0 {
		p = x.Sub(d.Mul(vh.F("s", 0.05, 3)))
	} else {
		p = x.Add(d.Mul(0.25))
		wx = p
	}
	if ends&2 == 0 {
		q = y.Add(d.Mul(vh.F("r", 0.05, 3)))
	} else {
		q = y.Sub(d.Mul(0.25))
		wy = q
	}
	k := vh.Choose("first", 3)
	t := primitives.NewTriangle(c[k].Pt(), c[(k+1)%3].Pt(), c[(k+2)%3].Pt())
	scene.e, scene.f, scene.g, scene.p, scene.q, scene.u, scene.v, scene.meets = e, f, g, p, q, c[1], c[2], 0
	a := e.Add(g)
	o := primitives.NewTriangle(a.Pt(), p.Mul(2).Sub(a).Pt(), q.Mul(2).Sub(a).Pt())
	l := t.IntersectTriangle(&o)
	vh.Assert(l != nil, "triangles that properly cross are reported")
	l1, l2 := hx.P(l.P1), hx.P(l.P2)
	vh.Assert(vh.Or(vh.And(l1.Near(wx, eps), l2.Near(wy, eps)), vh.And(l2.Near(wx, eps), l1.Near(wy, eps))), "the segment reported is all that the triangles share")
}
