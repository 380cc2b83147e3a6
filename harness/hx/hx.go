// Package hx holds inputs and reference computations shared by the harnesses.
// The reference computations do not use the code under test.
package hx

import (
	"math"

	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/vh"
)

// V is a vector of the reference geometry.
type V struct{ X, Y, Z float64 }

func P(p primitives.Point) V  { return V{p.X, p.Y, p.Z} }
func W(p primitives.Vector) V { return V{p.X, p.Y, p.Z} }

func (a V) Pt() primitives.Point   { return primitives.Point{X: a.X, Y: a.Y, Z: a.Z} }
func (a V) Vec() primitives.Vector { return primitives.Vector{X: a.X, Y: a.Y, Z: a.Z} }

func (a V) Add(b V) V               { return V{a.X + b.X, a.Y + b.Y, a.Z + b.Z} }
func (a V) Sub(b V) V               { return V{a.X - b.X, a.Y - b.Y, a.Z - b.Z} }
func (a V) Mul(k float64) V         { return V{a.X * k, a.Y * k, a.Z * k} }
func (a V) Dot(b V) float64         { return a.X*b.X + a.Y*b.Y + a.Z*b.Z }
func (a V) Len2() float64           { return a.X*a.X + a.Y*a.Y + a.Z*a.Z }
func (a V) Len() float64            { return math.Sqrt(a.Len2()) }
func (a V) Near(b V, e float64) bool {
	return vh.And(vh.Near(a.X, b.X, e), vh.Near(a.Y, b.Y, e), vh.Near(a.Z, b.Z, e))
}
func (a V) Cross(b V) V {
	return V{a.Y*b.Z - a.Z*b.Y, a.Z*b.X - a.X*b.Z, a.X*b.Y - a.Y*b.X}
}

// Pt is an input point with coordinates between -b and b.
func Pt(n string, b float64) primitives.Point {
	return primitives.Point{X: vh.F(n+".x", -b, b), Y: vh.F(n+".y", -b, b), Z: vh.F(n+".z", -b, b)}
}

// Vec is an input vector with coordinates between -b and b.
func Vec(n string, b float64) primitives.Vector {
	return primitives.Vector{X: vh.F(n+".x", -b, b), Y: vh.F(n+".y", -b, b), Z: vh.F(n+".z", -b, b)}
}

// Dir is an input vector of squared length at least m2.
func Dir(n string, b, m2 float64) primitives.Vector {
	v := Vec(n, b)
	vh.Assume(W(v).Len2() >= m2)
	return v
}

// Between: every coordinate of v lies between those of a and b, up to e.
func (v V) Between(a, b V, e float64) bool {
	return vh.And(btw(v.X, a.X, b.X, e), btw(v.Y, a.Y, b.Y, e), btw(v.Z, a.Z, b.Z, e))
}

func btw(x, a, b, e float64) bool {
	return vh.Or(vh.And(a-e <= x, x <= b+e), vh.And(b-e <= x, x <= a+e))
}

// Ray is a vector of any direction and of positive length l; its length is a
// polynomial of the inputs, which keeps what is computed from it exact.
func Ray(n string, max float64) (d V, l float64) {
	t, u := vh.F(n+".t", -1, 1), vh.F(n+".u", -1, 1)
	k := vh.F(n+".k", 0.05, max)
	m := 1 + t*t + u*u
	a, b, c := k*(1-t*t-u*u), k*2*t, k*2*u
	switch vh.Choose(n+".axis", 6) {
	case 0:
		d = V{a, b, c}
	case 1:
		d = V{c, a, b}
	case 2:
		d = V{b, c, a}
	case 3:
		d = V{-a, b, c}
	case 4:
		d = V{c, -a, b}
	default:
		d = V{b, c, -a}
	}
	return d, k * m
}
