package vip

import (
	"math"

	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

// centre of a contour with corners opposite each other (C26).
func centre(p primitives.Path) primitives.Point {
	return hx.P(p.Points[0]).Add(hx.P(p.Points[(len(p.Points)-1)/2])).Mul(0.5).Pt()
}

// ring is a contour of n corners.
func ring(c hx.V, r float64, n, start int) (p primitives.Path) {
	for i := 0; i <= n; i++ {
		a := 2 * math.Pi * float64(i+start) / float64(n)
		p.Points = append(p.Points, c.Add(hx.V{X: r * math.Cos(a), Y: r * math.Sin(a)}).Pt())
	}
	return
}

// H_Round: overhangs of round parts.
//
//vh:bounds contours of 8 and 14 corners with radii 1 to 40 about an axis anywhere, 0.05 to 5 apart, begun at one of four corners (any, thorough); clearly below or above the failing angle
//vh:opt replace=primitives.FindCentroid:centre
func H_Round() {
	n := []int{8, 14}[vh.Choose("corners", 2)]
	c := hx.V{X: vh.F("x", -100, 100), Y: vh.F("y", -100, 100), Z: vh.F("z", 0, 100)}
	r, s, dz := vh.F("below", 1, 40), vh.F("above", 1, 40), vh.F("distance", 0.05, 5)
	start := n * vh.Choose("start", 4) / 4
	if vh.Thorough() {
		start = vh.Choose("any start", n)
	}
	prev := primitives.Layer{Paths: []primitives.Path{ring(c, r, n, start)}}
	cur := primitives.Layer{Paths: []primitives.Path{ring(c.Add(hx.V{Z: dz}), s, n, vh.Choose("start above", 2))}}
	t := math.Tan(failAngle * math.Pi / 180)
	got := failRotaion(prev, cur)
	vh.Assert(vh.Implies(s-r > (t+0.001)*dz, got), "parts that lean out too much are found")
	vh.Assert(vh.Implies(s-r < (t-0.001)*dz, !got), "parts that do not lean out too much stay level")
}
