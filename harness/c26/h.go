package c26

import (
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

var names = []string{"a", "b", "c", "d", "e", "f"}

// planes are pairs of orthogonal vectors along a plane; the first three planes
// are those of two axes, the next six contain one axis, the rest slant.
var planes = [][2]hx.V{
	{{1, 0, 0}, {0, 1, 0}}, {{1, 0, 0}, {0, 0, 1}}, {{0, 1, 0}, {0, 0, 1}},
	{{1, 0, 0}, {0, 3, 4}}, {{1, 0, 0}, {0, 4, -3}}, {{0, 1, 0}, {3, 0, 4}}, {{0, 1, 0}, {-4, 0, 3}}, {{0, 0, 1}, {3, 4, 0}}, {{0, 0, 1}, {4, -3, 0}},
	{{1, 2, 2}, {2, -2, 1}}, {{2, -2, 1}, {2, 1, -2}}, {{2, 1, -2}, {1, 2, 2}}, {{-1, 2, 2}, {2, 2, -1}},
	{{1, 0, 0.001}, {0, 1, 0}}, {{0.001, 1, 0}, {0, 0.001, 1}},
}

// contour is a closed contour of n corners in plane pl through o.
func contour(n, pl int, o hx.V, ps [][2]float64) primitives.Path {
	var p primitives.Path
	for i := 0; i <= n; i++ {
		c := ps[i%n]
		p.Points = append(p.Points, o.Add(planes[pl][0].Mul(c[0])).Add(planes[pl][1].Mul(c[1])).Pt())
	}
	return p
}

func cross(a, b [2]float64) float64 { return a[0]*b[1] - a[1]*b[0] }

func polygon(n int) (ps [][2]float64) {
	for i := 0; i < n; i++ {
		ps = append(ps, [2]float64{vh.F("u"+names[i], -20, 20), vh.F("v"+names[i], -20, 20)})
	}
	return
}

func check(n, pl int) {
	ps := polygon(n)
	o := hx.P(hx.Pt("o", 50))
	// the reference: triangles from the first corner
	area, mu, mv := 0.0, 0.0, 0.0
	for i := 1; i+1 < n; i++ {
		p := [2]float64{ps[i][0] - ps[0][0], ps[i][1] - ps[0][1]}
		q := [2]float64{ps[i+1][0] - ps[0][0], ps[i+1][1] - ps[0][1]}
		c := cross(p, q)
		area += c
		mu += c * (p[0] + q[0])
		mv += c * (p[1] + q[1])
	}
	vh.Assume(vh.Or(area >= 0.01, area <= -0.01))
	path := contour(n, pl, o, ps)
	in := append([]primitives.Point{}, path.Points...)
	got := primitives.FindCentroid(path)
	for i := range in {
		vh.Assert(path.Points[i] == in[i], "the contour is left unchanged")
	}
	// area-weighted mean times three times the area
	want := o.Add(planes[pl][0].Mul(ps[0][0])).Add(planes[pl][1].Mul(ps[0][1])).Mul(3 * area).
		Add(planes[pl][0].Mul(mu)).Add(planes[pl][1].Mul(mv))
	g := hx.P(got).Mul(3 * area)
	vh.Assert(vh.And(vh.Near(g.X, want.X, 1e-6), vh.Near(g.Y, want.Y, 1e-6), vh.Near(g.Z, want.Z, 1e-6)), "the centre is the area centroid")
}

// H_Triangle: three corners.
//vh:bounds any three corners within 20 of any place within 50, in 15 planes (along two axes, one axis and none), area at least 0.005
func H_Triangle() { check(3, vh.Choose("plane", len(planes))) }

// H_Four: four corners, convex or not.
//vh:bounds any four corners within 20 of any place within 50, in 15 planes, area at least 0.005
func H_Four() { check(4, vh.Choose("plane", len(planes))) }

// H_Five: five and six corners.
//vh:bounds any five or six corners within 20 of any place within 50, in 15 planes, area at least 0.005
func H_Five() { check(5+vh.Choose("more", 2), vh.Choose("plane", len(planes))) }

func box(p primitives.Point, path primitives.Path, e float64) bool {
	var x, y, z, x2, y2, z2 bool
	for _, q := range path.Points {
		x = vh.Or(x, q.X <= p.X+e)
		x2 = vh.Or(x2, q.X >= p.X-e)
		y = vh.Or(y, q.Y <= p.Y+e)
		y2 = vh.Or(y2, q.Y >= p.Y-e)
		z = vh.Or(z, q.Z <= p.Z+e)
		z2 = vh.Or(z2, q.Z >= p.Z-e)
	}
	return vh.And(x, x2, y, y2, z, z2)
}

// H_Line: contours of no area.
//vh:bounds two to four corners anywhere on any line
func H_Line() {
	o, d := hx.P(hx.Pt("o", 50)), hx.W(hx.Vec("d", 5))
	n := 2 + vh.Choose("n", 3)
	var p primitives.Path
	for i := 0; i <= n; i++ {
		p.Points = append(p.Points, o.Add(d.Mul(vh.F("t"+names[i%n], -5, 5))).Pt())
	}
	vh.Assert(box(primitives.FindCentroid(p), p, 1e-3), "the centre is within the bounds of the contour")
}

// H_Thin: triangles of any area in any plane.
//vh:bounds triangles with any corners within 50, of any area
func H_Thin() {
	var p primitives.Path
	for i := 0; i < 4; i++ {
		p.Points = append(p.Points, hx.Pt(names[i%3], 50))
	}
	vh.Assert(box(primitives.FindCentroid(p), p, 1e-3), "the centre is within the bounds of the contour")
}
