package c05

import (
	"math"

	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

var names = []string{"a", "b", "c", "d", "e"}

// frame is a right-handed frame of axes of equal length whose third is the
// slicing direction. Whole numbers keep what is computed exact.
type frame struct{ u, v, n hx.V }

func (f frame) at(x, y, z float64) hx.V { return f.u.Mul(x).Add(f.v.Mul(y)).Add(f.n.Mul(z)) }

var frames = []frame{
	{hx.V{X: 1}, hx.V{Y: 1}, hx.V{Z: 1}},
	{hx.V{Y: 1}, hx.V{Z: 1}, hx.V{X: 1}},
	{hx.V{X: 1}, hx.V{Z: 1}, hx.V{Y: -1}},
	{hx.V{X: 2, Y: -2, Z: 1}, hx.V{X: 2, Y: 1, Z: -2}, hx.V{X: 1, Y: 2, Z: 2}},
}

// section stands for the section of a triangle, which C02 decides: it lies at
// the height of the plane and near the triangle.
func section(p primitives.Plane, t *primitives.Triangle) *primitives.Line {
	n := hx.W(p.N)
	h := hx.P(p.P).Dot(n)
	a, b, c := hx.P(t.P1).Dot(n)-h, hx.P(t.P2).Dot(n)-h, hx.P(t.P3).Dot(n)-h
	below := vh.Or(a < -1e-9, b < -1e-9, c < -1e-9)
	above := vh.Or(a > 1e-9, b > 1e-9, c > 1e-9)
	if vh.Split(vh.And(below, above)) {
		// below or above a corner of the triangle, which tells it from the others
		return &primitives.Line{P1: hx.P(t.P1).Sub(n.Mul(a)).Pt(), P2: hx.P(t.P2).Sub(n.Mul(b)).Pt()}
	}
	return nil
}

// join stands for the joining of contours, which C03 and C04 decide.
func join(ps []primitives.Path) []primitives.Path {
	return append([]primitives.Path{}, ps...)
}

// soup slices a few triangles with corners at any heights.
func soup(f frame, k, layers int, min float64) {
	vh.SetCPU(2)
	var ts []primitives.Triangle
	var hs [][3]float64
	lo, hi := 1e9, -1e9
	for i := 0; i < k; i++ {
		var h [3]float64
		for j := 0; j < 3; j++ {
			h[j] = vh.F(names[i]+names[j], -20, 20)
			lo, hi = vh.Ite(h[j] < lo, h[j], lo), vh.Ite(h[j] > hi, h[j], hi)
		}
		hs = append(hs, h)
		x := 100 * float64(i+1)
		ts = append(ts, primitives.NewTriangle(f.at(x, 0, h[0]).Pt(), f.at(x+7, 1, h[1]).Pt(), f.at(x, 9, h[2]).Pt()))
	}
	// lengths in frame units
	thick := []float64{1, 0.2, 7}[vh.Choose("thickness", 3)]
	L := math.Sqrt(f.n.Len2())
	vh.Assume(vh.And(hi-lo > min*thick, hi-lo <= float64(layers)*thick))
	s := vh.F("length", 0.1, 10)
	got := slicers.SliceByVector(&primitives.Mesh{Triangles: ts}, f.n.Mul(s).Vec(), slicers.Settings{LayerHeight: thick * L})

	// the number of layers
	n := 1
	for i := 1; i <= layers; i++ {
		vh.Assume(vh.Or(hi-lo > float64(i)*thick+1e-6, hi-lo < float64(i)*thick-1e-6))
	}
	for vh.Split(hi-lo > float64(n)*thick) {
		n++
	}
	step := (hi - lo) / float64(n)
	var want [][]int
	var at []float64
	for l := 0; l < n; l++ {
		z := lo + step*(float64(l)+0.5)
		var in []int
		for i, h := range hs {
			below := vh.Or(h[0] < z, h[1] < z, h[2] < z)
			above := vh.Or(h[0] > z, h[1] > z, h[2] > z)
			for j := 0; j < 3; j++ {
				vh.Assume(vh.Or(h[j] > z+1e-7, h[j] < z-1e-7))
			}
			if vh.Split(vh.And(below, above)) {
				in = append(in, i)
			}
		}
		// outermost layers that hold nothing may be left out
		if len(in) == 0 && (l == 0 || l == n-1) {
			continue
		}
		want, at = append(want, in), append(at, z)
	}
	vh.Assert(len(got) >= len(want) && len(got) <= n, "the number of layers fits the height")
	if len(got) > len(want) {
		for len(got) > 0 && len(got[0].Paths) == 0 && len(want) > 0 && len(want[0]) > 0 {
			got = got[1:]
		}
		got = got[:len(want)]
	}
	for l, la := range got {
		vh.Assert(hx.W(la.Norm).Mul(L).Near(f.n, 1e-7), "layers lie across the slicing direction")
		vh.Assert(len(la.Paths) == len(want[l]), "every triangle that crosses the height contributes its section")
		for _, i := range want[l] {
			c := 0
			for _, p := range la.Paths {
				x := hx.P(p.Points[0]).Dot(f.u)/L/L - 100*float64(i+1)
				if vh.Split(vh.And(x > -1, x < 8)) {
					c++
					vh.Assert(vh.Near(hx.P(p.Points[0]).Dot(f.n)/L/L, at[l], 1e-6), "layers are evenly spaced from half a step above the bottom")
				}
			}
			vh.Assert(c == 1, "every triangle that crosses the height contributes exactly once")
		}
	}
}

// H_One: one triangle.
//vh:bounds one triangle with corners at any heights within 20, 1 to 4 layers of three thicknesses, along three axes and a slanting direction of any length
//vh:opt concint replace=primitives.Plane.IntersectTriangle:section replace=primitives.JoinPaths3AndMinimize:join
func H_One() { soup(frames[vh.Choose("frame", 4)], 1, 4, 0) }

// H_Two: two triangles.
//vh:bounds two triangles with corners at any heights within 20, 1 to 2 layers (3 thorough) of any thickness, along two axes
//vh:opt concint replace=primitives.Plane.IntersectTriangle:section replace=primitives.JoinPaths3AndMinimize:join
func H_Two() {
	n := 2
	if vh.Thorough() {
		n = 3
	}
	soup(frames[2*vh.Choose("frame", 2)], 2, n, 0)
}

// T_Three: three triangles.
//vh:bounds three triangles with corners at any heights within 20, 1 to 2 layers of three thicknesses, along one axis
//vh:opt concint replace=primitives.Plane.IntersectTriangle:section replace=primitives.JoinPaths3AndMinimize:join
func T_Three() { soup(frames[0], 3, 2, 0) }

// solid slices a convex solid and checks the contours.
func solid(f frame, ps []hx.V, fs [][3]int, es [][2]int, layers int, from int) {
	vh.SetCPU(2)
	var ts []primitives.Triangle
	for i := range fs {
		t := fs[(i+from)%len(fs)]
		q := func(j int) primitives.Point { p := ps[t[j]]; return f.at(p.X, p.Y, p.Z).Pt() }
		ts = append(ts, primitives.NewTriangle(q(0), q(1), q(2)))
	}
	lo, hi := ps[0].Z, ps[0].Z
	for _, p := range ps {
		lo, hi = vh.Ite(p.Z < lo, p.Z, lo), vh.Ite(p.Z > hi, p.Z, hi)
	}
	for i := 1; i <= layers; i++ {
		x := 9 / float64(layers) * float64(i)
		vh.Assume(vh.Or(hi-lo > x+1e-6, hi-lo < x-1e-6))
	}
	vh.Assume(hi-lo > 0.05)
	got := slicers.SliceByVector(&primitives.Mesh{Triangles: ts}, f.n.Vec(), slicers.Settings{LayerHeight: 9 / float64(layers) * math.Sqrt(f.n.Len2())})
	n := 1
	for vh.Split(hi-lo > 9/float64(layers)*float64(n)) {
		n++
	}
	vh.Assert(len(got) == n, "a solid has as many layers as steps fit its height")
	for l, la := range got {
		z := lo + (hi-lo)/float64(n)*(float64(l)+0.5)
		vh.Assert(len(la.Paths) == 1, "a convex solid has one contour in each layer")
		pts := la.Paths[0].Points
		k := 0
		for _, e := range es {
			a, b := ps[e[0]], ps[e[1]]
			vh.Assume(vh.Or(a.Z-z > 0.01, a.Z-z < -0.01))
			vh.Assume(vh.Or(b.Z-z > 0.01, b.Z-z < -0.01))
			if vh.Split((a.Z < z) != (b.Z < z)) {
				k++
				t := (z - a.Z) / (b.Z - a.Z)
				w := f.at(a.X+(b.X-a.X)*t, a.Y+(b.Y-a.Y)*t, z)
				found := false
				for _, p := range pts {
					found = vh.Or(found, hx.P(p).Near(w, 1e-6))
				}
				vh.Assert(found, "the contour goes through every crossed edge")
			}
		}
		vh.Assert(len(pts) == k+1, "the contour has one corner on each crossed edge")
		vh.Assert(hx.P(pts[0]).Near(hx.P(pts[len(pts)-1]), 1e-7), "the contour of a solid is closed")
	}
}

var tetF = [][3]int{{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}}
var tetE = [][2]int{{0, 1}, {0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}}

// H_Tetra: a tetrahedron sliced with the real sections and the real joining.
//vh:opt concint
//vh:bounds a tetrahedron with corners at fixed heights, its top at any place, one and two layers, along two axes (all four directions thorough), two orders of its faces
func H_Tetra() {
	hs := [][3]float64{{1, 7, 8}, {5, 7, 8}, {1, 1, 8}}[vh.Choose("heights", 3)]
	ps := []hx.V{{0, 0, 0}, {12, 0, hs[0]}, {0, 12, hs[1]}, {vh.F("x", 1, 5), vh.F("y", 1, 5), hs[2]}}
	k := 2
	if vh.Thorough() {
		k = 4
	}
	l := 1 + vh.Choose("layers", 2)
	solid(frames[vh.Choose("frame", k)], ps, tetF, tetE, l, 2*vh.Choose("from", 2))
}
