package c15

import (
	"math"

	"github.com/l1va/goosli/helpers"
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

// up is a build direction of symbolic length.
func up(n int) (hx.V, float64) {
	k := vh.F("up", 0.01, 100)
	switch vh.Choose("direction", n) {
	case 1:
		return hx.V{X: k}, k
	case 2:
		return hx.V{Y: -k}, k
	case 3:
		return hx.V{2 * k, -k, 2 * k}, 3 * k
	}
	return hx.V{Z: k}, k
}

// tri is a triangle whose facing has the direction n.
func tri(n hx.V) primitives.Triangle {
	return primitives.Triangle{N: n.Vec(), P1: hx.V{}.Pt(), P2: hx.V{1, 2, 3}.Pt(), P3: hx.V{3, 2, 1}.Pt()}
}

// clear: d is the product of the facing with straight down, for unit vectors;
// limit its value at the limiting angle. Flagged is expected above the limit.
func check(got bool, d, limit, scale float64) {
	vh.Assert(vh.Implies(d > (limit+1e-9)*scale, got), "a triangle that faces down more steeply is flagged")
	vh.Assert(vh.Implies(d < (limit-1e-9)*scale, vh.Not(got)), "a triangle that faces down less steeply is not flagged")
}

// H_Flag: every facing, every angle.
//vh:bounds one triangle of any facing (length 0.05 to 60), build direction along an axis with length 0.01 to 100, any angle from 1 to 89
func H_Flag() {
	u, l := up(3)
	n, m := hx.Ray("n", 20)
	g := vh.F("angle", 1, 89)
	r := helpers.ColorizeTriangles(primitives.NewMesh([]primitives.Triangle{tri(n)}), g, u.Vec())
	vh.Assert(len(r) == 1, "one answer per triangle")
	// angle to down < 90-g  <=>  cosine > cos(90-g) = sin(g)
	check(r[0], -n.Dot(u), math.Sin(g*(math.Pi/180)), l*m)
}

// H_Steps: the angles commonly used.
//vh:bounds one triangle of any facing, any build direction along an axis or slanting, angles of 0, 15, 30, 45, 60, 75, 90 degrees and a few beyond
func H_Steps() {
	u, l := up(4)
	n, m := hx.Ray("n", 20)
	i := vh.Choose("step", 10)
	g := []float64{0, 15, 30, 45, 60, 75, 90, -30, -90, 100}[i]
	r := helpers.ColorizeTriangles(primitives.NewMesh([]primitives.Triangle{tri(n)}), g, u.Vec())
	vh.Assert(len(r) == 1, "one answer per triangle")
	if g == 100 {
		vh.Assert(!r[0], "no angle is less than a negative one")
		return
	}
	check(r[0], -n.Dot(u), math.Sin(g*(math.Pi/180)), l*m)
}

// H_Corners: the facing used is that of the corners, whatever the size.
//vh:bounds triangles in planes along the axes, sides 0.0001 to 50, build direction along an axis, any angle from 1 to 89
func H_Corners() {
	a, b := vh.F("a", 0.0001, 50), vh.F("b", 0.0001, 50)
	e, f, n := hx.V{X: 1}, hx.V{Y: 1}, hx.V{Z: 1}
	switch vh.Choose("plane", 4) {
	case 1:
		e, f, n = hx.V{Y: 1}, hx.V{X: 1}, hx.V{Z: -1}
	case 2:
		e, f, n = hx.V{Y: 1}, hx.V{Z: 1}, hx.V{X: 1}
	case 3:
		e, f, n = hx.V{Y: 3, Z: 4}, hx.V{X: 1}, hx.V{Y: 4, Z: -3}
	}
	o := hx.P(hx.Pt("o", 50))
	p, q := o.Add(e.Mul(a)), o.Add(f.Mul(b)).Add(e.Mul(vh.F("c", -50, 50)))
	t := primitives.NewTriangle(o.Pt(), p.Pt(), q.Pt())
	g := vh.F("angle", 1, 89)
	u, l := up(4)
	r := helpers.ColorizeTriangles(primitives.NewMesh([]primitives.Triangle{t}), g, u.Vec())
	check(r[0], -n.Dot(u), math.Sin(g*(math.Pi/180)), l*n.Len())
}

// H_Filter: one answer per triangle, in order, and the filter keeps the flagged ones in order.
//vh:bounds meshes of 0 to 5 triangles, each facing up, down, or sideways at a symbolic slant
func H_Filter() {
	n := vh.Choose("n", 6)
	g := vh.F("angle", 5, 85)
	var ts []primitives.Triangle
	for i := 0; i < n; i++ {
		t := tri(hx.V{X: float64(i + 1), Z: vh.F("z"+string(rune('0'+i)), -20, 20)})
		t.P1.X = float64(i)
		ts = append(ts, t)
	}
	m := primitives.NewMesh(ts)
	u, l := up(4)
	r := helpers.ColorizeTriangles(m, g, u.Vec())
	vh.Assert(len(r) == n, "one answer per triangle")
	k := helpers.FilterTrianglesByColor(m, g, u.Vec())
	j := 0
	for i := 0; i < n; i++ {
		v := hx.W(ts[i].N)
		check(r[i], -v.Dot(u), math.Sin(g*(math.Pi/180)), l*v.Len())
		if r[i] {
			vh.Assert(j < len(k) && k[j] == ts[i], "the filter keeps the flagged triangles in order")
			j++
		}
		vh.Assert(m.Triangles[i] == ts[i], "the mesh is left unchanged")
	}
	vh.Assert(j == len(k), "the filter keeps nothing else")
}
