package c08

import (
	"github.com/l1va/goosli/helpers"
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

// frame is a right-handed frame of axes of equal length; the third is across
// the plane. Whole numbers keep what is computed exact.
type frame struct{ u, v, n hx.V }

func (f frame) at(p hx.V) hx.V { return f.u.Mul(p.X).Add(f.v.Mul(p.Y)).Add(f.n.Mul(p.Z)) }

var frames = []frame{
	{hx.V{X: 1}, hx.V{Y: 1}, hx.V{Z: 1}},
	{hx.V{X: 2, Y: -2, Z: 1}, hx.V{X: 2, Y: 1, Z: -2}, hx.V{X: 1, Y: 2, Z: 2}},
	{hx.V{Y: 1}, hx.V{X: 1}, hx.V{Z: -1}},
	{hx.V{Z: 1}, hx.V{X: 1}, hx.V{Y: 1}},
	{hx.V{X: 2, Y: 1, Z: -2}, hx.V{X: 2, Y: -2, Z: 1}, hx.V{X: -1, Y: -2, Z: -2}},
}

func direction() frame {
	k := 2
	if vh.Thorough() {
		k = 5
	}
	return frames[vh.Choose("frame", k)]
}

// exact stands for the rounding of coordinates to eight places.
func exact(p primitives.Point, n int) primitives.Point { return p }

func area(t primitives.Triangle) hx.V {
	a := hx.P(t.P1)
	return hx.P(t.P2).Sub(a).Cross(hx.P(t.P3).Sub(a))
}

func centre(t primitives.Triangle) hx.V {
	return hx.P(t.P1).Add(hx.P(t.P2)).Add(hx.P(t.P3))
}

// volume checks that a surface is closed, by the flow of the constant and of
// the linear fields through it, and gives six times the volume.
func volume(ts []primitives.Triangle, f frame, e float64) float64 {
	var sum hx.V
	var m [3]hx.V
	for _, t := range ts {
		a, c := area(t), centre(t)
		sum = sum.Add(a)
		m[0], m[1], m[2] = m[0].Add(a.Mul(c.X)), m[1].Add(a.Mul(c.Y)), m[2].Add(a.Mul(c.Z))
	}
	vh.Assert(sum.Near(hx.V{}, e), "no half leaks (constant flow)")
	vh.Assert(vh.And(m[0].Near(hx.V{X: m[0].X}, e), m[1].Near(hx.V{Y: m[0].X}, e), m[2].Near(hx.V{Z: m[0].X}, e)), "no half leaks (linear flow)")
	return m[0].X
}

func cut(f frame, ps []hx.V, faces [][3]int, convex bool) {
	from := vh.Choose("from", 2)
	var ts []primitives.Triangle
	for i := range faces {
		t := faces[(i+from)%len(faces)]
		q := func(j int) primitives.Point { return f.at(ps[t[(j+from)%3]]).Pt() }
		ts = append(ts, primitives.NewTriangle(q(0), q(1), q(2)))
	}
	const e = 1e-3
	v := volume(ts, f, e)
	up, down, err := helpers.CutMesh(&primitives.Mesh{Triangles: ts}, primitives.Plane{N: f.n.Mul(vh.F("length", 0.1, 10)).Vec()})
	vh.Assert(err == nil, "cutting succeeds")
	a, b := volume(up.Triangles, f, e), volume(down.Triangles, f, e)
	vh.Assert(vh.Near(a+b, v, e), "the volumes of the halves add up")
	vh.Assert(vh.And(a >= -e, b >= -e), "no half is inside out")
	for i, m := range []*primitives.Mesh{up, down} {
		k := float64(1 - 2*i) // facing of the cut is against it
		flat := 0.0
		for _, t := range m.Triangles {
			in := true
			for _, p := range []primitives.Point{t.P1, t.P2, t.P3} {
				h := k * hx.P(p).Dot(f.n)
				vh.Assert(h >= -1e-5, "a half lies on its own side")
				in = vh.And(in, h <= 1e-5)
			}
			if vh.Split(in) {
				x := area(t).Dot(f.n) * k
				flat += x
				if convex {
					vh.Assert(x <= 1e-5, "the triangles that close the cut face away from the half")
				}
			}
		}
		vh.Assert(flat <= 1e-5, "the cut is closed facing away from the half")
	}
}

var tetF = [][3]int{{0, 2, 1}, {0, 1, 3}, {1, 2, 3}, {2, 0, 3}}

// H_Tetra: tetrahedra cut by a plane.
//vh:bounds tetrahedra with corners at 9 sets of heights over, on and under the plane and at any places in ranges, two orders of the faces, two directions of the plane (five thorough)
//vh:opt replace=primitives.Point.RoundPlaces:exact
func H_Tetra() {
	hs := [][4]float64{{-1, -1, -1, 3}, {-1, -1, -3, 1}, {-1, -1, 1, 3}, {-3, 1, 1, 3}, {-1, 0, -1, 3}, {0, 0, -1, 3}, {0, 0, 0, 3}, {-3, -1, -1, 0}, {1, 1, 2, 3}, {-1, -2, -1, -0.5}}[vh.Choose("heights", 10)]
	f := direction()
	ps := []hx.V{{0, 0, hs[0]}, {vh.F("x1", 10, 12), 0, hs[1]}, {vh.F("x2", -1, 1), vh.F("y2", 10, 12), hs[2]}, {vh.F("x3", 2, 3), vh.F("y3", 2, 3), hs[3]}}
	cut(f, ps, tetF, true)
}

// prism gives the walls of a right prism over a polygon, and its ends by the given triangles.
func prism(poly [][2]float64, ends [][3]int, lo, hi float64, holes [][]int) (ps []hx.V, fs [][3]int) {
	n := len(poly)
	for _, z := range []float64{lo, hi} {
		for _, p := range poly {
			ps = append(ps, hx.V{p[0], p[1], z})
		}
	}
	for _, loop := range holes {
		for i := range loop {
			a, b := loop[i], loop[(i+1)%len(loop)]
			fs = append(fs, [3]int{a, b, b + n}, [3]int{a, b + n, a + n})
		}
	}
	for _, t := range ends {
		fs = append(fs, [3]int{t[0], t[2], t[1]}, [3]int{t[0] + n, t[1] + n, t[2] + n})
	}
	return
}

// H_Box: boxes cut at any place.
//vh:bounds boxes of any width and depth with a slanting top, cut through, at their bottom, at their top, over and under them
//vh:opt replace=primitives.Point.RoundPlaces:exact
func H_Box() {
	f := direction()
	w, d := vh.F("width", 3, 20), vh.F("depth", 3, 20)
	poly := [][2]float64{{0, 0}, {w, 0}, {w, d}, {0, d}}
	span := [][2]float64{{-1, 1}, {-1, 3}, {-3, 1}, {0, 2}, {-2, 0}, {1, 2}, {-2, -1}}[vh.Choose("place", 7)]
	ps, fs := prism(poly, [][3]int{{0, 1, 2}, {0, 2, 3}}, span[0], span[1], [][]int{{0, 1, 2, 3}})
	cut(f, ps, fs, span[0] != 0 && span[1] != 0)
	if span[0] > 0 || span[1] < 0 {
		ts := primitives.Mesh{}
		for _, t := range fs {
			ts.Triangles = append(ts.Triangles, primitives.NewTriangle(f.at(ps[t[0]]).Pt(), f.at(ps[t[1]]).Pt(), f.at(ps[t[2]]).Pt()))
		}
		up, down, _ := helpers.CutMesh(&ts, primitives.Plane{N: f.n.Vec()})
		if span[0] < 0 {
			up, down = down, up
		}
		vh.Assert(len(down.Triangles) == 0 && len(up.Triangles) == len(fs), "a plane that misses the solid leaves it whole")
		for i, t := range up.Triangles {
			vh.Assert(t == ts.Triangles[i], "a plane that misses the solid leaves it as it is")
		}
	}
}

// H_Ell: a solid with a concave section.
//vh:bounds right prisms over an L of any proportions, cut through at three heights
//vh:opt replace=primitives.Point.RoundPlaces:exact
func H_Ell() {
	f := direction()
	w, d := vh.F("width", 4, 20), vh.F("depth", 4, 20)
	poly := [][2]float64{{0, 0}, {w + 3, 0}, {w + 3, 3}, {3, 3}, {3, d + 3}, {0, d + 3}}
	span := [][2]float64{{-1, 1}, {-1, 3}, {-3, 1}}[vh.Choose("place", 3)]
	ps, fs := prism(poly, [][3]int{{0, 1, 2}, {0, 2, 3}, {0, 3, 4}, {0, 4, 5}}, span[0], span[1], [][]int{{0, 1, 2, 3, 4, 5}})
	cut(f, ps, fs, false)
}

// H_Tube: a solid with a hollow section.
//vh:bounds square tubes of any width and depth, cut through at two heights
//vh:opt replace=primitives.Point.RoundPlaces:exact
func H_Tube() {
	f := direction()
	w, d := vh.F("width", 3, 20), vh.F("depth", 3, 20)
	poly := [][2]float64{{0, 0}, {w + 4, 0}, {w + 4, d + 4}, {0, d + 4}, {2, 2}, {2 + w, 2}, {2 + w, 2 + d}, {2, 2 + d}}
	ends := [][3]int{{0, 1, 5}, {0, 5, 4}, {1, 2, 6}, {1, 6, 5}, {2, 3, 7}, {2, 7, 6}, {3, 0, 4}, {3, 4, 7}}
	span := [][2]float64{{-1, 1}, {-1, 3}}[vh.Choose("place", 2)]
	ps, fs := prism(poly, ends, span[0], span[1], [][]int{{0, 1, 2, 3}, {7, 6, 5, 4}})
	cut(f, ps, fs, false)
}

// H_Height: a box cut at any height.
//vh:bounds boxes of fixed width and depth, 4 high under the plane and of any height over it and the other way round
//vh:opt replace=primitives.Point.RoundPlaces:exact
func H_Height() {
	poly := [][2]float64{{0, 0}, {5, 0}, {5, 7}, {0, 7}}
	lo, hi := -4.0, vh.F("height", 0.01, 10)
	if vh.Choose("other", 2) == 1 {
		lo, hi = -hi, -lo
	}
	ps, fs := prism(poly, [][3]int{{0, 1, 2}, {0, 2, 3}}, lo, hi, [][]int{{0, 1, 2, 3}})
	cut(direction(), ps, fs, true)
}
