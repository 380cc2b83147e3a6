package c07

import (
	"github.com/l1va/goosli/helpers"
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

// frame is a right-handed frame of axes of equal length; the third is across
// the plane. Whole numbers keep what is computed exact.
type frame struct{ u, v, n hx.V }

func (f frame) at(x, y, z float64) hx.V { return f.u.Mul(x).Add(f.v.Mul(y)).Add(f.n.Mul(z)) }

var frames = []frame{
	{hx.V{X: 1}, hx.V{Y: 1}, hx.V{Z: 1}},
	{hx.V{Y: 1}, hx.V{X: 1}, hx.V{Z: -1}},
	{hx.V{Z: 1}, hx.V{X: 1}, hx.V{Y: 1}},
	{hx.V{X: 2, Y: -2, Z: 1}, hx.V{X: 2, Y: 1, Z: -2}, hx.V{X: 1, Y: 2, Z: 2}},
	{hx.V{X: 2, Y: 1, Z: -2}, hx.V{X: 2, Y: -2, Z: 1}, hx.V{X: -1, Y: -2, Z: -2}},
}

var heights = [][3]float64{
	// the edges are cut at fractions that binary numbers hold exactly
	{3, -1, -1}, {1, -3, -1}, {1, -1, -3}, {-3, 1, 1}, {-1, 3, 1}, {-1, 1, 7},
	{0, -1, -1}, {0, -2, -1}, {0, 1, 1}, {0, 1, 2}, {0, 0, -1}, {0, 0, 1}, {0, 1, -1}, {0, -1, 3}, {0, 0, 0}, {1, 2, 3}, {-3, -2, -1},
}

func area(t primitives.Triangle) hx.V {
	a := hx.P(t.P1)
	return hx.P(t.P2).Sub(a).Cross(hx.P(t.P3).Sub(a))
}

func centre(t primitives.Triangle) hx.V {
	return hx.P(t.P1).Add(hx.P(t.P2)).Add(hx.P(t.P3))
}

// check compares the pieces with the triangles cut.
func check(f frame, q hx.V, ins []primitives.Triangle, up, down *primitives.Mesh, size float64) {
	var all []primitives.Triangle
	all = append(append(all, up.Triangles...), down.Triangles...)
	e := 1e-5*size + 1e-7
	l2 := f.n.Len2()
	for _, t := range up.Triangles {
		for _, p := range []primitives.Point{t.P1, t.P2, t.P3} {
			vh.Assert(hx.P(p).Sub(q).Dot(f.n) >= -e*l2, "pieces of the front half lie in front of the plane")
		}
	}
	for _, t := range down.Triangles {
		for _, p := range []primitives.Point{t.P1, t.P2, t.P3} {
			vh.Assert(hx.P(p).Sub(q).Dot(f.n) <= e*l2, "pieces of the back half lie behind the plane")
		}
	}
	// the moments up to the second along the plane tell whether the pieces cover the triangles exactly
	var got, want hx.V
	var gm, wm [2]hx.V
	add := func(a *hx.V, m *[2]hx.V, t primitives.Triangle) {
		s, c := area(t), centre(t).Sub(q.Mul(3))
		*a = a.Add(s)
		m[0] = m[0].Add(s.Mul(c.Dot(f.u)))
		m[1] = m[1].Add(s.Mul(c.Dot(f.n)))
	}
	for _, t := range all {
		add(&got, &gm, t)
	}
	for _, t := range ins {
		add(&want, &wm, t)
	}
	vh.Assert(got.Near(want, e*size*l2), "the pieces have the area of the original surface")
	vh.Assert(vh.And(gm[0].Near(wm[0], e*size*size*l2*l2), gm[1].Near(wm[1], e*size*size*l2*l2)), "the pieces lie where the original surface does")
}

// exact stands for the rounding of coordinates to eight places.
func exact(p primitives.Point, n int) primitives.Point { return p }

// H_Triangle: one triangle cut by a plane through any place.
//vh:opt replace=primitives.Point.RoundPlaces:exact
//vh:bounds a triangle of any shape in three ranges of places and of three sizes, its corners at 17 sets of heights over, on and under the plane, from each corner, both facings, five directions of the plane (quick: two), any point and length of the plane's direction
func H_Triangle() {
	k := 2
	if vh.Thorough() {
		k = 5
	}
	f := frames[3*vh.Choose("frame", k)%5]
	size := []float64{1, 256, 1.0 / 64}[vh.Choose("size", 3)]
	h := heights[vh.Choose("heights", len(heights))]
	c := []hx.V{
		f.at(vh.F("ax", -1, 1)*size, vh.F("ay", -0.5, 0.5)*size, h[0]*size),
		f.at(vh.F("bx", 3, 5)*size, vh.F("by", -0.5, 0.5)*size, h[1]*size),
		f.at(vh.F("cx", -1, 1)*size, vh.F("cy", 3, 5)*size, h[2]*size),
	}
	one(f, c, size)
}

func one(f frame, c []hx.V, size float64) {
	if vh.Choose("mirror", 2) == 1 {
		c[1], c[2] = c[2], c[1]
	}
	r := vh.Choose("first", 3)
	t := primitives.NewTriangle(c[r].Pt(), c[(r+1)%3].Pt(), c[(r+2)%3].Pt())
	q := f.at(vh.F("px", -2, 2)*size, vh.F("py", -2, 2)*size, 0)
	up, down, err := helpers.CutMesh(&primitives.Mesh{Triangles: []primitives.Triangle{t}}, primitives.Plane{P: q.Pt(), N: f.n.Mul(vh.F("length", 0.1, 10)).Vec()})
	vh.Assert(err == nil, "cutting succeeds")
	check(f, q, []primitives.Triangle{t}, up, down, size)
	w := area(t)
	for _, m := range []*primitives.Mesh{up, down} {
		for _, p := range m.Triangles {
			a := area(p)
			vh.Assert(a.Cross(w).Near(hx.V{}, 1e-4*size*size*size*size), "pieces lie in the planes of their originals")
			sign := func(a hx.V) bool {
				return vh.And(vh.Implies(w.Dot(f.n) > 0, a.Dot(f.n) >= -1e-6*size*size), vh.Implies(w.Dot(f.n) < 0, a.Dot(f.n) <= 1e-6*size*size))
			}
			vh.Assert(vh.And(sign(a), sign(hx.W(p.N))), "pieces face as the original does")
		}
	}
}

// H_Ratio: one corner on one side, the edges cut in any ratio.
//vh:bounds a triangle with one corner on either side of the plane at any height up to 10, the cut of any shape in three ranges of places, the edges from 1.05 to 8 times as long as their cut parts, from each corner, both facings
//vh:opt replace=primitives.Point.RoundPlaces:exact
func H_Ratio() {
	k := 1
	if vh.Thorough() {
		k = 5
	}
	f := frames[3*vh.Choose("frame", k)%5]
	h := vh.F("h", 0.1, 10)
	if vh.Choose("below", 2) == 1 {
		h = -h
	}
	a := f.at(0, 0, h)
	x := f.at(vh.F("bx", 3, 5), vh.F("by", -0.5, 0.5), 0)
	y := f.at(vh.F("cx", -1, 1), vh.F("cy", 3, 5), 0)
	kx, ky := vh.F("kx", 1.05, 8), vh.F("ky", 1.05, 8)
	c := []hx.V{a, a.Add(x.Sub(a).Mul(kx)), a.Add(y.Sub(a).Mul(ky))}
	one(f, c, 8)
}

// H_Mesh: triangles do not disturb one another.
//vh:bounds meshes of two triangles (three thorough) of any shape in ranges of places, at 17 sets of heights each
//vh:opt replace=primitives.Point.RoundPlaces:exact
func H_Mesh() {
	f := frames[0]
	n := 2
	if vh.Thorough() {
		n = 3
	}
	var ts []primitives.Triangle
	for i := 0; i < n; i++ {
		h := heights[vh.Choose("heights"+string(rune('a'+i)), len(heights))]
		x := 20 * float64(i)
		s := string(rune('a' + i))
		c := []hx.V{f.at(x, 0, h[0]), f.at(x+vh.F("x"+s, 3, 5), 0, h[1]), f.at(x, vh.F("y"+s, 3, 5), h[2])}
		ts = append(ts, primitives.NewTriangle(c[i%3].Pt(), c[(i+1)%3].Pt(), c[(i+2)%3].Pt()))
	}
	q := f.at(3, 1, 0)
	up, down, err := helpers.CutMesh(&primitives.Mesh{Triangles: ts}, primitives.Plane{P: q.Pt(), N: f.n.Vec()})
	vh.Assert(err == nil, "cutting succeeds")
	check(f, q, ts, up, down, 60)
	for i, t := range ts {
		w := area(t)
		var sum hx.V
		for _, m := range []*primitives.Mesh{up, down} {
			for _, p := range m.Triangles {
				if vh.Split(vh.And(p.P1.X >= 20*float64(i)-1, p.P1.X <= 20*float64(i)+6)) {
					a := area(p)
					sum = sum.Add(a)
					vh.Assert(vh.Or(vh.And(w.Dot(f.n) >= 0, a.Dot(f.n) >= -1e-5), vh.And(w.Dot(f.n) <= 0, a.Dot(f.n) <= 1e-5)), "pieces face as the original does")
				}
			}
		}
		vh.Assert(sum.Near(w, 1e-4), "each triangle keeps its area")
	}
}

// H_Size: triangles of fixed shape and any size.
//vh:bounds a triangle of fixed shape and of any size from 0.0001 to 10000, at 17 sets of heights, from each corner, both facings
//vh:opt replace=primitives.Point.RoundPlaces:exact
func H_Size() {
	f := frames[0]
	h := heights[vh.Choose("heights", len(heights))]
	s := vh.F("size", 0.0001, 10000)
	c := []hx.V{f.at(0, 0, h[0]).Mul(s), f.at(4, 0, h[1]).Mul(s), f.at(0, 3, h[2]).Mul(s)}
	if vh.Choose("mirror", 2) == 1 {
		c[1], c[2] = c[2], c[1]
	}
	r := vh.Choose("first", 3)
	t := primitives.NewTriangle(c[r].Pt(), c[(r+1)%3].Pt(), c[(r+2)%3].Pt())
	up, down, err := helpers.CutMesh(&primitives.Mesh{Triangles: []primitives.Triangle{t}}, primitives.Plane{N: f.n.Vec()})
	vh.Assert(err == nil, "cutting succeeds")
	check(f, hx.V{}, []primitives.Triangle{t}, up, down, s)
}
