package c09

import (
	"math"

	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

const eps = 1e-6

func mesh(n int) primitives.Mesh {
	var ts []primitives.Triangle
	for i := 0; i < n; i++ {
		s := string(rune('a' + i))
		ts = append(ts, primitives.NewTriangle(hx.Pt(s+"1", 50), hx.Pt(s+"2", 50), hx.Pt(s+"3", 50)))
	}
	return primitives.NewMesh(ts)
}

func corners(t primitives.Triangle) [3]hx.V { return [3]hx.V{hx.P(t.P1), hx.P(t.P2), hx.P(t.P3)} }

func facing(t primitives.Triangle) hx.V {
	c := corners(t)
	return c[1].Sub(c[0]).Cross(c[2].Sub(c[0]))
}

func copyOf(m primitives.Mesh) []primitives.Triangle {
	var r []primitives.Triangle
	for _, t := range m.Triangles {
		r = append(r, t)
	}
	return r
}

func same(a, b primitives.Triangle, e float64) bool {
	x, y := corners(a), corners(b)
	return vh.And(x[0].Near(y[0], e), x[1].Near(y[1], e), x[2].Near(y[2], e))
}

func rotation(name string, g float64) (primitives.RotationMatrix, hx.V) {
	if vh.B(name) {
		return primitives.RotationAroundX(g), hx.V{X: 1}
	}
	return primitives.RotationAroundZ(g), hx.V{Z: 1}
}

// H_Matrix: the rotations are proper turns about their axis by their angle.
//vh:bounds any angle within two turns either way, any two vectors within 50
func H_Matrix() {
	g := vh.F("angle", -720, 720)
	rm, axis := rotation("x", g)
	a, b := hx.Vec("a", 50), hx.Vec("b", 50)
	p, q := hx.W(a), hx.W(b)
	p1, q1 := hx.W(a.Rotate(rm)), hx.W(b.Rotate(rm))
	vh.Assert(vh.Near(p1.Dot(q1), p.Dot(q), eps), "lengths and angles are kept")
	vh.Assert(vh.Near(p1.Dot(axis), p.Dot(axis), eps), "the component along the axis is kept")
	vh.Assert(p1.Cross(q1).Near(hx.W(p.Cross(q).Vec().Rotate(rm)), eps), "handedness is kept")
	perp := p.Sub(axis.Mul(p.Dot(axis)))
	co := math.Cos(g * (math.Pi / 180))
	vh.Assert(vh.Near(p1.Dot(perp), perp.Len2()*co, 1e-4), "vectors are turned by the angle")
}

// H_Quarter: concrete turns.
//vh:bounds turns by -360 to 360 degrees in steps of 90, any vector within 50
func H_Quarter() {
	k := vh.Choose("quarters", 9) - 4
	a := hx.W(hx.Vec("a", 50))
	// the axis stays, the other two follow one another
	x := hx.W(a.Vec().Rotate(primitives.RotationAroundX(float64(90 * k))))
	z := hx.W(a.Vec().Rotate(primitives.RotationAroundZ(float64(90 * k))))
	switch (k + 8) % 4 {
	case 0:
		vh.Assert(vh.And(x.Near(a, eps), z.Near(a, eps)), "a full turn changes nothing")
	case 2:
		vh.Assert(vh.And(x.Near(hx.V{a.X, -a.Y, -a.Z}, eps), z.Near(hx.V{-a.X, -a.Y, a.Z}, eps)), "half a turn")
	}
}

// H_Rotate: rotating a mesh keeps distances, facing and order, and the original.
//vh:bounds meshes of 2 triangles anywhere within 50, any centre within 50, any angle within two turns
func H_Rotate() {
	m := mesh(2)
	old := copyOf(m)
	rm, _ := rotation("x", vh.F("angle", -720, 720))
	c := hx.Pt("c", 50)
	r := m.Rotate(rm, c)
	vh.Assert(len(r.Triangles) == 2, "rotating keeps the number of triangles")
	vh.Assert(len(m.Triangles) == 2 && m.Triangles[0] == old[0] && m.Triangles[1] == old[1], "rotating leaves the original untouched")
	for i := 0; i < 2; i++ {
		a, b := corners(old[i]), corners(r.Triangles[i])
		for j := 0; j < 3; j++ {
			want := hx.W(a[j].Sub(hx.P(c)).Vec().Rotate(rm)).Add(hx.P(c))
			vh.Assert(b[j].Near(want, eps), "every corner in its place is turned about the centre")
			vh.Assert(vh.Near(b[j].Sub(hx.P(c)).Len2(), a[j].Sub(hx.P(c)).Len2(), 1e-4), "distances from the centre are kept")
			k := (j + 1) % 3
			vh.Assert(vh.Near(b[j].Sub(b[k]).Len2(), a[j].Sub(a[k]).Len2(), 1e-4), "lengths of edges are kept")
		}
		vh.Assert(hx.W(r.Triangles[i].N).Near(facing(r.Triangles[i]), 1e-4), "the facing belongs to the corners")
		vh.Assert(hx.W(r.Triangles[i].N).Near(hx.W(facing(old[i]).Vec().Rotate(rm)), 1e-4), "the facing is turned along")
	}
	x, y := corners(old[0])[0], corners(old[1])[1]
	x1, y1 := corners(r.Triangles[0])[0], corners(r.Triangles[1])[1]
	vh.Assert(vh.Near(x1.Sub(y1).Len2(), x.Sub(y).Len2(), 1e-4), "distances between triangles are kept")
	// the copy is a separate one
	r.Triangles[0].P1.X += 1
	r.Triangles[1] = r.Triangles[0]
	vh.Assert(m.Triangles[0] == old[0] && m.Triangles[1] == old[1], "the rotated mesh shares nothing with the original")
}

// H_Centre: the centre stays where it is.
//vh:bounds any centre within 50, any angle within two turns
func H_Centre() {
	c := hx.Pt("c", 50)
	m := primitives.NewMesh([]primitives.Triangle{primitives.NewTriangle(c, hx.Pt("p", 50), hx.Pt("q", 50))})
	rm, _ := rotation("x", vh.F("angle", -720, 720))
	r := m.Rotate(rm, c)
	vh.Assert(hx.P(r.Triangles[0].P1).Near(hx.P(c), eps), "the rotation centre stays fixed")
}

// H_Undo: rotating by an angle and its negative restores the mesh.
//vh:bounds a triangle anywhere within 50, any centre within 50, any angle within two turns
func H_Undo() {
	m := mesh(1)
	old := copyOf(m)
	g := vh.F("angle", -720, 720)
	c := hx.Pt("c", 50)
	a, b := primitives.RotationAroundX(g), primitives.RotationAroundX(-g)
	if vh.B("z") {
		a, b = primitives.RotationAroundZ(g), primitives.RotationAroundZ(-g)
	}
	r := m.Rotate(a, c).Rotate(b, c)
	vh.Assert(len(r.Triangles) == 1 && same(r.Triangles[0], old[0], eps), "rotating back restores the mesh")
	vh.Assert(hx.W(r.Triangles[0].N).Near(facing(old[0]), 1e-4), "rotating back restores the facing")
}

// H_Order: the order of triangles and corners is kept.
//vh:bounds meshes of 0 to 9 (12 thorough) triangles, any angle, any shift
func H_Order() {
	max := 10
	if vh.Thorough() {
		max = 13
	}
	n := vh.Choose("n", max)
	var ts []primitives.Triangle
	for i := 0; i < n; i++ {
		f := float64(10 * i)
		ts = append(ts, primitives.NewTriangle(hx.V{f, f, f}.Pt(), hx.V{f + 3, f, f - 1}.Pt(), hx.V{f, f + 2, f + 1}.Pt()))
	}
	m := primitives.NewMesh(ts)
	old := copyOf(m)
	rm, _ := rotation("x", vh.F("angle", -720, 720))
	c := hx.Pt("c", 50)
	r := m.Rotate(rm, c)
	vh.Assert(len(r.Triangles) == n && len(m.Triangles) == n, "the number of triangles is kept")
	for i := 0; i < n; i++ {
		a, b := corners(old[i]), corners(r.Triangles[i])
		vh.Assert(m.Triangles[i] == old[i], "the original is untouched")
		for j := 0; j < 3; j++ {
			vh.Assert(b[j].Near(hx.W(a[j].Sub(hx.P(c)).Vec().Rotate(rm)).Add(hx.P(c)), eps), "every corner of every triangle is turned about the centre")
		}
	}
	v := hx.Vec("v", 50)
	m.Shift(v)
	vh.Assert(len(m.Triangles) == n, "the number of triangles is kept")
	for i := 0; i < n; i++ {
		a, b := corners(old[i]), corners(m.Triangles[i])
		for j := 0; j < 3; j++ {
			vh.Assert(b[j].Near(a[j].Add(hx.W(v)), eps), "every corner of every triangle is shifted")
		}
	}
}

// H_Shift: shifting keeps shape and facing and undoes itself.
//vh:bounds meshes of 2 triangles anywhere within 50, any shift within 50
func H_Shift() {
	m := mesh(2)
	old := copyOf(m)
	v := hx.Vec("v", 50)
	m.Shift(v)
	for i := 0; i < 2; i++ {
		a, b := corners(old[i]), corners(m.Triangles[i])
		for j := 0; j < 3; j++ {
			vh.Assert(b[j].Near(a[j].Add(hx.W(v)), eps), "every corner is shifted")
		}
		vh.Assert(hx.W(m.Triangles[i].N).Near(facing(old[i]), 1e-4), "shifting keeps the facing")
	}
	m.Shift(v.Reverse())
	for i := 0; i < 2; i++ {
		vh.Assert(same(m.Triangles[i], old[i], eps), "shifting back restores the mesh")
		vh.Assert(hx.W(m.Triangles[i].N).Near(facing(old[i]), 1e-4), "shifting back restores the facing")
	}
	var none *primitives.Mesh
	none.Shift(v)
}

// H_Plane: planes turn together with what they cut.
//vh:bounds any plane and point within 20, any angle within two turns
func H_Plane() {
	pl := primitives.Plane{P: hx.Pt("p", 20), N: hx.Vec("n", 20)}
	q := hx.Pt("q", 20)
	rm, _ := rotation("x", vh.F("angle", -720, 720))
	m := primitives.NewMesh([]primitives.Triangle{primitives.NewTriangle(q, hx.Pt("r", 20), hx.Pt("s", 20))})
	r := m.Rotate(rm, primitives.OriginPoint)
	pr := pl.Rotate(rm)
	d := hx.P(q).Sub(hx.P(pl.P)).Dot(hx.W(pl.N))
	d1 := hx.P(r.Triangles[0].P1).Sub(hx.P(pr.P)).Dot(hx.W(pr.N))
	vh.Assert(vh.Near(d, d1, 1e-4), "points stay on their side of the plane")
	vh.Assert(vh.Near(hx.W(pr.N).Len2(), hx.W(pl.N).Len2(), 1e-4), "the normal of the plane keeps its length")
	vh.Assert(hx.P(pr.P).Near(hx.W(pl.P.ToVector().Rotate(rm)), eps), "the point of the plane is turned")
}
