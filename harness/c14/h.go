package c14

import (
	"github.com/fogleman/simplify"

	"github.com/l1va/goosli/helpers"
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

var names = []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"}

func mesh(n int) *primitives.Mesh {
	ts := make([]primitives.Triangle, n)
	for i := range ts {
		ts[i].Fill(hx.Pt(names[i]+"1", 100), hx.Pt(names[i]+"2", 100), hx.Pt(names[i]+"3", 100))
	}
	m := primitives.NewMesh(ts)
	return &m
}

func same(t, u primitives.Triangle) bool {
	return vh.And(t.P1 == u.P1, t.P2 == u.P2, t.P3 == u.P3, t.N == u.N)
}

// H_Nil: a missing mesh is reported whatever size is asked for.
//vh:bounds any size asked for
func H_Nil() {
	m, err := helpers.SimplifyMesh(nil, vh.I("size", -5, 1000))
	vh.Assert(err != nil, "a missing mesh is an error")
	vh.Assert(m == nil, "no mesh comes of a missing mesh")
	vh.Assert(vh.SimplifyCalls() == 0, "nothing is reduced for a missing mesh")
}

// H_Small: meshes that are small enough already.
//vh:bounds meshes of up to 6 triangles (12 thorough) with any corners, any size asked for that is no less
func H_Small() {
	max := 6
	if vh.Thorough() {
		max = 12
	}
	n := vh.Choose("n", max+1)
	m := mesh(n)
	in := append([]primitives.Triangle{}, m.Triangles...)
	size := vh.I("size", 0, 1000000)
	vh.Assume(n <= size)
	got, err := helpers.SimplifyMesh(m, size)
	vh.Assert(err == nil, "no error for a mesh that is small enough")
	vh.Assert(got != nil, "a mesh that is small enough is returned")
	vh.Assert(len(got.Triangles) == n, "a mesh that is small enough keeps its triangles")
	for i := range in {
		vh.Assert(same(got.Triangles[i], in[i]), "a mesh that is small enough is returned as it is")
	}
	vh.Assert(vh.SimplifyCalls() == 0, "a mesh that is small enough is not reduced")
}

// H_Reduce: meshes that are to be reduced.
//vh:bounds meshes of 1 to 6 triangles (12 thorough) with any corners reduced to any smaller size, any result of up to 4 triangles (8 thorough)
func H_Reduce() {
	max, out := 6, 4
	if vh.Thorough() {
		max, out = 12, 8
	}
	n := 1 + vh.Choose("n", max)
	m := mesh(n)
	in := append([]primitives.Triangle{}, m.Triangles...)
	size := vh.I("size", 0, n-1)
	k := vh.Choose("k", out+1)
	var rs []*simplify.Triangle
	var ref []primitives.Triangle
	for i := 0; i < k; i++ {
		a, b, c := hx.Pt("r"+names[i]+"1", 100), hx.Pt("r"+names[i]+"2", 100), hx.Pt("r"+names[i]+"3", 100)
		rs = append(rs, &simplify.Triangle{V1: simplify.Vector{X: a.X, Y: a.Y, Z: a.Z}, V2: simplify.Vector{X: b.X, Y: b.Y, Z: b.Z}, V3: simplify.Vector{X: c.X, Y: c.Y, Z: c.Z}})
		ref = append(ref, primitives.Triangle{P1: a, P2: b, P3: c})
	}
	vh.SimplifyReturn(&simplify.Mesh{Triangles: rs})
	got, err := helpers.SimplifyMesh(m, size)
	vh.Assert(err == nil, "reducing reports no error")
	vh.Assert(vh.SimplifyCalls() == 1, "the reduction is asked once")
	f := vh.SimplifyFactor()
	vh.Assert(vh.Near(f*float64(n), float64(size), 1e-9), "the reduction is asked for the requested share")
	sm := vh.SimplifyIn().(*simplify.Mesh)
	vh.Assert(len(sm.Triangles) == n, "the reduction is given every triangle")
	for i, t := range sm.Triangles {
		vh.Assert(vh.And(at(t.V1, in[i].P1), at(t.V2, in[i].P2), at(t.V3, in[i].P3)), "the reduction is given the exact triangles in order")
	}
	for i := range in {
		vh.Assert(same(m.Triangles[i], in[i]), "the mesh given is left unchanged")
	}
	vh.Assert(len(got.Triangles) == k, "every triangle of the reduction is returned")
	for i, t := range got.Triangles {
		r := ref[i]
		vh.Assert(vh.And(t.P1 == r.P1, t.P2 == r.P2, t.P3 == r.P3), "the triangles of the reduction are returned exactly and in order")
		u, v := hx.P(r.P2).Sub(hx.P(r.P1)), hx.P(r.P3).Sub(hx.P(r.P1))
		w, nn := u.Cross(v), hx.W(t.N)
		x := w.Cross(nn)
		// along the normal of the corners, whatever its length
		vh.Assert(vh.Implies(w.Len2() >= 0.01, vh.And(x.Len2() <= 1e-6, nn.Dot(w) > 0)), "the facing follows the corners")
	}
}

func at(v simplify.Vector, p primitives.Point) bool {
	return vh.And(v.X == p.X, v.Y == p.Y, v.Z == p.Z)
}
