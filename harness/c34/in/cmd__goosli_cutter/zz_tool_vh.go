package main

import (
	"os"

	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/vh"
)

func pt(n string) Point { return Point{vh.F(n+".x", -10, 10), vh.F(n+".y", -10, 10), vh.F(n+".z", -10, 10)} }

func single(p Point) Point {
	return Point{float64(float32(p.X)), float64(float32(p.Y)), float64(float32(p.Z))}
}

func same(f string, want *Mesh) {
	got, err := LoadSTL(f)
	vh.Assert(err == nil && len(got.Triangles) == len(want.Triangles), "each part is in the file named for it")
	for i, t := range want.Triangles {
		g := got.Triangles[i]
		vh.Assert(vh.And(g.P1 == single(t.P1), g.P2 == single(t.P2), g.P3 == single(t.P3)), "each part is in the file named for it")
	}
}

// H_Cutter: the tool writes the two parts that the library cuts the model into.
//
//vh:bounds a tetrahedron, planes across the axes and a slanting one through any point
func H_Cutter() {
	vh.SetCPU(2)
	a, b, c, d := Point{0, 0, 0}, Point{4, 0, 0}, Point{0, 4, 0}, Point{0, 0, 4}
	ts := []Triangle{NewTriangle(a, c, b), NewTriangle(a, b, d), NewTriangle(b, c, d), NewTriangle(c, a, d)}
	m := NewMesh(ts)
	dir := vh.Dir()
	in, f1, f2 := dir+"/in.stl", dir+"/front.stl", dir+"/back.stl"
	vh.Assert(SaveSTL(in, &m) == nil, "the model is there")
	p := pt("p")
	n := []Vector{V(0, 0, 1), V(0, 0, -1), V(1, 0, 0), V(0, -1, 0), V(1, 1, 1)}[vh.Choose("normal", 5)]
	os.Args = []string{"tool", "-s", "none"}
	stl, out1, out2 = &in, &f1, &f2
	px, py, pz, nx, ny, nz = &p.X, &p.Y, &p.Z, &n.X, &n.Y, &n.Z
	loaded, err := LoadSTL(in)
	vh.Assert(err == nil, "the model is there")
	up, down, err := helpers.CutMesh(loaded, Plane{P: p, N: n})
	vh.Assert(err == nil, "the model can be cut")
	main()
	same(f1, up)
	same(f2, down)
}

// H_FullCutter: a part that cannot be written is reported.
//
//vh:bounds room for any number of bytes in each file
func H_FullCutter() {
	vh.SetCPU(2)
	a, b, c, d := Point{0, 0, 0}, Point{4, 0, 0}, Point{0, 4, 0}, Point{0, 0, 4}
	m := NewMesh([]Triangle{NewTriangle(a, c, b), NewTriangle(a, b, d), NewTriangle(b, c, d), NewTriangle(c, a, d)})
	dir := vh.Dir()
	in, f1, f2 := dir+"/in.stl", dir+"/front.stl", dir+"/back.stl"
	vh.Assert(SaveSTL(in, &m) == nil, "the model is there")
	p, n := Point{0, 0, []float64{-1, 1, 3, 5}[vh.Choose("height", 4)]}, V(0, 0, 1)
	up, down, _ := helpers.CutMesh(&m, Plane{P: p, N: n})
	s1, s2 := 84+50*len(up.Triangles), 84+50*len(down.Triangles)
	os.Args = []string{"tool", "-s", "none"}
	stl, out1, out2 = &in, &f1, &f2
	px, py, pz, nx, ny, nz = &p.X, &p.Y, &p.Z, &n.X, &n.Y, &n.Z
	room := vh.I("room", -1, 2000)
	vh.FailWritesAfter(room)
	main()
	vh.FailWritesAfter(-1)
	vh.Assert(vh.Or(room < 0, vh.And(room >= s1, room >= s2)), "a part that cannot be written is reported")
	vh.Assert(vh.FileSize(f1) == s1 && vh.FileSize(f2) == s2, "each part is written completely")
}

// H_MissingCutter: a model that is not there is reported, and nothing is written.
func H_MissingCutter() {
	dir := vh.Dir()
	in, f1, f2 := dir+"/none.stl", dir+"/front.stl", dir+"/back.stl"
	os.Args = []string{"tool", "-s", "none"}
	x := 0.0
	stl, out1, out2 = &in, &f1, &f2
	px, py, pz, nx, ny, nz = &x, &x, &x, &x, &x, &x
	main()
	vh.Assert(false, "a missing model is reported")
}
