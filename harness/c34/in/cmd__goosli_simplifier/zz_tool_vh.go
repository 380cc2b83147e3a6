package main

import (
	"os"

	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/vh"
)

func pt(n string) Point { return Point{vh.F(n+".x", -10, 10), vh.F(n+".y", -10, 10), vh.F(n+".z", -10, 10)} }

func single(p Point) Point {
	return Point{float64(float32(p.X)), float64(float32(p.Y)), float64(float32(p.Z))}
}

// H_Simplifier: the tool writes the mesh that the library reduces the model to.
//
//vh:bounds models of 1 to 4 triangles with any corners, any number of triangles asked for that is no less
func H_Simplifier() {
	vh.SetCPU(2)
	n := 1 + vh.Choose("n", 4)
	var ts []Triangle
	for i := 0; i < n; i++ {
		s := string(rune('a' + i))
		ts = append(ts, NewTriangle(pt(s+"1"), pt(s+"2"), pt(s+"3")))
	}
	m := NewMesh(ts)
	in, f := vh.Dir()+"/in.stl", vh.Dir()+"/out.stl"
	vh.Assert(SaveSTL(in, &m) == nil, "the model is there")
	k := vh.I("triangles", n, 1000)
	os.Args = []string{"tool", "-s", "none"}
	stl, out, triangles = &in, &f, &k
	main()
	got, err := LoadSTL(f)
	vh.Assert(err == nil && len(got.Triangles) == n, "the model is small enough already")
	for i, t := range ts {
		g := got.Triangles[i]
		vh.Assert(vh.And(g.P1 == single(t.P1), g.P2 == single(t.P2), g.P3 == single(t.P3)), "the model is small enough already")
	}
}

// H_Reduced: a model with more triangles.
//
//vh:bounds a model of 12 triangles and any smaller number of them asked for
//vh:opt replace=helpers.SimplifyMesh:reduced
func H_Reduced() {
	vh.SetCPU(2)
	var ts []Triangle
	for i := 0; i < 12; i++ {
		x := float64(i)
		ts = append(ts, NewTriangle(Point{x, 0, 0}, Point{x + 1, 0, 0}, Point{x, 1, 0}))
	}
	m := NewMesh(ts)
	in, f := vh.Dir()+"/in.stl", vh.Dir()+"/out.stl"
	vh.Assert(SaveSTL(in, &m) == nil, "the model is there")
	k := 1 + vh.Choose("triangles", 12)
	os.Args = []string{"tool", "-s", "none"}
	stl, out, triangles = &in, &f, &k
	want, err := helpers.SimplifyMesh(&m, k)
	vh.Assert(err == nil, "the model can be reduced")
	main()
	got, err := LoadSTL(f)
	vh.Assert(err == nil && len(got.Triangles) == len(want.Triangles), "the tool writes what the library reduces the model to")
	for i, t := range want.Triangles {
		g := got.Triangles[i]
		vh.Assert(vh.And(g.P1 == single(t.P1), g.P2 == single(t.P2), g.P3 == single(t.P3)), "the tool writes what the library reduces the model to")
	}
}

// reduced stands for the reduction, which C14 decides: the first triangles, as many as asked for.
func reduced(m *Mesh, n int) (*Mesh, error) {
	k := 0
	for k < n && k < len(m.Triangles) {
		k++
	}
	r := NewMesh(m.Triangles[:k])
	return &r, nil
}

// H_FullSimplifier: a mesh that cannot be written is reported.
//
//vh:bounds room for any number of bytes
func H_FullSimplifier() {
	vh.SetCPU(2)
	ts := []Triangle{NewTriangle(Point{0, 0, 0}, Point{1, 0, 0}, Point{0, 1, 0}), NewTriangle(Point{0, 0, 0}, Point{0, 1, 0}, Point{0, 0, 1})}
	m := NewMesh(ts)
	in, f := vh.Dir()+"/in.stl", vh.Dir()+"/out.stl"
	vh.Assert(SaveSTL(in, &m) == nil, "the model is there")
	k := 800
	os.Args = []string{"tool", "-s", "none"}
	stl, out, triangles = &in, &f, &k
	room := vh.I("room", -1, 500)
	vh.FailWritesAfter(room)
	main()
	vh.FailWritesAfter(-1)
	vh.Assert(vh.Or(room < 0, room >= 184), "a mesh that cannot be written is reported")
	vh.Assert(vh.FileSize(f) == 184, "the mesh is written completely")
}
