package main

import (
	"io/ioutil"
	"os"

	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/vh"
)

// model writes n triangles that face different ways.
func model(n int) string {
	var ts []Triangle
	for i := 0; i < n; i++ {
		x := float64(10 * i)
		t := NewTriangle(Point{x, 0, 0}, Point{x, 4, 0}, Point{x + 4, 0, float64(i % 5)})
		if i%3 == 1 {
			t = NewTriangle(t.P3, t.P2, t.P1)
		}
		ts = append(ts, t)
	}
	m := NewMesh(ts)
	f := vh.Dir() + "/in.stl"
	vh.Assert(SaveSTL(f, &m) == nil, "the model is there")
	os.Args = []string{"tool", "-s", "none"}
	return f
}

// H_Colorizer: the tool writes one byte for each triangle, in order.
//
//vh:bounds models of up to 4 triangles that face down and up at different slopes, any angle from 1 to 89 degrees, five directions of any length
func H_Colorizer() {
	vh.SetCPU(2)
	n := vh.Choose("n", 5)
	in, f := model(n), vh.Dir()+"/out.bin"
	a := vh.F("angle", 1, 89)
	k := vh.F("length", 0.1, 10)
	d := []Vector{V(0, 0, 1), V(0, 0, -1), V(1, 0, 0), V(0, -1, 0), V(1, 2, 2)}[vh.Choose("direction", 5)].MulScalar(k)
	stl, out, angle = &in, &f, &a
	nx, ny, nz = &d.X, &d.Y, &d.Z
	m, err := LoadSTL(in)
	vh.Assert(err == nil, "the model is there")
	want := helpers.ColorizeTriangles(*m, a, d)
	main()
	got, err := ioutil.ReadFile(f)
	vh.Assert(err == nil && len(got) == n, "one byte for each triangle")
	for i := range want {
		w := byte(0)
		if want[i] {
			w = 1
		}
		vh.Assert(got[i] == w, "the bytes tell which triangles are overhangs, in order")
	}
}

// H_FullColorizer: results that cannot be written are reported.
//
//vh:bounds models of 1, 3 and 100 triangles and room for any number of bytes
func H_FullColorizer() {
	vh.SetCPU(2)
	n := []int{1, 3, 100}[vh.Choose("n", 3)]
	in, f := model(n), vh.Dir()+"/out.bin"
	a := 30.0
	d := V(0, 0, 1)
	stl, out, angle = &in, &f, &a
	nx, ny, nz = &d.X, &d.Y, &d.Z
	room := vh.I("room", -1, 200)
	vh.FailWritesAfter(room)
	main()
	vh.FailWritesAfter(-1)
	vh.Assert(vh.Or(room < 0, room >= n), "results that cannot be written are reported")
	vh.Assert(vh.FileSize(f) == n, "the results are written completely")
}
