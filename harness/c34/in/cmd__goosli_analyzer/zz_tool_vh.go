package main

import (
	"io/ioutil"
	"os"
	"strings"

	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers/vip"
	"github.com/l1va/goosli/zzverif/vh"
)

// analyzed stands for the analysis, which C24 and C31 decide: up to three planes that depend on the model and the angle.
func analyzed(m *Mesh, angle float64) []vip.AnalyzedPlane {
	var r []vip.AnalyzedPlane
	for i := range m.Triangles {
		pl := vip.ParsePlane([]string{"X0 Y0 Z0 Ttrue R90", "X0 Y0 Z0 Tfalse R0", "X0 Y0 Z0 Ttrue R-30.500"}[i])
		pl.P = m.Triangles[i].P2
		pl.P.Z += angle
		r = append(r, pl)
	}
	return r
}

// H_Analyzer: the tool writes the planes of the shifted model, one to a line.
//
//vh:bounds models of up to 3 triangles, any shift, any angle
//vh:opt replace=slicers/vip.Analyze:analyzed
func H_Analyzer() {
	vh.SetCPU(2)
	n := vh.Choose("n", 4)
	var ts []Triangle
	for i := 0; i < n; i++ {
		x := float64(10 * i)
		// overhangs above one another
		ts = append(ts, NewTriangle(Point{x, 0, 5 + x}, Point{x, 4, 5 + x}, Point{x + 4, 0, 6 + x}))
	}
	m := NewMesh(ts)
	in, f := vh.Dir()+"/in.stl", vh.Dir()+"/planes.txt"
	vh.Assert(SaveSTL(in, &m) == nil, "the model is there")
	os.Args = []string{"tool", "-s", "none"}
	x, y, z, a := vh.F("x", -50, 50), vh.F("y", -50, 50), vh.F("z", 0, 50), vh.F("angle", 1, 60)
	c := vh.F("centre", -50, 50)
	stl, out, angle, ox, oy, oz = &in, &f, &a, &x, &y, &z
	rcx, rcy, rcz = &c, &c, &c
	shifted, err := LoadSTL(in)
	vh.Assert(err == nil, "the model is there")
	shifted.Shift(V(x, y, z))
	want := ""
	for _, p := range vip.Analyze(shifted, a) {
		want += p.String() + "\n"
	}
	main()
	got, err := ioutil.ReadFile(f)
	vh.Assert(err == nil, "the planes are written")
	vh.Assert(strings.Count(string(got), "\n") == strings.Count(want, "\n"), "one plane to a line")
	vh.Assert(string(got) == want, "the planes are those of the shifted model, in order")
}

// H_FullAnalyzer: planes that cannot be written are reported.
//
//vh:bounds room for any number of bytes
//vh:opt replace=slicers/vip.Analyze:analyzed
func H_FullAnalyzer() {
	vh.SetCPU(2)
	m := NewMesh([]Triangle{NewTriangle(Point{0, 0, 5}, Point{0, 4, 5}, Point{4, 0, 6})})
	in, f := vh.Dir()+"/in.stl", vh.Dir()+"/planes.txt"
	vh.Assert(SaveSTL(in, &m) == nil, "the model is there")
	os.Args = []string{"tool", "-s", "none"}
	a, o := 10.0, 0.0
	stl, out, angle, ox, oy, oz = &in, &f, &a, &o, &o, &o
	rcx, rcy, rcz = &o, &o, &o
	n := 0
	for _, p := range vip.Analyze(&m, a) {
		n += len(p.String()) + 1
	}
	vh.Assert(n > 0, "there are planes")
	room := vh.I("room", -1, 200)
	vh.FailWritesAfter(room)
	main()
	vh.FailWritesAfter(-1)
	vh.Assert(vh.Or(room < 0, room >= n), "planes that cannot be written are reported")
	vh.Assert(vh.FileSize(f) == n, "the planes are written completely")
}
