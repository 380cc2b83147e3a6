package c11

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io/ioutil"
	"math"
	"strings"

	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

var names = []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j"}

const big = 1e6

func mesh(n int) *primitives.Mesh {
	var ts []primitives.Triangle
	for i := 0; i < n; i++ {
		t := primitives.NewTriangle(hx.Pt(names[i]+"1", big), hx.Pt(names[i]+"2", big), hx.Pt(names[i]+"3", big))
		if i == 0 && vh.B("odd normal") {
			t.N = hx.Vec("n", big)
		}
		ts = append(ts, t)
	}
	m := primitives.NewMesh(ts)
	return &m
}

func single(a float64) float64 { return float64(float32(a)) }

func near(got, want primitives.Point) bool {
	return vh.And(got.X == single(want.X), got.Y == single(want.Y), got.Z == single(want.Z))
}

// faces checks the facing of loaded triangles.
func faces(t primitives.Triangle) {
	w := hx.P(t.P2).Sub(hx.P(t.P1)).Cross(hx.P(t.P3).Sub(hx.P(t.P1)))
	vh.Assert(vh.Or(hx.W(t.N) == w, vh.Implies(w.Len2() > 1e-6, vh.And(hx.W(t.N).Cross(w).Len2() <= 1e-6*w.Len2(), hx.W(t.N).Dot(w) > 0))), "the facing is recomputed from the corners")
}

func corners(got *primitives.Mesh, want []primitives.Triangle) {
	vh.Assert(len(got.Triangles) == len(want), "as many triangles are loaded")
	for i, t := range want {
		g := got.Triangles[i]
		vh.Assert(vh.And(near(g.P1, t.P1), near(g.P2, t.P2), near(g.P3, t.P3)), "the corners are the same in the same order, to single precision")
		faces(g)
	}
}

// H_RoundTrip: a mesh saved and loaded again.
//vh:bounds meshes of up to 4 triangles (8 thorough) with any corners within 1e6, one or three processors, over a longer file or none
func H_RoundTrip() {
	max := 4
	if vh.Thorough() {
		max = 8
	}
	n := vh.Choose("n", max+1)
	vh.SetCPU(1 + 2*vh.Choose("cpu", 2))
	m := mesh(n)
	in := append([]primitives.Triangle{}, m.Triangles...)
	p := vh.Dir() + "/m.stl"
	if vh.B("old") {
		ioutil.WriteFile(p, []byte(strings.Repeat("old ", 400)), 0644)
	}
	vh.Assert(primitives.SaveSTL(p, m) == nil, "saving reports no error")
	for i := range in {
		vh.Assert(m.Triangles[i] == in[i], "saving leaves the mesh unchanged")
	}
	got, err := primitives.LoadSTL(p)
	vh.Assert(err == nil, "a saved mesh loads")
	corners(got, in)
}

// H_Saved: the file saved is a binary STL by the book.
//vh:bounds meshes of up to 3 triangles with any corners within 1e6
func H_Saved() {
	n := vh.Choose("n", 4)
	m := mesh(n)
	p := vh.Dir() + "/m.stl"
	vh.Assert(primitives.SaveSTL(p, m) == nil, "saving reports no error")
	b, err := ioutil.ReadFile(p)
	vh.Assert(err == nil, "the file is there")
	vh.Assert(len(b) == 84+50*n, "the file has 50 bytes for each triangle")
	vh.Assert(int(binary.LittleEndian.Uint32(b[80:])) == n, "the file counts its triangles")
	for i, t := range m.Triangles {
		o := 84 + 50*i
		at := func(k int) primitives.Point {
			f := func(j int) float64 {
				return float64(math.Float32frombits(binary.LittleEndian.Uint32(b[o+12*k+4*j:])))
			}
			return primitives.Point{X: f(0), Y: f(1), Z: f(2)}
		}
		vh.Assert(vh.And(near(at(1), t.P1), near(at(2), t.P2), near(at(3), t.P3)), "the file holds the corners in order")
	}
}

// H_Long: meshes that take more than one buffer.
//vh:bounds meshes of 80 to 85 and 170 triangles, the last three with any corners
func H_Long() {
	n := []int{80, 81, 82, 83, 84, 85, 170}[vh.Choose("n", 7)]
	vh.SetCPU(1 + vh.Choose("cpu", 2)*3)
	m := mesh(3)
	var ts []primitives.Triangle
	for i := 0; i < n-3; i++ {
		x := float64(i)
		ts = append(ts, primitives.NewTriangle(primitives.Point{X: x}, primitives.Point{X: x + 1}, primitives.Point{X: x, Y: 1}))
	}
	m.Triangles = append(ts, m.Triangles...)
	p := vh.Dir() + "/m.stl"
	vh.Assert(primitives.SaveSTL(p, m) == nil, "saving reports no error")
	got, err := primitives.LoadSTL(p)
	vh.Assert(err == nil, "a saved mesh loads")
	corners(got, m.Triangles)
}

type record struct {
	N, V1, V2, V3 [3]float32
	Attr          uint16
}

func arr(p primitives.Point) [3]float32 { return [3]float32{float32(p.X), float32(p.Y), float32(p.Z)} }

// H_Binary: binary files of other programs.
//vh:bounds binary files of up to 3 triangles with any corners, any normals, any attribute bytes and 5 kinds of header
func H_Binary() {
	n := vh.Choose("n", 4)
	vh.SetCPU(1 + vh.Choose("cpu", 2))
	m := mesh(n)
	var b bytes.Buffer
	h := make([]byte, 80)
	copy(h, []string{"", "solid model", "COLOR=\xff\x00", "vertex 1 2 3\nvertex 1 2 3\nvertex 1 2 3\n", strings.Repeat(" ", 80)}[vh.Choose("header", 5)])
	b.Write(h)
	binary.Write(&b, binary.LittleEndian, uint32(n))
	attr := uint16(vh.Choose("attr", 2) * 65535)
	for _, t := range m.Triangles {
		r := record{V1: arr(t.P1), V2: arr(t.P2), V3: arr(t.P3), Attr: attr}
		r.N = [3]float32{float32(vh.F("n.x", -big, big)), 0, 1}
		binary.Write(&b, binary.LittleEndian, &r)
	}
	p := vh.Dir() + "/b.stl"
	ioutil.WriteFile(p, b.Bytes(), 0644)
	got, err := primitives.LoadSTL(p)
	vh.Assert(err == nil, "a binary file loads")
	corners(got, m.Triangles)
}

func spell(kind int, p primitives.Point) string {
	switch kind {
	case 0:
		return fmt.Sprintf("      vertex %v %v %v\n", p.X, p.Y, p.Z)
	case 1:
		return fmt.Sprintf("vertex %g %g %g\r\n", p.X, p.Y, p.Z)
	case 2:
		return fmt.Sprintf("\t\tvertex   %v  %v\t%v  \n", p.X, p.Y, p.Z)
	default:
		return fmt.Sprintf(" vertex\t%v\t%v\t%v\n", p.X, p.Y, p.Z)
	}
}

// H_Text: text files.
//vh:bounds text files of 1 to 3 triangles (5 thorough) with any corners within 1e6, 4 styles of spacing, 4 kinds of name, any normals
func H_Text() {
	max := 3
	if vh.Thorough() {
		max = 5
	}
	n := 1 + vh.Choose("n", max)
	m := mesh(n)
	kind := vh.Choose("style", 4)
	name := []string{"", "part", "vertex 1 2 3", strings.Repeat("long name ", 20)}[vh.Choose("name", 4)]
	end := "\n"
	if kind == 1 {
		end = "\r\n"
	}
	s := "solid " + name + end
	for _, t := range m.Triangles {
		s += fmt.Sprintf("  facet normal %v 0 1", vh.F("n.x", -big, big)) + end + "    outer loop" + end
		s += spell(kind, t.P1) + spell(kind, t.P2) + spell(kind, t.P3)
		s += "    endloop" + end + "  endfacet" + end
	}
	s += "endsolid " + name
	if kind != 3 {
		s += end
	}
	p := vh.Dir() + "/t.stl"
	ioutil.WriteFile(p, []byte(s), 0644)
	got, err := primitives.LoadSTL(p)
	vh.Assert(err == nil, "a text file loads")
	corners(got, m.Triangles)
}

// H_Agree: the text and the binary form of one mesh load alike.
//vh:bounds meshes of 1 to 3 triangles with any corners within 1e6
func H_Agree() {
	n := 1 + vh.Choose("n", 3)
	m := mesh(n)
	s := "solid a\n"
	for _, t := range m.Triangles {
		s += "facet normal 0 0 1\nouter loop\n" + spell(0, t.P1) + spell(0, t.P2) + spell(0, t.P3) + "endloop\nendfacet\n"
	}
	p, q := vh.Dir()+"/t.stl", vh.Dir()+"/b.stl"
	ioutil.WriteFile(p, []byte(s+"endsolid a\n"), 0644)
	vh.Assert(primitives.SaveSTL(q, m) == nil, "saving reports no error")
	a, e := primitives.LoadSTL(p)
	b, f := primitives.LoadSTL(q)
	vh.Assert(vh.And(e == nil, f == nil), "both forms load")
	vh.Assert(len(a.Triangles) == len(b.Triangles), "both forms give as many triangles")
	for i := range a.Triangles {
		vh.Assert(a.Triangles[i] == b.Triangles[i], "both forms give the same triangles")
	}
}

// H_Numbers: ways of writing a number in a text file.
//vh:bounds 11 ways of writing a number in each of the nine places of a facet
func H_Numbers() {
	w := []string{"1", "-1.5", "+2.25", "1e3", "-1.25E-2", ".5", "1.", "0", "-0.0", "123456.789e-3", "2.000000000000000000000000000000000000000"}[vh.Choose("number", 11)]
	v := []float64{1, -1.5, 2.25, 1000, -0.0125, 0.5, 1, 0, 0, 123.456789, 2}[vh.Choose("number", 11)]
	at := vh.Choose("place", 9)
	s := "solid numbers in a text file\nfacet normal 0 0 1\nouter loop\n"
	var want [9]float64
	for i := 0; i < 3; i++ {
		s += "vertex"
		for j := 0; j < 3; j++ {
			if 3*i+j == at {
				s += " " + w
				want[at] = v
			} else {
				s += fmt.Sprintf(" %d.5", 3*i+j)
				want[3*i+j] = float64(3*i+j) + 0.5
			}
		}
		s += "\n"
	}
	p := vh.Dir() + "/t.stl"
	ioutil.WriteFile(p, []byte(s+"endloop\nendfacet\nendsolid\n"), 0644)
	got, err := primitives.LoadSTL(p)
	vh.Assert(err == nil, "a text file loads")
	corners(got, []primitives.Triangle{{P1: primitives.Point{X: want[0], Y: want[1], Z: want[2]}, P2: primitives.Point{X: want[3], Y: want[4], Z: want[5]}, P3: primitives.Point{X: want[6], Y: want[7], Z: want[8]}}})
}

// H_Digits: text files with numbers as short as can be.
//vh:bounds text files of two triangles, one corner of them of any numbers of one to three characters and of 6 spellings, 2 styles of spacing
func H_Digits() {
	words := []string{"0", "7", "-1", "2.5", "1e3", "+4.25E-1"}
	vals := []float64{0, 7, -1, 2.5, 1000, 0.425}
	i, j, k := vh.Choose("x", 6), vh.Choose("y", 6), vh.Choose("z", 6)
	at := vh.Choose("corner", 6)
	ind := []string{"", "\t  "}[vh.Choose("indent", 2)]
	var ps []primitives.Point
	s := "solid\n"
	for c := 0; c < 6; c++ {
		if c%3 == 0 {
			s += ind + "facet normal 0 0 1\n" + ind + "outer loop\n"
		}
		p := primitives.Point{X: float64(c), Y: float64(c * c), Z: 1}
		w := fmt.Sprintf("%d %d 1", c, c*c)
		if c == at {
			p = primitives.Point{X: vals[i], Y: vals[j], Z: vals[k]}
			w = words[i] + " " + words[j] + " " + words[k]
		}
		s += ind + "vertex " + w + "\n"
		ps = append(ps, p)
		if c%3 == 2 {
			s += ind + "endloop\n" + ind + "endfacet\n"
		}
	}
	s += "endsolid\n"
	p := vh.Dir() + "/d.stl"
	ioutil.WriteFile(p, []byte(s), 0644)
	got, err := primitives.LoadSTL(p)
	vh.Assert(err == nil, "a text file loads")
	corners(got, []primitives.Triangle{primitives.NewTriangle(ps[0], ps[1], ps[2]), primitives.NewTriangle(ps[3], ps[4], ps[5])})
}
