package c12

import (
	"io/ioutil"
	"strings"

	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

var names = []string{"a", "b", "c", "d", "e", "f"}

// mesh has n triangles, the first few of which have any corners.
func mesh(n int) *primitives.Mesh {
	var ts []primitives.Triangle
	for i := 0; i < n; i++ {
		if i < 3 {
			ts = append(ts, primitives.NewTriangle(hx.Pt(names[i]+"1", 100), hx.Pt(names[i]+"2", 100), hx.Pt(names[i]+"3", 100)))
			continue
		}
		x := float64(i)
		ts = append(ts, primitives.NewTriangle(primitives.Point{X: x}, primitives.Point{X: x + 1}, primitives.Point{X: x, Y: 1}))
	}
	m := primitives.NewMesh(ts)
	return &m
}

func saving(n int) {
	m := mesh(n)
	size := 84 + 50*n
	room := vh.I("room", -1, size+5000)
	p := vh.Dir() + "/saved.stl"
	if vh.B("old") {
		ioutil.WriteFile(p, []byte(strings.Repeat("old ", 100)), 0644)
	}
	vh.FailWritesAfter(room)
	err := primitives.SaveSTL(p, m)
	vh.FailWritesAfter(-1)
	if vh.Split(vh.And(room >= 0, room < size)) {
		vh.Cover("write fails")
		vh.Assert(err != nil, "a write that fails is reported")
		return
	}
	vh.Assert(err == nil, "no error is made up")
	vh.Assert(vh.FileSize(p) == size, "a saving that reports no error has written the complete file")
	got, err := primitives.LoadSTL(p)
	vh.Assert(err == nil, "a file saved without error loads")
	vh.Assert(len(got.Triangles) == n, "a file saved without error holds every triangle")
}

// H_Save: a write fails at any place, or nowhere.
//vh:bounds meshes of up to 3 triangles with any corners; writes fail from any byte on; over an old file or none
func H_Save() { saving(vh.Choose("n", 4)) }

// H_SaveLong: the same for meshes that take several writes.
//vh:bounds meshes of 80, 81, 82, 83, 100 and 170 triangles, the first three with any corners; writes fail from any byte on
func H_SaveLong() {
	saving([]int{80, 81, 82, 83, 100, 170}[vh.Choose("n", 6)])
}

// T_SaveLong: the same for longer meshes.
//vh:bounds meshes of 160 to 170 and 243 to 250 triangles, the first three with any corners; writes fail from any byte on
func T_SaveLong() {
	k := vh.Choose("n", 19)
	n := 160 + k
	if k > 10 {
		n = 243 + k - 11
	}
	saving(n)
}

// H_Missing: places that cannot be written to or read from.
func H_Missing() {
	vh.Assert(primitives.SaveSTL(vh.Dir()+"/missing/a.stl", mesh(vh.Choose("n", 3))) != nil, "saving in a missing folder is an error")
	m, err := primitives.LoadSTL(vh.Dir() + "/none.stl")
	vh.Assert(vh.And(err != nil, m == nil), "loading a missing file is an error")
}

func loads(p string) {
	m, err := primitives.LoadSTL(p)
	vh.Assert(vh.Or(err != nil, m != nil), "loading gives an error or a mesh")
	vh.Cover("returned")
}

// H_Truncated: binary files cut short at any place.
//vh:opt conc=300
//vh:bounds binary files of 0 to 2 triangles with two kinds of corners, cut at any byte
func H_Truncated() {
	n := vh.Choose("n", 3)
	p := vh.Dir() + "/cut.stl"
	x := []float64{0.5, 241.46469}[vh.Choose("x", 2)] // the second one begins with a v when stored
	m := primitives.NewMesh(nil)
	for i := 0; i < n; i++ {
		m.Triangles = append(m.Triangles, primitives.NewTriangle(primitives.Point{X: x}, primitives.Point{Y: x}, primitives.Point{Z: x}))
	}
	err := primitives.SaveSTL(p, &m)
	vh.Assert(err == nil, "saving reports no error")
	vh.Truncate(p, vh.I("cut", 0, 84+50*n))
	loads(p)
}

// H_Count: binary files whose count is wrong.
//vh:opt conc=300
//vh:bounds binary files of room for 0, 1 and 3 triangles and some odd bytes, any lowest byte of the count, the others of 3 kinds
func H_Count() {
	n := []int{0, 1, 3}[vh.Choose("n", 3)]
	b := make([]byte, 84+50*n+vh.Choose("odd", 2)*7)
	b[80] = byte(vh.I("count", 0, 255))
	hi := [][]byte{{0, 0, 0}, {255, 255, 255}, {0, 0, 128}}[vh.Choose("high", 3)]
	copy(b[81:], hi)
	p := vh.Dir() + "/count.stl"
	ioutil.WriteFile(p, b, 0644)
	loads(p)
}

var lines = []string{"vertex 1 2 3", "vertex 1 2", "vertex", "vertex 1.5e9999 0 0", "vertex a b c", "vertex 1 2 3 4",
	"vvvvvvvvvvvvvvv", "vertex1 2 3 4", "vertex     1", "vertex \t1\t2\t3", "v", "facet normal 0 0", "", "\x00\x01\xff"}

// H_Text: damaged text files.
//vh:bounds text files of 2 (3 thorough) lines, each of 14 kinds, with and without a line end, cut anywhere
func H_Text() {
	n := 2
	if vh.Thorough() {
		n = 3
	}
	s := []string{"", "solid thing\n", strings.Repeat("x", 90) + "\n"}[vh.Choose("head", 3)]
	for i := 0; i < n; i++ {
		s += lines[vh.Choose("line"+names[i], len(lines))] + "\n"
	}
	if vh.B("open") {
		s = s[:len(s)-1]
	}
	p := vh.Dir() + "/text.stl"
	ioutil.WriteFile(p, []byte(s), 0644)
	loads(p)
}

// H_Short: files of a few bytes.
//vh:bounds files of up to 4 (5 thorough) characters of 7 kinds
func H_Short() {
	max := 4
	if vh.Thorough() {
		max = 5
	}
	n := vh.Choose("n", max+1)
	b := make([]byte, n)
	for i := range b {
		b[i] = "v 1\n.\x00\xff"[vh.Choose("byte"+names[i], 7)]
	}
	p := vh.Dir() + "/short.stl"
	ioutil.WriteFile(p, b, 0644)
	loads(p)
}

// H_LongLine: lines longer than any buffer.
//vh:bounds text files with one line of 65000 to 66000 characters
func H_LongLine() {
	p := vh.Dir() + "/long.stl"
	ioutil.WriteFile(p, []byte("solid a\nvertex 1 2 3\n"+strings.Repeat([]string{"v", "v ", " "}[vh.Choose("kind", 3)], 33000*vh.I("times", 1, 2))+"\nvertex 1 2 3\n"), 0644)
	loads(p)
}
