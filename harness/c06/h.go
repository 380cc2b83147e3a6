package c06

import (
	"sync"

	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

var names = []string{"a", "b", "c", "d", "e", "f"}

func mesh(n int) *primitives.Mesh {
	var ts []primitives.Triangle
	for i := 0; i < n; i++ {
		ts = append(ts, primitives.NewTriangle(hx.Pt(names[i]+"1", 100), hx.Pt(names[i]+"2", 100), hx.Pt(names[i]+"3", 100)))
	}
	m := primitives.NewMesh(ts)
	return &m
}

// H_Copy: copying the triangles of a mesh.
//vh:bounds meshes of up to 4 triangles, 1 to 3 processors, every interleaving with up to 2 preemptions (3 thorough)
//vh:opt sched preempt=2 race
func H_Copy() {
	m := mesh(vh.Choose("n", 5))
	vh.SetCPU(1 + vh.Choose("cpu", 3))
	in := append([]primitives.Triangle{}, m.Triangles...)
	got := m.CopyTriangles()
	vh.Assert(len(got) == len(in), "every triangle is copied")
	for i := range in {
		vh.Assert(got[i] == in[i], "copies are equal to their originals and in order")
		got[i].P1.X++
		vh.Assert(m.Triangles[i] == in[i], "a copy is not the original")
	}
}

// H_Wait: sharing out work and waiting for it.
//vh:bounds 1 to 3 processors, every interleaving with up to 3 preemptions
//vh:opt sched preempt=3 race
func H_Wait() {
	n := 1 + vh.Choose("cpu", 3)
	vh.SetCPU(n)
	var mu sync.Mutex
	done := map[int]int{}
	own := make([]int, n)
	total := -1
	primitives.DoInParallelAndWait(func(wi, wn int) {
		mu.Lock()
		done[wi]++
		total = wn
		mu.Unlock()
		own[wi]++
	})
	vh.Assert(total >= 1 && len(done) == total, "every share of the work is done")
	for i := 0; i < total; i++ {
		vh.Assert(done[i] == 1 && own[i] == 1, "every share of the work is done once, before the waiting ends")
	}
}

// H_Start: sharing out work without waiting.
//vh:bounds 1 to 3 processors, every interleaving with up to 3 preemptions
//vh:opt sched preempt=3 race
func H_Start() {
	n := 1 + vh.Choose("cpu", 3)
	vh.SetCPU(n)
	out := make(chan [2]int)
	primitives.DoInParallel(func(wi, wn int) { out <- [2]int{wi, wn} })
	done := map[int]int{}
	first := <-out
	done[first[0]]++
	for i := 1; i < first[1]; i++ {
		x := <-out
		done[x[0]]++
		vh.Assert(x[1] == first[1], "all workers know the same number of workers")
	}
	for i := 0; i < first[1]; i++ {
		vh.Assert(done[i] == 1, "every share of the work is done once")
	}
}

// section stands for the section of a triangle, which C02 decides: it lies at
// the height of the plane and near the triangle.
func section(p primitives.Plane, t *primitives.Triangle) *primitives.Line {
	a, b, c := t.P1.Z-p.P.Z, t.P2.Z-p.P.Z, t.P3.Z-p.P.Z
	if vh.Split(vh.And(vh.Or(a < 0, b < 0, c < 0), vh.Or(a > 0, b > 0, c > 0))) {
		return &primitives.Line{P1: primitives.Point{X: t.P1.X, Y: t.P1.Y, Z: p.P.Z}, P2: primitives.Point{X: t.P3.X, Y: t.P3.Y, Z: p.P.Z}}
	}
	return nil
}

// join stands for the joining of contours, which C03 and C04 decide.
func join(ps []primitives.Path) []primitives.Path {
	return append([]primitives.Path{}, ps...)
}

// tall is a triangle near 100*i from one height to another.
func tall(i int, lo, hi float64) primitives.Triangle {
	x := 100 * float64(i)
	return primitives.NewTriangle(hx.V{x, vh.F(names[i], 0, 5), lo}.Pt(), hx.V{x + 7, 1, lo}.Pt(), hx.V{x, 9, hi}.Pt())
}

func slice(spans [][2]float64, n, cpu int) {
	vh.SetCPU(cpu)
	var ts []primitives.Triangle
	for i, s := range spans {
		ts = append(ts, tall(i, s[0], s[1]))
	}
	in := append([]primitives.Triangle{}, ts...)
	m := primitives.Mesh{Triangles: ts}
	got := slicers.SliceByVector(&m, primitives.AxisZ, slicers.Settings{LayerHeight: 1})
	vh.Assert(len(got) == n, "as many layers as in one thread")
	for l, la := range got {
		z := float64(l) + 0.5
		k := 0
		for i, s := range spans {
			if z < s[0] || z > s[1] {
				continue
			}
			k++
			c := 0
			for _, p := range la.Paths {
				if vh.Split(vh.And(p.Points[0].X > 100*float64(i)-1, p.Points[0].X < 100*float64(i)+8)) {
					c++
					vh.Assert(vh.Near(p.Points[0].Z, z, 1e-7), "the sections of a layer are at its height")
				}
			}
			vh.Assert(c == 1, "every section is in its layer exactly once")
		}
		vh.Assert(len(la.Paths) == k, "a layer has no other sections")
	}
	for i := range in {
		vh.Assert(m.Triangles[i] == in[i], "the mesh is left as it was")
	}
}

var spans = [][][2]float64{
	{{0, 1}},
	{{0, 2}, {0, 1}},
	{{0, 2}, {1, 3}},
	{{0, 3}, {1, 2}, {0, 1}},
	{{2, 4}, {0, 3}},
}
var counts = []int{1, 2, 3, 3, 4}

// H_Slice: slicing with several workers.
//vh:bounds meshes of up to 3 triangles, up to 3 layers, 1 to 3 processors, every interleaving with up to 1 preemption
//vh:opt sched preempt=1 race concint replace=primitives.Plane.IntersectTriangle:section replace=primitives.JoinPaths3AndMinimize:join
func H_Slice() {
	k := vh.Choose("mesh", 4)
	slice(spans[k], counts[k], 1+vh.Choose("cpu", 3))
}

// T_Slice: slicing with several workers.
//vh:bounds meshes of up to 3 triangles, up to 4 layers, 1 to 3 processors, every interleaving with up to 2 preemptions
//vh:opt sched preempt=2 race concint replace=primitives.Plane.IntersectTriangle:section replace=primitives.JoinPaths3AndMinimize:join
func T_Slice() {
	k := vh.Choose("mesh", 5)
	slice(spans[k], counts[k], 1+vh.Choose("cpu", 3))
}

// H_Real: slicing with several workers, with the real sections and joining.
//vh:bounds meshes of 1 and 2 triangles, 1 and 2 layers, 2 processors, every interleaving without preemption
//vh:opt sched preempt=0 race concint
func H_Real() {
	k := vh.Choose("mesh", 2)
	slice(spans[k], counts[k], 2)
}

// H_Load: loading a binary file with several workers.
//vh:bounds files of up to 4 triangles, 1 to 3 processors, every interleaving with up to 1 preemption
//vh:opt sched preempt=1 race
func H_Load() {
	n := vh.Choose("n", 5)
	vh.SetCPU(1 + vh.Choose("cpu", 3))
	m := mesh(n)
	p := vh.Dir() + "/m.stl"
	vh.Assert(primitives.SaveSTL(p, m) == nil, "saving reports no error")
	got, err := primitives.LoadSTL(p)
	vh.Assert(err == nil && len(got.Triangles) == n, "every triangle is loaded")
	s := func(a, b primitives.Point) bool {
		return vh.And(a.X == float64(float32(b.X)), a.Y == float64(float32(b.Y)), a.Z == float64(float32(b.Z)))
	}
	for i, t := range m.Triangles {
		g := got.Triangles[i]
		vh.Assert(vh.And(s(g.P1, t.P1), s(g.P2, t.P2), s(g.P3, t.P3)), "every triangle is loaded in its place")
	}
}
