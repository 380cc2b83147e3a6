package c18

import (
	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

const z0 = 2.5

func contour(xy ...float64) primitives.Path {
	var p primitives.Path
	for i := 0; i+1 < len(xy); i += 2 {
		p.Points = append(p.Points, primitives.Point{X: xy[i], Y: xy[i+1], Z: z0})
	}
	p.Points = append(p.Points, p.Points[0])
	return p
}

func settings(bottom, top int) slicers.Settings {
	return slicers.Settings{BottomLayers: bottom, TopLayers: top, GcodeSettings: &gcode.GcodeSettings{}}
}

// dirs are the directions of planes: their normals.
func normal(i int) hx.V {
	return []hx.V{{1, 0, 0}, {0, 1, 0}, {0.6, 0.8, 0}, {-0.28, 0.96, 0}, {-0.8, 0.6, 0}, {0.96, -0.28, 0}, {0, -1, 0}}[i]
}

// piece fills the contours with one plane at a distance d from the origin.
func piece(ps []primitives.Path, n hx.V, d float64) []primitives.Path {
	var keep [][]primitives.Point
	for _, p := range ps {
		keep = append(keep, append([]primitives.Point{}, p.Points...))
	}
	pl := primitives.Plane{P: n.Mul(d).Pt(), N: n.Vec()}
	ls := slicers.FillLayers([]primitives.Layer{{Norm: primitives.AxisZ, Paths: ps}}, []primitives.Plane{pl}, nil, settings(0, 0))
	vh.Assert(len(ls) == 1 && len(ls[0].Paths) == len(ps), "the contours are there")
	for i, p := range ls[0].Paths {
		vh.Assert(len(p.Points) == len(keep[i]), "contours are left unchanged")
		for j, pt := range p.Points {
			vh.Assert(vh.And(pt.X == keep[i][j].X, pt.Y == keep[i][j].Y, pt.Z == keep[i][j].Z), "contours are left unchanged")
		}
	}
	return ls[0].Fill
}

// judge compares the fill of a plane with what is inside: at the place with
// the coordinate s along the plane the answer is told by in (1 clearly inside,
// 2 clearly outside).
func judge(fill []primitives.Path, n hx.V, d float64, s float64, in, out bool) {
	t := hx.V{-n.Y, n.X, 0}
	covered := false
	for _, f := range fill {
		vh.Assert(len(f.Points) == 2, "a fill line has two ends")
		a, b := hx.P(f.Points[0]), hx.P(f.Points[1])
		vh.Assert(vh.And(vh.Near(a.Dot(n), d, 1e-6), vh.Near(b.Dot(n), d, 1e-6)), "fill lines are part of their filling plane")
		vh.Assert(vh.And(vh.Near(a.Z, z0, 1e-6), vh.Near(b.Z, z0, 1e-6)), "fill lines are in the layer")
		sa, sb := a.Dot(t), b.Dot(t)
		covered = vh.Or(covered, vh.And(sa <= s, s <= sb), vh.And(sb <= s, s <= sa))
	}
	vh.Assert(vh.Or(vh.Not(in), covered), "what is inside on the plane is filled")
	vh.Assert(vh.Or(vh.Not(out), vh.Not(covered)), "nothing is filled outside")
}

// at is the place with coordinate s on a plane.
func at(n hx.V, d, s float64) primitives.Point {
	return primitives.Point{X: n.X*d - n.Y*s, Y: n.Y*d + n.X*s, Z: z0}
}

// profile makes a contour of corners given by their heights over a plane and
// their places along it.
func profile(n hx.V, d float64, h, u []float64) primitives.Path {
	var p primitives.Path
	for i := range h {
		p.Points = append(p.Points, at(n, d+h[i], u[i]))
	}
	p.Points = append(p.Points, p.Points[0])
	return p
}

// H_Triangle: a triangle of any shape at a plane.
//
//vh:bounds every triangle with corners 2 under, on, 1 or 3 over the plane (and one corner at any height in between) at any places, walked either way around and from any corner, a plane in one direction at two places (seven directions thorough), every place on the plane
func H_Triangle() {
	n, d := normal(0), 0.0
	if vh.Thorough() {
		n = normal(vh.Choose("direction", 7))
	}
	if vh.Choose("place", 2) == 1 {
		d = -3
	}
	h := make([]float64, 3)
	for i := 1; i < 3; i++ {
		h[i] = []float64{-2, 0, 1, 3}[vh.Choose("height"+string(rune(48+i)), 4)]
	}
	h[0] = []float64{-2, 0, 1, 3, 0.5, -1}[vh.Choose("height0", 6)]
	u := []float64{vh.F("u0", -9, 9), vh.F("u1", -9, 9), vh.F("u2", -9, 9)}
	s := vh.F("s", -10, 10)
	// at the height of the plane
	left := func(i, j int) float64 { return (u[j]-u[i])*h[i] + (h[j]-h[i])*(s-u[i]) }
	area := (h[1]-h[0])*(u[2]-u[0]) - (u[1]-u[0])*(h[2]-h[0])
	vh.Assume(area > 0.01)
	a, b, c := left(0, 1), left(1, 2), left(2, 0)
	in := vh.And(a > 1e-4, b > 1e-4, c > 1e-4)
	out := vh.Or(a < -1e-4, b < -1e-4, c < -1e-4)
	w := profile(n, d, h, u)
	if vh.Choose("turn", 2) == 1 {
		w = w.Reverse()
	}
	judge(piece([]primitives.Path{w}, n, d), n, d, s, in, out)
}

// H_Comb: contours with notches, with corners on the plane.
//
//vh:bounds contours with a jagged side of 4 corners (5 thorough), each under, on or over the plane, at any places, walked either way around, a plane in two directions (seven thorough) at two places, every place on the plane
func H_Comb() {
	k, dir := 4, 0
	if vh.Thorough() {
		k, dir = 5, vh.Choose("direction", 7)
	} else {
		dir = []int{1, 2}[vh.Choose("direction", 2)]
	}
	n := normal(dir)
	d := []float64{0, 4}[vh.Choose("place", 2)]
	h, u := make([]float64, k), make([]float64, k)
	for i := range h {
		h[i] = []float64{-1, 0, 2}[vh.Choose("height"+string(rune(48+i)), 3)]
		u[i] = vh.F("u"+string(rune(48+i)), -9, 9)
		if i > 0 {
			vh.Assume(u[i] > u[i-1]+0.01)
		}
	}
	s := vh.F("s", -10, 10)
	in, out := false, vh.Or(s < u[0]-1e-4, s > u[k-1]+1e-4)
	for i := 1; i < k; i++ {
		over := h[i-1]*(u[i]-u[i-1]) + (h[i]-h[i-1])*(s-u[i-1])
		between := vh.And(s >= u[i-1], s <= u[i])
		in = vh.Or(in, vh.And(s >= u[i-1]+1e-4, s <= u[i]-1e-4, over > 1e-4))
		out = vh.Or(out, vh.And(between, over < -1e-4))
	}
	h = append(h, -5, -5)
	u = append(u, u[k-1], u[0])
	w := profile(n, d, h, u)
	if vh.Choose("turn", 2) == 1 {
		w = w.Reverse()
	}
	judge(piece([]primitives.Path{w}, n, d), n, d, s, in, out)
}

// H_Hole: a contour with a hole, with planes through its corners, too.
//
//vh:bounds a quadrangle standing on a corner or a side with a hole of such a shape at any place in it, of any sizes, a plane at any place in four directions (seven thorough), every place on the plane
func H_Hole() {
	k := 4
	if vh.Thorough() {
		k = 7
	}
	n := normal(vh.Choose("direction", k))
	shape := func(kind int, x, y, r float64) primitives.Path {
		if kind == 0 {
			return contour(x-r, y-r, x+r, y-r, x+r, y+r, x-r, y+r)
		}
		return contour(x, y-r, x+r, y, x, y+r, x-r, y)
	}
	ko, ki := vh.Choose("outer", 2), vh.Choose("inner", 2)
	r := vh.F("r", 4, 9)
	x, y, h := vh.F("x", -1, 1), vh.F("y", -1, 1), vh.F("h", 0.125, 0.9)
	o, i := shape(ko, 0, 0, r), shape(ki, x, y, h)
	d, s := vh.F("d", -9, 9), vh.F("s", -13, 13)
	q := at(n, d, s)
	place := func(kind int, x, y, r float64) (in, out bool) {
		if kind == 0 {
			return vh.And(q.X > x-r+1e-5, q.X < x+r-1e-5, q.Y > y-r+1e-5, q.Y < y+r-1e-5), vh.Or(q.X < x-r-1e-5, q.X > x+r+1e-5, q.Y < y-r-1e-5, q.Y > y+r+1e-5)
		}
		a, b := q.X-x, q.Y-y
		return vh.And(a+b < r-1e-5, a-b < r-1e-5, b-a < r-1e-5, -a-b < r-1e-5), vh.Or(a+b > r+1e-5, a-b > r+1e-5, b-a > r+1e-5, -a-b > r+1e-5)
	}
	oi, oo := place(ko, 0, 0, r)
	ii, io := place(ki, x, y, h)
	ps := []primitives.Path{o, i.Reverse()}
	if vh.Choose("order", 2) == 1 {
		ps[0], ps[1] = ps[1], ps[0]
	}
	judge(piece(ps, n, d), n, d, s, vh.And(oi, io), vh.Or(oo, ii))
}

// H_Layers: which layers are filled solidly.
//
//vh:bounds up to 5 layers, any numbers of bottom and top layers from 0 to 7, filling planes told apart by their places; walls inside or not
func H_Layers() {
	k := vh.Choose("layers", 6)
	bottom, top := vh.I("bottom", 0, 7), vh.I("top", 0, 7)
	walls := vh.Choose("walls", 2) == 1
	var ls []primitives.Layer
	for i := 0; i < k; i++ {
		r := float64(i) + 2
		out, in := contour(-r, -r, r, -r, r, r, -r, r), contour(1-r, 1-r, r-1, 1-r, r-1, r-1, 1-r, r-1)
		l := primitives.Layer{Order: i, Norm: primitives.AxisZ, Paths: []primitives.Path{out}}
		if walls {
			l.MiddlePs = []primitives.Path{contour(-r, 0, 0, -r, r, 0, 0, r)}
			l.InnerPs = []primitives.Path{in}
		}
		ls = append(ls, l)
	}
	pl := func(x float64) primitives.Plane {
		return primitives.Plane{P: primitives.Point{X: x}, N: primitives.AxisX}
	}
	sp := []primitives.Plane{pl(0.25)}
	so := []primitives.Plane{pl(0.5), pl(-0.75)}
	res := slicers.FillLayers(ls, sp, so, settings(bottom, top))
	vh.Assert(len(res) == k, "all layers are there")
	for i, l := range res {
		r := float64(i) + 2
		solid := vh.Split(vh.Or(i < bottom, i >= k-top))
		want := sp
		if solid {
			want = so
		}
		half := r
		if walls {
			half = r - 1
		}
		vh.Assert(len(l.Fill) == len(want), "the lines are of the pattern of the layer")
		found := make([]bool, len(want))
		for _, f := range l.Fill {
			vh.Assert(len(f.Points) == 2, "a fill line has two ends")
			for j, w := range want {
				if f.Points[0].X == w.P.X && f.Points[1].X == w.P.X {
					found[j] = true
				}
			}
			a, b := f.Points[0].Y, f.Points[1].Y
			if a > b {
				a, b = b, a
			}
			vh.Assert(vh.And(vh.Near(a, -half, 1e-6), vh.Near(b, half, 1e-6)), "the lines reach from wall to wall")
		}
		for _, x := range found {
			vh.Assert(x, "the lines are of the pattern of the layer")
		}
		vh.Assert(l.Order == i && len(l.Paths) == 1 && len(l.Paths[0].Points) == 5 && l.Paths[0].Points[0].X == -r, "contours are left unchanged")
		if walls {
			vh.Assert(len(l.MiddlePs) == 1 && len(l.MiddlePs[0].Points) == 5 && l.MiddlePs[0].Points[2].X == r && len(l.InnerPs) == 1 && len(l.InnerPs[0].Points) == 5 && l.InnerPs[0].Points[0].X == 1-r, "contours are left unchanged")
		} else {
			vh.Assert(len(l.MiddlePs) == 0 && len(l.InnerPs) == 0, "contours are left unchanged")
		}
	}
}

// H_Order: ordering the lines keeps each once.
//
//vh:bounds one to three rectangles (four thorough) of any places and sizes side by side, cut by one or two planes at any places: up to 4 lines (6 thorough)
func H_Order() {
	nc := 1 + vh.Choose("contours", 3)
	np := 1 + vh.Choose("planes", 2)
	if nc == 3 && np == 2 && !vh.Thorough() {
		return
	}
	var ps []primitives.Path
	var lo, hi []float64
	y := -20.0
	for i := 0; i < nc; i++ {
		a := y + vh.F("gap"+string(rune(48+i)), 0.5, 900)
		b := a + vh.F("size"+string(rune(48+i)), 0.5, 9)
		lo, hi = append(lo, a), append(hi, b)
		ps = append(ps, contour(-5, a, 5, a, 5, b, -5, b))
		y = b
	}
	var pls []primitives.Plane
	var xs []float64
	for i := 0; i < np; i++ {
		x := vh.F("x"+string(rune(48+i)), -4, 4)
		if i > 0 {
			vh.Assume(vh.Or(x > xs[i-1]+0.125, x < xs[i-1]-0.125))
		}
		xs = append(xs, x)
		pls = append(pls, primitives.Plane{P: primitives.Point{X: x, Y: 1}, N: primitives.AxisX})
	}
	n := 0
	if vh.Choose("solid", 2) == 1 {
		n = 1
	}
	var ls []primitives.Layer
	if n == 1 {
		ls = slicers.FillLayers([]primitives.Layer{{Norm: primitives.AxisZ, Paths: ps}}, nil, pls, settings(n, 0))
	} else {
		ls = slicers.FillLayers([]primitives.Layer{{Norm: primitives.AxisZ, Paths: ps}}, pls, nil, settings(n, 0))
	}
	fill := ls[0].Fill
	vh.Assert(len(fill) == nc*np, "ordering keeps each line once")
	for i := range xs {
		for j := range lo {
			c := 0
			for _, f := range fill {
				vh.Assert(len(f.Points) == 2, "a fill line has two ends")
				p, q := f.Points[0], f.Points[1]
				on := vh.And(vh.Near(p.X, xs[i], 1e-6), vh.Near(q.X, xs[i], 1e-6))
				fw := vh.And(vh.Near(p.Y, lo[j], 1e-6), vh.Near(q.Y, hi[j], 1e-6))
				bw := vh.And(vh.Near(q.Y, lo[j], 1e-6), vh.Near(p.Y, hi[j], 1e-6))
				c += vh.IteI(vh.And(on, vh.Or(fw, bw)), 1, 0)
			}
			vh.Assert(c == 1, "ordering keeps each line once")
		}
	}
}
