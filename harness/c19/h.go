package c19

import (
	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

const eps = 0.005

// side is a line that bounds a contour: X*x + Y*y <= D, L is the length of (X, Y).
type side struct {
	x, y, l, d float64
}

// shape is a convex contour: its corners counterclockwise, its sides, and the
// distance from the sides at which nothing is left of it.
type shape struct {
	c     [][2]float64
	s     []side
	depth float64
}

func box(x0, y0, x1, y1 float64) []side {
	return []side{{-1, 0, 1, -x0}, {0, -1, 1, -y0}, {1, 0, 1, x1}, {0, 1, 1, y1}}
}

// frame lays contours out in space: the origin, two directions (with their
// lengths) and the norm.
type frame struct {
	o, u, v, n hx.V
	l          float64
}

var flat = frame{hx.V{0, 0, 0.3}, hx.V{1, 0, 0}, hx.V{0, 1, 0}, hx.V{0, 0, 1}, 1}

func (f frame) at(x, y float64) primitives.Point { return f.o.Add(f.u.Mul(x)).Add(f.v.Mul(y)).Pt() }

func (f frame) path(s shape, first int, ccw bool) primitives.Path {
	var p primitives.Path
	n := len(s.c)
	for i := 0; i <= n; i++ {
		k := (first + i) % n
		if !ccw {
			k = (first + n - i) % n
		}
		p.Points = append(p.Points, f.at(s.c[k][0], s.c[k][1]))
	}
	return p
}

// The lines of the contours have known directions: with them meeting points
// are linear in the corners.
var (
	cur  frame
	dirs [][3]float64 // normals in the frame with their lengths
)

func know(f frame, ss ...shape) {
	cur, dirs = f, nil
	for _, s := range ss {
		for _, k := range s.s {
			old := false
			for _, d := range dirs {
				old = old || d[0]*k.y == d[1]*k.x
			}
			if !old {
				dirs = append(dirs, [3]float64{k.x, k.y, k.l})
			}
		}
	}
}

// in tells coordinates in the frame, for places (o is the origin) or vectors.
func (f frame) in(p, o hx.V) (x, y float64) {
	w := p.Sub(o)
	return w.Dot(f.u) / f.l / f.l, w.Dot(f.v) / f.l / f.l
}

// specNormalize is Vector.Normalize for vectors along or across the sides.
func specNormalize(v primitives.Vector) primitives.Vector {
	x, y := cur.in(hx.W(v), hx.V{})
	for _, d := range dirs {
		for t := 0; t < 2; t++ {
			a, b := d[0], d[1]
			if t == 1 {
				a, b = -b, a
			}
			if vh.Zero(x*b - y*a) {
				k := x*a + y*b
				if vh.Split(k == 0) {
					return v
				}
				if vh.Split(k < 0) {
					a, b = -a, -b
				}
				return cur.u.Mul(a / d[2] / cur.l).Add(cur.v.Mul(b / d[2] / cur.l)).Vec()
			}
		}
	}
	vh.Assert(false, "specification: a vector of unknown direction")
	return v
}

// specMeet is Line.IntersectLine2 for lines along the sides.
func specMeet(l, m primitives.Line) *primitives.Point {
	ax, ay := cur.in(hx.P(l.P1), cur.o)
	bx, by := cur.in(hx.P(m.P1), cur.o)
	px, py := cur.in(hx.W(l.ToVector()), hx.V{})
	qx, qy := cur.in(hx.W(m.ToVector()), hx.V{})
	c := (px*qy - py*qx) * cur.l * cur.l
	if vh.Split(vh.And(c < 1e-6, c > -1e-6)) {
		return nil
	}
	for _, d := range dirs {
		for _, e := range dirs {
			if vh.Zero(d[0]*px+d[1]*py) && vh.Zero(e[0]*qx+e[1]*qy) {
				k := d[0]*e[1] - d[1]*e[0]
				if k == 0 {
					continue
				}
				s, t := d[0]*ax+d[1]*ay, e[0]*bx+e[1]*by
				p := cur.at((s*e[1]-t*d[1])/k, (t*d[0]-s*e[0])/k)
				return &p
			}
		}
	}
	vh.Assert(false, "specification: lines of unknown direction")
	return nil
}

// specCollinear is Line.IsCollinear without its tolerance.
func specCollinear(l, m primitives.Line) bool {
	return vh.Split(hx.W(l.ToVector()).Cross(hx.W(m.ToVector())).Dot(cur.n) == 0)
}

// runs checks that a path runs around at a distance off within the sides (or
// outside of them if it is negative).
func runs(f frame, p primitives.Path, s shape, off float64, what string) {
	n := len(p.Points)
	vh.Assert(n >= 4, what+" is a contour")
	vh.Assert(hx.P(p.Points[0]).Near(hx.P(p.Points[n-1]), 1e-5), what+" is closed")
	in, flat := true, true
	var on []bool
	used := make([]int, len(s.s))
	var at [][]bool
	for _, q := range p.Points {
		w := hx.P(q).Sub(f.o)
		x, y := w.Dot(f.u)/f.l/f.l, w.Dot(f.v)/f.l/f.l
		flat = vh.And(flat, vh.Near(w.Dot(f.n), 0, 1e-6))
		var a []bool
		for _, k := range s.s {
			m := (k.x*x+k.y*y-k.d)/k.l*f.l + off
			in = vh.And(in, m <= eps)
			a = append(a, vh.Near(m, 0, eps))
		}
		at = append(at, a)
	}
	for i := 1; i < n; i++ {
		any := false
		for k := range s.s {
			o := vh.And(at[i-1][k], at[i][k])
			any = vh.Or(any, o)
			// a short line is at several sides
			far := vh.Not(hx.P(p.Points[i-1]).Near(hx.P(p.Points[i]), 8*eps))
			used[k] += vh.IteI(vh.And(o, far), 1, 0)
		}
		on = append(on, any)
	}
	vh.Assert(flat, what+" is in the layer")
	vh.Assert(in, what+" keeps its distance from the contour")
	all := true
	for _, o := range on {
		all = vh.And(all, o)
	}
	vh.Assert(all, what+" runs parallel to the contour")
	once := true
	for _, u := range used {
		once = vh.And(once, u <= 1)
	}
	vh.Assert(once, what+" goes around once")
}

// walls prepares a layer with a contour and looks at its walls: count walls
// within the contour.
func walls(f frame, s shape, first int, w, thickness float64, count int) {
	know(f, s)
	c := f.path(s, first, false)
	l := primitives.Layer{Norm: f.n.Vec(), Paths: []primitives.Path{c}}
	set := slicers.Settings{WallThickness: thickness, GcodeSettings: &gcode.GcodeSettings{LineWidth: w}}
	ls := vip.PrepareLayers([]primitives.Layer{l}, set, nil, nil)
	vh.Assert(len(ls) == 1 && len(ls[0].Paths) == 1 && len(ls[0].Paths[0].Points) == len(s.c)+1, "the contour is the outer wall")
	r := ls[0]
	same := true
	for i, q := range r.Paths[0].Points {
		same = vh.And(same, hx.P(q).Near(hx.P(f.path(s, first, false).Points[i]), 1e-6))
	}
	vh.Assert(same, "the contour is the outer wall")
	got := append(append([]primitives.Path{}, r.MiddlePs...), r.InnerPs...)
	vh.Assert(len(got) <= count-1, "no more walls than asked for")
	if len(got) > 0 {
		vh.Assert(len(r.InnerPs) == 1, "the innermost wall bounds the infill")
	}
	for i := 1; i < count; i++ {
		off := w * float64(i)
		if i <= len(got) {
			vh.Assert(s.depth*f.l > off-eps, "no walls where there is no place")
			if vh.Split(s.depth*f.l > off+16*eps) {
				runs(f, got[i-1], s, off, "a wall")
			}
		} else {
			vh.Assert(s.depth*f.l < off+4*eps, "all walls that have a place are there")
		}
	}
}

func rect(x, y, a, b float64) shape {
	d := vh.Ite(a < b, a, b) / 2
	return shape{[][2]float64{{x, y}, {x + a, y}, {x + a, y + b}, {x, y + b}}, box(x, y, x+a, y+b), d}
}

// H_Count: how many walls there are.
//
//vh:bounds rectangles of 10 by 8 with walls of 0.1 to 3.2 in lines of 0.4, 0.3 and 0.1 (1 to 12 walls)
func H_Count() {
	k := vh.Choose("case", 16)
	t := []float64{0.4, 0.8, 1.2, 1.6, 2, 2.4, 1, 3.2, 0.3, 0.6, 0.9, 1.5, 0.1, 0.3, 0.7, 1.2}[k]
	w := []float64{0.4, 0.4, 0.4, 0.4, 0.4, 0.4, 0.4, 0.4, 0.3, 0.3, 0.3, 0.3, 0.1, 0.1, 0.1, 0.1}[k]
	n := []int{1, 2, 3, 4, 5, 6, 2, 8, 1, 2, 3, 5, 1, 3, 7, 12}[k]
	s := rect(-5, -3, 10, 8)
	walls(flat, s, 0, w, t, n)
	// what the infill is bound by
	l := primitives.Layer{Norm: flat.n.Vec(), Paths: []primitives.Path{flat.path(s, 0, false)}}
	set := slicers.Settings{WallThickness: t, GcodeSettings: &gcode.GcodeSettings{LineWidth: w}}
	ls := vip.PrepareLayers([]primitives.Layer{l}, set, []primitives.Plane{{P: primitives.Point{X: 1}, N: primitives.AxisX}}, nil)
	vh.Assert(len(ls[0].Fill) == 1 && len(ls[0].Fill[0].Points) == 2, "the infill is there")
	a, b := ls[0].Fill[0].Points[0].Y, ls[0].Fill[0].Points[1].Y
	if a > b {
		a, b = b, a
	}
	off := w * float64(n-1)
	vh.Assert(vh.And(vh.Near(a, -3+off, 1e-3), vh.Near(b, 5-off, 1e-3)), "the innermost wall bounds the infill")
}

// H_Rect: walls of a rectangle.
//
//vh:bounds rectangles of any sizes from 0.1 to 20 at any place, from any corner, 2 to 4 walls (6 thorough) of 0.4 or 1.25
//vh:opt replace=primitives.Line.IntersectLine2:specMeet replace=primitives.Vector.Normalize:specNormalize replace=primitives.Line.IsCollinear:specCollinear
func H_Rect() {
	n := 2 + vh.Choose("walls", 3)
	if vh.Thorough() {
		n = 2 + vh.Choose("more", 5)
	}
	w := []float64{0.4, 1.25}[vh.Choose("width", 2)]
	s := rect(vh.F("x", -10, 10), vh.F("y", -10, 10), vh.F("a", 0.1, 20), vh.F("b", 0.1, 20))
	walls(flat, s, vh.Choose("first", 4), w, w*(float64(n)+0.5), n)
}

// H_Several: layers of several contours: each has its walls.
//
//vh:bounds one or two layers of one to three rectangles side by side, of any sizes from 4 to 20, 2 to 4 walls of 0.4
//vh:opt replace=primitives.Line.IntersectLine2:specMeet replace=primitives.Vector.Normalize:specNormalize replace=primitives.Line.IsCollinear:specCollinear
func H_Several() {
	n := 2 + vh.Choose("walls", 3)
	num := []int{1 + vh.Choose("contours", 3), 2 * vh.Choose("second", 2)}
	var ls []primitives.Layer
	var ss [][]shape
	var all []shape
	for k, m := range num {
		if m == 0 {
			continue
		}
		l := primitives.Layer{Norm: flat.n.Vec()}
		var sh []shape
		for i := 0; i < m; i++ {
			id := string(rune(97+k)) + string(rune(48+i))
			s := rect(float64(30*i)-40, vh.F("y"+id, -10, 10), vh.F("a"+id, 4, 20), vh.F("b"+id, 4, 20))
			sh, all = append(sh, s), append(all, s)
			l.Paths = append(l.Paths, flat.path(s, i, false))
		}
		ls, ss = append(ls, l), append(ss, sh)
	}
	know(flat, all...)
	set := slicers.Settings{WallThickness: 0.4 * float64(n), GcodeSettings: &gcode.GcodeSettings{LineWidth: 0.4}}
	ls = vip.PrepareLayers(ls, set, nil, nil)
	vh.Assert(len(ls) == len(ss), "no layer is lost")
	near := func(ps []primitives.Path, x float64) (r []primitives.Path) {
		for _, p := range ps {
			if vh.Split(vh.And(p.Points[0].X > x-1, p.Points[0].X < x+21)) {
				r = append(r, p)
			}
		}
		return
	}
	for k, sh := range ss {
		l := ls[k]
		vh.Assert(len(l.Paths) == len(sh), "the contours are the outer walls")
		vh.Assert(len(l.InnerPs) == len(sh), "each contour has one innermost wall")
		vh.Assert(len(l.MiddlePs) == (n-2)*len(sh), "each contour has all of its walls")
		for i, s := range sh {
			x := float64(30*i) - 40
			inner, middle := near(l.InnerPs, x), near(l.MiddlePs, x)
			vh.Assert(len(inner) == 1, "each contour has one innermost wall")
			vh.Assert(len(middle) == n-2, "each contour has all of its walls")
			runs(flat, inner[0], s, 0.4*float64(n-1), "the innermost wall")
			for j, p := range middle {
				runs(flat, p, s, 0.4*float64(j+1), "a wall")
			}
		}
	}
}

// H_Cut: walls of a rectangle with a corner cut off: its side can vanish.
//
//vh:bounds rectangles of any sizes from 2 to 20, with a corner of any size cut off, from each of three corners, 2 or 3 walls (4 thorough) of 0.4 or 1.25
//vh:opt replace=primitives.Line.IntersectLine2:specMeet replace=primitives.Vector.Normalize:specNormalize replace=primitives.Line.IsCollinear:specCollinear
func H_Cut() {
	n := 2 + vh.Choose("walls", 2)
	if vh.Thorough() {
		n = 2 + vh.Choose("more", 3)
	}
	w := []float64{0.4, 1.25}[vh.Choose("width", 2)]
	x, y, a, b := 0.5, -1.0, vh.F("a", 2, 20), vh.F("b", 2, 20)
	c := vh.F("c", 0.05, 4)
	vh.Assume(vh.And(3*c < a-0.05, 4*c < b-0.05))
	s := rect(x, y, a, b)
	s.c = [][2]float64{{x, y}, {x + a, y}, {x + a, y + b - 4*c}, {x + a - 3*c, y + b}, {x, y + b}}
	s.s = append(s.s, side{4, 3, 5, 4*(x+a) + 3*(y+b-4*c)})
	// from the corner opposite of the cut
	d := (4*a + 3*b - 12*c) / 12
	s.depth = vh.Ite(d < s.depth, d, s.depth)
	walls(flat, s, vh.Choose("first", 3), w, w*(float64(n)+0.5), n)
}

// H_Triangle: walls of triangles, acute ones, too.
//
//vh:bounds right and isosceles triangles with angles down to 13 degrees, of any sizes from 0.5 to 20, 2 or 3 walls (up to 5 thorough) of 0.4 or 1.25
//vh:opt replace=primitives.Line.IntersectLine2:specMeet replace=primitives.Vector.Normalize:specNormalize replace=primitives.Line.IsCollinear:specCollinear
func H_Triangle() {
	n := 2 + vh.Choose("walls", 2)
	if vh.Thorough() {
		n = 2 + vh.Choose("more", 4)
	}
	w := []float64{0.4, 1.25}[vh.Choose("width", 2)]
	walls(flat, triangle(), vh.Choose("first", 3), w, w*(float64(n)+0.5), n)
}

func triangle() shape {
	k := vh.F("k", 0.125, 5)
	x, y := vh.F("x", -10, 10), vh.F("y", -10, 10)
	switch i := vh.Choose("kind", 5); i {
	case 0:
		return shape{[][2]float64{{x, y}, {x + 4*k, y}, {x, y + 3*k}}, []side{{-1, 0, 1, -x}, {0, -1, 1, -y}, {3, 4, 5, 3*x + 4*y + 12*k}}, k}
	default:
		p := []float64{0, 3, 7, 9, 20}[i]
		q := []float64{0, 4, 24, 40, 99}[i]
		r := []float64{0, 5, 25, 41, 101}[i]
		k /= p // half the base is k long
		k = k * 2
		h := q * k
		return shape{[][2]float64{{x - p*k, y}, {x + p*k, y}, {x, y + h}}, []side{{0, -1, 1, -y}, {q, p, r, q*x + p*y + q*p*k}, {-q, p, r, -q*x + p*y + q*p*k}}, p * q * k / (p + r)}
	}
}

// H_Kite: walls of a rhombus and of a hexagon.
//
//vh:bounds a rhombus, and one with two corners cut off, of any sizes, 2 or 3 walls of 0.4 or 1.25
//vh:opt replace=primitives.Line.IntersectLine2:specMeet replace=primitives.Vector.Normalize:specNormalize replace=primitives.Line.IsCollinear:specCollinear
func H_Kite() {
	n := 2 + vh.Choose("walls", 2)
	w := []float64{0.4, 1.25}[vh.Choose("width", 2)]
	k := vh.F("k", 0.25, 4)
	s := shape{[][2]float64{{4 * k, 0}, {0, 3 * k}, {-4 * k, 0}, {0, -3 * k}}, []side{{3, 4, 5, 12 * k}, {-3, 4, 5, 12 * k}, {-3, -4, 5, 12 * k}, {3, -4, 5, 12 * k}}, 2.4 * k}
	if vh.Choose("cut", 2) == 1 {
		// at x = 4k-4c and at x = 4c-4k
		c := vh.F("c", 0.05, 3.5)
		vh.Assume(c < k-0.05)
		a, b := 4*(k-c), 3*c
		s.c = [][2]float64{{a, -b}, {a, b}, {0, 3 * k}, {-a, b}, {-a, -b}, {0, -3 * k}}
		s.s = append(s.s, side{1, 0, 1, a}, side{-1, 0, 1, a})
		s.depth = vh.Ite(a < s.depth, a, s.depth)
	}
	walls(flat, s, vh.Choose("first", 2), w, w*(float64(n)+0.5), n)
}

// H_Tilted: walls of layers that are not horizontal.
//
//vh:bounds rectangles and rhombs of any sizes (that do not end in a point exactly) in four planes of space, 2 or 3 walls of 0.4
//vh:opt replace=primitives.Line.IntersectLine2:specMeet replace=primitives.Vector.Normalize:specNormalize replace=primitives.Line.IsCollinear:specCollinear
func H_Tilted() {
	n := 2 + vh.Choose("walls", 2)
	f := []frame{
		{hx.V{1, 2, 3}, hx.V{0, 1, 0}, hx.V{0, 0, 1}, hx.V{1, 0, 0}, 1},
		{hx.V{1, 2, 3}, hx.V{1, 0, 0}, hx.V{0, 0, 1}, hx.V{0, -1, 0}, 1},
		{hx.V{-2, 0, 1}, hx.V{1, 2, 2}, hx.V{2, 1, -2}, hx.V{-2, 2, -1}, 3},
		{hx.V{0, 0, 0}, hx.V{1, 0, 0}, hx.V{0, 0.5, 0.8660254037844386}, hx.V{0, -0.8660254037844386, 0.5}, 1},
	}[vh.Choose("plane", 4)]
	w := 0.4
	var s shape
	if vh.Choose("kind", 2) == 0 {
		s = rect(-1, 0.5, vh.F("a", 0.125, 20), vh.F("b", 0.125, 20))
	} else {
		k := vh.F("k", 0.125, 4)
		s = shape{[][2]float64{{4 * k, 0}, {0, 3 * k}, {-4 * k, 0}, {0, -3 * k}}, []side{{3, 4, 5, 12 * k}, {-3, 4, 5, 12 * k}, {-3, -4, 5, 12 * k}, {3, -4, 5, 12 * k}}, 2.4 * k}
	}
	for i := 1; i < n; i++ {
		vh.Assume(vh.Not(vh.Near(s.depth*f.l, w*float64(i), 1e-6)))
	}
	walls(f, s, 0, w, w*(float64(n)+0.5), n)
}

// H_Skirt: lines around the contours of the first layer.
//
//vh:bounds one or two rectangles, cut rectangles or triangles with corners down to 23 degrees of any sizes, 0 to 2 skirt lines (4 thorough) of 0.4 or 1.25
//vh:opt replace=primitives.Line.IntersectLine2:specMeet replace=primitives.Vector.Normalize:specNormalize replace=primitives.Line.IsCollinear:specCollinear
func H_Skirt() {
	n := vh.Choose("lines", 3)
	if vh.Thorough() {
		n = vh.Choose("more", 5)
	}
	w := []float64{0.4, 1.25}[vh.Choose("width", 2)]
	var s shape
	switch vh.Choose("what", 3) {
	case 0:
		s = rect(vh.F("x", -10, 10), vh.F("y", -10, 10), vh.F("a", 0.1, 20), vh.F("b", 0.1, 20))
	case 1:
		x, y, a, b := 0.5, vh.F("y", -10, 10), vh.F("a", 2, 20), vh.F("b", 2, 20)
		c := vh.F("c", 0.05, 4)
		vh.Assume(vh.And(3*c < a-0.05, 4*c < b-0.05))
		s = rect(x, y, a, b)
		s.c = [][2]float64{{x, y}, {x + a, y}, {x + a, y + b - 4*c}, {x + a - 3*c, y + b}, {x, y + b}}
		s.s = append(s.s, side{4, 3, 5, 4*(x+a) + 3*(y+b-4*c)})
	default:
		s = triangle()
	}
	ss := []shape{s}
	if vh.Choose("two", 2) == 1 {
		ss = append(ss, rect(50, 60, 7, 3))
	}
	var first primitives.Layer
	first.Norm, first.Order = primitives.AxisZ, 3
	for _, s := range ss {
		first.Paths = append(first.Paths, flat.path(s, 0, false))
	}
	first.Fill = []primitives.Path{{Points: []primitives.Point{{X: 1}, {X: 2}}}}
	know(flat, ss...)
	r := vip.SkirtPathes(first, n, w)
	vh.Assert(len(r.Paths) == len(ss)*(n+1), "all skirt lines and contours are there")
	vh.Assert(r.Order == 3 && len(r.Fill) == 1 && len(r.MiddlePs) == 0 && len(r.InnerPs) == 0, "the rest of the layer is left as it is")
	for i, s := range ss {
		for j := 0; j < n; j++ {
			runs(flat, r.Paths[i*(n+1)+j], s, -w*float64(n-j), "a skirt line")
		}
		same := true
		p := r.Paths[i*(n+1)+n]
		vh.Assert(len(p.Points) == len(s.c)+1, "the contour follows its skirt")
		for k, q := range flat.path(s, 0, false).Points {
			same = vh.And(same, hx.P(q).Near(hx.P(p.Points[k]), 1e-6))
		}
		vh.Assert(same, "the contour follows its skirt")
	}
}

// H_Hole: the walls of a hole stand around it.
//
//vh:bounds rectangular and rhombic holes of any sizes, 2 or 3 walls of 0.4 or 1.25
//vh:opt replace=primitives.Line.IntersectLine2:specMeet replace=primitives.Vector.Normalize:specNormalize replace=primitives.Line.IsCollinear:specCollinear
func H_Hole() {
	n := 2 + vh.Choose("walls", 2)
	w := []float64{0.4, 1.25}[vh.Choose("width", 2)]
	var s shape
	if vh.Choose("kind", 2) == 0 {
		s = rect(vh.F("x", -10, 10), vh.F("y", -10, 10), vh.F("a", 0.1, 20), vh.F("b", 0.1, 20))
	} else {
		k := vh.F("k", 0.25, 4)
		s = shape{[][2]float64{{4 * k, 0}, {0, 3 * k}, {-4 * k, 0}, {0, -3 * k}}, []side{{3, 4, 5, 12 * k}, {-3, 4, 5, 12 * k}, {-3, -4, 5, 12 * k}, {3, -4, 5, 12 * k}}, 2.4 * k}
	}
	know(flat, s)
	l := primitives.Layer{Norm: primitives.AxisZ, Paths: []primitives.Path{flat.path(s, 0, true)}}
	set := slicers.Settings{WallThickness: w * (float64(n) + 0.25), GcodeSettings: &gcode.GcodeSettings{LineWidth: w}}
	r := vip.PrepareLayers([]primitives.Layer{l}, set, nil, nil)
	got := append(append([]primitives.Path{}, r[0].MiddlePs...), r[0].InnerPs...)
	vh.Assert(len(got) == n-1 && len(r[0].InnerPs) == 1, "all walls are there")
	for i := range got {
		runs(flat, got[i], s, -w*float64(i+1), "a wall of a hole")
	}
}

// H_Line: the meeting point of two lines (the specification of the other harnesses).
//
//vh:bounds lines of any lengths from 0.01 to 20 in planes of space, that meet at an angle of 45, 53, 90, 127 or 5 degrees at any place within twenty lengths, ones of fixed lengths that pass each other at three distances, and parallel ones
func H_Line() {
	f := []frame{
		flat,
		{hx.V{1, 2, 3}, hx.V{0, 1, 0}, hx.V{0, 0, 1}, hx.V{1, 0, 0}, 1},
		{hx.V{-2, 0, 1}, hx.V{1, 2, 2}, hx.V{2, 1, -2}, hx.V{-2, 2, -1}, 3},
	}[vh.Choose("plane", 3)]
	d := [][2]float64{{0, 1}, {3, 4}, {1, 1}, {-3, 4}, {-4, -3}, {12, 1}, {1, 0}}[vh.Choose("direction", 7)]
	p, l := vh.F("p", 0.01, 20), vh.F("l", 0.01, 20)
	k, s := vh.F("k", -20, 20), vh.F("s", -20, 20)
	off := 0.0
	if vh.Choose("skew", 2) == 1 {
		// lines that pass each other
		off, p, l = []float64{0.01, 0.5, 20}[vh.Choose("off", 3)], 2, 3
	}
	m := f.at(k*p, 0)
	up := f.n.Mul(off)
	// the second begins s lengths before the meeting point
	a := primitives.Line{P1: f.at(0, 0), P2: f.at(p, 0)}
	b := primitives.Line{P1: hx.P(f.at(k*p-s*l*d[0], -s*l*d[1])).Add(up).Pt(), P2: hx.P(f.at(k*p+(1-s)*l*d[0], (1-s)*l*d[1])).Add(up).Pt()}
	if d[1] == 0 && off == 0 {
		b.P1 = f.at(k*p, s)
		b.P2 = f.at(k*p+l, s)
	}
	q := a.IntersectLine2(b)
	if d[1] == 0 || off > 0 {
		vh.Assert(q == nil, "lines that do not meet have no meeting point")
		return
	}
	vh.Assert(q != nil, "lines that meet have a meeting point")
	if q != nil {
		vh.Assert(hx.P(*q).Near(hx.P(m), 1e-5), "the meeting point is where the lines meet")
	}
}

// K_Sharp: a skirt around a corner that is sharper than 11 degrees.
//
//vh:bounds an isosceles triangle with an angle of 7.6 degrees, one skirt line of 0.4
//vh:opt tier=known replace=primitives.Line.IntersectLine2:specMeet replace=primitives.Vector.Normalize:specNormalize replace=primitives.Line.IsCollinear:specCollinear
func K_Sharp() {
	k := vh.F("k", 0.125, 5) / 100
	p, q, r := 60.0, 899.0, 901.0
	s := shape{[][2]float64{{-p * k, 0}, {p * k, 0}, {0, q * k}}, []side{{0, -1, 1, 0}, {q, p, r, q * p * k}, {-q, p, r, q * p * k}}, 0}
	know(flat, s)
	r1 := vip.SkirtPathes(primitives.Layer{Norm: primitives.AxisZ, Paths: []primitives.Path{flat.path(s, 0, false)}}, 1, 0.4)
	vh.Assert(len(r1.Paths) == 2, "all skirt lines and contours are there")
	runs(flat, r1.Paths[0], s, -0.4, "a skirt line")
}
