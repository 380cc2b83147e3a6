package c04

import (
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

const eps = 1e-4

var ks = []string{"k0", "k1", "k2", "k3", "k4", "k5"}

// walk is a path whose steps go along d or along e, forwards or backwards.
type walk struct {
	pts []hx.V
	dir []int // 0: along d, 1: along e
	fwd []bool
}

// dirs returns two directions at an angle.
func dirs(any bool) (hx.V, hx.V) {
	if any {
		return hx.W(hx.Dir("d", 2, 0.5)), hx.W(hx.Dir("e", 2, 0.5))
	}
	s := vh.F("skew", -2, 2)
	switch vh.Choose("axes", 3) {
	case 0:
		return hx.V{X: 1}, hx.V{X: s, Y: 0.25}
	case 1:
		return hx.V{Y: 1}, hx.V{Y: s, Z: 0.25}
	}
	return hx.V{Z: 1}, hx.V{X: 0.25, Z: s}
}

// steps walks n steps from a: along d or e each.
func steps(a, d, e hx.V, n int, back bool) walk {
	w := walk{pts: []hx.V{a}}
	for i := 0; i < n; i++ {
		k := vh.F(ks[i], 0.02, 20)
		dir := vh.Choose("dir"+ks[i], 2)
		fwd := true
		if back {
			fwd = vh.Choose("back"+ks[i], 2) == 0
		}
		if !fwd {
			k = -k
		}
		v := d
		if dir == 1 {
			v = e
		}
		w.pts = append(w.pts, w.pts[i].Add(v.Mul(k)))
		w.dir = append(w.dir, dir)
		w.fwd = append(w.fwd, fwd)
	}
	return w
}

func (w walk) path() primitives.Path {
	p := primitives.Path{}
	for _, q := range w.pts {
		p.Points = append(p.Points, q.Pt())
	}
	return p
}

// on: q lies on the segment from a to b.
func on(q, a, b hx.V) bool {
	return vh.And(q.Between(a, b, eps), b.Sub(a).Cross(q.Sub(a)).Near(hx.V{}, eps))
}

// straight: step j continues step i in the same direction.
func (w walk) straight(i, j int) bool { return w.dir[i] == w.dir[j] && w.fwd[i] == w.fwd[j] }

// check compares the simplified path with the original; closed is whether the original is closed.
func (w walk) check(got primitives.Path, closed bool) {
	n := len(w.pts)
	var r []hx.V
	for _, p := range got.Points {
		r = append(r, hx.P(p))
	}
	vh.Assert(len(r) >= 2, "a path with steps keeps at least one step")
	vh.Assert(len(r) <= n, "no points are added")
	if closed {
		vh.Assert(r[0].Near(r[len(r)-1], 1e-6), "a closed path stays closed")
	} else {
		vh.Assert(vh.And(r[0].Near(w.pts[0], 1e-9), r[len(r)-1].Near(w.pts[n-1], 1e-9)), "an open path keeps its ends")
	}
	for _, q := range r {
		is := false
		for _, p := range w.pts {
			is = vh.Or(is, q.Near(p, 1e-9))
		}
		vh.Assert(is, "every kept point is an original point")
	}
	corner := func(p hx.V) {
		is := false
		for _, q := range r {
			is = vh.Or(is, q.Near(p, 1e-9))
		}
		vh.Assert(is, "corners are kept")
	}
	for i, p := range w.pts {
		is := false
		for j := 1; j < len(r); j++ {
			is = vh.Or(is, on(p, r[j-1], r[j]))
		}
		vh.Assert(is, "every original point lies on the simplified path")
		if i > 0 && i < n-1 && !w.straight(i-1, i) {
			corner(p)
		}
	}
	if closed && !w.straight(n-2, 0) {
		corner(w.pts[0])
	}
	// straight runs are merged
	c := 0
	for i := 1; i < n-1; i++ {
		if !w.straight(i-1, i) {
			c++
		}
	}
	if closed {
		if !w.straight(n-2, 0) {
			c++
		}
		vh.Assert(len(r) == c+1, "exactly the points inside straight runs are dropped")
	} else {
		vh.Assert(len(r) == c+2, "exactly the points inside straight runs are dropped")
	}
}

func open(n int, any, back bool) {
	d, e := dirs(any)
	if any {
		x := d.Cross(e)
		vh.Assume(vh.Or(x.X > 0.1, x.Y > 0.1, x.Z > 0.1))
	}
	w := steps(hx.P(hx.Pt("a", 50)), d, e, n, back)
	vh.Assume(vh.Not(w.pts[0].Near(w.pts[n], 1e-3)))
	w.check(w.path().MinimizeLines(), false)
}

// H_Open: open paths of three steps, turning and going back at will.
//vh:bounds 3 steps, each along one of two directions or back
func H_Open() { open(3, false, true) }

// H_Open4: open paths of four steps.
//vh:bounds 4 steps, each along one of two directions
func H_Open4() { open(4, false, false) }

// T_Open: open paths in any two directions.
func T_Open() { open(3, true, true) }

// T_Open5: longer open paths.
func T_Open5() { open(5, false, true) }

// loop closes a walk with two more steps.
func loop(n int) {
	d, e := dirs(false)
	w := steps(hx.P(hx.Pt("a", 50)), d, e, n, true)
	vh.Assume(w.pts[0].Sub(w.pts[n]).Near(hx.V{}, 0))
	w.check(w.path().MinimizeLines(), true)
}

// H_Loop: closed paths of four steps.
//vh:bounds 4 steps along two directions, forwards and back, returning to the start
func H_Loop() { loop(4) }

// H_Loop5: closed paths of five steps, so that runs of two steps occur anywhere, also across the start.
//vh:bounds 5 steps along two directions, forwards and back, returning to the start
func H_Loop5() { loop(5) }

// T_Loop6: closed paths of six steps.
func T_Loop6() { loop(6) }

// corners of a triangle, one side along an axis.
func corners() (a, b, c hx.V) {
	var d, e hx.V
	switch vh.Choose("axes", 3) {
	case 0:
		d, e = hx.V{X: 1}, hx.V{Y: 1, Z: 0.5}
	case 1:
		d, e = hx.V{Y: 1}, hx.V{X: 1, Z: 0.5}
	default:
		d, e = hx.V{Z: 1}, hx.V{X: 1, Y: 0.5}
	}
	a = hx.P(hx.Pt("a", 50))
	b = a.Add(d.Mul(vh.F("base", 0.05, 20)))
	c = a.Add(d.Mul(vh.F("foot", -20, 20))).Add(e.Mul(vh.F("height", 0.05, 20)))
	return
}

// H_Triangle: a closed path over three corners.
//vh:bounds triangles with one side along an axis, height and base over 0.05 within 20
func H_Triangle() {
	a, b, c := corners()
	w := walk{pts: []hx.V{a, b, c, a}, dir: []int{0, 1, 2}, fwd: []bool{true, true, true}}
	w.check(w.path().MinimizeLines(), true)
}

// H_Mid: a closed path over three corners, started inside a side.
//vh:bounds triangles with one side along an axis, height and base over 0.05 within 20
func H_Mid() {
	a, b, c := corners()
	t := vh.F("t", 0.1, 0.9)
	w := walk{pts: []hx.V{a, b, c, a}, dir: []int{0, 1, 2, 0}, fwd: []bool{true, true, true, true}}
	switch vh.Choose("side", 3) {
	case 0:
		m := a.Add(b.Sub(a).Mul(t))
		w.pts = []hx.V{m, b, c, a, m}
	case 1:
		m := b.Add(c.Sub(b).Mul(t))
		w.pts = []hx.V{m, c, a, b, m}
	default:
		m := c.Add(a.Sub(c).Mul(t))
		w.pts = []hx.V{m, a, b, c, m}
	}
	w.check(w.path().MinimizeLines(), true)
}

// H_Reverse: reversing and closing.
//vh:bounds paths of up to 4 points
func H_Reverse() {
	n := vh.Choose("n", 5)
	names := []string{"a", "b", "c", "d"}
	var p primitives.Path
	for i := 0; i < n; i++ {
		p.Points = append(p.Points, hx.Pt(names[i], 50))
	}
	r := p.Reverse()
	vh.Assert(len(r.Points) == n, "reversing keeps the number of points")
	for i := range r.Points {
		vh.Assert(r.Points[i] == p.Points[n-1-i], "reversing turns the order over")
	}
	rr := r.Reverse()
	vh.Assert(len(rr.Points) == n, "reversing twice keeps the number of points")
	for i := range rr.Points {
		vh.Assert(rr.Points[i] == p.Points[i], "reversing twice gives the path back")
	}
	vh.Assert(p.Equal(rr), "reversing twice gives an equal path")
	cl := p.IsClosed()
	vh.Assert(vh.Iff(cl, r.IsClosed()), "closedness does not depend on the direction")
	if n > 1 {
		same := hx.P(p.Points[0]).Near(hx.P(p.Points[n-1]), 1e-7)
		apart := vh.Not(hx.P(p.Points[0]).Near(hx.P(p.Points[n-1]), 1e-5))
		vh.Assert(vh.And(vh.Implies(same, cl), vh.Implies(apart, vh.Not(cl))), "closed means that the ends meet")
	}
	c := p.Close()
	vh.Assert(c.IsClosed(), "a closed path comes out of closing")
	m := n
	if !cl {
		m++
		vh.Assert(c.Points[len(c.Points)-1] == p.Points[0], "closing adds the first point")
	}
	vh.Assert(len(c.Points) == m, "closing adds at most the first point")
	for i := range p.Points {
		vh.Assert(c.Points[i] == p.Points[i], "closing keeps the points")
	}
}

// H_Same: paths are equal exactly if their points are.
//vh:bounds paths of up to 3 points
func H_Same() {
	n, m := vh.Choose("n", 4), vh.Choose("m", 4)
	names := []string{"a", "b", "c"}
	var p, q primitives.Path
	same, differ := n == m, n != m
	for i := 0; i < n; i++ {
		p.Points = append(p.Points, hx.Pt("p"+names[i], 50))
	}
	for i := 0; i < m; i++ {
		q.Points = append(q.Points, hx.Pt("q"+names[i], 50))
	}
	if n == m {
		for i := 0; i < n; i++ {
			same = vh.And(same, hx.P(p.Points[i]).Near(hx.P(q.Points[i]), 1e-7))
			differ = vh.Or(differ, vh.Not(hx.P(p.Points[i]).Near(hx.P(q.Points[i]), 1e-5)))
		}
	}
	eq := p.Equal(q)
	vh.Assert(vh.And(vh.Implies(same, eq), vh.Implies(differ, vh.Not(eq))), "paths are equal when all their points are")
}
