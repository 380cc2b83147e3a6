package c16

import (
	"github.com/l1va/goosli/helpers"
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

const eps = 1e-6

// corner number i is one of the vertices from lo to hi; the vertices differ by at least 0.01.
func corner(i, lo, hi int) primitives.Point {
	n := string(rune('a' + i))
	v := float64(vh.I(n, lo, hi))
	return primitives.Point{X: v * 0.01, Y: 5 - v, Z: 3}
}

func tri(i, hi int) primitives.Triangle {
	a, b, c := corner(i, 0, hi), corner(i+1, 0, hi), corner(i+2, 0, hi)
	vh.Assume(vh.And(a != b, b != c, a != c))
	return primitives.NewTriangle(a, b, c)
}

func edges(ts []primitives.Triangle) []primitives.Line {
	var r []primitives.Line
	for _, t := range ts {
		r = append(r, primitives.Line{P1: t.P1, P2: t.P2}, primitives.Line{P1: t.P2, P2: t.P3}, primitives.Line{P1: t.P3, P2: t.P1})
	}
	return r
}

// X tells the vertices apart.
func sameEdge(a, b primitives.Line) bool {
	return vh.Or(vh.And(a.P1.X == b.P1.X, a.P2.X == b.P2.X), vh.And(a.P1.X == b.P2.X, a.P2.X == b.P1.X))
}

func count(e primitives.Line, ls []primitives.Line) int {
	n := 0
	for _, l := range ls {
		n += vh.IteI(sameEdge(e, l), 1, 0)
	}
	return n
}

func border(ts []primitives.Triangle, out []primitives.Line) {
	in := edges(ts)
	for _, e := range in {
		c, o := count(e, in), count(e, out)
		vh.Assert(vh.Implies(c == 1, o == 1), "an edge of one triangle only is listed once")
		vh.Assert(vh.Implies(c > 1, o == 0), "an edge of several triangles is not listed")
	}
	for _, l := range out {
		vh.Assert(count(l, in) == 1, "nothing but edges is listed")
		ok := false
		for _, e := range in {
			ok = vh.Or(ok, vh.And(l.P1 == e.P1, l.P2 == e.P2), vh.And(l.P1 == e.P2, l.P2 == e.P1))
		}
		vh.Assert(ok, "the ends of the edges listed are corners of the triangles")
	}
}

func meshOf(n int) []primitives.Triangle {
	var ts []primitives.Triangle
	for i := 0; i < n; i++ {
		ts = append(ts, tri(3*i, n+1))
	}
	return ts
}

// H_Border: the outline consists of the edges that belong to one triangle.
//vh:bounds 0 to 2 triangles that share any corners in any order
func H_Border() {
	ts := meshOf(vh.Choose("n", 3))
	border(ts, helpers.MakeUndoubledLinesFromTriangles(ts))
}

// H_Border2: the same for the other way to find it.
//vh:bounds 0 to 2 triangles that share any corners in any order
func H_Border2() {
	ts := meshOf(vh.Choose("n", 3))
	border(ts, helpers.DeleteInternalLines(ts))
}

// strip: a first triangle with corners 0, 1, 2, the others share any corners.
func strip(n int) []primitives.Triangle {
	p := func(v float64) primitives.Point { return primitives.Point{X: v * 0.01, Y: 5 - v, Z: 3} }
	ts := []primitives.Triangle{primitives.NewTriangle(p(0), p(1), p(2))}
	if vh.B("flip") {
		ts[0] = primitives.NewTriangle(p(1), p(0), p(2))
	}
	// every other triangle stands on an edge of an earlier one, listed either way
	es := edges(ts)
	for i := 1; i < n; i++ {
		s := string(rune('0' + i))
		e := es[vh.Choose("edge "+s, len(es))]
		if vh.B("back " + s) {
			e = e.Reverse()
		}
		// its third corner is a new one or any of the others
		q := p(float64(vh.I("v"+s, 0, i+2)))
		vh.Assume(vh.And(q.X != e.P1.X, q.X != e.P2.X))
		t := primitives.NewTriangle(e.P1, e.P2, q)
		starts := 3
		if i == 1 && !vh.Thorough() {
			starts = 1
		}
		switch vh.Choose("start "+s, starts) {
		case 1:
			t = primitives.NewTriangle(e.P2, q, e.P1)
		case 2:
			t = primitives.NewTriangle(q, e.P1, e.P2)
		}
		ts = append(ts, t)
		es = append(es, edges(ts[i:])...)
	}
	return ts
}

// H_Shared: an edge may belong to any number of triangles.
//vh:bounds 3 triangles, each standing on an edge of an earlier one in any direction and order of corners
func H_Shared() {
	ts := strip(3)
	if vh.B("other") {
		border(ts, helpers.DeleteInternalLines(ts))
		return
	}
	border(ts, helpers.MakeUndoubledLinesFromTriangles(ts))
}

// H_Near: edges are told apart by all coordinates.
//vh:bounds two triangles with corners of any coordinates within 10, the second shares an edge but for one coordinate that differs by over 0.001
func H_Near() {
	a, b, c, d := hx.Pt("a", 10), hx.Pt("b", 10), primitives.Point{X: 20}, primitives.Point{X: 30}
	e := a
	k := vh.F("shift", 0.001, 5)
	shared := false
	switch vh.Choose("coordinate", 4) {
	case 0:
		e.X += k
	case 1:
		e.Y += k
	case 2:
		e.Z += k
	default:
		shared = true
	}
	vh.Assume(vh.And(vh.Or(a.X != b.X, a.Y != b.Y, a.Z != b.Z), vh.Or(e.X != b.X, e.Y != b.Y, e.Z != b.Z)))
	ts := []primitives.Triangle{primitives.NewTriangle(a, b, c), primitives.NewTriangle(b, e, d)}
	out := helpers.MakeUndoubledLinesFromTriangles(ts)
	if vh.B("other") {
		out = helpers.DeleteInternalLines(ts)
	}
	if shared {
		vh.Assert(len(out) == 4, "a shared edge is not listed")
	} else {
		vh.Assert(len(out) == 6, "edges that differ are both listed")
	}
}

// H_Support: supporting lines are the images of the edges straight on the plane, in order and direction.
//vh:bounds 0 to 3 lines anywhere within 20, planes of any position across axes and slanting directions of any length
func H_Support() {
	n := vh.Choose("n", 4)
	var ls []primitives.Line
	for i := 0; i < n; i++ {
		s := string(rune('a' + i))
		ls = append(ls, primitives.Line{P1: hx.Pt(s+"1", 20), P2: hx.Pt(s+"2", 20)})
	}
	k := vh.F("k", 0.01, 50)
	dir := []hx.V{{Z: 1}, {Z: -1}, {X: 1}, {Y: 1}, {1, 2, 2}, {-3, 0, 4}}[vh.Choose("normal", 6)]
	pl := primitives.Plane{P: hx.Pt("p", 20), N: dir.Mul(k).Vec()}
	out := helpers.MakeSupportLines(ls, pl)
	vh.Assert(len(out) == n, "one supporting line per edge")
	for i := 0; i < n; i++ {
		for j := 0; j < 2; j++ {
			p, q := hx.P(ls[i].P1), hx.P(out[i].P1)
			if j == 1 {
				p, q = hx.P(ls[i].P2), hx.P(out[i].P2)
			}
			vh.Assert(vh.Near(q.Sub(hx.P(pl.P)).Dot(dir), 0, eps), "supporting lines lie on the base plane")
			vh.Assert(q.Sub(p).Cross(dir).Near(hx.V{}, eps), "supporting lines lie straight below the edges")
		}
	}
}
