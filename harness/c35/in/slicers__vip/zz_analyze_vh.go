package vip

import (
	"math"

	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

// a small triangle of a model: corners in turn, outward normal
type leaf struct {
	c [3]hx.V
	n hx.V
}

// lean makes a leaf at o that leans outwards to the direction dir (degrees) and rises by slope degrees from level.
func lean(o hx.V, dir, slope float64, start int) leaf {
	a, b := dir*math.Pi/180, slope*math.Pi/180
	u := hx.V{X: -math.Sin(a), Y: math.Cos(a)}
	v := hx.V{X: math.Cos(a) * math.Cos(b), Y: math.Sin(a) * math.Cos(b), Z: math.Sin(b)}
	c := []hx.V{o, o.Add(u).Add(v.Mul(0.25)), o.Add(v)}
	return leaf{[3]hx.V{c[start], c[(start+1)%3], c[(start+2)%3]}, u.Cross(v)}
}

func (l leaf) tri() primitives.Triangle {
	return primitives.NewTriangle(l.c[0].Pt(), l.c[1].Pt(), l.c[2].Pt())
}

// low is how deep the leaf reaches along d, and which corner does.
func (l leaf) low(d hx.V) (float64, hx.V) {
	h, p := l.c[0].Dot(d), l.c[0]
	for _, c := range l.c[1:] {
		x := c.Dot(d)
		vh.Assume(vh.Or(x < h-0.01, x > h+0.01))
		if vh.Split(x < h) {
			h, p = x, c
		}
	}
	return h, p
}

func degrees(a, b hx.V) float64 { return math.Acos(a.Dot(b)/a.Len()/b.Len()) * 180 / math.Pi }

// expect tells which planes are to be suggested: each through the lowest corner of the lowest overhang of what the
// planes before leave, by turns tilted to the overhang's direction and level.
func expect(ls []leaf, angle float64) (ps []hx.V, ns []hx.V) {
	d, tilted := hx.V{Z: 1}, false
	for len(ps) < 6 {
		best := -1
		var h float64
		var p hx.V
		for i, l := range ls {
			by := 90 - degrees(l.n, d.Mul(-1))
			vh.Assume(vh.Or(angle < by-1e-3, angle > by+1e-3))
			if vh.Split(angle > by) {
				continue
			}
			base := vh.And(l.c[0].Z < 0.01, l.c[1].Z < 0.01, l.c[2].Z < 0.01)
			if vh.Split(base) {
				continue
			}
			lh, lp := l.low(d)
			vh.Assume(best < 0 || vh.Or(lh < h-0.01, lh > h+0.01))
			if best < 0 || vh.Split(lh < h) {
				best, h, p = i, lh, lp
			}
		}
		if best < 0 {
			return
		}
		tilted = !tilted
		d = hx.V{Z: 1}
		if tilted {
			n := ls[best].n
			r := math.Sqrt(n.X*n.X + n.Y*n.Y)
			d = hx.V{X: n.X / r * math.Sin(math.Pi/3), Y: n.Y / r * math.Sin(math.Pi/3), Z: math.Cos(math.Pi / 3)}
		}
		ps, ns = append(ps, p), append(ns, d)
		// what is left; leaves that the plane runs through are left out here
		var rest []leaf
		for i, l := range ls {
			var s [3]float64
			for j, c := range l.c {
				s[j] = c.Sub(p).Dot(d)
			}
			if i == best {
				above := 0
				for j := range s {
					if vh.Split(s[j] > -1e-6) {
						above++
					}
				}
				vh.Assume(above == 3)
				rest = append(rest, l)
				continue
			}
			up, down := vh.And(s[0] > 0.01, s[1] > 0.01, s[2] > 0.01), vh.And(s[0] < -0.01, s[1] < -0.01, s[2] < -0.01)
			vh.Assume(vh.Or(up, down))
			if vh.Split(up) {
				rest = append(rest, l)
			}
		}
		ls = rest
	}
	return
}

func compare(ls []leaf, angle float64) {
	ps, ns := expect(ls, angle)
	var ts []primitives.Triangle
	for _, l := range ls {
		ts = append(ts, l.tri())
	}
	m := primitives.NewMesh(ts)
	got := Analyze(&m, angle)
	vh.Assert(len(got) <= 6, "the analysis ends")
	vh.Assert(len(got) == len(ps), "a plane is suggested for every overhang that is left")
	for i, a := range got {
		vh.Assert(a.tilted == (i%2 == 0), "planes are tilted and level by turns")
		vh.Assert(hx.P(a.P).Near(ps[i], 1e-6), "the plane goes through the lowest corner of the lowest overhang")
		n := hx.W(a.N)
		vh.Assert(n.Mul(1/n.Len()).Near(ns[i], 1e-6), "the plane leans the way the overhang does")
	}
	for i, t := range m.Triangles {
		vh.Assert(vh.And(hx.P(t.P1).Near(ls[i].c[0], 0), hx.P(t.P2).Near(ls[i].c[1], 0), hx.P(t.P3).Near(ls[i].c[2], 0)), "the model stays as it is")
	}
}

// H_Analyze: leaves that lean to several sides.
//
//vh:bounds three small triangles that lean outwards at 10, 40 and 55 degrees to three sides at any heights, one of them at the very base or not, any angle up to 75 degrees
func H_Analyze() {
	k := vh.Choose("start", 3)
	ls := []leaf{
		lean(hx.V{X: 0, Y: 0, Z: vh.F("h0", 0, 20)}, 35, 10, k),
		lean(hx.V{X: 5, Y: 3, Z: vh.F("h1", 0, 20)}, 160, 40, (k+1)%3),
		lean(hx.V{X: -4, Y: 6, Z: vh.F("h2", 0, 20)}, 290, 55, (k+2)%3),
	}
	compare(ls, vh.F("angle", 0, 75))
}

// H_Base: what lies on the bed is no overhang, what rises from it is.
//
//vh:bounds a level triangle on the bed, one facing up and an overhang at any height, any angle up to 75 degrees
func H_Base() {
	bed := leaf{[3]hx.V{{X: 9, Y: 9}, {X: 9, Y: 10}, {X: 10, Y: 9.2}}, hx.V{Z: -1}}
	z := vh.F("z", 0, 20)
	roof := leaf{[3]hx.V{{X: 20, Y: 0, Z: z}, {X: 21, Y: 0, Z: z + 0.1}, {X: 20, Y: 1, Z: z + 0.2}}, hx.V{X: -0.1, Y: -0.2, Z: 1}}
	ls := []leaf{bed, roof, lean(hx.V{Z: vh.F("h", -1, 20)}, float64(45*vh.Choose("dir", 8))+10, 20, vh.Choose("start", 3))}
	compare(ls, vh.F("angle", 0, 75))
}

// H_None: models without overhangs need no planes.
//
//vh:bounds two triangles that face up or sideways at any heights, any angle from 1 to 75 degrees
func H_None() {
	z := vh.F("z", 0, 20)
	ls := []leaf{
		{[3]hx.V{{X: 20, Y: 0, Z: z}, {X: 21, Y: 0, Z: z + 0.1}, {X: 20, Y: 1, Z: z + 0.2}}, hx.V{X: -0.1, Y: -0.2, Z: 1}},
		{[3]hx.V{{X: 0, Y: 0, Z: z}, {X: 0, Y: 1, Z: z + 0.2}, {X: 0, Y: 0, Z: z + 1}}, hx.V{X: 1}},
	}
	compare(ls, vh.F("angle", 1, 75))
	vh.Assert(len(Analyze(&primitives.Mesh{}, 30)) == 0, "an empty model needs no planes")
}
