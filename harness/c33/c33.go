// Package c33: supports stand straight under the outline of overhangs.
package c33

import (
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

const eps = 1e-6

// top of the model and distance of its layers
const top, step = 6.0, 2.0

// ground is the height the model stands at.
var ground float64

// outlines of overhangs, in directions that differ
var roofs = [][]hx.V{
	{{X: 0, Y: 0}, {X: 0, Y: 12}, {X: 16, Y: 0}},
	{{X: 0, Y: 0}, {X: 0, Y: 12}, {X: 16, Y: 12}, {X: 20, Y: 0}},
}

// join stands for the joining of contours, which C03 and C04 decide.
func join(ps []primitives.Path) []primitives.Path { return append([]primitives.Path{}, ps...) }

// section stands for the section of a triangle, which C02 decides.
func section(p primitives.Plane, t *primitives.Triangle) *primitives.Line {
	n := hx.W(p.N)
	h := hx.P(p.P).Dot(n)
	c := []hx.V{hx.P(t.P1), hx.P(t.P2), hx.P(t.P3)}
	d := []float64{c[0].Dot(n) - h, c[1].Dot(n) - h, c[2].Dot(n) - h}
	var ps []primitives.Point
	for i := range c {
		j := (i + 1) % 3
		if vh.Split(vh.Or(vh.And(d[i] < -1e-9, d[j] > 1e-9), vh.And(d[i] > 1e-9, d[j] < -1e-9))) {
			ps = append(ps, c[i].Add(c[j].Sub(c[i]).Mul(d[i]/(d[i]-d[j]))).Pt())
		}
	}
	if len(ps) < 2 {
		return nil
	}
	return &primitives.Line{P1: ps[0], P2: ps[1]}
}

func tri(a, b, c hx.V) primitives.Triangle { return primitives.NewTriangle(a.Pt(), b.Pt(), c.Pt()) }

// stand makes a model as high as top, far from the overhang.
func stand() []primitives.Triangle {
	return []primitives.Triangle{tri(hx.V{X: 100, Z: ground}, hx.V{X: 100, Y: 5, Z: ground}, hx.V{X: 100, Z: ground + top})}
}

func settings() slicers.Settings {
	return slicers.Settings{LayerHeight: step, SupportsOn: true, UnitVector: primitives.AxisZ, ColorizedAngle: vh.F("angle", 0, 45), SupportOffset: vh.F("offset", 0, 3)}
}

// roof makes an overhang with corners at the heights given, as triangles that face down.
func roof(c []hx.V, start int) []primitives.Triangle {
	var ts []primitives.Triangle
	for i := 2; i < len(c); i++ {
		k := [][3]int{{0, i - 1, i}, {i - 1, i, 0}, {i, 0, i - 1}}[start]
		ts = append(ts, tri(c[k[0]], c[k[1]], c[k[2]]))
	}
	return ts
}

// check compares the layers with the walls below the edges of the roof, which end off below it;
// gone tells which of the edges have none.
func check(layers []primitives.Layer, c []hx.V, off float64, gone []bool, own bool) {
	vh.Assert(len(layers) == int(top/step), "supports neither add layers nor remove any")
	for l, la := range layers {
		z := ground + step*(float64(l)+0.5)
		sum := make([]float64, len(c))
		model := 0
		for _, p := range la.Paths {
			for i := 1; i < len(p.Points); i++ {
				a, b := hx.P(p.Points[i-1]), hx.P(p.Points[i])
				vh.Assert(vh.And(vh.Near(a.Z, z, eps), vh.Near(b.Z, z, eps)), "supports are cut at the height of the layer")
				if vh.Split(a.X > 50) {
					model++
					continue
				}
				on := false
				for j := range c {
					e0, e1 := c[j], c[(j+1)%len(c)]
					e0.Z, e1.Z = z, z
					e := e1.Sub(e0)
					n := hx.V{X: e.Y, Y: -e.X}
					da, db := a.Sub(e0).Dot(n), b.Sub(e0).Dot(n)
					if vh.Split(vh.And(vh.Near(da, 0, 1e-4), vh.Near(db, 0, 1e-4))) {
						ta, tb := a.Sub(e0).Dot(e)/e.Len2(), b.Sub(e0).Dot(e)/e.Len2()
						vh.Assert(vh.And(ta > -eps, ta < 1+eps, tb > -eps, tb < 1+eps), "supports stand straight below the edges")
						// the edge and what stands below it
						h0, h1 := c[j].Z-off, c[(j+1)%len(c)].Z-off
						for _, t := range []float64{ta, tb} {
							vh.Assert(z <= h0+(h1-h0)*t+1e-5, "supports end the offset below the overhang")
						}
						sum[j] += vh.Ite(tb > ta, tb-ta, ta-tb)
						on = true
						break
					}
				}
				vh.Assert(on || own, "nothing but walls below the outline is added")
			}
		}
		vh.Assert(model == 1, "the model's own section stays")
		for j := range c {
			h0, h1 := c[j].Z-off, c[(j+1)%len(c)].Z-off
			if gone[j] {
				vh.Assert(sum[j] == 0, "supports do not run through the model")
				continue
			}
			vh.Assert(vh.Implies(vh.And(h0 > z+1e-3, h1 > z+1e-3), vh.Near(sum[j], 1, eps)), "the whole outline is supported")
			vh.Assert(vh.Implies(vh.And(h0 < z-1e-3, h1 < z-1e-3), vh.Near(sum[j], 0, eps)), "nothing is supported above the overhang")
			if vh.Split(vh.And(h0 > z+1e-3, h1 < z-1e-3)) {
				vh.Assert(vh.Near(sum[j]*(h0-h1), h0-z, 1e-4), "the outline is supported up to the offset")
			}
			if vh.Split(vh.And(h1 > z+1e-3, h0 < z-1e-3)) {
				vh.Assert(vh.Near(sum[j]*(h1-h0), h1-z, 1e-4), "the outline is supported up to the offset")
			}
		}
	}
}

// level gives the overhang's corners one height.
func level(c []hx.V, h float64) []hx.V {
	r := append([]hx.V{}, c...)
	for i := range r {
		r[i].Z = h
	}
	return r
}

// clear keeps heights away from those of the layers.
func clear(h float64) {
	for l := 0; l < int(top/step); l++ {
		z := step * (float64(l) + 0.5)
		vh.Assume(vh.Or(h > z+2e-3, h < z-2e-3))
	}
}

// H_Level: level overhangs.
//
//vh:bounds an overhang of one or two triangles at any height with their corners listed from any one on, any offset up to 3, any angle up to 45 degrees; 3 layers
//vh:opt replace=primitives.JoinPaths3AndMinimize:join replace=primitives.Plane.IntersectTriangle:section
func H_Level() {
	s := settings()
	h := vh.F("h", 0.5, 5.8)
	c := level(roofs[vh.Choose("roof", 2)], h)
	clear(h)
	clear(h - s.SupportOffset)
	ts := append(stand(), roof(c, vh.Choose("start", 3))...)
	m := primitives.NewMesh(ts)
	check(slicers.SliceByVector(&m, primitives.AxisZ, s), c, s.SupportOffset, make([]bool, len(c)), false)
}

// H_Raised: models that do not stand at zero.
//
//vh:bounds a level overhang of one triangle at any height, any offset up to 3; the model stands 4 below zero or 3 above
//vh:opt replace=primitives.JoinPaths3AndMinimize:join replace=primitives.Plane.IntersectTriangle:section
func H_Raised() {
	s := settings()
	s.ColorizedAngle = 30
	h := vh.F("h", 0.5, 5.8)
	clear(h)
	clear(h - s.SupportOffset)
	vh.Assume(h-s.SupportOffset > 0.01) // the outline stands clear of the base
	ground = []float64{-4, 3}[vh.Choose("ground", 2)]
	c := level(roofs[0], ground+h)
	m := primitives.NewMesh(append(stand(), roof(c, 0)...))
	check(slicers.SliceByVector(&m, primitives.AxisZ, s), c, s.SupportOffset, make([]bool, len(c)), false)
}

// H_Slanting: overhangs that slant.
//
//vh:bounds an overhang of one triangle with corners at any heights within 3 of each other, any offset up to 3; 3 layers
//vh:opt replace=primitives.JoinPaths3AndMinimize:join replace=primitives.Plane.IntersectTriangle:section
func H_Slanting() {
	s := settings()
	s.ColorizedAngle = 30
	h := vh.F("h", 2, 3.9)
	vh.Assume(h-s.SupportOffset > 0.01) // the outline stands clear of the base
	c := level(roofs[0], h)
	k := vh.Choose("corner", 3)
	c[k].Z += vh.F("up", 0.1, 2)
	for _, p := range c {
		clear(p.Z)
		clear(p.Z - s.SupportOffset)
	}
	ts := append(stand(), roof(c, 0)...)
	m := primitives.NewMesh(ts)
	check(slicers.SliceByVector(&m, primitives.AxisZ, s), c, s.SupportOffset, make([]bool, 3), true)
}

// H_None: no supports without overhangs, or if they are switched off.
//
//vh:bounds a roof of two triangles at any height that faces up, or one that faces down with supports switched off or with too steep an angle
//vh:opt replace=primitives.JoinPaths3AndMinimize:join replace=primitives.Plane.IntersectTriangle:section
func H_None() {
	s := settings()
	h := vh.F("h", 0.5, 5.8)
	clear(h)
	c := level(roofs[1], h)
	ts := roof(c, 0)
	switch vh.Choose("kind", 3) {
	case 0:
		s.SupportsOn = false
	case 1:
		for i, t := range ts {
			ts[i] = primitives.NewTriangle(t.P3, t.P2, t.P1)
		}
	default:
		// the walls of the model face aside
		ts = []primitives.Triangle{tri(hx.V{X: 0, Y: 0, Z: 0}, hx.V{X: 3, Y: 0, Z: 0}, hx.V{X: 0, Y: 0, Z: h})}
		n := 0
		m := primitives.NewMesh(append(stand(), ts...))
		for l, la := range slicers.SliceByVector(&m, primitives.AxisZ, s) {
			z := step * (float64(l) + 0.5)
			n = vh.IteI(z < h, 2, 1)
			vh.Assert(len(la.Paths) == n, "walls need no support")
		}
		return
	}
	m := primitives.NewMesh(append(stand(), ts...))
	for _, la := range slicers.SliceByVector(&m, primitives.AxisZ, s) {
		vh.Assert(len(la.Paths) == 1, "no supports without overhangs, or if they are switched off")
	}
}

// H_Blocked: the model stands in the way of walls.
//
//vh:bounds an overhang of one triangle at any height; a floor at any height below it, under all of its outline, under one of its edges, under its inside or beside it
//vh:opt replace=primitives.JoinPaths3AndMinimize:join replace=primitives.Plane.IntersectTriangle:section
func H_Blocked() {
	s := settings()
	h, g := vh.F("h", 1.5, 5.8), vh.F("floor", 0.5, 5)
	vh.Assume(h-s.SupportOffset > g+0.2)
	c := level(roofs[0], h)
	clear(h)
	clear(g)
	clear(h - s.SupportOffset)
	floor, gone := []hx.V{{X: -50, Y: -50}, {X: 49, Y: -50}, {X: 0, Y: 100}}, []bool{true, true, true}
	switch vh.Choose("where", 4) {
	case 1: // the walls below the first edge cross it, in both of their triangles
		floor, gone = []hx.V{{X: -5, Y: 6}, {X: 0.1, Y: 0.3}, {X: 0.1, Y: 11.7}}, []bool{true, false, false}
		vh.Assume(vh.And(g > 0.06*(h-s.SupportOffset), g < 0.94*(h-s.SupportOffset)))
	case 2: // nothing but the inside of the outline
		floor, gone = []hx.V{{X: 2, Y: 2}, {X: 6, Y: 2}, {X: 2, Y: 5}}, []bool{false, false, false}
	case 3: // beside
		floor, gone = []hx.V{{X: -9, Y: -50}, {X: -1, Y: 5}, {X: -9, Y: 50}}, []bool{false, false, false}
	}
	floor = level(floor, g)
	ts := append(stand(), tri(floor[0], floor[1], floor[2]))
	ts = append(ts, roof(c, 0)...)
	m := primitives.NewMesh(ts)
	check(slicers.SliceByVector(&m, primitives.AxisZ, s), c, s.SupportOffset, gone, false)
}


// H_Blade: supports never cross the model.
//
//vh:bounds an overhang of one triangle at any height; an upright triangle at any height below it, across one or the other half of one of its walls
//vh:opt replace=primitives.JoinPaths3AndMinimize:join replace=primitives.Plane.IntersectTriangle:section
func H_Blade() {
	s := settings()
	s.ColorizedAngle = 30
	h, g := vh.F("h", 2.5, 5.8), vh.F("blade", 0.1, 4)
	s.SupportOffset = 0.5 * float64(vh.Choose("off", 2))
	vh.Assume(h-s.SupportOffset > g+1.7)
	c := level(roofs[0], h)
	clear(h)
	clear(h - s.SupportOffset)
	clear(g)
	clear(g + 1.5)
	y := []float64{2, 10}[vh.Choose("at", 2)]
	// keep the blade away from where the halves of the wall meet
	d := y / 12 * (h - s.SupportOffset)
	vh.Assume(vh.Or(g > d+0.05, g+1.5 < d-0.05))
	ts := append(stand(), tri(hx.V{X: -2, Y: y - 0.4, Z: g}, hx.V{X: 2, Y: y + 0.4, Z: g}, hx.V{Y: y, Z: g + 1.5}))
	ts = append(ts, roof(c, 0)...)
	m := primitives.NewMesh(ts)
	for l, la := range slicers.SliceByVector(&m, primitives.AxisZ, s) {
		z := step * (float64(l) + 0.5)
		walls, rest := 0, 0
		for _, p := range la.Paths {
			for i := 1; i < len(p.Points); i++ {
				a, b := p.Points[i-1], p.Points[i]
				if vh.Split(vh.And(a.X > -1e-6, a.X < 1e-6, b.X > -1e-6, b.X < 1e-6)) {
					over := vh.Or(vh.And(a.Y < y, b.Y > y), vh.And(a.Y > y, b.Y < y))
					vh.Assert(vh.Not(vh.And(over, z > g, z < g+1.5)), "supports do not run through the model")
					rest++
				} else if vh.Split(vh.And(a.X < 50, vh.Or(a.Y < y-0.41, a.Y > y+0.41))) {
					walls++
				}
			}
		}
		if vh.Split(z < h-s.SupportOffset) {
			vh.Assert(walls >= 2, "walls that are clear of the model stand")
			vh.Assert(rest > 0, "the model in one half of a wall does not remove the other half")
		}
	}
}

// H_Touch: what touches a corner of the overhang only does not stand in the way.
//
//vh:bounds an overhang of one triangle at any height without an offset; the model goes on from any of its corners, up or level, its corners listed from any one on
//vh:opt replace=primitives.JoinPaths3AndMinimize:join replace=primitives.Plane.IntersectTriangle:section
func H_Touch() {
	s := settings()
	s.ColorizedAngle, s.SupportOffset = 30, 0
	h := vh.F("h", 0.5, 5)
	c := level(roofs[0], h)
	k := vh.Choose("corner", 3)
	o := c[k]
	m0 := c[0].Add(c[1]).Add(c[2]).Mul(1.0 / 3)
	m0.Z = 0
	d := hx.V{X: o.X, Y: o.Y}.Sub(m0).Mul(0.5)
	e := hx.V{X: d.Y, Y: -d.X}.Mul(0.2)
	up := hx.V{Z: 0.8 * float64(vh.Choose("up", 2))}
	clear(h)
	clear(h + up.Z)
	n := []hx.V{o, o.Add(d).Add(e).Add(up), o.Add(d).Sub(e).Add(up)}
	from := vh.Choose("from", 3)
	next := tri(n[from], n[(from+1)%3], n[(from+2)%3])
	ts := append(stand(), roof(c, 0)...)
	m := primitives.NewMesh(append(ts, next))
	layers := slicers.SliceByVector(&m, primitives.AxisZ, s)
	// the model's own section beside the overhang
	for l := range layers {
		var ps []primitives.Path
		for _, p := range layers[l].Paths {
			a := hx.P(p.Points[0])
			out := hx.V{X: a.X, Y: a.Y}.Sub(hx.V{X: o.X, Y: o.Y}).Dot(d)
			if vh.Split(vh.Or(out < 1e-3, a.X > 50)) {
				ps = append(ps, p)
			}
		}
		layers[l].Paths = ps
	}
	check(layers, c, 0, make([]bool, 3), false)
}
