// Package c36: the automatic mode picks the way of slicing that fits the model.
package c36

import (
	"math"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

// height of the models
const height = 10.0

// the layers of the model: its base and its top
var layers []primitives.Layer

// Specifications.

func slice(mesh *primitives.Mesh, z primitives.Vector, s slicers.Settings) []primitives.Layer {
	return append([]primitives.Layer{}, layers...)
}

// middle of a contour of an even number of corners (C26).
func middle(p primitives.Path) primitives.Point {
	return hx.P(p.Points[0]).Add(hx.P(p.Points[(len(p.Points)-1)/2])).Mul(0.5).Pt()
}

func mode(mesh *primitives.Mesh, s slicers.Settings, ls []primitives.Layer, n int) gcode.Gcode {
	g := gcode.NewGcode(*s.GcodeSettings)
	for i := 0; i < n; i++ {
		g.Add(gcode.InclineX{})
	}
	g.AddLayers(ls)
	return g
}
func bridge(m *primitives.Mesh, s slicers.Settings, ls []primitives.Layer) gcode.Gcode {
	return mode(m, s, ls, 1)
}
func rotation(m *primitives.Mesh, s slicers.Settings, ls []primitives.Layer) gcode.Gcode {
	return mode(m, s, ls, 2)
}
func usual(m *primitives.Mesh, s slicers.Settings, ls []primitives.Layer) gcode.Gcode {
	return mode(m, s, ls, 3)
}
func listed(m *primitives.Mesh, s slicers.Settings, ps []vip.AnalyzedPlane) gcode.Gcode {
	return mode(m, s, nil, 4+len(ps))
}

// told is what kinds of commands there are.
func told(g gcode.Gcode) (t string) {
	for _, c := range g.Cmds {
		switch x := c.(type) {
		case gcode.InclineX:
			t += "X"
		case gcode.InclineXBack:
			t += "B"
		case gcode.RotateZ:
			t += "Z"
		case gcode.RotateXZ:
			t += "R"
		case gcode.LayersMoving:
			for range x.Layers {
				t += "l"
			}
		default:
			t += "?"
		}
	}
	return
}

// body is a body between two contours, with a hole along it or not.
type body struct {
	low, high []hx.V
	hole      bool
}

// first tells whether the contours of holes are listed first.
var first bool

// inner is the contour of the hole inside a contour.
func inner(c []hx.V) (o []hx.V) {
	m := c[0].Add(c[len(c)/2]).Mul(0.5)
	for _, v := range c {
		o = append(o, m.Add(v.Sub(m).Mul(0.5)))
	}
	return
}

// strip is the strip between two contours, facing out where they run anticlockwise from below upwards.
func strip(a, b []hx.V) (ts []primitives.Triangle) {
	for i := range a {
		j := (i + 1) % len(a)
		ts = append(ts, primitives.NewTriangle(a[i].Pt(), a[j].Pt(), b[j].Pt()), primitives.NewTriangle(a[i].Pt(), b[j].Pt(), b[i].Pt()))
	}
	return
}

func (b body) triangles() (ts []primitives.Triangle) {
	ts = strip(b.low, b.high)
	if b.hole {
		ts = append(ts, strip(inner(b.low), b.low)...)
		ts = append(ts, strip(b.high, inner(b.high))...)
		return append(ts, strip(inner(b.high), inner(b.low))...)
	}
	for i := 2; i < len(b.low); i++ {
		ts = append(ts, primitives.NewTriangle(b.low[0].Pt(), b.low[i].Pt(), b.low[i-1].Pt()), primitives.NewTriangle(b.high[0].Pt(), b.high[i-1].Pt(), b.high[i].Pt()))
	}
	return
}

// contour is the contour the way sections of a body run: clockwise, and the other way around holes.
func contour(c []hx.V, hole bool) (p primitives.Path) {
	for i := 0; i <= len(c); i++ {
		if hole {
			p.Points = append(p.Points, c[i%len(c)].Pt())
		} else {
			p.Points = append(p.Points, c[(len(c)-i)%len(c)].Pt())
		}
	}
	return
}

// model puts bodies together.
func model(bs ...body) *primitives.Mesh {
	var ts []primitives.Triangle
	layers = []primitives.Layer{{Norm: primitives.AxisZ}, {Order: 1, Norm: primitives.AxisZ}}
	for _, b := range bs {
		ts = append(ts, b.triangles()...)
		for i, c := range [][]hx.V{b.low, b.high} {
			ps := []primitives.Path{contour(c, false)}
			if b.hole && first {
				ps = []primitives.Path{contour(inner(c), true), ps[0]}
			} else if b.hole {
				ps = append(ps, contour(inner(c), true))
			}
			layers[i].Paths = append(layers[i].Paths, ps...)
		}
	}
	m := primitives.NewMesh(ts)
	return &m
}

// oval is a contour of n corners that is longer by q along x.
func oval(c hx.V, r, q float64, n int) (o []hx.V) {
	for i := 0; i < n; i++ {
		a := 2 * math.Pi * float64(i) / float64(n)
		o = append(o, c.Add(hx.V{X: (r + q) * math.Cos(a), Y: r * math.Sin(a)}))
	}
	return
}

func settings() slicers.Settings {
	return slicers.Settings{GcodeSettings: &gcode.GcodeSettings{LineWidth: 0.4, LayerHeight: 1, BarDiameter: 1.75},
		LayerHeight: 1, WallThickness: 0.4, FillDensity: 20, UnitVector: primitives.AxisZ, FillingType: "Lines", PlanesFile: vh.Dir() + "/planes.txt"}
}

// directions are the directions of n corners, 12 or 20, in order, as whole numbers.
func directions(n int) (ds [][3]float64) {
	quarter := [][3]float64{{1, 0, 1}, {12, 5, 13}, {4, 3, 5}, {3, 4, 5}, {5, 12, 13}}
	if n == 12 {
		quarter = [][3]float64{{1, 0, 1}, {4, 3, 5}, {3, 4, 5}}
	}
	for k := 0; k < 4; k++ {
		for _, d := range quarter {
			ds = append(ds, d)
		}
		for i, d := range quarter {
			quarter[i] = [3]float64{-d[1], d[0], d[2]}
		}
	}
	return
}

// round is a round contour of n corners, with two opposite corners q further.
func round(z, r, q float64, at, n int) (o []hx.V) {
	for i, d := range directions(n) {
		l := r
		if i == at || i == at+n/2 {
			l = r + q
		}
		o = append(o, hx.V{X: l * d[0] / d[2], Y: l * d[1] / d[2], Z: z})
	}
	return
}

// bump is how much further two corners are, so that a contour is round or clearly not.
func bump(n string) float64 {
	q := vh.F(n, -2, 2)
	vh.Assume(vh.Or(vh.And(q > -0.499, q < 0.499), vh.Or(q < -0.501, q > 0.501)))
	return q
}

// H_Round: bodies with one contour.
//
//vh:bounds widening bodies of 12 or 20 corners, of any radius from 5 to 20, round but for any one pair of opposite corners that is up to 2 nearer or further, at the base and at the top; with a hole along them or not
//vh:opt replace=slicers.SliceByVector:slice replace=primitives.FindCentroid:middle replace=slicers/vip.SliceBridge:bridge replace=slicers/vip.SliceRotation:rotation replace=slicers/vip.SliceDefault2:usual replace=slicers/vip.SliceByPlanes:listed
func H_Round() {
	n := []int{12, 20}[vh.Choose("corners", 2)]
	at := 1 + vh.Choose("pair", n/2-1)
	r, q0, q1 := vh.F("radius", 5, 20), bump("base"), bump("top")
	b := body{low: round(0, r, q0, at, n), high: round(height, r+12, q1, at, n), hole: vh.Choose("hole", 2) == 1}
	first = b.hole && vh.Choose("first", 2) == 1
	m := model(b)
	s := settings()
	ls := slicers.SliceByVector(m, primitives.AxisZ, s)
	got := told(vip.Slice(m, s))
	want := ""
	if n == 20 && vh.Split(vh.And(vh.And(q0 < 0.5, q0 > -0.5), vh.And(q1 < 0.5, q1 > -0.5))) {
		want = told(vip.SliceRotation(m, s, ls))
	} else {
		want = told(vip.SliceDefault2(m, s, ls))
	}
	vh.Assert(got == want, "bodies that are round at the base and at the top, and only these, are sliced as round bodies")
}

// H_Legs: bodies that stand on several legs.
//
//vh:bounds one to three square legs that lean towards each other, up to 5 apart beyond their sizes, one of them with a hole along it or not
//vh:opt replace=slicers.SliceByVector:slice replace=primitives.FindCentroid:middle replace=slicers/vip.SliceBridge:bridge replace=slicers/vip.SliceRotation:rotation replace=slicers/vip.SliceDefault2:usual replace=slicers/vip.SliceByPlanes:listed
func H_Legs() {
	n := 1 + vh.Choose("legs", 3)
	hole := vh.Choose("hole", 2) == 1
	d := 40 + vh.F("apart", 0, 5)
	var bs []body
	for i := 0; i < n; i++ {
		x := []float64{-d, d, 0}[i]
		lean := []float64{12, -12, 0}[i]
		bs = append(bs, body{oval(hx.V{X: x}, 5, 0, 4), oval(hx.V{X: x + lean, Z: height}, 5, 0, 4), hole && i == 0})
	}
	first = hole && vh.Choose("first", 2) == 1
	m := model(bs...)
	s := settings()
	ls := slicers.SliceByVector(m, primitives.AxisZ, s)
	got := told(vip.Slice(m, s))
	want := ""
	if n == 2 {
		want = told(vip.SliceBridge(m, s, ls))
	} else {
		want = told(vip.SliceDefault2(m, s, ls))
	}
	vh.Assert(got == want, "bodies on two legs, and only these, are sliced as bridges")
}

// H_Listed: planes that are given.
//
//vh:bounds one to three planes at any height in the file named, or none
//vh:opt replace=slicers.SliceByVector:slice replace=primitives.FindCentroid:middle replace=slicers/vip.SliceBridge:bridge replace=slicers/vip.SliceRotation:rotation replace=slicers/vip.SliceDefault2:usual replace=slicers/vip.SliceByPlanes:listed
func H_Listed() {
	m := model(body{low: oval(hx.V{}, 5, 0, 4), high: oval(hx.V{X: 12, Z: height}, 5, 0, 4)})
	s := settings()
	ls := slicers.SliceByVector(m, primitives.AxisZ, s)
	n := vh.Choose("planes", 4)
	text := ""
	var ps []vip.AnalyzedPlane
	for i := 0; i < n; i++ {
		p := vip.ParsePlane("X1.000 Y0.000 Z" + primitives.StrF(vh.F("z"+string(rune('0'+i)), 1+3*float64(i), 3+3*float64(i))) + " Ttrue R90.000")
		ps = append(ps, p)
		text += p.String() + "\n"
	}
	vh.Write("planes.txt", text)
	got := told(vip.Slice(m, s))
	want := ""
	if n > 0 {
		want = told(vip.SliceByPlanes(m, s, ps))
	} else {
		want = told(vip.SliceDefault2(m, s, ls))
	}
	vh.Assert(got == want, "planes that are given are used")
}
