package c31

import (
	"math"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

const deg = math.Pi / 180

var (
	c60, s60 = math.Cos(60 * deg), math.Sin(60 * deg)
	// the direction of the overhang
	ca, sa float64
	// boxes of the model
	boxes []box
	// the layers the model is sliced into as it stands, and after the first turn of the bed
	level, turned []primitives.Layer
	// the overhangs found
	stage int
)

const levelOnly, turnedOnly = 1, 2

// box is an upright box, either of the model as it stands or as it stands
// when the bed is turned for an overhang in the direction of the X axis. The
// model is then turned about Z by the direction of the overhang.
type box struct {
	lo, hi hx.V
	tilted bool
	when   int // it is to be printed: level, turned
}

// bed is how the part is turned: by -z about Z, then by -x about X.
type bed struct{ cx, sx, cz, sz float64 }

func commanded(x, z float64) bed {
	return bed{math.Cos(x * deg), math.Sin(x * deg), math.Cos(z * deg), math.Sin(z * deg)}
}

// put turns a point with the bed.
func (b bed) put(p hx.V) hx.V {
	x, y := p.X*b.cz+p.Y*b.sz, p.Y*b.cz-p.X*b.sz
	return hx.V{X: x, Y: y*b.cx + p.Z*b.sx, Z: p.Z*b.cx - y*b.sx}
}

// back turns it back.
func (b bed) back(p hx.V) hx.V {
	y, z := p.Y*b.cx-p.Z*b.sx, p.Z*b.cx+p.Y*b.sx
	return hx.V{X: p.X*b.cz - y*b.sz, Y: y*b.cz + p.X*b.sz, Z: z}
}

// forX is the bed for an overhang in the direction of the X axis.
var forX = bed{c60, s60, 0, 1}

// about turns by the direction of the overhang.
func about(p hx.V) hx.V { return hx.V{X: p.X*ca - p.Y*sa, Y: p.X*sa + p.Y*ca, Z: p.Z} }

func unabout(p hx.V) hx.V { return hx.V{X: p.X*ca + p.Y*sa, Y: p.Y*ca - p.X*sa, Z: p.Z} }

func (b box) at(p hx.V) primitives.Point {
	if b.tilted {
		p = forX.back(p)
	}
	return about(p).Pt()
}

func (b box) triangles() (ts []primitives.Triangle) {
	return solid(func(x, y, z float64) primitives.Point {
		return b.at(hx.V{X: b.lo.X + x*(b.hi.X-b.lo.X), Y: b.lo.Y + y*(b.hi.Y-b.lo.Y), Z: b.lo.Z + z*(b.hi.Z-b.lo.Z)})
	})
}

// solid is the body with the corners q.
func solid(q func(x, y, z float64) primitives.Point) (ts []primitives.Triangle) {
	quad := func(a, b, c, d primitives.Point) {
		ts = append(ts, primitives.NewTriangle(a, b, c), primitives.NewTriangle(a, c, d))
	}
	quad(q(0, 0, 0), q(0, 1, 0), q(1, 1, 0), q(1, 0, 0))
	quad(q(0, 0, 1), q(1, 0, 1), q(1, 1, 1), q(0, 1, 1))
	quad(q(0, 0, 0), q(1, 0, 0), q(1, 0, 1), q(0, 0, 1))
	quad(q(1, 1, 0), q(0, 1, 0), q(0, 1, 1), q(1, 1, 1))
	quad(q(0, 1, 0), q(0, 0, 0), q(0, 0, 1), q(0, 1, 1))
	quad(q(1, 0, 0), q(1, 1, 0), q(1, 1, 1), q(1, 0, 1))
	return
}

func model() *primitives.Mesh {
	var ts []primitives.Triangle
	for _, b := range boxes {
		ts = append(ts, b.triangles()...)
	}
	m := primitives.NewMesh(ts)
	return &m
}

// has tells which boxes a point belongs to, and if it does to any.
func has(p hx.V) []bool {
	p = unabout(p)
	in, any := []bool{}, false
	for _, b := range boxes {
		q := p
		if b.tilted {
			q = forX.put(p)
		}
		i := q.Between(b.lo, b.hi, 1e-3)
		in, any = append(in, i), vh.Or(any, i)
	}
	return append(in, any)
}

// square is a contour of the model as it stands or as turned.
func square(x, y, z, r float64, turned bool) primitives.Path {
	var p primitives.Path
	for _, k := range [][2]float64{{-1, -1}, {-1, 1}, {1, 1}, {1, -1}, {-1, -1}} {
		q := hx.V{X: x + k[0]*r, Y: y + k[1]*r, Z: z}
		if !turned {
			q = about(q)
		}
		p.Points = append(p.Points, q.Pt())
	}
	return p
}

// Specifications: the cut takes whole boxes, the layers hold the corners.

func cut(mesh *primitives.Mesh, p primitives.Plane) (*primitives.Mesh, *primitives.Mesh, error) {
	up, down := &primitives.Mesh{}, &primitives.Mesh{}
	for ts := mesh.Triangles; len(ts) > 0; ts = ts[12:] {
		m := hx.P(ts[0].P1).Add(hx.P(ts[2].P3)).Mul(0.5)
		if vh.Split(m.Sub(hx.P(p.P)).Dot(hx.W(p.N)) > 0) {
			up.Triangles = append(up.Triangles, ts[:12]...)
		} else {
			down.Triangles = append(down.Triangles, ts[:12]...)
		}
	}
	return up, down, nil
}

func corners(mesh *primitives.Mesh) (ps []primitives.Path) {
	for ts := mesh.Triangles; len(ts) > 0; ts = ts[12:] {
		ps = append(ps, primitives.Path{Points: []primitives.Point{ts[0].P1, ts[2].P3}}, primitives.Path{Points: []primitives.Point{ts[0].P2, ts[2].P2}})
	}
	return
}

// fails finds the overhangs of those layers.
func fails(prev, cur primitives.Layer) *primitives.Plane {
	stage++
	switch {
	case stage == 1 && cur.Order == 2:
		return &primitives.Plane{P: about(hx.V{X: 5, Z: 1.5}).Pt(), N: about(hx.V{X: s60, Z: c60}).Vec()}
	case stage == 2 && cur.Order == 1:
		return &primitives.Plane{P: hx.V{Y: 1, Z: 16.5}.Pt(), N: hx.V{Y: s60, Z: c60}.Vec()}
	case stage == 3 && cur.Order == 1:
		// the last part leans as it stands
		a, b := hx.P(cur.Paths[0].Points[0]), hx.P(cur.Paths[0].Points[1])
		v := b.Sub(a).Mul(1 / (3 * s60))
		return &primitives.Plane{P: hx.V{X: a.X, Y: a.Y, Z: a.Z - 3}.Pt(), N: hx.V{X: v.X * s60, Y: v.Y * s60, Z: c60}.Vec()}
	}
	stage--
	return nil
}

func slice(mesh *primitives.Mesh, z primitives.Vector, s slicers.Settings) (ls []primitives.Layer) {
	switch len(mesh.Triangles) {
	case 0:
		return nil
	case 12 * len(boxes):
		for _, l := range level {
			ls = append(ls, primitives.Layer{Order: len(ls), Norm: z, Paths: append([]primitives.Path{}, l.Paths...)})
		}
	case 24:
		for i, l := range turned {
			l = primitives.Layer{Order: i, Norm: z, Paths: append([]primitives.Path{}, l.Paths...)}
			if i == 0 {
				l.Paths = append(l.Paths, corners(mesh)...)
			}
			ls = append(ls, l)
		}
	default:
		ps := corners(mesh)
		edge := primitives.Path{Points: []primitives.Point{mesh.Triangles[0].P1, mesh.Triangles[2].P1}}
		ls = []primitives.Layer{{Norm: z, Paths: ps}, {Order: 1, Norm: z, Paths: []primitives.Path{edge}}}
	}
	return
}

func planes(mesh *primitives.Mesh, s slicers.Settings) ([]primitives.Plane, []primitives.Plane) {
	return nil, nil
}

// anywhere are one plane of each kind, anywhere.
func anywhere(mesh *primitives.Mesh, s slicers.Settings) ([]primitives.Plane, []primitives.Plane) {
	a, b := vh.F("sparse", -20, 20), vh.F("dense", -20, 20)
	return []primitives.Plane{{P: hx.V{X: a, Y: 2, Z: 0.5}.Pt(), N: hx.V{X: 0.6, Y: 0.8}.Vec()}}, []primitives.Plane{{P: hx.V{X: -3, Y: b}.Pt(), N: hx.V{X: 0.28, Y: -0.96}.Vec()}}
}

// prepare fills the layers with lines of the planes given.
func prepare(ls []primitives.Layer, s slicers.Settings, a, b []primitives.Plane) []primitives.Layer {
	for i := range ls {
		if s.BottomLayers > 0 {
			a = b
		}
		for _, p := range a {
			q := hx.P(p.P).Add(hx.W(p.N).Cross(hx.V{X: 1, Y: 2, Z: 3}))
			ls[i].Fill = append(ls[i].Fill, primitives.Path{Points: []primitives.Point{p.P, q.Pt()}})
		}
	}
	return ls
}

// lines are the planes in which the lines of the filling are to lie in the model as it stands.
func lines(s slicers.Settings) []primitives.Plane {
	a, b := slicers.CalcFillPlanes(model(), s)
	if s.BottomLayers > 0 {
		return b
	}
	return a
}

func settings() slicers.Settings {
	return slicers.Settings{GcodeSettings: &gcode.GcodeSettings{LineWidth: 0.4, LayerHeight: 1, BarDiameter: 1.75},
		LayerHeight: 1, WallThickness: 0.4, Epsilon: 0.25, FillDensity: 20, UnitVector: primitives.AxisZ, FillingType: "Lines"}
}

func direction() {
	a := vh.F("direction", -180, 180)
	ca, sa = math.Cos(a*deg), math.Sin(a*deg)
}

// look follows the commands: the bed levels the planes it is turned for, and
// what is printed is the model as turned with the bed.
func look(g gcode.Gcode, turns, least int, fill []primitives.Plane) {
	now := commanded(0, 0)
	n, printed, rot, tilt := 0, 0, 0.0, 0.0
	away := false
	seen := make([]bool, len(boxes))
	for _, cmd := range g.Cmds {
		moved := false
		switch x := cmd.(type) {
		case gcode.RotateZ:
			rot = x.Angle
			if away {
				vh.Assert(vh.And(x.Angle == 0, tilt == 0), "returning brings the bed back")
				away = false
			}
			now = commanded(tilt, rot)
		case gcode.InclineX:
			tilt = 60
			now, moved = commanded(tilt, rot), true
		case gcode.InclineXBack:
			tilt = 0
			now = commanded(tilt, rot)
		case gcode.RotateXZ:
			if away {
				vh.Assert(vh.And(x.AngleX == 0, x.AngleZ == 0), "returning brings the bed back")
				away = false
			} else {
				moved = true
			}
			tilt, rot = x.AngleX, x.AngleZ
			now = commanded(tilt, rot)
		case gcode.LayersMoving:
			for _, l := range x.Layers {
				ok := true
				for _, p := range l.Paths {
					for _, q := range p.Points {
						in := has(now.back(hx.P(q)))
						ok = vh.And(ok, in[len(boxes)])
						for i := range seen {
							seen[i] = vh.Or(seen[i], in[i])
							if w := boxes[i].when; w != 0 && away != (w == turnedOnly) {
								ok = vh.And(ok, vh.Not(in[i]))
							}
						}
						printed++
					}
				}
				vh.Assert(ok, "what is printed is the part turned as the bed")
				if fill == nil {
					continue
				}
				ok = true
				for k, p := range l.Fill {
					on := false
					for j := range fill {
						f := fill[(k+j)%len(fill)]
						d, n := hx.P(f.P), hx.W(f.N)
						all := true
						for _, q := range p.Points {
							all = vh.And(all, vh.Near(now.back(hx.P(q)).Sub(d).Dot(n), 0, 1e-4))
						}
						if vh.Split(all) {
							on = true
							break
						}
					}
					ok = vh.And(ok, on)
				}
				vh.Assert(ok, "the lines of the filling turn with the part")
			}
		}
		if moved {
			n++
			away = true
			if n <= 2 && turns > 0 {
				up := now.put(about(hx.V{X: s60, Z: c60}))
				vh.Assert(up.Near(hx.V{Z: 1}, 1e-6), "the bed turns the cutting plane level and facing up")
			}
		}
	}
	vh.Assert(n > 0 && n >= turns, "the bed is turned for the overhang")
	for _, b := range seen {
		vh.Assert(b, "every part is printed")
	}
	vh.Assert(printed >= least, "the parts are printed")
}

// overhang is a model of a foot, of a part that hangs over it and of one that
// hangs over that as it stands when the bed is turned.
func overhang() *primitives.Mesh {
	boxes = []box{
		{lo: hx.V{X: -5, Y: -5}, hi: hx.V{X: 5, Y: 5, Z: 2}},
		{lo: hx.V{X: -1, Y: -5, Z: 13}, hi: hx.V{X: 5, Y: 1, Z: 17}, tilted: true},
		{lo: hx.V{X: -3, Y: 12, Z: 17}, hi: hx.V{X: 3, Y: 18, Z: 20}, tilted: true},
	}
	boxes[1].lo.X, boxes[1].hi.X = -3, 3
	m := hx.V{Y: -2, Z: 13}
	m = forX.back(m)
	level = []primitives.Layer{
		{Norm: primitives.AxisZ, Paths: []primitives.Path{square(0, 0, 0.5, 5, false)}},
		{Order: 1, Norm: primitives.AxisZ, Paths: []primitives.Path{square(0, 0, 1.5, 5, false)}},
		{Order: 2, Norm: primitives.AxisZ, Paths: []primitives.Path{square(m.X, m.Y, m.Z, 0.5, false)}},
	}
	turned = []primitives.Layer{
		{Norm: primitives.AxisZ, Paths: []primitives.Path{square(0, -2, 16.5, 3, true)}},
		{Order: 1, Norm: primitives.AxisZ, Paths: []primitives.Path{square(0, 15, 17.5, 3, true)}},
	}
	return model()
}

// H_Five: the 5 axes mode.
//
//vh:bounds overhangs in any direction, from there another one back; the layers of three boxes
//vh:opt replace=slicers.CalculateFails:fails replace=helpers.CutMesh:cut replace=slicers.SliceByVector:slice
func H_Five() { direction(); look(slicers.Slice5Axes(overhang(), settings()), 2, 12, nil) }

// H_Default: the default mode.
//
//vh:bounds overhangs in any direction, from there another one back; the layers of three boxes
//vh:opt replace=slicers.CalculateFails:fails replace=helpers.CutMesh:cut replace=slicers.SliceByVector:slice replace=slicers.CalcFillPlanes:planes replace=vip.PrepareLayers:prepare
func H_Default() {
	direction()
	m := overhang()
	look(vip.SliceDefault2(m, settings(), level), 2, 12, nil)
}

// H_Bridge: the bridge mode.
//
//vh:bounds bridges along any direction; which leg leans; the layers of three boxes; any order of the contours
//vh:opt replace=helpers.CutMesh:cut replace=slicers.SliceByVector:slice replace=slicers.CalcFillPlanes:planes replace=vip.PrepareLayers:prepare
func H_Bridge() {
	direction()
	bridge()
	look(vip.SliceBridge(model(), settings(), level), 1, 4, nil)
}

func bridge() {
	boxes = []box{
		{lo: hx.V{X: -11, Y: -3}, hi: hx.V{X: -5, Y: 3, Z: 2}, when: levelOnly},
		{lo: hx.V{X: -3, Y: 1, Z: 0}, hi: hx.V{X: 3, Y: 7, Z: 4}, tilted: true, when: turnedOnly},
		{lo: hx.V{X: 5, Y: -3}, hi: hx.V{X: 11, Y: 3, Z: 2}},
	}
	first := vh.Choose("below", 2)
	second := vh.Choose("above", 2)
	layer := func(i int, z float64, swap bool, x float64) primitives.Layer {
		l := primitives.Layer{Order: i, Norm: primitives.AxisZ, Paths: []primitives.Path{square(-8+x, 0, z, 3, false), square(8, 0, z, 3, false)}}
		if swap {
			l.Paths[0], l.Paths[1] = l.Paths[1], l.Paths[0]
		}
		return l
	}
	level = []primitives.Layer{layer(0, 0.5, first == 1, 0), layer(1, 1.5, first == 1, 0), layer(2, 2.5, second == 1, 2)}
	turned = nil
}

// some sets one of some directions.
func some() {
	a := []float64{0, 25, 130, -75}[vh.Choose("direction", 4)]
	ca, sa = math.Cos(a*deg), math.Sin(a*deg)
}

// H_FillDefault: the filling of the default mode.
//
//vh:bounds four directions of the overhang, from there another one back; the layers of three boxes; either kind of filling with a plane anywhere
//vh:opt replace=slicers.CalculateFails:fails replace=helpers.CutMesh:cut replace=slicers.SliceByVector:slice replace=slicers.CalcFillPlanes:anywhere replace=vip.PrepareLayers:prepare
func H_FillDefault() {
	some()
	m := overhang()
	s := settings()
	s.BottomLayers = 1000 * vh.Choose("full", 2)
	fill := lines(s)
	look(vip.SliceDefault2(m, s, level), 2, 12, fill)
}

// H_FillBridge: the filling of the bridge mode.
//
//vh:bounds four directions of the bridge; which leg leans; the layers of three boxes; any order of the contours; either kind of filling with a plane anywhere
//vh:opt replace=helpers.CutMesh:cut replace=slicers.SliceByVector:slice replace=slicers.CalcFillPlanes:anywhere replace=vip.PrepareLayers:prepare
func H_FillBridge() {
	some()
	bridge()
	s := settings()
	s.BottomLayers = 1000 * vh.Choose("full", 2)
	fill := lines(s)
	look(vip.SliceBridge(model(), s, level), 1, 4, fill)
}

// out: the third layer leans out.
func out(prev, cur primitives.Layer) bool { return cur.Order == 2 }

// round is a model of which the third layer leans out to all sides.
func round() {
	boxes = []box{
		{lo: hx.V{X: -5, Y: -5}, hi: hx.V{X: 5, Y: 5, Z: 2}},
		{lo: hx.V{X: -7, Y: -7, Z: 3}, hi: hx.V{X: 7, Y: 7, Z: 6}, when: turnedOnly},
	}
	level = nil
	for i, r := range []float64{5, 5, 7} {
		level = append(level, primitives.Layer{Order: i, Norm: primitives.AxisZ, Paths: []primitives.Path{square(0, 0, float64(i)+0.5, r, false)}})
	}
	level[2].Paths[0] = square(0, 0, 3, 7, false)
	turned = nil
}

// H_Rotation: the rotation mode.
//
//vh:bounds a model that leans out to all sides, in any position; the layers of two boxes
//vh:opt replace=slicers/vip.failRotaion:out replace=helpers.CutMesh:cut replace=slicers.SliceByVector:slice replace=slicers.CalcFillPlanes:planes replace=vip.PrepareLayers:prepare
func H_Rotation() {
	direction()
	round()
	g := vip.SliceRotation(model(), settings(), level)
	look(g, -1, 4, nil)
	before := 0
	for _, cmd := range g.Cmds {
		if _, ok := cmd.(gcode.InclineX); ok {
			break
		}
		if x, ok := cmd.(gcode.LayersMoving); ok {
			before += len(x.Layers)
		}
	}
	vh.Assert(before == 2, "what is below the layer that leans out is printed level, and nothing else")
}

// H_FillRotation: the filling of the rotation mode.
//
//vh:bounds four positions of the model; the layers of two boxes; either kind of filling with a plane anywhere
//vh:opt replace=slicers/vip.failRotaion:out replace=helpers.CutMesh:cut replace=slicers.SliceByVector:slice replace=slicers.CalcFillPlanes:anywhere replace=vip.PrepareLayers:prepare
func H_FillRotation() {
	some()
	round()
	s := settings()
	s.BottomLayers = 1000 * vh.Choose("full", 2)
	s.FillingType = "Triangles"
	fill := lines(s)
	look(vip.SliceRotation(model(), s, level), -1, 4, fill)
}

func centre(l primitives.Layer) primitives.Point {
	a, b := hx.P(l.Paths[0].Points[0]), hx.P(l.Paths[0].Points[2])
	return a.Add(b).Mul(0.5).Pt()
}

func keep(ps []primitives.Point, eps float64) []primitives.Point { return ps }

// H_Profile: the profile mode.
//
//vh:bounds an upright prism of 10 mm and one on it of 10 to 20 mm that leans in any direction by 5 to 75 degrees
//vh:opt replace=slicers.calculateCenter:centre replace=helpers.SimplifyLine:keep replace=helpers.CutMesh:cut replace=slicers.SliceByVector:slice
func H_Profile() {
	direction()
	profile(vh.F("bend", 5, 75), vh.F("length", 10, 20), 10)
}

// H_ProfileSome: the same in some directions.
//
//vh:bounds an upright prism of 5 to 15 mm and one on it of 10 and 17 mm that leans in four directions by 12, 40 and 70 degrees
//vh:opt replace=slicers.calculateCenter:centre replace=helpers.SimplifyLine:keep replace=helpers.CutMesh:cut replace=slicers.SliceByVector:slice
func H_ProfileSome() {
	some()
	profile([]float64{12, 40, 70}[vh.Choose("bend", 3)], []float64{10, 17}[vh.Choose("length", 2)], vh.F("knee", 5, 15))
}

func profile(t, l, knee float64) {
	ct, st := math.Cos(t*deg), math.Sin(t*deg)
	// two prisms, one upright and one that leans
	m := primitives.NewMesh(append(solid(func(x, y, z float64) primitives.Point {
		return about(hx.V{X: 10*x - 5, Y: 10*y - 5, Z: knee * z}).Pt()
	}), solid(func(x, y, z float64) primitives.Point {
		return about(hx.V{X: 10*x - 5 + z*l*st, Y: 10*y - 5, Z: knee + z*l*ct}).Pt()
	})...))
	in := func(p hx.V) bool {
		p = unabout(p)
		lean := p.Z - knee
		return vh.And(vh.And(p.Y >= -5.001, p.Y <= 5.001), vh.Or(
			vh.And(vh.And(p.X >= -5.001, p.X <= 5.001), vh.And(p.Z >= -0.001, p.Z <= knee+0.001)),
			vh.And(vh.And(p.X*ct-lean*st >= -5.001*ct, p.X*ct-lean*st <= 5.001*ct), vh.And(lean >= -0.001, lean <= l*ct+0.001))))
	}
	boxes = make([]box, 2)
	level = []primitives.Layer{
		{Norm: primitives.AxisZ, Paths: []primitives.Path{square(0, 0, 0.02, 5, false)}},
		{Order: 1, Norm: primitives.AxisZ, Paths: []primitives.Path{square(0, 0, knee, 5, false)}},
		{Order: 2, Norm: primitives.AxisZ, Paths: []primitives.Path{square(l*st, 0, knee+l*ct, 5, false)}},
	}
	s := settings()
	s.LayerHeight, s.GcodeSettings.LayerHeight = 0.05, 0.05
	n := 0
	now := commanded(0, 0)
	for _, cmd := range slicers.SliceByProfile(&m, s).Cmds {
		switch x := cmd.(type) {
		case gcode.RotateXZ:
			now = commanded(x.AngleX, x.AngleZ)
			along := hx.V{Z: 1}
			if n == 1 {
				along = about(hx.V{X: st, Z: ct})
			}
			vh.Assert(now.put(along).Near(hx.V{Z: 1}, 0.012), "the bed turns the part upright along its centres")
			n++
		case gcode.LayersMoving:
			ok := true
			for _, l := range x.Layers {
				for _, p := range l.Paths {
					for _, q := range p.Points {
						ok = vh.And(ok, in(now.back(hx.P(q))))
					}
				}
			}
			vh.Assert(ok, "what is printed is the part turned as the bed")
		}
	}
	vh.Assert(n == 2, "each part of the line is turned for")
}

// H_Apart: the plane found when a contour hangs beside the one below.
//
//vh:bounds a square contour of half size 3 to 6 beside the one below in any direction, 20 to 30 mm away
func H_Apart() {
	direction()
	d := vh.F("distance", 20, 30)
	r := vh.F("size", 3, 6)
	below, over := square(0, 0, 0.5, r, false), square(d, 0, 1.5, r, false)
	pl := slicers.CalculateFails(primitives.Layer{Paths: []primitives.Path{below}}, primitives.Layer{Paths: []primitives.Path{over}})
	vh.Assert(pl != nil, "the overhang is found")
	if pl == nil {
		return
	}
	vh.Assert(hx.W(pl.N).Near(about(hx.V{X: s60, Z: c60}), 1e-6), "the plane faces the overhang")
	p := hx.P(pl.P)
	vh.Assert(vh.And(vh.And(vh.Near(p.X*ca+p.Y*sa, r, 1e-6), vh.Near(p.Y*ca, p.X*sa, 1e-6)), vh.Near(p.Z, 0.5, 1e-6)), "the plane goes through the edge below the overhang")
}

// H_Over: the plane found when a contour hangs over the edge of the one below.
//
//vh:bounds a square contour of half size 6 to 8 mm shifted by 1.5 to 3 mm along either axis, either way
func H_Over() {
	k := vh.Choose("way", 4)
	ca, sa = []float64{1, 0, -1, 0}[k], []float64{0, 1, 0, -1}[k]
	r := vh.F("size", 6, 8)
	d := vh.F("shift", 1.5, 3)
	below := square(0, 0, 0.5, r, false)
	over := square(d, 0, 1.5, r, false)
	pl := slicers.CalculateFails(primitives.Layer{Paths: []primitives.Path{below}}, primitives.Layer{Paths: []primitives.Path{over}})
	vh.Assert(pl != nil, "the overhang is found")
	if pl == nil {
		return
	}
	n := about(hx.V{X: s60, Z: c60})
	// the directions looked at are 10 degrees apart
	vh.Assert(vh.And(vh.Near(pl.N.Z, c60, 1e-6), hx.W(pl.N).Dot(n) >= c60*c60+s60*s60*math.Cos(10*deg)), "the plane faces the overhang")
	p := unabout(hx.P(pl.P))
	vh.Assert(vh.And(vh.Near(p.X, r, 1e-6), vh.Near(p.Z, 0.5, 1e-6)), "the plane goes through the edge below the overhang")
}
