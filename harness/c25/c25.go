package c25

import (
	"strconv"
	"strings"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/helpers"
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

// Specifications: what is verified elsewhere is replaced by something that
// tells parts and turns apart.

// cut takes the triangles whose middle is above the plane.
func cut(mesh *primitives.Mesh, p primitives.Plane) (*primitives.Mesh, *primitives.Mesh, error) {
	up, down := &primitives.Mesh{}, &primitives.Mesh{}
	for _, t := range mesh.Triangles {
		if t.P1.Z+t.P2.Z+t.P3.Z > 3*p.P.Z {
			up.Triangles = append(up.Triangles, t)
		} else {
			down.Triangles = append(down.Triangles, t)
		}
	}
	return up, down, nil
}

// slice puts every corner of the mesh into a first layer, the first also into
// a second.
func slice(mesh *primitives.Mesh, z primitives.Vector, s slicers.Settings) (ls []primitives.Layer) {
	if len(mesh.Triangles) == 0 {
		return nil
	}
	var l primitives.Layer
	l.Norm = z
	for _, t := range mesh.Triangles {
		l.Paths = append(l.Paths, primitives.Path{Points: []primitives.Point{t.P1, t.P2, t.P3}})
	}
	return []primitives.Layer{l, {Order: 1, Norm: z, Paths: l.Paths[:1]}}
}

func planes(mesh *primitives.Mesh, s slicers.Settings) ([]primitives.Plane, []primitives.Plane) {
	return nil, nil
}

func prepare(ls []primitives.Layer, s slicers.Settings, a, b []primitives.Plane) []primitives.Layer {
	return ls
}

// skirt marks the layer.
func skirt(first primitives.Layer, count int, width float64) primitives.Layer {
	first.Paths = append([]primitives.Path{{Points: []primitives.Point{{X: float64(count), Y: width, Z: 7}}}}, first.Paths...)
	return first
}

func p(x, y, z float64) primitives.Point { return primitives.Point{X: x, Y: y, Z: z} }

func tower(n int, dx, dy float64) *primitives.Mesh {
	var ts []primitives.Triangle
	for k := 0; k < n; k++ {
		lo, hi := 10*float64(k)+1, 10*float64(k)+9
		ax, ay := dx*float64(k), dy*float64(k)
		quad := func(a, b, c, d primitives.Point) {
			ts = append(ts, primitives.NewTriangle(a, b, c), primitives.NewTriangle(a, c, d))
		}
		q := func(x, y, z float64) primitives.Point { return p(x+ax, y+ay, z) }
		quad(q(-5, -5, lo), q(-5, 5, lo), q(5, 5, lo), q(5, -5, lo))
		quad(q(-5, -5, hi), q(5, -5, hi), q(5, 5, hi), q(-5, 5, hi))
		quad(q(-5, -5, lo), q(5, -5, lo), q(5, -5, hi), q(-5, -5, hi))
		quad(q(5, -5, lo), q(5, 5, lo), q(5, 5, hi), q(5, -5, hi))
		quad(q(5, 5, lo), q(-5, 5, lo), q(-5, 5, hi), q(5, 5, hi))
		quad(q(-5, 5, lo), q(-5, -5, lo), q(-5, -5, hi), q(-5, 5, hi))
	}
	m := primitives.NewMesh(ts)
	return &m
}

type bed struct {
	rot, tilt float64
}

func check(n, boxes int, dx, dy float64) {
	var in []vip.AnalyzedPlane
	var at []primitives.Plane
	beds := []bed{{}}
	for i := 0; i < n; i++ {
		x := string(rune('0' + i))
		t := vh.B("tilted" + x)
		r := strconv.FormatFloat(vh.F("r"+x, -360, 360), 'f', 3, 64)
		pl := vip.ParsePlane("X0.000 Y0.000 Z" + strconv.Itoa(10*(i+1)) + " T" + strconv.FormatBool(t) + " R" + r)
		in = append(in, pl)
		at = append(at, pl.Plane)
		f, _ := strconv.ParseFloat(strings.TrimSpace(r), 32)
		b := bed{rot: f}
		if t {
			b.tilt = 60
		}
		beds = append(beds, b)
	}
	c := hx.Pt("c", 50)
	s := slicers.Settings{GcodeSettings: &gcode.GcodeSettings{LineWidth: 0.4, LayerHeight: 2, BarDiameter: 1.75},
		LayerHeight: 2, WallThickness: 0.4, RotationCenter: c, SkirtLineCount: vh.Choose("skirt", 3), TopLayers: 1, BottomLayers: 1, FillDensity: 20}
	got := vip.SliceByPlanes(tower(boxes, dx, dy), s, in)

	// the parts
	rest := tower(boxes, dx, dy)
	fill, full := slicers.CalcFillPlanes(rest, s)
	parts := make([]*primitives.Mesh, n+1)
	for i := n - 1; i >= 0; i-- {
		up, down, err := helpers.CutMesh(rest, at[i])
		vh.Assert(err == nil, "cutting succeeds")
		parts[i+1], rest = up, down
	}
	parts[0] = rest
	var want []primitives.Layer
	var on []bed
	for i, m := range parts {
		if i > 0 {
			m = m.Rotate(primitives.RotationAroundZ(beds[i].rot), c)
			if beds[i].tilt > 0 {
				m = m.Rotate(primitives.RotationAroundX(-60), c)
			}
		}
		ls := vip.PrepareLayers(slicers.SliceByVector(m, primitives.AxisZ, s), s, fill, full)
		if i == 0 && len(ls) > 0 {
			ls[0] = vip.SkirtPathes(ls[0], s.SkirtLineCount, 0.4)
		}
		for _, l := range ls {
			want = append(want, l)
			on = append(on, beds[i])
		}
	}

	now, k := bed{}, 0
	for _, cmd := range got.Cmds {
		switch x := cmd.(type) {
		case gcode.RotateZ:
			now.rot = x.Angle
		case gcode.InclineX:
			now.tilt = 60
		case gcode.InclineXBack:
			now.tilt = 0
		case gcode.LayersMoving:
			for _, l := range x.Layers {
				vh.Assert(k < len(want), "nothing is printed twice")
				if k >= len(want) {
					return
				}
				vh.Assert(vh.Near(now.rot, on[k].rot, 0.001), "the bed is turned as the part's plane says")
				vh.Assert(now.tilt == on[k].tilt, "the bed is tilted as the part's plane says")
				same(l, want[k])
				k++
			}
		default:
			vh.Assert(false, "the table is turned by its own commands only")
		}
	}
	vh.Assert(k == len(want), "every part is printed")
	vh.Assert(got.LayerCount() == len(want), "the layers are counted")
}

func same(a, b primitives.Layer) {
	x, y := hx.Sections(a), hx.Sections(b)
	for i := range y {
		vh.Assert(len(x[i]) == len(y[i]), "the layers are those of the part turned, in the order of the parts")
		for j := range y[i] {
			if j >= len(x[i]) {
				return
			}
			vh.Assert(len(x[i][j].Points) == len(y[i][j].Points), "the layers are those of the part turned, in the order of the parts")
			if len(x[i][j].Points) != len(y[i][j].Points) {
				return
			}
			for k := range y[i][j].Points {
				vh.Assert(hx.P(x[i][j].Points[k]).Near(hx.P(y[i][j].Points[k]), 0.02), "the layers are those of the part turned about the centre")
			}
		}
	}
}

//vh:bounds three planes with every tilt pattern, any rotations of up to a turn either way and any centre; a tower of four boxes
//vh:opt replace=helpers.CutMesh:cut replace=slicers.SliceByVector:slice replace=slicers.CalcFillPlanes:planes replace=vip.PrepareLayers:prepare replace=vip.SkirtPathes:skirt
func H_Three() { check(3, 4, 3, -2) }

//vh:bounds one and two planes with every tilt pattern, any rotations and any centre, also where a part is empty
//vh:opt replace=helpers.CutMesh:cut replace=slicers.SliceByVector:slice replace=slicers.CalcFillPlanes:planes replace=vip.PrepareLayers:prepare replace=vip.SkirtPathes:skirt
func H_Few() { check(1+vh.Choose("planes", 2), 1+vh.Choose("boxes", 4), 2, 5) }

//vh:bounds five planes with every tilt pattern, any rotations and any centre
//vh:opt tier=thorough replace=helpers.CutMesh:cut replace=slicers.SliceByVector:slice replace=slicers.CalcFillPlanes:planes replace=vip.PrepareLayers:prepare replace=vip.SkirtPathes:skirt
func T_Five() { check(5, 6, -1, 3) }

//vh:bounds two planes with every tilt pattern and three rotations each, with the real cutting, slicing and filling
func H_Real() {
	var in []vip.AnalyzedPlane
	var beds []bed
	for i := 0; i < 2; i++ {
		x := string(rune('0' + i))
		t := vh.B("tilted" + x)
		r := []float64{0, 90, -37.5}[vh.Choose("r"+x, 3)]
		in = append(in, vip.ParsePlane("X0 Y0 Z"+strconv.Itoa(10*(i+1))+" T"+strconv.FormatBool(t)+" R"+strconv.FormatFloat(r, 'f', 3, 64)))
		b := bed{rot: r}
		if t {
			b.tilt = 60
		}
		beds = append(beds, b)
	}
	s := slicers.Settings{GcodeSettings: &gcode.GcodeSettings{LineWidth: 0.4, LayerHeight: 4, BarDiameter: 1.75},
		LayerHeight: 4, WallThickness: 0.4, RotationCenter: p(3, -4, 5), TopLayers: 0, BottomLayers: 0}
	got := vip.SliceByPlanes(tower(3, 0, 0), s, in)
	// points printed, turned back, lie between the planes of their part
	now, part := bed{}, 0
	for _, cmd := range got.Cmds {
		switch x := cmd.(type) {
		case gcode.RotateZ:
			now.rot = x.Angle
		case gcode.InclineX:
			now.tilt = 60
		case gcode.InclineXBack:
			now.tilt = 0
		case gcode.LayersMoving:
			vh.Assert(part <= 2, "every part is printed once")
			if part > 2 {
				return
			}
			if part > 0 {
				vh.Assert(now == beds[part-1], "the bed stands as the part's plane says")
			}
			for _, l := range x.Layers {
				for _, q := range hx.Flat([]primitives.Layer{l}) {
					for _, pt := range q.Points {
						m := primitives.NewMesh([]primitives.Triangle{primitives.NewTriangle(pt, pt, pt)})
						back := &m
						if now.tilt > 0 {
							back = back.Rotate(primitives.RotationAroundX(60), s.RotationCenter)
						}
						back = back.Rotate(primitives.RotationAroundZ(-now.rot), s.RotationCenter)
						v := hx.P(back.Triangles[0].P1)
						for i, pl := range in {
							h := v.Sub(hx.P(pl.P)).Dot(hx.W(pl.N))
							if i < part && i == part-1 {
								vh.Assert(h >= -0.01, "a part lies above the plane below it")
							}
							if i == part {
								vh.Assert(h <= 0.01, "a part lies below the plane above it")
							}
						}
					}
				}
			}
			part++
		}
	}
	vh.Assert(part == 3, "every part is printed once")
}
