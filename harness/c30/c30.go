package c30

import (
	"bytes"
	"math"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/helpers"
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

func settings() slicers.Settings {
	return slicers.Settings{GcodeSettings: &gcode.GcodeSettings{LineWidth: 0.4, LayerHeight: 1, BarDiameter: 1.75, Flow: 1},
		LayerHeight: 1, WallThickness: 0.4, Epsilon: 10, FillDensity: 10, UnitVector: primitives.AxisZ, FillingType: "Lines",
		ColorizedAngle: 30, TopLayers: 1, BottomLayers: 1, PlanesFile: "planes.txt"}
}

// run slices in one of the modes; what comes back is what is printed.
func run(mode int, m *primitives.Mesh, s slicers.Settings) int {
	var g gcode.Gcode
	switch mode {
	case 0:
		g = slicers.SliceByVectorToGcode(m, primitives.AxisZ, s)
	case 1:
		g = slicers.SliceByProfile(m, s)
	case 2:
		g = slicers.Slice5Axes(m, s)
	default:
		g = vip.Slice(m, s)
	}
	var b bytes.Buffer
	g.ToOutput(&b)
	n := 0
	for _, c := range g.Cmds {
		if l, ok := c.(gcode.LayersMoving); ok {
			n += len(l.Layers)
		}
	}
	vh.Assert(n == g.LayerCount(), "the layers counted are those printed")
	return n
}

func mesh(ts ...primitives.Triangle) *primitives.Mesh {
	m := primitives.NewMesh(ts)
	return &m
}

var tri = primitives.NewTriangle

// H_Empty: no triangles at all.
//
//vh:bounds all modes, with and without supports and planes; a nil mesh and one of no triangles
func H_Empty() {
	s := settings()
	s.SupportsOn = vh.Choose("supports", 2) == 1
	s.FillingType = []string{"Lines", "Squares", "Triangles"}[vh.Choose("filling", 3)]
	vh.Write("planes.txt", []string{"", "X0 Y0 Z1 Ttrue R0\nX0 Y0 Z2 Tfalse R0\n"}[vh.Choose("planes", 2)])
	s.SkirtLineCount = vh.Choose("skirt", 2)
	vh.Assert(run(vh.Choose("mode", 4), mesh(), s) == 0, "an empty model has no layers")
}

// H_Helpers: what the modes are made of.
//
//vh:bounds empty meshes and lines of at most 1 point; any plane through the axes
func H_Helpers() {
	m := mesh()
	pl := primitives.Plane{P: hx.Pt("p", 100), N: primitives.AxisZ}
	up, down, err := helpers.CutMesh(m, pl)
	vh.Assert(err == nil && len(up.Triangles) == 0 && len(down.Triangles) == 0, "an empty mesh is cut into empty ones")
	vh.Assert(len(slicers.SliceByVector(m, primitives.AxisZ, settings())) == 0, "an empty mesh has no layers")
	vh.Assert(len(slicers.SliceByVector(nil, primitives.AxisZ, settings())) == 0, "no mesh has no layers")
	vh.Assert(len(vip.Analyze(m, 30)) == 0, "an empty mesh needs no planes")
	vh.Assert(len(vip.PrepareLayers(nil, settings(), []primitives.Plane{pl}, []primitives.Plane{pl})) == 0, "no layers are prepared")
	vh.Assert(len(helpers.SimplifyLine(nil, 1)) == 0, "a line of no points stays one")
	one := helpers.SimplifyLine([]primitives.Point{pl.P}, 1)
	vh.Assert(len(one) > 0 && one[0] == pl.P && one[len(one)-1] == pl.P, "a line of one point stays there")
}

// piece is a degenerate triangle, lower than a layer.
func piece(n string) primitives.Triangle {
	at := func(k string) primitives.Point {
		xy := [][2]float64{{0, 0}, {3, 4}, {-5, 0}}[vh.Choose(n+k, 3)]
		return primitives.Point{X: xy[0], Y: xy[1], Z: float64(vh.Choose(n+k+"z", 3)) / 2}
	}
	a := at("a")
	switch vh.Choose(n+"kind", 5) {
	case 0: // a dot
		return tri(a, a, a)
	case 1: // a needle
		return tri(a, at("b"), at("b"))
	case 2: // a line
		b := at("b")
		return tri(a, b, primitives.Point{X: (a.X + b.X) / 2, Y: (a.Y + b.Y) / 2, Z: (a.Z + b.Z) / 2})
	case 3: // flat
		b := at("b")
		return tri(a, primitives.Point{X: b.X, Y: b.Y, Z: a.Z}, primitives.Point{X: 1, Y: -2, Z: a.Z})
	}
	b := at("b") // steep
	return tri(a, b, primitives.Point{X: b.X + 0.5, Y: b.Y, Z: 0})
}

func wide() slicers.Settings {
	s := settings()
	s.GcodeSettings.LineWidth = 3
	s.FillDensity = 100
	s.WallThickness = 6
	return s
}

// H_Piece: a single triangle that is thinner than a layer.
//
//vh:bounds all modes; a dot, a needle, three points of a line, a flat and a steep triangle of three places and any heights
//vh:opt exitbad concint
func H_Piece() {
	s := wide()
	s.LayerHeight = vh.F("layer", 0.4, 10)
	m := mesh(piece("p"))
	n := len(slicers.SliceByVector(m, primitives.AxisZ, s))
	mode := vh.Choose("mode", 4)
	got := run(mode, m, s)
	vh.Assert(got == n || n > 1 && mode > 0, "the layers there are are printed")
}

// part is a stack of boxes.
type part struct {
	m *primitives.Mesh
	z float64
}

func (p *part) box(x0, y0, x1, y1, z0, z1 float64) {
	q := func(x, y, z float64) primitives.Point {
		return primitives.Point{X: x0 + x*(x1-x0), Y: y0 + y*(y1-y0), Z: z0 + z*(z1-z0)}
	}
	quad := func(a, b, c, d primitives.Point) {
		p.m.Triangles = append(p.m.Triangles, tri(a, b, c), tri(a, c, d))
	}
	quad(q(0, 0, 0), q(0, 1, 0), q(1, 1, 0), q(1, 0, 0))
	quad(q(0, 0, 1), q(1, 0, 1), q(1, 1, 1), q(0, 1, 1))
	quad(q(0, 0, 0), q(1, 0, 0), q(1, 0, 1), q(0, 0, 1))
	quad(q(1, 1, 0), q(0, 1, 0), q(0, 1, 1), q(1, 1, 1))
	quad(q(0, 1, 0), q(0, 0, 0), q(0, 0, 1), q(0, 1, 1))
	quad(q(1, 0, 0), q(1, 1, 0), q(1, 1, 1), q(1, 0, 1))
}

// storey adds one of: nothing, either leg, both, a plate over both, a wider plate
func (p *part) storey(kind int, h float64) {
	z := p.z
	p.z += h
	switch kind {
	case 0:
		p.box(-9, -3, -3, 3, z, p.z)
	case 1:
		p.box(3, -3, 9, 3, z, p.z)
	case 2:
		p.box(-9, -3, -3, 3, z, p.z)
		p.box(3, -3, 9, 3, z, p.z)
	case 3:
		p.box(-9, -3, 9, 3, z, p.z)
	case 4:
		p.box(-20, -3, 20, 3, z, p.z)
	}
}

// H_Storeys: boxes on top of each other.
//
//vh:bounds all modes; one or two storeys of a leg, two legs or a plate, each lying on the other, of 0, 1 (thorough: 2) and 0, 0.5, 3 mm; layers of 1.2 (thorough: 0.6) to 10 mm
//vh:opt exitbad concint steps=20000000
func H_Storeys() {
	p := part{m: &primitives.Mesh{}}
	shapes := [][2]int{{0, 5}, {0, 0}, {0, 3}, {0, 4}, {2, 0}, {2, 2}, {2, 3}, {2, 4}, {3, 1}, {3, 2}, {3, 3}, {4, 1}, {4, 2}}
	k := shapes[vh.Choose("shape", len(shapes))]
	heights := []float64{0, 1}
	if vh.Thorough() {
		heights = append(heights, 2)
	}
	h0 := heights[vh.Choose("h0", len(heights))]
	p.storey(k[0], h0)
	p.storey(k[1], []float64{0, 0.5, 3}[vh.Choose("h1", 3)])
	s := wide()
	least := 1.2
	if vh.Thorough() {
		least = 0.6
	}
	s.LayerHeight = vh.F("layer", least, 10)
	ls := slicers.SliceByVector(p.m, primitives.AxisZ, s)
	n := len(ls)
	for _, l := range ls { // where boxes lie on each other there is no telling what is inside
		vh.Assume(len(l.Paths) == 0 || !vh.Near(l.Paths[0].Points[0].Z, h0, 1e-6))
	}
	mode := vh.Choose("mode", 4)
	got := run(mode, p.m, s)
	vh.Assert((n == 0) == (got == 0), "layers are printed if there are any")
	vh.Assert(got == n || n > 1 && mode > 0, "the layers there are are printed")
	if k[0] == k[1] || k[0] >= 2 && k[1] < 3 || k[1] == 5 {
		vh.Assert(got == n || mode == 1, "a part that hangs over nowhere is printed as it stands")
	}
}

// ring adds a storey of a round part, of n sides
func (p *part) ring(n int, r0, r1, h float64) {
	z := p.z
	p.z += h
	at := func(i int, r, z float64) primitives.Point {
		a := 2 * math.Pi * float64(i%n) / float64(n)
		return primitives.Point{X: r * math.Cos(a), Y: r * math.Sin(a), Z: z}
	}
	o, u := primitives.Point{Z: z}, primitives.Point{Z: p.z}
	for i := 0; i < n; i++ {
		a, b, c, d := at(i, r0, z), at(i+1, r0, z), at(i, r1, p.z), at(i+1, r1, p.z)
		p.m.Triangles = append(p.m.Triangles, tri(o, b, a), tri(u, c, d), tri(a, b, d), tri(a, d, c))
	}
}

// H_Round: round parts.
//
//vh:bounds vip mode; 16 sides, radius 6; one or two storeys which go straight, widen or narrow, from flat to 3 mm, maybe a stray point above; layers of 1.2 (thorough: 0.6) to 10 mm
//vh:opt exitbad concint steps=20000000
func H_Round() {
	p := part{m: &primitives.Mesh{}}
	r := []float64{6, 9, 4}[vh.Choose("first", 3)]
	p.ring(16, 6, r, []float64{0, 1, 2}[vh.Choose("h0", 3)])
	if k := vh.Choose("second", 4); k < 3 {
		p.ring(16, r, []float64{r, 12, 0}[k], []float64{0.5, 1.5}[vh.Choose("h1", 2)])
	}
	if vh.Choose("stray", 2) == 1 { // a dot somewhere above
		a := primitives.Point{X: 1, Y: 2, Z: p.z + 2}
		p.m.Triangles = append(p.m.Triangles, tri(a, a, a))
	}
	s := wide()
	least := 1.2
	if vh.Thorough() {
		least = 0.6
	}
	s.LayerHeight = vh.F("layer", least, 10)
	n := len(slicers.SliceByVector(p.m, primitives.AxisZ, s))
	got := run(3, p.m, s)
	vh.Assert((n == 0) == (got == 0), "layers are printed if there are any")
	vh.Assert(got == n || n > 1, "the layers there are are printed")
}
