package main

import (
	"io/ioutil"
	"os"
	"strings"

	"github.com/l1va/goosli/gcode"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
	"github.com/l1va/goosli/zzverif/vh"
)

// The four modes of slicing, which other properties decide, are replaced by programs that tell the mode, the model
// and the settings they were given.
func program(mesh *Mesh, s slicers.Settings, mode float64) gcode.Gcode {
	g := gcode.NewGcode(*s.GcodeSettings)
	for _, t := range mesh.Triangles {
		l := Layer{Norm: AxisZ}
		for _, p := range []Point{{X: mode, Y: s.LayerHeight, Z: s.WallThickness}, t.P1, t.P2, t.P3} {
			l.Paths = append(l.Paths, Path{Points: []Point{p}})
		}
		g.AddLayers([]Layer{l})
	}
	return g
}
func byVector(mesh *Mesh, z Vector, s slicers.Settings) gcode.Gcode {
	return program(mesh, s, 1+z.Dot(V(1, 3, 10)))
}
func byProfile(mesh *Mesh, s slicers.Settings) gcode.Gcode { return program(mesh, s, 20) }
func by5Axes(mesh *Mesh, s slicers.Settings) gcode.Gcode   { return program(mesh, s, 30) }
func byVip(mesh *Mesh, s slicers.Settings) gcode.Gcode     { return program(mesh, s, 40) }

func flags(in, f, mode string, o Vector) {
	os.Args = []string{"goosli", "-s", "none"}
	stl, out, slicingType = &in, &f, &mode
	ox, oy, oz = &o.X, &o.Y, &o.Z
	g := func(v float64) *float64 { return &v }
	k := func(v int) *int { return &v }
	b := func(v bool) *bool { return &v }
	t := func(v string) *string { return &v }
	rcx, rcy, rcz = g(0), g(0), g(0)
	epsilon, layerHeight, wallThickness = g(10), g(1), g(1.2)
	fillDensity, topLayers, bottomLayers = k(20), k(1), k(1)
	bedTemperature, extruderTemperature = k(60), k(200)
	printSpeed, printSpeedLayer1, printSpeedWall = k(50), k(40), k(30)
	fanOffLayer1, lineWidth, fillingType = b(false), g(0.4), t("Lines")
	retraction, retractionSpeed, retractionDistance = b(false), k(0), g(0)
	planesFile, angle, nx, ny, nz = t(vh.Dir()+"/none.txt"), g(30), g(0), g(0), g(1)
	supportsOn, supportOffset, barDiameter, flow, skirtLineCount = b(false), g(1), g(1.75), g(1), k(0)
	vh.Write("data/header_template.txt", ";{layer_count}|{layer_height}\n")
	vh.Write("data/footer_template.txt", ";{fill_density}\n")
}

func model() string {
	a, b, c, d := Point{0, 0, 0}, Point{4, 0, 0}, Point{0, 4, 0}, Point{14, 1, 8}
	m := NewMesh([]Triangle{NewTriangle(a, c, b), NewTriangle(a, b, d), NewTriangle(b, c, d), NewTriangle(c, a, d)})
	in := vh.Dir() + "/in.stl"
	vh.Assert(SaveSTL(in, &m) == nil, "the model is there")
	return in
}

// H_Goosli: the output is what the mode named makes of the shifted model with the settings given.
//
//vh:bounds the four modes, any shift
//vh:opt replace=slicers.SliceByVectorToGcode:byVector replace=slicers.SliceByProfile:byProfile replace=slicers.Slice5Axes:by5Axes replace=slicers/vip.Slice:byVip
func H_Goosli() {
	vh.SetCPU(2)
	mode := vh.Choose("mode", 4)
	in, f := model(), vh.Dir()+"/out.gcode"
	o := V(vh.F("x", -50, 50), vh.F("y", -50, 50), vh.F("z", 0, 50))
	flags(in, f, []string{"3axes", "5axes_by_profile", "5axes", "vip"}[mode], o)
	m, err := LoadSTL(in)
	vh.Assert(err == nil, "the model is there")
	m.Shift(o)
	s := settings()
	var g gcode.Gcode
	switch mode {
	case 0:
		g = slicers.SliceByVectorToGcode(m, AxisZ, s)
	case 1:
		g = slicers.SliceByProfile(m, s)
	case 2:
		g = slicers.Slice5Axes(m, s)
	default:
		g = vip.Slice(m, s)
	}
	want := CommandsWithTemplates(g, s)
	main()
	got, err := ioutil.ReadFile(f)
	vh.Assert(err == nil, "the output is written")
	vh.Assert(strings.Count(string(got), "\n") == strings.Count(want.String(), "\n"), "the output is that of the mode for the shifted model")
	vh.Assert(string(got) == want.String(), "the output is that of the mode for the shifted model")
}

// H_Unknown: modes that do not exist and models that are not there are reported.
func H_Unknown() {
	in, f := model(), vh.Dir()+"/out.gcode"
	if vh.Choose("what", 2) == 0 {
		flags(in, f, "4axes", V(0, 0, 0))
	} else {
		flags(in+"x", f, "3axes", V(0, 0, 0))
	}
	main()
	vh.Assert(false, "modes that do not exist and models that are not there are reported")
}

// H_FullGoosli: an output that cannot be written is reported.
//
//vh:bounds room for any number of bytes
//vh:opt replace=slicers.SliceByVectorToGcode:byVector replace=slicers.SliceByProfile:byProfile replace=slicers.Slice5Axes:by5Axes replace=slicers/vip.Slice:byVip
func H_FullGoosli() {
	vh.SetCPU(2)
	in, f := model(), vh.Dir()+"/out.gcode"
	flags(in, f, "3axes", V(0, 0, 0))
	m, err := LoadSTL(in)
	vh.Assert(err == nil, "the model is there")
	s := settings()
	want := CommandsWithTemplates(slicers.SliceByVectorToGcode(m, AxisZ, s), s)
	n := want.Len()
	room := vh.I("room", -1, 5000)
	vh.FailWritesAfter(room)
	main()
	vh.FailWritesAfter(-1)
	vh.Assert(vh.Or(room < 0, room >= n), "an output that cannot be written is reported")
	vh.Assert(vh.FileSize(f) == n, "the output is written completely")
}

// H_Settings: the settings are the options; speeds given per second are told per minute.
//
//vh:bounds any values of all options of numbers, the switches on or off
func H_Settings() {
	in, f, none := "m.stl", "o.gcode", 0
	flags(in, f, "vip", V(vh.F("x", -50, 50), vh.F("y", -50, 50), vh.F("z", 0, 50)))
	g := func(n string) (float64, *float64) { v := vh.F(n, -100, 100); return v, &v }
	k := func(n string) (int, *int) { v := vh.I(n, 0, 500); return v, &v }
	b := func(n string) (bool, *bool) { v := vh.Choose(n, 2) == 1; return v, &v }
	var rx, ry, rz, eps, lh, wt, lw, rd, an, vx, vy, vz, so, bd, fl float64
	var fd, tl, bl, bt, et, ps, p1, pw, rs, sk int
	var fo, re, su bool
	rx, rcx = g("rotcx")
	ry, rcy = g("rotcy")
	rz, rcz = g("rotcz")
	eps, epsilon = g("epsilon")
	lh, layerHeight = g("layer_height")
	wt, wallThickness = g("wall_thickness")
	fd, fillDensity = k("fill_density")
	tl, topLayers = k("top_layers")
	bl, bottomLayers = k("bottom_layers")
	bt, bedTemperature = k("bed_temperature")
	et, extruderTemperature = k("extruder_temperature")
	ps, printSpeed = k("print_speed")
	p1, printSpeedLayer1 = k("print_speed_layer1")
	pw, printSpeedWall = k("print_speed_wall")
	fo, fanOffLayer1 = b("fan_off_layer1")
	lw, lineWidth = g("line_width")
	re, retraction = b("retraction_on")
	rs, retractionSpeed = k("retraction_speed")
	rd, retractionDistance = g("retraction_distance")
	an, angle = g("angle")
	vx, nx = g("normali")
	vy, ny = g("normalj")
	vz, nz = g("normalk")
	su, supportsOn = b("supports_on")
	so, supportOffset = g("support_offset")
	bd, barDiameter = g("bar_diameter")
	fl, flow = g("flow")
	sk, skirtLineCount = k("skirt_line_count")
	kind := []string{"Lines", "Squares", "Triangles"}[vh.Choose("filling", 3)]
	fillingType = &kind
	s := settings()
	c := s.GcodeSettings
	vh.Assert(s.FillingType == kind && s.PlanesFile == vh.Dir()+"/none.txt", "the settings are the options")
	vh.Assert(s.SupportsOn == su && c.FanOffLayer1 == fo && c.Retraction == re, "the settings are the options")
	vh.Assert(vh.And(s.RotationCenter.X == rx, s.RotationCenter.Y == ry, s.RotationCenter.Z == rz), "the settings are the options")
	vh.Assert(vh.And(s.UnitVector.X == vx, s.UnitVector.Y == vy, s.UnitVector.Z == vz), "the settings are the options")
	vh.Assert(vh.And(s.Epsilon == eps, s.LayerHeight == lh, s.WallThickness == wt, s.ColorizedAngle == an, s.SupportOffset == so), "the settings are the options")
	vh.Assert(vh.And(c.LayerHeight == lh, c.LineWidth == lw, c.BarDiameter == bd, c.Flow == fl, c.RetractionDistance == rd), "the settings are the options")
	vh.Assert(vh.And(s.FillDensity == fd, s.TopLayers == tl, s.BottomLayers == bl, s.BedTemperature == bt, s.ExtruderTemperature == et), "the settings are the options")
	vh.Assert(vh.And(c.RetractionSpeed == rs, s.SkirtLineCount == sk, s.LayerCount == none), "the settings are the options")
	vh.Assert(vh.And(c.PrintSpeed == 60*ps, c.PrintSpeedLayer1 == 60*p1, c.PrintSpeedWall == 60*pw), "speeds are told per minute")
}
