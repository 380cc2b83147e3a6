package main

import (
	"github.com/l1va/goosli/zzverif/vh"
)

// H_Settings: the settings of a job are those of the command line.
//
//vh:bounds every value of every flag
func H_Settings() {
	f := func(n string) *float64 { x := vh.F(n, -1000, 1000); return &x }
	i := func(n string) *int { x := vh.I(n, 0, 100000); return &x }
	b := func(n string) *bool { x := vh.B(n); return &x }
	planes, filling := "planes 1", "Squares"
	rcx, rcy, rcz = f("rcx"), f("rcy"), f("rcz")
	epsilon, layerHeight, wallThickness = f("epsilon"), f("layerHeight"), f("wallThickness")
	fillDensity, topLayers, bottomLayers = i("fillDensity"), i("topLayers"), i("bottomLayers")
	bedTemperature, extruderTemperature = i("bed"), i("extruder")
	printSpeed, printSpeedLayer1, printSpeedWall = i("speed"), i("speed1"), i("speedWall")
	fanOffLayer1, lineWidth, fillingType = b("fan"), f("lineWidth"), &filling
	retraction, retractionSpeed, retractionDistance = b("retraction"), i("retractionSpeed"), f("retractionDistance")
	planesFile, angle, nx, ny, nz = &planes, f("angle"), f("nx"), f("ny"), f("nz")
	supportsOn, supportOffset, barDiameter, flow, skirtLineCount = b("supports"), f("supportOffset"), f("bar"), f("flow"), i("skirt")
	s := settings()
	g := s.GcodeSettings
	vh.Assert(vh.And(s.RotationCenter.X == *rcx, s.RotationCenter.Y == *rcy, s.RotationCenter.Z == *rcz), "the centre of rotation")
	vh.Assert(vh.And(s.UnitVector.X == *nx, s.UnitVector.Y == *ny, s.UnitVector.Z == *nz), "the direction of supports")
	vh.Assert(vh.And(s.Epsilon == *epsilon, s.LayerHeight == *layerHeight, s.WallThickness == *wallThickness, s.ColorizedAngle == *angle, s.SupportOffset == *supportOffset), "the lengths")
	vh.Assert(vh.And(s.FillDensity == *fillDensity, s.TopLayers == *topLayers, s.BottomLayers == *bottomLayers, s.SkirtLineCount == *skirtLineCount), "the counts")
	vh.Assert(vh.And(s.BedTemperature == *bedTemperature, s.ExtruderTemperature == *extruderTemperature), "the temperatures")
	vh.Assert(s.SupportsOn == *supportsOn, "the supports")
	vh.Assert(s.PlanesFile == planes && s.FillingType == filling, "the texts")
	vh.Assert(vh.And(g.BarDiameter == *barDiameter, g.Flow == *flow, g.LayerHeight == *layerHeight, g.LineWidth == *lineWidth), "the sizes of the printer")
	vh.Assert(vh.And(g.PrintSpeed == 60**printSpeed, g.PrintSpeedLayer1 == 60**printSpeedLayer1, g.PrintSpeedWall == 60**printSpeedWall), "the speeds in mm per minute")
	vh.Assert(g.FanOffLayer1 == *fanOffLayer1, "the fan")
	vh.Assert(vh.And(g.RetractionSpeed == *retractionSpeed, g.RetractionDistance == *retractionDistance), "the retraction")
	vh.Assert(g.Retraction == *retraction, "retraction is on or off")
}
