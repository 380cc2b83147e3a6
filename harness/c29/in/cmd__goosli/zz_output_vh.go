package main

import (
	"bytes"
	"strconv"
	"strings"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/zzverif/vh"
)

// H_Output: the whole file.
//
//vh:bounds programs of up to three groups of up to three layers with bed moves between; with empty ones among them or not; templates of two pieces
func H_Output() {
	gs := gcode.GcodeSettings{LayerHeight: 0.2, LineWidth: 0.4, BarDiameter: 1.75, Flow: 1, PrintSpeed: 3000, PrintSpeedLayer1: 1000, PrintSpeedWall: 2000}
	set := slicers.Settings{GcodeSettings: &gs, DateTime: "now", LayerHeight: 0.2, WallThickness: 0.8, FillDensity: vh.I("density", 0, 100), BedTemperature: 60,
		ExtruderTemperature: 200, LayerCount: vh.Choose("old", 2) * 77}
	groups := vh.Choose("groups", 4)
	n := 0
	var sizes []int
	for i := 0; i < groups; i++ {
		sizes = append(sizes, vh.Choose("layers"+string(rune(48+i)), 4))
		n += sizes[i]
	}
	empty := vh.Choose("empty", 3) - 1
	program := func() gcode.Gcode {
		g := gcode.NewGcode(gs)
		z := 0.2
		for i, k := range sizes {
			if i > 0 {
				g.Add(gcode.RotateXZ{AngleX: 60, AngleZ: 30})
			}
			var ls []primitives.Layer
			for j := 0; j < k; j++ {
				p := primitives.Path{Points: []primitives.Point{{X: 0, Y: 0, Z: z}, {X: 10, Y: 0, Z: z}, {X: 10, Y: 10, Z: z}}}
				la := primitives.Layer{Order: j, Norm: primitives.AxisZ, Paths: []primitives.Path{p}}
				if j == empty {
					la.Paths = nil
				}
				ls = append(ls, la)
				z += 0.2
			}
			g.AddLayers(ls)
		}
		return g
	}
	pieces := []string{"{layer_count}", "{fill_density}", "{print_time}", "\n;{datetime}\n"}
	vals := []string{strconv.Itoa(n), strconv.Itoa(set.FillDensity), "{print_time}", "\n;now\n"}
	h, f := vh.Choose("header", len(pieces)), vh.Choose("footer", len(pieces))
	vh.Write("data/header_template.txt", "<"+pieces[h]+">\n")
	vh.Write("data/footer_template.txt", "["+pieces[f]+"]")
	var body bytes.Buffer
	g := program()
	g.ToOutput(&body)
	vh.Assert(strings.Count(body.String(), ";LAYER:") == n, "each layer is in the body")
	buf := CommandsWithTemplates(program(), set)
	vh.Assert(buf.String() == "<"+vals[h]+">\n"+body.String()+"["+vals[f]+"]", "the body stands between header and footer, with the number of its layers")
}
