package c22

import (
	"bytes"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

func run(s gcode.GcodeSettings, layers int, cmds ...gcode.Command) *hx.Machine {
	g := gcode.NewGcode(s)
	for _, c := range cmds {
		if l, ok := c.(gcode.LayersMoving); ok && len(l.Layers) != 2 {
			g.AddLayers(l.Layers)
		} else {
			g.Add(c)
		}
	}
	vh.Assert(g.LayerCount() == layers, "the layer count is the number of layers")
	var b bytes.Buffer
	g.ToOutput(&b)
	m := &hx.Machine{Layer: -1}
	m.Run(b.String())
	vh.Assert(g.LayerCount() == layers, "the layer count is the number of layers after the output")
	return m
}

func check(s gcode.GcodeSettings, m *hx.Machine, ls []primitives.Layer) {
	vh.Assert(len(m.Layers) == len(ls), "every layer is announced")
	for i, n := range m.Layers {
		vh.Assert(n == i, "layers are numbered from zero without a gap")
	}
	var prints []hx.Ev
	for _, e := range m.Evs {
		if e.Kind == hx.Print {
			prints = append(prints, e)
		}
	}
	k := 0
	for i, l := range ls {
		for part, ps := range hx.Sections(l) {
			for _, p := range ps {
				for j := 1; j < len(p.Points); j++ {
					vh.Assert(k < len(prints), "every segment is printed")
					if k >= len(prints) {
						return
					}
					e := prints[k]
					k++
					vh.Assert(e.Layer == i, "a layer is printed under its number")
					fan := i > 0 || !s.FanOffLayer1
					vh.Assert(e.Fan == fan, "the fan is off in the first layer if so configured and on otherwise")
					want := s.PrintSpeedWall
					if part == 3 {
						want = s.PrintSpeed
					}
					if i == 0 {
						want = s.PrintSpeedLayer1
					}
					vh.Assert(e.F == float64(want), "everything is printed at its configured speed")
				}
			}
		}
	}
	vh.Assert(k == len(prints), "nothing else is printed")
}

func line(i int) primitives.Path {
	f := float64(i)
	return primitives.Path{Points: []primitives.Point{{X: f, Y: 1, Z: 2 * f}, {X: f + 3, Y: 5, Z: 2 * f}, {X: f, Y: 5, Z: 2 * f}}}
}

func layer(i int, parts [4]int) (l primitives.Layer) {
	for j := 0; j < parts[0]; j++ {
		l.Paths = append(l.Paths, line(i))
	}
	for j := 0; j < parts[1]; j++ {
		l.MiddlePs = append(l.MiddlePs, line(i+1))
	}
	for j := 0; j < parts[2]; j++ {
		l.InnerPs = append(l.InnerPs, line(i+2))
	}
	for j := 0; j < parts[3]; j++ {
		l.Fill = append(l.Fill, line(i+3))
	}
	return
}

func settings() gcode.GcodeSettings {
	s := hx.GSettings()
	s.FanOffLayer1 = vh.B("fanoff")
	s.Retraction = vh.B("retraction")
	s.PrintSpeed = vh.I("infill", 1, 20000)
	s.PrintSpeedWall = vh.I("wall", 1, 20000)
	s.PrintSpeedLayer1 = vh.I("first", 1, 20000)
	s.RetractionSpeed = vh.I("retract", 1, 20000)
	return s
}

func bed(n string, k int) gcode.Command {
	switch k {
	case 0:
		return gcode.RotateZ{Angle: 30}
	case 1:
		return gcode.InclineX{}
	case 2:
		return gcode.InclineXBack{}
	}
	return gcode.RotateXZ{AngleX: 10, AngleZ: 20}
}

//vh:bounds four speeds from 1 to 20000 each, equal or not; three layers of which the second has any of its parts empty
func H_Speeds() {
	s := settings()
	parts := [4]int{vh.Choose("outer", 2), vh.Choose("middle", 2), vh.Choose("inner", 2), vh.Choose("fill", 2)}
	ls := []primitives.Layer{layer(0, [4]int{1, 0, 1, 1}), layer(1, parts), layer(2, [4]int{2, 0, 0, 1})}
	check(s, run(s, 3, gcode.LayersMoving{Layers: ls}), ls)
}

//vh:bounds sequences of four commands, each a list of none to two layers or any bed command, after which two more layers follow; fan and retraction free, speeds free
func H_History() {
	s := hx.GSettings()
	s.FanOffLayer1 = vh.B("fanoff")
	s.Retraction = vh.B("retraction")
	switch vh.Choose("speeds", 4) {
	case 1:
		s.RetractionSpeed = s.PrintSpeed
	case 2:
		s.PrintSpeed, s.PrintSpeedWall, s.PrintSpeedLayer1 = 300, 900, 300
	case 3:
		s.PrintSpeedWall, s.RetractionSpeed = s.PrintSpeedLayer1, 300
	}
	n := 3
	if vh.Thorough() {
		n = 4
	}
	var cmds []gcode.Command
	var ls []primitives.Layer
	for i := 0; i < n; i++ {
		x := string(rune('0' + i))
		k := vh.Choose("cmd"+x, 7)
		if k < 4 {
			cmds = append(cmds, bed(x, k))
			continue
		}
		var c []primitives.Layer
		for j := 0; j < k-4; j++ {
			c = append(c, layer(i+j, [4]int{j, i & 1, 1 - j, 1}))
		}
		ls = append(ls, c...)
		cmds = append(cmds, gcode.LayersMoving{Layers: c})
	}
	c := []primitives.Layer{layer(7, [4]int{1, 0, 0, 1}), layer(9, [4]int{1, 0, 1, 1})}
	ls = append(ls, c...)
	cmds = append(cmds, gcode.LayersMoving{Layers: c})
	check(s, run(s, len(ls), cmds...), ls)
}

//vh:bounds a bed command before, between or after the layers, all speeds free
func H_BedSpeeds() {
	s := settings()
	var cmds []gcode.Command
	var ls []primitives.Layer
	at := vh.Choose("at", 4)
	k := vh.Choose("cmd", 4)
	for i := 0; i < 4; i++ {
		if i == at {
			cmds = append(cmds, bed("b", k))
		}
		if i == 3 {
			break
		}
		l := []primitives.Layer{layer(i, [4]int{i & 1, 0, 0, 1})}
		ls = append(ls, l...)
		cmds = append(cmds, gcode.LayersMoving{Layers: l})
	}
	check(s, run(s, 3, cmds...), ls)
}

//vh:bounds 12 layers of which the extruder counter is reset after any, one or three commands
func H_Numbers() {
	s := hx.GSettings()
	s.LineWidth, s.LayerHeight, s.BarDiameter = 20, 10, 0.5
	var ls []primitives.Layer
	for i := 0; i < 12; i++ {
		d := vh.F("d"+string(rune('a'+i)), 0.1, 5)
		if i%4 != 0 {
			d = 1
		}
		ls = append(ls, primitives.Layer{Fill: []primitives.Path{hx.Line(hx.V{0, 0, float64(i)}, hx.V{d, 0, float64(i)})}})
	}
	if vh.B("together") {
		check(s, run(s, 12, gcode.LayersMoving{Layers: ls}), ls)
	} else {
		check(s, run(s, 12, gcode.LayersMoving{Layers: ls[:5]}, gcode.RotateZ{Angle: 90}, gcode.LayersMoving{Layers: ls[5:6]}, gcode.LayersMoving{Layers: ls[6:]}), ls)
	}
}
