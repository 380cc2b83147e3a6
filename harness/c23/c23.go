package c23

import (
	"bytes"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

const eps = 0.0011


func check(s gcode.GcodeSettings, cs []gcode.Command, layers int) {
	m := &hx.Machine{}
	state := gcode.NewState()
	turn, tilt := 0.0, 0.0
	count := 0
	for _, c := range cs {
		before := *m
		n := len(m.Evs)
		var b bytes.Buffer
		state = c.ToGCode(&b, state, s)
		m.Run(b.String())
		evs := m.Evs[n:]
		vh.Assert(m.Tool == 0, "the print head has control after every command")
		moved := 0
		switch x := c.(type) {
		case gcode.RotateZ:
			turn, moved = x.Angle, 1
		case gcode.InclineX:
			tilt, moved = 60, 2
		case gcode.InclineXBack:
			tilt, moved = 0, 2
		case gcode.RotateXZ:
			k := 0
			for _, e := range evs {
				vh.Assert(e.Kind == hx.Bed, "a combined rotation does nothing else")
				vh.Assert(vh.And(vh.Near(e.X, x.AngleX, eps), vh.Near(e.Z, x.AngleZ, eps)), "a combined rotation has its two angles")
				k++
			}
			vh.Assert(k == 1, "a combined rotation is commanded once")
		default:
			count++
		}
		vh.Assert(vh.Near(m.Pos[1], turn, eps), "the rotary axis stands at the angle last commanded")
		vh.Assert(vh.Near(m.Pos[2], tilt, eps), "the tilt axis stands as last commanded")
		if _, ok := c.(gcode.LayersMoving); !ok {
			vh.Assert(vh.Near(m.E, before.E, eps), "the extruder counter is as it was")
			vh.Assert(vh.Near(m.Pos[0], before.Pos[0], eps), "no filament is fed while the bed moves")
		}
		for _, e := range evs {
			if e.Kind == hx.Axis {
				vh.Assert(e.Tool == moved, "only the commanded axis turns")
				vh.Assert(e.From.Z >= 199, "the head is clear before the bed moves")
				vh.Assert(vh.And(vh.Near(e.From.X, 0, eps), vh.Near(e.From.Y, 0, eps)), "the head is aside before the bed moves")
			} else if moved > 0 {
				vh.Assert(e.Kind == hx.Travel, "a bed command does not print")
				vh.Assert(vh.Or(e.To.Z >= e.From.Z-eps), "a bed command does not lower the head")
			}
		}
	}
	vh.Cover("end")
}

func layersOf(n string, big bool) gcode.Command {
	d := vh.F(n, 0.5, 3)
	var ls []primitives.Layer
	k := 1
	if big {
		k = 2
	}
	for i := 0; i < k; i++ {
		z := float64(5 * i)
		ls = append(ls, primitives.Layer{Paths: []primitives.Path{hx.Line(hx.V{0, 0, z}, hx.V{d, 0, z})}, Fill: []primitives.Path{hx.Line(hx.V{0, 0, z}, hx.V{0, 1, z})}})
	}
	return gcode.LayersMoving{Layers: ls}
}

func command(n string, k int) gcode.Command {
	switch k {
	case 0:
		return gcode.RotateZ{Angle: vh.F("z"+n, -720, 720)}
	case 1:
		return gcode.InclineX{}
	case 2:
		return gcode.InclineXBack{}
	case 3:
		return layersOf("d"+n, true)
	}
	return gcode.RotateXZ{AngleX: vh.F("u"+n, -360, 360), AngleZ: vh.F("v"+n, -360, 360)}
}

func sequence(n int, s gcode.GcodeSettings) {
	var cs []gcode.Command
	for i := 0; i < n; i++ {
		x := string(rune('0' + i))
		cs = append(cs, command(x, vh.Choose("cmd"+x, 5)))
	}
	check(s, cs, 0)
}

//vh:bounds all sequences of four commands: rotations by anything up to two turns either way, tilts, combined rotations, layers
func H_Sequence() {
	s := hx.GSettings()
	s.Retraction = false
	sequence(4, s)
}

//vh:bounds all sequences of three commands with retraction, and layers that reset the extruder counter or do not
func H_Reset() {
	s := hx.GSettings()
	s.Retraction = true
	s.LineWidth, s.LayerHeight, s.BarDiameter = 20, 10, 0.5
	sequence(3, s)
}

//vh:bounds all sequences of six bed commands
//vh:opt tier=thorough
func T_Long() {
	s := hx.GSettings()
	s.Retraction = false
	sequence(6, s)
}
