package c21

import (
	"bytes"
	"math"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

func run(s gcode.GcodeSettings, cmds ...gcode.Command) *hx.Machine {
	g := gcode.NewGcode(s)
	for _, c := range cmds {
		g.Add(c)
	}
	var b bytes.Buffer
	g.ToOutput(&b)
	m := &hx.Machine{}
	m.Run(b.String())
	return m
}

// dirs have whole lengths.
var dirs = []hx.V{{3, 4, 0}, {0, -3, 4}, {2, 1, -2}, {1, 0, 0}, {0, 0, -1}, {-4, 0, 3}, {0, 1, 0}, {-2, 3, 6}}

// path has n segments of free lengths; lens are their lengths.
func path(n string, k, d0 int, max float64) (p primitives.Path, lens []float64) {
	at := hx.V{vh.F(n+".x", -50, 50), vh.F(n+".y", -50, 50), vh.F(n+".z", 0, 100)}
	p.Points = append(p.Points, at.Pt())
	for i := 0; i < k; i++ {
		d := dirs[(d0+i)%len(dirs)]
		t := vh.F(n+".l"+string(rune('0'+i)), 0.002, max)
		at = at.Add(d.Mul(t))
		p.Points = append(p.Points, at.Pt())
		lens = append(lens, t*d.Len())
	}
	return
}

func check(s gcode.GcodeSettings, m *hx.Machine, lens []float64, slack int) {
	k := s.LineWidth * s.LayerHeight / (math.Pi * s.BarDiameter * s.BarDiameter / 4)
	i, sum, want := 0, 0.0, 0.0
	back := 0.0
	for _, e := range m.Evs {
		switch e.Kind {
		case hx.Print:
			vh.Assert(i < len(lens), "filament is fed for planned segments only")
			if i >= len(lens) {
				return
			}
			vh.Assert(back == 0, "filament is pushed forth before printing")
			vh.Assert(vh.Near(e.Fed, k*lens[i], 0.00101), "filament fed is length times height times width by the cross-section")
			sum, want = sum+e.Fed, want+k*lens[i]
			vh.Assert(vh.Near(sum, want, 0.00101+0.001*float64(slack)), "filament fed over a run is the sum of what the segments need")
			i++
		case hx.Retract:
			vh.Assert(s.Retraction, "filament runs backwards only with retraction on")
			vh.Assert(back == 0, "filament is pulled back once at a time")
			vh.Assert(vh.Near(-e.Fed, s.RetractionDistance, 0.00101), "a retraction has the configured distance")
			back = 1
		case hx.Prime:
			vh.Assert(vh.Near(e.Fed, s.RetractionDistance, 0.00101), "what was pulled back is pushed forth")
			back = 0
		}
	}
	vh.Assert(i == len(lens), "filament is fed for every planned segment")
}

func settings() gcode.GcodeSettings {
	s := hx.GSettings()
	s.Retraction = vh.B("retraction")
	if s.Retraction {
		s.RetractionDistance = vh.F("distance", 0.05, 20)
		// the speed of retraction may be one of the printing speeds
		s.RetractionSpeed = []int{2400, 900, 1800}[vh.Choose("rspeed", 3)]
	}
	return s
}

//vh:bounds one layer of two paths of two and three segments along 8 directions, lengths 0.002 to 140 mm, line width and layer height free, three diameters
func H_Feed() {
	s := settings()
	s.LineWidth, s.LayerHeight = vh.F("width", 0.01, 3), vh.F("height", 0.01, 3)
	s.BarDiameter = []float64{1.75, 2.85, 1}[vh.Choose("bar", 3)]
	d := vh.Choose("d", len(dirs))
	p, l := path("p", 2, d, 20)
	q, r := path("q", 3, d+2, 20)
	layer := primitives.Layer{Paths: []primitives.Path{p}}
	if vh.B("fill") {
		layer.Fill = []primitives.Path{q}
	} else {
		layer.Paths = append(layer.Paths, q)
	}
	m := run(s, gcode.LayersMoving{Layers: []primitives.Layer{layer}})
	check(s, m, append(l, r...), 0)
}

//vh:bounds diameter free from 0.5 to 4 mm, one path of two segments
func H_Diameter() {
	s := settings()
	s.BarDiameter = vh.F("bar", 0.5, 4)
	p, l := path("p", 2, vh.Choose("d", len(dirs)), 20)
	m := run(s, gcode.LayersMoving{Layers: []primitives.Layer{{MiddlePs: []primitives.Path{p}}}})
	check(s, m, l, 0)
}

//vh:bounds one segment between any two points within 100 mm
func H_Length() {
	s := hx.GSettings()
	p := primitives.Path{Points: []primitives.Point{hx.Pt("a", 100), hx.Pt("b", 100)}}
	l := hx.P(p.Points[1]).Sub(hx.P(p.Points[0])).Len()
	m := run(s, gcode.LayersMoving{Layers: []primitives.Layer{{InnerPs: []primitives.Path{p}}}})
	check(s, m, []float64{l}, 0)
}

//vh:bounds 6 segments of up to 0.003 mm each: less than is printed in the code
func H_Fine() {
	s := hx.GSettings()
	s.Retraction = false
	s.LineWidth = 1
	at := hx.V{1, 2, 3}
	var lens []float64
	d := dirs[vh.Choose("d", len(dirs))]
	p := primitives.Path{Points: []primitives.Point{at.Pt()}}
	for i := 0; i < 6; i++ {
		t := vh.F("l"+string(rune('0'+i)), 0, 0.0001)
		at = at.Add(d.Mul(t))
		p.Points = append(p.Points, at.Pt())
		lens = append(lens, t*d.Len())
	}
	m := run(s, gcode.LayersMoving{Layers: []primitives.Layer{{InnerPs: []primitives.Path{p}}}})
	check(s, m, lens, 0)
}

//vh:bounds four layers, each of a path of two segments feeding anything up to 8000 mm so that the counter is reset or not after each, with any of the bed commands in between, with and without retraction
func H_Reset() {
	s := settings()
	s.LineWidth, s.LayerHeight, s.BarDiameter = 20, 10, 0.5
	var cmds []gcode.Command
	var lens []float64
	for i := 0; i < 4; i++ {
		n := string(rune('0' + i))
		p, l := path("p"+n, 2, 3*i, 0.5)
		lens = append(lens, l...)
		cmds = append(cmds, gcode.LayersMoving{Layers: []primitives.Layer{{Paths: []primitives.Path{p}}}})
		if i == 1 || i == 2 {
			switch vh.Choose("cmd"+n, 5) {
			case 0:
				cmds = append(cmds, gcode.RotateZ{Angle: vh.F("z"+n, -360, 360)})
			case 1:
				cmds = append(cmds, gcode.InclineX{})
			case 2:
				cmds = append(cmds, gcode.InclineXBack{})
			case 3:
				cmds = append(cmds, gcode.RotateXZ{AngleX: 30, AngleZ: 60})
			}
		}
	}
	m := run(s, cmds...)
	check(s, m, lens, 8)
}

//vh:bounds six layers in one command, each feeding anything up to 9000 mm
func H_ResetLayers() {
	s := hx.GSettings()
	s.Retraction = vh.B("retraction")
	s.LineWidth, s.LayerHeight, s.BarDiameter = 20, 10, 0.5
	var ls []primitives.Layer
	var lens []float64
	for i := 0; i < 6; i++ {
		p, l := path("p"+string(rune('0'+i)), 1, i, 1)
		lens = append(lens, l...)
		if i%2 == 0 {
			ls = append(ls, primitives.Layer{Fill: []primitives.Path{p}})
		} else {
			ls = append(ls, primitives.Layer{Paths: []primitives.Path{p}})
		}
	}
	m := run(s, gcode.LayersMoving{Layers: ls})
	check(s, m, lens, 6)
}
