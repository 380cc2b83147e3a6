package c20

import (
	"bytes"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

func run(s gcode.GcodeSettings, cmds ...gcode.Command) *hx.Machine {
	g := gcode.NewGcode(s)
	for _, c := range cmds {
		g.Add(c)
	}
	var b bytes.Buffer
	g.ToOutput(&b)
	m := &hx.Machine{}
	m.Run(b.String())
	return m
}

func copyPaths(ps []primitives.Path) (r []primitives.Path) {
	for _, p := range ps {
		r = append(r, primitives.Path{Points: append([]primitives.Point{}, p.Points...)})
	}
	return
}

func copyLayers(ls []primitives.Layer) (r []primitives.Layer) {
	for _, l := range ls {
		l.Paths, l.MiddlePs, l.InnerPs, l.Fill = copyPaths(l.Paths), copyPaths(l.MiddlePs), copyPaths(l.InnerPs), copyPaths(l.Fill)
		r = append(r, l)
	}
	return
}

func general(n string, k int) (p primitives.Path) {
	for i := 0; i < k; i++ {
		p.Points = append(p.Points, hx.Pt(n+string(rune('0'+i)), 150))
	}
	return
}

//vh:bounds one path of three points anywhere within 150 mm, in any of the four parts of a layer, with and without retraction
func H_Path() {
	s := hx.GSettings()
	s.Retraction = vh.B("retraction")
	s.LineWidth = 0 // feeding is for C21
	p := general("p", 3)
	var l primitives.Layer
	switch vh.Choose("part", 4) {
	case 0:
		l.Paths = append(l.Paths, p)
	case 1:
		l.MiddlePs = append(l.MiddlePs, p)
	case 2:
		l.InnerPs = append(l.InnerPs, p)
	default:
		l.Fill = append(l.Fill, p)
	}
	ls := []primitives.Layer{l}
	want := copyLayers(ls)
	m := run(s, gcode.LayersMoving{Layers: ls})
	hx.Follows(m.Evs, hx.Flat(want))
}

// far is a path of two lines with symbolic offsets, never shorter than 1 mm
// along any axis.
func far(n string, x, y, z float64) primitives.Path {
	o := hx.V{x, y, z}.Add(hx.V{vh.F(n+".x", -4, 4), vh.F(n+".y", -4, 4), vh.F(n+".z", -4, 4)})
	k := 1 + vh.F(n+".k", 0, 9)
	return primitives.Path{Points: []primitives.Point{o.Pt(), o.Add(hx.V{2 * k, -k, 2 * k}).Pt(), o.Add(hx.V{4 * k, k, 3 * k}).Pt()}}
}

//vh:bounds three layers with up to two paths in each part, the number in the second layer free; offsets and sizes of the paths free; with and without retraction
func H_Order() {
	s := hx.GSettings()
	s.Retraction = vh.B("retraction")
	var ls []primitives.Layer
	for i := 0; i < 3; i++ {
		var l primitives.Layer
		part := func(n string, k int) (ps []primitives.Path) {
			for j := 0; j < k; j++ {
				x := string(rune('0'+i)) + n + string(rune('0'+j))
				ps = append(ps, far(x, float64(20*j-20), float64(15*i-5*j), float64(12*i)))
			}
			return
		}
		count := func(n string, d int) int {
			if i == 1 {
				return vh.Choose(n, 3)
			}
			return d
		}
		l.Paths = part("o", count("outer", 1))
		l.MiddlePs = part("m", count("middle", i/2))
		l.InnerPs = part("i", count("inner", 1))
		l.Fill = part("f", count("fill", 1-i/2))
		ls = append(ls, l)
	}
	want := copyLayers(ls)
	var m *hx.Machine
	if vh.B("together") {
		m = run(s, gcode.LayersMoving{Layers: ls})
	} else {
		m = run(s, gcode.LayersMoving{Layers: ls[:1]}, gcode.LayersMoving{}, gcode.LayersMoving{Layers: ls[1:]})
	}
	hx.Follows(m.Evs, hx.Flat(want))
	k := 0
	for _, l := range want {
		for _, ps := range hx.Sections(l) {
			k += len(ps)
		}
	}
	vh.Cover("paths")
	vh.Assert(k > 0, "there are paths")
}

//vh:bounds a path of nine points whose steps along one axis are anything up to 0.003 mm either way, along another nothing or 1 mm
func H_Fine() {
	s := hx.GSettings()
	s.Retraction = false
	axis := vh.Choose("axis", 3)
	side := []float64{0, 1, 0.0004}[vh.Choose("side", 3)]
	var p primitives.Path
	at := hx.V{10, 20, 30}
	p.Points = append(p.Points, at.Pt())
	sign := []float64{1, -1}[vh.Choose("sign", 2)]
	for i := 1; i < 9; i++ {
		d := sign * vh.F("d"+string(rune('0'+i)), 0, 0.003)
		switch axis {
		case 0:
			at = at.Add(hx.V{d, side, 0})
		case 1:
			at = at.Add(hx.V{0, d, side})
		default:
			at = at.Add(hx.V{side, 0, d})
		}
		p.Points = append(p.Points, at.Pt())
	}
	ls := []primitives.Layer{{Paths: []primitives.Path{p}}}
	m := run(s, gcode.LayersMoving{Layers: copyLayers(ls)})
	hx.Follows(m.Evs, hx.Flat(ls))
}

//vh:bounds layers before, between and after up to three bed commands, paths anywhere below 150 mm, with and without retraction
func H_Bed() {
	s := hx.GSettings()
	s.Retraction = vh.B("retraction")
	var cmds []gcode.Command
	var ps []primitives.Path
	add := func(n string, x, y, z float64) {
		p := far(n, x, y, z)
		ps = append(ps, p)
		ls := []primitives.Layer{{Paths: []primitives.Path{p}}}
		cmds = append(cmds, gcode.LayersMoving{Layers: copyLayers(ls)})
	}
	add("a", 0, 0, 50*float64(vh.Choose("h", 3)))
	for i := 0; i < 3; i++ {
		switch vh.Choose("cmd"+string(rune('0'+i)), 5) {
		case 0:
			cmds = append(cmds, gcode.RotateZ{Angle: vh.F("z"+string(rune('0'+i)), -360, 360)})
		case 1:
			cmds = append(cmds, gcode.InclineX{})
		case 2:
			cmds = append(cmds, gcode.InclineXBack{})
		case 3:
			cmds = append(cmds, gcode.RotateXZ{AngleX: 10, AngleZ: 20})
		default:
			add("b"+string(rune('0'+i)), 20, -10, float64(70*i))
		}
	}
	add("c", -20, 30, 140)
	m := run(s, cmds...)
	hx.Follows(m.Evs, ps)
}
