package hx

import (
	"strconv"
	"strings"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/vh"
)

// Kinds of what a machine does.
const (
	Travel  = iota // the head moves and no filament is fed
	Print          // filament is fed, the head moves or all but stands
	Retract        // filament is pulled back
	Prime          // what was pulled back is pushed forth again
	Axis           // the motor of T1 or T2 turns
	Bed            // G62
)

// Ev is one action of the machine executing the generated code.
type Ev struct {
	Kind     int
	From, To V
	Fed      float64 // by the current tool
	Counter  float64 // of the extruder, afterwards
	F        float64
	Tool     int
	Fan      bool
	Layer    int // the last layer announced
	Section  string
	X, Z     float64 // of G62
	Pos      [3]float64
	Ref      float64 // height of the head after it last printed or served the bed
}

// Machine executes generated code: absolute positions and absolute extrusion
// (the templates set G90 and M82), one counter shared by the tools.
type Machine struct {
	At       V
	E        float64
	F        float64
	Tool     int
	Fan      bool
	Layer    int
	Layers   []int
	Section  string
	Pos      [3]float64 // of the motors of the tools
	Back     float64    // filament pulled back
	Ref      float64
	Evs      []Ev
}

func num(w string) float64 {
	x, err := strconv.ParseFloat(w[1:], 64)
	vh.Assert(err == nil, "every word of the code is a letter and a number")
	return x
}

// Run executes out.
func (m *Machine) Run(out string) {
	for _, l := range strings.Split(out, "\n") {
		m.line(l)
	}
}

func (m *Machine) line(l string) {
	if strings.HasPrefix(l, ";") {
		if strings.HasPrefix(l, ";LAYER:") {
			n, err := strconv.Atoi(l[len(";LAYER:"):])
			vh.Assert(err == nil, "layers have numbers")
			m.Layer = n
			m.Layers = append(m.Layers, n)
		} else {
			m.Section = l[1:]
		}
		return
	}
	ws := strings.Fields(l)
	if len(ws) == 0 {
		return
	}
	switch ws[0] {
	case "G0", "G1":
		m.move(ws[1:])
	case "G92":
		for _, w := range ws[1:] {
			vh.Assert(w[0] == 'E', "only the extruder's counter is set")
			m.E = num(w)
		}
	case "T0", "T1", "T2":
		m.Tool = int(ws[0][1] - '0')
		if m.Tool == 0 {
			m.Ref = m.At.Z
		}
	case "M106":
		m.Fan = true
	case "M107":
		m.Fan = false
	case "G62":
		e := m.ev(Bed)
		for _, w := range ws[1:] {
			if w[0] == 'X' {
				e.X = num(w)
			} else {
				vh.Assert(w[0] == 'Z', "a rotation has an X and a Z angle")
				e.Z = num(w)
			}
		}
		m.Evs = append(m.Evs, e)
	default:
		vh.Assert(false, "the code has only commands of the machine")
	}
}

func (m *Machine) ev(kind int) Ev {
	return Ev{Kind: kind, From: m.At, To: m.At, Counter: m.E, F: m.F, Tool: m.Tool, Fan: m.Fan, Layer: m.Layer, Section: m.Section, Pos: m.Pos, Ref: m.Ref}
}

func (m *Machine) move(ws []string) {
	to, e := m.At, m.E
	moves, feeds := false, false
	for _, w := range ws {
		switch w[0] {
		case 'X':
			to.X, moves = num(w), true
		case 'Y':
			to.Y, moves = num(w), true
		case 'Z':
			to.Z, moves = num(w), true
		case 'E':
			e, feeds = num(w), true
		case 'F':
			m.F = num(w)
		default:
			vh.Assert(false, "a move has only the words X, Y, Z, E and F")
		}
	}
	if !moves && !feeds {
		return
	}
	ev := m.ev(Travel)
	ev.To, ev.Fed, ev.Counter = to, e-m.E, e
	m.Pos[m.Tool] += e - m.E
	ev.Pos = m.Pos
	switch {
	case m.Tool != 0:
		ev.Kind = Axis
		vh.Assert(!moves, "the head stands while the bed moves")
	case !feeds:
	case !moves && m.Back > 0:
		ev.Kind = Prime
		m.Back = 0
	case !moves && ev.Fed < -0.005:
		ev.Kind = Retract
		m.Back = -ev.Fed
	default:
		ev.Kind = Print
		m.Ref = to.Z
	}
	m.At, m.E = to, e
	m.Evs = append(m.Evs, ev)
}

// Sections of a layer, in the order they are printed.
func Sections(l primitives.Layer) [][]primitives.Path {
	return [][]primitives.Path{l.Paths, l.MiddlePs, l.InnerPs, l.Fill}
}

// Flat lists the planned paths of layers in the order they are printed.
func Flat(ls []primitives.Layer) (ps []primitives.Path) {
	for _, l := range ls {
		for _, s := range Sections(l) {
			ps = append(ps, s...)
		}
	}
	return
}

// Follows asserts that the machine prints exactly the paths and travels lifted
// and without feeding in between. It returns the print events by path.
func Follows(evs []Ev, ps []primitives.Path) (by [][]Ev) {
	i := 0
	next := func() Ev {
		vh.Assert(i < len(evs), "every planned path is printed to its end")
		if i >= len(evs) {
			return Ev{}
		}
		i++
		return evs[i-1]
	}
	for _, p := range ps {
		var start Ev
		for {
			start = next()
			if start.Kind == Print {
				break
			}
			to := P(p.Points[0])
			if start.Kind == Travel {
				sideways := vh.Or(vh.Not(vh.Near(start.From.X, start.To.X, 0.002)), vh.Not(vh.Near(start.From.Y, start.To.Y, 0.002)))
				lifted := vh.And(start.From.Z >= start.Ref+0.1, start.To.Z >= to.Z+0.1)
				home := start.To.Z >= 199
				vh.Assert(vh.Or(vh.Not(sideways), lifted, home), "the head is lifted while it travels between paths")
			}
			if len(p.Points) < 2 {
				break
			}
		}
		var pr []Ev
		if len(p.Points) < 2 {
			by = append(by, pr)
			continue
		}
		vh.Assert(start.From.Near(P(p.Points[0]), 0.0016), "a path is printed from its first point")
		for k := 1; k < len(p.Points); k++ {
			if k > 1 {
				start = next()
			}
			vh.Assert(start.Kind == Print, "a path is printed without a break")
			vh.Assert(start.To.Near(P(p.Points[k]), 0.0016), "every planned point is reached in order")
			pr = append(pr, start)
		}
		by = append(by, pr)
	}
	for ; i < len(evs); i++ {
		vh.Assert(evs[i].Kind != Print, "nothing is printed but the planned paths")
	}
	return
}

// Line is a path of one segment.
func Line(a, b V) primitives.Path {
	return primitives.Path{Points: []primitives.Point{a.Pt(), b.Pt()}}
}

// GSettings are settings of the code with speeds of their own for everything.
func GSettings() gcode.GcodeSettings {
	return gcode.GcodeSettings{BarDiameter: 1.75, Flow: 1, LayerHeight: 0.2, LineWidth: 0.4, FanOffLayer1: true,
		PrintSpeed: 3600, PrintSpeedLayer1: 900, PrintSpeedWall: 1800, Retraction: true, RetractionSpeed: 2400, RetractionDistance: 5}
}
