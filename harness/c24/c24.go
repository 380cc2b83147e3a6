package c24

import (
	"math"
	"os"
	"strconv"
	"strings"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

func text(p hx.V, tilted bool, r float64, places int) string {
	f := func(x float64) string { return strconv.FormatFloat(x, 'f', places, 64) }
	return "X" + f(p.X) + " Y" + f(p.Y) + " Z" + f(p.Z) + " T" + strconv.FormatBool(tilted) + " R" + f(r)
}

// word reads word i of a plane's text.
func word(s string, i int) string {
	w := strings.Fields(s)
	vh.Assert(len(w) == 5, "the text of a plane has five words")
	return w[i]
}

func num(s string, i int, letter byte) float64 {
	w := word(s, i)
	vh.Assert(w[0] == letter, "the words of a plane are X, Y, Z, T and R")
	x, err := strconv.ParseFloat(w[1:], 32)
	vh.Assert(err == nil, "the words of a plane are numbers")
	return x
}

// lean is the direction facing up when the bed is turned by r and tilted or not.
func lean(tilted bool, r float64) hx.V {
	if !tilted {
		return hx.V{0, 0, 1}
	}
	s, c := math.Sin(math.Pi/3), math.Cos(math.Pi/3)
	a := math.Pi * r / 180
	return hx.V{-s * math.Sin(a), s * math.Cos(a), c}
}

//vh:bounds positions within 500 mm, rotations up to two turns either way, both tilt flags, written with three and with six digits
func H_RoundTrip() {
	p := hx.P(hx.Pt("p", 500))
	t := vh.B("tilted")
	r := vh.F("r", -720, 720)
	places := []int{3, 6}[vh.Choose("places", 2)]
	in := text(p, t, r, places)
	first := vip.ParsePlane(in)
	e := 0.00006
	if places == 3 {
		e += 0.0005
	}
	vh.Assert(hx.P(first.P).Near(p, e), "the position is read as written")
	vh.Assert(hx.W(first.N).Near(lean(t, r), 0.0001), "the normal follows from the tilt flag and the rotation")
	out := first.String()
	vh.Assert(vh.And(vh.Near(num(out, 0, 'X'), p.X, e+0.00054), vh.Near(num(out, 1, 'Y'), p.Y, e+0.00054), vh.Near(num(out, 2, 'Z'), p.Z, e+0.00054)), "the position is written as it is")
	vh.Assert(vh.Near(num(out, 4, 'R'), r, e+0.00054), "the rotation is written as it is")
	vh.Assert(word(out, 3) == "T"+strconv.FormatBool(t), "the tilt flag is written as it is")
	second := vip.ParsePlane(out)
	vh.Assert(hx.P(second.P).Near(hx.P(first.P), 0.00054), "a plane written and read back has the same position")
	vh.Assert(hx.W(second.N).Near(hx.W(first.N), 0.0001), "a plane written and read back has the same normal")
}

//vh:bounds planes as above; the part is any triangle within the plane, turned about any centre
func H_Level() {
	p := hx.P(hx.Pt("p", 100))
	t := vh.B("tilted")
	r := vh.F("r", -720, 720)
	in := text(p, t, r, 3)
	pl := vip.ParsePlane(in)
	rot := num(in, 4, 'R')
	n := hx.W(pl.N)
	// two directions along the plane
	a := hx.V{math.Cos(math.Pi * rot / 180), math.Sin(math.Pi * rot / 180), 0}
	b := n.Cross(a)
	o := hx.P(pl.P)
	tr := primitives.Triangle{P1: o.Pt(), P2: o.Add(a.Mul(10)).Pt(), P3: o.Add(b.Mul(10)).Add(a.Mul(3)).Pt(), N: n.Vec()}
	m := primitives.NewMesh([]primitives.Triangle{tr})
	c := hx.Pt("c", 100)
	turned := m.Rotate(primitives.RotationAroundZ(rot), c)
	if t {
		turned = turned.Rotate(primitives.RotationAroundX(-60), c)
	}
	vh.Assert(len(turned.Triangles) == 1, "turning keeps the triangles")
	q := turned.Triangles[0]
	vh.Assert(vh.And(vh.Near(q.P1.Z, q.P2.Z, 0.001), vh.Near(q.P1.Z, q.P3.Z, 0.001)), "turning the part by the plane's bed position makes the plane level")
	vh.Assert(hx.W(q.N).Mul(0.01).Near(hx.V{0, 0, 1}, 0.0001), "the levelled plane faces up")
}

func facing(o hx.V, t []hx.V, n hx.V) (ts []primitives.Triangle) {
	// corners counterclockwise seen along n
	for i := 0; i+2 < len(t); i++ {
		ts = append(ts, primitives.Triangle{P1: o.Add(t[0]).Pt(), P2: o.Add(t[i+1]).Pt(), P3: o.Add(t[i+2]).Pt(), N: n.Vec()})
	}
	return
}

// wedge leans out in the direction (x, y) of length l by three to one; all of
// it is scaled by l.
func wedge(x, y, l float64) *primitives.Mesh {
	at := func(a, b, z float64) primitives.Point {
		return hx.V{x, y, 0}.Mul(a).Add(hx.V{-y, x, 0}.Mul(b)).Add(hx.V{0, 0, z * l}).Pt()
	}
	// a cross-section
	prof := [][2]float64{{0, 0}, {20, 0}, {20, 10}, {50, 20}, {0, 20}}
	var ts []primitives.Triangle
	for i := range prof {
		p, q := prof[i], prof[(i+1)%len(prof)]
		ts = append(ts, primitives.NewTriangle(at(p[0], -5, p[1]), at(q[0], 5, q[1]), at(q[0], -5, q[1])),
			primitives.NewTriangle(at(p[0], -5, p[1]), at(p[0], 5, p[1]), at(q[0], 5, q[1])))
	}
	for _, s := range []float64{-1, 1} {
		c := at(1, 5*s, 5)
		for i := range prof {
			p, q := prof[i], prof[(i+1)%len(prof)]
			if s > 0 {
				p, q = q, p
			}
			ts = append(ts, primitives.NewTriangle(c, at(p[0], 5*s, p[1]), at(q[0], 5*s, q[1])))
		}
	}
	m := primitives.NewMesh(ts)
	return &m
}


// the file the slicer reads is the one the analyser writes
//
// noCut leaves nothing to analyse above the first plane.
func noCut(mesh *primitives.Mesh, p primitives.Plane) (*primitives.Mesh, *primitives.Mesh, error) {
	return &primitives.Mesh{}, mesh, nil
}

//vh:bounds a wedge overhanging towards twelve directions, cut by all the planes found
func H_AnalysedAll() {
	dirs := [][3]float64{{1, 0, 1}, {4, 3, 5}, {3, 4, 5}, {0, 1, 1}, {-3, 4, 5}, {-4, 3, 5}, {-1, 0, 1}, {-4, -3, 5}, {-5, -12, 13}, {0, -1, 1}, {3, -4, 5}, {12, -5, 13}}
	w := dirs[vh.Choose("dir", len(dirs))]
	w[0], w[1], w[2] = w[0]/w[2], w[1]/w[2], 1
	analysed(w)
}

//vh:bounds a wedge overhanging towards any direction; the first plane found
//vh:opt replace=helpers.CutMesh:noCut
func H_Analysed() {
	a := vh.F("a", -math.Pi, math.Pi)
	w := [3]float64{math.Cos(a), math.Sin(a), 1}
	analysed(w)
}

func analysed(w [3]float64) {
	planes := vip.Analyze(wedge(w[0], w[1], w[2]), 30)
	vh.Assert(len(planes) > 0, "an overhang is found")
	for _, p := range planes {
		s := p.String()
		q := vip.ParsePlane(s)
		vh.Assert(hx.P(q.P).Near(hx.P(p.P), 0.00054), "an analysed plane has its position after reading")
		n := hx.W(p.N)
		n = n.Mul(1 / n.Len())
		vh.Assert(hx.W(q.N).Near(n, 0.0001), "an analysed plane has its normal after reading")
		t := word(s, 3) == "Ttrue"
		vh.Assert(n.Near(lean(t, num(s, 4, 'R')), 0.0001), "the normal of an analysed plane follows from its tilt flag and rotation")
	}
	first := hx.W(planes[0].N)
	vh.Assert(word(planes[0].String(), 3) == "Ttrue", "an overhang on a level bed is printed tilted")
	vh.Assert(vh.And(vh.Near(first.X*w[1], first.Y*w[0], 0.001*w[2]), first.X*w[0]+first.Y*w[1] > 0), "the plane leans towards the overhang")
}

//vh:bounds files of up to three planes, with and without a line break at the end
func H_File() {
	n := vh.Choose("n", 4)
	var lines []string
	var cut []vip.AnalyzedPlane
	for i := 0; i < n; i++ {
		t := []bool{true, false, i != 1}[vh.Choose("t", 3)]
		s := text(hx.V{1, 2, 5 + 4*float64(i)}, t, []float64{-90, 0, 37.5}[(i+vh.Choose("r", 3))%3], 3)
		lines = append(lines, s)
		cut = append(cut, vip.ParsePlane(s))
	}
	all := strings.Join(lines, "\n")
	if vh.B("break") && n > 0 {
		all += "\n"
	}
	f := vh.Dir() + "/planes.txt"
	w, err := os.Create(f)
	vh.Assert(err == nil, "scratch file")
	w.WriteString(all)
	w.Close()
	s := slicers.Settings{GcodeSettings: &gcode.GcodeSettings{LineWidth: 0.4, LayerHeight: 3, BarDiameter: 1.75}, LayerHeight: 3, WallThickness: 0.4, PlanesFile: f}
	if n == 0 {
		return
	}
	got := vip.Slice(box(), s)
	want := vip.SliceByPlanes(box(), s, cut)
	vh.Assert(len(got.Cmds) == len(want.Cmds), "every plane of the file is used, in order")
	for i := range want.Cmds {
		switch x := want.Cmds[i].(type) {
		case gcode.RotateZ:
			y, ok := got.Cmds[i].(gcode.RotateZ)
			vh.Assert(ok, "every plane of the file is used, in order")
			vh.Assert(ok && x.Angle == y.Angle, "the rotations are those of the file")
		case gcode.InclineX:
			_, ok := got.Cmds[i].(gcode.InclineX)
			vh.Assert(ok, "every tilt of the file is used, in order")
		case gcode.InclineXBack:
			_, ok := got.Cmds[i].(gcode.InclineXBack)
			vh.Assert(ok, "every tilt of the file is used, in order")
		default:
			vh.Assert(got.Cmds[i].LayersCount() == x.LayersCount(), "the parts are those of the file's planes")
		}
	}
}

func box() *primitives.Mesh {
	var ts []primitives.Triangle
	p := func(x, y, z float64) primitives.Point { return primitives.Point{X: x, Y: y, Z: z} }
	quad := func(a, b, c, d primitives.Point, n primitives.Vector) {
		ts = append(ts, primitives.Triangle{P1: a, P2: b, P3: c, N: n}, primitives.Triangle{P1: a, P2: c, P3: d, N: n})
	}
	const h = 20
	quad(p(-5, -5, 0), p(-5, 5, 0), p(5, 5, 0), p(5, -5, 0), primitives.V(0, 0, -1))
	quad(p(-5, -5, h), p(5, -5, h), p(5, 5, h), p(-5, 5, h), primitives.V(0, 0, 1))
	quad(p(-5, -5, 0), p(5, -5, 0), p(5, -5, h), p(-5, -5, h), primitives.V(0, -1, 0))
	quad(p(5, -5, 0), p(5, 5, 0), p(5, 5, h), p(5, -5, h), primitives.V(1, 0, 0))
	quad(p(5, 5, 0), p(-5, 5, 0), p(-5, 5, h), p(5, 5, h), primitives.V(0, 1, 0))
	quad(p(-5, 5, 0), p(-5, -5, 0), p(-5, -5, h), p(-5, 5, h), primitives.V(-1, 0, 0))
	m := primitives.NewMesh(ts)
	return &m
}
