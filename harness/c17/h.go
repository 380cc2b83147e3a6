package c17

import (
	"sort"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

type group struct {
	n    hx.V
	at   []float64
	less []bool
}

// directions sorts planes by their direction (either way around).
func directions(ps []primitives.Plane) []*group {
	var gs []*group
	for _, p := range ps {
		n := hx.W(p.N)
		vh.Assert(vh.And(vh.Near(n.Len2(), 1, 1e-6), vh.Near(n.Z, 0, 1e-9)), "filling planes stand upright")
		d := hx.P(p.P).Dot(n)
		var g *group
		for _, x := range gs {
			if vh.Split(n.Near(x.n, 1e-6)) {
				g = x
			} else if vh.Split(n.Near(x.n.Mul(-1), 1e-6)) {
				g, d = x, -d
			}
		}
		if g == nil {
			g = &group{n: n}
			gs = append(gs, g)
		}
		g.at = append(g.at, d)
	}
	return gs
}

// check looks at the planes of one filling: density is the share of the area
// to be covered by lines of a width.
func check(gs []*group, density, width float64, corners []hx.V) {
	step := 0.0
	for i, g := range gs {
		vh.Assert(len(g.at) >= 2, "each direction has lines")
		sort.Slice(g.at, func(i, j int) bool { return g.at[i] < g.at[j] })
		s := g.at[1] - g.at[0]
		if i == 0 {
			step = s
		}
		vh.Assert(vh.And(s > 1e-6, vh.Near(s, step, 1e-7)), "all directions have the same spacing")
		for j := 2; j < len(g.at); j++ {
			vh.Assert(vh.Near(g.at[j]-g.at[j-1], step, 1e-7), "the lines are equally spaced")
		}
		first, last := g.at[0], g.at[len(g.at)-1]
		for _, c := range corners {
			d := c.Dot(g.n)
			vh.Assert(vh.And(first <= d+step+1e-6, last >= d-step-1e-6), "no place of the model is further than one spacing from a line")
		}
	}
	vh.Assert(vh.Near(float64(len(gs))*width*100, density*step, 1e-6*density*step+1e-9), "the share of the area covered by lines is the density")
}

var kinds = []string{"Lines", "Squares", "Triangles", "Other"}
var dirs = []int{1, 2, 3, 1}

// fill calculates the filling of a model in the range of a few spacings around a place.
func fill(kind, density int, corners []hx.V, width float64) {
	var ts []primitives.Triangle
	for i := 0; i < len(corners); i += 3 {
		ts = append(ts, primitives.NewTriangle(corners[i].Pt(), corners[(i+1)%len(corners)].Pt(), corners[(i+2)%len(corners)].Pt()))
	}
	m := primitives.Mesh{Triangles: ts}
	set := slicers.Settings{FillDensity: density, FillingType: kinds[kind], GcodeSettings: &gcode.GcodeSettings{LineWidth: width}}
	sparse, solid := slicers.CalcFillPlanes(&m, set)
	gs := directions(sparse)
	vh.Assert(len(gs) == dirs[kind], "the pattern has its directions")
	check(gs, float64(density), width, corners)
	gs = directions(solid)
	vh.Assert(len(gs) == 1, "the solid filling has one direction")
	check(gs, 100, width, corners)
}

// H_Density: every pattern and density.
//
//vh:bounds four patterns, densities 1, 2, 3, 7, 20, 25, 50, 99, 100 (all from 1 to 100 thorough), a model of four fixed corners up to three spacings away from the origin
//vh:opt concint
func H_Density() {
	kind := vh.Choose("kind", 4)
	d := 0
	if vh.Thorough() {
		d = 1 + vh.Choose("density", 100)
	} else {
		d = []int{1, 2, 3, 7, 20, 25, 50, 99, 100}[vh.Choose("density", 9)]
	}
	w := []float64{0.4, 1.2, 0.05}[vh.Choose("width", 3)]
	step := 100 * w * float64(dirs[kind]) / float64(d)
	if step > 30*w {
		step = 30 * w
	}
	fill(kind, d, []hx.V{{-2 * step, step, 1}, {step, 2 * step, 2}, {2.5 * step, -step, 0}}, w)
}

// H_Place: a model with a corner at any place.
//
//vh:bounds a triangle with one corner (two thorough) at any place within three line widths from the origin, three patterns, densities 100 and 34, a line width of 1
//vh:opt concint
func H_Place() {
	kind := vh.Choose("kind", 3)
	cs := []hx.V{{vh.F("x1", -3, 3), vh.F("y1", -3, 3), 0}, {0.5, -0.3, 5}, {-1, 0.8, 9}}
	if vh.Thorough() {
		cs[1] = hx.V{vh.F("x2", -3, 3), vh.F("y2", -3, 3), 5}
	}
	fill(kind, []int{100, 34}[vh.Choose("density", 2)], cs, 1)
}

// H_Far: a model away from the origin.
//
//vh:bounds a box of two by two line widths at any place within 4 line widths from the origin, three patterns, density 100 (and 40 thorough)
//vh:opt concint
func H_Far() {
	kind := vh.Choose("kind", 3)
	x, y := vh.F("x", -4, 4), vh.F("y", -4, 4)
	d := 100
	if vh.Thorough() {
		d = []int{100, 40}[vh.Choose("density", 2)]
	}
	fill(kind, d, []hx.V{{x, y, 0}, {x + 2, y, 0}, {x + 2, y + 2, 0}, {x, y + 2, 1}, {x, y, 3}, {x + 2, y + 2, 4}}, 1)
}
