package c28

import (
	"math"

	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

var names = []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j"}

// H_Middle: the middle of directions that span less than half a turn.
//vh:bounds 1 to 6 directions (9 thorough) of any place on rings of 360, 24, 7 and 1000 steps
func H_Middle() {
	max := 6
	if vh.Thorough() {
		max = 9
	}
	n := 1 + vh.Choose("n", max)
	biggest := []int{360, 24, 7, 1000}[vh.Choose("ring", 4)]
	big := float64(biggest)
	// directions start, start+o1, ... of which the last k have passed zero
	k := vh.Choose("passed", n)
	start := vh.F("start", 0, 1000)
	vh.Assume(start < big)
	o, sum := 0.0, 0.0
	var arr, passed []float64
	for i := 0; i < n; i++ {
		if i > 0 {
			o += vh.F("step"+names[i], 0, 500)
		}
		sum += o
		if i < n-k {
			vh.Assume(start+o < big)
			arr = append(arr, start+o)
		} else {
			vh.Assume(start+o >= big)
			passed = append(passed, start+o-big)
		}
	}
	vh.Assume(o < big/2)
	arr = append(passed, arr...)
	got := float64(slicers.MiddleOnTheRing(arr, biggest))
	vh.Assert(vh.And(got >= 0, got < big), "the middle is from zero up to a full turn")
	mean := start + sum/float64(n)
	at := func(g float64) bool { return vh.And(g <= mean+1e-9, mean < g+1+1e-9) }
	vh.Assert(vh.Or(at(got), at(got+big)), "the middle is the circular mean truncated")
}

// H_Turned: turning all directions by whole degrees turns the middle.
//vh:bounds 2 to 4 whole directions within half a turn, turned by any whole number of degrees
func H_Turned() {
	n := 2 + vh.Choose("n", 3)
	by := vh.I("by", 0, 359)
	start := vh.I("start", 0, 359)
	o := 0
	var a, b, a2, b2 []float64
	for i := 0; i < n; i++ {
		if i > 0 {
			o += vh.I("step"+names[i], 0, 179)
		}
		vh.Assume(o < 180)
		x := start + o
		if vh.Split(x >= 360) {
			a2 = append(a2, float64(x-360))
		} else {
			a = append(a, float64(x))
		}
		y := start + by + o
		if vh.Split(y >= 720) {
			vh.Assume(false)
		}
		if vh.Split(y >= 360) {
			b2 = append(b2, float64(y-360))
		} else {
			b = append(b, float64(y))
		}
	}
	p := slicers.MiddleOnTheRing(append(a2, a...), 360)
	q := slicers.MiddleOnTheRing(append(b2, b...), 360)
	vh.Assert(vh.Or(p+by == q, p+by == q+360, p+by == q+720), "the middle does not depend on where zero is")
}

// rect is a clockwise rectangle around c, listed from one of its corners.
func rect(c hx.V, a, b float64, from int) primitives.Path {
	var p primitives.Path
	s := [][2]float64{{-1, -1}, {-1, 1}, {1, 1}, {1, -1}}
	for i := 0; i <= 4; i++ {
		k := s[(i+from)%4]
		p.Points = append(p.Points, hx.V{c.X + k[0]*a, c.Y + k[1]*b, c.Z}.Pt())
	}
	return p
}

// reach is how far it is from p to the border of a rectangle around c.
func reach(p, c hx.V, a, b float64, dx, dy float64) float64 {
	r := math.Inf(1)
	if dx > 1e-9 {
		r = (c.X + a - p.X) / dx
	} else if dx < -1e-9 {
		r = (c.X - a - p.X) / dx
	}
	if dy > 1e-9 || dy < -1e-9 {
		s := (c.Y + b - p.Y) / dy
		if dy < 0 {
			s = (c.Y - b - p.Y) / dy
		}
		if dx > -1e-9 && dx < 1e-9 {
			return s
		}
		r = vh.Ite(s < r, s, r)
	}
	return r
}

var tan40 = math.Tan(40 * math.Pi / 180)

// holes are the sizes of the holes of the lower and the upper layer, if they have any,
// and first tells whether their contours are listed first.
var holes []float64
var first bool

// ring is a rectangle, with a hole or not.
func ring(c hx.V, a, b float64, from, of int) (ps []primitives.Path) {
	ps = []primitives.Path{rect(c, a, b, from)}
	if holes == nil {
		return
	}
	h := rect(c, holes[of], holes[of], from)
	for i := 0; i < 2; i++ {
		h.Points[i], h.Points[4-i] = h.Points[4-i], h.Points[i]
	}
	if first {
		return []primitives.Path{h, ps[0]}
	}
	return append(ps, h)
}

// at is where the layers stand.
var at = hx.V{X: 25, Y: -40}

func fails(at, c hx.V, a, b, h float64) *primitives.Plane {
	from := vh.Choose("from", 2) * 3
	low := primitives.Layer{Paths: ring(at, 10, 10, from, 0)}
	c.Z = h
	up := primitives.Layer{Paths: ring(c.Add(at), a, b, from, 1)}
	some := false
	for j := 0; j < 36; j++ {
		an := float64(10*j) * math.Pi / 180
		dx, dy := math.Cos(an), math.Sin(an)
		lean := reach(c, c, a, b, dx, dy) - reach(c, hx.V{}, 10, 10, dx, dy)
		vh.Assume(vh.Or(lean >= h*tan40+1e-5, lean <= h*tan40-1e-5))
		some = vh.Or(some, lean > h*tan40)
	}
	got := slicers.CalculateFails(low, up)
	if vh.Split(some) {
		vh.Assert(got != nil, "a layer that leans out too far is reported")
		p, n := hx.P(got.P).Sub(at), hx.W(got.N)
		on := func(u, v, w float64) bool { return vh.And(vh.Near(u, w, 1e-5), v <= 10+1e-5, v >= -10-1e-5) }
		vh.Assert(vh.And(vh.Near(p.Z, 0, 1e-6), vh.Or(on(p.X, p.Y, 10), on(p.X, p.Y, -10), on(p.Y, p.X, 10), on(p.Y, p.X, -10))), "the cutting plane goes through the contour of the lower layer")
		vh.Assert(vh.And(vh.Near(n.Len2(), 1, 1e-6), vh.Near(n.Z, 0.5, 1e-6)), "the cutting plane is tilted by the angle of the bed")
		return got
	}
	vh.Assert(got == nil, "a layer that does not lean out too far is not reported")
	return nil
}

// lean tries a family of layers at one of three heights (two if quick).
func heights() float64 {
	if vh.Thorough() {
		return []float64{0.2, 0.5, 1}[vh.Choose("h", 3)]
	}
	return 0.5
}

// H_Grown: layers that grow or shrink to all sides.
//vh:bounds a square and a square above it that grows or shrinks by up to 3 at height 0.5 (0.2, 0.5, 1 thorough)
func H_Grown() {
	t := vh.F("t", -3, 3)
	fails(hx.V{}, hx.V{}, 10+t, 10+t, heights())
}

// H_Hole: layers with holes, which are not outlines.
//
//vh:bounds a square and a square above it that grows by up to 1 at height 0.5, with holes of half size 4 below and 2 to 7 above listed before or after the outline
func H_Hole() {
	t := vh.F("t", 0, 1)
	holes = []float64{4, vh.F("hole", 2, 7)}
	first = vh.Choose("first", 2) == 1
	fails(hx.V{}, hx.V{}, 10+t, 10+t, 0.5)
}

// H_Wider: layers that grow or shrink to two sides.
//vh:bounds a square and a rectangle above it that grows or shrinks along x by up to 3 at height 0.5 (0.2, 0.5, 1 thorough)
func H_Wider() {
	t := vh.F("t", -3, 3)
	fails(at, hx.V{}, 10+t, 10, heights())
}

// H_ShiftX: layers that are shifted along x.
//vh:bounds a square and a square above it shifted along x by up to 3 at height 0.5 (0.2, 0.5, 1 thorough)
func H_ShiftX() {
	t := vh.F("t", -3, 3)
	if got := fails(at, hx.V{X: t}, 10, 10, heights()); got != nil {
		vh.Assert(vh.And((got.P.X-at.X)*t >= 0, vh.Near(got.P.Y, at.Y, 0.35)), "the cutting plane lies in the middle of the overhanging directions")
	}
}

// H_ShiftY: layers that are shifted along y.
//vh:bounds a square and a square above it shifted along y by up to 3 to the back (to both sides thorough) at height 0.5 (0.2, 0.5, 1 thorough)
func H_ShiftY() {
	t := vh.F("t", -3, 3)
	if !vh.Thorough() {
		vh.Assume(t < 0)
	}
	if got := fails(at, hx.V{Y: t}, 10, 10, heights()); got != nil {
		vh.Assert(vh.And((got.P.Y-at.Y)*t >= 0, vh.Near(got.P.X, at.X, 0.35)), "the cutting plane lies in the middle of the overhanging directions")
	}
}

// T_ShiftXY: layers that are shifted along a slanting direction.
//vh:bounds a square and a square above it shifted along two slanting directions by up to 3 at heights 0.2, 0.5, 1
func T_ShiftXY() {
	t := vh.F("t", -3, 3)
	if vh.Choose("dir", 2) == 0 {
		fails(at, hx.V{X: t, Y: t}, 10, 10, heights())
	} else {
		fails(at, hx.V{X: t, Y: -t / 2}, 10, 10, heights())
	}
}

// T_Narrow: a narrower layer that is shifted.
//vh:bounds a square and a narrower rectangle above it shifted along x by up to 3 at heights 0.2, 0.5, 1
func T_Narrow() {
	t := vh.F("t", -3, 3)
	fails(at, hx.V{X: t}, 10, 9, heights())
}

// H_Same: layers that stand right above one another.
//vh:bounds any rectangle with sides of 0.1 to 40 above itself at any height from 0.05 to 1
func H_Same() {
	h := vh.F("h", 0.05, 1)
	a := 1.0
	k := vh.F("k", 0.05, 20)
	low := primitives.Layer{Paths: []primitives.Path{rect(hx.V{}, a*k, k, 0)}}
	up := primitives.Layer{Paths: []primitives.Path{rect(hx.V{Z: h}, a*k, k, 0)}}
	vh.Assert(slicers.CalculateFails(low, up) == nil, "a layer right above another is not reported")
}


// H_Needle: thin parts that lean a little.
//vh:bounds any square with sides of 0.04 to 1 shifted to the front (to six sides thorough) by less than its half and less than 0.55 of the distance of the layers, which is 0.05 to 1; begun at any corner thorough
func H_Needle() {
	h := vh.F("h", 0.05, 1)
	k := vh.F("k", 0.02, 0.5)
	ways := 1
	if vh.Thorough() {
		ways = 6
	}
	d := [][2]float64{{0, -1}, {0.6, 0.8}, {1, 0}, {-1, 0}, {0, 1}, {-0.8, 0.6}}[vh.Choose("way", ways)]
	s := vh.F("shift", 0, 0.4)
	vh.Assume(vh.And(s < 0.55*h, s < 0.9*k))
	from := 0
	if vh.Thorough() {
		from = vh.Choose("from", 4)
	}
	low := primitives.Layer{Paths: []primitives.Path{rect(hx.V{}, k, k, from)}}
	up := primitives.Layer{Paths: []primitives.Path{rect(hx.V{X: s * d[0], Y: s * d[1], Z: h}, k, k, from)}}
	vh.Assert(slicers.CalculateFails(low, up) == nil, "a thin part that leans a little is not reported")
}
