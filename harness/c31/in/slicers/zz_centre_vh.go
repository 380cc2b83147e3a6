package slicers

import (
	"github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/zzverif/hx"
	"github.com/l1va/goosli/zzverif/vh"
)

// middle of a rectangle (C26).
func middle(p primitives.Path) primitives.Point {
	return hx.P(p.Points[0]).Add(hx.P(p.Points[2])).Mul(0.5).Pt()
}

func slab(c hx.V, a, b float64, turn int) (p primitives.Path) {
	s := [][2]float64{{-1, -1}, {1, -1}, {1, 1}, {-1, 1}}
	for i := 0; i <= 4; i++ {
		k := s[(i+turn)%4]
		p.Points = append(p.Points, c.Add(hx.V{X: k[0] * a, Y: k[1] * b}).Pt())
	}
	return
}

// H_Centres: the line that the profile mode follows.
//
//vh:bounds three layers of one to three rectangles each, anywhere
//vh:opt replace=primitives.FindCentroid:middle
func H_Centres() {
	var ls []primitives.Layer
	var want []hx.V
	for i := 0; i < 3; i++ {
		n := 1 + vh.Choose("contours", 3)
		if i > 0 {
			n = 4 - i
		}
		l, sum := primitives.Layer{Order: i}, hx.V{}
		for j := 0; j < n; j++ {
			k := string(rune('a'+i)) + string(rune('0'+j))
			c := hx.V{X: vh.F("x"+k, -100, 100), Y: vh.F("y"+k, -100, 100), Z: 5 * float64(i)}
			l.Paths = append(l.Paths, slab(c, 2, 3, j%4))
			sum = sum.Add(c)
		}
		ls, want = append(ls, l), append(want, sum.Mul(1/float64(n)))
	}
	got := calculateCenters(ls)
	vh.Assert(len(got) == len(want), "every layer has a centre")
	for i := range got {
		vh.Assert(hx.P(got[i]).Near(want[i], 1e-6), "the centre of a layer is the mean of those of its contours")
	}
}
