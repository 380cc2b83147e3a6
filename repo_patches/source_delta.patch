From 316cac53088d399d0cbfdc534d7d611c3436cd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:30 +0000
Subject: [PATCH 01/34] fix: JoinPaths3: order points consistently when
 coordinates nearly coincide

---
 primitives/path.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/primitives/path.go b/primitives/path.go
index e1b1cd0..22b212b 100644
--- a/primitives/path.go
+++ b/primitives/path.go
@@ -128,7 +128,13 @@ func JoinPaths3(p []Path) []Path {
 	sort.Slice(a, func(i, j int) bool {
 		b := a[i].P
 		c := a[j].P
-		return b.X < c.X || (AlmostZero(b.X-c.X) && b.Y < c.Y) || (AlmostZero(b.X-c.X) && AlmostZero(b.Y-c.Y) && b.Z < c.Z)
+		if !AlmostZero(b.X - c.X) {
+			return b.X < c.X
+		}
+		if !AlmostZero(b.Y - c.Y) {
+			return b.Y < c.Y
+		}
+		return b.Z < c.Z
 	})
 
 	for i := 1; i < len(a); i++ {
-- 
2.43.0


From cd74d2539060a2c37497bb582546e436fbbaaab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 02/34] fix: JoinPaths3: join paths also where several of them
 begin or end in one point

---
 primitives/path.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/primitives/path.go b/primitives/path.go
index 22b212b..115a022 100644
--- a/primitives/path.go
+++ b/primitives/path.go
@@ -137,10 +137,11 @@ func JoinPaths3(p []Path) []Path {
 		return b.Z < c.Z
 	})
 
-	for i := 1; i < len(a); i++ {
-		b := a[i-1]
-		c := a[i]
-		if b.P.Equal(c.P) {
+	for i := 0; i < len(a); i++ {
+		b := a[i]
+		//several paths can begin and end in the same point, so check all pairs of its group
+		for j := i + 1; j < len(a) && b.P.Equal(a[j].P); j++ {
+			c := a[j]
 			j1 := b.Ind
 			for w[j1] != j1 {
 				j1 = w[j1]
-- 
2.43.0


From e0bfdeaf399f6def6bace161871bba3f9d91013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 03/34] fix: MinimizeLines: keep the turning points of paths
 that go back along themselves

---
 primitives/line.go | 5 +++++
 primitives/path.go | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/primitives/line.go b/primitives/line.go
index c613134..16fef0a 100644
--- a/primitives/line.go
+++ b/primitives/line.go
@@ -108,6 +108,11 @@ func (l1 Line) IsCollinear(l2 Line) bool {
 	return AlmostZero(res.Length())
 }
 
+// IsContinuedBy tells if l2 goes on in the direction of l1 (and does not turn back along it).
+func (l1 Line) IsContinuedBy(l2 Line) bool {
+	return l1.IsCollinear(l2) && l1.ToVector().CodirectedWith(l2.ToVector())
+}
+
 // find instersection of lines https://math.stackexchange.com/questions/270767/find-intersection-of-two-3d-lines
 func (l1 Line) IntersectLine2(l2 Line) *Point {
 	f := l2.ToVector()
diff --git a/primitives/path.go b/primitives/path.go
index 115a022..8cd2f0d 100644
--- a/primitives/path.go
+++ b/primitives/path.go
@@ -189,7 +189,7 @@ func (p Path) MinimizeLines() Path {
 	for i := 2; i < len(p.Points); i++ {
 		pt := p.Points[i]
 		l2 := Line{l1.P2, pt}
-		if l1.IsCollinear(l2) {
+		if l1.IsContinuedBy(l2) {
 			l1.P2 = pt
 			res.Points[len(res.Points)-1] = pt
 		} else {
@@ -199,7 +199,7 @@ func (p Path) MinimizeLines() Path {
 	}
 	if res.IsClosed() { //check first and last line in the closed path (rest are ok here)
 		l2 := Line{res.Points[0], res.Points[1]}
-		if l1.IsCollinear(l2) {
+		if l1.IsContinuedBy(l2) {
 			if l1.Len() > l2.Len() {
 				res.Points[len(res.Points)-1] = res.Points[1] //not first because first is equal to last
 				res.Points = res.Points[1:]
-- 
2.43.0


From 17a4aaa24589f4699240c746d9cc87bd7c1276f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 04/34] fix: Vector.Angle: opposite vectors are at 180 degrees
 also when rounding leads past -1

---
 primitives/vector.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/primitives/vector.go b/primitives/vector.go
index 6b59534..7e3d557 100644
--- a/primitives/vector.go
+++ b/primitives/vector.go
@@ -82,9 +82,8 @@ func (a Vector) Reverse() Vector {
 
 func (a Vector) Angle(b Vector) float64 {
 	v := a.Dot(b) / a.Length() / b.Length()
-	if v < -1 || v > 1 {
-		return 0
-	}
+	// rounding may lead slightly out of the range of a cosine
+	v = math.Max(-1, math.Min(1, v))
 	return math.Acos(v) * 180 / math.Pi
 }
 
-- 
2.43.0


From 6fae3f269d2b4c1c792385079174cde7b6f82c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 05/34] fix: segment and triangle intersection: work in every
 plane and report only real intersections

---
 primitives/line.go     | 56 ++++++++++++++----------------------------
 primitives/triangle.go | 10 +++-----
 2 files changed, 21 insertions(+), 45 deletions(-)

diff --git a/primitives/line.go b/primitives/line.go
index 16fef0a..52eb2f2 100644
--- a/primitives/line.go
+++ b/primitives/line.go
@@ -43,62 +43,42 @@ func (l Line) IsIntersectingSegment(l1 *Line) bool {
 	}
 }
 
+// IntersectLine returns a common point of two segments or nil if there is none.
 func (l Line) IntersectLine(l1 *Line) *Point {
-
-	orientation1 := l1.P1.Orientation(l.P1, l.P2)
-	orientation2 := l1.P2.Orientation(l.P1, l.P2)
-	orientation3 := l.P1.Orientation(l1.P1, l1.P2)
-	orientation4 := l.P2.Orientation(l1.P1, l1.P2)
+	a := l.ToVector()
+	b := l1.ToVector()
+	n := a.Cross(b)
 
 	// General case
-	if orientation1 != orientation2 && orientation3 != orientation4 {
-
-		a := l.ToVector()
-		b := l1.ToVector()
-
-		var m float64
-		m = (l1.P1.Y - l.P1.Y - (a.Y/a.X)*(l1.P1.X-l.P1.X)) / (b.X*a.Y/a.X - b.Y)
-
-		if math.IsNaN(m) {
-			m = (l1.P1.X - l.P1.X - (a.X/a.Y)*(l1.P1.Y-l.P1.Y)) / (a.X*b.Y/a.Y - b.X)
-		}
-		if math.IsNaN(m) {
-			m = (l1.P1.X - l.P1.X - (a.X/a.Z)*(l1.P1.Z-l.P1.Z)) / (a.X*b.Z/a.Z - b.X)
-		}
-		if math.IsNaN(m) {
-			m = (l1.P1.Y - l.P1.Y - (a.Y/a.Z)*(l1.P1.Z-l.P1.Z)) / (a.Y*b.Z/a.Z - b.Y)
+	if n.LengthSquare() > 1e-18*a.LengthSquare()*b.LengthSquare() {
+		g := l.P1.VectorTo(l1.P1)
+		k := g.Cross(b).Dot(n) / n.LengthSquare()
+		m := g.Cross(a).Dot(n) / n.LengthSquare()
+		if k >= 0 && k <= 1 && m >= 0 && m <= 1 && AlmostZero(g.ProjectOn(n).Length()) {
+			p := l1.P1.Shift(b.MulScalar(m))
+			return &p
 		}
-
-		x := l1.P1.X + b.X*m
-		y := l1.P1.Y + b.Y*m
-		z := l1.P1.Z + b.Z*m
-
-		return &Point{x, y, z}
 	}
 
 	// Collinear case
-	if orientation1 == 0 && l.IsCollinearPointOnSegment(l1.P1) {
-		println("l1.P1  ", l1.P1.Z)
+	if l.containsPoint(l1.P1) {
 		return &l1.P1
 	}
-
-	if orientation2 == 0 && l.IsCollinearPointOnSegment(l1.P2) {
-		println("l1.P2  ", l1.P2.Z)
+	if l.containsPoint(l1.P2) {
 		return &l1.P2
 	}
-
-	if orientation3 == 0 && l1.IsCollinearPointOnSegment(l.P1) {
-		println("l.P1  ", l.P1.Z)
+	if l1.containsPoint(l.P1) {
 		return &l.P1
 	}
-
-	if orientation4 == 0 && l1.IsCollinearPointOnSegment(l.P2) {
-		println("l2.P2  ", l.P2.Z)
+	if l1.containsPoint(l.P2) {
 		return &l.P2
 	}
 
 	return nil // Doesn't fall in any of the above cases
+}
 
+func (l Line) containsPoint(p Point) bool {
+	return l.IsCollinearPointOnSegment(p) && l.IsCollinear(Line{l.P1, p})
 }
 
 func (l1 Line) IsCollinear(l2 Line) bool {
diff --git a/primitives/triangle.go b/primitives/triangle.go
index f35b713..c624aa5 100644
--- a/primitives/triangle.go
+++ b/primitives/triangle.go
@@ -138,13 +138,9 @@ func (t *Triangle) PointBelongs(p Point) bool {
 	plane := Plane{P: t.P1, N: t.N}
 	if plane.PointBelongs(p) {
 
-		A := t.P1
-		B := t.P2
-		C := t.P3
-
-		w1 := (A.X - p.X)*(B.Y - A.Y) - (B.X - A.X)*(A.Y - p.Y)
-		w2 := (B.X - p.X)*(C.Y - B.Y) - (C.X - B.X)*(B.Y - p.Y)
-		w3 := (C.X - p.X)*(A.Y - C.Y) - (A.X - C.X)*(C.Y - p.Y)
+		w1 := t.P1.VectorTo(t.P2).Cross(t.P1.VectorTo(p)).Dot(t.N)
+		w2 := t.P2.VectorTo(t.P3).Cross(t.P2.VectorTo(p)).Dot(t.N)
+		w3 := t.P3.VectorTo(t.P1).Cross(t.P3.VectorTo(p)).Dot(t.N)
 
 		if w1>=0 && w2>=0 && w3 >=0 || w1<=0 && w2<=0 && w3 <=0 {
 			return true
-- 
2.43.0


From 7839f29fc6982020af9f7a767d03805d734010d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:45 +0000
Subject: [PATCH 06/34] fix: DeleteInternalLines: edges of three triangles are
 internal, too

---
 helpers/supports_by_vector.go | 31 +++----------------------------
 1 file changed, 3 insertions(+), 28 deletions(-)

diff --git a/helpers/supports_by_vector.go b/helpers/supports_by_vector.go
index 23c3cde..2b2ca91 100644
--- a/helpers/supports_by_vector.go
+++ b/helpers/supports_by_vector.go
@@ -66,32 +66,7 @@ func MakeSupportLines(lines []Line, a Plane) []Line{
 	return pr_lines
 }
 
-func compareAndDeleteLineFromSlice(lines []Line, temp_l Line) []Line {
-	fl := true
-	for j, l := range lines{
-		if temp_l == l || temp_l == l.Reverse() {
-			fl = false
-			lines[j] = lines[len(lines)-1] // Copy last element to index j.
-			lines = lines[:len(lines)-1]   // Truncate slice.
-			break
-		}
-	}
-
-	if fl {
-		lines = append(lines, temp_l)
-	}
-
-	return lines
-}
-
 func DeleteInternalLines(t_arr []Triangle) []Line {
-
-	var	lines []Line
-
-	for _, t := range t_arr {
-		lines = compareAndDeleteLineFromSlice(lines, Line{P1: t.P1, P2: t.P2})
-		lines = compareAndDeleteLineFromSlice(lines, Line{P1: t.P1, P2: t.P3})
-		lines = compareAndDeleteLineFromSlice(lines, Line{P1: t.P3, P2: t.P2})
-	}
-	return lines
-}
\ No newline at end of file
+	// lines of more than two triangles are internal as well
+	return MakeUndoubledLinesFromTriangles(t_arr)
+}
-- 
2.43.0


From 6692d553e4776b9d8bea14dbc97303a4e46a6ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 07/34] fix: SaveSTL reports a failed flush or close

---
 primitives/stl.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/primitives/stl.go b/primitives/stl.go
index 8cbcddc..5a5a6f7 100644
--- a/primitives/stl.go
+++ b/primitives/stl.go
@@ -142,6 +142,8 @@ func SaveSTL(path string, mesh *Mesh) error {
 			return err
 		}
 	}
-	w.Flush()
-	return nil
+	if err := w.Flush(); err != nil {
+		return err
+	}
+	return file.Close()
 }
-- 
2.43.0


From c2516975e01f69df5bf1db195f9bbac00e29b3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:15 +0000
Subject: [PATCH 08/34] fix: centre of a contour of no area is on the contour

---
 primitives/path.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/primitives/path.go b/primitives/path.go
index 8cd2f0d..dfebe06 100644
--- a/primitives/path.go
+++ b/primitives/path.go
@@ -375,6 +375,9 @@ func FindCentroid(path Path) Point { //TODO: refactorme
 	//println("y:", y, " ", y1)
 	//println("z:", z, " ", z1)
 
+	if AlmostZero(a) && AlmostZero(a2) && AlmostZero(a3) { //no area in any projection
+		return path.Points[0]
+	}
 	if AlmostZero(a) && AlmostZero(a2) {
 		x = path.Points[0].X
 		y = y1
-- 
2.43.0


From 15b58d6af8f474996e501af2d2068e1489a816f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 09/34] fix: Inside counts a contour corner on the test plane
 once

---
 primitives/point.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/primitives/point.go b/primitives/point.go
index 681115b..e507833 100644
--- a/primitives/point.go
+++ b/primitives/point.go
@@ -92,6 +92,9 @@ func (a Point) Inside(path Path) bool {
 	v := a.VectorTo(path.Points[0]).ProjectOnPlane(pl)
 	c := 0
 	for i := 1; i < len(path.Points); i++ {
+		if pl.PointInFront(path.Points[i-1]) == pl.PointInFront(path.Points[i]) {
+			continue // a corner on the plane is in front of it, so that it is counted once
+		}
 		inters := pl.IntersectSegment(path.Points[i-1], path.Points[i])
 		if inters != nil && a.VectorTo(*inters).CodirectedWith(v) {
 			c += 1
-- 
2.43.0


From b413970d221782a7b7005008521dcc0ab004976e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:01 +0000
Subject: [PATCH 10/34] fix: CalculateFails reports only layers that lean
 outwards

---
 slicers/slice_5axes.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index d2cc184..08ace7f 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -171,7 +171,9 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 				if curPi != nil {
 					prevPi := pl.IntersectPathCodirectedWith(*prevPath, curX)
 					if prevPi != nil {
-						if AxisZ.Angle(prevPi.VectorTo(*curPi)) > failAngle {
+						incline := prevPi.VectorTo(*curPi)
+						// only inclines to the outside hang over the previous layer
+						if incline.CodirectedWith(curX) && AxisZ.Angle(incline) > failAngle {
 							failsCur = append(failsCur, float64(j*angleDist))
 						}
 					}
-- 
2.43.0


From 93901c79232529641f08f12c32470b6588388aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:42 +0000
Subject: [PATCH 11/34] fix: SliceByVector survives flat meshes and empty
 layers

---
 slicers/slice_by_vector.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slicers/slice_by_vector.go b/slicers/slice_by_vector.go
index 932b607..cd2d8e4 100644
--- a/slicers/slice_by_vector.go
+++ b/slicers/slice_by_vector.go
@@ -42,6 +42,9 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 
 	minz, maxz := mesh.MinMaxZ(Z)
 	n := int(math.Ceil((maxz - minz) / thickness))
+	if n == 0 { // flat mesh
+		return nil
+	}
 
 	sh := Z.MulScalar(maxz - minz).MulScalar(1.0 / float64(n))
 
@@ -128,10 +131,10 @@ func SliceByVector(mesh *Mesh, Z Vector, settings Settings) []Layer {
 	})
 
 	// filter out empty layers
-	if len(layers[0].Paths) == 0 {
+	if len(layers) > 0 && len(layers[0].Paths) == 0 {
 		layers = layers[1:]
 	}
-	if len(layers[len(layers)-1].Paths) == 0 {
+	if len(layers) > 0 && len(layers[len(layers)-1].Paths) == 0 {
 		layers = layers[:len(layers)-1]
 	}
 
-- 
2.43.0


From 98fbc66c9dbe8bef0f7ab05de1346910fc697766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:05 +0000
Subject: [PATCH 12/34] fix: CutMesh keeps triangles that touch the plane in
 one corner

---
 helpers/cut_mesh.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index c84ee5c..152c541 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -3,7 +3,6 @@ package helpers
 import (
 	. "github.com/l1va/goosli/primitives"
 	//	"fmt"
-	"log"
 )
 
 //CutMesh mesh in two meshes, first that inFront of plane, second - outFront
@@ -39,8 +38,8 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 			up = append(up, t)
 		} else if len(inFront) == 2 {
 			line := p.IntersectTriangle(&t)
-			if line == nil {
-				log.Printf("failed to intersect triangle by plane2, skip it: %v, %v\n", t, p)
+			if line == nil { // touches the plane only
+				up = append(up, t)
 				continue
 			}
 			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
@@ -53,8 +52,8 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 
 		} else if len(inFront) == 1 {
 			line := p.IntersectTriangle(&t)
-			if line == nil {
-				log.Printf("failed to intersect triangle by plane1, skip it: %v, %v\n", t, p)
+			if line == nil { // touches the plane only
+				down = append(down, t)
 				continue
 			}
 			inters = append(inters, Path{Points: []Point{line.P1, line.P2}})
-- 
2.43.0


From c798c97cd2790f1d6d4b6f329c10321c3c3e4386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:07 +0000
Subject: [PATCH 13/34] fix: splitting a cut triangle does not depend on its
 size

---
 helpers/cut_mesh.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index 152c541..eac1e00 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -111,7 +111,8 @@ func splitOnThree(p1 Point, line Line, t Triangle) []Triangle {
 		t1, t2, t3 = t3, t1, t2
 	}
 
-	if AlmostZero(t1.VectorTo(t2).Cross(t1.VectorTo(lp2)).Length()) {
+	t12 := t1.VectorTo(t2)
+	if t12.Cross(t1.VectorTo(lp2)).Length() < t12.Cross(t1.VectorTo(lp1)).Length() {
 		// lp2 lies on t1->t2 vector, but should lp1 lie
 		lp1, lp2 = lp2, lp1
 	}
-- 
2.43.0


From 006cfca5afdd0dd9ce2a3682aaa720a112ed343b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:34 +0000
Subject: [PATCH 14/34] fix: the cut of a concave or hollow section is closed
 exactly

---
 helpers/cut_mesh.go | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/helpers/cut_mesh.go b/helpers/cut_mesh.go
index eac1e00..733cabd 100644
--- a/helpers/cut_mesh.go
+++ b/helpers/cut_mesh.go
@@ -79,15 +79,10 @@ func CutMesh(mesh *Mesh, p Plane) (*Mesh, *Mesh, error) {
 	for _, pth := range joined { //generate addition triangles to close the cut
 		//debug.AddPath(pth, debug.GreenColor)
 		for j := 1; j < len(pth.Points)-1; j++ {
-			t := NewTriangle(pth.Points[0], pth.Points[j], pth.Points[j+1])
-			t2 := NewTriangle(pth.Points[j+1], pth.Points[j], pth.Points[0]) //with reverse normal
-			if t.N.CodirectedWith(p.N) { //triangle normal should go inside the mesh
-				up = append(up, t2)
-				down = append(down, t)
-			} else {
-				up = append(up, t)
-				down = append(down, t2)
-			}
+			// sections run with the outside on one hand, so all triangles of a path in its own direction
+			// cover exactly the inside, even if the path is concave or goes around a hole
+			up = append(up, NewTriangle(pth.Points[0], pth.Points[j], pth.Points[j+1]))
+			down = append(down, NewTriangle(pth.Points[j+1], pth.Points[j], pth.Points[0])) //with reverse normal
 		}
 	}
 
-- 
2.43.0


From 95fd57e5018563f6cb5a456eb1cf7b10c8d553d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:56 +0000
Subject: [PATCH 15/34] fix: the densities of the squares and triangles
 fillings are not rounded

---
 slicers/fill_layer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slicers/fill_layer.go b/slicers/fill_layer.go
index 14ed9eb..75d76f7 100644
--- a/slicers/fill_layer.go
+++ b/slicers/fill_layer.go
@@ -37,7 +37,7 @@ func CalcFillPlanesLines(mesh *Mesh, settings Settings) []Plane {
 
 // filling with squares
 func CalcFillPlanesSquares(mesh *Mesh, settings Settings) []Plane {
-	step := (100 / float64(settings.FillDensity/2)) * settings.GcodeSettings.LineWidth
+	step := (100 / (float64(settings.FillDensity) / 2)) * settings.GcodeSettings.LineWidth
 
 	//planes := calcFillPlanesCommon(mesh, settings, V(1, 0, 0), step)
 	//planes = append(planes, CalcFillPlanes0(mesh, settings, V(0, 1, 0), step)...)
@@ -50,7 +50,7 @@ func CalcFillPlanesSquares(mesh *Mesh, settings Settings) []Plane {
 
 // filling with triangles
 func CalcFillPlanesTriangles(mesh *Mesh, settings Settings) []Plane {
-	step := (100 / float64(settings.FillDensity/3)) * settings.GcodeSettings.LineWidth
+	step := (100 / (float64(settings.FillDensity) / 3)) * settings.GcodeSettings.LineWidth
 
 	planes := calcFillPlanesCommon(mesh, settings, V(1, 0, 0), step)
 	planes = append(planes, calcFillPlanesCommon(mesh, settings, V(0.5, 0.8660254038, 0), step)...)
-- 
2.43.0


From 7d635e458f6f47097dff006f16f52a13cf655073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:58 +0000
Subject: [PATCH 16/34] fix: filling reaches the farthest corner of the model

---
 slicers/fill_layer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slicers/fill_layer.go b/slicers/fill_layer.go
index 75d76f7..16a4bdd 100644
--- a/slicers/fill_layer.go
+++ b/slicers/fill_layer.go
@@ -10,9 +10,10 @@ import (
 func calcFillPlanesCommon(mesh *Mesh, settings Settings, MyAxis Vector, step float64) []Plane {
 	mina, maxa := mesh.MinMaxZ(AxisX)
 	minb, maxb := mesh.MinMaxZ(AxisY)
-	a, b := math.Sqrt(mina*mina+minb*minb), math.Sqrt(maxa*maxa+maxb*maxb)
+	a, b := math.Max(math.Abs(mina), math.Abs(maxa)), math.Max(math.Abs(minb), math.Abs(maxb))
+	r := math.Sqrt(a*a + b*b) // no corner is farther from the origin
 
-	minx, maxx := - math.Max(a, b), math.Max(a, b) //TODO: hack, seems will work not always (rotations and inclinations)
+	minx, maxx := -r, r //TODO: hack, seems will work not always (rotations and inclinations)
 	//get minx which is  "k * step"
 	minx_step := float64(math.Floor((minx)/step)) * step
 	n := int(math.Ceil((maxx - minx_step) / step))
-- 
2.43.0


From a02551f91316ba167c4d1868e7c0bf9db0efbacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 17/34] fix: filling planes through the corners of contours
 fill what is inside

---
 slicers/fill_layer.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/slicers/fill_layer.go b/slicers/fill_layer.go
index 16a4bdd..9ae2ac2 100644
--- a/slicers/fill_layer.go
+++ b/slicers/fill_layer.go
@@ -210,11 +210,18 @@ func intersectByPlanePolygonWise(pathes []Path, plane Plane) []Path {
 }
 
 func intersectByPlane(pathes []Path, plane Plane) []Path {
+	z := plane.P.ToVector().Dot(plane.N)
 	pts := []Point{}
 	for _, pth := range pathes {
 		for i := 1; i < len(pth.Points); i++ {
-
-			p := plane.IntersectSegment(pth.Points[i-1], pth.Points[i])
+			p1, p2 := pth.Points[i-1], pth.Points[i]
+			if i == len(pth.Points)-1 && pth.IsClosed() {
+				p2 = pth.Points[0] // can differ a little
+			}
+			if (p1.ToVector().Dot(plane.N) >= z) == (p2.ToVector().Dot(plane.N) >= z) {
+				continue // a corner on the plane is in front of it, so that the contour crosses it there once or not at all
+			}
+			p := plane.IntersectSegment(p1, p2)
 			if p != nil {
 				pts = append(pts, *p)
 			}
@@ -234,20 +241,14 @@ func intersectByPlane(pathes []Path, plane Plane) []Path {
 		})
 	}
 
-	if len(pts) > 4 {
-		paths := []Path{}
-		for i := 1; i < len(pts); i += 2 {
-			paths = append(paths, Path{Points: []Point{pts[i-1], pts[i]}})
+	var paths []Path
+	for i := 1; i < len(pts); i += 2 {
+		if pts[i-1].Equal(pts[i]) {
+			continue // only touches a corner
 		}
-		return paths
-	}
-	if len(pts) == 2 || len(pts) == 3 {
-		return []Path{{Points: []Point{pts[0], pts[len(pts)-1]}}}
-	}
-	if len(pts) == 4 {
-		return []Path{{Points: []Point{pts[0], pts[1]}}, {Points: []Point{pts[2], pts[3]}}}
+		paths = append(paths, Path{Points: []Point{pts[i-1], pts[i]}})
 	}
-	return nil //can not happen
+	return paths
 }
 
 func nearAngle(val, near float64) bool {
-- 
2.43.0


From 5a4a81ed24fe979855e5b4197bd8f335a34ed694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:04 +0000
Subject: [PATCH 18/34] fix: walls and skirts: corners at the first line, sharp
 corners and vanishing sides

---
 primitives/line.go         |  7 ++--
 slicers/vip/offset_path.go | 86 ++++++++++++++++++++++----------------
 2 files changed, 54 insertions(+), 39 deletions(-)

diff --git a/primitives/line.go b/primitives/line.go
index 52eb2f2..b4e8230 100644
--- a/primitives/line.go
+++ b/primitives/line.go
@@ -101,8 +101,8 @@ func (l1 Line) IntersectLine2(l2 Line) *Point {
 	a := f.Cross(g)
 	b := f.Cross(e)
 	//println(a.Length(), b.Length())
-	if AlmostZero(a.Length()) || AlmostZero(b.Length()) {
-		println("A OR B ZERO", StrF(a.Length()), StrF(b.Length()), StrF(l1.Len()), StrF(l2.Len()), StrF(g.Length()))
+	if AlmostZero(b.Length()) {
+		println("B ZERO", StrF(a.Length()), StrF(b.Length()), StrF(l1.Len()), StrF(l2.Len()), StrF(g.Length()))
 		return nil
 	}
 	c := 1.0
@@ -110,8 +110,7 @@ func (l1 Line) IntersectLine2(l2 Line) *Point {
 		c = -1.0
 	}
 	inters := l1.P1.Shift(e.MulScalar(c * a.Length() / b.Length()))
-	if math.IsNaN(inters.X) || math.IsNaN(inters.Y) || math.IsNaN(inters.Z) || inters.DistanceTo(l1.P2) > 2 || inters.DistanceTo(l2.P1) > 2 { //TODO: distance?
-		println("MORE 5", StrF(inters.DistanceTo(l1.P2)), StrF(inters.DistanceTo(l2.P1)))
+	if math.IsNaN(inters.X) || math.IsNaN(inters.Y) || math.IsNaN(inters.Z) {
 		return nil
 	}
 
diff --git a/slicers/vip/offset_path.go b/slicers/vip/offset_path.go
index 689a430..c81b13f 100644
--- a/slicers/vip/offset_path.go
+++ b/slicers/vip/offset_path.go
@@ -26,64 +26,80 @@ func MakeOffset(pth Path, nozzle float64, norm Vector) *Path {
 	closedPath := pth.IsClosed() //TODO: refactor everything here
 	if closedPath {
 		newPth = append(newPth, newPth[0]) // add first line to the end
+		copyNewPth = append(copyNewPth, copyNewPth[0])
 	} else {
 		println("not closed ", StrF(pth.Points[0].DistanceTo(pth.Points[len(pth.Points)-1])))
 	}
 	for i := 0; i < len(newPth)-1; i++ {
-		inters := newPth[i].IntersectLine2(newPth[i+1])
-		if inters != nil {
-			newPth[i].P2 = *inters
-			newPth[i+1].P1 = *inters
-		} else {
+		if !joinOffsetLines(&newPth[i], &newPth[i+1], copyNewPth[i], copyNewPth[i+1], nozzle) {
 			debug.AddLine(newPth[i], debug.GreenColor)
 			debug.AddLine(Line{newPth[i+1].P1, newPth[i+1].P2.Shift(AxisX.MulScalar(15))}, debug.RedColor)
 			newPth[i+1].P1 = newPth[i].P2
 		}
 	}
 	if closedPath {
-		newPth[0] = newPth[len(newPth)-1]
+		newPth[0].P1 = newPth[len(newPth)-1].P1
 		newPth = newPth[:len(newPth)-1] //remove added line
-	}
-	var remove []bool
-	var afterRemove []Line
-	for i := 0; i < len(newPth); i++ {
-		if newPth[i].ToVector().CodirectedWith(copyNewPth[i].ToVector()) {
-			remove = append(remove, false)
-			afterRemove = append(afterRemove, newPth[i])
-		} else {
-			remove = append(remove, true) //remove if become reversed
-		}
+		copyNewPth = copyNewPth[:len(newPth)]
 	}
 
-	num := len(afterRemove) - 1
+	minCount := 2
 	if closedPath {
-		num = len(afterRemove)
+		minCount = 3
 	}
-	for i := 0; i < num; i++ {
-		a := afterRemove[i]
-		b := afterRemove[(i+1)%len(afterRemove)]
-		if !AlmostZero(a.P2.DistanceTo(b.P1)) {
-			inters := a.IntersectLine2(b)
-			if inters != nil {
-				a.P2 = *inters
-				b.P1 = *inters
-			} else {
-				debug.AddLine(a, debug.BlueColor)
+	for {
+		var afterRemove, copyAfterRemove []Line
+		for i := 0; i < len(newPth); i++ {
+			if newPth[i].ToVector().Dot(copyNewPth[i].ToVector()) > 0 { //remove if become reversed or nothing is left
+				afterRemove = append(afterRemove, newPth[i])
+				copyAfterRemove = append(copyAfterRemove, copyNewPth[i])
+			}
+		}
+		if len(afterRemove) < minCount {
+			return nil
+		}
+		removed := len(afterRemove) < len(newPth)
+		newPth, copyNewPth = afterRemove, copyAfterRemove
+		if !removed {
+			break
+		}
+
+		num := len(newPth) - 1
+		if closedPath {
+			num = len(newPth)
+		}
+		for i := 0; i < num; i++ { // can reverse more lines
+			j := (i + 1) % len(newPth)
+			a, b := &newPth[i], &newPth[j]
+			if !joinOffsetLines(a, b, copyNewPth[i], copyNewPth[j], nozzle) {
+				debug.AddLine(*a, debug.BlueColor)
 				debug.AddLine(Line{b.P1, b.P2.Shift(AxisX.MulScalar(15))}, debug.BlackColor)
 				b.P1 = a.P2
 			}
 		}
 	}
 
-	if len(afterRemove) < 2 {
-		return nil
-	}
-
 	res := Path{}
-	res.Points = append(res.Points, afterRemove[0].P1)
-	for i := 0; i < len(afterRemove); i++ {
-		res.Points = append(res.Points, afterRemove[i].P2)
+	res.Points = append(res.Points, newPth[0].P1)
+	for i := 0; i < len(newPth); i++ {
+		res.Points = append(res.Points, newPth[i].P2)
 	}
 	res = res.MinimizeLines()
 	return &res
 }
+
+// joinOffsetLines moves the end of a and the beginning of b to the common point of the (not moved) lines
+// they are parts of, if there is one and they do not have to be extended too far.
+func joinOffsetLines(a, b *Line, lineA, lineB Line, nozzle float64) bool {
+	inters := lineA.IntersectLine2(lineB)
+	if inters == nil {
+		return false
+	}
+	ext := lineA.P2.VectorTo(*inters)
+	if ext.CodirectedWith(lineA.ToVector()) && ext.Length() > 10*nozzle {
+		return false
+	}
+	a.P2 = *inters
+	b.P1 = *inters
+	return true
+}
-- 
2.43.0


From d9095caa5c1074becaa704f5a0578b5fd221bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:04 +0000
Subject: [PATCH 19/34] fix: number of walls is not rounded down for exact
 multiples of the line width

---
 slicers/vip/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slicers/vip/utils.go b/slicers/vip/utils.go
index 51677c8..c80ae74 100644
--- a/slicers/vip/utils.go
+++ b/slicers/vip/utils.go
@@ -10,7 +10,7 @@ import (
 
 //PrepareLayers add Walls and fill layers
 func PrepareLayers(layers []Layer, settings Settings, planes []Plane, fullPanes []Plane) []Layer {
-	addWallsCount := int(settings.WallThickness/settings.GcodeSettings.LineWidth) - 1
+	addWallsCount := int(settings.WallThickness/settings.GcodeSettings.LineWidth+1e-6) - 1 // 1.2/0.4 < 3
 	if addWallsCount > 0 {
 		for i, layer := range layers { //TODO: in parallel
 			for _, pt := range layer.Paths {
-- 
2.43.0


From acdf03616f23190dfca9009f358b19714afb21b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 20/34] fix: printed head does not drift from paths of very
 short segments

---
 gcode/cmds.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index 009be9c..0d8140e 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -184,6 +184,20 @@ func retractionToGCode(b *bytes.Buffer, sett GcodeSettings) {
 	b.WriteString("G1 F" + strconv.Itoa(sett.RetractionSpeed) + " E" + StrF(-sett.RetractionDistance) + "\n")
 }
 
+//headAfter returns the position of the head after the coordinates of p that differ from head are written
+func headAfter(head, p Point) Point {
+	if math.Abs(p.X-head.X) >= 0.001 {
+		head.X = p.X
+	}
+	if math.Abs(p.Y-head.Y) >= 0.001 {
+		head.Y = p.Y
+	}
+	if math.Abs(p.Z-head.Z) >= 0.001 {
+		head.Z = p.Z
+	}
+	return head
+}
+
 func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State, b *bytes.Buffer) State {
 	b.WriteString(";" + comment + "\n")
 
@@ -197,12 +211,14 @@ func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State,
 		b.WriteString("G0 " + p.Points[0].StringDelta(0, 0, 0.5) + "\n")
 		b.WriteString("G0 " + p.Points[0].StringDeltaZ(0) + "\n")
 
+		head := p.Points[0] //where the head was sent, p1 may differ by what was too small to be written
 		for i := 1; i < len(p.Points); i++ {
 			p1 := p.Points[i-1]
 			p2 := p.Points[i]
 			lDist := math.Sqrt(math.Pow(p2.X-p1.X, 2) + math.Pow(p2.Y-p1.Y, 2) + math.Pow(p2.Z-p1.Z, 2))
 			state.eOff += (4 * sett.LineWidth * sett.LayerHeight * lDist) / (math.Pow(sett.BarDiameter, 2) * math.Pi)
-			b.WriteString("G1 " + p2.StringGcode(p1) + " E" + StrF(state.eOff) + "\n")
+			b.WriteString("G1 " + p2.StringGcode(head) + " E" + StrF(state.eOff) + "\n")
+			head = headAfter(head, p2)
 		}
 		state.pos = p.Points[len(p.Points)-1]
 	}
-- 
2.43.0


From 4bbb5cc5c15ee402d17aac778e94259ec147bedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 21/34] fix: layers after a bed move are printed at their own
 speed

---
 gcode/cmds.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index 0d8140e..7ea10e4 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -49,7 +49,7 @@ func (r InclineXBack) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings)
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t2 = 0
-	return state
+	return afterBedMove(state)
 }
 func (r InclineXBack) LayersCount() int {
 	return 0
@@ -67,13 +67,20 @@ func (r InclineX) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) Stat
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t2 = 60
-	return state
+	return afterBedMove(state)
 
 }
 func (r InclineX) LayersCount() int {
 	return 0
 }
 
+//afterBedMove returns the state with the position and the feed rate that the moves of the bed leave
+func afterBedMove(state State) State {
+	state.pos = Point{X: 0, Y: 0, Z: 200}
+	state.feedrate = 300
+	return state
+}
+
 type RotateXZ struct {
 	AngleX float64
 	AngleZ float64
@@ -102,7 +109,7 @@ func (r RotateZ) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) State
 	b.WriteString("T0 \n")
 	b.WriteString("G92 E" + StrF(state.eOff) + "\n")
 	state.t1 = r.Angle
-	return state
+	return afterBedMove(state)
 
 }
 func (r RotateZ) LayersCount() int {
-- 
2.43.0


From 9c6d5913c5096ec990af7f94bc69a01a98450902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:27 +0000
Subject: [PATCH 22/34] fix: retraction is relative to what was printed and is
 undone before printing on

---
 gcode/cmds.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gcode/cmds.go b/gcode/cmds.go
index 7ea10e4..8f19511 100644
--- a/gcode/cmds.go
+++ b/gcode/cmds.go
@@ -183,12 +183,15 @@ func printSpeedToGCode(state State, sett GcodeSettings, b *bytes.Buffer) State {
 	return state
 }
 
-func retractionToGCode(b *bytes.Buffer, sett GcodeSettings) {
+//retractionToGCode moves the filament at the retraction speed to distance before the end of what was printed
+func retractionToGCode(b *bytes.Buffer, sett GcodeSettings, state State, distance float64) State {
 	if !sett.Retraction {
-		return
+		return state
 	}
 
-	b.WriteString("G1 F" + strconv.Itoa(sett.RetractionSpeed) + " E" + StrF(-sett.RetractionDistance) + "\n")
+	b.WriteString("G1 F" + strconv.Itoa(sett.RetractionSpeed) + " E" + StrF(state.eOff-distance) + "\n")
+	state.feedrate = sett.RetractionSpeed
+	return state
 }
 
 //headAfter returns the position of the head after the coordinates of p that differ from head are written
@@ -214,9 +217,11 @@ func pathesToGCode(pths []Path, comment string, sett GcodeSettings, state State,
 	for _, p := range pths {
 		// Retraction first
 		b.WriteString("G0 " + state.pos.StringDeltaZ(0.5) + "\n") //z up a little during retract
-		retractionToGCode(b, sett)
+		state = retractionToGCode(b, sett, state, sett.RetractionDistance)
 		b.WriteString("G0 " + p.Points[0].StringDelta(0, 0, 0.5) + "\n")
 		b.WriteString("G0 " + p.Points[0].StringDeltaZ(0) + "\n")
+		state = retractionToGCode(b, sett, state, 0)
+		state = printSpeedToGCode(state, sett, b)
 
 		head := p.Points[0] //where the head was sent, p1 may differ by what was too small to be written
 		for i := 1; i < len(p.Points); i++ {
-- 
2.43.0


From 6aadc5eba13d36b36bcec02cb7dd4aea8f0a4e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:17 +0000
Subject: [PATCH 23/34] fix: bed is turned the right way for overhangs to
 negative Y

---
 primitives/vector.go         |  5 +++++
 slicers/slice_5axes.go       |  4 ++--
 slicers/slice_by_profile.go  |  2 +-
 slicers/vip/slice_bridge.go  | 10 +++++-----
 slicers/vip/slice_default.go |  2 +-
 5 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/primitives/vector.go b/primitives/vector.go
index 7e3d557..84dc6c4 100644
--- a/primitives/vector.go
+++ b/primitives/vector.go
@@ -99,6 +99,11 @@ func (a Vector) ProjectOnPlane(p Plane) Vector {
 	return a.Add(a.ProjectOn(p.N).Reverse()) // substracting orthogonal to the plane component from a
 }
 
+//AngleAroundZ returns angle in degrees (-180;180] from axis X to the projection of a on the plane XY
+func (a Vector) AngleAroundZ() float64 {
+	return math.Atan2(a.Y, a.X) * 180 / math.Pi
+}
+
 //Rotate vector a about vector b by angle degrees.
 func (a Vector) RotateAbout(b Vector, angle float64) Vector {
 	// Thanks user MNKY at http://math.stackexchange.com/a/1432182/81266
diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 08ace7f..1f2b11b 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -113,7 +113,7 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 				gcd.Add(gcode.RotateXZ{})
 				rotated = false
 			} else {
-				angleZ = newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+				angleZ = newPlane.N.AngleAroundZ() + 90
 				print(angleZ)
 				simpMesh = simpMesh.Rotate(RotationAroundZ(angleZ), OriginPoint)
 				simpMesh = simpMesh.Rotate(RotationAroundX(angleX), OriginPoint)
@@ -158,7 +158,7 @@ func CalculateFails(prevLayer, curLayer Layer) *Plane {
 				pl := Plane{P: prevCp, N: v.Cross(AxisZ)}
 				pi := pl.IntersectPathCodirectedWith(prevPath, v)
 				if pi != nil {
-					angleZ := prevCp.VectorTo(*pi).Angle(AxisX) + 90
+					angleZ := 90 - prevCp.VectorTo(*pi).AngleAroundZ()
 					norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angleZ))
 					return &Plane{P: *pi, N: norm}
 				}
diff --git a/slicers/slice_by_profile.go b/slicers/slice_by_profile.go
index 6313364..1e596e8 100644
--- a/slicers/slice_by_profile.go
+++ b/slicers/slice_by_profile.go
@@ -34,7 +34,7 @@ func SliceByProfile(mesh *Mesh, settings Settings) gcode.Gcode {
 		} else {
 			down = up
 		}
-		angleZ := v.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+		angleZ := v.AngleAroundZ() + 90
 		angleX := v.Angle(AxisZ)
 
 		println("angles: ", angleX, " ", angleZ, "")
diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index 29d302d..71129b0 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -48,7 +48,7 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	gcd.AddLayers(PrepareLayers(oneLeg, settings, fillPlanes, fullFillPlanes))
 
 	// Rotate bed
-	angleZ := newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+	angleZ := newPlane.N.AngleAroundZ() + 90
 	mesh = mesh.Rotate(RotationAroundZ(angleZ), OriginPoint)
 	mesh = mesh.Rotate(RotationAroundX(angleX), OriginPoint)
 	gcd.Add(gcode.RotateZ{Angle: angleZ})
@@ -93,8 +93,8 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 		log.Println("could not find path intersections with plane: ", ip1, prevIp1, plane, p1, prevP1)
 	} else if AxisZ.Angle(prevIp1.VectorTo(*ip1)) > failAngle {
 		println(AxisZ.Angle(prevIp1.VectorTo(*ip1)))
-		angle := AxisX.Angle(cp1.VectorTo(cp2))
-		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angle + 90))
+		angle := cp1.VectorTo(cp2).AngleAroundZ()
+		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(90 - angle))
 		pl := Plane{*prevIp1, norm}
 		return &pl
 	}
@@ -106,8 +106,8 @@ func failExistBridge(prevLayer, curLayer Layer) *Plane {
 		log.Println("could not find path intersections with plane: ", ip2, prevIp2, plane, p2, prevP2)
 	} else if AxisZ.Angle(prevIp2.VectorTo(*ip2)) > failAngle {
 		println(AxisZ.Angle(prevIp2.VectorTo(*ip2)))
-		angle := AxisX.Angle(cp2.VectorTo(cp1))
-		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(angle + 90))
+		angle := cp2.VectorTo(cp1).AngleAroundZ()
+		norm := AxisZ.Rotate(RotationAroundX(angleX)).Rotate(RotationAroundZ(90 - angle))
 		pl := Plane{*prevIp2, norm}
 		return &pl
 	}
diff --git a/slicers/vip/slice_default.go b/slicers/vip/slice_default.go
index 238cb40..1fd5886 100644
--- a/slicers/vip/slice_default.go
+++ b/slicers/vip/slice_default.go
@@ -69,7 +69,7 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 					fullFillPlanes[j] = plane.Rotate(RotationAroundX(-angleX)).Rotate(RotationAroundZ(-angleZ))
 				}
 			} else {
-				angleZ = newPlane.N.ProjectOnPlane(PlaneXY).Angle(AxisX) + 90
+				angleZ = newPlane.N.AngleAroundZ() + 90
 				println(angleZ)
 				mesh = mesh.Rotate(RotationAroundZ(angleZ), OriginPoint)
 				mesh = mesh.Rotate(RotationAroundX(angleX), OriginPoint)
-- 
2.43.0


From 70715e9cdc752740f7027dfc08838b330c5acd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:19 +0000
Subject: [PATCH 24/34] fix: analysed planes have the normal of their bed
 rotation, and are found on what is left of the mesh

---
 slicers/vip/analyze.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/slicers/vip/analyze.go b/slicers/vip/analyze.go
index f6bedd7..135833e 100644
--- a/slicers/vip/analyze.go
+++ b/slicers/vip/analyze.go
@@ -28,11 +28,7 @@ func ParsePlane(line string) AnalyzedPlane {
 		fmt.Printf("ERROR parsing bool: %v\n", err)
 	}
 	p.rotz = ParseFloat(words[4][1:])
-	v := AxisZ
-	if p.tilted {
-		v = v.RotateAbout(AxisX, -angleX)
-	}
-	v = v.RotateAbout(AxisZ, p.rotz)
+	v := normal(p.tilted, p.rotz)
 	p.Plane = Plane{
 		P: Point{
 			X: ParseFloat(words[0][1:]),
@@ -43,6 +39,15 @@ func ParsePlane(line string) AnalyzedPlane {
 	return p
 }
 
+// normal of the plane that the bed levels when it is turned by rotz and tilted or not
+func normal(tilted bool, rotz float64) Vector {
+	v := AxisZ
+	if tilted {
+		v = v.RotateAbout(AxisX, -angleX)
+	}
+	return v.RotateAbout(AxisZ, rotz)
+}
+
 // Analyze - Analyzing and suggesting plane rotations for future slicing
 func Analyze(mesh *Mesh, angle float64) []AnalyzedPlane {
 	ans := []AnalyzedPlane{}
@@ -60,7 +65,7 @@ func Analyze(mesh *Mesh, angle float64) []AnalyzedPlane {
 		var t *Triangle
 		for i, fail := range fails {
 			if fail {
-				t2 := mesh.Triangles[i]
+				t2 := curMesh.Triangles[i]
 				if t2.P1.Z < 0.01 && t2.P2.Z < 0.01 && t2.P3.Z < 0.01 { // it is first layer, skip
 					continue
 				}
@@ -89,10 +94,8 @@ func Analyze(mesh *Mesh, angle float64) []AnalyzedPlane {
 		if curPlane.tilted {
 			curPlane = AnalyzedPlane{Plane{P: p, N: AxisZ}, false, 0}
 		} else {
-			angle := t.N.ProjectOnPlane(PlaneXY).Angle(AxisX) - 90
-			a := t.N.ProjectOnPlane(PlaneXY)
-			b := a.Rotate(RotationAroundZ(90))
-			norm := a.RotateAbout(b, 90-angleX)
+			angle := t.N.AngleAroundZ() - 90
+			norm := normal(true, angle)
 			println("angle x:", angle, norm.Angle(AxisX), norm.ProjectOnPlane(PlaneXY).Angle(AxisX))
 			curPlane = AnalyzedPlane{Plane{P: p, N: norm}, true, angle}
 		}
-- 
2.43.0


From c00160ee2ebaaa7a8ff0b771ac401ba813626705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:59 +0000
Subject: [PATCH 25/34] fix: values of settings in templates are not searched
 for placeholders

---
 primitives/utils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/primitives/utils.go b/primitives/utils.go
index 7df38ba..07a6497 100644
--- a/primitives/utils.go
+++ b/primitives/utils.go
@@ -18,11 +18,11 @@ func PrepareDataFile(filename string, m map[string]string) string {
 	if err != nil {
 		log.Fatal("failed to read file: ", err)
 	}
-	s := string(data)
+	var pairs []string
 	for k, v := range m {
-		s = strings.Replace(s, k, v, -1)
+		pairs = append(pairs, k, v)
 	}
-	return s
+	return strings.NewReplacer(pairs...).Replace(string(data)) // values are not searched again
 }
 
 func ToFile(buffer bytes.Buffer, filename string) {
-- 
2.43.0


From 3b6287d7495d3f2133cf2e36dd70db5fc1bc4593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:25 +0000
Subject: [PATCH 26/34] fix: SliceByProfile survives models of no or one layer

---
 helpers/simplify_line.go    | 3 +++
 slicers/slice_by_profile.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/helpers/simplify_line.go b/helpers/simplify_line.go
index 408512b..19cd14a 100644
--- a/helpers/simplify_line.go
+++ b/helpers/simplify_line.go
@@ -6,6 +6,9 @@ import (
 
 //SimplifyLine - DouglasPeucker algorithm of line simplification
 func SimplifyLine(ps []Point, epsilon float64) []Point {
+	if len(ps) < 2 { // nothing to simplify
+		return ps
+	}
 	// Find the point with the maximum distance
 	dmax := 0.0
 	index := 0
diff --git a/slicers/slice_by_profile.go b/slicers/slice_by_profile.go
index 1e596e8..3d6b627 100644
--- a/slicers/slice_by_profile.go
+++ b/slicers/slice_by_profile.go
@@ -23,6 +23,9 @@ func SliceByProfile(mesh *Mesh, settings Settings) gcode.Gcode {
 	var down *Mesh
 	gcd := gcode.NewGcode(*settings.GcodeSettings)
 
+	if len(simplified) < 2 { // no line to follow
+		gcd.AddLayers(layers)
+	}
 	for i := 1; i < len(simplified); i++ {
 		v := simplified[i-1].VectorTo(simplified[i])
 		if i < len(simplified)-1 {
-- 
2.43.0


From a91f318e94ca154a3d69a11cc036fe983c1fd93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:25 +0000
Subject: [PATCH 27/34] fix: what is left after a cut is printed also if it is
 a single layer

---
 slicers/slice_5axes.go       | 5 ++---
 slicers/vip/slice_default.go | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 1f2b11b..25663e8 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -51,9 +51,6 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 		newPlane := CalculateFails(layers[i-1], layers[i])
 		if newPlane == nil {
 			i++
-			if i == len(layers) {
-				gcd.AddLayers(toAdd)
-			}
 		} else {
 			gcd.AddLayers(toAdd[:i])
 
@@ -129,6 +126,8 @@ func Slice5Axes(mesh *Mesh, settings Settings) gcode.Gcode {
 			i = 0
 		}
 	}
+	// Add what is left, it can be less than two layers
+	gcd.AddLayers(toAdd)
 
 	return gcd
 }
diff --git a/slicers/vip/slice_default.go b/slicers/vip/slice_default.go
index 1fd5886..e55ee5a 100644
--- a/slicers/vip/slice_default.go
+++ b/slicers/vip/slice_default.go
@@ -40,9 +40,6 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 
 		if newPlane == nil {
 			i++
-			if i == len(layers) {
-				gcd.AddLayers(PrepareLayers(layers, settings, fillPlanes, fullFillPlanes))
-			}
 		} else {
 			mesh, down, err = helpers.CutMesh(mesh, *newPlane)
 			if err != nil {
@@ -90,6 +87,8 @@ func SliceDefault2(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 			i = 1
 		}
 	}
+	// Add what is left, it can be less than two layers
+	gcd.AddLayers(PrepareLayers(layers, settings, fillPlanes, fullFillPlanes))
 	return gcd
 
 }
-- 
2.43.0


From 3360b56e87bccca75cd9bc594375cde19baf226b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:25 +0000
Subject: [PATCH 28/34] fix: vip.Slice survives models without layers or outer
 contours

---
 slicers/vip/slice_main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/slicers/vip/slice_main.go b/slicers/vip/slice_main.go
index 4e3786e..f4090b4 100644
--- a/slicers/vip/slice_main.go
+++ b/slicers/vip/slice_main.go
@@ -26,15 +26,18 @@ func Slice(mesh *Mesh, settings Settings) gcode.Gcode {
 	}
 
 	layers := SliceByVector(mesh, AxisZ, settings)
+	if len(layers) == 0 {
+		return gcode.NewGcode(*settings.GcodeSettings)
+	}
 
 	op := getAllOutsidePathes(layers[0])
 	if len(op) == 2 {
 		return SliceBridge(mesh, settings, layers)
 	}
-	println("outside pathes: ", len(op), len(op[0].Points))
+	println("outside pathes: ", len(op))
 	if len(op) == 1 && isRotation(op[0]) {
 		op = getAllOutsidePathes(layers[len(layers)-1])
-		println("outside pathes: ", len(op), len(op[0].Points))
+		println("outside pathes: ", len(op))
 		if len(op) == 1 && isRotation(op[0]) {
 			return SliceRotation(mesh, settings, layers)
 		}
-- 
2.43.0


From 4518d1ac0ddd026f5acb02206d81657936334940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:25 +0000
Subject: [PATCH 29/34] fix: SliceBridge survives legs that join, end or do not
 lean

---
 slicers/vip/slice_bridge.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/slicers/vip/slice_bridge.go b/slicers/vip/slice_bridge.go
index 71129b0..0092ea3 100644
--- a/slicers/vip/slice_bridge.go
+++ b/slicers/vip/slice_bridge.go
@@ -33,6 +33,9 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	}
 	// Add horizontal layers
 	gcd.AddLayers(PrepareLayers(layers[:i], settings, fillPlanes, fullFillPlanes))
+	if newPlane == nil { // no leg leans, everything is added
+		return gcd
+	}
 
 	anyPoint := layers[i].Paths[0].Points[0]
 	mesh, down, err := helpers.CutMesh(mesh, Plane{anyPoint, AxisZ})
@@ -73,6 +76,9 @@ func SliceBridge(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 
 func failExistBridge(prevLayer, curLayer Layer) *Plane {
 
+	if len(getAllOutsidePathes(prevLayer)) < 2 || len(getAllOutsidePathes(curLayer)) < 2 {
+		return nil // legs are joined or one of them has ended
+	}
 	prevP1, prevP2 := getTwoOutsidePathes(prevLayer)
 	p1, p2 := getTwoOutsidePathes(curLayer)
 	prevCp1 := FindCentroid(prevP1)
-- 
2.43.0


From 0cd7d572b1c22a444a0344e42ff8aa1cdae4f62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:25 +0000
Subject: [PATCH 30/34] fix: SliceRotation survives models without overhangs
 and empty layers

---
 slicers/vip/slice_rotation.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/slicers/vip/slice_rotation.go b/slicers/vip/slice_rotation.go
index ec8bf0c..642467c 100644
--- a/slicers/vip/slice_rotation.go
+++ b/slicers/vip/slice_rotation.go
@@ -31,6 +31,9 @@ func SliceRotation(mesh *Mesh, settings Settings, layers []Layer) gcode.Gcode {
 	}
 	// Add horizontal layers
 	gcd.AddLayers(PrepareLayers(layers[:i], settings, fillPlanes, fullFillPlanes))
+	if i == len(layers) { // no fails, everything is added
+		return gcd
+	}
 
 	anyPoint := layers[i].Paths[0].Points[0]
 	mesh, _, err := helpers.CutMesh(mesh, Plane{anyPoint, AxisZ})
@@ -66,6 +69,10 @@ func failRotaion(prevLayer, curLayer Layer) bool {
 		println("curLayer has not one path: ", len(curLayer.Paths))
 	}
 
+	if len(prevLayer.Paths) == 0 || len(curLayer.Paths) == 0 {
+		return false
+	}
+
 	anyP := prevLayer.Paths[0].Points[0]
 	//nearestP := curLayer.Paths[0].Lines[0].P1
 	//d := anyP.DistanceTo(nearestP)
-- 
2.43.0


From b4b65e8205bd5a747cda40cb3aa41cc1062cb145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:32 +0000
Subject: [PATCH 31/34] fix: colorizer reports results that it could not write

---
 cmd/goosli_colorizer/goosli_colorizer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/goosli_colorizer/goosli_colorizer.go b/cmd/goosli_colorizer/goosli_colorizer.go
index e3aca31..6df8592 100644
--- a/cmd/goosli_colorizer/goosli_colorizer.go
+++ b/cmd/goosli_colorizer/goosli_colorizer.go
@@ -44,5 +44,10 @@ func main() {
 		log.Fatal("failed to write value of colorize triangles: ", err)
 	}
 
-	w.Flush()
+	if err := w.Flush(); err != nil {
+		log.Fatal("failed to write colorize triangles: ", err)
+	}
+	if err := file.Close(); err != nil {
+		log.Fatal("failed to close colorize triangles: ", err)
+	}
 }
-- 
2.43.0


From ac3c0ad5f995d504c0ddd562bc7619b5e4731bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:56 +0000
Subject: [PATCH 32/34] fix: a triangle crossed through a corner is reported as
 crossed

---
 primitives/triangle.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/primitives/triangle.go b/primitives/triangle.go
index c624aa5..22a77e2 100644
--- a/primitives/triangle.go
+++ b/primitives/triangle.go
@@ -119,13 +119,13 @@ func (t *Triangle)IntersectTriangle(t2 *Triangle) *Line {
 
 	// if line cross all siides of triangle (one edge and one vertex)
 	if p1 != nil && p2 != nil && p3 != nil {
-		if p1 == p2 {
+		if p1.Equal(*p2) {
 			return &Line{P1: *p1, P2: *p3}
 		}
-		if p1  == p3 {
+		if p1.Equal(*p3) {
 			return &Line{P1: *p1, P2: *p2}
 		}
-		if p2  == p3 {
+		if p2.Equal(*p3) {
 			return &Line{P1: *p1, P2: *p2}
 		}
 	}
-- 
2.43.0


From 74c0897f2b52e48c347ca74d61421edfafa1b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:45 +0000
Subject: [PATCH 33/34] fix: overhangs are not missed where rounding hides a
 corner of the contour

---
 primitives/plane.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/primitives/plane.go b/primitives/plane.go
index 23ccd91..a37e397 100644
--- a/primitives/plane.go
+++ b/primitives/plane.go
@@ -96,6 +96,15 @@ func (p Plane) IntersectPathCodirectedWith(path Path, v Vector) *Point {
 			return pi
 		}
 	}
+	// rounding can miss both segments of a corner that lies on the plane
+	if p.N = p.N.Normalize(); p.N == (Vector{}) {
+		return nil
+	}
+	for _, pi := range path.Points {
+		if p.PointBelongs(pi) && cp.VectorTo(pi).CodirectedWith(v) {
+			return &pi
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 9aa33e3acf1350cca7520656903a36ab006834e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:18 +0000
Subject: [PATCH 34/34] fix: contours smaller than the distance of the layers
 stand on one another

---
 slicers/slice_5axes.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/slicers/slice_5axes.go b/slicers/slice_5axes.go
index 25663e8..12bb487 100644
--- a/slicers/slice_5axes.go
+++ b/slicers/slice_5axes.go
@@ -214,6 +214,7 @@ func findPrevPath(prevP Point, prevLayer Layer) *Path {
 			if p1.VectorTo(p2).Cross(AxisZ).CodirectedWith(curP.VectorTo(p1)) {
 				continue
 			}
+			prevP.Z = p1.Z // the distance of the layers is not to be taken for a direction
 		}
 		if prevP.Inside(pth) {
 			return &pth
-- 
2.43.0

