From 5a3494a10bfc6b6a6ded3b8589f0164d92dc5b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 01/33] fix: normalizing a zero vector in place leaves it zero
 instead of NaN

---
 r3/vector.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/r3/vector.go b/r3/vector.go
index a509944..90a17e7 100644
--- a/r3/vector.go
+++ b/r3/vector.go
@@ -31,6 +31,7 @@ func (v *Vector) Normalize() *Vector {
 	n2 := v.Norm2()
 	if n2 == 0 {
 		v.X, v.Y, v.Z = 0, 0, 0
+		return v
 	}
 	v.Scale(1 / math.Sqrt(n2))
 	return v
-- 
2.43.0


From d262ffd9ff28bf9f2468255f88b0e1ccd154ac87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 02/33] fix: distance to a plane uses the plane's distance, not
 its normal's norm

---
 r3/vector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/r3/vector.go b/r3/vector.go
index 90a17e7..22505a8 100644
--- a/r3/vector.go
+++ b/r3/vector.go
@@ -110,7 +110,7 @@ func Cross(v Vector, ov Vector) Vector {
 }
 
 // CalculateDistanceToPlane returns the distance from vector v to plane p
-func (v Vector) CalculateDistanceToPlane(p Plane) float64 { return Dot(p.Normal, v) + p.Normal.Norm2() }
+func (v Vector) CalculateDistanceToPlane(p Plane) float64 { return Dot(p.Normal, v) + p.Distance }
 
 func det2D(a, b Vector) float64 {
 	return a.X*b.Y - a.Y*b.X
-- 
2.43.0


From 076aba16aaacb1fae380dcc3f37577b59d5e8bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:33 +0000
Subject: [PATCH 03/33] fix: report a line parallel to the plane before
 rounding its direction

---
 r3/line.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/r3/line.go b/r3/line.go
index 9d4f847..0c9f085 100644
--- a/r3/line.go
+++ b/r3/line.go
@@ -11,6 +11,10 @@ type Plane3D struct {
 }
 
 func (line Line) IntersectPlane(plane Plane3D) Vector {
+	// normalizing can round an exactly parallel direction to a slightly tilted one
+	if Dot(plane.Normal, line.Direction) == 0 {
+		panic("plane and line are parallel. Therefore, no intersection")
+	}
 	if Dot(plane.Normal, Normalize(line.Direction)) == 0 {
 		panic("plane and line are parallel. Therefore, no intersection")
 	}
-- 
2.43.0


From ed4e13a835a03cdd79931b11e1572d4e34fa2ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 04/33] fix: circle and ellipse triangles no longer reference a
 vertex past the last one

---
 shape/circle.go  | 2 +-
 shape/ellipse.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/shape/circle.go b/shape/circle.go
index 1bc55dd..4c9f9e4 100644
--- a/shape/circle.go
+++ b/shape/circle.go
@@ -44,7 +44,7 @@ func (c Circle) generateVertices(circle *Mesh) {
 
 func (c Circle) generateIndices(circle *Mesh) {
 	lenVertices := len(circle.Vertices)
-	for i := 1; i < lenVertices; i++ {
+	for i := 1; i < lenVertices-1; i++ {
 		circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))
 		circle.Indices = append(circle.Indices, uint32(i+1), uint32(i), 0)
 
diff --git a/shape/ellipse.go b/shape/ellipse.go
index a55589d..0cf44dc 100644
--- a/shape/ellipse.go
+++ b/shape/ellipse.go
@@ -46,7 +46,7 @@ func (e Ellipse) generateVertices(circle *Mesh) {
 
 func (e Ellipse) generateIndices(circle *Mesh) {
 	lenVertices := len(circle.Vertices)
-	for i := 1; i < lenVertices; i++ {
+	for i := 1; i < lenVertices-1; i++ {
 		circle.Indices = append(circle.Indices, 0, uint32(i), uint32(i+1))
 		circle.Indices = append(circle.Indices, uint32(i+1), uint32(i), 0)
 
-- 
2.43.0


From fcf0cf4ee1e2ba5e233292fe23aed6c12aae3879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 05/33] fix: spheres and tori are placed at their center

---
 shape/sphere.go | 1 +
 shape/torus.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/shape/sphere.go b/shape/sphere.go
index 255cf9c..3c36c5c 100644
--- a/shape/sphere.go
+++ b/shape/sphere.go
@@ -54,6 +54,7 @@ func (sd Sphere) generateVertices(sphere *Mesh) {
 			y = xy * math.Sin(sectorAngle) // r * cos(u) * sin(v)
 
 			Vector := r3.Vector{x, y, z}
+			Vector.Add(sd.center)
 			sphere.Vertices = append(sphere.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
diff --git a/shape/torus.go b/shape/torus.go
index 1c26206..12f1f28 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -54,6 +54,7 @@ func (td Torus) generateVertices(torus *Mesh) {
 			y = xy * math.Sin(sectorAngle) // (R + r * cos(u)) * sin(v)
 
 			Vector := r3.Vector{x, y, z}
+			Vector.Add(td.center)
 			torus.Vertices = append(torus.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
-- 
2.43.0


From 6b40c3dbc7a5534aad2166a6c9bdb29f934ded48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 06/33] fix: spheres have a south pole and are closed

---
 shape/sphere.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/shape/sphere.go b/shape/sphere.go
index 3c36c5c..a725fa8 100644
--- a/shape/sphere.go
+++ b/shape/sphere.go
@@ -37,7 +37,7 @@ func (sd Sphere) generateVertices(sphere *Mesh) {
 
 	lengthInv = 1.0 / float64(sd.radius)
 
-	for i := 0; i < sd.stackCount; i++ {
+	for i := 0; i <= sd.stackCount; i++ {
 
 		stackAngle := math.Pi/2 - float64(i)*stackStep // starting from pi/2 to -pi/2
 		xy = sd.radius * math.Cos(stackAngle)          // r * cos(u)
@@ -91,15 +91,15 @@ func (sd Sphere) generateIndices(sphere *Mesh) {
 	}
 
 	//	BOTTOM
-	// k1 = uint32((sd.stackCount-1) * (sd.sectorCount + 1))
-	// k2 = 0 //k1+uint32(sd.sectorCount )
+	k1 = uint32((sd.stackCount - 1) * (sd.sectorCount + 1))
+	k2 = k1 + uint32(sd.sectorCount+1)
 
-	// for j := 0; j < sd.sectorCount; j ,k1= j+1, k1+1{
+	for j := 0; j < sd.sectorCount; j, k1, k2 = j+1, k1+1, k2+1 {
 
-	//     // k1+1 => k2 => k2+1
-	//     indices = append(indices, k1, k2, k1+1);
+		// k1 => k2 => k1+1
+		sphere.Indices = append(sphere.Indices, k1, k2, k1+1)
 
-	// }
+	}
 
 	//	MIDDLE
 	for i := 1; i < sd.stackCount-1; i++ {
-- 
2.43.0


From 35b7d65513cf7f52a1f10a7a2bdb4082f76c2858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 07/33] fix: tori are closed along the tube

---
 shape/torus.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/shape/torus.go b/shape/torus.go
index 12f1f28..a292836 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -88,18 +88,23 @@ func (td Torus) generateIndices(torus *Mesh) {
 		//fmt.Println("A",k1+1,"B", k2, "C", k2+1)
 		// k1+1 => k2 => k2+1
 		torus.Indices = append(torus.Indices, k1+1, k2, k2+1)
+		torus.Indices = append(torus.Indices, k1, k2, k1+1)
 	}
 
 	//	BOTTOM
-	// k1 = uint32((td.stackCount - 1) * (td.sectorCount + 1))
-	// k2 = 0 //k1+uint32(td.sectorCount )
+	// the last stack is followed by the first one
+	k1 = uint32((td.stackCount - 1) * (td.sectorCount + 1))
+	k2 = 0
 
-	// for j := 0; j < td.sectorCount; j, k1 = j+1, k1+1 {
+	for j := 0; j < td.sectorCount; j, k1, k2 = j+1, k1+1, k2+1 {
 
-	// 	// k1+1 => k2 => k2+1
-	// 	torus.Indices = append(torus.Indices, k1, k2, k1+1)
+		// k1 => k2 => k1+1
+		torus.Indices = append(torus.Indices, k1, k2, k1+1)
 
-	// }
+		// k1+1 => k2 => k2+1
+		torus.Indices = append(torus.Indices, k1+1, k2, k2+1)
+
+	}
 
 	//	MIDDLE
 	for i := 1; i < td.stackCount-1; i++ {
-- 
2.43.0


From 0260ec17bb07a33044659a59cd3039c3af080f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 08/33] fix: torus normals are unit vectors perpendicular to
 the tube

---
 shape/torus.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shape/torus.go b/shape/torus.go
index a292836..07eff0e 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -35,7 +35,7 @@ func (td Torus) generateVertices(torus *Mesh) {
 	sectorStep := 2 * math.Pi / float64(td.sectorCount)
 	stackStep := 2 * math.Pi / float64(td.stackCount)
 
-	lengthInv = 1.0 / float64(td.radius)
+	lengthInv = 1.0 / float64(td.tubeRadius)
 
 	for i := 0; i < td.stackCount; i++ {
 
@@ -58,8 +58,8 @@ func (td Torus) generateVertices(torus *Mesh) {
 			torus.Vertices = append(torus.Vertices, Vector)
 
 			// normalized vertex normal (nx, ny, nz)
-			nx = x * lengthInv
-			ny = y * lengthInv
+			nx = (x - td.radius*math.Cos(sectorAngle)) * lengthInv
+			ny = (y - td.radius*math.Sin(sectorAngle)) * lengthInv
 			nz = z * lengthInv
 
 			normal := [3]float64{nx, ny, nz}
-- 
2.43.0


From ccb556a9bac0b9e2700142753405fcf6ff4253b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:10 +0000
Subject: [PATCH 09/33] fix: texture coordinates are fractions, not integer
 quotients

---
 shape/sphere.go | 4 ++--
 shape/torus.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/shape/sphere.go b/shape/sphere.go
index a725fa8..2ec8a6d 100644
--- a/shape/sphere.go
+++ b/shape/sphere.go
@@ -66,8 +66,8 @@ func (sd Sphere) generateVertices(sphere *Mesh) {
 			sphere.Normals = append(sphere.Normals, normal)
 
 			// vertex tex coord (s, t) range between [0, 1]
-			s = float64(j / sd.sectorCount)
-			t = float64(i / sd.stackCount)
+			s = float64(j) / float64(sd.sectorCount)
+			t = float64(i) / float64(sd.stackCount)
 
 			texCoord := [2]float64{s, t}
 			sphere.TexCoords = append(sphere.TexCoords, texCoord)
diff --git a/shape/torus.go b/shape/torus.go
index 07eff0e..a0203e6 100644
--- a/shape/torus.go
+++ b/shape/torus.go
@@ -66,8 +66,8 @@ func (td Torus) generateVertices(torus *Mesh) {
 			torus.Normals = append(torus.Normals, normal)
 
 			// vertex tex coord (s, t) range between [0, 1]
-			s = float64(j / td.sectorCount)
-			t = float64(i / td.stackCount)
+			s = float64(j) / float64(td.sectorCount)
+			t = float64(i) / float64(td.stackCount)
 
 			texCoord := [2]float64{s, t}
 			torus.TexCoords = append(torus.TexCoords, texCoord)
-- 
2.43.0


From 6253d1a9a3a596e031d561477de10448be9d23fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:08 +0000
Subject: [PATCH 10/33] fix: the knot span search ends for every parameter and
 finds a nonempty span

---
 nurbs/basis.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/nurbs/basis.go b/nurbs/basis.go
index 370d9ff..1a14ea6 100644
--- a/nurbs/basis.go
+++ b/nurbs/basis.go
@@ -11,8 +11,21 @@ import "fmt"
 --U : the knot vector
 */
 func findSpan(n, p int, u float64, U []int) int {
-	if u == float64(U[n+1]) {
-		return n
+	/* at or past the end of the domain: the last nonempty span */
+	if u >= float64(U[n+1]) {
+		last := n
+		for last > p && U[last] == U[n+1] {
+			last--
+		}
+		return last
+	}
+	/* before the start of the domain: the first nonempty span */
+	if u < float64(U[p]) {
+		first := p
+		for first < n && U[first+1] == U[p] {
+			first++
+		}
+		return first
 	}
 	/* do binary search */
 	low := p
-- 
2.43.0


From 279ee71546cb71dd15e78f8da09df04c97f28fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:31 +0000
Subject: [PATCH 11/33] fix: basis function derivatives follow their definition

---
 nurbs/basis.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nurbs/basis.go b/nurbs/basis.go
index 1a14ea6..897c45e 100644
--- a/nurbs/basis.go
+++ b/nurbs/basis.go
@@ -103,10 +103,11 @@ func dersBasisFuns(i, u, p, n int, U []int) [][]float64 {
 
 	left := make([]float64, p+1)
 	right := make([]float64, p+1)
+	ndu[0][0] = 1.
 	/* ------------------------------------ */
 	for j := 1; j <= p; j++ {
 		left[j] = float64(u - U[i+1-j])
-		right[j] = float64(U[i+1] - u)
+		right[j] = float64(U[i+j] - u)
 		saved := 0.
 		for r := 0; r < j; r++ {
 			/* lower triangle */
@@ -154,7 +155,7 @@ func dersBasisFuns(i, u, p, n int, U []int) [][]float64 {
 			}
 			for j := j1; j <= j2; j++ {
 				a[s2][j] = (a[s1][j] - a[s1][j-1]) / ndu[pk+1][rk+j]
-				d += a[s2][j] * ndu[r][pk]
+				d += a[s2][j] * ndu[rk+j][pk]
 			}
 			if r <= pk {
 				a[s2][k] = -a[s1][k-1] / ndu[pk+1][r]
-- 
2.43.0


From 969018be6f8420ef0cd0fa7e5caac153a1c7af50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:46 +0000
Subject: [PATCH 12/33] fix: an export that cannot write the whole file no
 longer reports success

---
 glTF/export.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/glTF/export.go b/glTF/export.go
index d005293..4391cbd 100644
--- a/glTF/export.go
+++ b/glTF/export.go
@@ -1,8 +1,10 @@
 package glTF
 
 import (
+	"bytes"
 	"fmt"
 	"geGoMetry/shape"
+	"io/ioutil"
 
 	"github.com/qmuntal/gltf"
 	"github.com/qmuntal/gltf/modeler"
@@ -47,7 +49,12 @@ func Export(mesh shape.Mesh, outputFile string) {
 	}}
 	doc.Nodes = []*gltf.Node{{Name: "Root", Mesh: gltf.Index(0)}}
 	doc.Scenes[0].Nodes = append(doc.Scenes[0].Nodes, 0)
-	if err := gltf.SaveBinary(doc, outputFile); err != nil {
+	// the encoder drops some write errors: encode in memory, then write once
+	var encoded bytes.Buffer
+	if err := gltf.NewEncoder(&encoded).Encode(doc); err != nil {
+		panic(err)
+	}
+	if err := ioutil.WriteFile(outputFile, encoded.Bytes(), 0666); err != nil {
 		panic(err)
 	}
 }
-- 
2.43.0


From 205b5d3fadfc5f3165dfbb9cba398d8fed0a4210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:56 +0000
Subject: [PATCH 13/33] fix: triangulating a single point reports that there is
 no triangulation

---
 triangulate2/triangulator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triangulate2/triangulator.go b/triangulate2/triangulator.go
index df49be8..19ffa02 100644
--- a/triangulate2/triangulator.go
+++ b/triangulate2/triangulator.go
@@ -60,8 +60,8 @@ func (tri *triangulator) triangulate() error {
 	// compute bounds
 	x0 := Vectors[0].X
 	y0 := Vectors[0].Y
-	x1 := Vectors[1].X
-	y1 := Vectors[1].Y
+	x1 := Vectors[0].X
+	y1 := Vectors[0].Y
 	for i, p := range Vectors {
 		if p.X < x0 {
 			x0 = p.X
-- 
2.43.0


From a82489996ab9cb68c58e793216418015638bcb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:56 +0000
Subject: [PATCH 14/33] fix: the convex hull of a single point is that point

---
 triangulate2/hull.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/triangulate2/hull.go b/triangulate2/hull.go
index 11f07f5..e0c439b 100644
--- a/triangulate2/hull.go
+++ b/triangulate2/hull.go
@@ -36,6 +36,11 @@ func ConvexHull(Vectors []r3.Vector) []r3.Vector {
 	}
 	Vectors = distinctVectors
 
+	// a single point is its own hull
+	if len(Vectors) == 1 {
+		return Vectors
+	}
+
 	// find upper and lower portions
 	var U, L []r3.Vector
 	for _, p := range Vectors {
-- 
2.43.0


From c9bd40a4182786f935865bf78f446066b559f9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:32 +0000
Subject: [PATCH 15/33] fix: the heights of the points take no part in the
 planar triangulation

---
 triangulate2/hull.go         |  2 +-
 triangulate2/triangulator.go |  8 ++++----
 triangulate2/util.go         | 10 +++++++++-
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/triangulate2/hull.go b/triangulate2/hull.go
index e0c439b..43463b4 100644
--- a/triangulate2/hull.go
+++ b/triangulate2/hull.go
@@ -29,7 +29,7 @@ func ConvexHull(Vectors []r3.Vector) []r3.Vector {
 	// filter nearly-duplicate Vectors
 	distinctVectors := Vectors[:0]
 	for i, p := range Vectors {
-		if i > 0 && r3.SquaredDistance(p, Vectors[i-1]) < eps {
+		if i > 0 && squaredDistance2D(p, Vectors[i-1]) < eps {
 			continue
 		}
 		distinctVectors = append(distinctVectors, p)
diff --git a/triangulate2/triangulator.go b/triangulate2/triangulator.go
index 19ffa02..2db7c06 100644
--- a/triangulate2/triangulator.go
+++ b/triangulate2/triangulator.go
@@ -84,7 +84,7 @@ func (tri *triangulator) triangulate() error {
 	m := r3.Vector{(x0 + x1) / 2, (y0 + y1) / 2, 0}
 	minDist := infinity
 	for i, p := range Vectors {
-		d := r3.SquaredDistance(p, m)
+		d := squaredDistance2D(p, m)
 		if d < minDist {
 			i0 = i
 			minDist = d
@@ -97,7 +97,7 @@ func (tri *triangulator) triangulate() error {
 		if i == i0 {
 			continue
 		}
-		d := r3.SquaredDistance(p, Vectors[i0])
+		d := squaredDistance2D(p, Vectors[i0])
 		if d > 0 && d < minDist {
 			i1 = i
 			minDist = d
@@ -130,7 +130,7 @@ func (tri *triangulator) triangulate() error {
 	// sort the Vectors by distance from the seed triangle circumcenter
 	tri.squaredDistances = make([]float64, n)
 	for i, p := range Vectors {
-		tri.squaredDistances[i] = r3.SquaredDistance(p, tri.center)
+		tri.squaredDistances[i] = squaredDistance2D(p, tri.center)
 	}
 	sort.Sort(tri)
 
@@ -167,7 +167,7 @@ func (tri *triangulator) triangulate() error {
 		p := Vectors[i]
 
 		// skip nearly-duplicate Vectors
-		if r3.SquaredDistance(p, pp) < eps {
+		if squaredDistance2D(p, pp) < eps {
 			continue
 		}
 		pp = p
diff --git a/triangulate2/util.go b/triangulate2/util.go
index 14d1d35..510b8da 100644
--- a/triangulate2/util.go
+++ b/triangulate2/util.go
@@ -19,6 +19,14 @@ func pseudoAngle(dx, dy float64) float64 {
 	return math.Max(0, math.Min(1-eps, p))
 }
 
+// squaredDistance2D returns the squared distance in the plane: the heights of
+// the Vectors take no part in the triangulation.
+func squaredDistance2D(a, b r3.Vector) float64 {
+	dx := a.X - b.X
+	dy := a.Y - b.Y
+	return dx*dx + dy*dy
+}
+
 func area(a, b, c r3.Vector) float64 {
 	return (b.Y-a.Y)*(c.X-b.X) - (b.X-a.X)*(c.Y-b.Y)
 }
@@ -98,7 +106,7 @@ func polygonPerimeter(Vectors []r3.Vector) float64 {
 	var result float64
 	q := Vectors[len(Vectors)-1]
 	for _, p := range Vectors {
-		result += r3.Distance(p, q)
+		result += math.Sqrt(squaredDistance2D(p, q))
 		q = p
 	}
 	return result
-- 
2.43.0


From 0cb14449df095831053d045837f4f072e649b728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:51 +0000
Subject: [PATCH 16/33] fix: the in-sphere test takes the orientation of the
 tetrahedron into account

---
 meshing/mesh.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/meshing/mesh.go b/meshing/mesh.go
index 7667f5f..7450ba1 100644
--- a/meshing/mesh.go
+++ b/meshing/mesh.go
@@ -89,6 +89,17 @@ func (t tetra) getNearestPointToCentroid(points []r3.Vector) r3.Vector {
 
 }
 
+// circumsphereContains reports whether p is inside the sphere through the
+// vertices of t. The sign of the determinant depends on the orientation of t.
+func (t tetra) circumsphereContains(points []r3.Vector, p r3.Vector) bool {
+	pa, pb, pc, pd := points[t.ia], points[t.ib], points[t.ic], points[t.id]
+	inSphere := predicates.InSphereFast(pa, pb, pc, pd, p)
+	if r3.Dot(r3.Cross(r3.Sub(pb, pa), r3.Sub(pc, pa)), r3.Sub(pd, pa)) < 0 {
+		inSphere = -inSphere
+	}
+	return inSphere >= 0
+}
+
 func (t *tetrahedrisation) init(points *[]r3.Vector) {
 	//fmt.Println("Bazinga!", points)
 
@@ -169,7 +180,7 @@ func bowyerWatson(points ...r3.Vector) []int {
 		polyhedron := []face{}
 		faceSet := make(map[string]faceCheck, 0)
 		for _, tetra := range t {
-			if predicates.InSphereFast(points[tetra.ia], points[tetra.ib], points[tetra.ic], points[tetra.id], point) >= 0 {
+			if tetra.circumsphereContains(points, point) {
 				badTetras = append(badTetras, tetra)
 			}
 		}
-- 
2.43.0


From b02d8be2b845e4026b278ce6341e109588aa7682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:51 +0000
Subject: [PATCH 17/33] fix: the initial tetrahedron strictly encloses the
 points, also when they are coplanar

---
 meshing/helper.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/meshing/helper.go b/meshing/helper.go
index 614e76b..c1fc14f 100644
--- a/meshing/helper.go
+++ b/meshing/helper.go
@@ -95,9 +95,18 @@ func (h helper) computerInitialTetraPoints() (r3.Vector, r3.Vector, r3.Vector, r
 	xmin, ymin, zmin := h.min.X, h.min.Y, h.min.Z
 	xmax, ymax, zmax := h.max.X, h.max.Y, h.max.Z
 
-	xtetra := xmin + 3*(xmax-xmin)
-	ytetra := ymin + 3*(ymax-ymin)
-	ztetra := zmin + 3*(zmax-zmin)
+	// the vertices of the tetrahedron keep clear of the points and of the
+	// spheres through them, and the tetrahedron is not flat when the points are
+	size := math.Max(xmax-xmin, math.Max(ymax-ymin, zmax-zmin))
+	if size == 0 {
+		size = 1
+	}
+	margin := 10 * size
+	xmin, ymin, zmin = xmin-margin, ymin-margin, zmin-margin
+
+	xtetra := xmin + 4*(size+margin)
+	ytetra := ymin + 4*(size+margin)
+	ztetra := zmin + 4*(size+margin)
 
 	//Bounding Tetrahedron
 	p1 := r3.Vector{X: xmin, Y: ymin, Z: zmin}
-- 
2.43.0


From 7f2e6e40c6ca9b12baa593c8bb3457225cd61183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 18/33] fix: cospherical points no longer tear the
 tetrahedrisation

---
 meshing/mesh.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/meshing/mesh.go b/meshing/mesh.go
index 7450ba1..ab67730 100644
--- a/meshing/mesh.go
+++ b/meshing/mesh.go
@@ -89,7 +89,7 @@ func (t tetra) getNearestPointToCentroid(points []r3.Vector) r3.Vector {
 
 }
 
-// circumsphereContains reports whether p is inside the sphere through the
+// circumsphereContains reports whether p is strictly inside the sphere through the
 // vertices of t. The sign of the determinant depends on the orientation of t.
 func (t tetra) circumsphereContains(points []r3.Vector, p r3.Vector) bool {
 	pa, pb, pc, pd := points[t.ia], points[t.ib], points[t.ic], points[t.id]
@@ -97,7 +97,7 @@ func (t tetra) circumsphereContains(points []r3.Vector, p r3.Vector) bool {
 	if r3.Dot(r3.Cross(r3.Sub(pb, pa), r3.Sub(pc, pa)), r3.Sub(pd, pa)) < 0 {
 		inSphere = -inSphere
 	}
-	return inSphere >= 0
+	return inSphere > 0
 }
 
 func (t *tetrahedrisation) init(points *[]r3.Vector) {
-- 
2.43.0


From 29db86415c7cbba837e10cac7ddc2ecefbd4cc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:18 +0000
Subject: [PATCH 19/33] fix: the englobing tetrahedron contains the points

---
 triangulate3/englober.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/triangulate3/englober.go b/triangulate3/englober.go
index 9fe66d5..28b267f 100644
--- a/triangulate3/englober.go
+++ b/triangulate3/englober.go
@@ -19,21 +19,21 @@ func constructEnglobingTetra(Vectors []r3.Vector) shape.Mesh {
 	lowerPlane := r3.Plane3D{Normal: normal, Vector: minExtremity}
 	top := getTopVectorOfTetrahedron(minExtremity, maxExtremity)
 	//Line 1
-	upperVector1 := r3.Vector{minExtremity.X, maxExtremity.Y, maxExtremity.Z}
+	upperVector1 := r3.Vector{minExtremity.X, maxExtremity.Y, minExtremity.Z + 3*(maxExtremity.Z-minExtremity.Z)}
 	Direct1 := r3.Sub(top, upperVector1)
 	line1 := r3.Line{Vector: upperVector1, Direction: Direct1}
 	// first bottom Intersection Vector
 	tetraPoint1 := line1.IntersectPlane(lowerPlane)
 
 	//Line 2
-	upperVector2 := r3.Vector{maxExtremity.X, maxExtremity.Y, maxExtremity.Z}
+	upperVector2 := r3.Vector{minExtremity.X, maxExtremity.Y, minExtremity.Z}
 	Direct2 := r3.Sub(top, upperVector2)
 	line2 := r3.Line{Vector: upperVector2, Direction: Direct2}
 	// second bottom Intersection Vector
 	tetraPoint2 := line2.IntersectPlane(lowerPlane)
 
 	//Line 3
-	upperVector3 := r3.Vector{maxExtremity.X, maxExtremity.Y, minExtremity.Z}
+	upperVector3 := r3.Vector{minExtremity.X + 3*(maxExtremity.X-minExtremity.X), maxExtremity.Y, minExtremity.Z}
 	Direct3 := r3.Sub(top, upperVector3)
 	line3 := r3.Line{Vector: upperVector3, Direction: Direct3}
 	// third bottom Intersection Vector
@@ -51,7 +51,7 @@ func constructEnglobingTetra(Vectors []r3.Vector) shape.Mesh {
 }
 func getTopVectorOfTetrahedron(minExtremity, maxExtremity r3.Vector) r3.Vector {
 	x := minExtremity.X
-	y := 2 * maxExtremity.Y
+	y := maxExtremity.Y + (maxExtremity.Y - minExtremity.Y)
 	z := minExtremity.Z
 
 	return r3.Vector{x, y, z}
-- 
2.43.0


From a7f8d0e3c5ddada60544a13c9edf861fc9510df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:18 +0000
Subject: [PATCH 20/33] fix: the initial tetrahedron takes the furthest point
 from the plane on either side

---
 triangulate3/gdel3d.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triangulate3/gdel3d.go b/triangulate3/gdel3d.go
index 3dae706..4ea42cc 100644
--- a/triangulate3/gdel3d.go
+++ b/triangulate3/gdel3d.go
@@ -34,8 +34,8 @@ func getFurthestFromthreeVectors(Vectors []r3.Vector, a, b, c r3.Vector) r3.Vect
 	max := 0.0
 	var furthestVector r3.Vector
 	for _, Vector := range Vectors {
-		dist := Get3Ddist(a, b, c, Vector)
-		if max > dist {
+		dist := math.Abs(Get3Ddist(a, b, c, Vector))
+		if max < dist {
 			furthestVector = Vector
 			max = dist
 		}
-- 
2.43.0


From 7ac1f1539f18323f9357c9c69cee5d11e509a871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:18 +0000
Subject: [PATCH 21/33] fix: bounds of points beyond the float32 range

---
 triangulate3/englober.go | 4 ++--
 triangulate3/gdel3d.go   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/triangulate3/englober.go b/triangulate3/englober.go
index 28b267f..3b66858 100644
--- a/triangulate3/englober.go
+++ b/triangulate3/englober.go
@@ -58,8 +58,8 @@ func getTopVectorOfTetrahedron(minExtremity, maxExtremity r3.Vector) r3.Vector {
 }
 
 func computeBoundingBoxForVectors(Vectors []r3.Vector) (r3.Vector, r3.Vector) {
-	minExtremity := r3.Vector{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32}
-	maxExtremity := r3.Vector{-math.MaxFloat32, -math.MaxFloat32, -math.MaxFloat32}
+	minExtremity := r3.Vector{math.MaxFloat64, math.MaxFloat64, math.MaxFloat64}
+	maxExtremity := r3.Vector{-math.MaxFloat64, -math.MaxFloat64, -math.MaxFloat64}
 	for _, Vector := range Vectors {
 		//Updating the minExtremity
 		if Vector.X < minExtremity.X {
diff --git a/triangulate3/gdel3d.go b/triangulate3/gdel3d.go
index 4ea42cc..e4d4dd7 100644
--- a/triangulate3/gdel3d.go
+++ b/triangulate3/gdel3d.go
@@ -44,8 +44,8 @@ func getFurthestFromthreeVectors(Vectors []r3.Vector, a, b, c r3.Vector) r3.Vect
 }
 
 func computeExtremitiesForAxeX(Vectors []r3.Vector) (r3.Vector, r3.Vector) {
-	minExtremity := r3.Vector{math.MaxFloat32, math.MaxFloat32, math.MaxFloat32}
-	maxExtremity := r3.Vector{-math.MaxFloat32, -math.MaxFloat32, -math.MaxFloat32}
+	minExtremity := r3.Vector{math.MaxFloat64, math.MaxFloat64, math.MaxFloat64}
+	maxExtremity := r3.Vector{-math.MaxFloat64, -math.MaxFloat64, -math.MaxFloat64}
 	for _, Vector := range Vectors {
 		//Updating the minExtremity
 		if Vector.X < minExtremity.X {
-- 
2.43.0


From af4bb4e773c273dbaf0730c7d1e5b557fc8d2809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:26 +0000
Subject: [PATCH 22/33] fix: lexing a file no longer parses the program's
 command line

---
 step/lex.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/step/lex.go b/step/lex.go
index b6a86f3..b86af9f 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -2,7 +2,6 @@ package step
 
 import (
 	"bufio"
-	"flag"
 	"io"
 	"os"
 	"strings"
@@ -52,7 +51,6 @@ func initLexer(filename string) Lexer {
 // Lex : parses the step file and fills the symbol
 // table for the parser.
 func (l *Lexer) Lex() SymbolTable {
-	flag.Parse()
 	file, err := os.Open(l.Filename)
 
 	check(err)
-- 
2.43.0


From 932a61306a395d0d66d4988fae94589df384115c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:18 +0000
Subject: [PATCH 23/33] fix: step files are split into statements and arguments
 whatever their layout

---
 step/lex.go  | 90 +++++++++++++++++++++-------------------------------
 step/util.go | 65 +++++++++++++++++--------------------
 2 files changed, 66 insertions(+), 89 deletions(-)

diff --git a/step/lex.go b/step/lex.go
index b86af9f..90b4c88 100644
--- a/step/lex.go
+++ b/step/lex.go
@@ -1,9 +1,7 @@
 package step
 
 import (
-	"bufio"
-	"io"
-	"os"
+	"io/ioutil"
 	"strings"
 )
 
@@ -51,64 +49,50 @@ func initLexer(filename string) Lexer {
 // Lex : parses the step file and fills the symbol
 // table for the parser.
 func (l *Lexer) Lex() SymbolTable {
-	file, err := os.Open(l.Filename)
-
+	text, err := ioutil.ReadFile(l.Filename)
 	check(err)
-	defer file.Close()
-	reader := bufio.NewReader(file)
 
-	/* symbolData is the data related to the parsed symbol
-	---got from the step file */
-	symbolText := ""
 	symbolTable := make(SymbolTable, 0)
-	/* DEBUG : there is a bug with the fact that you didn't the case of that there is only one line in the definition text */
-	for {
-		line, _, err := reader.ReadLine()
-
-		if err == io.EOF {
-			break
+	for _, statement := range splitStatements(string(text)) {
+		/* the header, the section keywords and empty statements define nothing */
+		if strings.HasPrefix(statement, "#") && strings.Contains(statement, "=") {
+			symbolTable.add(statement)
 		}
+	}
+	return symbolTable
+}
 
-		buffer := string(line)
-
-		/* DEBUG BREAKPOINT */
-		//fmt.Println("buffer:", buffer, "\n buffer Length:", len(buffer))
-
-		/* skippin empty lines*/
-		/*
-			make it more robust to support multilines /could be the cause of a bug/
-		*/
-		if len(buffer) == 0 {
-			continue // empty
+// splitStatements : splits the file into its statements, which end with `;`.
+// Line breaks between and inside statements, and comments, mean nothing, and
+// strings between quotes are opaque.
+func splitStatements(text string) []string {
+	statements := make([]string, 0)
+	statement := make([]byte, 0)
+	inString := false
+	for i := 0; i < len(text); i++ {
+		c := text[i]
+		if c == '\n' || c == '\r' {
+			continue
 		}
-		/* __--------------- */
-		/*	you can optimize this further more by making sure the symbol
-			is init to the first value when you start parsing and remvove
-			the first check*/
-		if strings.Contains(buffer, "=") { // contains =
-			/* --sync method
-			---fmt.Println("emit") */
-
-			//fmt.Println(buffer, "buffer")
-			/*  the symbol data gets filled by the whole step description
-			----before getting split into identifier and definition */
-			if len(symbolText) > 0 {
-				symbolTable.add(symbolText)
+		if c == '\'' {
+			inString = !inString
+		}
+		if !inString && c == '/' && strings.HasPrefix(text[i:], "/*") {
+			end := strings.Index(text[i+2:], "*/")
+			if end < 0 {
+				break
 			}
-			/* ---------------------------------------------------- */
-			/*
-				---async method
-				symbol := Symbol{ID: identifier, Def: definition}
-				l.emit(symbol)
-			*/
-			/*_----------------------------------------------------_*/
-			symbolText = buffer // is not empty and does not contain =
-		} else {
-			symbolText += buffer
+			i += 2 + end + 1
+			continue
+		}
+		statement = append(statement, c)
+		if !inString && c == ';' {
+			statements = append(statements, strings.TrimSpace(string(statement)))
+			statement = make([]byte, 0)
 		}
 	}
-	symbolTable.add(symbolText)
-	return symbolTable
+	/* what follows the last `;` is not a whole statement */
+	return statements
 }
 
 // emit : emits the symbol to the symbols chanel
@@ -121,7 +105,7 @@ func (l *Lexer) emit(s Symbol) {
 */
 func (st *SymbolTable) add(symbolText string) {
 	split := strings.SplitN(symbolText, "=", 2)
-	identifier := split[0]
+	identifier := strings.TrimSpace(split[0])
 	definition := tokenize(split[1])
 	(*st)[identifier] = definition
 
diff --git a/step/util.go b/step/util.go
index 3d97f34..dedaec4 100644
--- a/step/util.go
+++ b/step/util.go
@@ -11,27 +11,38 @@ import (
 
 // getArguments : gets arguments from arguments STEP file text
 func getArguments(argumentsText string) []string {
-	arguments := make([]string, 0)
+	/* sanitizing the end by removing `);` */
+	argumentsText = strings.TrimSpace(argumentsText)
+	argumentsText = strings.TrimSpace(strings.TrimSuffix(argumentsText, ";"))
+	argumentsText = strings.TrimSuffix(argumentsText, ")")
+	return splitList(argumentsText)
+}
+
+// splitList : splits a list at its commas. Nested lists and strings between
+// quotes are kept whole.
+func splitList(text string) []string {
+	elements := make([]string, 0)
+	if strings.TrimSpace(text) == "" {
+		return elements
+	}
 	openBrackets := 0
-	argument := make([]rune, 0)
-	for _, r := range argumentsText {
-		if r == '(' {
+	inString := false
+	start := 0
+	for i := 0; i < len(text); i++ {
+		switch c := text[i]; {
+		case c == '\'':
+			inString = !inString
+		case inString:
+		case c == '(':
 			openBrackets++
-		}
-		if r == ')' {
+		case c == ')':
 			openBrackets--
+		case c == ',' && openBrackets == 0:
+			elements = append(elements, strings.TrimSpace(text[start:i]))
+			start = i + 1
 		}
-		if openBrackets == 0 && r == ',' {
-			arguments = append(arguments, string(argument))
-			argument = make([]rune, 0)
-			continue
-		}
-		argument = append(argument, r)
 	}
-	/* sanitizing last input by remove `);` */
-	lastArgument := string(argument)[:len(argument)-2]
-	arguments = append(arguments, lastArgument)
-	return arguments
+	return append(elements, strings.TrimSpace(text[start:]))
 }
 
 // getArray : gets an array from arguments refactor
@@ -43,26 +54,8 @@ func getArguments(argumentsText string) []string {
 /* TODO:handle ERRORS */
 func getArray(arrayText string, t reflect.Kind) []string {
 	/* removing `(` from start and `)` from end*/
-	arrayText = arrayText[1 : len(arrayText)-1]
-	openBrackets := 0
-	element := make([]rune, 0)
-	array := make([]string, 0)
-	for _, r := range arrayText {
-		if r == '(' {
-			openBrackets++
-		}
-		if r == ')' {
-			openBrackets--
-		}
-		if openBrackets == 0 && r == ',' {
-			array = append(array, string(element))
-			element = make([]rune, 0)
-			continue
-		}
-		element = append(element, r)
-	}
-	array = append(array, string(element))
-	return array
+	arrayText = strings.TrimSpace(arrayText)
+	return splitList(arrayText[1 : len(arrayText)-1])
 }
 
 /* TODO:handle ERRORS */
-- 
2.43.0


From 828a9647eea181a0a6bbd31aa52431bec9ddc7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:18 +0000
Subject: [PATCH 24/33] fix: faces, placements and product definitions visit
 the definitions they refer to

---
 step/bridge.go   | 4 ++--
 step/template.go | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/step/bridge.go b/step/bridge.go
index 50f5e45..baff137 100644
--- a/step/bridge.go
+++ b/step/bridge.go
@@ -18,13 +18,13 @@ func (parser *Parser) bridge(definition Definition) parseFn {
 		return parser.skipUtility
 	case "VERTEX_LOOP":
 		return parser.vertexLoop
-	case "AXIS_2_PLACEMENT_3D":
+	case "AXIS_2_PLACEMENT_3D", "AXIS2_PLACEMENT_3D":
 		return parser.axis2Placement3D
 	case "FACE":
 		return parser.face
 	case "B_SPLINE_SURFACE_WITH_KNOTS":
 		return parser.bSplineSurfaceWithKnots
-	case "ADVENCED_FACE":
+	case "ADVENCED_FACE", "ADVANCED_FACE":
 		return parser.advancedFace
 	case "CLOSED_SHELL":
 		return parser.closedShell
diff --git a/step/template.go b/step/template.go
index 615acfd..3faa439 100644
--- a/step/template.go
+++ b/step/template.go
@@ -20,7 +20,7 @@ func (p *Parser) productDefinitionShape(key string) {
 func (p *Parser) productDefinition(key string) {
 
 	productDefinitionFormationState := parseState{fn: p.productDefinitionFormation, key: p.lexemes[key].Arguments[2]}
-	productDefinitionContextState := parseState{fn: p.productDefinitionContext, key: p.lexemes[key].Arguments[2]}
+	productDefinitionContextState := parseState{fn: p.productDefinitionContext, key: p.lexemes[key].Arguments[3]}
 
 	p.nextStates = append(p.nextStates, productDefinitionFormationState, productDefinitionContextState)
 
@@ -37,8 +37,8 @@ func (p *Parser) productDefinitionContext(key string) {
 func (p *Parser) axis2Placement3D(key string) {
 
 	cartesianVectorState := parseState{fn: p.cartesianPoint, key: p.lexemes[key].Arguments[1]}
-	xDirectionState := parseState{fn: p.direction, key: p.lexemes[key].Arguments[1]}
-	yDirectionState := parseState{fn: p.direction, key: p.lexemes[key].Arguments[1]}
+	xDirectionState := parseState{fn: p.direction, key: p.lexemes[key].Arguments[2]}
+	yDirectionState := parseState{fn: p.direction, key: p.lexemes[key].Arguments[3]}
 	p.nextStates = append(p.nextStates, cartesianVectorState, xDirectionState, yDirectionState)
 
 }
@@ -90,7 +90,7 @@ func (p *Parser) advancedFace(key string) {
 	fmt.Println("parsing advanced face")
 
 	advancedFace := p.lexemes[key]
-	neighbourID := advancedFace.Arguments[1]
+	neighbourID := advancedFace.Arguments[2]
 	fmt.Println(p.lexemes[neighbourID].Type)
 
 	switch faceType := strings.TrimSpace(p.lexemes[neighbourID].Type); {
-- 
2.43.0


From d3a1c12103d280a4a51524278da4c2175202a31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:19 +0000
Subject: [PATCH 25/33] fix: references to definitions that are not in the file
 are skipped

---
 step/parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/step/parse.go b/step/parse.go
index da16cbe..28b3062 100644
--- a/step/parse.go
+++ b/step/parse.go
@@ -58,7 +58,10 @@ func (parser *Parser) runInferenceModel(state parseState) {
 		popState := parser.nextStates[0]
 		if _, found := parser.visited[popState.key]; !found {
 
-			popState.fn(popState.key)
+			/* a reference to a definition that is not there has nothing to parse */
+			if _, defined := parser.lexemes[popState.key]; defined {
+				popState.fn(popState.key)
+			}
 			parser.visited[popState.key] = struct{}{}
 		}
 		parser.nextStates = parser.nextStates[1:]
-- 
2.43.0


From 8184e5c2fb0df5d6242278d17dd7e41af443c966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:35 +0000
Subject: [PATCH 26/33] fix: the tetrahedrisation decides in-sphere tests
 exactly, so that rounding does not tear it

---
 meshing/mesh.go        |  4 +-
 predicates/exact.go    | 89 ++++++++++++++++++++++++++++++++++++++++++
 predicates/insphere.go | 24 ++++++++++--
 3 files changed, 111 insertions(+), 6 deletions(-)
 create mode 100644 predicates/exact.go

diff --git a/meshing/mesh.go b/meshing/mesh.go
index ab67730..f4b020c 100644
--- a/meshing/mesh.go
+++ b/meshing/mesh.go
@@ -93,8 +93,8 @@ func (t tetra) getNearestPointToCentroid(points []r3.Vector) r3.Vector {
 // vertices of t. The sign of the determinant depends on the orientation of t.
 func (t tetra) circumsphereContains(points []r3.Vector, p r3.Vector) bool {
 	pa, pb, pc, pd := points[t.ia], points[t.ib], points[t.ic], points[t.id]
-	inSphere := predicates.InSphereFast(pa, pb, pc, pd, p)
-	if r3.Dot(r3.Cross(r3.Sub(pb, pa), r3.Sub(pc, pa)), r3.Sub(pd, pa)) < 0 {
+	inSphere := predicates.InSphere(pa, pb, pc, pd, p)
+	if predicates.Orient3D(pa, pb, pc, pd) > 0 {
 		inSphere = -inSphere
 	}
 	return inSphere > 0
diff --git a/predicates/exact.go b/predicates/exact.go
new file mode 100644
index 0000000..589541e
--- /dev/null
+++ b/predicates/exact.go
@@ -0,0 +1,89 @@
+package predicates
+
+import (
+	"geGoMetry/r3"
+	"math"
+	"math/big"
+)
+
+// orient3dErrBound bounds the rounding error of orient3dfast relative to its permanent.
+const orient3dErrBound = (7 + 56*epsilon) * epsilon
+
+// smallest magnitude of a permanent for which the error bounds hold in spite of underflow
+const minPermanent = 1e-250
+
+// InSphere has the exact sign of the in-sphere determinant of finite points: for
+// positively oriented pa, pb, pc, pd, it is positive if pe is strictly inside the
+// sphere through them, negative if it is outside and zero if it is on the sphere.
+func InSphere(pa, pb, pc, pd, pe r3.Vector) float64 {
+	return inSphere(pa.X, pa.Y, pa.Z, pb.X, pb.Y, pb.Z, pc.X, pc.Y, pc.Z, pd.X, pd.Y, pd.Z, pe.X, pe.Y, pe.Z)
+}
+
+// Orient3D has the exact sign of orient3dfast for finite points.
+func Orient3D(a, b, c, d r3.Vector) float64 {
+	adx, bdx, cdx := math.Abs(a.X-d.X), math.Abs(b.X-d.X), math.Abs(c.X-d.X)
+	ady, bdy, cdy := math.Abs(a.Y-d.Y), math.Abs(b.Y-d.Y), math.Abs(c.Y-d.Y)
+	adz, bdz, cdz := math.Abs(a.Z-d.Z), math.Abs(b.Z-d.Z), math.Abs(c.Z-d.Z)
+	permanent := adx*(bdy*cdz+bdz*cdy) + bdx*(cdy*adz+cdz*ady) + cdx*(ady*bdz+adz*bdy)
+	det := orient3dfast(a, b, c, d)
+	if permanent > minPermanent && math.Abs(det) > orient3dErrBound*permanent {
+		return det
+	}
+	if p := differences(d, a, b, c); p != nil {
+		return float64(det3(p[0], p[1], p[2]).Sign())
+	}
+	return 0
+}
+
+// differences returns p - origin for the given points, exactly, up to a common
+// positive factor, or nil if some coordinate is not finite.
+func differences(origin r3.Vector, points ...r3.Vector) [][3]*big.Int {
+	points = append(points, origin)
+	exponent := math.MaxInt32
+	for _, p := range points {
+		for _, x := range [3]float64{p.X, p.Y, p.Z} {
+			if math.IsNaN(x) || math.IsInf(x, 0) {
+				return nil
+			}
+			if _, e := math.Frexp(x); x != 0 && e < exponent {
+				exponent = e
+			}
+		}
+	}
+	integers := make([][3]*big.Int, len(points))
+	for i, p := range points {
+		for k, x := range [3]float64{p.X, p.Y, p.Z} {
+			fraction, e := math.Frexp(x)
+			n := big.NewInt(int64(fraction * (1 << 53)))
+			if x != 0 {
+				n.Lsh(n, uint(e-exponent))
+			}
+			integers[i][k] = n
+		}
+	}
+	last := len(integers) - 1
+	for i := range integers[:last] {
+		for k := range integers[i] {
+			integers[i][k].Sub(integers[i][k], integers[last][k])
+		}
+	}
+	return integers[:last]
+}
+
+func dot(a, b [3]*big.Int) *big.Int {
+	sum := new(big.Int)
+	for k := range a {
+		sum.Add(sum, new(big.Int).Mul(a[k], b[k]))
+	}
+	return sum
+}
+
+func det3(a, b, c [3]*big.Int) *big.Int {
+	var cross [3]*big.Int
+	for k := range cross {
+		i, j := (k+1)%3, (k+2)%3
+		cross[k] = new(big.Int).Mul(a[i], b[j])
+		cross[k].Sub(cross[k], new(big.Int).Mul(a[j], b[i]))
+	}
+	return dot(cross, c)
+}
diff --git a/predicates/insphere.go b/predicates/insphere.go
index 65551a5..abacb96 100644
--- a/predicates/insphere.go
+++ b/predicates/insphere.go
@@ -3,6 +3,7 @@ package predicates
 import (
 	"geGoMetry/r3"
 	"math"
+	"math/big"
 )
 
 const isperrboundA = (16 + 224*epsilon) * epsilon
@@ -109,12 +110,27 @@ func inSphere(ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz, ex, ey, ez float64
 		((bexceyplus+cexbeyplus)*aezplus+(cexaeyplus+aexceyplus)*bezplus+(aexbeyplus+bexaeyplus)*cezplus)*dlift
 
 	errbound := isperrboundA * permanent
-	if det > errbound || -det > errbound {
+	if permanent > minPermanent && (det > errbound || -det > errbound) {
 		return det
 	}
-	return -inSphereAdapt(ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz, ex, ey, ez, permanent)
+	return inSphereAdapt(ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz, ex, ey, ez)
 }
 
-func inSphereAdapt(ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz, ex, ey, ez, permanent float64) float64 {
-	return 0.0
+func inSphereAdapt(ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz, ex, ey, ez float64) float64 {
+	p := differences(r3.Vector{X: ex, Y: ey, Z: ez}, r3.Vector{X: ax, Y: ay, Z: az}, r3.Vector{X: bx, Y: by, Z: bz},
+		r3.Vector{X: cx, Y: cy, Z: cz}, r3.Vector{X: dx, Y: dy, Z: dz})
+	if p == nil {
+		return 0.0
+	}
+	det := new(big.Int)
+	for i := range p {
+		term := dot(p[i], p[i])
+		term.Mul(term, det3(p[(i+1)%4], p[(i+2)%4], p[(i+3)%4]))
+		if i%2 == 0 {
+			det.Add(det, term)
+		} else {
+			det.Sub(det, term)
+		}
+	}
+	return float64(det.Sign())
 }
-- 
2.43.0


From 37e3ca6e3be2c27750baaf296b7033bb4a173c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:35 +0000
Subject: [PATCH 27/33] fix: initial tetrahedra enclose points far from the
 origin

---
 meshing/helper.go        | 5 +++++
 triangulate3/englober.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/meshing/helper.go b/meshing/helper.go
index c1fc14f..e1f0c19 100644
--- a/meshing/helper.go
+++ b/meshing/helper.go
@@ -101,6 +101,11 @@ func (h helper) computerInitialTetraPoints() (r3.Vector, r3.Vector, r3.Vector, r
 	if size == 0 {
 		size = 1
 	}
+	// far from the origin the margin must not vanish in rounding
+	for _, extremum := range []r3.Vector{h.min, h.max} {
+		magnitude := math.Max(math.Abs(extremum.X), math.Max(math.Abs(extremum.Y), math.Abs(extremum.Z)))
+		size = math.Max(size, 0x1p-45*magnitude)
+	}
 	margin := 10 * size
 	xmin, ymin, zmin = xmin-margin, ymin-margin, zmin-margin
 
diff --git a/triangulate3/englober.go b/triangulate3/englober.go
index 3b66858..67f0b41 100644
--- a/triangulate3/englober.go
+++ b/triangulate3/englober.go
@@ -10,6 +10,11 @@ func constructEnglobingTetra(Vectors []r3.Vector) shape.Mesh {
 	offset := 1.0
 
 	minExtremity, maxExtremity := computeBoundingBoxForVectors(Vectors)
+	// far from the origin the offset must not vanish in rounding
+	for _, extremity := range []r3.Vector{minExtremity, maxExtremity} {
+		magnitude := math.Max(math.Abs(extremity.X), math.Max(math.Abs(extremity.Y), math.Abs(extremity.Z)))
+		offset = math.Max(offset, 0x1p-40*magnitude)
+	}
 
 	minExtremity.Add(r3.Vector{-offset, -offset, -offset})
 	maxExtremity.Add(r3.Vector{offset, offset, offset})
-- 
2.43.0


From 0a0aba11a65d6aa267106c380ab93b8ed2551354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 28/33] fix: validating a triangulation tolerates rounding in
 proportion to its size

---
 triangulate2/triangulation.go | 11 +++++++----
 triangulate2/util.go          |  3 ++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/triangulate2/triangulation.go b/triangulate2/triangulation.go
index d558822..b0db684 100644
--- a/triangulate2/triangulation.go
+++ b/triangulate2/triangulation.go
@@ -53,14 +53,17 @@ func (t *Triangulation) Validate() error {
 	area1 := polygonArea(hull1)
 	area2 := polygonArea(hull2)
 	area3 := t.area()
-	if math.Abs(area1-area2) > 1e-9 || math.Abs(area1-area3) > 1e-9 {
+	perimeter1 := polygonPerimeter(hull1)
+	perimeter2 := polygonPerimeter(hull2)
+	// rounding errors are relative to the size of the hull
+	tolerance := 1e-12 * math.Max(perimeter1, perimeter2)
+	areaTolerance := tolerance * math.Max(perimeter1, perimeter2)
+	if math.Abs(area1-area2) > areaTolerance || math.Abs(area1-area3) > areaTolerance {
 		return fmt.Errorf("hull areas disagree: %f, %f, %f", area1, area2, area3)
 	}
 
 	// verify convex hull perimeter
-	perimeter1 := polygonPerimeter(hull1)
-	perimeter2 := polygonPerimeter(hull2)
-	if math.Abs(perimeter1-perimeter2) > 1e-9 {
+	if math.Abs(perimeter1-perimeter2) > tolerance {
 		return fmt.Errorf("hull perimeters disagree: %f, %f", perimeter1, perimeter2)
 	}
 
diff --git a/triangulate2/util.go b/triangulate2/util.go
index 510b8da..81d8d43 100644
--- a/triangulate2/util.go
+++ b/triangulate2/util.go
@@ -94,7 +94,8 @@ func polygonArea(Vectors []r3.Vector) float64 {
 	var result float64
 	for i, p := range Vectors {
 		q := Vectors[(i+1)%len(Vectors)]
-		result += (p.X - q.X) * (p.Y + q.Y)
+		// relative to one Vector, so that nothing cancels far from the origin
+		result += (p.X - q.X) * ((p.Y - Vectors[0].Y) + (q.Y - Vectors[0].Y))
 	}
 	return result / 2
 }
-- 
2.43.0


From 5d276de4f50e75b3843d5cb1ad0d4ff133f58c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 29/33] fix: a point at the centre of the sweep no longer
 panics

---
 triangulate2/util.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triangulate2/util.go b/triangulate2/util.go
index 81d8d43..9f64a50 100644
--- a/triangulate2/util.go
+++ b/triangulate2/util.go
@@ -11,6 +11,9 @@ var infinity = math.Inf(1)
 
 func pseudoAngle(dx, dy float64) float64 {
 	p := dx / (math.Abs(dx) + math.Abs(dy))
+	if dx == 0 && dy == 0 {
+		return 0
+	}
 	if dy > 0 {
 		p = (3 - p) / 4
 	} else {
-- 
2.43.0


From 7b877f5bc9444efb07ece32c264b5d7527381fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 30/33] fix: distinct points of small scale are not taken for
 duplicates

---
 triangulate2/hull.go         | 4 ++--
 triangulate2/triangulator.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/triangulate2/hull.go b/triangulate2/hull.go
index 43463b4..bc5486a 100644
--- a/triangulate2/hull.go
+++ b/triangulate2/hull.go
@@ -26,10 +26,10 @@ func ConvexHull(Vectors []r3.Vector) []r3.Vector {
 		return a.Y < b.Y
 	})
 
-	// filter nearly-duplicate Vectors
+	// filter duplicate Vectors
 	distinctVectors := Vectors[:0]
 	for i, p := range Vectors {
-		if i > 0 && squaredDistance2D(p, Vectors[i-1]) < eps {
+		if i > 0 && p.X == Vectors[i-1].X && p.Y == Vectors[i-1].Y {
 			continue
 		}
 		distinctVectors = append(distinctVectors, p)
diff --git a/triangulate2/triangulator.go b/triangulate2/triangulator.go
index 2db7c06..e787077 100644
--- a/triangulate2/triangulator.go
+++ b/triangulate2/triangulator.go
@@ -166,8 +166,8 @@ func (tri *triangulator) triangulate() error {
 		i := tri.ids[k]
 		p := Vectors[i]
 
-		// skip nearly-duplicate Vectors
-		if squaredDistance2D(p, pp) < eps {
+		// skip duplicate Vectors
+		if p.X == pp.X && p.Y == pp.Y {
 			continue
 		}
 		pp = p
-- 
2.43.0


From 31108024bf62485f5e11b7196b1594471a3a6b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:28 +0000
Subject: [PATCH 31/33] fix: the planar triangulation and hull decide
 orientation and in-circle exactly

---
 predicates/planar.go         | 70 ++++++++++++++++++++++++++++++++++++
 triangulate2/hull.go         |  6 ++--
 triangulate2/triangulator.go |  8 ++---
 triangulate2/util.go         | 24 ++++---------
 4 files changed, 83 insertions(+), 25 deletions(-)
 create mode 100644 predicates/planar.go

diff --git a/predicates/planar.go b/predicates/planar.go
new file mode 100644
index 0000000..ff28024
--- /dev/null
+++ b/predicates/planar.go
@@ -0,0 +1,70 @@
+package predicates
+
+import (
+	"geGoMetry/r3"
+	"math"
+	"math/big"
+)
+
+// bounds on the rounding errors of the planar determinants relative to their permanents
+const (
+	orient2dErrBound = (3 + 16*epsilon) * epsilon
+	inCircleErrBound = (10 + 96*epsilon) * epsilon
+)
+
+// Orient2D is positive if a, b, c are in counter-clockwise order in the plane,
+// negative if they are in clockwise order, and zero exactly if they are collinear.
+func Orient2D(a, b, c r3.Vector) float64 {
+	left := (a.X - c.X) * (b.Y - c.Y)
+	right := (a.Y - c.Y) * (b.X - c.X)
+	det := left - right
+	permanent := math.Abs(left) + math.Abs(right)
+	if permanent > minPermanent && math.Abs(det) > orient2dErrBound*permanent {
+		return det
+	}
+	p := differences(planar(c), planar(a), planar(b))
+	if p == nil {
+		return 0
+	}
+	return float64(cross2(p[0], p[1]).Sign())
+}
+
+// InCircle is positive if d is strictly inside the circle through a, b, c, which are
+// in counter-clockwise order in the plane, negative if it is outside and zero exactly
+// if it is on the circle. The sign is reversed for a, b, c in clockwise order.
+func InCircle(a, b, c, d r3.Vector) float64 {
+	adx, ady := a.X-d.X, a.Y-d.Y
+	bdx, bdy := b.X-d.X, b.Y-d.Y
+	cdx, cdy := c.X-d.X, c.Y-d.Y
+	bdxcdy, cdxbdy := bdx*cdy, cdx*bdy
+	cdxady, adxcdy := cdx*ady, adx*cdy
+	adxbdy, bdxady := adx*bdy, bdx*ady
+	alift := adx*adx + ady*ady
+	blift := bdx*bdx + bdy*bdy
+	clift := cdx*cdx + cdy*cdy
+
+	det := alift*(bdxcdy-cdxbdy) + blift*(cdxady-adxcdy) + clift*(adxbdy-bdxady)
+	permanent := (math.Abs(bdxcdy)+math.Abs(cdxbdy))*alift +
+		(math.Abs(cdxady)+math.Abs(adxcdy))*blift +
+		(math.Abs(adxbdy)+math.Abs(bdxady))*clift
+	if permanent > minPermanent && math.Abs(det) > inCircleErrBound*permanent {
+		return det
+	}
+	p := differences(planar(d), planar(a), planar(b), planar(c))
+	if p == nil {
+		return 0
+	}
+	sum := new(big.Int)
+	for i := range p {
+		term := dot(p[i], p[i])
+		sum.Add(sum, term.Mul(term, cross2(p[(i+1)%3], p[(i+2)%3])))
+	}
+	return float64(sum.Sign())
+}
+
+func planar(v r3.Vector) r3.Vector { return r3.Vector{X: v.X, Y: v.Y} }
+
+func cross2(a, b [3]*big.Int) *big.Int {
+	cross := new(big.Int).Mul(a[0], b[1])
+	return cross.Sub(cross, new(big.Int).Mul(a[1], b[0]))
+}
diff --git a/triangulate2/hull.go b/triangulate2/hull.go
index bc5486a..afcd5f9 100644
--- a/triangulate2/hull.go
+++ b/triangulate2/hull.go
@@ -1,13 +1,13 @@
 package triangulate2
 
 import (
+	"geGoMetry/predicates"
 	"geGoMetry/r3"
 	"sort"
 )
 
-func cross2D(p, a, b r3.Vector) float64 {
-	return (a.X-p.X)*(b.Y-p.Y) - (a.Y-p.Y)*(b.X-p.X)
-}
+// cross2D has the exact sign of the cross product of a-p and b-p.
+func cross2D(p, a, b r3.Vector) float64 { return predicates.Orient2D(p, a, b) }
 
 // ConvexHull returns the convex hull of the provided Vectors.
 func ConvexHull(Vectors []r3.Vector) []r3.Vector {
diff --git a/triangulate2/triangulator.go b/triangulate2/triangulator.go
index e787077..9628497 100644
--- a/triangulate2/triangulator.go
+++ b/triangulate2/triangulator.go
@@ -121,7 +121,7 @@ func (tri *triangulator) triangulate() error {
 	}
 
 	// swap the order of the seed Vectors for counter-clockwise orientation
-	if area(Vectors[i0], Vectors[i1], Vectors[i2]) < 0 {
+	if orientation(Vectors[i0], Vectors[i1], Vectors[i2]) < 0 {
 		i1, i2 = i2, i1
 	}
 
@@ -193,7 +193,7 @@ func (tri *triangulator) triangulate() error {
 		start = start.prev
 
 		e := start
-		for area(p, Vectors[e.i], Vectors[e.next.i]) >= 0 {
+		for orientation(p, Vectors[e.i], Vectors[e.next.i]) >= 0 {
 			e = e.next
 			if e == start {
 				e = nil
@@ -216,7 +216,7 @@ func (tri *triangulator) triangulate() error {
 
 		// walk forward through the hull, adding more triangles and flipping recursively
 		q := e.next
-		for area(p, Vectors[q.i], Vectors[q.next.i]) < 0 {
+		for orientation(p, Vectors[q.i], Vectors[q.next.i]) < 0 {
 			t = tri.addTriangle(q.i, i, q.next.i, q.prev.t, -1, q.t)
 			q.prev.t = tri.legalize(t + 2)
 			tri.hull = q.remove()
@@ -226,7 +226,7 @@ func (tri *triangulator) triangulate() error {
 		if walkBack {
 			// walk backward from the other side, adding more triangles and flipping
 			q := e.prev
-			for area(p, Vectors[q.prev.i], Vectors[q.i]) < 0 {
+			for orientation(p, Vectors[q.prev.i], Vectors[q.i]) < 0 {
 				t = tri.addTriangle(q.prev.i, i, q.i, -1, q.t, q.prev.t)
 				tri.legalize(t + 2)
 				q.prev.t = t
diff --git a/triangulate2/util.go b/triangulate2/util.go
index 9f64a50..03cf49e 100644
--- a/triangulate2/util.go
+++ b/triangulate2/util.go
@@ -1,6 +1,7 @@
 package triangulate2
 
 import (
+	"geGoMetry/predicates"
 	"geGoMetry/r3"
 	"math"
 )
@@ -10,10 +11,10 @@ var eps = math.Nextafter(1, 2) - 1
 var infinity = math.Inf(1)
 
 func pseudoAngle(dx, dy float64) float64 {
-	p := dx / (math.Abs(dx) + math.Abs(dy))
 	if dx == 0 && dy == 0 {
 		return 0
 	}
+	p := dx / (math.Abs(dx) + math.Abs(dy))
 	if dy > 0 {
 		p = (3 - p) / 4
 	} else {
@@ -34,25 +35,12 @@ func area(a, b, c r3.Vector) float64 {
 	return (b.Y-a.Y)*(c.X-b.X) - (b.X-a.X)*(c.Y-b.Y)
 }
 
+// orientation has the exact sign of area.
+func orientation(a, b, c r3.Vector) float64 { return -predicates.Orient2D(a, b, c) }
+
 //	Thales ++
 func inCircle(a, b, c, p r3.Vector) bool {
-	dx := a.X - p.X
-	dy := a.Y - p.Y
-	//dz := a.Z - p.Z
-
-	ex := b.X - p.X
-	ey := b.Y - p.Y
-	//ez := b.Z - p.Z
-
-	fx := c.X - p.X
-	fy := c.Y - p.Y
-	//fz := c.Z - p.Z
-
-	ap := dx*dx + dy*dy
-	bp := ex*ex + ey*ey
-	cp := fx*fx + fy*fy
-
-	return dx*(ey*cp-bp*fy)-dy*(ex*cp-bp*fx)+ap*(ex*fy-ey*fx) < 0
+	return predicates.InCircle(a, b, c, p) < 0
 }
 
 func circumradius(a, b, c r3.Vector) float64 {
-- 
2.43.0


From 08e1403b16c615d7d251d4d1cb4aca9041987f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:53 +0000
Subject: [PATCH 32/33] fix: the planar triangulation chooses its seed and the
 order of insertion exactly

Rounding let points of nearly collinear sets be inserted too early, so that they were
dropped from the triangulation.
---
 predicates/planar.go         | 83 ++++++++++++++++++++++++++++++++++++
 triangulate2/triangulator.go | 61 +++++++++++++++-----------
 triangulate2/util.go         |  4 +-
 3 files changed, 120 insertions(+), 28 deletions(-)

diff --git a/predicates/planar.go b/predicates/planar.go
index ff28024..9338bcd 100644
--- a/predicates/planar.go
+++ b/predicates/planar.go
@@ -10,6 +10,8 @@ import (
 const (
 	orient2dErrBound = (3 + 16*epsilon) * epsilon
 	inCircleErrBound = (10 + 96*epsilon) * epsilon
+	toCircumErrBound = 32 * epsilon
+	toPointErrBound  = 16 * epsilon
 )
 
 // Orient2D is positive if a, b, c are in counter-clockwise order in the plane,
@@ -62,6 +64,87 @@ func InCircle(a, b, c, d r3.Vector) float64 {
 	return float64(sum.Sign())
 }
 
+// CompareToPoint is negative if p is closer to o than q in the plane, positive if it is
+// further away and zero exactly if the distances are equal.
+func CompareToPoint(o, p, q r3.Vector) float64 {
+	px, py := p.X-o.X, p.Y-o.Y
+	qx, qy := q.X-o.X, q.Y-o.Y
+	dp, dq := px*px+py*py, qx*qx+qy*qy
+	if dp+dq > minPermanent && math.Abs(dp-dq) > toPointErrBound*(dp+dq) {
+		return dp - dq
+	}
+	v := differences(planar(o), planar(p), planar(q))
+	if v == nil {
+		return 0
+	}
+	return float64(dot(v[0], v[0]).Cmp(dot(v[1], v[1])))
+}
+
+// CircleOrder compares points by their distance from the center of a circle in the plane.
+type CircleOrder struct {
+	a, b, c        r3.Vector
+	points         []r3.Vector
+	powers, errors []float64
+	exact          []*big.Int // once it is needed
+}
+
+// NewCircleOrder returns the order of the points for the circle through a, b, c.
+func NewCircleOrder(a, b, c r3.Vector, points []r3.Vector) *CircleOrder {
+	o := &CircleOrder{a: a, b: b, c: c, points: points, powers: make([]float64, len(points)), errors: make([]float64, len(points))}
+	sign := Orient2D(a, b, c)
+	bx, by := b.X-a.X, b.Y-a.Y
+	cx, cy := c.X-a.X, c.Y-a.Y
+	blift, clift := bx*bx+by*by, cx*cx+cy*cy
+	for i, p := range points {
+		dx, dy := p.X-a.X, p.Y-a.Y
+		dlift := dx*dx + dy*dy
+		power := dlift*(bx*cy-by*cx) - dx*(cy*blift-by*clift) - dy*(bx*clift-cx*blift)
+		if sign < 0 {
+			power = -power
+		}
+		permanent := dlift*(math.Abs(bx*cy)+math.Abs(by*cx)) +
+			math.Abs(dx)*(math.Abs(cy)*blift+math.Abs(by)*clift) + math.Abs(dy)*(math.Abs(bx)*clift+math.Abs(cx)*blift)
+		o.powers[i], o.errors[i] = power, toCircumErrBound*permanent+minPermanent
+	}
+	return o
+}
+
+// Compare is negative if point i is closer to the center than point j, positive if it is
+// further away and zero exactly if the distances are equal (or there is no circle).
+func (o *CircleOrder) Compare(i, j int) int {
+	d := o.powers[i] - o.powers[j]
+	if err := o.errors[i] + o.errors[j]; d > err {
+		return 1
+	} else if d < -err {
+		return -1
+	}
+	if o.exact == nil {
+		o.exact = exactPowers(o.a, o.b, o.c, o.points)
+	}
+	return o.exact[i].Cmp(o.exact[j])
+}
+
+func exactPowers(a, b, c r3.Vector, points []r3.Vector) []*big.Int {
+	flat := []r3.Vector{planar(b), planar(c)}
+	for _, p := range points {
+		flat = append(flat, planar(p))
+	}
+	powers := make([]*big.Int, len(points))
+	v := differences(planar(a), flat...)
+	for i := range powers {
+		powers[i] = new(big.Int)
+		if v == nil {
+			continue
+		}
+		b, c, d := v[0], v[1], v[i+2]
+		powers[i].Mul(dot(d, d), cross2(b, c))
+		powers[i].Sub(powers[i], new(big.Int).Mul(dot(b, b), cross2(d, c)))
+		powers[i].Sub(powers[i], new(big.Int).Mul(dot(c, c), cross2(b, d)))
+		powers[i].Mul(powers[i], big.NewInt(int64(cross2(b, c).Sign())))
+	}
+	return powers
+}
+
 func planar(v r3.Vector) r3.Vector { return r3.Vector{X: v.X, Y: v.Y} }
 
 func cross2(a, b [3]*big.Int) *big.Int {
diff --git a/triangulate2/triangulator.go b/triangulate2/triangulator.go
index 9628497..768eb1f 100644
--- a/triangulate2/triangulator.go
+++ b/triangulate2/triangulator.go
@@ -2,21 +2,22 @@ package triangulate2
 
 import (
 	"fmt"
+	"geGoMetry/predicates"
 	"geGoMetry/r3"
 	"math"
 	"sort"
 )
 
 type triangulator struct {
-	Vectors          []r3.Vector
-	squaredDistances []float64
-	ids              []int
-	center           r3.Vector
-	triangles        []int
-	halfedges        []int
-	trianglesLen     int
-	hull             *node
-	hash             []*node
+	Vectors      []r3.Vector
+	ids          []int
+	order        *predicates.CircleOrder
+	center       r3.Vector
+	triangles    []int
+	halfedges    []int
+	trianglesLen int
+	hull         *node
+	hash         []*node
 }
 
 func newTriangulator(Vectors []r3.Vector) *triangulator {
@@ -24,7 +25,7 @@ func newTriangulator(Vectors []r3.Vector) *triangulator {
 }
 
 // sorting a triangulator sorts the `ids` such that the referenced Vectors
-// are in order by their distance to `center`
+// are in order by their distance to the circumcenter of the seed triangle
 func (a *triangulator) Len() int {
 	return len(a.Vectors)
 }
@@ -34,10 +35,8 @@ func (a *triangulator) Swap(i, j int) {
 }
 
 func (a *triangulator) Less(i, j int) bool {
-	d1 := a.squaredDistances[a.ids[i]]
-	d2 := a.squaredDistances[a.ids[j]]
-	if d1 != d2 {
-		return d1 < d2
+	if d := a.order.Compare(a.ids[i], a.ids[j]); d != 0 {
+		return d < 0
 	}
 	p1 := a.Vectors[a.ids[i]]
 	p2 := a.Vectors[a.ids[j]]
@@ -92,34 +91,47 @@ func (tri *triangulator) triangulate() error {
 	}
 
 	// find Vector closest to seed Vector
-	minDist = infinity
+	i1 = -1
 	for i, p := range Vectors {
-		if i == i0 {
+		if squaredDistance2D(p, Vectors[i0]) == 0 {
 			continue
 		}
-		d := squaredDistance2D(p, Vectors[i0])
-		if d > 0 && d < minDist {
+		if i1 < 0 || predicates.CompareToPoint(Vectors[i0], p, Vectors[i1]) < 0 {
 			i1 = i
-			minDist = d
 		}
 	}
+	if i1 < 0 {
+		return fmt.Errorf("No Delaunay triangulation exists for this input.")
+	}
 
 	// find the third Vector which forms the smallest circumcircle
+	i2 = -1
 	minRadius := infinity
 	for i, p := range Vectors {
-		if i == i0 || i == i1 {
+		if orientation(Vectors[i0], Vectors[i1], p) == 0 {
 			continue
 		}
 		r := circumradius(Vectors[i0], Vectors[i1], p)
-		if r < minRadius {
+		if i2 < 0 || r < minRadius {
 			i2 = i
 			minRadius = r
 		}
 	}
-	if minRadius == infinity {
+	if i2 < 0 {
 		return fmt.Errorf("No Delaunay triangulation exists for this input.")
 	}
 
+	// rounding of the radii may have left Vectors inside the circumcircle
+	j0, j1 := i0, i1
+	if orientation(Vectors[i0], Vectors[i1], Vectors[i2]) < 0 {
+		j0, j1 = j1, j0
+	}
+	for i, p := range Vectors {
+		if orientation(Vectors[j0], Vectors[j1], p) > 0 && inCircle(Vectors[j0], Vectors[j1], Vectors[i2], p) {
+			i2 = i
+		}
+	}
+
 	// swap the order of the seed Vectors for counter-clockwise orientation
 	if orientation(Vectors[i0], Vectors[i1], Vectors[i2]) < 0 {
 		i1, i2 = i2, i1
@@ -128,10 +140,7 @@ func (tri *triangulator) triangulate() error {
 	tri.center = circumcenter(Vectors[i0], Vectors[i1], Vectors[i2])
 
 	// sort the Vectors by distance from the seed triangle circumcenter
-	tri.squaredDistances = make([]float64, n)
-	for i, p := range Vectors {
-		tri.squaredDistances[i] = squaredDistance2D(p, tri.center)
-	}
+	tri.order = predicates.NewCircleOrder(Vectors[i0], Vectors[i1], Vectors[i2], Vectors)
 	sort.Sort(tri)
 
 	// initialize a hash table for storing edges of the advancing convex hull
diff --git a/triangulate2/util.go b/triangulate2/util.go
index 03cf49e..afc79da 100644
--- a/triangulate2/util.go
+++ b/triangulate2/util.go
@@ -11,10 +11,10 @@ var eps = math.Nextafter(1, 2) - 1
 var infinity = math.Inf(1)
 
 func pseudoAngle(dx, dy float64) float64 {
-	if dx == 0 && dy == 0 {
+	p := dx / (math.Abs(dx) + math.Abs(dy))
+	if math.IsNaN(p) {
 		return 0
 	}
-	p := dx / (math.Abs(dx) + math.Abs(dy))
 	if dy > 0 {
 		p = (3 - p) / 4
 	} else {
-- 
2.43.0


From 301c08537a01ac7e10119e625a3a124d786d2625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:43 +0000
Subject: [PATCH 33/33] fix: compare points equally when there is no circle to
 compare them by

---
 predicates/planar.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/predicates/planar.go b/predicates/planar.go
index 9338bcd..4a0845e 100644
--- a/predicates/planar.go
+++ b/predicates/planar.go
@@ -101,6 +101,8 @@ func NewCircleOrder(a, b, c r3.Vector, points []r3.Vector) *CircleOrder {
 		power := dlift*(bx*cy-by*cx) - dx*(cy*blift-by*clift) - dy*(bx*clift-cx*blift)
 		if sign < 0 {
 			power = -power
+		} else if sign == 0 {
+			power = 0
 		}
 		permanent := dlift*(math.Abs(bx*cy)+math.Abs(by*cx)) +
 			math.Abs(dx)*(math.Abs(cy)*blift+math.Abs(by)*clift) + math.Abs(dy)*(math.Abs(bx)*clift+math.Abs(cx)*blift)
-- 
2.43.0

