N='nurbs/basis.go'; T='triangulate2/triangulator.go'; U='triangulate2/util.go'; H='triangulate2/hull.go'; V='triangulate2/triangulation.go'; P='predicates/planar.go'
L=[
("n-if","N01",[(N,'for last > p && U[last] == U[n+1] {','if last > p && U[last] == U[n+1] {')]),
("n-first","N01",[(N,'for first < n && U[first+1] == U[p] {','if first < n && U[first+1] == U[p] {')]),
("n-f32","N01 N03",[(N,'for u < float64(U[mid]) || u >= float64(U[mid+1]) {','for u < float64(float32(U[mid])) || u >= float64(float32(U[mid+1])) {')]),
("n-f32b","N02",[(N,'left[j] = u - float64(U[i+1-j])','left[j] = float64(float32(u) - float32(U[i+1-j]))')]),
("n-deg6","N02 N03",[(N,'	N[0] = 1.\n','	N[0] = 1.\n	if p > 6 {\n		p = 6\n	}\n')]),
("n-deg8","N02 N04",[(N,'	left := make([]float64, p+1)\n	right := make([]float64, p+1)\n\n	N[0]','	left := make([]float64, 8)\n	right := make([]float64, 8)\n\n	N[0]')]),
("n-uint8","N01",[(N,'mid := (low + high) / 2\n','mid := int(uint8((low + high) / 2))\n')]),
("n-iter","N01",[(N,'	for u < float64(U[mid]) || u >= float64(U[mid+1]) {','	for k := 0; k < 8 && (u < float64(U[mid]) || u >= float64(U[mid+1])); k++ {')]),
("n-iter20","N01",[(N,'	for u < float64(U[mid]) || u >= float64(U[mid+1]) {','	for k := 0; k < 10 && (u < float64(U[mid]) || u >= float64(U[mid+1])); k++ {')]),
("n-cache","C02 N01",[(N,'	/* do binary search */\n','	if lastSpan >= p && lastSpan <= n && u >= float64(U[lastSpan]) && u <= float64(U[lastSpan+1]) && u != float64(U[lastSpan+1]) {\n		return lastSpan\n	}\n	defer func() { lastSpan = (low0 + high0) / 2 }()\n	low0, high0 = p, n+1\n	/* do binary search */\n'),(N,'import "fmt"','import "fmt"\n\nvar lastSpan, low0, high0 int')]),
("n-eps","N01",[(N,'if u >= float64(U[n+1]) {','if u >= float64(U[n+1])-1e-9 {')]),
("n-zero","N02",[(N,'temp := N[r] / (right[r+1] + left[j-r])','d := right[r+1] + left[j-r]\n			if d > 1e6 {\n				d = 1e6\n			}\n			temp := N[r] / d')]),
("n-int32","N04",[(N,'left[j] = float64(u - U[i+1-j])','left[j] = float64(int32(u - U[i+1-j]))')]),
("n-end","N03",[("nurbs/curve.go",'	span := findSpan(n, p, u, U)\n','	span := findSpan(n, p, u, U)\n	if u == float64(U[n+1]) {\n		return P[n]\n	}\n')]),
("n-start","N03",[("nurbs/curve.go",'	span := findSpan(n, p, u, U)\n','	span := findSpan(n, p, u, U)\n	if u == float64(U[0]) {\n		return P[0]\n	}\n')]),
("n-derk","N04",[(N,'r *= (p - k)','if k < 4 {\n			r *= (p - k)\n		}')]),
("n-j2","N04",[(N,'if r-1 <= pk {','if r-1 <= pk || p > 6 {')]),
("n-skip","N03",[("nurbs/curve.go",'		B := P[span-p+i]','		if N[i] < 1e-9 {\n			continue\n		}\n		B := P[span-p+i]')]),
("t-tie","T01",[(T,'	if p1.X != p2.X {\n		return p1.X < p2.X\n	}\n	return p1.Y < p2.Y\n','	return p1.X < p2.X\n')]),
("t-tie2","T01",[(T,'	if p1.X != p2.X {\n		return p1.X < p2.X\n	}\n	return p1.Y < p2.Y\n','	return p1.X < p2.X || p1.X == p2.X && a.ids[i] < a.ids[j]\n')]),
("t-nofix","T01 T02 T03",[(T,'if t.halfedges[bl] == -1 {','if t.halfedges[bl] == -2 {')]),
("t-fix50","T01 T02 T03",[(T,'			e := t.hull\n			for {','			e := t.hull\n			for k := 0; k < 50; k++ {')]),
("t-fix12","T01 T02 T03",[(T,'			e := t.hull\n			for {','			e := t.hull\n			for k := 0; k < 12; k++ {')]),
("t-walk","T01 T02",[(T,'walkBack := e == start','walkBack := e == start && k < 200')]),
("t-walk64","T01 T02",[(T,'walkBack := e == start','walkBack := e == start && k < 64')]),
("t-skipeps","T01",[(T,'if p.X == pp.X && p.Y == pp.Y {','if math.Abs(p.X-pp.X) <= eps && math.Abs(p.Y-pp.Y) <= eps {')]),
("t-skiprel","T01",[(T,'if p.X == pp.X && p.Y == pp.Y {','if math.Abs(p.X-pp.X) <= eps*math.Abs(p.X) && math.Abs(p.Y-pp.Y) <= eps*math.Abs(p.Y) {')]),
("t-hulleq","T04 T01",[(H,'cross2D(U[len(U)-2], U[len(U)-1], p) > 0','cross2D(U[len(U)-2], U[len(U)-1], p) >= 0')]),
("t-hullrel","T04",[(H,'if i > 0 && p.X == Vectors[i-1].X && p.Y == Vectors[i-1].Y {','if i > 0 && float32(p.X) == float32(Vectors[i-1].X) && float32(p.Y) == float32(Vectors[i-1].Y) {')]),
("t-pa1","T01",[(U,'math.Min(1-eps, p)','math.Min(1, p)')]),
("t-incirc","T01 T02",[(U,'return predicates.InCircle(a, b, c, p) < 0','return predicates.InCircle(a, b, c, p) <= 0')]),
("t-val","T05",[(V,'hull2 := ConvexHull(t.Vectors)','hull2 := hull1')]),
("t-valtol","T05",[(V,'tolerance := 1e-12','tolerance := 1e-7')]),
("t-valabs","T05",[(V,'areaTolerance := tolerance * math.Max(perimeter1, perimeter2)','areaTolerance := tolerance * math.Max(math.Max(perimeter1, perimeter2), 1)')]),
("t-valhalf","T05",[(V,'		if i2 != -1 && t.Halfedges[i2] != i1 {\n			return fmt.Errorf("invalid halfedge connection")\n		}\n','')]),
("t-polyoff","T05 T04 T06 T07",[(U,'((p.Y - Vectors[0].Y) + (q.Y - Vectors[0].Y))','(p.Y + q.Y)')]),
("t-legdepth","T02",[(T,'		t.legalize(a)\n		return t.legalize(br)','		if t.trianglesLen < 3*120 {\n			t.legalize(a)\n		}\n		return t.legalize(br)')]),
("t-legbr","T02",[(T,'		t.legalize(a)\n		return t.legalize(br)','		t.legalize(a)\n		if br > 3000 {\n			return t.link2(br)\n		}\n		return t.legalize(br)'),(T,'func (t *triangulator) convexHull','func (t *triangulator) link2(a int) int { return a - a%3 + (a+2)%3 }\n\nfunc (t *triangulator) convexHull')]),
("t-hash1","T01 T03",[(T,'math.Ceil(math.Sqrt(float64(n)))','math.Min(16, math.Ceil(math.Sqrt(float64(n))))')]),
("t-hashnode","T01 T03",[(T,'if start != nil && start.i >= 0 {','if start != nil {')]),
("t-hashprev","T01 T03",[(T,'		tri.hashEdge(e.prev)\n','')]),
("t-seed","T01 T02",[(T,'if i2 < 0 || r < minRadius {','if i2 < 0 || r <= minRadius {')]),
("t-noround","T01 T02",[(T,'if orientation(Vectors[j0], Vectors[j1], p) > 0 && inCircle','if i < 0 && orientation(Vectors[j0], Vectors[j1], p) > 0 && inCircle')]),
("t-center","T01 T02",[(T,'for i, p := range Vectors {\n		if squaredDistance2D(p, Vectors[i0]) == 0 {','for i, p := range Vectors {\n		if squaredDistance2D(p, Vectors[i0]) < 1e-18 {')]),
("t-max","T01",[(T,'maxTriangles := 2*n - 5\n','maxTriangles := 2*n - 5\n	if n > 100 {\n		maxTriangles = 2*n - 6\n	}\n')]),
("t-pwr","T01 T02",[(P,'func planar(v','var _ = 0\n\nfunc planar(v')]),
]
