def rt(*a): return RANDTRI % a
class Tm(str):
    def __mod__(self,b): return self|b
    def __or__(self,b):
        if isinstance(b,tuple): b=b[0]
        return str(self).replace('@@BODY@@',b)
def B(name,*a,**k):
    if ONLY and name not in ONLY: return
    make(name,*a,**k)
TRI=Tm('''package triangulate2

import (
	"fmt"
	"geGoMetry/r3"
	"math/rand"
	"testing"
)

func P(x, y float64) r3.Vector { return r3.Vector{X: x, Y: y} }

func or(a, b, c r3.Vector) float64 { return (b.X-a.X)*(c.Y-a.Y) - (b.Y-a.Y)*(c.X-a.X) }

// verify checks a triangulation of integer points: one orientation, area of the hull, Delaunay, half-edges.
func verify(pts []r3.Vector) error {
	t, err := Triangulate(pts)
	if err != nil {
		return err
	}
	sum := 0.0
	for i := 0; i < len(t.Triangles); i += 3 {
		a, b, c := pts[t.Triangles[i]], pts[t.Triangles[i+1]], pts[t.Triangles[i+2]]
		o := or(a, b, c)
		if o >= 0 && i >= 0 && o == 0 {
			return fmt.Errorf("flat triangle")
		}
		if o < 0 {
			o = -o
			b, c = c, b
		}
		sum += o
		for _, p := range pts {
			dx, dy, ex, ey, fx, fy := a.X-p.X, a.Y-p.Y, b.X-p.X, b.Y-p.Y, c.X-p.X, c.Y-p.Y
			if (dx*dx+dy*dy)*(ex*fy-ey*fx)-(ex*ex+ey*ey)*(dx*fy-dy*fx)+(fx*fx+fy*fy)*(dx*ey-dy*ex) > 0 {
				return fmt.Errorf("%v lies in the circle of %v %v %v", p, a, b, c)
			}
		}
	}
	h := ConvexHull(pts)
	area := 0.0
	for i := range h {
		q := h[(i+1)%len(h)]
		area += h[i].X*q.Y - h[i].Y*q.X
	}
	if sum != area && sum != -area {
		return fmt.Errorf("the triangles cover %v of %v", sum, area)
	}
	border := 0
	next := func(e int) int { return e - e%3 + (e+1)%3 }
	for e, f := range t.Halfedges {
		if f < 0 {
			border++
			continue
		}
		if t.Halfedges[f] != e || t.Triangles[e] != t.Triangles[next(f)] || t.Triangles[f] != t.Triangles[next(e)] {
			return fmt.Errorf("half-edges %d and %d", e, f)
		}
	}
	if border != len(h) || len(t.ConvexHull) != len(h) {
		return fmt.Errorf("%d border edges, %d reported, hull of %d points", border, len(t.ConvexHull), len(h))
	}
	return nil
}

var _ = rand.Int

func TestDemo(t *testing.T) {
@@BODY@@}
''')
RANDTRI='''	rnd := rand.New(rand.NewSource(7))
	for n := 0; n < %s; n++ {
		var pts []r3.Vector
		for k := %s + rnd.Intn(%s); k > 0; k-- {
			pts = append(pts, P(float64(rnd.Intn(%s)), float64(rnd.Intn(%s))))
		}
		if err := verify(pts); err != nil && err.Error() != "No Delaunay triangulation exists for this input." {
			t.Fatal(pts, err)
		}
	}
'''
B('T01-walk','T01',[('triangulate2/triangulator.go','		walkBack := e == start\n','		walkBack := e == start && key == tri.hashKey(p)\n')],'triangulate2',TRI|(RANDTRI%('4000','5','40','60','60')),'the hash of the advancing hull has no entry for the direction of a point that sees two edges or more, the first of them the one the search begins at','edges of the hull behind the first visible one stay uncovered: the triangles do not fill the hull')
B('T02-depth','T02',[('triangulate2/triangulator.go','''		t.legalize(a)
		return t.legalize(br)
	}

	return ar
}
''','''		if t.flips--; t.flips < 0 {
			// bounds the recursion
			return br - br%3 + (br+2)%3
		}
		t.legalize(a)
		return t.legalize(br)
	}

	return ar
}
'''),('triangulate2/triangulator.go','''	hash         []*node
}
''','''	hash         []*node
	flips        int
}
'''),('triangulate2/triangulator.go','''		// skip seed triangle Vectors
''','''		tri.flips = 3
		// skip seed triangle Vectors
''')],'triangulate2',TRI|('''	var pts []r3.Vector
	for i := -20; i <= 20; i++ {
		pts = append(pts, P(float64(i), float64(i*i)/64))
	}
	pts = append(pts, P(0, 3000), P(1, -2000))
	if err := verify(pts); err != nil {
		t.Fatal(err)
	}
'''+RANDTRI%('400','60','60','1000','1000')),'a point whose insertion needs more than three flips','flipping stops early and leaves edges that are not Delaunay')
B('T03-stale','T03',[('triangulate2/triangulator.go','if start != nil && start.i >= 0 {','if start != nil {')],'triangulate2',TRI|(RANDTRI%('4000','5','40','60','60')),'the hash of the advancing hull leads to a vertex that has left the hull','the search for a visible edge starts from a removed hull vertex')
B('T04-tolerance','T04',[('triangulate2/hull.go','cross2D(U[len(U)-2], U[len(U)-1], p) > 0','cross2D(U[len(U)-2], U[len(U)-1], p) > 1e-6'),('triangulate2/hull.go','cross2D(L[len(L)-2], L[len(L)-1], p) < 0','cross2D(L[len(L)-2], L[len(L)-1], p) < -1e-6')],'triangulate2',TRI|'''	h := 1.0 / 4096
	if l := ConvexHull([]r3.Vector{P(0, 0), P(4*h, 0), P(4*h, 4*h), P(0, 4*h), P(2*h, 1*h)}); len(l) != 4 {
		t.Fatal(l)
	}
''','a point cloud smaller than about a thousandth','interior points are listed on the hull')
B('T05-loop','T05',[('triangulate2/triangulator.go','''	for e != nil {
		result = append(result, t.Vectors[e.i])
		e = e.prev
		if e == t.hull {
			break
		}
	}
''','''	for next := e.prev; ; next = e.prev {
		result = append(result, t.Vectors[e.i])
		if e = next; e == t.hull {
			break
		}
	}
''')],'triangulate2',TRI|'''	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	for _, pts := range [][]r3.Vector{{P(0, 0), P(1, 0), P(2, 0)}, {P(0, 0), P(1, 1), P(3, 3), P(7, 7)}} {
		if tr, err := Triangulate(pts); err == nil && len(tr.Triangles) > 0 {
			t.Fatal(pts, tr.Triangles)
		}
	}
''','points without a triangulation (no hull)','collinear points make the triangulation panic instead of returning its error')
B('T06-both','T06',[('triangulate2/triangulation.go','math.Abs(area1-area2) > areaTolerance || math.Abs(area1-area3) > areaTolerance','math.Abs(area1-area2) > areaTolerance && math.Abs(area1-area3) > areaTolerance')],'triangulate2',TRI|'''	tr, _ := Triangulate([]r3.Vector{P(0, 0), P(4, 0), P(4, 4), P(0, 4), P(1, 2)})
	tr.Triangles = tr.Triangles[:len(tr.Triangles)-3]
	if tr.Validate() == nil {
		t.Fatal("a missing triangle goes unnoticed")
	}
''','a triangulation whose triangles are damaged while its hull is intact','validation accepts triangulations whose triangles do not cover the hull')
MESH=Tm('''package mesh

import (
	"geGoMetry/r3"
	"math/rand"
	"sort"
	"testing"
)

var _ = rand.Int
var _ = sort.Ints

// faces checks that every face is listed twice, has distinct valid indices, and counts the faces
func faces(t *testing.T, pts []r3.Vector) map[[3]int]int {
	m := map[[3]int]int{}
	l := bowyerWatson(append([]r3.Vector{}, pts...)...)
	for i := 0; i < len(l); i += 3 {
		f := []int{l[i], l[i+1], l[i+2]}
		sort.Ints(f)
		if f[0] < 0 || f[2] >= len(pts) || f[0] == f[1] || f[1] == f[2] {
			t.Fatal("face", f)
		}
		m[[3]int{f[0], f[1], f[2]}]++
	}
	return m
}

func TestDemo(t *testing.T) {
@@BODY@@}
''')
RANDM='''	rnd := rand.New(rand.NewSource(3))
	for n := 0; n < 12; n++ {
		var pts []r3.Vector
		for k := 0; k < 40; k++ {
			pts = append(pts, r3.Vector{X: float64(rnd.Intn(1000)), Y: float64(rnd.Intn(1000)), Z: float64(rnd.Intn(1000))})
		}
		m := faces(t, pts)
		border := map[[2]int]int{}
		for f, c := range m {
			if c > 2 {
				t.Fatal("face", f, "is listed", c, "times")
			}
			if c == 1 {
				border[[2]int{f[0], f[1]}]++
				border[[2]int{f[0], f[2]}]++
				border[[2]int{f[1], f[2]}]++
			}
		}
		// the same points in another order give the same faces
		perm := rnd.Perm(len(pts))
		qts := make([]r3.Vector, len(pts))
		for i, j := range perm {
			qts[j] = pts[i]
		}
		g := faces(t, qts)
		for f, c := range m {
			s := []int{perm[f[0]], perm[f[1]], perm[f[2]]}
			sort.Ints(s)
			if g[[3]int{s[0], s[1], s[2]}] != c {
				t.Fatal("the faces depend on the order of the points", f)
			}
		}
	}
'''
B('M01-packed','M01',[('meshing/mesh.go','\t"strconv"\n\t"strings"\n','\t"strconv"\n'),('meshing/mesh.go','	hash := strings.Join(hashList, ".")\n','	a, _ := strconv.Atoi(hashList[0])\n	b, _ := strconv.Atoi(hashList[1])\n	c, _ := strconv.Atoi(hashList[2])\n	hash := strconv.Itoa(a + b<<5 + c<<10)\n')],'meshing',MESH|RANDM,'more than 28 points (the packed numbers of three corners run into each other)','different faces are taken for one, so that tetrahedra are left out or overlap')
B('M02-hash','M02',[('meshing/mesh.go','return string(strconv.Itoa(t.ia) + "." + strconv.Itoa(t.ib) + "." + strconv.Itoa(t.ic) + "." + strconv.Itoa(t.id))','return strconv.Itoa(t.ia*t.ia+t.ib*t.ib+t.ic*t.ic) + "." + strconv.Itoa(t.id)')],'meshing',MESH|RANDM,'two tetrahedra with the same last corner whose other corner numbers have the same sum of squares','one of the two tetrahedra is lost, so faces are missing')
B('M03-cavity','M03',[('meshing/mesh.go','''				if _, ok := faceSet[face.hash()]; !ok {
					faceSet''','''				if len(badTetras) > 8 && badTetraIndex == 8 {
					// larger cavities are filled step by step
					break
				}
				if _, ok := faceSet[face.hash()]; !ok {
					faceSet''')],'meshing',MESH|RANDM,'a point inside the spheres of more than eight tetrahedra','which faces bound the cavity depends on the random order in which the tetrahedra are walked')
B('M04-first','M04',[('meshing/helper.go','''			h.max.Z = point.Z
		}

		if h.min.X''','''			h.max.Z = point.Z
			if h.min.Z < point.Z {
				continue
			}
		}

		if h.min.X''')],'meshing',MESH|'''	pts := []r3.Vector{{X: 3, Y: 0, Z: 1}, {X: 2, Y: 1, Z: 2}, {X: -1000, Y: -1000, Z: 3}}
	englobe(&pts)
	for _, p := range pts[4:] {
		a, b, c, d := pts[0], pts[1], pts[2], pts[3]
		vol := func(a, b, c, d r3.Vector) float64 { return r3.Dot(r3.Cross(r3.Sub(b, a), r3.Sub(c, a)), r3.Sub(d, a)) }
		v := vol(a, b, c, d)
		for _, w := range []float64{vol(p, b, c, d), vol(a, p, c, d), vol(a, b, p, d), vol(a, b, c, p)} {
			if !(w*v > 0) {
				t.Fatal(p, "is outside", pts[:4])
			}
		}
	}
''','a point that is the highest so far and also extends the bounds below in another coordinate','the bounds leave that point out, and with it the initial tetrahedron')
B('M05-open','M05',[('meshing/util.go','if dotV4 >= 0 && dotP >= 0 {','if dotV4 >= 0 && dotP > 0 {')],'meshing',MESH|'''	a, b, c, d := r3.Vector{}, r3.Vector{X: 1}, r3.Vector{Y: 1}, r3.Vector{Z: 1}
	for _, p := range []r3.Vector{{X: 0.25, Y: 0.25}, {X: 0.25, Z: 0.25}, {Y: 0.25, Z: 0.25}, {X: 0.5, Y: 0.25, Z: 0.25}} {
		if !vectorInTetrahedron(a, b, c, d, p) || !vectorInTetrahedron(b, a, c, d, p) {
			t.Fatal(p)
		}
	}
''','a point on a face and a tetrahedron of one of the two orientations','points on the boundary are rejected')
B('M06-nearest','M06',[('meshing/helper.go','''		if distance <= minDistance {
''','''		if distance <= minDistance+1e-9 {
''')],'meshing',MESH|'''	h := 1.0 / (1 << 34)
	if p := getNearestPoint([]r3.Vector{{X: h}, {X: 2 * h}}, r3.Vector{}); p.X != h {
		t.Fatal(p)
	}
''','two points whose distances differ by less than a billionth','the nearest point is not the one at minimal distance')
B('Q01-single','Q01',[('triangulate3/englober.go','''		if Vector.Z < minExtremity.Z {
			minExtremity.Z = Vector.Z
		}

		//Updating the maxExtremity
		if Vector.X > maxExtremity.X {''','''		if Vector.Z < minExtremity.Z {
			minExtremity.Z = Vector.Z
		}

		//Updating the maxExtremity
		if Vector.X >= minExtremity.X+1e-3 && Vector.X > maxExtremity.X || maxExtremity.X < minExtremity.X {''')],'triangulate3','''package triangulate3

import (
	"geGoMetry/r3"
	"testing"
)

func TestDemo(t *testing.T) {
	_, m := computeBoundingBoxForVectors([]r3.Vector{{X: 1}, {X: 1.0005}})
	if m.X != 1.0005 {
		t.Fatal(m)
	}
}
''','points less than a thousandth apart along x','the bounding box leaves out the point with the largest x')
B('Q02-extremes','Q02',[('triangulate3/gdel3d.go','''		//Updating the maxExtremity
		if Vector.X > maxExtremity.X {
			maxExtremity = Vector
		}

	}
''','''		//Updating the maxExtremity
		if Vector.X >= maxExtremity.X && Vector != minExtremity {
			maxExtremity = Vector
		}

	}
''')],'triangulate3','''package triangulate3

import (
	"geGoMetry/r3"
	"testing"
)

func TestDemo(t *testing.T) {
	// the first point has the smallest and the largest x so far
	for _, pts := range [][]r3.Vector{{{X: 5}, {X: 1, Y: 1}, {X: 2, Z: 1}}, {{X: 3}, {X: 1}, {X: 2, Y: 1}, {X: 2, Z: 1}}} {
		_, b := computeExtremitiesForAxeX(pts)
		if b != pts[0] {
			t.Fatal(b)
		}
	}
}
''','the point with the largest x comes first','the first point is not considered for the maximum')
STEP=Tm('''package step

import (
	"bytes"
	"io"
	"os"
	"strings"
	"testing"
)

var _ = strings.Contains

func lexed(t *testing.T, data string) SymbolTable {
	f, err := os.CreateTemp("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(f.Name())
	f.WriteString("ISO-10303-21;\\nHEADER;\\nENDSEC;\\nDATA;\\n" + data + "ENDSEC;\\nEND-ISO-10303-21;\\n")
	f.Close()
	l := initLexer(f.Name())
	return l.Lex()
}

func printed(f func()) string {
	old := os.Stdout
	r, w, _ := os.Pipe()
	os.Stdout = w
	done := make(chan string)
	go func() {
		var b bytes.Buffer
		io.Copy(&b, r)
		done <- b.String()
	}()
	func() {
		defer func() { os.Stdout = old; w.Close() }()
		f()
	}()
	return <-done
}

func TestDemo(t *testing.T) {
	_ = printed
@@BODY@@}
''')
B('S01-first','S01',[('step/lex.go','	(*st)[identifier] = definition\n','''	if known, found := (*st)[identifier]; found && known.Type == definition.Type {
		// defined before
		return
	}
	(*st)[identifier] = definition
''')],'step',STEP|'''	s := lexed(t, "#1=DIRECTION('',(1.,0.,0.));\\n#1=DIRECTION('',(0.,1.,0.));\\n")
	if a := s["#1"].Arguments; len(a) != 2 || a[1] != "(0.,1.,0.)" {
		t.Fatal(s)
	}
''','an identifier that is defined twice with the same type','the first definition counts instead of the last')
B('S06-early','S06',[('step/parse.go','''	for key, lexeme := range lexemes {
		fn := parser.bridge(lexeme)
''','''	for key, lexeme := range lexemes {
		if len(parser.visited) >= len(lexemes) {
			// everything has been handled
			break
		}
		fn := parser.bridge(lexeme)
''')],'step',STEP|'''	for n := 0; n < 200; n++ {
		s := lexed(t, "#1=PRODUCT_DEFINITION('','',#10,#11);\\n#2=PRODUCT_DEFINITION('','',#12,#13);\\n#3=TOROIDAL_SURFACE('',#14,2.,1.);\\n#4=SPHERICAL_SURFACE('',#15,3.);\\n")
		if out := printed(func() { Parse(s) }); strings.Count(out, "Bazinga") != 2 {
			t.Fatal(out)
		}
	}
''','references to definitions that are not in the file','parsing stops before every definition was handled')
B('S07-default','S07',[('step/util.go','''	default:
		return false
	}
}
''','''	default:
		return strings.TrimSuffix(logicText, ".") != ".F"
	}
}
''')],'step',STEP|'''	s := lexed(t, "#1=B_SPLINE_SURFACE_WITH_KNOTS('',1,1,((#2,#3),(#4,#5)),.UNSPECIFIED.,.U.,.F.,.F.,(2,2),(2,2),(0.,1.),(0.,1.),.UNSPECIFIED.);\\n")
	if out := printed(func() { Parse(s) }); !strings.Contains(out, "uClosed: false") {
		t.Fatal(out)
	}
''','a logical that is unknown (.U.)','an unknown closed flag is reported as true')
B('S08-axis','S08',[('step/template.go','''	p.nextStates = append(p.nextStates, cartesianVectorState, xDirectionState, yDirectionState)
''','''	p.nextStates = append(p.nextStates, cartesianVectorState, xDirectionState)
	if xDirectionState.key > yDirectionState.key {
		// follows the order of the file
		p.nextStates = append(p.nextStates[:len(p.nextStates)-1], yDirectionState, xDirectionState)
	}
''')],'step',STEP|'''	p := Parser{lexemes: SymbolTable{"#1": {"AXIS2_PLACEMENT_3D", []string{"''", "#2", "#3", "#4"}}}, visited: map[string]struct{}{}}
	p.axis2Placement3D("#1")
	n := map[string]int{}
	for _, s := range p.nextStates {
		n[s.key]++
	}
	if n["#2"] != 1 || n["#3"] != 1 || n["#4"] != 1 {
		t.Fatal(n)
	}
''','a placement whose directions are numbered in ascending order','the second direction of the placement is never visited')
B('C01-scratch','C01',[('nurbs/basis.go','''func basisFuns(i int, u float64, p int, U []int) []float64 {
	N := make([]float64, p+1)
	left := make([]float64, p+1)
	right := make([]float64, p+1)
''','''var scratch []float64

func basisFuns(i int, u float64, p int, U []int) []float64 {
	N := make([]float64, p+1)
	if len(scratch) < 2*p+2 {
		scratch = make([]float64, 2*p+2)
	}
	left, right := scratch[:p+1], scratch[p+1:]
''')],'nurbs','''package nurbs

import (
	"math"
	"runtime"
	"testing"
)

func TestDemo(t *testing.T) {
	runtime.GOMAXPROCS(8)
	U := make([]int, 82)
	for i := 41; i < 82; i++ {
		U[i] = 7
	}
	bad := make(chan float64, 64)
	done := make(chan bool)
	for g := 0; g < 8; g++ {
		u := float64(g)/2 + 0.25
		want := basisFuns(40, u, 40, U)
		go func() {
			for n := 0; n < 30000; n++ {
				for i, x := range basisFuns(40, u, 40, U) {
					if math.Abs(x-want[i]) > 1e-9 {
						bad <- x
						done <- true
						return
					}
				}
			}
			done <- true
		}()
	}
	for g := 0; g < 8; g++ {
		<-done
	}
	if len(bad) > 0 {
		t.Fatal(<-bad)
	}
}
''','two evaluations at the same time','both write their knot differences to the same scratch space')
B('C02-pool','C02',[('triangulate2/triangulator.go','''	tri.hash = make([]*node, hashSize)
''','''	if hashSize > cap(hashPool) {
		hashPool = make([]*node, hashSize)
	}
	tri.hash = hashPool[:hashSize]
'''),('triangulate2/triangulator.go','''func newTriangulator(''','''// hashPool is kept between triangulations
var hashPool []*node

func newTriangulator(''')],'triangulate2',TRI|(RANDTRI%('600','4','12','30','30')),'an earlier triangulation in the same process','the search for a visible edge starts from the hull of an earlier triangulation')
