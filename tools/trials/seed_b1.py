def B(name,*a,**k):
    if ONLY and name not in ONLY: return
    make(name,*a,**k)
B('P01-centre','P01',[('predicates/insphere.go','''	return (clift*dab - dlift*abc) + (alift*bcd - blift*cda)
}

func inSphere(''','''	if alift == blift && blift == clift && clift == dlift {
		// the lifted points are level: the determinant vanishes
		return 0
	}
	return clift*dab - dlift*abc + (alift*bcd - blift*cda)
}

func inSphere(''')],'predicates','''package predicates

import (
	"geGoMetry/r3"
	"testing"
)

func TestDemo(t *testing.T) {
	a, b, c, d := r3.Vector{X: 1}, r3.Vector{Y: 1}, r3.Vector{Z: 1}, r3.Vector{X: -1}
	e := r3.Vector{}
	x, y := InSphereFast(a, b, c, d, e), InSphereFast(b, a, c, d, e)
	if x*y >= 0 {
		t.Fatal("the centre of the sphere is not strictly inside", x, y)
	}
}
''','a query point at equal distance from all four points (the centre of their sphere)','the in-sphere test returns zero for the centre of the sphere, which is strictly inside')
B('P02-permanent','P02',[('predicates/insphere.go','((aexbeyplus+bexaeyplus)*dezplus+(bexdeyplus+dexbeyplus)*aezplus+(dexaeyplus+aexdeyplus)*bezplus)*clift +','((aexbeyplus-bexaeyplus)*dezplus+(bexdeyplus-dexbeyplus)*aezplus+(dexaeyplus-aexdeyplus)*bezplus)*clift +'),
 ('predicates/insphere.go','((bexceyplus+cexbeyplus)*aezplus+(cexaeyplus+aexceyplus)*bezplus+(aexbeyplus+bexaeyplus)*cezplus)*dlift\n','((bexceyplus-cexbeyplus)*aezplus+(cexaeyplus-aexceyplus)*bezplus+(aexbeyplus-bexaeyplus)*cezplus)*dlift\n'),
 ('predicates/insphere.go','((cexdeyplus+dexceyplus)*bezplus+(dexbeyplus+bexdeyplus)*cezplus+(bexceyplus+cexbeyplus)*dezplus)*alift +','((cexdeyplus-dexceyplus)*bezplus+(dexbeyplus-bexdeyplus)*cezplus+(bexceyplus-cexbeyplus)*dezplus)*alift +'),
 ('predicates/insphere.go','((dexaeyplus+aexdeyplus)*cezplus+(aexceyplus+cexaeyplus)*dezplus+(cexdeyplus+dexceyplus)*aezplus)*blift +','((dexaeyplus-aexdeyplus)*cezplus+(aexceyplus-cexaeyplus)*dezplus+(cexdeyplus-dexceyplus)*aezplus)*blift +')],'predicates','''package predicates

import (
	"math"
	"math/big"
	"math/rand"
	"testing"
)

func exact(c [15]float64) int {
	r := func(x float64) *big.Rat { return new(big.Rat).SetFloat64(x) }
	var m [4][4]*big.Rat
	for i := 0; i < 4; i++ {
		l := new(big.Rat)
		for k := 0; k < 3; k++ {
			m[i][k] = new(big.Rat).Sub(r(c[3*i+k]), r(c[12+k]))
			l.Add(l, new(big.Rat).Mul(m[i][k], m[i][k]))
		}
		m[i][3] = l
	}
	mul := func(x ...*big.Rat) *big.Rat {
		p := big.NewRat(1, 1)
		for _, y := range x {
			p.Mul(p, y)
		}
		return p
	}
	det := new(big.Rat)
	var rec func(row int, used [4]bool, s int, p *big.Rat)
	rec = func(row int, used [4]bool, s int, p *big.Rat) {
		if row == 4 {
			if s > 0 {
				det.Add(det, p)
			} else {
				det.Sub(det, p)
			}
			return
		}
		for k := 0; k < 4; k++ {
			if !used[k] {
				inv := 0
				for q := k + 1; q < 4; q++ {
					if used[q] {
						inv++
					}
				}
				u := used
				u[k] = true
				ns := s
				if inv%2 == 1 {
					ns = -s
				}
				rec(row+1, u, ns, mul(p, m[row][k]))
			}
		}
	}
	rec(0, [4]bool{}, 1, big.NewRat(1, 1))
	return det.Sign()
}

func TestDemo(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	// the sign of the determinant for a configuration that is clearly inside
	base := [15]float64{1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 0.25, 0.25, 0.25}
	s := 1
	if (inSphereC(base) > 0) != (exact(base) > 0) {
		s = -1
	}
	for n := 0; n < 60000; n++ {
		var c [15]float64
		for i := 0; i < 5; i++ {
			x, y, z := rnd.NormFloat64(), rnd.NormFloat64(), rnd.NormFloat64()
			l := math.Sqrt(x*x + y*y + z*z)
			c[3*i], c[3*i+1], c[3*i+2] = x/l, y/l, z/l
		}
		v := inSphereC(c)
		if v == 0 {
			continue
		}
		e := exact(c)
		if v > 0 && e*s <= 0 || v < 0 && e*s >= 0 {
			t.Fatal("wrong sign for", c, v, e)
		}
	}
}

func inSphereC(c [15]float64) float64 {
	return inSphere(c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8], c[9], c[10], c[11], c[12], c[13], c[14])
}
''','five points within rounding of a common sphere','the error bound is too small, so the robust in-sphere test returns a sign that rounding made up')
B('P03-tiny','P03',[('predicates/orient3d.go','''	return adx*(bdy*cdz-bdz*cdy) +
		bdx*(cdy*adz-cdz*ady) +
		cdx*(ady*bdz-adz*bdy)
''','''	det := adx*(bdy*cdz-bdz*cdy) +
		bdx*(cdy*adz-cdz*ady) +
		cdx*(ady*bdz-adz*bdy)
	if det < resulterrbound && -det < resulterrbound {
		return 0
	}
	return det
''')],'predicates','''package predicates

import (
	"geGoMetry/r3"
	"testing"
)

func TestDemo(t *testing.T) {
	h := 1.0 / (1 << 20)
	a, b, c, d := r3.Vector{X: h}, r3.Vector{Y: h}, r3.Vector{Z: h}, r3.Vector{}
	x, y := orient3dfast(a, b, c, d), orient3dfast(b, a, c, d)
	if x*y >= 0 {
		t.Fatal("a tetrahedron with edges of", h, "counts as flat")
	}
}
''','a small but exactly representable tetrahedron (edges around 1e-6)','the orientation test returns zero for points that are not coplanar')
B('R01-magnitude','R01',[('r3/vector.go','''	return math.Sqrt(v.SquaredMagnitude())
''','''	m := math.Max(math.Abs(v.X), math.Max(math.Abs(v.Y), math.Abs(v.Z)))
	if m > 1<<20 {
		// avoids overflow of the squares
		return m + (v.SquaredMagnitude()-m*m)/(2*m)
	}
	return math.Sqrt(v.SquaredMagnitude())
''')],'r3','''package r3

import "testing"

func TestDemo(t *testing.T) {
	k := float64(1 << 20)
	if m := (Vector{3 * k, 4 * k, 0}).Magnitude(); m != 5*k {
		t.Fatal(m, 5*k)
	}
}
''','a vector with a coordinate above 2^20 and a second one of similar size','the magnitude of large vectors is approximated instead of computed')
B('R02-short','R02',[('r3/vector.go','''	v.Scale(1 / math.Sqrt(n2))
	return v
''','''	if n2 < 1e-30 {
		// too short to have a direction
		v.X, v.Y, v.Z = 0, 0, 0
		return v
	}
	v.Scale(1 / math.Sqrt(n2))
	return v
'''),('r3/vector.go','''func (v Vector) Norm() float64 { return math.Sqrt(float64(Dot(v, v))) }''','''func (v Vector) Norm() float64 { return math.Sqrt(Dot(v, v)) }''')],'r3','''package r3

import "testing"

func TestDemo(t *testing.T) {
	v := Vector{0, 3e-20, 4e-20}
	v.Normalize()
	if !v.IsUnit() {
		t.Fatal(v)
	}
}
''','in-place normalization of a vector shorter than 1e-15','short vectors are normalized to zero in place, while the value form normalizes them')
B('R03-grazing','R03',[('r3/line.go','''	if Dot(plane.Normal, Normalize(line.Direction)) == 0 {
''','''	if d := Dot(plane.Normal, Normalize(line.Direction)); d < 1e-9 && d > -1e-9 {
''')],'r3','''package r3

import "testing"

func TestDemo(t *testing.T) {
	l := Line{Vector: Vector{0, 0, 1}, Direction: Vector{1, 0, -1}}
	for _, s := range []float64{1, 1.0 / (1 << 40)} {
		p := l.IntersectPlane(Plane3D{Normal: Vector{0, 0, s}})
		if d := Distance(p, Vector{1, 0, 0}); d > 1e-9 {
			t.Fatal(p)
		}
	}
}
''','a plane whose normal is short (its length is not part of the meaning), or a grazing line','a line that meets the plane is reported as parallel')
B('R04-side','R04',[('r3/plane.go','return Plane{Normal: normal, Distance: -Dot(normal, origin)}','''d := Dot(normal, origin)
	if d < 0 {
		// distances from the origin are not negative
		d = -d
	}
	return Plane{Normal: normal, Distance: -d}''')],'r3','''package r3

import "testing"

func TestDemo(t *testing.T) {
	p := newPlane(Vector{0, 0, 1}, Vector{5, 6, -2})
	if d := (Vector{1, 2, -2}).CalculateDistanceToPlane(p); d != 0 {
		t.Fatal(d)
	}
}
''','a plane whose origin lies on the negative side of the parallel plane through the coordinate origin','the plane is mirrored, so that its own origin is not on it')
B('R05-extrapolate','R05',[('r3/vector.go','''	t1 := 1 - t
	return Vector{
''','''	t1 := math.Max(0, 1-t)
	return Vector{
''')],'r3','''package r3

import "testing"

func TestDemo(t *testing.T) {
	a, b := Vector{1, 2, 3}, Vector{2, 4, 6}
	if v := Interpolate(&a, &b, 2); v != (Vector{3, 6, 9}) {
		t.Fatal(v)
	}
}
''','a parameter above 1 and a first vector that is not zero','extrapolation past the second vector loses the share of the first')
B('G02-axes','G02',[('shape/ellipse.go','''	sectorStep := 2 * math.Pi / float64(e.sectorCount)
''','''	if e.semiAxis2 > e.semiAxis1 {
		// the first axis is the major one
		e.semiAxis1, e.semiAxis2 = e.semiAxis2, e.semiAxis1
	}
	sectorStep := (2 * math.Pi) / float64(e.sectorCount)
''')],'shape','''package shape

import (
	"geGoMetry/r3"
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	m := ConstructEllipse(r3.Vector{}, 1, 3)
	for _, v := range m.Vertices[1:] {
		if math.Abs(v.X*v.X+v.Y*v.Y/9-1) > 1e-9 {
			t.Fatal(v)
		}
	}
}
''','an ellipse whose second semi-axis is the longer one','the ellipse is turned by a right angle')
B('G03-wide','G03',[('shape/sphere.go','''			// k1+1 => k2 => k2+1
			sphere.Indices = append(sphere.Indices, k1+1, k2, k2+1)

		}

	}
''','''			// k1+1 => k2 => k2+1
			sphere.Indices = append(sphere.Indices, k1+1, uint32(uint16(k2)), k2+1)

		}

	}
''')],'shape','''package shape

import (
	"geGoMetry/r3"
	"testing"
)

func TestDemo(t *testing.T) {
	m := ConstructSphere(r3.Vector{}, 1)
	used := make([]int, len(m.Vertices))
	for i := 0; i < len(m.Indices); i += 3 {
		for k := 0; k < 3; k++ {
			used[m.Indices[i+k]]++
			if d := r3.Distance(m.Vertices[m.Indices[i+k]], m.Vertices[m.Indices[i+(k+1)%3]]); d > 0.1 {
				t.Fatal("long edge", i, d)
			}
		}
	}
}
''','a sphere with more than 65536 vertices (such as the default one)','triangles of the last stacks jump back to vertices at the top, so the surface is torn')
B('G04-offset','G04',[('shape/sphere.go','''			nx = x * lengthInv
			ny = y * lengthInv
''','''			nx = Vector.X * lengthInv
			ny = y * lengthInv
''')],'shape','''package shape

import (
	"geGoMetry/r3"
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	m := ConstructSphere(r3.Vector{X: 2}, 1)
	for i, n := range m.Normals {
		if math.Abs(n[0]*n[0]+n[1]*n[1]+n[2]*n[2]-1) > 1e-9 {
			t.Fatal(i, n)
		}
	}
}
''','a sphere whose centre has an x coordinate other than zero','the normals are not unit normals of the surface')
B('N02-memo','N02',[('nurbs/basis.go','''			temp := N[r] / (right[r+1] + left[j-r])
''','''			temp := N[r] / (right[r+1] + left[j-r])
			if N[r] < 1e-3 && j < p {
				// vanishing contribution
				temp = 0
			}
''')],'nurbs','''package nurbs

import (
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	U := []int{0, 0, 0, 0, 1, 1, 1, 1}
	u := 1.0 / 2048
	N := basisFuns(3, u, 3, U)
	for i, c := range []float64{1, 3, 3, 1} {
		w := c * math.Pow(u, float64(i)) * math.Pow(1-u, float64(3-i))
		if math.Abs(N[i]-w) > 1e-12 {
			t.Fatal(i, N[i], w)
		}
	}
}
''','a parameter close to a knot, degree three or more','small lower-degree basis functions are dropped, so the basis differs from its definition and does not sum to one')
B('N03-inplace','N03',[('nurbs/curve.go','''		B := P[span-p+i].Scaled(N[i])
		C.Add(&B)
''','''		B := &P[span-p+i]
		if N[i] != 1 {
			B.Scale(N[i])
		}
		C.Add(B)
''')],'nurbs','''package nurbs

import (
	"testing"

	"github.com/ungerik/go3d/float64/vec3"
)

func TestDemo(t *testing.T) {
	P := []vec3.T{{1, 2, 3}, {4, 5, 6}, {7, 8, 9}}
	U := []int{0, 0, 0, 1, 1, 1}
	a := curvePoint(2, 2, U, P, 0.5)
	b := curvePoint(2, 2, U, P, 0.5)
	if a != b || P[0] != (vec3.T{1, 2, 3}) {
		t.Fatal(a, b, P)
	}
}
''','two evaluations of the same curve, or a look at the control points after one','evaluating a curve scales its control points in place')
B('N04-hoist','N04',[('nurbs/basis.go',"""	for r := 0; r <= p; r++ {
		/* define alternative rows in array a */
		s1 := 0
		s2 := 1
		a[0][0] = 1.
""","""	/* define alternative rows in array a */
	a[0][0] = 1.
	for r := 0; r <= p; r++ {
		s1 := 0
		s2 := 1
""")],'nurbs','''package nurbs

import (
	"math"
	"testing"
)

func TestDemo(t *testing.T) {
	// the derivatives of each order sum to zero
	U := []int{0, 0, 0, 0, 1, 3, 4, 4, 4, 4}
	for u := 0; u < 4; u++ {
		i := findSpan(5, 3, float64(u), U)
		d := dersBasisFuns(i, u, 3, 2, U)
		for k := 1; k <= 2; k++ {
			s := 0.0
			for _, x := range d[k] {
				s += x
			}
			if math.Abs(s) > 1e-9 {
				t.Fatal(u, k, d[k])
			}
		}
	}
}
''',"derivatives of order two or more, of a function other than the first","the recurrence of later functions starts from what the second derivatives of the earlier ones left behind")
B('X01-narrow','X01',[('glTF/export.go','''	indicesAccessor := modeler.WriteIndices(doc, model.Indices)
''','''	var indices interface{} = model.Indices
	if len(model.Indices) < 1<<16 {
		// short lists fit into short indices
		short := make([]uint16, len(model.Indices))
		for i, index := range model.Indices {
			short[i] = uint16(index)
		}
		indices = short
	}
	indicesAccessor := modeler.WriteIndices(doc, indices)
''')],'glTF','''package glTF

import (
	"geGoMetry/r3"
	"geGoMetry/shape"
	"os"
	"path/filepath"
	"testing"

	"github.com/qmuntal/gltf"
	"github.com/qmuntal/gltf/modeler"
)

func TestDemo(t *testing.T) {
	m := shape.Mesh{Vertices: make([]r3.Vector, 70000), Indices: []uint32{0, 1, 69999}}
	for i := range m.Vertices {
		m.Vertices[i] = r3.Vector{X: float64(i), Y: float64(i % 7), Z: 1}
	}
	d, _ := os.MkdirTemp("", "demo")
	defer os.RemoveAll(d)
	f := filepath.Join(d, "m.glb")
	Export(m, f)
	doc, err := gltf.Open(f)
	if err != nil {
		t.Fatal(err)
	}
	a := doc.Accessors[*doc.Meshes[0].Primitives[0].Indices]
	got, err := modeler.ReadIndices(doc, a, nil)
	if err != nil || len(got) != 3 || got[2] != 69999 {
		t.Fatal(got, err)
	}
}
''','a mesh with more than 65536 vertices and fewer than 65536 indices','indices above 65535 are truncated, so triangles are drawn between other vertices')
B('X02-clamp','X02',[('glTF/model.go','''			float32(v.X),
			float32(v.Y),
			float32(v.Z)}
''','''			single(v.X),
			single(v.Y),
			single(v.Z)}
'''),('glTF/model.go','''func transferModel(''','''func single(x float64) float32 {
	if x > math.MaxFloat32 {
		return math.MaxFloat32
	}
	return float32(x)
}

func transferModel('''),('glTF/model.go','import "geGoMetry/shape"','''import (
	"geGoMetry/shape"
	"math"
)''')],'glTF','''package glTF

import (
	"geGoMetry/r3"
	"geGoMetry/shape"
	"os"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	m := shape.Mesh{Vertices: []r3.Vector{{X: 1e39}, {Y: 1}, {Z: 1}}, Indices: []uint32{0, 1, 2}}
	d, _ := os.MkdirTemp("", "demo")
	defer os.RemoveAll(d)
	loud := false
	func() {
		defer func() { loud = recover() != nil }()
		Export(m, filepath.Join(d, "m.glb"))
	}()
	if !loud {
		t.Fatal("exported a mesh whose coordinates do not fit")
	}
}
''','a mesh with a coordinate above the single precision range','the coordinate is replaced by another one without notice')
