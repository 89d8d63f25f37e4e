// Harness across the packages: calls do not influence each other, neither when
// they follow one another nor when they run at the same time.
package main

import (
	"crypto/sha256"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"geGoMetry/glTF"
	mesh "geGoMetry/meshing"
	"geGoMetry/predicates"
	"geGoMetry/r3"
	"geGoMetry/shape"
	"geGoMetry/step"
	"geGoMetry/triangulate2"
	tri3 "geGoMetry/triangulate3"
	"nurbs"
	"verifh/eng"
	"verifh/hx"
	rt "verifrt"

	"github.com/ungerik/go3d/float64/vec3"
)

const budget = 5_000_000

type inputs struct {
	A, B, C, Bad []r3.Vector
	D, E         []r3.Vector // in ascending order, with points twice and points of the same x out of order
	M, N         shape.Mesh
	S, T         step.SymbolTable
	U, V         []int
	P            []vec3.T
}

func fresh() *inputs {
	p := func(l ...float64) (v []r3.Vector) {
		for i := 0; i+2 < len(l); i += 3 {
			v = append(v, r3.Vector{X: l[i], Y: l[i+1], Z: l[i+2]})
		}
		return
	}
	return &inputs{
		A:   p(0, 0, 0, 4, 0, 1, 0, 3, 0, 5, 5, 2, 2, 1, 3, 1, 4, 1),
		B:   p(1, 1, 1, 3, 1, 0, 2, 4, 5),
		C:   p(0, 0, 0, 2, 0, 0, 0, 2, 0, 0, 0, 2, 1, 1, 3),
		D:   p(0, 0, 0, 0, 0, 1, 1, 5, 0, 2, 7, 1, 2, 0, 3, 3, 3, 1),
		E:   p(5, 1, 0, 5, 1, 0, 3, 2, 2, 1, 9, 1, 1, 0, 4, 0, 0, 0),
		Bad: p(0, 0, 0, 1, 1, 0, 2, 2, 0, 3, 3, 0),
		M:   shape.Mesh{Vertices: p(0, 0, 0, 1, 0, 0, 0, 1, 0), Normals: [][3]float64{{0, 0, 1}, {0, 0, 1}, {0, 0, 1}}, TexCoords: [][2]float64{{0, 0}, {1, 0}, {0, 1}}, Indices: []uint32{0, 1, 2}},
		N:   shape.Mesh{Vertices: p(5, 0, 0, 1, 6, 0, 0, 1, 7, 2, 2, 2), Indices: []uint32{0, 1, 2, 1, 2, 3}},
		S: step.SymbolTable{"#1": {Type: "ADVANCED_FACE", Arguments: []string{"''", "(#9)", "#2", ".T."}}, "#2": {Type: "SPHERICAL_SURFACE", Arguments: []string{"''", "#3", "5."}},
			"#3": {Type: "AXIS2_PLACEMENT_3D", Arguments: []string{"''", "#4", "$", "$"}}, "#4": {Type: "CARTESIAN_POINT", Arguments: []string{"''", "(1.,2.,3.)"}}},
		T: step.SymbolTable{"#1": {Type: "TOROIDAL_SURFACE", Arguments: []string{"''", "#3", "5.", "1."}}, "#7": {Type: "ADVANCED_FACE", Arguments: []string{"''", "()", "#1", ".F."}},
			"#8": {Type: "SPHERICAL_SURFACE", Arguments: []string{"''", "#3", "8."}}},
		U: []int{0, 0, 0, 1, 2, 3, 3, 3}, V: []int{0, 0, 4, 7, 7},
		P: []vec3.T{{0, 0, 0}, {1, 2, 0}, {3, 1, 1}, {4, 4, 2}, {5, 0, 3}},
	}
}

type op struct {
	name   string
	run    func(in *inputs) string
	prints bool // the result is what the call prints: only judged when nothing runs at the same time
}

var fileText = []string{
	"ISO-10303-21;\nDATA;\n#1 = A('x;',(1.,2.));\n#2=ADVANCED_FACE('',(#1),#3,.T.);\n#3=SPHERICAL_SURFACE('',#9,2.5);\nENDSEC;\n",
	"#7=CARTESIAN_POINT('',(1.,\n2.,3.));\n#8=FOO();\n",
}

var dir string

func tmp() string {
	if dir == "" {
		d, err := os.MkdirTemp("/dev/shm", "verifcross")
		if err != nil {
			d, err = os.MkdirTemp("", "verifcross")
		}
		if err != nil {
			panic(err)
		}
		dir = d
		eng.AtExit(func() { os.RemoveAll(d) })
		for i, s := range fileText {
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("in%d.stp", i)), []byte(s), 0o600)
		}
	}
	return dir
}

func triples(ix []int) string {
	var l []string
	for i := 0; i+2 < len(ix); i += 3 {
		t := []int{ix[i], ix[i+1], ix[i+2]}
		sort.Ints(t)
		l = append(l, fmt.Sprint(t))
	}
	sort.Strings(l)
	return fmt.Sprint(l, len(ix)%3)
}

func digest(v interface{}) string {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 400 {
		return s[:100] + fmt.Sprintf("... %x", sha256.Sum256([]byte(s)))
	}
	return s
}

var seq int64

// Results of earlier calls, looked at again after later ones; the caller may
// also write into them.
type hold struct {
	name, was string
	look      func() string
	scribble  func()
}

var (
	holding bool
	held    []hold
)

// kept gives v's digest; while results are held, v is held.
func kept(v interface{}) string {
	d := digest(v)
	if holding {
		held = append(held, hold{was: d, look: func() string { return digest(v) }, scribble: func() { scribble(reflect.ValueOf(v)) }})
	}
	return d
}

// scribble overwrites what a result's slices and maps hold.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			scribble(v.Field(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Value{})
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.Int, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(77)
		}
	case reflect.Uint32:
		if v.CanSet() {
			v.SetUint(77)
		}
	case reflect.Float64, reflect.Float32:
		if v.CanSet() {
			v.SetFloat(-777)
		}
	}
}

func ops() []op {
	tmp()
	var l []op
	add := func(name string, f func(in *inputs) string) { l = append(l, op{name: name, run: f}) }
	tri := func(n string, pick func(in *inputs) []r3.Vector) {
		add("Triangulate "+n, func(in *inputs) string {
			t, err := triangulate2.Triangulate(pick(in))
			if err != nil || t == nil {
				return "error " + fmt.Sprint(err)
			}
			kept(t.Triangles)
			kept(t.Halfedges)
			kept(t.ConvexHull)
			return fmt.Sprint(triples(t.Triangles), len(t.Halfedges), len(t.ConvexHull), t.Validate())
		})
	}
	A := func(in *inputs) []r3.Vector { return in.A }
	B := func(in *inputs) []r3.Vector { return in.B }
	tri("A", A)
	tri("B", B)
	tri("D", func(in *inputs) []r3.Vector { return in.D })
	tri("E", func(in *inputs) []r3.Vector { return in.E })
	add("ConvexHull D", func(in *inputs) string { return kept(triangulate2.ConvexHull(in.D)) })
	add("ConvexHull E", func(in *inputs) string { return kept(triangulate2.ConvexHull(in.E)) })
	tri("Bad", func(in *inputs) []r3.Vector { return in.Bad })
	add("ConvexHull A", func(in *inputs) string { return kept(triangulate2.ConvexHull(in.A)) })
	add("ConvexHull C", func(in *inputs) string { return kept(triangulate2.ConvexHull(in.C)) })
	if bw, ok := hx.Fn[func(...r3.Vector) []int](mesh.VerifFuncs, "bowyerWatson"); ok {
		add("bowyerWatson C", func(in *inputs) string { r := bw(in.C[:4]...); kept(r); return triples(r) })
		add("bowyerWatson B", func(in *inputs) string { r := bw(in.B...); kept(r); return triples(r) })
	}
	if f, ok := hx.Fn[func([]r3.Vector) shape.Mesh](tri3.VerifFuncs, "constructEnglobingTetra"); ok {
		add("englobing tetra A", func(in *inputs) string { return kept(f(in.A)) })
		add("englobing tetra D", func(in *inputs) string { return kept(f(in.D)) })
		add("englobing tetra C", func(in *inputs) string { return kept(f(in.C)) })
	}
	if f, ok := hx.Fn[func([]r3.Vector) []r3.Vector](tri3.VerifFuncs, "createInitialTetra"); ok {
		add("initial tetra A", func(in *inputs) string { return kept(f(in.A)) })
		add("initial tetra D", func(in *inputs) string { return kept(f(in.D)) })
		add("initial tetra C", func(in *inputs) string { return kept(f(in.C)) })
	}
	if f, ok := hx.Fn[func(n, p int, U []int, P []vec3.T, u float64) vec3.T](nurbs.VerifFuncs, "curvePoint"); ok {
		add("curvePoint U", func(in *inputs) string { return digest(f(4, 2, in.U, in.P, 1.5)) })
		add("curvePoint V", func(in *inputs) string { return digest(f(2, 1, in.V, in.P, 5.25)) })
	}
	if f, ok := hx.Fn[func(i, u, p, n int, U []int) [][]float64](nurbs.VerifFuncs, "dersBasisFuns"); ok {
		add("dersBasisFuns U", func(in *inputs) string { return kept(f(3, 1, 2, 2, in.U)) })
	}
	sh := func(name string, f func(in *inputs) (interface{ Construct() shape.Mesh }, bool)) {
		if _, ok := f(fresh()); ok {
			add(name, func(in *inputs) string { x, _ := f(in); return kept(x.Construct()) })
		}
	}
	sh("circle 5", func(in *inputs) (interface{ Construct() shape.Mesh }, bool) {
		s := &shape.Circle{}
		return s, hx.Set(s, "center", in.A[1]) && hx.Set(s, "radius", 2.) && hx.Set(s, "sectorCount", 5)
	})
	sh("circle 3", func(in *inputs) (interface{ Construct() shape.Mesh }, bool) {
		s := &shape.Circle{}
		return s, hx.Set(s, "center", in.A[2]) && hx.Set(s, "radius", 7.) && hx.Set(s, "sectorCount", 3)
	})
	sh("sphere 3x3", func(in *inputs) (interface{ Construct() shape.Mesh }, bool) {
		s := &shape.Sphere{}
		return s, hx.Set(s, "center", in.A[1]) && hx.Set(s, "radius", 2.) && hx.Set(s, "sectorCount", 3) && hx.Set(s, "stackCount", 3)
	})
	sh("torus 3x4", func(in *inputs) (interface{ Construct() shape.Mesh }, bool) {
		s := &shape.Torus{}
		return s, hx.Set(s, "center", in.A[1]) && hx.Set(s, "radius", 5.) && hx.Set(s, "tubeRadius", 1.) && hx.Set(s, "sectorCount", 3) && hx.Set(s, "stackCount", 4)
	})
	sh("ellipse 4", func(in *inputs) (interface{ Construct() shape.Mesh }, bool) {
		s := &shape.Ellipse{}
		return s, hx.Set(s, "center", in.A[3]) && hx.Set(s, "semiAxis1", 5.) && hx.Set(s, "semiAxis2", 1.) && hx.Set(s, "sectorCount", 4)
	})
	exp := func(n string, m func(in *inputs) shape.Mesh) {
		add("Export "+n, func(in *inputs) string {
			f := filepath.Join(tmp(), fmt.Sprintf("out%d.glb", atomic.AddInt64(&seq, 1)))
			glTF.Export(m(in), f)
			b, err := os.ReadFile(f)
			os.Remove(f)
			if err != nil {
				return err.Error()
			}
			return fmt.Sprintf("%d bytes %x", len(b), sha256.Sum256(b))
		})
	}
	exp("M", func(in *inputs) shape.Mesh { return in.M })
	exp("N", func(in *inputs) shape.Mesh { return in.N })
	for i := range fileText {
		i := i
		add(fmt.Sprintf("Lex %d", i), func(in *inputs) string {
			x := step.Lexer{Filename: filepath.Join(tmp(), fmt.Sprintf("in%d.stp", i))}
			return table(x.Lex())
		})
	}
	add("Lex missing", func(in *inputs) string {
		x := step.Lexer{Filename: filepath.Join(tmp(), "none")}
		return table(x.Lex())
	})
	prs := func(n string, s func(in *inputs) step.SymbolTable) {
		l = append(l, op{name: "Parse " + n, prints: true, run: func(in *inputs) string { step.Parse(s(in)); return "" }})
	}
	prs("S", func(in *inputs) step.SymbolTable { return in.S })
	prs("T", func(in *inputs) step.SymbolTable { return in.T })
	add("InSphereFast", func(in *inputs) string {
		return fmt.Sprint(predicates.InSphereFast(in.C[0], in.C[1], in.C[2], in.C[3], in.C[4]))
	})
	if f, ok := hx.Fn[func(ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz, ex, ey, ez float64) float64](predicates.VerifFuncs, "inSphere"); ok {
		add("inSphere", func(in *inputs) string { return fmt.Sprint(f(0, 0, 0, 2, 0, 0, 0, 2, 0, 0, 0, 2, 1, 1, 3)) })
	}
	add("vectors", func(in *inputs) string {
		v := in.A[3]
		v.Normalize()
		w := r3.Normalize(in.A[4])
		ln := r3.Line{Vector: in.A[1], Direction: r3.Vector{X: 1, Y: 2, Z: 2}}
		return digest([]interface{}{v, w, r3.Cross(v, w), ln.IntersectPlane(r3.Plane3D{Normal: r3.Vector{Y: 1}, Vector: in.A[3]}), r3.Zero})
	})
	return l
}

// families: for each part of the library, calls on many different inputs. What
// an earlier call leaves behind in a part is most likely to show in a later
// call of the same part on an input of another size and kind.
//
// With reuse, the calls of a part get their inputs in the same memory and files.
func families(reuse bool) [][]op {
	tmp()
	var l [][]op
	file := func(kind, ext string) (string, func()) {
		if reuse {
			return filepath.Join(tmp(), kind+"-reused"+ext), func() {}
		}
		f := filepath.Join(tmp(), fmt.Sprintf("%s%d%s", kind, atomic.AddInt64(&seq, 1), ext))
		return f, func() { os.Remove(f) }
	}
	var sets [][]r3.Vector
	rnd := uint64(12345)
	next := func(n int) float64 {
		rnd = rnd*6364136223846793005 + 1442695040888963407
		return float64((rnd >> 33) % uint64(n))
	}
	for _, n := range []int{3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 17, 20, 24, 30, 40, 60} {
		var a, b []r3.Vector
		for k := 0; k < n; k++ {
			a = append(a, r3.Vector{X: next(64), Y: next(64), Z: next(64)})
			b = append(b, r3.Vector{X: next(4) - 40, Y: next(4) * 8, Z: next(3)})
		}
		sets = append(sets, a, b)
	}
	line, circle := []r3.Vector{}, []r3.Vector{}
	for k := 0; k < 9; k++ {
		line = append(line, r3.Vector{X: float64(k), Y: float64(2 * k)})
		circle = append(circle, r3.Vector{X: float64([]int{5, 4, 3, 0, -3, -4, -5, -3, 3}[k]), Y: float64([]int{0, 3, 4, 5, 4, 3, 0, -4, -4}[k]), Z: float64(k % 2)})
	}
	sets = append(sets, line, circle, circle[:1], nil, fresh().D, fresh().E)
	// sets that are nearly another one: turned around, with two coordinates exchanged, one point or height moved, a different end
	for _, k := range []int{4, 8, 26} {
		v := sets[k]
		var back, turned, inner, high, last []r3.Vector
		for i, p := range v {
			back = append(back, v[len(v)-1-i])
			turned = append(turned, r3.Vector{X: p.Y, Y: p.X, Z: p.Z})
			inner, high, last = append(inner, p), append(high, p), append(last, p)
		}
		inner[len(v)/2].X += 3
		high[len(v)/2].Z += 50
		last[len(v)-1].Y -= 7
		sets = append(sets, back, turned, inner, high, last)
	}
	points := make([]r3.Vector, 64)
	clone := func(v []r3.Vector) []r3.Vector {
		if reuse {
			copy(points, v)
			return points[:len(v):len(v)]
		}
		return append([]r3.Vector{}, v...)
	}
	group := func(name string, n int, f func(i int) string) {
		var g []op
		for i := 0; i < n; i++ {
			i := i
			g = append(g, op{name: fmt.Sprintf("%s %d", name, i), run: func(*inputs) string { return f(i) }})
		}
		l = append(l, g)
	}
	pts := func(name string, max int, f func(v []r3.Vector) string) {
		var use [][]r3.Vector
		for _, s := range sets {
			if len(s) <= max {
				use = append(use, s)
			}
		}
		group(name, len(use), func(i int) string {
			v := clone(use[i])
			r := f(v)
			if len(v) > 0 && !reflect.DeepEqual(v, use[i]) {
				r += " arguments modified"
			}
			return r
		})
	}
	pts("Triangulate", 60, func(v []r3.Vector) string {
		t, err := triangulate2.Triangulate(v)
		if err != nil || t == nil {
			return "error " + fmt.Sprint(err)
		}
		kept(t.Triangles)
		kept(t.Halfedges)
		kept(t.ConvexHull)
		return digest(triples(t.Triangles)) + fmt.Sprint(len(t.Halfedges), t.ConvexHull, t.Validate())
	})
	pts("ConvexHull", 60, func(v []r3.Vector) string { return kept(triangulate2.ConvexHull(v)) })
	if bw, ok := hx.Fn[func(...r3.Vector) []int](mesh.VerifFuncs, "bowyerWatson"); ok {
		pts("bowyerWatson", 7, func(v []r3.Vector) string { r := bw(v...); kept(r); return digest(triples(r)) })
	}
	if f, ok := hx.Fn[func([]r3.Vector) shape.Mesh](tri3.VerifFuncs, "constructEnglobingTetra"); ok {
		pts("englobing tetra", 60, func(v []r3.Vector) string { return kept(f(v)) })
	}
	if f, ok := hx.Fn[func([]r3.Vector) []r3.Vector](tri3.VerifFuncs, "createInitialTetra"); ok {
		pts("initial tetra", 60, func(v []r3.Vector) string { return kept(f(v)) })
	}
	if f, ok := hx.Fn[func([]r3.Vector, r3.Vector) r3.Vector](mesh.VerifFuncs, "getNearestPoint"); ok {
		pts("nearest point", 60, func(v []r3.Vector) string { return digest(f(v, r3.Vector{X: 20, Y: 10})) })
	}
	type curve struct {
		p int
		U []int
	}
	var curves []curve
	for p := 1; p <= 5; p++ {
		for n := p; n <= p+3; n++ {
			var u, w []int
			for k := 0; k <= n+p+1; k++ {
				c := k - p
				if c < 0 {
					c = 0
				}
				if c > n-p+1 {
					c = n - p + 1
				}
				u, w = append(u, 3*c+c%2), append(w, 2*k+k%3)
			}
			curves = append(curves, curve{p, u}, curve{p, w})
			if n > p {
				u2 := append([]int{}, u...)
				u2[p+1]--
				curves = append(curves, curve{p, u2})
			}
		}
	}
	cpt, ok1 := hx.Fn[func(n, p int, U []int, P []vec3.T, u float64) vec3.T](nurbs.VerifFuncs, "curvePoint")
	ders, ok2 := hx.Fn[func(i, u, p, n int, U []int) [][]float64](nurbs.VerifFuncs, "dersBasisFuns")
	if ok1 && ok2 {
		knots, control := make([]int, 40), make([]vec3.T, 40)
		group("spline", 3*len(curves), func(i int) string {
			c := curves[i/3]
			n := len(c.U) - c.p - 2
			U := append([]int{}, c.U...)
			if reuse {
				U = append(knots[:0:len(c.U)], c.U...)
			}
			if i%3 < 2 {
				var P []vec3.T
				if reuse {
					P = control[: 0 : n+1]
				}
				for k := 0; k <= n; k++ {
					P = append(P, vec3.T{float64(k * k), float64(k % 3), float64(7 - k + i%3*k*(n-k))})
				}
				lo, hi := float64(U[c.p]), float64(U[n+1])
				return digest([]interface{}{cpt(n, c.p, U, P, lo*0.75+hi*0.25), cpt(n, c.p, U, P, lo*0.25+hi*0.75), cpt(n, c.p, U, P, hi)}) + fmt.Sprint(U)
			}
			s := c.p
			for s < n && U[s+1] == U[s] {
				s++
			}
			return kept(ders(s, U[s], c.p, c.p, U)) + fmt.Sprint(U)
		})
	}
	group("Construct", 40, func(i int) string {
		n := []int{3, 4, 5, 7, 8, 12, 16, 20, 31, 50}[i%10]
		c := r3.Vector{X: float64(i), Y: 1, Z: -2}
		var x interface{ Construct() shape.Mesh }
		switch i / 10 {
		case 0:
			s := &shape.Circle{}
			_ = hx.Set(s, "center", c) && hx.Set(s, "radius", 2.) && hx.Set(s, "sectorCount", n)
			x = s
		case 1:
			s := &shape.Ellipse{}
			_ = hx.Set(s, "center", c) && hx.Set(s, "semiAxis1", 2.) && hx.Set(s, "semiAxis2", 3.) && hx.Set(s, "sectorCount", n)
			x = s
		case 2:
			s := &shape.Sphere{}
			_ = hx.Set(s, "center", c) && hx.Set(s, "radius", 2.) && hx.Set(s, "sectorCount", n) && hx.Set(s, "stackCount", 3+i%4)
			x = s
		case 3:
			s := &shape.Torus{}
			_ = hx.Set(s, "center", c) && hx.Set(s, "radius", 5.) && hx.Set(s, "tubeRadius", 2.) && hx.Set(s, "sectorCount", n) && hx.Set(s, "stackCount", 3+i%4)
			x = s
		}
		return kept(x.Construct())
	})
	vertices, indices := make([]r3.Vector, 0, 1000), make([]uint32, 0, 3000)
	group("Export", 14, func(i int) string {
		n := []int{3, 4, 5, 9, 30, 255, 256, 257, 300, 1000, 3, 7, 40, 100}[i]
		m := shape.Mesh{}
		if reuse {
			m.Vertices, m.Indices = vertices[:0], indices[:0]
		}
		for k := 0; k < n; k++ {
			m.Vertices = append(m.Vertices, r3.Vector{X: float64(k * i), Y: float64(k % 7), Z: float64(-k)})
		}
		for k := 0; k+2 < n; k += 1 + i%3 {
			m.Indices = append(m.Indices, uint32(k), uint32(k+1), uint32(k+2))
		}
		f, done := file("out", ".glb")
		defer done()
		glTF.Export(m, f)
		b, err := os.ReadFile(f)
		if err != nil {
			return err.Error()
		}
		return fmt.Sprintf("%d bytes %x", len(b), sha256.Sum256(b))
	})
	def := func(i int) string {
		return []string{
			"A('x;',(1.,2.))", "ADVANCED_FACE('',(#1),#3,.T.)", "SPHERICAL_SURFACE('',#4,2.5)", "FOO()", "CARTESIAN_POINT('',(1.,2.,3.))",
			"TOROIDAL_SURFACE('a,b',#4,2.5,1.)", "AXIS2_PLACEMENT_3D('',#5,$,$)", "PRODUCT_DEFINITION('','',#1,#2)", "FACE_BOUND('',#1,.F.)",
			"B_SPLINE_SURFACE_WITH_KNOTS('',1,1,((#1,#2),(#3,#4)),.PLANE_SURF.,.T.,.F.,.F.,(2,2),(2,2),(0.,1.),(0.,2.),.UNSPECIFIED.)",
			"DIRECTION('',(0.,0.,1.))", "CLOSED_SHELL('',(#1,#2,#3))", "LENGTH(7.)", "ANGLE('a')"}[i%14]
	}
	texts := []string{"", "#1=A(", "#1=A('", "/* open", "#1=A('it''s');#2=B((1,2),(3));", "#1=A(7);", "#1=A(8);"}
	for i := 0; i < 20; i++ {
		s := ""
		for k := 0; k < 1+i%7; k++ {
			s += fmt.Sprintf("#%d = %s;\n", 1+(k*5+i)%11, def(i+k*k))
		}
		texts = append(texts, s)
	}
	for _, i := range []int{6, 9, 12, 17} {
		texts = append(texts, strings.NewReplacer("1.", "7.", "CARTESIAN_POINT", "CARTESIAN_JOINT", "'x;'", "'y;'", "SPHERICAL_SURFACE", "SPHERICAL_SURFICE").Replace(texts[i]))
	}
	group("Lex", len(texts), func(i int) string {
		f, done := file("in", ".stp")
		os.WriteFile(f, []byte("ISO-10303-21;\nDATA;\n"+texts[i]), 0o600)
		defer done()
		x := step.Lexer{Filename: f}
		return table(x.Lex())
	})
	var parses []op
	symbols := step.SymbolTable{}
	for i := range texts[7:] {
		i := i
		parses = append(parses, op{name: fmt.Sprintf("Parse %d", i), prints: true, run: func(*inputs) string {
			f, done := file("in", ".stp")
			os.WriteFile(f, []byte("DATA;\n"+texts[7+i]), 0o600)
			defer done()
			x := step.Lexer{Filename: f}
			st := x.Lex()
			if reuse {
				for k := range symbols {
					delete(symbols, k)
				}
				for k, d := range st {
					symbols[k] = d
				}
				st = symbols
			}
			step.Parse(st)
			return ""
		}})
	}
	l = append(l, parses)
	group("numbers", 24, func(i int) string {
		v := func(k int) r3.Vector {
			return r3.Vector{X: float64((k*7 + i) % 5), Y: float64((k*k + 2*i) % 7), Z: float64((k + i) % 3)}
		}
		u := v(1)
		u.Normalize()
		r := digest([]interface{}{predicates.InSphereFast(v(0), v(1), v(2), v(3), v(4)), u, r3.Normalize(v(2)), r3.Cross(v(0), v(3)), r3.Distance(v(1), v(4))})
		ln := r3.Line{Vector: v(0), Direction: v(i % 4)}
		return r + fmt.Sprint(ln.IntersectPlane(r3.Plane3D{Normal: v(2), Vector: v(3)}))
	})
	return l
}

// large: for each part, calls on a few large inputs and a small one. What a
// part leaves behind only when its input is large, or only after several calls,
// shows in sequences of these.
func large() [][]op {
	tmp()
	var l [][]op
	group := func(name string, fs ...func() string) {
		var g []op
		for i, f := range fs {
			f := f
			g = append(g, op{name: fmt.Sprintf("large %s %d", name, i), run: func(*inputs) string { return f() }})
		}
		l = append(l, g)
	}
	cloud := func(n, seed, size int) (v []r3.Vector) {
		rnd := uint64(seed)
		next := func() float64 {
			rnd = rnd*6364136223846793005 + 1442695040888963407
			return float64((rnd >> 33) % uint64(size))
		}
		for k := 0; k < n; k++ {
			v = append(v, r3.Vector{X: next(), Y: next(), Z: next()})
		}
		return
	}
	tri := func(n, seed, size int) func() string {
		return func() string {
			t, err := triangulate2.Triangulate(cloud(n, seed, size))
			if err != nil || t == nil {
				return "error " + fmt.Sprint(err)
			}
			kept(t.Triangles)
			kept(t.Halfedges)
			kept(t.ConvexHull)
			return digest(triples(t.Triangles)) + digest(fmt.Sprint(len(t.Halfedges), t.ConvexHull, t.Validate()))
		}
	}
	group("Triangulate", tri(150, 1, 1000), tri(400, 2, 1000), tri(7, 3, 100))
	hull := func(n, seed int) func() string {
		return func() string {
			v := cloud(n, seed, 1<<20)
			if seed == 4 { // all on the hull
				for i := range v {
					v[i] = r3.Vector{X: float64(i * 37 % n), Y: float64((i * 37 % n) * (i * 37 % n))}
				}
			}
			return kept(triangulate2.ConvexHull(v))
		}
	}
	group("ConvexHull", hull(1500, 4), hull(3000, 5), hull(9, 6))
	if bw, ok := hx.Fn[func(...r3.Vector) []int](mesh.VerifFuncs, "bowyerWatson"); ok {
		f := func(n, seed, size int) func() string {
			return func() string { r := bw(cloud(n, seed, size)...); kept(r); return digest(triples(r)) }
		}
		group("bowyerWatson", f(34, 7, 1000), f(5, 8, 100))
	}
	if f, ok := hx.Fn[func([]r3.Vector) shape.Mesh](tri3.VerifFuncs, "constructEnglobingTetra"); ok {
		group("englobing tetra", func() string { return kept(f(cloud(3000, 9, 1<<20))) }, func() string { return kept(f(cloud(600, 10, 7))) }, func() string { return kept(f(cloud(5, 11, 50))) })
	}
	if f, ok := hx.Fn[func([]r3.Vector) []r3.Vector](tri3.VerifFuncs, "createInitialTetra"); ok {
		group("initial tetra", func() string { return kept(f(cloud(3000, 9, 1<<20))) }, func() string { return kept(f(cloud(600, 10, 7))) }, func() string { return kept(f(cloud(5, 11, 50))) })
	}
	lex := func(n int, tail string) func() string {
		s := ""
		if n%2 == 1 {
			s = "DATA;\n"
		}
		for k := 1; k <= n; k++ {
			s += fmt.Sprintf("#%d = CARTESIAN_POINT('p%d',(%d.,2.,3.));\n", k, k, k)
		}
		s += tail
		f := filepath.Join(tmp(), fmt.Sprintf("large%d-%d.stp", n, len(tail)))
		return func() string {
			os.WriteFile(f, []byte(s), 0o600)
			defer os.Remove(f)
			x := step.Lexer{Filename: f}
			return table(x.Lex())
		}
	}
	group("Lex", lex(200, "#9 = A("), lex(2001, "#9 = A('x"), lex(301, "/* #1=B();"), lex(2, "ENDSEC;"))
	export := func(n int) func() string {
		m := shape.Mesh{Vertices: cloud(n, 12+n, 1000)}
		for k := 0; k+2 < n; k++ {
			m.Indices = append(m.Indices, uint32(k), uint32(k+1), uint32(k+2))
		}
		return func() string {
			f := filepath.Join(tmp(), fmt.Sprintf("large%d.glb", atomic.AddInt64(&seq, 1)))
			defer os.Remove(f)
			glTF.Export(m, f)
			b, err := os.ReadFile(f)
			if err != nil {
				return err.Error()
			}
			return fmt.Sprintf("%d bytes %x", len(b), sha256.Sum256(b))
		}
	}
	group("Export", export(1200), export(5000), export(3))
	construct := func(n int, k string) func() string {
		return func() string {
			var x interface{ Construct() shape.Mesh }
			switch k {
			case "circle":
				s := &shape.Circle{}
				_ = hx.Set(s, "center", r3.Vector{X: 1}) && hx.Set(s, "radius", 2.) && hx.Set(s, "sectorCount", n)
				x = s
			case "ellipse":
				s := &shape.Ellipse{}
				_ = hx.Set(s, "center", r3.Vector{X: 1}) && hx.Set(s, "semiAxis1", 2.) && hx.Set(s, "semiAxis2", 3.) && hx.Set(s, "sectorCount", n)
				x = s
			case "sphere":
				s := &shape.Sphere{}
				_ = hx.Set(s, "center", r3.Vector{X: 1}) && hx.Set(s, "radius", 2.) && hx.Set(s, "sectorCount", n) && hx.Set(s, "stackCount", n/2+1)
				x = s
			default:
				s := &shape.Torus{}
				_ = hx.Set(s, "center", r3.Vector{X: 1}) && hx.Set(s, "radius", 5.) && hx.Set(s, "tubeRadius", 2.) && hx.Set(s, "sectorCount", n) && hx.Set(s, "stackCount", n/2+1)
				x = s
			}
			return kept(x.Construct())
		}
	}
	for _, k := range []string{"circle", "ellipse"} {
		group(k, construct(1000, k), construct(300, k), construct(4, k))
	}
	for _, k := range []string{"sphere", "torus"} {
		group(k, construct(60, k), construct(33, k), construct(4, k))
	}
	cpt, ok1 := hx.Fn[func(n, p int, U []int, P []vec3.T, u float64) vec3.T](nurbs.VerifFuncs, "curvePoint")
	ders, ok2 := hx.Fn[func(i, u, p, n int, U []int) [][]float64](nurbs.VerifFuncs, "dersBasisFuns")
	if ok1 && ok2 {
		curve := func(n, p int) ([]int, []vec3.T) {
			var U []int
			for k := 0; k <= n+p+1; k++ {
				U = append(U, min(max(k-p, 0), n-p+1))
			}
			var P []vec3.T
			for k := 0; k <= n; k++ {
				P = append(P, vec3.T{float64(k), float64(k * k % 7), float64(n - k)})
			}
			return U, P
		}
		point := func(n, p int) func() string {
			return func() string {
				U, P := curve(n, p)
				return digest([]interface{}{cpt(n, p, U, P, 0.5), cpt(n, p, U, P, float64(n-p)+0.75), U, P})
			}
		}
		der := func(n, p int) func() string {
			return func() string { U, _ := curve(n, p); return kept(ders(p, 0, p, p, U)) }
		}
		group("spline", point(600, 3), point(80, 8), der(40, 8), point(4, 2))
	}
	return l
}

func table(st step.SymbolTable) string {
	if holding {
		held = append(held, hold{was: rows(st), look: func() string { return rows(st) }, scribble: func() { scribble(reflect.ValueOf(st)) }})
	}
	return rows(st)
}

func rows(st step.SymbolTable) string {
	var l []string
	for k, d := range st {
		l = append(l, fmt.Sprintf("%q=%q%q", k, d.Type, d.Arguments))
	}
	sort.Strings(l)
	return digest(l)
}

// result runs one operation and writes down its outcome.
func result(t *eng.T, o op, in *inputs) string {
	var r string
	var oc eng.Outcome
	if o.prints {
		s := eng.Capture(func() { oc = t.Call(budget, func() { r = o.run(in) }) })
		var l []string
		for _, x := range strings.Split(s, "\n") {
			if !strings.HasPrefix(x, "STATES") {
				l = append(l, x)
			}
		}
		sort.Strings(l)
		r = strings.Join(l, "/")
	} else {
		oc = t.Call(budget, func() { r = o.run(in) })
	}
	return outcome(oc, r)
}

func outcome(oc eng.Outcome, r string) string {
	if oc.Hang {
		return "does not terminate"
	}
	if oc.Panicked {
		return "panics: " + strings.ReplaceAll(fmt.Sprint(oc.Val), tmp(), "DIR")
	}
	return r
}

// baselines: the outcome of every operation as the first call of a process.
var base []string

func baselines() []string {
	if base != nil {
		return base
	}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	n := len(ops())
	base = make([]string, n)
	for i := range base {
		c := exec.Command(self)
		c.Env = append(os.Environ(), "VERIF_FRESH_OP="+strconv.Itoa(i))
		b, err := c.Output()
		if err != nil {
			panic(fmt.Sprintf("fresh run of operation %d: %v", i, err))
		}
		base[i] = string(b)
	}
	return base
}

var famBase = map[string]string{}

func famBaseline(g, i int, name string) string {
	if r, ok := famBase[name]; ok {
		return r
	}
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	c := exec.Command(self)
	c.Env = append(os.Environ(), fmt.Sprintf("VERIF_FRESH_FAM=%d.%d", g, i))
	b, err := c.Output()
	if err != nil {
		panic(fmt.Sprintf("fresh run of %s: %v", name, err))
	}
	famBase[name] = string(b)
	return famBase[name]
}

// named: what was held last is the result of this call
func named(n string) {
	for i := len(held) - 1; i >= 0 && held[i].name == ""; i-- {
		held[i].name = n
	}
}

// again looks at the results of earlier calls again.
func again(t *eng.T) {
	for _, h := range held {
		if got := h.look(); got != h.was {
			t.Fail("", "the result of %s was %s and became %s by later calls", h.name, h.was, got)
		}
	}
}

// famHistory: every sequence of n calls of one part of the library
func famHistory(n int, reuse bool) func(t *eng.T) {
	return histories(n, reuse, 0, func() [][]op { return families(reuse) })
}

const largeFrom = 1000 // the numbers of the groups of large

func histories(n int, reuse bool, from int, of func() [][]op) func(t *eng.T) {
	var fam [][]op
	return func(t *eng.T) {
		if fam == nil {
			fam = of()
		}
		g := t.Choose(len(fam))
		var names []string
		var calls []int
		held, holding = nil, !reuse
		defer func() { held, holding = nil, false }()
		t.Describe(func() string { return "calls " + strings.Join(names, "; ") })
		for k := 0; k < n; k++ {
			i := t.Choose(len(fam[g]))
			o := fam[g][i]
			names = append(names, o.name)
			want := famBaseline(from+g, i, o.name)
			if got := result(t, o, nil); got != want {
				t.Fail("", "after the others, %s gives %s, in a new process %s", o.name, got, want)
			}
			named(o.name)
			calls = append(calls, i)
		}
		if holding {
			again(t)
			for _, h := range held {
				h.scribble()
			}
			holding = false
			for _, i := range calls {
				want := famBaseline(from+g, i, fam[g][i].name)
				if got := result(t, fam[g][i], nil); got != want {
					t.Fail("", "after the earlier results were written into, %s gives %s, in a new process %s", fam[g][i].name, got, want)
				}
			}
		}
		t.State(strings.Join(names, ";"))
	}
}

func freshFam(g, i int) {
	out := os.Stdout
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
	os.Args = []string{"verif-harness"}
	var o op
	if g >= largeFrom {
		o = large()[g-largeFrom][i]
	} else {
		o = families(false)[g][i]
	}
	r := result(new(eng.T), o, nil)
	fmt.Fprint(out, r)
	if dir != "" {
		os.RemoveAll(dir)
	}
}

func freshOp(i int) {
	out := os.Stdout
	if f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
	os.Args = []string{"verif-harness"}
	r := result(new(eng.T), ops()[i], fresh())
	fmt.Fprint(out, r)
	if dir != "" {
		os.RemoveAll(dir)
	}
}

func fds() int {
	l, _ := os.ReadDir("/proc/self/fd")
	return len(l)
}

// history: every sequence of operations
func history(n int) func(t *eng.T) {
	var all []op
	return func(t *eng.T) {
		if all == nil {
			all = ops()
			baselines()
			eng.Capture(func() {})
		}
		in := fresh()
		f0, g0 := fds(), runtime.NumGoroutine()
		held, holding = nil, true
		defer func() { held, holding = nil, false }()
		var names []string
		t.Describe(func() string { return "calls " + strings.Join(names, "; ") })
		for k := 0; k < n; k++ {
			i := t.Choose(len(all))
			names = append(names, all[i].name)
			if got := result(t, all[i], in); got != base[i] {
				t.Fail("", "after the others, %s gives %s, in a new process %s", all[i].name, got, base[i])
			}
			named(all[i].name)
		}
		again(t)
		if want := fresh(); !reflect.DeepEqual(in, want) {
			t.Fail("", "the arguments were modified")
		}
		if f := fds(); f > f0 {
			t.Fail("", "%d files are left open", f-f0)
		}
		if g := runtime.NumGoroutine(); g > g0 {
			t.Fail("", "%d goroutines are left behind", g-g0)
		}
		if flag.Parsed() {
			t.Fail("", "the program's command line was parsed")
		}
		if len(os.Args) != 1 {
			t.Fail("", "the program's arguments were changed")
		}
		if r3.Zero != (r3.Vector{}) {
			t.Fail("", "r3.Zero is %v", r3.Zero)
		}
		t.State(strings.Join(names, ";"))
	}
}

// ---- schedules

type thread struct {
	steps, stop int64
	ended       bool
	res         string
	resume      chan struct{}
}

type sched struct {
	cur   *thread
	yield chan *thread
	free  int32
}

func (s *sched) hook() {
	if atomic.LoadInt32(&s.free) != 0 {
		return
	}
	t := s.cur
	if t.steps++; t.steps == t.stop {
		s.yield <- t
		<-t.resume
	}
}

func (s *sched) start(o op, in *inputs) *thread {
	t := &thread{resume: make(chan struct{}, 1), stop: -1}
	go func() {
		<-t.resume
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(rt.Hang); ok {
						t.res = "does not terminate"
						return
					}
					t.res = "panics: " + strings.ReplaceAll(fmt.Sprint(r), tmp(), "DIR")
				}
			}()
			t.res = o.run(in)
		}()
		t.ended = true
		s.yield <- t
	}()
	return t
}

// run lets t go on for n steps (n < 0: to its end); false: it is blocked.
func (s *sched) run(t *thread, n int64) bool {
	if t.ended || n == 0 {
		return true
	}
	s.cur = t
	t.stop = -1
	if n > 0 {
		t.stop = t.steps + n
	}
	t.resume <- struct{}{}
	select {
	case <-s.yield:
		return true
	case <-time.After(time.Second):
		return false
	}
}

var blocked = map[[2]int]int{}

// lengths of the operations, in steps
var lengths []int64

func measure(t *eng.T, all []op) {
	if lengths != nil {
		return
	}
	for _, o := range all {
		oc := t.Call(budget, func() { o.run(fresh()) })
		n := oc.Steps
		if n > 60000 {
			n = 60000
		}
		lengths = append(lengths, n)
	}
}

// pair runs two operations at the same time, the first preempted after ks[0]
// steps, the second after ks[1] and so on in turn. False: one waits for the
// other, so that this is no schedule.
func pair(t *eng.T, oa, ob op, ina, inb *inputs, ks []int64) ([2]string, bool) {
	switches := len(ks)
	s := &sched{yield: make(chan *thread, 4)}
	ta, tb := s.start(oa, ina), s.start(ob, inb)
	rt.Steps, rt.Budget = 0, budget
	rt.Sched = s.hook
	ok := true
	th := []*thread{ta, tb}
	for k := 0; k < switches && ok; k++ {
		ok = s.run(th[k%2], ks[k])
	}
	for k := 0; k < 2 && ok; k++ {
		ok = s.run(th[(switches+k)%2], -1)
	}
	if !ok { // let both finish
		atomic.StoreInt32(&s.free, 1)
		for _, x := range th {
			select {
			case x.resume <- struct{}{}:
			default:
			}
		}
		for lim := time.After(10 * time.Second); !(ta.ended && tb.ended); {
			select {
			case <-s.yield:
			case <-lim:
				rt.Sched = nil
				t.Fail("", "the two calls block each other")
			}
		}
	}
	rt.Sched, rt.Budget = nil, 1<<62
	t.Op(2)
	return [2]string{ta.res, tb.res}, ok
}

// schedules: two calls at the same time, with every placement of up to
// `switches` preemptions. Operations longer than max steps are left out.
func schedules(switches int, max int64, share bool) func(t *eng.T) {
	var all []op
	var idx []int
	return func(t *eng.T) {
		if all == nil {
			all = ops()
			baselines()
			measure(t, all)
			for i := range all {
				if lengths[i] <= max && lengths[i] > 0 {
					idx = append(idx, i)
				}
			}
		}
		a, b := idx[t.Choose(len(idx))], idx[t.Choose(len(idx))]
		in := fresh()
		in2 := in
		if !share {
			in2 = fresh()
		}
		ks := []int64{}
		for k := 0; k < switches; k++ {
			o := a
			if k%2 == 1 {
				o = b
			}
			ks = append(ks, 1+int64(t.Choose(int(lengths[o]))))
		}
		t.Describe(func() string {
			return fmt.Sprintf("%s and %s at the same time; the first is preempted after %d steps, and so on in turn: %v", all[a].name, all[b].name, ks[0], ks)
		})
		if blocked[[2]int{a, b}] > 1 {
			t.Skip()
		}
		res, ok := pair(t, all[a], all[b], in, in2, ks)
		if !ok {
			blocked[[2]int{a, b}]++
			t.Skip()
		}
		for k, i := range []int{a, b} {
			want := base[i]
			if all[i].prints {
				want = ""
			}
			if res[k] != want {
				t.Fail("", "%s gives %s, alone %s", all[i].name, res[k], want)
			}
		}
		if w := fresh(); !reflect.DeepEqual(in, w) || !reflect.DeepEqual(in2, w) {
			t.Fail("", "the arguments were modified")
		}
		t.State(a, b, ks)
	}
}

// famSchedules: two calls of one part on many inputs, with every placement of
// one preemption.
func famSchedules(max int64) func(t *eng.T) {
	var fam [][]op
	var idx [][]int
	var lens [][]int64
	block := map[[3]int]int{}
	return func(t *eng.T) {
		if fam == nil {
			for _, g := range families(false) {
				var ix []int
				var ls []int64
				for i, o := range g {
					oc := t.Call(budget, func() { o.run(nil) })
					if !o.prints && oc.Steps > 0 && oc.Steps <= max {
						ix, ls = append(ix, i), append(ls, oc.Steps)
					}
				}
				if len(ix) > 0 {
					fam, idx, lens = append(fam, g), append(idx, ix), append(lens, ls)
				}
				famOf = append(famOf, len(ix) > 0)
			}
		}
		g := t.Choose(len(fam))
		x, y := t.Choose(len(idx[g])), t.Choose(len(idx[g]))
		oa, ob := fam[g][idx[g][x]], fam[g][idx[g][y]]
		k := 1 + int64(t.Choose(int(lens[g][x])))
		t.Describe(func() string {
			return fmt.Sprintf("%s and %s at the same time; the first is preempted after %d steps", oa.name, ob.name, k)
		})
		if block[[3]int{g, x, y}] > 1 {
			t.Skip()
		}
		res, ok := pair(t, oa, ob, nil, nil, []int64{k})
		if !ok {
			block[[3]int{g, x, y}]++
			t.Skip()
		}
		real := 0 // the group's number among all families
		for n := 0; real < len(famOf); real++ {
			if famOf[real] {
				if n == g {
					break
				}
				n++
			}
		}
		if want := famBaseline(real, idx[g][x], oa.name); res[0] != want {
			t.Fail("", "%s gives %s, alone %s", oa.name, res[0], want)
		}
		if want := famBaseline(real, idx[g][y], ob.name); res[1] != want {
			t.Fail("", "%s gives %s, alone %s", ob.name, res[1], want)
		}
		t.State(g, x, y, k)
	}
}

// which of the families have operations short enough
var famOf []bool

func main() {
	if v := os.Getenv("VERIF_RACE"); v != "" {
		raceChild(v)
		return
	}
	if v := os.Getenv("VERIF_FRESH_OP"); v != "" {
		i, _ := strconv.Atoi(v)
		freshOp(i)
		return
	}
	if v := os.Getenv("VERIF_FRESH_FAM"); v != "" {
		var g, i int
		fmt.Sscanf(v, "%d.%d", &g, &i)
		freshFam(g, i)
		return
	}
	eng.Main(
		&eng.Prop{ID: "C01", Rule: "every pair of operations run by two threads on shared arguments, with every placement of the preemptions at the statements of the code under test (one preemption; two for the shorter operations), and every such pair of calls of one part on many inputs with one preemption; and every such pair in a new process under the race detector, the second call at a few steps of the first", Assumptions: []string{"statements are the scheduling points: interleavings inside a statement, and inside library code, are not explored", "what Parse prints is not judged while another call runs"}, Scenarios: func(th bool) []eng.Scenario {
			if th {
				return []eng.Scenario{{Name: "one preemption", Body: schedules(1, 60000, true), Shard: 3}, {Name: "two preemptions of shorter operations", Body: schedules(2, 420, true), Shard: 3}, {Name: "three preemptions of the shortest operations", Body: schedules(3, 60, true), Shard: 3}, {Name: "one preemption, one part on many inputs", Body: famSchedules(6000), Shard: 3}, {Name: "data races", Body: races(16, false), Shard: 3}, {Name: "data races, one part on many inputs", Body: races(8, true), Shard: 4}}
			}
			return []eng.Scenario{{Name: "one preemption", Body: schedules(1, 3000, true), Shard: 3}, {Name: "two preemptions of short operations", Body: schedules(2, 60, true), Shard: 3}, {Name: "one preemption, one part on many inputs", Body: famSchedules(250), Shard: 3}, {Name: "data races", Body: races(2, false), Shard: 3}, {Name: "data races, one part on many inputs", Body: races(2, true), Shard: 4}}
		}},
		&eng.Prop{ID: "C02", Rule: "every sequence of operations of the length, each compared with its outcome as the first call of a new process", Assumptions: []string{"the operations are a fixed set, two inputs of different size for most"}, Scenarios: func(th bool) []eng.Scenario {
			n, m := 3, 2
			if th {
				n, m = 4, 3
			}
			return []eng.Scenario{{Name: fmt.Sprintf("%d calls", n), Body: history(n)}, {Name: fmt.Sprintf("%d calls of one part on many inputs", m), Body: famHistory(m, false)}, {Name: fmt.Sprintf("%d calls of one part on inputs in the same memory and files", m), Body: famHistory(m, true)},
				{Name: "5 calls of one part, large inputs", Body: histories(5, false, largeFrom, large)}}
		}},
	)
}
