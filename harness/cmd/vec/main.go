// Harness for package r3: vectors, lines, planes.
package main

import (
	"fmt"
	"math"
	"math/big"

	"geGoMetry/r3"
	"verifh/eng"
	"verifh/hx"
)

const budget = 10000

// coordinates on which sums, products and sums of products are exact
var vals = []float64{0, 1, -1, 0.5, -3, 1024}
var valsT = []float64{0, 1, -1, 0.5, -3, 2, 1024, -0.0625, 65536}

func pick(t *eng.T, vs []float64) r3.Vector {
	c := t.Choose(len(vs) * len(vs) * len(vs))
	n := len(vs)
	return r3.Vector{X: vs[c/(n*n)], Y: vs[c/n%n], Z: vs[c%n]}
}

func pairs(vs []float64, scales []float64) func(t *eng.T) {
	return func(t *eng.T) {
		a, b := pick(t, vs), pick(t, vs)
		// powers of two: scaling by them is exact
		s := scales[t.Choose(len(scales))]
		a = r3.Vector{X: a.X * s, Y: a.Y * s, Z: a.Z * s}
		b = r3.Vector{X: b.X * s, Y: b.Y * s, Z: b.Z * s}
		t.Describe(func() string { return fmt.Sprintf("a=%v b=%v", a, b) })
		a0, b0 := a, b
		eqV := func(what string, got, want r3.Vector) {
			if got != want {
				t.Fail("", "%s = %v, want %v", what, got, want)
			}
			if a != a0 || b != b0 {
				t.Fail("", "%s modified an operand", what)
			}
		}
		eqF := func(what string, got, want float64) {
			if got != want {
				t.Fail("", "%s = %v, want %v", what, got, want)
			}
			if a != a0 || b != b0 {
				t.Fail("", "%s modified an operand", what)
			}
		}
		dot := a.X*b.X + a.Y*b.Y + a.Z*b.Z
		sum := r3.Vector{X: a.X + b.X, Y: a.Y + b.Y, Z: a.Z + b.Z}
		dif := r3.Vector{X: a.X - b.X, Y: a.Y - b.Y, Z: a.Z - b.Z}
		crs := r3.Vector{X: a.Y*b.Z - a.Z*b.Y, Y: a.Z*b.X - a.X*b.Z, Z: a.X*b.Y - a.Y*b.X}
		abs := r3.Vector{X: math.Abs(a.X), Y: math.Abs(a.Y), Z: math.Abs(a.Z)}
		n2 := a.X*a.X + a.Y*a.Y + a.Z*a.Z
		t.Must("vector operations", budget, func() {
			eqV("Add", r3.Add(a, b), sum)
			eqV("Sub", r3.Sub(a, b), dif)
			eqF("Dot", r3.Dot(a, b), dot)
			eqV("Cross", r3.Cross(a, b), crs)
			eqV("Abs", r3.Abs(a), abs)
			eqV("Scaled", a.Scaled(b.X), r3.Vector{X: a.X * b.X, Y: a.Y * b.X, Z: a.Z * b.X})
			eqF("Norm2", a.Norm2(), n2)
			eqF("SquaredMagnitude", a.SquaredMagnitude(), n2)
			rel(t, "Norm", a.Norm(), math.Sqrt(n2))
			rel(t, "Magnitude", a.Magnitude(), math.Sqrt(n2))
			v := a
			v.Add(b)
			eqV("in-place Add", v, sum)
			v = a
			v.Sub(b)
			eqV("in-place Sub", v, dif)
			v = a
			v.Abs()
			eqV("in-place Abs", v, abs)
			v = a
			p := v.Scale(b.Y)
			eqV("in-place Scale", v, r3.Vector{X: a.X * b.Y, Y: a.Y * b.Y, Z: a.Z * b.Y})
			if p != &v {
				t.Fail("", "in-place Scale does not return the vector it scaled")
			}
			v = a
			v.Add(v)
			eqV("v.Add(v)", v, r3.Vector{X: 2 * a.X, Y: 2 * a.Y, Z: 2 * a.Z})
			v = a
			v.Sub(v)
			eqV("v.Sub(v)", v, r3.Vector{})
			// distances
			d2 := dif.X*dif.X + dif.Y*dif.Y + dif.Z*dif.Z
			eqF("SquaredDistance", r3.SquaredDistance(a, b), d2)
			eqF("SquaredDistance swapped", r3.SquaredDistance(b, a), d2)
			rel(t, "Distance", r3.Distance(a, b), math.Sqrt(d2))
			rel(t, "Distance swapped", r3.Distance(b, a), math.Sqrt(d2))
			if r3.Zero != (r3.Vector{}) {
				t.Fail("", "Zero is no longer the zero vector: %v", r3.Zero)
			}
		})
		t.State(sum, crs, dot)
	}
}

// sums, differences and scalings of coordinates with many digits, where they are exact
func linear(t *eng.T) {
	vs := []float64{0, 1, -0.5, 0x1p41 + 0.5, -(0x1p20 + 0x1p-20), 0x3p-30, 0x1p50 + 1, 0x1p-1074, -0x1p1020, 0.1}
	a, b := pick(t, vs), pick(t, vs)
	f := []float64{0, -1, 2, 0.5, 3}[t.Choose(5)]
	t.Describe(func() string { return fmt.Sprintf("a=%v b=%v f=%v", a, b, f) })
	exact := true
	two := func(x, y float64) float64 {
		s := x + y
		v := s - x
		exact = exact && (x-(s-v))+(y-v) == 0
		return s
	}
	a0, b0 := a, b
	var got, place r3.Vector
	judge := func(what string, want r3.Vector) {
		if exact && (got != want || place != want || a != a0 || b != b0) {
			t.Fail("", "%s = %v, in place %v, want %v", what, got, place, want)
		}
		exact = true
	}
	t.Must("Add", budget, func() { got = r3.Add(a, b); place = a; place.Add(b) })
	judge("Add", r3.Vector{X: two(a.X, b.X), Y: two(a.Y, b.Y), Z: two(a.Z, b.Z)})
	t.Must("Sub", budget, func() { got = r3.Sub(a, b); place = a; place.Sub(b) })
	judge("Sub", r3.Vector{X: two(a.X, -b.X), Y: two(a.Y, -b.Y), Z: two(a.Z, -b.Z)})
	t.Must("Abs", budget, func() { got = r3.Abs(a); place = a; place.Abs() })
	judge("Abs", r3.Vector{X: math.Abs(a.X), Y: math.Abs(a.Y), Z: math.Abs(a.Z)})
	t.Must("Scale", budget, func() { got = a.Scaled(f); place = a; place.Scale(f) })
	for _, x := range []float64{a.X, a.Y, a.Z} {
		exact = exact && math.FMA(x, f, -(x*f)) == 0 && (x == 0 || math.Abs(x) > 0x1p-1000)
	}
	judge("Scale", r3.Vector{X: a.X * f, Y: a.Y * f, Z: a.Z * f})
	// lengths of differences
	d := r3.Vector{X: two(a.X, -b.X), Y: two(a.Y, -b.Y), Z: two(a.Z, -b.Z)}
	n2 := d.X*d.X + d.Y*d.Y + d.Z*d.Z
	if exact && n2 > 0x1p-900 && n2 < 0x1p1000 {
		var got, got2 float64
		t.Must("Distance", budget, func() { got, got2 = r3.Distance(a, b), r3.SquaredDistance(a, b) })
		rel(t, "Distance", got, math.Sqrt(n2))
		rel(t, "SquaredDistance", got2, n2)
	}
	t.State(a, b, f)
}

func pow2(es ...int) (l []float64) {
	for _, e := range es {
		l = append(l, math.Ldexp(1, e))
	}
	return
}

func rel(t *eng.T, what string, got, want float64) {
	if !(math.Abs(got-want) <= 2e-15*math.Abs(want)) {
		t.Fail("", "%s = %v, want %v", what, got, want)
	}
}

// operation sequences over two live vectors, against an integer model
func sequences(depth int) func(t *eng.T) {
	inits := [][2]hx.I{{{1, -2, 3}, {0, 4, -1}}, {{0, 0, 0}, {1, 0, 0}}, {{2, 2, 2}, {2, 2, 2}}, {{-5, 7, 0}, {3, 0, -11}}}
	type op struct {
		name string
		do   func(a, b *r3.Vector)
		ref  func(a, b *hx.I)
	}
	add := func(a, b hx.I, k int64) hx.I { return hx.I{a[0] + k*b[0], a[1] + k*b[1], a[2] + k*b[2]} }
	mul := func(a hx.I, k int64) hx.I { return hx.I{a[0] * k, a[1] * k, a[2] * k} }
	abs := func(a hx.I) hx.I {
		for i := range a {
			if a[i] < 0 {
				a[i] = -a[i]
			}
		}
		return a
	}
	ops := []op{
		{"a.Add(b)", func(a, b *r3.Vector) { a.Add(*b) }, func(a, b *hx.I) { *a = add(*a, *b, 1) }},
		{"b.Sub(a)", func(a, b *r3.Vector) { b.Sub(*a) }, func(a, b *hx.I) { *b = add(*b, *a, -1) }},
		{"a.Add(a)", func(a, b *r3.Vector) { a.Add(*a) }, func(a, b *hx.I) { *a = mul(*a, 2) }},
		{"a.Scale(-3)", func(a, b *r3.Vector) { a.Scale(-3) }, func(a, b *hx.I) { *a = mul(*a, -3) }},
		{"a.Scale(2).Scale(-1)", func(a, b *r3.Vector) { a.Scale(2).Scale(-1) }, func(a, b *hx.I) { *a = mul(*a, -2) }},
		{"b.Abs()", func(a, b *r3.Vector) { b.Abs() }, func(a, b *hx.I) { *b = abs(*b) }},
		{"a=Add(a,b)", func(a, b *r3.Vector) { *a = r3.Add(*a, *b) }, func(a, b *hx.I) { *a = add(*a, *b, 1) }},
		{"b=Sub(a,b)", func(a, b *r3.Vector) { *b = r3.Sub(*a, *b) }, func(a, b *hx.I) { *b = add(*a, *b, -1) }},
		{"b=Cross(a,b)", func(a, b *r3.Vector) { *b = r3.Cross(*a, *b) }, func(a, b *hx.I) { *b = hx.Cross(*a, *b) }},
		{"a=Abs(b)", func(a, b *r3.Vector) { *a = r3.Abs(*b) }, func(a, b *hx.I) { *a = abs(*b) }},
		{"b=a.Scaled(Dot(a,b)%5)", func(a, b *r3.Vector) { *b = a.Scaled(math.Mod(r3.Dot(*a, *b), 5)) }, func(a, b *hx.I) { *b = mul(*a, hx.Dot(*a, *b)%5) }},
		{"swap", func(a, b *r3.Vector) { *a, *b = *b, *a }, func(a, b *hx.I) { *a, *b = *b, *a }},
	}
	return func(t *eng.T) {
		in := inits[t.Choose(len(inits))]
		a, b := in[0].V(), in[1].V()
		x, y := in[0], in[1]
		hist := fmt.Sprint(in)
		t.Describe(func() string { return hist })
		for k := 0; k < depth; k++ {
			o := ops[t.Choose(len(ops))]
			hist += " " + o.name
			t.Must(o.name, budget, func() { o.do(&a, &b) })
			o.ref(&x, &y)
			for _, c := range append(x[:], y[:]...) {
				if c > 1<<24 || c < -(1<<24) {
					t.Skip()
				}
			}
			if a != x.V() || b != y.V() {
				t.Fail("", "after %s: a=%v b=%v, want a=%v b=%v", o.name, a, b, x, y)
			}
			t.State(x, y)
		}
	}
}

func normalize(vs []float64, scales []float64) func(t *eng.T) {
	return func(t *eng.T) {
		v := pick(t, vs)
		s := scales[t.Choose(len(scales))]
		v = r3.Vector{X: v.X * s, Y: v.Y * s, Z: v.Z * s}
		t.Describe(func() string { return fmt.Sprintf("v=%v", v) })
		if !hx.Finite(v) {
			t.Skip()
		}
		n := 0.0
		m := math.Max(math.Abs(v.X), math.Max(math.Abs(v.Y), math.Abs(v.Z)))
		if m > 0 {
			x, y, z := v.X/m, v.Y/m, v.Z/m
			n = m * math.Sqrt(x*x+y*y+z*z)
		}
		inRange := n > 2e-153 && n < 1e153
		var u, w r3.Vector
		var p *r3.Vector
		v0 := v
		t.Must("Normalize", budget, func() { u = r3.Normalize(v) })
		if v != v0 {
			t.Fail("", "Normalize(v) modified v: %v", v)
		}
		w = v
		t.Must("v.Normalize()", budget, func() { p = w.Normalize() })
		if p != &w {
			t.Fail("", "v.Normalize() does not return v")
		}
		for i, r := range []r3.Vector{u, w} {
			name := []string{"Normalize(v)", "v.Normalize()"}[i]
			if !hx.Finite(r) {
				t.Fail("", "%s = %v", name, r)
			}
			if n == 0 {
				if r != (r3.Vector{}) {
					t.Fail("", "%s of the zero vector = %v", name, r)
				}
				continue
			}
			if !inRange {
				// squares over- or underflow: only finite results are promised
				continue
			}
			want := r3.Vector{X: v.X / n, Y: v.Y / n, Z: v.Z / n}
			if !hx.CloseV(r, want, 1e-4) {
				t.Fail("", "%s = %v, want %v", name, r, want)
			}
			var unit bool
			t.Must("IsUnit", budget, func() { unit = r.IsUnit() })
			if !unit {
				t.Fail("", "%s = %v is not recognised as a unit vector", name, r)
			}
		}
		if inRange {
			var unit bool
			t.Must("IsUnit", budget, func() { unit = v.IsUnit() })
			if math.Abs(n*n-1) > 1e-12 && unit {
				t.Fail("", "IsUnit accepts a vector of length %v", n)
			}
		}
		t.State(u)
	}
}

func isUnitBand(t *eng.T) {
	dirs := []r3.Vector{{X: 1}, {Y: -1}, {Z: 1}, {X: 0.6, Y: 0.8}, {Y: -0.6, Z: 0.8}, {X: 0.48, Y: 0.6, Z: -0.64}}
	// squared length 1 + d
	ds := []float64{0, 1e-14, -1e-14, 4e-14, -4e-14, 1e-13, -1e-13, 1e-12, -1e-12, 1e-9, -1e-9, 1e-3, -1e-3, 1, -1, 3, 1e6}
	v := dirs[t.Choose(len(dirs))]
	d := ds[t.Choose(len(ds))]
	s := math.Sqrt(1 + d)
	v = r3.Vector{X: v.X * s, Y: v.Y * s, Z: v.Z * s}
	t.Describe(func() string { return fmt.Sprintf("v=%v squared length 1%+g", v, d) })
	var got bool
	t.Must("IsUnit", budget, func() { got = v.IsUnit() })
	if want := math.Abs(d) < 5e-14; got != want {
		t.Fail("", "IsUnit = %v", got)
	}
	if s == 0 {
		return
	}
	// whatever its length, it is normalized to a vector that passes for a unit vector
	for i := 0; i < 2; i++ {
		w := v
		t.Must("Normalize", budget, func() {
			if i == 0 {
				w = r3.Normalize(v)
			} else {
				w.Normalize()
			}
			got = w.IsUnit()
		})
		if !got || !hx.CloseV(w, r3.Vector{X: v.X / s, Y: v.Y / s, Z: v.Z / s}, 1e-5) {
			t.Fail("", "normalized to %v (form %d), which is not the unit vector", w, i)
		}
	}
	t.State(d, got)
}

func lineGrid(k int) []hx.I {
	var l []hx.I
	for c := 0; c < k*k*k; c++ {
		l = append(l, hx.I{int64(c/(k*k)) - int64(k/2), int64(c/k%k) - int64(k/2), int64(c%k) - int64(k/2)})
	}
	return l
}

// every line and plane with small integer coordinates
func linePlane(kn, kd, ko int, scales []float64) func(t *eng.T) {
	ns, ds, os := lineGrid(kn), lineGrid(kd), lineGrid(ko)
	return func(t *eng.T) {
		n := ns[t.Choose(len(ns))]
		d := ds[t.Choose(len(ds))]
		o := os[t.Choose(len(os))]
		// point of the plane
		q := []hx.I{{0, 0, 0}, {1, -2, 3}, {7, 0, 0}, {-4, 5, 100}}[t.Choose(4)]
		sc := t.Choose(len(scales) * len(scales))
		s1, s2 := scales[sc/len(scales)], scales[sc%len(scales)]
		line := r3.Line{Vector: o.V(), Direction: d.VS(s1, r3.Vector{})}
		plane := r3.Plane3D{Normal: n.VS(s2, r3.Vector{}), Vector: q.V()}
		t.Describe(func() string { return fmt.Sprintf("line %v plane %v", line, plane) })
		var got r3.Vector
		out := t.Call(budget, func() { got = line.IntersectPlane(plane) })
		den := hx.Dot(n, d)
		if den == 0 {
			if out.OK() {
				t.Fail("", "the line is parallel to the plane (or one of them is degenerate), yet IntersectPlane returned %v", got)
			}
			if out.Hang {
				t.Fail("", "%s", out)
			}
			t.State("parallel")
			return
		}
		if !out.OK() {
			t.Fail("", "IntersectPlane %s", out)
		}
		num := hx.Dot(n, q.Sub(o))
		f := func(i int) float64 {
			r := big.NewRat(o[i]*den+d[i]*num, den)
			x, _ := r.Float64()
			return x
		}
		want := r3.Vector{X: f(0), Y: f(1), Z: f(2)}
		scale := 1 + math.Abs(float64(num))/math.Abs(float64(den))*4
		if !hx.CloseV(got, want, scale*1e-3) {
			t.Fail("", "IntersectPlane = %v, want %v", got, want)
		}
		t.State(num, den, d)
	}
}

// lines that meet the plane at a grazing angle of about 1/steep
func grazing(k int, steeps []float64) func(t *eng.T) {
	ns, es := lineGrid(k), lineGrid(3)
	return func(t *eng.T) {
		n := ns[t.Choose(len(ns))]
		d0 := ns[t.Choose(len(ns))]
		e := es[t.Choose(len(es))]
		if hx.Dot(n, d0) != 0 || hx.Dot(n, e) == 0 || d0 == (hx.I{}) {
			t.Skip()
		}
		steep := steeps[t.Choose(len(steeps))]
		h := []int64{0, 1, -3}[t.Choose(3)]
		// the line starts at h*e above the plane through q: it meets it at q - h*steep*d0
		q := []hx.I{{0, 0, 0}, {1, -2, 3}, {-4, 5, 100}}[t.Choose(3)]
		line := r3.Line{Vector: e.VS(float64(h), q.V()), Direction: e.VS(1, d0.VS(steep, r3.Vector{}))}
		plane := r3.Plane3D{Normal: n.V(), Vector: q.V()}
		t.Describe(func() string { return fmt.Sprintf("line %v plane %v", line, plane) })
		var got r3.Vector
		t.Must("IntersectPlane", budget, func() { got = line.IntersectPlane(plane) })
		want := d0.VS(-float64(h)*steep, q.V())
		// one rounding of the direction moves the point by about eps*steep*distance
		tol := (1 + float64(h*h)*steep + math.Abs(float64(q[2]))) * steep * 1e-13 * 1e9
		if !hx.CloseV(got, want, tol) {
			t.Fail("", "IntersectPlane = %v, want %v", got, want)
		}
		t.State(n, d0, e, h)
	}
}

// normals, differences and planar determinants of integer points
func helpers(k int, scales []float64) func(t *eng.T) {
	g := lineGrid(k)
	normal, ok1 := hx.Fn[func(r3.Plane, r3.Vector, r3.Vector, r3.Vector) r3.Vector](r3.VerifFuncs, "Plane.calculateNormal")
	vec, ok2 := hx.Fn[func(a, b r3.Vector) r3.Vector](r3.VerifFuncs, "createVector")
	det, ok3 := hx.Fn[func(a, b r3.Vector) float64](r3.VerifFuncs, "det2D")
	return func(t *eng.T) {
		i, j, l := g[t.Choose(len(g))], g[t.Choose(len(g))], g[t.Choose(len(g))]
		s := scales[t.Choose(len(scales))]
		a, b, c := i.VS(s, r3.Vector{}), j.VS(s, r3.Vector{}), l.VS(s, r3.Vector{})
		t.Describe(func() string { return fmt.Sprintf("a=%v b=%v c=%v", a, b, c) })
		n := hx.Cross(j.Sub(i), l.Sub(i))
		if ok1 {
			var got r3.Vector
			t.Must("calculateNormal", budget, func() { got = normal(r3.Plane{Normal: c, Distance: 5}, a, b, c) })
			if want := n.VS(s*s, r3.Vector{}); got != want {
				t.Fail("", "calculateNormal = %v, want %v", got, want)
			}
		}
		if ok2 {
			var got r3.Vector
			t.Must("createVector", budget, func() { got = vec(a, b) })
			if want := i.Sub(j).VS(s, r3.Vector{}); got != want {
				t.Fail("", "createVector = %v, want %v", got, want)
			}
		}
		if ok3 {
			var got float64
			t.Must("det2D", budget, func() { got = det(a, b) })
			if want := float64(i[0]*j[1]-i[1]*j[0]) * s * s; got != want {
				t.Fail("", "det2D = %v, want %v", got, want)
			}
		}
		t.State(n)
	}
}

func planeDistance(k int) func(t *eng.T) {
	// unit normals with exact or nearly exact coordinates
	ns := []r3.Vector{{X: 1}, {Y: 1}, {Z: -1}, {X: -1}, {X: 0.6, Y: 0.8}, {X: 0.6, Z: -0.8}, {X: 0.48, Y: 0.6, Z: 0.64},
		{X: 2. / 3, Y: -1. / 3, Z: 2. / 3}, {X: 1 / math.Sqrt(3), Y: 1 / math.Sqrt(3), Z: 1 / math.Sqrt(3)}}
	g := lineGrid(k)
	mk, ok := hx.Fn[func(r3.Vector, r3.Vector) r3.Plane](r3.VerifFuncs, "newPlane")
	return func(t *eng.T) {
		n := ns[t.Choose(len(ns))]
		o := g[t.Choose(len(g))]
		s := []float64{1, 0.01, 1000}[t.Choose(3)]
		v := g[t.Choose(len(g))]
		origin, x := o.VS(s, r3.Vector{}), v.VS(s, r3.Vector{})
		p := r3.Plane{Normal: n, Distance: -(n.X*origin.X + n.Y*origin.Y + n.Z*origin.Z)}
		t.Describe(func() string { return fmt.Sprintf("plane through %v, unit normal %v; point %v", origin, n, x) })
		want := n.X*(x.X-origin.X) + n.Y*(x.Y-origin.Y) + n.Z*(x.Z-origin.Z)
		var got, got2 float64
		t.Must("CalculateDistanceToPlane", budget, func() { got = x.CalculateDistanceToPlane(p); got2 = got })
		if ok {
			t.Must("newPlane", budget, func() { got2 = x.CalculateDistanceToPlane(mk(n, origin)) })
		}
		for _, d := range []float64{got, got2} {
			if !hx.Close(d, want, 1e-3*s*10) {
				t.Fail("", "distance to the plane = %v, want %v", d, want)
			}
		}
		// translation invariance and the point's mirror image
		mirror := r3.Vector{X: x.X - 2*want*n.X, Y: x.Y - 2*want*n.Y, Z: x.Z - 2*want*n.Z}
		t.Must("CalculateDistanceToPlane", budget, func() { got = mirror.CalculateDistanceToPlane(p) })
		if !hx.Close(got, -want, 1e-2*s*10) {
			t.Fail("", "distance of the mirror image = %v, want %v", got, -want)
		}
		t.State(want)
	}
}

func interpolate(vs []float64) func(t *eng.T) {
	ts := []float64{0, 1, 0.5, 0.25, 0.75, 0.125, -1, 2, 1.5}
	return func(t *eng.T) {
		a, b := pick(t, vs), pick(t, vs)
		a0, b0 := a, b
		for _, f := range ts {
			f := f
			t.Describe(func() string { return fmt.Sprintf("a=%v b=%v t=%v", a0, b0, f) })
			want := r3.Vector{X: a0.X + (b0.X-a0.X)*f, Y: a0.Y + (b0.Y-a0.Y)*f, Z: a0.Z + (b0.Z-a0.Z)*f}
			back := r3.Vector{X: b0.X + (a0.X-b0.X)*f, Y: b0.Y + (a0.Y-b0.Y)*f, Z: b0.Z + (a0.Z-b0.Z)*f}
			var got, got2 r3.Vector
			t.Must("Interpolate", budget, func() { got = r3.Interpolate(&a, &b, f) })
			t.Must("GetInterpolationVector", budget, func() { got2 = a.GetInterpolationVector(b, f) })
			if got != want {
				t.Fail("", "Interpolate = %v, want %v", got, want)
			}
			if got2 != back {
				t.Fail("", "GetInterpolationVector = %v, want %v", got2, back)
			}
			if a != a0 || b != b0 {
				t.Fail("", "an interpolation modified its operands")
			}
			var self r3.Vector
			t.Must("Interpolate", budget, func() { self = r3.Interpolate(&a, &a, f) })
			if self != a0 {
				t.Fail("", "interpolating between a vector and itself gives %v", self)
			}
		}
		t.State(a, b)
	}
}

// ends: vectors of any digits and magnitudes at the two ends, which are hit exactly
func ends(t *eng.T) {
	vs := []float64{0, 0.1, -1. / 3, 1e16, -7e-17, 1e300, 12345.678}
	a, b := pick(t, vs), pick(t, vs)
	a0, b0 := a, b
	t.Describe(func() string { return fmt.Sprintf("a=%v b=%v", a0, b0) })
	for k, want := range []r3.Vector{a, b} {
		var got, got2 r3.Vector
		t.Must("Interpolate", budget, func() { got, got2 = r3.Interpolate(&a, &b, float64(k)), a.GetInterpolationVector(b, float64(1-k)) })
		if got != want || a != a0 || b != b0 {
			t.Fail("", "Interpolate at %d = %v", k, got)
		}
		if got2 != want || a != a0 || b != b0 {
			t.Fail("", "GetInterpolationVector at %d = %v", 1-k, got2)
		}
	}
	t.State(a, b)
}

func main() {
	exact := "coordinates are dyadic rationals on which every result is exact in float64"
	var mags, magsT []float64
	for e := -150; e <= 150; e += 30 {
		mags = append(mags, math.Pow(10, float64(e)))
	}
	for e := -320; e <= 308; e += 4 {
		magsT = append(magsT, math.Pow(10, float64(e)))
	}
	magsT = append(magsT, 3e-153, 9e152)
	mags = append(mags, 3e-153, 9e152, 1, 0.1, 1e-310, 1e-200, 1e-160, 1e200, 1e305)
	eng.Main(
		&eng.Prop{ID: "R01", Rule: "every pair of vectors over the coordinate set, every operation in value and in-place form; every sequence of in-place and value operations on two live vectors up to the depth, against an integer model",
			Assumptions: []string{exact},
			Scenarios: func(th bool) []eng.Scenario {
				if th {
					return []eng.Scenario{{Name: "pairs", Body: pairs(valsT, pow2(-240, -100, -40, -10, 0, 10, 21, 40, 100, 240))}, {Name: "many digits", Body: linear, Shard: 2}, {Name: "sequences", Body: sequences(6), Shard: 3}}
				}
				return []eng.Scenario{{Name: "pairs", Body: pairs(vals, pow2(-200, -40, 0, 21, 200))}, {Name: "many digits", Body: linear, Shard: 2}, {Name: "sequences", Body: sequences(4), Shard: 3}}
			}},
		&eng.Prop{ID: "R02", Rule: "every direction over a coordinate set at every listed magnitude, value and in-place form; every listed deviation of the length from one",
			Assumptions: []string{"unit length is demanded where squares neither overflow nor underflow; elsewhere only a finite result"},
			Scenarios: func(th bool) []eng.Scenario {
				vs, m := []float64{0, 1, -1, 0.1, -3, 1e-7, 12345}, mags
				if th {
					vs, m = append(vs, -0.7, 1e-12, 1e9), magsT
				}
				return []eng.Scenario{{Name: "directions and magnitudes", Body: normalize(vs, m)}, {Name: "length near one", Body: isUnitBand}}
			}},
		&eng.Prop{ID: "R03", Rule: "every integer line and plane within the grid bounds, at every combination of (exact) direction and normal scale, against the exact rational intersection",
			Scenarios: func(th bool) []eng.Scenario {
				if th {
					return []eng.Scenario{{Name: "lines and planes", Body: linePlane(5, 7, 3, append(pow2(-100, -40, 0, 40, 100), 3))}, {Name: "parallel", Body: linePlane(7, 9, 1, []float64{1, 3, 1. / (1 << 20)})},
						{Name: "grazing", Body: grazing(7, pow2(4, 10, 15, 20, 25, 30))}}
				}
				return []eng.Scenario{{Name: "lines and planes", Body: linePlane(5, 5, 2, []float64{1, math.Ldexp(3, -60), math.Ldexp(1, 60)})}, {Name: "parallel", Body: linePlane(5, 7, 1, []float64{1, 1. / (1 << 20)})},
					{Name: "grazing", Body: grazing(5, pow2(10, 30))}}
			}},
		&eng.Prop{ID: "R04", Rule: "every listed unit normal, plane origin and point on an integer grid at three scales",
			Scenarios: func(th bool) []eng.Scenario {
				k := 5
				if th {
					k = 9
				}
				return []eng.Scenario{{Name: "points and planes", Body: planeDistance(k)}}
			}},
		&eng.Prop{ID: "R05", Rule: "every pair of vectors over the coordinate set, every parameter of the list",
			Assumptions: []string{exact},
			Scenarios: func(th bool) []eng.Scenario {
				if th {
					return []eng.Scenario{{Name: "pairs", Body: interpolate(valsT)}, {Name: "ends", Body: ends}}
				}
				return []eng.Scenario{{Name: "pairs", Body: interpolate(vals)}, {Name: "ends", Body: ends}}
			}},
		&eng.Prop{ID: "R06", Rule: "every triple of integer points within the grid bounds at every scale of the list, against integer arithmetic",
			Assumptions: []string{exact},
			Scenarios: func(th bool) []eng.Scenario {
				if th {
					return []eng.Scenario{{Name: "triples", Body: helpers(5, pow2(-200, -40, 0, 30, 200))}}
				}
				return []eng.Scenario{{Name: "triples", Body: helpers(3, pow2(-40, 0, 30))}}
			}},
	)
}
