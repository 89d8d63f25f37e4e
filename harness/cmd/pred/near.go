package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"

	"geGoMetry/predicates"
	"geGoMetry/r3"
	"verifh/eng"
	"verifh/hx"
)

// exact returns p - origin for each point as integers, all times the same power of two
// (the coordinates are multiples of 2^-560).
func exact(origin r3.Vector, ps ...r3.Vector) [][3]*big.Int {
	num := func(x float64) *big.Int {
		m, e := math.Frexp(x)
		n := big.NewInt(int64(m * (1 << 53)))
		if x != 0 {
			if e-53+560 < 0 {
				panic("coordinate too small for the oracle")
			}
			n.Lsh(n, uint(e-53+560))
		}
		return n
	}
	o := [3]*big.Int{num(origin.X), num(origin.Y), num(origin.Z)}
	var r [][3]*big.Int
	for _, p := range ps {
		q := [3]*big.Int{num(p.X), num(p.Y), num(p.Z)}
		for k := range q {
			q[k].Sub(q[k], o[k])
		}
		r = append(r, q)
	}
	return r
}

func mul(a, b *big.Int) *big.Int { return new(big.Int).Mul(a, b) }
func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func add(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }

func minor(a, b [3]*big.Int, i, j int) *big.Int { return sub(mul(a[i], b[j]), mul(a[j], b[i])) }

func xdet(a, b, c [3]*big.Int) *big.Int {
	return add(sub(mul(a[0], minor(b, c, 1, 2)), mul(a[1], minor(b, c, 0, 2))), mul(a[2], minor(b, c, 0, 1)))
}

func sq(a [3]*big.Int) *big.Int { return add(add(mul(a[0], a[0]), mul(a[1], a[1])), mul(a[2], a[2])) }

// planarSq ignores the third coordinate.
func planarSq(a [3]*big.Int) *big.Int { return add(mul(a[0], a[0]), mul(a[1], a[1])) }

func nudge(x *float64, u int) {
	if u == 0 {
		return
	}
	if *x == 0 {
		*x = float64(u) * 0x1p-60
		return
	}
	*x = math.Nextafter(*x, math.Inf(u))
}

// nudged chooses one coordinate of the points (or none) and moves it by one ulp.
func nudged(t *eng.T, p []r3.Vector, dims int) {
	n := t.Choose(2*dims*len(p) + 1)
	if n == 0 {
		return
	}
	n--
	u := 1 - 2*(n%2)
	n /= 2
	q := &p[n/dims]
	nudge([]*float64{&q.X, &q.Y, &q.Z}[n%dims], u)
}

var (
	anisotropy = []r3.Vector{{X: 0.1, Y: 0.1, Z: 0.1}, {X: 100.1, Y: 0.3, Z: 1.1}, {X: 0.3, Y: 100.1, Z: 0.7}, {X: 1.1, Y: 0.3, Z: 100.1},
		{X: 1e-4 / 3, Y: 1 / 3., Z: 1e3 / 3}, {X: 1e3 / 7, Y: 1e-3 / 7, Z: 1e-3 / 7}, {X: 1e-3 / 7, Y: 1e3 / 7, Z: 1e3 / 7}}
	shifts = []r3.Vector{{}, {X: 0.3, Y: 0.7, Z: -0.1}, {X: -1e3 / 3, Y: 1e2 / 3, Z: 1e3 / 7}}
)

func times(a, b r3.Vector) r3.Vector { return r3.Vector{X: a.X * b.X, Y: a.Y * b.Y, Z: a.Z * b.Z} }

func ordered(t *eng.T, n, k int) []int {
	used := make([]bool, n)
	var r []int
	for i := 0; i < k; i++ {
		c := t.Choose(n - i)
		for j := 0; ; j++ {
			if used[j] {
				continue
			}
			if c == 0 {
				used[j] = true
				r = append(r, j)
				break
			}
			c--
		}
	}
	return r
}

// farCoplanar: points of a plane at very different distances from each other, on axes of
// different scales: the determinant is a rounding error away from zero, and each of the
// products that it is made of dominates in some of the inputs.
func farCoplanar(nudges bool) func(t *eng.T) {
	f, ok := hx.Fn[func(a, b, c, d r3.Vector) float64](predicates.VerifFuncs, "Orient3D")
	planes := [][2]r3.Vector{}
	for _, n := range [][6]float64{{1, 0, 0, 0, 1, 0}, {0, 1, 0, 0, 0, 1}, {0, 0, 1, 1, 0, 0}, {1, 1, 0, 0, 0, 1}, {1, -1, 0, 0, 1, 1}, {1, 0, 1, 0, 1, 0},
		{0, 1, 1, 1, 0, 0}, {1, 2, 3, 3, -1, 2}, {1, 1, 1, 1, -1, 0}, {2, 1, 0, 0, 1, 3}} {
		planes = append(planes, [2]r3.Vector{{X: n[0], Y: n[1], Z: n[2]}, {X: n[3], Y: n[4], Z: n[5]}})
	}
	at := [][2]float64{{1, 0}, {0, 1}, {1, 1}, {1000, 1}, {-1, 1000}, {3, -7}, {999, 1001}, {1, -1}}
	return func(t *eng.T) {
		if !ok {
			t.Skip()
		}
		pl := planes[t.Choose(len(planes))]
		an := anisotropy[t.Choose(len(anisotropy))]
		o := shifts[t.Choose(len(shifts))]
		p := make([]r3.Vector, 4)
		p[3] = o
		for i, k := range ordered(t, len(at), 3) {
			a, b := at[k][0], at[k][1]
			p[i] = times(an, r3.Vector{X: a*pl[0].X + b*pl[1].X, Y: a*pl[0].Y + b*pl[1].Y, Z: a*pl[0].Z + b*pl[1].Z})
			p[i].Add(o)
		}
		if nudges {
			nudged(t, p, 3)
		}
		t.Describe(func() string { return fmt.Sprintf("points %v", p) })
		v := exact(p[3], p[:3]...)
		want := xdet(v[0], v[1], v[2]).Sign()
		var got float64
		t.Must("Orient3D", 100000, func() { got = f(p[0], p[1], p[2], p[3]) })
		if hx.SgnF(got) != want {
			t.Fail("", "Orient3D = %v but the exact sign is %d", got, want)
		}
		t.State(want, hx.SgnF(an.X-an.Y))
	}
}

// farCospherical: points of a sphere through the query, at very different distances from it.
func farCospherical(boxes, nudges bool) func(t *eng.T) {
	f, ok := hx.Fn[scalar15](predicates.VerifFuncs, "inSphere")
	sph, okS := hx.Fn[func(a, b, c, d, e r3.Vector) float64](predicates.VerifFuncs, "InSphere")
	at := [][2]float64{{0.01, 0.3}, {3, 0}, {0, -4}, {100, 3}, {-1, 90}, {70, -80}, {-0.3, -0.01}, {-2, -1}}
	extents := []r3.Vector{{X: 0.1, Y: 0.3, Z: 0.7}, {X: 100. / 3, Y: 0.1, Z: 1. / 3}, {X: 1e-3 / 7, Y: 1e3 / 7, Z: 1e3 / 7}, {X: 1e3 / 7, Y: 1e-3 / 7, Z: 1e-3 / 7}, {X: 1e3 / 7, Y: 1. / 7, Z: 1e-3 / 7}}
	return func(t *eng.T) {
		if !ok && !okS {
			t.Skip()
		}
		p := make([]r3.Vector, 5)
		o := shifts[t.Choose(len(shifts))]
		turn := t.Choose(3)
		if boxes {
			x := extents[t.Choose(len(extents))]
			first := 0
			if !nudges {
				first = t.Choose(8)
			}
			for i, k := range ordered(t, 7, 4) {
				if k >= first {
					k++
				}
				p[i] = r3.Vector{X: float64(k&1) * x.X, Y: float64(k>>1&1) * x.Y, Z: float64(k>>2) * x.Z}
			}
			p[4] = r3.Vector{X: float64(first&1) * x.X, Y: float64(first>>1&1) * x.Y, Z: float64(first>>2) * x.Z}
		} else {
			r := []float64{0.1, 1e3 / 3}[t.Choose(2)]
			for i, k := range ordered(t, len(at), 4) {
				u, v := at[k][0], at[k][1]
				w := 2 * r / (u*u + v*v + 1)
				p[i] = r3.Vector{X: u * w, Y: v * w, Z: w}
			}
		}
		for i := range p {
			switch turn {
			case 1:
				p[i] = r3.Vector{X: p[i].Y, Y: p[i].Z, Z: p[i].X}
			case 2:
				p[i] = r3.Vector{X: p[i].Z, Y: p[i].X, Z: p[i].Y}
			}
			p[i].Add(o)
		}
		if nudges {
			nudged(t, p, 3)
		}
		t.State(judgeSphere(t, p, f, ok, sph, okS), turn)
	}
}

func judgeSphere(t *eng.T, p []r3.Vector, f scalar15, ok bool, sph func(a, b, c, d, e r3.Vector) float64, okS bool) int {
	t.Describe(func() string { return fmt.Sprintf("points %v", p) })
	v := exact(p[4], p[:4]...)
	sum := new(big.Int)
	for i := range v {
		term := mul(sq(v[i]), xdet(v[(i+1)%4], v[(i+2)%4], v[(i+3)%4]))
		if i%2 == 0 {
			sum.Add(sum, term)
		} else {
			sum.Sub(sum, term)
		}
	}
	want := sum.Sign()
	judge := func(name string, g func() float64) {
		var got float64
		t.Must(name, 100000, func() { got = g() })
		if hx.SgnF(got) != want {
			t.Fail("", "%s = %v but the exact sign is %d", name, got, want)
		}
	}
	if ok {
		judge("inSphere", func() float64 {
			return f(p[0].X, p[0].Y, p[0].Z, p[1].X, p[1].Y, p[1].Z, p[2].X, p[2].Y, p[2].Z, p[3].X, p[3].Y, p[3].Z, p[4].X, p[4].Y, p[4].Z)
		})
	}
	if okS {
		judge("InSphere", func() float64 { return sph(p[0], p[1], p[2], p[3], p[4]) })
	}
	return want
}

// tiny: degenerate points of which one coordinate, zero otherwise, is any power of two:
// numbers of every possible distance between their exponents meet in the exact forms.
func tiny(kMax int) func(t *eng.T) {
	f, ok := hx.Fn[scalar15](predicates.VerifFuncs, "inSphere")
	sph, okS := hx.Fn[func(a, b, c, d, e r3.Vector) float64](predicates.VerifFuncs, "InSphere")
	ori, okO := hx.Fn[func(a, b, c, d r3.Vector) float64](predicates.VerifFuncs, "Orient3D")
	sets := [][]r3.Vector{
		{{X: 1}, {Y: 1}, {Z: 1}, {X: -1}, {Y: -1}},
		{{X: 1}, {X: -1}, {Y: -1}, {Z: -1}, {Z: 1}},
		{{X: 1, Y: 1}, {X: 1}, {Z: 1}, {Y: 1, Z: 1}, {}},
		{{X: 2}, {Y: 3}, {X: 2, Z: 5}, {Y: 3, Z: 5}, {Z: 5}},
		{{X: 1}, {Y: 1}, {Z: 1}, {X: 0.5, Y: 0.5}, {X: 1, Y: 1, Z: 1}},
		{{X: 3}, {Y: 3}, {Z: 3}, {X: 1, Z: 2}, {Y: -1, X: 4}},
	}
	return func(t *eng.T) {
		if !ok && !okS && !okO {
			t.Skip()
		}
		p := append([]r3.Vector{}, sets[t.Choose(len(sets))]...)
		i, k := t.Choose(15), 1+t.Choose(kMax)
		sg := float64(1 - 2*t.Choose(2))
		e := []int{0, 140, -100}[t.Choose(3)]
		x := []*float64{&p[i/3].X, &p[i/3].Y, &p[i/3].Z}[i%3]
		if *x != 0 || k-e > kMax {
			t.Skip()
		}
		*x = sg * math.Ldexp(1, -k)
		for j := range p {
			p[j].Scale(math.Ldexp(1, e))
		}
		w := 0
		if ok || okS {
			w = judgeSphere(t, p, f, ok, sph, okS)
		}
		if okO {
			v := exact(p[3], p[:3]...)
			want := xdet(v[0], v[1], v[2]).Sign()
			var got float64
			t.Must("Orient3D", 100000, func() { got = ori(p[0], p[1], p[2], p[3]) })
			if hx.SgnF(got) != want {
				t.Fail("", "Orient3D = %v but the exact sign is %d", got, want)
			}
		}
		t.State(w, k)
	}
}

// planarTiny: the same in the plane
func planarTiny(kMax int) func(t *eng.T) {
	ori, okO := hx.Fn[func(a, b, c r3.Vector) float64](predicates.VerifFuncs, "Orient2D")
	inc, okI := hx.Fn[func(a, b, c, d r3.Vector) float64](predicates.VerifFuncs, "InCircle")
	cmp, okC := hx.Fn[func(o, p, q r3.Vector) float64](predicates.VerifFuncs, "CompareToPoint")
	ord := circleOrder()
	sets := [][]r3.Vector{
		{{X: 1}, {Y: 1}, {X: -1}, {Y: -1}, {}},
		{{}, {X: 1}, {Y: 1}, {X: 1, Y: 1}, {X: 2}},
		{{}, {X: 1, Y: 1}, {X: 3, Y: 3}, {X: 1}, {Y: 1}},
		{{X: 1}, {Y: 1}, {X: 0.5, Y: 0.5}, {X: -3}, {Y: -3}},
		{{}, {X: 3}, {Y: -3}, {X: 3, Y: -3}, {Y: 3}},
	}
	return func(t *eng.T) {
		if !okO && !okI && !okC && ord == nil {
			t.Skip()
		}
		p := append([]r3.Vector{}, sets[t.Choose(len(sets))]...)
		i, k := t.Choose(10), 1+t.Choose(kMax)
		sg := float64(1 - 2*t.Choose(2))
		e := []int{0, 140, -100}[t.Choose(3)]
		x := []*float64{&p[i/2].X, &p[i/2].Y}[i%2]
		if *x != 0 || k-e > kMax {
			t.Skip()
		}
		*x = sg * math.Ldexp(1, -k)
		for j := range p {
			p[j].Scale(math.Ldexp(1, e))
			p[j].Z = float64(j*j) - 3
		}
		judgePlanar(t, p, ori, inc, cmp, ord)
	}
}

// ---- planar predicates (P04)

var planarScales = []r3.Vector{{X: 0.1, Y: 0.1}, {X: 1. / 3, Y: 1e3 / 7}, {X: 1e4 / 3, Y: 1e-3 / 7}, {X: 1, Y: 1}, {X: 1e30 / 3, Y: 1e30 / 3}, {X: 1e-30 / 3, Y: 1e-30 / 3}}

func planarSmall(k int) func(t *eng.T) {
	ori, okO := hx.Fn[func(a, b, c r3.Vector) float64](predicates.VerifFuncs, "Orient2D")
	inc, okI := hx.Fn[func(a, b, c, d r3.Vector) float64](predicates.VerifFuncs, "InCircle")
	cmp, okC := hx.Fn[func(o, p, q r3.Vector) float64](predicates.VerifFuncs, "CompareToPoint")
	ord := circleOrder()
	return func(t *eng.T) {
		if !okO && !okI && !okC && ord == nil {
			t.Skip()
		}
		p := make([]r3.Vector, 5)
		var s r3.Vector
		o := shifts[t.Choose(len(shifts))]
		if c := t.Choose(4); c < 3 {
			s = []r3.Vector{{X: 1, Y: 1}, {X: 0.1, Y: 0.1}, {X: 1e3 / 7, Y: 1. / 3}}[c]
		} else {
			s = r3.Vector{X: 0x1p-70, Y: 0x1p-70}
			if o != shifts[0] {
				t.Skip()
			}
		}
		for i := 1; i < 5; i++ {
			c := t.Choose(k * k)
			if i == 1 && c == 0 {
				t.Skip()
			}
			p[i] = times(s, r3.Vector{X: float64(c / k), Y: float64(c % k)})
		}
		for i := range p {
			p[i].Add(o)
			p[i].Z = float64(i*i) - 3 // the plane predicates ignore it
		}
		judgePlanar(t, p, ori, inc, cmp, ord)
	}
}

type compare = func(i, j int) int

func circleOrder() func(a, b, c r3.Vector, ps []r3.Vector) compare {
	f, ok := predicates.VerifFuncs["NewCircleOrder"]
	if !ok {
		return nil
	}
	v := reflect.ValueOf(f)
	if v.Type().NumIn() != 4 || v.Type().NumOut() != 1 {
		return nil
	}
	if _, ok := v.Type().Out(0).MethodByName("Compare"); !ok {
		return nil
	}
	if v.Type().In(0) != reflect.TypeOf(r3.Vector{}) || v.Type().In(3) != reflect.TypeOf([]r3.Vector{}) {
		return nil
	}
	return func(a, b, c r3.Vector, ps []r3.Vector) compare {
		r := v.Call([]reflect.Value{reflect.ValueOf(a), reflect.ValueOf(b), reflect.ValueOf(c), reflect.ValueOf(ps)})[0]
		m, ok := r.MethodByName("Compare").Interface().(func(i, j int) int)
		if !ok {
			return nil
		}
		return m
	}
}

func judgePlanar(t *eng.T, p []r3.Vector, ori func(a, b, c r3.Vector) float64, inc func(a, b, c, d r3.Vector) float64, cmp func(o, p, q r3.Vector) float64, ord func(a, b, c r3.Vector, ps []r3.Vector) compare) {
	t.Describe(func() string { return fmt.Sprintf("points %v", p) })
	sign := func(name string, want int, g func() float64) {
		var got float64
		t.Must(name, 100000, func() { got = g() })
		if hx.SgnF(got) != want {
			t.Fail("", "%s = %v but the exact sign is %d", name, got, want)
		}
	}
	v := exact(p[0], p[1:]...)
	if ori != nil {
		sign("Orient2D", minor(v[0], v[1], 0, 1).Sign(), func() float64 { return ori(p[0], p[1], p[2]) })
	}
	if inc != nil {
		w := exact(p[3], p[:3]...)
		sum := new(big.Int)
		for i := range w {
			sum.Add(sum, mul(planarSq(w[i]), minor(w[(i+1)%3], w[(i+2)%3], 0, 1)))
		}
		sign("InCircle", sum.Sign(), func() float64 { return inc(p[0], p[1], p[2], p[3]) })
	}
	if cmp != nil {
		sign("CompareToPoint", planarSq(v[0]).Cmp(planarSq(v[1])), func() float64 { return cmp(p[0], p[1], p[2]) })
	}
	if ord != nil {
		// relative to p0, the centre is c / (2 d) with d = v0 x v1
		d := minor(v[0], v[1], 0, 1)
		l0, l1 := planarSq(v[0]), planarSq(v[1])
		cx := sub(mul(l0, v[1][1]), mul(l1, v[0][1]))
		cy := sub(mul(l1, v[0][0]), mul(l0, v[1][0]))
		pts := append(append([]r3.Vector{}, p...), p[4])
		at := append([][3]*big.Int{{new(big.Int), new(big.Int), new(big.Int)}}, v...)
		at = append(at, v[3])
		power := make([]*big.Int, len(pts))
		for i, a := range at {
			power[i] = sub(mul(planarSq(a), d), add(mul(a[0], cx), mul(a[1], cy)))
			if d.Sign() < 0 {
				power[i].Neg(power[i])
			} else if d.Sign() == 0 {
				power[i].SetInt64(0)
			}
		}
		before := append([]r3.Vector{}, pts...)
		var m compare
		t.Must("NewCircleOrder", 100000, func() { m = ord(p[0], p[1], p[2], pts) })
		if m != nil {
			// the answers do not depend on the order of the questions
			for k := 0; k < len(pts)*len(pts); k++ {
				i, j := k/len(pts), k%len(pts)
				var got int
				t.Must("Compare", 100000, func() { got = m(i, j) })
				if want := power[i].Cmp(power[j]); hx.Sgn(int64(got)) != want {
					t.Fail("", "for the circle through the first three of %v, Compare(%d, %d) = %d but the exact order is %d", pts, i, j, got, want)
				}
			}
			for i := range pts {
				if before[i] != pts[i] {
					t.Fail("", "NewCircleOrder changed its points")
				}
			}
		}
	}
	t.State(minor(v[0], v[1], 0, 1).Sign(), planarSq(v[0]).Cmp(planarSq(v[1])))
}

// planarNear: collinear or concyclic points, or points as far from the first one as each
// other, at very different distances, moved by at most an ulp.
func planarNear(kind int, nudges bool) func(t *eng.T) {
	ori, okO := hx.Fn[func(a, b, c r3.Vector) float64](predicates.VerifFuncs, "Orient2D")
	inc, okI := hx.Fn[func(a, b, c, d r3.Vector) float64](predicates.VerifFuncs, "InCircle")
	cmp, okC := hx.Fn[func(o, p, q r3.Vector) float64](predicates.VerifFuncs, "CompareToPoint")
	ord := circleOrder()
	lines := []float64{0, 1, 3, -2. / 7}
	along := []float64{1, -1, 3, 1000, 1001, -999, 0.01, 7}
	onCircle := []float64{0, 0.01, -0.3, 1, 3, -7, 100, -90}
	turns := []r3.Vector{{X: 3, Y: 4}, {X: 5}, {Y: -5}, {X: -4, Y: 3}, {X: -5}, {X: 4, Y: -3}, {X: 1.4, Y: 4.8}}
	return func(t *eng.T) {
		if !okO && !okI && !okC && ord == nil {
			t.Skip()
		}
		s := planarScales[t.Choose(len(planarScales))]
		o := shifts[t.Choose(len(shifts))]
		if s.X > 1e20 {
			o.Scale(1e30)
		} else if s.X < 1e-20 {
			o.Scale(1e-30)
		}
		p := make([]r3.Vector, 5)
		switch kind {
		case 0: // collinear, in some order
			d := lines[t.Choose(len(lines))]
			swap := t.Choose(2) == 1
			for i, k := range ordered(t, len(along), 3) {
				p[i+1] = r3.Vector{X: along[k], Y: along[k] * d}
				if swap {
					p[i+1].X, p[i+1].Y = p[i+1].Y, p[i+1].X
				}
				p[i+1] = times(s, p[i+1])
			}
			p[4] = times(s, r3.Vector{X: 1, Y: 2})
		case 1: // on a circle through the fourth
			for i, k := range ordered(t, len(onCircle), 4) {
				u := onCircle[k]
				w := 2 * s.Y / (u*u + 1)
				j := []int{0, 1, 2, 4}[i]
				p[j] = r3.Vector{X: u * w, Y: w}
			}
			if t.Choose(2) == 1 {
				for i := range p {
					p[i].X, p[i].Y = p[i].Y, -p[i].X
				}
			}
		case 2: // around the first
			for i, k := range ordered(t, len(turns), 4) {
				p[i+1] = turns[k]
				p[i+1].Scale(s.X)
			}
		case 3: // around the centre of the circle of the first three
			for i, k := range ordered(t, len(turns), 5) {
				p[i] = turns[k]
				p[i].Scale(s.X)
			}
		}
		for i := range p {
			p[i].Add(o)
			p[i].Z = float64(i*i) - 3
		}
		order := ord
		if nudges {
			nudged(t, p, 2)
			if kind == 0 {
				order = nil // no circle, or one of nearly infinite radius: judged without nudges
			}
		}
		judgePlanar(t, p, ori, inc, cmp, order)
	}
}
