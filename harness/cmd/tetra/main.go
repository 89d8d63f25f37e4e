// Harness for packages meshing (Bowyer-Watson) and triangulate3.
package main

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"

	mesh "geGoMetry/meshing"
	"geGoMetry/r3"
	"geGoMetry/shape"
	tri3 "geGoMetry/triangulate3"
	"verifh/eng"
	"verifh/hx"
	rt "verifrt"
)

const budget = 50_000_000

type bwFn = func(...r3.Vector) []int

var bowyerWatson, haveBW = hx.Fn[bwFn](mesh.VerifFuncs, "bowyerWatson")

func vecs(ps []hx.I) []r3.Vector {
	v := make([]r3.Vector, len(ps))
	for i, p := range ps {
		v[i] = p.V()
	}
	return v
}

func triple(a, b, c int) [3]int {
	t := []int{a, b, c}
	sort.Ints(t)
	return [3]int{t[0], t[1], t[2]}
}

// emptySphere: some sphere through a, b, c has none of ps strictly inside.
func emptySphere(a, b, c hx.I, ps []hx.I) bool {
	u, v := b.Sub(a), c.Sub(a)
	n := hx.Cross(u, v)
	nn := hx.Dot(n, n)
	nu, vn := hx.Cross(n, u), hx.Cross(v, n)
	var w hx.I // w/(2 nn) is the circumcentre of the triangle, relative to a
	for k := range w {
		w[k] = hx.Dot(v, v)*nu[k] + hx.Dot(u, u)*vn[k]
	}
	// centres a + w/(2nn) + T n/(2nn): d is strictly inside iff T*s > K
	haveLo, haveHi := false, false
	var loK, loS, hiK, hiS int64 // K/s as fractions with positive denominators
	for _, p := range ps {
		d := p.Sub(a)
		s := hx.Dot(d, n)
		k := hx.Dot(d, d)*nn - hx.Dot(d, w)
		switch {
		case s == 0:
			if k < 0 {
				return false
			}
		case s > 0: // T <= k/s
			if !haveHi || less(k, s, hiK, hiS) {
				haveHi, hiK, hiS = true, k, s
			}
		default: // T >= k/s
			if !haveLo || less(loK, loS, -k, -s) {
				haveLo, loK, loS = true, -k, -s
			}
		}
	}
	return !haveLo || !haveHi || !less(hiK, hiS, loK, loS)
}

// less: a/b < c/d, with b, d > 0
func less(a, b, c, d int64) bool {
	if m := int64(1) << 30; a < m && a > -m && b < m && c < m && c > -m && d < m {
		return a*d < c*b
	}
	x, y := new(big.Int).Mul(big.NewInt(a), big.NewInt(d)), new(big.Int).Mul(big.NewInt(c), big.NewInt(b))
	return x.Cmp(y) < 0
}

type gen = func(t *eng.T) []hx.I

func gridPoint(c, k int) hx.I {
	return hx.I{int64(c / (k * k)), int64(c / k % k), int64(c % k)}
}

// subsets of a w x h x d grid, in several orders
func subsets(w, h, d, orders int) gen {
	return func(t *eng.T) []hx.I {
		bits := w * h * d
		m := 0
		for bits > 12 {
			m = m<<4 | t.Choose(16)
			bits -= 4
		}
		m = m<<bits | t.Choose(1<<bits)
		var ps []hx.I
		for i := 0; i < w*h*d; i++ {
			if m>>i&1 == 1 {
				ps = append(ps, hx.I{int64(i % w), int64(i / w % h), int64(i / w / h)})
			}
		}
		return reorder(ps, t.Choose(orders))
	}
}

// sets of exactly n points of a k-grid, as increasing sequences
func combos(k, n, orders int) gen {
	return func(t *eng.T) []hx.I {
		total := k * k * k
		var ps []hx.I
		at := 0
		for i := 0; i < n; i++ {
			room := total - (n - i - 1) - at
			at += t.Choose(room)
			ps = append(ps, gridPoint(at, k))
			at++
		}
		return reorder(ps, t.Choose(orders))
	}
}

// ordered tuples, repetitions included
func tuples(k, n int) gen {
	return func(t *eng.T) []hx.I {
		var ps []hx.I
		for l := t.Choose(n + 1); l > 0; l-- {
			ps = append(ps, gridPoint(t.Choose(k*k*k), k))
		}
		return ps
	}
}

func reorder(ps []hx.I, how int) []hx.I {
	n := len(ps)
	var q []hx.I
	switch how {
	case 0:
		return ps
	case 1:
		for i := n - 1; i >= 0; i-- {
			q = append(q, ps[i])
		}
	case 2:
		for i := 0; i < n; i += 2 {
			q = append(q, ps[i])
		}
		for i := 1; i < n; i += 2 {
			q = append(q, ps[i])
		}
	}
	return q
}

// larger regular families
func families(sizes []int, mult int) gen {
	return func(t *eng.T) []hx.I {
		kind := t.Choose(7)
		n := sizes[t.Choose(len(sizes))]
		var ps []hx.I
		switch kind {
		case 0: // lattice rule
			a, b := int64(2+t.Choose(mult)), int64(3+t.Choose(mult))
			m := int64(2*n + 3)
			for i := int64(1); i <= int64(n); i++ {
				ps = append(ps, hx.I{i, i * a % m, i * i % m * b % m})
			}
		case 1: // grid
			w := 2 + t.Choose(3)
			h := 2 + t.Choose(2)
			for i := 0; i < n; i++ {
				ps = append(ps, hx.I{int64(i % w), int64(i / w % h), int64(i / w / h)})
			}
		case 2: // points of one sphere, perhaps with its centre
			r := []int64{3, 9, 14, 26, 50}[t.Choose(5)]
			for x := int64(-7); x <= 7; x++ {
				for y := int64(-7); y <= 7; y++ {
					for z := int64(-7); z <= 7; z++ {
						if x*x+y*y+z*z == r && len(ps) < n {
							ps = append(ps, hx.I{x, y, z})
						}
					}
				}
			}
			if t.Choose(2) == 1 {
				ps = append(ps, hx.I{0, 0, 0})
			}
		case 3: // coplanar, perhaps with one point off the plane
			w := 2 + t.Choose(3)
			u, v := hx.I{1, 0, int64(t.Choose(2))}, hx.I{0, 1, int64(t.Choose(2))}
			for i := 0; i < n; i++ {
				x, y := int64(i%w), int64(i/w)
				ps = append(ps, hx.I{x*u[0] + y*v[0], x*u[1] + y*v[1], x*u[2] + y*v[2]})
			}
			if k := t.Choose(4); k > 0 {
				ps = append(ps, hx.I{int64(k - 1), 1, int64(3*k - 5)})
			}
		case 4: // collinear
			d := []hx.I{{1, 0, 0}, {0, 0, 1}, {1, 2, -1}}[t.Choose(3)]
			for i := int64(0); i < int64(n); i++ {
				ps = append(ps, hx.I{i * d[0], i * d[1], i * d[2]})
			}
		case 5: // two small clusters
			g := int64(3 + 4*t.Choose(mult))
			for i := int64(0); i < int64(n); i++ {
				x, y, z := i/2%2, i/4%2, i/8%3
				if i%2 == 0 {
					ps = append(ps, hx.I{x, y, z})
				} else {
					ps = append(ps, hx.I{g + z, x, 2*y + 1})
				}
			}
		case 6: // a moment curve: every pair of points an edge
			if n > 7 {
				n = 7
			}
			for i := int64(0); i < int64(n); i++ {
				x := i - int64(n)/2
				ps = append(ps, hx.I{x, x * x, x * x * x})
			}
		}
		return reorder(ps, t.Choose(3))
	}
}

func describe(t *eng.T, ps []hx.I) {
	t.Describe(func() string { return fmt.Sprintf("points %v", coords(ps)) })
}

// frames: exact placements (powers of two, integer offsets) in which the code's determinants of small integers
// remain exact.
var frames = []struct {
	s float64
	o r3.Vector
}{{1, r3.Vector{}}, {0x1p-100, r3.Vector{}}, {0x1p100, r3.Vector{}}, {0x1p-30, r3.Vector{}}, {1, r3.Vector{X: 1 << 20, Y: -3 << 20, Z: 1001}}, {0x1p-12, r3.Vector{X: -1000, Y: 7, Z: 4000}}}

// similar: inexact placements (rotation, reflection, scale, offset), for sets in general position only.
func similar(p r3.Vector, how int) r3.Vector {
	type m = [3]float64
	rot := func(a, b, c m, k float64, o r3.Vector) r3.Vector {
		d := func(u m) float64 { return k * (u[0]*p.X + u[1]*p.Y + u[2]*p.Z) }
		return r3.Vector{X: d(a) + o.X, Y: d(b) + o.Y, Z: d(c) + o.Z}
	}
	switch how {
	case 0: // inexact scale
		return rot(m{1}, m{0, 1}, m{0, 0, 1}, 0.1, r3.Vector{})
	case 1: // a rotation with rational entries
		return rot(m{2. / 3, -1. / 3, 2. / 3}, m{2. / 3, 2. / 3, -1. / 3}, m{-1. / 3, 2. / 3, 2. / 3}, 1, r3.Vector{})
	case 2: // about an oblique axis, large, away from the origin
		return rot(m{0.36, 0.48, -0.8}, m{-0.8, 0.6, 0}, m{0.48, 0.64, 0.6}, 1e7/3, r3.Vector{X: -1e7, Y: 3e6, Z: 0.3})
	case 3: // mirrored, small
		return rot(m{-0.6, 0, 0.8}, m{0, 1, 0}, m{0.8, 0, 0.6}, 1e-9, r3.Vector{X: 1e-9 / 7})
	case 4:
		c, s := math.Cos(1), math.Sin(1)
		return rot(m{c, -s * c, s * s}, m{s, c * c, -c * s}, m{0, s, c}, 1e-40, r3.Vector{})
	}
	return p
}

// generic: no two points equal, no three collinear, no four coplanar, no five on a sphere.
func generic(ps []hx.I) bool {
	n := len(ps)
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			for k := j + 1; k < n; k++ {
				if (hx.Cross(ps[j].Sub(ps[i]), ps[k].Sub(ps[i])) == hx.I{}) {
					return false
				}
				for l := k + 1; l < n; l++ {
					if hx.Orient(ps[i], ps[j], ps[k], ps[l]) == 0 {
						return false
					}
					for m := l + 1; m < n; m++ {
						if hx.InSphere(ps[i], ps[j], ps[k], ps[l], ps[m]) == 0 {
							return false
						}
					}
				}
			}
		}
	}
	return true
}

// framed places a generator's points in one of the first n frames; similarly, in general position, in every
// inexact placement.
func framed(g gen, n int) gen {
	return func(t *eng.T) []hx.I {
		ps := g(t)
		pl := frames[t.Choose(n)]
		in := make([]r3.Vector, len(ps))
		for i, p := range ps {
			in[i] = p.VS(pl.s, pl.o)
		}
		cur = in
		return ps
	}
}

func similarly(g gen, hows ...int) gen {
	if hows == nil {
		hows = []int{0, 1, 2, 3, 4}
	}
	return func(t *eng.T) []hx.I {
		ps := g(t)
		if !generic(ps) {
			t.Skip()
		}
		how := hows[t.Choose(len(hows))]
		in := make([]r3.Vector, len(ps))
		for i, p := range ps {
			in[i] = similar(p.V(), how)
		}
		cur = in
		return ps
	}
}

// cur: the coordinates of the points of this execution, when they are not the integers themselves.
var cur []r3.Vector

func draw(t *eng.T, g gen) []hx.I {
	cur = nil
	return g(t)
}

func coords(ps []hx.I) []r3.Vector {
	if len(cur) == len(ps) && len(ps) > 0 {
		return cur
	}
	return vecs(ps)
}

func runBW(t *eng.T, ps []hx.I) []int {
	if !haveBW {
		t.Skip()
	}
	in := roomy(coords(ps))
	keep := append([]r3.Vector{}, in...)
	var out []int
	t.Must("bowyerWatson", budget, func() { out = bowyerWatson(in...) })
	for i := range keep {
		if in[i] != keep[i] {
			t.Fail("", "the triangulation modified its input (point %d)", i)
		}
	}
	untouched(t, in)
	return out
}

// roomy: a copy of v with other points of the caller's behind it, in the same memory
func roomy(v []r3.Vector) []r3.Vector {
	if v == nil {
		return nil
	}
	w := append(make([]r3.Vector, 0, len(v)+8), v...)
	for i := len(w); i < cap(w); i++ {
		w[:cap(w)][i] = r3.Vector{X: 1e9, Y: float64(i)}
	}
	return w
}

func untouched(t *eng.T, w []r3.Vector) {
	for i := len(w); i < cap(w); i++ {
		if (w[:cap(w)][i] != r3.Vector{X: 1e9, Y: float64(i)}) {
			t.Fail("", "the caller's memory behind the points was overwritten")
		}
	}
}

// faces checks the shape of the output and returns the triangles with counts.
func faces(t *eng.T, ps []hx.I, out []int) map[[3]int]int {
	if len(out)%3 != 0 {
		t.Fail("", "%d indices, not triples", len(out))
	}
	m := map[[3]int]int{}
	for i := 0; i+2 < len(out); i += 3 {
		for _, x := range out[i : i+3] {
			if x < 0 || x >= len(ps) {
				t.Fail("", "the output refers to point %d of %d", x, len(ps))
			}
		}
		m[triple(out[i], out[i+1], out[i+2])]++
	}
	return m
}

func checkFaces(t *eng.T, ps []hx.I, m map[[3]int]int) {
	at := map[hx.I]int{}
	for f, k := range m {
		a, b, c := ps[f[0]], ps[f[1]], ps[f[2]]
		for _, i := range f {
			if j, ok := at[ps[i]]; ok && i != j {
				t.Fail("", "two copies %d and %d of one point are both used", i, j)
			}
			at[ps[i]] = i
		}
		if (hx.Cross(b.Sub(a), c.Sub(a)) == hx.I{}) {
			t.Fail("", "the triangle %v %v %v is degenerate", a, b, c)
		}
		if k != 2 {
			t.Fail("", "the triangle %v %v %v is listed %d times, not once for each side", a, b, c, k)
		}
		if !emptySphere(a, b, c, ps) {
			t.Fail("", "the triangle %v %v %v is not Delaunay: every sphere through it has a point inside", a, b, c)
		}
	}
}

func delaunay(g gen) func(t *eng.T) {
	return func(t *eng.T) {
		ps := draw(t, g)
		describe(t, ps)
		m := faces(t, ps, runBW(t, ps))
		checkFaces(t, ps, m)
		t.State(len(ps), len(m), hash(m, ps))
	}
}

func hash(m map[[3]int]int, ps []hx.I) string {
	var l []string
	for f := range m {
		k := []string{fmt.Sprint(ps[f[0]]), fmt.Sprint(ps[f[1]]), fmt.Sprint(ps[f[2]])}
		sort.Strings(k)
		l = append(l, fmt.Sprint(k))
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

// ball is the circumscribing ball of a tetrahedron.
func ball(a, b, c, d r3.Vector) (x, y, z, r float64) {
	sub := func(p, q r3.Vector) [3]float64 { return [3]float64{p.X - q.X, p.Y - q.Y, p.Z - q.Z} }
	dot := func(p, q [3]float64) float64 { return p[0]*q[0] + p[1]*q[1] + p[2]*q[2] }
	cross := func(p, q [3]float64) [3]float64 {
		return [3]float64{p[1]*q[2] - p[2]*q[1], p[2]*q[0] - p[0]*q[2], p[0]*q[1] - p[1]*q[0]}
	}
	u, v, w := sub(b, a), sub(c, a), sub(d, a)
	vw, wu, uv := cross(v, w), cross(w, u), cross(u, v)
	k := 1 / (2 * dot(u, vw))
	var q [3]float64
	for i := range q {
		q[i] = (dot(u, u)*vw[i] + dot(v, v)*wu[i] + dot(w, w)*uv[i]) * k
	}
	return a.X + q[0], a.Y + q[1], a.Z + q[2], math.Sqrt(dot(q, q))
}

// complete: tetrahedra with a strictly empty sphere that stays near the points
// have all their faces in the output.
func complete(g gen) func(t *eng.T) {
	return func(t *eng.T) {
		ps := draw(t, g)
		describe(t, ps)
		var q []hx.I
		var qv []r3.Vector
		seen := map[hx.I]bool{}
		in := coords(ps)
		for i, p := range ps {
			if !seen[p] {
				seen[p] = true
				q = append(q, p)
				qv = append(qv, in[i])
			}
		}
		out := runBW(t, ps)
		m := faces(t, ps, out)
		have := map[[3]hx.I]bool{}
		for f := range m {
			have[key(ps[f[0]], ps[f[1]], ps[f[2]])] = true
		}
		lo, hi := [3]float64{}, [3]float64{}
		size := 0.0
		for k := 0; k < 3; k++ {
			for i, p := range qv {
				x := [3]float64{p.X, p.Y, p.Z}[k]
				if i == 0 || x < lo[k] {
					lo[k] = x
				}
				if i == 0 || x > hi[k] {
					hi[k] = x
				}
			}
			size = math.Max(size, hi[k]-lo[k])
		}
		found := 0
		qs := append([]hx.I{}, q...)
		for i := range q {
			for j := i + 1; j < len(q); j++ {
				for k := j + 1; k < len(q); k++ {
					for l := k + 1; l < len(q); l++ {
						a, b, c, d := q[i], q[j], q[k], q[l]
						if hx.Orient(a, b, c, d) == 0 || !strictlyEmpty(a, b, c, d, qs) {
							continue
						}
						x, y, z, r := ball(qv[i], qv[j], qv[k], qv[l])
						ok := true
						for ax, v := range []float64{x, y, z} {
							if v-r < lo[ax]-size*(1-1e-9) || v+r > hi[ax]+size*(1-1e-9) {
								ok = false
							}
						}
						if !ok {
							continue
						}
						found++
						for _, f := range [][3]hx.I{key(a, b, c), key(a, b, d), key(a, c, d), key(b, c, d)} {
							if !have[f] {
								t.Fail("", "the face %v of the Delaunay tetrahedron %v %v %v %v is missing", f, a, b, c, d)
							}
						}
					}
				}
			}
		}
		t.State(len(q), found, len(m))
	}
}

// strictlyEmpty: no other point is inside or on the sphere. A point that falsifies it moves to the front of q,
// where it is likely to falsify the next.
func strictlyEmpty(a, b, c, d hx.I, q []hx.I) bool {
	o := hx.Sgn(hx.Orient(a, b, c, d))
	for i, p := range q {
		if p == a || p == b || p == c || p == d {
			continue
		}
		if hx.Sgn(hx.InSphere(a, b, c, d, p))*o <= 0 {
			q[i/2], q[i] = q[i], q[i/2]
			return false
		}
	}
	return true
}

func key(a, b, c hx.I) [3]hx.I {
	k := []hx.I{a, b, c}
	sort.Slice(k, func(i, j int) bool {
		for x := 0; x < 3; x++ {
			if k[i][x] != k[j][x] {
				return k[i][x] < k[j][x]
			}
		}
		return false
	})
	return [3]hx.I{k[0], k[1], k[2]}
}

// mapOrder: the result is the same set for every order in which maps are walked.
func mapOrder(g gen, policies bool) func(t *eng.T) {
	return func(t *eng.T) {
		ps := draw(t, g)
		describe(t, ps)
		rt.MapChoice = nil
		base := faces(t, ps, runBW(t, ps))
		if policies {
			p := t.Choose(4)
			k := 0
			rt.MapChoice = func(n int) int {
				k++
				switch p {
				case 0:
					return n - 1
				case 1:
					return k % n
				case 2:
					return n / 2
				}
				return (k * 7919) % n
			}
		} else {
			rt.MapChoice = func(n int) int { return t.Dev(n) }
		}
		m := faces(t, ps, runBW(t, ps))
		rt.MapChoice = nil
		if !reflect.DeepEqual(base, m) {
			t.Fail("", "the triangles depend on the order in which maps are walked: %v, and %v", base, m)
		}
		checkFaces(t, ps, m)
		t.State(hash(m, ps))
	}
}

// allMapOrders explores every map order (no bound) for very small sets.
func allMapOrders(g gen) func(t *eng.T) {
	return func(t *eng.T) {
		ps := draw(t, g)
		describe(t, ps)
		rt.MapChoice = nil
		base := faces(t, ps, runBW(t, ps))
		rt.MapChoice = func(n int) int { return t.Choose(n) }
		m := faces(t, ps, runBW(t, ps))
		rt.MapChoice = nil
		if !reflect.DeepEqual(base, m) {
			t.Fail("", "the triangles depend on the order in which maps are walked: %v, and %v", base, m)
		}
		t.State(hash(m, ps))
	}
}

// pointOrder: in general position the result does not depend on the order of
// the points.
func pointOrder(g gen) func(t *eng.T) {
	return func(t *eng.T) {
		ps := draw(t, g)
		// general position: no two equal, no four coplanar, no five on a sphere
		for i := range ps {
			for j := i + 1; j < len(ps); j++ {
				if ps[i] == ps[j] {
					t.Skip()
				}
				for k := j + 1; k < len(ps); k++ {
					for l := k + 1; l < len(ps); l++ {
						if hx.Orient(ps[i], ps[j], ps[k], ps[l]) == 0 {
							t.Skip()
						}
						for m := l + 1; m < len(ps); m++ {
							if hx.InSphere(ps[i], ps[j], ps[k], ps[l], ps[m]) == 0 {
								t.Skip()
							}
						}
					}
				}
			}
		}
		base := hash(faces(t, ps, runBW(t, ps)), ps)
		left, leftIn := append([]hx.I{}, ps...), append([]r3.Vector{}, coords(ps)...)
		var q []hx.I
		var qIn []r3.Vector
		for len(left) > 0 {
			i := t.Choose(len(left))
			q, qIn = append(q, left[i]), append(qIn, leftIn[i])
			left, leftIn = append(left[:i], left[i+1:]...), append(leftIn[:i], leftIn[i+1:]...)
		}
		t.Describe(func() string { return fmt.Sprintf("points %v, and %v", coords(ps), qIn) })
		cur = qIn
		if got := hash(faces(t, q, runBW(t, q)), q); got != base {
			t.Fail("", "the triangles depend on the order of the points: %v, and %v", base, got)
		}
		t.State(base)
	}
}

// ---- englobing tetrahedra

func rat(v r3.Vector) [3]*big.Rat { return [3]*big.Rat{hx.R(v.X), hx.R(v.Y), hx.R(v.Z)} }

func ratOrient(a, b, c, d r3.Vector) int {
	A, B, C, D := rat(a), rat(b), rat(c), rat(d)
	var m [][]*big.Rat
	for _, p := range [][3]*big.Rat{B, C, D} {
		m = append(m, []*big.Rat{new(big.Rat).Sub(p[0], A[0]), new(big.Rat).Sub(p[1], A[1]), new(big.Rat).Sub(p[2], A[2])})
	}
	return hx.RDet(m).Sign()
}

// strictlyInside, decided exactly
func strictlyInside(v [4]r3.Vector, p r3.Vector) bool {
	for k := 0; k < 4; k++ {
		f := []r3.Vector{}
		for j := 0; j < 4; j++ {
			if j != k {
				f = append(f, v[j])
			}
		}
		s, q := ratOrient(f[0], f[1], f[2], v[k]), ratOrient(f[0], f[1], f[2], p)
		if s == 0 || s != q {
			return false
		}
	}
	return true
}

var scales = []struct {
	s float64
	o r3.Vector
}{
	{1, r3.Vector{}}, {1, r3.Vector{X: -7, Y: -9, Z: -11}}, {1. / 8, r3.Vector{X: 100, Y: -200, Z: 50}},
	{1000, r3.Vector{X: -1, Y: -5000, Z: 3}}, {1 << 20, r3.Vector{X: 0, Y: 1 << 30, Z: 0}}, {1. / 1024, r3.Vector{X: -3, Y: -3, Z: -3}},
	{0x1p-100, r3.Vector{}}, {0x1p100, r3.Vector{}}, {0x1p-40, r3.Vector{}}, {0x1p-60, r3.Vector{X: 1, Y: 1e6, Z: -3}}, {0x1p-30, r3.Vector{X: 1e15}}, {0x1p300, r3.Vector{}}, {0x1p-1000, r3.Vector{Z: 1}}, {0x1p900, r3.Vector{}}, {1e-3, r3.Vector{X: 5, Y: -5, Z: 0.1}},
}

const exactScales = 9

func placed(t *eng.T, ps []hx.I, n int) []r3.Vector {
	pl := scales[t.Choose(n)]
	st := []hx.I{{1, 1, 1}, {1, 50, 1}, {1, 1, 1000}}[t.Choose(3)]
	var v []r3.Vector
	for _, p := range ps {
		q := hx.I{p[0] * st[0], p[1] * st[1], p[2] * st[2]}
		v = append(v, q.VS(pl.s, pl.o))
	}
	return v
}

func englobes(g gen) func(t *eng.T) {
	return func(t *eng.T) {
		ps := draw(t, g)
		if len(ps) == 0 {
			t.Skip()
		}
		in := placed(t, ps, len(scales))
		t.Describe(func() string { return fmt.Sprintf("points %v", in) })
		f := reflect.ValueOf(mesh.VerifFuncs["englobe"])
		if !f.IsValid() || f.Type().NumIn() != 1 || f.Type().In(0) != reflect.TypeOf(&in) {
			t.Skip()
		}
		pts := roomy(in)
		first := pts
		var res []reflect.Value
		t.Must("englobe", budget, func() { res = f.Call([]reflect.Value{reflect.ValueOf(&pts)}) })
		for i := range in {
			if first[i] != in[i] {
				t.Fail("", "englobe overwrote the caller's point %d", i)
			}
		}
		untouched(t, first)
		if len(pts) != len(in)+4 {
			t.Fail("", "englobe leaves %d points of %d, want 4 more", len(pts), len(in))
		}
		for i := range in {
			if pts[i+4] != in[i] {
				t.Fail("", "after englobe, point %d is not at place %d", i, i+4)
			}
		}
		ix := [4]int{0, 1, 2, 3}
		if len(res) == 1 && res[0].Kind() == reflect.Struct {
			for k, name := range []string{"ia", "ib", "ic", "id"} {
				if x := res[0].FieldByName(name); x.IsValid() && x.Kind() == reflect.Int {
					ix[k] = int(x.Int())
				}
			}
		}
		var v [4]r3.Vector
		for k, i := range ix {
			if i < 0 || i > 3 {
				t.Fail("", "the tetrahedron's vertex %d is point %d, not one of the four added", k, i)
			}
			v[k] = pts[i]
		}
		for i, p := range in {
			if !strictlyInside(v, p) {
				t.Fail("", "the point %d = %v is not inside the initial tetrahedron %v", i, p, v)
			}
		}
		t.State(fmt.Sprint(v))
	}
}

func englobing3(g gen) func(t *eng.T) {
	f, ok := hx.Fn[func([]r3.Vector) shape.Mesh](tri3.VerifFuncs, "constructEnglobingTetra")
	bb, okb := hx.Fn[func([]r3.Vector) (r3.Vector, r3.Vector)](tri3.VerifFuncs, "computeBoundingBoxForVectors")
	return func(t *eng.T) {
		ps := draw(t, g)
		if len(ps) == 0 {
			t.Skip()
		}
		in := placed(t, ps, len(scales))
		overflow := false // the squares of the coordinates overflow: only the bounding box is promised
		for _, p := range in {
			overflow = overflow || math.IsInf(r3.Dot(p, p)*1e6, 0)
		}
		if t.Choose(2) == 1 {
			for i := range in {
				in[i] = in[i].Scaled(-1)
			}
		}
		in = roomy(in)
		keep := append([]r3.Vector{}, in...)
		t.Describe(func() string { return fmt.Sprintf("points %v", in) })
		if okb {
			var lo, hi r3.Vector
			t.Must("computeBoundingBoxForVectors", budget, func() { lo, hi = bb(in) })
			wl, wh := in[0], in[0]
			for _, p := range in {
				wl = r3.Vector{X: math.Min(wl.X, p.X), Y: math.Min(wl.Y, p.Y), Z: math.Min(wl.Z, p.Z)}
				wh = r3.Vector{X: math.Max(wh.X, p.X), Y: math.Max(wh.Y, p.Y), Z: math.Max(wh.Z, p.Z)}
			}
			if lo != wl || hi != wh {
				t.Fail("", "the bounding box is %v .. %v, want %v .. %v", lo, hi, wl, wh)
			}
		}
		if ok && !overflow {
			var m shape.Mesh
			t.Must("constructEnglobingTetra", budget, func() { m = f(in) })
			if len(m.Vertices) != 4 || len(m.Indices) != 12 {
				t.Fail("", "%d vertices and %d indices, not a tetrahedron", len(m.Vertices), len(m.Indices))
			}
			fc := map[[3]int]bool{}
			for i := 0; i < 12; i += 3 {
				k := triple(int(m.Indices[i]), int(m.Indices[i+1]), int(m.Indices[i+2]))
				if k[0] == k[1] || k[1] == k[2] || k[2] > 3 {
					t.Fail("", "face %v", k)
				}
				fc[k] = true
			}
			if len(fc) != 4 {
				t.Fail("", "%d different faces, not 4", len(fc))
			}
			v := [4]r3.Vector{m.Vertices[0], m.Vertices[1], m.Vertices[2], m.Vertices[3]}
			for i, p := range in {
				if !strictlyInside(v, p) {
					t.Fail("", "the point %d = %v is not inside the englobing tetrahedron %v", i, p, v)
				}
			}
			t.State(fmt.Sprint(v))
		}
		for i := range in {
			if in[i] != keep[i] {
				t.Fail("", "the input was modified (point %d)", i)
			}
		}
		untouched(t, in)
	}
}

func initial3(g gen) func(t *eng.T) {
	f, ok := hx.Fn[func([]r3.Vector) []r3.Vector](tri3.VerifFuncs, "createInitialTetra")
	return func(t *eng.T) {
		ps := draw(t, g)
		if !ok || len(ps) < 4 {
			t.Skip()
		}
		flat := true
		for i := range ps {
			for j := i + 1; j < len(ps) && flat; j++ {
				for k := j + 1; k < len(ps) && flat; k++ {
					for l := k + 1; l < len(ps); l++ {
						if hx.Orient(ps[i], ps[j], ps[k], ps[l]) != 0 {
							flat = false
							break
						}
					}
				}
			}
		}
		if flat {
			t.Skip()
		}
		pl := scales[t.Choose(exactScales)]
		var in []r3.Vector
		back := map[r3.Vector]hx.I{}
		for _, p := range ps {
			v := p.VS(pl.s, pl.o)
			in = append(in, v)
			back[v] = p
		}
		t.Describe(func() string { return fmt.Sprintf("points %v", in) })
		var out []r3.Vector
		in = roomy(in)
		keep := append([]r3.Vector{}, in...)
		t.Must("createInitialTetra", budget, func() { out = f(in) })
		if !reflect.DeepEqual(in, keep) {
			t.Fail("", "the input was modified")
		}
		untouched(t, in)
		if len(out) != 4 {
			t.Fail("", "%d vertices", len(out))
		}
		var q [4]hx.I
		for k, v := range out {
			p, ok := back[v]
			if !ok {
				t.Fail("", "the vertex %v is not one of the points", v)
			}
			q[k] = p
		}
		if hx.Orient(q[0], q[1], q[2], q[3]) == 0 {
			t.Fail("", "the tetrahedron %v is flat", out)
		}
		abs := func(x int64) int64 {
			if x < 0 {
				return -x
			}
			return x
		}
		area := func(p hx.I) int64 {
			c := hx.Cross(q[1].Sub(q[0]), p.Sub(q[0]))
			return hx.Dot(c, c)
		}
		for _, p := range ps {
			if p[0] < q[0][0] || p[0] > q[1][0] {
				t.Fail("", "%v is beyond the extremes %v, %v along x", p, q[0], q[1])
			}
			if area(p) > area(q[2]) {
				t.Fail("", "%v is further from the line %v-%v than %v", p, q[0], q[1], q[2])
			}
			if abs(hx.Orient(q[0], q[1], q[2], p)) > abs(hx.Orient(q[0], q[1], q[2], q[3])) {
				t.Fail("", "%v is further from the plane %v %v %v than %v", p, q[0], q[1], q[2], q[3])
			}
		}
		t.State(fmt.Sprint(q))
	}
}

// ---- point in tetrahedron

type inTet = func(a, b, c, d, p r3.Vector) bool

func inside(kTet, kQuery int, npl int) func(t *eng.T) {
	fs := map[string]inTet{}
	if f, ok := hx.Fn[inTet](mesh.VerifFuncs, "vectorInTetrahedron"); ok {
		fs["meshing"] = f
	}
	if f, ok := hx.Fn[inTet](tri3.VerifFuncs, "VectorInTetrahedron"); ok {
		fs["triangulate3"] = f
	}
	ss := map[string]inTet{}
	if f, ok := hx.Fn[inTet](mesh.VerifFuncs, "sameSide"); ok {
		ss["meshing"] = f
	}
	if f, ok := hx.Fn[inTet](tri3.VerifFuncs, "SameSide"); ok {
		ss["triangulate3"] = f
	}
	names := []string{"meshing", "triangulate3"}
	return func(t *eng.T) {
		q := hx.I{}
		for k := range q {
			q[k] = int64(t.Choose(kQuery)) - 1
		}
		a, b, c, d := gridPoint(t.Choose(kTet*kTet*kTet), kTet), gridPoint(t.Choose(kTet*kTet*kTet), kTet), gridPoint(t.Choose(kTet*kTet*kTet), kTet), gridPoint(t.Choose(kTet*kTet*kTet), kTet)
		o := hx.Orient(a, b, c, d)
		if o == 0 {
			t.Skip()
		}
		for k := 0; k < npl; k++ {
			pl := scales[[]int{0, 6, 7, 1, 2, 3, 4, 5}[k]]
			va, vb, vc, vd, vq := a.VS(pl.s, pl.o), b.VS(pl.s, pl.o), c.VS(pl.s, pl.o), d.VS(pl.s, pl.o), q.VS(pl.s, pl.o)
			t.Describe(func() string { return fmt.Sprintf("tetrahedron %v %v %v %v, point %v", va, vb, vc, vd, vq) })
			s := hx.Sgn(o)
			want := hx.Sgn(hx.Orient(a, b, c, q))*s >= 0 && hx.Sgn(hx.Orient(a, b, q, d))*s >= 0 &&
				hx.Sgn(hx.Orient(a, q, c, d))*s >= 0 && hx.Sgn(hx.Orient(q, b, c, d))*s >= 0
			side := hx.Sgn(hx.Orient(a, b, c, q))*s >= 0
			for _, n := range names {
				var got bool
				if f := fs[n]; f != nil {
					t.Must("point in tetrahedron", 10000, func() { got = f(va, vb, vc, vd, vq) })
					if got != want {
						t.Fail("", "%s: point in tetrahedron is %v, want %v", n, got, want)
					}
				}
				if f := ss[n]; f != nil {
					t.Must("same side", 10000, func() { got = f(va, vb, vc, vd, vq) })
					if got != side {
						t.Fail("", "%s: on the same side of the plane of the first three as the fourth is %v, want %v", n, got, side)
					}
				}
			}
			t.State(a, b, c, d, want)
		}
	}
}

// middles: a tetrahedron's own vertices, and points at its middle, at the middles of its edges and faces, and at
// and next to those of them on which the answer turns.
func middles(kTet, npl int) func(t *eng.T) {
	fs := []inTet{}
	for m, n := range map[*map[string]interface{}]string{&mesh.VerifFuncs: "vectorInTetrahedron", &tri3.VerifFuncs: "VectorInTetrahedron"} {
		if f, ok := hx.Fn[inTet](*m, n); ok {
			fs = append(fs, f)
		}
	}
	return func(t *eng.T) {
		var v [4]hx.I
		for k := range v {
			v[k] = gridPoint(t.Choose(kTet*kTet*kTet), kTet)
			for j := range v[k] {
				v[k][j] *= 48
			}
		}
		o := hx.Orient(v[0], v[1], v[2], v[3])
		if o == 0 {
			t.Skip()
		}
		s := hx.Sgn(o)
		// weights out of 12
		for _, w := range [][4]int64{{12, 0, 0, 0}, {0, 12, 0, 0}, {0, 0, 12, 0}, {0, 0, 0, 12}, {3, 3, 3, 3}, {6, 6, 0, 0}, {6, 0, 6, 0}, {6, 0, 0, 6}, {0, 6, 6, 0}, {0, 6, 0, 6}, {0, 0, 6, 6},
			{4, 4, 4, 0}, {4, 4, 0, 4}, {4, 0, 4, 4}, {0, 4, 4, 4}, {9, 1, 1, 1}, {1, 9, 1, 1}, {1, 1, 9, 1}, {1, 1, 1, 9}, {5, 5, 1, 1}, {13, -1, 0, 0}, {0, 0, -1, 13}, {6, 7, 0, -1}, {-1, 5, 4, 4}, {4, -1, 5, 4}, {5, 4, -1, 4}, {4, 4, 5, -1}} {
			for _, d := range []hx.I{{}, {1, 0, 0}, {0, -1, 0}, {0, 0, 1}} {
				var q hx.I
				for j := range q {
					q[j] = (w[0]*v[0][j]+w[1]*v[1][j]+w[2]*v[2][j]+w[3]*v[3][j])/12 + d[j]
				}
				want := true
				for k := range v {
					u := v
					u[k] = q
					want = want && hx.Sgn(hx.Orient(u[0], u[1], u[2], u[3]))*s >= 0
				}
				for k := 0; k < npl; k++ {
					pl := scales[[]int{0, 6, 7, 8}[k]]
					p := func(i hx.I) r3.Vector { return i.VS(pl.s, pl.o) }
					t.Describe(func() string {
						return fmt.Sprintf("tetrahedron %v %v %v %v, point %v", p(v[0]), p(v[1]), p(v[2]), p(v[3]), p(q))
					})
					for _, f := range fs {
						var got bool
						t.Must("point in tetrahedron", 10000, func() { got = f(p(v[0]), p(v[1]), p(v[2]), p(v[3]), p(q)) })
						if got != want {
							t.Fail("", "point in tetrahedron is %v, want %v", got, want)
						}
					}
				}
			}
		}
		t.State(v)
	}
}

// ---- helpers of the meshing

func flip(t *eng.T) {
	f, ok := hx.Fn[func(*mesh.Meshing, r3.Vector)](mesh.VerifFuncs, "(*Meshing).flip14")
	if !ok {
		t.Skip()
	}
	ps := []hx.I{}
	for i := 0; i < 4; i++ {
		ps = append(ps, gridPoint(t.Choose(8), 2))
	}
	p := gridPoint(t.Choose(27), 3)
	var m mesh.Meshing
	in := vecs(ps)
	pre := []uint32{}
	if t.Choose(2) == 1 {
		pre = []uint32{0, 1, 2, 1, 2, 3, 2, 3, 0, 3, 0, 1}
	}
	if !hx.Set(&m, "vertices", in) || !hx.Set(&m, "indices", pre) {
		t.Skip()
	}
	t.Describe(func() string { return fmt.Sprintf("tetrahedron %v, new point %v", in, p) })
	t.Must("flip14", budget, func() { f(&m, p.V()) })
	vs, _ := hx.Get(&m, "vertices")
	is, _ := hx.Get(&m, "indices")
	v, ix := vs.([]r3.Vector), is.([]uint32)
	if len(v) != 5 || v[4] != p.V() {
		t.Fail("", "the vertices are %v", v)
	}
	for i := range in {
		if v[i] != in[i] {
			t.Fail("", "vertex %d changed", i)
		}
	}
	want := map[[3]int]int{}
	for _, k := range [][4]int{{0, 1, 2, 4}, {0, 1, 3, 4}, {0, 2, 3, 4}, {1, 2, 3, 4}} {
		for _, f := range [][3]int{{k[0], k[1], k[2]}, {k[0], k[1], k[3]}, {k[0], k[2], k[3]}, {k[1], k[2], k[3]}} {
			want[f] += 2
		}
	}
	if len(ix)%3 != 0 {
		t.Fail("", "%d indices", len(ix))
	}
	got := map[[3]int]int{}
	turn := map[[3]int]int{} // triangles of one winding minus triangles of the other
	for i := 0; i < len(ix); i += 3 {
		a, b, c := int(ix[i]), int(ix[i+1]), int(ix[i+2])
		k := triple(a, b, c)
		got[k]++
		if a == k[0] && b == k[1] || b == k[0] && c == k[1] || c == k[0] && a == k[1] {
			turn[k]++
		} else {
			turn[k]--
		}
	}
	if !reflect.DeepEqual(got, want) {
		t.Fail("", "the faces are %v, want %v", got, want)
	}
	for k, d := range turn {
		if d != 0 {
			t.Fail("", "the face %v is not listed equally often in both windings", k)
		}
	}
	t.State(ps, p)
}

func reversed(t *eng.T) {
	f, ok := hx.Fn[func(*[]uint32)](mesh.VerifFuncs, "duplicateInReverse")
	if !ok {
		t.Skip()
	}
	n := t.Choose(7)
	var in []uint32
	for i := 0; i < n; i++ {
		in = append(in, uint32(t.Choose(4)))
	}
	room := t.Choose(3) * 4
	s := append(make([]uint32, 0, n+room), in...)
	t.Describe(func() string { return fmt.Sprintf("%v, capacity %d", in, cap(s)) })
	t.Must("duplicateInReverse", 100000, func() { f(&s) })
	if len(s) != 2*n {
		t.Fail("", "%v", s)
	}
	for i := range in {
		if s[i] != in[i] || s[2*n-1-i] != in[i] {
			t.Fail("", "%v", s)
		}
	}
	t.State(s)
}

func nearest(k, n int) func(t *eng.T) {
	f, ok := hx.Fn[func([]r3.Vector, r3.Vector) r3.Vector](mesh.VerifFuncs, "getNearestPoint")
	return func(t *eng.T) {
		if !ok {
			t.Skip()
		}
		var ps []hx.I
		for l := 1 + t.Choose(n); l > 0; l-- {
			ps = append(ps, gridPoint(t.Choose(k*k*k), k))
		}
		q := gridPoint(t.Choose(k*k*k), k)
		pl := scales[[]int{0, 3, 4, 6, 7, 8}[t.Choose(6)]]
		var in []r3.Vector
		for _, p := range ps {
			in = append(in, p.VS(pl.s, pl.o))
		}
		vq := q.VS(pl.s, pl.o)
		t.Describe(func() string { return fmt.Sprintf("points %v, from %v", in, vq) })
		var got r3.Vector
		t.Must("getNearestPoint", 100000, func() { got = f(in, vq) })
		best, at := int64(-1), int64(-1)
		for i, p := range ps {
			d := hx.Dot(p.Sub(q), p.Sub(q))
			if best < 0 || d < best {
				best = d
			}
			if in[i] == got {
				at = d
			}
		}
		if at != best {
			t.Fail("", "the nearest point is reported to be %v", got)
		}
		t.State(ps, q)
	}
}

// nearly: one of the points is nearer by very little, at any distance
func nearly(t *eng.T) {
	f, ok := hx.Fn[func([]r3.Vector, r3.Vector) r3.Vector](mesh.VerifFuncs, "getNearestPoint")
	if !ok {
		t.Skip()
	}
	scale := []float64{1, 3, 1000, 1e7, 0x1p-40, 0x1p100}[t.Choose(6)]
	less := []float64{1e-2, 1e-5, 1e-7, 1e-8, 1e-9, 1e-11}[t.Choose(6)]
	n := 2 + t.Choose(4)
	at := t.Choose(n)
	q := r3.Vector{}
	var in []r3.Vector
	first := t.Choose(6)
	for i := 0; i < n; i++ {
		d := scale
		if i == at {
			d *= 1 - less
		}
		v := [3]float64{}
		v[(first+i)%3] = d
		if (first+i)%6 > 2 {
			v[(first+i)%3] = -d
		}
		in = append(in, r3.Vector{X: v[0], Y: v[1], Z: v[2]})
	}
	t.Describe(func() string { return fmt.Sprintf("points %v, from %v", in, q) })
	var got r3.Vector
	t.Must("getNearestPoint", 100000, func() { got = f(in, q) })
	if got != in[at] {
		t.Fail("", "the nearest point is reported to be %v, not %v", got, in[at])
	}
	t.State(in)
}

// extremes: the bounding coordinates that the helper finds
func extremes(k, n int) func(t *eng.T) {
	f := reflect.ValueOf(mesh.VerifFuncs["(*helper).findExtremas"])
	ok := f.IsValid() && f.Kind() == reflect.Func && f.Type().NumIn() == 2 && f.Type().NumOut() == 0 && f.Type().IsVariadic() && f.Type().In(0).Kind() == reflect.Ptr && f.Type().In(1) == reflect.TypeOf([]r3.Vector{})
	return func(t *eng.T) {
		if !ok {
			t.Skip()
		}
		h := reflect.New(f.Type().In(0).Elem())
		var in []r3.Vector
		pl := scales[t.Choose(len(scales))]
		for l := 1 + t.Choose(n); l > 0; l-- {
			in = append(in, gridPoint(t.Choose(k*k*k), k).VS(pl.s, pl.o))
		}
		t.Describe(func() string { return fmt.Sprintf("points %v", in) })
		t.Must("findExtremas", 100000, func() { f.CallSlice([]reflect.Value{h, reflect.ValueOf(append([]r3.Vector{}, in...))}) })
		lo, ok1 := hx.Get(h.Interface(), "min")
		hi, ok2 := hx.Get(h.Interface(), "max")
		if !ok1 || !ok2 {
			t.Skip()
		}
		a, b := in[0], in[0]
		for _, p := range in {
			a = r3.Vector{X: math.Min(a.X, p.X), Y: math.Min(a.Y, p.Y), Z: math.Min(a.Z, p.Z)}
			b = r3.Vector{X: math.Max(b.X, p.X), Y: math.Max(b.Y, p.Y), Z: math.Max(b.Z, p.Z)}
		}
		if lo != a || hi != b {
			t.Fail("", "the extremes are reported to be %v and %v", lo, hi)
		}
		t.State(a, b, len(in))
	}
}

func centroid(t *eng.T) {
	type C = func(a, b, c, d r3.Vector) r3.Vector
	var q [4]hx.I
	for i := range q {
		q[i] = gridPoint(t.Choose(27), 3)
	}
	pl := scales[[]int{0, 6, 7, 8}[t.Choose(4)]]
	v := func(p hx.I) r3.Vector { return p.VS(pl.s, pl.o) }
	s2 := pl.s * pl.s
	want := r3.Vector{X: float64(q[0][0]+q[1][0]+q[2][0]+q[3][0]) / 4, Y: float64(q[0][1]+q[1][1]+q[2][1]+q[3][1]) / 4, Z: float64(q[0][2]+q[1][2]+q[2][2]+q[3][2]) / 4}
	want = want.Scaled(pl.s)
	t.Describe(func() string { return fmt.Sprint(v(q[0]), v(q[1]), v(q[2]), v(q[3])) })
	for _, m := range []map[string]interface{}{mesh.VerifFuncs, tri3.VerifFuncs} {
		if f, ok := hx.Fn[C](m, "findCentroid"); ok {
			var got r3.Vector
			t.Must("findCentroid", 10000, func() { got = f(v(q[0]), v(q[1]), v(q[2]), v(q[3])) })
			if !hx.CloseV(got, want, 10*pl.s) {
				t.Fail("", "the centroid is %v, want %v", got, want)
			}
		}
	}
	if f, ok := hx.Fn[func(a, b, c r3.Vector) float64](tri3.VerifFuncs, "Get2Ddist"); ok {
		c := hx.Cross(q[1].Sub(q[0]), q[2].Sub(q[0]))
		if got := f(v(q[0]), v(q[1]), v(q[2])); got != float64(hx.Dot(c, c))*s2*s2 {
			t.Fail("", "Get2Ddist is %v, the squared area of the parallelogram is %v", got, hx.Dot(c, c))
		}
	}
	if f, ok := hx.Fn[func(a, b, c, d r3.Vector) float64](tri3.VerifFuncs, "Get3Ddist"); ok {
		w := hx.Orient(q[0], q[1], q[2], q[3])
		if got := math.Abs(f(v(q[0]), v(q[1]), v(q[2]), v(q[3]))); got != math.Abs(float64(w))*s2*pl.s {
			t.Fail("", "Get3Ddist is %v in size, the volume of the parallelepiped is %v", got, w)
		}
	}
	t.State(q)
}

func main() {
	rule := "every subset of small grids in several orders, every set of n points of the 3x3x3 grid, every ordered tuple (repetitions included) up to the length, and larger regular families (lattice rules, grids, spheres, coplanar and collinear sets, clusters, moment curves)"
	asm := []string{"coordinates are small integers, on which the code's determinants are exact, so that the harness's exact predicates and the code's must agree"}
	type G struct {
		n string
		g gen
		s int
	}
	gens := func(th bool) []G {
		l := []G{{"subsets of a 2x2x2 grid, in every frame", framed(subsets(2, 2, 2, 3), len(frames)), 3}, {"4 of the 3x3x3 grid", framed(combos(3, 4, 2), 2), 2}, {"tuples of the 2x2x2 grid", tuples(2, 4), 3},
			{"generic sets, inexactly placed", similarly(combos(3, 4, 1)), 3}, {"families, in every frame", framed(families([]int{9}, 2), len(frames)), 5}, {"large families", families([]int{40}, 2), 5}}
		if !th {
			return append(l, G{"subsets of a 3x2x2 grid", subsets(3, 2, 2, 1), 2}, G{"families", families([]int{5, 8, 11}, 3), 5})
		}
		return append(l, G{"subsets of a 3x2x2 grid", subsets(3, 2, 2, 3), 2}, G{"5 of the 3x3x3 grid", combos(3, 5, 2), 2}, G{"6 of the 3x3x3 grid", combos(3, 6, 1), 2},
			G{"tuples of the 2x2x2 grid, longer", tuples(2, 5), 3}, G{"subsets of a 4x2x2 grid", subsets(4, 2, 2, 1), 3}, G{"families", families([]int{5, 8, 11, 16, 27}, 8), 5},
			G{"generic sets of 5, inexactly placed", similarly(combos(3, 5, 1)), 3}, G{"generic sets of 6, inexactly placed", similarly(combos(3, 6, 1)), 3})
	}
	over := func(b func(gen) func(*eng.T)) func(bool) []eng.Scenario {
		return func(th bool) (l []eng.Scenario) {
			for _, g := range gens(th) {
				l = append(l, eng.Scenario{Name: g.n, Body: b(g.g), Shard: g.s})
			}
			return
		}
	}
	all := []int{}
	for k := 0; k < confusions; k++ {
		all = append(all, k)
	}
	numbered := func(th bool) []eng.Scenario {
		l := append(over(delaunay)(th), eng.Scenario{Name: "confusable numbers", Body: delaunay(numberings([]int{190}, all)), Shard: 3})
		if th {
			l = append(l, eng.Scenario{Name: "confusable numbers, other sizes", Body: delaunay(numberings([]int{110, 150, 280}, all)), Shard: 3})
		}
		return l
	}
	eng.Main(
		&eng.Prop{ID: "M01", Rule: rule + "; points near a sphere and its centre, numbered so that many pairs of hull facets have numbers that are easily taken for one another", Assumptions: asm, Scenarios: numbered},
		&eng.Prop{ID: "M02", Rule: rule, Assumptions: asm, Scenarios: over(complete)},
		&eng.Prop{ID: "M03", Rule: "for small point sets, every order of walking the maps of the working set (all orders for one point, every order within the deviation bound for more, four fixed policies for larger sets), and every order of the points for sets in general position", Assumptions: asm, Scenarios: func(th bool) []eng.Scenario {
			l := []eng.Scenario{
				{Name: "map orders: all, one point", Body: allMapOrders(combos(2, 1, 1))},
				{Name: "map orders: tuples of the 2x2x2 grid", Bound: 1, Body: mapOrder(tuples(2, 3), false), Shard: 4},
				{Name: "map policies: 4 of the 3x3x3 grid", Body: mapOrder(combos(3, 4, 1), true)},
				{Name: "map policies: families", Body: mapOrder(families([]int{6, 9}, 3), true), Shard: 4},
				{Name: "point orders: 4 of the 3x3x3 grid", Body: pointOrder(combos(3, 4, 1)), Shard: 3},
				{Name: "point orders: 4 of the 3x3x3 grid, inexactly placed", Body: pointOrder(similarly(combos(3, 4, 1), 1)), Shard: 4},
			}
			if th {
				l = append(l, eng.Scenario{Name: "map orders: tuples of the 2x2x2 grid, two deviations", Bound: 2, Body: mapOrder(tuples(2, 3), false), Shard: 4},
					eng.Scenario{Name: "map orders: subsets of the 2x2x2 grid", Bound: 1, Body: mapOrder(subsets(2, 2, 2, 1), false), Shard: 3},
					eng.Scenario{Name: "map policies: subsets of a 3x2x2 grid", Body: mapOrder(subsets(3, 2, 2, 1), true), Shard: 3},
					eng.Scenario{Name: "point orders: 5 of the 3x3x3 grid", Body: pointOrder(combos(3, 5, 1)), Shard: 3},
					eng.Scenario{Name: "point orders: 5 of the 3x3x3 grid, inexactly placed", Body: pointOrder(similarly(combos(3, 5, 1), 2)), Shard: 4},
					eng.Scenario{Name: "map policies: families, larger", Body: mapOrder(families([]int{6, 9, 14, 20}, 6), true), Shard: 4})
			}
			return l
		}},
		&eng.Prop{ID: "M04", Rule: rule + ", each in several placements and stretched", Assumptions: []string{"containment is decided exactly, in rational arithmetic, on the coordinates the code computed"}, Scenarios: func(th bool) []eng.Scenario {
			l := []eng.Scenario{{Name: "subsets of a 2x2x2 grid", Body: englobes(subsets(2, 2, 2, 1))}, {Name: "tuples of the 3x3x3 grid", Body: englobes(tuples(3, 2)), Shard: 3},
				{Name: "families", Body: englobes(families([]int{6, 20}, 2)), Shard: 4}}
			if th {
				l = append(l, eng.Scenario{Name: "tuples of the 3x3x3 grid, longer", Body: englobes(tuples(3, 3)), Shard: 3}, eng.Scenario{Name: "subsets of a 3x2x2 grid", Body: englobes(subsets(3, 2, 2, 1)), Shard: 3})
			}
			return l
		}},
		&eng.Prop{ID: "M05", Rule: "every nondegenerate tetrahedron of the grid and every query point of a larger grid, in several placements", Assumptions: asm, Scenarios: func(th bool) []eng.Scenario {
			l := []eng.Scenario{{Name: "2x2x2 tetrahedra", Body: inside(2, 4, 8), Shard: 3}, {Name: "2x2x2 tetrahedra, their middles", Body: middles(2, 4), Shard: 3}}
			if th {
				l = append(l, eng.Scenario{Name: "3x3x3 tetrahedra, their middles", Body: middles(3, 1), Shard: 3})
				l = append(l, eng.Scenario{Name: "3x3x3 tetrahedra", Body: inside(3, 5, 3), Shard: 3})
			} else {
				l = append(l, eng.Scenario{Name: "3x3x3 tetrahedra, some queries", Body: inside(3, 2, 3), Shard: 3})
			}
			return l
		}},
		&eng.Prop{ID: "M06", Rule: "every choice of the arguments within the bounds", Assumptions: asm, Scenarios: func(th bool) []eng.Scenario {
			l := []eng.Scenario{{Name: "nearest by little", Body: nearly}, {Name: "flip14", Body: flip}, {Name: "duplicate in reverse", Body: reversed}, {Name: "centroid and distances", Body: centroid}}
			if th {
				l = append(l, eng.Scenario{Name: "extremes", Body: extremes(3, 3), Shard: 3})
				l = append(l, eng.Scenario{Name: "nearest point", Body: nearest(3, 3), Shard: 4}, eng.Scenario{Name: "nearest point of more", Body: nearest(2, 5), Shard: 4})
			} else {
				l = append(l, eng.Scenario{Name: "extremes", Body: extremes(3, 2)}, eng.Scenario{Name: "extremes of more", Body: extremes(2, 4)})
				l = append(l, eng.Scenario{Name: "nearest point", Body: nearest(2, 4), Shard: 4}, eng.Scenario{Name: "nearest point, wider", Body: nearest(3, 2), Shard: 4})
			}
			return l
		}},
		&eng.Prop{ID: "Q01", Rule: rule + ", each in several placements, stretched and mirrored", Assumptions: []string{"containment is decided exactly, in rational arithmetic, on the coordinates the code computed"}, Scenarios: func(th bool) []eng.Scenario {
			l := []eng.Scenario{{Name: "subsets of a 2x2x2 grid", Body: englobing3(subsets(2, 2, 2, 1))}, {Name: "tuples of the 3x3x3 grid", Body: englobing3(tuples(3, 2)), Shard: 3},
				{Name: "families", Body: englobing3(families([]int{6, 20}, 2)), Shard: 4}}
			if th {
				l = append(l, eng.Scenario{Name: "tuples of the 3x3x3 grid, longer", Body: englobing3(tuples(3, 3)), Shard: 3}, eng.Scenario{Name: "subsets of a 3x2x2 grid", Body: englobing3(subsets(3, 2, 2, 1)), Shard: 3})
			}
			return l
		}},
		&eng.Prop{ID: "Q02", Rule: rule + ", each in several placements", Assumptions: asm, Scenarios: func(th bool) []eng.Scenario {
			l := []eng.Scenario{}
			for _, g := range gens(th) {
				l = append(l, eng.Scenario{Name: g.n, Body: initial3(g.g), Shard: g.s})
			}
			return l
		}},
	)
}
