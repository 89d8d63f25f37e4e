// Harness for package triangulate2: planar Delaunay triangulation.
package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"

	"geGoMetry/predicates"
	"geGoMetry/r3"
	"geGoMetry/triangulate2"
	"verifh/eng"
	"verifh/hx"
)

const budget = 20_000_000

// steps is the step budget of one call on n points; walking the hull of a line is quadratic in n.
func steps(n int) int64 {
	if b := 1000 * int64(n) * int64(n); b > budget {
		return b
	}
	return budget
}

// P is an integer point of the plane.
type P [2]int64

func cross(a, b, c P) int64 { return (b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0]) }

// inCircle is positive when d is strictly inside the circle of the
// counter-clockwise triangle a, b, c.
func inCircle(a, b, c, d P) int64 {
	ax, ay := a[0]-d[0], a[1]-d[1]
	bx, by := b[0]-d[0], b[1]-d[1]
	cx, cy := c[0]-d[0], c[1]-d[1]
	return (ax*ax+ay*ay)*(bx*cy-cx*by) - (bx*bx+by*by)*(ax*cy-cx*ay) + (cx*cx+cy*cy)*(ax*by-bx*ay)
}

// hull is the strict convex hull (extreme points only), counter-clockwise.
func hull(ps []P) []P {
	q := append([]P{}, ps...)
	sort.Slice(q, func(i, j int) bool { return q[i][0] < q[j][0] || q[i][0] == q[j][0] && q[i][1] < q[j][1] })
	k := 0
	for i := range q {
		if i == 0 || q[i] != q[k-1] {
			q[k] = q[i]
			k++
		}
	}
	q = q[:k]
	if len(q) < 3 {
		return q
	}
	var h []P
	for pass := 0; pass < 2; pass++ {
		start := len(h)
		for _, p := range q {
			for len(h) >= start+2 && cross(h[len(h)-2], h[len(h)-1], p) <= 0 {
				h = h[:len(h)-1]
			}
			h = append(h, p)
		}
		h = h[:len(h)-1]
		for i, j := 0, len(q)-1; i < j; i, j = i+1, j-1 {
			q[i], q[j] = q[j], q[i]
		}
	}
	return h
}

func area2(h []P) int64 {
	var s int64
	for i := range h {
		j := (i + 1) % len(h)
		s += h[i][0]*h[j][1] - h[i][1]*h[j][0]
	}
	return s
}

// placements of the integer points; coordinates stay exact
type place struct {
	s, ox, oy float64
	z         func(i int) float64
	// rot != nil: an inexact placement, (x, y) -> s*(rot0 x - rot1 y) + ox, s*(rot1 x + rot0 y) + oy
	rot []float64
}

func flat(z float64) func(int) float64 { return func(int) float64 { return z } }

var places = []place{
	{s: 1, z: flat(0)},
	{s: 1, z: flat(7)},
	{s: 1. / 1024, ox: 1 << 20, oy: -3, z: flat(0)},
	{s: 1024, ox: -5, oy: 1 << 22, z: flat(-1)},
	{s: 1, ox: -2, oy: -1, z: func(i int) float64 { return float64((i*i*5)%13 - 6) }},
	{s: 0.5, z: func(i int) float64 { return float64(i % 2 * 100) }},
	{s: 0x1p-300, z: flat(0)},
	{s: 0x1p300, z: flat(1)},
	{s: 0x1p-40, z: func(i int) float64 { return float64(-i) }},
}

// inexact placements: what the code decides within rounding may go either way there.
var similar = []place{
	{s: 0.1, z: flat(0), rot: []float64{1, 0}},
	{s: 1, z: flat(0), rot: []float64{0.6, 0.8}},
	{s: 1e6 / 3, ox: 1e6, oy: -3e7, z: flat(2), rot: []float64{math.Cos(1), math.Sin(1)}},
	{s: 1e-9, z: flat(0), rot: []float64{math.Cos(0.3), -math.Sin(0.3)}},
	{s: 1. / 7, ox: 1e9, oy: 0.1, z: flat(0), rot: []float64{-0.28, 0.96}},
	{s: 1e50, z: flat(0), rot: []float64{1. / 3, -2. / 3}},
}

func (pl place) vecs(ps []P) []r3.Vector {
	v := make([]r3.Vector, len(ps))
	for i, p := range ps {
		x, y := float64(p[0]), float64(p[1])
		if pl.rot != nil {
			x, y = pl.rot[0]*x-pl.rot[1]*y, pl.rot[1]*x+pl.rot[0]*y
		}
		v[i] = r3.Vector{X: pl.s*x + pl.ox, Y: pl.s*y + pl.oy, Z: pl.z(i)}
	}
	return v
}

type input struct {
	ps []P
	pl place
	v  []r3.Vector
	// perturbed sets may have points closer than rounding; judged are the points that count
	perturbed bool
	judged    []r3.Vector
}

func (in input) points() []r3.Vector {
	if in.judged != nil {
		return in.judged
	}
	return in.v
}

func (in input) inexact() bool { return in.pl.rot != nil }

// back finds the integer point of a coordinate.
func (in input) back(v r3.Vector) P {
	for i, w := range in.v {
		if w.X == v.X && w.Y == v.Y {
			return in.ps[i]
		}
	}
	return P{math.MinInt32, math.MinInt32}
}

func reorder(ps []P, how int) []P {
	n := len(ps)
	q := make([]P, 0, n)
	switch how {
	case 0:
		return ps
	case 1:
		for i := n - 1; i >= 0; i-- {
			q = append(q, ps[i])
		}
	case 2: // interleaved
		for i := 0; i < n; i += 2 {
			q = append(q, ps[i])
		}
		for i := n - 1 - n%2; i >= 1; i -= 2 {
			q = append(q, ps[i])
		}
	case 3: // from the middle outwards
		for d := 0; d <= n; d++ {
			if i := n/2 + d; i < n {
				q = append(q, ps[i])
			}
			if i := n/2 - d - 1; i >= 0 {
				q = append(q, ps[i])
			}
		}
	}
	return q
}

// every subset of a w x h grid, in several orders, in several placements
func subsets(w, h, orders, npl int) func(t *eng.T) input {
	return func(t *eng.T) input {
		var m int
		bits := w * h
		for bits > 12 {
			m = m<<4 | t.Choose(16)
			bits -= 4
		}
		m = m<<bits | t.Choose(1<<bits)
		var ps []P
		for i := 0; i < w*h; i++ {
			if m>>i&1 == 1 {
				ps = append(ps, P{int64(i % w), int64(i / w)})
			}
		}
		ps = reorder(ps, t.Choose(orders))
		return mk(ps, t.Choose(npl))
	}
}

// inexactly places another generator's points in every inexact placement.
func inexactly(g gen) gen {
	return func(t *eng.T) input {
		in := g(t)
		in.pl = similar[t.Choose(len(similar))]
		in.v = in.pl.vecs(in.ps)
		in.exact()
		return in
	}
}

// perturbed moves every point of another generator by every choice of a few ulps from a unit grid: all but
// duplicates, all but collinear, all but cocircular sets.
func perturbed(g gen, by []P) gen {
	return func(t *eng.T) input {
		in := g(t)
		in.pl = place{s: 1, ox: 1, oy: 1, z: flat(0), rot: []float64{1, 0}}
		in.v = in.pl.vecs(in.ps)
		for i := range in.v {
			d := by[t.Choose(len(by))]
			in.v[i].X += float64(d[0]) * 0x1p-51
			in.v[i].Y += float64(d[1]) * 0x1p-51
		}
		in.exact()
		in.perturbed = true
		return in
	}
}

func mk(ps []P, pl int) input {
	in := input{ps: ps, pl: places[pl]}
	in.v = in.pl.vecs(ps)
	return in
}

// every ordered tuple of points of a w x h grid (repetitions included)
func tuples(w, h, maxLen, npl int) func(t *eng.T) input {
	return func(t *eng.T) input {
		n := t.Choose(maxLen + 1)
		var ps []P
		for i := 0; i < n; i++ {
			c := int64(t.Choose(w * h))
			ps = append(ps, P{c % int64(w), c / int64(w)})
		}
		return mk(ps, t.Choose(npl))
	}
}

// larger regular families: lattice rules, grids, circles, clusters, fans
func families(sizes []int, mult int) func(t *eng.T) input {
	return func(t *eng.T) input {
		kind := t.Choose(7)
		n := sizes[t.Choose(len(sizes))]
		var ps []P
		add := func(x, y int64) { ps = append(ps, P{x, y}) }
		switch kind {
		case 0: // lattice rule
			a, b := int64(2+t.Choose(mult)), int64(3+t.Choose(mult))
			m := int64(n)*3 + 1
			for i := int64(1); i <= int64(n); i++ {
				add(i*a%m, i*i%m*b%m)
			}
		case 1: // grid, possibly ragged
			w := 2 + t.Choose(mult)
			for i := 0; i < n; i++ {
				add(int64(i%w), int64(i/w))
			}
		case 2: // lattice points of circles around one centre (many cocircular)
			r := []int64{25, 65, 325, 1105, 4225}[t.Choose(5)]
			c := t.Choose(2)
			for x := int64(-70); x <= 70 && len(ps) < n; x++ {
				for y := int64(-70); y <= 70; y++ {
					if x*x+y*y == r || c == 1 && x*x+y*y == r*4 {
						add(x, y)
					}
				}
			}
			if t.Choose(2) == 1 {
				add(0, 0)
			}
		case 3: // two clusters far apart, and one point between
			d := []int64{10, 1000, 5000}[t.Choose(3)]
			w := int64(2 + t.Choose(mult))
			for i := int64(0); i < int64(n); i++ {
				x, y := i/2%w, i/2/w
				if i%2 == 0 {
					add(x, y)
				} else {
					add(d+y, x+1)
				}
			}
			add(d/2, d/3)
		case 4: // a line and one or two points off it
			m, lean, offs := 12, 3, 4
			if n > 300 {
				m, lean, offs = 3, 2, 1
			}
			dx, dy := int64(1+t.Choose(lean)), int64(t.Choose(lean))
			for i := int64(0); i < int64(n); i++ {
				add(i*dx, i*dy)
			}
			k := int64(0)
			if n < m {
				k = int64(t.Choose(n))
			} else {
				k = int64(t.Choose(m) * (n - 1) / (m - 1))
			}
			off := int64(t.Choose(offs))*2 - 3
			add(k*dx, k*dy+off*3)
			if t.Choose(2) == 1 {
				add(k*dx-1, k*dy-off*5)
			}
		case 5: // parabola: every point extreme
			q := int64(1 + t.Choose(3))
			for i := int64(0); i < int64(n); i++ {
				x := i - int64(n)/2
				add(x, x*x*q)
			}
		case 6: // square spiral with growing steps
			x, y, st := int64(0), int64(0), int64(1)
			g := int64(1 + t.Choose(mult))
			for i := 0; i < n; i++ {
				add(x, y)
				switch i % 4 {
				case 0:
					x += st
				case 1:
					y += st
				case 2:
					x -= st
				case 3:
					y -= st
				}
				st += g
			}
		}
		return mk(reorder(ps, t.Choose(3)), t.Choose(3)*2%len(places))
	}
}

func distinct(ps []P) map[P]bool {
	m := map[P]bool{}
	for _, p := range ps {
		m[p] = true
	}
	return m
}

// ---- judgement on the very coordinates, for inexact placements

// integer returns x * 2^k for the k at which every coordinate of this execution is an integer (see input.exact).
func integer(x float64) *big.Int {
	if n := ints[x]; n != nil {
		return n
	}
	f, e := math.Frexp(x)
	n := big.NewInt(int64(f * (1 << 53)))
	if e-53 < scale {
		panic("a coordinate that is not of the input")
	}
	n.Lsh(n, uint(e-53-scale))
	ints[x] = n
	return n
}

var (
	ints  = map[float64]*big.Int{}
	scale int
)

// exact prepares integer for the coordinates of the input.
func (in input) exact() {
	ints, scale = map[float64]*big.Int{0: new(big.Int)}, math.MaxInt32
	for _, v := range in.v {
		for _, x := range []float64{v.X, v.Y} {
			if _, e := math.Frexp(x); x != 0 && e-53 < scale {
				scale = e - 53
			}
		}
	}
}

func diff(x, y float64) *big.Int { return new(big.Int).Sub(integer(x), integer(y)) }

func mul(x, y *big.Int) *big.Int { return new(big.Int).Mul(x, y) }

// orient is the exact orientation of three points: +1 counter-clockwise.
func orient(a, b, c r3.Vector) int {
	l, r := (a.X-c.X)*(b.Y-c.Y), (a.Y-c.Y)*(b.X-c.X)
	if d := l - r; math.Abs(d) > 1e-14*(math.Abs(l)+math.Abs(r)) && math.Abs(d) > 1e-200 {
		return hx.SgnF(d)
	}
	return mul(diff(a.X, c.X), diff(b.Y, c.Y)).Cmp(mul(diff(a.Y, c.Y), diff(b.X, c.X)))
}

// within: d is strictly inside (+1), on (0) or outside (-1) the circle of the counter-clockwise triangle a, b, c.
func within(a, b, c, d r3.Vector) int {
	ax, ay, bx, by, cx, cy := a.X-d.X, a.Y-d.Y, b.X-d.X, b.Y-d.Y, c.X-d.X, c.Y-d.Y
	la, lb, lc := ax*ax+ay*ay, bx*bx+by*by, cx*cx+cy*cy
	det := la*(bx*cy-cx*by) + lb*(cx*ay-ax*cy) + lc*(ax*by-bx*ay)
	perm := la*(math.Abs(bx*cy)+math.Abs(cx*by)) + lb*(math.Abs(cx*ay)+math.Abs(ax*cy)) + lc*(math.Abs(ax*by)+math.Abs(bx*ay))
	if math.Abs(det) > 1e-14*perm && math.Abs(det) > 1e-200 {
		return hx.SgnF(det)
	}
	var x, y, l [3]*big.Int
	for i, p := range []r3.Vector{a, b, c} {
		x[i], y[i] = diff(p.X, d.X), diff(p.Y, d.Y)
		l[i] = mul(x[i], x[i])
		l[i].Add(l[i], mul(y[i], y[i]))
	}
	sum := new(big.Int)
	for i := range x {
		j, k := (i+1)%3, (i+2)%3
		m := mul(x[j], y[k])
		sum.Add(sum, m.Mul(m.Sub(m, mul(x[k], y[j])), l[i]))
	}
	return sum.Sign()
}

// collinear: the coordinates themselves (not only the integers they stand for) are all on one line.
func (in input) collinear() bool {
	for i := 1; i < len(in.points()); i++ {
		for j := i + 1; j < len(in.points()); j++ {
			if orient(in.points()[0], in.points()[i], in.points()[j]) != 0 {
				return false
			}
		}
	}
	return true
}

func xy(v r3.Vector) [2]float64 { return [2]float64{v.X, v.Y} }

// exactHull: h lists once, counter-clockwise, exactly the points on the boundary of their convex hull.
func exactHull(t *eng.T, in input, h []r3.Vector) {
	if in.collinear() {
		return
	}
	on := map[[2]float64]bool{}
	for _, v := range h {
		if on[xy(v)] {
			t.Fail("", "the hull lists the point %v twice", v)
		}
		on[xy(v)] = true
	}
	if len(h) < 3 {
		t.Fail("", "a hull of %d points", len(h))
	}
	seen := map[[2]float64]bool{}
	wraps := 0
	for i := range h {
		a, b := h[i], h[(i+1)%len(h)]
		for _, p := range in.points() {
			o := orient(a, b, p)
			if o < 0 {
				t.Fail("", "the point %v is outside the edge %v %v of the hull", p, a, b)
			}
			if o == 0 && !on[xy(p)] {
				t.Fail("", "the point %v on the boundary is not listed on the hull", p)
			}
			seen[xy(p)] = true
		}
		if a.X < b.X || a.X == b.X && a.Y < b.Y {
			if c := h[(i+2)%len(h)]; !(b.X < c.X || b.X == c.X && b.Y < c.Y) {
				wraps++
			}
		}
	}
	if wraps != 1 {
		t.Fail("", "the hull goes around %d times", wraps)
	}
	for _, v := range h {
		if !seen[xy(v)] {
			t.Fail("", "the hull has a point %v that is not in the input", v)
		}
	}
	t.State(fmt.Sprint(len(h)))
}

// exactTiling: positive triangles whose edges match up but for a boundary that is the convex hull tile it.
func exactTiling(t *eng.T, in input, tr *triangulate2.Triangulation) {
	type ed [2][2]float64
	edges := map[ed]bool{}
	used := map[[2]float64]int{}
	sign := 0
	at := map[[2]float64]r3.Vector{}
	for i := 0; i < len(tr.Triangles); i += 3 {
		ix := tr.Triangles[i : i+3]
		a, b, c := in.v[ix[0]], in.v[ix[1]], in.v[ix[2]]
		o := orient(a, b, c)
		if i == 0 {
			sign = o
		}
		if o == 0 || o != sign {
			t.Fail("", "the triangle %v %v %v is degenerate or turned over", a, b, c)
		}
		if o < 0 {
			b, c = c, b
		}
		for k, v := range []r3.Vector{in.v[ix[0]], in.v[ix[1]], in.v[ix[2]]} {
			if j, ok := used[xy(v)]; ok && j != ix[k] {
				t.Fail("", "two copies %d and %d of the point %v are both used", j, ix[k], v)
			}
			used[xy(v)] = ix[k]
			at[xy(v)] = v
		}
		for _, e := range []ed{{xy(a), xy(b)}, {xy(b), xy(c)}, {xy(c), xy(a)}} {
			if edges[e] {
				t.Fail("", "the directed edge %v is in two triangles", e)
			}
			edges[e] = true
		}
	}
	for _, v := range in.points() {
		if _, ok := used[xy(v)]; !ok {
			t.Fail("", "the point %v is in no triangle", v)
		}
	}
	next := map[[2]float64][2]float64{}
	var start [2]float64
	for e := range edges {
		if !edges[ed{e[1], e[0]}] {
			if _, dup := next[e[0]]; dup {
				t.Fail("", "two boundary edges leave %v", e[0])
			}
			next[e[0]], start = e[1], e[0]
		}
	}
	var h []r3.Vector
	for p := start; ; {
		h = append(h, at[p])
		q, ok := next[p]
		if !ok || len(h) > len(next) {
			t.Fail("", "the boundary is not one cycle")
		}
		if p = q; p == start {
			break
		}
	}
	if len(h) != len(next) {
		t.Fail("", "the boundary falls into several cycles")
	}
	exactHull(t, in, h)
}

func exactDelaunay(t *eng.T, in input, tr *triangulate2.Triangulation) {
	for i := 0; i < len(tr.Triangles); i += 3 {
		a, b, c := in.v[tr.Triangles[i]], in.v[tr.Triangles[i+1]], in.v[tr.Triangles[i+2]]
		if orient(a, b, c) < 0 {
			b, c = c, b
		}
		for _, p := range in.points() {
			if within(a, b, c, p) > 0 {
				t.Fail("", "the circle through %v %v %v contains %v", a, b, c, p)
			}
		}
	}
}

func degenerate(ps []P) bool { return area2(hull(ps)) == 0 }

type gen = func(t *eng.T) input
type check = func(t *eng.T, in input, tr *triangulate2.Triangulation, err error)

// roomy: a copy of v with other points of the caller's behind it, in the same memory
func roomy(v []r3.Vector) []r3.Vector {
	if v == nil {
		return nil
	}
	w := append(make([]r3.Vector, 0, len(v)+8), v...)
	for i := len(w); i < cap(w); i++ {
		w[:cap(w)][i] = r3.Vector{X: 1e9, Y: float64(i)}
	}
	return w
}

func intact(t *eng.T, w []r3.Vector) {
	for i := len(w); i < cap(w); i++ {
		if (w[:cap(w)][i] != r3.Vector{X: 1e9, Y: float64(i)}) {
			t.Fail("", "the caller's memory behind the points was overwritten")
		}
	}
}

// run triangulates a generated input and hands the result to the checks.
func run(g gen, c check) func(t *eng.T) {
	return func(t *eng.T) {
		in := g(t)
		t.Describe(func() string { return fmt.Sprintf("points %v", in.v) })
		in.v = roomy(in.v)
		keep := append([]r3.Vector{}, in.v...)
		var tr *triangulate2.Triangulation
		var err error
		t.Must("Triangulate", steps(len(in.v)), func() { tr, err = triangulate2.Triangulate(in.v) })
		for i := range keep {
			if in.v[i] != keep[i] {
				t.Fail("", "Triangulate modified its input (point %d)", i)
			}
		}
		intact(t, in.v)
		c(t, in, tr, err)
		if tr != nil {
			t.State(len(tr.Triangles), fmt.Sprint(tr.Triangles))
		}
	}
}

func structure(t *eng.T, in input, tr *triangulate2.Triangulation, err error) bool {
	if in.inexact() && in.collinear() || !in.inexact() && degenerate(in.ps) {
		t.Skip()
	}
	if err != nil {
		t.Fail("", "Triangulate fails: %v", err)
	}
	if len(tr.Triangles)%3 != 0 || len(tr.Triangles) == 0 {
		t.Fail("", "%d triangle entries", len(tr.Triangles))
	}
	for _, v := range tr.Triangles {
		if v < 0 || v >= len(in.ps) {
			t.Fail("", "vertex index %d of %d points", v, len(in.ps))
		}
	}
	return true
}

func tiling(t *eng.T, in input, tr *triangulate2.Triangulation, err error) {
	structure(t, in, tr, err)
	if len(tr.Vectors) != len(in.v) {
		t.Fail("", "the triangulation holds %d points of %d", len(tr.Vectors), len(in.v))
	}
	for i := range in.v {
		if tr.Vectors[i] != in.v[i] {
			t.Fail("", "the triangulation's point %d differs from the input", i)
		}
	}
	if in.inexact() {
		exactTiling(t, in, tr)
		return
	}
	var sum int64
	used := map[P]bool{}
	type e [2]P
	edges := map[e]int{}
	idx := map[P]int{}
	var o0 int64
	for i := 0; i < len(tr.Triangles); i += 3 {
		ix := tr.Triangles[i : i+3]
		a, b, c := in.ps[ix[0]], in.ps[ix[1]], in.ps[ix[2]]
		ar := cross(a, b, c)
		if ar == 0 {
			t.Fail("", "triangle %v %v %v is degenerate", a, b, c)
		}
		if o0 == 0 {
			o0 = ar
		}
		if (ar > 0) != (o0 > 0) {
			t.Fail("", "triangles of both orientations: %v %v %v", a, b, c)
		}
		if ar < 0 {
			ar = -ar
		}
		sum += ar
		for k, p := range []P{a, b, c} {
			if j, ok := idx[p]; ok && j != ix[k] {
				t.Fail("", "two copies %d and %d of the point %v are both used", j, ix[k], p)
			}
			idx[p] = ix[k]
			used[p] = true
		}
		edges[e{a, b}]++
		edges[e{b, c}]++
		edges[e{c, a}]++
	}
	for d, k := range edges {
		if k > 1 {
			t.Fail("", "the directed edge %v is in %d triangles", d, k)
		}
	}
	if want := area2(hull(in.ps)); sum != want {
		t.Fail("", "the triangles cover twice-area %d, the hull has %d", sum, want)
	}
	for p := range distinct(in.ps) {
		if !used[p] {
			t.Fail("", "the point %v is in no triangle", p)
		}
	}
	// boundary edges lie on the hull
	h := hull(in.ps)
	for d := range edges {
		if edges[e{d[1], d[0]}] == 0 && !onHull(h, d[0], d[1]) {
			t.Fail("", "the edge %v has a triangle on one side only but is not on the hull", d)
		}
	}
}

func onHull(h []P, a, b P) bool {
	for i := range h {
		if cross(h[i], h[(i+1)%len(h)], a) == 0 && cross(h[i], h[(i+1)%len(h)], b) == 0 {
			return true
		}
	}
	return false
}

func delaunay(t *eng.T, in input, tr *triangulate2.Triangulation, err error) {
	structure(t, in, tr, err)
	if in.inexact() {
		exactDelaunay(t, in, tr)
		return
	}
	if len(in.ps) > 300 {
		localDelaunay(t, in, tr)
		return
	}
	ds := distinct(in.ps)
	for i := 0; i < len(tr.Triangles); i += 3 {
		a, b, c := in.ps[tr.Triangles[i]], in.ps[tr.Triangles[i+1]], in.ps[tr.Triangles[i+2]]
		o := cross(a, b, c)
		if o == 0 {
			t.Fail("", "triangle %v %v %v is degenerate", a, b, c)
		}
		for p := range ds {
			x := inCircle(a, b, c, p)
			if o < 0 {
				x = -x
			}
			if x > 0 {
				t.Fail("", "the circle through %v %v %v contains %v", a, b, c, p)
			}
		}
	}
}

// localDelaunay: across no edge is the opposite corner inside the circle. For a triangulation of the hull (T01)
// this is equivalent to the circles being empty.
func localDelaunay(t *eng.T, in input, tr *triangulate2.Triangulation) {
	in.exact()
	type e [2]int
	opposite := map[e]int{}
	for i := range tr.Triangles {
		j, k := i-i%3+(i+1)%3, i-i%3+(i+2)%3
		opposite[e{tr.Triangles[i], tr.Triangles[j]}] = tr.Triangles[k]
	}
	for d, c := range opposite {
		o, ok := opposite[e{d[1], d[0]}]
		if !ok || d[0] > d[1] {
			continue
		}
		v := [4]r3.Vector{in.v[d[0]], in.v[d[1]], in.v[c], in.v[o]}
		side := within(v[0], v[1], v[2], v[3])
		if orient(v[0], v[1], v[2]) < 0 {
			side = -side
		}
		if side > 0 {
			t.Fail("", "the circle through %v %v %v contains %v", v[0], v[1], v[2], v[3])
		}
	}
}

func halfedges(t *eng.T, in input, tr *triangulate2.Triangulation, err error) {
	structure(t, in, tr, err)
	he, ts := tr.Halfedges, tr.Triangles
	if len(he) != len(ts) {
		t.Fail("", "%d half-edges for %d triangle corners", len(he), len(ts))
	}
	next := func(e int) int { return e - e%3 + (e+1)%3 }
	type ed [2]int
	open := map[ed]int{}
	nextOnHull := map[int]int{}
	boundary := 0
	for e, o := range he {
		a, b := ts[e], ts[next(e)]
		if o == -1 {
			boundary++
			if _, dup := nextOnHull[a]; dup {
				t.Fail("", "two boundary edges leave vertex %d", a)
			}
			nextOnHull[a] = b
			open[ed{a, b}]++
			continue
		}
		if o < 0 || o >= len(he) || he[o] != e {
			t.Fail("", "half-edge %d is linked to %d, which is not linked back", e, o)
		}
		if ts[o] != b || ts[next(o)] != a {
			t.Fail("", "half-edges %d (%d-%d) and %d (%d-%d) are linked but are not the two sides of one edge", e, a, b, o, ts[o], ts[next(o)])
		}
	}
	for d := range open {
		if open[ed{d[1], d[0]}] > 0 {
			t.Fail("", "both sides of the edge %v are marked as boundary", d)
		}
	}
	// the boundary is one cycle and is the reported hull
	h := tr.ConvexHull
	if len(h) != boundary {
		t.Fail("", "the hull lists %d points, the boundary has %d edges", len(h), boundary)
	}
	var cyc []P
	start := -1
	for a := range nextOnHull {
		if start < 0 || a < start {
			start = a
		}
	}
	for a, k := start, 0; k < boundary; k++ {
		cyc = append(cyc, in.ps[a])
		b, ok := nextOnHull[a]
		if !ok {
			t.Fail("", "the boundary is not a cycle")
		}
		a = b
		if a == start && k+1 < boundary {
			t.Fail("", "the boundary falls into several cycles")
		}
	}
	var hp []P
	for _, v := range h {
		hp = append(hp, in.back(v))
	}
	if !cyclic(cyc, hp) {
		t.Fail("", "the hull %v is not the boundary %v", hp, cyc)
	}
	if in.inexact() {
		exactHull(t, in, h)
		return
	}
	// it is convex, is the hull, and runs counter-clockwise
	if a := area2(hp); a != area2(hull(in.ps)) {
		t.Fail("", "the hull %v has twice-area %d, want %d", hp, a, area2(hull(in.ps)))
	}
}

// cyclic: the same cycle, in either direction
func cyclic(a, b []P) bool {
	n := len(a)
	if n != len(b) {
		return false
	}
	for s := 0; s < n; s++ {
		f, r := true, true
		for i := 0; i < n && (f || r); i++ {
			f = f && a[i] == b[(s+i)%n]
			r = r && a[i] == b[((s-i)%n+n)%n]
		}
		if f || r {
			return true
		}
	}
	return n == 0
}

func convexHull(g gen) func(t *eng.T) {
	return func(t *eng.T) {
		in := g(t)
		t.Describe(func() string { return fmt.Sprintf("points %v", in.v) })
		in.v = roomy(in.v)
		keep := append([]r3.Vector{}, in.v...)
		var got []r3.Vector
		t.Must("ConvexHull", steps(len(in.v)), func() { got = triangulate2.ConvexHull(in.v) })
		for i := range keep {
			if in.v[i] != keep[i] {
				t.Fail("", "ConvexHull modified its input (point %d)", i)
			}
		}
		intact(t, in.v)
		if in.inexact() {
			exactHull(t, in, got)
			return
		}
		ds := distinct(in.ps)
		vs := map[r3.Vector]bool{}
		for _, v := range in.v {
			vs[v] = true
		}
		seen := map[P]int{}
		var hp []P
		for _, v := range got {
			if !vs[v] {
				t.Fail("", "the hull has a point %v that is not in the input", v)
			}
			hp = append(hp, in.back(v))
			seen[in.back(v)]++
		}
		ext := hull(in.ps)
		for _, p := range ext {
			if seen[p] == 0 {
				t.Fail("", "the extreme point %v is not on the hull %v", p, hp)
			}
		}
		for p := range seen {
			if !ds[p] {
				t.Fail("", "%v", p)
			}
		}
		if area2(ext) == 0 {
			// none, one, or collinear points: the extremes are promised
			t.State("degenerate", len(hp))
			return
		}
		for p, k := range seen {
			if k > 1 {
				t.Fail("", "the point %v is on the hull %v %d times", p, hp, k)
			}
		}
		// the hull names every point on its boundary
		for p := range ds {
			on := false
			for i := range ext {
				on = on || cross(ext[i], ext[(i+1)%len(ext)], p) == 0
			}
			if on && seen[p] == 0 {
				t.Fail("", "the point %v on the boundary is not on the hull %v", p, hp)
			}
		}
		for i := range hp {
			a, b, c := hp[i], hp[(i+1)%len(hp)], hp[(i+2)%len(hp)]
			if cross(a, b, c) < 0 {
				t.Fail("", "the hull %v turns clockwise at %v", hp, b)
			}
			for p := range ds {
				if cross(a, b, p) < 0 {
					t.Fail("", "the point %v is outside the hull %v", p, hp)
				}
			}
		}
		if area2(hp) != area2(ext) {
			t.Fail("", "the hull %v has twice-area %d, want %d", hp, area2(hp), area2(ext))
		}
		t.State(fmt.Sprint(hp))
	}
}

// inputs without a triangulation
func noTriangulation(g gen) func(t *eng.T) {
	return func(t *eng.T) {
		in := g(t)
		if !degenerate(in.ps) {
			t.Skip()
		}
		t.Describe(func() string { return fmt.Sprintf("points %v", in.v) })
		var tr *triangulate2.Triangulation
		var err error
		if o := t.Call(steps(len(in.v)), func() { tr, err = triangulate2.Triangulate(in.v) }); !o.OK() {
			t.Fail("", "Triangulate %s", o)
		}
		if len(in.ps) > 0 && err == nil {
			t.Fail("", "no error, although the points have no triangulation")
		}
		if tr != nil && (len(tr.Triangles) != 0 || len(tr.Halfedges) != 0) {
			t.Fail("", "triangles %v for points that have none", tr.Triangles)
		}
		if tr != nil {
			t.Must("Validate", steps(len(in.v)), func() { tr.Validate() })
		}
		t.State(len(in.ps), err != nil)
	}
}

func collinear(t *eng.T) input {
	d := []P{{1, 0}, {0, 1}, {1, 1}, {2, -3}, {-1, 4}, {7, 5}}[t.Choose(6)]
	n := t.Choose(80)
	var ps []P
	st := []int64{1, 3, 1000}[t.Choose(3)]
	for i := 0; i < n; i++ {
		k := int64(i) * st
		if i%5 == 4 {
			k -= st // a duplicate
		}
		ps = append(ps, P{d[0] * k, d[1] * k})
	}
	return mk(reorder(ps, t.Choose(4)), []int{0, 1, 3, 4}[t.Choose(4)])
}

func validAccepts(t *eng.T, in input, tr *triangulate2.Triangulation, err error) {
	structure(t, in, tr, err)
	var v error
	t.Must("Validate", steps(len(in.v)), func() { v = tr.Validate() })
	if v != nil {
		t.Fail("", "Validate rejects the triangulation that Triangulate built: %v", v)
	}
}

func (in input) hullArea(c *triangulate2.Triangulation) int64 {
	var h []P
	for _, v := range c.ConvexHull {
		h = append(h, in.back(v))
	}
	return area2(h)
}

// without takes triangle k out and relinks its neighbours to the border.
func without(c *triangulate2.Triangulation, k int) {
	var he []int
	for e, o := range c.Halfedges {
		if e/3 == k {
			continue
		}
		switch {
		case o >= 0 && o/3 == k:
			o = -1
		case o > 3*k:
			o -= 3
		}
		he = append(he, o)
	}
	c.Halfedges = he
	c.Triangles = append(c.Triangles[:3*k], c.Triangles[3*k+3:]...)
}

// small: subsets of a grid in the corner of a large triangle
func small(w, h int, size int64) gen {
	g := subsets(w, h, 1, 1)
	return func(t *eng.T) input {
		in := g(t)
		var ps []P
		for _, p := range in.ps {
			ps = append(ps, P{p[0] + size/2, p[1] + size/3})
		}
		return mk(append(ps, P{0, 0}, P{size, 0}, P{0, size}), []int{0, 4}[t.Choose(2)])
	}
}

// every single corruption of a triangulation
func validRejects(g gen) func(t *eng.T) {
	return func(t *eng.T) {
		in := g(t)
		if degenerate(in.ps) {
			t.Skip()
		}
		var tr *triangulate2.Triangulation
		var err error
		t.Must("Triangulate", steps(len(in.v)), func() { tr, err = triangulate2.Triangulate(in.v) })
		if err != nil || tr == nil {
			t.Skip()
		}
		c := &triangulate2.Triangulation{Vectors: append([]r3.Vector{}, tr.Vectors...), ConvexHull: append([]r3.Vector{}, tr.ConvexHull...),
			Triangles: append([]int{}, tr.Triangles...), Halfedges: append([]int{}, tr.Halfedges...)}
		what := ""
		switch t.Choose(8) {
		case 4: // one triangle missing, its neighbours at the border instead
			k := t.Choose(len(c.Triangles) / 3)
			what = fmt.Sprintf("triangle %d missing, neighbours relinked", k)
			without(c, k)
		case 5: // an ear missing, from the hull as well
			k := t.Choose(len(c.Triangles) / 3)
			ear := -1
			for j := 0; j < 3; j++ {
				if c.Halfedges[3*k+j] == -1 && c.Halfedges[3*k+(j+2)%3] == -1 && c.Halfedges[3*k+(j+1)%3] != -1 {
					ear = c.Triangles[3*k+j]
				}
			}
			at := -1
			for i, v := range c.ConvexHull {
				if ear >= 0 && v.X == c.Vectors[ear].X && v.Y == c.Vectors[ear].Y {
					at = i
				}
			}
			if at < 0 {
				t.Skip()
			}
			what = fmt.Sprintf("triangle %d missing, and its outer corner from the hull", k)
			without(c, k)
			c.ConvexHull = append(c.ConvexHull[:at], c.ConvexHull[at+1:]...)
		case 6: // two hull vertices listed twice: the same area, a longer outline
			k := t.Choose(len(c.ConvexHull))
			a, b := c.ConvexHull[k], c.ConvexHull[(k+1)%len(c.ConvexHull)]
			what = fmt.Sprintf("hull vertices %d and the next listed twice", k)
			c.ConvexHull = append(append(append([]r3.Vector{}, c.ConvexHull[:k]...), a, b), c.ConvexHull[k:]...)
		case 7: // one hull vertex is another point, or the hull turned around
			k, j := t.Choose(len(c.ConvexHull)+1), t.Choose(len(in.ps))
			was := in.hullArea(c)
			if k == len(c.ConvexHull) {
				if j > 0 {
					t.Skip()
				}
				for a, b := 0, k-1; a < b; a, b = a+1, b-1 {
					c.ConvexHull[a], c.ConvexHull[b] = c.ConvexHull[b], c.ConvexHull[a]
				}
				what = "hull turned around"
			} else {
				c.ConvexHull[k] = c.Vectors[j]
				what = fmt.Sprintf("hull vertex %d is point %d", k, j)
			}
			if in.hullArea(c) == was {
				t.Skip()
			}
		case 0: // one half-edge link changed
			e := t.Choose(len(c.Halfedges))
			o := t.Choose(len(c.Halfedges)+1) - 1
			if c.Halfedges[e] == o || o == e && c.Halfedges[e] == -1 {
				t.Skip()
			}
			what = fmt.Sprintf("half-edge %d relinked from %d to %d", e, c.Halfedges[e], o)
			c.Halfedges[e] = o
			ok := true // still an involution?
			for a, b := range c.Halfedges {
				if b != -1 && c.Halfedges[b] != a {
					ok = false
				}
			}
			if ok {
				t.Skip()
			}
		case 1: // one triangle removed from the list of triangles
			k := t.Choose(len(c.Triangles) / 3)
			what = fmt.Sprintf("triangle %d missing", k)
			c.Triangles = append(c.Triangles[:3*k], c.Triangles[3*k+3:]...)
		case 2: // one corner moved to another point
			e := t.Choose(len(c.Triangles))
			p := t.Choose(len(in.ps))
			ar := func() (s int64) {
				for i := 0; i < len(c.Triangles); i += 3 {
					s += cross(in.ps[c.Triangles[i]], in.ps[c.Triangles[i+1]], in.ps[c.Triangles[i+2]])
				}
				return
			}
			old := ar()
			what = fmt.Sprintf("corner %d is %d instead of %d", e, p, c.Triangles[e])
			c.Triangles[e] = p
			if ar() == old {
				t.Skip() // the same total area: beyond what Validate promises
			}
		case 3: // one hull vertex missing
			k := t.Choose(len(c.ConvexHull))
			n := len(c.ConvexHull)
			a, b, d := in.back(c.ConvexHull[(k+n-1)%n]), in.back(c.ConvexHull[k]), in.back(c.ConvexHull[(k+1)%n])
			if cross(a, b, d) == 0 {
				t.Skip()
			}
			what = fmt.Sprintf("hull vertex %d missing", k)
			c.ConvexHull = append(c.ConvexHull[:k], c.ConvexHull[k+1:]...)
		}
		t.Describe(func() string { return fmt.Sprintf("points %v, %s", in.v, what) })
		var v error
		o := t.Call(budget, func() { v = c.Validate() })
		if o.Hang {
			t.Fail("", "Validate %s", o)
		}
		if o.OK() && v == nil {
			t.Fail("", "Validate accepts it")
		}
		t.State(what)
	}
}

// planar measures (T07): internal helpers, by name; one that is gone is not judged.
var (
	fArea, okArea         = hx.Fn[func(a, b, c r3.Vector) float64](triangulate2.VerifFuncs, "area")
	fInCircle, okInCircle = hx.Fn[func(a, b, c, p r3.Vector) bool](triangulate2.VerifFuncs, "inCircle")
	fRadius, okRadius     = hx.Fn[func(a, b, c r3.Vector) float64](triangulate2.VerifFuncs, "circumradius")
	fCenter, okCenter     = hx.Fn[func(a, b, c r3.Vector) r3.Vector](triangulate2.VerifFuncs, "circumcenter")
	fPolyArea, okPolyArea = hx.Fn[func([]r3.Vector) float64](triangulate2.VerifFuncs, "polygonArea")
	fPolyLen, okPolyLen   = hx.Fn[func([]r3.Vector) float64](triangulate2.VerifFuncs, "polygonPerimeter")
	fPseudo, okPseudo     = hx.Fn[func(dx, dy float64) float64](triangulate2.VerifFuncs, "pseudoAngle")
	fPointCmp, okPointCmp = hx.Fn[func(o, p, q r3.Vector) float64](predicates.VerifFuncs, "CompareToPoint")
	fOrient, okOrient     = hx.Fn[func(a, b, c r3.Vector) float64](predicates.VerifFuncs, "Orient2D")
	fInCirc, okInCirc     = hx.Fn[func(a, b, c, d r3.Vector) float64](predicates.VerifFuncs, "InCircle")
	measurePlaces         = []place{places[0], places[2], places[3], places[4], places[7], places[8], {s: 0x1p-70, z: flat(3)}, {s: 0x1p60, ox: -0x1p70, z: flat(0)}}
)

func gridP(w, h int) []P {
	var l []P
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			l = append(l, P{int64(x), int64(y)})
		}
	}
	return l
}

func tripleMeasures(w, h int) func(t *eng.T) {
	g := gridP(w, h)
	return func(t *eng.T) {
		pl := measurePlaces[t.Choose(len(measurePlaces))]
		ps := []P{g[t.Choose(len(g))], g[t.Choose(len(g))], g[t.Choose(len(g))]}
		v := pl.vecs(ps)
		a, b, c := v[0], v[1], v[2]
		t.Describe(func() string { return fmt.Sprintf("points %v", v) })
		cr := cross(ps[0], ps[1], ps[2])
		if okArea {
			var got float64
			t.Must("area", budget, func() { got = fArea(a, b, c) })
			if want := -float64(cr) * pl.s * pl.s; got != want {
				t.Fail("", "area = %v, want %v", got, want)
			}
		}
		d2 := func(p, q P) int64 { return (p[0]-q[0])*(p[0]-q[0]) + (p[1]-q[1])*(p[1]-q[1]) }
		la, lb, lc := d2(ps[1], ps[2]), d2(ps[0], ps[2]), d2(ps[0], ps[1])
		if okRadius {
			var got float64
			t.Must("circumradius", budget, func() { got = fRadius(a, b, c) })
			if cr == 0 {
				if !math.IsInf(got, 1) {
					t.Fail("", "squared circumradius %v of points on a line", got)
				}
			} else if want := float64(la*lb*lc) / float64(4*cr*cr) * pl.s * pl.s; !hx.Close(got, want, want) {
				t.Fail("", "squared circumradius = %v, want %v", got, want)
			}
		}
		if okCenter && cr != 0 {
			var got r3.Vector
			t.Must("circumcenter", budget, func() { got = fCenter(a, b, c) })
			// offset of the centre from the first point, times 2 cr
			bx, by, cx, cy := ps[1][0]-ps[0][0], ps[1][1]-ps[0][1], ps[2][0]-ps[0][0], ps[2][1]-ps[0][1]
			x, y := float64(cy*lc-by*lb)/float64(2*cr), float64(bx*lb-cx*lc)/float64(2*cr)
			want := r3.Vector{X: a.X + x*pl.s, Y: a.Y + y*pl.s}
			size := math.Sqrt(float64(la*lb*lc)/float64(4*cr*cr))*pl.s + 1e-6*(math.Abs(want.X)+math.Abs(want.Y))
			if !hx.Close(got.X, want.X, size) || !hx.Close(got.Y, want.Y, size) {
				t.Fail("", "circumcenter = %v, want %v", got, want)
			}
		}
		t.State(cr, la, lb, lc)
	}
}

func circleMeasures(w, h int) func(t *eng.T) {
	g := gridP(w, h)
	return func(t *eng.T) {
		pl := measurePlaces[t.Choose(len(measurePlaces))]
		ps := []P{g[t.Choose(len(g))], g[t.Choose(len(g))], g[t.Choose(len(g))], g[t.Choose(len(g))]}
		cr := cross(ps[0], ps[1], ps[2])
		v := pl.vecs(ps)
		t.Describe(func() string { return fmt.Sprintf("points %v", v) })
		in := hx.Sgn(inCircle(ps[0], ps[1], ps[2], ps[3]))
		if okInCircle && cr != 0 {
			var got bool
			t.Must("inCircle", budget, func() { got = fInCircle(v[0], v[1], v[2], v[3]) })
			if want := in < 0; got != want {
				t.Fail("", "inCircle = %v, want %v (turn %d, side %d)", got, want, hx.Sgn(cr), in)
			}
		}
		if okInCirc {
			var got float64
			t.Must("InCircle", budget, func() { got = fInCirc(v[0], v[1], v[2], v[3]) })
			if hx.SgnF(got) != in {
				t.Fail("", "InCircle = %v, want sign %d", got, in)
			}
		}
		if okOrient {
			var got float64
			t.Must("Orient2D", budget, func() { got = fOrient(v[0], v[1], v[2]) })
			if hx.SgnF(got) != hx.Sgn(cr) {
				t.Fail("", "Orient2D = %v, want sign %d", got, hx.Sgn(cr))
			}
		}
		if okPointCmp {
			d2 := func(p, q P) int64 { return (p[0]-q[0])*(p[0]-q[0]) + (p[1]-q[1])*(p[1]-q[1]) }
			var got float64
			t.Must("CompareToPoint", budget, func() { got = fPointCmp(v[0], v[1], v[2]) })
			if want := hx.Sgn(d2(ps[0], ps[1]) - d2(ps[0], ps[2])); hx.SgnF(got) != want {
				t.Fail("", "CompareToPoint = %v, want sign %d", got, want)
			}
		}
		t.State(hx.Sgn(cr), in)
	}
}

// inexactMeasures: three corners and a query a few ulps around a cocircular place, against exact arithmetic.
func inexactMeasures(w, h, u int) func(t *eng.T) {
	g := gridP(w, h)
	return func(t *eng.T) {
		pl := similar[t.Choose(len(similar))]
		ps := []P{g[t.Choose(len(g))], g[t.Choose(len(g))], g[t.Choose(len(g))], g[t.Choose(len(g))]}
		if cross(ps[0], ps[1], ps[2]) == 0 {
			t.Skip()
		}
		v := pl.vecs(ps)
		for k := t.Choose(u); k > 0; k-- {
			v[3].X = math.Nextafter(v[3].X, math.Inf(1))
		}
		for k := t.Choose(u); k > 0; k-- {
			v[3].Y = math.Nextafter(v[3].Y, math.Inf(-1))
		}
		t.Describe(func() string { return fmt.Sprintf("points %v", v) })
		input{v: v}.exact()
		in := within(v[0], v[1], v[2], v[3])
		if okInCircle && orient(v[0], v[1], v[2]) != 0 {
			var got bool
			t.Must("inCircle", budget, func() { got = fInCircle(v[0], v[1], v[2], v[3]) })
			if want := in < 0; got != want {
				t.Fail("", "inCircle = %v, want %v", got, want)
			}
		}
		if okInCirc {
			var got float64
			t.Must("InCircle", budget, func() { got = fInCirc(v[0], v[1], v[2], v[3]) })
			if hx.SgnF(got) != in {
				t.Fail("", "InCircle = %v, want sign %d", got, in)
			}
		}
		if okOrient {
			var got float64
			t.Must("Orient2D", budget, func() { got = fOrient(v[0], v[1], v[3]) })
			if want := orient(v[0], v[1], v[3]); hx.SgnF(got) != want {
				t.Fail("", "Orient2D = %v, want sign %d", got, want)
			}
		}
		t.State(in)
	}
}

func polygonMeasures(w, h, n int) func(t *eng.T) {
	g := gridP(w, h)
	return func(t *eng.T) {
		pl := measurePlaces[t.Choose(len(measurePlaces))]
		k := t.Choose(n + 1)
		ps := make([]P, k)
		for i := range ps {
			ps[i] = g[t.Choose(len(g))]
		}
		v := roomy(pl.vecs(ps))
		t.Describe(func() string { return fmt.Sprintf("polygon %v", v) })
		keep := append([]r3.Vector{}, v...)
		var length float64
		for i, p := range ps {
			q := ps[(i+1)%k]
			length += math.Hypot(float64(p[0]-q[0]), float64(p[1]-q[1]))
		}
		if okPolyArea {
			var got float64
			t.Must("polygonArea", budget, func() { got = fPolyArea(v) })
			if want := float64(area2(ps)) / 2 * pl.s * pl.s; !hx.Close(got, want, math.Max(1, length*length)*pl.s*pl.s) {
				t.Fail("", "polygonArea = %v, want %v", got, want)
			}
		}
		if okPolyLen {
			var got float64
			t.Must("polygonPerimeter", budget, func() { got = fPolyLen(v) })
			if want := length * pl.s; !hx.Close(got, want, want+1e-9*pl.s) {
				t.Fail("", "polygonPerimeter = %v, want %v", got, want)
			}
		}
		for i := range v {
			if v[i] != keep[i] {
				t.Fail("", "the polygon is modified")
			}
		}
		intact(t, v)
		t.State(k, area2(ps))
	}
}

// angles: the pseudo-angle is in [0, 1), is that of the direction alone, and grows strictly with the angle from
// the negative x axis counter-clockwise.
func angles(r int64) func(t *eng.T) {
	var ds []P
	for x := -r; x <= r; x++ {
		for y := -r; y <= r; y++ {
			ds = append(ds, P{x, y})
		}
	}
	half := func(d P) int { // 0: y < 0 or the negative x axis; 1: the rest
		if d[1] < 0 || d[1] == 0 && d[0] < 0 {
			return 0
		}
		return 1
	}
	scales := []float64{1, 0x1p-200, 0x1p200, 3}
	return func(t *eng.T) {
		a, b := ds[t.Choose(len(ds))], ds[t.Choose(len(ds))]
		s := scales[t.Choose(len(scales))]
		if !okPseudo {
			t.Skip()
		}
		var pa, pb float64
		t.Describe(func() string { return fmt.Sprintf("directions %v and %v", a, b) })
		t.Must("pseudoAngle", budget, func() { pa, pb = fPseudo(float64(a[0]), float64(a[1])), fPseudo(s*float64(b[0]), s*float64(b[1])) })
		if !(pa >= 0 && pa < 1 && pb >= 0 && pb < 1) {
			t.Fail("", "pseudo-angles %v and %v", pa, pb)
		}
		if a == (P{}) || b == (P{}) {
			return
		}
		want := 0
		if half(a) != half(b) {
			want = half(a) - half(b)
		} else if c := cross(P{}, a, b); c != 0 {
			want = -hx.Sgn(c)
		}
		if want == 0 && math.Abs(pa-pb) > 1e-12 || want != 0 && hx.SgnF(pa-pb) != want {
			t.Fail("", "pseudo-angles %v and %v, want order %d", pa, pb, want)
		}
		t.State(want)
	}
}

func main() {
	rule := "every subset of the grid in several input orders and placements (offsets, scales, constant and varying heights), every ordered tuple of grid points (repetitions included) up to the length, and larger regular families (lattice rules, grids, circles, clusters, lines, parabolas, spirals)"
	asm := []string{"finite coordinates whose squared differences neither overflow nor vanish; the harness decides orientation and in-circle exactly on the very coordinates"}
	gens := func(th bool) []struct {
		n string
		g gen
		s int
	} {
		type G = struct {
			n string
			g gen
			s int
		}
		small := []int{5, 9, 10, 16, 17, 26, 37, 50, 64, 65}
		if th {
			return []G{{"subsets of a 3x3 grid", subsets(3, 3, 4, len(places)), 2}, {"subsets of a 4x4 grid", subsets(4, 4, 4, len(places)), 3},
				{"subsets of a 5x4 grid", subsets(5, 4, 2, 1), 2}, {"tuples of a 3x3 grid", tuples(3, 3, 6, 1), 4}, {"tuples of a 4x4 grid", tuples(4, 4, 5, 1), 4},
				{"tuples of a 3x3 grid, placed", tuples(3, 3, 5, len(places)), 4}, {"tuples of a 3x3 grid, inexactly placed", inexactly(tuples(3, 3, 5, 1)), 4},
				{"tuples of a 3x3 grid, perturbed", perturbed(tuples(3, 3, 4, 1), []P{{0, 0}, {1, 0}, {0, -1}, {2, 1}}), 5}, {"subsets of a 3x3 grid, perturbed", perturbed(subsets(3, 3, 2, 1), []P{{0, 0}, {-1, 2}}), 5},
				{"tuples of a 2x2 grid, perturbed", perturbed(tuples(2, 2, 6, 1), []P{{0, 0}, {1, 0}, {0, 3}}), 5},
				{"subsets of a 4x4 grid, inexactly placed", inexactly(subsets(4, 4, 2, 1)), 3}, {"families, inexactly placed", inexactly(families(small, 8)), 5}, {"families", families(append(small, 82, 101, 122, 145, 200, 257), 25), 5},
				{"large families", families([]int{362, 500, 1025}, 4), 5}}
		}
		return []G{{"subsets of a 3x3 grid", subsets(3, 3, 4, len(places)), 2}, {"subsets of a 4x4 grid", subsets(4, 4, 2, 2), 3}, {"large families", families([]int{401, 1025}, 2), 5},
			{"tuples of a 3x3 grid", tuples(3, 3, 5, 2), 4}, {"tuples of a 4x3 grid", tuples(4, 3, 4, len(places)), 3}, {"families", families(small, 8), 5},
			{"tuples of a 3x3 grid, perturbed", perturbed(tuples(3, 3, 4, 1), []P{{0, 0}, {1, 0}, {0, -1}}), 5}, {"subsets of a 3x3 grid, perturbed", perturbed(subsets(3, 3, 1, 1), []P{{0, 0}, {-1, 2}}), 5},
			{"tuples of a 2x2 grid, perturbed", perturbed(tuples(2, 2, 5, 1), []P{{0, 0}, {1, 0}, {0, 3}}), 5},
			{"subsets of a 4x3 grid, inexactly placed", inexactly(subsets(4, 3, 3, 1)), 3}, {"tuples of a 3x3 grid, inexactly placed", inexactly(tuples(3, 3, 4, 1)), 4}, {"families, inexactly placed", inexactly(families([]int{10, 26}, 4)), 5}}
	}
	over := func(c check) func(bool) []eng.Scenario {
		return func(th bool) (l []eng.Scenario) {
			for _, g := range gens(th) {
				l = append(l, eng.Scenario{Name: g.n, Body: run(g.g, c), Shard: g.s})
			}
			return
		}
	}
	eng.Main(
		&eng.Prop{ID: "T01", Rule: rule, Assumptions: asm, Scenarios: over(tiling)},
		&eng.Prop{ID: "T02", Rule: rule, Assumptions: asm, Scenarios: over(delaunay)},
		&eng.Prop{ID: "T03", Rule: rule, Assumptions: asm, Scenarios: over(halfedges)},
		&eng.Prop{ID: "T04", Rule: rule, Assumptions: asm, Scenarios: func(th bool) (l []eng.Scenario) {
			for _, g := range gens(th) {
				l = append(l, eng.Scenario{Name: g.n, Body: convexHull(g.g), Shard: g.s})
			}
			return append(l, eng.Scenario{Name: "collinear", Body: convexHull(collinear)})
		}},
		&eng.Prop{ID: "T05", Rule: "every ordered tuple of grid points up to the length that has no triangulation, and collinear families up to 79 points with duplicates", Assumptions: asm, Scenarios: func(th bool) []eng.Scenario {
			n, m := 4, 6
			if th {
				n, m = 6, 8
			}
			return []eng.Scenario{{Name: "tuples of a 3x3 grid", Body: noTriangulation(tuples(3, 3, n, len(places))), Shard: 4},
				{Name: "tuples of a 2x2 grid", Body: noTriangulation(tuples(2, 2, m, len(places))), Shard: 4},
				{Name: "collinear", Body: noTriangulation(collinear)}}
		}},
		&eng.Prop{ID: "T06", Rule: rule + "; every single corruption (one link, one triangle with or without its links, one ear with its hull vertex, one corner, one hull vertex, the hull turned around) of every triangulation of a smaller set", Assumptions: asm, Scenarios: func(th bool) []eng.Scenario {
			l := over(validAccepts)(th)
			for i := range l {
				l[i].Name = "accepts: " + l[i].Name
			}
			l = append(l, eng.Scenario{Name: "rejects: subsets of a 3x3 grid", Body: validRejects(subsets(3, 3, 1, 2)), Shard: 3},
				eng.Scenario{Name: "rejects: subsets of a 3x2 grid, every placement", Body: validRejects(subsets(3, 2, 2, len(places))), Shard: 3},
				eng.Scenario{Name: "rejects: subsets of a 2x2 grid in a large triangle", Body: validRejects(small(2, 2, 1<<13)), Shard: 3})
			if th {
				l = append(l, eng.Scenario{Name: "rejects: families", Body: validRejects(families([]int{10, 17}, 6)), Shard: 5},
					eng.Scenario{Name: "rejects: subsets of a 4x3 grid", Body: validRejects(subsets(4, 3, 2, 1)), Shard: 3})
			}
			return l
		}},
		&eng.Prop{ID: "T07", Rule: "every triple and quadruple of grid points in several exact placements, every quadruple inexactly placed with a query moved by ulps, every polygon of up to five grid points, every pair of directions", Assumptions: asm, Scenarios: func(th bool) []eng.Scenario {
			k, q, n, u, r := 5, 4, 5, 3, int64(6)
			if th {
				k, q, n, u, r = 7, 5, 6, 4, 16
			}
			return []eng.Scenario{{Name: "triples", Body: tripleMeasures(k, k)}, {Name: "quadruples", Body: circleMeasures(q, q+1), Shard: 3},
				{Name: "inexact quadruples", Body: inexactMeasures(q, q, u), Shard: 3}, {Name: "polygons", Body: polygonMeasures(3, 3, n), Shard: 3}, {Name: "angles", Body: angles(r)}}
		}},
	)
}
