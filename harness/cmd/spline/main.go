// Harness for package nurbs: knot spans, basis functions, curve points.
package main

import (
	"fmt"
	"math"

	"github.com/ungerik/go3d/float64/vec3"
	"nurbs"
	"verifh/eng"
	"verifh/hx"
)

const budget = 50_000

var (
	findSpan, okSpan   = hx.Fn[func(n, p int, u float64, U []int) int](nurbs.VerifFuncs, "findSpan")
	basisFuns, okBasis = hx.Fn[func(i int, u float64, p int, U []int) []float64](nurbs.VerifFuncs, "basisFuns")
	dersFuns, okDers   = hx.Fn[func(i, u, p, n int, U []int) [][]float64](nurbs.VerifFuncs, "dersBasisFuns")
	curvePoint, okCrv  = hx.Fn[func(n, p int, U []int, P []vec3.T, u float64) vec3.T](nurbs.VerifFuncs, "curvePoint")
)

type spl struct {
	n, p int
	U    []int
}

func (s spl) String() string {
	return fmt.Sprintf("degree %d, %d control points, knots %v", s.p, s.n+1, s.U)
}

// every knot vector with the given gap alphabet and at most maxGaps gaps
func knots(t *eng.T, maxP, maxGaps int, gaps []int) spl {
	p := t.Choose(maxP + 1)
	n := p + t.Choose(maxGaps-2*p)
	m := n + p + 1
	start := []int{0, -5}[t.Choose(2)]
	U := make([]int, m+1)
	U[0] = start
	for i := 1; i <= m; i++ {
		U[i] = U[i-1] + gaps[t.Choose(len(gaps))]
	}
	if U[p] >= U[n+1] {
		t.Skip()
	}
	return spl{n, p, U}
}

// longer knot vectors of a few regular families
func families(t *eng.T, maxN int) spl {
	p := t.Choose(6)
	n := p + t.Choose(maxN)
	step := []int{1, 2, 1000}[t.Choose(3)]
	kind := t.Choose(5)
	U := make([]int, n+p+2)
	for i := 1; i < len(U); i++ {
		U[i] = U[i-1]
		switch kind {
		case 0: // uniform
			U[i] += step
		case 1: // clamped
			if i > p && i <= n+1 {
				U[i] += step
			}
		case 2: // clamped, uneven
			if i > p && i <= n+1 {
				U[i] += 1 + (i*i*step)%7
			}
		case 3: // Bezier pieces: interior knots of multiplicity p
			if i > p && (i == n+1 || p == 0 || (i-p-1)%p == 0) {
				U[i] += step
			}
		case 4: // negative to positive, uneven
			if i == 1 {
				U[0] = -step * n
				U[1] = U[0]
			}
			if i%3 != 0 {
				U[i] += step + i%2
			}
		}
	}
	if kind == 1 || kind == 2 || kind == 3 {
		for i := n + 2; i < len(U); i++ {
			U[i] = U[n+1]
		}
	}
	if U[p] >= U[n+1] {
		t.Skip()
	}
	return spl{n, p, U}
}

// high degrees, many control points, large knots
func large(t *eng.T, sizes []int, maxP int) spl {
	p := t.Choose(maxP + 3)
	if p > maxP { // a few higher ones
		p += 3 * (p - maxP)
	}
	n := p + sizes[t.Choose(len(sizes))]
	step := []int{1, 1<<25 + 1, 1<<31 + 3, 1<<44 + 1}[t.Choose(4)]
	kind := t.Choose(4)
	U := make([]int, n+p+2)
	U[0] = []int{0, -1 << 30, 1<<46 + 1}[t.Choose(3)]
	for i := 1; i < len(U); i++ {
		U[i] = U[i-1]
		inner := i > p && i <= n+1
		switch kind {
		case 0: // uniform
			U[i] += step
		case 1: // clamped
			if inner {
				U[i] += step
			}
		case 2: // clamped, uneven, with double knots
			if inner && (i%4 != 1 || i == n+1) {
				U[i] += step * (1 + i%3)
			}
		case 3: // not clamped, uneven, with double and triple knots
			if i%5 > 1 || i%7 == 0 {
				U[i] += step + i%2
			}
		}
		if U[i] > 1<<52 {
			t.Skip()
		}
	}
	if U[p] >= U[n+1] {
		t.Skip()
	}
	return spl{n, p, U}
}

func params(s spl) []float64 {
	var us []float64
	for i := s.p; i <= s.n; i++ {
		a, b := float64(s.U[i]), float64(s.U[i+1])
		if a == b || s.n > 400 && i > s.p+2 && i < s.n-2 && i%97 != 0 && i&(i-1) != 0 && i&(i+1) != 0 {
			continue
		}
		us = append(us, a, a+(b-a)*0.25, a+(b-a)*0.5, b-(b-a)*1e-3, math.Nextafter(b, a))
	}
	return append(us, float64(s.U[s.n+1]))
}

// span is the definition: the last nonempty span starting at or before u.
func span(s spl, u float64) int {
	r := -1
	for i := s.p; i <= s.n; i++ {
		if s.U[i] < s.U[i+1] && float64(s.U[i]) <= u {
			r = i
		}
	}
	return r
}

// N is the Cox-de Boor definition, relative to the chosen span.
func N(s spl, i, p, sp int, u float64) float64 { return D(s, i, p, 0, sp, u) }

// What D has worked out, for one curve, span and parameter.
var memo struct {
	U  *int
	n  int
	sp int
	u  float64
	v  map[[3]int]float64
}

// D is the k-th derivative of the basis function N(i, p) by its recursive definition.
func D(s spl, i, p, k, sp int, u float64) float64 {
	if i > sp || i+p < sp {
		return 0
	}
	if p == 0 {
		if k > 0 {
			return 0
		}
		return 1
	}
	if memo.U != &s.U[0] || memo.n != len(s.U) || memo.sp != sp || memo.u != u {
		memo.U, memo.n, memo.sp, memo.u, memo.v = &s.U[0], len(s.U), sp, u, map[[3]int]float64{}
	}
	key := [3]int{i, p, k}
	if v, ok := memo.v[key]; ok {
		return v
	}
	var v float64
	if d := s.U[i+p] - s.U[i]; d != 0 {
		if k == 0 {
			v += (u - float64(s.U[i])) / float64(d) * D(s, i, p-1, 0, sp, u)
		} else {
			v += float64(p) / float64(d) * D(s, i, p-1, k-1, sp, u)
		}
	}
	if d := s.U[i+p+1] - s.U[i+1]; d != 0 {
		if k == 0 {
			v += (float64(s.U[i+p+1]) - u) / float64(d) * D(s, i+1, p-1, 0, sp, u)
		} else {
			v -= float64(p) / float64(d) * D(s, i+1, p-1, k-1, sp, u)
		}
	}
	memo.v[key] = v
	return v
}

func same(a, b []int) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return len(a) == len(b)
}

// roomy: v in memory that goes on behind it, with other values of the caller's
func roomy[X comparable](v []X, other X) []X {
	memo.U = nil
	w := append(make([]X, 0, len(v)+5), v...)
	for i := len(w); i < cap(w); i++ {
		w[:cap(w)][i] = other
	}
	return w
}

func intact[X comparable](w []X, other X) bool {
	for i := len(w); i < cap(w); i++ {
		if w[:cap(w)][i] != other {
			return false
		}
	}
	return true
}

func spans(gen func(t *eng.T) spl) func(t *eng.T) {
	return func(t *eng.T) {
		if !okSpan {
			t.Skip()
		}
		s := gen(t)
		s.U = roomy(s.U, -77)
		keep := append([]int{}, s.U...)
		for _, u := range params(s) {
			u := u
			t.Describe(func() string { return fmt.Sprintf("%v, u=%v", s, u) })
			var got int
			t.Must("the span search", budget, func() { got = findSpan(s.n, s.p, u, s.U) })
			want := span(s, u)
			if got != want {
				t.Fail("", "span %d, want %d (the nonempty span containing the parameter)", got, want)
			}
		}
		// outside the domain the search has to end, with a span that exists
		lo, hi := float64(s.U[s.p]), float64(s.U[s.n+1])
		for _, u := range []float64{lo - 0.5, lo - 1e6, hi + 0.5, hi + 1e6, float64(s.U[0]), float64(s.U[len(s.U)-1]), math.Inf(1), math.Inf(-1)} {
			if u >= lo && u <= hi {
				continue
			}
			u := u
			t.Describe(func() string { return fmt.Sprintf("%v, u=%v outside the domain", s, u) })
			got := -1
			out := t.Call(budget, func() { got = findSpan(s.n, s.p, u, s.U) })
			if out.Hang {
				t.Fail("", "the span search %s", out)
			}
			if out.OK() {
				near := math.Max(lo, math.Min(hi, u))
				if want := span(s, near); got != want {
					t.Fail("", "span %d for a parameter outside the domain, want the nearest one, %d", got, want)
				}
			}
		}
		if !same(keep, s.U) || !intact(s.U, -77) {
			t.Fail("", "the knot vector was modified")
		}
		t.State(s)
	}
}

func basis(gen func(t *eng.T) spl) func(t *eng.T) {
	return func(t *eng.T) {
		if !okBasis {
			t.Skip()
		}
		s := gen(t)
		s.U = roomy(s.U, -77)
		keep := append([]int{}, s.U...)
		for _, u := range params(s) {
			u := u
			t.Describe(func() string { return fmt.Sprintf("%v, u=%v", s, u) })
			sp := span(s, u)
			var got []float64
			t.Must("the basis functions", budget, func() { got = basisFuns(sp, u, s.p, s.U) })
			if len(got) != s.p+1 {
				t.Fail("", "%d basis functions for degree %d", len(got), s.p)
			}
			sum := 0.0
			for k, x := range got {
				want := N(s, sp-s.p+k, s.p, sp, u)
				if !(math.Abs(x-want) < 1e-9) {
					t.Fail("", "basis function %d = %v, want %v", sp-s.p+k, x, want)
				}
				if !(x >= -1e-12) {
					t.Fail("", "basis function %d is negative: %v", sp-s.p+k, x)
				}
				sum += x
			}
			if !(math.Abs(sum-1) < 1e-9) {
				t.Fail("", "the basis functions sum to %v", sum)
			}
		}
		if !same(keep, s.U) || !intact(s.U, -77) {
			t.Fail("", "the knot vector was modified")
		}
		t.State(s)
	}
}

func curve(gen func(t *eng.T) spl, unit bool) func(t *eng.T) {
	return func(t *eng.T) {
		if !okCrv {
			t.Skip()
		}
		s := gen(t)
		s.U = roomy(s.U, -77)
		P := roomy(make([]vec3.T, s.n+1), vec3.T{7, 7, 7})
		if unit {
			// a unit control polygon: by linearity these decide every polygon
			P[t.Choose(s.n+1)] = vec3.T{1, -2, 4}
		} else {
			for k := range P {
				P[k] = vec3.T{float64(k*k%11) - 3, math.Pow(-1.5, float64(k%9)), float64(100 - 7*k)}
			}
		}
		keepP := append([]vec3.T{}, P...)
		keep := append([]int{}, s.U...)
		for _, u := range params(s) {
			u := u
			t.Describe(func() string { return fmt.Sprintf("%v, control points %v, u=%v", s, P, u) })
			var got vec3.T
			t.Must("the curve point", budget, func() { got = curvePoint(s.n, s.p, s.U, P, u) })
			sp := span(s, u)
			var want vec3.T
			lo, hi := keepP[sp-s.p], keepP[sp-s.p]
			for k := 0; k <= s.p; k++ {
				b := N(s, sp-s.p+k, s.p, sp, u)
				for j := range want {
					c := keepP[sp-s.p+k][j]
					want[j] += b * c
					lo[j], hi[j] = math.Min(lo[j], c), math.Max(hi[j], c)
				}
			}
			for j := range want {
				if !(math.Abs(got[j]-want[j]) < 1e-7) {
					t.Fail("", "curve point %v, want %v", got, want)
				}
				if got[j] < lo[j]-1e-7 || got[j] > hi[j]+1e-7 {
					t.Fail("", "curve point %v leaves the hull of its control points", got)
				}
			}
		}
		if !intact(P, vec3.T{7, 7, 7}) {
			t.Fail("", "the memory behind the control points was modified")
		}
		for k := range P {
			if P[k] != keepP[k] {
				t.Fail("", "control point %d was modified", k)
			}
		}
		if !same(keep, s.U) || !intact(s.U, -77) {
			t.Fail("", "the knot vector was modified")
		}
		// clamped ends interpolate the end control points
		lo, hi := float64(s.U[s.p]), float64(s.U[s.n+1])
		if s.U[0] == s.U[s.p] && s.U[s.p] < s.U[s.p+1] {
			t.Describe(func() string { return fmt.Sprintf("%v, control points %v, u=%v", s, P, lo) })
			var got vec3.T
			t.Must("the curve point", budget, func() { got = curvePoint(s.n, s.p, s.U, P, lo) })
			for j := range got {
				if !(math.Abs(got[j]-keepP[0][j]) < 1e-9) {
					t.Fail("", "the clamped curve starts at %v, not at %v", got, keepP[0])
				}
			}
		}
		if s.U[len(s.U)-1] == s.U[s.n+1] && s.U[s.n] < s.U[s.n+1] {
			t.Describe(func() string { return fmt.Sprintf("%v, control points %v, u=%v", s, P, hi) })
			var got vec3.T
			t.Must("the curve point", budget, func() { got = curvePoint(s.n, s.p, s.U, P, hi) })
			for j := range got {
				if !(math.Abs(got[j]-keepP[s.n][j]) < 1e-9) {
					t.Fail("", "the clamped curve ends at %v, not at %v", got, keepP[s.n])
				}
			}
		}
		t.State(s)
	}
}

// whole lists integer parameters: all of a short domain; of a long one the ends, and knots, their neighbours and
// the middles between them.
func whole(s spl) (us []int) {
	lo, hi := s.U[s.p], s.U[s.n+1]
	if hi-lo <= 60 {
		for u := lo; u <= hi; u++ {
			us = append(us, u)
		}
		return
	}
	us = append(us, lo, hi, lo+1, hi-1)
	for i, k := s.p, 0; i <= s.n; i++ {
		if a, b := s.U[i], s.U[i+1]; a < b {
			if k++; k < 6 || k%41 == 0 || i > s.n-3 {
				us = append(us, a, a+(b-a)/2, b-1)
			}
		}
	}
	return
}

func ders(gen func(t *eng.T) spl) func(t *eng.T) {
	return func(t *eng.T) {
		if !okDers {
			t.Skip()
		}
		s := gen(t)
		s.U = roomy(s.U, -77)
		keep := append([]int{}, s.U...)
		for _, u := range whole(s) {
			sp := span(s, float64(u))
			for n := 0; n <= s.p; n++ {
				t.Describe(func() string { return fmt.Sprintf("%v, u=%v, derivatives up to %d", s, u, n) })
				var got [][]float64
				t.Must("the derivatives", budget, func() { got = dersFuns(sp, u, s.p, n, s.U) })
				if len(got) < n+1 {
					t.Fail("", "%d rows for %d derivatives", len(got), n)
				}
				for k := 0; k <= n; k++ {
					if len(got[k]) != s.p+1 {
						t.Fail("", "derivative %d has %d entries for degree %d", k, len(got[k]), s.p)
					}
					mag := 1e-290
					for j := 0; j <= s.p; j++ {
						mag = math.Max(mag, math.Abs(D(s, sp-s.p+j, s.p, k, sp, float64(u))))
					}
					for j := 0; j <= s.p; j++ {
						want := D(s, sp-s.p+j, s.p, k, sp, float64(u))
						if !(math.Abs(got[k][j]-want) <= 1e-9*mag) {
							t.Fail("", "derivative %d of basis function %d = %v, want %v", k, sp-s.p+j, got[k][j], want)
						}
					}
				}
			}
		}
		if !same(keep, s.U) || !intact(s.U, -77) {
			t.Fail("", "the knot vector was modified")
		}
		t.State(s)
	}
}

func main() {
	rule := "every nondecreasing integer knot vector over the gap alphabet up to the length bound (clamped or not, with any multiplicities), every degree and control point count, parameters at, next to and between all knots; plus long knot vectors of five families, and high degrees, hundreds of control points and knots up to 2^52 in size"
	gen := func(th bool) (func(t *eng.T) spl, func(t *eng.T) spl) {
		maxP, maxGaps, gaps, fam := 3, 9, []int{0, 1, 3}, 40
		if th {
			maxP, maxGaps, fam = 4, 11, 140
		}
		return func(t *eng.T) spl { return knots(t, maxP, maxGaps, gaps) }, func(t *eng.T) spl { return families(t, fam) }
	}
	big := func(th bool) func(t *eng.T) spl {
		if th {
			return func(t *eng.T) spl { return large(t, []int{0, 1, 2, 3, 5, 9, 40, 300, 2100}, 9) }
		}
		return func(t *eng.T) spl { return large(t, []int{0, 1, 3, 40, 300}, 7) }
	}
	eng.Main(
		&eng.Prop{ID: "N01", Rule: rule, Scenarios: func(th bool) []eng.Scenario {
			a, b := gen(th)
			return []eng.Scenario{{Name: "knot vectors", Body: spans(a), Shard: 7}, {Name: "families", Body: spans(b), Shard: 3}, {Name: "high degrees, many points, large knots", Body: spans(big(th)), Shard: 4}, {Name: "thousands of points", Body: spans(func(t *eng.T) spl { return large(t, []int{600, 2100}, 0) }), Shard: 4}}
		}},
		&eng.Prop{ID: "N02", Rule: rule, Scenarios: func(th bool) []eng.Scenario {
			a, b := gen(th)
			return []eng.Scenario{{Name: "knot vectors", Body: basis(a), Shard: 7}, {Name: "families", Body: basis(b), Shard: 3}, {Name: "high degrees, many points, large knots", Body: basis(big(th)), Shard: 4}}
		}},
		&eng.Prop{ID: "N03", Rule: rule + "; unit control polygons (which decide all, by linearity) and a generic one", Scenarios: func(th bool) []eng.Scenario {
			a, b := gen(th)
			u := func(t *eng.T) spl { return knots(t, 3, 8, []int{0, 1, 3}) }
			return []eng.Scenario{{Name: "knot vectors", Body: curve(a, false), Shard: 7}, {Name: "families", Body: curve(b, false), Shard: 3}, {Name: "high degrees, many points, large knots", Body: curve(big(th), false), Shard: 4}, {Name: "unit control points", Body: curve(u, true), Shard: 7}}
		}},
		&eng.Prop{ID: "N04", Rule: rule + " (integer parameters, as the interface has it)", Scenarios: func(th bool) []eng.Scenario {
			a, b := gen(th)
			return []eng.Scenario{{Name: "knot vectors", Body: ders(a), Shard: 7}, {Name: "families", Body: ders(b), Shard: 3}, {Name: "high degrees, many points, large knots", Body: ders(big(th)), Shard: 4}}
		}},
	)
}
