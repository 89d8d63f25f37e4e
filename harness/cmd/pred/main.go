// Harness for package predicates: geometric predicates against exact determinants.
package main

import (
	"fmt"
	"math"
	"math/big"

	"geGoMetry/predicates"
	"geGoMetry/r3"
	"verifh/eng"
	"verifh/hx"
)

// placement of the integer grid in space; all coordinates stay exact.
var places = []struct {
	s float64
	o r3.Vector
}{
	{1, r3.Vector{}},
	{1, r3.Vector{X: -1, Y: -1, Z: -1}},
	{0.125, r3.Vector{X: 1000, Y: -500, Z: 3}},
	{1024, r3.Vector{X: -1 << 20, Y: 1 << 21, Z: 0}},
	{1.0 / (1 << 30), r3.Vector{}},
	{0x1p-150, r3.Vector{}},
	{0x1p150, r3.Vector{}},
}

func grid(t *eng.T, k int) hx.I {
	c := t.Choose(k * k * k)
	return hx.I{int64(c / (k * k)), int64(c / k % k), int64(c % k)}
}

type scalar15 = func(ax, ay, az, bx, by, bz, cx, cy, cz, dx, dy, dz, ex, ey, ez float64) float64

func inSphereFns() map[string]func(a, b, c, d, e r3.Vector) float64 {
	m := map[string]func(a, b, c, d, e r3.Vector) float64{"InSphereFast": predicates.InSphereFast}
	if f, ok := hx.Fn[scalar15](predicates.VerifFuncs, "inSphere"); ok {
		m["inSphere"] = func(a, b, c, d, e r3.Vector) float64 {
			return f(a.X, a.Y, a.Z, b.X, b.Y, b.Z, c.X, c.Y, c.Z, d.X, d.Y, d.Z, e.X, e.Y, e.Z)
		}
	}
	return m
}

func inSphereGrid(kTet, kQuery int, npl int) func(t *eng.T) {
	return func(t *eng.T) {
		e := grid(t, kQuery)
		a, b, c, d := grid(t, kTet), grid(t, kTet), grid(t, kTet), grid(t, kTet)
		if kTet == 3 {
			// the tetrahedron is taken up to a translation: it touches the grid's corner planes
			for ax := 0; ax < 3; ax++ {
				if a[ax] > 0 && b[ax] > 0 && c[ax] > 0 && d[ax] > 0 {
					t.Skip()
				}
			}
		}
		checkInSphere(t, a, b, c, d, e, places[:npl])
	}
}

func checkInSphere(t *eng.T, a, b, c, d, e hx.I, pls []struct {
	s float64
	o r3.Vector
}) {
	want := -hx.Sgn(hx.InSphere(a, b, c, d, e)) // positive: inside, for positive orientation
	for _, pl := range pls {
		pa, pb, pc, pd, pe := a.VS(pl.s, pl.o), b.VS(pl.s, pl.o), c.VS(pl.s, pl.o), d.VS(pl.s, pl.o), e.VS(pl.s, pl.o)
		t.Describe(func() string { return fmt.Sprintf("a=%v b=%v c=%v d=%v e=%v", pa, pb, pc, pd, pe) })
		for _, name := range []string{"InSphereFast", "inSphere"} {
			f := fns[name]
			if f == nil {
				continue
			}
			var got float64
			t.Must(name, 100000, func() { got = f(pa, pb, pc, pd, pe) })
			if hx.SgnF(got) != want {
				t.Fail("", "%s = %v, but the exact in-sphere determinant has sign %d", name, got, want)
			}
		}
	}
	t.State(want, hx.Sgn(hx.Orient(a, b, c, d)), e)
}

var fns = inSphereFns()

func geometric(t *eng.T) {
	// The meaning, against circumcentre and radius: with (a,b,c,d) positively
	// or negatively oriented, the product of signs says inside / on / outside.
	a, b, c := hx.I{0, 0, 0}, grid(t, 3), grid(t, 3)
	d := grid(t, 3)
	o := hx.Orient(a, b, c, d)
	if o == 0 {
		t.Skip()
	}
	e := grid(t, 4)
	// circumcentre = num / (2 o), by Cramer's rule on 2 p.x = |p|^2
	row := func(p hx.I) [3]int64 { return [3]int64(p) }
	rhs := [3]int64{hx.Dot(b, b), hx.Dot(c, c), hx.Dot(d, d)}
	var num [3]int64
	for k := 0; k < 3; k++ {
		m := [][]int64{}
		for i, p := range []hx.I{b, c, d} {
			r := row(p)
			r[k] = rhs[i]
			m = append(m, r[:])
		}
		num[k] = hx.Det(m)
	}
	det := hx.Det([][]int64{b[:], c[:], d[:]})
	// |e - c|^2 - |c|^2 = |e|^2 - 2 e.c  with c = num/(2 det)
	side := hx.Dot(e, e)*det - (e[0]*num[0] + e[1]*num[1] + e[2]*num[2])
	if det < 0 {
		side = -side
	}
	inside := -hx.Sgn(side) // +1 inside
	t.Describe(func() string { return fmt.Sprintf("a=%v b=%v c=%v d=%v e=%v", a, b, c, d, e) })
	for _, name := range []string{"InSphereFast", "inSphere"} {
		f := fns[name]
		if f == nil {
			continue
		}
		var got float64
		t.Must(name, 100000, func() { got = f(a.V(), b.V(), c.V(), d.V(), e.V()) })
		if want := hx.Sgn(o) * inside; hx.SgnF(got) != want {
			t.Fail("", "%s = %v; e is %+d (inside +1, on 0, outside -1) for orientation %+d", name, got, inside, hx.Sgn(o))
		}
	}
	t.State(inside, hx.Sgn(o))
}

// nearly cospherical float inputs: coordinates a few ulps off a sphere.
func nearDegenerate(thorough bool) func(t *eng.T) {
	base := [][5]hx.I{
		{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {1, 1, 1}},
		{{3, 4, 0}, {-4, 3, 0}, {0, 3, 4}, {5, 0, 0}, {0, -5, 0}},
		{{1, 0, 0}, {0, 1, 0}, {-1, 0, 0}, {0, 0, 1}, {0, 0, -1}},
		{{0, 0, 0}, {2, 0, 0}, {0, 2, 0}, {2, 2, 0}, {1, 1, 0}},
		{{0, 0, 0}, {1, 2, 3}, {2, 4, 6}, {1, 1, 1}, {1000, 1001, 999}},
		{{0, 0, 0}, {1000, 0, 0}, {0, 1, 0}, {1000, 1, 0}, {500, 0, 1}},
	}
	scales := []float64{1, 0.1, 1e6, 1.0 / 3, 1e-30, 1e30}
	offs := []r3.Vector{{}, {X: 0.3, Y: 0.7, Z: -0.1}, {X: 1e3, Y: -1e3, Z: 1e3}, {X: 1e9}}
	ulps := []int{0, 1, -1, 3, 1000}
	f, ok := hx.Fn[scalar15](predicates.VerifFuncs, "inSphere")
	sph, okS := hx.Fn[func(a, b, c, d, e r3.Vector) float64](predicates.VerifFuncs, "InSphere")
	ori, okO := hx.Fn[func(a, b, c, d r3.Vector) float64](predicates.VerifFuncs, "Orient3D")
	return func(t *eng.T) {
		if !ok && !okS && !okO {
			t.Skip()
		}
		bs := base[t.Choose(len(base))]
		s := scales[t.Choose(len(scales))]
		o := offs[t.Choose(len(offs))]
		var p [5]r3.Vector
		for i := range p {
			p[i] = bs[i].VS(s, o.Scaled(s))
		}
		n := 1
		if thorough {
			n = 2
		}
		for k := 0; k < n; k++ {
			which := t.Choose(15)
			u := ulps[t.Choose(len(ulps))]
			x := &p[which/3].X
			switch which % 3 {
			case 1:
				x = &p[which/3].Y
			case 2:
				x = &p[which/3].Z
			}
			if math.Abs(*x) < s/8 {
				// a zero coordinate: stay clear of underflow
				*x += float64(u) * s / (1 << 52)
				continue
			}
			for j := 0; j < u; j++ {
				*x = math.Nextafter(*x, math.Inf(1))
			}
			if u < 0 {
				*x = math.Nextafter(*x, math.Inf(-1))
			}
		}
		perm := t.Choose(5)
		p[perm], p[4] = p[4], p[perm]
		t.Describe(func() string { return fmt.Sprintf("points %v", p) })
		var m [][]*big.Rat
		for i := 0; i < 4; i++ {
			x := new(big.Rat).Sub(hx.R(p[i].X), hx.R(p[4].X))
			y := new(big.Rat).Sub(hx.R(p[i].Y), hx.R(p[4].Y))
			z := new(big.Rat).Sub(hx.R(p[i].Z), hx.R(p[4].Z))
			l := new(big.Rat).Mul(x, x)
			l.Add(l, new(big.Rat).Mul(y, y))
			l.Add(l, new(big.Rat).Mul(z, z))
			m = append(m, []*big.Rat{x, y, z, l})
		}
		det := hx.RDet(m)
		want := -det.Sign()
		worient := hx.RDet([][]*big.Rat{m[0][:3], m[1][:3], m[2][:3]}).Sign() // of the first three seen from the last
		judge := func(name string, want int, f func() float64) {
			var got float64
			t.Must(name, 100000, func() { got = f() })
			if hx.SgnF(got) != want {
				t.Fail("", "%s = %v but the exact sign is %d", name, got, want)
			}
		}
		if ok {
			judge("inSphere", want, func() float64 {
				return f(p[0].X, p[0].Y, p[0].Z, p[1].X, p[1].Y, p[1].Z, p[2].X, p[2].Y, p[2].Z, p[3].X, p[3].Y, p[3].Z, p[4].X, p[4].Y, p[4].Z)
			})
		}
		if okS {
			judge("InSphere", want, func() float64 { return sph(p[0], p[1], p[2], p[3], p[4]) })
		}
		if okO {
			judge("Orient3D", worient, func() float64 { return ori(p[0], p[1], p[2], p[4]) })
		}
		t.State(want, worient)
	}
}

func orientGrid(k, npl int) func(t *eng.T) {
	f, ok := hx.Fn[func(a, b, c, d r3.Vector) float64](predicates.VerifFuncs, "orient3dfast")
	return func(t *eng.T) {
		if !ok {
			t.Skip()
		}
		a, b, c, d := grid(t, k), grid(t, k), grid(t, k), grid(t, k)
		want := -hx.Sgn(hx.Orient(a, b, c, d))
		for _, pl := range places[:npl] {
			pa, pb, pc, pd := a.VS(pl.s, pl.o), b.VS(pl.s, pl.o), c.VS(pl.s, pl.o), d.VS(pl.s, pl.o)
			t.Describe(func() string { return fmt.Sprintf("a=%v b=%v c=%v d=%v", pa, pb, pc, pd) })
			var got float64
			t.Must("orient3dfast", 100000, func() { got = f(pa, pb, pc, pd) })
			if hx.SgnF(got) != want {
				t.Fail("", "orient3dfast = %v, want sign %d", got, want)
			}
		}
		t.State(want, a)
	}
}

func main() {
	eng.Main(
		&eng.Prop{ID: "P01", Rule: "every 5-tuple of grid points (tetrahedron up to translation, query anywhere on the grid), in five exact placements of the grid; sign compared with the exact lifted determinant and with circumcentre/radius",
			Assumptions: []string{"coordinates are small integers scaled by powers of two, on which the determinant is exact in float64"},
			Scenarios: func(th bool) []eng.Scenario {
				s := []eng.Scenario{
					{Name: "unit cube", Body: inSphereGrid(2, 2, len(places)), Shard: 3},
					{Name: "tetrahedra on the unit cube, query on a 4-grid", Body: inSphereGrid(2, 4, 3), Shard: 3},
					{Name: "circumsphere meaning", Body: geometric, Shard: 3},
				}
				if th {
					s = append(s, eng.Scenario{Name: "3-grid", Body: inSphereGrid(3, 3, len(places)), Shard: 3}, eng.Scenario{Name: "3-grid, query on a 5-grid", Body: inSphereGrid(3, 5, 2), Shard: 3})
				} else {
					s = append(s, eng.Scenario{Name: "3-grid", Body: inSphereGrid(3, 3, 2), Shard: 3})
				}
				return s
			}},
		&eng.Prop{ID: "P02", Rule: "every choice of a cospherical or coplanar base configuration, scale, offset and ulp perturbation of one (thorough: two) of its coordinates; the answer must have the exact sign (rational arithmetic)",
			Scenarios: func(th bool) []eng.Scenario {
				l := []eng.Scenario{{Name: "near-degenerate", Body: nearDegenerate(th), Shard: 4},
					{Name: "coplanar, far apart", Body: farCoplanar(false), Shard: 3},
					{Name: "cospherical, far apart", Body: farCospherical(false, false), Shard: 3},
					{Name: "boxes", Body: farCospherical(true, false), Shard: 3},
					{Name: "one tiny coordinate", Body: tiny(480), Shard: 3}}
				if th {
					l = append(l, eng.Scenario{Name: "coplanar, far apart, nudged", Body: farCoplanar(true), Shard: 3},
						eng.Scenario{Name: "cospherical, far apart, nudged", Body: farCospherical(false, true), Shard: 3},
						eng.Scenario{Name: "boxes, nudged", Body: farCospherical(true, true), Shard: 3})
				}
				return l
			}},
		&eng.Prop{ID: "P03", Rule: "every 4-tuple of points of a 3x3x3 grid in several exact placements, against the exact determinant",
			Scenarios: func(th bool) []eng.Scenario {
				l := []eng.Scenario{{Name: "unit cube", Body: orientGrid(2, len(places))}, {Name: "3-grid", Body: orientGrid(3, len(places)), Shard: 2}}
				if th {
					l = append(l, eng.Scenario{Name: "4-grid", Body: orientGrid(4, len(places)), Shard: 3})
				}
				return l
			}},
		&eng.Prop{ID: "P04", Rule: "every tuple of points of a small planar grid in several placements, and every listed collinear, concyclic or equidistant configuration with points at very different distances, each coordinate in turn moved by an ulp; exact integer arithmetic",
			Scenarios: func(th bool) []eng.Scenario {
				k := 3
				l := []eng.Scenario{{Name: "grid", Body: planarSmall(k), Shard: 3}, {Name: "one tiny coordinate", Body: planarTiny(480), Shard: 3}}
				if th {
					l = append(l, eng.Scenario{Name: "4-grid", Body: planarSmall(4), Shard: 3})
				}
				for kind, name := range []string{"collinear", "concyclic", "equidistant from the first", "equidistant from the centre"} {
					l = append(l, eng.Scenario{Name: name, Body: planarNear(kind, false), Shard: 3})
					if th || kind == 0 {
						l = append(l, eng.Scenario{Name: name + ", nudged", Body: planarNear(kind, true), Shard: 3})
					}
				}
				return l
			}},
	)
}
