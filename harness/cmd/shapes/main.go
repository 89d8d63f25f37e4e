// Harness for package shape: tessellated primitives.
package main

import (
	"fmt"
	"math"

	"geGoMetry/r3"
	"geGoMetry/shape"
	"verifh/eng"
	"verifh/hx"
)

const budget = 200_000_000

type cfg struct {
	kind       string // sphere, torus, circle, ellipse
	center     r3.Vector
	r, r2      float64
	sec, stack int
	exported   bool // through the exported constructor, which fixes the counts
}

func (c cfg) String() string {
	return fmt.Sprintf("%s center=%v r=%v r2=%v sectors=%d stacks=%d exported=%v", c.kind, c.center, c.r, c.r2, c.sec, c.stack, c.exported)
}

// build returns the mesh, or false when the shape's fields are not what the
// harness knows (then only the exported constructors are explored).
func build(t *eng.T, c *cfg) (m shape.Mesh) {
	ok := true
	t.Must("constructing the shape", budget, func() {
		if c.exported {
			switch c.kind {
			case "sphere":
				m = shape.ConstructSphere(c.center, c.r)
			case "torus":
				m = shape.ConstructTorus(c.center, c.r, c.r2)
			case "circle":
				m = shape.ConstructCircle(c.center, c.r)
			case "ellipse":
				m = shape.ConstructEllipse(c.center, c.r, c.r2)
			}
			return
		}
		switch c.kind {
		case "sphere":
			s := shape.Sphere{}
			ok = hx.Set(&s, "center", c.center) && hx.Set(&s, "radius", c.r) && hx.Set(&s, "sectorCount", c.sec) && hx.Set(&s, "stackCount", c.stack)
			if ok {
				m = s.Construct()
			}
		case "torus":
			s := shape.Torus{}
			ok = hx.Set(&s, "center", c.center) && hx.Set(&s, "radius", c.r) && hx.Set(&s, "tubeRadius", c.r2) && hx.Set(&s, "sectorCount", c.sec) && hx.Set(&s, "stackCount", c.stack)
			if ok {
				m = s.Construct()
			}
		case "circle":
			s := shape.Circle{}
			ok = hx.Set(&s, "center", c.center) && hx.Set(&s, "radius", c.r) && hx.Set(&s, "sectorCount", c.sec)
			if ok {
				m = s.Construct()
			}
		case "ellipse":
			s := shape.Ellipse{}
			ok = hx.Set(&s, "center", c.center) && hx.Set(&s, "semiAxis1", c.r) && hx.Set(&s, "semiAxis2", c.r2) && hx.Set(&s, "sectorCount", c.sec)
			if ok {
				m = s.Construct()
			}
		}
	})
	if !ok {
		t.Skip()
	}
	return
}

var centers = []r3.Vector{{}, {X: 1, Y: -2, Z: 3}, {X: -1000, Y: 0.5, Z: 4096}, {X: 1e12, Y: -3e12, Z: 7e11}}

// the centre at which the vertices are rounded to a fraction of the shape's size
func (c cfg) far() bool { return math.Abs(c.center.X) > 1e8*size(&c) }

// a torus whose tube reaches its axis: it meets itself
func (c cfg) spindle() bool { return c.kind == "torus" && c.r2 >= c.r }

// whole shapes scaled, for the small counts
var scales = []float64{1, 0x1p-100, 0x1p-40, 0x1p40, 0x1p100}

const scaleTo = 9

// {radius, tube radius or second semi-axis}
var radii = map[string][][2]float64{
	"sphere":  {{1, 0}, {0.001, 0}, {250, 0}, {3.7, 0}},
	"torus":   {{3, 1}, {1, 0.25}, {500.1, 120.7}, {0.02, 0.0125}, {2, 1.9}, {1, 2}, {0.3, 5}, {2, 2}},
	"circle":  {{1, 0}, {0.001, 0}, {250, 0}, {3.7, 0}},
	"ellipse": {{3, 1}, {1, 3}, {2, 2}, {0.01, 40}},
}

func counts(kind string, thorough bool) [][2]int {
	max := 14
	if thorough {
		max = 40
	}
	var l [][2]int
	if kind == "circle" || kind == "ellipse" {
		for n := 3; n <= 10*max; n++ {
			l = append(l, [2]int{n, 0})
		}
		return append(l, [2]int{1000, 0}, [2]int{65535, 0}, [2]int{65536, 0}, [2]int{70000, 0})
	}
	lo := 2
	if kind == "torus" {
		lo = 3
	}
	for a := 3; a <= max; a++ {
		for b := lo; b <= max; b++ {
			l = append(l, [2]int{a, b})
		}
	}
	for _, big := range []int{16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300} {
		l = append(l, [2]int{big, 3}, [2]int{3, big}, [2]int{big, 4}, [2]int{5, big})
	}
	return append(l, [2]int{3, 1000}, [2]int{1000, 3}, [2]int{100, 100}, [2]int{128, 64}, [2]int{64, 128}, [2]int{257, 256}, [2]int{300, 300})
}

func body(thorough bool, check func(t *eng.T, c *cfg, m shape.Mesh)) func(kind string) func(t *eng.T) {
	return func(kind string) func(t *eng.T) {
		cs := counts(kind, thorough)
		return func(t *eng.T) {
			c := &cfg{kind: kind}
			n := t.Choose(len(cs) + 1)
			if n == len(cs) {
				c.exported = true
				c.sec, c.stack = 100, 100
				if kind == "sphere" {
					c.sec, c.stack = 300, 300
				}
			} else {
				c.sec, c.stack = cs[n][0], cs[n][1]
			}
			var r [2]float64
			if c.sec*(c.stack+1) > 4000 {
				// large meshes: one placement, off centre
				k := t.Choose(2)
				c.center, r = centers[1+k], radii[kind][2*k]
			} else {
				c.center = centers[t.Choose(len(centers))]
				r = radii[kind][t.Choose(len(radii[kind]))]
			}
			c.r, c.r2 = r[0], r[1]
			if c.sec <= scaleTo && c.stack <= scaleTo && !c.exported {
				s := scales[t.Choose(len(scales))]
				c.r, c.r2, c.center = s*c.r, s*c.r2, r3.Vector{X: s * c.center.X, Y: s * c.center.Y, Z: s * c.center.Z}
			}
			t.Describe(func() string { return c.String() })
			m := build(t, c)
			check(t, c, m)
			t.State(c)
		}
	}
}

func indices(t *eng.T, c *cfg, m shape.Mesh) {
	nv := len(m.Vertices)
	if len(m.Indices)%3 != 0 || len(m.Indices) == 0 {
		t.Fail("", "%d indices do not form triangles", len(m.Indices))
	}
	used := make([]bool, nv)
	for i, ix := range m.Indices {
		if int64(ix) >= int64(nv) {
			t.Fail("", "index %d at position %d, but there are only %d vertices", ix, i, nv)
		}
		used[ix] = true
	}
	for i := 0; i < len(m.Indices); i += 3 {
		a, b, d := m.Indices[i], m.Indices[i+1], m.Indices[i+2]
		if a == b || b == d || a == d {
			t.Fail("", "triangle %d repeats a vertex: %d %d %d", i/3, a, b, d)
		}
	}
	if c.kind == "circle" || c.kind == "ellipse" {
		for v, u := range used {
			if !u {
				t.Fail("", "vertex %d is in no triangle", v)
			}
		}
	}
	if len(m.Normals) != 0 && len(m.Normals) != nv || len(m.TexCoords) != 0 && len(m.TexCoords) != nv {
		t.Fail("", "%d vertices, %d normals, %d texture coordinates", nv, len(m.Normals), len(m.TexCoords))
	}
	if c.kind == "sphere" || c.kind == "torus" {
		if len(m.Normals) != nv || len(m.TexCoords) != nv {
			t.Fail("", "%d vertices, %d normals, %d texture coordinates", nv, len(m.Normals), len(m.TexCoords))
		}
	}
}

func size(c *cfg) float64 { return math.Max(c.r+c.r2, math.Abs(c.r2)) }

func tol(c *cfg) float64 {
	return 1e-9*size(c) + 1e-12*(math.Abs(c.center.X)+math.Abs(c.center.Y)+math.Abs(c.center.Z))
}

func onSurface(t *eng.T, c *cfg, m shape.Mesh) {
	eps := tol(c)
	for i, v := range m.Vertices {
		d := r3.Vector{X: v.X - c.center.X, Y: v.Y - c.center.Y, Z: v.Z - c.center.Z}
		var off float64
		switch c.kind {
		case "sphere":
			off = math.Sqrt(d.X*d.X+d.Y*d.Y+d.Z*d.Z) - c.r
		case "torus":
			h := math.Hypot(d.X, d.Y)
			off = math.Hypot(h-c.r, d.Z) - c.r2
			if inner := math.Hypot(h+c.r, d.Z) - c.r2; c.spindle() && math.Abs(inner) < math.Abs(off) {
				off = inner
			}
		case "circle", "ellipse":
			b := c.r2
			if c.kind == "circle" {
				b = c.r
			}
			off = math.Abs(d.Z)
			if d.X != 0 || d.Y != 0 {
				// in units of the axes
				off = math.Max(off, math.Abs(math.Hypot(d.X/c.r, d.Y/b)-1)*math.Min(c.r, b)*1e-2)
			} else if i != 0 {
				t.Fail("", "vertex %d coincides with the centre", i)
			}
		}
		if !(math.Abs(off) <= eps) {
			t.Fail("", "vertex %d = %v is %v off the surface", i, v, off)
		}
	}
	// spread: the shape reaches its full extent in every direction it has
	var lo, hi r3.Vector
	for _, v := range m.Vertices {
		d := r3.Vector{X: v.X - c.center.X, Y: v.Y - c.center.Y, Z: v.Z - c.center.Z}
		lo = r3.Vector{X: math.Min(lo.X, d.X), Y: math.Min(lo.Y, d.Y), Z: math.Min(lo.Z, d.Z)}
		hi = r3.Vector{X: math.Max(hi.X, d.X), Y: math.Max(hi.Y, d.Y), Z: math.Max(hi.Z, d.Z)}
	}
	ex, ey, ez := c.r, c.r, 0.0
	switch c.kind {
	case "sphere":
		ez = c.r
	case "torus":
		ez = c.r2
	case "ellipse":
		ey = c.r2
	}
	for _, e := range [][3]float64{{lo.X, hi.X, ex}, {lo.Y, hi.Y, ey}, {lo.Z, hi.Z, ez}} {
		if -e[0] < 0.4*e[2] || e[1] < 0.4*e[2] {
			t.Fail("", "the vertices span %v..%v, far less than the extent %v", e[0], e[1], e[2])
		}
	}
}

// weld identifies vertices that coincide up to rounding.
func weld(m shape.Mesh, c *cfg) []int {
	cell := 64 * tol(c)
	type key [3]int64
	grid := map[key]int{}
	ids := make([]int, len(m.Vertices))
	for i, v := range m.Vertices {
		f := [3]float64{(v.X - c.center.X) / cell, (v.Y - c.center.Y) / cell, (v.Z - c.center.Z) / cell}
		var k key
		for j := range f {
			k[j] = int64(math.Floor(f[j]))
		}
		id := -1
		// probe the cells a rounding error away
		for dx := -1; dx <= 1 && id < 0; dx++ {
			if dx != 0 && !edge(f[0], k[0], dx) {
				continue
			}
			for dy := -1; dy <= 1 && id < 0; dy++ {
				if dy != 0 && !edge(f[1], k[1], dy) {
					continue
				}
				for dz := -1; dz <= 1 && id < 0; dz++ {
					if dz != 0 && !edge(f[2], k[2], dz) {
						continue
					}
					if x, ok := grid[key{k[0] + int64(dx), k[1] + int64(dy), k[2] + int64(dz)}]; ok {
						id = x
					}
				}
			}
		}
		if id < 0 {
			id = i
			grid[k] = i
		}
		ids[i] = id
	}
	return ids
}

func edge(f float64, k int64, d int) bool {
	fr := f - float64(k)
	if d < 0 {
		return fr < 0.1
	}
	return fr > 0.9
}

func closed(t *eng.T, c *cfg, m shape.Mesh) {
	if c.far() || c.spindle() {
		t.Skip()
	}
	for _, ix := range m.Indices {
		if int(ix) >= len(m.Vertices) {
			t.Fail("", "index out of range")
		}
	}
	ids := weld(m, c)
	rel := func(i int) r3.Vector {
		v := m.Vertices[i]
		return r3.Vector{X: v.X - c.center.X, Y: v.Y - c.center.Y, Z: v.Z - c.center.Z}
	}
	type e [2]int
	if c.kind == "circle" || c.kind == "ellipse" {
		b := c.r2
		if c.kind == "circle" {
			b = c.r
		}
		front, back := map[e]int{}, map[e]int{}
		var fa, ba float64
		for i := 0; i < len(m.Indices); i += 3 {
			var p [3]int
			for k := range p {
				p[k] = ids[m.Indices[i+k]]
			}
			u, v, w := rel(p[0]), rel(p[1]), rel(p[2])
			area := ((v.X-u.X)*(w.Y-u.Y) - (v.Y-u.Y)*(w.X-u.X)) / 2
			side := front
			if area < 0 {
				side = back
				ba -= area
			} else {
				fa += area
			}
			for k := range p {
				side[e{p[k], p[(k+1)%3]}]++
			}
		}
		n := float64(len(m.Vertices) - 1)
		want := n / 2 * math.Sin(2*math.Pi/n) * c.r * b
		for i, a := range []float64{fa, ba} {
			if !(math.Abs(a-want) <= 1e-8*c.r*b*n) {
				t.Fail("", "the %s triangles cover an area of %v, want %v", []string{"front", "back"}[i], a, want)
			}
		}
		for i, side := range []map[e]int{front, back} {
			rim := 0
			for d, k := range side {
				if k != 1 {
					t.Fail("", "the %s side uses a directed edge %d times", []string{"front", "back"}[i], k)
				}
				if side[e{d[1], d[0]}] == 0 {
					rim++
					if d[0] == ids[0] || d[1] == ids[0] {
						t.Fail("", "the %s side is open along a spoke", []string{"front", "back"}[i])
					}
				}
			}
			if rim != len(m.Vertices)-1 {
				t.Fail("", "the %s side has %d rim edges for %d rim vertices", []string{"front", "back"}[i], rim, len(m.Vertices)-1)
			}
		}
		return
	}
	edges := map[e]int{}
	verts := map[int]bool{}
	faces := 0
	var vol float64
	for i := 0; i < len(m.Indices); i += 3 {
		var p [3]int
		for k := range p {
			p[k] = ids[m.Indices[i+k]]
		}
		if p[0] == p[1] || p[1] == p[2] || p[0] == p[2] {
			continue // collapsed at a pole or seam
		}
		faces++
		u, v, w := rel(p[0]), rel(p[1]), rel(p[2])
		cr := r3.Vector{X: v.Y*w.Z - v.Z*w.Y, Y: v.Z*w.X - v.X*w.Z, Z: v.X*w.Y - v.Y*w.X}
		vol += (u.X*cr.X + u.Y*cr.Y + u.Z*cr.Z) / 6
		for k := range p {
			edges[e{p[k], p[(k+1)%3]}]++
			verts[p[k]] = true
		}
	}
	for d, k := range edges {
		if k != 1 {
			t.Fail("", "the edge from %v to %v is used %d times in that direction", m.Vertices[d[0]], m.Vertices[d[1]], k)
		}
		if edges[e{d[1], d[0]}] != 1 {
			t.Fail("", "the surface is open (or inconsistently oriented) along the edge %v - %v", m.Vertices[d[0]], m.Vertices[d[1]])
		}
	}
	for i := range ids {
		if !verts[ids[i]] {
			t.Fail("", "vertex %d = %v is not on the surface mesh", i, m.Vertices[i])
		}
	}
	chi := len(verts) - len(edges)/2 + faces
	want, exact := 2, 4*math.Pi/3*c.r*c.r*c.r
	if c.kind == "torus" {
		want, exact = 0, 2*math.Pi*math.Pi*c.r*c.r2*c.r2
	}
	if chi != want {
		t.Fail("", "Euler characteristic %d, want %d", chi, want)
	}
	if !(vol > 0.05*exact && vol < 1.0000001*exact) {
		t.Fail("", "enclosed signed volume %v; the solid has %v", vol, exact)
	}
	// inscribed: the volume approaches the solid's as the counts grow
	k := math.Min(float64(c.sec), float64(c.stack))
	if loss := 1 - vol/exact; loss > 30/(k*k) && k > 6 {
		t.Fail("", "enclosed volume %v of %v with %v sectors or stacks", vol, exact, k)
	}
}

func normals(t *eng.T, c *cfg, m shape.Mesh) {
	if len(m.Normals) != len(m.Vertices) || len(m.TexCoords) != len(m.Vertices) {
		t.Fail("", "%d vertices, %d normals, %d texture coordinates", len(m.Vertices), len(m.Normals), len(m.TexCoords))
	}
	slack := 1e-10
	if c.kind == "torus" {
		slack *= 1 + c.r/c.r2
	}
	seamS := map[float64]bool{}
	for i, v := range m.Vertices {
		d := r3.Vector{X: v.X - c.center.X, Y: v.Y - c.center.Y, Z: v.Z - c.center.Z}
		n := r3.Vector{X: m.Normals[i][0], Y: m.Normals[i][1], Z: m.Normals[i][2]}
		s, u := m.TexCoords[i][0], m.TexCoords[i][1]
		if !(s >= 0 && s <= 1 && u >= 0 && u <= 1) {
			t.Fail("", "texture coordinates of vertex %d: %v %v", i, s, u)
		}
		seamS[s] = true
		// texture coordinates parametrise the surface
		var p, want r3.Vector
		if c.kind == "sphere" {
			want = r3.Vector{X: math.Sin(math.Pi*u) * math.Cos(2*math.Pi*s), Y: math.Sin(math.Pi*u) * math.Sin(2*math.Pi*s), Z: math.Cos(math.Pi * u)}
			p = r3.Vector{X: c.r * math.Sin(math.Pi*u) * math.Cos(2*math.Pi*s), Y: c.r * math.Sin(math.Pi*u) * math.Sin(2*math.Pi*s), Z: c.r * math.Cos(math.Pi*u)}
		} else {
			a := math.Pi/2 - 2*math.Pi*u
			q := c.r + c.r2*math.Cos(a)
			want = r3.Vector{X: math.Cos(a) * math.Cos(2*math.Pi*s), Y: math.Cos(a) * math.Sin(2*math.Pi*s), Z: math.Sin(a)}
			if c.spindle() && q < 0 && n.X*want.X+n.Y*want.Y+n.Z*want.Z < 0 {
				// inside the self-intersection outward is a matter of taste
				want = r3.Vector{X: -want.X, Y: -want.Y, Z: -want.Z}
			}
			p = r3.Vector{X: q * math.Cos(2*math.Pi*s), Y: q * math.Sin(2*math.Pi*s), Z: c.r2 * math.Sin(a)}
		}
		sc := 16 * tol(c)
		if !(math.Abs(p.X-d.X) < sc && math.Abs(p.Y-d.Y) < sc && math.Abs(p.Z-d.Z) < sc) {
			t.Fail("", "vertex %d is at %v from the centre, but its texture coordinates (%v, %v) belong to %v", i, d, s, u, p)
		}
		if !(math.Abs(n.X-want.X) < slack && math.Abs(n.Y-want.Y) < slack && math.Abs(n.Z-want.Z) < slack) {
			t.Fail("", "normal of vertex %d (%v) = %v, want the outward unit normal %v", i, v, n, want)
		}
	}
	if !seamS[0] || !seamS[1] {
		t.Fail("", "the texture seam lacks one of its two edges")
	}
}

// the tessellation honours the counts it is asked for
func resolution(t *eng.T, c *cfg, m shape.Mesh) {
	if c.far() || c.spindle() {
		return
	}
	ids := weld(m, c)
	uniq := map[int]bool{}
	for _, id := range ids {
		uniq[id] = true
	}
	want := 0
	switch c.kind {
	case "sphere":
		want = c.sec*(c.stack-1) + 2
	case "torus":
		want = c.sec * c.stack
	default:
		want = c.sec + 1
	}
	if len(uniq) != want {
		t.Fail("", "%d distinct vertices, want %d", len(uniq), want)
	}
	if c.kind == "circle" || c.kind == "ellipse" {
		// equal angles
		b := c.r2
		if c.kind == "circle" {
			b = c.r
		}
		seen := make([]bool, c.sec)
		for i := 1; i < len(m.Vertices); i++ {
			d := m.Vertices[i]
			a := math.Atan2((d.Y-c.center.Y)/b, (d.X-c.center.X)/c.r)
			f := (math.Pi/2 - a) / (2 * math.Pi) * float64(c.sec)
			k := math.Round(f)
			if math.Abs(f-k) > 1e-3 {
				t.Fail("", "rim vertex %d is at angle %v, not a multiple of the sector angle", i, a)
			}
			seen[((int(k)%c.sec)+c.sec)%c.sec] = true
		}
		for k, s := range seen {
			if !s {
				t.Fail("", "no rim vertex at sector %d", k)
			}
		}
	}
}

func main() {
	rule := "every sector and stack count up to the bound and a list of larger ones, every listed centre and radius, and the exported constructors"
	all := func(kinds []string, check func(t *eng.T, c *cfg, m shape.Mesh)) func(bool) []eng.Scenario {
		return func(th bool) (l []eng.Scenario) {
			for _, k := range kinds {
				l = append(l, eng.Scenario{Name: k, Body: body(th, check)(k), Shard: 3})
			}
			return
		}
	}
	four := []string{"sphere", "torus", "circle", "ellipse"}
	eng.Main(
		&eng.Prop{ID: "G01", Rule: rule, Scenarios: all(four, indices)},
		&eng.Prop{ID: "G02", Rule: rule, Scenarios: all(four, func(t *eng.T, c *cfg, m shape.Mesh) { onSurface(t, c, m); resolution(t, c, m) })},
		&eng.Prop{ID: "G03", Rule: rule, Scenarios: all(four, closed)},
		&eng.Prop{ID: "G04", Rule: rule, Scenarios: all(four[:2], normals)},
	)
}
