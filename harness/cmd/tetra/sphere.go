package main

import (
	"math"
	"sort"

	"verifh/eng"
	"verifh/hx"
)

// Sets of many points whose numbering is chosen: the points lie near a sphere and their centre comes last, so
// that the last insertion deals with every facet of the hull at once. Pairs of facets get numbers that are easily
// taken for one another: written one after the other without a separator, packed into one word with too small a
// base, cut off to a byte, added up.

type numbered struct{ f, g [3]int }

// concat writes numbers one after the other.
func concat(l ...int) (k uint64) {
	for _, x := range l {
		m := uint64(10)
		for m <= uint64(x) {
			m *= 10
		}
		k = k*m + uint64(x)
	}
	return
}

const confusions = 12

var known = map[[2]int][]numbered{}

// confusable lists pairs of triples of numbers from 1 to n, by kind.
func confusable(kind, n int) (l []numbered) {
	if l, ok := known[[2]int{kind, n}]; ok {
		return l
	}
	defer func() { known[[2]int{kind, n}] = l }()
	switch kind {
	case 9: // the same in a byte, the larger one too large
		for c := 257; c <= n; c++ {
			for a := 1; a < 250; a += 7 {
				l = append(l, numbered{[3]int{a, a + 3, c}, [3]int{a, a + 3, c - 256}})
			}
		}
		return
	case 10, 11: // two numbers written one after the other, and a third that both triples share
		class := map[uint64][][2]int{}
		var keys []uint64
		for a := 1; a <= n; a++ {
			for b := 1; b <= n; b++ {
				if k := concat(a, b); a != b {
					if class[k] = append(class[k], [2]int{a, b}); len(class[k]) == 2 {
						keys = append(keys, k)
					}
				}
			}
		}
		sort.Slice(keys, func(i, j int) bool { return keys[i]*2654435761%65537 < keys[j]*2654435761%65537 })
		for i, k := range keys {
			v, w := class[k][0], class[k][1]
			x := 10 + i*37%(n-10)
			if kind == 11 { // of three digits at least
				x = n - i%(n/2)
			}
			l = append(l, numbered{[3]int{x, v[0], v[1]}, [3]int{x, w[0], w[1]}})
		}
		return
	}
	class := map[uint64][3]int{}
	for a := 1; a <= n; a++ {
		for b := a + 1; b <= n; b++ {
			for c := b + 1; c <= n; c++ {
				if kind != 0 && (a*13+b*7+c*3)%5 != 0 && (a*13+b*7+c*3)%11 != 0 {
					continue
				}
				var k uint64
				switch kind {
				case 0:
					k = concat(a, b, c)
				case 1, 2, 3, 4, 5:
					base := []int{10, 64, 100, 128, 31}[kind-1]
					k = uint64((a*base+b)*base + c)
				case 6:
					k = uint64(a + b + c)
				case 7:
					k = uint64(a ^ b ^ c)
				case 8:
					k = uint64(a * b * c)
				}
				o, ok := class[k]
				class[k] = [3]int{a, b, c}
				if ok && len(l) < 40000 {
					l = append(l, numbered{o, [3]int{a, b, c}})
				}
			}
		}
	}
	return
}

type ball3 struct {
	ps   []hx.I
	hull [][3]int
}

var balls = map[[2]int]*ball3{}

// near a sphere: n points and the facets of their hull
func onBall(n, turn int) *ball3 {
	if b := balls[[2]int{n, turn}]; b != nil {
		return b
	}
	b := &ball3{}
	balls[[2]int{n, turn}] = b
	for i := 0; i < n; i++ {
		z := 1 - (2*float64(i)+1)/float64(n)
		r, phi := math.Sqrt(1-z*z), float64(i)*math.Pi*(3-math.Sqrt(5))+float64(turn)
		f := func(x float64) int64 { return int64(math.Round(60 * x)) }
		b.ps = append(b.ps, hx.I{f(r * math.Cos(phi)), f(r * math.Sin(phi)), f(z)})
	}
	near := func(i, j int) bool { d := b.ps[i].Sub(b.ps[j]); return hx.Dot(d, d)*int64(n) < 60*60*100 }
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			for k := j + 1; k < n; k++ {
				if !near(i, j) || !near(j, k) || !near(i, k) {
					continue
				}
				side, ok := 0, true
				for m := 0; m < n && ok; m++ {
					if m != i && m != j && m != k {
						s := hx.Sgn(hx.Orient(b.ps[i], b.ps[j], b.ps[k], b.ps[m]))
						if side == 0 {
							side = s
						}
						ok = s != 0 && s == side
					}
				}
				if ok {
					b.hull = append(b.hull, [3]int{i, j, k})
				}
			}
		}
	}
	return b
}

// numberings: the points of a ball, numbered so that as many pairs of facets as possible are confusable. The
// code counts from 1, or after four points of its own.
func numberings(sizes []int, kinds []int) gen {
	return func(t *eng.T) []hx.I {
		n := sizes[t.Choose(len(sizes))]
		kind := kinds[t.Choose(len(kinds))]
		off := []int{4, 0}[t.Choose(2)]
		part := t.Choose(2)
		b := onBall(n, 0)
		number := make([]int, n) // of a point, -1: none yet
		taken := make([]int, n)
		for i := range number {
			number[i], taken[i] = -1, -1
		}
		free := func(f [3]int) bool { return number[f[0]] < 0 && number[f[1]] < 0 && number[f[2]] < 0 }
		place := func(f, x [3]int) {
			for k := range f {
				number[f[k]], taken[x[k]-off] = x[k]-off, f[k]
			}
		}
		l := confusable(kind, n-1+off)
		placed := 0
		for i := range l {
			p := l[(i*104729+part*31)%len(l)]
			ok := true
			for k := 0; k < 3; k++ {
				ok = ok && p.f[k] >= off && p.g[k] >= off && p.f[k]-off < n && p.g[k]-off < n && taken[p.f[k]-off] < 0 && taken[p.g[k]-off] < 0
			}
			if !ok {
				continue
			}
			f, g := p.f, p.g
			shared := 0 // moved to the front
			for i := range f {
				for j := range g {
					if f[i] == g[j] {
						f[i], f[shared] = f[shared], f[i]
						g[j], g[shared] = g[shared], g[j]
						shared++
						break
					}
				}
			}
			if a, c, ok := b.pair(shared, free); ok {
				place(a, f)
				place(c, g)
				placed++
			} else if placed > 3 {
				break
			}
		}
		if placed == 0 {
			t.Skip()
		}
		ps := make([]hx.I, n)
		at := 0
		for i, p := range b.ps {
			k := number[i]
			if k < 0 {
				for taken[at] >= 0 {
					at++
				}
				k = at
				taken[at] = i
			}
			ps[k] = p
		}
		return append(ps, hx.I{0, 0, 0})
	}
}

// pair finds two facets of free points that share so many vertices, those first.
func (b *ball3) pair(shared int, free func([3]int) bool) (f, g [3]int, ok bool) {
	for _, f := range b.hull {
		if !free(f) {
			continue
		}
		for j := len(b.hull) - 1; j >= 0; j-- {
			f, g := f, b.hull[j]
			if f == g || !free(g) {
				continue
			}
			s := 0
			for i := range f {
				for j := range g {
					if f[i] == g[j] {
						f[i], f[s] = f[s], f[i]
						g[j], g[s] = g[s], g[j]
						s++
						break
					}
				}
			}
			if s == shared {
				return f, g, true
			}
		}
	}
	return
}
