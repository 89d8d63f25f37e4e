// Package hx holds helpers shared by the harnesses: access to internal entry
// points by name, and exact arithmetic.
package hx

import (
	"math"
	"math/big"
	"reflect"
	"unsafe"

	"geGoMetry/r3"
)

// Fn returns the named function if the package still has it with type F.
func Fn[F any](funcs map[string]interface{}, name string) (F, bool) {
	f, ok := funcs[name].(F)
	return f, ok
}

// Set writes a (possibly unexported) field of *ptr, by name; it reports
// whether the field is there with that type.
func Set(ptr interface{}, field string, val interface{}) bool {
	v := reflect.ValueOf(ptr).Elem()
	f := v.FieldByName(field)
	x := reflect.ValueOf(val)
	if !f.IsValid() || f.Type() != x.Type() {
		return false
	}
	reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(x)
	return true
}

// Get reads a (possibly unexported) field.
func Get(ptr interface{}, field string) (interface{}, bool) {
	v := reflect.ValueOf(ptr).Elem()
	f := v.FieldByName(field)
	if !f.IsValid() {
		return nil, false
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface(), true
}

// I is an integer point.
type I [3]int64

func (p I) V() r3.Vector { return r3.Vector{X: float64(p[0]), Y: float64(p[1]), Z: float64(p[2])} }

// VS scales and shifts: s*p + o.
func (p I) VS(s float64, o r3.Vector) r3.Vector {
	return r3.Vector{X: s*float64(p[0]) + o.X, Y: s*float64(p[1]) + o.Y, Z: s*float64(p[2]) + o.Z}
}

func (p I) Sub(q I) I { return I{p[0] - q[0], p[1] - q[1], p[2] - q[2]} }

func Cross(a, b I) I {
	return I{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}
func Dot(a, b I) int64 { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }

// Orient is det[b-a, c-a, d-a].
func Orient(a, b, c, d I) int64 { return Dot(Cross(b.Sub(a), c.Sub(a)), d.Sub(a)) }

// Det is the determinant of a small integer matrix (Laplace expansion).
func Det(m [][]int64) int64 {
	n := len(m)
	if n == 1 {
		return m[0][0]
	}
	var s int64
	sign := int64(1)
	for j := 0; j < n; j++ {
		if m[0][j] != 0 {
			sub := make([][]int64, 0, n-1)
			for i := 1; i < n; i++ {
				row := make([]int64, 0, n-1)
				row = append(row, m[i][:j]...)
				row = append(row, m[i][j+1:]...)
				sub = append(sub, row)
			}
			s += sign * m[0][j] * Det(sub)
		}
		sign = -sign
	}
	return s
}

// InSphere is the lifted determinant of five integer points:
// positive when e is inside the sphere through a, b, c, d and Orient(a,b,c,d) < 0.
func InSphere(a, b, c, d, e I) int64 {
	a, b, c, d = a.Sub(e), b.Sub(e), c.Sub(e), d.Sub(e)
	ab, cd := Cross(a, b), Cross(c, d)
	return Dot(b, cd)*-Dot(a, a) + Dot(a, cd)*Dot(b, b) - Dot(ab, d)*Dot(c, c) + Dot(ab, c)*Dot(d, d)
}

func Sgn(x int64) int {
	switch {
	case x > 0:
		return 1
	case x < 0:
		return -1
	}
	return 0
}

func SgnF(x float64) int {
	switch {
	case x > 0:
		return 1
	case x < 0:
		return -1
	case x == 0:
		return 0
	}
	return 2 // NaN
}

// R is the exact value of a float64.
func R(x float64) *big.Rat { r := new(big.Rat); r.SetFloat64(x); return r }

// RDet is an exact determinant.
func RDet(m [][]*big.Rat) *big.Rat {
	n := len(m)
	if n == 1 {
		return m[0][0]
	}
	s := new(big.Rat)
	for j := 0; j < n; j++ {
		if m[0][j].Sign() == 0 {
			continue
		}
		sub := make([][]*big.Rat, 0, n-1)
		for i := 1; i < n; i++ {
			row := make([]*big.Rat, 0, n-1)
			row = append(row, m[i][:j]...)
			row = append(row, m[i][j+1:]...)
			sub = append(sub, row)
		}
		x := new(big.Rat).Mul(m[0][j], RDet(sub))
		if j%2 == 0 {
			s.Add(s, x)
		} else {
			s.Sub(s, x)
		}
	}
	return s
}

// Close compares within an absolute tolerance scaled by scale.
func Close(a, b, scale float64) bool {
	return math.Abs(a-b) <= 1e-9*math.Max(1e-300, scale)
}

// CloseV compares vectors.
func CloseV(a, b r3.Vector, scale float64) bool {
	return Close(a.X, b.X, scale) && Close(a.Y, b.Y, scale) && Close(a.Z, b.Z, scale)
}

func Finite(v r3.Vector) bool {
	for _, x := range []float64{v.X, v.Y, v.Z} {
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return false
		}
	}
	return true
}
