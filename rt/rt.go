// Package verifrt is linked into the instrumented copy of the repository.
// The instrumenter puts a call of P before every statement (and at the head of
// every function and loop body) and replaces every range over a map by Iter,
// so that the harness owns both the step count (hangs are detected by counting,
// never by a clock), the interleaving of threads, and map iteration order.
package verifrt

import (
	"fmt"
	"reflect"
	"sort"
)

// Hang is the value P panics with when the step budget is used up.
type Hang struct{}

func (Hang) Error() string { return "step budget exhausted (the call does not terminate)" }

var (
	Steps  int64
	Budget int64 = 1 << 62
	// Sched, when set, is called at every step: a scheduling point.
	Sched func()
	// MapChoice, when set, picks which of the n remaining keys (in canonical
	// order) a range over a map yields next.
	MapChoice func(n int) int
)

// P is one step of the code under test. The race detector does not look at it:
// what it counts orders nothing.
//
//go:norace
func P() {
	Steps++
	if Steps > Budget {
		panic(Hang{})
	}
	if Sched != nil {
		Sched()
	}
}

// It walks over a map in an order the harness decides.
type It[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

// Iter starts a walk; the two zero values declare the loop variables.
func Iter[M ~map[K]V, K comparable, V any](m M) (K, V, *It[K, V]) {
	it := &It[K, V]{m: m, keys: make([]K, 0, len(m))}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	sortKeys(it.keys)
	var k K
	var v V
	return k, v, it
}

func sortKeys[K comparable](keys []K) {
	switch ks := any(keys).(type) {
	case []string:
		sort.Strings(ks)
		return
	case []int:
		sort.Ints(ks)
		return
	}
	kind := reflect.TypeOf(keys).Elem().Kind()
	str := make([]string, len(keys))
	for i, k := range keys {
		if kind == reflect.String {
			str[i] = reflect.ValueOf(k).String()
		} else {
			str[i] = fmt.Sprint(k)
		}
	}
	sort.Sort(&byStr[K]{str, keys})
}

type byStr[K comparable] struct {
	s []string
	k []K
}

func (b *byStr[K]) Len() int           { return len(b.s) }
func (b *byStr[K]) Less(i, j int) bool { return b.s[i] < b.s[j] }
func (b *byStr[K]) Swap(i, j int) {
	b.s[i], b.s[j] = b.s[j], b.s[i]
	b.k[i], b.k[j] = b.k[j], b.k[i]
}

// Next yields the next live entry. Entries deleted meanwhile are not yielded,
// nor are entries added meanwhile (both are behaviours Go allows).
func (it *It[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		i := 0
		if MapChoice != nil && len(it.keys) > 1 {
			i = MapChoice(len(it.keys))
		}
		key := it.keys[i]
		it.keys = append(it.keys[:i], it.keys[i+1:]...)
		val, ok := it.m[key]
		if !ok {
			continue
		}
		*k, *v = key, val
		return true
	}
	return false
}
