package simrt

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"slices"
)

// SetMapSeed sets the map-order state used outside tasks.
func SetMapSeed(s uint64) { mapG = s }

//go:norace
func nextMap() uint64 {
	if t := Cur(); t != nil {
		t.MapState += 0x9E3779B97F4A7C15
		return mix(t.MapState)
	}
	mapG += 0x9E3779B97F4A7C15
	return mix(mapG)
}

// Entry is a map entry that is read when it is visited.
type Entry[M ~map[K]V, K comparable, V any] struct {
	m M
	K K
}

// Ok reports whether the entry still exists.
func (e Entry[M, K, V]) Ok() bool { _, ok := e.m[e.K]; return ok }

// V is the value.
func (e Entry[M, K, V]) V() V { return e.m[e.K] }

func order[K comparable](keys []K) []K {
	if len(keys) < 2 {
		return keys
	}
	switch ks := any(keys).(type) {
	case []string:
		slices.Sort(ks)
	case []int:
		slices.Sort(ks)
	default:
		k := reflect.TypeFor[K]().Kind()
		if k == reflect.String {
			slices.SortFunc(keys, func(a, b K) int {
				return cmp.Compare(reflect.ValueOf(a).String(), reflect.ValueOf(b).String())
			})
		} else {
			slices.SortFunc(keys, func(a, b K) int {
				return cmp.Compare(fmt.Sprintf("%T %v", a, a), fmt.Sprintf("%T %v", b, b))
			})
		}
	}
	for i := len(keys) - 1; i > 0; i-- {
		j := int(nextMap() % uint64(i+1))
		keys[i], keys[j] = keys[j], keys[i]
		noteOrder(j)
	}
	return keys
}

// noteOrder makes the iteration order part of what tells runs apart.
//
//go:norace
func noteOrder(j int) {
	if Cur() != nil {
		mapN++
		hash = (hash ^ uint64(j+1)<<33) * 1099511628211
	}
}

var mapN int64 // orders drawn in this run

// Entries lists the entries of m in the simulated iteration order.
func Entries[M ~map[K]V, K comparable, V any](m M) []Entry[M, K, V] {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	order(keys)
	out := make([]Entry[M, K, V], len(keys))
	for i, k := range keys {
		out[i] = Entry[M, K, V]{m, k}
	}
	return out
}

// MapsKeys is maps.Keys in the simulated order.
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, e := range Entries(m) {
			if e.Ok() && !yield(e.K) {
				return
			}
		}
	}
}

// MapsValues is maps.Values in the simulated order.
func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, e := range Entries(m) {
			if e.Ok() && !yield(e.V()) {
				return
			}
		}
	}
}

// MapsAll is maps.All in the simulated order.
func MapsAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, e := range Entries(m) {
			if e.Ok() && !yield(e.K, e.V()) {
				return
			}
		}
	}
}

var randG uint64

// Random is the next value of the shared random source.
//
//go:norace
func Random() uint64 {
	if t := Cur(); t != nil {
		randG += 0x9E3779B97F4A7C15
		return mix(randG ^ mix(mapG^0x5bd1e995))
	}
	return nextMap()
}
