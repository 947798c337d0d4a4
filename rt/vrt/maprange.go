package vrt

import (
	"fmt"
	"reflect"
	"sort"
)

// MI iterates over a map in an order the scheduler chooses.
type MI[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

// MapInit starts a range loop over a map. The keys are put in a canonical order first.
func MapInit[K comparable, V any](m map[K]V) *MI[K, V] {
	it := &MI[K, V]{m: m}
	for k := range m {
		it.keys = append(it.keys, k)
	}
	if len(it.keys) > 1 {
		names := make([]string, len(it.keys))
		for i, k := range it.keys {
			names[i] = keyName(k)
		}
		sort.Sort(&byName[K]{names, it.keys})
	}
	return it
}

type byName[K any] struct {
	n []string
	k []K
}

func (b *byName[K]) Len() int           { return len(b.n) }
func (b *byName[K]) Less(i, j int) bool { return b.n[i] < b.n[j] }
func (b *byName[K]) Swap(i, j int) {
	b.n[i], b.n[j] = b.n[j], b.n[i]
	b.k[i], b.k[j] = b.k[j], b.k[i]
}

//go:noinline
func keyName(k any) string {
	switch v := k.(type) {
	case string:
		return "s" + v
	case int:
		return fmt.Sprintf("i%020d", v)
	}
	switch reflect.ValueOf(k).Kind() {
	case reflect.Ptr, reflect.Chan, reflect.UnsafePointer, reflect.Func:
		return "p" // no canonical order; the iteration order of such maps is not enumerated
	}
	return fmt.Sprintf("%T%v", k, k)
}

// Next1 moves to the next key still present.
func (it *MI[K, V]) Next1(k *K) bool {
	var v V
	return it.Next(k, &v)
}

// Next moves to the next entry still present.
func (it *MI[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		i := pickKey(len(it.keys))
		key := it.keys[i]
		for ; i > 0; i-- {
			it.keys[i] = it.keys[i-1]
		}
		it.keys = it.keys[1:]
		val, ok := it.m[key]
		if ok {
			*k, *v = key, val
			return true
		}
	}
	return false
}

// Skip moves on without variables.
func (it *MI[K, V]) Skip() bool {
	var k K
	var v V
	return it.Next(&k, &v)
}

// MapVars declares the variables of a range loop over a map.
func MapVars[K comparable, V any](m map[K]V) (*MI[K, V], K, V) {
	var k K
	var v V
	return MapInit(m), k, v
}

func MapVar1[K comparable, V any](m map[K]V) (*MI[K, V], K) {
	var k K
	return MapInit(m), k
}

//go:noinline
func pickKey(n int) int {
	t := enter()
	if n <= 1 || t.noYield || eng.mapOrd <= 1 {
		return 0
	}
	return t.choose(min(n, eng.mapOrd))
}
