package vrt

import "unsafe"

// table is an open-addressing hash table from fingerprints to remaining budgets.
type table struct {
	keys []uint64
	rem  []uint8
	n    int
	full bool
}

const maxTable = 1 << 25

func (t *table) clear() {
	t.keys, t.rem, t.n, t.full = nil, nil, 0, false
}

// seen reports whether fp was visited with at least rem budget left, and records it otherwise.
func (t *table) seen(fp uint64, rem uint8) bool {
	if fp == 0 {
		fp = 1
	}
	if t.keys == nil {
		t.keys = make([]uint64, 1<<10)
		t.rem = make([]uint8, 1<<10)
	}
	if t.n*2 > len(t.keys) {
		t.grow()
	}
	m := uint64(len(t.keys) - 1)
	i := fp & m
	for t.keys[i] != 0 {
		if t.keys[i] == fp {
			if t.rem[i] >= rem {
				return true
			}
			t.rem[i] = rem
			return false
		}
		i = (i + 1) & m
	}
	t.keys[i] = fp
	t.rem[i] = rem
	t.n++
	return false
}

func (t *table) grow() {
	if len(t.keys) >= maxTable {
		t.full = true
	}
	ok, or := t.keys, t.rem
	t.keys = make([]uint64, 2*len(ok))
	t.rem = make([]uint8, 2*len(ok))
	m := uint64(len(t.keys) - 1)
	for j, k := range ok {
		if k == 0 {
			continue
		}
		i := k & m
		for t.keys[i] != 0 {
			i = (i + 1) & m
		}
		t.keys[i] = k
		t.rem[i] = or[j]
	}
}

// set is a hash set of fingerprints.
type set struct {
	t table
	n int
}

func newSet() *set { return &set{} }

func (s *set) add(h uint64) bool {
	if s.t.seen(h, 1) {
		return false
	}
	s.n++
	return true
}

// ptrTable maps addresses to objects within one execution; it keeps the addresses alive.
type ptrTable struct {
	keys []unsafe.Pointer
	vals []any
	n    int
}

func (t *ptrTable) reset() {
	if t.keys == nil || len(t.keys) > 256 {
		t.keys = make([]unsafe.Pointer, 64)
		t.vals = make([]any, 64)
	} else {
		for i := range t.keys {
			t.keys[i] = nil
			t.vals[i] = nil
		}
	}
	t.n = 0
}

func ptrHash(p unsafe.Pointer) uint64 {
	h := uint64(uintptr(p)) >> 3
	h *= 0x9e3779b97f4a7c15
	return h >> 20
}

func (t *ptrTable) get(p unsafe.Pointer) any {
	if t.keys == nil {
		t.reset()
	}
	m := uint64(len(t.keys) - 1)
	i := ptrHash(p) & m
	for t.keys[i] != nil {
		if t.keys[i] == p {
			return t.vals[i]
		}
		i = (i + 1) & m
	}
	return nil
}

func (t *ptrTable) put(p unsafe.Pointer, v any) {
	if t.keys == nil {
		t.reset()
	}
	if t.n*2 >= len(t.keys) {
		ok, ov := t.keys, t.vals
		t.keys = make([]unsafe.Pointer, 2*len(ok))
		t.vals = make([]any, 2*len(ok))
		t.n = 0
		for j := range ok {
			if ok[j] != nil {
				t.put(ok[j], ov[j])
			}
		}
	}
	m := uint64(len(t.keys) - 1)
	i := ptrHash(p) & m
	for t.keys[i] != nil {
		i = (i + 1) & m
	}
	t.keys[i] = p
	t.vals[i] = v
	t.n++
}
