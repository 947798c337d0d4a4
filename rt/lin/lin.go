// Package lin decides linearizability of small recorded histories.
package lin

import (
	"fmt"
	"strings"

	"github.com/chenquan/go-pkg/zverif/vrt"
)

type node[S comparable] struct {
	mask uint64
	s    S
}

// Check reports whether the history can be ordered so that every operation takes effect at one
// instant inside its interval: step returns the states the operation may lead to from s, given
// its result (o.End == 0: the operation has not returned and its result is unknown; such an
// operation may also have had no effect). final, if not nil, must accept the last state.
func Check[S comparable](ops []*vrt.OpRec, init S, step func(s S, o *vrt.OpRec) []S, final func(S) bool) bool {
	n := len(ops)
	if n > 63 {
		panic("lin: history too long")
	}
	var need uint64
	for i, o := range ops {
		if o.End > 0 {
			need |= 1 << uint(i)
		}
	}
	seen := map[node[S]]bool{}
	var rec func(mask uint64, s S) bool
	rec = func(mask uint64, s S) bool {
		if mask&need == need && (final == nil || final(s)) {
			return true
		}
		k := node[S]{mask, s}
		if seen[k] {
			return false
		}
		seen[k] = true
		// the earliest end among the pending completed operations
		first := 1 << 60
		for i, o := range ops {
			if mask&(1<<uint(i)) == 0 && o.End > 0 && o.End < first {
				first = o.End
			}
		}
		for i, o := range ops {
			if mask&(1<<uint(i)) != 0 || o.Begin > first {
				continue
			}
			for _, s2 := range step(s, o) {
				if rec(mask|1<<uint(i), s2) {
					return true
				}
			}
		}
		return false
	}
	return rec(0, init)
}

// Describe prints a history.
func Describe(ops []*vrt.OpRec) string {
	var b strings.Builder
	for _, o := range ops {
		fmt.Fprintf(&b, "%s ", o)
	}
	return b.String()
}
