// P09: a byte buffer from the pool has one owner and the right shape.
package main

import (
	"fmt"
	"strings"
	"unsafe"

	"github.com/chenquan/go-pkg/xbytes"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P09", scenarios) }

// buf is a live slice; its owner filled its whole capacity with id.
type buf struct {
	b  []byte
	id byte
}

func (l buf) fill() {
	f := l.b[:cap(l.b)]
	for i := range f {
		f[i] = l.id
	}
}

func (l buf) bad() string {
	f := l.b[:cap(l.b)]
	for i := range f {
		if f[i] != l.id {
			return fmt.Sprintf("byte %d of a live slice (len %d, cap %d) was %d, now %d", i, len(l.b), cap(l.b), l.id, f[i])
		}
	}
	return ""
}

func overlap(a, b []byte) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	pa, pb := uintptr(unsafe.Pointer(unsafe.SliceData(a))), uintptr(unsafe.Pointer(unsafe.SliceData(b)))
	return pa < pb+uintptr(cap(b)) && pb < pa+uintptr(cap(a))
}

func shape(b []byte, size, capacity int) string {
	c := size
	if capacity > c {
		c = capacity
	}
	if b == nil && c > 0 || len(b) != size || cap(b) != c {
		return fmt.Sprintf("Malloc(%d, %d) returned a slice of length %d and capacity %d, want %d and %d", size, capacity, len(b), cap(b), size, c)
	}
	return ""
}

// op is one step of a history.
//
//	m S C  Malloc(S, C)     s S  MallocSize(S)
//	f K    free live slice K   p K  free a prefix of length 0   t K  free its tail   h K  free its first half, cut to size
//	z K    split live slice K in two and free the halves
//	o S C  free a slice of length S and capacity C that was made elsewhere
type op struct {
	kind byte
	a, b int
}

func (o op) String() string {
	switch o.kind {
	case 'm', 'o':
		return fmt.Sprintf("%c%d,%d", o.kind, o.a, o.b)
	}
	return fmt.Sprintf("%c%d", o.kind, o.a)
}

// apply performs o on the live slices; ok is false if o is not possible.
func apply(o op, live []buf, id *byte, fail func(string)) (out []buf, ok bool) {
	switch o.kind {
	case 'm', 's':
		var b []byte
		c := o.b
		if o.kind == 'm' {
			b = xbytes.Malloc(o.a, o.b)
		} else {
			b = xbytes.MallocSize(o.a)
			c = o.a
		}
		if m := shape(b, o.a, c); m != "" {
			fail(m)
			return live, true
		}
		for _, l := range live {
			if overlap(l.b, b) {
				fail(fmt.Sprintf("%v returned memory of a live slice (len %d, cap %d)", o, len(l.b), cap(l.b)))
				return live, true
			}
		}
		*id++
		l := buf{b, *id}
		l.fill()
		live = append(live[:len(live):len(live)], l)
	case 'o':
		b := make([]byte, o.a, o.b)
		xbytes.Free(b)
	default:
		if o.a >= len(live) {
			return live, false
		}
		b := live[o.a].b
		if (o.kind == 't' || o.kind == 'z' || o.kind == 'h') && cap(b) < 2 {
			return live, false
		}
		var rest []buf
		rest = append(rest, live[:o.a]...)
		live = append(rest, live[o.a+1:]...)
		c := cap(b)
		full := b[:c]
		switch o.kind {
		case 'f':
			xbytes.Free(b)
		case 'p':
			xbytes.Free(b[:0])
		case 't':
			xbytes.Free(full[1:])
		case 'h':
			xbytes.Free(full[: c/2 : c/2])
		case 'z':
			xbytes.Free(full[: c/2 : c/2])
			xbytes.Free(full[c/2:])
		}
	}
	for _, l := range live {
		if m := l.bad(); m != "" {
			fail(m)
			return live, true
		}
	}
	return live, true
}

// histories explores every history of the given length over ops, with every choice of the pool.
func histories(name string, ops []op, n int, first int) *vrt.Scenario {
	return &vrt.Scenario{Name: name, Bounds: []int{-1}, RaceBound: -1, Body: func(x *vrt.X) {
		var live []buf
		id := byte(0)
		for i := 0; i < n; i++ {
			k := first
			if i > 0 || first < 0 {
				k = x.Choose(len(ops))
			}
			var ok bool
			live, ok = apply(ops[k], live, &id, func(m string) { x.Fail("%s", m) })
			if !ok {
				return // an operation on a slice that is not there: the same history is covered shorter
			}
			x.Event("%v", ops[k])
		}
	}}
}

// long is a history of several rounds: n slices are allocated with sizes of the given pattern and freed
// in the given order.
func long(n int, pattern string, sizes []int, bounds ...int) *vrt.Scenario {
	return (&vrt.Scenario{Name: fmt.Sprintf("%d live slices of sizes %v freed %s", n, sizes, pattern), Body: func(x *vrt.X) {
		var live []buf
		id := byte(0)
		fail := func(m string) { x.Fail("%s", m) }
		st := x.Choose(3)
		for round := 0; round < 3; round++ {
			for i := 0; i < n; i++ {
				s := sizes[(i*(st+1)+round)%len(sizes)]
				o := op{'m', s, s}
				switch (i + st) % 4 {
				case 1:
					o = op{'s', s, 0}
				case 2:
					o = op{'m', s / 2, s}
				case 3:
					o = op{'m', 0, s}
				}
				live, _ = apply(o, live, &id, fail)
			}
			for i := 0; len(live) > 0; i++ {
				k := byte('f')
				at := 0
				switch pattern {
				case "last first":
					at = len(live) - 1
				case "from the middle":
					at = len(live) / 2
				case "resliced":
					k = "fhtpz"[i%5]
				case "half of them":
					if len(live) < n/2 && round < 2 {
						i = 1 << 30
					}
				}
				if i == 1<<30 {
					break
				}
				var ok bool
				live, ok = apply(op{k, at, 0}, live, &id, fail)
				if !ok {
					live, _ = apply(op{'f', at, 0}, live, &id, fail)
				}
			}
		}
	}}).Delays(bounds...)
}

// threads explores concurrent owners. Each program is a word: letters A..D allocate different shapes,
// f frees the newest, F the oldest; every slice is checked between all steps.
func threads(deep bool, setup string, progs ...string) *vrt.Scenario {
	bounds := []int{1, 2}
	if len(progs) > 2 && !deep {
		bounds = []int{1}
	}
	return &vrt.Scenario{Name: fmt.Sprintf("owners [%s] %s", setup, strings.Join(progs, " | ")), Bounds: bounds, Body: func(x *vrt.X) {
		run := func(p string, base byte) {
			var live []buf
			for i, c := range p {
				switch c {
				case 'f', 'F':
					k := len(live) - 1
					if c == 'F' {
						k = 0
					}
					b := live[k]
					if m := b.bad(); m != "" {
						x.Fail("%s", m)
					}
					live = append(append([]buf(nil), live[:k]...), live[k+1:]...)
					xbytes.Free(b.b)
				default:
					s := [][2]int{{2, 2}, {1, 2}, {3, 3}, {0, 4}, {2, 3}}[c-'A']
					b := xbytes.Malloc(s[0], s[1])
					if m := shape(b, s[0], s[1]); m != "" {
						x.Fail("%s", m)
					}
					l := buf{b, base + byte(i)}
					l.fill()
					live = append(live, l)
				}
				x.Step()
				for _, l := range live {
					if m := l.bad(); m != "" {
						x.Fail("%s", m)
					}
				}
			}
		}
		run(setup, 1)
		for i, p := range progs {
			p, b := p, byte(50*(i+1))
			x.Go(fmt.Sprintf("owner%d", i), func() { run(p, b) })
		}
		x.AtEnd(func(e *vrt.End) { e.NoBlocked() })
	}}
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	d := func(q, t int) int {
		if deep {
			return t
		}
		return q
	}
	split := func(name string, ops []op, n int) {
		for i := range ops {
			r = append(r, histories(fmt.Sprintf("%s, %d operations, first %v", name, n, ops[i]), ops, n, i))
		}
	}
	// one capacity, all recycling
	split("one capacity", []op{{'m', 2, 2}, {'m', 1, 2}, {'f', 0, 0}, {'f', 1, 0}, {'o', 1, 2}}, d(6, 8))
	// capacities next to each other
	split("near capacities", []op{{'m', 2, 2}, {'m', 1, 3}, {'m', 3, 1}, {'s', 4, 0}, {'f', 0, 0}, {'f', 1, 0}, {'p', 0, 0}, {'o', 0, 3}, {'o', 2, 4}}, d(4, 6))
	// resliced and split slices
	split("resliced", []op{{'m', 4, 4}, {'m', 1, 2}, {'m', 0, 3}, {'t', 0, 0}, {'h', 0, 0}, {'z', 0, 0}, {'f', 0, 0}, {'f', 1, 0}}, d(5, 6))
	// empty slices
	split("empty", []op{{'m', 0, 0}, {'s', 1, 0}, {'m', 0, 1}, {'f', 0, 0}, {'f', 1, 0}, {'o', 0, 0}}, d(5, 6))
	// larger shapes
	split("large", []op{{'m', 1024, 1024}, {'m', 1000, 1025}, {'m', 65, 100}, {'m', 100, 128}, {'f', 0, 0}, {'f', 1, 0}, {'h', 0, 0}}, d(4, 6))

	for _, n := range []int{3, 8, 17, 40, 120} {
		for _, pattern := range []string{"first first", "last first", "from the middle", "resliced", "half of them"} {
			for _, sizes := range [][]int{{8}, {1, 2, 3, 4, 5}, {16, 17, 15}, {64, 100, 128}, {7, 0, 1}, {33, 34, 35, 36}} {
				switch {
				case n < 9:
					r = append(r, long(n, pattern, sizes, 0, d(1, 2)))
				case n < 41:
					r = append(r, long(n, pattern, sizes, 0, d(0, 1)))
				default:
					r = append(r, long(n, pattern, sizes, 0))
				}
			}
		}
	}
	for _, ps := range [][]string{{"AfAfAfAfAfAf", "BABAfFfF", "ABCDfffFABCD", "EEEEffff"}, {"Af", "Af", "Af", "Af", "Af", "Af", "Af"}, {"ABAB", "ffCAAf"[2:], "AAAAFFFFBBBB", "CfCfCf", "DADAffff"}} {
		for _, setup := range []string{"", "AAff", "ACEBDffFFf"} {
			s := threads(deep, setup, ps...).Delays(0, d(2, 3))
			s.RaceBound = 1
			r = append(r, s)
		}
	}

	progs := []string{"Af", "AfAf", "BAfF", "AAf", "ACfF", "DfC", "EfC"}
	for _, setup := range []string{"", "AAff", "ACff"} {
		for i, a := range progs {
			for _, b := range progs[i:] {
				r = append(r, threads(deep, setup, a, b))
			}
		}
		r = append(r, threads(deep, setup, "Af", "Af", "Af"), threads(deep, setup, "AfA", "BfB", "A"))
	}
	if deep {
		for _, setup := range []string{"", "AAff", "AAAfff"} {
			for i, a := range progs[:4] {
				for _, b := range progs[i:4] {
					r = append(r, threads(deep, setup, a, b, "AfB"))
				}
			}
		}
	}

	// shapes over pairs of sizes, recycling the newest
	top := d(260, 1100)
	r = append(r, vrt.EnumScenarios("sizes", d(4, 16), func(c *vrt.Enum) {
		var sizes [][2]int
		for s := 0; s <= top; s++ {
			sizes = append(sizes, [2]int{s, s})
		}
		for k := 8; k <= d(14, 18); k++ {
			for e := -2; e <= 2; e++ {
				sizes = append(sizes, [2]int{1<<uint(k) + e, 1<<uint(k) + e})
			}
			sizes = append(sizes, [2]int{1<<uint(k) - 1, 1 << uint(k)}, [2]int{1 << uint(k), 1<<uint(k) - 1}, [2]int{1 << uint(k), 1<<uint(k) + 1})
		}
		for _, a := range sizes {
			for _, way := range []int{0, 1} {
				if !c.Case("first Malloc", a, "then free, way", way) {
					continue
				}
				c.Fresh()
				for dlt := -3; dlt <= 3; dlt++ {
					id := byte(0)
					fail := func(m string) { c.Fail("%s (delta %d)", m, dlt) }
					live, _ := apply(op{'m', a[0], a[1]}, nil, &id, fail)
					first := live
					live, _ = apply(op{"ft"[way], 0, 0}, live, &id, fail)
					c.Eval()
					for j := 0; j < 2; j++ {
						s, cp := a[0]+dlt, a[1]+dlt
						if s < 0 {
							s = 0
						}
						live, _ = apply(op{'m', s, cp}, live, &id, fail)
						live, _ = apply(op{'m', s / 2, cp}, live, &id, fail)
					}
					for len(live) > 0 {
						live, _ = apply(op{'f', 0, 0}, live, &id, fail)
					}
					_ = first
				}
			}
		}
	})...)
	// shapes of big slices, new and recycled
	r = append(r, vrt.EnumScenarios("big", 4, func(c *vrt.Enum) {
		var sizes []int
		for k := 14; k <= d(24, 27); k++ {
			for _, e := range []int{-4097, -4096, -2, -1, 0, 1, 2, 100, 1000, 4095, 4096, 4097, 1 << uint(k-1)} {
				sizes = append(sizes, 1<<uint(k)+e)
			}
		}
		for k, p := 4, 10000; k <= 7; k, p = k+1, p*10 {
			for m := 1; m < 10; m += 2 {
				sizes = append(sizes, m*p, m*p+1)
			}
		}
		for _, s := range sizes {
			if !c.Case("capacity", s) {
				continue
			}
			c.Fresh()
			for i, size := range []int{s, s - 1, 0, 10, s / 2, s - 4097} {
				b := xbytes.Malloc(size, s)
				c.Eval()
				if m := shape(b, size, s); m != "" {
					c.Fail("%s", m)
				}
				e := xbytes.Malloc(size, s)
				if overlap(b, e) {
					c.Fail("two slices of capacity %d share memory", s)
				}
				if i%2 == 0 {
					xbytes.Free(b)
					xbytes.Free(e)
				} else {
					xbytes.Free(e[:0])
				}
			}
			b := xbytes.Malloc(s, s-1)
			if m := shape(b, s, s-1); m != "" {
				c.Fail("%s", m)
			}
			xbytes.Free(b)
			b = xbytes.MallocSize(s)
			if m := shape(b, s, s); m != "" {
				c.Fail("%s", m)
			}
		}
		c.Fresh()
	})...)
	return r
}
