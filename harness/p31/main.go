// P31: Min and Max return the exact smaller or larger argument.
package main

import (
	"fmt"
	"math"

	"github.com/chenquan/go-pkg/xmath"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P31", scenarios) }

func ints(c *vrt.Enum, a, b int64) {
	if !c.Case(a, b) {
		return
	}
	small, large := a, b
	if b < a {
		small, large = b, a
	}
	if got := xmath.MaxInt64(a, b); got != large {
		c.Fail("MaxInt64 = %d", got)
	}
	if got := xmath.MinInt64(a, b); got != small {
		c.Fail("MinInt64 = %d", got)
	}
	if got := xmath.MaxInt(int(a), int(b)); got != int(large) {
		c.Fail("MaxInt = %d", got)
	}
	if got := xmath.MinInt(int(a), int(b)); got != int(small) {
		c.Fail("MinInt = %d", got)
	}
}

// minmax is written out: NaN wins over all but the infinity of its side (Max(+Inf, NaN) = +Inf), +0 is
// larger than -0.
func minmax(a, b float64) (lo, hi float64) {
	less := func(x, y float64) bool { return x < y || x == y && math.Signbit(x) && !math.Signbit(y) }
	lo, hi = a, b
	if less(b, a) {
		lo, hi = b, a
	}
	if a != a || b != b {
		lo, hi = math.NaN(), math.NaN()
		if a == math.Inf(1) || b == math.Inf(1) {
			hi = math.Inf(1)
		}
		if a == math.Inf(-1) || b == math.Inf(-1) {
			lo = math.Inf(-1)
		}
	}
	return
}

func same(a, b float64) bool {
	return a != a && b != b || a == b && math.Signbit(a) == math.Signbit(b)
}

func floats(c *vrt.Enum, a, b float64) {
	if !c.Case(math.Float64bits(a), math.Float64bits(b)) {
		return
	}
	lo, hi := minmax(a, b)
	if got := xmath.MaxFloat64(a, b); !same(got, hi) || !same(hi, math.Max(a, b)) {
		c.Fail("MaxFloat64(%v, %v) = %v, want %v", a, b, got, hi)
	}
	if got := xmath.MinFloat64(a, b); !same(got, lo) || !same(lo, math.Min(a, b)) {
		c.Fail("MinFloat64(%v, %v) = %v, want %v", a, b, got, lo)
	}
}

func floats32(c *vrt.Enum, a, b float32) {
	if !c.Case("float32", math.Float32bits(a), math.Float32bits(b)) {
		return
	}
	lo, hi := minmax(float64(a), float64(b))
	if got := xmath.MaxFloat32(a, b); !same(float64(got), hi) {
		c.Fail("MaxFloat32(%v, %v) = %v, want %v", a, b, got, hi)
	}
	if got := xmath.MinFloat32(a, b); !same(float64(got), lo) {
		c.Fail("MinFloat32(%v, %v) = %v, want %v", a, b, got, lo)
	}
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	shards := 8
	sharded := func(name string, f func(c *vrt.Enum)) {
		for i := 0; i < shards; i++ {
			r = append(r, &vrt.Scenario{Name: fmt.Sprint(name, " ", i+1), Shard: i, Shards: shards, Enum: f})
		}
	}
	sharded("integers around every power of two and the ends", func(c *vrt.Enum) {
		var vals []int64
		near := int64(2)
		if deep {
			near = 6
		}
		for s := uint(0); s < 64; s++ {
			for d := -near; d <= near; d++ {
				v := int64(uint64(1)<<s) + d
				vals = append(vals, v, -v)
			}
		}
		for d := int64(0); d < 20; d++ {
			vals = append(vals, math.MaxInt64-d, math.MinInt64+d)
		}
		for _, s := range []uint{52, 53, 54, 60, 62} { // between the numbers that floats have
			for d := int64(1); d < 40; d++ {
				vals = append(vals, int64(1)<<s|int64(1)<<(s-1)|d, -(int64(1)<<s | int64(1)<<(s-2) | d))
			}
		}
		for _, a := range vals {
			for _, b := range vals {
				ints(c, a, b)
			}
		}
		n := int64(150)
		if deep {
			n = 600
		}
		for a := -n; a <= n; a++ {
			for b := -n; b <= n; b++ {
				ints(c, a, b)
			}
		}
	})
	sharded("floats of every exponent and the special ones", func(c *vrt.Enum) {
		vals := []float64{math.NaN(), -math.NaN(), math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1)}
		step := uint64(16)
		if deep {
			step = 3
		}
		for e := uint64(0); e < 2047; e += step {
			for _, m := range []uint64{0, 1, 1<<52 - 1} {
				v := math.Float64frombits(e<<52 | m)
				vals = append(vals, v, -v)
			}
		}
		for _, e := range []uint64{0, 1, 1022, 1023, 1024, 2046} {
			for _, m := range []uint64{0, 1, 2, 1 << 51, 1<<52 - 1} {
				v := math.Float64frombits(e<<52 | m)
				vals = append(vals, v, -v)
			}
		}
		for _, a := range vals {
			for _, b := range vals {
				floats(c, a, b)
			}
		}
	})
	sharded("float32 of every exponent and the special ones", func(c *vrt.Enum) {
		vals := []float32{float32(math.NaN()), float32(math.Inf(1)), float32(math.Inf(-1)), 0, float32(math.Copysign(0, -1))}
		for e := uint32(0); e < 255; e++ {
			for _, m := range []uint32{0, 1, 1<<23 - 1} {
				v := math.Float32frombits(e<<23 | m)
				vals = append(vals, v, -v)
			}
		}
		for _, a := range vals {
			for _, b := range vals {
				floats32(c, a, b)
			}
		}
	})
	return r
}
