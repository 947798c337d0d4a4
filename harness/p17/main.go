// P17: MapReduce output is exactly what the map calls wrote.
package main

import (
	"context"
	"fmt"
	"strings"

	"github.com/chenquan/go-pkg/xbarrier"
	"github.com/chenquan/go-pkg/xmapreduce"
	"github.com/chenquan/go-pkg/zverif/h/lib/mr"
	"github.com/chenquan/go-pkg/zverif/h/lib/odd"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P17", scenarios) }

func words(alphabet string, n int) []string {
	out := []string{""}
	last := out
	for i := 0; i < n; i++ {
		var next []string
		for _, w := range last {
			for _, c := range alphabet {
				next = append(next, w+string(c))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// values maps elements of every kind to each other: element i is generated, the call for it writes element i+shift
// and the element itself.
func values(size, shift int, stream bool, bounds ...int) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("elements of every kind size=%d shift=%d stream=%v", size, shift, stream), Bounds: bounds, Body: func(x *vrt.X) {
		n := len(odd.Values) + 1
		a := x.Choose(n) - 1
		b := (a+1+shift)%n - 1
		x.Note("%s and %s", odd.Name(a), odd.Name(b))
		gen := func(source chan<- any) {
			source <- odd.At(a)
			source <- odd.At(b)
		}
		f := func(item any, w xbarrier.Writer) {
			i := odd.Index(item)
			if i != a && i != b {
				x.Fail("the map function got %s", odd.Name(i))
			}
			x.SetReg(2+i, x.Reg(2+i)+1)
			for _, v := range []any{item, odd.At((i+1+shift)%n - 1)} {
				if !w.Write(v) {
					x.Fail("a write failed although the context had not ended")
				}
			}
		}
		var opts []xmapreduce.Option
		if size > 0 {
			opts = append(opts, xmapreduce.WithWorkerSize(size))
		}
		var out <-chan any
		if stream {
			out = xmapreduce.MapStream(context.Background(), gen, f, opts...).Chan()
		} else {
			out = xmapreduce.Map(context.Background(), gen, f, opts...)
		}
		left := map[int]int{}
		for _, i := range []int{a, b} {
			left[i]++
			left[(i+1+shift)%n-1]++
		}
		for v := range out {
			i := odd.Index(v)
			if left[i] == 0 {
				x.Fail("the output has %s, which was not written (so often)", odd.Name(i))
			}
			left[i]--
		}
		for _, i := range []int{a, b, (b+1+shift)%n - 1} {
			if left[i] != 0 {
				x.Fail("the output lacks %s", odd.Name(i))
			}
		}
		for _, i := range []int{a, b} {
			want := 1
			if a == b {
				want = 2
			}
			if got := x.Reg(2 + i); got != want {
				x.Fail("%d calls for %s, want %d", got, odd.Name(i), want)
			}
		}
		x.AtEnd(func(e *vrt.End) { e.NoBlocked() })
	}}
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	add := func(items string, size int, ctx, use string, bounds ...int) {
		r = append(r, mr.Scenario(mr.Conf{Items: items, Size: size, Ctx: ctx, Use: use}, bounds...))
	}
	for size := 0; size <= 2; size++ {
		for shift := 0; shift <= 2; shift++ {
			r = append(r, values(size, shift, shift == 1, 0, 1))
		}
	}
	for _, w := range words("0123slne", 1) {
		for size := 0; size <= 2; size++ {
			for _, ctx := range []string{"bg", "live"} {
				for _, use := range []string{"range", "stream", "count"} {
					b := []int{2}
					if deep {
						b = []int{2, 3}
					}
					add(w, size, ctx, use, b...)
				}
			}
		}
	}
	for _, w := range words("012s", 2) {
		if len(w) < 2 {
			continue
		}
		for size := 1; size <= 2; size++ {
			b := []int{1, 2}
			if deep {
				b = []int{1, 2, 3}
			}
			add(w, size, "bg", "range", b...)
		}
		add(w, 3, "live", "stream", 0)
		add(w, 0, "live", "range", 0)
	}
	for _, w := range words("012", 3) {
		if len(w) < 3 {
			continue
		}
		for size := 1; size <= 3; size++ {
			b := []int{0, 1}
			if deep {
				b = []int{0, 1, 2}
			}
			add(w, size, "bg", "range", b...)
		}
	}
	for _, w := range []string{"e1", "1e", "1e1"} {
		for size := 1; size <= 2; size++ {
			add(w, size, "bg", "range", 1)
		}
	}
	for _, w := range []string{"1111", "2s0s", "0120"} {
		for size := 1; size <= 3; size++ {
			add(w, size, "live", "range", 0)
			if deep {
				add(w, size, "bg", "stream", 0, 1)
			}
		}
	}
	// large worker sizes and many elements, under a delay bound
	far := func(items string, size int, ctx, use string, d int) {
		if deep && len(items) < 22 {
			d++
		}
		s := mr.Scenario(mr.Conf{Items: items, Size: size, Ctx: ctx, Use: use}, 0, d)
		s.Name += " (delays)"
		s.Delay, s.RaceBound, s.Horizon = true, -1, 100*len(items)
		r = append(r, s)
	}
	for _, n := range []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 32, 33} {
		far(strings.Repeat("1", 2*n+3), n, "bg", "range", 1)
		far(strings.Repeat("s", 40), n, "live", "range", 0)
		far(strings.Repeat("0123sln", 6), n, "bg", "stream", 0)
		far(strings.Repeat("3", 12), n, "bg", "count", 1)
		far(strings.Repeat("n", 20), n, "live", "range", 0)
	}
	for _, n := range []int{63, 64, 65, 100, 127, 129, 255, 256, 257, 300, 513} {
		far(strings.Repeat("1", 2*n+3), n, "bg", "range", 0)
		far(strings.Repeat("s", n+3), n, "live", "range", 0)
		far(strings.Repeat("0123sln", n/5), n, "bg", "stream", 0)
		far(strings.Repeat("n", n+2), 3, "live", "range", 0)
		far(strings.Repeat("2s", n), 0, "live", "count", 0)
		far(strings.Repeat("3", n), 1, "live", "range", 0)
	}
	for _, n := range []int{1000, 1025, 2049} {
		far(strings.Repeat("s", n+5), n, "live", "range", 0)
		far(strings.Repeat("2", 2*n), n, "live", "stream", 0)
	}
	far(strings.Repeat("1", 3000), 2, "bg", "range", 0)
	far(strings.Repeat("120s", 2501), 3, "bg", "range", 0)
	far(strings.Repeat("1", 66001), 1, "bg", "count", 0)
	far(strings.Repeat("s1", 800), 0, "live", "range", 0)
	// worker sizes larger than memory: a bound on the concurrency, nothing else
	for _, n := range []int{1 << 20, 1 << 31, 1 << 32, 1 << 40, 1<<62 - 1, 1 << 62, 1<<63 - 2} {
		for _, w := range words("012s", 2) {
			far(w, n, "bg", "range", 1)
			far(w, n, "live", "stream", 0)
		}
		far(strings.Repeat("1", 40), n, "bg", "count", 0)
		far(strings.Repeat("2", 1100), n, "live", "range", 0)
	}
	if deep {
		for size := 1; size <= 4; size++ {
			add("11111", size, "bg", "range", 0)
			add("ssssss", size, "bg", "range", 0)
		}
	}
	return r
}
