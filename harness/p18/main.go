// P18: MapReduce cancellation closes the output and breaks nothing.
package main

import (
	"strings"

	"github.com/chenquan/go-pkg/zverif/h/lib/mr"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P18", scenarios) }

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	// large worker sizes and many elements, under a delay bound
	for _, size := range []int{0, 1, 2, 3, 5, 8, 16, 17} {
		for _, ctx := range []string{"cancel", "before", "parent", "timeout"} {
			for _, use := range []string{"range", "0", "3", "stream"} {
				for _, items := range []string{"1111111111111111111111", "fcs1fcs1fcs1fcs1", "cccccccccccccccccccc", "l2l2l2l2l2l2", "ffffffffffff", "0000000000000000001"} {
					for _, hold := range []bool{false, true} {
						if !deep && (ctx == "parent" && hold || size == 8 || size == 17) {
							continue
						}
						if hold && len(items) > 16 || use == "stream" && ctx != "cancel" {
							continue
						}
						d := 1
						if deep && size < 4 {
							d = 2
						}
						r = append(r, mr.Scenario(mr.Conf{Items: items, Size: size, Ctx: ctx, Use: use, Hold: hold}).Delays(0, d))
					}
				}
			}
		}
	}
	for _, size := range []int{1, 63, 64, 65, 100, 128, 256, 300} {
		for _, ctx := range []string{"cancel", "before", "parent", "timeout"} {
			for _, use := range []string{"range", "0", "3"} {
				for _, items := range []string{"1", "fcs1", "c", "l2", "f", "s"} {
					if items == "f" && size > 128 {
						continue
					}
					items = strings.Repeat(items, (size+40)/len(items))
					r = append(r, mr.Scenario(mr.Conf{Items: items, Size: size, Ctx: ctx, Use: use}).Delays(0))
				}
			}
		}
	}
	for _, ctx := range []string{"cancel", "before", "parent", "timeout"} {
		r = append(r, mr.Scenario(mr.Conf{Items: strings.Repeat("1", 1500), Size: 2, Ctx: ctx, Use: "range"}).Delays(0),
			mr.Scenario(mr.Conf{Items: strings.Repeat("2", 1500), Size: 0, Ctx: ctx, Use: "3"}).Delays(0))
	}
	add := func(items string, size int, ctx, use string, bounds ...int) {
		r = append(r, mr.Scenario(mr.Conf{Items: items, Size: size, Ctx: ctx, Use: use}, bounds...))
	}
	kinds := "012scfl"
	// contexts of other kinds
	for _, ctx := range []string{"own", "far", "farbefore"} {
		b := []int{0, 1}
		if deep {
			b = []int{0, 1, 2}
		}
		for _, use := range []string{"range", "0", "stream"} {
			for _, items := range []string{"", "1", "2", "s", "c", "f", "l", "1c", "f1", "cs"} {
				for size := 1; size <= 2; size++ {
					if size == 2 && len(items) == 2 && !deep {
						b = b[:1]
					}
					add(items, size, ctx, use, b...)
					if use != "stream" && len(items) < 2 {
						r = append(r, mr.Scenario(mr.Conf{Items: items, Size: size, Ctx: ctx, Use: use, Hold: true}, b...))
					}
				}
			}
		}
		for _, items := range []string{"1111111111111111111111", "fcs1fcs1fcs1fcs1", "l2l2l2l2l2l2"} {
			r = append(r, mr.Scenario(mr.Conf{Items: items, Size: 2, Ctx: ctx, Use: "3"}).Delays(0, 1))
		}
	}
	for _, ctx := range []string{"cancel", "before", "parent", "timeout"} {
		for _, use := range []string{"range", "0", "1", "stream"} {
			for i := range kinds {
				b := []int{1}
				if deep {
					b = []int{1, 2}
				}
				for size := 1; size <= 2; size++ {
					add(kinds[i:i+1], size, ctx, use, b...)
				}
				if use == "stream" || use == "1" && !deep {
					continue
				}
				for j := range kinds {
					b := []int{0, 1}
					if deep {
						b = []int{0, 1, 2}
					}
					if ctx != "cancel" {
						b = []int{0}
					}
					for size := 1; size <= 2; size++ {
						if !deep && size == 2 && (i > 4 || j > 4) {
							b = b[:1]
						}
						add(kinds[i:i+1]+kinds[j:j+1], size, ctx, use, b...)
					}
				}
			}
		}
		for _, items := range []string{"", "1", "c", "f", "12", "1s"} {
			for _, use := range []string{"range", "0", "1"} {
				for size := 1; size <= 2; size++ {
					b := []int{1}
					if deep {
						b = []int{1, 2}
					} else if len(items) == 2 && size == 2 {
						b = []int{0}
					}
					r = append(r, mr.Scenario(mr.Conf{Items: items, Size: size, Ctx: ctx, Use: use, Hold: true}, b...))
				}
			}
		}
		add("", 1, ctx, "range", 2)
		add("", 1, ctx, "0", 2)
		if ctx != "before" {
			for _, w := range []string{"111", "2c1", "fff", "1sc"} {
				for _, use := range []string{"range", "0", "1"} {
					for size := 1; size <= 2; size++ {
						b := []int{0}
						if deep {
							b = []int{0, 1}
						} else if ctx != "cancel" && size == 2 || w == "fff" && use == "range" && size == 2 {
							continue
						}
						add(w, size, ctx, use, b...)
					}
				}
			}
		}
	}
	return r
}
