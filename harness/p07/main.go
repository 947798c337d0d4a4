// P07: ResourceManager Close and Remove account for every resource.
package main

import (
	"fmt"
	"strings"

	"github.com/chenquan/go-pkg/zverif/h/lib/maps"
	"github.com/chenquan/go-pkg/zverif/h/lib/rm"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P07", scenarios) }

func scen(setup string, progs []string, bounds []int, closing bool) *vrt.Scenario {
	var ps [][]string
	for _, p := range progs {
		ps = append(ps, strings.Split(p, ","))
	}
	return &vrt.Scenario{Name: fmt.Sprintf("setup [%s] threads %s close %v", setup, strings.Join(progs, " | "), closing), Bounds: bounds, MapOrders: 3, Body: func(x *vrt.X) {
		rm.Explore(x, strings.Fields(setup), ps, closing)
	}}
}

// over lets Close overlap Gets and Removes that began before it.
func over(setup string, progs []string, bounds []int) *vrt.Scenario {
	var ps [][]string
	for _, p := range progs {
		ps = append(ps, strings.Split(p, ","))
	}
	return &vrt.Scenario{Name: fmt.Sprintf("setup [%s] threads %s during Close", setup, strings.Join(progs, " | ")), Bounds: bounds, MapOrders: 2, Body: func(x *vrt.X) {
		rm.Overlap(x, strings.Fields(setup), ps)
	}}
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	words := func(alpha []string, n int) []string {
		var out []string
		for _, w := range maps.Words(alpha, n) {
			out = append(out, strings.Join(w, ","))
		}
		return out
	}
	// every sequence of operations by one goroutine
	n := 4
	if deep {
		n = 5
	}
	for _, w := range words([]string{"Gx", "Hx", "Hy", "Ex", "Ez", "gx", "Rx", "Ry"}, n) {
		w := w
		r = append(r, &vrt.Scenario{Name: "sequence " + w, Bounds: []int{-1}, MapOrders: 3, RaceBound: -1, Body: func(x *vrt.X) {
			rm.Explore(x, strings.Split(w, ","), nil, true)
		}})
	}
	r = append(r, scen("Hx Hy Hz Gw", nil2(), []int{-1}, true), scen("Hx Hy Hz Hw Gv Rx", nil2(), []int{-1}, true),
		scen("Ex Ey", nil2(), []int{-1}, true), scen("Ex Ey Hz", nil2(), []int{-1}, true), scen("Ex Ey Ez Ew", nil2(), []int{-1}, true))
	// concurrent removes and gets, then Close
	alpha := []string{"Rx", "Gx", "Hx", "Ry"}
	two := words(alpha, 2)
	one := words(alpha, 1)
	for _, setup := range []string{"", "Gx", "Hx Hy", "Hx Rx"} {
		for i, a := range two {
			for j, b := range two {
				if len(a) == len(b) && j < i || !strings.Contains(a+b, "R") {
					continue
				}
				if strings.Count(a+","+b, ",") > 2 && !deep && setup != "Gx" {
					continue
				}
				r = append(r, scen(setup, []string{a, b}, []int{2, -1}, true))
			}
		}
		for i, a := range one {
			for j, b := range one[i:] {
				for _, c := range one[i+j:] {
					bd := []int{1, 2}
					if deep {
						bd = []int{2, 3}
					}
					r = append(r, scen(setup, []string{a, b, c}, bd, true))
				}
			}
		}
		// Close against concurrent Remove
		r = append(r, scen(setup, []string{"C", "Rx"}, []int{-1}, false), scen(setup, []string{"C", "Rx,Ry"}, []int{-1}, false), scen(setup, []string{"C", "Rx", "Ry"}, []int{2}, false), scen(setup, []string{"C", "Rx", "Rx"}, []int{2}, false))
	}
	// Close against Gets that began before it
	for _, setup := range []string{"", "Hy", "Hy Ez", "Gx", "Ey Ez Hw"} {
		r = append(r, over(setup, []string{"Gx"}, []int{-1}), over(setup, []string{"Hx"}, []int{-1}), over(setup, []string{"Gx,Gv"}, []int{-1}), over(setup, []string{"gx,Hx"}, []int{-1}),
			over(setup, []string{"Gx", "Hx"}, []int{2}), over(setup, []string{"Gx", "Ev"}, []int{2}), over(setup, []string{"Gx", "Rx"}, []int{2}), over(setup, []string{"Gx,Rx", "Ry"}, []int{2}),
			over(setup, []string{"Gx", "Gx", "Gv"}, []int{1}), over(setup, []string{"Ga", "Hb", "Ec", "gd", "Ge"}, nil).Delays(0, 2))
	}
	// keys that are easily confused
	for i, ks := range []string{"G", "GgG", "GH", "GGR", "gE"} {
		for j, ks2 := range []string{"G", "R", "RG", "GRg", "gGH"} {
			for two := 0; two < 3; two++ {
				i, j, two, ks2 := i, j, two, ks2
				a, b := rm.Ops(ks, rm.Keys()), rm.Ops(ks2, rm.Keys())
				r = append(r, (&vrt.Scenario{Name: fmt.Sprintf("keys easily confused: %s, then %s, %d", ks, ks2, two), MapOrders: 1, Body: func(x *vrt.X) {
					switch two {
					case 0:
						rm.Explore(x, a, [][]string{b}, true)
					case 1:
						rm.Explore(x, nil, [][]string{a, b}, true)
					case 2:
						rm.Explore(x, a, [][]string{b, rm.Ops(ks2, rm.Keys()[i+j:])}, true)
					}
				}}).Delays(0, 1))
			}
		}
	}
	// many keys and many threads
	far := func(s *vrt.Scenario, bounds ...int) {
		s.MapOrders = 2
		r = append(r, s.Delays(bounds...))
	}
	dl := 2
	if deep {
		dl = 3
	}
	for n := 3; n <= 40; n += 4 {
		for k := 0; k < 4; k++ {
			var all, rem []string
			for i := 0; i < n; i++ {
				all = append(all, fmt.Sprintf("%c%d", "GHEgHGE"[(i*(k+1)+k)%7], i))
				rem = append(rem, fmt.Sprint("R", i*(k+2)%n))
			}
			s := strings.Join(all, " ")
			far(scen(s, nil2(), nil, true), 0, 1)
			far(scen(s, []string{strings.Join(rem[:n/2], ",")}, nil, true), 0)
			far(scen("", []string{strings.Join(all, ","), strings.Join(rem, ",")}, nil, true), 0, 1)
		}
	}
	for n := 4; n <= 10; n += 2 {
		var same, mixed []string
		for i := 0; i < n; i++ {
			same = append(same, "Rx")
			mixed = append(mixed, []string{"Hx,Rx", "Rx,Gx", "Ex,Ry", "Gx", "Ry,Hy"}[i%5])
		}
		far(scen("Hx Ey", same, nil, true), 0, dl)
		far(scen("Gx", mixed, nil, true), 0, dl)
		far(scen("", mixed, nil, true), 0, dl)
		far(scen("Hx Hy", append(same, "C"), nil, false), 0, dl)
	}
	// a Get that joins an old flight after a Remove
	r = append(r, scen("", []string{"Gx", "Rx,Gx,Gx"}, []int{2, -1}, true), scen("", []string{"Gx", "Rx,Gx", "Gx"}, []int{2}, true), scen("", []string{"Gx", "Gx", "Rx,Gx"}, []int{2}, true), scen("", []string{"Gx,Rx,Gx", "Gx"}, []int{2, -1}, true))
	if deep {
		r = append(r, scen("", []string{"Gx", "Rx,Gx", "Gx,Rx"}, []int{3}, true), scen("", []string{"Gx", "Gx", "Gx", "Rx,Gx"}, []int{2}, true))
	}
	return r
}

func nil2() []string { return []string{"Rnone"} }
