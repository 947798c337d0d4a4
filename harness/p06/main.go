// P06: the ResourceManager creates each resource once and shares it.
package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/chenquan/go-pkg/xsync"
	"github.com/chenquan/go-pkg/zverif/h/lib/maps"
	"github.com/chenquan/go-pkg/zverif/h/lib/rm"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P06", scenarios) }

func scen(setup string, progs []string, bounds []int) *vrt.Scenario {
	var ps [][]string
	for _, p := range progs {
		ps = append(ps, strings.Split(p, ","))
	}
	return &vrt.Scenario{Name: fmt.Sprintf("setup [%s] threads %s", setup, strings.Join(progs, " | ")), Bounds: bounds, Body: func(x *vrt.X) {
		rm.Explore(x, strings.Fields(setup), ps, false)
	}}
}

type closer struct{ n int }

func (*closer) Close() error { return nil }

// panics: creates that panic, each followed by Gets that must find the key as it was.
func panics(progs string) *vrt.Scenario {
	return (&vrt.Scenario{Name: "creates that panic: " + progs, Body: func(x *vrt.X) {
		m := xsync.NewResourceManager()
		run := func(keys ...string) {
			have := map[string]io.Closer{}
			for i, c := range progs {
				key := keys[i%len(keys)]
				made := &closer{i}
				ran := false
				var got io.Closer
				var err error
				panicked := func() (p bool) {
					defer func() {
						if e := recover(); e != nil {
							p = true
						}
					}()
					got, err = m.Get(key, func() (io.Closer, error) {
						ran = true
						x.Step()
						switch c {
						case 'p':
							panic("no")
						case 'e':
							panic(fmt.Errorf("no"))
						case 'n':
							return nil, fmt.Errorf("failed")
						}
						return made, nil
					})
					return
				}()
				if h := have[key]; h != nil {
					if ran || panicked || err != nil || got != h {
						x.Fail("Get %d of a registered key: created %v, panicked %v, %v, %v", i, ran, panicked, got, err)
					}
					continue
				}
				if !ran {
					x.Fail("Get %d of an absent key did not create", i)
				}
				switch c {
				case 'p', 'e':
					if !panicked && err == nil {
						x.Fail("Get %d succeeded though its create panicked", i)
					}
				case 'n':
					if panicked || err == nil || err.Error() != "failed" {
						x.Fail("Get %d: panicked %v, error %v, want the error of its create", i, panicked, err)
					}
				default:
					if panicked || err != nil || got != io.Closer(made) {
						x.Fail("Get %d: panicked %v, %v, %v, want what its create returned", i, panicked, got, err)
					}
					have[key] = made
				}
			}
		}
		x.Go("first", func() { run("a", "b") })
		x.Go("second", func() { run("c") })
		x.AtEnd(func(e *vrt.End) { e.NoBlocked() })
	}}).Delays(0, 1)
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	words := func(n int) []string {
		var out []string
		for _, w := range maps.Words([]string{"Gx", "gx", "Gy", "bx", "Rx"}, n) {
			out = append(out, strings.Join(w, ","))
		}
		return out
	}
	two := words(2)
	one := words(1)
	for _, setup := range []string{"", "Gx", "gx", "Gx Gy", "Gx Rx"} {
		for i, a := range two {
			for j, b := range two {
				if len(a) == len(b) && j < i {
					continue
				}
				if strings.Count(a+","+b, ",") > 2 {
					if !deep && setup != "" {
						continue
					}
				}
				r = append(r, scen(setup, []string{a, b}, []int{2, -1}))
			}
		}
		for i, a := range one {
			for j, b := range one[i:] {
				for _, c := range one[i+j:] {
					if !strings.ContainsAny(a+b+c, "Ggb") {
						continue
					}
					bd := []int{1, 2}
					if deep {
						bd = []int{1, 2, 3}
					}
					r = append(r, scen(setup, []string{a, b, c}, bd))
				}
			}
		}
	}
	r = append(r, scen("", []string{"Gx", "Gx", "Gx", "Gx"}, []int{1}), scen("", []string{"gx", "gx", "Gx", "Gx"}, []int{1}))
	// keys that are easily confused
	for i, ks := range []string{"G", "GgG", "GH", "GGR", "gE"} {
		for j, ks2 := range []string{"G", "R", "RG", "GRg", "gGH"} {
			for two := 0; two < 3; two++ {
				i, j, two, ks2 := i, j, two, ks2
				a, b := rm.Ops(ks, rm.Keys()), rm.Ops(ks2, rm.Keys())
				r = append(r, (&vrt.Scenario{Name: fmt.Sprintf("keys easily confused: %s, then %s, %d", ks, ks2, two), MapOrders: 1, Body: func(x *vrt.X) {
					switch two {
					case 0:
						rm.Explore(x, a, [][]string{b}, false)
					case 1:
						rm.Explore(x, nil, [][]string{a, b}, false)
					case 2:
						rm.Explore(x, a, [][]string{b, rm.Ops(ks2, rm.Keys()[i+j:])}, false)
					}
				}}).Delays(0, 1))
			}
		}
	}
	for _, w := range maps.Words([]string{"p", "e", "n", "g"}, 3) {
		r = append(r, panics(strings.Join(w, "")))
	}
	r = append(r, panics("pppppgpppgg"), panics("penpenpengggpen"))
	// many keys and many threads
	far := func(s *vrt.Scenario, bounds ...int) { r = append(r, s.Delays(bounds...)) }
	d := 2
	if deep {
		d = 3
	}
	for n := 3; n <= 24; n += 3 {
		var all, again []string
		for i := 0; i < n; i++ {
			all = append(all, fmt.Sprint("G", i))
			again = append(again, fmt.Sprint("g", i*7%n))
			if i%3 == 0 {
				again = append(again, fmt.Sprint("R", i*5%n), fmt.Sprint("b", i))
			}
		}
		p := strings.Join(again, ",")
		far(scen(strings.Join(all, " "), []string{p}, nil), 0)
		far(scen("", []string{strings.Join(all, ","), strings.Join(all, ","), p}, nil), 0, min(d, max(1, 12/n)))
	}
	for n := 4; n <= 10; n += 2 {
		var same, mixed, three []string
		for i := 0; i < n; i++ {
			same = append(same, "Gx")
			mixed = append(mixed, []string{"gx,Gx", "Gx,Rx", "bx,Gy", "Gx", "Rx,gx"}[i%5])
			three = append(three, fmt.Sprintf("G%d,G%d,G%d", i%3, (i+1)%3, i%3))
		}
		far(scen("", same, nil), 0, d+1)
		far(scen("Gx", mixed, nil), 0, d)
		far(scen("", mixed, nil), 0, d)
		far(scen("", three, nil), 0, d)
	}
	if deep {
		for _, a := range two {
			for _, b := range one {
				for _, c := range one {
					r = append(r, scen("", []string{a, b, c}, []int{1, 2}))
				}
			}
		}
	}
	return r
}
