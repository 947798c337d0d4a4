// The litmus programs under the controlled runtime: exactly the expected outcomes.
package main

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/chenquan/go-pkg/zverif/h/lib/litmus"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() {
	vmain.Init()
	bad := 0
	for _, p := range litmus.Programs() {
		p := p
		got := map[string]bool{}
		r := vrt.Explore(&vrt.Scenario{Name: p.Name, Bounds: []int{-1}, MapOrders: 6, Body: func(x *vrt.X) {
			o := p.Run()
			got[o] = true
			x.Outcome("%s", o)
			x.AtEnd(func(e *vrt.End) { e.NoBlocked() })
		}}, vmain.In(60))
		var all []string
		for o := range got {
			all = append(all, o)
		}
		sort.Strings(all)
		want := append([]string(nil), p.Want...)
		sort.Strings(want)
		verdict := "ok"
		if r.Violation != "" || !r.Exhaustive || fmt.Sprint(all) != fmt.Sprint(want) {
			verdict, bad = "BAD", bad+1
		}
		fmt.Printf("%-3s %-50s %d states, %d executions: %v", verdict, p.Name, r.States, r.Execs, all)
		if verdict != "ok" {
			fmt.Printf(" want %v %s", want, r.Violation)
		}
		fmt.Println()
	}
	for _, p := range litmus.PlainPrograms() {
		if !vrt.RaceMode {
			break
		}
		p := p
		r := vrt.Explore(&vrt.Scenario{Name: p.Name, Bounds: []int{-1}, Body: func(x *vrt.X) { p.Run() }}, vmain.In(60))
		verdict := "ok"
		if p.Racy != strings.Contains(r.Violation, "race") || !p.Racy && (r.Violation != "" || !r.Exhaustive) {
			verdict, bad = "BAD", bad+1
		}
		fmt.Printf("%-3s %-50s %d states, %d executions, racy %v: %.80s\n", verdict, p.Name, r.States, r.Execs, p.Racy, r.Violation)
	}
	if bad > 0 {
		os.Exit(1)
	}
}
