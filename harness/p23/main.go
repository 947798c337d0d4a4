// P23: Group, Sort, Reverse, Merge and Split rearrange without loss.
package main

import (
	"errors"
	"fmt"
	"reflect"
	"sort"

	"github.com/chenquan/go-pkg/xstream"
	"github.com/chenquan/go-pkg/zverif/h/lib/streams"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P23", scenarios) }

// item has a rank to sort and group by and an identity.
type item struct{ rank, id int }

func rank(v any) int {
	if it, ok := v.(item); ok {
		return it.rank
	}
	return streams.Num(v)
}

// keys of Group: 0 the rank, 1 the parity of the rank, 2 always nil, 3 keys of several types, 4 the value itself.
func key(v any, how int) any {
	switch how {
	case 0:
		return rank(v)
	case 1:
		return rank(v)%2 == 1
	case 2:
		return nil
	case 4:
		if _, ok := v.([]any); ok {
			return "list"
		}
		return v
	}
	switch rank(v) {
	case 0:
		return nil
	case 1:
		return "1"
	case 2:
		return [2]int{2, 2}
	}
	return 1
}

func ranks(l []any) (r []int) {
	for _, v := range l {
		r = append(r, rank(v))
	}
	return
}

// partition checks groups (in any order) against the list.
func partition(fail func(string, ...any), in []any, how int, groups [][]any) {
	want := map[any][]any{}
	for _, v := range in {
		want[key(v, how)] = append(want[key(v, how)], v)
	}
	seen := map[any]bool{}
	for _, g := range groups {
		if len(g) == 0 {
			fail("empty group in %v", groups)
		}
		k := key(g[0], how)
		if seen[k] || !reflect.DeepEqual(g, want[k]) {
			fail("group of key %v is %v, want %v (groups %v of %v)", k, g, want[k], groups, in)
		}
		seen[k] = true
	}
	if len(groups) != len(want) {
		fail("groups %v of %v: there should be %d", groups, in, len(want))
	}
}

// chunks checks consecutive chunks of n elements.
func chunks(fail func(string, ...any), in []any, n int, got [][]any) {
	for i, c := range got {
		w := in[min(i*n, len(in)):min(i*n+n, len(in))]
		if len(w) == 0 || !reflect.DeepEqual(c, w) {
			fail("chunk %d is %v, want %v (chunks of %d of %v)", i+1, c, w, n, in)
		}
	}
	if len(got) != (len(in)+n-1)/n {
		fail("%d chunks of %d for %v", len(got), n, in)
	}
}

func slices(x *vrt.X, st *xstream.Stream) (r [][]any) {
	for v := range st.Chan() {
		l, ok := v.([]any)
		if !ok {
			x.Fail("got %v, which is no slice", v)
		}
		r = append(r, l)
		if x.Reg(0) == 1 { // a consumer may write to its slices
			for i := range l {
				_ = append(l, "appended by the consumer")
				_ = i
			}
		}
	}
	if v, ok := <-st.Chan(); ok {
		x.Fail("the stream delivers %v after its end", v)
	}
	return
}

// check runs one operator on the list and compares.
func check(x *vrt.X, src int, in []any, op string, arg int) {
	x.AtEnd(func(e *vrt.End) { e.NoBlocked() })
	st := streams.Source(x, src, in)
	fail := func(f string, a ...any) { x.Fail("%s %d: %s", op, arg, fmt.Sprintf(f, a...)) }
	switch op {
	case "group":
		partition(fail, in, arg, slices(x, st.Group(func(v any) any { return key(v, arg) })))
	case "groupby":
		g := xstream.GroupBy(func(v any) any { return key(v, arg) })
		st.Collection(g)
		m := g.Map()
		var l [][]any
		for i := range in { // in arrival order of the keys
			k := key(in[i], arg)
			first := true
			for _, v := range in[:i] {
				first = first && key(v, arg) != k
			}
			if first {
				l = append(l, m[k])
			}
		}
		if len(m) != len(l) {
			fail("Map has %d keys, want %d: %v", len(m), len(l), m)
		}
		partition(fail, in, arg, l)
		if m2 := g.Map(); !reflect.DeepEqual(m, m2) {
			fail("a second call of Map returns %v, the first %v", m2, m)
		}
	case "sort":
		var got []any
		for v := range st.Sort(func(a, b any) bool {
			if arg == 1 {
				return rank(a) > rank(b)
			}
			return rank(a) < rank(b)
		}).Chan() {
			got = append(got, v)
		}
		for i := 1; i < len(got); i++ {
			if a, b := rank(got[i-1]), rank(got[i]); arg == 0 && a > b || arg == 1 && a < b {
				fail("not in order: %v", got)
			}
		}
		same := len(got) == len(in)
		count := map[string]int{}
		for _, v := range in {
			count[fmt.Sprint(v)]++
		}
		for _, v := range got {
			count[fmt.Sprint(v)]--
			same = same && count[fmt.Sprint(v)] >= 0
		}
		if !same {
			fail("%v is no permutation of %v", got, in)
		}
	case "reverse":
		i := len(in)
		for v := range st.Reverse().Chan() {
			i--
			if i < 0 || !streams.Same(v, in[i]) {
				fail("%v as element %d of the reverse of %v", v, len(in)-i, in)
			}
		}
		if i != 0 {
			fail("%d elements missing of %v", i, in)
		}
	case "merge":
		l := slices(x, st.Merge())
		if len(l) != 1 || len(l[0]) != len(in) || len(in) > 0 && !reflect.DeepEqual(l[0], in) {
			fail("%v for %v", l, in)
		}
	case "split":
		chunks(fail, in, arg, slices(x, st.Split(arg)))
	case "splitsteam": // each chunk read as soon as it is there
		var got [][]any
		for s := range st.SplitSteam(arg).Chan() {
			var c []any
			for v := range s.(*xstream.Stream).Chan() {
				c = append(c, v)
			}
			got = append(got, c)
		}
		chunks(fail, in, arg, got)
	case "splitlater": // all chunks received first
		var ss []*xstream.Stream
		for s := range st.SplitSteam(arg).Chan() {
			ss = append(ss, s.(*xstream.Stream))
		}
		var got [][]any
		for _, s := range ss {
			var c []any
			for v := range s.Chan() {
				c = append(c, v)
			}
			got = append(got, c)
		}
		chunks(fail, in, arg, got)
	case "splitthreads": // each chunk read by a thread
		i := 0
		for s := range st.SplitSteam(arg).Chan() {
			s, k := s.(*xstream.Stream), i
			i++
			x.Go(fmt.Sprint("reader of chunk ", k+1), func() {
				n := 0
				for v := range s.Chan() {
					if k*arg+n >= len(in) || n >= arg || !streams.Same(v, in[k*arg+n]) {
						fail("%v as element %d of chunk %d of %v", v, n+1, k+1, in)
					}
					n++
				}
				if w := min(arg, len(in)-k*arg); n != w {
					fail("chunk %d closes after %d elements, want %d", k+1, n, w)
				}
			})
		}
		if i != (len(in)+arg-1)/arg {
			fail("%d chunks for %v", i, in)
		}
		x.Wait()
	case "splitbad", "streambad":
		func() {
			defer func() {
				if recover() == nil {
					fail("accepted")
				}
			}()
			if op == "splitbad" {
				st.Split(-arg)
			} else {
				st.SplitSteam(-arg)
			}
		}()
		st.Done()
	case "sortreverse":
		l := ranks(in)
		sort.Sort(sort.Reverse(sort.IntSlice(l)))
		i := 0
		for v := range st.Sort(func(a, b any) bool { return rank(a) < rank(b) }).Reverse().Chan() {
			if i >= len(l) || rank(v) != l[i] {
				fail("%v as element %d of %v", v, i+1, l)
			}
			i++
		}
		if i != len(l) {
			fail("%d elements of %v", i, l)
		}
	case "splitmerge":
		l := slices(x, st.Split(arg).Merge())
		var got [][]any
		for _, c := range l[0] {
			got = append(got, c.([]any))
		}
		chunks(fail, in, arg, got)
	}
}

type todo struct {
	op   string
	args []int
}

// lists are all lists over 0..k-1 with lo to hi elements.
func lists(k, lo, hi int) (r [][]int) {
	var rec func(l []int)
	rec = func(l []int) {
		if len(l) >= lo {
			r = append(r, append([]int(nil), l...))
		}
		if len(l) < hi {
			for v := 0; v < k; v++ {
				rec(append(l, v))
			}
		}
	}
	rec(nil)
	return
}

// every explores one operator on all lists over k ranks of lo to hi elements.
func every(t todo, src []int, k, lo, hi int, bounds ...int) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("%s %v sources %v lists over %d ranks of %d to %d elements", t.op, t.args, src, k, lo, hi), Bounds: bounds, MapOrders: 6, Body: func(x *vrt.X) {
		ls := lists(k, lo, hi)
		l := ls[x.Choose(len(ls))]
		s := src[x.Choose(len(src))]
		arg := t.args[x.Choose(len(t.args))]
		var in []any
		for i, v := range l {
			in = append(in, item{v, i})
		}
		x.Note("input %v argument %d", in, arg)
		x.SetReg(0, 1)
		check(x, s, in, t.op, arg)
	}}
}

// given explores one operator on given lists of any values.
func given(t todo, src []int, in [][]any, bounds ...int) *vrt.Scenario {
	show := fmt.Sprint(in)
	if len(show) > 200 {
		show = fmt.Sprint("long lists of ", len(in[0]))
	}
	return &vrt.Scenario{Name: fmt.Sprintf("%s %v sources %v on %v", t.op, t.args, src, show), Bounds: bounds, Body: func(x *vrt.X) {
		l := in[x.Choose(len(in))]
		s := src[x.Choose(len(src))]
		arg := t.args[x.Choose(len(t.args))]
		x.Note("input %v argument %d", l, arg)
		check(x, s, l, t.op, arg)
	}}
}

// both explores two operators that work on streams of their own at the same time.
func both(a, b todo, bounds ...int) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("%s %d and %s %d at the same time", a.op, a.args[0], b.op, b.args[0]), Bounds: bounds, MapOrders: 2, Body: func(x *vrt.X) {
		for i, t := range []todo{a, b} {
			i, t := i, t
			x.Go(fmt.Sprint("user ", i+1), func() {
				check(x, i, []any{item{1, 10 * i}, item{0, 10*i + 1}, item{1, 10*i + 2}}, t.op, t.args[0])
			})
		}
	}}
}

// two errors that say the same, and what says the same without being an error
var errA, errB = errors.New("x"), errors.New("x")

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	todos := []todo{{"group", []int{0, 1, 2, 3, 4}}, {"groupby", []int{0, 1, 2, 3, 4}}, {"sort", []int{0, 1}}, {"reverse", []int{0}}, {"merge", []int{0}},
		{"split", []int{1, 2, 3, 4, 9, 1 << 62}}, {"splitsteam", []int{1, 2, 3, 4, 9, 1 << 62}}, {"splitlater", []int{1, 2, 3, 4, 9, 1 << 40}}, {"splitthreads", []int{1, 2, 3, 4, 9, 1 << 33}},
		{"splitbad", []int{0, 1, 5}}, {"streambad", []int{0, 1, 5}}, {"sortreverse", []int{0}}, {"splitmerge", []int{1, 2, 3}}}
	for _, t := range todos {
		hi, k := 5, 3
		if deep {
			hi, k = 6, 4
		}
		switch t.op {
		case "sort", "sortreverse":
			r = append(r, every(t, []int{0}, 3, 6, hi+1, 0))
		case "group", "groupby":
		default: // only the number of elements matters
			k = 1
			hi += 4
		}
		r = append(r, every(t, []int{0, 1}, k, 0, hi, 0))
		r = append(r, every(t, []int{0, 1, 2, 3}, min(k, 2), 0, 3, 0, 1, 2, 3))
		r = append(r, given(t, []int{1, 2}, [][]any{{nil, "a", nil}, {[]any{1, 2}, 3}, {nil}, {nil, nil}, {nil, "", 0, false, ""}, {1, int64(1), "1", 1.0}}, 0, 1, 2),
			given(t, []int{1, 2}, [][]any{{[]any{"x", "y"}}, {[]any{[]any{1}}, []any{}}, {[]any{nil}}, {errors.New("an error"), 2.5, true}, {errA, errB, errA, "x"}, {errB, "x", errA}}, 0, 1))
		if deep {
			r = append(r, every(t, []int{1, 3}, min(k, 2), 0, 4, 0, 1, 2, 3, -1))
		}
	}
	// longer lists, so that sorting and growing slices take other paths
	var long, rev, mix []any
	for i := 0; i < 40; i++ {
		long = append(long, item{i / 2, i})
		rev = append(rev, item{40 - i, i})
		mix = append(mix, item{i * 7 % 13, i})
	}
	for _, t := range todos {
		switch t.op {
		case "group":
			t.args = []int{1, 2}
		case "splitthreads":
			continue
		}
		r = append(r, given(t, []int{0}, [][]any{long, rev, mix}, 0))
	}
	// very long lists, one schedule
	for _, n := range []int{127, 128, 129, 255, 256, 257, 513, 1000, 1024, 1025, 3000, 10007, 66001} {
		l := make([][]any, 4)
		for i := 0; i < n; i++ {
			l[0] = append(l[0], item{i, i})
			l[1] = append(l[1], item{n - i, i})
			l[2] = append(l[2], item{i * 7 % (n/2 + 1), i})
			l[3] = append(l[3], item{0, i})
		}
		for _, t := range todos {
			switch t.op {
			case "group", "groupby":
				t.args = []int{0, 1, 2}
				if n > 1100 {
					t.args = []int{1, 2}
				}
			case "split", "splitsteam", "splitlater", "splitthreads", "splitmerge":
				t.args = []int{1, 2, 3, 7, 16, 63, 64, 65, 100, 128, 255, 256, 257, n - 1, n, n + 1, 1000, 1024, 1025, 5000}
				if n > 1100 {
					t.args = []int{1, 2, 64, 1024, 1025, n, n + 1}
				}
				if t.op == "splitthreads" {
					t.args = []int{n/2 - 1, n / 2, n/2 + 1, n - 1, n, n + 1}
				}
			}
			s := given(t, []int{0, 1}, l, 0)
			s.Name = fmt.Sprintf("%s %v on %d elements", t.op, t.args, n)
			s.MapOrders, s.Horizon = 1, 100*n
			r = append(r, s.Delays(0))
		}
	}
	for i, a := range todos {
		for _, b := range todos[i:] {
			if a.op == "splitthreads" || b.op == "splitthreads" { // it waits for all threads
				continue
			}
			if deep || a.op == b.op {
				r = append(r, both(a, b, 0, 1))
			} else {
				r = append(r, both(a, b, 0))
			}
		}
	}
	return r
}
