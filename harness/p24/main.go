// P24: the binary codec reads back what it wrote, however chunked.
package main

import (
	"bytes"
	"fmt"
	"io"

	"github.com/chenquan/go-pkg/xbytes"
	"github.com/chenquan/go-pkg/zverif/h/lib/codec"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P24", scenarios) }

type value = codec.Value

// write writes the values and checks the format.
func write(fail func(string, ...any), vals []value) []byte {
	w := &codec.Writer{Limit: -1}
	for _, v := range vals {
		before := len(w.Got)
		in := append([]byte(nil), v.S...)
		if err := v.Write(w); err != nil {
			fail("writing %v returned %v", v, err)
		}
		if !bytes.Equal(w.Got[before:], v.Encoding()) {
			fail("%v was written as %s, want %s", v, short(w.Got[before:]), short(v.Encoding()))
		}
		if !bytes.Equal(v.S, in) {
			fail("writing changed the byte string")
		}
	}
	return w.Got
}

func short(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%v... (%d bytes)", b[:40], len(b))
	}
	return fmt.Sprint(b)
}

type kept struct {
	got  []byte
	want []byte
}

// read reads the values back; between says what happens between reads.
func read(fail func(string, ...any), r *codec.Reader, vals []value, keep *[]kept, between func()) {
	pos := r.Pos
	for i, v := range vals {
		got, err := codec.Read(v.Kind, r)
		if err != nil || !got.Equal(v) {
			fail("value %d: got %v, %v, want %v", i+1, got, err, v)
		}
		pos += len(v.Encoding())
		if r.Pos != pos {
			fail("after value %d (%v) the reader is at byte %d, want %d", i+1, v, r.Pos, pos)
		}
		if len(got.S) > 0 && keep != nil {
			*keep = append(*keep, kept{got.S, v.S})
		}
		if between != nil {
			between()
		}
	}
}

func still(fail func(string, ...any), keep []kept) {
	for i, k := range keep {
		if !bytes.Equal(k.got, k.want) {
			fail("the byte string returned %d. was %s and is now %s", i+1, short(k.want), short(k.got))
		}
	}
}

// scribble takes buffers from the pools, writes to them and gives them back.
func scribble(sizes ...int) {
	var all [][]byte
	for _, n := range sizes {
		b := xbytes.MallocSize(n)
		for i := range b {
			b[i] = 0x5A
		}
		all = append(all, b)
	}
	for _, b := range all {
		xbytes.Free(b)
	}
}

func b(n uint32) value { return value{Kind: 'b', N: n} }
func u(n uint32) value { return value{Kind: '2', N: n} }
func l(n uint32) value { return value{Kind: '4', N: n} }

// menu of values of a sequence
var menu = []value{b(1), b(0), u(0x0102), l(0x01020304), codec.Str(0, 1), codec.Str(1, 2), codec.Str(2, 3), codec.Str(3, 100), {Kind: 's'}}

// chunks enumerates every way a reader may deliver a sequence of n values that starts with the given one.
func chunks(first, n, empties int) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("sequences of %d values starting with %v, all chunkings, %d empty reads", n, menu[first], empties), Enum: func(c *vrt.Enum) {
		var script codec.Script
		for script.Next() {
			vals := []value{menu[first]}
			for i := 1; i < n; i++ {
				vals = append(vals, menu[script.Choose(len(menu))])
			}
			together := script.Choose(2) == 1
			var log []int
			c.Case(fmt.Sprint(vals), together, &log)
			data := write(c.Fail, vals)
			r := &codec.Reader{Data: data, End: io.EOF, Pick: codec.Picker(script.Choose, empties, together, &log)}
			var keep []kept
			read(c.Fail, r, vals, &keep, nil)
			still(c.Fail, keep)
		}
	}}
}

// pooled explores every choice of the buffer pools for two values.
func pooled(a, z value, pick func(int) (int, bool), how string) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("values %v, %v read %s, all pool choices", a, z, how), Bounds: []int{-1}, RaceBound: -1, Body: func(x *vrt.X) {
		vals := []value{a, z}
		r := &codec.Reader{Data: write(x.Fail, vals), End: io.EOF, Pick: pick}
		var keep []kept
		read(x.Fail, r, vals, &keep, func() { scribble(1, 2, 3, 4) })
		still(x.Fail, keep)
	}}
}

// users explores threads that each write and read sequences of their own.
func users(bounds []int, setup []value, seqs ...[]value) *vrt.Scenario {
	return &vrt.Scenario{Name: fmt.Sprintf("users at the same time %v after %v", seqs, setup), Bounds: bounds, Body: func(x *vrt.X) {
		var keep []kept
		run := func(vals []value, k *[]kept) {
			read(x.Fail, &codec.Reader{Data: write(x.Fail, vals), End: io.EOF, Pick: codec.Bytewise}, vals, k, nil)
		}
		run(setup, &keep)
		for i, s := range seqs {
			s := s
			x.Go(fmt.Sprint("user ", i+1), func() {
				var mine []kept
				run(s, &mine)
				x.Step()
				still(x.Fail, mine)
			})
		}
		x.Wait()
		still(x.Fail, keep)
		x.AtEnd(func(e *vrt.End) { e.NoBlocked() })
	}}
}

// one checks single values with simple readers.
func one(c *vrt.Enum, v value) {
	if !c.Case(v.Kind, v.N, len(v.S)) {
		return
	}
	data := write(c.Fail, []value{v})
	data = append(data, 0x77, 0x78, 0x79)
	read(c.Fail, &codec.Reader{Data: data, End: io.EOF, Pick: codec.Whole}, []value{v}, nil, nil)
	read(c.Fail, &codec.Reader{Data: data, End: io.EOF, Pick: codec.Bytewise}, []value{v}, nil, nil)
	data = data[:len(data)-3]
	read(c.Fail, &codec.Reader{Data: data, End: io.EOF, Pick: func(n int) (int, bool) { return n, true }}, []value{v}, nil, nil)
	read(c.Fail, &codec.Reader{Data: data, End: io.EOF, Pick: func(n int) (int, bool) { return n/2 + n%2, true }}, []value{v}, nil, nil)
}

// inner is a writer and a reader that use the codec themselves, for something else, before each transfer: a
// writer that logs, a reader over a framed connection.
type inner struct {
	fail func(string, ...any)
	w    *codec.Writer
	r    *codec.Reader
	vals []value
	deep int
}

func (n *inner) again() {
	if n.deep--; n.deep >= 0 {
		w := &codec.Writer{Limit: -1}
		m := &inner{n.fail, w, nil, n.vals, n.deep}
		for _, v := range n.vals {
			if err := v.Write(m); err != nil {
				n.fail("writing %v in a Write returned %v", v, err)
			}
		}
		m.r = &codec.Reader{Data: w.Got, End: io.EOF, Pick: codec.Bytewise}
		for _, v := range n.vals {
			if got, err := codec.Read(v.Kind, m); err != nil || !got.Equal(v) {
				n.fail("inside, got %v, %v, want %v", got, err, v)
			}
		}
	}
	n.deep++
}

func (n *inner) Write(p []byte) (int, error) {
	n.again()
	return n.w.Write(p)
}

func (n *inner) Read(p []byte) (int, error) {
	n.again()
	k, err := n.r.Read(p)
	n.again()
	return k, err
}

// nested checks every pair of values with a third kind used in between.
func nested(c *vrt.Enum) {
	for _, a := range menu {
		for _, z := range menu {
			for _, v := range menu {
				for deep := 1; deep <= 2; deep++ {
					if !c.Case("nested", fmt.Sprint(a), fmt.Sprint(z), "in between", fmt.Sprint(v), deep) {
						continue
					}
					vals := []value{a, z}
					w := &codec.Writer{Limit: -1}
					n := &inner{c.Fail, w, nil, []value{v}, deep}
					var want []byte
					for _, o := range vals {
						if err := o.Write(n); err != nil {
							c.Fail("writing %v returned %v", o, err)
						}
						want = append(want, o.Encoding()...)
					}
					if !bytes.Equal(w.Got, want) {
						c.Fail("%v was written as %s, want %s", vals, short(w.Got), short(want))
					}
					n.r = &codec.Reader{Data: w.Got, End: io.EOF, Pick: codec.Bytewise}
					var keep []kept
					for i, o := range vals {
						got, err := codec.Read(o.Kind, n)
						c.Eval()
						if err != nil || !got.Equal(o) {
							c.Fail("value %d: got %v, %v, want %v", i+1, got, err, o)
						}
						if len(got.S) > 0 {
							keep = append(keep, kept{got.S, o.S})
						}
					}
					scribble(1, 2, 3, 4)
					still(c.Fail, keep)
				}
			}
		}
	}
}

// streams checks every sequence of up to three values over every kind of stream.
func streams(c *vrt.Enum) {
	seq := func(vals []value) {
		for _, wk := range codec.Kinds {
			for _, rk := range codec.Kinds {
				if rk != wk && rk != codec.Kinds[0] && wk != codec.Kinds[0] {
					continue
				}
				if !c.Case(fmt.Sprint(vals), "writer", wk, "reader", rk) {
					continue
				}
				w, done := codec.OpenWriter(wk)
				var want []byte
				for _, v := range vals {
					if err := v.Write(w); err != nil {
						c.Fail("writing %v returned %v", v, err)
					}
					want = append(want, v.Encoding()...)
				}
				data := done()
				if !bytes.Equal(data, want) {
					c.Fail("%v was written as %s, want %s", vals, short(data), short(want))
				}
				r, left, reuse := codec.OpenReader(rk, append(data, 9, 8, 7), io.EOF)
				var keep []kept
				pos := 0
				for i, v := range vals {
					got, err := codec.Read(v.Kind, r)
					c.Eval()
					if err != nil || !got.Equal(v) {
						c.Fail("value %d: got %v, %v, want %v", i+1, got, err, v)
					}
					pos += len(v.Encoding())
					if n := left(); n >= 0 && n != len(want)+3-pos {
						c.Fail("after value %d (%v) the reader has %d bytes left, want %d", i+1, v, n, len(want)+3-pos)
					}
					if len(got.S) > 0 {
						keep = append(keep, kept{got.S, v.S})
					}
				}
				reuse()
				still(c.Fail, keep)
				for _, k := range keep {
					for i := range k.got {
						k.got[i] = 0x11 // the caller's own
					}
				}
				rest, err := io.ReadAll(r)
				if len(keep) == 0 && rk == codec.Kinds[0] && (err != nil || len(rest) != 3) {
					c.Fail("the rest of the reader is %v, %v", rest, err)
				}
			}
		}
	}
	all := append(append([]value(nil), menu...), codec.Str(40, 7), codec.Str(300, 7), codec.Str(5000, 7))
	for _, a := range all {
		seq([]value{a})
		for _, b := range all {
			seq([]value{a, b})
			for _, d := range all {
				seq([]value{a, b, d})
			}
		}
	}
	seq([]value{codec.Str(65535, 1), u(5), codec.Str(65534, 3)})
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	r = append(r, vrt.EnumScenarios("every kind of stream", 4, streams)...)
	r = append(r, vrt.EnumScenarios("the writer and the reader use the codec themselves", 4, nested)...)
	for i := range menu {
		r = append(r, chunks(i, 1, 5), chunks(i, 2, 3), chunks(i, 3, 1))
		if deep {
			r = append(r, chunks(i, 3, 3), chunks(i, 4, 1))
		}
		for _, z := range menu {
			r = append(r, pooled(menu[i], z, codec.Whole, "at once"))
			if deep {
				r = append(r, pooled(menu[i], z, codec.Bytewise, "byte by byte"))
			}
		}
	}
	bs := []int{0, 1}
	if deep {
		bs = []int{0, 1, 2}
	}
	s1, s2 := codec.Str(2, 50), codec.Str(2, 90)
	for _, p := range [][][]value{
		{{u(1)}, {u(0xFFFE)}}, {{l(1)}, {l(0xFFFEFDFC)}}, {{b(1)}, {b(0)}}, {{s1}, {s2}}, {{s1}, {u(7)}}, {{b(1)}, {codec.Str(1, 9)}}, {{codec.Str(4, 9)}, {l(5)}},
	} {
		r = append(r, users(bs, nil, p...), users(bs, []value{s2}, p...))
		if !deep {
			continue
		}
		r = append(r, users([]int{0, 1, 2}, nil, p[0], p[1], p[0]), users([]int{0, 1}, []value{s1, l(1), b(1)}, p[0], p[1], p[1]))
	}
	r = append(r, users(bs, nil, []value{s1, u(3)}, []value{u(9)}), users(bs[:len(bs)-1], []value{s2}, []value{s1, u(3)}, []value{u(9)}))
	shards := 4
	for i := 0; i < shards; i++ {
		r = append(r, &vrt.Scenario{Name: fmt.Sprint("all bools and 16 bit numbers, 32 bit numbers with up to two bytes set or a run of ones ", i), Shard: i, Shards: shards, Enum: func(c *vrt.Enum) {
			one(c, b(0))
			one(c, b(1))
			for n := uint32(0); n < 1<<16; n++ {
				one(c, u(n))
			}
			for s := uint(0); s < 32; s++ {
				for w := uint(0); w <= 32-s; w++ {
					n := uint32((uint64(1)<<w - 1) << s)
					one(c, l(n))
					one(c, l(^n))
				}
			}
			step := uint32(7)
			if deep {
				step = 1
			}
			for a := uint(0); a < 4; a++ {
				for z := uint(0); z < a; z++ {
					for n := uint32(0); n < 1<<16; n += step {
						one(c, l(n>>8<<(8*a)|(n&255)<<(8*z)))
					}
				}
			}
		}})
		r = append(r, &vrt.Scenario{Name: fmt.Sprint("byte strings of every length ", i), Shard: i, Shards: shards, Enum: func(c *vrt.Enum) {
			for n := 0; n < 256; n++ {
				one(c, value{Kind: 's', S: []byte{byte(n)}})
			}
			for n := 0; n <= 1030; n++ {
				one(c, codec.Str(n, byte(n)))
			}
			for k := 11; k <= 16; k++ {
				for d := -2; d <= 2; d++ {
					if n := 1<<k + d; n <= 65535 {
						one(c, codec.Str(n, byte(d)))
					}
				}
			}
			if deep {
				for n := 1031; n <= 65535; n += 97 {
					one(c, codec.Str(n, byte(n)))
				}
			}
			one(c, codec.Str(65535, 3))
		}})
	}
	return r
}
