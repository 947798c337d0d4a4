// P30: Joiner equals prefix, pieces joined by the step, suffix.
package main

import (
	"fmt"
	"math"
	"strings"
	"unicode/utf8"

	"github.com/chenquan/go-pkg/xstring"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P30", scenarios) }

type shape struct{ prefix, step, suffix string }

// options builds the shape in several ways; later options win.
func (s shape) options(how int) []xstring.JoinerOption {
	switch how {
	case 0:
		return []xstring.JoinerOption{xstring.WithJoiner(s.prefix, s.step, s.suffix)}
	case 1:
		return []xstring.JoinerOption{xstring.WithJoinerSuffix(s.suffix), xstring.WithJoinerStep(s.step), xstring.WithJoinerPrefix(s.prefix)}
	}
	return []xstring.JoinerOption{xstring.WithJoinerPrefix("old"), xstring.WithJoiner("a", "b", "c"), xstring.WithJoinerStep("-old-"), xstring.WithJoinerPrefix(s.prefix), xstring.WithJoinerStep(s.step), xstring.WithJoinerSuffix(s.suffix)}
}

// op: s WriteString, w Write, b WriteByte, r WriteRune, g Grow, R Reset, l Len, c Cap, S String
type op struct {
	k byte
	s string
	n int
}

func (o op) String() string { return fmt.Sprintf("%c%q%d", o.k, o.s, o.n) }

type model struct {
	c      *vrt.Enum
	j      *xstring.Joiner
	sh     shape
	pieces []string
	snaps  []string // results of String with the text they had
	texts  []string
}

func (m *model) want() string {
	return m.sh.prefix + strings.Join(m.pieces, m.sh.step) + m.sh.suffix
}

func (m *model) do(o op) {
	switch o.k {
	case 's':
		n, err := m.j.WriteString(o.s)
		m.pieces = append(m.pieces, o.s)
		if n != len(o.s) || err != nil {
			m.c.Fail("WriteString(%q) = %d, %v", o.s, n, err)
		}
	case 'w':
		p := []byte(o.s)
		n, err := m.j.Write(p)
		m.pieces = append(m.pieces, o.s)
		if n != len(o.s) || err != nil {
			m.c.Fail("Write(%q) = %d, %v", o.s, n, err)
		}
		for i := range p { // the caller goes on using its slice
			p[i] = '!'
		}
	case 'b':
		err := m.j.WriteByte(byte(o.n))
		m.pieces = append(m.pieces, string([]byte{byte(o.n)}))
		if err != nil {
			m.c.Fail("WriteByte = %v", err)
		}
	case 'r':
		n, err := m.j.WriteRune(rune(o.n))
		s := string(utf8.AppendRune(nil, rune(o.n)))
		m.pieces = append(m.pieces, s)
		if n != len(s) || err != nil {
			m.c.Fail("WriteRune(%U) = %d, %v, want %d", o.n, n, err, len(s))
		}
	case 'g':
		m.j.Grow(o.n)
		if free := m.j.Cap() - m.j.Len(); free < o.n {
			m.c.Fail("after Grow(%d) there is room for %d bytes", o.n, free)
		}
	case 'R':
		m.j.Reset()
		m.pieces = nil
	case 'l':
		m.len()
	case 'c':
		m.cap()
	case 'S':
		m.text()
	}
}

func (m *model) len() {
	if n, w := m.j.Len(), len(m.want()); n != w {
		m.c.Fail("Len = %d, the text %q has %d bytes", n, m.want(), w)
	}
}

func (m *model) cap() {
	if n, l := m.j.Cap(), len(m.want()); n < l {
		m.c.Fail("Cap = %d, less than the %d bytes of %q", n, l, m.want())
	}
}

func (m *model) text() {
	s := m.j.String()
	if s != m.want() {
		m.c.Fail("String = %q, want %q", s, m.want())
	}
	m.snaps, m.texts = append(m.snaps, s), append(m.texts, m.want())
}

func (m *model) end() {
	m.text()
	m.len()
	m.cap()
	for i, s := range m.snaps {
		if s != m.texts[i] {
			m.c.Fail("an earlier result of String, %q, is now %q", m.texts[i], s)
		}
	}
}

func run(c *vrt.Enum, sh shape, how int, ops []op) {
	if !c.Case(sh, how, fmt.Sprint(ops)) {
		return
	}
	m := &model{c: c, sh: sh, j: xstring.NewJoiner(sh.options(how)...)}
	for _, o := range ops {
		m.do(o)
		c.Eval()
	}
	m.end()
}

// all runs every sequence of exactly n operations.
func all(c *vrt.Enum, sh shape, how int, menu []op, n int) {
	ops := make([]op, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			run(c, sh, how, ops)
			return
		}
		for _, o := range menu {
			ops[i] = o
			rec(i + 1)
		}
	}
	rec(0)
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	shards := 8
	if deep {
		shards = 16
	}
	sharded := func(name string, f func(c *vrt.Enum)) {
		for i := 0; i < shards; i++ {
			r = append(r, &vrt.Scenario{Name: fmt.Sprint(name, " ", i+1), Shard: i, Shards: shards, Enum: f})
		}
	}
	shapes := []shape{{"", "", ""}, {"[", ",", "]"}, {"", ", ", ""}, {"<<", "", "é"}, {"日", "--", ""}}
	full := []op{{'s', "", 0}, {'s', "ab", 0}, {'w', "", 0}, {'w', "é", 0}, {'b', "", 'x'}, {'b', "", 0xff}, {'r', "", '日'}, {'r', "", -1}, {'g', "", 0}, {'g', "", 40}, {'R', "", 0}, {'l', "", 0}, {'c', "", 0}, {'S', "", 0}}
	small := []op{{'s', "", 0}, {'s', "a", 0}, {'w', "b", 0}, {'g', "", 3}, {'R', "", 0}, {'S', "", 0}}
	sharded("all sequences over all operations", func(c *vrt.Enum) {
		n := 4
		if deep {
			n = 5
		}
		for _, sh := range shapes {
			for how := 0; how < 3; how++ {
				for k := 0; k < n; k++ {
					all(c, sh, how, full, k)
				}
			}
		}
		all(c, shapes[1], 0, full, n)
	})
	sharded("longer sequences over few operations", func(c *vrt.Enum) {
		n := 7
		if deep {
			n = 9
		}
		for k := 5; k <= n; k++ {
			all(c, shapes[1], 0, small, k)
		}
	})
	sharded("every character and byte", func(c *vrt.Enum) {
		for v := 0; v < 256; v++ {
			run(c, shapes[1], 0, []op{{'b', "", v}, {'r', "", 'é'}, {'b', "", v}})
		}
		vals := []int{-1, math.MinInt32, math.MaxInt32, 0xd800, 0xdfff, 0x110000}
		for v := 0; v <= utf8.MaxRune; v++ {
			vals = append(vals, v)
		}
		for _, v := range vals {
			run(c, shapes[1], 0, []op{{'r', "", v}, {'r', "", v}})
		}
	})
	sharded("many and long pieces", func(c *vrt.Enum) {
		for _, n := range []int{1, 7, 8, 9, 31, 32, 33, 64, 100, 1000} {
			for _, sh := range shapes {
				for _, g := range []int{-1, 0, 1, 16, 4096} {
					var ops []op
					for i := 0; i < n; i++ {
						if g >= 0 && i%5 == 0 {
							ops = append(ops, op{'g', "", g})
						}
						ops = append(ops, op{"swbr"[i%4], strings.Repeat("ab", i%40), 'a' + i%26})
						if i%3 == 0 {
							ops = append(ops, op{'S', "", 0}, op{'l', "", 0}, op{'c', "", 0})
						}
						if i == n*2/3 {
							ops = append(ops, op{'R', "", 0})
						}
					}
					run(c, sh, 0, ops)
					run(c, sh, 1, append(ops, ops...))
				}
			}
		}
	})
	sharded("very many and very long pieces", func(c *vrt.Enum) {
		for i, sh := range shapes {
			for _, n := range []int{1000, 1023, 1024, 1025, 4096, 4097, 65535, 65536, 66001} {
				long := []op{{'s', strings.Repeat("a", n), 0}, {'S', "", 0}, {'l', "", 0}, {'c', "", 0}, {'w', strings.Repeat("日", n/3), 0}, {'g', "", 3 * n}, {'s', strings.Repeat("b", n), 0}, {'c', "", 0}, {'S', "", 0}, {'R', "", 0}, {'c', "", 0}, {'S', "", 0}, {'s', "c", 0}, {'S', "", 0}}
				run(c, sh, 0, long)
				var many []op
				for k := 0; k < n; k++ {
					many = append(many, op{"swbr"[k%4], "x", 'a' + k%26})
				}
				if n < 5000 || i == 1 {
					run(c, sh, 0, append(many, op{'l', "", 0}, op{'S', "", 0}))
				}
			}
		}
	})
	sharded("two joiners in turn", func(c *vrt.Enum) {
		n := 3
		if deep {
			n = 4
		}
		menu := append([]op{{'r', "", '日'}}, small...)
		var seqs [][]op
		var rec func(l []op)
		rec = func(l []op) {
			if len(l) == n {
				seqs = append(seqs, append([]op(nil), l...))
				return
			}
			for _, o := range menu {
				rec(append(l, o))
			}
		}
		rec(nil)
		for _, a := range seqs {
			for _, b := range seqs {
				if !c.Case("two", fmt.Sprint(a), fmt.Sprint(b)) {
					continue
				}
				m := &model{c: c, sh: shapes[1], j: xstring.NewJoiner(shapes[1].options(0)...)}
				k := &model{c: c, sh: shapes[3], j: xstring.NewJoiner(shapes[3].options(1)...)}
				for i := range a {
					m.do(a[i])
					k.do(b[i])
				}
				m.end()
				k.end()
			}
		}
	})
	return r
}
