// P28: difference and common-prefix functions are exact.
package main

import (
	"fmt"
	"unicode/utf8"

	"github.com/chenquan/go-pkg/xstring"
	"github.com/chenquan/go-pkg/zverif/h/lib/text"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P28", scenarios) }

type runes = []rune

// common is the length of the longest common prefix and whether all are equal.
func common(l []runes) (n int, equal bool) {
	for ; ; n++ {
		ended := 0
		for _, r := range l {
			if n == len(r) {
				ended++
			}
		}
		if ended > 0 {
			return n, ended == len(l)
		}
		for _, r := range l {
			if r[n] != l[0][n] {
				return n, false
			}
		}
	}
}

// check compares for the strings in the given order.
func check(c *vrt.Enum, l ...runes) {
	var in, keep []string
	for _, r := range l {
		in = append(in, string(r))
		keep = append(keep, string(r))
	}
	if !c.Case(in) {
		return
	}
	if len(l) == 0 {
		if n := xstring.IndexOfDifference(); n != -1 {
			c.Fail("IndexOfDifference = %d, want -1", n)
		}
		if p := xstring.CommonPrefix(); p != "" {
			c.Fail("CommonPrefix = %q, want none", p)
		}
		return
	}
	n, equal := common(l)
	want := n
	if equal || len(l) < 2 {
		want = -1
	}
	if n < 5000 { // these are slow on long common prefixes
		if got := xstring.IndexOfDifference(in...); got != want {
			c.Fail("IndexOfDifference = %d, want %d", got, want)
		}
		c.Eval()
		if got, w := xstring.CommonPrefix(in...), string(l[0][:n]); got != w {
			c.Fail("CommonPrefix = %q, want %q", got, w)
		}
	}
	if len(l) == 2 {
		c.Eval()
		if got := xstring.IndexOfDifferenceWithTwoStr(in[0], in[1]); got != want {
			c.Fail("IndexOfDifferenceWithTwoStr = %d, want %d", got, want)
		}
		c.Eval()
		if got, w := xstring.Difference(in[0], in[1]), string(l[1][n:]); got != w {
			c.Fail("Difference = %q, want %q", got, w)
		}
	}
	for i := range in {
		if in[i] != keep[i] {
			c.Fail("argument %d changed to %q", i+1, in[i])
		}
	}
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	shards := 8
	if deep {
		shards = 16
	}
	sharded := func(name string, f func(c *vrt.Enum)) {
		for i := 0; i < shards; i++ {
			r = append(r, &vrt.Scenario{Name: fmt.Sprint(name, " ", i+1), Shard: i, Shards: shards, Enum: f})
		}
	}
	d := func(q, t int) int {
		if deep {
			return t
		}
		return q
	}
	sharded("pairs", func(c *vrt.Enum) {
		check(c)
		// characters that share bytes: é è, 日 旦, the replacement character, a combining accent
		for _, al := range []string{"aéè日", "a日旦\ufffd", "e\u0301é😀"} {
			l := text.All(al, 0, d(4, 5))
			for _, a := range l {
				check(c, a)
				for _, b := range l {
					check(c, a, b)
				}
			}
		}
		l := text.All("aé", 0, d(7, 8))
		for _, a := range l {
			for _, b := range l {
				check(c, a, b)
			}
		}
	})
	sharded("three and more", func(c *vrt.Enum) {
		l := text.All("aéè", 0, d(3, 4))
		for _, a := range l {
			for _, b := range l {
				for _, z := range l {
					check(c, a, b, z)
				}
			}
		}
		l = text.All("é日", 0, 2)
		for _, a := range l {
			for _, b := range l {
				for _, z := range l {
					for _, y := range l {
						check(c, a, b, z, y)
						if deep {
							for _, x := range l {
								check(c, a, b, z, y, x)
							}
						}
					}
				}
			}
		}
	})
	sharded("many", func(c *vrt.Enum) {
		for n := 1; n <= d(24, 60); n++ { // n strings of which one or two are special
			for _, base := range []string{"é日a", "a", "ééééé"} {
				b := []rune(base)
				var odd []runes
				for i := 0; i <= len(b); i++ {
					odd = append(odd, b[:i], append(append(append(runes{}, b[:i]...), 'x'), b[i:]...))
					if i < len(b) {
						odd = append(odd, append(append(append(runes{}, b[:i]...), 'è'), b[i+1:]...))
					}
				}
				for i := 0; i < n; i++ {
					for j := i; j < n; j++ {
						for k, o := range odd {
							l := make([]runes, n)
							for m := range l {
								l[m] = b
							}
							l[i] = o
							if j > i {
								l[j] = odd[(k+1)%len(odd)]
							}
							check(c, l...)
						}
					}
				}
			}
		}
	})
	sharded("long", func(c *vrt.Enum) {
		for _, n := range []int{9, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 1025} {
			for _, a := range text.Long("aéè日", n) {
				step := 1
				if n > 200 {
					step = 37
				}
				for i := 0; i <= n; i += step {
					b := append(runes{}, a...)
					if i < n {
						b[i] = 'è'
						if a[i] == 'è' {
							b[i] = 'é'
						}
					}
					check(c, a, b)
					check(c, a[:i], a)
					check(c, a, a[:i])
					check(c, a, b, a)
					check(c, a, a, b[:max(i, n/2)])
					check(c, b, a[:i], a)
				}
			}
		}
	})
	sharded("very long", func(c *vrt.Enum) {
		for _, n := range []int{1023, 1024, 4096, 4097, 10007, 66001} {
			for k, a := range append(text.Long("aéè日", n)[:2], text.Long("abcdefg", n)[:1]...) {
				for _, i := range []int{0, 1, 255, 256, n / 2, n - 256, n - 2, n - 1, n} {
					b := append(runes{}, a...)
					if i < n {
						b[i] = []rune("xq日")[k]
					}
					check(c, a, b)
					check(c, a, a[:i])
					check(c, a[:i], a, b)
					check(c, a, a, b[:max(i, n/2)])
				}
			}
		}
	})
	sharded("many very long lists", func(c *vrt.Enum) {
		for _, n := range []int{17, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025, 5000} {
			b := runes("é日abc")
			for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
				for _, o := range []runes{nil, b[:1], b[:4], runes("é日axc"), runes("è日abc"), runes("é日abcd")} {
					l := make([]runes, n)
					for m := range l {
						l[m] = b
					}
					l[i] = o
					check(c, l...)
				}
			}
		}
	})
	sharded("every character", func(c *vrt.Enum) {
		for v := rune(0); v <= utf8.MaxRune; v++ {
			if !utf8.ValidRune(v) {
				continue
			}
			for _, w := range []rune{v, v + 1, v ^ 0x40, v + 0x100, v ^ 0x10000, v & 0xff, 'a'} {
				if utf8.ValidRune(w) {
					check(c, runes{'x', v, 'y'}, runes{'x', w, 'y'})
				}
			}
		}
	})
	return r
}
