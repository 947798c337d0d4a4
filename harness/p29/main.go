// P29: Abbreviate keeps within the width and keeps the right text.
package main

import (
	"fmt"
	"math"

	"github.com/chenquan/go-pkg/xstring"
	"github.com/chenquan/go-pkg/zverif/h/lib/text"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P29", scenarios) }

type runes = []rune

// possible reports whether got is a piece of s with the marker at each cut end, of exactly width
// characters, that contains the character at offset (if there is one).
func possible(s, m, got runes, offset, width int) bool {
	if len(got) != width {
		return false
	}
	for i := 0; i < len(s); i++ {
		left := 0
		if i > 0 {
			left = len(m)
		}
		for _, right := range []int{0, len(m)} {
			j := i + width - left - right
			if j <= i || j > len(s) || (right == 0) != (j == len(s)) {
				continue
			}
			if offset < len(s) && (offset < i || offset >= j) {
				continue
			}
			if equal(got[:left], m[:left]) && equal(got[left:width-right], s[i:j]) && equal(got[width-right:], m[:right]) {
				return true
			}
		}
	}
	return false
}

func equal(a, b runes) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func check(c *vrt.Enum, s, m runes, offset, width int) {
	if !c.Case(string(s), string(m), offset, width) {
		return
	}
	got, err := xstring.Abbreviate(string(s), string(m), offset, width)
	if len(m) == 0 {
		if width > 0 {
			if want := string(s[:min(width, len(s))]); err != nil || got != want {
				c.Fail("without a marker: %q, %v, want %q", got, err, want)
			}
		}
		return
	}
	if len(s) == 0 {
		if got != "" || err != nil {
			c.Fail("%q, %v for no text", got, err)
		}
		return
	}
	switch {
	case width < len(m)+1:
		if err == nil || got != "" {
			c.Fail("a width of %d for a marker of %d: %q, %v, want an error", width, len(m), got, err)
		}
	case len(s) <= width:
		if err != nil || got != string(s) {
			c.Fail("%q, %v for a string that fits", got, err)
		}
	case err != nil:
		if got != "" {
			c.Fail("error %v with the text %q", err, got)
		}
		if width >= 2*len(m)+1 || offset == 0 {
			c.Fail("error %v though the width is large enough", err)
		}
	case !possible(s, m, runes(got), offset, width):
		c.Fail("%q (%d characters) is not the marker, a piece with character %d and the marker in %d characters", got, len(runes(got)), offset, width)
	}
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	shards := 8
	sharded := func(name string, f func(c *vrt.Enum)) {
		for i := 0; i < shards; i++ {
			r = append(r, &vrt.Scenario{Name: fmt.Sprint(name, " ", i+1), Shard: i, Shards: shards, Enum: f})
		}
	}
	hi := 24
	if deep {
		hi = 45
	}
	markers := []runes{nil, runes("."), runes("日"), runes("..."), runes("é日"), runes("[…]"), runes("-----"), runes("a"), runes("bb")}
	sharded("all lengths, offsets and widths", func(c *vrt.Enum) {
		for n := 0; n <= hi; n++ {
			texts := []runes{}
			for p := 0; p < 3; p++ {
				t := make(runes, n)
				for i := range t {
					switch p {
					case 0:
						t[i] = 'A' + rune(i) // all different
					case 1:
						t[i] = 0x4e00 + rune(i*7)
					case 2:
						t[i] = []rune("aé日😀")[i%4]
					}
				}
				texts = append(texts, t)
			}
			for _, t := range texts {
				for _, m := range markers {
					for w := -2; w <= n+2; w++ {
						for o := 0; o <= n+2; o++ {
							check(c, t, m, o, w)
						}
					}
				}
			}
		}
	})
	sharded("all short strings", func(c *vrt.Enum) {
		h := 5
		if deep {
			h = 7
		}
		for _, t := range text.All("ab日", 0, h) {
			for _, m := range []runes{runes("a"), runes("日"), runes("ab")} {
				for w := 0; w <= len(t)+1; w++ {
					for o := 0; o <= len(t)+1; o++ {
						check(c, t, m, o, w)
					}
				}
			}
		}
	})
	sharded("long texts", func(c *vrt.Enum) {
		for _, n := range []int{127, 128, 129, 255, 256, 257, 513, 1000, 1025, 4097, 10007, 66001} {
			for p := 0; p < 3; p++ {
				t := make(runes, n)
				for i := range t {
					t[i] = []rune{'a' + rune(i*i/7%26), 0x4e00 + rune(i%20011), []rune("aé日😀b")[i*i/3%5]}[p]
				}
				for _, m := range append(markers[:5:5], text.Long("-", 100)[0], text.Long("é…", 300)[0]) {
					for _, w := range []int{len(m), len(m) + 1, 2 * len(m), 2*len(m) + 1, n / 2, n - 1, n, n + 1} {
						for _, o := range []int{0, 1, len(m), len(m) + 1, n / 3, n - n/2, n - len(m), n - 1, n, n + 1} {
							if o >= 0 {
								check(c, t, m, o, w)
							}
						}
					}
				}
			}
		}
	})
	sharded("extreme numbers", func(c *vrt.Enum) {
		for _, n := range []int{0, 1, 5, 10, 64, 100} {
			for _, t := range text.Long("abcdeé日", n) {
				for _, m := range markers {
					for _, w := range []int{math.MinInt, math.MinInt + 4, -100, 8, 9, 50, 99, 100, 101, math.MaxInt - 3, math.MaxInt} {
						for _, o := range []int{0, 1, 50, 99, 1 << 31, 1 << 32, math.MaxInt - 100, math.MaxInt - 3, math.MaxInt} {
							check(c, t, m, o, w)
						}
					}
				}
			}
		}
	})
	return r
}
