// P26: substring, pad, rotate, reverse and removal work on characters.
package main

import (
	"fmt"
	"math"
	"sort"
	"unicode"
	"unicode/utf8"

	"github.com/chenquan/go-pkg/xstring"
	"github.com/chenquan/go-pkg/zverif/h/lib/text"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P26", scenarios) }

type runes = []rune

// sub is the definition of Sub.
func sub(r runes, start, end int) string {
	n := len(r)
	at := func(i int) int {
		if i < 0 {
			i += n
		}
		return min(max(i, 0), n)
	}
	if i, j := at(start), at(end); i < j {
		return string(r[i:j])
	}
	return ""
}

func eq(c *vrt.Enum, name, got, want string) {
	c.Eval()
	if got != want {
		c.Fail("%s = %q, want %q", name, got, want)
	}
}

var extremes = []int{math.MinInt, math.MinInt + 1, -1 << 40, -1 << 31, -100, 100, 1 << 31, 1 << 40, math.MaxInt - 1, math.MaxInt}

func indexes(n int) (r []int) {
	if n <= 8 {
		for i := -n - 2; i <= n+2; i++ {
			r = append(r, i)
		}
	} else {
		seen := map[int]bool{}
		for _, b := range []int{0, n, -n, n / 2, -n / 3} {
			for d := -2; d <= 2; d++ {
				if !seen[b+d] {
					seen[b+d] = true
					r = append(r, b+d)
				}
			}
		}
	}
	return
}

func substrings(c *vrt.Enum, r runes, more []int) {
	s := string(r)
	in := text.Clone(s)
	if !c.Case("Sub Left Right Len Rotate Reverse", s) {
		return
	}
	if n := xstring.Len(s); n != len(r) {
		c.Fail("Len = %d, want %d", n, len(r))
	}
	idx := append(indexes(len(r)), more...)
	for _, i := range idx {
		eq(c, fmt.Sprintf("Left(%d)", i), xstring.Left(s, i), sub(r, 0, i))
		want := ""
		if i < 0 {
			want = sub(r, i, len(r))
		} else if i < len(r) {
			want = string(r[i:])
		}
		eq(c, fmt.Sprintf("Right(%d)", i), xstring.Right(s, i), want)
		for _, j := range idx {
			if got, want := xstring.Sub(s, i, j), sub(r, i, j); got != want {
				c.Fail("Sub(%d, %d) = %q, want %q", i, j, got, want)
			}
			c.Eval()
		}
		want = s
		if n := len(r); n > 0 {
			k := (i%n + n) % n
			want = string(r[n-k:]) + string(r[:n-k])
		}
		eq(c, fmt.Sprintf("Rotate(%d)", i), xstring.Rotate(s, i), want)
	}
	rev := make(runes, len(r))
	for i := range r {
		rev[len(r)-1-i] = r[i]
	}
	got, err := xstring.Reverse(s)
	if err != nil {
		c.Fail("Reverse: %v", err)
	}
	eq(c, "Reverse", got, string(rev))
	eq(c, "MustReverse", xstring.MustReverse(s), string(rev))
	if s != in {
		c.Fail("the argument changed to %q", s)
	}
}

func filter(r runes, keep func(rune) bool) string {
	var o runes
	for _, v := range r {
		if keep(v) {
			o = append(o, v)
		}
	}
	return string(o)
}

func trim(r runes, left, right bool, cut func(rune) bool) string {
	for left && len(r) > 0 && cut(r[0]) {
		r = r[1:]
	}
	for right && len(r) > 0 && cut(r[len(r)-1]) {
		r = r[:len(r)-1]
	}
	return string(r)
}

// without removes the occurrences of m from left to right.
func without(r, m runes) string {
	var o runes
	for i := 0; i < len(r); {
		if len(m) > 0 && i+len(m) <= len(r) && r[i] == m[0] && string(r[i:i+len(m)]) == string(m) {
			i += len(m)
		} else {
			o = append(o, r[i])
			i++
		}
	}
	return string(o)
}

func removals(c *vrt.Enum, r runes, chars runes, pieces []runes) {
	s := string(r)
	in := text.Clone(s)
	if !c.Case("removals and trims", s) {
		return
	}
	eq(c, "DeleteWhitespace", xstring.DeleteWhitespace(s), filter(r, func(v rune) bool { return !unicode.IsSpace(v) }))
	eq(c, "TrimSpace", xstring.TrimSpace(s), trim(r, true, true, unicode.IsSpace))
	for _, ch := range chars {
		eq(c, fmt.Sprintf("RemoveChar(%q)", ch), xstring.RemoveChar(s, ch), filter(r, func(v rune) bool { return v != ch }))
	}
	for _, m := range pieces {
		eq(c, fmt.Sprintf("RemoveString(%q)", string(m)), xstring.RemoveString(s, string(m)), without(r, m))
		set := map[rune]bool{}
		for _, v := range m {
			set[v] = true
		}
		cut := func(v rune) bool { return set[v] }
		eq(c, fmt.Sprintf("Trim(%q)", string(m)), xstring.Trim(s, string(m)), trim(r, true, true, cut))
		eq(c, fmt.Sprintf("TrimLeft(%q)", string(m)), xstring.TrimLeft(s, string(m)), trim(r, true, false, cut))
		eq(c, fmt.Sprintf("TrimRight(%q)", string(m)), xstring.TrimRight(s, string(m)), trim(r, false, true, cut))
	}
	if s != in {
		c.Fail("the argument changed to %q", s)
	}
}

func pads(c *vrt.Enum, r runes, chars runes, sizes []int) {
	s := string(r)
	if !c.Case("Pad", s) {
		return
	}
	for _, size := range sizes {
		n := max(size, len(r)) - len(r)
		for _, ch := range append(chars[:len(chars):len(chars)], ' ') {
			p := func(k int) string {
				o := make(runes, k)
				for i := range o {
					o[i] = ch
				}
				return string(o)
			}
			eq(c, fmt.Sprintf("PadLeftChar(%d, %q)", size, ch), xstring.PadLeftChar(s, size, ch), p(n)+s)
			eq(c, fmt.Sprintf("PadRightChar(%d, %q)", size, ch), xstring.PadRightChar(s, size, ch), s+p(n))
			eq(c, fmt.Sprintf("PadCenterChar(%d, %q)", size, ch), xstring.PadCenterChar(s, size, ch), p(n/2)+s+p(n-n/2))
			eq(c, fmt.Sprintf("RepeatChar(%q, %d)", ch, size), xstring.RepeatChar(ch, size), p(max(size, 0)))
			if ch == ' ' {
				eq(c, fmt.Sprintf("PadLeftSpace(%d)", size), xstring.PadLeftSpace(s, size), p(n)+s)
				eq(c, fmt.Sprintf("PadRightSpace(%d)", size), xstring.PadRightSpace(s, size), s+p(n))
				eq(c, fmt.Sprintf("PadCenterSpace(%d)", size), xstring.PadCenterSpace(s, size), p(n/2)+s+p(n-n/2))
			}
		}
	}
}

// mostly are strings of n ASCII letters with one other character, or none.
func mostly(n int) (r []runes) {
	base := make(runes, n)
	for i := range base {
		base[i] = 'a' + rune(i%26)
	}
	r = append(r, base)
	for _, i := range []int{0, n / 2, n - 1} {
		if n > 0 {
			l := append(runes{}, base...)
			l[i] = '日'
			r = append(r, l)
			l = append(runes{}, base...)
			l[i] = ' '
			r = append(r, l)
		}
	}
	return
}

// around are strings of n characters that begin and end with long runs of one character.
func around(n int) (r []runes) {
	for _, v := range " a日\u3000" {
		for _, k := range []int{n / 3, n / 2, n - 1, n} {
			l := make(runes, n)
			for i := range l {
				if l[i] = v; i == k {
					l[i] = 'z'
				}
			}
			r = append(r, l)
		}
	}
	return
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	const alpha = "aB \u00e9日😀\ufffd"
	hi, shards := 5, 8
	if deep {
		hi, shards = 6, 32
	}
	sharded := func(name string, f func(c *vrt.Enum)) {
		for i := 0; i < shards; i++ {
			r = append(r, &vrt.Scenario{Name: fmt.Sprint(name, " ", i+1), Shard: i, Shards: shards, Enum: f})
		}
	}
	sharded("substrings, rotations, reversals of all strings", func(c *vrt.Enum) {
		for _, s := range text.All(alpha, 0, hi) {
			substrings(c, s, nil)
		}
		for _, s := range text.All("aé日😀", hi+1, hi+2) {
			substrings(c, s, nil)
		}
		for _, s := range text.All("aé\u0301\x00", 0, 3) {
			substrings(c, s, extremes)
		}
		for _, n := range []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000} {
			for _, s := range append(text.Long("aé日😀b", n), text.Long("abc", n)...) {
				substrings(c, s, extremes)
			}
		}
		for _, n := range []int{1023, 1024, 1025, 4096, 4097, 8193, 10007, 66001} {
			for _, s := range append(text.Long("aé日😀b", n)[:2], mostly(n)...) {
				substrings(c, s, nil)
			}
		}
	})
	sharded("removals and trims of all strings", func(c *vrt.Enum) {
		const al = "aB \u00e9\u3000\t日\u0085"
		pieces := append(text.All("a é日", 0, 2), runes("aBa"), runes("日日日"), runes("\ufffd"), runes("ab "), runes("é日"))
		h := 4
		if deep {
			h = 6
		}
		for _, s := range text.All(al, 0, h) {
			removals(c, s, runes("aé 日z\u3000\ufffd\x00"), pieces)
		}
		for _, s := range text.All("a日\ufffd", 0, h+2) {
			removals(c, s, runes("a日\ufffd"), pieces)
		}
		for _, n := range []int{16, 33, 64, 65, 200} {
			for _, s := range append(text.Long("a é\u2003日", n), text.Long("ab", n)...) {
				removals(c, s, runes("aé 日"), pieces)
			}
		}
		for _, n := range []int{257, 512, 1000, 1024, 1025, 4097, 10007, 66001} {
			for _, s := range append(append(text.Long("a é 日", n), mostly(n)...), around(n)...) {
				removals(c, s, runes("aé 日z"), pieces)
			}
		}
	})
	sharded("pads", func(c *vrt.Enum) {
		var sizes []int
		for i := -2; i <= 9; i++ {
			sizes = append(sizes, i)
		}
		h := 5
		if deep {
			h = 7
		}
		for _, s := range text.All("a é日😀", 0, h) {
			pads(c, s, runes("x\u00e9日😀\x00"), sizes)
		}
		for _, n := range []int{0, 1, 30, 64, 100} {
			for _, s := range text.Long("aé日", n) {
				pads(c, s, runes("-日"), []int{n - 1, n, n + 1, n + 2, n + 63, n + 64, n + 65, 2*n + 1, 1000, -1000, math.MinInt})
			}
		}
		for _, n := range []int{0, 3, 1000, 1025, 10007, 66001} {
			for _, s := range append(text.Long("aé日", n)[:2], mostly(n)...) {
				pads(c, s, runes("-日"), []int{n + 1, n + 255, n + 256, n + 1024, n + 1025, n + 4097, n + 65537, 2*n + 1})
			}
		}
	})
	sharded("every character", func(c *vrt.Enum) {
		for v := rune(0); v <= utf8.MaxRune; v++ {
			if !utf8.ValidRune(v) {
				continue
			}
			if !c.Case("characters", fmt.Sprintf("%U", v)) {
				continue
			}
			r := runes{'a', v, ' ', v, 'é'}
			s := string(r)
			eq(c, "RemoveChar", xstring.RemoveChar(s, v), filter(r, func(w rune) bool { return w != v }))
			eq(c, "DeleteWhitespace", xstring.DeleteWhitespace(s), filter(r, func(v rune) bool { return !unicode.IsSpace(v) }))
			eq(c, "PadCenterChar", xstring.PadCenterChar(s, 8, v), string(v)+s+string(v)+string(v))
			got, err := xstring.Reverse(s)
			if err != nil {
				c.Fail("Reverse: %v", err)
			}
			eq(c, "Reverse", got, "é"+string(v)+" "+string(v)+"a")
			eq(c, "Sub", xstring.Sub(s, 1, -1), string(v)+" "+string(v))
			eq(c, "Rotate", xstring.Rotate(s, 2), string(v)+"éa"+string(v)+" ")
			eq(c, "TrimSpace", xstring.TrimSpace(string(v)+s+string(v)), trim(append(append(runes{v}, r...), v), true, true, unicode.IsSpace))
			eq(c, "Trim", xstring.Trim(string(v)+s+string(v), string(v)), trim(r, true, true, func(w rune) bool { return w == v }))
		}
	})
	sharded("reversals of all byte strings, valid or not", func(c *vrt.Enum) {
		bytes := []byte{'a', 0x80, 0xbd, 0xbf, 0xc0, 0xc3, 0xa9, 0xe0, 0xe6, 0xed, 0xef, 0xf0, 0x9f, 0xf4, 0xff}
		h := 4
		if deep {
			h = 5
		}
		var rec func(b []byte)
		rec = func(b []byte) {
			s := string(b)
			if c.Case(s) {
				got, err := xstring.Reverse(s)
				if valid := utf8.ValidString(s); valid != (err == nil) {
					c.Fail("valid %v, but Reverse returned error %v", valid, err)
				} else if valid {
					r := runes(s)
					for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
						r[i], r[j] = r[j], r[i]
					}
					eq(c, "Reverse", got, string(r))
				}
				func() {
					defer func() {
						if p := recover(); (p != nil) != (err != nil) {
							c.Fail("Reverse returned error %v, MustReverse panicked with %v", err, p)
						}
					}()
					eq(c, "MustReverse", xstring.MustReverse(s), got)
				}()
			}
			if len(b) < h {
				for _, v := range bytes {
					rec(append(b[:len(b):len(b)], v))
				}
			}
		}
		rec(nil)
	})
	n := 6
	if deep {
		n = 7
	}
	for k := 0; k <= n; k++ {
		k := k
		r = append(r, &vrt.Scenario{Name: fmt.Sprintf("shuffles of %d characters, all random choices", k), Bounds: []int{-1}, Body: func(x *vrt.X) {
			in := []string{"abé日😀cd", "ééa日日\ufffdé"}[x.Choose(2)]
			s := string([]rune(in)[:k])
			before := text.Clone(s)
			got := []rune(xstring.Shuffle(s))
			want := []rune(s)
			x.Note("%q -> %q", s, string(got))
			sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
			sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
			if string(got) != string(want) {
				x.Fail("Shuffle(%q) has the characters %q", s, string(got))
			}
			if s != before {
				x.Fail("the argument changed")
			}
		}})
	}
	return r
}
