// P27: search, comparison and classification agree with definitions.
package main

import (
	"fmt"
	"math"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/chenquan/go-pkg/xstring"
	"github.com/chenquan/go-pkg/zverif/h/lib/text"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P27", scenarios) }

type runes = []rune

// must: a and b match ignoring case for certain; may: some chain of case mappings joins them.
func must(a, b rune) bool {
	return a == b || unicode.ToUpper(a) == unicode.ToUpper(b) || unicode.ToLower(a) == unicode.ToLower(b)
}

var classes map[rune]rune

func find(a rune) rune {
	for {
		p, ok := classes[a]
		if !ok || p == a {
			return a
		}
		a = p
	}
}

func may(a, b rune) bool {
	if classes == nil {
		classes = map[rune]rune{}
		join := func(a, b rune) {
			if a, b = find(a), find(b); a != b {
				classes[a] = b
			}
		}
		for v := rune(0); v <= unicode.MaxRune; v++ {
			for _, w := range []rune{unicode.ToUpper(v), unicode.ToLower(v), unicode.ToTitle(v), unicode.SimpleFold(v)} {
				if w != v {
					join(v, w)
				}
			}
		}
	}
	return a == b || find(a) == find(b)
}

// region compares length characters; nil verdict: either answer is right.
func region(a runes, fold bool, i int, b runes, j, n int) (answer, certain bool) {
	if i < 0 || j < 0 || n < 0 || i > len(a) || j > len(b) || n > len(a)-i || n > len(b)-j {
		return false, true
	}
	certain = true
	for k := 0; k < n; k++ {
		x, y := a[i+k], b[j+k]
		switch {
		case x == y || fold && must(x, y):
		case fold && may(x, y):
			certain = false
		default:
			return false, true
		}
	}
	return true, certain
}

func is(c *vrt.Enum, name string, got, want bool) {
	c.Eval()
	if got != want {
		c.Fail("%s = %v, want %v", name, got, want)
	}
}

func is2(c *vrt.Enum, name string, got bool, want, certain bool) {
	c.Eval()
	if certain && got != want {
		c.Fail("%s = %v, want %v", name, got, want)
	}
}

// contains is the definition: whether m is at some position of s.
func at(s, m runes) int {
	for i := 0; i+len(m) <= len(s); i++ {
		k := 0
		for k < len(m) && s[i+k] == m[k] {
			k++
		}
		if k == len(m) {
			return i
		}
	}
	return -1
}

func pair(c *vrt.Enum, a, b runes) {
	s, m := string(a), string(b)
	if !c.Case("pair", s, m) {
		return
	}
	i := at(a, b)
	byteAt := -1
	if i >= 0 {
		byteAt = len(string(a[:i]))
	}
	if n := xstring.Index(s, m); n != byteAt {
		c.Fail("Index = %d, want %d", n, byteAt)
	}
	if len(a) > 0 {
		is(c, "Contains", xstring.Contains(s, m), i >= 0)
		is(c, "EndsWithAny", xstring.EndsWithAny(s, m), strings.HasSuffix(s, m))
		is(c, "EndsWithAny(zz, m)", xstring.EndsWithAny(s, "zz", m), strings.HasSuffix(s, m))
	}
	is(c, "ContainsAnySubstrings", xstring.ContainsAnySubstrings(s, []string{m}), i >= 0)
	is(c, "ContainsAnySubstrings(zz, m)", xstring.ContainsAnySubstrings(s, []string{"zz", m}), i >= 0)
	is(c, "ContainsAnySubstrings(m, zz)", xstring.ContainsAnySubstrings(s, []string{m, "zz"}), i >= 0)
	is(c, "ContainsAnySubstrings()", xstring.ContainsAnySubstrings(s, nil), false)
	any := -1
	for k, v := range s {
		if strings.ContainsRune(m, v) {
			any = k
			break
		}
	}
	if n := xstring.IndexAny(s, m); n != any {
		c.Fail("IndexAny = %d, want %d", n, any)
	}
	is(c, "EqualsAny", xstring.EqualsAny(s, m), s == m)
	is(c, "EqualsAny(m, zz)", xstring.EqualsAny(s, m, "zz"), s == m)
	is(c, "EqualsAny(zz, m)", xstring.EqualsAny(s, "zz", m), s == m)
	is(c, "EqualsAny(zz, m, zz)", xstring.EqualsAny(s, "zz", m, "zz"), s == m)
	is(c, "EqualsAny()", xstring.EqualsAny(s), false)

	suffix := strings.HasSuffix(s, m)
	is(c, "EndsWith", xstring.EndsWith(s, m, false), suffix)
	is(c, "EndsWithCase", xstring.EndsWithCase(s, m), suffix)
	want, sure := false, true
	if len(b) <= len(a) {
		want, sure = region(a, true, len(a)-len(b), b, 0, len(b))
	}
	is2(c, "EndsWith ignoring case", xstring.EndsWith(s, m, true), want, sure)
	is2(c, "EndsWithIgnoreCase", xstring.EndsWithIgnoreCase(s, m), want, sure)
	want, sure = false, true
	if len(a) == len(b) {
		want, sure = region(a, true, 0, b, 0, len(b))
	}
	is2(c, "EqualsIgnoreCase", xstring.EqualsIgnoreCase(s, m), want, sure)
	want, sure = false, true
	for k := 0; k+len(b) <= len(a); k++ {
		w, q := region(a, true, k, b, 0, len(b))
		if w && q {
			want, sure = true, true
			break
		}
		sure = sure && q
	}
	is2(c, "ContainsIgnoreCase", xstring.ContainsIgnoreCase(s, m), want, sure)
	def := func(empty bool) string {
		if empty {
			return m
		}
		return s
	}
	if got := xstring.DefaultIfBlank(s, m); got != def(blank(a)) {
		c.Fail("DefaultIfBlank = %q", got)
	}
	if got := xstring.DefaultIfEmpty(s, m); got != def(len(a) == 0) {
		c.Fail("DefaultIfEmpty = %q", got)
	}
	is(c, "IsAnyEmpty", xstring.IsAnyEmpty(s, m), len(a) == 0 || len(b) == 0)
	is(c, "IsNoneEmpty", xstring.IsNoneEmpty(s, m), len(a) > 0 && len(b) > 0)
	is(c, "IsAnyBlank", xstring.IsAnyBlank(s, m), blank(a) || blank(b))
	is(c, "IsNoneBlank", xstring.IsNoneBlank(s, m), !blank(a) && !blank(b))
}

func all(r runes, f func(rune) bool) bool {
	for _, v := range r {
		if !f(v) {
			return false
		}
	}
	return true
}

func blank(r runes) bool { return all(r, unicode.IsSpace) }

func classify(c *vrt.Enum, r runes) {
	s := string(r)
	if !c.Case("classify", s) {
		return
	}
	some := len(r) > 0
	is(c, "IsEmpty", xstring.IsEmpty(s), !some)
	is(c, "IsNotEmpty", xstring.IsNotEmpty(s), some)
	is(c, "IsBlank", xstring.IsBlank(s), blank(r))
	is(c, "IsNotBlank", xstring.IsNotBlank(s), !blank(r))
	is(c, "IsAnyEmpty", xstring.IsAnyEmpty(s), !some)
	is(c, "IsNoneEmpty", xstring.IsNoneEmpty(s), some)
	is(c, "IsAnyBlank", xstring.IsAnyBlank(s), blank(r))
	is(c, "IsNoneBlank", xstring.IsNoneBlank(s), !blank(r))
	is(c, "IsAnyEmpty(x, s, y)", xstring.IsAnyEmpty("x", s, "y"), !some)
	is(c, "IsNoneEmpty(x, s, y)", xstring.IsNoneEmpty("x", s, "y"), some)
	is(c, "IsAnyBlank(x, s, y)", xstring.IsAnyBlank("x", s, "y"), blank(r))
	is(c, "IsNoneBlank(x, s, y)", xstring.IsNoneBlank("x", s, "y"), !blank(r))
	is(c, "IsAlpha", xstring.IsAlpha(s), some && all(r, unicode.IsLetter))
	is(c, "IsNumeric", xstring.IsNumeric(s), some && all(r, unicode.IsDigit))
	is(c, "IsAlphanumeric", xstring.IsAlphanumeric(s), some && all(r, func(v rune) bool { return unicode.IsDigit(v) || unicode.IsLetter(v) }))
	digits, ascii, points, other := 0, 0, 0, 0
	for _, v := range r {
		switch {
		case v >= '0' && v <= '9':
			ascii++
			digits++
		case unicode.IsDigit(v):
			digits++
		case v == '.':
			points++
		default:
			other++
		}
	}
	got := xstring.IsNumerical(s)
	if got && (other > 0 || points > 1 || digits == 0) {
		c.Fail("IsNumerical = true")
	}
	if !got && ascii > 0 && ascii == len(r) {
		c.Fail("IsNumerical = false")
	}
	if !got && ascii > 1 && ascii+1 == len(r) && points == 1 && r[0] != '.' && r[len(r)-1] != '.' {
		c.Fail("IsNumerical = false")
	}
}

var far = []int{math.MinInt, -1 << 32, -1, 1 << 32, math.MaxInt - 1, math.MaxInt}

func regions(c *vrt.Enum, a, b runes, offs []int) {
	s, m := string(a), string(b)
	if !c.Case("RegionMatches", s, m) {
		return
	}
	for _, fold := range []bool{false, true} {
		for _, i := range offs {
			for _, j := range offs {
				for _, n := range offs {
					want, sure := region(a, fold, i, b, j, n)
					c.Eval()
					if got := xstring.RegionMatches(s, fold, i, m, j, n); sure && got != want {
						c.Fail("RegionMatches(%v, %d, %d, %d) = %v, want %v", fold, i, j, n, got, want)
					}
				}
			}
		}
	}
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	var r []*vrt.Scenario
	shards := 8
	sharded := func(name string, f func(c *vrt.Enum)) {
		for i := 0; i < shards; i++ {
			r = append(r, &vrt.Scenario{Name: fmt.Sprint(name, " ", i+1), Shard: i, Shards: shards, Enum: f})
		}
	}
	d := func(q, t int) int {
		if deep {
			return t
		}
		return q
	}
	sharded("pairs of strings", func(c *vrt.Enum) {
		l, m := text.All("aAbé日", 0, d(4, 5)), text.All("aAbÉé日", 0, d(2, 3))
		for _, a := range l {
			for _, b := range m {
				pair(c, a, b)
			}
		}
		l = text.All("sSkKıİIi\u017f\u212aß", 0, 2)
		for _, a := range l {
			for _, b := range l {
				pair(c, a, b)
			}
		}
		l = text.All("a \t\u00a0\u3000", 0, 3)
		for _, a := range l {
			for _, b := range l {
				pair(c, a, b)
			}
		}
		l = text.All("aA\ufffd", 0, d(4, 5))
		for _, a := range l {
			for _, b := range l {
				pair(c, a, b)
			}
		}
		for _, n := range []int{8, 16, 31, 32, 33, 64, 65, 130} {
			for _, a := range text.Long("aAé日b", n) {
				for _, b := range append(text.Long("aÉé日b", 2), text.Long("AaÉ日B", n)...) {
					pair(c, a, b)
					pair(c, a, append(append(runes{}, a[n/2:]...), b...))
				}
				for i := 0; i <= n; i += 7 {
					for j := i; j <= n; j += 5 {
						pair(c, a, a[i:j])
						pair(c, a[i:j], a)
					}
				}
			}
		}
	})
	sharded("classification", func(c *vrt.Enum) {
		for _, a := range text.All("a7.é日 \n", 0, d(6, 7)) {
			classify(c, a)
		}
		for _, a := range text.All("09.\u0663\u00b2\u2167-+e", 0, d(5, 6)) {
			classify(c, a)
		}
		for v := rune(0); v <= utf8.MaxRune; v++ {
			if utf8.ValidRune(v) {
				classify(c, runes{v})
				classify(c, runes{'1', v})
				classify(c, runes{'1', v, '2'})
				classify(c, runes{'a', v})
				classify(c, runes{' ', v})
				classify(c, runes{v, 'a', '1', ' '})
			}
		}
		for _, n := range []int{20, 64, 65, 300} {
			for _, al := range []string{"a", "1", " ", "ab1", "1234567890", "aé日"} {
				for _, a := range text.Long(al, n) {
					classify(c, a)
					for _, v := range ".x 1" {
						for _, i := range []int{0, 1, n / 2, n - 1} {
							z := append(runes{}, a...)
							z[i] = v
							classify(c, z)
						}
					}
				}
			}
		}
	})
	sharded("long strings", func(c *vrt.Enum) {
		for _, n := range []int{255, 256, 257, 511, 513, 1023, 1024, 1025, 4097, 10007, 20011} {
			for _, al := range []string{"a", "1", " ", "ab1", "1234567890", "aé日"} {
				for _, a := range text.Long(al, n)[:2] {
					for _, v := range ".x 1日" {
						for _, i := range []int{0, n / 2, n - 1} {
							z := append(runes{}, a...)
							z[i] = v
							classify(c, z)
						}
					}
				}
			}
			for k, a := range text.Long("aAbBcdefg", n)[:2] {
				odd := func(i int, v rune) runes {
					z := append(runes{}, a...)
					z[i] = v
					return z
				}
				pair(c, a, a)
				for _, i := range []int{0, n / 2, n - 1} {
					for _, v := range "日zA" {
						if n > 5000 && (i > 0 || v == 'A' || k == 1) {
							continue
						}
						z := odd(i, v)
						pair(c, z, a)
						pair(c, z, runes{v})
						pair(c, z, z[max(i-3, 0):])
						pair(c, z, append(append(runes{}, z[n/2:]...), 'q'))
						if k == 0 {
							pair(c, z[1:], z)
							regions(c, z, a, []int{0, 1, n - 1, n})
							regions(c, z, z[n/3:], []int{0, n / 3, n - n/3})
						}
					}
				}
			}
		}
	})
	sharded("regions", func(c *vrt.Enum) {
		l := text.All("aAé日", 0, d(3, 4))
		var offs []int
		for i := -1; i <= 5; i++ {
			offs = append(offs, i)
		}
		for _, a := range l {
			for _, b := range l {
				regions(c, a, b, offs)
			}
		}
		l = text.All("aÉ日", 0, 2)
		for _, a := range l {
			for _, b := range l {
				regions(c, a, b, append([]int{0, 1, 2}, far...))
			}
		}
	})
	sharded("case mappings of every character", func(c *vrt.Enum) {
		for v := rune(0); v <= utf8.MaxRune; v++ {
			if !utf8.ValidRune(v) {
				continue
			}
			near := []rune{unicode.ToUpper(v), unicode.ToLower(v), unicode.ToTitle(v), unicode.SimpleFold(v), v + 1, v ^ 32, v | 0x80, v + 0x100, v & 0xff, 'a'}
			for _, w := range near {
				if !utf8.ValidRune(w) || w == v && w != near[0] {
					continue
				}
				a, b := runes{'x', v}, runes{'X', w}
				if !c.Case("case", string(a), string(b)) {
					continue
				}
				want, sure := region(a, true, 0, b, 0, 2)
				is2(c, "EqualsIgnoreCase", xstring.EqualsIgnoreCase(string(a), string(b)), want, sure)
				is2(c, "EndsWithIgnoreCase", xstring.EndsWithIgnoreCase("q"+string(a), string(b)), want, sure)
				is2(c, "ContainsIgnoreCase", xstring.ContainsIgnoreCase("q"+string(a)+"r", string(b)), want, sure)
				is(c, "EndsWith", xstring.EndsWithCase(string(a), string(b[1:])), v == w)
			}
		}
	})
	return r
}
