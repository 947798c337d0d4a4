// Package text enumerates strings over small alphabets.
package text

// All are all rune sequences over the alphabet with lo to hi characters.
func All(alphabet string, lo, hi int) (r [][]rune) {
	a := []rune(alphabet)
	var rec func(l []rune)
	rec = func(l []rune) {
		if len(l) >= lo {
			r = append(r, append([]rune(nil), l...))
		}
		if len(l) < hi {
			for _, c := range a {
				rec(append(l, c))
			}
		}
	}
	rec(nil)
	return
}

// Strings are the strings of All.
func Strings(alphabet string, lo, hi int) (r []string) {
	for _, l := range All(alphabet, lo, hi) {
		r = append(r, string(l))
	}
	return
}

// Long are strings of exactly n characters in several patterns over the alphabet.
func Long(alphabet string, n int) (r [][]rune) {
	a := []rune(alphabet)
	k := len(a)
	for p := 0; p < 4; p++ {
		l := make([]rune, n)
		for i := range l {
			switch p {
			case 0:
				l[i] = a[i%k]
			case 1:
				l[i] = a[(n-i)*5%k]
			case 2:
				l[i] = a[i/3%k]
			case 3:
				l[i] = a[k-1]
			}
		}
		r = append(r, l)
	}
	return
}

// Clone copies a string so that it shares nothing.
func Clone(s string) string { return string([]byte(s)) }
