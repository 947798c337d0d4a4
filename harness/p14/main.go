// P14: retry stops at the first success and reports all failures.
package main

import (
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/chenquan/go-pkg/xtask"
	"github.com/chenquan/go-pkg/zverif/vmain"
	"github.com/chenquan/go-pkg/zverif/vrt"
)

func main() { vmain.Main("P14", scenarios) }

// messages of the failures, by kind.
func failure(kind, i int) error {
	switch kind {
	case 1:
		return fmt.Errorf("attempt %d failed", i)
	case 2:
		return errors.New("same message")
	case 3:
		return errors.New("")
	case 4:
		return fmt.Errorf("line one of %d\nline two of %d\n", i, i)
	case 5:
		return fmt.Errorf("wrapped %d: %w", i, errors.New("cause"))
	}
	return nil
}

// run makes one call: the attempts fail in the given kinds (0: success; past the end: success).
func run(fail func(string, ...any), times int, opts []xtask.RetryOption, pattern func(i int) int, step func()) (attempts int) {
	var errs []error
	inside := 0
	succeeded := false
	err := xtask.DoWithRetry(func() error {
		inside++
		if inside > 1 {
			fail("two attempts run at a time")
		}
		if succeeded {
			fail("attempt %d after a success", attempts+1)
		}
		attempts++
		if attempts-1 > times {
			fail("attempt %d with %d retries", attempts, times)
		}
		if step != nil {
			step()
		}
		e := failure(pattern(attempts-1), attempts)
		if e == nil {
			succeeded = true
		} else {
			errs = append(errs, e)
		}
		inside--
		return e
	}, opts...)
	switch {
	case succeeded:
		if err != nil {
			fail("attempt %d succeeded, DoWithRetry returned %v", attempts, err)
		}
	case attempts-1 != times:
		fail("%d attempts, all failed, with %d retries", attempts, times)
	case len(errs) == 1:
		if err != errs[0] {
			fail("the only failure was %v, DoWithRetry returned %v", errs[0], err)
		}
	default:
		if err == nil {
			fail("all %d attempts failed, DoWithRetry returned nil", attempts)
			return
		}
		rest := err.Error()
		for i, e := range errs {
			k := strings.Index(rest, e.Error())
			if k < 0 {
				fail("failure %d, %q, is missing or out of order in %q", i+1, e.Error(), err.Error())
				return
			}
			rest = rest[k+len(e.Error()):]
		}
	}
	return
}

func scenarios(tier string) []*vrt.Scenario {
	deep := tier == "thorough"
	maxN, kinds, long := 6, 3, 70
	if deep {
		maxN, kinds, long = 7, 5, 300
	}
	var r []*vrt.Scenario
	r = append(r, vrt.EnumScenarios("patterns", 8, func(c *vrt.Enum) {
		for n := -1; n <= maxN; n++ { // -1: no option, 3 retries
			times := n
			var opts []xtask.RetryOption
			if n < 0 {
				times = 3
			} else {
				opts = append(opts, xtask.WithRetry(n))
			}
			var rec func(p []int)
			rec = func(p []int) {
				done := len(p) == times+1 || len(p) > 0 && p[len(p)-1] == 0
				if !done {
					for k := 0; k <= kinds; k++ {
						rec(append(p[:len(p):len(p)], k))
					}
					return
				}
				if !c.Case("retries", n, "attempts (0 succeeds)", fmt.Sprint(p)) {
					return
				}
				for reuse := 0; reuse < 2; reuse++ { // the same options again: calls are independent
					c.Eval()
					run(c.Fail, times, opts, func(i int) int {
						if i < len(p) {
							return p[i]
						}
						return 0
					}, nil)
				}
			}
			rec(nil)
		}
		// options: the last one counts
		for a := 0; a <= 4; a++ {
			for b := 0; b <= 4; b++ {
				for d := -1; d <= 4; d++ {
					for ok := 0; ok <= 6; ok++ {
						if !c.Case("options", a, b, d, "first success", ok) {
							continue
						}
						opts := []xtask.RetryOption{xtask.WithRetry(a), xtask.WithRetry(b)}
						times := b
						if d >= 0 {
							opts = append(opts, xtask.WithRetry(d))
							times = d
						}
						run(c.Fail, times, opts, func(i int) int {
							if i == ok {
								return 0
							}
							return 1
						}, nil)
					}
				}
			}
		}
		// many retries, the first success anywhere
		for n := 0; n <= long; n++ {
			for ok := 0; ok <= n+1; ok++ {
				for k := 1; k <= 5; k += 2 {
					if !c.Case("retries", n, "first success", ok, "kind of failure", k) {
						continue
					}
					run(c.Fail, n, []xtask.RetryOption{xtask.WithRetry(n)}, func(i int) int {
						if i == ok {
							return 0
						}
						return k
					}, nil)
				}
			}
		}
		// numbers of retries that no loop gets to the end of
		for _, n := range []int{1<<24 + 1, 1<<31 - 1, 1 << 31, 1<<31 + 3, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 33, 1 << 53, 1 << 62, math.MaxInt - 1, math.MaxInt} {
			for _, ok := range []int{0, 1, 2, 3, 4, 5, 20, 300, 5000} {
				if c.Case("retries", n, "first success", ok) {
					run(c.Fail, n, []xtask.RetryOption{xtask.WithRetry(1), xtask.WithRetry(n)}, func(i int) int {
						if i == ok {
							return 0
						}
						return 1
					}, nil)
				}
			}
		}
		for _, n := range []int{1000, 1023, 1024, 5000, 32767, 32769, 65535, 65536, 65537, 70000} {
			last := []int{0, n - 1, n, n + 1}
			if n > 5000 {
				last = []int{0, 1, 300, 2000, 5000} // the code may take quadratic time over the failures
			}
			for _, ok := range last {
				if c.Case("retries", n, "first success", ok) {
					run(c.Fail, n, []xtask.RetryOption{xtask.WithRetry(n)}, func(i int) int {
						if i == ok {
							return 0
						}
						return 1
					}, nil)
				}
			}
		}
	})...)
	// under the scheduler: attempts that yield, and two independent calls at a time
	for n := 0; n <= 3; n++ {
		for m := -1; m <= 2; m++ {
			n, m := n, m
			r = append(r, &vrt.Scenario{Name: fmt.Sprintf("calls with %d and %d retries", n, m), Bounds: []int{-1}, Body: func(x *vrt.X) {
				for i, k := range []int{n, m} {
					if k < 0 {
						continue
					}
					k := k
					ok := x.Choose(k + 2)
					x.Go(fmt.Sprint("caller", i), func() {
						run(x.Fail, k, []xtask.RetryOption{xtask.WithRetry(k)}, func(i int) int {
							if i == ok {
								return 0
							}
							return 1
						}, x.Step)
					})
				}
				x.AtEnd(func(e *vrt.End) { e.NoBlocked() })
			}})
		}
	}
	return r
}
