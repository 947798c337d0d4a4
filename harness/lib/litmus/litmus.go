// Package litmus has small programs whose possible outcomes are known from the language
// specification, the memory model and the library's documentation. Under the controlled runtime
// they must show exactly these outcomes; under the real runtime (litmus_real.go) nothing else.
package litmus

import (
	"context"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Prog is one program.
type Prog struct {
	Name string
	Want []string
	Run  func() string
}

// par runs the functions at the same time and waits for them.
func par(fs ...func()) {
	var wg sync.WaitGroup
	for _, f := range fs {
		f := f
		wg.Add(1)
		go func() {
			defer wg.Done()
			f()
		}()
	}
	wg.Wait()
}

func b(v bool) int {
	if v {
		return 1
	}
	return 0
}

func panics(f func()) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = strings.TrimPrefix(fmt.Sprint(r), "sync: ")
		}
	}()
	f()
	return "none"
}

// interleavings of two sequences of n operations, as "aabb" and so on
func mixes(n, m int) (r []string) {
	if n == 0 || m == 0 {
		return []string{strings.Repeat("a", n) + strings.Repeat("b", m)}
	}
	for _, s := range mixes(n-1, m) {
		r = append(r, "a"+s)
	}
	for _, s := range mixes(n, m-1) {
		r = append(r, "b"+s)
	}
	return
}

// Programs lists them.
func Programs() []Prog {
	return []Prog{
		{"store buffering", []string{"01", "10", "11"}, func() string {
			var x, y, p, q int32
			par(func() { atomic.StoreInt32(&x, 1); p = atomic.LoadInt32(&y) }, func() { atomic.StoreInt32(&y, 1); q = atomic.LoadInt32(&x) })
			return fmt.Sprintf("%d%d", p, q)
		}},
		{"message passing", []string{"00", "01", "11"}, func() string {
			var x, f int32
			var p, q int32
			par(func() { atomic.StoreInt32(&x, 1); atomic.StoreInt32(&f, 1) }, func() { p = atomic.LoadInt32(&f); q = atomic.LoadInt32(&x) })
			return fmt.Sprintf("%d%d", p, q)
		}},
		{"independent reads of independent writes", []string{"0000", "0001", "0010", "0011", "0100", "0101", "0110", "0111", "1000", "1001", "1011", "1100", "1101", "1110", "1111"}, func() string {
			var x, y int32
			var p [4]int32
			par(func() { atomic.StoreInt32(&x, 1) }, func() { atomic.StoreInt32(&y, 1) },
				func() { p[0] = atomic.LoadInt32(&x); p[1] = atomic.LoadInt32(&y) },
				func() { p[2] = atomic.LoadInt32(&y); p[3] = atomic.LoadInt32(&x) })
			return fmt.Sprintf("%d%d%d%d", p[0], p[1], p[2], p[3]) // 1010 would need two orders of the writes
		}},
		{"lost update", []string{"1", "2"}, func() string {
			var x int32
			inc := func() { atomic.StoreInt32(&x, atomic.LoadInt32(&x)+1) }
			par(inc, inc)
			return fmt.Sprint(x)
		}},
		{"atomic add", []string{"3"}, func() string {
			var x int32
			inc := func() { atomic.AddInt32(&x, 1) }
			par(inc, inc, inc)
			return fmt.Sprint(x)
		}},
		{"compare and swap", []string{"01", "10"}, func() string {
			var x int32
			var p, q bool
			par(func() { p = atomic.CompareAndSwapInt32(&x, 0, 1) }, func() { q = atomic.CompareAndSwapInt32(&x, 0, 2) })
			return fmt.Sprintf("%d%d", b(p), b(q))
		}},
		{"swap", []string{"02/1", "10/2"}, func() string { // the first swapper gets 0
			var x, p, q int32
			par(func() { p = atomic.SwapInt32(&x, 1) }, func() { q = atomic.SwapInt32(&x, 2) })
			return fmt.Sprintf("%d%d/%d", q, p, x)
		}},
		{"atomic.Value", []string{"none", "inconsistent"}, func() string {
			var v atomic.Value
			r := "none"
			par(func() { panics(func() { v.CompareAndSwap(nil, 1) }) }, func() {
				if strings.Contains(panics(func() { v.Store("a") }), "inconsistent") {
					r = "inconsistent"
				}
			})
			if r == "none" && v.Load() != "a" {
				return "lost"
			}
			return r
		}},
		{"order of sends", mixes(2, 2), func() string {
			c := make(chan string, 4)
			par(func() { c <- "a"; c <- "a" }, func() { c <- "b"; c <- "b" })
			return <-c + <-c + <-c + <-c
		}},
		{"order of rendezvous", mixes(2, 2), func() string {
			c := make(chan string)
			s := ""
			par(func() { c <- "a"; c <- "a" }, func() { c <- "b"; c <- "b" }, func() { s = <-c + <-c + <-c + <-c })
			return s
		}},
		{"two receivers", []string{"1-2", "2-1"}, func() string {
			c := make(chan int, 2)
			c <- 1
			c <- 2
			var p, q int
			par(func() { p = <-c }, func() { q = <-c })
			return fmt.Sprintf("%d-%d", p, q)
		}},
		{"rendezvous synchronises", []string{"11"}, func() string {
			c := make(chan int)
			var x, y, p, q int32
			par(func() { atomic.StoreInt32(&x, 1); c <- 0; p = atomic.LoadInt32(&y) },
				func() { atomic.StoreInt32(&y, 1); <-c; q = atomic.LoadInt32(&x) })
			return fmt.Sprintf("%d%d", p, q)
		}},
		{"buffered send does not wait", []string{"01", "11"}, func() string {
			c := make(chan int, 1)
			var x, y, p, q int32
			par(func() { atomic.StoreInt32(&x, 1); c <- 0; p = atomic.LoadInt32(&y) },
				func() { atomic.StoreInt32(&y, 1); <-c; q = atomic.LoadInt32(&x) })
			return fmt.Sprintf("%d%d", p, q)
		}},
		{"second buffered send waits for the first receive", []string{"1"}, func() string {
			c := make(chan int, 1)
			var y, p int32
			par(func() { c <- 0; c <- 0; p = atomic.LoadInt32(&y) }, func() { atomic.StoreInt32(&y, 1); <-c; <-c })
			return fmt.Sprint(p)
		}},
		{"close then receive", []string{"1 true 0 false"}, func() string {
			c := make(chan int, 1)
			s := ""
			par(func() { c <- 1; close(c) }, func() { v, ok := <-c; s = fmt.Sprint(v, ok); v, ok = <-c; s += " " + fmt.Sprint(v, ok) })
			return s
		}},
		{"close wakes all", []string{"3"}, func() string {
			c := make(chan int)
			var n int32
			w := func() { <-c; atomic.AddInt32(&n, 1) }
			par(w, w, w, func() { close(c) })
			return fmt.Sprint(n)
		}},
		{"send and close", []string{"none 1", "send on closed channel 0"}, func() string {
			c := make(chan int, 1)
			s := ""
			par(func() { s = panics(func() { c <- 1 }) }, func() { close(c) })
			return fmt.Sprint(s, " ", <-c)
		}},
		{"close wakes a sender", []string{"send on closed channel"}, func() string {
			c := make(chan int)
			s := ""
			par(func() { s = panics(func() { c <- 1 }) }, func() { close(c) })
			return s
		}},
		{"close twice", []string{"none/close of closed channel", "close of closed channel/none"}, func() string {
			c := make(chan int)
			var p, q string
			par(func() { p = panics(func() { close(c) }) }, func() { q = panics(func() { close(c) }) })
			return p + "/" + q
		}},
		{"close of nil", []string{"close of nil channel"}, func() string {
			var c chan int
			return panics(func() { close(c) })
		}},
		{"select picks any ready case", []string{"a", "b", "c"}, func() string {
			x, y, z := make(chan int, 1), make(chan int, 1), make(chan int)
			x <- 1
			close(z)
			select {
			case <-x:
				return "a"
			case y <- 1:
				return "b"
			case <-z:
				return "c"
			}
		}},
		{"select default", []string{"got", "default"}, func() string {
			c := make(chan int, 1)
			s := ""
			par(func() { c <- 1 }, func() {
				select {
				case <-c:
					s = "got"
				default:
					s = "default"
				}
			})
			return s
		}},
		{"select default with a rendezvous", []string{"sent 1", "default 0"}, func() string {
			c := make(chan int)
			s := ""
			v := 0
			par(func() { v = <-c }, func() {
				select {
				case c <- 1:
					s = "sent"
				default:
					s = "default"
					close(c)
				}
			})
			return fmt.Sprint(s, " ", v)
		}},
		{"select ignores nil channels", []string{"1"}, func() string {
			var n chan int
			c := make(chan int)
			v := 0
			par(func() {
				select {
				case n <- 1:
				case v = <-n:
				case v = <-c:
				}
			}, func() { c <- 1 })
			return fmt.Sprint(v)
		}},
		{"select does not meet itself", []string{"recv 7"}, func() string {
			c := make(chan int)
			s := ""
			par(func() {
				select {
				case c <- 1:
					s = "sent"
				case v := <-c:
					s = fmt.Sprint("recv ", v)
				}
			}, func() { c <- 7 })
			return s
		}},
		{"two selects meet", []string{"a-b", "b-a"}, func() string {
			c := make(chan string)
			var p, q string
			f := func(me string, to *string) func() {
				return func() {
					select {
					case c <- me:
						*to = me
					case v := <-c:
						*to = v
					}
				}
			}
			par(f("a", &p), f("b", &q))
			if p != q {
				return p + "/" + q
			}
			if p == "a" {
				return "a-b"
			}
			return "b-a"
		}},
		{"select evaluates before waiting", []string{"ab"}, func() string {
			s := ""
			c := make(chan int, 1)
			f := func(n string) chan int { s += n; return c }
			g := func(n string) int { s += n; return 1 }
			select {
			case f("a") <- g("b"):
			}
			return s
		}},
		{"len of a channel", []string{"0", "1", "2"}, func() string {
			c := make(chan int, 2)
			n := 0
			par(func() { c <- 1; c <- 2 }, func() { n = len(c) })
			return fmt.Sprint(n)
		}},
		{"range over a channel", []string{"aab", "aba", "baa"}, func() string {
			c := make(chan string)
			s := ""
			go func() { par(func() { c <- "a"; c <- "a" }, func() { c <- "b" }); close(c) }()
			for v := range c {
				s += v
			}
			return s
		}},
		{"mutex excludes", []string{"2"}, func() string {
			var m sync.Mutex
			var x int32
			inc := func() { m.Lock(); atomic.StoreInt32(&x, atomic.LoadInt32(&x)+1); m.Unlock() }
			par(inc, inc)
			return fmt.Sprint(x)
		}},
		{"TryLock", []string{"free", "held"}, func() string {
			var m sync.Mutex
			s := "held"
			par(func() { m.Lock(); m.Unlock() }, func() {
				if m.TryLock() {
					s = "free"
					m.Unlock()
				}
			})
			return s
		}},
		{"a mutex of one goroutine, unlocked by another", []string{"ok"}, func() string {
			var m sync.Mutex
			m.Lock()
			par(func() { m.Unlock() }, func() { m.Lock() })
			return "ok"
		}},
		{"readers share", []string{"1", "2"}, func() string {
			var m sync.RWMutex
			var in, max int32
			r := func() {
				m.RLock()
				if n := atomic.AddInt32(&in, 1); n > atomic.LoadInt32(&max) {
					atomic.StoreInt32(&max, n)
				}
				atomic.AddInt32(&in, -1)
				m.RUnlock()
			}
			par(r, r)
			return fmt.Sprint(max)
		}},
		{"a writer excludes readers", []string{"0", "2"}, func() string {
			var m sync.RWMutex
			var x, p int32
			par(func() { m.Lock(); atomic.AddInt32(&x, 1); atomic.AddInt32(&x, 1); m.Unlock() }, func() { m.RLock(); p = atomic.LoadInt32(&x); m.RUnlock() })
			return fmt.Sprint(p)
		}},
		{"a waiting writer stops new readers", []string{"new reader before 0", "new reader refused 0"}, func() string {
			var m sync.RWMutex
			m.RLock()
			var x int32
			s := ""
			par(func() { m.Lock(); atomic.StoreInt32(&x, 1); m.Unlock() }, func() {
				if m.TryRLock() {
					s = fmt.Sprint("new reader before ", atomic.LoadInt32(&x))
					m.RUnlock()
				} else {
					s = fmt.Sprint("new reader refused ", atomic.LoadInt32(&x))
				}
				m.RUnlock()
			})
			return s
		}},
		{"once", []string{"1 11"}, func() string {
			var o sync.Once
			var n, p, q int32
			f := func() { atomic.AddInt32(&n, 1) }
			par(func() { o.Do(f); p = atomic.LoadInt32(&n) }, func() { o.Do(f); q = atomic.LoadInt32(&n) })
			return fmt.Sprintf("%d %d%d", n, p, q)
		}},
		{"once with a panic", []string{"x none 1", "none x 1"}, func() string {
			var o sync.Once
			var n int32
			f := func() { atomic.AddInt32(&n, 1); panic("x") }
			var p, q string
			par(func() { p = panics(func() { o.Do(f) }) }, func() { q = panics(func() { o.Do(f) }) })
			return fmt.Sprint(p, " ", q, " ", n)
		}},
		{"wait group", []string{"2"}, func() string {
			var wg sync.WaitGroup
			var x, p int32
			wg.Add(2)
			for i := 0; i < 2; i++ {
				go func() { atomic.AddInt32(&x, 1); wg.Done() }()
			}
			wg.Wait()
			p = atomic.LoadInt32(&x)
			return fmt.Sprint(p)
		}},
		{"wait group reused", []string{"1 2"}, func() string {
			var wg sync.WaitGroup
			var x int32
			s := ""
			for i := 0; i < 2; i++ {
				wg.Add(1)
				go func() { atomic.AddInt32(&x, 1); wg.Done() }()
				wg.Wait()
				s += fmt.Sprint(atomic.LoadInt32(&x)) + " "
			}
			return strings.TrimSpace(s)
		}},
		{"negative wait group", []string{"negative WaitGroup counter"}, func() string {
			var wg sync.WaitGroup
			return panics(func() { wg.Done() })
		}},
		{"condition", []string{"ok"}, func() string {
			var m sync.Mutex
			c := sync.NewCond(&m)
			ready := false
			par(func() {
				m.Lock()
				for !ready {
					c.Wait()
				}
				m.Unlock()
			}, func() { m.Lock(); ready = true; m.Unlock(); c.Signal() })
			return "ok"
		}},
		{"broadcast", []string{"2"}, func() string {
			var m sync.Mutex
			c := sync.NewCond(&m)
			ready, n := false, 0
			w := func() {
				m.Lock()
				for !ready {
					c.Wait()
				}
				n++
				m.Unlock()
			}
			par(w, w, func() { m.Lock(); ready = true; c.Broadcast(); m.Unlock() })
			return fmt.Sprint(n)
		}},
		{"cancel", []string{"<nil>", "context canceled"}, func() string {
			ctx, cancel := context.WithCancel(context.Background())
			var e error
			par(cancel, func() { e = ctx.Err() })
			return fmt.Sprint(e)
		}},
		{"done comes with an error", []string{"context canceled context canceled"}, func() string {
			ctx, cancel := context.WithCancel(context.Background())
			child, c2 := context.WithCancel(context.WithValue(ctx, "k", 1))
			defer c2()
			s := ""
			par(cancel, func() { <-child.Done(); s = fmt.Sprint(child.Err(), " ", ctx.Err()) })
			return s
		}},
		{"a child does not end its parent", []string{"<nil> context canceled"}, func() string {
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			child, c2 := context.WithCancel(ctx)
			c2()
			<-child.Done()
			return fmt.Sprint(ctx.Err(), " ", child.Err())
		}},
		{"deadline or cancel", []string{"context canceled", "context deadline exceeded"}, func() string {
			ctx, cancel := context.WithTimeout(context.Background(), time.Microsecond)
			defer cancel()
			par(cancel, func() { <-ctx.Done() })
			return fmt.Sprint(ctx.Err())
		}},
		{"deadline past", []string{"context deadline exceeded"}, func() string {
			ctx, cancel := context.WithTimeout(context.Background(), -1)
			cancel()
			return fmt.Sprint(ctx.Err())
		}},
		{"timer and channel", []string{"timer", "value"}, func() string {
			c := make(chan int)
			s := ""
			par(func() {
				select {
				case <-time.After(50 * time.Microsecond):
					s = "timer"
					<-c
				case <-c:
					s = "value"
				}
			}, func() { c <- 1 })
			return s
		}},
		{"stopping a timer", []string{"true 0", "false 1"}, func() string {
			var n int32
			done := make(chan int)
			t := time.AfterFunc(20*time.Microsecond, func() { atomic.AddInt32(&n, 1); close(done) })
			runtime.Gosched()
			st := t.Stop()
			if !st {
				<-done
			}
			return fmt.Sprint(st, " ", atomic.LoadInt32(&n))
		}},
		{"pool", []string{"new", "old"}, func() string {
			p := sync.Pool{New: func() any { return "new" }}
			p.Put("old")
			return p.Get().(string)
		}},
		{"pool gives an object once", []string{"new new", "new old"}, func() string {
			p := sync.Pool{New: func() any { return "new" }}
			p.Put("old")
			var r [2]string
			par(func() { r[0] = p.Get().(string) }, func() { r[1] = p.Get().(string) })
			sort.Strings(r[:])
			return r[0] + " " + r[1]
		}},
		{"map order", []string{"12", "21"}, func() string {
			s := ""
			for k := range map[int]bool{1: true, 2: true} {
				s += fmt.Sprint(k)
			}
			return s
		}},
		{"yield", []string{"1"}, func() string {
			var x int32
			par(func() { atomic.StoreInt32(&x, 1) }, func() {
				for atomic.LoadInt32(&x) == 0 {
					runtime.Gosched()
				}
			})
			return fmt.Sprint(x)
		}},
		{"dekker with a fallback", []string{"00", "01", "10"}, func() string {
			var x, y, in, p, q int32
			_ = in
			par(func() {
				atomic.StoreInt32(&x, 1)
				if atomic.LoadInt32(&y) == 0 {
					p = 1
				}
			}, func() {
				atomic.StoreInt32(&y, 1)
				if atomic.LoadInt32(&x) == 0 {
					q = 1
				}
			})
			return fmt.Sprintf("%d%d", p, q)
		}},
	}
}
