package litmus

import (
	"context"
	"sync"
	"sync/atomic"
)

// Plain is a program on plain memory: Racy says whether two accesses are unordered in some execution.
type Plain struct {
	Name string
	Racy bool
	Run  func()
}

// PlainPrograms lists them; each ordered one has a racy counterpart.
func PlainPrograms() []Plain {
	return []Plain{
		{"two writers", true, func() { x := 0; par(func() { x = 1 }, func() { x = 2 }); _ = x }},
		{"two readers", false, func() { x, s := 1, [2]int{}; par(func() { s[0] = x }, func() { s[1] = x }) }},
		{"a map written by two", true, func() { m := map[int]int{}; par(func() { m[1] = 1 }, func() { m[2] = 2 }) }},
		{"under a mutex", false, func() {
			var m sync.Mutex
			x := 0
			f := func() { m.Lock(); x++; m.Unlock() }
			par(f, f)
		}},
		{"one of two forgets the mutex", true, func() {
			var m sync.Mutex
			x := 0
			par(func() { m.Lock(); x++; m.Unlock() }, func() { x++ })
		}},
		{"two mutexes", true, func() {
			var m, n sync.Mutex
			x := 0
			par(func() { m.Lock(); x++; m.Unlock() }, func() { n.Lock(); x++; n.Unlock() })
		}},
		{"read lock around reads", false, func() {
			var m sync.RWMutex
			x, s := 0, [2]int{}
			par(func() { m.Lock(); x++; m.Unlock() }, func() { m.RLock(); s[0] = x; m.RUnlock() }, func() { m.RLock(); s[1] = x; m.RUnlock() })
		}},
		{"read lock around writes", true, func() {
			var m sync.RWMutex
			x := 0
			f := func() { m.RLock(); x++; m.RUnlock() }
			par(f, f)
		}},
		{"published by an atomic", false, func() {
			var f int32
			x := 0
			par(func() { x = 1; atomic.StoreInt32(&f, 1) }, func() {
				if atomic.LoadInt32(&f) == 1 {
					x++
				}
			})
		}},
		{"published too early", true, func() {
			var f int32
			x := 0
			par(func() { atomic.StoreInt32(&f, 1); x = 1 }, func() {
				if atomic.LoadInt32(&f) == 1 {
					x++
				}
			})
		}},
		{"a lock made of compare and swap", false, func() {
			var f int32
			x := 0
			g := func() {
				if atomic.CompareAndSwapInt32(&f, 0, 1) {
					x++
					atomic.StoreInt32(&f, 0)
				}
			}
			par(g, g)
		}},
		{"released before the write", true, func() {
			var f int32
			x := 0
			g := func() {
				if atomic.CompareAndSwapInt32(&f, 0, 1) {
					atomic.StoreInt32(&f, 0)
					x++
				}
			}
			par(g, g)
		}},
		{"through an unbuffered channel", false, func() {
			c := make(chan int)
			x := 0
			par(func() { x = 1; c <- 0 }, func() { <-c; x++ })
		}},
		{"back through an unbuffered channel", false, func() {
			c := make(chan int)
			x := 0
			par(func() { c <- 0; x++ }, func() { x = 1; <-c })
		}},
		{"back through a buffered channel", true, func() {
			c := make(chan int, 1)
			x := 0
			par(func() { c <- 0; x++ }, func() { x = 1; <-c })
		}},
		{"a full buffer orders back", false, func() {
			c := make(chan int, 1)
			x := 0
			par(func() { c <- 0; c <- 0; x++ }, func() { x = 1; <-c; <-c })
		}},
		{"a channel as a semaphore of one", false, func() {
			c := make(chan int, 1)
			x := 0
			f := func() { c <- 0; x++; <-c }
			par(f, f)
		}},
		{"a channel as a semaphore of two", true, func() {
			c := make(chan int, 2)
			x := 0
			f := func() { c <- 0; x++; <-c }
			par(f, f)
		}},
		{"after close", false, func() {
			c := make(chan int)
			x := 0
			par(func() { x = 1; close(c) }, func() { <-c; x++ })
		}},
		{"before close", true, func() {
			c := make(chan int)
			x := 0
			par(func() { close(c); x = 1 }, func() { <-c; x++ })
		}},
		{"select with default", true, func() {
			c := make(chan int, 1)
			x := 0
			par(func() { x = 1; c <- 0 }, func() {
				select {
				case <-c:
				default:
				}
				x++
			})
		}},
		{"once", false, func() {
			var o sync.Once
			x, s := 0, [2]int{}
			par(func() { o.Do(func() { x = 1 }); s[0] = x }, func() { o.Do(func() { x = 1 }); s[1] = x })
		}},
		{"beside once", true, func() {
			var o sync.Once
			x := 0
			par(func() { o.Do(func() { x = 1 }) }, func() { x++ })
		}},
		{"wait group", false, func() {
			var wg sync.WaitGroup
			x := 0
			wg.Add(1)
			go func() { x = 1; wg.Done() }()
			wg.Wait()
			x++
		}},
		{"done too early", true, func() {
			var wg sync.WaitGroup
			x := 0
			wg.Add(1)
			go func() { wg.Done(); x = 1 }()
			wg.Wait()
			x++
		}},
		{"what started before go", false, func() {
			x := 1
			c := make(chan int)
			go func() { x++; close(c) }()
			<-c
		}},
		{"what comes after go", true, func() {
			x := 1
			c := make(chan int)
			go func() { x++; close(c) }()
			x++
			<-c
		}},
		{"cancel", false, func() {
			ctx, cancel := context.WithCancel(context.Background())
			x := 0
			par(func() { x = 1; cancel() }, func() { <-ctx.Done(); x++ })
		}},
		{"after cancel", true, func() {
			ctx, cancel := context.WithCancel(context.Background())
			x := 0
			par(func() { cancel(); x = 1 }, func() { <-ctx.Done(); x++ })
		}},
		{"condition", false, func() {
			var m sync.Mutex
			c := sync.NewCond(&m)
			x := 0
			par(func() {
				m.Lock()
				for x == 0 {
					c.Wait()
				}
				x++
				m.Unlock()
			}, func() { m.Lock(); x = 1; m.Unlock(); c.Broadcast() })
		}},
		{"pool", false, func() {
			var p sync.Pool
			par(func() { x := new(int); *x = 1; p.Put(x) }, func() {
				if x, ok := p.Get().(*int); ok {
					*x = 2
				}
			})
		}},
		{"used after it was put back", true, func() {
			var p sync.Pool
			par(func() { x := new(int); p.Put(x); *x = 1 }, func() {
				if x, ok := p.Get().(*int); ok {
					*x = 2
				}
			})
		}},
		{"atomic.Value", false, func() {
			var v atomic.Value
			par(func() { x := new(int); *x = 1; v.Store(x) }, func() {
				if x, ok := v.Load().(*int); ok {
					*x = 2
				}
			})
		}},
	}
}
