// Package ants models github.com/panjf2000/ants/v2 on the controlled runtime: a pool
// runs every submitted task on its own thread; a bounded pool blocks (or refuses, when
// non-blocking) while all its workers are busy; panics of tasks are recovered as the
// real workers recover them.
package ants

import (
	"errors"
	"fmt"
	"time"

	"github.com/chenquan/go-pkg/zverif/vrt"
)

var (
	ErrLackPoolFunc          = errors.New("must provide function for pool")
	ErrInvalidPoolExpiry     = errors.New("invalid expiry for pool")
	ErrPoolClosed            = errors.New("this pool has been closed")
	ErrPoolOverload          = errors.New("too many goroutines blocked on submit or Nonblocking is set")
	ErrInvalidPreAllocSize   = errors.New("can not set up a negative capacity under PreAlloc mode")
	ErrTimeout               = errors.New("operation timed out")
	DefaultAntsPoolSize      = 1<<31 - 1
	DefaultCleanIntervalTime = time.Second
	_                        = fmt.Sprint
)

// Logger is used for logging formatted messages.
type Logger interface {
	Printf(format string, args ...interface{})
}

// Options of a pool.
type Options struct {
	ExpiryDuration   time.Duration
	PreAlloc         bool
	MaxBlockingTasks int
	Nonblocking      bool
	PanicHandler     func(interface{})
	Logger           Logger
	DisablePurge     bool
}

// Option sets options.
type Option func(opts *Options)

func WithOptions(options Options) Option { return func(o *Options) { *o = options } }
func WithExpiryDuration(d time.Duration) Option {
	return func(o *Options) { o.ExpiryDuration = d }
}
func WithPreAlloc(b bool) Option { return func(o *Options) { o.PreAlloc = b } }
func WithMaxBlockingTasks(n int) Option {
	return func(o *Options) { o.MaxBlockingTasks = n }
}
func WithNonblocking(b bool) Option { return func(o *Options) { o.Nonblocking = b } }
func WithPanicHandler(f func(interface{})) Option {
	return func(o *Options) { o.PanicHandler = f }
}
func WithLogger(l Logger) Option { return func(o *Options) { o.Logger = l } }

// Pool accepts tasks.
type Pool struct {
	opt     Options
	mu      vrt.Mutex
	cond    *vrt.Cond
	cap     int // <=0: unlimited
	running int
	waiting int
	closed  bool
}

// NewPool creates a pool; size <= 0 means unlimited.
func NewPool(size int, options ...Option) (*Pool, error) {
	p := &Pool{}
	for _, o := range options {
		o(&p.opt)
	}
	if p.opt.ExpiryDuration < 0 {
		return nil, ErrInvalidPoolExpiry
	}
	if size <= 0 {
		size = -1
	}
	if p.opt.PreAlloc && size == -1 {
		return nil, ErrInvalidPreAllocSize
	}
	p.cap = size
	p.cond = vrt.NewCond(&p.mu)
	return p, nil
}

// Submit runs a task on a worker.
func (p *Pool) Submit(task func()) error {
	if p.closed {
		return ErrPoolClosed
	}
	if p.cap <= 0 {
		vrt.Go("ants worker", func() {
			defer func() {
				if r := recover(); r != nil {
					p.handle(r)
				}
			}()
			task()
		})
		return nil
	}
	p.mu.Lock()
	for p.cap > 0 && p.running >= p.cap {
		if p.opt.Nonblocking || (p.opt.MaxBlockingTasks != 0 && p.waiting >= p.opt.MaxBlockingTasks) {
			p.mu.Unlock()
			return ErrPoolOverload
		}
		p.waiting++
		p.cond.Wait()
		p.waiting--
		if p.closed {
			p.mu.Unlock()
			return ErrPoolClosed
		}
	}
	p.running++
	p.mu.Unlock()
	vrt.Go("ants worker", func() {
		defer func() {
			r := recover()
			p.mu.Lock()
			p.running--
			p.cond.Signal()
			p.mu.Unlock()
			if r != nil {
				p.handle(r)
			}
		}()
		task()
	})
	return nil
}

func (p *Pool) handle(r interface{}) {
	if h := p.opt.PanicHandler; h != nil {
		h(r)
	}
}

// Release closes the pool.
func (p *Pool) Release() {
	p.mu.Lock()
	p.closed = true
	p.cond.Broadcast()
	p.mu.Unlock()
}

// ReleaseTimeout closes the pool.
func (p *Pool) ReleaseTimeout(time.Duration) error { p.Release(); return nil }

// Reboot reopens the pool.
func (p *Pool) Reboot() {
	p.mu.Lock()
	p.closed = false
	p.mu.Unlock()
}

// IsClosed reports whether the pool was closed.
func (p *Pool) IsClosed() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.closed
}

// Running is the number of busy workers (bounded pools only).
func (p *Pool) Running() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.running
}

// Waiting is the number of blocked submitters.
func (p *Pool) Waiting() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.waiting
}

// Free is the number of idle workers, -1 for an unlimited pool.
func (p *Pool) Free() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.cap <= 0 {
		return -1
	}
	return p.cap - p.running
}

// Cap is the capacity.
func (p *Pool) Cap() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.cap
}

// Tune changes the capacity of a bounded pool.
func (p *Pool) Tune(size int) {
	p.mu.Lock()
	if p.cap > 0 && size > 0 {
		p.cap = size
		p.cond.Broadcast()
	}
	p.mu.Unlock()
}

var defaultPool *Pool

func def() *Pool {
	if defaultPool == nil {
		defaultPool, _ = NewPool(DefaultAntsPoolSize)
	}
	return defaultPool
}

// Submit runs a task on the default pool.
func Submit(task func()) error { return def().Submit(task) }

// Running is the number of busy workers of the default pool.
func Running() int { return def().Running() }

// Cap is the capacity of the default pool.
func Cap() int { return def().Cap() }

// Free is the number of idle workers of the default pool.
func Free() int { return def().Free() }

// Release closes the default pool.
func Release() { def().Release() }
