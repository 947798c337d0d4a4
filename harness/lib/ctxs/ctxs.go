// Package ctxs makes contexts of other kinds than the usual ones.
package ctxs

import (
	"context"
	"time"
)

// far is a context with a deadline that is far away and never comes.
type far struct{ context.Context }

func (far) Deadline() (time.Time, bool) { return time.Now().Add(1000 * time.Hour), true }

// Far gives ctx a deadline that is far away and never comes.
func Far(ctx context.Context) context.Context { return far{ctx} }

// Ended is the error of an Own context that has ended.
type Ended struct{ What string }

func (e *Ended) Error() string { return e.What + " has ended" }

// own is a context that shares nothing with package context.
type own struct {
	done chan struct{}
	err  error
}

func (o *own) Deadline() (time.Time, bool) { return time.Time{}, false }
func (o *own) Done() <-chan struct{}       { return o.done }
func (o *own) Value(interface{}) interface{} {
	return nil
}

func (o *own) Err() error {
	select {
	case <-o.done:
		return o.err
	default:
		return nil
	}
}

// Own returns a context of a type of its own, with an error of its own, and the function that ends it, to be called once.
func Own(what string) (context.Context, context.CancelFunc) {
	o := &own{done: make(chan struct{}), err: &Ended{what}}
	return o, func() { close(o.done) }
}
