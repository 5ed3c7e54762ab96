// Package simctx stands in for package context.
package simctx

import (
	"context"
	"errors"
	"fmt"
	"time"
	"unsafe"

	"simverif/simrt"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

type ctx struct {
	parent   Context
	done     chan struct{}
	err      error
	cause    error
	deadline time.Time
	has      bool
	kids     []*ctx
	key, val any
	stop     func()
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.has {
		return c.deadline, true
	}
	return c.parent.Deadline()
}

func (c *ctx) Done() <-chan struct{} {
	if c.done == nil {
		return c.parent.Done()
	}
	return c.done
}

func (c *ctx) Err() error {
	simrt.SP()
	if c.done == nil {
		return c.parent.Err()
	}
	if c.err != nil {
		simrt.Acq(unsafe.Pointer(c))
	}
	return c.err
}

func (c *ctx) Value(k any) any {
	if c.key != nil && c.key == k {
		return c.val
	}
	return c.parent.Value(k)
}

func (c *ctx) String() string { return fmt.Sprintf("simctx %p", c) }

func root(p Context) *ctx {
	for {
		c, ok := p.(*ctx)
		if !ok {
			return nil
		}
		if c.done != nil {
			return c
		}
		p = c.parent
	}
}

func newCtx(parent Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{parent: parent, done: make(chan struct{})}
	if p := root(parent); p != nil {
		if p.err != nil {
			c.finish(p.err, p.cause)
		} else {
			p.kids = append(p.kids, c)
		}
	}
	return c
}

func (c *ctx) finish(err, cause error) {
	if c.err != nil {
		return
	}
	simrt.Rel(unsafe.Pointer(c))
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	if c.stop != nil {
		c.stop()
	}
	simrt.CloseEvent(c.done)
	for _, k := range c.kids {
		k.finish(err, cause)
	}
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newCtx(parent)
	return c, func() { simrt.SP(); c.finish(context.Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newCtx(parent)
	return c, func(e error) { simrt.SP(); c.finish(context.Canceled, e) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	c := newCtx(parent)
	c.deadline, c.has = d, true
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		c.deadline = pd
	}
	if c.err == nil {
		c.stop = simrt.At(simrt.Now()+int64(d.Sub(simrt.WallNow())), func() { c.finish(context.DeadlineExceeded, nil) })
	}
	return c, func() { simrt.SP(); c.finish(context.Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, simrt.WallNow().Add(d))
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	return WithDeadline(parent, d)
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithTimeout(parent, d)
}

func WithValue(parent Context, k, v any) Context { return &ctx{parent: parent, key: k, val: v} }

func Cause(c Context) error {
	if r := root(c); r != nil {
		return r.cause
	}
	return c.Err()
}

func AfterFunc(c Context, f func()) (stop func() bool) {
	stopped, ran := false, false
	simrt.Go(func() {
		simrt.Recv(c.Done())
		if !stopped {
			ran = true
			f()
		}
	})
	return func() bool {
		was := !stopped && !ran
		stopped = true
		return was
	}
}

func WithoutCancel(parent Context) Context { return context.WithoutCancel(parent) }

var _ = errors.New
