// Package scontext stands in for package context.
package scontext

import (
	"context"
	"time"

	"github.com/jart/gosip/zsim/rt"
	"github.com/jart/gosip/zsim/stime"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context { return context.Background() }
func TODO() Context       { return context.TODO() }

type ctx struct {
	parent Context
	done   chan struct{}
	err    error
	dl     time.Time
	hasDl  bool
	kids   []*ctx
	after  []func()
	cause  error
}

func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasDl {
		return c.dl, true
	}
	return c.parent.Deadline()
}
func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error            { return c.err }
func (c *ctx) Value(k any) any       { return c.parent.Value(k) }

func (c *ctx) cancel(err error) {
	if c.err != nil {
		return
	}
	c.err = err
	rt.CloseEvent(c.done)
	for _, k := range c.kids {
		if k.err == nil && k.cause == nil {
			k.cause = c.cause
		}
		k.cancel(err)
	}
	for _, f := range c.after {
		if f != nil {
			rt.Go(f)
		}
	}
}

func mk(parent Context) *ctx {
	c := &ctx{parent: parent, done: make(chan struct{})}
	for p := parent; p != nil; {
		switch x := p.(type) {
		case *ctx:
			if x.err != nil {
				c.cause = x.cause
				c.cancel(x.err)
			} else {
				x.kids = append(x.kids, c)
			}
			return c
		case *valueCtx:
			p = x.Context
		default:
			return c
		}
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := mk(parent)
	return c, func() { c.cancel(Canceled) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, stime.Now().Add(d))
}

func WithDeadline(parent Context, t time.Time) (Context, CancelFunc) {
	c := mk(parent)
	c.dl, c.hasDl = t, true
	tm := rt.After(stime.Until(t), func() { c.cancel(DeadlineExceeded) })
	return c, func() { tm.Stop(); c.cancel(Canceled) }
}

type valueCtx struct {
	Context
	k, v any
}

func (v *valueCtx) Value(k any) any {
	if k == v.k {
		return v.v
	}
	return v.Context.Value(k)
}

func WithValue(parent Context, k, v any) Context { return &valueCtx{parent, k, v} }

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := mk(parent)
	return c, func(cause error) {
		if c.err == nil {
			c.cause = cause
		}
		c.cancel(Canceled)
	}
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, stime.Now().Add(d), cause)
}

func WithDeadlineCause(parent Context, t time.Time, cause error) (Context, CancelFunc) {
	c := mk(parent)
	c.dl, c.hasDl = t, true
	tm := rt.After(stime.Until(t), func() {
		if c.err == nil {
			c.cause = cause
		}
		c.cancel(DeadlineExceeded)
	})
	return c, func() { tm.Stop(); c.cancel(Canceled) }
}

func find(p Context) *ctx {
	for {
		switch x := p.(type) {
		case *ctx:
			return x
		case *valueCtx:
			p = x.Context
		default:
			return nil
		}
	}
}

func Cause(c Context) error {
	if x := find(c); x != nil && x.cause != nil {
		return x.cause
	}
	return c.Err()
}

type without struct{ Context }

func (without) Deadline() (t time.Time, ok bool) { return }
func (without) Done() <-chan struct{}            { return nil }
func (without) Err() error                       { return nil }

func WithoutCancel(parent Context) Context { return without{parent} }

func AfterFunc(c Context, f func()) (stop func() bool) {
	x := find(c)
	if x == nil {
		return func() bool { return true }
	}
	if x.err != nil {
		rt.Go(f)
		return func() bool { return false }
	}
	i := len(x.after)
	x.after = append(x.after, f)
	return func() bool {
		if x.err != nil || x.after[i] == nil {
			return false
		}
		x.after[i] = nil
		return true
	}
}
