// Package scontext replaces package context in the instrumented build: deadlines
// are the simulator's and cancellation is a simulated event.
package scontext

import (
	"context"
	"time"

	sim "github.com/adamcolton/parlex/zzsim"
	"github.com/adamcolton/parlex/zzsim/ssync"
	"github.com/adamcolton/parlex/zzsim/stime"
)

type (
	Context         = context.Context
	CancelFunc      = context.CancelFunc
	CancelCauseFunc = context.CancelCauseFunc
)

var (
	Canceled         = context.Canceled
	DeadlineExceeded = context.DeadlineExceeded
)

func Background() Context                       { return context.Background() }
func TODO() Context                             { return context.TODO() }
func WithValue(p Context, key, val any) Context { return context.WithValue(p, key, val) }
func WithoutCancel(p Context) Context           { return context.WithoutCancel(p) }

type key struct{}

type ctx struct {
	Context // the parent
	mu      ssync.Mutex
	done    chan struct{}
	err     error
	cause   error
	kids    []func(err, cause error)
	end     time.Time
	hasEnd  bool
	timer   *stime.Timer
}

func (c *ctx) Done() <-chan struct{} { return c.done }
func (c *ctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *ctx) Deadline() (time.Time, bool) {
	if c.hasEnd {
		return c.end, true
	}
	return c.Context.Deadline()
}
func (c *ctx) Value(k any) any {
	if k == (key{}) {
		return c
	}
	return c.Context.Value(k)
}

func (c *ctx) cancel(err, cause error) bool {
	c.mu.Lock()
	if c.err != nil {
		c.mu.Unlock()
		return false
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	kids := c.kids
	c.kids = nil
	c.mu.Unlock()
	if c.timer != nil {
		c.timer.Stop()
	}
	sim.CloseCh(c.done)
	for _, k := range kids {
		k(err, cause)
	}
	return true
}

func (c *ctx) child(f func(err, cause error)) {
	c.mu.Lock()
	if c.err == nil {
		c.kids = append(c.kids, f)
		c.mu.Unlock()
		return
	}
	err, cause := c.err, c.cause
	c.mu.Unlock()
	f(err, cause)
}

func derive(parent Context) *ctx {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &ctx{Context: parent, done: make(chan struct{})}
	if p, ok := parent.Value(key{}).(*ctx); ok && parent.Done() == p.done {
		p.child(func(err, cause error) { c.cancel(err, cause) })
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := derive(parent)
	return c, func() { c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := derive(parent)
	return c, func(cause error) { c.cancel(Canceled, cause) }
}

func WithDeadline(parent Context, d time.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithDeadlineCause(parent Context, d time.Time, cause error) (Context, CancelFunc) {
	c := derive(parent)
	if cur, ok := parent.Deadline(); ok && cur.Before(d) {
		return c, func() { c.cancel(Canceled, nil) }
	}
	c.end, c.hasEnd = d, true
	wait := stime.Until(d)
	if wait <= 0 {
		c.cancel(DeadlineExceeded, cause)
		return c, func() {}
	}
	if c.err == nil {
		c.timer = stime.AfterFunc(wait, func() { c.cancel(DeadlineExceeded, cause) })
	}
	return c, func() { c.cancel(Canceled, nil) }
}

func WithTimeout(parent Context, d time.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, stime.Now().Add(d))
}

func WithTimeoutCause(parent Context, d time.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, stime.Now().Add(d), cause)
}

func AfterFunc(parent Context, f func()) (stop func() bool) {
	var mu ssync.Mutex
	state := 0
	run := func(error, error) {
		mu.Lock()
		if state != 0 {
			mu.Unlock()
			return
		}
		state = 1
		mu.Unlock()
		sim.Go(f, 0)
	}
	if p, ok := parent.Value(key{}).(*ctx); ok && parent.Done() == p.done {
		p.child(run)
	}
	return func() bool {
		mu.Lock()
		defer mu.Unlock()
		if state != 0 {
			return false
		}
		state = 2
		return true
	}
}

func Cause(c Context) error {
	if p, ok := c.Value(key{}).(*ctx); ok && c.Done() == p.done {
		p.mu.Lock()
		err := p.cause
		p.mu.Unlock()
		if err != nil {
			return err
		}
	}
	return c.Err()
}
