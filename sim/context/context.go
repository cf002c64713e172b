// Package context has contexts whose timers and channels are simulated.
package context

import (
	rt "context"
	"time"

	"github.com/teamlint/baron/zz_sim/k"
)

type (
	Context         = rt.Context
	CancelFunc      = rt.CancelFunc
	CancelCauseFunc = rt.CancelCauseFunc
)

type node struct {
	parent   rt.Context
	done     chan struct{}
	err      error
	cause    error
	children []*node
	deadline time.Time
	has      bool
	stop     func() bool
}

type key int

var me key

func (n *node) Deadline() (time.Time, bool) {
	if n.has {
		return n.deadline, true
	}
	return n.parent.Deadline()
}
func (n *node) Done() <-chan struct{} { return n.done }
func (n *node) Err() error            { return n.err }
func (n *node) Value(v interface{}) interface{} {
	if v == &me {
		return n
	}
	return n.parent.Value(v)
}

func (n *node) cancel(err, cause error) {
	if n.err != nil {
		return
	}
	n.err, n.cause = err, cause
	if n.stop != nil {
		n.stop()
	}
	close(n.done)
	if k.Cur != nil {
		k.CloseNow[struct{}](k.Cur, n.done)
	}
	for _, c := range append([]*node(nil), n.children...) {
		c.cancel(err, cause)
	}
	n.children = nil
	if p, ok := n.parent.Value(&me).(*node); ok {
		for i, c := range p.children {
			if c == n {
				p.children = append(p.children[:i:i], p.children[i+1:]...)
				break
			}
		}
	}
}

func newNode(parent rt.Context) *node {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	n := &node{parent: parent, done: make(chan struct{})}
	if p, ok := parent.Value(&me).(*node); ok {
		if p.err != nil {
			n.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, n)
		}
	} else if err := parent.Err(); err != nil {
		n.cancel(err, err)
	}
	return n
}

// WithCancel makes a context that can be cancelled.
func WithCancel(parent rt.Context) (rt.Context, rt.CancelFunc) {
	n := newNode(parent)
	return n, func() { n.cancel(rt.Canceled, rt.Canceled) }
}

// WithCancelCause makes a context that can be cancelled with a cause.
func WithCancelCause(parent rt.Context) (rt.Context, rt.CancelCauseFunc) {
	n := newNode(parent)
	return n, func(c error) {
		if c == nil {
			c = rt.Canceled
		}
		n.cancel(rt.Canceled, c)
	}
}

// WithDeadline makes a context that ends at a simulated time.
func WithDeadline(parent rt.Context, d time.Time) (rt.Context, rt.CancelFunc) {
	n := newNode(parent)
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		return n, func() { n.cancel(rt.Canceled, rt.Canceled) }
	}
	n.deadline, n.has = d, true
	if n.err == nil && k.Cur != nil {
		n.stop = k.Cur.AddTimer(d.Sub(k.Cur.Peek()), func() { n.cancel(rt.DeadlineExceeded, rt.DeadlineExceeded) })
	}
	return n, func() { n.cancel(rt.Canceled, rt.Canceled) }
}

// WithTimeout makes a context that ends after a simulated time.
func WithTimeout(parent rt.Context, d time.Duration) (rt.Context, rt.CancelFunc) {
	return WithDeadline(parent, k.Cur.Peek().Add(d))
}

// Cause says why a context ended.
func Cause(c rt.Context) error {
	if n, ok := c.Value(&me).(*node); ok {
		return n.cause
	}
	return rt.Cause(c)
}

// WithTimeoutCause and WithDeadlineCause say why time was up.
func WithTimeoutCause(parent rt.Context, d time.Duration, cause error) (rt.Context, rt.CancelFunc) {
	return WithDeadlineCause(parent, k.Cur.Peek().Add(d), cause)
}

func WithDeadlineCause(parent rt.Context, d time.Time, cause error) (rt.Context, rt.CancelFunc) {
	n := newNode(parent)
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		return n, func() { n.cancel(rt.Canceled, rt.Canceled) }
	}
	n.deadline, n.has = d, true
	if n.err == nil && k.Cur != nil {
		n.stop = k.Cur.AddTimer(d.Sub(k.Cur.Peek()), func() { n.cancel(rt.DeadlineExceeded, cause) })
	}
	return n, func() { n.cancel(rt.Canceled, rt.Canceled) }
}

// AfterFunc calls f in a goroutine once ctx has ended.
func AfterFunc(ctx rt.Context, f func()) (stop func() bool) {
	off, begun := false, false
	k.Go(func() {
		k.Wait(func() bool { return ctx.Err() == nil && !off })
		if !off {
			begun = true
			f()
		}
	})
	return func() bool {
		first := !off && !begun
		off = true
		return first
	}
}
