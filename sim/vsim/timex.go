package vsim

import (
	"context"
	"time"
)

// ---- time shim back end

type Timer struct {
	C  <-chan time.Time
	c  chan time.Time
	fn func()
	t  *Timer0
	p  *Proc
}

func NewTimer(d time.Duration) *Timer {
	tm := &Timer{c: make(chan time.Time, 1)}
	tm.C = tm.c
	tm.start(d)
	return tm
}

func AfterFunc(d time.Duration, f func()) *Timer {
	tm := &Timer{fn: f}
	tm.start(d)
	return tm
}

func (tm *Timer) start(d time.Duration) {
	if dying() {
		return
	}
	tm.p = CurProc()
	tm.t = S.after(d, func() {
		if tm.p != nil && tm.p.Dead {
			return
		}
		if tm.fn != nil {
			S.spawn(tm.p, "", tm.fn)
			return
		}
		trySend(tm.c, WallNow())
	})
}

func (tm *Timer) Stop() bool {
	if dying() {
		return false
	}
	act := tm.t.cancel()
	tm.drain()
	return act
}

func (tm *Timer) drain() {
	if tm.c != nil && len(tm.c) > 0 {
		<-tm.c // Go 1.23 semantics: no stale value after Stop or Reset
	}
}

func (tm *Timer) Reset(d time.Duration) bool {
	if dying() {
		return false
	}
	act := tm.t.cancel()
	tm.drain()
	tm.start(d)
	return act
}

func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

type Ticker struct {
	C <-chan time.Time
	c chan time.Time
	t *Timer0
	d time.Duration
	p *Proc
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{c: make(chan time.Time, 1), d: d}
	t.C = t.c
	if dying() {
		return t
	}
	t.p = CurProc()
	t.arm()
	return t
}

func (t *Ticker) arm() {
	t.t = S.after(t.d, func() {
		if t.p != nil && t.p.Dead {
			return
		}
		trySend(t.c, WallNow())
		t.arm()
	})
}
func (t *Ticker) Stop() {
	if dying() {
		return
	}
	t.t.cancel()
}
func (t *Ticker) Reset(d time.Duration) {
	if dying() {
		return
	}
	t.t.cancel()
	t.d = d
	t.arm()
}
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

// ---- context shim back end

type ctxImpl struct {
	parent context.Context
	done   chan struct{}
	err    error
	cause  error
	dl     time.Time
	hasDL  bool
	key    any
	val    any
	kids   []*ctxImpl
	t      *Timer0
	bg     bool
	after  []func()
}

var background = &ctxImpl{bg: true}

func Background() context.Context { return background }

func (c *ctxImpl) Deadline() (time.Time, bool) {
	if c.hasDL {
		return c.dl, true
	}
	if c.parent != nil {
		return c.parent.Deadline()
	}
	return time.Time{}, false
}
func (c *ctxImpl) Done() <-chan struct{} {
	if c.done != nil {
		return c.done
	}
	if c.parent != nil {
		return c.parent.Done()
	}
	return nil
}
func (c *ctxImpl) Err() error {
	if c.done != nil {
		return c.err
	}
	if c.parent != nil {
		return c.parent.Err()
	}
	return nil
}
func (c *ctxImpl) Value(k any) any {
	if c.key != nil && c.key == k {
		return c.val
	}
	if c.parent != nil {
		return c.parent.Value(k)
	}
	return nil
}

func (c *ctxImpl) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	c.err = err
	if cause == nil {
		cause = err
	}
	c.cause = cause
	if c.t != nil {
		c.t.cancel()
	}
	doClose(c.done)
	for _, k := range c.kids {
		k.cancel(err, cause)
	}
	for _, f := range c.after {
		f()
	}
}

func nearest(c context.Context) *ctxImpl {
	for c != nil {
		ci, ok := c.(*ctxImpl)
		if !ok {
			return nil
		}
		if ci.done != nil {
			return ci
		}
		c = ci.parent
		if ci.parent == nil {
			return nil
		}
	}
	return nil
}

func newCancel(parent context.Context) *ctxImpl {
	c := &ctxImpl{parent: parent, done: make(chan struct{})}
	if dying() {
		return c
	}
	if n := nearest(parent); n != nil {
		if n.err != nil {
			c.cancel(n.err, n.cause)
		} else {
			n.kids = append(n.kids, c)
		}
	}
	return c
}

func WithCancel(parent context.Context) (context.Context, context.CancelFunc) {
	c := newCancel(parent)
	return c, func() {
		if dying() {
			return
		}
		opYield()
		c.cancel(context.Canceled, nil)
	}
}

func WithCancelCause(parent context.Context) (context.Context, context.CancelCauseFunc) {
	c := newCancel(parent)
	return c, func(e error) {
		if dying() {
			return
		}
		c.cancel(context.Canceled, e)
	}
}

func WithDeadline(parent context.Context, d time.Time) (context.Context, context.CancelFunc) {
	c := newCancel(parent)
	if pd, ok := parent.Deadline(); ok && pd.Before(d) {
		d = pd
	}
	c.dl, c.hasDL = d, true
	if !dying() && c.err == nil {
		p := CurProc()
		w := d.Sub(WallNow())
		if w <= 0 {
			c.cancel(context.DeadlineExceeded, nil)
		} else {
			c.t = S.after(w, func() {
				if p != nil && p.Dead {
					return
				}
				c.cancel(context.DeadlineExceeded, nil)
			})
		}
	}
	return c, func() {
		if dying() {
			return
		}
		c.cancel(context.Canceled, nil)
	}
}

func WithTimeout(parent context.Context, d time.Duration) (context.Context, context.CancelFunc) {
	return WithDeadline(parent, WallNow().Add(d))
}

func WithValue(parent context.Context, k, v any) context.Context {
	return &ctxImpl{parent: parent, key: k, val: v}
}

func CtxAfterFunc(ctx context.Context, f func()) func() bool {
	n := nearest(ctx)
	if n == nil {
		return func() bool { return true }
	}
	p := CurProc()
	run := false
	stopped := false
	g := func() {
		if !stopped && !run {
			run = true
			S.spawn(p, "", f)
		}
	}
	if n.err != nil {
		g()
	} else {
		n.after = append(n.after, g)
	}
	return func() bool {
		if run || stopped {
			return false
		}
		stopped = true
		return true
	}
}

// CtxDeadline is the context deadline as absolute virtual time (0: none).
func CtxDeadline(ctx context.Context) time.Duration {
	if ctx == nil {
		return 0
	}
	if d, ok := ctx.Deadline(); ok {
		r := d.Sub(Epoch)
		if r <= 0 {
			r = 1
		}
		return r
	}
	return 0
}
