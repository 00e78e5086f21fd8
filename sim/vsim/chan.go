package vsim

import (
	"reflect"
	"unsafe"
)

// Channels: buffered values stay in the real channel (len/cap keep working);
// waiting senders and receivers live in a registry owned by the kernel.

type sel struct {
	t    *Task
	done bool
	idx  int
	val  any
	ok   bool
	pan  bool // sender woken by close
}

type waiter struct {
	s   *sel
	idx int
	val any // value to send
}

type chanState struct {
	ref    any
	recvq  []*waiter
	sendq  []*waiter
	closed bool
}

func chanPtr[T any](ch chan T) uintptr {
	return uintptr(*(*unsafe.Pointer)(unsafe.Pointer(&ch)))
}

func stateOf[T any](ch chan T) *chanState {
	p := chanPtr(ch)
	st := S.chans[p]
	if st == nil {
		st = &chanState{ref: ch}
		S.chans[p] = st
	}
	return st
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.s.done && !w.s.t.killed {
			return w
		}
	}
	return nil
}

func hasWaiter(q *[]*waiter) bool {
	for len(*q) > 0 {
		w := (*q)[0]
		if !w.s.done && !w.s.t.killed {
			return true
		}
		*q = (*q)[1:]
	}
	return false
}

func bi[T any](ch <-chan T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }
func bs[T any](ch chan<- T) chan T { return *(*chan T)(unsafe.Pointer(&ch)) }

// trySend attempts a send without blocking (usable in scheduler context).
func trySend[T any](ch chan T, v T) bool {
	if ch == nil {
		return false
	}
	st := stateOf(ch)
	if st.closed {
		panic("send on closed channel")
	}
	if w := popWaiter(&st.recvq); w != nil {
		w.s.done = true
		w.s.idx = w.idx
		w.s.val = v
		w.s.ok = true
		S.ready(w.s.t)
		return true
	}
	if cap(ch) > len(ch) {
		ch <- v
		return true
	}
	return false
}

func tryRecv[T any](ch chan T) (v T, ok, done bool) {
	if ch == nil {
		return
	}
	st := stateOf(ch)
	if len(ch) > 0 {
		v = <-ch
		if w := popWaiter(&st.sendq); w != nil {
			ch <- w.val.(box[T]).v
			w.s.done = true
			w.s.idx = w.idx
			S.ready(w.s.t)
		}
		return v, true, true
	}
	if w := popWaiter(&st.sendq); w != nil {
		v = w.val.(box[T]).v
		w.s.done = true
		w.s.idx = w.idx
		S.ready(w.s.t)
		return v, true, true
	}
	if st.closed {
		return v, false, true
	}
	return
}

type box[T any] struct{ v T }

func doClose[T any](ch chan T) {
	st := stateOf(ch)
	if st.closed {
		panic("close of closed channel")
	}
	st.closed = true
	close(ch)
	for {
		w := popWaiter(&st.recvq)
		if w == nil {
			break
		}
		w.s.done = true
		w.s.idx = w.idx
		w.s.val = nil
		w.s.ok = false
		S.ready(w.s.t)
	}
	for {
		w := popWaiter(&st.sendq)
		if w == nil {
			break
		}
		w.s.done = true
		w.s.idx = w.idx
		w.s.pan = true
		S.ready(w.s.t)
	}
}

func opYield() {
	S.steps += 4
	S.yieldLeft -= 4
	if S.yieldLeft <= 0 {
		S.ySlow()
	}
	if S.syncDen > 0 {
		S.syncPoint()
	}
}

// Send is `ch <- v`.
func Send[T any](ch0 chan<- T, v T) {
	if dying() {
		return
	}
	opYield()
	ch := bs(ch0)
	if ch == nil {
		S.block("send on nil channel")
	}
	if trySend(ch, v) {
		return
	}
	st := stateOf(ch)
	sl := &sel{t: S.cur}
	st.sendq = append(st.sendq, &waiter{s: sl, val: box[T]{v}})
	S.block("chan send")
	if sl.pan {
		panic("send on closed channel")
	}
}

// Recv is `<-ch`.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is `v, ok := <-ch`.
func Recv2[T any](ch0 <-chan T) (v T, ok bool) {
	if dying() {
		return
	}
	opYield()
	ch := bi(ch0)
	if ch == nil {
		S.block("receive on nil channel")
	}
	if v, ok, done := tryRecv(ch); done {
		return v, ok
	}
	st := stateOf(ch)
	sl := &sel{t: S.cur}
	st.recvq = append(st.recvq, &waiter{s: sl})
	S.block("chan receive")
	if sl.val != nil {
		v = sl.val.(T)
	}
	return v, sl.ok
}

// Close is `close(ch)`.
func Close[T any](ch0 chan<- T) {
	if dying() {
		return
	}
	opYield()
	ch := bs(ch0)
	if ch == nil {
		panic("close of nil channel")
	}
	doClose(ch)
}

// Case is one communication clause of a select.
type Case interface {
	ready() bool // can proceed now
	exec()       // perform it (ready was true)
	enqueue(s *sel, idx int)
	finish(s *sel)
}

type RCase[T any] struct {
	ch chan T
	V  T
	OK bool
}

// RecvCase evaluates the channel operand of a receive clause.
func RecvCase[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: bi(ch)} }

func (c *RCase[T]) ready() bool {
	if c.ch == nil {
		return false
	}
	st := stateOf(c.ch)
	return len(c.ch) > 0 || st.closed || hasWaiter(&st.sendq)
}
func (c *RCase[T]) exec() { c.V, c.OK, _ = tryRecv(c.ch) }
func (c *RCase[T]) enqueue(s *sel, idx int) {
	if c.ch == nil {
		return
	}
	st := stateOf(c.ch)
	st.recvq = append(st.recvq, &waiter{s: s, idx: idx})
}
func (c *RCase[T]) finish(s *sel) {
	if s.val != nil {
		c.V = s.val.(T)
	}
	c.OK = s.ok
}

type SCase[T any] struct {
	ch chan T
	v  T
}

// SendCase evaluates the operands of a send clause.
func SendCase[T any](ch chan<- T, v T) *SCase[T] { return &SCase[T]{ch: bs(ch), v: v} }

func (c *SCase[T]) ready() bool {
	if c.ch == nil {
		return false
	}
	st := stateOf(c.ch)
	return st.closed || len(c.ch) < cap(c.ch) || hasWaiter(&st.recvq)
}
func (c *SCase[T]) exec() { trySend(c.ch, c.v) }
func (c *SCase[T]) enqueue(s *sel, idx int) {
	if c.ch == nil {
		return
	}
	st := stateOf(c.ch)
	st.sendq = append(st.sendq, &waiter{s: s, idx: idx, val: box[T]{c.v}})
}
func (c *SCase[T]) finish(s *sel) {
	if s.pan {
		panic("send on closed channel")
	}
}

// Select runs a select statement and returns the chosen clause, -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	if dying() {
		if hasDefault || len(cases) == 0 {
			return -1
		}
		return 0
	}
	opYield()
	var rd []int
	for i, c := range cases {
		if c.ready() {
			rd = append(rd, i)
		}
	}
	if len(rd) > 0 {
		i := rd[0]
		if len(rd) > 1 {
			i = rd[Draw(StSched, len(rd))]
			S.fpMix(uint64(i) + 0x5e1)
		}
		cases[i].exec()
		return i
	}
	if hasDefault {
		return -1
	}
	sl := &sel{t: S.cur}
	for i, c := range cases {
		c.enqueue(sl, i)
	}
	S.block("select")
	cases[sl.idx].finish(sl)
	return sl.idx
}

var _ = reflect.TypeOf
