package vsim

import (
	"fmt"
	"reflect"
	"sort"
	"time"
	"unsafe"
)

// per-run state of synchronisation objects: objects living in package variables
// survive from one run to the next, so each carries the run's epoch.

type waitq struct{ q []*Task }

func (w *waitq) wait(why string) {
	w.q = append(w.q, S.cur)
	S.block(why)
}
func (w *waitq) wakeOne() {
	for len(w.q) > 0 {
		t := w.q[0]
		w.q = w.q[1:]
		if t.state == tsBlocked && !t.killed {
			S.ready(t)
			return
		}
	}
}
func (w *waitq) wakeAll() {
	q := w.q
	w.q = nil
	for _, t := range q {
		if t.state == tsBlocked && !t.killed {
			S.ready(t)
		}
	}
}

type Mutex struct {
	epoch  uint64
	locked bool
	q      waitq
}

func (m *Mutex) sync() {
	if m.epoch != S.Epoch {
		*m = Mutex{epoch: S.Epoch}
	}
}
func (m *Mutex) Lock() {
	if dying() {
		return
	}
	m.sync()
	opYield()
	for m.locked {
		m.q.wait("mutex")
	}
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	if dying() {
		return true
	}
	m.sync()
	opYield()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	if dying() {
		return
	}
	m.sync()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	m.q.wakeOne()
	opYield()
}

type RWMutex struct {
	epoch uint64
	w     bool
	r     int
	wantW int
	q     waitq
}

func (m *RWMutex) sync() {
	if m.epoch != S.Epoch {
		*m = RWMutex{epoch: S.Epoch}
	}
}
func (m *RWMutex) Lock() {
	if dying() {
		return
	}
	m.sync()
	opYield()
	m.wantW++
	for m.w || m.r > 0 {
		m.q.wait("rwmutex lock")
	}
	m.wantW--
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	if dying() {
		return true
	}
	m.sync()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	if dying() {
		return
	}
	m.sync()
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	m.q.wakeAll()
	opYield()
}
func (m *RWMutex) RLock() {
	if dying() {
		return
	}
	m.sync()
	opYield()
	for m.w || m.wantW > 0 {
		m.q.wait("rwmutex rlock")
	}
	m.r++
}
func (m *RWMutex) TryRLock() bool {
	if dying() {
		return true
	}
	m.sync()
	if m.w || m.wantW > 0 {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RUnlock() {
	if dying() {
		return
	}
	m.sync()
	if m.r <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	m.q.wakeAll()
	opYield()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker over the read lock.
func (m *RWMutex) RLocker() interface {
	Lock()
	Unlock()
} {
	return (*rlocker)(m)
}

type WaitGroup struct {
	epoch uint64
	n     int
	q     waitq
}

func (w *WaitGroup) sync() {
	if w.epoch != S.Epoch {
		*w = WaitGroup{epoch: S.Epoch}
	}
}
func (w *WaitGroup) Add(d int) {
	if dying() {
		return
	}
	w.sync()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.wakeAll()
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	if dying() {
		return
	}
	w.sync()
	opYield()
	for w.n > 0 {
		w.q.wait("waitgroup")
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

type Once struct {
	epoch uint64
	done  bool
	m     Mutex
}

func (o *Once) Do(f func()) {
	if dying() {
		return
	}
	if o.done { // process-wide initialisation survives between runs
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Locker interface {
	Lock()
	Unlock()
}

type Cond struct {
	L     Locker
	epoch uint64
	q     waitq
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	if dying() {
		return
	}
	c.q.q = append(c.q.q, S.cur)
	t := S.cur
	c.L.Unlock()
	if dying() {
		return
	}
	// the wake-up may already have happened while unlocking yielded
	for _, x := range c.q.q {
		if x == t {
			S.block("cond")
			break
		}
	}
	c.L.Lock()
}
func (c *Cond) Signal() {
	if dying() {
		return
	}
	if len(c.q.q) > 0 {
		t := c.q.q[0]
		c.q.q = c.q.q[1:]
		if t.state == tsBlocked {
			S.ready(t)
		}
	}
}
func (c *Cond) Broadcast() {
	if dying() {
		return
	}
	q := c.q.q
	c.q.q = nil
	for _, t := range q {
		if t.state == tsBlocked {
			S.ready(t)
		}
	}
}

// Map is sync.Map with a deterministic, scheduler-chosen Range order.
type Map struct {
	epoch uint64
	m     map[any]any
	keys  []any
}

func (m *Map) sync() {
	if S != nil && m.epoch != S.Epoch {
		*m = Map{epoch: S.Epoch, m: map[any]any{}}
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
}
func (m *Map) Load(k any) (any, bool) {
	Y()
	m.sync()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) Store(k, v any) {
	Y()
	m.sync()
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	Y()
	m.sync()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	Y()
	m.sync()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) del(k any) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]any(nil), m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
}
func (m *Map) Delete(k any) { Y(); m.sync(); m.del(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	Y()
	m.sync()
	p, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	return p, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	Y()
	m.sync()
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	Y()
	m.sync()
	if v, ok := m.m[k]; ok && v == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Clear() { m.sync(); m.m = map[any]any{}; m.keys = nil }
func (m *Map) Range(f func(k, v any) bool) {
	m.sync()
	ks := append([]any(nil), m.keys...)
	if len(ks) > 1 && S != nil && !dying() {
		r := Draw(StSched, len(ks))
		ks = append(append([]any(nil), ks[r:]...), ks[:r]...)
	}
	for _, k := range ks {
		Y()
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}

// Pool is sync.Pool; it forgets everything between runs.
type Pool struct {
	New   func() any
	epoch uint64
	items []any
}

func (p *Pool) sync() {
	if S != nil && p.epoch != S.Epoch {
		p.epoch = S.Epoch
		p.items = nil
	}
}
func (p *Pool) Get() any {
	p.sync()
	Y()
	if n := len(p.items); n > 0 && !(S != nil && !dying() && Bool(StSched, 1, 10)) {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	p.sync()
	p.items = append(p.items, v)
	Y()
}

// ------------------------------------------------------------- goroutines, maps

// Go is the go statement.
func Go(fn func()) {
	if dying() {
		return
	}
	opYield()
	p := S.cur.Proc
	S.spawn(p, "", fn)
}

// Inc and Dec split a read-modify-write on a shared location.
func Inc[T interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64
}](p *T, d T) {
	v := *p
	Y()
	*p = v + d
}

// Set is an assignment of a value computed from *p: another task may run in between.
func Set[T any](p *T, v T) {
	Y()
	*p = v
}

// mapUse is a task at an access to a map.
type mapUse struct {
	t     *Task
	write bool
}

// MapR and MapW surround the operand of a map access. A task preempted inside one is about to
// make the access; another task of the process getting there too means that nothing orders the
// two, and the runtime may find them at it together.
func MapR[M ~map[K]V, K comparable, V any](m M) M {
	mapAccess(reflect.ValueOf(m).Pointer(), false)
	return m
}

func MapW[M ~map[K]V, K comparable, V any](m M) M {
	mapAccess(reflect.ValueOf(m).Pointer(), true)
	return m
}

func mapAccess(p uintptr, write bool) {
	s := S
	if s == nil || s.cur == nil || p == 0 || dying() {
		return
	}
	for _, u := range s.mapUse[p] {
		if u.t != s.cur && (write || u.write) {
			Fail("fatal", "process %s: concurrent access to a map (tasks %s and %s, at least one writing)", s.cur.Proc.Name, u.t.Name, s.cur.Name)
		}
	}
	if s.yieldLeft > 8 {
		s.yieldLeft -= 8 // worth more than a plain statement
	} else {
		s.yieldLeft = 1
	}
	if s.yieldLeft > 1 || len(s.runq) == 0 {
		Y() // no other task runs here
		return
	}
	if s.mapUse == nil {
		s.mapUse = map[uintptr][]mapUse{}
	}
	t := s.cur
	s.mapUse[p] = append(s.mapUse[p], mapUse{t, write})
	defer func() {
		l := s.mapUse[p]
		for i := range l {
			if l[i].t == t {
				l = append(l[:i], l[i+1:]...)
				break
			}
		}
		if len(l) == 0 {
			delete(s.mapUse, p)
		} else {
			s.mapUse[p] = l
		}
	}()
	Y()
}

// Keys returns the keys of m in a deterministic order rotated by the scheduler.
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	mapAccess(reflect.ValueOf(m).Pointer(), false)
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	if len(ks) > 1 {
		type kv struct {
			s string
			k K
		}
		a := make([]kv, len(ks))
		for i, k := range ks {
			a[i] = kv{keyString(k), k}
		}
		sort.SliceStable(a, func(i, j int) bool { return a[i].s < a[j].s })
		for i := range a {
			ks[i] = a[i].k
		}
		if S != nil && !dying() {
			switch r := Draw(StSched, len(ks)+1); {
			case r == len(ks):
				for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
					ks[i], ks[j] = ks[j], ks[i]
				}
			case r > 0:
				ks = append(append([]K(nil), ks[r:]...), ks[:r]...)
			}
		}
	}
	return ks
}

func keyString(k any) string {
	switch x := k.(type) {
	case string:
		return x
	case int:
		return fmt.Sprintf("%020d", x)
	case int64:
		return fmt.Sprintf("%020d", x)
	case uint32:
		return fmt.Sprintf("%020d", x)
	}
	return fmt.Sprintf("%v", k)
}

// Sz observes the size of an allocation made by the code under test.
func Sz[I ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr](n I, elem int64) I {
	s := S
	if s == nil || s.cur == nil || s.killing {
		return n
	}
	sz := int64(n) * elem
	if int64(n) > 1<<40/elem {
		sz = 1 << 40
	}
	if sz > 0 {
		p := s.cur.Proc
		p.Allocs += sz
		if sz > p.MaxAlloc {
			p.MaxAlloc = sz
		}
		if s.maxProcAlloc > 0 && !p.Harness && (sz > s.maxProcAlloc || p.Allocs > s.maxProcTotal) {
			if !p.Dead {
				Fail("alloc", "process %s allocates %d bytes at once (%d in total) at %s", p.Name, sz, p.Allocs, trimLive(stackNow()))
				s.endProc(p, false)
			}
			s.dieNow()
		}
	}
	return n
}

// LimitAlloc arms the allocation bounds for processes of this run: n bytes at
// once, 8 times as much in total.
func LimitAlloc(n int64) { S.maxProcAlloc, S.maxProcTotal = n, 8*n }

// LimitAllocs sets both bounds.
func LimitAllocs(once, total int64) { S.maxProcAlloc, S.maxProcTotal = once, total }

var _ unsafe.Pointer
var _ time.Duration
