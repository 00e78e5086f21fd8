// Package vsim is a deterministic simulation kernel. Tasks are real goroutines
// of which exactly one runs at a time; the kernel decides which one, when it is
// preempted, how virtual time advances, and which faults happen. Every decision
// is drawn from recorded choice streams, so a run is a pure function of its
// choice lists (or of the seed that generated them).
package vsim

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Choice streams.
const (
	StWork  = iota // workload shape and content
	StSched        // scheduling: who runs, when to preempt
	StNet          // network timing and segmentation
	StFault        // fault kinds, places and times
	NStreams
)

var StreamNames = [NStreams]string{"work", "sched", "net", "fault"}

type stream struct {
	rng    uint64
	rec    []uint32
	replay []uint32
	isRep  bool
	pos    int
}

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Epoch is the virtual wall clock at simulated time zero.
var Epoch = time.Date(2024, 3, 1, 12, 0, 0, 0, time.UTC)

type taskState int

const (
	tsRunnable taskState = iota
	tsRunning
	tsBlocked
	tsDone
)

type Task struct {
	ID     int
	Name   string
	Proc   *Proc
	wake   chan struct{}
	state  taskState
	killed bool
	dying  bool
	why    string
	prio   int
	seq    uint64 // runnable since
	// noPreempt suppresses preemption until the next blocking operation.
	noPreempt bool
	spin      int64 // steps since the task last blocked
}

// Proc is a simulated operating-system process: a crash ends all its tasks and
// the kernel closes its sockets and files.
type Proc struct {
	ID       int
	Name     string
	Dead     bool
	Exited   bool // ended by itself (main returned or os.Exit)
	Code     int
	Panic    string
	PanicAt  string
	tasks    map[*Task]bool
	Harness  bool
	conns    []*Conn
	files    []*File
	lis      []*Listener
	Allocs   int64
	MaxAlloc int64
	onDeath  []func()
}

type Violation struct {
	Class string // stable class, used while minimising
	Msg   string
}

type Timer0 struct {
	at      time.Duration
	seq     uint64
	fn      func()
	idx     int
	stopped bool
}

type Config struct {
	Seed    uint64
	Replay  [][]uint32
	Verbose bool
	MaxStep int64 // preemption points per run
}

type Sim struct {
	cfg     Config
	streams [NStreams]stream
	now     time.Duration
	seq     uint64
	timers  []*Timer0
	tasks   map[*Task]bool
	nextID  int
	mapUse  map[uintptr][]mapUse // tasks at a map access
	runq    []*Task
	cur     *Task
	done    chan struct{}
	ended   bool
	killing bool

	// scheduling policy of this run
	policy     int
	preempt    int // mean steps between preemptions; 0 = none
	yieldLeft  int
	steps      int64
	maxIdle    int64
	stallEvery int
	StallTotal time.Duration // how long tasks were stalled, summed up
	stalls     [][2]time.Duration
	stallLeft  int
	syncDen    int // one in syncDen synchronisation or I/O operations gives way; 0 = none
	// AtomStall stalls tasks at one in so many atomic operations, AtomLeft times at
	// most; 0 = none. Set by scenarios.
	AtomStall, AtomLeft int
	syncStall           int // one in syncStall of those is stalled; 0 = none
	prioChange          int
	// one in holdDen preempted tasks is put aside until the others cannot go on or
	// have made some way; 0 = none
	holdDen   int
	held      *Task
	heldUntil int64 // in steps

	Viol         []Violation
	Known        []Violation
	procs        []*Proc
	mainTask     *Task
	fp           uint64 // fingerprint of the interleaving
	Faults       map[string]int64
	Probes       map[string]int64
	Switches     int64
	IOs          int64 // disk transfers
	Preempts     int64
	logLines     []string
	logHash      uint64
	logN         int64
	Aborted      string // budget exhausted etc.: run is inconclusive
	chans        map[uintptr]*chanState
	Epoch        uint64
	Net          *Net
	FS           *FS
	keepAlive    []any
	TaskPanicOK  func(p *Proc, msg string) bool
	maxProcAlloc int64
	maxProcTotal int64
}

// S is the current simulation (one at a time per process).
var S *Sim
var epochCounter uint64

func hash2(h, v uint64) uint64 {
	h ^= v
	h *= 0x100000001b3
	return h ^ (h >> 29)
}

func New(cfg Config) *Sim {
	epochCounter++
	s := &Sim{
		cfg:    cfg,
		tasks:  map[*Task]bool{},
		done:   make(chan struct{}),
		Faults: map[string]int64{},
		Probes: map[string]int64{},
		chans:  map[uintptr]*chanState{},
		Epoch:  epochCounter,
		fp:     0xcbf29ce484222325,
	}
	if s.cfg.MaxStep == 0 {
		s.cfg.MaxStep = 200_000_000
	}
	s.maxIdle = 40_000_000
	x := cfg.Seed
	for i := range s.streams {
		st := &s.streams[i]
		st.rng = splitmix(&x) ^ uint64(i)*0x1234567
		if cfg.Replay != nil {
			st.isRep = true
			if i < len(cfg.Replay) {
				st.replay = cfg.Replay[i]
			}
		}
	}
	s.Net = newNet(s)
	s.FS = newFS(s)
	s.logHash = 0xcbf29ce484222325
	return s
}

// raw draws n values 0..n-1; gen may bias generation (nil: uniform).
func (s *Sim) draw(sti int, n int, gen func(r uint64) int) int {
	if n <= 1 {
		return 0
	}
	st := &s.streams[sti]
	var v int
	if st.isRep {
		if st.pos < len(st.replay) {
			v = int(st.replay[st.pos])
			st.pos++
			if v >= n {
				v = n - 1
			}
		} else {
			v = 0
		}
	} else {
		r := splitmix(&st.rng)
		if gen != nil {
			v = gen(r)
			if v < 0 {
				v = 0
			} else if v >= n {
				v = n - 1
			}
		} else {
			v = int((r >> 11) % uint64(n))
		}
	}
	st.rec = append(st.rec, uint32(v))
	return v
}

// Draw returns a value in [0,n) from a stream.
func Draw(st, n int) int { return S.draw(st, n, nil) }

// Bool is true with probability num/den; the simplest value is false.
func Bool(st, num, den int) bool {
	return S.draw(st, 2, func(r uint64) int {
		if int((r>>11)%uint64(den)) < num {
			return 1
		}
		return 0
	}) == 1
}

// Range returns lo..hi inclusive; lo is the simplest.
func Range(st, lo, hi int) int {
	if hi < lo {
		hi = lo
	}
	return lo + Draw(st, hi-lo+1)
}

// Pick returns one of the values; the first is the simplest.
func Pick[T any](st int, vs ...T) T { return vs[Draw(st, len(vs))] }

// Weighted returns an index with the given weights; index 0 is the simplest.
func Weighted(st int, w ...int) int {
	tot := 0
	for _, x := range w {
		tot += x
	}
	return S.draw(st, len(w), func(r uint64) int {
		k := int((r >> 11) % uint64(tot))
		for i, x := range w {
			if k < x {
				return i
			}
			k -= x
		}
		return 0
	})
}

// Bytes returns n deterministic pseudo-random bytes expanded from one draw.
func Bytes(st, n int) []byte {
	b := make([]byte, n)
	x := uint64(Draw(st, 1<<30))
	FillBytes(b, x)
	return b
}

func FillBytes(b []byte, seed uint64) {
	x := seed*0x9e3779b97f4a7c15 + 0x1234567
	for i := 0; i < len(b); i += 8 {
		v := splitmix(&x)
		for j := 0; j < 8 && i+j < len(b); j++ {
			b[i+j] = byte(v >> (8 * uint(j)))
		}
	}
}

func (s *Sim) Recorded() [][]uint32 {
	out := make([][]uint32, NStreams)
	for i := range s.streams {
		out[i] = s.streams[i].rec
	}
	return out
}

func (s *Sim) Fingerprint() uint64    { return s.fp }
func (s *Sim) LogHash() uint64        { return s.logHash }
func (s *Sim) LogLines() []string     { return s.logLines }
func (s *Sim) Elapsed() time.Duration { return s.now }
func (s *Sim) Steps() int64           { return s.steps }

// Log appends to the event log (always hashed; text kept when verbose).
func Log(f string, a ...any) { S.logf(f, a...) }

func (s *Sim) logf(f string, a ...any) {
	if s == nil || s.killing {
		return
	}
	s.logN++
	if s.cfg.Verbose {
		tn := "-"
		if s.cur != nil {
			tn = s.cur.Name
		}
		l := fmt.Sprintf(f, a...)
		for i := 0; i < len(l); i++ {
			s.logHash = hash2(s.logHash, uint64(l[i]))
		}
		s.logLines = append(s.logLines, fmt.Sprintf("[%12.6f] %s: %s", s.now.Seconds(), tn, l))
	}
}

func (s *Sim) fpMix(v uint64) { s.fp = hash2(s.fp, v) }

// Fault counts an injected fault that actually took effect.
func Fault(kind string) {
	if S.killing {
		return
	}
	S.Faults[kind]++
	S.fpMix(uint64(len(kind))*977 + uint64(kind[0]))
	S.logf("FAULT %s", kind)
}

// Probe counts that a condition of interest was reached.
func Probe(kind string) {
	if S.killing {
		return
	}
	S.Probes[kind]++
}

// Fail records a violation.
func Fail(class, f string, a ...any) {
	s := S
	if s.killing {
		return
	}
	m := fmt.Sprintf(f, a...)
	s.logf("VIOLATION %s: %s", class, m)
	s.Viol = append(s.Viol, Violation{class, m})
}

func Failed() bool { return len(S.Viol) > 0 }

// Abort marks the run inconclusive (not a violation) and ends it.
func (s *Sim) abort(why string) {
	if s.Aborted == "" {
		s.Aborted = why
	}
	s.ended = true
}

// ---------------------------------------------------------------- processes

func NewProc(name string) *Proc {
	s := S
	p := &Proc{ID: len(s.procs), Name: name, tasks: map[*Task]bool{}}
	s.procs = append(s.procs, p)
	return p
}

func CurProc() *Proc {
	if S == nil || S.cur == nil {
		return nil
	}
	return S.cur.Proc
}

func CurTask() *Task { return S.cur }

// Go starts a task in the process.
func (p *Proc) Go(name string, fn func()) *Task {
	return S.spawn(p, name, fn)
}

// Main starts fn as the process's main function: when it returns, the process exits.
func (p *Proc) Main(name string, fn func()) *Task {
	return S.spawn(p, name, func() {
		fn()
		p.Exit(0)
	})
}

// OnDeath registers f, called in scheduler context when the process ends.
func (p *Proc) OnDeath(f func()) { p.onDeath = append(p.onDeath, f) }

// Exit ends the process from inside (os.Exit or return from main).
func (p *Proc) Exit(code int) {
	s := S
	if p.Dead {
		return
	}
	p.Exited = true
	p.Code = code
	s.logf("proc %s exit %d", p.Name, code)
	s.endProc(p, true)
	if s.cur != nil && s.cur.Proc == p {
		s.dieNow()
	}
}

// Crash kills the process from outside at this instant.
func (p *Proc) Crash() {
	s := S
	if p.Dead {
		return
	}
	s.logf("proc %s crashed", p.Name)
	s.endProc(p, false)
	if s.cur != nil && s.cur.Proc == p {
		s.dieNow()
	}
}

func (s *Sim) endProc(p *Proc, graceful bool) {
	p.Dead = true
	ts := make([]*Task, 0, len(p.tasks))
	for t := range p.tasks {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].ID < ts[j].ID })
	for _, t := range ts {
		t.killed = true
		if t != s.cur && t.state == tsBlocked {
			s.ready(t)
		}
	}
	for _, c := range p.conns {
		c.osClose()
	}
	for _, l := range p.lis {
		l.osClose()
	}
	for _, f := range p.files {
		f.closed = true
	}
	for _, f := range p.onDeath {
		f()
	}
}

func (s *Sim) dieNow() {
	if t := s.cur; t != nil {
		t.killed = true
		t.dying = true
		runtime.Goexit()
	}
}

// ---------------------------------------------------------------- tasks

func (s *Sim) spawn(p *Proc, name string, fn func()) *Task {
	s.nextID++
	t := &Task{ID: s.nextID, Name: name, Proc: p, wake: make(chan struct{}, 1)}
	if t.Name == "" {
		t.Name = fmt.Sprintf("%s/%d", p.Name, t.ID)
	}
	if p.Dead {
		// a dying process cannot start tasks
		t.state = tsDone
		return t
	}
	t.prio = s.nextID
	if s.policy == polPrio {
		t.prio = s.draw(StSched, 1000, nil)
	}
	s.tasks[t] = true
	p.tasks[t] = true
	go s.taskMain(t, fn)
	s.ready(t)
	return t
}

func (s *Sim) taskMain(t *Task, fn func()) {
	<-t.wake
	normal := false
	defer func() {
		if !normal && !t.dying {
			if r := recover(); r != nil {
				s.taskPanic(t, r, string(debug.Stack()))
			} else {
				// runtime.Goexit called by the program itself
				normal = true
			}
		}
		s.taskExit(t)
	}()
	if t.killed {
		t.dying = true
		runtime.Goexit()
	}
	fn()
	normal = true
}

func trimStack(st string) string {
	// keep the frames after the panic
	i := strings.LastIndex(st, "panic(")
	if i >= 0 {
		st = st[i:]
		if j := strings.Index(st, "\n"); j >= 0 {
			st = st[j+1:]
			if j := strings.Index(st, "\n"); j >= 0 {
				st = st[j+1:]
			}
		}
	}
	var out []string
	for _, l := range strings.Split(st, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "goroutine ") {
			continue
		}
		if k := strings.Index(l, " +0x"); k >= 0 {
			l = l[:k]
		}
		if k := strings.LastIndex(l, "("); k >= 0 && !strings.HasPrefix(l, "/") && strings.Contains(l[k:], "0x") {
			l = l[:k]
		}
		out = append(out, l)
		if len(out) >= 12 {
			break
		}
	}
	return strings.Join(out, " | ")
}

// inSUT tells whether the innermost frame that is neither runtime nor standard
// library belongs to the code under test.
func inSUT(where string) bool {
	sut, own := strings.Index(where, "joy5/"), strings.Index(where, "vsim/")
	return sut >= 0 && (own < 0 || sut < own)
}

func (s *Sim) taskPanic(t *Task, r any, stack string) {
	if s.killing {
		return
	}
	msg := fmt.Sprint(r)
	where := trimStack(stack)
	t.Proc.Panic = msg
	t.Proc.PanicAt = where
	s.logf("PANIC in %s: %s at %s", t.Name, msg, where)
	if t.Proc.Harness && inSUT(where) {
		Fail("panic", "called by the harness: panic: %s at %s", msg, where)
		s.ended = true
		return
	}
	if t.Proc.Harness {
		s.Viol = append(s.Viol, Violation{"HARNESS", "harness panic: " + msg + " at " + where})
		s.ended = true
		return
	}
	if s.TaskPanicOK == nil || !s.TaskPanicOK(t.Proc, msg) {
		Fail("panic", "process %s crashed: panic: %s at %s", t.Proc.Name, msg, where)
	}
	t.Proc.Code = 2
	s.endProc(t.Proc, false)
}

func (s *Sim) taskExit(t *Task) {
	t.state = tsDone
	delete(s.tasks, t)
	delete(t.Proc.tasks, t)
	if s.killing {
		s.done <- struct{}{}
		return
	}
	if t == s.mainTask {
		s.ended = true
	}
	s.fpMix(uint64(t.ID)<<8 | 7)
	s.cur = nil
	s.dispatch(nil)
}

func (s *Sim) ready(t *Task) {
	if t.state == tsDone {
		return
	}
	if t == s.held {
		s.held = nil
	}
	if t.state == tsRunnable && t.seq != 0 {
		return
	}
	s.seq++
	t.seq = s.seq
	t.state = tsRunnable
	s.runq = append(s.runq, t)
}

const (
	polFIFO = iota
	polRandom
	polLIFO
	polPrio
	nPol
)

func (s *Sim) pick() *Task {
	n := len(s.runq)
	i := 0
	if n > 1 {
		i = s.draw(StSched, n, func(r uint64) int {
			switch s.policy {
			case polFIFO:
				return 0
			case polRandom:
				return int((r >> 11) % uint64(n))
			case polLIFO:
				if r>>60 < 3 {
					return int((r >> 11) % uint64(n))
				}
				return n - 1
			default:
				best := 0
				for k := 1; k < n; k++ {
					if s.runq[k].prio > s.runq[best].prio {
						best = k
					}
				}
				if r>>56 < 4 {
					return int((r >> 11) % uint64(n))
				}
				return best
			}
		})
	}
	t := s.runq[i]
	copy(s.runq[i:], s.runq[i+1:])
	s.runq = s.runq[:n-1]
	return t
}

// dispatch hands the processor to another task. self is the calling task (nil
// when it has exited). It returns when self runs again.
func (s *Sim) dispatch(self *Task) {
	for {
		if s.ended {
			s.cur = nil
			s.done <- struct{}{}
			if self != nil {
				<-self.wake
			}
			return
		}
		if s.held != nil && (len(s.runq) == 0 || s.steps > s.heldUntil) {
			s.ready(s.held)
		}
		if len(s.runq) > 0 {
			break
		}
		s.cur = nil
		if !s.advance() {
			// nothing can ever run again
			if s.Aborted == "" {
				s.Viol = append(s.Viol, Violation{"HARNESS", "global deadlock: main scenario task blocked forever: " + s.blockedSummary()})
			}
			s.ended = true
		}
	}
	t := s.pick()
	t.seq = 0
	t.state = tsRunning
	s.cur = t
	s.Switches++
	s.fpMix(uint64(t.ID))
	if t == self {
		return
	}
	t.wake <- struct{}{}
	if self != nil {
		<-self.wake
	}
}

func (s *Sim) blockedSummary() string {
	var l []string
	for t := range s.tasks {
		l = append(l, fmt.Sprintf("%s(%s)", t.Name, t.why))
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

// afterSwitch must run in a task right after it resumed.
func (s *Sim) afterSwitch(t *Task) {
	if s.killing || t.killed {
		t.dying = true
		runtime.Goexit()
	}
}

// block parks the current task until ready() is called for it.
func (s *Sim) block(why string) {
	t := s.cur
	t.state = tsBlocked
	t.why = why
	t.seq = 0
	t.noPreempt = false
	t.spin = 0
	s.dispatch(t)
	s.afterSwitch(t)
}

// yield lets another task run.
func (s *Sim) yield() {
	t := s.cur
	if len(s.runq) == 0 {
		// time may also pass while this task computes
		return
	}
	s.ready(t)
	s.dispatch(t)
	s.afterSwitch(t)
}

// preemptCur takes the processor from the current task: it goes back to the run
// queue or, at times, is put aside, so that other tasks get further than their own
// next preemption while it is where it is. No virtual time passes meanwhile.
func (s *Sim) preemptCur() {
	t := s.cur
	s.Preempts++
	if s.holdDen == 0 || s.held != nil || t.Proc.Harness || s.draw(StSched, s.holdDen, nil) != s.holdDen-1 {
		s.yield()
		return
	}
	s.Faults["task_held"]++
	s.held = t
	s.heldUntil = s.steps + int64(1+s.draw(StSched, 5000, nil))
	spin := t.spin
	s.block("held")
	t.spin = spin
}

func dying() bool {
	return S == nil || S.killing || S.cur == nil || S.cur.dying
}

// Y is a preemption point, inserted before every statement of the code under test.
func Y() {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	s.steps++
	s.yieldLeft--
	if s.yieldLeft <= 0 {
		s.ySlow()
	}
}

const yieldBatch = 4096

func (s *Sim) ySlow() {
	if s.killing || s.cur.dying {
		s.yieldLeft = yieldBatch
		return
	}
	if s.preempt == 0 {
		s.yieldLeft = yieldBatch
	} else {
		// 0 (the simplest value) means: no preemption for a while
		s.yieldLeft = s.draw(StSched, 2*s.preempt+1, func(r uint64) int {
			return 1 + int((r>>11)%uint64(2*s.preempt))
		})
		if s.yieldLeft == 0 {
			s.yieldLeft = yieldBatch
		}
	}
	if s.held != nil && s.steps > s.heldUntil {
		s.ready(s.held)
	}
	s.cur.spin += int64(s.yieldLeft)
	if s.cur.spin > s.maxIdle {
		t := s.cur
		st := trimLive(string(debug.Stack()))
		if !t.Proc.Harness {
			Fail("livelock", "process %s task %s runs without making progress (%d steps): %s", t.Proc.Name, t.Name, t.spin, st)
			s.endProc(t.Proc, false)
			s.dieNow()
		}
	}
	if s.steps > s.cfg.MaxStep {
		s.abort("step budget")
		s.cur.killed = true
		s.ready(s.cur)
		t := s.cur
		s.dispatch(t)
		s.afterSwitch(t)
		return
	}
	if s.preempt == 0 || s.cur.noPreempt {
		return
	}
	if s.stallEvery > 0 && s.stallLeft > 0 && s.draw(StSched, s.stallEvery, nil) == s.stallEvery-1 {
		s.stall()
		return
	}
	if len(s.runq) > 0 {
		if s.policy == polPrio && s.prioChange > 0 {
			s.prioChange--
			s.cur.prio = -s.prioChange
		}
		s.preemptCur()
	}
}

func (s *Sim) noteStall(d time.Duration) {
	s.StallTotal += d
	s.stalls = append(s.stalls, [2]time.Duration{s.now, s.now + d})
}

// StalledSince is how long tasks were held up since t, summed up.
func (s *Sim) StalledSince(t time.Duration) (sum time.Duration) {
	for _, x := range s.stalls {
		if x[1] > t {
			sum += min(x[1], s.now) - max(x[0], t)
		}
	}
	return
}

// YA is Y at an atomic operation.
func YA() {
	if s := S; s != nil && s.AtomStall > 0 && s.AtomLeft > 0 {
		if t := s.cur; t != nil && !t.noPreempt && !t.Proc.Harness && !s.killing && !t.dying && s.draw(StSched, s.AtomStall, nil) == s.AtomStall-1 {
			s.AtomLeft--
			s.stallLeft++
			s.stall()
		}
	}
	Y()
}

// SlowDown holds up the current task as a stall of d would.
func SlowDown(fault string, d time.Duration) {
	s := S
	Fault(fault)
	s.noteStall(d)
	t, spin := s.cur, s.cur.spin
	s.sleep(d, fault)
	t.spin = spin
}

// stall deschedules the current task for a while.
func (s *Sim) stall() {
	s.stallLeft--
	d := time.Duration(1+s.draw(StSched, 400, nil)) * time.Millisecond
	s.Faults["task_stall"]++
	s.noteStall(d)
	t, spin := s.cur, s.cur.spin
	s.sleep(d, "stalled")
	t.spin = spin
}

// syncPoint may hand over the processor at a synchronisation or I/O operation.
func (s *Sim) syncPoint() {
	t := s.cur
	if t == nil || t.noPreempt || t.Proc.Harness || s.killing || t.dying {
		return
	}
	if s.draw(StSched, s.syncDen, nil) != s.syncDen-1 {
		return
	}
	if s.syncStall > 0 && s.stallLeft > 0 && s.draw(StSched, s.syncStall, nil) == s.syncStall-1 {
		s.stall()
		return
	}
	if len(s.runq) > 0 {
		spin := t.spin
		s.preemptCur()
		t.spin = spin
	}
}

func trimLive(st string) string {
	var out []string
	for _, l := range strings.Split(st, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "goroutine ") || strings.Contains(l, "vsim/vsim") || strings.Contains(l, "debug.Stack") || strings.Contains(l, "runtime/debug") || strings.Contains(l, "vsim.") {
			continue
		}
		if k := strings.Index(l, " +0x"); k >= 0 {
			l = l[:k]
		}
		if k := strings.LastIndex(l, "("); k >= 0 && !strings.HasPrefix(l, "/") {
			l = l[:k]
		}
		out = append(out, l)
		if len(out) >= 10 {
			break
		}
	}
	return strings.Join(out, " | ")
}

// NoPreempt keeps the current task running until it blocks.
func NoPreempt() { S.cur.noPreempt = true }

// ---------------------------------------------------------------- time

func (s *Sim) after(d time.Duration, fn func()) *Timer0 {
	if d < 0 {
		d = 0
	}
	s.seq++
	at := s.now + d
	if at < s.now { // overflow
		at = 1<<63 - 1
	}
	t := &Timer0{at: at, seq: s.seq, fn: fn}
	s.timers = append(s.timers, t)
	s.up(len(s.timers) - 1)
	return t
}

func (s *Sim) less(i, j int) bool {
	a, b := s.timers[i], s.timers[j]
	if a.at != b.at {
		return a.at < b.at
	}
	return a.seq < b.seq
}
func (s *Sim) swap(i, j int) {
	s.timers[i], s.timers[j] = s.timers[j], s.timers[i]
	s.timers[i].idx = i
	s.timers[j].idx = j
}
func (s *Sim) up(i int) {
	s.timers[i].idx = i
	for i > 0 {
		p := (i - 1) / 2
		if !s.less(i, p) {
			break
		}
		s.swap(i, p)
		i = p
	}
}
func (s *Sim) down(i int) {
	n := len(s.timers)
	for {
		c := 2*i + 1
		if c >= n {
			return
		}
		if c+1 < n && s.less(c+1, c) {
			c++
		}
		if !s.less(c, i) {
			return
		}
		s.swap(i, c)
		i = c
	}
}

func (t *Timer0) cancel() bool {
	if t == nil || t.stopped {
		return false
	}
	t.stopped = true
	return true
}

// advance fires the next timers; false if there are none.
func (s *Sim) advance() bool {
	for len(s.timers) > 0 {
		t := s.timers[0]
		n := len(s.timers) - 1
		s.swap(0, n)
		s.timers = s.timers[:n]
		if n > 0 {
			s.down(0)
		}
		if t.stopped {
			continue
		}
		if t.at > s.now {
			s.now = t.at
		}
		t.stopped = true
		t.fn()
		return true
	}
	return false
}

func (s *Sim) sleep(d time.Duration, why string) {
	t := s.cur
	tm := s.after(d, func() {
		if t.state == tsBlocked {
			s.ready(t)
		}
	})
	s.block(why)
	tm.cancel()
}

// Sleep suspends the current task in virtual time.
func Sleep(d time.Duration) {
	if dying() {
		return
	}
	if d <= 0 {
		S.yield()
		return
	}
	S.sleep(d, "sleep")
}

// Elapsed is the virtual time since the start of the run.
func Elapsed() time.Duration { return S.now }

// WallNow is the virtual wall clock.
func WallNow() time.Time {
	if S == nil {
		return Epoch
	}
	return Epoch.Add(S.now)
}

// At runs fn in scheduler context at a later virtual time (harness use).
func At(d time.Duration, fn func()) { S.after(d, fn) }

// WaitUntil polls a harness condition every step d of virtual time, up to max.
func WaitUntil(step, max time.Duration, cond func() bool) bool {
	end := S.now + max
	for {
		if cond() {
			return true
		}
		if S.now >= end || S.ended {
			return cond()
		}
		Sleep(step)
	}
}

// ---------------------------------------------------------------- run

// Run executes main as the harness task until it returns, then ends every task.
func (s *Sim) Run(main func()) {
	S = s
	resetGlobals()
	s.policy = s.draw(StSched, nPol, nil)
	pm := s.draw(StSched, 6, nil)
	s.preempt = []int{0, 2000, 300, 60, 12, 3}[pm]
	if pm >= 2 {
		s.stallEvery = []int{0, 0, 0, 400, 100}[s.draw(StSched, 5, nil)]
	}
	s.syncDen = []int{0, 0, 24, 6, 2}[s.draw(StSched, 5, nil)]
	if s.syncDen > 0 {
		s.syncStall = []int{0, 0, 64, 12}[s.draw(StSched, 4, nil)]
	}
	s.holdDen = []int{0, 0, 8, 2}[s.draw(StSched, 4, nil)]
	s.prioChange = 8
	s.stallLeft = 6
	s.yieldLeft = 1
	hp := NewProc("harness")
	hp.Harness = true
	s.mainTask = s.spawn(hp, "main", main)
	// start
	go s.dispatch(nil)
	<-s.done
	s.finish()
}

func (s *Sim) finish() {
	s.killing = true
	for {
		var t *Task
		for x := range s.tasks {
			if t == nil || x.ID < t.ID {
				t = x
			}
		}
		if t == nil {
			break
		}
		t.killed = true
		s.cur = t
		t.wake <- struct{}{}
		<-s.done
	}
	s.cur = nil
	s.chans = nil
	S = nil
}

// SetMaxIdle changes the livelock bound.
func SetMaxIdle(n int64) { S.maxIdle = n }

// Blocked reports the tasks of p that are blocked and why.
func (p *Proc) Blocked() []string {
	var l []string
	for t := range p.tasks {
		if t.state == tsBlocked {
			l = append(l, t.Name+":"+t.why)
		}
	}
	sort.Strings(l)
	return l
}

// NTasks is the number of live tasks.
func (p *Proc) NTasks() int { return len(p.tasks) }
func (t *Task) Done() bool  { return t.state == tsDone }
func (t *Task) Why() string { return t.why }
