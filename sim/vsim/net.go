package vsim

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strconv"
	"syscall"
	"time"
)

// LinkCfg describes one simulated TCP connection.
type LinkCfg struct {
	Latency time.Duration // one-way
	Jitter  time.Duration // added per write, drawn
	Buf     int           // bytes in flight + unread per direction
	Seg     int           // 0: whole writes; n: pieces of 1..n bytes
	Trickle bool          // pieces arrive at separate times
	OneSeg  bool          // a read returns at most one piece
	// direction 0: dialer to acceptor, 1: acceptor to dialer
	Cut      [2]int64 // reset after this many bytes (-1: never)
	CutFin   bool     // cut appears as orderly close instead of reset
	StallAt  [2]int64 // after this many bytes, delivery pauses (-1: never)
	StallFor [2]time.Duration
	BlackAt  [2]int64 // after this many bytes, nothing arrives any more (-1: never)
}

// NoFault is a plain link.
func PlainLink() LinkCfg {
	return LinkCfg{Buf: 65536, Cut: [2]int64{-1, -1}, StallAt: [2]int64{-1, -1}, BlackAt: [2]int64{-1, -1}}
}

type half struct {
	segs     [][]byte
	queued   int
	inflight int
	lastArr  time.Duration
	sent     int64
	deliv    int64
	fin      bool
	black    bool
	stalled  bool
}

// Conn is one end of a simulated TCP connection.
type Conn struct {
	ID           int
	Proc         *Proc
	Dialer       bool
	peer         *Conn
	rx, tx       *half
	cfg          *LinkCfg
	closed       bool
	broken       error // reset seen by this side
	rdl          time.Duration
	wdl          time.Duration
	rq, wq       waitq
	laddr        *net.TCPAddr
	raddr        *net.TCPAddr
	ClosedAt     time.Duration
	DeadlineSets []time.Duration
	Tap          func(b []byte) // bytes written by this side, in order, as accepted by the network
	RTap         func(b []byte) // bytes read by this side
	WDone        func(n int)    // a write of n bytes is about to return without error
	LastRead     time.Duration  // when the program last received bytes
	WErr         int            // write errors reported to the program
	OnClose      func()
}

type Listener struct {
	addr   string
	Proc   *Proc
	q      []*Conn
	wq     waitq
	closed bool
	tcp    *net.TCPAddr
}

type DialPlan struct {
	Err   error
	Delay time.Duration
	Never bool // SYN is swallowed
	Link  *LinkCfg
}

type Net struct {
	s         *Sim
	listeners map[string]*Listener
	Conns     []*Conn // both ends, in creation order
	LinkFor   func(p *Proc, addr string) LinkCfg
	DialFor   func(p *Proc, addr string) DialPlan
	AcceptErr func(l *Listener) error
	OnConn    func(dialer, acceptor *Conn)
	nport     int
	Dials     []string
}

func newNet(s *Sim) *Net {
	return &Net{s: s, listeners: map[string]*Listener{}, nport: 40000}
}

var errTimeout = os.ErrDeadlineExceeded

func opErr(op string, c *Conn, err error) error {
	e := &net.OpError{Op: op, Net: "tcp", Err: err}
	if c != nil {
		e.Source, e.Addr = c.laddr, c.raddr
	}
	return e
}

func sysErr(call string, e syscall.Errno) error { return os.NewSyscallError(call, e) }

func normAddr(a string) (string, *net.TCPAddr, error) {
	h, p, err := net.SplitHostPort(a)
	if err != nil {
		return "", nil, err
	}
	if p == "rtmp" {
		p = "1935"
	} else if p == "http" {
		p = "80"
	} else if p == "https" {
		p = "443"
	} else if p == "rtsp" {
		p = "554"
	}
	pn, err := strconv.Atoi(p)
	if err != nil || pn < 0 || pn > 65535 {
		return "", nil, &net.AddrError{Err: "invalid port", Addr: a}
	}
	if h == "" || h == "0.0.0.0" || h == "localhost" || h == "::" || h == "[::]" {
		h = "127.0.0.1"
	}
	ip := net.ParseIP(h)
	if ip == nil {
		// names resolve to a stable fake address
		x := uint32(2166136261)
		for i := 0; i < len(h); i++ {
			x = (x ^ uint32(h[i])) * 16777619
		}
		ip = net.IPv4(10, byte(x>>16), byte(x>>8), byte(x)|1)
	}
	return h + ":" + strconv.Itoa(pn), &net.TCPAddr{IP: ip, Port: pn}, nil
}

// Listen opens a simulated listener for the current process.
func Listen(network, addr string) (net.Listener, error) {
	if dying() {
		return nil, net.ErrClosed
	}
	return ListenAs(CurProc(), addr)
}

func ListenAs(p *Proc, addr string) (*Listener, error) {
	n := S.Net
	a, t, err := normAddr(addr)
	if err != nil {
		return nil, opErr("listen", nil, err)
	}
	if t.Port == 0 {
		n.nport++
		t.Port = n.nport
		h, _, _ := net.SplitHostPort(a)
		a = h + ":" + strconv.Itoa(t.Port)
	}
	if l := n.listeners[a]; l != nil && !l.closed {
		return nil, opErr("listen", nil, sysErr("bind", syscall.EADDRINUSE))
	}
	l := &Listener{addr: a, Proc: p, tcp: t}
	n.listeners[a] = l
	p.lis = append(p.lis, l)
	S.logf("listen %s", a)
	return l, nil
}

// Listening reports whether something listens on addr.
func Listening(addr string) bool {
	a, _, err := normAddr(addr)
	if err != nil {
		return false
	}
	l := S.Net.listeners[a]
	return l != nil && !l.closed
}

func (l *Listener) Addr() net.Addr { return l.tcp }
func (l *Listener) Closed() bool   { return l.closed }
func (l *Listener) Close() error {
	if dying() {
		return nil
	}
	if l.closed {
		return opErr("close", nil, net.ErrClosed)
	}
	l.osClose()
	return nil
}
func (l *Listener) osClose() {
	if l.closed {
		return
	}
	l.closed = true
	if S.Net.listeners[l.addr] == l {
		delete(S.Net.listeners, l.addr)
	}
	l.wq.wakeAll()
	for _, c := range l.q {
		c.osClose()
	}
	l.q = nil
}
func (l *Listener) Accept() (net.Conn, error) {
	c, err := l.AcceptConn()
	if err != nil {
		return nil, err
	}
	return c, nil
}
func (l *Listener) AcceptConn() (*Conn, error) {
	if dying() {
		return nil, net.ErrClosed
	}
	opYield()
	for {
		if l.closed {
			return nil, opErr("accept", nil, net.ErrClosed)
		}
		if f := S.Net.AcceptErr; f != nil {
			if err := f(l); err != nil {
				Fault("accept_error")
				return nil, opErr("accept", nil, err)
			}
		}
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			c.Proc = l.Proc
			S.logf("accept conn%d", c.ID)
			return c, nil
		}
		l.wq.wait("accept")
	}
}

// Done is implemented by contexts.
type doner interface {
	Done() <-chan struct{}
	Err() error
}

// Dial connects; deadline is absolute virtual time (0: none).
func Dial(ctx doner, network, addr string, deadline time.Duration) (net.Conn, error) {
	if dying() {
		return nil, net.ErrClosed
	}
	opYield()
	c, err := DialAs(CurProc(), ctx, addr, deadline)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func DialAs(p *Proc, ctx doner, addr string, deadline time.Duration) (*Conn, error) {
	s := S
	n := s.Net
	n.Dials = append(n.Dials, p.Name+"->"+addr)
	a, t, err := normAddr(addr)
	if err != nil {
		return nil, opErr("dial", nil, err)
	}
	var plan DialPlan
	if n.DialFor != nil {
		plan = n.DialFor(p, a)
	}
	cfg := PlainLink()
	if plan.Link != nil {
		cfg = *plan.Link
	} else if n.LinkFor != nil {
		cfg = n.LinkFor(p, a)
	}
	wait := cfg.Latency*2 + plan.Delay
	if plan.Never {
		Fault("dial_blackhole")
		wait = 130 * time.Second // the kernel gives up
		plan.Err = sysErr("connect", syscall.ETIMEDOUT)
	}
	timeout := false
	if deadline > 0 && s.now+wait > deadline {
		wait = deadline - s.now
		timeout = true
	}
	if ctx != nil && ctx.Err() != nil {
		return nil, opErr("dial", nil, ctx.Err())
	}
	if wait > 0 {
		if ctx != nil && ctx.Done() != nil {
			ch := make(chan struct{}, 1)
			tm := s.after(wait, func() { trySend(ch, struct{}{}) })
			if Select(false, RecvCase[struct{}](ctx.Done()), RecvCase[struct{}](ch)) == 0 {
				tm.cancel()
				e := ctx.Err()
				if e != nil && e.Error() == "context deadline exceeded" {
					e = errTimeout
				}
				return nil, opErr("dial", nil, e)
			}
		} else {
			s.sleep(wait, "dial "+a)
		}
	}
	if timeout {
		return nil, opErr("dial", nil, errTimeout)
	}
	if plan.Err != nil {
		if !plan.Never {
			Fault("dial_error")
		}
		return nil, opErr("dial", nil, plan.Err)
	}
	l := n.listeners[a]
	if l == nil || l.closed {
		s.logf("dial %s refused", a)
		return nil, opErr("dial", nil, sysErr("connect", syscall.ECONNREFUSED))
	}
	n.nport++
	lc := &cfg
	ca := &Conn{ID: len(n.Conns), Proc: p, Dialer: true, cfg: lc, rx: &half{}, tx: &half{}, rdl: -1, wdl: -1}
	cb := &Conn{ID: len(n.Conns) + 1, Proc: l.Proc, cfg: lc, rx: ca.tx, tx: ca.rx, rdl: -1, wdl: -1}
	ca.peer, cb.peer = cb, ca
	ca.laddr = &net.TCPAddr{IP: net.IPv4(10, 0, 0, byte(p.ID+1)), Port: n.nport}
	ca.raddr = t
	cb.laddr, cb.raddr = t, ca.laddr
	n.Conns = append(n.Conns, ca, cb)
	p.conns = append(p.conns, ca)
	l.Proc.conns = append(l.Proc.conns, cb)
	l.q = append(l.q, cb)
	l.wq.wakeOne()
	s.logf("connected conn%d/%d %s -> %s", ca.ID, cb.ID, p.Name, a)
	if n.OnConn != nil {
		n.OnConn(ca, cb)
	}
	return ca, nil
}

func (c *Conn) dir() int {
	if c.Dialer {
		return 0
	}
	return 1
}
func (c *Conn) LocalAddr() net.Addr          { return c.laddr }
func (c *Conn) RemoteAddr() net.Addr         { return c.raddr }
func (c *Conn) Peer() *Conn                  { return c.peer }
func (c *Conn) Closed() bool                 { return c.closed }
func (c *Conn) Cfg() *LinkCfg                { return c.cfg }
func (c *Conn) SentBytes() int64             { return c.tx.sent }
func (c *Conn) Unread() int                  { return c.rx.queued }
func (c *Conn) ReadBytes() int64             { return c.rx.deliv }
func (c *Conn) Broken() error                { return c.broken }
func (c *Conn) ReadDeadline() time.Duration  { return c.rdl }
func (c *Conn) WriteDeadline() time.Duration { return c.wdl }

func (c *Conn) Read(b []byte) (int, error) {
	if dying() {
		return 0, net.ErrClosed
	}
	opYield()
	s := S
	for {
		if c.closed {
			return 0, opErr("read", c, net.ErrClosed)
		}
		if c.rdl >= 0 && s.now >= c.rdl {
			return 0, opErr("read", c, errTimeout)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if c.rx.queued > 0 {
			n := 0
			for n < len(b) && len(c.rx.segs) > 0 {
				sg := c.rx.segs[0]
				k := copy(b[n:], sg)
				n += k
				if k == len(sg) {
					c.rx.segs[0] = nil
					c.rx.segs = c.rx.segs[1:]
				} else {
					c.rx.segs[0] = sg[k:]
				}
				if c.cfg.OneSeg {
					break
				}
			}
			c.rx.queued -= n
			c.rx.deliv += int64(n)
			c.LastRead = s.now
			if s.cur != nil {
				s.cur.spin = 0
			}
			c.peer.wq.wakeAll()
			if c.RTap != nil {
				c.RTap(b[:n])
			}
			s.fpMix(uint64(c.ID)<<40 | uint64(n))
			s.logf("conn%d read %d", c.ID, n)
			return n, nil
		}
		if c.broken != nil && (c.broken == syscall.ECONNRESET || !c.rx.fin) {
			return 0, opErr("read", c, sysErr("read", syscall.ECONNRESET))
		}
		if c.rx.fin {
			return 0, io.EOF
		}
		c.rq.wait(fmt.Sprintf("read conn%d", c.ID))
	}
}

func (c *Conn) Write(b []byte) (int, error) {
	if dying() {
		return 0, net.ErrClosed
	}
	opYield()
	s := S
	tot := 0
	for {
		if c.closed {
			c.WErr++
			return tot, opErr("write", c, net.ErrClosed)
		}
		if c.broken != nil {
			c.WErr++
			return tot, opErr("write", c, sysErr("write", syscall.EPIPE))
		}
		if c.wdl >= 0 && s.now >= c.wdl {
			c.WErr++
			return tot, opErr("write", c, errTimeout)
		}
		if tot == len(b) {
			if c.WDone != nil {
				c.WDone(tot)
			}
			return tot, nil
		}
		space := c.cfg.Buf - c.tx.inflight - c.tx.queued
		if space <= 0 && !c.peer.closed {
			Probe("net_backpressure")
			c.wq.wait(fmt.Sprintf("write conn%d", c.ID))
			continue
		}
		n := len(b) - tot
		if n > space && !c.peer.closed {
			n = space
		}
		d := b[tot : tot+n]
		n = c.push(d)
		if n > 0 && c.Tap != nil {
			c.Tap(b[tot : tot+n])
		}
		tot += n
	}
}

// push hands bytes to the network; returns how many were accepted (less than
// len(d) only if the link was cut).
func (c *Conn) push(d []byte) int {
	s := S
	dir := c.dir()
	cut := false
	if k := c.cfg.Cut[dir]; k >= 0 && c.tx.sent+int64(len(d)) > k {
		d = d[:max(0, k-c.tx.sent)]
		cut = true
	}
	n := len(d)
	off := c.tx.sent
	c.tx.sent += int64(n)
	s.fpMix(uint64(c.ID)<<40 | uint64(n)<<20 | 1)
	s.logf("conn%d write %d", c.ID, n)
	if k := c.cfg.BlackAt[dir]; k >= 0 && c.tx.sent > k && !c.tx.black {
		c.tx.black = true
		Fault("partition")
	}
	if n > 0 {
		if c.tx.black {
			c.tx.inflight += n
		} else {
			delay := c.cfg.Latency
			if c.cfg.Jitter > 0 {
				delay += c.cfg.Jitter * time.Duration(Draw(StNet, 17)) / 16
			}
			at := s.now + delay
			if k := c.cfg.StallAt[dir]; k >= 0 && off+int64(n) > k && !c.tx.stalled {
				c.tx.stalled = true
				Fault("net_stall")
				at += c.cfg.StallFor[dir]
			}
			if at < c.tx.lastArr {
				at = c.tx.lastArr
			}
			var segs [][]byte
			if c.cfg.Seg > 0 {
				v := uint64(Draw(StNet, 256))
				if v > 0 && n > 1 {
					x := v
					p := 0
					for p < n && len(segs) < 300 {
						k := 1 + int(splitmix(&x)%uint64(c.cfg.Seg))
						if p+k > n {
							k = n - p
						}
						segs = append(segs, append([]byte(nil), d[p:p+k]...))
						p += k
					}
					if p < n {
						segs = append(segs, append([]byte(nil), d[p:]...))
					}
					if len(segs) > 1 {
						s.Faults["net_segmented"]++
					}
				}
			}
			if segs == nil {
				segs = [][]byte{append([]byte(nil), d...)}
			}
			if c.cfg.Trickle && len(segs) > 1 {
				step := time.Millisecond
				for i := 0; i < len(segs); {
					j := i + 1 + len(segs)/8
					if j > len(segs) {
						j = len(segs)
					}
					c.deliver(at, segs[i:j])
					at += step
					i = j
				}
				at -= step
			} else {
				c.deliver(at, segs)
			}
			c.tx.lastArr = at
		}
	}
	if cut {
		if c.cfg.CutFin {
			Fault("net_fin_cut")
			c.cfg.Cut = [2]int64{-1, -1}
			c.linkDown(nil)
		} else {
			Fault("net_reset")
			c.cfg.Cut = [2]int64{-1, -1}
			c.linkDown(syscall.ECONNRESET)
		}
	}
	return n
}

func (c *Conn) deliver(at time.Duration, segs [][]byte) {
	s := S
	tot := 0
	for _, x := range segs {
		tot += len(x)
	}
	h, p := c.tx, c.peer
	first := h.inflight == 0
	h.inflight += tot
	arr := func() {
		h.inflight -= tot
		if p.closed {
			// the peer's kernel answers with a reset
			lat := c.cfg.Latency
			if d := p.tx.lastArr - s.now; d > lat {
				lat = d // what it sent before closing still arrives first
			}
			s.after(lat, func() { c.setBroken(syscall.ECONNRESET) })
			return
		}
		if p.broken != nil {
			return
		}
		h.segs = append(h.segs, segs...)
		h.queued += tot
		p.rq.wakeAll()
	}
	if at <= s.now && first { // never overtakes bytes whose arrival is due at this very instant
		arr()
	} else {
		s.after(at-s.now, arr)
	}
}

func (c *Conn) setBroken(e error) {
	if c.broken == nil {
		c.broken = e
	}
	c.rq.wakeAll()
	c.wq.wakeAll()
}

// linkDown ends the connection as if the network (or the far host) had cut it;
// bytes already handed to the network before the cut still arrive first.
func (c *Conn) linkDown(e error) {
	s := S
	p := c.peer
	if e != nil {
		c.setBroken(e)
		d := c.tx.lastArr - s.now
		s.after(d, func() { p.setBroken(e) })
		return
	}
	// a middlebox closes both sides in an orderly way
	c.broken = syscall.EPIPE
	c.rx.fin = true
	c.rq.wakeAll()
	c.wq.wakeAll()
	d := c.tx.lastArr - s.now
	s.after(d, func() {
		c.tx.fin = true
		p.rq.wakeAll()
		p.broken = syscall.EPIPE
		p.wq.wakeAll()
	})
}

// Reset cuts the connection now (fault injection).
func (c *Conn) Reset() {
	if c.closed || c.broken != nil {
		return
	}
	Fault("net_reset")
	c.linkDown(syscall.ECONNRESET)
}

// Partition stops delivery in both directions, silently.
func (c *Conn) Partition() {
	Fault("partition")
	c.tx.black = true
	c.rx.black = true
}

func (c *Conn) Close() error {
	if dying() {
		return nil
	}
	if c.closed {
		return opErr("close", c, net.ErrClosed)
	}
	c.osClose()
	opYield()
	return nil
}

func (c *Conn) osClose() {
	if c.closed {
		return
	}
	s := S
	c.closed = true
	c.ClosedAt = s.now
	s.logf("conn%d closed", c.ID)
	c.rq.wakeAll()
	c.wq.wakeAll()
	hadUnread := c.rx.queued > 0
	c.rx.segs, c.rx.queued = nil, 0
	p := c.peer
	if !c.tx.black && c.broken != syscall.ECONNRESET {
		d := c.tx.lastArr - s.now
		if l := c.cfg.Latency; d < l {
			d = l
		}
		fin := func() {
			c.tx.fin = true
			p.rq.wakeAll()
			if hadUnread && p.broken == nil {
				p.broken = syscall.ECONNRESET
			}
			p.wq.wakeAll()
		}
		if d <= 0 && c.tx.inflight == 0 {
			fin()
		} else {
			s.after(d, fin)
		}
	}
	if c.OnClose != nil {
		c.OnClose()
	}
}

// CloseWrite is a half close.
func (c *Conn) CloseWrite() error {
	if dying() || c.closed {
		return nil
	}
	p := c.peer
	d := c.tx.lastArr - S.now
	S.after(d, func() {
		c.tx.fin = true
		p.rq.wakeAll()
	})
	return nil
}

func (c *Conn) absDL(t time.Time) time.Duration {
	if t.IsZero() {
		return -1
	}
	d := t.Sub(Epoch)
	if d < 0 {
		d = 0
	}
	return d
}

func (c *Conn) armDL(d time.Duration) {
	if d < 0 {
		return
	}
	s := S
	w := d - s.now
	if w < 0 {
		w = 0
	}
	s.after(w, func() {
		if c.rdl >= 0 && s.now >= c.rdl {
			c.rq.wakeAll()
		}
		if c.wdl >= 0 && s.now >= c.wdl {
			c.wq.wakeAll()
		}
	})
}

func (c *Conn) SetDeadline(t time.Time) error {
	if dying() {
		return nil
	}
	if c.closed {
		return opErr("set", c, net.ErrClosed)
	}
	d := c.absDL(t)
	c.rdl, c.wdl = d, d
	c.DeadlineSets = append(c.DeadlineSets, d)
	c.armDL(d)
	c.rq.wakeAll()
	c.wq.wakeAll()
	return nil
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	if dying() {
		return nil
	}
	if c.closed {
		return opErr("set", c, net.ErrClosed)
	}
	c.rdl = c.absDL(t)
	c.armDL(c.rdl)
	c.rq.wakeAll()
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	if dying() {
		return nil
	}
	if c.closed {
		return opErr("set", c, net.ErrClosed)
	}
	c.wdl = c.absDL(t)
	c.armDL(c.wdl)
	c.wq.wakeAll()
	return nil
}

// TCP option stand-ins.
func (c *Conn) SetNoDelay(bool) error                  { return nil }
func (c *Conn) SetKeepAlive(bool) error                { return nil }
func (c *Conn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *Conn) SetLinger(int) error                    { return nil }
func (c *Conn) SetReadBuffer(int) error                { return nil }
func (c *Conn) SetWriteBuffer(int) error               { return nil }

// OpenConns lists the connections a process holds open.
func (p *Proc) OpenConns() []*Conn {
	var l []*Conn
	for _, c := range p.conns {
		if !c.closed {
			l = append(l, c)
		}
	}
	return l
}
func (p *Proc) Conns() []*Conn { return p.conns }
func (p *Proc) OpenListeners() int {
	n := 0
	for _, l := range p.lis {
		if !l.closed {
			n++
		}
	}
	return n
}

var ErrNet = errors.New("net")
