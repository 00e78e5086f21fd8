package scen

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"syscall"
	"time"

	"github.com/nareix/joy5/av"

	"vsim/vsim"
)

func init() {
	stub := append(append([]string{}, netStub...), "subscribers are mostly an independent RTMP endpoint model; publishers run joy5's client")
	reg(&Prop{ID: "C18", Title: "pub/sub server: order and content", Real: avtoolReal, Stub: stub,
		Rule:  "Scenario: an avtool pubsubrtmp process, one to three streams, publishers that come, go, overlap and die, and subscribers (fast, slow, stalled, leaving in every way) drawn per run.",
		Scens: []Scenario{{"pubsub", 3, psRun}, {"handover", 1, psHandover}}})
	reg(&Prop{ID: "C19", Title: "pub/sub server: late joiners can decode", Real: avtoolReal, Stub: stub,
		Rule:  "As C18.",
		Scens: []Scenario{{"pubsub", 6, psRun}, {"handover", 2, psHandover}, {"storm", 3, psStorm}}})
	reg(&Prop{ID: "C20", Title: "pub/sub server: nobody is forgotten or held up", Real: avtoolReal, Stub: stub,
		Rule:  "As C18.",
		Scens: []Scenario{{"pubsub", 3, psRun}, {"handover", 1, psHandover}, {"storm", 4, psStorm}}})
	reg(&Prop{ID: "C21", Title: "pub/sub server: sessions leave nothing behind", Real: avtoolReal, Stub: stub,
		Rule:  "As C18, then everybody leaves and a fresh generation uses the same stream names.",
		Scens: []Scenario{{"pubsub", 12, psRun}, {"handover", 4, psHandover}, {"storm", 8, psStorm}, {"churn", 1, psChurn}}})
}

// psPkt is an audio or video packet of one publisher with the headers in
// effect when it was published.
type psPkt struct {
	p       av.Packet
	v, a, m []byte
	at      time.Duration // written; -1: not yet
}

// psPub is one publisher's stay.
type psPub struct {
	id       int
	path     string
	proc     *vsim.Proc
	media    []av.Packet
	av       []*psPkt
	byIdx    map[int]*psPkt // media index -> AV packet
	start    time.Duration
	gap      func()
	pace     time.Duration
	how      string
	hold     time.Duration
	exactAt  time.Duration // leave then, to the tick
	accepted time.Duration
	err      error
	done     bool // everything written
	wrote    int
	left     time.Duration
	leave    bool
	gone     bool
}

func (l *psPub) lastKey(before time.Duration) int {
	k := -1
	for i, p := range l.av {
		if p.at >= 0 && p.at <= before && p.p.IsKeyFrame {
			k = i
		}
	}
	return k
}

// psSub is one subscriber's stay.
type psSub struct {
	id       int
	path     string
	proc     *vsim.Proc
	start    time.Duration
	joined   time.Duration // play command sent
	real     bool
	slow     time.Duration // pause per message
	stallAt  int           // stop reading after this many messages
	stallFor time.Duration
	buf      int
	leaveAt  time.Duration
	how      string
	left     time.Duration
	got      []*psGot
	err      error
	done     bool
	leave    bool
	status   bool
	firstAt  time.Duration
	retired  bool          // belongs to an earlier generation
	playAt   time.Duration // hold the play command until then
	exact    bool          // leave at leaveAt to the tick
}

type psGot struct {
	p       av.Packet
	life    *psPub
	idx     int
	at      time.Duration
	v, a, m []byte
}

type psWorld struct {
	srv    *vsim.Proc
	pubs   []*psPub
	subs   []*psSub
	nextID int
	link   vsim.LinkCfg
}

const psAddr = "srv:1935"

// psMedia makes a stream whose payloads identify publisher and position.
func (w *psWorld) psMedia(l *psPub) {
	id := l.id
	kind := vsim.Weighted(vsim.StWork, 6, 2, 2)
	n := vsim.Range(vsim.StWork, 1, vsim.Pick(vsim.StWork, 4, 15, 60))
	gop := vsim.Pick(vsim.StWork, 1, 2, 4, 10, 1000)
	t := int64(vsim.Pick(vsim.StWork, 0, 0, 1000, 0xfffff0))
	maxSize := vsim.Pick(vsim.StWork, 30, 300, 5000)
	hdr := 0
	var v, a, m []byte
	mk := func(tag byte) []byte {
		hdr++
		b := []byte{tag, 0, 0, 0, 0, byte(id), byte(hdr), 1}
		return append(b, payload(id*100+hdr, vsim.Draw(vsim.StWork, 20))...)
	}
	add := func(p av.Packet) { p.Time = msT(t); l.media = append(l.media, p) }
	putHdr := func(k int) {
		switch k {
		case 0:
			if kind != 1 {
				v = mk(1)
				add(av.Packet{Type: av.H264DecoderConfig, Data: v})
			}
		case 1:
			if kind != 2 {
				a = mk(2)
				add(av.Packet{Type: av.AACDecoderConfig, Data: a})
			}
		case 2:
			hdr++
			m = amfVals(obj{{"id", float64(id*1000 + hdr)}, {"encoder", "sim"}})
			add(av.Packet{Type: av.Metadata, Data: m})
		}
	}
	// kind 0: audio+video, 1: audio, 2: video
	if !vsim.Bool(vsim.StWork, 1, 8) {
		o := vsim.Draw(vsim.StWork, 2)
		if vsim.Bool(vsim.StWork, 2, 3) {
			putHdr(2)
		}
		putHdr(o)
		putHdr(1 - o)
	}
	since := 1 << 20
	if vsim.Bool(vsim.StWork, 1, 5) {
		since = 0 // starts in the middle of a GOP
	}
	for i := 0; i < n; i++ {
		if i > 0 && vsim.Bool(vsim.StWork, 1, 10) {
			putHdr(vsim.Draw(vsim.StWork, 3))
		}
		isV := kind == 2 || kind == 0 && vsim.Bool(vsim.StWork, 1, 2)
		d := make([]byte, 8+vsim.Draw(vsim.StWork, maxSize))
		vsim.FillBytes(d, uint64(id*10000+i))
		binary.BigEndian.PutUint32(d, 0x5A5A0000|uint32(id))
		binary.BigEndian.PutUint32(d[4:], uint32(len(l.av)))
		p := av.Packet{Type: av.AAC, Data: d, Time: msT(t)}
		if isV {
			p.Type = av.H264
			since++
			if since >= gop {
				p.IsKeyFrame = true
				since = 0
			}
			p.CTime = msT(int64(vsim.Pick(vsim.StWork, 0, 40)))
		}
		x := &psPkt{p: p, v: v, a: a, m: m, at: -1}
		l.byIdx[len(l.media)] = x
		l.av = append(l.av, x)
		l.media = append(l.media, p)
		t += int64(vsim.Draw(vsim.StWork, 50))
	}
}

func (w *psWorld) newPub(path string, start time.Duration) *psPub {
	w.nextID++
	l := &psPub{id: w.nextID, path: path, start: start, byIdx: map[int]*psPkt{}, accepted: -1, left: -1}
	w.psMedia(l)
	l.pace = vsim.Pick(vsim.StWork, 0, 0, 5*time.Millisecond, 40*time.Millisecond, 300*time.Millisecond, 3*time.Second)
	l.how = vsim.Pick(vsim.StFault, "stay", "stay", "close", "close", "reset", "crash")
	l.hold = vsim.Pick(vsim.StWork, 0, 0, 100*time.Millisecond, 2*time.Second, 10*time.Second)
	w.pubs = append(w.pubs, l)
	l.proc = vsim.NewProc(fmt.Sprintf("pub%d", l.id))
	l.proc.Go(l.proc.Name, func() { w.runPub(l) })
	return l
}

func (w *psWorld) runPub(l *psPub) {
	vsim.Sleep(l.start - vsim.Elapsed())
	c, nc, err := dialRTMP("rtmp://"+psAddr+l.path+"?t=1", true, false)
	if err != nil {
		l.err, l.gone = err, true
		vsim.Log("publisher %d: %v", l.id, err)
		return
	}
	l.accepted = vsim.Elapsed()
	cut := len(l.media)
	if l.how == "crash" || l.how == "reset" {
		cut = vsim.Draw(vsim.StFault, len(l.media)+1)
	}
	for i, p := range l.media {
		if i >= cut || l.leave {
			break
		}
		if err := c.WritePacket(p); err != nil {
			l.err = err
			vsim.Log("publisher %d: write: %v", l.id, err)
			break
		}
		l.wrote = i + 1
		if x := l.byIdx[i]; x != nil {
			x.at = vsim.Elapsed()
		}
		if l.pace > 0 {
			vsim.Sleep(l.pace)
		}
	}
	l.done = l.err == nil && l.wrote == len(l.media)
	if l.err == nil {
		vsim.Sleep(l.exactAt - vsim.Elapsed())
		for end := vsim.Elapsed() + l.hold; l.exactAt == 0 && !l.leave && (l.how == "stay" || vsim.Elapsed() < end); {
			vsim.Sleep(100 * time.Millisecond)
		}
	}
	l.left = vsim.Elapsed()
	switch l.how {
	case "crash":
		vsim.Fault("publisher_crash")
		vsim.At(0, func() { l.gone = true; l.proc.Crash() })
		vsim.Sleep(time.Hour)
	case "reset":
		for _, x := range l.proc.OpenConns() {
			x.Reset()
		}
	}
	nc.Close()
	l.gone = true
}

func (w *psWorld) newSub(path string, start time.Duration) *psSub {
	s := &psSub{id: len(w.subs), path: path, start: start, left: -1, joined: -1, stallAt: -1, firstAt: -1}
	switch vsim.Weighted(vsim.StWork, 6, 2, 2) {
	case 1:
		s.slow = vsim.Pick(vsim.StFault, 20*time.Millisecond, 200*time.Millisecond)
		vsim.Fault("slow_subscriber")
	case 2:
		s.stallAt = vsim.Draw(vsim.StFault, 12)
		s.stallFor = vsim.Pick(vsim.StFault, time.Second, 10*time.Second, time.Hour)
		vsim.Fault("stalled_subscriber")
	}
	s.buf = vsim.Pick(vsim.StNet, 0, 0, 300, 1000)
	s.how = vsim.Pick(vsim.StFault, "close", "reset", "crash")
	s.leaveAt = 10000 * time.Hour
	if vsim.Bool(vsim.StFault, 1, 3) {
		s.leaveAt = start + time.Duration(vsim.Draw(vsim.StFault, 15000))*time.Millisecond
	}
	s.real = vsim.Bool(vsim.StWork, 1, 4)
	w.subs = append(w.subs, s)
	s.proc = vsim.NewProc(fmt.Sprintf("sub%d", s.id))
	s.proc.Harness = !s.real
	s.proc.Go(s.proc.Name, func() { w.runSub(s) })
	return s
}

func (s *psSub) fast() bool { return s.slow == 0 && s.stallFor == 0 }

func (w *psWorld) runSub(s *psSub) {
	vsim.Sleep(s.start - vsim.Elapsed())
	var v, a, m []byte
	n := 0
	take := func(p av.Packet) {
		n++
		switch p.Type {
		case av.H264DecoderConfig:
			v = append([]byte(nil), p.Data...)
		case av.AACDecoderConfig:
			a = append([]byte(nil), p.Data...)
		case av.Metadata:
			m = append([]byte(nil), p.Data...)
		default:
			if s.firstAt < 0 {
				s.firstAt = vsim.Elapsed()
			}
			s.got = append(s.got, &psGot{p: copyPkt(p), at: vsim.Elapsed(), v: v, a: a, m: m})
			vsim.Log("subscriber %d got %s", s.id, pktDesc(p))
			return
		}
		vsim.Log("subscriber %d got %s", s.id, pktDesc(p))
	}
	pause := func() {
		if s.slow > 0 {
			vsim.Sleep(s.slow)
		}
		if n == s.stallAt {
			s.stallAt = -2
			vsim.Sleep(s.stallFor)
		}
	}
	var end func()
	if s.real {
		s.joined = vsim.Elapsed()
		c, nc, err := dialRTMP("rtmp://"+psAddr+s.path, false, false)
		if err != nil {
			s.err, s.done, s.left = err, true, vsim.Elapsed()
			return
		}
		s.status = true
		end = func() { nc.Close() }
		s.proc.Go("read", func() {
			for {
				p, err := c.ReadPacket()
				if err != nil {
					s.err, s.done = err, true
					return
				}
				take(p)
				pause()
			}
		})
	} else {
		c, err := vsim.DialAs(s.proc, nil, psAddr, 0)
		if err != nil {
			s.err, s.done = err, true
			return
		}
		if s.buf > 0 {
			k := *c.Cfg()
			k.Buf = s.buf
			*c.Cfg() = k
		}
		p := newPeer(c)
		r := p.negotiate(sessOpt{hs: hsSimple, app: s.path[1:4], stream: s.path[5:], tcurl: "rtmp://" + psAddr + s.path[:4], hook: func(_ *rpeer, at int) error {
			if at == 2 {
				vsim.Sleep(s.playAt - vsim.Elapsed())
			}
			return nil
		}})
		if r.err != nil || r.bad != "" {
			s.err, s.done = fmt.Errorf("negotiation: %v %s", r.err, r.bad), true
			return
		}
		s.joined = vsim.Elapsed()
		end = func() { c.Close() }
		s.proc.Go("read", func() {
			for {
				msg, err := p.next()
				if err != nil {
					s.err, s.done = err, true
					return
				}
				if k, ok := msgToPkt(msg); ok {
					take(k)
					pause()
				} else if cm := parseCmd(msg); cm != nil && cm.name == "onStatus" {
					s.status = true
				}
			}
		})
	}
	for !s.leave && !s.done && vsim.Elapsed() < s.leaveAt {
		if s.exact {
			vsim.Sleep(min(s.leaveAt-vsim.Elapsed(), 50*time.Millisecond))
		} else {
			vsim.Sleep(50 * time.Millisecond)
		}
	}
	s.left = vsim.Elapsed()
	if s.done {
		end()
		return
	}
	vsim.Fault("subscriber_" + s.how)
	switch s.how {
	case "crash":
		vsim.At(0, func() { s.proc.Crash() })
	case "reset":
		for _, x := range s.proc.OpenConns() {
			x.Reset()
		}
		fallthrough
	case "close":
		end()
	}
}

// identify finds the published packet behind a delivered one.
func (w *psWorld) identify(s *psSub, g *psGot) string {
	d := g.p.Data
	if len(d) < 8 || d[0] != 0x5a || d[1] != 0x5a {
		return "packet that was never published"
	}
	id, idx := int(binary.BigEndian.Uint16(d[2:])), int(binary.BigEndian.Uint32(d[4:]))
	for _, l := range w.pubs {
		if l.id == id && idx < len(l.av) {
			g.life, g.idx = l, idx
			if x := samePkt(l.av[idx].p, g.p); x != "" {
				return "published packet altered (" + x + ")"
			}
			if l.path != s.path {
				return "packet of another stream (" + l.path + ")"
			}
			return ""
		}
	}
	return "packet that was never published"
}

func noHdr(b []byte) bool { return len(b) == 0 }
func sameMeta(want, got []byte) bool {
	if noHdr(want) {
		if noHdr(got) {
			return true
		}
		n := amfNorm(got)
		return n == amfNorm(amfVals(obj{})) || n == amfNorm(amfVals(nil))
	}
	return !noHdr(got) && amfNorm(want) == amfNorm(got)
}

const psSlack = 4 * time.Second

// before reports whether publisher a surely took the stream before b did.
func psBefore(a, b *psPub) bool {
	return a.accepted >= 0 && b.accepted >= 0 && a.accepted+psSlack < b.accepted
}

// psCheck applies the history oracle; complete: the world is quiet and
// everything that will be delivered has been.
func (w *psWorld) check() {
	type pair struct{ a, b *psPub }
	prec := map[pair]*psSub{}
	for _, s := range w.subs {
		for _, g := range s.got {
			if g.life == nil {
				if e := w.identify(s, g); e != "" {
					fail("C18", "alien", "subscriber %d of %s was sent a %s: %s", s.id, s.path, e, pktDesc(g.p))
					return
				}
			}
		}
		// within one publisher: order, gaps, headers
		var seen []*psPub
		var prev *psGot
		for i, g := range s.got {
			l := g.life
			if prev == nil || prev.life != l {
				for _, o := range seen {
					if o == l {
						fail("C18", "interleaved", "subscriber %d: packets of publisher %d resume after publisher %d took over", s.id, l.id, prev.life.id)
						return
					}
				}
				for _, o := range seen {
					prec[pair{o, l}] = s
					if psBefore(l, o) {
						fail("C18", "old_publisher", "subscriber %d: packet of publisher %d (accepted %v) after packets of publisher %d (accepted %v)", s.id, l.id, l.accepted, o.id, o.accepted)
						return
					}
				}
				seen = append(seen, l)
				if g.idx != 0 && !g.p.IsKeyFrame {
					fail("C19", "mid_gop", "subscriber %d: first packet from publisher %d is number %d, not a key frame: %s", s.id, l.id, g.idx, pktDesc(g.p))
					return
				}
				if i == 0 && s.joined >= 0 && l.accepted >= 0 && l.accepted < s.joined {
					if k := l.lastKey(s.joined - psSlack); k > g.idx {
						fail("C19", "stale_start", "subscriber %d joined at %v; key frame %d was published at %v but delivery starts at packet %d", s.id, s.joined, k, l.av[k].at, g.idx)
						return
					}
				}
			} else {
				if g.idx <= prev.idx {
					fail("C18", "order", "subscriber %d: packet %d of publisher %d delivered after packet %d", s.id, g.idx, l.id, prev.idx)
					return
				}
				if g.idx != prev.idx+1 && !g.p.IsKeyFrame {
					fail("C18", "gap", "subscriber %d: delivery jumps from packet %d to %d of publisher %d, which is not a key frame", s.id, prev.idx, g.idx, l.id)
					return
				}
				if g.idx != prev.idx+1 {
					vsim.Probe("subscriber_skipped_ahead")
					if s.fast() && s.buf == 0 && w.link.Buf >= 65536 && l.pace >= 3*time.Second {
						fail("C20", "skipped", "subscriber %d keeps up with a publisher that pauses %v between packets, yet was not sent packet %d", s.id, l.pace, prev.idx+1)
						return
					}
				}
			}
			// headers
			want := l.av[g.idx]
			if !sameMeta(want.m, g.m) {
				fail("C19", "metadata", "subscriber %d: metadata before packet %d of publisher %d is %s, published under %s", s.id, g.idx, l.id, amfNorm(g.m), amfNorm(want.m))
				return
			}
			if g.p.Type == av.AAC && !bytes.Equal(want.a, g.a) {
				fail("C19", "audio_header", "subscriber %d: audio configuration before packet %d of publisher %d is %x, published under %x", s.id, g.idx, l.id, g.a, want.a)
				return
			}
			if g.p.Type == av.H264 && g.p.IsKeyFrame && !bytes.Equal(want.v, g.v) {
				fail("C19", "video_header", "subscriber %d: video configuration before key frame %d of publisher %d is %x, published under %x", s.id, g.idx, l.id, g.v, want.v)
				return
			}
			prev = g
		}
	}
	for p, s := range prec {
		if t := prec[pair{p.b, p.a}]; t != nil {
			fail("C18", "disagree", "subscribers %d and %d saw publishers %d and %d in opposite orders", s.id, t.id, p.a.id, p.b.id)
			return
		}
	}
}

// current is the publisher that surely owns the path, nil when unclear.
func (w *psWorld) current(path string) *psPub {
	var cur *psPub
	for _, l := range w.pubs {
		if l.path == path && l.accepted >= 0 && (cur == nil || l.accepted > cur.accepted) {
			cur = l
		}
	}
	for _, l := range w.pubs {
		if l.path != path || l == cur {
			continue
		}
		if l.accepted >= 0 && !psBefore(l, cur) {
			return nil
		}
		if l.accepted < 0 && l.err != nil {
			return nil // it may have got through without knowing
		}
	}
	return cur
}

// missing reports what a quiet world still owes its subscribers.
func (w *psWorld) missing(f func(prop, class, msg string)) bool {
	owe := false
	for _, s := range w.subs {
		if !s.fast() || s.joined < 0 || s.left >= 0 || s.leave {
			continue
		}
		l := w.current(s.path)
		if l == nil || len(l.av) == 0 {
			continue
		}
		last := -1
		for i, x := range l.av {
			if x.at >= 0 {
				last = i
			}
		}
		if last < 0 || l.left >= 0 && (l.how == "crash" || l.how == "reset" || s.joined > l.left-psSlack) {
			continue
		}
		if l.err != nil {
			continue
		}
		n := -1
		for _, g := range s.got {
			if g.life == nil {
				w.identify(s, g)
			}
			if g.life == l {
				n = g.idx
			}
		}
		if n != last {
			owe = true
			if f != nil {
				if n < 0 && s.joined > l.accepted {
					f("C19", "no_start", fmt.Sprintf("subscriber %d joined %s at %v while publisher %d had published; at %v it has been sent nothing (err %v)", s.id, s.path, s.joined, l.id, vsim.Elapsed(), s.err))
				}
				f("C20", "forgotten", fmt.Sprintf("subscriber %d of %s has packet %d of publisher %d, but packet %d was published at %v and it is now %v (err %v)", s.id, s.path, n, l.id, last, l.av[last].at, vsim.Elapsed(), s.err))
			}
		}
	}
	return owe
}

// delivered counts the packets the owed subscribers have.
func (w *psWorld) delivered() (n int) {
	for _, s := range w.subs {
		if s.fast() {
			n += len(s.got)
		}
	}
	return
}

// dropped looks for sessions the server ended without reason.
func (w *psWorld) dropped() {
	for _, s := range w.subs {
		if s.retired {
			continue
		}
		if s.done && s.left < 0 && s.joined >= 0 {
			if s.real && !s.status {
				continue // a client's own time limit while nothing is published
			}
			fail("C20", "dropped", "subscriber %d of %s lost its session: %v", s.id, s.path, s.err)
		}
		if s.done && s.joined < 0 {
			fail("C20", "refused", "subscriber %d of %s could not join: %v", s.id, s.path, s.err)
		}
	}
	for _, l := range w.pubs {
		if l.err == nil {
			continue
		}
		if l.accepted < 0 {
			rival := false // another publisher may have replaced it before its session was set up
			for _, o := range w.pubs {
				if o != l && o.path == l.path && o.start <= vsim.Elapsed() && (o.accepted < 0 || o.accepted+psSlack >= l.start) {
					rival = true
				}
			}
			if rival {
				continue
			}
			fail("C20", "refused", "publisher %d of %s could not start: %v", l.id, l.path, l.err)
			continue
		}
		replaced := false
		for _, o := range w.pubs {
			if o != l && o.path == l.path && !psBefore(o, l) && o.start <= vsim.Elapsed() {
				replaced = true
			}
		}
		if !replaced {
			fail("C20", "dropped", "publisher %d of %s lost its session: %v", l.id, l.path, l.err)
		}
	}
}

// replacedStop checks that a replaced publisher that keeps writing is cut off.
func (w *psWorld) replacedStop() {
	for _, l := range w.pubs {
		if l.err != nil || l.accepted < 0 {
			continue
		}
		for _, o := range w.pubs {
			if o.path != l.path || !psBefore(l, o) {
				continue
			}
			n := 0
			var lastAt time.Duration
			for _, x := range l.av {
				if x.at > o.accepted+psSlack && x.at > lastAt+500*time.Millisecond {
					n++
					lastAt = x.at
				}
			}
			if n >= 5 {
				fail("C21", "old_publisher_kept", "publisher %d wrote %d more packets without an error, over several seconds, after publisher %d replaced it", l.id, n, o.id)
				return
			}
			if n >= 1 {
				vsim.Probe("replaced_publisher_wrote_on")
			}
		}
	}
}

func (w *psWorld) generation(paths []string) {
	base := vsim.Elapsed()
	at := func(max int) time.Duration { return base + time.Duration(vsim.Draw(vsim.StWork, max))*time.Millisecond }
	for _, p := range paths {
		t := at(3000)
		for k := vsim.Range(vsim.StWork, 1, 3); k > 0; k-- {
			w.newPub(p, t)
			t += time.Duration(vsim.Pick(vsim.StWork, 0, 50, 1000, 6000, 15000)) * time.Millisecond
		}
	}
	for k := vsim.Range(vsim.StWork, 1, 6); k > 0; k-- {
		w.newSub(vsim.Pick(vsim.StWork, paths...), at(vsim.Pick(vsim.StWork, 100, 5000, 25000)))
	}
}

// handover makes clients join a stream at the very moment the only other
// client leaves it.
func (w *psWorld) handover() (paths []string) {
	t := vsim.Elapsed() + 2*time.Second
	for i := vsim.Range(vsim.StWork, 1, 5); i > 0; i-- {
		path := fmt.Sprintf("/app/h%d", i)
		paths = append(paths, path)
		plain := func() *psSub {
			s := w.newSub(path, vsim.Elapsed())
			s.slow, s.stallAt, s.stallFor, s.buf, s.real, s.exact = 0, -1, 0, 0, false, true
			s.proc.Harness = true
			s.leaveAt = 10000 * time.Hour
			return s
		}
		off := func() time.Duration {
			if w.link.Latency == 0 {
				return 0
			}
			return time.Duration(vsim.Range(vsim.StWork, -1, 1)) * time.Millisecond
		}
		if vsim.Bool(vsim.StWork, 1, 4) {
			// the last to leave is a publisher
			l := w.newPub(path, vsim.Elapsed())
			l.how, l.exactAt = "close", t
			l.pace = 0
		} else {
			a := plain()
			a.leaveAt = t
		}
		if vsim.Bool(vsim.StWork, 1, 3) {
			w.newPub(path, t+off())
		} else {
			b := plain()
			b.playAt = t + off()
			if vsim.Bool(vsim.StWork, 1, 4) {
				c := plain()
				c.playAt = t + off()
			}
		}
		// those that come later have to meet those that came then
		late := t + time.Duration(vsim.Range(vsim.StWork, 1, 3000))*time.Millisecond
		if vsim.Bool(vsim.StWork, 2, 3) {
			w.newPub(path, late)
		}
		c := plain()
		c.start = late + time.Duration(vsim.Draw(vsim.StWork, 8000))*time.Millisecond
		vsim.Probe("handover")
	}
	return
}

func psRun()      { psWorldRun(false) }
func psHandover() { psWorldRun(true) }

func psWorldRun(handover bool) {
	setBufio()
	w := &psWorld{}
	setAtomStall()
	link := vsim.PlainLink()
	link.Latency = vsim.Pick(vsim.StNet, 0, time.Millisecond, 20*time.Millisecond, 150*time.Millisecond)
	link.Jitter = vsim.Pick(vsim.StNet, 0, 0, 5*time.Millisecond)
	link.Buf = vsim.Pick(vsim.StNet, 65536, 4096, 65536)
	link.Seg = vsim.Pick(vsim.StNet, 0, 1460, 100)
	link.OneSeg = vsim.Bool(vsim.StNet, 1, 2)
	w.link = link
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	if vsim.Bool(vsim.StFault, 1, 6) {
		left := vsim.Range(vsim.StFault, 1, 4)
		vsim.S.Net.AcceptErr = func(l *vsim.Listener) error {
			if left > 0 && vsim.Bool(vsim.StFault, 1, 3) {
				left--
				return syscall.EMFILE
			}
			return nil
		}
	}
	w.srv = vsim.NewProc("server")
	startAvtool(w.srv, "pubsubrtmp", psAddr)
	if !vsim.WaitUntil(time.Millisecond, time.Minute, func() bool { return vsim.Listening(psAddr) || vsim.Failed() }) {
		fail(Cur, "listen", "server does not listen")
		return
	}
	baseTasks := 0
	vsim.Sleep(10 * time.Millisecond)
	baseTasks = w.srv.NTasks()
	names := [][]string{
		{"/app/s0", "/app/s1", "/app/s2", "/app/s3"},
		{"/app/s", "/app/S", "/APP/s", "/app/S1"},
		{"/app/s", "/app/s1", "/app/s10", "/app/s01"},
		{"/app/s", "/apb/s", "/apc/s", "/apd/s"},
		{"/app/s", "/app/s.flv", "/app/s_hd", "/app/s-1"},
		{"/app/a", "/app/b", "/app/a/b", "/app/b/a"},
	}[vsim.Weighted(vsim.StWork, 5, 1, 1, 1, 1, 1)]
	var paths []string
	for i := vsim.Weighted(vsim.StWork, 3, 2, 1); i >= 0; i-- {
		paths = append(paths, names[i])
	}
	gens := 1
	if Cur == "C21" || vsim.Bool(vsim.StWork, 1, 5) {
		gens = 2
	}
	var oldPubs []*psPub
	for g := 0; g < gens; g++ {
		ns := len(w.subs)
		if handover {
			paths = w.handover()
		} else {
			w.generation(paths)
		}
		// let it happen
		vsim.WaitUntil(200*time.Millisecond, 300*time.Second, func() bool {
			if vsim.Failed() || w.srv.Dead {
				return true
			}
			for _, l := range w.pubs {
				if !(l.gone || l.done && l.how == "stay") {
					return false
				}
			}
			for _, s := range w.subs {
				if s.joined < 0 && !s.done && s.leaveAt > vsim.Elapsed() {
					return false
				}
			}
			return true
		})
		if vsim.Failed() {
			return
		}
		if w.srv.Dead {
			fail(Cur, "server_died", "the server process ended (exit %d)", w.srv.Code)
			return
		}
		for _, l := range w.pubs {
			if !(l.gone || l.done && l.how == "stay") {
				fail("C20", "publisher_stuck", "publisher %d of %s is still blocked after %d of %d packets", l.id, l.path, l.wrote, len(l.media))
				return
			}
		}
		// quiet: everything owed arrives
		n, since := -1, vsim.Elapsed()
		vsim.WaitUntil(100*time.Millisecond, time.Hour, func() bool {
			if m := w.delivered(); m != n {
				n, since = m, vsim.Elapsed()
			}
			return vsim.Failed() || !w.missing(nil) || vsim.Elapsed() > since+30*time.Second
		})
		if !vsim.Failed() && w.missing(nil) {
			w.missing(func(p, c, m string) { fail(p, c, "%s", m) })
		}
		w.dropped()
		w.replacedStop()
		w.check()
		if vsim.Failed() {
			return
		}
		for _, s := range w.subs[ns:] {
			for _, x := range s.got {
				for _, o := range oldPubs {
					if x.life == o {
						fail("C21", "stale", "subscriber %d, which joined after everybody had left %s, was sent packet %d of publisher %d", s.id, s.path, x.idx, o.id)
						return
					}
				}
			}
		}
		if g == gens-1 && Cur != "C21" {
			break
		}
		// everybody leaves
		for _, l := range w.pubs {
			l.leave = true
		}
		for _, s := range w.subs {
			s.leave = true
		}
		idle := func() bool { return w.srv.NTasks() <= baseTasks && len(w.srv.OpenConns()) == 0 }
		if !vsim.WaitUntil(200*time.Millisecond, 60*time.Second, func() bool {
			for _, l := range w.pubs {
				if !l.gone {
					return false
				}
			}
			for _, s := range w.subs {
				if s.left < 0 && !(s.done && s.joined < 0) {
					return false
				}
			}
			return idle()
		}) {
			if n := len(w.srv.OpenConns()); n > 0 {
				fail("C21", "leak_conn", "every client has left, the server still holds %d connections", n)
			} else if w.srv.NTasks() > baseTasks {
				fail("C21", "leak_task", "every client has left, the server still runs %d tasks more than when idle: %v", w.srv.NTasks()-baseTasks, w.srv.Blocked())
			} else {
				fail("C20", "client_stuck", "clients cannot leave")
			}
			return
		}
		vsim.Probe("server_idle_again")
		oldPubs = append([]*psPub(nil), w.pubs...)
		w.retire()
	}
	for _, s := range w.subs {
		if len(s.got) > 0 {
			vsim.Probe("subscriber_served")
		}
	}
}

// retire ends a generation: its publishers no longer count as current.
func (w *psWorld) retire() {
	for _, l := range w.pubs {
		l.accepted = -1
		l.err = nil
	}
	for _, s := range w.subs {
		s.retired, s.done, s.joined = true, false, -1
		s.leaveAt = 0
	}
}
