package scen

import (
	"encoding/binary"
	"net"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"

	"vsim/vsim"
)

func init() {
	reg(&Prop{ID: "C08", Title: "RTMP acknowledgements and pings", Real: rtmpReal, Stub: append(netStub, "the sending peer is an independent RTMP endpoint model"),
		Rule:  "Scenarios: the endpoint model sends media to a reading session of the code under test (either role), changing its window and interleaving ping requests anywhere.",
		Scens: []Scenario{{"reader", 3000, c08Reader}, {"long", 1, c08Long}}})
	reg(&Prop{ID: "C09", Title: "a lost RTMP peer is noticed", Real: rtmpReal, Stub: append(netStub, "independent RTMP endpoint model as the peer in most runs"),
		Rule:  "Scenarios: a writing session (idle or active) whose peer closes, is reset or dies at a drawn time after sending arbitrary data; a reading session likewise.",
		Scens: []Scenario{{"writer", 3, c09Writer}, {"reader", 1, c09Reader}}})
}

// waitProgress waits until cond holds; it gives up when nothing has moved for max.
func waitProgress(max time.Duration, mark func() int64, cond func() bool) bool {
	for {
		m := mark()
		if vsim.WaitUntil(20*time.Millisecond, max, func() bool { return cond() || mark() != m }) && cond() {
			return true
		}
		if mark() == m {
			return cond()
		}
	}
}

func c08Reader() {
	setBufio()
	mc := genMediaCfg()
	mc.n = vsim.Range(vsim.StWork, 1, 40)
	if mc.maxSize > 5000 && !vsim.Bool(vsim.StWork, 1, 4) {
		mc.maxSize = 5000
	}
	media := genMedia(mc)
	link := genLink()
	if link.Buf < 4096 {
		link.Buf = 4096
	}
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	sutServer := vsim.Bool(vsim.StWork, 1, 2)
	rx := &rxLog{}
	sut, mp := vsim.NewProc("sut"), vsim.NewProc("model")
	mp.Harness = true
	window := int64(2500000)
	var pings []uint32
	bad := ""
	sendPing := func(p *rpeer) error {
		ts := uint32(vsim.Pick(vsim.StWork, 0, 1, 0x7fffffff, 0xffffffff, 12345, 0x01020304, 0x80000000))
		if vsim.Bool(vsim.StWork, 1, 2) {
			ts = uint32(vsim.Draw(vsim.StWork, 1<<30)) * 4
		}
		pings = append(pings, ts)
		vsim.Log("model sends ping %d", ts)
		return p.ctl(4, append(be16(6), be32(ts)...))
	}
	setWindow := func(p *rpeer) error {
		w := vsim.Pick(vsim.StWork, 1, 10, 127, 500, 3000, 20000, 65536, 2500000, 5000)
		window = int64(w)
		return p.ctl(5, be32(uint32(w)))
	}
	negHook := func(p *rpeer, at int) error {
		for k := vsim.Draw(vsim.StWork, 3); k > 0; k-- {
			if vsim.Bool(vsim.StWork, 1, 2) {
				if err := sendPing(p); err != nil {
					return err
				}
				vsim.Probe("ping_in_negotiation")
			} else if err := setWindow(p); err != nil {
				return err
			}
		}
		return nil
	}
	// what the model has seen of the peer's control traffic
	seen := 0
	var pongs []uint32
	lastAck, acks := int64(0), 0
	look := func(p *rpeer) {
		for ; seen < len(p.msgs); seen++ {
			m := p.msgs[seen]
			switch m.typ {
			case 3:
				if len(m.data) != 4 {
					bad = "acknowledgement of the wrong size"
					return
				}
				v := int64(binary.BigEndian.Uint32(m.data))
				if v < lastAck {
					bad = "acknowledged byte count went backwards"
				}
				if v > p.c.SentBytes() {
					bad = "acknowledged more bytes than were sent"
				}
				lastAck = v
				acks++
			case 4:
				if len(m.data) >= 2 && binary.BigEndian.Uint16(m.data) == 7 {
					if len(m.data) != 6 {
						bad = "ping response of the wrong size"
						return
					}
					pongs = append(pongs, binary.BigEndian.Uint32(m.data[2:]))
				}
			}
		}
	}
	done := false
	badPong := func() bool {
		if len(pongs) > len(pings) {
			return true
		}
		for i := range pongs {
			if pongs[i] != pings[i] {
				return true
			}
		}
		return false
	}
	bound := 10*time.Second + 20*(link.Latency+link.Jitter)
	progress := func(p *rpeer) func() int64 {
		return func() int64 {
			return p.c.SentBytes() + p.c.Peer().ReadBytes() + p.c.Peer().SentBytes() + p.c.ReadBytes()
		}
	}
	modelIO := func(p *rpeer, sid uint32, publishing bool) {
		defer func() { done = true }()
		var rerr error
		rdone := false
		mp.Go("model-read", func() { rerr = nil; p.drain(); rerr = p.err; rdone = true })
		idx := 0
		for idx < len(media) {
			// a burst, then quiet
			for k := vsim.Range(vsim.StWork, 1, 12); k > 0; k-- {
				var err error
				switch x := vsim.Draw(vsim.StWork, 10); {
				case x == 0:
					// a window is in force from the message after it
					if err = setWindow(p); err == nil {
						err = sendPing(p)
					}
				case x <= 3:
					err = sendPing(p)
				case idx < len(media):
					m := pktToMsg(media[idx], publishing)
					m.sid = sid
					idx++
					b, started := encMsg(m, p.wchnk), false
					if x <= 5 && len(m.data) > p.wchnk && m.ts < 0xffffff {
						// put a control message between two chunks of this message
						head := 1 + 11 + p.wchnk
						if m.csid >= 64 {
							head += 2
						}
						if err = p.raw(b[:head]); err == nil {
							err = sendPing(p)
						}
						b = b[head:]
						vsim.Probe("ping_inside_message")
					}
					for err == nil && len(b) > int(window) && p.wchnk <= 5000 && len(m.data) > 3*p.wchnk && p.sent-lastAck+int64(len(b)) > window && m.ts < 0xffffff && x > 5 {
						// a sender that keeps within its window: it stops inside
						// the message until enough has been acknowledged
						n := p.wchnk + 1
						if m.csid >= 64 {
							n += 2
						}
						if !started {
							n += 11
						}
						started = true
						if n >= len(b) {
							break
						}
						if err = p.raw(b[:n]); err != nil {
							break
						}
						b = b[n:]
						if p.sent-lastAck <= window {
							continue
						}
						if !waitProgress(bound, progress(p), func() bool {
							look(p)
							return bad != "" || rdone || rx.done || p.sent-lastAck <= window
						}) {
							fail("C08", "no_ack", "%d bytes sent, %d acknowledged, window %d, %v after the sender stopped inside a message (%d acks)", p.sent, lastAck, window, bound, acks)
							return
						}
						vsim.Probe("ack_inside_message")
						if bad != "" || rdone || rx.done {
							break
						}
					}
					if err == nil {
						err = p.raw(b)
					}
				}
				if err != nil {
					bad = "connection failed on a healthy link: " + err.Error()
					return
				}
			}
			n := idx
			ok := waitProgress(bound, progress(p), func() bool {
				look(p)
				return bad != "" || rdone || rx.done || badPong() ||
					len(pongs) == len(pings) && p.sent-lastAck <= window && len(rx.pkts) >= n
			})
			if bad != "" {
				return
			}
			switch {
			case badPong():
				bad = "ping responses do not match the requests"
			case rdone || rx.done:
				bad = "session ended on a healthy link"
				if rerr != nil {
					bad += ": " + rerr.Error()
				}
			case !ok && len(pongs) != len(pings):
				fail("C08", "no_pong", "%d ping requests, %d responses %v after the sender went quiet", len(pings), len(pongs), bound)
				return
			case !ok && p.sent-lastAck > window:
				fail("C08", "no_ack", "%d bytes sent, %d acknowledged, window %d, %v after the sender went quiet (%d acks)", p.sent, lastAck, window, bound, acks)
				return
			case !ok:
				bad = "media not delivered"
			}
			if bad != "" {
				return
			}
		}
		p.c.Close()
	}
	sutIO := func(c *rtmp.Conn, nc net.Conn) {
		rx.pump(c)
		nc.Close()
	}
	if sutServer {
		srv := rtmp.NewServer()
		srv.HandleConn = sutIO
		serveRTMP(sut, srvAddr, srv)
		mp.Go("model", func() {
			c, err := vsim.DialAs(mp, nil, srvAddr, 0)
			if err != nil {
				panic(err)
			}
			p := newPeer(c)
			r := p.negotiate(sessOpt{hs: hsSimple, app: "app", stream: "stream", tcurl: "rtmp://" + srvAddr + "/app", publish: true, hook: negHook, chunk: vsim.Pick(vsim.StWork, 0, 128, 4096, 60000)})
			if r.err == nil && r.bad == "" {
				p.awaitStatus(&r, true)
			}
			if r.err != nil || r.bad != "" {
				bad, done = "negotiation failed", true
				return
			}
			modelIO(p, uint32(r.granted), true)
		})
	} else {
		lis, err := vsim.ListenAs(mp, srvAddr)
		if err != nil {
			panic(err)
		}
		mp.Go("model", func() {
			c, err := lis.AcceptConn()
			if err != nil {
				return
			}
			p := newPeer(c)
			r := p.serve(srvOpt{hs: hsSimple, sid: 1, chunk: vsim.Pick(vsim.StWork, 0, 128, 4096, 60000), noiseFn: negHook})
			if r.err != nil || r.bad != "" {
				bad, done = "negotiation failed", true
				return
			}
			modelIO(p, 1, false)
		})
		sut.Go("client", func() {
			c, nc, err := dialRTMP("rtmp://"+srvAddr+"/app/stream", false, vsim.Bool(vsim.StWork, 1, 2))
			if err != nil {
				bad, done = "dial failed: "+err.Error(), true
				return
			}
			sutIO(c, nc)
		})
	}
	vsim.WaitUntil(50*time.Millisecond, time.Hour, func() bool { return done || bad != "" || vsim.Failed() })
	if vsim.Failed() {
		return
	}
	if bad != "" {
		fail("C08", "protocol", "%s", bad)
		return
	}
	if !done {
		fail("C08", "stuck", "session did not finish")
		return
	}
	if !checkPrefix("C08", "session", media, rx.pkts) {
		return
	}
	if acks > 0 {
		vsim.Probe("acks_checked")
	}
	if len(pings) > 0 {
		vsim.Probe("pings_checked")
	}
}

// c08Long: more than 4 GiB arrive in one session, so the 32 bit total wraps.
func c08Long() {
	link := vsim.PlainLink()
	link.Buf = 8 << 20
	link.Latency = time.Duration(vsim.Range(vsim.StNet, 1, 20)) * time.Millisecond
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	sut, mp := vsim.NewProc("sut"), vsim.NewProc("model")
	mp.Harness = true
	n := 0
	var rerr error
	rdone := false
	srv := rtmp.NewServer()
	srv.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		c.Prepare(rtmp.StageCommandDone, 0)
		vsim.NoPreempt()
		for {
			if _, rerr = c.ReadTag(); rerr != nil {
				break
			}
			n++
		}
		nc.Close()
		rdone = true
	}
	serveRTMP(sut, srvAddr, srv)
	sent := 0
	over := false
	mp.Go("model", func() {
		defer func() { over = true }()
		c, err := vsim.DialAs(mp, nil, srvAddr, 0)
		if err != nil {
			panic(err)
		}
		p := newPeer(c)
		r := p.negotiate(sessOpt{hs: hsSimple, app: "app", stream: "stream", tcurl: "rtmp://" + srvAddr + "/app", publish: true})
		if r.err == nil && r.bad == "" {
			p.awaitStatus(&r, true)
		}
		if r.err != nil || r.bad != "" {
			fail("C08", "long", "negotiation failed")
			return
		}
		seen, acked, window := len(p.msgs), int64(0), int64(2500000)
		for _, m := range p.msgs {
			if m.typ == 3 {
				acked = int64(binary.BigEndian.Uint32(m.data))
			}
		}
		mp.Go("model-read", p.drain)
		look := func() bool {
			for ; seen < len(p.msgs); seen++ {
				m := p.msgs[seen]
				if m.typ != 3 || len(m.data) != 4 {
					continue
				}
				d := int32(binary.BigEndian.Uint32(m.data) - uint32(acked))
				if acked += int64(d); d < 0 || acked > p.c.SentBytes() {
					fail("C08", "long", "acknowledged total went from %d to %d with %d bytes sent", acked-int64(d), acked, p.c.SentBytes())
					return true
				}
			}
			return false
		}
		const size = 4 << 20
		p.setChunk(size)
		m := pktToMsg(av.Packet{Type: av.AAC, Data: make([]byte, size-2)}, true)
		m.sid = uint32(r.granted)
		m.ts = 0
		b := encMsg(m, p.wchnk)
		total := int64(1)<<32 + int64(vsim.Range(vsim.StWork, 20, 200))<<20
		for p.sent < total && !vsim.Failed() {
			if vsim.Bool(vsim.StWork, 1, 30) || p.sent > 1<<32-3*size && p.sent < 1<<32 {
				window = int64(vsim.Pick(vsim.StWork, 65536, 500000, 2500000, 10000000, 100000000, 500000000))
				p.ctl(5, be32(uint32(window)))
			}
			if err := p.raw(b); err != nil {
				fail("C08", "long", "the session failed after %d bytes on a healthy link: %v", p.sent, err)
				return
			}
			sent++
			if p.sent-acked > window {
				if !vsim.WaitUntil(5*time.Millisecond, 20*time.Second, func() bool { return look() || rdone || p.sent-acked <= window }) || rdone {
					fail("C08", "long", "%d bytes sent, %d acknowledged, window %d, 20 s after the sender went quiet (reader: %v)", p.sent, acked, window, rerr)
				}
			}
			look()
			p.msgs, seen = p.msgs[:0], 0
		}
		vsim.WaitUntil(5*time.Millisecond, 20*time.Second, func() bool { return n >= sent || rdone })
		if !vsim.Failed() && n != sent {
			fail("C08", "long", "%d of %d messages arrived, then %v", n, sent, rerr)
		}
		vsim.Probe("acks_past_4GiB")
		p.c.Close()
	})
	vsim.WaitUntil(time.Second, 10*time.Hour, func() bool { return over || vsim.Failed() })
}

// junk is unsolicited data a peer sends to a writing session.
func junk() []byte {
	var b []byte
	for k := vsim.Draw(vsim.StWork, 6); k > 0; k-- {
		switch vsim.Draw(vsim.StWork, 4) {
		case 0:
			b = append(b, payload(vsim.Draw(vsim.StWork, 1000), vsim.Pick(vsim.StWork, 1, 10, 1000, 30000))...)
		case 1:
			b = append(b, encMsg(&rmsg{csid: 2, typ: 3, data: be32(uint32(vsim.Draw(vsim.StWork, 100000)))}, 128)...)
		case 2:
			b = append(b, encMsg(&rmsg{csid: 2, typ: 4, data: append(be16(3), append(be32(1), be32(1000)...)...)}, 128)...)
		case 3:
			b = append(b, encMsg(audioMsg(1, 5, payload(3, vsim.Pick(vsim.StWork, 10, 100, 5000))), 128)...)
		}
	}
	return b
}

// c09Writer: an established writing session and a peer that goes away.
func c09Writer() {
	setBufio()
	link := genLink()
	if link.Buf < 4096 {
		link.Buf = 4096
	}
	junkData := junk()
	if vsim.Bool(vsim.StWork, 1, 60) { // a talkative peer
		link = vsim.PlainLink()
		link.Buf = 1 << 20
		link.Latency = time.Duration(vsim.Draw(vsim.StNet, 50)) * time.Millisecond
		junkData = append(junkData, payload(7, vsim.Range(vsim.StWork, 1, 16)<<18)...)
		vsim.Probe("unsolicited_megabytes")
	}
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	sutServer := vsim.Bool(vsim.StWork, 1, 2)
	how := vsim.Pick(vsim.StFault, "close", "reset", "crash", "stay")
	sut, mp := vsim.NewProc("sut"), vsim.NewProc("peer")
	mp.Harness = true
	after := time.Duration(vsim.Pick(vsim.StFault, 0, 1, 500, 2000, 16000, 100000)) * time.Millisecond
	active := vsim.Bool(vsim.StWork, 1, 2)
	peerReads := vsim.Bool(vsim.StWork, 3, 4)
	if how == "stay" && !peerReads {
		peerReads = true
	}
	wgap := time.Duration(vsim.Pick(vsim.StWork, 10, 100, 1000, 7000)) * time.Millisecond
	size := vsim.Pick(vsim.StWork, 10, 1000, 20000)
	if how == "stay" && active {
		after = min(after, 20*time.Second)
	}
	established, gone, notified := false, time.Duration(-1), time.Duration(-1)
	var werr error
	writing, ended, drained := false, false, false
	bad := ""
	sutIO := func(c *rtmp.Conn, nc net.Conn) {
		if err := c.Prepare(rtmp.StageCommandDone, rtmp.PrepareWriting); err != nil {
			if gone < 0 {
				bad = "prepare: " + err.Error()
			}
			ended = true
			return
		}
		established = true
		sut.Go("watch", func() {
			vsim.Recv(c.CloseNotify())
			notified = vsim.Elapsed()
			vsim.Log("close notification")
		})
		write := func(i int) bool {
			writing = true
			err := c.WritePacket(av.Packet{Type: av.AAC, Time: msT(int64(i)), Data: payload(i, size)})
			writing = false
			if err != nil {
				werr = err
				return false
			}
			return true
		}
		for i := 0; ; i++ {
			if ended {
				return
			}
			if (active || notified >= 0) && !write(i) {
				break
			}
			if notified >= 0 && i > 100000 {
				break
			}
			vsim.Sleep(wgap)
		}
		ended = true
		nc.Close()
	}
	peerIO := func(p *rpeer) {
		if peerReads {
			mp.Go("peer-read", p.drain)
		}
		p.c.SetWriteDeadline(vsim.WallNow().Add(60 * time.Second))
		if len(junkData) > 0 {
			vsim.Probe("unsolicited_data")
			if _, err := p.c.Write(junkData); err != nil && gone < 0 {
				bad = "writer's session does not drain what its peer sends: " + err.Error()
				return
			}
		}
		drained = true
		vsim.Sleep(after)
		if how == "stay" {
			if p.c.Peer().Unread() > 0 && !vsim.WaitUntil(time.Second, 60*time.Second, func() bool { return p.c.Peer().Unread() == 0 }) {
				fail("C09", "not_drained", "a writing session left %d bytes from its peer unread", p.c.Peer().Unread())
			}
			gone = vsim.Elapsed()
			return
		}
		gone = vsim.Elapsed()
		vsim.Log("peer goes: %s", how)
		vsim.Fault("peer_" + how)
		switch how {
		case "close":
			p.c.Close()
		case "reset":
			p.c.Reset()
		case "crash":
			vsim.At(0, func() { mp.Crash() })
		}
	}
	if sutServer {
		srv := rtmp.NewServer()
		srv.HandleConn = sutIO
		serveRTMP(sut, srvAddr, srv)
		mp.Go("peer", func() {
			c, err := vsim.DialAs(mp, nil, srvAddr, 0)
			if err != nil {
				panic(err)
			}
			p := newPeer(c)
			r := p.negotiate(sessOpt{hs: hsSimple, app: "app", stream: "s", tcurl: "rtmp://" + srvAddr + "/app"})
			if r.err == nil && r.bad == "" {
				p.awaitStatus(&r, false)
			}
			if r.err != nil || r.bad != "" {
				bad = "negotiation failed"
				return
			}
			peerIO(p)
		})
	} else {
		lis, err := vsim.ListenAs(mp, srvAddr)
		if err != nil {
			panic(err)
		}
		mp.Go("peer", func() {
			c, err := lis.AcceptConn()
			if err != nil {
				return
			}
			p := newPeer(c)
			r := p.serve(srvOpt{hs: hsSimple, sid: 1})
			if r.err != nil || r.bad != "" {
				bad = "negotiation failed"
				return
			}
			peerIO(p)
		})
		sut.Go("client", func() {
			c, nc, err := dialRTMP("rtmp://"+srvAddr+"/app/s", true, vsim.Bool(vsim.StWork, 1, 2))
			if err != nil {
				if gone < 0 {
					bad = "dial failed: " + err.Error()
				}
				ended = true
				return
			}
			sutIO(c, nc)
		})
	}
	ok := vsim.WaitUntil(50*time.Millisecond, 400*time.Second, func() bool { return gone >= 0 || bad != "" || vsim.Failed() })
	if vsim.Failed() {
		return
	}
	if bad != "" {
		fail("C09", "session", "%s", bad)
		return
	}
	if !ok {
		fail("C09", "stuck", "peer could not finish its script (drained %v)", drained)
		return
	}
	if notified >= 0 && notified < gone {
		fail("C09", "spurious", "close notification at %v while the peer was connected (left at %v)", notified, gone)
		return
	}
	if how == "stay" {
		vsim.Sleep(30 * time.Second)
		if notified >= 0 {
			fail("C09", "spurious", "close notification at %v while the peer is connected", notified)
		}
		if werr != nil {
			fail("C09", "spurious", "write failed while the peer is connected: %v", werr)
		}
		vsim.Probe("healthy_idle_checked")
		return
	}
	// what was still in flight has to arrive first
	bound := transferTime(&link, len(junkData)+200000) + 2*wgap
	if !vsim.WaitUntil(20*time.Millisecond, bound, func() bool { return notified >= 0 || !established && ended }) {
		fail("C09", "no_notify", "no close notification %v after the peer's %s (writer active %v)", bound, how, active)
		return
	}
	if notified < 0 {
		return
	}
	vsim.Probe("notified_after_" + how)
	wb := transferTime(&link, 500000)*2 + 5*wgap
	if !vsim.WaitUntil(20*time.Millisecond, wb, func() bool { return ended }) {
		if writing {
			fail("C09", "write_hang", "a write to a peer gone for %v is still blocked", wb)
		} else {
			fail("C09", "write_ok", "writes keep succeeding %v after the peer's %s", wb, how)
		}
	}
}

// c09Reader: a reading session is told when its peer goes.
func c09Reader() {
	setBufio()
	link := genLink()
	if link.Buf < 4096 {
		link.Buf = 4096
	}
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	publish := vsim.Bool(vsim.StWork, 1, 2)
	how := vsim.Pick(vsim.StFault, "close", "reset", "crash")
	mc := genMediaCfg()
	mc.n = vsim.Draw(vsim.StWork, 10)
	media := genMedia(mc)
	after := time.Duration(vsim.Pick(vsim.StFault, 0, 1, 500, 16000, 100000)) * time.Millisecond
	rx, tx := &rxLog{}, &txLog{}
	sp, cp := vsim.NewProc("server"), vsim.NewProc("client")
	gone := time.Duration(-1)
	var derr error
	sender := sp
	if publish {
		sender = cp
	}
	send := func(c *rtmp.Conn, nc net.Conn) {
		sendAll(tx, c, media)
		vsim.Sleep(after)
		gone = vsim.Elapsed()
		vsim.Fault("peer_" + how)
		switch how {
		case "close":
			nc.Close()
		case "reset":
			for _, x := range sender.OpenConns() {
				x.Reset()
			}
		case "crash":
			vsim.At(0, func() { sender.Crash() })
		}
	}
	srv := rtmp.NewServer()
	srv.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		if err := c.Prepare(rtmp.StageCommandDone, 0); err != nil {
			nc.Close()
			return
		}
		if publish {
			rx.pump(c)
			nc.Close()
		} else {
			send(c, nc)
		}
	}
	serveRTMP(sp, srvAddr, srv)
	cp.Go("client", func() {
		c, nc, err := dialRTMP("rtmp://"+srvAddr+"/app/s", publish, vsim.Bool(vsim.StWork, 1, 2))
		if err != nil {
			derr = err
			return
		}
		if publish {
			send(c, nc)
		} else {
			rx.pump(c)
			nc.Close()
		}
	})
	ok := vsim.WaitUntil(50*time.Millisecond, 1000*time.Second, func() bool { return derr != nil || gone >= 0 || rx.done || vsim.Failed() })
	if vsim.Failed() {
		return
	}
	if derr != nil || !ok {
		if gone < 0 {
			fail("C09", "session", "session on a healthy link: dial error %v, stuck %v", derr, !ok)
		}
		return
	}
	if gone < 0 {
		fail("C09", "spurious", "reader ended with %v while the peer is connected", rx.err)
		return
	}
	bound := transferTime(&link, pktsBytes(media)*2)
	if !vsim.WaitUntil(20*time.Millisecond, bound, func() bool { return rx.done || derr != nil }) {
		fail("C09", "no_notify", "reader still waiting %v after its peer's %s", bound, how)
		return
	}
	checkPrefix("C09", "session", tx.all(), rx.pkts)
	vsim.Probe("reader_told_after_" + how)
}
