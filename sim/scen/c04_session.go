package scen

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format"
	"github.com/nareix/joy5/format/rtmp"

	"vsim/vsim"
)

func init() {
	reg(&Prop{ID: "C04", Title: "RTMP session negotiation agrees", Real: rtmpReal, Stub: append(netStub, "independent RTMP client and server models"),
		Rule:  "Scenarios: several concurrent real clients against one real server, the model client against the real server, the real client against the model server, with unrelated messages in between.",
		Scens: []Scenario{{"real_real", 3, c04RealReal}, {"model_client", 3, c04ModelClient}, {"model_server", 3, c04ModelServer}}})
	reg(&Prop{ID: "C05", Title: "negotiation is bounded in time", Real: rtmpReal, Stub: append(netStub, "stalling and trickling peers are models"),
		Rule:  "Scenarios: peers that stall at a drawn byte, trickle, never read or never accept; and sessions that complete and then idle past the limit.",
		Scens: []Scenario{{"server_stalled", 4, c05Server}, {"client_stalled", 4, c05Client}, {"idle_after", 2, c05Idle}}})
	reg(&Prop{ID: "C06", Title: "refusal reaches the RTMP client", Real: rtmpReal, Stub: append(netStub, "independent RTMP client and server models"),
		Rule:  "Scenarios: a real or model client against a real server that accepts or refuses by a drawn plan; a real client against a model server that refuses at a drawn stage.",
		Scens: []Scenario{{"real_server", 4, c06RealServer}, {"model_server", 3, c06ModelServer}}})
}

func genSeg() string {
	s := vsim.Pick(vsim.StWork, "app", "live", "a", "stream-1", "x_y.z", "UPPER", "s%20p", "1", "caf%C3%A9")
	if vsim.Bool(vsim.StWork, 1, 10) {
		s += strings.Repeat("q", vsim.Pick(vsim.StWork, 1, 80, 130, 300))
	}
	return s
}

// genPath draws an application and stream, with an optional query.
func genPath(tag string) string {
	n := vsim.Range(vsim.StWork, 2, 4)
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, genSeg())
	}
	s := "/" + strings.Join(l, "/") + tag
	switch vsim.Draw(vsim.StWork, 5) {
	case 0:
		s += "?token=abc"
	case 1:
		s += "?a=1&b=x%2Fy&sign=Zm9v=="
	}
	return s
}

type sess struct {
	url     string
	publish bool
	media   []av.Packet
	tx      *txLog
	rx      *rxLog
	err     error
	dialed  bool
	seen    int
	noData  bool
}

func c04RealReal() {
	setBufio()
	link := genFastLink()
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	n := vsim.Range(vsim.StWork, 1, 4)
	var ss []*sess
	byKey := map[string]*sess{}
	host, scheme, addr := vsim.Pick(vsim.StWork, "srv:1935", "srv", "srv:1935"), "rtmp", srvAddr
	secure := vsim.Bool(vsim.StWork, 1, 12)
	if secure {
		scheme = "rtmps"
		if host == "srv" {
			addr = "srv:443"
		}
		vsim.Probe("over_tls")
	}
	for i := 0; i < n; i++ {
		s := &sess{publish: vsim.Bool(vsim.StWork, 1, 2), tx: &txLog{}, rx: &rxLog{}}
		s.url = scheme + "://" + host + genPath(fmt.Sprintf("-%d", i))
		mc := genMediaCfg()
		mc.n = vsim.Range(vsim.StWork, 1, 6)
		mc.maxSize = 200
		s.media = genMedia(mc)
		for j := range s.media {
			if t := s.media[j].Type; t == av.H264 || t == av.AAC {
				s.media[j].Data = payload(1000*(i+1)+j, len(s.media[j].Data))
			}
		}
		ss = append(ss, s)
		byKey[s.url] = s
	}
	sp := vsim.NewProc("server")
	srv := rtmp.NewServer()
	srv.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		u := c.URL.String()
		s := byKey[u]
		if s == nil {
			fail("C04", "url", "server was given the URL %q, no client asked for that: %v", u, keysOf(byKey))
			nc.Close()
			return
		}
		s.seen++
		if s.seen > 1 {
			fail("C04", "twice", "handler invoked %d times for %s", s.seen, u)
		}
		if c.Publishing != s.publish {
			fail("C04", "role", "server saw publishing=%v, client asked publishing=%v for %s", c.Publishing, s.publish, u)
		}
		if s.publish {
			s.rx.pump(c)
		} else {
			sendAll(s.tx, c, s.media)
		}
		nc.Close()
	}
	if secure {
		serveTLS(sp, addr, srv)
	} else {
		serveRTMP(sp, addr, srv)
	}
	for i, s := range ss {
		cp := vsim.NewProc(fmt.Sprintf("client%d", i))
		cp.Go(cp.Name, func() {
			vsim.Sleep(time.Duration(vsim.Draw(vsim.StWork, 100)) * time.Millisecond)
			// Open does not know rtmps
			c, nc, err := dialRTMP(s.url, s.publish, vsim.Bool(vsim.StWork, 1, 2) && (!secure || s.publish))
			s.err, s.dialed = err, true
			if err != nil {
				return
			}
			if s.publish {
				sendAll(s.tx, c, s.media)
			} else {
				s.rx.pump(c)
			}
			nc.Close()
		})
	}
	ok := vsim.WaitUntil(20*time.Millisecond, 400*time.Second, func() bool {
		for _, s := range ss {
			if !s.dialed || s.err == nil && !(s.rx.done && s.tx.done) {
				return false
			}
		}
		return true
	})
	for _, s := range ss {
		if s.err != nil {
			fail("C04", "refused", "session %s (publish=%v) failed on a healthy network: %v", s.url, s.publish, s.err)
			return
		}
		if !checkPrefix("C04", "session "+s.url, s.tx.all(), s.rx.pkts) {
			return
		}
		if ok && len(s.rx.pkts) != len(s.media) {
			fail("C04", "lost", "session %s: %d of %d packets", s.url, len(s.rx.pkts), len(s.media))
		}
	}
	if !ok {
		fail("C04", "stuck", "sessions did not finish")
	}
}

func keysOf(m map[string]*sess) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	if len(l) > 1 {
		sortStrings(l)
	}
	return
}

func sendAll(tx *txLog, c packetWriter, media []av.Packet) {
	for _, p := range media {
		if tx.write(c, p) != nil {
			break
		}
	}
	tx.done = true
}

// badCtl checks the protocol control messages an endpoint sent; granted is the
// message stream id it granted.
func badCtl(l []*rmsg, granted uint32) string {
	for _, m := range l {
		v := uint32(0)
		if len(m.data) >= 4 {
			v = binary.BigEndian.Uint32(m.data)
		}
		switch m.typ {
		case 1:
			if len(m.data) != 4 || v == 0 || v > 0x7fffffff {
				return fmt.Sprintf("chunk size message %x", m.data)
			}
		case 5:
			if len(m.data) != 4 || v == 0 {
				return fmt.Sprintf("window size message %x", m.data)
			}
		case 6:
			if len(m.data) != 5 || v == 0 || m.data[4] > 2 {
				return fmt.Sprintf("peer bandwidth message %x", m.data)
			}
		case 4:
			if len(m.data) < 6 || m.data[0] != 0 || m.data[1] == 3 && len(m.data) != 10 || m.data[1] != 3 && len(m.data) != 6 {
				return fmt.Sprintf("user control message %x", m.data)
			}
			if sid := binary.BigEndian.Uint32(m.data[2:]); m.data[1] <= 4 && sid != granted && (m.data[1] != 3 || sid != 0) {
				return fmt.Sprintf("user control message %x about stream %d, granted %d", m.data, sid, granted)
			}
		}
	}
	return ""
}

func c04ModelClient() {
	setBufio()
	link := genFastLink()
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	publish := vsim.Bool(vsim.StWork, 1, 2)
	app := genSeg()
	if vsim.Bool(vsim.StWork, 1, 3) {
		app += "/" + genSeg()
	}
	stream := genSeg()
	if vsim.Bool(vsim.StWork, 1, 3) {
		stream += "?k=v&n=1"
	}
	host := vsim.Pick(vsim.StWork, "srv:1935", "srv", "example.com")
	o := sessOpt{hs: vsim.Pick(vsim.StWork, hsSimple, hsDigest8, hsDigest772), app: app, stream: stream, tcurl: "rtmp://" + host + "/" + app,
		publish: publish, extras: vsim.Bool(vsim.StWork, 1, 2), chunk: vsim.Pick(vsim.StWork, 0, 128, 1, 4096, 65536), window: uint32(vsim.Pick(vsim.StWork, 0, 100, 2500000)),
		tid0: vsim.Pick(vsim.StWork, 0, 0, 6), keys: vsim.Draw(vsim.StWork, 2), pageurl: vsim.Pick(vsim.StWork, "", "http://page.example/x?y=1")}
	want := "rtmp://" + host + "/" + app + "/" + stream
	sp, mp := vsim.NewProc("server"), vsim.NewProc("model")
	mp.Harness = true
	seen := 0
	var gotURL string
	var gotPub bool
	var gotTc, gotPage, gotVer string
	srv := rtmp.NewServer()
	var serr error
	finished := false
	srv.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		seen++
		gotURL, gotPub, gotTc = c.URL.String(), c.Publishing, c.TcUrl
		gotPage, gotVer = c.PageUrl, c.FlashVer
		serr = c.Prepare(rtmp.StageCommandDone, 0)
		if c.Publishing {
			(&rxLog{}).pump(c)
		} else {
			vsim.Recv(c.CloseNotify())
		}
		nc.Close()
		finished = true
	}
	serveRTMP(sp, srvAddr, srv)
	var r sessRes
	done, ctlBad := false, ""
	mp.Go("model", func() {
		c, err := vsim.DialAs(mp, nil, srvAddr, 0)
		if err != nil {
			panic(err)
		}
		p := newPeer(c)
		r = p.negotiate(o)
		if r.err == nil && r.bad == "" {
			p.awaitStatus(&r, publish)
		}
		done = true
		vsim.Sleep(time.Second)
		ctlBad = badCtl(p.msgs, uint32(r.granted))
		if begin := append(be16(0), be32(uint32(r.granted))...); !publish && ctlBad == "" && r.err == nil && r.bad == "" {
			ctlBad = "the player was never told that its stream begins"
			for _, m := range p.msgs {
				if m.typ == 4 && bytes.Equal(m.data, begin) {
					ctlBad = ""
				}
			}
		}
		p.c.CloseWrite()
		p.drain()
		p.c.Close()
	})
	vsim.WaitUntil(20*time.Millisecond, 200*time.Second, func() bool { return done && finished })
	switch {
	case !done:
		fail("C04", "stuck", "negotiation with a model client did not finish")
	case r.bad != "":
		fail("C04", "protocol", "%s", r.bad)
	case r.err != nil:
		fail("C04", "refused", "negotiation with a model client failed: %v (%+v)", r.err, o)
	case seen != 1:
		fail("C04", "handler", "handler invoked %d times", seen)
	case gotURL != want:
		fail("C04", "url", "server was given %q, client asked for %q (app %q stream %q)", gotURL, want, app, stream)
	case gotTc != o.tcurl:
		fail("C04", "tcurl", "server was given tcUrl %q, client sent %q", gotTc, o.tcurl)
	case gotPage != o.pageurl || gotVer != "FMLE/3.0":
		fail("C04", "page", "server was given page %q of %q, client sent %q", gotPage, gotVer, o.pageurl)
	case ctlBad != "":
		fail("C04", "control", "%s", ctlBad)
	case gotPub != publish:
		fail("C04", "role", "server saw publishing=%v, client asked %v", gotPub, publish)
	case serr != nil:
		fail("C04", "refused", "accepting the session failed: %v", serr)
	case r.level != "status" || publish && r.status != "NetStream.Publish.Start" || !publish && r.status != "NetStream.Play.Start":
		fail("C04", "status", "final status %q %q", r.level, r.status)
	case r.statusSid != uint32(r.granted):
		fail("C04", "status_stream", "status sent on message stream %d, granted %v", r.statusSid, r.granted)
	case !finished:
		fail("C04", "stuck", "server session did not end")
	}
}

// negotiation noise a server may send between its answers
func negNoise(p *rpeer, publish bool) error {
	for k := vsim.Draw(vsim.StWork, 3); k > 0; k-- {
		var err error
		switch vsim.Draw(vsim.StWork, 7) {
		case 0:
			err = p.cmd(3, 0, "onBWDone", 0.0, nil, 8192.0)
		case 1:
			err = p.ctl(4, append(be16(6), be32(12345)...))
		case 2:
			err = p.ctl(5, be32(uint32(vsim.Pick(vsim.StWork, 2500000, 50))))
		case 3:
			err = p.ctl(4, append(be16(0), be32(1)...))
		case 4:
			err = p.setChunk(vsim.Pick(vsim.StWork, 128, 60000, 37, 4096))
		case 5:
			if publish {
				err = p.cmd(3, 0, "onFCPublish", 0.0, nil, obj{{"code", "NetStream.Publish.Start"}})
			} else {
				err = p.cmd(3, 0, "onFCSubscribe", 0.0, nil, obj{{"level", "status"}})
			}
		case 6:
			err = p.ctl(3, be32(77))
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func c04ModelServer() {
	setBufio()
	link := genFastLink()
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	publish := vsim.Bool(vsim.StWork, 1, 2)
	host := vsim.Pick(vsim.StWork, "srv:1935", "srv")
	path := genPath("")
	sut, mp := vsim.NewProc("client"), vsim.NewProc("model")
	mp.Harness = true
	lis, err := vsim.ListenAs(mp, srvAddr)
	if err != nil {
		panic(err)
	}
	so := srvOpt{hs: vsim.Pick(vsim.StWork, hsSimple, hsDigest8, hsDigest772), sid: uint32(vsim.Pick(vsim.StWork, 1, 2, 77, 1<<20)), chunk: vsim.Pick(vsim.StWork, 0, 128, 4096, 1)}
	if vsim.Bool(vsim.StWork, 1, 2) {
		so.noiseFn = func(p *rpeer, at int) error { return negNoise(p, publish) }
	}
	var r srvRes
	sdone, cdone := false, false
	var peer *rpeer
	mp.Go("model", func() {
		c, err := lis.AcceptConn()
		if err != nil {
			return
		}
		peer = newPeer(c)
		r = peer.serve(so)
		sdone = true
		peer.drain()
		c.Close()
	})
	var derr error
	var cc *rtmp.Conn
	mark := payload(4242, 40)
	sut.Go("client", func() {
		c, nc, err := dialRTMP("rtmp://"+host+path, publish, vsim.Bool(vsim.StWork, 1, 2))
		derr, cc = err, c
		if err == nil {
			if publish {
				c.WritePacket(av.Packet{Type: av.AAC, Data: mark})
			}
			vsim.Sleep(time.Second)
			nc.Close()
		}
		cdone = true
	})
	ok := vsim.WaitUntil(20*time.Millisecond, 200*time.Second, func() bool { return sdone && cdone && (peer == nil || peer.c.Closed()) })
	switch {
	case !ok:
		fail("C04", "stuck", "negotiation with a model server did not finish (server %v client %v)", sdone, cdone)
		return
	case r.bad != "":
		fail("C04", "protocol", "%s", r.bad)
		return
	case derr != nil:
		fail("C04", "refused", "open failed against a correct server: %v", derr)
		return
	case r.publish != publish:
		fail("C04", "role", "client asked publish=%v, server saw %v", publish, r.publish)
		return
	case cc.Publishing != publish:
		fail("C04", "role", "client session says publishing=%v", cc.Publishing)
		return
	case "/"+r.app+"/"+r.stream != path:
		fail("C04", "url", "client asked for %q, server was given app %q stream %q", path, r.app, r.stream)
		return
	case !strings.HasPrefix(r.tcurl, "rtmp://"+host+"/") || r.tcurl != "rtmp://"+host+"/"+r.app:
		fail("C04", "tcurl", "client sent tcUrl %q for %q", r.tcurl, "rtmp://"+host+path)
		return
	case badCtl(peer.msgs, so.sid) != "":
		fail("C04", "control", "%s", badCtl(peer.msgs, so.sid))
	case r.sidUsed != so.sid:
		fail("C04", "stream_id", "client used message stream %d, server granted %d", r.sidUsed, so.sid)
		return
	}
	if publish {
		var m *rmsg
		for _, x := range peer.msgs {
			if x.typ == 8 {
				m = x
			}
		}
		if m == nil {
			fail("C04", "media", "audio written by the client did not arrive (reader: %v)", peer.err)
		} else if m.sid != so.sid {
			fail("C04", "stream_id", "client sent audio on message stream %d, server granted %d", m.sid, so.sid)
		}
	}
}

// ---------------------------------------------------------------- C05

const negLimit = 15 * time.Second

// clientBytes are the bytes a well-behaved simple-handshake client would send.
func clientScript(publish bool) (hs, rest []byte) {
	hs = append([]byte{3}, payload(5, 1536)...)
	copy(hs[1:9], make([]byte, 8))
	add := func(csid, sid uint32, vs ...any) {
		rest = append(rest, encMsg(&rmsg{csid: csid, sid: sid, typ: 20, data: amfVals(vs...)}, 128)...)
	}
	add(3, 0, "connect", 1.0, obj{{"app", "app"}, {"tcUrl", "rtmp://srv/app"}})
	add(3, 0, "createStream", 2.0, nil)
	if publish {
		add(8, 1, "publish", 3.0, nil, "s", "live")
	} else {
		add(8, 1, "play", 3.0, nil, "s")
	}
	return
}

const slack = 4 * time.Second // task stalls and latency

func c05Server() {
	setBufio()
	link := genFastLink()
	mode := vsim.Weighted(vsim.StFault, 4, 4, 2, 3)
	publish := vsim.Bool(vsim.StWork, 1, 2)
	hs, rest := clientScript(publish)
	all := append(append(append([]byte(nil), hs...), payload(6, 1536)...), rest...)
	stop := vsim.Draw(vsim.StFault, len(all))
	if vsim.Bool(vsim.StFault, 1, 3) {
		stop = vsim.Pick(vsim.StFault, 0, 1, 1536, 1537, 1537+1535, 1537+1536, 1537+1537, len(all)-1)
	}
	if mode == 2 {
		link.Buf = 64
		link.Seg = 0
	}
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	sp, mp := vsim.NewProc("server"), vsim.NewProc("model")
	mp.Harness = true
	called := false
	var calledAt time.Duration
	srv := rtmp.NewServer()
	limit := negLimit
	if vsim.Bool(vsim.StWork, 1, 3) {
		limit = vsim.Pick(vsim.StWork, 3*time.Second, 7*time.Second, 40*time.Second)
		srv.HandshakeTimeout = limit
	} else if vsim.Bool(vsim.StWork, 1, 4) {
		srv = &rtmp.Server{}
	}
	srv.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		called, calledAt = true, vsim.Elapsed()
		nc.Close()
	}
	lis, err := vsim.ListenAs(sp, srvAddr)
	if err != nil {
		panic(err)
	}
	var started, ended time.Duration = -1, -1
	var sc *vsim.Conn
	sp.Go("server/accept", func() {
		c, err := lis.AcceptConn()
		if err != nil {
			return
		}
		sc = c
		started = vsim.Elapsed()
		srv.HandleNetConn(c)
		ended = vsim.Elapsed()
	})
	mustFail := true
	mp.Go("model", func() {
		c, err := vsim.DialAs(mp, nil, srvAddr, 0)
		if err != nil {
			panic(err)
		}
		switch mode {
		case 0: // stall after some bytes, reading what comes
			vsim.Fault("peer_stalls")
			mp.Go("drain", func() { io.Copy(io.Discard, c) })
			c.Write(all[:stop])
		case 1: // trickle: whole negotiation spread over more than the limit
			vsim.Fault("peer_trickles")
			mp.Go("drain", func() { io.Copy(io.Discard, c) })
			pieces := vsim.Range(vsim.StFault, 20, 200)
			total := limit * time.Duration(vsim.Range(vsim.StFault, 16, 40)) / 10
			if vsim.Bool(vsim.StFault, 1, 3) {
				total = limit * time.Duration(vsim.Range(vsim.StFault, 1, 9)) / 15
				mustFail = false
			}
			trickle := func(all []byte, pieces int, total time.Duration) bool {
				for i := 0; i < pieces; i++ {
					a, b := len(all)*i/pieces, len(all)*(i+1)/pieces
					if _, err := c.Write(all[a:b]); err != nil {
						return false
					}
					vsim.Sleep(total / time.Duration(pieces))
				}
				return true
			}
			if mustFail && vsim.Bool(vsim.StFault, 1, 2) {
				// part of it in good time, then slower or nothing more
				vsim.Probe("stops_after_a_slow_start")
				cut := vsim.Pick(vsim.StFault, 1537, 3073, 3073, 3073+vsim.Draw(vsim.StFault, len(rest)), len(all)-1)
				if !trickle(all[:cut], vsim.Range(vsim.StFault, 1, 20), limit*time.Duration(vsim.Range(vsim.StFault, 1, 14))/15) {
					return
				}
				if vsim.Bool(vsim.StFault, 1, 2) {
					trickle(all[cut:len(all)-1], vsim.Range(vsim.StFault, 1, 20), 2*limit)
				}
				return
			}
			trickle(all, pieces, total)
		case 2: // never reads: the server cannot write
			vsim.Fault("peer_never_reads")
			c.Write(all)
		case 3: // silent partition
			vsim.Fault("peer_silent")
			mp.Go("drain", func() { io.Copy(io.Discard, c) })
			c.Write(all[:stop/2])
			c.Partition()
		}
	})
	if mode == 1 {
		vsim.WaitUntil(100*time.Millisecond, 5*limit, func() bool { return ended >= 0 })
	} else {
		vsim.WaitUntil(100*time.Millisecond, limit+25*time.Second, func() bool { return ended >= 0 })
	}
	if started < 0 {
		return
	}
	if !mustFail {
		if !called && limit >= negLimit {
			fail("C05", "early", "a negotiation that needs less than %v was not accepted (ended after %v)", limit*6/10, ended-started)
		}
		return
	}
	if ended < 0 || ended-started > limit+slack {
		fail("C05", "server_hangs", "server still negotiating %v after a peer connected and stopped cooperating (mode %d after %d bytes)", vsim.Elapsed()-started, mode, stop)
		return
	}
	if called && calledAt > 0 {
		fail("C05", "handler", "handler invoked for a peer that did not finish negotiating")
		return
	}
	if !sc.Closed() {
		fail("C05", "socket_open", "server gave up but left the connection open")
	}
	if ended-started < limit-time.Second {
		fail("C05", "too_early", "server gave up after %v on a slow peer", ended-started)
	}
}

func c05Client() {
	setBufio()
	link := genFastLink()
	publish := vsim.Bool(vsim.StWork, 1, 2)
	mode := vsim.Weighted(vsim.StFault, 4, 3, 1, 1, 3, 1)
	link.BlackAt = [2]int64{-1, -1}
	switch mode {
	case 0:
		link.BlackAt[1] = int64(vsim.Draw(vsim.StFault, 3600))
	case 1:
		link.BlackAt[0] = int64(vsim.Draw(vsim.StFault, 3600))
	case 5:
		link.Buf = 64
		link.Seg = 0
	}
	never := mode == 3
	vsim.S.Net.DialFor = func(*vsim.Proc, string) vsim.DialPlan { return vsim.DialPlan{Never: never, Link: &link} }
	sut, mp := vsim.NewProc("client"), vsim.NewProc("model")
	mp.Harness = true
	lis, err := vsim.ListenAs(mp, srvAddr)
	if err != nil {
		panic(err)
	}
	finished := false // server side completed its part
	mp.Go("model", func() {
		if mode == 2 {
			vsim.Fault("never_accepts")
			vsim.Sleep(time.Hour)
		}
		c, err := lis.AcceptConn()
		if err != nil {
			return
		}
		p := newPeer(c)
		switch mode {
		case 4: // answer, but slowly, one byte now and then
			vsim.Fault("peer_trickles")
			mp.Go("drain", func() { io.Copy(io.Discard, c) })
			b := append([]byte{3}, payload(5, 3072)...)
			b = append(b, encMsg(&rmsg{csid: 3, typ: 20, data: amfVals("_result", 1.0, nil, obj{{"level", "status"}})}, 128)...)
			for i := 0; i < 50; i++ {
				b = append(b, encMsg(&rmsg{csid: 3, typ: 20, data: amfVals("onBWDone", 0.0, nil)}, 128)...)
			}
			pieces := vsim.Range(vsim.StFault, 20, 200)
			cut, first := 0, time.Duration(0)
			if vsim.Bool(vsim.StFault, 1, 2) { // part of it in good time
				vsim.Probe("stops_after_a_slow_start")
				cut = vsim.Pick(vsim.StFault, 1537, 3073, 3073, 3073+vsim.Draw(vsim.StFault, len(b)-3073))
				first = time.Duration(vsim.Range(vsim.StFault, 0, 14)) * time.Second
			}
			trickle := func(b []byte, total time.Duration) bool {
				for i := 0; i < pieces; i++ {
					x, y := len(b)*i/pieces, len(b)*(i+1)/pieces
					if _, err := c.Write(b[x:y]); err != nil {
						return false
					}
					vsim.Sleep(total / time.Duration(pieces))
				}
				return true
			}
			if trickle(b[:cut], first) {
				trickle(b[cut:], 60*time.Second)
			}
		case 5: // never reads
			vsim.Fault("peer_never_reads")
			c.Write(append([]byte{3}, payload(5, 3072)...))
			vsim.Sleep(time.Hour)
		default:
			p.serve(srvOpt{hs: hsSimple, sid: 1, noiseFn: func(_ *rpeer, at int) error {
				finished = at >= 4 // about to send the final answer
				return nil
			}})
			p.drain()
		}
	})
	var derr error
	var t0, t1 time.Duration = -1, -1
	sut.Go("client", func() {
		t0 = vsim.Elapsed()
		_, nc, err := dialRTMP("rtmp://"+srvAddr+"/app/stream", publish, vsim.Bool(vsim.StWork, 1, 2))
		derr = err
		t1 = vsim.Elapsed()
		if err == nil {
			nc.Close()
		}
	})
	vsim.WaitUntil(100*time.Millisecond, 90*time.Second, func() bool { return t1 >= 0 })
	bound := negLimit + slack
	if t1 < 0 || t1-t0 > bound {
		fail("C05", "client_hangs", "open still not finished %v after the peer stopped answering (mode %d)", vsim.Elapsed()-t0, mode)
		return
	}
	if derr == nil && !finished {
		fail("C05", "false_success", "open succeeded although the peer never finished negotiating (mode %d)", mode)
		return
	}
	if derr != nil {
		if k := sut.OpenConns(); len(k) > 0 {
			fail("C05", "socket_open", "open failed with %v but left its connection open", derr)
		}
	}
}

// c05Idle: a session that completed in time outlives the limit.
func c05Idle() {
	setBufio()
	link := genFastLink()
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	publish := vsim.Bool(vsim.StWork, 1, 2)
	gap := time.Duration(vsim.Range(vsim.StWork, 10, 100)) * time.Second
	gap0 := time.Duration(vsim.Pick(vsim.StWork, 0, 1, 20, 100)) * time.Second
	media := []av.Packet{{Type: av.AAC, Data: payload(1, 50)}, {Type: av.AAC, Data: payload(2, 50), Time: time.Second}, {Type: av.AAC, Data: payload(3, 5000), Time: 2 * time.Second}}
	tx, rx := &txLog{}, &rxLog{}
	send := func(c packetWriter) {
		vsim.Sleep(gap0)
		for _, p := range media {
			if tx.write(c, p) != nil {
				break
			}
			vsim.Sleep(gap)
		}
		tx.done = true
	}
	sp, cp := vsim.NewProc("server"), vsim.NewProc("client")
	srv := rtmp.NewServer()
	srv.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		c.Prepare(rtmp.StageCommandDone, 0)
		if publish {
			rx.pump(c)
		} else {
			send(c)
		}
		nc.Close()
	}
	serveRTMP(sp, srvAddr, srv)
	var derr error
	cp.Go("client", func() {
		c, nc, err := dialRTMP("rtmp://"+srvAddr+"/app/stream", publish, vsim.Bool(vsim.StWork, 1, 2))
		if err != nil {
			derr = err
			return
		}
		if publish {
			send(c)
		} else {
			rx.pump(c)
		}
		nc.Close()
	})
	ok := vsim.WaitUntil(100*time.Millisecond, 600*time.Second, func() bool { return derr != nil || tx.done && rx.done })
	switch {
	case derr != nil:
		fail("C05", "refused", "negotiation failed on a healthy network: %v", derr)
	case tx.err != nil:
		fail("C05", "idle_killed", "write failed on an established session idle for %v: %v", gap, tx.err)
	case !ok || len(rx.pkts) != len(media):
		fail("C05", "idle_killed", "established session idle for %v: %d of %d packets arrived, reader: %v", gap, len(rx.pkts), len(media), rx.err)
	}
}

// ---------------------------------------------------------------- C06

func c06RealServer() {
	setBufio()
	link := genFastLink()
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	n := vsim.Range(vsim.StWork, 1, 4)
	type plan struct {
		refuse  string
		publish bool
		model   bool
	}
	plans := map[string]*plan{}
	var urls []string
	for i := 0; i < n; i++ {
		p := &plan{publish: vsim.Bool(vsim.StWork, 1, 2), model: vsim.Bool(vsim.StWork, 1, 3)}
		if vsim.Bool(vsim.StWork, 2, 3) {
			p.refuse = vsim.Pick(vsim.StWork, "no such stream", "denied", "busy", "x", strings.Repeat("long reason ", 30))
		}
		path := fmt.Sprintf("/app/s%d", i)
		plans[path] = p
		urls = append(urls, path)
	}
	sp := vsim.NewProc("server")
	srv := rtmp.NewServer()
	handled := map[string]int{}
	srv.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		path := c.URL.Path
		handled[path]++
		p := plans[path]
		if p == nil {
			nc.Close()
			return
		}
		vsim.Sleep(time.Duration(vsim.Draw(vsim.StWork, 300)) * time.Millisecond)
		if p.refuse != "" {
			vsim.Fault("server_refuses")
			c.PubPlayErr = errors.New(p.refuse)
			c.Prepare(rtmp.StageCommandDone, rtmp.PrepareWriting)
			nc.Close()
			return
		}
		c.Prepare(rtmp.StageCommandDone, 0)
		if p.publish {
			(&rxLog{}).pump(c)
		} else {
			vsim.Recv(c.CloseNotify())
		}
		nc.Close()
	}
	serveRTMP(sp, srvAddr, srv)
	pending := n
	for _, path := range urls {
		p := plans[path]
		cp := vsim.NewProc("client" + path[len(path)-1:])
		if p.model {
			cp.Harness = true
			cp.Go(cp.Name, func() {
				defer func() { pending-- }()
				c, err := vsim.DialAs(cp, nil, srvAddr, 0)
				if err != nil {
					panic(err)
				}
				m := newPeer(c)
				r := m.negotiate(sessOpt{hs: hsSimple, app: "app", stream: path[5:], tcurl: "rtmp://srv/app", publish: p.publish})
				if r.err == nil && r.bad == "" {
					m.awaitStatus(&r, p.publish)
				}
				c.Close()
				if p.refuse == "" {
					if r.err != nil || r.bad != "" || r.level != "status" {
						fail("C06", "accepted", "accepted session reported %+v", r)
					}
					return
				}
				if r.level != "error" {
					fail("C06", "not_reported", "refused %s: client was told level %q code %q (%v %s)", path, r.level, r.status, r.err, r.bad)
				} else if r.desc != p.refuse {
					fail("C06", "reason", "refused with %q, client was told %q", p.refuse, r.desc)
				}
			})
			continue
		}
		cp.Go(cp.Name, func() {
			defer func() { pending-- }()
			t0 := vsim.Elapsed()
			c, nc, err := dialRTMP("rtmp://"+srvAddr+path, p.publish, vsim.Bool(vsim.StWork, 1, 2))
			if p.refuse == "" {
				if err != nil {
					fail("C06", "accepted", "accepted session failed to open: %v", err)
					return
				}
				nc.Close()
				return
			}
			if err == nil {
				fail("C06", "false_success", "open (publish=%v) succeeded although the server refused it; params %v", p.publish, c.PubPlayOnStatusParams)
				nc.Close()
				return
			}
			code := "NetStream.Play.Failed"
			if p.publish {
				code = "NetStream.Publish.Failed"
			}
			if !strings.Contains(err.Error(), code) {
				fail("C06", "reason", "refusal surfaced as %q, which does not carry the status code", err)
			}
			if vsim.Elapsed()-t0 > 10*time.Second {
				fail("C06", "late", "refusal surfaced after %v", vsim.Elapsed()-t0)
			}
			if len(cp.OpenConns()) > 0 {
				fail("C06", "socket_open", "refused open left its connection open")
			}
		})
	}
	if !vsim.WaitUntil(20*time.Millisecond, 300*time.Second, func() bool { return pending == 0 }) {
		fail("C06", "stuck", "clients did not finish")
	}
}

func c06ModelServer() {
	setBufio()
	link := genFastLink()
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	publish := vsim.Bool(vsim.StWork, 1, 2)
	sut, mp := vsim.NewProc("client"), vsim.NewProc("model")
	mp.Harness = true
	lis, err := vsim.ListenAs(mp, srvAddr)
	if err != nil {
		panic(err)
	}
	so := srvOpt{hs: hsSimple, sid: 1}
	if publish {
		so.refuse = vsim.Pick(vsim.StWork, "NetStream.Publish.BadName", "NetStream.Publish.Denied", "")
	} else {
		so.refuse = vsim.Pick(vsim.StWork, "NetStream.Play.StreamNotFound", "NetStream.Play.Failed", "")
	}
	code := so.refuse
	switch vsim.Draw(vsim.StWork, 8) {
	case 0, 1:
		so.refuseConnect = true
		code = "NetConnection.Connect.Rejected"
	case 2:
		so.refuseCreate = true
		code = "NetConnection.Call.Failed"
	}
	if vsim.Bool(vsim.StWork, 1, 2) {
		so.noiseFn = func(p *rpeer, at int) error { return negNoise(p, publish) }
	}
	if code != "" {
		vsim.Fault("server_refuses")
	}
	mp.Go("model", func() {
		c, err := lis.AcceptConn()
		if err != nil {
			return
		}
		p := newPeer(c)
		p.serve(so)
		p.drain()
		c.Close()
	})
	done := false
	sut.Go("client", func() {
		t0 := vsim.Elapsed()
		_, nc, err := dialRTMP("rtmp://"+srvAddr+"/app/s", publish, vsim.Bool(vsim.StWork, 1, 2))
		defer func() { done = true }()
		if code == "" {
			if err != nil {
				fail("C06", "accepted", "accepted session failed to open: %v", err)
				return
			}
			nc.Close()
			return
		}
		if err == nil {
			fail("C06", "false_success", "open succeeded although the server answered %s", code)
			nc.Close()
			return
		}
		if !strings.Contains(err.Error(), code) {
			fail("C06", "reason", "server refused with %s, error is %q", code, err)
		}
		if vsim.Elapsed()-t0 > 10*time.Second {
			fail("C06", "late", "refusal surfaced after %v", vsim.Elapsed()-t0)
		}
		if len(sut.OpenConns()) > 0 {
			fail("C06", "socket_open", "refused open left its connection open")
		}
	})
	if !vsim.WaitUntil(20*time.Millisecond, 100*time.Second, func() bool { return done }) {
		fail("C06", "stuck", "client did not finish")
	}
}

var _ = format.URLOpener{}
