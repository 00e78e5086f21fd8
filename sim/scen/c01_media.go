package scen

import (
	"io"
	"math"
	"net"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"

	"vsim/vsim"
)

var rtmpReal = []string{"format/rtmp (client, server, connection, chunk stream, handshake, commands)", "format (URL opener)", "format/flv, format/flv/flvio (tags, AMF)", "utils/bits/pio"}
var netStub = []string{"TCP (simulated sockets: latency, jitter, segmentation, back-pressure, cuts, stalls, deadlines)", "clock and timers", "goroutine scheduler", "crypto/rand"}

func init() {
	reg(&Prop{ID: "C01", Title: "RTMP delivers media exactly", Real: rtmpReal, Stub: append(netStub, "independent RTMP endpoint model in half of the runs"),
		Rule:  "Scenarios: publish or play between two real endpoints or against the endpoint model, with resets, orderly cuts, stalls and sender crashes at drawn byte offsets.",
		Scens: []Scenario{{"transfer", 5, c01Transfer}, {"model_reads", 2, func() { c01Model(true) }}, {"model_writes", 2, func() { c01Model(false) }}}})
	reg(&Prop{ID: "C02", Title: "accepted packets reach the peer", Real: rtmpReal, Stub: netStub,
		Rule:  "Scenarios: a live sender with idle gaps; after every accepted packet the receiver must have it within a bound derived from the link, with no further writes.",
		Scens: []Scenario{{"live_gaps", 4, c02Live}, {"close_after_write", 2, c01Transfer}}})
}

// genFault draws a fault plan for one connection; returns whether the link will fail.
func genLinkFault(l *vsim.LinkCfg, scale int) string {
	switch vsim.Weighted(vsim.StFault, 4, 3, 1, 1) {
	case 1:
		d := vsim.Draw(vsim.StFault, 2)
		l.Cut[d] = int64(vsim.Draw(vsim.StFault, scale+6000))
		return "reset"
	case 2:
		d := vsim.Draw(vsim.StFault, 2)
		l.Cut[d] = int64(vsim.Draw(vsim.StFault, scale+6000))
		l.CutFin = true
		return "fin"
	case 3:
		d := vsim.Draw(vsim.StFault, 2)
		l.StallAt[d] = int64(vsim.Draw(vsim.StFault, scale+6000))
		l.StallFor[d] = time.Duration(vsim.Range(vsim.StFault, 1, 4)) * time.Second
		return "stall"
	}
	return ""
}

// pacing: how the sender spaces its packets
func genGap() func() {
	m := vsim.Weighted(vsim.StWork, 3, 2, 1)
	return func() {
		switch m {
		case 1:
			vsim.Sleep(time.Duration(vsim.Draw(vsim.StWork, 50)) * time.Millisecond)
		case 2:
			if vsim.Bool(vsim.StWork, 1, 8) {
				vsim.Sleep(time.Duration(vsim.Range(vsim.StWork, 1, 20)) * time.Second)
			}
		}
	}
}

// genHuge may make one of the frames nearly as large as a message may be.
func genHuge(media []av.Packet, l *vsim.LinkCfg) {
	if !vsim.Bool(vsim.StWork, 1, 80) {
		return
	}
	var av_ []int
	for i, p := range media {
		if p.Type == av.H264 || p.Type == av.AAC {
			av_ = append(av_, i)
		}
	}
	if len(av_) == 0 {
		return
	}
	i := av_[vsim.Draw(vsim.StWork, len(av_))]
	media[i].Data = payload(100000+i, vsim.Range(vsim.StWork, 1<<20, 4<<20-100))
	l.Buf = max(l.Buf, 65536)
	l.Trickle = false
	if l.Seg > 0 {
		l.Seg = 1460
	}
	vsim.Probe("frame_over_1MiB")
}

// c01Transfer moves a stream between two real endpoints.
func c01Transfer() {
	setBufio()
	media := genMedia(genMediaCfg())
	link := genLink()
	genHuge(media, &link)
	scale := pktsBytes(media)
	mode := genLinkFault(&link, scale)
	crash := time.Duration(-1)
	if mode == "" && vsim.Bool(vsim.StFault, 1, 6) {
		crash = time.Duration(vsim.Draw(vsim.StFault, 4000)) * time.Millisecond
		mode = "crash"
	}
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	publish := vsim.Bool(vsim.StWork, 1, 2)
	opener := vsim.Bool(vsim.StWork, 1, 2)
	earlyClose := mode == "" && vsim.Bool(vsim.StFault, 1, 6)
	gap := genGap()

	rx, tx := &rxLog{}, &txLog{}
	sp := vsim.NewProc("server")
	cp := vsim.NewProc("client")
	send := func(c packetWriter, nc net.Conn) {
		for _, p := range media {
			if tx.write(c, p) != nil {
				break
			}
			gap()
		}
		tx.done = true
		vsim.Log("sender closes")
		nc.Close()
	}
	readN := len(media)
	if earlyClose {
		readN = vsim.Draw(vsim.StFault, len(media)+1)
	}
	recv := func(c packetReader, nc net.Conn) {
		if earlyClose {
			for i := 0; i < readN; i++ {
				p, err := c.ReadPacket()
				if err != nil {
					rx.err = err
					break
				}
				rx.add(p)
			}
			vsim.Fault("receiver_closes_early")
			rx.done = true
			nc.Close()
			return
		}
		rx.pump(c)
		nc.Close()
	}
	srv := rtmp.NewServer()
	srv.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		if c.Publishing != publish {
			fail("C01", "role", "server saw publishing=%v for a client that asked publishing=%v", c.Publishing, publish)
		}
		if publish {
			recv(c, nc)
		} else {
			send(c, nc)
		}
	}
	url := "rtmp://" + srvAddr + "/app/stream"
	if vsim.Bool(vsim.StWork, 1, 20) {
		url = "rtmps://" + srvAddr + "/app/stream"
		opener = opener && publish // Open does not know rtmps
		serveTLS(sp, srvAddr, srv)
		vsim.Probe("over_tls")
	} else {
		serveRTMP(sp, srvAddr, srv)
	}
	var dialErr error
	dialed := false
	cp.Go("client", func() {
		c, nc, err := dialRTMP(url, publish, opener)
		dialErr, dialed = err, true
		if err != nil {
			vsim.Log("dial failed: %v", err)
			return
		}
		if publish {
			send(c, nc)
		} else {
			recv(c, nc)
		}
	})
	sender, receiver := cp, sp
	if !publish {
		sender, receiver = sp, cp
	}
	_ = receiver
	if crash >= 0 {
		vsim.At(crash, func() {
			if !sender.Dead {
				vsim.Fault("process_crash")
				sender.Crash()
			}
		})
	}
	limit := 120*time.Second + transferTime(&link, scale*2) + time.Duration(len(media))*20*time.Second
	fin := func() bool {
		if vsim.Failed() {
			return true
		}
		if dialed && dialErr != nil {
			return true
		}
		return rx.done && (tx.done || sender.Dead)
	}
	ok := vsim.WaitUntil(50*time.Millisecond, limit, fin)
	if vsim.Failed() {
		return
	}
	bad := mode == "reset" || mode == "fin" || mode == "crash"
	if dialed && dialErr != nil {
		if !bad && !(earlyClose && readN == 0) {
			fail(Cur, "dial", "negotiation failed on a healthy link: %v", dialErr)
		}
		return
	}
	if !checkPrefix("C01", "transfer", tx.all(), rx.pkts) {
		return
	}
	if !ok && !bad {
		fail("C01", "stuck", "transfer did not finish within %v: accepted %d delivered %d", limit, len(tx.pkts), len(rx.pkts))
		return
	}
	if bad {
		// the receiver must learn that the stream ended
		if (tx.done || sender.Dead) && !rx.done && len(vsim.S.Net.Conns) > 0 {
			if !vsim.WaitUntil(time.Second, 60*time.Second, func() bool { return rx.done || len(receiver.OpenConns()) == 0 }) {
				fail("C01", "no_end", "the reader was not told that the stream ended")
			}
		}
		if !tx.done && !sender.Dead && dialed {
			fail("C01", "stuck", "writer still blocked %v after the connection was cut", limit)
		}
		vsim.Probe("prefix_checked_after_fault")
		return
	}
	if earlyClose {
		return
	}
	if tx.err != nil {
		fail("C01", "write_error", "write failed on a healthy link: %v", tx.err)
		return
	}
	if len(rx.pkts) != len(tx.pkts) {
		fail(Cur, "lost", "sender wrote %d packets and closed, receiver got %d then %v", len(tx.pkts), len(rx.pkts), rx.err)
		return
	}
	if rx.err == nil {
		fail("C01", "no_end", "reader did not report the end of the stream")
	}
	if rx.err == io.EOF || rx.err != nil {
		vsim.Probe("complete_transfer")
	}
}

// toMsgs is the independent description of what goes on the wire for a packet.
func pktToMsg(p av.Packet, publishing bool) *rmsg {
	ts := uint32(p.Time / time.Millisecond)
	switch p.Type {
	case av.H264:
		return videoMsg(p.IsKeyFrame, 1, int32(p.CTime/time.Millisecond), ts, p.Data)
	case av.H264DecoderConfig:
		return videoMsg(true, 0, 0, ts, p.Data)
	case av.AAC:
		return audioMsg(1, ts, p.Data)
	case av.AACDecoderConfig:
		return audioMsg(0, ts, p.Data)
	case av.Metadata:
		d := amfVals("onMetaData")
		if publishing {
			d = amfVals("@setDataFrame", "onMetaData")
		}
		return &rmsg{csid: 4, typ: 18, sid: 1, ts: ts, data: append(d, p.Data...)}
	}
	return nil
}

// msgToPkt is the inverse.
func msgToPkt(m *rmsg) (p av.Packet, ok bool) {
	p.Time = time.Duration(m.ts) * time.Millisecond
	switch m.typ {
	case 9:
		if len(m.data) < 5 || m.data[0]&15 != 7 {
			return
		}
		ct := int32(uint32(m.data[2])<<24|uint32(m.data[3])<<16|uint32(m.data[4])<<8) >> 8
		p.IsKeyFrame = m.data[0]>>4 == 1
		p.CTime = time.Duration(ct) * time.Millisecond
		p.Data = m.data[5:]
		switch m.data[1] {
		case 0:
			p.Type = av.H264DecoderConfig
		case 1:
			p.Type = av.H264
		default:
			return
		}
		return p, true
	case 8:
		if len(m.data) < 2 || m.data[0]>>4 != 10 {
			return
		}
		p.Data = m.data[2:]
		p.Type = av.AAC
		if m.data[1] == 0 {
			p.Type = av.AACDecoderConfig
		}
		return p, true
	case 18:
		d := m.data
		for {
			v, rest, err := amfDec(d, 0)
			if err != nil {
				return
			}
			s, isS := v.(string)
			d = rest
			if !isS {
				return
			}
			if s == "onMetaData" {
				break
			}
			if s != "@setDataFrame" {
				return
			}
		}
		p.Type = av.Metadata
		p.Data = d
		return p, true
	}
	return
}

// c01Model exchanges a stream with the endpoint model.
func c01Model(modelReads bool) {
	setBufio()
	media := genMedia(genMediaCfg())
	link := genLink()
	if link.Buf < 4096 {
		link.Buf = 4096
	}
	genHuge(media, &link)
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	sutServer := vsim.Bool(vsim.StWork, 1, 2)
	gap := genGap()
	rx, tx := &rxLog{}, &txLog{}
	sut := vsim.NewProc("sut")
	mp := vsim.NewProc("model")
	mp.Harness = true
	publish := sutServer != modelReads // direction of media relative to the client
	var bad string
	sutIO := func(c *rtmp.Conn, nc net.Conn) {
		if modelReads {
			for _, p := range media {
				if tx.write(c, p) != nil {
					break
				}
				gap()
			}
			tx.done = true
			nc.Close()
		} else {
			rx.pump(c)
			nc.Close()
		}
	}
	hs := vsim.Pick(vsim.StWork, hsSimple, hsDigest8, hsDigest772)
	modelIO := func(p *rpeer, sid uint32, publishing bool) {
		if modelReads {
			for {
				m, err := p.next()
				if err != nil {
					rx.err, rx.done = err, true
					return
				}
				if k, ok := msgToPkt(m); ok {
					vsim.Log("model got %s", pktDesc(k))
					if m.sid != sid {
						bad = "media on message stream"
					}
					rx.add(k)
				}
			}
		}
		mp.Go("drain", p.drain)
		for _, k := range media {
			m := pktToMsg(k, publishing)
			m.sid = sid
			if p.send(m) != nil {
				break
			}
			tx.pkts = append(tx.pkts, k)
			gap()
		}
		tx.done = true
		p.c.Close()
	}
	if sutServer {
		srv := rtmp.NewServer()
		srv.HandleConn = sutIO
		serveRTMP(sut, srvAddr, srv)
		mp.Go("model", func() {
			c, err := vsim.DialAs(mp, nil, srvAddr, 0)
			if err != nil {
				panic(err)
			}
			p := newPeer(c)
			o := sessOpt{hs: hs, app: "app", stream: "stream", tcurl: "rtmp://" + srvAddr + "/app", publish: publish, chunk: vsim.Pick(vsim.StWork, 0, 128, 4096, 65536, 1, 60000)}
			r := p.negotiate(o)
			if r.err == nil && r.bad == "" {
				if publish {
					// the server answers the publish command lazily: it may be answered only once it
					// reads, which it does at once
					p.awaitStatus(&r, true)
				}
			}
			if r.bad != "" || r.err != nil {
				bad = r.bad
				if r.err != nil {
					bad = "negotiation failed: " + r.err.Error()
				}
				rx.done, tx.done = true, true
				return
			}
			modelIO(p, uint32(r.granted), true)
		})
	} else {
		lis, err := vsim.ListenAs(mp, srvAddr)
		if err != nil {
			panic(err)
		}
		sid := uint32(vsim.Pick(vsim.StWork, 1, 5, 12))
		mp.Go("model", func() {
			c, err := lis.AcceptConn()
			if err != nil {
				return
			}
			p := newPeer(c)
			so := srvOpt{hs: hs, sid: sid, chunk: vsim.Pick(vsim.StWork, 0, 128, 4096, 60000)}
			r := p.serve(so)
			if r.bad != "" || r.err != nil {
				bad = r.bad
				if r.err != nil {
					bad = "negotiation failed: " + r.err.Error()
				}
				rx.done, tx.done = true, true
				return
			}
			if r.publish != publish {
				bad = "client asked for the wrong role"
			}
			modelIO(p, sid, false)
		})
		sut.Go("client", func() {
			c, nc, err := dialRTMP("rtmp://"+srvAddr+"/app/stream", publish, vsim.Bool(vsim.StWork, 1, 2))
			if err != nil {
				bad = "dial failed: " + err.Error()
				rx.done, tx.done = true, true
				return
			}
			sutIO(c, nc)
		})
	}
	limit := 120*time.Second + transferTime(&link, pktsBytes(media)*3) + time.Duration(len(media))*20*time.Second
	ok := vsim.WaitUntil(50*time.Millisecond, limit, func() bool { return rx.done && tx.done || vsim.Failed() })
	if vsim.Failed() {
		return
	}
	if bad != "" {
		fail("C01", "protocol", "%s", bad)
		return
	}
	if !checkPrefix("C01", "transfer", tx.all(), rx.pkts) {
		return
	}
	if !ok {
		fail("C01", "stuck", "transfer did not finish: sent %d delivered %d", len(tx.pkts), len(rx.pkts))
		return
	}
	if tx.err != nil {
		fail("C01", "write_error", "write failed on a healthy link: %v", tx.err)
		return
	}
	if len(rx.pkts) != len(tx.pkts) {
		fail("C01", "lost", "sent %d packets and closed, receiver got %d then %v", len(tx.pkts), len(rx.pkts), rx.err)
		return
	}
	vsim.Probe("complete_transfer")
}

// c02Live checks that each accepted packet arrives without further writes.
func c02Live() {
	setBufio()
	mc := genMediaCfg()
	mc.n = vsim.Range(vsim.StWork, 1, 15)
	media := genMedia(mc)
	link := genLink()
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	publish := vsim.Bool(vsim.StWork, 1, 2)
	opener := vsim.Bool(vsim.StWork, 1, 2)
	rx, tx := &rxLog{}, &txLog{}
	sp, cp := vsim.NewProc("server"), vsim.NewProc("client")
	burst := vsim.Range(vsim.StWork, 1, 4)
	idle := false
	failed := false
	send := func(c packetWriter, nc net.Conn) {
		for i, p := range media {
			if tx.write(c, p) != nil {
				break
			}
			if (i+1)%burst == 0 || i == len(media)-1 {
				// now go idle until the receiver has everything
				n := len(tx.pkts)
				idle = true
				bound := transferTime(&link, pktsBytes(media[max(0, n-burst):n])*2)
				if !vsim.WaitUntil(20*time.Millisecond, bound, func() bool { return len(rx.pkts) >= n || rx.done }) || len(rx.pkts) < n {
					failed = true
					fail("C02", "withheld", "%v after WritePacket accepted packet %d (%s) with no further writes, the peer has received only %d packets", bound, n, pktDesc(media[n-1]), len(rx.pkts))
				}
				idle = false
				if failed {
					break
				}
			}
		}
		tx.done = true
		nc.Close()
	}
	recv := func(c packetReader, nc net.Conn) { rx.pump(c) }
	srv := rtmp.NewServer()
	srv.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		if publish {
			recv(c, nc)
		} else {
			send(c, nc)
		}
	}
	serveRTMP(sp, srvAddr, srv)
	derr := error(nil)
	cp.Go("client", func() {
		c, nc, err := dialRTMP("rtmp://"+srvAddr+"/app/stream", publish, opener)
		if err != nil {
			derr = err
			tx.done = true
			return
		}
		if publish {
			send(c, nc)
		} else {
			recv(c, nc)
		}
	})
	vsim.WaitUntil(100*time.Millisecond, time.Hour, func() bool { return tx.done || vsim.Failed() })
	if derr != nil {
		fail("C02", "dial", "negotiation failed on a healthy link: %v", derr)
	}
	if tx.err != nil {
		fail("C02", "write_error", "write failed on a healthy link: %v", tx.err)
	}
	_ = idle
	_ = math.MaxInt
}
