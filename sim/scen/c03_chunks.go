package scen

import (
	"encoding/binary"
	"fmt"
	"net"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"

	"vsim/vsim"
)

func init() {
	reg(&Prop{ID: "C03", Title: "any legal RTMP chunk stream is understood", Real: rtmpReal, Stub: append(netStub, "the sending peer is an independent chunk-stream encoder"),
		Rule:  "Scenarios: the model publishes to, or plays to, the real endpoint with a randomly chosen legal chunking of a random message sequence.",
		Scens: []Scenario{{"chunking", 1, c03Chunks}}})
}

// chunkStream is the state of one outgoing chunk stream of the encoder.
type chunkStream struct {
	id       uint32
	form     int // basic header form
	last     *rmsg
	lastFmt  byte // format of the last header that started a message
	delta    uint32
	hasDelta bool
	ext      bool
	extv     uint32
	omit     bool // leaves the extended timestamp out of continuation chunks, as some senders do
	queue    []*rmsg
	cur      *rmsg
	left     []byte
}

// next emits the next chunk of the stream.
func (s *chunkStream) next(chunk int) (b []byte, done *rmsg) {
	if s.cur == nil {
		m := s.queue[0]
		s.queue = s.queue[1:]
		s.cur, s.left = m, m.data
		f := byte(0)
		if l := s.last; l != nil && m.ts >= l.ts && m.sid == l.sid {
			// choose any header format the change allows
			best := 1
			d := m.ts - l.ts
			if len(m.data) == len(l.data) && m.typ == l.typ {
				best = 2
				if s.hasDelta && d == s.delta && s.lastFmt != 0 {
					best = 3
				}
			}
			f = byte(vsim.Draw(vsim.StWork, best+1))
			// the shortest form is the common one
			if vsim.Bool(vsim.StWork, 1, 2) {
				f = byte(best)
			}
		}
		vsim.Probe(fmt.Sprintf("chunk_fmt%d", f))
		b = basicHdr(b, f, s.id, s.form)
		var tm uint32
		switch f {
		case 0:
			tm = m.ts
			s.hasDelta = false
		case 1, 2:
			tm = m.ts - s.last.ts
			s.delta, s.hasDelta = tm, true
		case 3:
			if s.ext {
				b = append(b, be32(s.extv)...)
				vsim.Probe("ext_on_new_fmt3")
			}
		}
		if f < 3 {
			s.ext = tm >= 0xffffff
			s.extv = tm
			t := tm
			if s.ext {
				t = 0xffffff
				vsim.Probe("ext_timestamp")
			}
			b = u24(b, t)
			if f < 2 {
				b = u24(b, uint32(len(m.data)))
				b = append(b, m.typ)
			}
			if f == 0 {
				b = binary.LittleEndian.AppendUint32(b, m.sid)
			}
			if s.ext {
				b = append(b, be32(tm)...)
			}
		}
		s.last, s.lastFmt = m, f
		if f == 3 {
			s.lastFmt = 2
		}
	} else {
		b = basicHdr(b, 3, s.id, s.form)
		switch {
		case !s.ext:
		case s.omit && min(len(s.left), chunk) >= 4 && binary.BigEndian.Uint32(s.left) != s.extv:
			vsim.Probe("ext_omitted")
		default:
			b = append(b, be32(s.extv)...)
		}
	}
	n := len(s.left)
	if n > chunk {
		n = chunk
	}
	b = append(b, s.left[:n]...)
	s.left = s.left[n:]
	if len(s.left) == 0 {
		done = s.cur
		s.cur = nil
	}
	return
}

// aggregate packs messages into one aggregate message.
func aggregate(csid, sid uint32, base uint32, l []*rmsg) *rmsg {
	var d []byte
	off := uint32(vsim.Pick(vsim.StWork, 0, 1000, 77))
	for _, m := range l {
		t := m.ts - l[0].ts + off
		d = append(d, m.typ)
		d = u24(d, uint32(len(m.data)))
		d = u24(d, t&0xffffff)
		d = append(d, byte(t>>24))
		d = u24(d, sid)
		d = append(d, m.data...)
		d = append(d, be32(uint32(len(m.data)+11))...)
	}
	return &rmsg{csid: csid, sid: sid, typ: 22, ts: base, data: d}
}

// ignorable messages a peer may send at any time
func genNoise(sid uint32) *rmsg {
	switch vsim.Draw(vsim.StWork, 8) {
	case 0:
		return &rmsg{csid: 2, typ: 3, data: be32(uint32(vsim.Draw(vsim.StWork, 1<<20)))} // acknowledgement
	case 1:
		return &rmsg{csid: 2, typ: 6, data: append(be32(2500000), 2)}
	case 2:
		return &rmsg{csid: 2, typ: 4, data: append(be16(6), be32(uint32(vsim.Draw(vsim.StWork, 1<<20)))...)} // ping
	case 3:
		return &rmsg{csid: 2, typ: 4, data: append(be16(uint16(vsim.Draw(vsim.StWork, 5))), append(be32(1), be32(100)...)...)}
	case 4:
		return &rmsg{csid: 2, typ: 5, data: be32(uint32(vsim.Pick(vsim.StWork, 2500000, 10000, 600)))}
	case 5:
		return &rmsg{csid: 3, typ: 20, data: amfVals("FCUnpublish", 9.0, nil, "x")}
	case 6:
		return &rmsg{csid: 8, sid: sid, typ: 8, data: nil} // empty audio
	default:
		return &rmsg{csid: 8, sid: sid, typ: 18, data: amfVals("onTextData", obj{{"a", 1.0}})}
	}
}

func c03Chunks() {
	setBufio()
	mc := genMediaCfg()
	mc.n = vsim.Range(vsim.StWork, 1, 40)
	mc.cfgs = true
	if mc.maxSize > 5000 && !vsim.Bool(vsim.StWork, 1, 6) {
		mc.maxSize = 5000
	}
	media := genMedia(mc)
	if vsim.Bool(vsim.StWork, 1, 8) {
		// a fixed, possibly huge, step: repeated deltas and extended deltas
		step := int64(vsim.Pick(vsim.StWork, 40, 0xfffffe, 0xffffff, 0x1000000, 0x2000000))
		for i := range media {
			media[i].Time = msT(step * int64(i))
			if media[i].Type == av.AAC {
				media[i].Data = payload(5000+i, 30)
			}
		}
	}
	link := genLink()
	if link.Buf < 4096 {
		link.Buf = 4096
	}
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	sutServer := vsim.Bool(vsim.StWork, 1, 2)
	rx := &rxLog{}
	sut := vsim.NewProc("sut")
	mp := vsim.NewProc("model")
	mp.Harness = true
	var bad string
	var want []av.Packet
	sent := false
	maxEdge := 0

	modelSend := func(p *rpeer, sid uint32, publishing bool) {
		mp.Go("drain", p.drain)
		// spread the messages over chunk streams
		ncs := vsim.Range(vsim.StWork, 1, 9)
		var css []*chunkStream
		omit := vsim.Bool(vsim.StWork, 1, 4)
		used := map[uint32]bool{2: true, 3: true, 8: true, 5: true, 4: true, 6: true}
		for i := 0; i < ncs; i++ {
			var id uint32
			switch vsim.Draw(vsim.StWork, 4) {
			case 0:
				id = uint32(vsim.Range(vsim.StWork, 9, 63))
			case 1:
				id = uint32(vsim.Range(vsim.StWork, 64, 319))
			case 2:
				id = uint32(vsim.Range(vsim.StWork, 320, 65599))
			default:
				id = uint32(vsim.Pick(vsim.StWork, 64, 319, 320, 65599, 63, 256+64, 255+64))
			}
			if used[id] {
				continue
			}
			used[id] = true
			cs := &chunkStream{id: id, omit: omit}
			if id >= 64 && id <= 319 && vsim.Bool(vsim.StWork, 1, 3) {
				cs.form = 3
			}
			vsim.Probe(fmt.Sprintf("csid_bytes_%d", len(basicHdr(nil, 0, id, cs.form))))
			css = append(css, cs)
		}
		if len(css) == 0 {
			css = append(css, &chunkStream{id: 7, omit: omit})
		}
		nz := map[uint32]*chunkStream{}
		// group messages
		var groups []*rmsg
		members := map[*rmsg][]av.Packet{}
		aggs := vsim.Bool(vsim.StWork, 1, 3)
		for i := 0; i < len(media); {
			k := 1
			if aggs && vsim.Bool(vsim.StWork, 1, 3) {
				k = vsim.Range(vsim.StWork, 1, 4)
				if i+k > len(media) {
					k = len(media) - i
				}
			}
			if k == 1 && !(aggs && vsim.Bool(vsim.StWork, 1, 8)) {
				m := dataForm(pktToMsg(media[i], publishing))
				m.sid = sid
				groups = append(groups, m)
				members[m] = media[i : i+1]
			} else {
				var l []*rmsg
				for j := 0; j < k; j++ {
					l = append(l, dataForm(pktToMsg(media[i+j], publishing)))
				}
				m := aggregate(0, sid, l[0].ts, l)
				groups = append(groups, m)
				members[m] = media[i : i+k]
				vsim.Probe("aggregate")
			}
			i += k
		}
		// a chunk stream carries its messages in order; types mix freely
		byType := vsim.Bool(vsim.StWork, 1, 2)
		for _, m := range groups {
			c := css[vsim.Draw(vsim.StWork, len(css))]
			if byType {
				c = css[int(m.typ)%len(css)]
			}
			c.queue = append(c.queue, m)
		}
		chunk := p.wchnk
		noiseP := vsim.Pick(vsim.StWork, 0, 3, 12)
		rechunkP := vsim.Pick(vsim.StWork, 0, 4, 20)
		emit := func(c *chunkStream) bool {
			b, done := c.next(chunk)
			if p.raw(b) != nil {
				return false
			}
			if done != nil {
				for _, k := range members[done] {
					want = append(want, k)
					vsim.Log("model sent %s", pktDesc(k))
				}
				if v := done; v.typ == 1 {
					chunk = int(binary.BigEndian.Uint32(v.data))
				}
			}
			return true
		}
		ctl := func(m *rmsg) bool {
			c := nz[m.csid]
			if c == nil {
				c = &chunkStream{id: m.csid}
				nz[m.csid] = c
			}
			c.queue = append(c.queue, m)
			for c.cur != nil || len(c.queue) > 0 {
				if !emit(c) {
					return false
				}
			}
			return true
		}
		abortP := vsim.Pick(vsim.StWork, 0, 0, 5, 20)
		sticky := vsim.Bool(vsim.StWork, 1, 3)
		idle := genGap()
		for {
			var live []*chunkStream
			for _, c := range css {
				if c.cur != nil || len(c.queue) > 0 {
					live = append(live, c)
				}
			}
			if len(live) == 0 {
				break
			}
			if noiseP > 0 && vsim.Bool(vsim.StWork, 1, noiseP) {
				if !ctl(genNoise(sid)) {
					break
				}
			}
			if rechunkP > 0 && vsim.Bool(vsim.StWork, 1, rechunkP) {
				n := vsim.Pick(vsim.StWork, 128, 1, 2, 100, 129, 1000, 4096, 65536, 65535, 1<<20, 0x7fffffff)
				if n < 64 && mc.maxSize > 600 {
					n = 500
				}
				vsim.Probe("rechunk")
				if !ctl(&rmsg{csid: 2, typ: 1, data: be32(uint32(n))}) {
					break
				}
			}
			c := live[vsim.Draw(vsim.StWork, len(live))]
			if abortP > 0 && vsim.Bool(vsim.StWork, 1, abortP) {
				id := c.id
				if r := uint32(vsim.Range(vsim.StWork, 2, 65599)); vsim.Bool(vsim.StWork, 1, 8) && !used[r] {
					id = r
				} else if c.cur != nil {
					// the message is given up, for good or to be sent again
					vsim.Probe("message_aborted")
					if vsim.Bool(vsim.StWork, 1, 2) {
						c.queue = append([]*rmsg{c.cur}, c.queue...)
					}
					c.cur, c.left, c.last, c.hasDelta, c.ext = nil, nil, nil, false, false
				}
				if !ctl(&rmsg{csid: 2, typ: 2, data: be32(id)}) {
					break
				}
				continue
			}
			if sticky {
				c = live[0]
				for _, x := range live {
					if x.cur != nil {
						c = x
					}
				}
			}
			if c.cur == nil {
				idle()
			}
			if len(live) > maxEdge {
				maxEdge = len(live)
			}
			if !emit(c) {
				break
			}
		}
		sent = true
		p.c.CloseWrite() // acknowledgements may still be on their way
	}
	sutIO := func(c *rtmp.Conn, nc net.Conn) {
		rx.pump(c)
		nc.Close()
	}
	stop := func(f string, a ...any) {
		bad = fmt.Sprintf(f, a...)
		rx.done, sent = true, true
	}
	if sutServer {
		srv := rtmp.NewServer()
		srv.HandleConn = sutIO
		serveRTMP(sut, srvAddr, srv)
		mp.Go("model", func() {
			c, err := vsim.DialAs(mp, nil, srvAddr, 0)
			if err != nil {
				stop("dial: %v", err)
				return
			}
			p := newPeer(c)
			r := p.negotiate(sessOpt{hs: hsSimple, app: "app", stream: "stream", tcurl: "rtmp://" + srvAddr + "/app", publish: true})
			if r.err == nil && r.bad == "" {
				p.awaitStatus(&r, true)
			}
			if r.bad != "" || r.err != nil {
				stop("negotiation: %s %v", r.bad, r.err)
				return
			}
			modelSend(p, uint32(r.granted), true)
		})
	} else {
		lis, err := vsim.ListenAs(mp, srvAddr)
		if err != nil {
			panic(err)
		}
		mp.Go("model", func() {
			c, err := lis.AcceptConn()
			if err != nil {
				return
			}
			p := newPeer(c)
			r := p.serve(srvOpt{hs: hsSimple, sid: 1})
			if r.bad != "" || r.err != nil {
				stop("negotiation: %s %v", r.bad, r.err)
				return
			}
			modelSend(p, 1, false)
		})
		sut.Go("client", func() {
			c, nc, err := dialRTMP("rtmp://"+srvAddr+"/app/stream", false, vsim.Bool(vsim.StWork, 1, 2))
			if err != nil {
				stop("dial: %v", err)
				return
			}
			sutIO(c, nc)
		})
	}
	limit := 600*time.Second + transferTime(&link, pktsBytes(media)*20) + time.Duration(len(media))*20*time.Second
	ok := vsim.WaitUntil(50*time.Millisecond, limit, func() bool { return rx.done && sent || vsim.Failed() })
	if vsim.Failed() {
		return
	}
	if bad != "" {
		fail("C03", "session", "%s", bad)
		return
	}
	if !checkPrefix("C03", "chunk stream", want, rx.pkts) {
		return
	}
	if !ok {
		fail("C03", "stuck", "reader did not finish: %d of %d packets", len(rx.pkts), len(want))
		return
	}
	if len(rx.pkts) != len(want) {
		fail("C03", "lost", "peer sent %d packets, reader got %d then %v", len(want), len(rx.pkts), rx.err)
		return
	}
	if maxEdge > 3 {
		vsim.Probe("interleaved_streams")
	}
}
