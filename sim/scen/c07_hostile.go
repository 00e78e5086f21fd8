package scen

import (
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"net"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"

	"vsim/vsim"
)

func init() {
	reg(&Prop{ID: "C07", Title: "hostile RTMP peers are contained", Real: rtmpReal, Stub: append(netStub, "hostile peers are generated byte streams"),
		Rule:  "Scenarios: one to three hostile peers (mutated legal sessions and hand-made hostile messages, cut or stalled at drawn bytes) next to a healthy session in the same process, either role.",
		Scens: []Scenario{{"server", 3, c07Server}, {"client", 2, c07Client}}})
}

// hostileAMF draws an awkward AMF0 value.
func hostileAMF(b []byte, depth int) []byte {
	switch vsim.Draw(vsim.StWork, 14) {
	case 0: // deep nesting
		n := vsim.Pick(vsim.StWork, 3, 50, 1000, 30000, 120000)
		k := vsim.Draw(vsim.StWork, 3)
		for i := 0; i < n; i++ {
			switch k {
			case 0:
				b = append(b, 10, 0, 0, 0, 1)
			case 1:
				b = append(b, 3, 0, 1, 'k')
			case 2:
				b = append(b, 8, 0, 0, 0, 1, 0, 1, 'k')
			}
		}
		return b
	case 1: // nested arrays each claiming many elements
		n := vsim.Pick(vsim.StWork, 1, 2, 10, 400)
		c := uint32(vsim.Pick(vsim.StWork, 1, 100, 5000, 2000, 0x7fffffff))
		for i := 0; i < n; i++ {
			b = append(append(b, 10), be32(c)...)
		}
		pad := vsim.Pick(vsim.StWork, 0, 100, 5000, 60000)
		for i := 0; i < pad; i++ {
			b = append(b, 5)
		}
		return b
	case 2:
		return append(append(b, 12), be32(uint32(vsim.Pick(vsim.StWork, 0, 10, 0xffffff, 0x7fffffff, 0xffffffff)))...)
	case 3:
		return append(append(b, 2), be16(uint16(vsim.Pick(vsim.StWork, 0, 1, 0xffff)))...)
	case 4:
		return append(b, byte(vsim.Draw(vsim.StWork, 256)))
	case 5:
		b = append(b, 3)
		for i := vsim.Draw(vsim.StWork, 5); i > 0; i-- {
			b = append(b, 0, 1, byte('a'+i))
			b = hostileAMF(b, depth+1)
			if len(b) > 1<<20 {
				return b
			}
		}
		return append(b, 0, 0, 9)
	case 6:
		return append(b, amfVals(math.NaN(), math.Inf(1), -1.0, 1e308)...)
	case 7:
		return append(b, payload(vsim.Draw(vsim.StWork, 1000), vsim.Draw(vsim.StWork, 40))...)
	case 8:
		return append(b, 11, 1, 2, 3) // short date
	case 9:
		return append(append(append(b, 11), be64(math.Float64bits(float64(vsim.Pick(vsim.StWork, 0, -1, 1<<62))))...), 0, 0)
	case 10:
		return append(b, amfVals(nil, true, "x", obj{{"code", 1.0}, {"level", obj{}}})...)
	case 11:
		return append(b, amfVals(obj{{"level", "status"}})...)
	case 12:
		return append(b, amfVals(ecma{{"duration", 1.0}, {"x", nil}})...)
	}
	return append(b, amfVals("s", 1.0)...)
}

func be64(v uint64) []byte { return binary.BigEndian.AppendUint64(nil, v) }

// hostileAMF3 draws an awkward AMF3 value.
func hostileAMF3(b []byte) []byte {
	u29 := func(v uint32) []byte {
		return []byte{byte(v>>22) | 0x80, byte(v>>15) | 0x80, byte(v>>8) | 0x80, byte(v)}
	}
	switch vsim.Draw(vsim.StWork, 7) {
	case 0: // object with many traits
		b = append(b, 10)
		b = append(b, u29(uint32(vsim.Pick(vsim.StWork, 0x13, 0x1fffffff, 0x0ffffff3, 0x03, 0x0b)))...)
		b = append(b, 1)
		return append(b, payload(3, vsim.Draw(vsim.StWork, 60))...)
	case 1: // nesting
		n := vsim.Pick(vsim.StWork, 3, 50, 1000, 30000, 120000)
		k := vsim.Draw(vsim.StWork, 2)
		for i := 0; i < n; i++ {
			if k == 0 {
				b = append(b, 9, 3, 3, 'k')
			} else {
				b = append(b, 10, 0x0b, 1, 3, 'k')
			}
		}
		return b
	case 2:
		return append(append(b, 12), u29(uint32(vsim.Pick(vsim.StWork, 1, 0x1fffffff, 0xffff)))...)
	case 3:
		return append(append(b, 6), u29(uint32(vsim.Pick(vsim.StWork, 1, 0x1fffffff, 0xffff)))...)
	case 4:
		return append(b, byte(vsim.Draw(vsim.StWork, 256)))
	case 5:
		return append(append(b, 8), u29(1)...)
	}
	return append(b, payload(vsim.Draw(vsim.StWork, 1000), vsim.Draw(vsim.StWork, 40))...)
}

// hostileMsg draws one hostile or strange message.
func hostileMsg() *rmsg {
	m := &rmsg{csid: uint32(vsim.Pick(vsim.StWork, 2, 3, 4, 6, 8, 5, 64, 320)), sid: uint32(vsim.Draw(vsim.StWork, 3)), ts: uint32(vsim.Pick(vsim.StWork, 0, 1, 0xfffffe, 0xffffff, 0x1000000, 0xffffffff))}
	small := func() []byte { return payload(vsim.Draw(vsim.StWork, 100), vsim.Draw(vsim.StWork, 12)) }
	switch vsim.Draw(vsim.StWork, 12) {
	case 0:
		m.typ = byte(vsim.Pick(vsim.StWork, 1, 2, 3, 4, 5, 6))
		m.data = small()
	case 1:
		m.typ = 1
		m.data = be32(uint32(vsim.Pick(vsim.StWork, 0, 1, 2, 127, 0x7fffffff, 0x80000000, 0xffffffff, 65536)))
	case 2:
		m.typ = 5
		m.data = be32(uint32(vsim.Pick(vsim.StWork, 0, 1, 10, 0xffffffff)))
	case 3:
		m.typ = 4
		m.data = append(be16(uint16(vsim.Draw(vsim.StWork, 9))), small()...)
	case 4:
		m.typ = byte(vsim.Pick(vsim.StWork, 8, 9, 18, 15, 16, 19, 17, 20, 22, 0, 255))
		m.data = small()
	case 5:
		m.typ = byte(vsim.Pick(vsim.StWork, 20, 18, 20))
		m.data = amfVals(vsim.Pick(vsim.StWork, "connect", "publish", "play", "createStream", "_result", "onStatus", "onMetaData", "@setDataFrame", "x"))
		if vsim.Bool(vsim.StWork, 1, 2) {
			m.data = append(m.data, amfVals(float64(vsim.Draw(vsim.StWork, 5)))...)
		}
		for i := vsim.Draw(vsim.StWork, 4); i > 0 && len(m.data) < 1<<20; i-- {
			m.data = hostileAMF(m.data, 0)
		}
	case 6:
		m.typ = byte(vsim.Pick(vsim.StWork, 17, 15))
		m.data = []byte{byte(vsim.Draw(vsim.StWork, 2))}
		if vsim.Bool(vsim.StWork, 1, 2) {
			m.data = append(m.data, 6, 21)
			m.data = append(m.data, "onMetaData"...)
		}
		for i := vsim.Draw(vsim.StWork, 3); i >= 0 && len(m.data) < 1<<20; i-- {
			m.data = hostileAMF3(m.data)
		}
	case 7: // aggregate with odd parts
		m.typ = 22
		for i := vsim.Draw(vsim.StWork, 5); i >= 0; i-- {
			part := small()
			n := uint32(len(part))
			if vsim.Bool(vsim.StWork, 1, 4) {
				n = uint32(vsim.Pick(vsim.StWork, 0xffffff, 0, 100, 5000000))
			}
			m.data = append(m.data, byte(vsim.Pick(vsim.StWork, 8, 9, 18, 22, 1, 4, 20, 0)))
			m.data = u24(m.data, n)
			m.data = append(m.data, 0, 0, 5, 0, 0, 0, 0)
			m.data = append(m.data, part...)
			if vsim.Bool(vsim.StWork, 3, 4) {
				m.data = append(m.data, 0, 0, 0, 0)
			}
		}
	case 8:
		m.typ = 9
		m.data = append([]byte{byte(vsim.Draw(vsim.StWork, 256)), byte(vsim.Draw(vsim.StWork, 4))}, small()...)
	case 9:
		m.typ = 8
		m.data = append([]byte{byte(vsim.Draw(vsim.StWork, 256)), byte(vsim.Draw(vsim.StWork, 4))}, small()...)
	case 10:
		m.typ = byte(vsim.Draw(vsim.StWork, 256))
		m.data = payload(9, vsim.Pick(vsim.StWork, 0, 300, 70000))
	case 11: // hostile command parameters
		m.typ = 20
		url := vsim.Pick(vsim.StWork, "", "::", "rtmp://", "%zz", "rtmp://h/%zz", "/x", "rtmp://[::1", "\x00")
		m.data = amfVals("connect", 1.0, obj{{"app", vsim.Pick[any](vsim.StWork, "app", "", 5.0, nil, "%zz", "..", "a?b#c")}, {"tcUrl", url}})
		if vsim.Bool(vsim.StWork, 1, 2) {
			m.data = amfVals(vsim.Pick(vsim.StWork, "publish", "play"), 4.0, nil, vsim.Pick[any](vsim.StWork, "", nil, 5.0, "%zz", "//", obj{{"a", 1.0}}))
		}
	}
	return m
}

// rawHostile draws bytes that are not even a message.
func rawHostile() []byte {
	switch vsim.Draw(vsim.StWork, 5) {
	case 0: // headers for many chunk streams, each announcing a large message
		var b []byte
		n := vsim.Range(vsim.StWork, 1, 24)
		size := 0
		if vsim.Bool(vsim.StWork, 1, 4) {
			n, size = 150, vsim.Pick(vsim.StWork, 0x400000, 0x3ffff0, 0x300000)
		}
		for i := 0; i < n; i++ {
			b = basicHdr(b, 0, uint32(10+i), 0)
			b = u24(b, 0)
			if size > 0 {
				b = u24(b, uint32(size))
			} else {
				b = u24(b, uint32(vsim.Pick(vsim.StWork, 0xffffff, 0x400000, 0x400001, 1000)))
			}
			b = append(b, byte(vsim.Pick(vsim.StWork, 8, 9, 20, 22)), 1, 0, 0, 0)
			b = append(b, payload(i, 128)...)
		}
		return b
	case 1: // header compression without predecessor
		return append([]byte{byte(vsim.Range(vsim.StWork, 1, 3))<<6 | byte(vsim.Range(vsim.StWork, 2, 63))}, payload(3, vsim.Draw(vsim.StWork, 300))...)
	case 2: // a new header inside a message
		b := basicHdr(nil, 0, 4, 0)
		b = u24(b, 0)
		b = u24(b, 500)
		b = append(b, 8, 1, 0, 0, 0)
		b = append(b, payload(1, 128)...)
		return append(b, b...)
	case 3:
		return payload(vsim.Draw(vsim.StWork, 9999), vsim.Range(vsim.StWork, 1, 4000))
	}
	b := basicHdr(nil, 0, 4, 0)
	b = u24(b, 0xffffff)
	b = u24(b, 10)
	b = append(b, 18, 1, 0, 0, 0, 0xff)
	return b
}

// hostileScript builds the bytes a hostile peer sends. client: it poses as a client.
func hostileScript(client bool, publish bool) []byte {
	hs, rest := clientScript(publish)
	b := append([]byte(nil), hs...)
	b = append(b, payload(6, 1536)...)
	if !client {
		rest = nil
		add := func(csid, sid uint32, vs ...any) {
			rest = append(rest, encMsg(&rmsg{csid: csid, sid: sid, typ: 20, data: amfVals(vs...)}, 128)...)
		}
		add(3, 0, "_result", 1.0, obj{}, obj{{"level", "status"}, {"code", "NetConnection.Connect.Success"}})
		tid := 2.0
		if publish {
			tid = 4
		}
		add(3, 0, "_result", tid, nil, 1.0)
		add(5, 1, "onStatus", 0.0, nil, obj{{"level", "status"}, {"code", "NetStream.Play.Start"}})
	}
	neg := len(b)
	// hostile things before, inside and after the negotiation
	var parts [][]byte
	msgs := func(k int) {
		for ; k > 0; k-- {
			if vsim.Bool(vsim.StWork, 1, 5) {
				parts = append(parts, rawHostile())
			} else {
				parts = append(parts, encMsg(hostileMsg(), 128))
			}
		}
	}
	if vsim.Bool(vsim.StWork, 1, 3) {
		msgs(vsim.Range(vsim.StWork, 1, 4))
	}
	cut := vsim.Draw(vsim.StWork, len(rest)+1)
	if vsim.Bool(vsim.StWork, 2, 3) {
		cut = len(rest)
	}
	parts = append(parts, rest[:cut])
	// some well-formed media
	for i := vsim.Draw(vsim.StWork, 4); i > 0; i-- {
		parts = append(parts, encMsg(videoMsg(true, 1, 0, uint32(i), payload(i, 200)), 128))
	}
	msgs(vsim.Range(vsim.StWork, 0, 12))
	for _, p := range parts {
		b = append(b, p...)
	}
	// byte-level mutation
	if vsim.Bool(vsim.StFault, 1, 2) {
		lo := 0
		if vsim.Bool(vsim.StFault, 3, 4) {
			lo = neg
		}
		if len(b) > lo {
			for k := vsim.Range(vsim.StFault, 1, 6); k > 0; k-- {
				i := lo + vsim.Draw(vsim.StFault, len(b)-lo)
				switch vsim.Draw(vsim.StFault, 4) {
				case 0:
					b[i] ^= 1 << vsim.Draw(vsim.StFault, 8)
				case 1:
					b[i] = byte(vsim.Pick(vsim.StFault, 0, 0xff, 0x7f, 0x80))
				case 2:
					b = append(b[:i:i], b[min(len(b), i+1+vsim.Draw(vsim.StFault, 20)):]...)
				case 3:
					b = append(b[:i:i], append(payload(k, vsim.Range(vsim.StFault, 1, 20)), b[i:]...)...)
				}
				if len(b) <= lo {
					break
				}
			}
		}
		vsim.Fault("bytes_mutated")
	}
	if vsim.Bool(vsim.StFault, 1, 3) {
		b = b[:vsim.Draw(vsim.StFault, len(b)+1)]
		vsim.Fault("stream_truncated")
	}
	return b
}

// hostilePeer plays a script on c and then closes, resets or stays.
func hostilePeer(p *vsim.Proc, c *vsim.Conn, b []byte) {
	if !vsim.Bool(vsim.StFault, 1, 8) {
		p.Go("hostile-drain", func() { io.Copy(io.Discard, c) })
	}
	vsim.Fault("hostile_stream")
	// a peer that writes without reading can end up deadlocked with a
	// correct server: give up after a while
	for len(b) > 0 {
		c.SetWriteDeadline(vsim.WallNow().Add(20 * time.Second))
		n := len(b)
		if vsim.Bool(vsim.StFault, 1, 2) {
			n = vsim.Range(vsim.StFault, 1, n)
		}
		if _, err := c.Write(b[:n]); err != nil {
			break
		}
		b = b[n:]
		if vsim.Bool(vsim.StFault, 1, 3) {
			vsim.Sleep(time.Duration(vsim.Draw(vsim.StFault, 500)) * time.Millisecond)
		}
	}
	vsim.Sleep(time.Duration(vsim.Draw(vsim.StFault, 2000)) * time.Millisecond)
	if vsim.Bool(vsim.StFault, 1, 2) {
		c.Reset()
	}
	c.Close()
}

// healthyPair runs an ordinary session (its own client process) against the
// RTMP server in sp and reports when it completed.
type healthy struct {
	tx   txLog
	rx   rxLog
	err  error
	done bool
}

func c07Server() {
	setBufio()
	vsim.LimitAllocs(12<<20, 256<<20)
	vsim.SetMaxIdle(5_000_000)
	link := genFastLink()
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	sp := vsim.NewProc("server")
	h := &healthy{}
	publish := vsim.Bool(vsim.StWork, 1, 2)
	mc := genMediaCfg()
	mc.n, mc.maxSize = vsim.Range(vsim.StWork, 2, 10), 300
	media := genMedia(mc)
	gap := func() { vsim.Sleep(time.Duration(vsim.Draw(vsim.StWork, 800)) * time.Millisecond) }
	srv := rtmp.NewServer()
	open, entered := 0, 0
	srv.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		defer nc.Close()
		if c.URL.Path == "/app/healthy" {
			if publish {
				h.rx.pump(c)
			} else {
				for _, p := range media {
					if h.tx.write(c, p) != nil {
						break
					}
					gap()
				}
				h.tx.done = true
			}
			return
		}
		entered++
		if c.Publishing {
			for {
				if _, err := c.ReadPacket(); err != nil {
					return
				}
				vsim.Probe("hostile_packet_accepted")
			}
		}
		for i := 0; i < 5; i++ {
			if c.WritePacket(av.Packet{Type: av.AAC, Data: payload(i, 100)}) != nil {
				return
			}
			vsim.Sleep(200 * time.Millisecond)
		}
		vsim.Recv(c.CloseNotify())
	}
	lis, err := vsim.ListenAs(sp, srvAddr)
	if err != nil {
		panic(err)
	}
	sp.Go("server/accept", func() {
		for {
			nc, err := lis.Accept()
			if err != nil {
				return
			}
			open++
			sp.Go("server/conn", func() {
				srv.HandleNetConn(nc)
				open--
			})
		}
	})
	cp := vsim.NewProc("healthy")
	cp.Go("healthy", func() {
		c, nc, err := dialRTMP("rtmp://"+srvAddr+"/app/healthy", publish, false)
		h.err = err
		if err != nil {
			h.done = true
			return
		}
		if publish {
			for _, p := range media {
				if h.tx.write(c, p) != nil {
					break
				}
				gap()
			}
			h.tx.done = true
		} else {
			h.rx.pump(c)
		}
		nc.Close()
	})
	n := vsim.Range(vsim.StFault, 1, 3)
	left := n
	for i := 0; i < n; i++ {
		hp := vsim.NewProc(fmt.Sprintf("hostile%d", i))
		hp.Harness = true
		b := hostileScript(true, vsim.Bool(vsim.StWork, 2, 3))
		hp.Go(hp.Name, func() {
			defer func() { left-- }()
			vsim.Sleep(time.Duration(vsim.Draw(vsim.StFault, 2000)) * time.Millisecond)
			c, err := vsim.DialAs(hp, nil, srvAddr, 0)
			if err != nil {
				return
			}
			hostilePeer(hp, c, b)
		})
	}
	ok := vsim.WaitUntil(50*time.Millisecond, 300*time.Second, func() bool {
		return vsim.Failed() || left == 0 && open == 0 && (h.done || h.tx.done && h.rx.done)
	})
	if vsim.Failed() {
		return
	}
	if h.err != nil {
		fail("C07", "healthy", "an ordinary client could not open its session next to a hostile peer: %v", h.err)
		return
	}
	if !checkPrefix("C07", "healthy session", h.tx.all(), h.rx.pkts) {
		return
	}
	if !h.rx.done || len(h.rx.pkts) != len(media) {
		fail("C07", "healthy", "ordinary session next to a hostile peer delivered %d of %d packets (write error %v)", len(h.rx.pkts), len(media), h.tx.err)
		return
	}
	if !ok {
		fail("C07", "leak", "%d sessions still alive after every peer left (%v)", open, sp.Blocked())
		return
	}
	if entered > 0 {
		vsim.Probe("hostile_session_established")
	}
}

func c07Client() {
	setBufio()
	vsim.LimitAllocs(12<<20, 256<<20)
	vsim.SetMaxIdle(5_000_000)
	link := genFastLink()
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	sut, hp := vsim.NewProc("client"), vsim.NewProc("hostile")
	hp.Harness = true
	publish := vsim.Bool(vsim.StWork, 1, 2)
	b := hostileScript(false, publish)
	lis, err := vsim.ListenAs(hp, srvAddr)
	if err != nil {
		panic(err)
	}
	hp.Go("hostile", func() {
		c, err := lis.AcceptConn()
		if err != nil {
			return
		}
		hostilePeer(hp, c, b)
	})
	done := false
	sut.Go("client", func() {
		c, nc, err := dialRTMP("rtmp://"+srvAddr+"/app/s", publish, vsim.Bool(vsim.StWork, 1, 2))
		if err == nil {
			vsim.Probe("hostile_session_established")
			if publish {
				for i := 0; ; i++ {
					if c.WritePacket(av.Packet{Type: av.AAC, Data: payload(i, 100)}) != nil {
						break
					}
					vsim.Sleep(200 * time.Millisecond)
				}
			} else {
				for {
					if _, err := c.ReadPacket(); err != nil {
						break
					}
					vsim.Probe("hostile_packet_accepted")
				}
			}
			nc.Close()
		}
		done = true
	})
	if !vsim.WaitUntil(50*time.Millisecond, 300*time.Second, func() bool { return done || vsim.Failed() }) {
		fail("C07", "stuck", "client still busy after a hostile server left (%v)", sut.Blocked())
	}
	if done && len(sut.OpenConns()) > 0 {
		fail("C07", "leak", "connection left open after a hostile server")
	}
}
