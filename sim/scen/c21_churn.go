package scen

import (
	"fmt"
	"runtime"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"

	"vsim/vsim"
)

// psChurn: while a publisher and a subscriber stay, many others come and go.
// They must cost the server nothing once they have left: neither memory nor
// work for what is published later.
func psChurn() {
	rtmp.BufioSize = 1 << 18
	link := vsim.PlainLink()
	link.Buf = 1 << 20
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	srv := vsim.NewProc("server")
	mp := vsim.NewProc("models")
	mp.Harness = true
	startAvtool(srv, "pubsubrtmp", psAddr)
	if !vsim.WaitUntil(time.Millisecond, time.Minute, func() bool { return vsim.Listening(psAddr) || vsim.Failed() }) {
		fail("C21", "listen", "server does not listen")
		return
	}
	vsim.Sleep(10 * time.Millisecond)
	idle := srv.NTasks()
	join := func(path string, pub bool) (*vsim.Conn, *rpeer, *sessRes) {
		c, err := vsim.DialAs(mp, nil, psAddr, 0)
		if err != nil {
			return nil, nil, nil
		}
		p := newPeer(c)
		r := p.negotiate(sessOpt{hs: hsSimple, app: "app", stream: path, tcurl: "rtmp://" + psAddr + "/app", publish: pub})
		if r.err != nil || r.bad != "" {
			fail("C20", "refused", "a client of %s could not start: %v %s", path, r.err, r.bad)
			c.Close()
			return nil, nil, nil
		}
		return c, p, &r
	}
	got := map[string]bool{}
	var pub, sub *rpeer
	var pres *sessRes
	mp.Go("publisher", func() {
		_, p, r := join("s", true)
		if p == nil {
			return
		}
		p.awaitStatus(r, true)
		mp.Go("drain", p.drain)
		pub, pres = p, r
	})
	mp.Go("subscriber", func() {
		_, p, _ := join("s", false)
		if sub = p; p == nil {
			return
		}
		m := modelReader{p}
		for {
			x, err := m.ReadPacket()
			if err != nil {
				return
			}
			got[string(x.Data)] = true
		}
	})
	if !vsim.WaitUntil(10*time.Millisecond, time.Minute, func() bool { return pub != nil && sub != nil || vsim.Failed() }) || vsim.Failed() {
		return
	}
	vsim.Sleep(200*time.Millisecond + vsim.S.StallTotal)
	ts := 0
	// round publishes a group of pictures and tells what it cost
	round := func(n int) (steps int64, ok bool) {
		s0 := vsim.S.Steps()
		for i := 0; i < 30; i++ {
			ts += 20
			x := av.Packet{Type: av.AAC, Data: []byte(fmt.Sprintf("round %3d packet %3d", n, i)), Time: msT(int64(ts))}
			if i == 0 {
				x.Type, x.IsKeyFrame = av.H264, true
			}
			m := pktToMsg(x, true)
			m.sid = uint32(pres.granted)
			if pub.send(m) != nil {
				return 0, false
			}
			if !vsim.WaitUntil(time.Millisecond, time.Minute+vsim.S.StallTotal, func() bool { return got[string(x.Data)] || vsim.Failed() }) {
				fail("C20", "forgotten", "packet %d of round %d does not reach the subscriber", i, n)
				return 0, false
			}
			if vsim.Failed() {
				return 0, false
			}
			vsim.Sleep(5 * time.Millisecond)
		}
		return vsim.S.Steps() - s0, true
	}
	quiet := func() bool {
		return vsim.WaitUntil(50*time.Millisecond, 30*time.Second+vsim.S.StallTotal, func() bool {
			return vsim.Failed() || srv.NTasks() <= idle+8 && len(srv.OpenConns()) <= 2
		})
	}
	churn := func(n int) bool {
		left := 0
		wave := vsim.Range(vsim.StWork, 1, 12)
		for i := 0; i < n; i++ {
			path, isPub := "s", false
			if vsim.Bool(vsim.StWork, 1, 4) {
				path, isPub = vsim.Pick(vsim.StWork, "other", "another"), vsim.Bool(vsim.StWork, 1, 2)
			}
			how := vsim.Draw(vsim.StFault, 3)
			stay := time.Duration(vsim.Draw(vsim.StWork, 50)) * time.Millisecond
			mp.Go("visitor", func() {
				defer func() { left++ }()
				c, p, r := join(path, isPub)
				if p == nil {
					return
				}
				if isPub {
					p.awaitStatus(r, true)
					m := audioMsg(1, 0, []byte{1, 2, 3})
					m.sid = uint32(r.granted)
					p.send(m)
				}
				vsim.Sleep(stay)
				if how == 0 {
					vsim.Fault("client_reset")
					c.Reset()
				}
				c.Close()
			})
			if i%wave == wave-1 {
				vsim.Sleep(20 * time.Millisecond)
			}
		}
		return vsim.WaitUntil(50*time.Millisecond, 60*time.Second+vsim.S.StallTotal, func() bool { return left == n || vsim.Failed() }) && quiet() && !vsim.Failed()
	}
	heap := func() int64 {
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	if !churn(4) {
		return
	}
	if _, ok := round(0); !ok {
		return
	}
	before, ok := round(1)
	if !ok {
		return
	}
	h0 := heap()
	n := vsim.Range(vsim.StWork, 60, 120)
	if !churn(n) {
		return
	}
	if _, ok = round(2); !ok {
		return
	}
	after, ok := round(3)
	if !ok {
		return
	}
	h1 := heap()
	if after > before+before/5+100 {
		fail("C21", "leak_work", "the same packets cost the server %d steps before %d clients came and left, and %d steps after", before, n, after)
		return
	}
	if each := (h1 - h0) / int64(n); each > int64(rtmp.BufioSize)/2 {
		fail("C21", "leak_memory", "%d clients came and left, for each of them the server keeps %d bytes", n, each)
		return
	}
	vsim.Probe("churn_checked")
}
