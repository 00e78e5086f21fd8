package scen

import (
	"fmt"
	"time"

	"github.com/nareix/joy5/av"

	"vsim/vsim"
)

// stormClient is a client that comes and goes together with others.
type stormClient struct {
	id     int
	path   string
	pub    bool
	c      *vsim.Conn
	ready  bool
	failed string
	left   bool
	gone   bool // the server has hung up on this publisher
	got    map[string]bool
	seq    []string // what it got, in order
}

// psStorm: clients of the pub/sub server come and go in bursts within one
// instant; after each burst whoever is there gets what a new publisher sends.
func psStorm() {
	setBufio()
	setAtomStall()
	link := vsim.PlainLink()
	link.Buf = 1 << 20
	link.Latency = vsim.Pick(vsim.StNet, 0, 0, time.Millisecond)
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	srv := vsim.NewProc("server")
	mp := vsim.NewProc("models")
	mp.Harness = true
	startAvtool(srv, "pubsubrtmp", psAddr)
	if !vsim.WaitUntil(time.Millisecond, time.Minute, func() bool { return vsim.Listening(psAddr) || vsim.Failed() }) {
		fail(Cur, "listen", "server does not listen")
		return
	}
	vsim.Sleep(10 * time.Millisecond)
	base := srv.NTasks()
	var all, active []*stormClient
	npath := vsim.Range(vsim.StWork, 1, 2)
	rounds := vsim.Range(vsim.StWork, 2, 6)
	start := func(k *stormClient, at time.Duration, then func(p *rpeer, sid uint32)) {
		all = append(all, k)
		k.id = len(all)
		k.got = map[string]bool{}
		mp.Go(fmt.Sprint("client", k.id), func() {
			vsim.Sleep(at - vsim.Elapsed())
			c, err := vsim.DialAs(mp, nil, psAddr, 0)
			if err != nil {
				k.failed = err.Error()
				return
			}
			k.c = c
			p := newPeer(c)
			r := p.negotiate(sessOpt{hs: hsSimple, app: "app", stream: k.path, tcurl: "rtmp://" + psAddr + "/app", publish: k.pub})
			if r.err != nil || r.bad != "" {
				k.failed = fmt.Sprint(r.err, r.bad)
				return
			}
			k.ready = true
			if k.pub {
				p.awaitStatus(&r, true)
				mp.Go("drain", func() {
					p.drain()
					k.gone = true
				})
				if then != nil {
					then(p, uint32(r.granted))
				}
				// goes on for as long as it may
				for i := 0; !k.gone && i < 100; i++ {
					m := audioMsg(1, uint32(i), []byte{1, 2, 3})
					m.sid = uint32(r.granted)
					if p.send(m) != nil {
						break
					}
					vsim.Sleep(200 * time.Millisecond)
				}
				return
			}
			m := modelReader{p}
			for {
				x, err := m.ReadPacket()
				if err != nil {
					return
				}
				k.got[string(x.Data)] = true
				k.seq = append(k.seq, string(x.Data))
			}
		})
	}
	leave := func(k *stormClient, at time.Duration) {
		k.left = true
		how := vsim.Draw(vsim.StFault, 3)
		mp.Go("leave", func() {
			vsim.Sleep(at - vsim.Elapsed())
			if how == 0 {
				vsim.Fault("client_reset")
				k.c.Reset()
			}
			k.c.Close()
		})
	}
	settle := func() { vsim.Sleep(300*time.Millisecond + vsim.S.StallTotal) }
	for r := 0; r < rounds; r++ {
		at := vsim.Elapsed() + 10*time.Millisecond
		var stay []*stormClient
		everyone := vsim.Bool(vsim.StWork, 1, 2)
		for _, k := range active {
			if everyone || vsim.Bool(vsim.StWork, 1, 2) {
				leave(k, at)
			} else {
				stay = append(stay, k)
			}
		}
		active = stay
		for i := vsim.Range(vsim.StWork, 1, 4); i > 0; i-- {
			k := &stormClient{path: fmt.Sprint("s", vsim.Draw(vsim.StWork, npath)), pub: vsim.Bool(vsim.StWork, 1, 5)}
			start(k, at, nil)
			active = append(active, k)
		}
		settle()
		vsim.WaitUntil(100*time.Millisecond, 30*time.Second+vsim.S.StallTotal, func() bool {
			for _, k := range active {
				if !k.ready && k.failed == "" {
					return vsim.Failed()
				}
			}
			return true
		})
		if vsim.Failed() {
			return
		}
		if srv.Dead {
			fail(Cur, "server_died", "the server process ended (exit %d)", srv.Code)
			return
		}
		for _, k := range active {
			if !k.ready {
				fail("C20", "refused", "client %d of %s (publisher: %v) could not start: %s", k.id, k.path, k.pub, k.failed)
				return
			}
		}
		// the ready ones get in before anything is published
		settle()
		for i := 0; i < npath; i++ {
			path := fmt.Sprint("s", i)
			data := fmt.Sprintf("key frame of %s in round %d", path, r)
			data = string(be32(uint32(len(data)))) + data
			// a long group of pictures now and then, for somebody who comes late
			long := 0
			if vsim.Bool(vsim.StWork, 1, 40) {
				long = vsim.Pick(vsim.StWork, 100, 300, 600, 1200, 2500, 5000)
			}
			longData := func(j int) string { return fmt.Sprintf("%s, packet %d", data, j) }
			sent := false
			pr := &stormClient{path: path, pub: true}
			start(pr, vsim.Elapsed(), func(p *rpeer, sid uint32) {
				for _, x := range []av.Packet{{Type: av.H264DecoderConfig, Data: avcc(spsA, ppsA)}, {Type: av.H264, IsKeyFrame: true, Data: []byte(data), Time: time.Second}} {
					m := pktToMsg(x, true)
					m.sid = sid
					p.send(m)
				}
				for j := 0; j < long; j++ {
					m := audioMsg(1, 1000+uint32(j), []byte(longData(j)))
					m.sid = sid
					p.send(m)
				}
				sent = true
			})
			got := func() *stormClient {
				for _, k := range active {
					if !k.pub && k.path == path && !k.got[data] {
						return k
					}
				}
				return nil
			}
			vsim.WaitUntil(100*time.Millisecond, 30*time.Second+vsim.S.StallTotal, func() bool { return vsim.Failed() || got() == nil && (pr.ready || pr.failed != "") })
			if vsim.Failed() {
				return
			}
			if !pr.ready {
				fail("C20", "refused", "a publisher of %s could not start: %s", path, pr.failed)
				return
			}
			if k := got(); k != nil {
				fail("C20", "forgotten", "subscriber %d of %s, in since before, does not get the key frame published in round %d", k.id, path, r)
				return
			}
			vsim.Probe("storm_served")
			if long > 0 {
				vsim.WaitUntil(100*time.Millisecond, 5*time.Minute+vsim.S.StallTotal, func() bool { return vsim.Failed() || sent })
				settle()
				late := &stormClient{path: path}
				start(late, vsim.Elapsed(), nil)
				has := func() bool { return late.got[longData(long-1)] }
				if !vsim.WaitUntil(100*time.Millisecond, 5*time.Minute+vsim.S.StallTotal, func() bool { return vsim.Failed() || has() }) {
					fail("C20", "forgotten", "subscriber %d of %s, which came after %d packets, does not get the last of them", late.id, path, long)
					return
				}
				if vsim.Failed() {
					return
				}
				next := -1 // the key frame, then everything since
				for _, x := range late.seq {
					if x == data {
						next = 0
					} else if next >= 0 && next < long && x == longData(next) {
						next++
					} else if isLong := len(x) > len(data) && x[:len(data)] == data; isLong {
						next = -2
						break
					}
				}
				if next != long {
					fail("C20", "late_start", "subscriber %d of %s came %d packets after the key frame and did not get the key frame and all of them", late.id, path, long)
					fail("C19", "late_start", "subscriber %d of %s came %d packets after the key frame and did not get the key frame and all of them", late.id, path, long)
					return
				}
				vsim.Probe("long_group_served")
				active = append(active, late)
			}
			kept := func() *stormClient {
				for _, k := range active {
					if k.pub && k.path == path && !k.gone {
						return k
					}
				}
				return nil
			}
			if !vsim.WaitUntil(100*time.Millisecond, 10*time.Second+vsim.S.StallTotal, func() bool { return vsim.Failed() || kept() == nil }) {
				fail("C21", "old_publisher_kept", "publisher %d of %s goes on sending and is still connected, although publisher %d replaced it", kept().id, path, pr.id)
				return
			}
			active = append(active, pr)
		}
	}
	for _, k := range active {
		leave(k, vsim.Elapsed())
	}
	if !vsim.WaitUntil(200*time.Millisecond, 60*time.Second, func() bool { return srv.NTasks() <= base && len(srv.OpenConns()) == 0 || vsim.Failed() }) {
		fail("C21", "leak", "every client has left, the server still holds %d connections and %d tasks more than when idle: %v", len(srv.OpenConns()), srv.NTasks()-base, srv.Blocked())
	}
}
