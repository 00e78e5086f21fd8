package scen

import (
	"errors"
	"fmt"
	"net"
	"net/url"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format/rtmp"

	"vsim/vsim"
)

func init() {
	reg(&Prop{ID: "C22", Title: "RTMP forwarder", Real: append([]string{"cmd/avtool forwardrtmp"}, avtoolReal...),
		Stub:  append(append([]string{}, netStub...), "destinations are joy5 servers or an independent RTMP server model; publishers run joy5's client"),
		Rule:  "Scenario: an avtool forwardrtmp process, one to four publishers with destinations that accept, refuse, never answer, are not there, stall or leave in mid-stream, next to clients with unusable requests.",
		Scens: []Scenario{{"forward", 1, fwdRun}}})
}

const fwdAddr = "fwd:1936"

type fwdPub struct {
	id     int
	proc   *vsim.Proc
	kind   string // see fwdRun
	url    string
	path   string // destination path
	media  []av.Packet
	start  time.Duration
	pace   time.Duration
	how    string
	tx     txLog
	err    error // opening
	opened time.Duration
	ended  time.Duration
	over   bool
	// destination's view
	seen     int
	rx       rxLog
	pub      bool
	conns    []*vsim.Conn
	dstLeft  time.Duration // destination left on its own
	after    int           // packets written well after that without an error
	lastW    time.Duration
	queryBad string
}

func (l *fwdPub) serveConn(c packetReader, leave int, how string, nc net.Conn) {
	for {
		if leave >= 0 && len(l.rx.pkts) >= leave {
			l.dstLeft = vsim.Elapsed()
			vsim.Fault("destination_" + how)
			vsim.Log("destination of %d leaves: %s", l.id, how)
			switch how {
			case "reset":
				for _, x := range vsim.CurProc().OpenConns() {
					if net.Conn(x) == nc {
						x.Reset()
					}
				}
			case "stall":
				l.rx.done = true
				vsim.Sleep(1000 * time.Hour)
			}
			l.rx.done = true
			nc.Close()
			return
		}
		p, err := c.ReadPacket()
		if err != nil {
			l.rx.err, l.rx.done = err, true
			vsim.Log("destination of %d: end after %d packets: %v", l.id, len(l.rx.pkts), err)
			nc.Close()
			return
		}
		l.rx.add(p)
		vsim.Log("destination of %d got %s", l.id, pktDesc(p))
	}
}

// modelReader turns a model peer into a packet reader.
type modelReader struct{ p *rpeer }

func (m modelReader) ReadPacket() (av.Packet, error) {
	for {
		msg, err := m.p.next()
		if err != nil {
			return av.Packet{}, err
		}
		if p, ok := msgToPkt(msg); ok {
			return p, nil
		}
	}
}

func fwdRun() {
	setBufio()
	link := genFastLink()
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	fp := vsim.NewProc("forwarder")
	startAvtool(fp, "forwardrtmp", fwdAddr)
	if !vsim.WaitUntil(time.Millisecond, time.Minute, func() bool { return vsim.Listening(fwdAddr) || vsim.Failed() }) {
		fail("C22", "listen", "forwarder does not listen")
		return
	}
	vsim.Sleep(10 * time.Millisecond)
	base := fp.NTasks()

	var pubs []*fwdPub
	byPath := map[string]*fwdPub{}
	// destinations: a joy5 server and a model server, telling publishers apart by path
	leave := map[*fwdPub]int{}
	leaveHow := map[*fwdPub]string{}
	dp := vsim.NewProc("dst")
	srv := rtmp.NewServer()
	srv.HandleConn = func(c *rtmp.Conn, nc net.Conn) {
		l := byPath[c.URL.Path]
		if l == nil {
			fail("C22", "target", "a destination was asked for %q, which nobody named", c.URL)
			nc.Close()
			return
		}
		l.seen++
		l.pub = c.Publishing
		if q := c.URL.RawQuery; q != "k=v" {
			l.queryBad = q
		}
		if l.seen > 1 {
			fail("C22", "twice", "destination of publisher %d was connected %d times", l.id, l.seen)
		}
		if l.kind == "refuse" {
			c.PubPlayErr = errors.New("not here")
			c.Prepare(rtmp.StageCommandDone, rtmp.PrepareWriting)
			nc.Close()
			return
		}
		n := -1
		if x, ok := leave[l]; ok {
			n = x
		}
		c.Prepare(rtmp.StageCommandDone, 0)
		l.serveConn(c, n, leaveHow[l], nc)
	}
	serveRTMP(dp, "dst0:1935", srv)
	mp := vsim.NewProc("model")
	mp.Harness = true
	mlis, _ := vsim.ListenAs(mp, "dst1:1935")
	mp.Go("accept", func() {
		for {
			c, err := mlis.AcceptConn()
			if err != nil {
				return
			}
			mp.Go("conn", func() {
				p := newPeer(c)
				o := srvOpt{hs: hsSimple, sid: uint32(vsim.Range(vsim.StWork, 1, 3))}
				o.chunk = vsim.Pick(vsim.StWork, 0, 4096)
				// the path decides only after the handshake; refusal is drawn up front
				o.noiseFn = func(p *rpeer, at int) error {
					if at != 4 {
						return nil
					}
					return nil
				}
				r := p.serve(o)
				if r.bad != "" {
					fail("C22", "protocol", "%s", r.bad)
				}
				if r.err != nil {
					c.Close()
					return
				}
				path := "/" + r.app + "/" + r.stream
				u, err := url.Parse(path)
				if err != nil || byPath[u.Path] == nil {
					fail("C22", "target", "a destination was asked for %q, which nobody named", path)
					c.Close()
					return
				}
				l := byPath[u.Path]
				l.seen++
				l.pub = r.publish
				if u.RawQuery != "k=v" {
					l.queryBad = u.RawQuery
				}
				if l.seen > 1 {
					fail("C22", "twice", "destination of publisher %d was connected %d times", l.id, l.seen)
				}
				n := -1
				if x, ok := leave[l]; ok {
					n = x
				}
				l.serveConn(modelReader{p}, n, leaveHow[l], c)
			})
		}
	})
	// accepts connections and never answers
	qp := vsim.NewProc("silent")
	qp.Harness = true
	qlis, _ := vsim.ListenAs(qp, "dst2:1935")
	qp.Go("accept", func() {
		for {
			if _, err := qlis.AcceptConn(); err != nil {
				return
			}
		}
	})

	vsim.S.FS.Put("/data/keep.flv", []byte("precious"))
	n := vsim.Range(vsim.StWork, 1, 4)
	startIn := vsim.Pick(vsim.StWork, 3000, 300, 20, 1)
	for i := 0; i < n; i++ {
		l := &fwdPub{id: i, opened: -1, ended: -1, dstLeft: -1}
		l.path = fmt.Sprintf("/live/p%d", i)
		byPath[l.path] = l
		host := vsim.Pick(vsim.StWork, "dst0:1935", "dst0", "dst1:1935")
		switch vsim.Weighted(vsim.StWork, 8, 3, 1, 1, 1, 3) {
		case 0:
			l.kind = "ok"
		case 1:
			l.kind = "leaves"
			leaveHow[l] = vsim.Pick(vsim.StFault, "close", "reset", "stall")
		case 2:
			l.kind, host = "refuse", "dst0"
			vsim.Fault("destination_refuses")
		case 3:
			l.kind, host = "silent", "dst2"
			vsim.Fault("destination_silent")
		case 4:
			l.kind, host = "absent", vsim.Pick(vsim.StWork, "nowhere:1935", "dst0:1999")
			vsim.Fault("destination_absent")
		case 5:
			l.kind = vsim.Pick(vsim.StFault, "nofwd", "play", "file", "file", "badurl", "otherscheme")
			vsim.Fault("request_" + l.kind)
		}
		cfg := genMediaCfg()
		cfg.idBase = 1000 * i
		l.media = genMedia(cfg)
		fwd := "rtmp://" + host + l.path + "?k=v"
		switch l.kind {
		case "nofwd":
			fwd = ""
		case "file":
			fwd = vsim.Pick(vsim.StWork, "/data/keep.flv", "/data/new.flv", "/data/new.mp4", "/data/keep.txt", "file:///data/keep.flv", "/data/new", "keep.flv")
		case "badurl":
			fwd = vsim.Pick(vsim.StWork, "rtmp://%zz/", ":", "rtmp://", "rtmp:", "//dst0/live/p0", "rtmp:///live/x")
		case "otherscheme":
			fwd = vsim.Pick(vsim.StWork, "http://dst0/data/keep.flv", "rtsp://dst0/live/x", "https://dst0/x.flv", "RTMPX://dst0/live/x", "rtmpt://dst0/live/x.mp4")
		}
		l.url = fmt.Sprintf("rtmp://%s/app/s%d", fwdAddr, i)
		if fwd != "" {
			l.url += "?fwd=" + url.QueryEscape(fwd)
		}
		if l.kind == "leaves" {
			leave[l] = vsim.Draw(vsim.StFault, len(l.media)+1)
		}
		l.start = time.Duration(vsim.Draw(vsim.StWork, startIn)) * time.Millisecond
		l.pace = vsim.Pick(vsim.StWork, 0, 0, time.Millisecond, 100*time.Millisecond)
		l.how = vsim.Pick(vsim.StFault, "close", "close", "reset", "crash")
		l.proc = vsim.NewProc(fmt.Sprintf("pub%d", i))
		pubs = append(pubs, l)
	}
	for _, l := range pubs {
		l := l
		l.proc.Go(l.proc.Name, func() {
			vsim.Sleep(l.start)
			t0 := vsim.Elapsed()
			c, nc, err := dialRTMP(l.url, l.kind != "play", vsim.Bool(vsim.StWork, 1, 2))
			vsim.Log("publisher %d open: %v", l.id, err)
			if err != nil {
				l.err, l.over, l.ended = err, true, vsim.Elapsed()
				if d := vsim.Elapsed() - t0; d > 40*time.Second {
					fail("C22", "late", "publisher %d waited %v for its refusal", l.id, d)
				}
				return
			}
			l.opened = vsim.Elapsed()
			if l.kind == "play" {
				if _, err = c.ReadPacket(); err != nil {
					l.tx.err = err
				}
				nc.Close()
				l.over, l.ended = true, vsim.Elapsed()
				return
			}
			cut := len(l.media)
			if l.how == "reset" || l.how == "crash" {
				cut = vsim.Draw(vsim.StFault, len(l.media)+1)
			}
			for i, p := range l.media {
				if i >= cut || l.tx.write(c, p) != nil {
					break
				}
				if l.pace > 0 {
					vsim.Sleep(l.pace)
				}
			}
			// a publisher whose destination left keeps sending
			if l.kind == "leaves" && leaveHow[l] != "stall" && l.tx.err == nil && l.how == "close" && vsim.Bool(vsim.StWork, 1, 2) {
				vsim.WaitUntil(100*time.Millisecond, 20*time.Second+transferTime(&link, 4*pktsBytes(l.media)), func() bool { return l.dstLeft >= 0 })
				if l.dstLeft >= 0 {
					for k := 0; k < 12 && l.tx.err == nil; k++ {
						vsim.Sleep(3 * time.Second)
						l.tx.write(c, av.Packet{Type: av.AAC, Data: payload(9000+k, 20)})
					}
					if l.tx.err == nil {
						fail("C22", "not_told", "publisher %d wrote 12 packets over 36 s after its destination had left without an error", l.id)
					}
					vsim.Probe("publisher_told_destination_left")
				}
			}
			l.tx.done = true
			switch l.how {
			case "crash":
				vsim.Fault("publisher_crash")
				vsim.At(0, func() { l.over, l.ended = true, vsim.Elapsed(); l.proc.Crash() })
				vsim.Sleep(time.Hour)
			case "reset":
				for _, x := range l.proc.OpenConns() {
					x.Reset()
				}
			}
			nc.Close()
			l.over, l.ended = true, vsim.Elapsed()
		})
	}
	total := 0
	for _, l := range pubs {
		total += pktsBytes(l.media) + 200*len(l.media)
	}
	limit := 200*time.Second + transferTime(&link, 8*total)
	settled := func(l *fwdPub) bool {
		if !l.over {
			return l.kind == "leaves" && leaveHow[l] == "stall" && l.dstLeft >= 0
		}
		return l.seen == 0 || l.rx.done || l.kind == "refuse"
	}
	if !vsim.WaitUntil(100*time.Millisecond, limit, func() bool {
		if vsim.Failed() || fp.Dead {
			return true
		}
		for _, l := range pubs {
			if !settled(l) {
				return false
			}
		}
		return true
	}) {
		for _, l := range pubs {
			if !settled(l) {
				if l.over {
					fail("C22", "end_hidden", "publisher %d left at %v (%s), its destination has not been told by %v (has %d packets)", l.id, l.ended, l.how, vsim.Elapsed(), len(l.rx.pkts))
				} else {
					fail("C22", "stuck", "publisher %d (%s) is blocked after %d of %d packets", l.id, l.kind, len(l.tx.pkts), len(l.media))
				}
				return
			}
		}
	}
	if vsim.Failed() {
		return
	}
	if fp.Dead {
		fail("C22", "died", "the forwarder process ended (exit %d)", fp.Code)
		return
	}
	for _, l := range pubs {
		if !checkPrefix("C22", fmt.Sprintf("publisher %d", l.id), l.tx.all(), l.rx.pkts) {
			return
		}
		if l.seen > 0 && !l.pub {
			fail("C22", "role", "forwarder asked the destination of publisher %d to play", l.id)
		}
		if l.queryBad != "" {
			fail("C22", "target", "destination of publisher %d was given query %q instead of k=v", l.id, l.queryBad)
		}
		switch l.kind {
		case "ok":
			if l.err != nil {
				fail("C22", "refused", "publisher %d could not publish although its destination accepts: %v", l.id, l.err)
			} else if l.how == "close" {
				if l.tx.err != nil {
					fail("C22", "dropped", "publisher %d lost its session: %v", l.id, l.tx.err)
				} else if len(l.rx.pkts) != len(l.tx.pkts) {
					fail("C22", "lost", "publisher %d wrote %d packets and closed, its destination got %d then %v", l.id, len(l.tx.pkts), len(l.rx.pkts), l.rx.err)
				}
				vsim.Probe("forwarded_completely")
			}
		case "leaves":
			if l.err != nil {
				fail("C22", "refused", "publisher %d could not publish although its destination accepts: %v", l.id, l.err)
			}
		case "play":
			if l.err == nil && l.tx.err == nil {
				fail("C22", "false_success", "the forwarder served packets to a player")
			}
		default:
			if l.err == nil {
				fail("C22", "false_success", "publisher %d was told it publishes although its destination is unusable (%s)", l.id, l.kind)
			}
			vsim.Probe("unusable_destination_" + l.kind)
		}
	}
	if b, _ := vsim.S.FS.Get("/data/keep.flv"); string(b) != "precious" || len(vsim.S.FS.Names()) != 1 {
		fail("C22", "files", "a client made the forwarder change its files: %v", vsim.S.FS.Names())
	}
	if vsim.Failed() {
		return
	}
	// everybody leaves: nothing remains
	for _, l := range pubs {
		if !l.over {
			l.proc.Crash()
		}
	}
	dp.Crash()
	mp.Crash()
	qp.Crash()
	if !vsim.WaitUntil(200*time.Millisecond, 60*time.Second+transferTime(&link, total), func() bool { return fp.NTasks() <= base && len(fp.OpenConns()) == 0 }) {
		fail("C22", "leak", "publishers and destinations have left, the forwarder still holds %d connections and %d tasks more than when idle (%v)", len(fp.OpenConns()), fp.NTasks()-base, fp.Blocked())
	}
	if n := fp.OpenListeners(); n != 1 {
		fail("C22", "listener", "the forwarder has %d open listeners", n)
	}
	// and it still serves
	vsim.Probe("forwarder_idle_again")
}
