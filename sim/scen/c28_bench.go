package scen

import (
	"fmt"
	"io"
	"strings"
	"syscall"
	"time"

	"github.com/nareix/joy5/av"

	"vsim/vsim"
)

func init() {
	reg(&Prop{ID: "C28", Title: "Benchmark server", Real: append([]string{"cmd/avtool benchrtmp"}, avtoolReal...),
		Stub:  append(append([]string{"file system (in-memory)"}, netStub...), "players and publishers run joy5's client"),
		Rule:  "Scenario: one avtool benchrtmp process serving a file to players that keep up, are slow or leave, next to publishers; or a file that cannot be read.",
		Scens: []Scenario{{"bench", 1, benchRun}}})
}

const benchAddr = "bench:1935"

type benchClient struct {
	id    int
	pub   bool
	proc  *vsim.Proc
	start time.Duration
	media []av.Packet // to publish
	leave int         // packets after which it leaves, or -1
	how   string
	slow  time.Duration
	rx    rxLog
	tx    txLog
	begin time.Duration
	err   error
	over  bool
	ended time.Duration
}

func benchRun() {
	setBufio()
	setAtomStall()
	link := genFastLink()
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	mc := genMediaCfg()
	mc.maxSize = min(mc.maxSize, 70000)
	mc.jump = vsim.Bool(vsim.StWork, 1, 3)
	media := genMedia(mc)
	args := []string{"benchrtmp", benchAddr}
	noFile := vsim.Bool(vsim.StWork, 1, 10)
	b, ends := flvBytes(media, true)
	bad := ""
	if noFile {
		media = nil
	} else {
		const name = "/in/a.flv"
		vsim.S.FS.ShortRead = vsim.Pick(vsim.StNet, 0, 0, 7, 5000)
		args = append(args, name)
		if vsim.Bool(vsim.StFault, 1, 8) {
			bad = vsim.Pick(vsim.StFault, "absent", "read", "cut")
		}
		at := vsim.Draw(vsim.StFault, len(b))
		switch bad {
		case "cut":
			// inside a packet
			k := vsim.Draw(vsim.StFault, len(media))
			at = ends[k] - 5
			b = b[:at]
			vsim.Fault("file_truncated")
		case "read":
			vsim.S.FS.Fault = func(op, n string, off int64, k int) (int, error) {
				if op == "read" && n == name && off+int64(k) > int64(at) {
					return max(0, at-int(off)), syscall.EIO
				}
				return k, nil
			}
		}
		if bad != "absent" {
			vsim.S.FS.Put(name, b)
		} else {
			vsim.Fault("source_open_error")
		}
	}
	// what is printed about the clients
	subs, pubsSeen, printed := int64(-1), int64(-1), time.Duration(-1)
	bp := vsim.NewProc("bench")
	vsim.S.FS.OnStd = func(p *vsim.Proc, std int, out []byte) {
		if p == bp && strings.HasPrefix(string(out), "sub ") {
			fmt.Sscanf(string(out), "sub %d pub %d", &subs, &pubsSeen)
			printed = vsim.Elapsed()
		}
	}
	startAvtool(bp, args...)
	vsim.WaitUntil(time.Millisecond, time.Minute, func() bool { return vsim.Listening(benchAddr) || bp.Exited || vsim.Failed() })
	if vsim.Failed() {
		return
	}
	if bad != "" {
		if !bp.Exited || bp.Code == 0 {
			fail("C28", "error_hidden", "the file cannot be read (%s) and the server starts (exited %v, status %d)", bad, bp.Exited, bp.Code)
			return
		}
		vsim.Probe("refused_" + bad)
		return
	}
	if bp.Exited || !vsim.Listening(benchAddr) {
		fail("C28", "listen", "the server does not start: exited %v, status %d", bp.Exited, bp.Code)
		return
	}
	if vsim.Bool(vsim.StFault, 1, 4) {
		k := vsim.Range(vsim.StFault, 1, 2)
		vsim.S.Net.AcceptErr = func(*vsim.Listener) error {
			if k > 0 {
				k--
				return syscall.EMFILE
			}
			return nil
		}
	}
	vsim.Sleep(10 * time.Millisecond)
	base := bp.NTasks()

	span, t0 := time.Duration(0), time.Duration(-1)
	due := make([]time.Duration, len(media)) // since the start, at the earliest
	for i, p := range media {
		if p.Type == av.H264 || p.Type == av.AAC {
			if t0 < 0 {
				t0 = p.Time
			}
			span = max(span, p.Time/time.Millisecond*time.Millisecond-t0/time.Millisecond*time.Millisecond)
		}
		due[i] = span
	}
	fileBytes := 3 * pktsBytes(media)
	var cs []*benchClient
	for i := vsim.Range(vsim.StWork, 1, 4); i > 0; i-- {
		c := &benchClient{id: i, leave: -1, begin: -1}
		c.proc = vsim.NewProc(fmt.Sprintf("client%d", i))
		c.start = time.Duration(vsim.Draw(vsim.StWork, 3000)) * time.Millisecond
		c.pub = vsim.Bool(vsim.StWork, 1, 3)
		n := len(media)
		if c.pub {
			pc := genMediaCfg()
			pc.maxSize = min(pc.maxSize, 70000)
			pc.idBase = 1000 * i
			c.media = genMedia(pc)
			n = len(c.media)
		}
		if vsim.Bool(vsim.StFault, 1, 3) {
			c.leave = vsim.Draw(vsim.StFault, n+1)
			c.how = vsim.Pick(vsim.StFault, "close", "reset", "crash")
		}
		if !c.pub && c.leave < 0 && vsim.Bool(vsim.StFault, 1, 4) {
			c.slow = vsim.Pick(vsim.StFault, 10*time.Millisecond, 500*time.Millisecond)
			vsim.Fault("slow_player")
		}
		cs = append(cs, c)
	}
	for _, c := range cs {
		c := c
		c.proc.Go(c.proc.Name, func() {
			vsim.Sleep(c.start)
			c.begin = vsim.Elapsed()
			end := func(n int) bool {
				if n != c.leave {
					return false
				}
				vsim.Fault("client_" + c.how)
				vsim.Log("client %d leaves: %s", c.id, c.how)
				switch c.how {
				case "reset":
					for _, x := range c.proc.OpenConns() {
						x.Reset()
					}
				case "crash":
					vsim.At(0, func() { c.over, c.ended = true, vsim.Elapsed(); c.proc.Crash() })
					vsim.Sleep(time.Hour)
				}
				return true
			}
			conn, nc, err := dialRTMP(fmt.Sprintf("rtmp://%s/app/s%d", benchAddr, c.id), c.pub, vsim.Bool(vsim.StWork, 1, 2))
			vsim.Log("client %d open: %v", c.id, err)
			if err != nil {
				c.err, c.over, c.ended = err, true, vsim.Elapsed()
				return
			}
			if c.pub {
				for i, p := range c.media {
					if end(i) || c.tx.write(conn, p) != nil {
						break
					}
				}
			} else {
				for !end(len(c.rx.pkts)) {
					p, err := conn.ReadPacket()
					if err != nil {
						c.rx.err, c.rx.done = err, true
						vsim.Log("client %d: end: %v", c.id, err)
						break
					}
					c.rx.add(p)
					if c.slow > 0 {
						vsim.Sleep(c.slow)
					}
				}
			}
			nc.Close()
			c.over, c.ended = true, vsim.Elapsed()
		})
	}
	slack := time.Minute + time.Duration(fileBytes)*time.Millisecond + transferTime(&link, 4*fileBytes+200000) + time.Duration(len(media))*500*time.Millisecond
	for _, c := range cs {
		slack += transferTime(&link, 4*pktsBytes(c.media)) + time.Duration(pktsBytes(c.media))*time.Millisecond
	}
	all := func() bool {
		for _, c := range cs {
			if !c.over {
				return false
			}
		}
		return true
	}
	ok := vsim.WaitUntil(50*time.Millisecond, 2*span+2*slack, func() bool { return all() || bp.Exited || vsim.Failed() })
	if vsim.Failed() {
		return
	}
	if bp.Exited {
		fail("C28", "exit", "the server exits with %d", bp.Code)
		return
	}
	if !ok {
		for _, c := range cs {
			if !c.over {
				fail("C28", "stuck", "client %d (publishing %v) is not done %v after the start: %d packets", c.id, c.pub, vsim.Elapsed(), len(c.rx.pkts)+len(c.tx.pkts))
				return
			}
		}
	}
	for _, c := range cs {
		if c.err != nil {
			if !c.pub && len(media) == 0 {
				vsim.Probe("nothing_to_play")
				continue
			}
			fail("C28", "refused", "client %d (publishing %v): %v", c.id, c.pub, c.err)
			return
		}
		if c.pub {
			if c.tx.err != nil && c.how != "reset" {
				fail("C28", "publisher", "publisher %d: %v after %d packets", c.id, c.tx.err, len(c.tx.pkts))
				return
			}
			vsim.Probe("published")
			continue
		}
		if !checkPrefix("C28", fmt.Sprintf("player %d", c.id), media, c.rx.pkts) {
			return
		}
		for i := range c.rx.pkts {
			// what came in one piece with an earlier packet was sent with it
			if e := c.begin + due[i]; c.rx.at[i] < e {
				fail("C28", "early", "player %d has packet %d at %v, not before %v (came at %v)", c.id, i, c.rx.at[i], e, c.begin)
				return
			}
			if l := c.begin + due[i] + transferTime(&link, 2*fileBytes+20000) + vsim.S.StallTotal; c.slow == 0 && (link.Seg == 0 || link.Seg >= 100) && c.rx.at[i] > l {
				fail("C28", "late", "player %d has packet %d at %v, %v after it was due", c.id, i, c.rx.at[i], c.rx.at[i]-c.begin-due[i])
				return
			}
		}
		if c.leave < 0 {
			if len(c.rx.pkts) != len(media) || c.rx.err != io.EOF {
				fail("C28", "lost", "player %d has %d of %d packets, then %v", c.id, len(c.rx.pkts), len(media), c.rx.err)
				return
			}
			vsim.Probe("played")
		}
	}
	// nobody is left
	settle := span + slack
	if !vsim.WaitUntil(50*time.Millisecond, settle, func() bool {
		return len(bp.OpenConns()) == 0 && bp.NTasks() <= base && len(bp.OpenFiles()) == 0 || vsim.Failed()
	}) {
		fail("C28", "leak", "all clients left %v ago: %d connections, %d tasks more than before (%v), files %v", settle, len(bp.OpenConns()), bp.NTasks()-base, bp.Blocked(), bp.OpenFiles())
		return
	}
	if vsim.Failed() {
		return
	}
	from := vsim.Elapsed() + 2*time.Second // a line under way is older
	vsim.WaitUntil(50*time.Millisecond, 10*time.Second, func() bool { return printed > from || vsim.Failed() })
	if vsim.Failed() {
		return
	}
	if printed <= from || subs != 0 || pubsSeen != 0 {
		fail("C28", "count", "nobody is connected, the server reports %d players and %d publishers (at %v)", subs, pubsSeen, printed)
	}
}
