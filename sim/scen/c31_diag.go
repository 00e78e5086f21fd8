package scen

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"
	"time"

	"github.com/nareix/joy5/av"

	"vsim/vsim"
)

func init() {
	stub := append(append([]string{"file system (in-memory)", "HTTP client transport"}, netStub...), "sources, destinations and clients reached over the network are independent models")
	reg(&Prop{ID: "C31", Title: "What avtool prints", Real: append([]string{"cmd/avtool conv, statsec, benchrtmp, pubsubrtmp, forwardrtmp (--drtmp, --dflv, --statsec)"}, avtoolReal...), Stub: stub,
		Rule: "Scenario A: conv with every diagnostic switched on or off between any source and destination, either of which may fail; what it prints is held against the simulated connections. Scenario B: a server tool with --drtmp net and clients that get in or do not, or a port that is taken.",
		Scens: []Scenario{
			{"conv_diag", 3, func() { convRunDiag(false, &convDiag{}) }},
			{"server_diag", 2, serverDiag},
		}})
}

// tally is a counter whose value a moment ago is known too.
type tally struct {
	n    int64
	hist []tallied
}

type tallied struct {
	at time.Duration
	n  int64 // up to then and then
}

func (t *tally) add(n int) {
	t.n += int64(n)
	now := vsim.Elapsed()
	if k := len(t.hist); k > 0 && t.hist[k-1].at == now {
		t.hist[k-1].n = t.n
	} else {
		t.hist = append(t.hist, tallied{now, t.n})
	}
}

// earlier is the value before the present instant, or, when tasks were held up,
// so long before that it must have been noticed meanwhile.
func (t *tally) earlier() int64 {
	for i := len(t.hist) - 1; i >= 0; i-- {
		if h := t.hist[i]; vsim.Elapsed()-h.at > vsim.S.StalledSince(h.at) {
			return h.n
		}
	}
	return 0
}

// diagConn is a connection of avtool.
type diagConn struct {
	input   bool
	c       *vsim.Conn // avtool's side
	rx, tx  tally
	done    tally // writes that returned
	r, w    []byte
	made    time.Duration
	printed [2]int64 // tx, rx according to --statsec
}

type convDiag struct {
	quiet, stat, chunk, net, stage, hdr bool

	conns  []*diagConn
	writes []string // of standard output
	slow   int      // lines of statistics that stall the terminal
	lineT  tally    // packet lines
	bad    string

	sum     int64 // packets according to --statsec
	statAt  time.Duration
	stats   int
	stalled time.Duration
	nstat   int // connection lines since the last total
}

func (d *convDiag) args() (a []string) {
	d.quiet = vsim.Bool(vsim.StWork, 1, 4)
	if d.quiet {
		a = append(a, "--qpkt")
	}
	if d.stat = vsim.Bool(vsim.StWork, 2, 3); d.stat {
		a = append(a, "--statsec")
		d.slow = vsim.Pick(vsim.StFault, 0, 0, 2, 5)
		vsim.S.AtomStall, vsim.S.AtomLeft = vsim.Pick(vsim.StFault, 0, 0, 3, 10), 6
	}
	if d.hdr = vsim.Bool(vsim.StWork, 1, 2); d.hdr {
		a = append(a, "--dflv", "filehdr")
	}
	var o []string
	if d.chunk = vsim.Bool(vsim.StWork, 1, 2); d.chunk {
		o = append(o, "chunk")
	}
	if d.net = vsim.Bool(vsim.StWork, 1, 2); d.net {
		o = append(o, "net")
	}
	if d.stage = vsim.Bool(vsim.StWork, 1, 2); d.stage {
		o = append(o, "stage")
	}
	if len(o) > 0 {
		if vsim.Bool(vsim.StWork, 1, 2) {
			a = append(a, "--drtmp", strings.Join(o, ","))
		} else {
			for _, x := range o {
				a = append(a, "--drtmp="+x)
			}
		}
	}
	return
}

// conn watches a connection of avtool.
func (d *convDiag) conn(cp *vsim.Proc, dialer, acceptor *vsim.Conn) {
	k := &diagConn{made: vsim.Elapsed()}
	switch {
	case strings.HasSuffix(acceptor.LocalAddr().String(), ":1936"):
		k.c = dialer
	case strings.HasSuffix(acceptor.LocalAddr().String(), ":1940"):
		k.c, k.input = acceptor, true
	case strings.HasSuffix(acceptor.LocalAddr().String(), ":1935"):
		k.c, k.input = dialer, true
	default:
		return
	}
	d.conns = append(d.conns, k)
	old := k.c.Tap
	k.c.Tap = func(b []byte) {
		if old != nil {
			old(b)
		}
		k.w = append(k.w, b...)
		k.tx.add(len(b))
	}
	k.c.WDone = func(n int) { k.done.add(n) }
	k.c.RTap = func(b []byte) {
		k.r = append(k.r, b...)
		k.rx.add(len(b))
	}
}

func (d *convDiag) std(cp *vsim.Proc) func(p *vsim.Proc, std int, b []byte) {
	return func(p *vsim.Proc, std int, b []byte) {
		if p != cp || std != 2 {
			return
		}
		s := string(b)
		d.writes = append(d.writes, s)
		if strings.HasPrefix(s, "StatSec ") {
			if !d.stat {
				d.wrong("--statsec was not given, and this was printed: %q", s)
				return
			}
			d.statLine(s)
			if d.slow > 0 && vsim.Bool(vsim.StFault, 1, 4) {
				d.slow--
				vsim.SlowDown("slow_stdout", time.Duration(vsim.Range(vsim.StFault, 1, 900))*time.Millisecond)
			}
		} else if isPktLine(s) {
			d.lineT.add(1)
		}
	}
}

func (d *convDiag) wrong(f string, a ...any) {
	if d.bad == "" {
		d.bad = fmt.Sprintf(f, a...)
	}
}

// statLine holds a line of --statsec against the facts.
func (d *convDiag) statLine(s string) {
	now, st := vsim.Elapsed(), vsim.S.StallTotal
	var n, tx, rx int64
	if _, err := fmt.Sscanf(s, "StatSec pkts %d\n", &n); err == nil {
		if d.stats > 0 {
			gap := now - d.statAt
			if gap < time.Second {
				d.wrong("statistics were printed %v after the ones before", gap)
			}
			lim := time.Second + st - d.stalled + 50*time.Millisecond
			for _, k := range d.conns {
				if k.made > d.statAt-3*time.Second { // a new connection restarts the second
					lim += time.Second
				}
			}
			if gap > lim {
				d.wrong("statistics were printed %v after the ones before", gap)
			}
		}
		d.stats++
		d.statAt, d.stalled, d.nstat = now, st, 0
		d.sum += n
		if n < 0 {
			d.wrong("a negative number of packets: %q", s)
		}
		if low := d.lineT.earlier(); d.sum < low {
			d.wrong("statistics add up to %d packets, %d have gone through", d.sum, low)
		}
		return
	}
	name := ""
	if _, err := fmt.Sscanf(s, "StatSec %s tx %d rx %d\n", &name, &tx, &rx); err != nil {
		d.wrong("not a line of statistics: %q", s)
		return
	}
	var k *diagConn
	for _, c := range d.conns {
		if c.input && name == "input0" || !c.input && name == "output0" {
			k = c
		}
	}
	if k == nil {
		d.wrong("statistics of a connection that does not exist: %q", s)
		return
	}
	d.nstat++
	k.printed[0] += tx
	k.printed[1] += rx
	if k.printed[0] > k.tx.n || k.printed[1] > k.rx.n || tx < 0 || rx < 0 {
		d.wrong("%s: statistics add up to %d bytes out, %d in; the connection has carried %d out, %d in", name, k.printed[0], k.printed[1], k.tx.n, k.rx.n)
	}
	if k.c.WErr == 0 && (k.printed[0] < k.done.earlier() || k.printed[1] < k.rx.earlier()) {
		d.wrong("%s: statistics add up to %d bytes out, %d in; the connection has carried %d out, %d in", name, k.printed[0], k.printed[1], k.done.earlier(), k.rx.earlier())
	}
	vsim.Probe("stat_" + name)
}

var typeNames = map[int]string{av.H264: "H264", av.AAC: "AAC", av.H264DecoderConfig: "H264DecoderConfig", av.H264SPSPPSNALU: "H264SPSPPSNALU", av.AACDecoderConfig: "AACDecoderConfig", av.Metadata: "Metadata"}

func isPktLine(s string) bool {
	w, _, _ := strings.Cut(s, " ")
	if w == "UnknownPacketType" {
		return true
	}
	for _, n := range typeNames {
		if w == n {
			return true
		}
	}
	return false
}

// pktLine is what is to be printed about a packet.
func pktLine(p av.Packet) string {
	f := []string{typeNames[p.Type]}
	if p.IsKeyFrame {
		f = append(f, "K")
	}
	f = append(f, p.Time.String())
	if p.CTime != 0 {
		f = append(f, p.CTime.String())
	}
	f = append(f, fmt.Sprint(len(p.Data)))
	return strings.Join(f, " ") + "\n"
}

func (d *convDiag) check(w *convWorld, cp *vsim.Proc) {
	bad := func(f string, a ...any) { fail("C31", "untrue", f, a...) }
	if d.bad != "" {
		bad("%s", d.bad)
		return
	}
	var pkts, hdrs, net, stage []string
	var dump [2][]byte // read, written
	var open [2][]int  // lengths announced
	twisted := false
	for _, s := range d.writes {
		n := 0
		switch {
		case strings.HasPrefix(s, "StatSec "):
		case isPktLine(s):
			pkts = append(pkts, s)
		case strings.HasPrefix(s, "FLVHeader "):
			hdrs = append(hdrs, s)
		case strings.HasPrefix(s, "RtmpEvent "):
			net = append(net, s)
		case strings.HasPrefix(s, "RtmpStage "):
			stage = append(stage, s)
		case d.chunk && scan(s, "< %d\n", &n):
			open[0] = append(open[0], n)
		case d.chunk && scan(s, "> %d\n", &n):
			open[1] = append(open[1], n)
		case d.chunk && s == "": // no bytes
		case d.chunk && strings.HasPrefix(s, "00000000  "):
			b, ok := undump(s)
			if !ok {
				bad("not a hex dump: %q", s)
				return
			}
			if len(open[0]) > 0 && len(open[1]) > 0 {
				twisted = true
			}
			i := 0
			if len(open[0]) == 0 || open[0][0] != len(b) {
				i = 1
			}
			for len(open[i]) > 0 && open[i][0] == 0 {
				open[i] = open[i][1:]
			}
			if len(open[i]) == 0 || open[i][0] != len(b) {
				bad("a dump of %d bytes was not announced as such", len(b))
				return
			}
			open[i] = open[i][1:]
			dump[i] = append(dump[i], b...)
		default:
			bad("unexpected output %q", s)
			return
		}
	}
	// packets
	var want []string
	for _, p := range w.media[:w.n] {
		q, ok := msgToPkt(pktToMsg(p, false))
		if !ok {
			panic("media")
		}
		want = append(want, pktLine(q))
	}
	if d.quiet {
		want = nil
	}
	for i, s := range pkts {
		if i >= len(want) {
			bad("%q is printed about a packet that was not converted, or although nothing is to be printed", s)
			return
		}
		head, tail := want[i], ""
		switch cut := strings.LastIndexByte(want[i], ' '); w.media[i].Type {
		case av.Metadata: // its size depends on the encoding
			head = want[i][:cut+1]
		case av.H264DecoderConfig, av.AACDecoderConfig: // no time of its own
			head, tail = typeNames[w.media[i].Type]+" ", want[i][cut:]
		}
		if strings.HasPrefix(s, head) && strings.HasSuffix(s, tail) && strings.HasSuffix(s, "\n") && strings.Count(s, "\n") == 1 {
			continue
		}
		bad("packet %d is printed as %q, it is %q", i, s, want[i])
		return
	}
	if cp.Code == 0 && !w.ambiguous && len(pkts) != len(want) {
		bad("%d of %d packets were printed", len(pkts), len(want))
		return
	}
	if w.bad && w.src == "file" && w.dstFault == "" && w.dst != "unsupported" && len(pkts) != len(want) {
		bad("%d of %d packets before the failure of the source were printed", len(pkts), len(want))
		return
	}
	if d.sum > int64(w.n) {
		bad("statistics add up to %d packets of %d", d.sum, w.n)
		return
	}
	vsim.Probe("lines_checked")
	// file headers
	if d.hdr && (w.src == "file" || w.src == "http") {
		f := ""
		if w.flvFlags&4 != 0 {
			f += "A"
		}
		if w.flvFlags&1 != 0 {
			f += "V"
		}
		if len(hdrs) > 1 || len(hdrs) == 1 && hdrs[0] != "FLVHeader AVFlags "+f+"\n" {
			bad("the header of a file with flags %d is printed as %q", w.flvFlags, hdrs)
			return
		}
		if len(hdrs) == 0 && (d.sum > 0 || len(pkts) > 0 || cp.Code == 0) {
			bad("the header of the file was not printed")
			return
		}
	} else if len(hdrs) > 0 {
		bad("unexpected output %q", hdrs)
		return
	}
	// connection events
	var in, out *diagConn
	for _, k := range d.conns {
		if k.input {
			in = k
		} else {
			out = k
		}
	}
	ev := func(k *diagConn, e string) string {
		return fmt.Sprintf("RtmpEvent %v %v %s\n", k.c.LocalAddr(), k.c.RemoteAddr(), e)
	}
	rest := append([]string(nil), net...)
	take := func(s string, must bool) bool {
		for i, x := range rest {
			if x == s {
				rest = append(rest[:i:i], rest[i+1:]...)
				return true
			}
		}
		if must {
			bad("%q was not printed (%q)", s, net)
		}
		return !must
	}
	if d.net {
		if in != nil && w.src == "listen" && !take(ev(in, "Connected"), true) {
			return
		}
		if in != nil && w.src == "rtmp" && w.srcFault == "open" && !take(ev(in, "HandshakeFailed"), true) {
			return
		}
		if out != nil && (w.dstFault == "refuse" || w.dstFault == "silent") && !take(ev(out, "HandshakeFailed"), true) {
			return
		}
		if out != nil && (w.dstFault == "close" || w.dstFault == "reset") && len(w.rx.pkts) == 0 && !take(ev(out, "HandshakeFailed"), false) {
			return
		}
	}
	if len(rest) > 0 {
		bad("%q is printed about events that did not happen", rest)
		return
	}
	// stages
	rest = append([]string(nil), stage...)
	if d.stage {
		if len(rest) > 0 && rest[0] == "RtmpStage RtmpStageCommandDone \n" && w.src == "listen" && in != nil {
			rest = rest[1:]
		} else if w.src == "listen" && (len(pkts) > 0 || d.sum > 0) {
			bad("the command stage of the source is missing: %q", stage)
			return
		}
		if len(rest) > 0 && rest[0] == "RtmpStage RtmpStageDataStart \n" && out != nil && !w.refused {
			rest = rest[1:]
		} else if len(w.rx.pkts) > 0 {
			bad("the data stage of the destination is missing: %q", stage)
			return
		}
	}
	if len(rest) > 0 {
		bad("%q is printed about stages that did not happen", rest)
		return
	}
	// bytes
	if !d.chunk || twisted || cp.Code != 0 || w.dstFault != "" || w.srcFault == "cut_inside" || w.n == 0 {
		return
	}
	size := 0
	for _, p := range w.media[:w.n] {
		size += len(p.Data)
	}
	if in != nil && out != nil {
		if len(dump[0]) < size || len(dump[1]) < size {
			bad("%d bytes in, %d out were dumped, the packets have %d", len(dump[0]), len(dump[1]), size)
		}
		return
	}
	if k := in; k != nil {
		vsim.Probe("dump_in")
		if len(dump[0]) < size || !bytes.HasSuffix(k.r, dump[0]) {
			bad("the %d bytes dumped as read are not the last ones of the %d that arrived", len(dump[0]), len(k.r))
		} else if !bytes.Contains(k.w, dump[1]) {
			bad("the %d bytes dumped as written are not among the %d that were", len(dump[1]), len(k.w))
		}
	}
	if k := out; k != nil {
		vsim.Probe("dump_out")
		if len(dump[1]) < size || !bytes.HasSuffix(k.w, dump[1]) {
			bad("the %d bytes dumped as written are not the last ones of the %d that were", len(dump[1]), len(k.w))
		} else if !bytes.Contains(k.r, dump[0]) {
			bad("the %d bytes dumped as read are not among the %d that arrived", len(dump[0]), len(k.r))
		}
	}
}

func scan(s, f string, n *int) bool {
	k, err := fmt.Sscanf(s, f, n)
	return err == nil && k == 1
}

// undump reads a hex dump back.
func undump(s string) (b []byte, ok bool) {
	for _, l := range strings.SplitAfter(s, "\n") {
		if l == "" {
			continue
		}
		if len(l) < 60 {
			return nil, false
		}
		h, err := hex.DecodeString(strings.ReplaceAll(l[9:60], " ", ""))
		if err != nil {
			return nil, false
		}
		b = append(b, h...)
	}
	return b, hex.Dump(b) == s
}

// serverDiag: a server tool reports its connections, and that it cannot listen.
func serverDiag() {
	setBufio()
	link := genFastLink()
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	const addr = "tool:1935"
	tool := vsim.Pick(vsim.StWork, "pubsubrtmp", "forwardrtmp", "benchrtmp")
	sp := vsim.NewProc("tool")
	mp := vsim.NewProc("models")
	mp.Harness = true
	if vsim.Bool(vsim.StFault, 1, 6) {
		if _, err := vsim.ListenAs(mp, addr); err != nil {
			panic(err)
		}
		vsim.Fault("port_taken")
		startAvtool(sp, tool, addr)
		if !vsim.WaitUntil(10*time.Millisecond, time.Minute, func() bool { return sp.Exited || vsim.Failed() }) {
			fail("C31", "listen", "%s goes on although its port is taken", tool)
		} else if sp.Code == 0 {
			fail("C31", "listen", "%s ends with status 0 although its port is taken", tool)
		}
		return
	}
	netEv := vsim.Bool(vsim.StWork, 3, 4)
	chunk := tool == "benchrtmp" && vsim.Bool(vsim.StWork, 1, 3)
	stage := tool == "benchrtmp" && !chunk && vsim.Bool(vsim.StWork, 1, 2)
	var o []string
	if netEv {
		o = append(o, "net")
	}
	if chunk {
		o = append(o, "chunk")
	}
	if stage {
		o = append(o, "stage")
	}
	args := []string{tool, addr}
	if len(o) > 0 {
		args = append(args, "--drtmp", strings.Join(o, ","))
	}
	var lines, raw []string
	vsim.S.FS.OnStd = func(p *vsim.Proc, std int, b []byte) {
		if p == sp {
			if std == 2 {
				raw = append(raw, string(b))
			}
			lines = append(lines, string(b))
		}
	}
	var acc *vsim.Conn
	var r, w []byte
	vsim.S.Net.OnConn = func(dialer, acceptor *vsim.Conn) {
		if chunk {
			acc = acceptor
			acc.RTap = func(b []byte) { r = append(r, b...) }
			acc.Tap = func(b []byte) { w = append(w, b...) }
		}
	}
	startAvtool(sp, args...)
	if !vsim.WaitUntil(time.Millisecond, time.Minute, func() bool { return vsim.Listening(addr) || vsim.Failed() }) {
		fail("C31", "listen", "%s does not listen", tool)
		return
	}
	type client struct {
		kind, url     string
		local, remote string
		ok, over      bool
	}
	var cs []*client
	n := vsim.Range(vsim.StWork, 1, 6)
	if chunk {
		n = 1
	}
	for i := 0; i < n; i++ {
		k := &client{kind: vsim.Pick(vsim.StWork, "publish", "play", "cut", "reset", "silent", "http", "half")}
		if chunk {
			k.kind = "publish"
		}
		cs = append(cs, k)
		half := vsim.Draw(vsim.StFault, 3000)
		wait := time.Duration(vsim.Draw(vsim.StWork, 3000)) * time.Millisecond
		media := genMedia(mediaCfg{n: 5, video: true, audio: true, cfgs: true, maxSize: 300, stepMS: 40, gop: 4})
		mp.Go("client", func() {
			defer func() { k.over = true }()
			vsim.Sleep(wait)
			c, err := vsim.DialAs(mp, nil, addr, 0)
			if err != nil {
				return
			}
			k.local, k.remote = c.RemoteAddr().String(), c.LocalAddr().String()
			p := newPeer(c)
			switch k.kind {
			case "cut", "reset":
				b := payload(7, half)
				if half > 0 {
					b[0] = 3
				}
				c.Write(b[:min(half, 1500)])
				vsim.Fault("client_" + k.kind)
				if k.kind == "reset" {
					c.Reset()
				}
				c.Close()
			case "silent":
				vsim.Fault("client_silent")
				vsim.Sleep(30 * time.Second)
				c.Close()
			case "half": // shakes hands and says nothing more
				vsim.Fault("client_silent")
				hsClient(c, hsSimple)
				vsim.Sleep(30 * time.Second)
				c.Close()
			case "http":
				fmt.Fprintf(c, "GET / HTTP/1.1\r\nHost: tool\r\n\r\n")
				c.CloseWrite()
				vsim.Sleep(5 * time.Second)
				c.Close()
			default:
				r := p.negotiate(sessOpt{hs: hsSimple, app: "app", stream: fmt.Sprint("s", i), tcurl: "rtmp://" + addr + "/app", publish: k.kind == "publish", chunk: vsim.Pick(vsim.StWork, 0, 128, 4096)})
				if k.ok = r.err == nil && r.bad == ""; !k.ok {
					fail("C31", "refused", "a well-behaved client was not served: %v %v", r.err, r.bad)
					return
				}
				k.url = "rtmp://" + addr + "/app/" + fmt.Sprint("s", i)
				if k.kind == "publish" && tool != "forwardrtmp" {
					p.awaitStatus(&r, true)
					mp.Go("drain", p.drain)
					for _, x := range media {
						m := pktToMsg(x, true)
						m.sid = uint32(r.granted)
						if p.send(m) != nil {
							break
						}
					}
				}
				vsim.Sleep(time.Second)
				c.CloseWrite()
				vsim.Sleep(5 * time.Second)
				c.Close()
			}
		})
	}
	vsim.WaitUntil(100*time.Millisecond, 10*time.Minute, func() bool {
		for _, k := range cs {
			if !k.over {
				return vsim.Failed()
			}
		}
		return true
	})
	vsim.Sleep(20*time.Second + vsim.S.StallTotal)
	if vsim.Failed() {
		return
	}
	vsim.Probe("events_" + tool)
	count := func(k *client, ev string) (n int) {
		for _, l := range lines {
			if strings.Contains(l, " "+ev) && strings.Contains(l, k.local+" "+k.remote+" ") {
				n++
			}
		}
		return
	}
	for _, k := range cs {
		conn, failed := 1, 0
		if !k.ok {
			failed = 1
		}
		if tool == "benchrtmp" && !netEv {
			conn, failed = 0, 0
		}
		if a := count(k, "Connected"); a != conn {
			fail("C31", "untrue", "%s: the connection of a client (%s) was announced %d times: %q", tool, k.kind, a, lines)
			return
		}
		if a := count(k, "HandshakeFailed"); a != failed {
			fail("C31", "untrue", "%s: %d failed handshakes of a client (%s) were reported: %q", tool, a, k.kind, lines)
			return
		}
	}
	// the stages of the bench server's sessions; it has nothing to play
	want := map[string]int{}
	if stage {
		for _, k := range cs {
			switch k.kind {
			case "half":
				want["RtmpStageHandshakeDone "]++
			case "publish", "play":
				want["RtmpStageHandshakeDone "]++
				if k.kind == "publish" {
					want["RtmpServerPublish "+k.url]++
					want["RtmpStageCommandDone "]++
				} else {
					want["RtmpServerPlay "+k.url]++
				}
			}
		}
		vsim.Probe("server_stages")
	}
	for _, l := range lines {
		if l, ok := strings.CutPrefix(l, "RtmpStage "); ok {
			if l = strings.TrimSuffix(l, "\n"); want[l] == 0 {
				fail("C31", "untrue", "%s prints stage %q, which was not reached or asked for (again): %q", tool, l, lines)
				return
			}
			want[l]--
		}
	}
	for l, n := range want {
		if n > 0 {
			fail("C31", "missing", "%s does not print stage %q: %q", tool, l, lines)
			return
		}
	}
	if chunk && acc != nil {
		var dump [2][]byte
		dir := -1
		for _, s := range raw {
			n := 0
			switch {
			case scan(s, "< %d\n", &n):
				dir = 0
			case scan(s, "> %d\n", &n):
				dir = 1
			case strings.HasPrefix(s, "00000000  "):
				b, ok := undump(s)
				if !ok || dir < 0 {
					fail("C31", "untrue", "not a hex dump: %q", s)
					return
				}
				dump[dir] = append(dump[dir], b...)
			}
		}
		vsim.Probe("dump_server")
		const hs = 1537 + 1536 // is not shown
		if len(r) < hs || len(w) < hs || !bytes.Equal(dump[0], r[hs:]) || !bytes.Equal(dump[1], w[hs:]) {
			fail("C31", "untrue", "%d bytes in, %d out were dumped, which are not the %d and %d of the connection", len(dump[0]), len(dump[1]), len(r), len(w))
		}
	}
}
