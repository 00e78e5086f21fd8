package scen

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"syscall"
	"time"

	"github.com/nareix/joy5/av"

	"vsim/vsim"
)

func init() {
	stub := append(append([]string{"file system (in-memory)", "HTTP client transport"}, netStub...), "sources and destinations reached over the network are independent models")
	reg(&Prop{ID: "C23", Title: "Playback-rate pacing", Real: append([]string{"cmd/avtool conv", "av/pktop (rate limiter)"}, avtoolReal...), Stub: stub,
		Rule:  "Scenario: an avtool conv process paces a recorded or live source towards an RTMP destination, or a file with --re; every write is timestamped by the simulated network or disk.",
		Scens: []Scenario{{"conv_pace", 1, func() { convRun(true) }}}})
	reg(&Prop{ID: "C24", Title: "Conversion and its exit status", Real: append([]string{"cmd/avtool conv, statsec", "av/pktop (rate limiter)"}, avtoolReal...), Stub: stub,
		Rule:  "Scenario: one avtool conv process between a source (file, HTTP, RTMP server, RTMP publisher) and a destination (file, RTMP server, none), either of which may fail at a drawn point.",
		Scens: []Scenario{{"conv", 1, func() { convRun(false) }}}})
}

// stamped is a stretch of a byte stream with the time it was written.
type stamped struct {
	end int64
	at  time.Duration
}

// byteLog remembers a byte stream and when each part of it was written.
type byteLog struct {
	b  []byte
	st []stamped
}

func (l *byteLog) tap(b []byte) {
	l.b = append(l.b, b...)
	l.st = append(l.st, stamped{int64(len(l.b)), vsim.Elapsed()})
}

// when tells when byte i (0-based) was written.
func (l *byteLog) when(i int64) time.Duration {
	for _, s := range l.st {
		if i < s.end {
			return s.at
		}
	}
	return -1
}

// outPkt is a packet as the destination's channel carried it.
type outPkt struct {
	p          av.Packet
	begin, end time.Duration // first and last byte written
}

// rtmpOut decodes what an RTMP client wrote after its handshake.
func (l *byteLog) rtmpOut() (out []outPkt, publishAt time.Duration, err error) {
	publishAt = -1
	const hs = 1537 + 1536
	if len(l.b) < hs {
		return
	}
	r := bytes.NewReader(l.b[hs:])
	cr := newChunkReader(r)
	for {
		from := hs + cr.total
		m, e := cr.read()
		if e != nil {
			if e != io.EOF && e != io.ErrUnexpectedEOF {
				err = e
			}
			return
		}
		to := hs + cr.total
		if c := parseCmd(m); (m.typ == 20 || m.typ == 17) && c != nil && c.name == "publish" {
			publishAt = l.when(to - 1)
		}
		if p, ok := msgToPkt(m); ok {
			out = append(out, outPkt{p, l.when(from), l.when(to - 1)})
		}
	}
}

// flvOut decodes an FLV file written front to back.
func (l *byteLog) flvOut() (out []outPkt, whole bool) {
	b := l.b
	if len(b) < 13 || string(b[:4]) != "FLV\x01" {
		return nil, false
	}
	off := int(b[5])<<24 | int(b[6])<<16 | int(b[7])<<8 | int(b[8])
	i := off + 4
	for i >= 0 && i+15 <= len(b) {
		n := int(b[i+1])<<16 | int(b[i+2])<<8 | int(b[i+3])
		if i+15+n > len(b) {
			return out, false
		}
		m := &rmsg{typ: b[i] & 31, ts: uint32(b[i+7])<<24 | uint32(b[i+4])<<16 | uint32(b[i+5])<<8 | uint32(b[i+6]), data: b[i+11 : i+11+n]}
		if p, ok := msgToPkt(m); ok {
			out = append(out, outPkt{p, l.when(int64(i)), l.when(int64(i + 14 + n))})
		}
		i += 15 + n
	}
	return out, i == len(b)
}

type convWorld struct {
	media []av.Packet
	avail []time.Duration // live sources: when each packet was handed to the network
	live  bool

	src, srcFault string
	dst, dstFault string
	re            bool

	n         int  // packets the source provides before it ends
	bad       bool // the source ends in an error
	ambiguous bool // the end may be taken for either

	out       byteLog
	dstConn   *vsim.Conn // avtool's side
	diskFault bool       // a disk operation of the destination failed
	rx        rxLog      // what the destination model received
	refused   bool
	left      time.Duration
	conns     int
	roomy     bool
	flvFlags  byte
	diag      *convDiag
}

func convRun(pace bool) { convRunDiag(pace, nil) }

func convRunDiag(pace bool, diag *convDiag) {
	setBufio()
	w := &convWorld{left: -1, diag: diag}
	mc := genMediaCfg()
	if pace {
		mc.n = vsim.Range(vsim.StWork, 2, 40)
		mc.startMS = vsim.Pick(vsim.StWork, int64(0), 1, 90, 5000, 3600_000, 0xffffff-300, 0x7fff0000)
		mc.stepMS = vsim.Pick(vsim.StWork, 40, 1, 1000, 20, 10000)
		mc.jump = vsim.Bool(vsim.StWork, 1, 3)
		mc.maxSize = vsim.Pick(vsim.StWork, 100, 600, 5000)
	}
	if mc.maxSize > 70000 {
		mc.maxSize = 70000
	}
	link := genFastLink()
	w.src = []string{"file", "http", "rtmp", "listen"}[vsim.Weighted(vsim.StWork, 4, 2, 2, 2)]
	if !pace && diag == nil && vsim.Bool(vsim.StWork, 1, 6) {
		w.src = "rtsp"
	}
	w.dst = []string{"rtmp", "file", "none", "unsupported"}[vsim.Weighted(vsim.StWork, 5, 4, 1, 1)]
	w.re = vsim.Bool(vsim.StWork, 1, 4)
	args := []string{"conv"}
	if pace && w.dst == "unsupported" {
		w.dst = "rtmp"
	}
	if pace && w.dst != "rtmp" && vsim.Bool(vsim.StWork, 3, 4) {
		w.re = true
	}
	if diag != nil {
		args = append(args, diag.args()...)
		mc.maxSize = min(mc.maxSize, 3000)
		mc.n = min(mc.n, 60)
	} else if vsim.Bool(vsim.StWork, 1, 2) {
		args = append(args, "--qpkt")
	}
	if w.re {
		args = append(args, "--re")
	}
	if diag == nil && vsim.Bool(vsim.StWork, 1, 4) {
		args = append(args, "--statsec")
	}
	if diag == nil && vsim.Bool(vsim.StWork, 1, 6) {
		args = append(args, "--dflv", "filehdr")
	}
	if diag == nil && vsim.Bool(vsim.StWork, 1, 6) {
		args = append(args, "--drtmp", vsim.Pick(vsim.StWork, "net", "stage", "chunk", "net,stage"))
		mc.maxSize = min(mc.maxSize, 600)
	}
	w.media = genMedia(mc)
	w.n = len(w.media)
	w.avail = make([]time.Duration, len(w.media))
	if !pace {
		if vsim.Bool(vsim.StFault, 1, 2) {
			w.srcFault = vsim.Pick(vsim.StFault, "cut", "cut", "error", "error", "open", "cut_inside")
		} else if vsim.Bool(vsim.StFault, 2, 3) {
			switch w.dst {
			case "file":
				w.dstFault = vsim.Pick(vsim.StFault, "eio", "enospc", "once", "close", "create")
			case "rtmp":
				w.dstFault = vsim.Pick(vsim.StFault, "close", "close", "reset", "reset", "refuse", "absent", "silent", "unreachable")
			}
		}
	}
	vsim.Log("conv %s(%s) -> %s(%s) re=%v", w.src, w.srcFault, w.dst, w.dstFault, w.re)

	cp := vsim.NewProc("conv")
	mp := vsim.NewProc("models")
	mp.Harness = true
	srcLink, dstLink := link, link
	if vsim.Bool(vsim.StNet, 3, 4) {
		// the destination never holds back the writer
		w.roomy = true
		dstLink.Buf = 1 << 20
	}
	vsim.S.Net.LinkFor = func(p *vsim.Proc, addr string) vsim.LinkCfg {
		if strings.HasPrefix(addr, "dst") {
			return dstLink
		}
		return srcLink
	}
	vsim.S.Net.DialFor = func(p *vsim.Proc, addr string) (d vsim.DialPlan) {
		if strings.HasPrefix(addr, "dst") && w.dstFault == "unreachable" {
			d.Err = syscall.EHOSTUNREACH
			d.Delay = time.Second
		}
		return
	}
	vsim.S.Net.OnConn = func(dialer, acceptor *vsim.Conn) {
		if dialer.Proc == cp && strings.HasSuffix(acceptor.LocalAddr().String(), ":1936") {
			w.conns++
			w.dstConn = dialer
			dialer.Tap = w.out.tap
		}
		if diag != nil {
			diag.conn(cp, dialer, acceptor)
		}
	}
	if diag != nil {
		w.roomy = true
		dstLink.Buf, srcLink.Buf = 1<<20, 1<<20
		vsim.S.FS.OnStd = diag.std(cp)
	}
	srcURL := w.source(mp, cp)
	dstURL := w.destination(mp)
	args = append(args, srcURL)
	if dstURL != "" {
		args = append(args, dstURL)
	}
	span := time.Duration(0)
	if k := len(w.media); k > 0 {
		span = w.media[k-1].Time - w.media[0].Time
	}
	t0 := vsim.Elapsed()
	tEnd := time.Duration(-1)
	cp.OnDeath(func() { tEnd = vsim.Elapsed() })
	startAvtool(cp, args...)
	limit := 2*time.Hour + 2*span + transferTime(&link, 3*pktsBytes(w.media))
	if w.src == "rtsp" {
		limit += 48 * time.Hour
	}
	done := vsim.WaitUntil(100*time.Millisecond, limit, func() bool { return cp.Exited || cp.Dead || vsim.Failed() })
	took := tEnd - t0
	if vsim.Failed() {
		return
	}
	if !done {
		fail("C24", "stuck", "conv has not ended %v after its start (%v)", limit, cp.Blocked())
		fail("C23", "stuck", "conv has not ended %v after its start (%v)", limit, cp.Blocked())
		return
	}
	// what is on its way arrives
	if w.dst == "rtmp" && cp.Code == 0 {
		vsim.WaitUntil(10*time.Millisecond, transferTime(&link, 3*pktsBytes(w.media)), func() bool { return w.rx.done || vsim.Failed() })
		if vsim.Failed() {
			return
		}
	}
	vsim.Probe("conv_" + w.src + "_" + w.dst)
	if diag != nil {
		diag.check(w, cp)
		return
	}
	w.check(cp, t0, took, &link)
}

// source prepares the source and returns its URL.
func (w *convWorld) source(mp, cp *vsim.Proc) string {
	stop := len(w.media)
	if w.srcFault == "cut" || w.srcFault == "error" || w.srcFault == "cut_inside" {
		stop = vsim.Draw(vsim.StFault, len(w.media)+1)
	}
	fs := vsim.S.FS
	gap := genGap()
	half := vsim.Draw(vsim.StFault, 1000)
	// inside returns a proper part of a packet's bytes
	inside := func(n int) int { return 1 + (n-2)*half/1000 }
	switch w.src {
	case "file", "http":
		b, ends := flvBytes(w.media, true)
		w.flvFlags = b[4]
		head := 9 + int(b[8]) - 9 + 4
		start := func(i int) int {
			if i == 0 {
				return head
			}
			return ends[i-1]
		}
		end := len(b)
		last := 0 // end of the last packet
		if k := len(ends); k > 0 {
			last = ends[k-1]
		}
		switch w.srcFault {
		case "cut", "error":
			if w.src == "file" && w.srcFault == "error" {
				stop = min(stop, len(w.media)-1)
			}
			w.n = stop
			if stop == len(w.media) {
				end = len(b)
			} else {
				end = start(stop)
			}
			w.bad = w.srcFault == "error"
		case "cut_inside":
			stop = min(stop, len(w.media)-1)
			w.n = stop
			end = start(stop) + inside(ends[stop]-start(stop))
			// skippable tags and the trailing size field lie in between: only the packet's own bytes count
			own := ends[stop] - 15 - len(pktToMsg(w.media[stop], false).data)
			w.bad = end > own && end < ends[stop]-4
			w.ambiguous = !w.bad
		case "open":
			w.n, w.bad = 0, true
		}
		_ = last
		if w.src == "file" {
			name := "/in/a.flv"
			if w.srcFault == "open" {
				vsim.Fault("source_open_error")
				switch vsim.Draw(vsim.StFault, 3) {
				case 0:
					name = "/in/a.ts"
					fs.Put(name, b)
				case 1:
					name = "nosuch://x/a.flv.m3u8"
				}
				return name
			}
			if w.srcFault == "error" {
				fs.Put(name, b)
			} else {
				fs.Put(name, b[:end])
				if w.srcFault != "" {
					vsim.Fault("file_truncated")
				}
			}
			fs.ShortRead = vsim.Pick(vsim.StNet, 0, 0, 1, 7, 5000)
			w.fsFault(end)
			return name
		}
		w.fsFault(-1)
		w.live = true
		framing := vsim.Pick(vsim.StWork, "length", "chunked", "close")
		if w.srcFault == "cut" || w.srcFault == "cut_inside" {
			// the body is as long as announced, and no longer
			b = b[:end]
			vsim.Fault("http_body_ends_early")
		}
		how := vsim.Pick(vsim.StFault, "reset", "fin")
		if w.srcFault == "error" && framing == "close" {
			how = "reset"
		}
		if w.srcFault == "error" && end == len(b) {
			how = "reset"
			if framing == "length" { // everything there before the connection breaks
				w.bad, w.ambiguous = false, true
			}
		}
		httpModel(mp, "web:80", func(c *vsim.Conn, path string) {
			if w.srcFault == "open" {
				vsim.Fault("source_open_error")
				fmt.Fprintf(c, "HTTP/1.1 503 Service Unavailable\r\nContent-Length: 0\r\n\r\n")
				c.Close()
				return
			}
			h := "HTTP/1.1 200 OK\r\nContent-Type: video/x-flv\r\n"
			switch framing {
			case "length":
				h += fmt.Sprintf("Content-Length: %d\r\n", len(b))
			case "chunked":
				h += "Transfer-Encoding: chunked\r\n"
			default:
				h += "Connection: close\r\n"
			}
			if _, err := c.Write([]byte(h + "\r\n")); err != nil {
				return
			}
			put := func(d []byte) bool {
				if len(d) == 0 {
					return true
				}
				if framing == "chunked" {
					d = append(append([]byte(fmt.Sprintf("%x\r\n", len(d))), d...), '\r', '\n')
				}
				_, err := c.Write(d)
				return err == nil
			}
			pos := 0
			for i := range w.media {
				if ends[i] > end {
					break
				}
				if i > 0 {
					gap()
				}
				if !put(b[pos:ends[i]]) {
					return
				}
				pos = ends[i]
				w.avail[i] = vsim.Elapsed()
			}
			if !put(b[pos:end]) {
				return
			}
			if w.srcFault == "error" {
				vsim.Sleep(time.Duration(vsim.Draw(vsim.StFault, 2000)) * time.Millisecond)
				vsim.Fault("http_" + how)
				if how == "reset" {
					c.Reset()
					return
				}
				c.Close()
				return
			}
			if framing == "chunked" {
				c.Write([]byte("0\r\n\r\n"))
			}
			c.CloseWrite()
			io.Copy(io.Discard, c)
			c.Close()
		})
		return "http://web/live/a.flv"
	}

	if w.src == "rtsp" {
		return w.rtspSource()
	}

	// RTMP: a model server is asked to play, or a model publisher comes to avtool
	w.live = true
	w.fsFault(-1)
	switch w.srcFault {
	case "cut", "error":
		w.n = stop
		w.bad = w.srcFault == "error"
	case "cut_inside":
		stop = min(stop, len(w.media)-1)
		w.n = stop
		w.ambiguous = true
	case "open":
		w.n, w.bad = 0, true
	}
	feed := func(p *rpeer, sid uint32, publishing bool) {
		mp.Go("drain", p.drain)
		for i, k := range w.media {
			if i > 0 {
				gap()
			}
			m := pktToMsg(k, publishing)
			m.sid = sid
			if w.srcFault == "cut_inside" && i == w.n {
				b := encMsg(m, p.wchnk)
				vsim.Fault("net_fin_inside_message")
				p.raw(b[:inside(len(b))])
				break
			}
			if i >= w.n {
				break
			}
			if p.send(m) != nil {
				return
			}
			w.avail[i] = vsim.Elapsed()
		}
		if w.srcFault == "error" {
			vsim.Sleep(time.Duration(vsim.Draw(vsim.StFault, 3000)) * time.Millisecond)
			vsim.Fault("source_reset")
			p.c.Reset()
			return
		}
		p.c.CloseWrite()
		vsim.Sleep(time.Hour)
	}
	if w.src == "rtmp" {
		if w.srcFault == "open" && vsim.Bool(vsim.StFault, 1, 2) {
			vsim.Fault("source_open_error")
			return "rtmp://nowhere:1935/app/s"
		}
		lis, err := vsim.ListenAs(mp, "src:1935")
		if err != nil {
			panic(err)
		}
		mp.Go("source", func() {
			c, err := lis.AcceptConn()
			if err != nil {
				return
			}
			p := newPeer(c)
			o := srvOpt{hs: hsSimple, sid: 1, chunk: vsim.Pick(vsim.StWork, 0, 128, 4096)}
			if w.srcFault == "open" {
				vsim.Fault("source_open_error")
				o.refuse = "NetStream.Play.StreamNotFound"
			}
			r := p.serve(o)
			if r.err != nil || r.bad != "" {
				c.Close()
				return
			}
			if o.refuse != "" {
				vsim.Sleep(time.Second)
				c.Close()
				return
			}
			feed(p, 1, false)
		})
		return "rtmp://src:1935/app/s"
	}
	if w.srcFault == "open" { // somebody has the port
		vsim.Fault("source_open_error")
		if _, err := vsim.ListenAs(mp, "conv:1940"); err != nil {
			panic(err)
		}
		return "@rtmp://conv:1940/app/s"
	}
	mp.Go("source", func() {
		if !vsim.WaitUntil(time.Millisecond, time.Minute, func() bool { return vsim.Listening("conv:1940") }) {
			return
		}
		c, err := vsim.DialAs(mp, nil, "conv:1940", 0)
		if err != nil {
			return
		}
		p := newPeer(c)
		r := p.negotiate(sessOpt{hs: hsSimple, app: "app", stream: "s", tcurl: "rtmp://conv:1940/app", publish: true, chunk: vsim.Pick(vsim.StWork, 0, 128, 4096)})
		if r.err == nil && r.bad == "" {
			p.awaitStatus(&r, true)
		}
		if r.err != nil || r.bad != "" {
			fail("C24", "publisher", "publisher was not accepted: %v %v", r.err, r.bad)
			return
		}
		feed(p, uint32(r.granted), true)
	})
	return "@rtmp://conv:1940/app/s"
}

// rtspSource has a camera as source.
func (w *convWorld) rtspSource() string {
	w.live = true
	w.fsFault(-1)
	w.media, w.n, w.avail = nil, 0, nil
	srv := newRtspSrv()
	user := ""
	if vsim.Bool(vsim.StWork, 1, 4) {
		srv.auth = vsim.Pick(vsim.StWork, "basic", "digest")
		srv.user, srv.pass, srv.realm, srv.nonce = "admin", "secret", "cam", "c633aaf8b83127633cbe98fac1d20d87"
		user = "admin:secret@"
	}
	url := "rtsp://" + user + rtspAddr + srv.path
	if w.srcFault == "open" {
		vsim.Fault("source_open_error")
		w.bad = true
		switch vsim.Draw(vsim.StFault, 3) {
		case 0:
			return url // nobody there
		case 1:
			srv.status["DESCRIBE"] = 404
		case 2:
			srv.status["PLAY"] = 453
		}
	}
	n := vsim.Range(vsim.StWork, 1, 20)
	srv.feed = func(c *vsim.Conn, lk *vsim.Mutex) {
		blocks := mergeTracks(srv.genRtsp(n, true))
		stop := len(blocks)
		if w.srcFault != "" {
			stop = vsim.Draw(vsim.StFault, len(blocks)+1)
		}
		for i, b := range blocks {
			w.media = append(w.media, b.pkts...)
			if i < stop {
				w.n = len(w.media)
			}
		}
		w.bad = w.srcFault == "error" || w.srcFault == "cut_inside" && stop < len(blocks)
		log := &sentLog{}
		if !log.send(c, lk, blocks[:stop]) {
			return
		}
		lk.Lock()
		defer lk.Unlock()
		switch {
		case w.srcFault == "error":
			vsim.Sleep(time.Duration(vsim.Draw(vsim.StFault, 3000)) * time.Millisecond)
			vsim.Fault("source_reset")
			c.Reset()
			return
		case w.bad:
			vsim.Fault("net_fin_inside_message")
			b := blocks[stop].b
			c.Write(b[:1+vsim.Draw(vsim.StFault, len(b)-1)])
		case w.srcFault == "cut":
			vsim.Fault("source_ends_early")
		}
		c.Close()
	}
	srv.start()
	return url
}

// fsFault installs the disk: the source fails to read beyond byte `end` (with
// srcFault error), the destination as drawn.
func (w *convWorld) fsFault(end int) {
	at := int64(0)
	if w.dstFault != "" {
		at = int64(vsim.Draw(vsim.StFault, pktsBytes(w.media)))
		if vsim.Bool(vsim.StFault, 1, 2) {
			at = int64(vsim.Draw(vsim.StFault, 200))
		}
	}
	written := int64(0)
	vsim.S.FS.Fault = func(op, name string, off int64, n int) (int, error) {
		if strings.HasPrefix(name, "/in/") {
			if op == "read" && w.srcFault == "error" && off+int64(n) > int64(end) {
				return max(0, end-int(off)), syscall.EIO
			}
			return n, nil
		}
		if !strings.HasPrefix(name, "/out/") {
			return n, nil
		}
		switch op {
		case "create":
			if w.dstFault == "create" {
				w.diskFault = true
				return 0, syscall.EACCES
			}
		case "close":
			if w.dstFault == "close" {
				w.diskFault = true
				return 0, syscall.EIO
			}
		case "write":
			if (w.dstFault == "eio" || w.dstFault == "enospc" || w.dstFault == "once" && !w.diskFault) && written+int64(n) > at {
				w.diskFault = true
				k := int(max(0, at-written))
				written += int64(k)
				if w.dstFault == "enospc" {
					vsim.Fault("disk_full")
					return k, syscall.ENOSPC
				}
				return k, syscall.EIO
			}
			written += int64(n)
			if off == int64(len(w.out.b)) {
				w.out.st = append(w.out.st, stamped{off + int64(n), vsim.Elapsed()})
				w.out.b = append(w.out.b, make([]byte, n)...)
			}
		}
		return n, nil
	}
}

func (w *convWorld) destination(mp *vsim.Proc) string {
	switch w.dst {
	case "none":
		return ""
	case "file":
		if vsim.Bool(vsim.StWork, 1, 3) {
			vsim.S.FS.Put("/out/b.flv", payload(1, 3000))
		}
		return "/out/b.flv"
	case "unsupported":
		return vsim.Pick(vsim.StWork, "/out/b.mp4", "/out/b.ts", "http://web/b.flvx", "/out/b", "rtsp://dst/b")
	}
	if w.dstFault == "absent" {
		vsim.Fault("destination_absent")
		return "rtmp://dst:1936/app/out"
	}
	lis, err := vsim.ListenAs(mp, "dst:1936")
	if err != nil {
		panic(err)
	}
	leave := -1
	if w.dstFault == "close" || w.dstFault == "reset" {
		leave = vsim.Draw(vsim.StFault, len(w.media)+1)
		if w.src == "rtsp" {
			leave = vsim.Draw(vsim.StFault, 10)
		}
	}
	mp.Go("destination", func() {
		for {
			c, err := lis.AcceptConn()
			if err != nil {
				return
			}
			mp.Go("dst", func() {
				if w.dstFault == "silent" {
					vsim.Fault("destination_silent")
					return
				}
				p := newPeer(c)
				o := srvOpt{hs: hsSimple, sid: uint32(vsim.Range(vsim.StWork, 1, 3)), chunk: vsim.Pick(vsim.StWork, 0, 4096)}
				if w.dstFault == "refuse" {
					vsim.Fault("destination_refuses")
					o.refuse = vsim.Pick(vsim.StFault, "NetStream.Publish.BadName", "NetStream.Publish.Denied")
				}
				r := p.serve(o)
				if r.bad != "" {
					fail("C24", "protocol", "%s", r.bad)
				}
				if r.err != nil || r.bad != "" || o.refuse != "" {
					w.refused = o.refuse != ""
					if vsim.Bool(vsim.StFault, 1, 2) {
						vsim.Sleep(time.Second)
						c.Close()
					}
					return
				}
				if !r.publish || r.app != "app" || r.stream != "out" {
					fail("C24", "target", "destination was asked to publish=%v %s/%s", r.publish, r.app, r.stream)
				}
				m := modelReader{p}
				for {
					if leave >= 0 && len(w.rx.pkts) >= leave {
						w.left = vsim.Elapsed()
						vsim.Fault("destination_" + w.dstFault)
						if w.dstFault == "reset" {
							c.Reset()
						}
						c.Close()
						w.rx.done = true
						return
					}
					k, err := m.ReadPacket()
					if err != nil {
						w.rx.err, w.rx.done = err, true
						c.Close()
						return
					}
					vsim.Log("destination got %s", pktDesc(k))
					w.rx.add(k)
				}
			})
		}
	})
	return vsim.Pick(vsim.StWork, "rtmp://dst:1936/app/out", "rtmp://dst:1936/app/out")
}

func (w *convWorld) check(cp *vsim.Proc, t0, took time.Duration, link *vsim.LinkCfg) {
	// what reached the destination's channel
	var out []outPkt
	publishAt := time.Duration(-1)
	whole := true
	switch w.dst {
	case "rtmp":
		var err error
		if out, publishAt, err = w.out.rtmpOut(); err != nil {
			fail("C24", "protocol", "conv wrote an invalid RTMP stream: %v", err)
			return
		}
		if w.conns > 1 {
			fail("C24", "twice", "conv connected to its destination %d times", w.conns)
			return
		}
	case "file":
		b, _ := vsim.S.FS.Get("/out/b.flv")
		if !w.diskFault {
			w.out.b = b
		} else {
			w.out.b = append([]byte(nil), b...)
		}
		out, whole = w.out.flvOut()
		if w.dstFault == "create" || len(w.out.st) == 0 {
			out, whole = nil, false
		}
	}
	if w.src == "rtsp" {
		// the clock of an RTSP stream counts in other units than milliseconds
		near := func(p *av.Packet, i int) {
			if i < len(w.media) {
				if d := p.Time - w.media[i].Time; d >= -time.Millisecond && d <= time.Millisecond {
					p.Time = trimMS(w.media[i].Time)
				}
			}
		}
		for i := range out {
			near(&out[i].p, i)
		}
		for i := range w.rx.pkts {
			near(&w.rx.pkts[i], i)
		}
		for i := range w.media {
			w.media[i].Time = trimMS(w.media[i].Time)
		}
	}
	if w.dstFault != "once" {
		var l []av.Packet
		for _, o := range out {
			l = append(l, o.p)
		}
		if !checkPrefix("C24", "destination", w.media[:w.n], l) {
			return
		}
		if w.dst == "rtmp" && !checkPrefix("C24", "destination", w.media[:w.n], w.rx.pkts) {
			return
		}
	}
	code := cp.Code
	why := fmt.Sprintf("source %s %s, %d of %d packets; destination %s %s", w.src, w.srcFault, w.n, len(w.media), w.dst, w.dstFault)

	// failures have to show
	wantBad := ""
	switch {
	case w.bad:
		wantBad = "the source failed"
	case w.diskFault:
		wantBad = "a disk operation on the destination failed"
	case w.dst == "unsupported":
		wantBad = "the destination is not supported"
	case w.dst == "rtmp" && (w.dstFault == "refuse" || w.dstFault == "absent" || w.dstFault == "silent" || w.dstFault == "unreachable"):
		wantBad = "the destination could not be opened"
	case w.dstConn != nil && w.dstConn.WErr > 0:
		wantBad = "a write to the destination failed"
	}
	if code == 0 && wantBad != "" {
		fail("C24", "failure_hidden", "exit status 0 although %s (%s)", wantBad, why)
		return
	}
	if code == 0 && w.dst != "none" && w.dst != "unsupported" {
		if len(out) != w.n && !(w.ambiguous && len(out) <= w.n) {
			fail("C24", "incomplete", "exit status 0 after handing over %d packets (%s)", len(out), why)
			return
		}
		if w.dst == "file" && !whole {
			fail("C24", "incomplete", "exit status 0 with an incomplete file (%s)", why)
			return
		}
		if w.dst == "rtmp" && publishAt < 0 {
			fail("C24", "incomplete", "exit status 0 without having published anything (%s)", why)
			return
		}
		if w.dst == "rtmp" && w.left < 0 && len(w.rx.pkts) != len(out) {
			fail("C24", "incomplete", "destination received %d of %d packets (%s)", len(w.rx.pkts), len(out), why)
			return
		}
	}
	if code == 0 && wantBad == "" {
		vsim.Probe("conv_ok")
	}
	if code != 0 && wantBad == "" && !w.ambiguous && w.left < 0 {
		fail("C24", "failed", "exit status %d although nothing went wrong (%s)", code, why)
		return
	}
	if code != 0 {
		vsim.Probe("conv_failure_reported")
		// everything before the failure was converted
		if w.dst != "none" && w.dst != "unsupported" && w.dstFault == "" && w.src == "file" && len(out) != w.n {
			fail("C24", "lost", "%d packets lie before the failure of the source, %d were converted (%s)", w.n, len(out), why)
			return
		}
	}

	if Cur != "C23" {
		return
	}
	w.checkPace(out, publishAt, t0, took, link)
}

func isMedia(p av.Packet) bool { return p.Type == av.H264 || p.Type == av.AAC }

func (w *convWorld) checkPace(out []outPkt, publishAt, t0, took time.Duration, link *vsim.LinkCfg) {
	stalls := vsim.S.StallTotal
	paced := w.re || w.dst == "rtmp"
	netSlack := time.Duration(0)
	if w.live {
		netSlack = 5*time.Second + 3*transferTime(link, pktsBytes(w.media)) // generous
	}
	if w.dst == "none" {
		if w.n != len(w.media) || w.bad {
			return
		}
		// nothing to see but how long it takes
		first, last := -1, -1
		for i, p := range w.media {
			if isMedia(p) {
				if first < 0 {
					first = i
				}
				last = i
			}
		}
		if first < 0 {
			return
		}
		if d := trimMS(w.media[last].Time) - trimMS(w.media[first].Time); w.re && took < d {
			fail("C23", "early", "%v of media were through after %v", d, took)
		}
		return
	}
	b := -1
	for i, o := range out {
		if isMedia(o.p) {
			b = i
			break
		}
	}
	if b < 0 {
		return
	}
	base := out[b]
	if !paced {
		if !w.live && took > stalls+time.Second {
			fail("C23", "paced", "converting a file to a file without --re took %v", took)
		}
		vsim.Probe("unpaced")
		return
	}
	vsim.Probe("paced")
	// earliest moment the first packet can have been handed over
	lo := base.begin
	if b > 0 && out[b-1].end < lo {
		// its first byte may have waited for the connection to take more
		lo = out[b-1].end
	}
	lo -= stalls
	if w.live && w.avail[b] > lo {
		lo = w.avail[b]
	}
	if publishAt > lo {
		lo = publishAt
	}
	high := base.p.Time
	for i := b + 1; i < len(out); i++ {
		o, q := out[i], out[i-1]
		// not ahead of time
		if isMedia(o.p) {
			if due := lo + o.p.Time - base.p.Time; o.begin < due {
				fail("C23", "early", "packet %d (%v after the first in time) was sent %v after the first was sent, or rather at %v when it was due at %v at the earliest",
					i, o.p.Time-base.p.Time, o.begin-base.begin, o.begin, due)
				return
			}
		}
		// nor late without reason
		dt := time.Duration(0)
		if isMedia(o.p) && o.p.Time > high {
			dt = o.p.Time - high
			high = o.p.Time
		}
		by := max(q.end, q.begin+dt)
		if w.live {
			by = max(by, w.avail[i]+netSlack)
		}
		by += stalls + 5*time.Millisecond
		if o.begin > by && (w.roomy || w.dst == "file") {
			fail("C23", "late", "packet %d (%v after its predecessor in time) was sent at %v, its predecessor at %v..%v, available since %v, tasks were stalled for %v altogether",
				i, dt, o.begin, q.begin, q.end, w.avail[i], stalls)
			return
		}
	}
	// the first one goes at once
	first := t0
	if publishAt > first {
		first = publishAt
	}
	if w.live {
		first = max(first, w.avail[b])
	}
	head := 0
	for i := 0; i < b; i++ {
		head += len(out[i].p.Data) + 100
	}
	if lim := first + stalls + 2*time.Second + netSlack + transferTime(link, head); base.begin > lim {
		fail("C23", "late", "the first media packet was sent at %v; the source had it at %v and the destination accepted at %v", base.begin, w.avail[b], publishAt)
	}
}

func trimMS(d time.Duration) time.Duration { return d / time.Millisecond * time.Millisecond }
