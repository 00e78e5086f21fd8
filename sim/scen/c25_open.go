package scen

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"syscall"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/codec/h264"
	"github.com/nareix/joy5/format"
	"github.com/nareix/joy5/format/flv"
	"github.com/nareix/joy5/format/rtmp"

	"vsim/vsim"
)

func init() {
	reg(&Prop{ID: "C25", Title: "Opening and closing URLs",
		Real:  []string{"format (URL opener: files, http, rtmp client, rtmp listening source, rtsp dialling)", "format/rtmp (client, server, connection, handshake, commands)", "format/flv", "format/mp4 (muxer)", "format/rtsp (client)"},
		Stub:  append(append([]string{"file system (in-memory)", "HTTP client transport"}, netStub...), "servers are models, or joy5's RTMP server"),
		Rule:  "Scenarios: opens that cannot succeed, one after another in one process; sources and destinations closed at an arbitrary moment with a read or write pending; a one-shot RTMP listening source visited by several publishers, players and idle connections.",
		Scens: []Scenario{{"failing_opens", 3, failingOpens}, {"close", 4, closeAnywhere}, {"listening_source", 3, listeningSource}}})
}

type strmr struct {
	l   []interface{}
	err error
}

func (s strmr) Streams() ([]interface{}, error) { return s.l, s.err }

func h264Codec() *h264.Codec {
	// 320x240 baseline
	sps := []byte{0x67, 0x42, 0x00, 0x0a, 0xf8, 0x41, 0xa2}
	pps := []byte{0x68, 0xce, 0x38, 0x80}
	c := h264.NewCodec()
	c.AddSPSPPS(sps)
	c.AddSPSPPS(pps)
	return c
}

// httpModel answers one request per connection.
func httpModel(p *vsim.Proc, addr string, answer func(c *vsim.Conn, path string)) {
	lis, err := vsim.ListenAs(p, addr)
	if err != nil {
		panic(err)
	}
	p.Go("accept", func() {
		for {
			c, err := lis.AcceptConn()
			if err != nil {
				return
			}
			p.Go("http", func() {
				br := bufio.NewReader(c)
				first := ""
				for {
					l, err := br.ReadString('\n')
					if err != nil {
						c.Close()
						return
					}
					if first == "" {
						first = l
					}
					if strings.TrimSpace(l) == "" {
						break
					}
				}
				f := strings.Fields(first)
				if len(f) < 2 {
					c.Close()
					return
				}
				answer(c, f[1])
			})
		}
	})
}

// gone waits until the process holds nothing but `tasks` tasks.
func gone(p *vsim.Proc, tasks int, max time.Duration) string {
	clear := func() bool {
		return len(p.OpenFiles()) == 0 && len(p.OpenConns()) == 0 && p.OpenListeners() == 0 && p.NTasks() <= tasks
	}
	if vsim.WaitUntil(5*time.Millisecond, max, clear) {
		return ""
	}
	return fmt.Sprintf("files %v, %d connections, %d listeners, %d tasks (%v)", p.OpenFiles(), len(p.OpenConns()), p.OpenListeners(), p.NTasks()-tasks, p.Blocked())
}

func failingOpens() {
	setBufio()
	link := genFastLink()
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	vsim.S.Net.DialFor = func(_ *vsim.Proc, addr string) (d vsim.DialPlan) {
		switch {
		case strings.HasPrefix(addr, "blackhole:"):
			d.Never = true
		case strings.HasPrefix(addr, "unreach:"):
			d.Err = syscall.EHOSTUNREACH
			d.Delay = time.Duration(vsim.Draw(vsim.StFault, 3000)) * time.Millisecond
		}
		return
	}
	fs := vsim.S.FS
	keep := map[string]string{"/d/a.flv": "precious flv", "/d/a.mp4": "precious mp4", "/d/a.ts": "precious ts", "/d/a": "precious", "/d/a.txt": "precious text"}
	for k, v := range keep {
		fs.Put(k, []byte(v))
	}
	openErr := syscall.Errno(0)
	fs.Fault = func(op, name string, off int64, n int) (int, error) {
		if (op == "open" || op == "create") && openErr != 0 {
			return 0, openErr
		}
		return n, nil
	}
	mp := vsim.NewProc("servers")
	mp.Harness = true
	httpMode := ""
	httpModel(mp, "web:80", func(c *vsim.Conn, path string) {
		vsim.Fault("http_" + httpMode)
		switch httpMode {
		case "status":
			st := vsim.Pick(vsim.StFault, "404 Not Found", "403 Forbidden", "401 Unauthorized", "400 Bad Request", "410 Gone", "500 Internal Server Error", "502 Bad Gateway", "503 Service Unavailable")
			body := "no such stream"
			if vsim.Bool(vsim.StFault, 1, 2) { // an error page that looks like a stream
				b, _ := flvBytes([]av.Packet{{Type: av.AAC, Data: payload(1, 50)}}, false)
				body = string(b)
			}
			fmt.Fprintf(c, "HTTP/1.1 %s\r\nContent-Length: %d\r\n\r\n%s", st, len(body), body)
			if vsim.Bool(vsim.StFault, 1, 2) {
				c.Close()
			}
		case "close":
			c.Close()
		case "reset":
			c.Reset()
		case "partial":
			c.Write([]byte("HTTP/1.1 200 OK\r\nContent-Le"))
			c.Close()
		case "garbage":
			c.Write([]byte("SSH-2.0-foo\r\n\r\n"))
			c.Close()
		}
	})
	rtmpMode, rtmpPub := "", false
	lis, _ := vsim.ListenAs(mp, srvAddr)
	mp.Go("accept", func() {
		for {
			c, err := lis.AcceptConn()
			if err != nil {
				return
			}
			mp.Go("rtmp", func() {
				vsim.Fault("rtmp_" + rtmpMode)
				switch rtmpMode {
				case "silent":
				case "close":
					c.Close()
				case "reset":
					vsim.Sleep(time.Duration(vsim.Draw(vsim.StFault, 200)) * time.Millisecond)
					c.Reset()
				case "garbage":
					c.Write(payload(3, vsim.Draw(vsim.StFault, 4000)))
				case "refuse", "refuse_connect", "cut":
					p := newPeer(c)
					o := srvOpt{hs: hsSimple, sid: 1, refuse: "NetStream.Play.StreamNotFound"}
					if rtmpPub {
						o.refuse = "NetStream.Publish.BadName"
					}
					o.refuseConnect = rtmpMode == "refuse_connect"
					if rtmpMode == "cut" {
						k := vsim.Draw(vsim.StFault, 5)
						o.noiseFn = func(_ *rpeer, at int) error {
							if at >= k {
								return io.ErrClosedPipe
							}
							return nil
						}
					}
					p.serve(o)
					if rtmpMode == "cut" || vsim.Bool(vsim.StFault, 1, 2) {
						c.Close()
					}
				}
			})
		}
	})
	sut := vsim.NewProc("sut")
	done, steps := false, ""
	sut.Go("sut", func() {
		defer func() { done = true }()
		for i := vsim.Range(vsim.StWork, 1, 4); i > 0; i-- {
			o := &format.URLOpener{}
			created := len(fs.Created)
			wr := vsim.Bool(vsim.StWork, 1, 2)
			rtmpPub = wr
			url, kind := "", ""
			mayCreate := false
			var st av.Streamer
			bound := 40 * time.Second
			switch vsim.Draw(vsim.StWork, 8) {
			case 0:
				kind = "unsupported_file"
				url = vsim.Pick(vsim.StWork, "/d/a.ts", "/d/a", "/d/a.txt", "/d/new.ts", "/d/new", "/d/new.mkv", "/d/.flv.bak", "/d/new.FLVX", "")
				bound = time.Second
			case 1:
				kind = "mp4_without_codecs"
				if wr {
					url = vsim.Pick(vsim.StWork, "/d/a.mp4", "/d/new.mp4")
					if vsim.Bool(vsim.StWork, 1, 2) {
						kind, mayCreate = "mp4_bad_codecs", true
						url = "/d/other.mp4"
						st = strmr{err: errors.New("no codec parameters")}
						if vsim.Bool(vsim.StWork, 1, 2) {
							st = strmr{l: []interface{}{struct{}{}}}
						}
					}
				} else {
					url = vsim.Pick(vsim.StWork, "/d/a.mp4", "/d/new.mp4")
				}
				bound = time.Second
			case 2:
				kind = "disk_open_error"
				url = vsim.Pick(vsim.StWork, "/d/a.flv", "/d/new.flv")
				if !wr && vsim.Bool(vsim.StWork, 1, 2) {
					kind, url = "missing_file", "/d/nothere.flv"
				} else {
					openErr = vsim.Pick(vsim.StFault, syscall.EACCES, syscall.ENOSPC, syscall.EMFILE, syscall.EIO, syscall.ENOENT)
				}
				bound = time.Second
			case 3:
				kind = "unsupported_scheme"
				url = vsim.Pick(vsim.StWork, "rtmpt://srv/app/s", "ftp://srv/d/a.ts", "hls://srv/live", "RTSPX://srv/a", "udp://srv:1000", "@rtmps://srv/live")
				if wr {
					url = vsim.Pick(vsim.StWork, "rtmpt://srv/app/s", "rtsp://srv/live", "ftp://srv/d/new.ts", "udp://srv:1000", "http://srv/live", "@rtmp")
				}
				bound = time.Second
			case 4:
				kind = "bad_url"
				url = vsim.Pick(vsim.StWork, "rtmp://%zz/app", ":", "rtmp://a b/app", "http://[::1/a.flv", "rtsp://srv:port/x", "rtmp://srv:99999/app/s", "\x7f.flv", "rtmp://srv:/x/y", "rtmp:", "rtmp://")
			case 5:
				kind = "http"
				if wr {
					continue
				}
				httpMode = vsim.Pick(vsim.StFault, "status", "status", "status", "close", "reset", "partial", "garbage", "absent", "ext")
				url = "http://web/live/a.flv"
				switch httpMode {
				case "absent":
					url = vsim.Pick(vsim.StFault, "http://web:81/a.flv", "http://nohost/a.flv", "http://unreach/a.flv")
				case "ext":
					url = vsim.Pick(vsim.StFault, "http://web/live/a.ts", "http://web/live/", "http://web", "http://web/a.mp4", "http://web/x?y=.flv")
				}
				kind += "_" + httpMode
			case 6:
				kind = "rtmp"
				rtmpMode = vsim.Pick(vsim.StFault, "silent", "close", "reset", "garbage", "refuse", "refuse_connect", "cut", "absent", "blackhole", "unreach")
				url = "rtmp://srv/app/s"
				switch rtmpMode {
				case "absent":
					url = vsim.Pick(vsim.StFault, "rtmp://srv:1936/app/s", "rtmp://nohost/app/s")
				case "blackhole", "unreach":
					url = "rtmp://" + rtmpMode + "/app/s"
				}
				if wr && vsim.Bool(vsim.StWork, 1, 6) { // the peer does not speak TLS
					url = strings.NewReplacer("rtmp:", "rtmps:", "srv/", srvAddr+"/").Replace(url)
					kind = "rtmps"
				}
				kind += "_" + rtmpMode
			case 7:
				if wr {
					continue
				}
				kind = "rtsp"
				url = vsim.Pick(vsim.StFault, "rtsp://nohost/live", "rtsp://srv:5554/live", "rtsp://unreach/live", "rtsp://blackhole/live", "@rtmp://srv:1935/live", "@rtmp://srv/live")
				if url[0] == '@' {
					kind = "listen_address_taken"
				}
			}
			vsim.Log("open %q write=%v (%s)", url, wr, kind)
			steps = fmt.Sprintf("%s write=%v %q", kind, wr, url)
			tasks := sut.NTasks()
			t0 := vsim.Elapsed()
			var err error
			closer := io.Closer(nil)
			if wr {
				var w *format.Writer
				w, err = o.Create(url, st)
				if err == nil {
					closer = w
				}
			} else {
				var r *format.Reader
				r, err = o.Open(url)
				if err == nil {
					closer = r
				}
			}
			openErr = 0
			took := vsim.Elapsed() - t0
			vsim.Log("-> %v after %v", err, took)
			if err == nil {
				fail("C25", "false_success", "%s succeeded", steps)
				closer.Close()
				return
			}
			if took > bound {
				fail("C25", "late", "%s failed only after %v", steps, took)
			}
			if s := gone(sut, tasks, 20*time.Second); s != "" {
				fail("C25", "leak", "%s failed with %q and leaves %s", steps, err, s)
				return
			}
			for _, n := range fs.Created[created:] {
				if !mayCreate || n != "/d/other.mp4" {
					fail("C25", "file_touched", "%s failed with %q, yet created or truncated %s", steps, err, n)
				}
			}
			for k, v := range keep {
				if b, _ := fs.Get(k); string(b) != v {
					fail("C25", "file_touched", "%s failed with %q and changed %s", steps, err, k)
				}
			}
			vsim.Probe("failed_" + kind)
		}
	})
	if !vsim.WaitUntil(20*time.Millisecond, 1000*time.Second, func() bool { return done || sut.Dead || vsim.Failed() }) {
		fail("C25", "stuck", "%s has not returned", steps)
	}
}

// hooks is an opener that notes what its hooks are given.
type hooks struct {
	o       format.URLOpener
	wrapped []*hookedConn
	dials   int
	conns   []*rtmp.Conn
	clients []*rtmp.Client
	servers []*rtmp.Server
	demux   []*flv.Demuxer
	mux     []*flv.Muxer
}

type hookedConn struct{ net.Conn }

func newHooks(p *vsim.Proc) *hooks {
	h := &hooks{}
	h.o.NewDialFunc = func() func(context.Context, string, string) (net.Conn, error) {
		return func(_ context.Context, _, addr string) (net.Conn, error) {
			h.dials++
			c, err := vsim.DialAs(p, nil, addr, 0)
			if err != nil {
				return nil, err
			}
			return c, nil
		}
	}
	h.o.ReplaceRawConn = func(c net.Conn) net.Conn {
		w := &hookedConn{c}
		h.wrapped = append(h.wrapped, w)
		return w
	}
	h.o.OnNewRtmpConn = func(c *rtmp.Conn) { h.conns = append(h.conns, c) }
	h.o.OnNewRtmpClient = func(c *rtmp.Client) { h.clients = append(h.clients, c) }
	h.o.OnNewRtmpServer = func(s *rtmp.Server) { h.servers = append(h.servers, s) }
	h.o.OnNewFlvDemuxer = func(d *flv.Demuxer) { h.demux = append(h.demux, d) }
	h.o.OnNewFlvMuxer = func(m *flv.Muxer) { h.mux = append(h.mux, m) }
	return h
}

// check tells whether the hooks were given what the opener made for r or w.
func (h *hooks) check(kind string, r *format.Reader, w *format.Writer) {
	bad := func(f string, a ...any) { fail("C25", "hooks", "opening a %s: "+f, append([]any{kind}, a...)...) }
	count := func(name string, n, want int) {
		if n != want {
			bad("%s was called %d times, want %d", name, n, want)
		}
	}
	is := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	var conn *rtmp.Conn
	var nc net.Conn
	remote := false
	if r != nil {
		conn, nc, remote = r.Rtmp, r.NetConn, r.IsRemote
	} else {
		conn, nc, remote = w.Rtmp, w.NetConn, w.IsRemote
	}
	overRTMP := strings.HasPrefix(kind, "rtmp_") || kind == "listening"
	client := strings.HasPrefix(kind, "rtmp_")
	count("NewDialFunc", h.dials, is(client))
	count("OnNewRtmpClient", len(h.clients), is(client))
	count("OnNewRtmpServer", len(h.servers), is(kind == "listening"))
	count("OnNewRtmpConn", len(h.conns), is(overRTMP))
	count("OnNewFlvDemuxer", len(h.demux), is(kind == "file_read" || kind == "http_read"))
	count("OnNewFlvMuxer", len(h.mux), is(kind == "flv_write"))
	if kind != "listening" {
		count("ReplaceRawConn", len(h.wrapped), is(client))
	}
	if overRTMP && len(h.conns) == 1 {
		mine := false
		for _, x := range h.wrapped {
			mine = mine || nc == net.Conn(x)
		}
		if h.conns[0] != conn || conn == nil || !mine {
			bad("the connection it gives is not the one the hooks were given")
		}
	}
	if len(h.demux) == 1 && h.demux[0] != r.Flv {
		bad("the demuxer it gives is not the one the hook was given")
	}
	if want := strings.HasPrefix(kind, "rt") || kind == "http_read" || kind == "listening"; remote != want {
		bad("IsRemote is %v", remote)
	}
}

// closeAnywhere closes a source or destination at an arbitrary moment.
func closeAnywhere() {
	setBufio()
	link := genFastLink()
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	fs := vsim.S.FS
	media := flvMedia()
	kind := vsim.Pick(vsim.StWork, "file_read", "http_read", "http_read", "rtmp_read", "rtmp_read", "rtmp_write", "rtmp_write", "rtsp_read", "flv_write", "mp4_write")
	mp, sut := vsim.NewProc("servers"), vsim.NewProc("sut")
	mp.Harness = true
	url := ""
	var st av.Streamer
	over := false // the peer may end the stream on its own
	gap := genGap()
	switch kind {
	case "file_read", "flv_write":
		url = "/d/a.flv"
		if kind == "file_read" {
			b, _ := flvBytes(media, true)
			fs.Put(url, b)
		}
	case "mp4_write":
		url = "/d/a.mp4"
		st = strmr{l: []interface{}{h264Codec()}}
	case "http_read":
		url = "http://web/a.flv"
		b, _ := flvBytes(media, true)
		hold := vsim.Bool(vsim.StWork, 2, 3)
		over = !hold
		chunked := vsim.Bool(vsim.StWork, 1, 2)
		httpModel(mp, "web:80", func(c *vsim.Conn, path string) {
			if vsim.Bool(vsim.StWork, 1, 5) {
				gap()
			}
			if chunked {
				io.WriteString(c, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n")
			} else {
				io.WriteString(c, "HTTP/1.1 200 OK\r\n\r\n")
			}
			for len(b) > 0 {
				n := min(len(b), vsim.Range(vsim.StWork, 1, 20000))
				d := b[:n]
				if chunked {
					d = append(append([]byte(fmt.Sprintf("%x\r\n", n)), d...), '\r', '\n')
				}
				if _, err := c.Write(d); err != nil {
					return
				}
				b = b[n:]
				gap()
			}
			if hold {
				return // a live stream with nothing to say
			}
			if chunked {
				c.Write([]byte("0\r\n\r\n"))
			}
			c.CloseWrite()
		})
	case "rtmp_read", "rtmp_write":
		url = "rtmp://" + srvAddr + "/app/s"
		lis, _ := vsim.ListenAs(mp, srvAddr)
		hold := vsim.Bool(vsim.StWork, 3, 4)
		over = !hold
		stall := vsim.Bool(vsim.StFault, 1, 2)
		mp.Go("rtmp", func() {
			c, err := lis.AcceptConn()
			if err != nil {
				return
			}
			p := newPeer(c)
			r := p.serve(srvOpt{hs: hsSimple, sid: 1, chunk: vsim.Pick(vsim.StWork, 0, 4096)})
			if r.err != nil || r.bad != "" {
				return
			}
			if kind == "rtmp_write" {
				k := vsim.Draw(vsim.StFault, 20)
				for {
					if _, err := p.next(); err != nil {
						return
					}
					if k--; k < 0 {
						if stall {
							vsim.Fault("peer_stops_reading")
							return
						}
						if !hold {
							c.Close()
							return
						}
					}
				}
			}
			for _, x := range media {
				if p.send(pktToMsg(x, false)) != nil {
					return
				}
				gap()
			}
			if !hold {
				c.Close()
			}
		})
	case "rtsp_read":
		url = "rtsp://srv/live"
		lis, _ := vsim.ListenAs(mp, "srv:554")
		mp.Go("rtsp", func() {
			c, err := lis.AcceptConn()
			if err != nil {
				return
			}
			vsim.Fault("rtsp_silent")
			if vsim.Bool(vsim.StFault, 1, 2) {
				io.WriteString(c, "RTSP/1.0 200 OK\r\nCSeq: 1\r\n")
			}
		})
	}
	if kind == "flv_write" || kind == "mp4_write" {
		if vsim.Bool(vsim.StFault, 1, 2) {
			left := vsim.Draw(vsim.StFault, pktsBytes(media)+10)
			fs.Fault = func(op, name string, off int64, n int) (int, error) {
				if op != "write" {
					return n, nil
				}
				if n <= left {
					left -= n
					return n, nil
				}
				vsim.Fault("disk_full")
				k := left
				left = 0
				return k, syscall.ENOSPC
			}
		}
	}
	var c io.Closer
	var r *format.Reader
	var w *format.Writer
	opened, done, ioDone := false, false, false
	var openErr, ioErr, closeErr error
	closedAt := time.Duration(-1)
	wait := time.Duration(vsim.Draw(vsim.StFault, 2000)) * time.Millisecond
	afterOps := -1 // close from the task that uses it, after that many operations
	if vsim.Bool(vsim.StWork, 1, 3) || strings.HasSuffix(kind, "_write") && kind != "rtmp_write" {
		afterOps = vsim.Draw(vsim.StFault, len(media)+2)
	}
	doClose := func() {
		closedAt = vsim.Elapsed()
		vsim.Log("close")
		closeErr = c.Close()
		vsim.Log("closed: %v", closeErr)
		done = true
	}
	sut.Go("user", func() {
		o := &format.URLOpener{}
		var h *hooks
		if vsim.Bool(vsim.StWork, 1, 2) {
			h = newHooks(sut)
			o = &h.o
		}
		if strings.HasSuffix(kind, "_write") {
			w, openErr = o.Create(url, st)
			c = w
		} else {
			r, openErr = o.Open(url)
			c = r
		}
		vsim.Log("opened: %v", openErr)
		if openErr != nil {
			done, ioDone = true, true
			return
		}
		opened = true
		if h != nil {
			h.check(kind, r, w)
		}
		if afterOps < 0 {
			sut.Go("closer", func() { vsim.Sleep(wait); doClose() })
		}
		for i := 0; ioErr == nil && i != afterOps; i++ {
			if r != nil {
				_, ioErr = r.ReadPacket()
			} else {
				p := av.Packet{Type: av.AAC, Time: msT(int64(20 * i)), Data: payload(i, 50+vsim.Draw(vsim.StWork, 1200))}
				if kind == "mp4_write" {
					p.Type, p.IsKeyFrame = av.H264, i%5 == 0
				}
				ioErr = w.WritePacket(p)
				if kind == "rtmp_write" && vsim.Bool(vsim.StWork, 1, 4) {
					vsim.Sleep(time.Duration(vsim.Draw(vsim.StWork, 100)) * time.Millisecond)
				}
			}
		}
		vsim.Log("io ends: %v", ioErr)
		ioDone = true
		if afterOps >= 0 {
			doClose()
		}
	})
	limit := 200*time.Second + transferTime(&link, 3*pktsBytes(media)) + time.Duration(len(media)+10)*20*time.Second
	if !vsim.WaitUntil(5*time.Millisecond, limit, func() bool { return done || sut.Dead || vsim.Failed() }) {
		if opened && closedAt >= 0 {
			fail("C25", "close_blocks", "closing a %s does not return", kind)
		} else if opened && afterOps < 0 {
			vsim.Probe("closer_not_run")
		}
		return
	}
	if vsim.Failed() {
		return
	}
	if openErr != nil {
		if !over {
			fail("C25", "open", "%s: open failed: %v", kind, openErr)
		}
		return
	}
	if !vsim.WaitUntil(5*time.Millisecond, 5*time.Second, func() bool { return ioDone }) {
		fail("C25", "pending", "%s was closed at %v and its pending operation has not returned by %v", kind, closedAt, vsim.Elapsed())
		return
	}
	if s := gone(sut, 0, 5*time.Second); s != "" {
		fail("C25", "leak", "%s was closed (%v) and leaves %s", kind, closeErr, s)
		return
	}
	vsim.Probe("closed_" + kind)
}

// listeningSource: "@rtmp://" takes one publisher.
func listeningSource() {
	setBufio()
	link := genFastLink()
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	if vsim.Bool(vsim.StFault, 1, 4) {
		k := vsim.Draw(vsim.StFault, 3)
		vsim.S.Net.AcceptErr = func(l *vsim.Listener) error {
			if k > 0 {
				k--
				vsim.Fault("accept_error")
				return syscall.ECONNABORTED
			}
			return nil
		}
	}
	sut := vsim.NewProc("sut")
	rx := &rxLog{}
	var r *format.Reader
	var openErr error
	opened, closed := time.Duration(-1), time.Duration(-1)
	closeAfter := -1
	if vsim.Bool(vsim.StWork, 1, 2) {
		closeAfter = vsim.Draw(vsim.StFault, 60)
	}
	stay := time.Duration(vsim.Draw(vsim.StWork, 20000)) * time.Millisecond
	hooked := vsim.Bool(vsim.StWork, 1, 2)
	sut.Go("source", func() {
		o, h := &format.URLOpener{}, newHooks(sut)
		if hooked {
			o = &h.o
		}
		r, openErr = o.Open("@rtmp://" + srvAddr + "/live/in")
		opened = vsim.Elapsed()
		vsim.Log("source opened: %v", openErr)
		if openErr != nil {
			return
		}
		if hooked {
			h.check("listening", r, nil)
		}
		if closeAfter < 0 {
			rx.pump(r)
		} else {
			for i := 0; i < closeAfter; i++ {
				p, err := r.ReadPacket()
				if err != nil {
					rx.err = err
					break
				}
				rx.add(p)
			}
			rx.done = true
		}
		vsim.Sleep(stay)
		r.Close()
		closed = vsim.Elapsed()
		vsim.Log("source closed")
	})
	if !vsim.WaitUntil(time.Millisecond, 10*time.Second, func() bool { return vsim.Listening(srvAddr) }) {
		fail("C25", "listen", "listening source does not listen")
		return
	}
	type visitor struct {
		kind  string
		media []av.Packet
		tx    txLog
		err   error
		in    bool
		end   bool
		start time.Duration
		proc  *vsim.Proc
		endAt time.Duration
		begin time.Duration
	}
	n := vsim.Range(vsim.StWork, 1, 5)
	var vs []*visitor
	for i := 0; i < n; i++ {
		v := &visitor{kind: "publisher"}
		if i > 0 {
			v.kind = vsim.Pick(vsim.StWork, "publisher", "publisher", "player", "idle", "crasher")
		}
		v.start = time.Duration(vsim.Pick(vsim.StWork, 0, vsim.Draw(vsim.StWork, 100), vsim.Draw(vsim.StWork, 15000))) * time.Millisecond
		mc := genMediaCfg()
		mc.idBase = 100000 * (i + 1)
		v.media = genMedia(mc)
		v.proc = vsim.NewProc(fmt.Sprintf("v%d", i))
		vs = append(vs, v)
	}
	for _, v := range vs {
		v := v
		pace := vsim.Pick(vsim.StWork, 0, 10*time.Millisecond, 200*time.Millisecond)
		v.proc.Go(v.proc.Name, func() {
			defer func() { v.end = true; v.endAt = vsim.Elapsed() }()
			vsim.Sleep(v.start)
			v.begin = vsim.Elapsed()
			if v.kind == "idle" || v.kind == "crasher" {
				c, err := vsim.DialAs(v.proc, nil, srvAddr, 0)
				if err != nil {
					v.err = err
					return
				}
				vsim.Fault("visitor_" + v.kind)
				if v.kind == "crasher" {
					_, rest := clientScript(true)
					c.Write(append([]byte{3}, rest...))
					vsim.Sleep(time.Duration(vsim.Draw(vsim.StFault, 100)) * time.Millisecond)
					c.Reset()
					return
				}
				_, v.err = io.Copy(io.Discard, c)
				c.Close()
				return
			}
			c, nc, err := dialRTMP("rtmp://"+srvAddr+"/live/in", v.kind != "player", vsim.Bool(vsim.StWork, 1, 2))
			vsim.Log("%s %s: %v", v.proc.Name, v.kind, err)
			if err != nil {
				v.err = err
				return
			}
			v.in = true
			if v.kind == "player" {
				_, v.err = c.ReadPacket()
				nc.Close()
				return
			}
			for _, p := range v.media {
				if v.tx.write(c, p) != nil {
					break
				}
				vsim.Sleep(pace)
			}
			v.tx.done = true
			nc.Close()
		})
	}
	total := 0
	for _, v := range vs {
		total += pktsBytes(v.media) + len(v.media)*300
	}
	limit := 120*time.Second + transferTime(&link, 4*total)
	fin := func() bool {
		if closed < 0 && openErr == nil {
			return false
		}
		for _, v := range vs {
			if !v.end {
				return false
			}
		}
		return true
	}
	ok := vsim.WaitUntil(20*time.Millisecond, limit, func() bool {
		if opened >= 0 && vsim.Elapsed() > opened+100*time.Millisecond && sut.OpenListeners() > 0 {
			fail("C25", "still_listening", "the source got its publisher at %v and still listens at %v", opened, vsim.Elapsed())
		}
		return fin() || vsim.Failed() || sut.Dead
	})
	if vsim.Failed() {
		return
	}
	if !ok {
		for i, v := range vs {
			if !v.end {
				fail("C25", "hangs", "visitor %d (%s) of a listening source that is in use or closed is left without an end since %v", i, v.kind, v.begin)
				return
			}
		}
		fail("C25", "stuck", "the listening source reads on although its publisher left (%d packets, opened %v)", len(rx.pkts), opened)
		return
	}
	if openErr != nil {
		fail("C25", "open", "listening source failed: %v", openErr)
		return
	}
	var in *visitor
	for i, v := range vs {
		switch {
		case v.kind == "player" && v.in && v.err == nil:
			fail("C25", "player", "a player was served by a listening source")
		case v.kind == "publisher" && v.in && in != nil:
			fail("C25", "two", "a one-shot listening source accepted two publishers")
		case v.kind == "publisher" && v.in:
			in = v
			_ = i
		case v.kind == "publisher" && v.begin+time.Second < opened:
			vsim.Probe("publisher_lost_the_race")
		}
	}
	if in == nil {
		if closeAfter != 0 {
			fail("C25", "nobody", "a listening source reports its publisher at %v, no publisher was accepted", opened)
		}
	} else {
		if !checkPrefix("C25", "listening source", in.tx.all(), rx.pkts) {
			return
		}
		if closeAfter < 0 && (len(rx.pkts) != len(in.tx.pkts) || in.tx.err != nil) {
			fail("C25", "lost", "publisher wrote %d packets and closed (%v), the listening source got %d", len(in.tx.pkts), in.tx.err, len(rx.pkts))
		}
	}
	for i, v := range vs {
		if v != in && v.endAt-max(v.begin, opened) > 20*time.Second+transferTime(&link, 20000) {
			fail("C25", "late", "visitor %d (%s) came at %v, the source was taken at %v, it was turned away only at %v", i, v.kind, v.begin, opened, v.endAt)
		}
	}
	if s := gone(sut, 0, 20*time.Second+transferTime(&link, 20000)); s != "" {
		fail("C25", "leak", "the listening source was closed at %v and leaves %s", closed, s)
		return
	}
	vsim.Probe("listening_source_closed")
	if len(vs) > 1 {
		vsim.Probe("others_turned_away")
	}
}
