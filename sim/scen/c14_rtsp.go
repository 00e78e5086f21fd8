package scen

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/codec/aac"
	"github.com/nareix/joy5/codec/h264"
	"github.com/nareix/joy5/format"
	"github.com/nareix/joy5/format/rtsp"

	"vsim/vsim"
)

var rtspReal = []string{"format/rtsp (client: requests, authentication, interleaved framing, RTP depacketisation)", "format/rtsp/sdp", "format (URL opener)", "codec/h264, codec/aac (track configuration)"}
var rtspStub = append([]string{"RTSP server is a model written from the RFCs"}, netStub...)

func init() {
	reg(&Prop{ID: "C14", Title: "RTSP delivery", Real: rtspReal, Stub: rtspStub,
		Rule:  "A model server streams drawn H264 (single units, fragments, aggregates) and AAC tracks interleaved on one connection with RTCP and answers in between, under drawn segmentation, pauses, resets and orderly cuts at a drawn byte.",
		Scens: []Scenario{{"deliver", 1, rtspDeliver}}})
}

const rtspAddr = "cam:554"

// rtspClient is one client of the code under test.
type rtspClient struct {
	mode                       int
	options, teardown, skipErr bool
	user                       string // userinfo
	path                       string
	subset                     []int // Setup
	rtspTO, rtpTO              time.Duration
	onPkt                      func(n int) // called after the n-th packet
	keep                       time.Duration
	headers                    []string
	dialTO                     time.Duration
	cli                        *rtsp.Client
	src                        packetReader
	closer                     io.Closer
	streams                    []interface{}
	asked                      bool
	rx                         rxLog
	raw                        []av.Packet // as handed out, not copied
	opened                     bool
	endAt                      time.Duration
}

func (k *rtspClient) url() string {
	u := "rtsp://"
	if k.user != "" {
		u += k.user + "@"
	}
	if vsim.Bool(vsim.StWork, 1, 3) {
		return u + "cam" + k.path
	}
	return u + rtspAddr + k.path
}

// open negotiates up to the point where packets can be read.
func (k *rtspClient) open() (err error) {
	if k.mode == 0 {
		r, err := (&format.URLOpener{}).Open(k.url())
		if err != nil {
			return err
		}
		k.src, k.closer = r, r
		return nil
	}
	if k.dialTO > 0 {
		k.cli, err = rtsp.DialTimeout(k.url(), k.dialTO)
	} else {
		k.cli, err = rtsp.Dial(k.url())
	}
	if err != nil {
		return err
	}
	k.src, k.closer = k.cli, k.cli
	k.cli.RtspTimeout = k.rtspTO
	k.cli.RtpTimeout = k.rtpTO
	k.cli.RtpKeepAliveTimeout = k.keep
	k.cli.SkipErrRtpBlock = k.skipErr
	k.cli.Headers = k.headers
	if k.mode == 1 {
		return nil
	}
	if k.options {
		if err = k.cli.Options(); err != nil {
			return err
		}
	}
	if k.mode == 3 {
		if err = k.cli.Describe(); err != nil {
			return err
		}
	}
	k.asked = true
	if k.streams, err = k.cli.Streams(); err != nil {
		return err
	}
	var sel []int
	for _, i := range k.subset {
		if i < len(k.streams) {
			sel = append(sel, i)
		}
	}
	if k.subset == nil {
		err = k.cli.SetupAll()
	} else {
		err = k.cli.Setup(sel)
	}
	if err == nil && k.mode == 3 {
		err = k.cli.Play()
	}
	return err
}

func (k *rtspClient) run() {
	defer func() { k.endAt = vsim.Elapsed(); k.rx.done = true }()
	if err := k.open(); err != nil {
		vsim.Log("open failed: %v", err)
		k.rx.err = err
		if k.closer != nil {
			k.closer.Close()
		}
		return
	}
	k.opened = true
	for {
		p, err := k.src.ReadPacket()
		if err != nil {
			vsim.Log("reader ends: %v", err)
			k.rx.err = err
			break
		}
		vsim.Log("got %s", pktDesc(p))
		k.rx.add(p)
		k.raw = append(k.raw, p)
		if k.onPkt != nil {
			k.onPkt(len(k.raw))
		}
		if k.teardown {
			k.rx.err = k.cli.Teardown()
			vsim.Sleep(10 * time.Second)
			break
		}
	}
	k.endAt = vsim.Elapsed()
	k.closer.Close()
}

// drawMode draws how a client opens the stream.
func (k *rtspClient) drawMode(n int) {
	k.mode = vsim.Draw(vsim.StWork, 4)
	if k.mode >= 2 && vsim.Bool(vsim.StWork, 1, 2) {
		// a non-empty selection in any order
		perm := make([]int, n)
		for i := range perm {
			j := vsim.Draw(vsim.StWork, i+1)
			perm[i] = perm[j]
			perm[j] = i
		}
		k.subset = perm[:1+vsim.Draw(vsim.StWork, n)]
	}
}

func newRtspSrv() *rtspSrv {
	s := &rtspSrv{proc: vsim.NewProc("camera"), addr: rtspAddr, status: map[string]int{}}
	s.proc.Harness = true
	s.path = vsim.Pick(vsim.StWork, "/live", "/live/ch1", "/h264/main", "/a.sdp", "/cam/realmonitor?channel=1&subtype=0", "/live/")
	s.session = vsim.Pick(vsim.StWork, "12345678", "A0b1-c2", "00000000000000000001")
	s.sessParam = vsim.Pick(vsim.StWork, "", ";timeout=60", "; timeout=60")
	s.tracks = genTracks()
	s.okFirst = map[string]int{}
	s.onvif = vsim.Bool(vsim.StWork, 1, 5)
	s.noisy = vsim.Bool(vsim.StWork, 1, 3)
	s.lower = vsim.Bool(vsim.StWork, 1, 8)
	s.blanks = vsim.Bool(vsim.StWork, 1, 20)
	if vsim.Bool(vsim.StWork, 1, 8) {
		s.lf = "\n"
	}
	for i, t := range s.tracks {
		if vsim.Bool(vsim.StWork, 1, 8) {
			t.control = fmt.Sprintf(vsim.Pick(vsim.StWork, "rtsp://"+rtspAddr+s.path, "rtsp://"+rtspAddr, "rtsp://10.1.2.3/media", "rtsp://"+rtspAddr+"/x?a=b")+"/trackID=%d", i)
		}
	}
	return s
}

// sentLog is what the server managed to hand to the network.
type sentLog struct {
	blocks []rtspBlock
	end    []int64 // of each block, in bytes sent
	done   bool
	broken bool
}

func (l *sentLog) send(c *vsim.Conn, lk *vsim.Mutex, blocks []rtspBlock) bool {
	for _, b := range blocks {
		if b.gap > 0 {
			vsim.Sleep(b.gap)
		}
		lk.Lock()
		l.blocks = append(l.blocks, b)
		l.end = append(l.end, c.SentBytes()+int64(len(b.b)))
		_, err := c.Write(b.b)
		lk.Unlock()
		if err != nil {
			l.broken = true
			return false
		}
	}
	l.done = true
	return true
}

// pkts lists the packets complete within the first n bytes (-1: all).
func (l *sentLog) pkts(n int64) (out []av.Packet) {
	for i, b := range l.blocks {
		if n >= 0 && l.end[i] > n {
			break
		}
		out = append(out, b.pkts...)
	}
	return
}

func sameRtsp(sent, got av.Packet) string {
	if got.Type != sent.Type {
		return fmt.Sprintf("type %d, want %d", got.Type, sent.Type)
	}
	if !bytes.Equal(got.Data, sent.Data) {
		return fmt.Sprintf("payload differs (%d bytes, want %d)", len(got.Data), len(sent.Data))
	}
	if got.IsKeyFrame != sent.IsKeyFrame {
		return fmt.Sprintf("key flag %v, want %v", got.IsKeyFrame, sent.IsKeyFrame)
	}
	if d := got.Time - sent.Time; d < -time.Microsecond || d > time.Microsecond {
		return fmt.Sprintf("time %v, want %v", got.Time, sent.Time)
	}
	return ""
}

func rtspDeliver() {
	srv := newRtspSrv()
	if vsim.Bool(vsim.StWork, 1, 4) {
		srv.auth = vsim.Pick(vsim.StWork, "basic", "digest")
		srv.user, srv.pass, srv.realm, srv.nonce = "admin", "secret", "cam", "c633aaf8b83127633cbe98fac1d20d87"
	}
	srv.early = vsim.Bool(vsim.StWork, 1, 4)
	srv.requests = vsim.Bool(vsim.StWork, 1, 5)
	srv.lossy = vsim.Bool(vsim.StFault, 1, 5)
	srv.long = vsim.Bool(vsim.StWork, 1, 12)
	srv.status["OPTIONS"] = vsim.Pick(vsim.StWork, 0, 0, 405, 454, 501)
	srv.errBody = vsim.Bool(vsim.StWork, 1, 3)
	link := genFastLink()
	mode := vsim.Weighted(vsim.StFault, 4, 3, 2, 2, 1) // complete, cut with FIN, reset, client closes, server process dies
	hi := vsim.Pick(vsim.StFault, 3000, 20000, 200000)
	switch mode {
	case 1, 2:
		link.Cut[1] = int64(vsim.Draw(vsim.StFault, hi))
		link.CutFin = mode == 1
	}
	if vsim.Bool(vsim.StFault, 1, 4) {
		link.StallAt[1] = int64(vsim.Draw(vsim.StFault, hi))
		link.StallFor[1] = time.Duration(vsim.Range(vsim.StFault, 1, 60)) * time.Second
		vsim.Fault("link_stall")
	}
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	cl := &rtspClient{path: srv.path}
	cl.drawMode(len(srv.tracks))
	if srv.auth != "" {
		cl.user = "admin:secret"
	}
	if cl.mode > 0 && vsim.Bool(vsim.StFault, 1, 4) {
		cl.skipErr, srv.damaged = true, true
	}
	if vsim.Bool(vsim.StWork, 1, 4) {
		cl.keep = time.Duration(vsim.Range(vsim.StWork, 1, vsim.Pick(vsim.StWork, 20, 400))) * 50 * time.Millisecond
	}
	log := &sentLog{}
	n := vsim.Range(vsim.StWork, 1, 40)
	if vsim.Bool(vsim.StWork, 1, 12) {
		n = 0
	}
	srv.feed = func(c *vsim.Conn, lk *vsim.Mutex) {
		if log.send(c, lk, mergeTracks(srv.genRtsp(n, true))) && mode != 3 {
			if mode == 4 {
				vsim.Sleep(time.Duration(vsim.Draw(vsim.StFault, 500)) * time.Millisecond)
				vsim.Fault("server_crash")
				srv.proc.Crash()
				return
			}
			lk.Lock()
			c.Close()
			lk.Unlock()
		}
	}
	srv.start()
	p := vsim.NewProc("client")
	p.Go("client", cl.run)
	if mode == 3 {
		k := vsim.Draw(vsim.StFault, n+1)
		vsim.WaitUntil(10*time.Millisecond, time.Hour, func() bool {
			return cl.rx.done || cl.closer != nil && len(cl.rx.pkts) >= k || vsim.Failed()
		})
		vsim.Sleep(time.Duration(vsim.Draw(vsim.StFault, 3000)) * time.Millisecond)
		if cl.closer != nil && !cl.rx.done {
			vsim.Fault("client_close")
			cl.closer.Close()
		}
	}
	// the connection may end before anything was sent that would show it
	vsim.WaitUntil(100*time.Millisecond, 6*time.Hour, func() bool { return cl.rx.done || vsim.Failed() || srv.bad != "" })
	if vsim.Failed() {
		return
	}
	if srv.bad != "" {
		fail("C14", "request", "the server was sent %s", srv.bad)
		return
	}
	what := fmt.Sprintf("mode %d", mode)
	if !cl.rx.done {
		fail("C14", "hang", "%s: the reader never ends; client %v", what, p.Blocked())
		return
	}
	var cut int64 = -1
	if link.Cut[1] >= 0 && srv.conn != nil && srv.conn.SentBytes() >= link.Cut[1] {
		cut = link.Cut[1]
	}
	all := log.pkts(-1)
	got := cl.rx.pkts
	for i, g := range got {
		if i >= len(all) {
			fail("C14", "extra", "packet %d delivered, %d were sent: %s", i+1, len(all), pktDesc(g))
			return
		}
		if d := sameRtsp(all[i], g); d != "" {
			fail("C14", "differs", "packet %d of %d: %s", i+1, len(all), d)
			return
		}
		if !bytes.Equal(cl.raw[i].Data, g.Data) {
			fail("C14", "reused", "packet %d changed after it was delivered", i+1)
			return
		}
	}
	want := -1
	switch {
	case mode == 0:
		want = len(all)
		vsim.Probe("complete_transfer")
	case mode == 1 && cut < 0:
		want = len(all)
	case mode == 1 && cl.keep == 0:
		want = len(log.pkts(cut))
		vsim.Probe("orderly_cut")
	}
	if cl.keep > 0 && srv.playing {
		// a keepalive may meet the closed connection
		if cl.rx.err != io.EOF {
			want = -1
		}
	}
	if want >= 0 && len(got) != want {
		fail("C14", "lost", "%s: %d packets arrived completely, %d were delivered; end: %v", what, want, len(got), cl.rx.err)
		return
	}
	if len(got) > 0 {
		vsim.Probe("packets_delivered")
	}
	if cut >= 0 {
		inside := false
		at := int64(0)
		for i, e := range log.end {
			at = e - int64(len(log.blocks[i].b))
			if cut > at && cut < e && log.blocks[i].b[0] == '$' { // not a request of the server
				inside = true
			}
		}
		reset := !link.CutFin && len(log.end) > 0 && log.end[len(log.end)-1] > cut
		if (inside || reset) && cl.rx.err == io.EOF {
			fail("C14", "cut_as_end", "%s: stream cut inside a packet, or reset, is reported as its orderly end", what)
			return
		}
		if inside {
			vsim.Probe("cut_inside_packet")
		}
	}
	media := !srv.early // a server that closes before answering PLAY or sending anything does not end in order
	for _, b := range log.blocks {
		media = media || b.b[0] == '$'
	}
	if mode == 0 && srv.playing && media && len(got) == len(all) && cl.rx.err != io.EOF && cl.keep == 0 {
		fail("C14", "end", "an orderly end is reported as %v", cl.rx.err)
	}
	if l := gone(p, 0, 10*time.Second); l != "" {
		fail("C14", "leak", "after close: %s", l)
	}
}

// mergeTracks lets units of different tracks overlap.
func mergeTracks(l []rtspBlock) []rtspBlock {
	for k := vsim.Draw(vsim.StWork, 4); k > 0; k-- {
		for i := 1; i < len(l); i++ {
			if l[i-1].track != l[i].track && vsim.Bool(vsim.StWork, 1, 3) {
				l[i-1], l[i] = l[i], l[i-1]
			}
		}
	}
	return l
}

var _ = errors.Is
var _ net.Conn
var _ h264.Codec
var _ aac.Codec
