package scen

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net"
	"net/url"
	"runtime"
	"strconv"
	"strings"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/codec/aac"
	"github.com/nareix/joy5/codec/h264"

	"vsim/vsim"
)

func init() {
	reg(&Prop{ID: "C15", Title: "RTSP negotiation", Real: rtspReal, Stub: rtspStub,
		Rule:  "Clients open streams in four ways against a model server that challenges, refuses at a drawn request, describes tracks in drawn forms or goes away at a drawn byte.",
		Scens: []Scenario{{"negotiate", 1, rtspNegotiate}}})
	reg(&Prop{ID: "C16", Title: "Hostile RTSP servers are contained", Real: rtspReal, Stub: rtspStub,
		Rule:  "A server sends drawn garbage, mutated or oversized answers, descriptions and media blocks at a drawn point of the dialogue.",
		Scens: []Scenario{{"hostile", 1, rtspHostile}}})
	reg(&Prop{ID: "C17", Title: "RTSP time limits", Real: rtspReal, Stub: rtspStub,
		Rule:  "Servers fall silent at a drawn point, pace media around the client's limits, or never accept; clients close at a drawn moment.",
		Scens: []Scenario{{"silence", 3, rtspSilence}, {"deaf", 1, rtspDeaf}, {"keepalive", 2, rtspKeepalive}, {"close", 2, rtspClose}, {"dial", 1, rtspDialTO}}})
}

func rtspNegotiate() {
	srv := newRtspSrv()
	cl := &rtspClient{path: srv.path}
	cl.drawMode(len(srv.tracks))
	creds := 0 // 0 none, 1 right, 2 wrong
	if vsim.Bool(vsim.StWork, 2, 3) {
		srv.auth = vsim.Pick(vsim.StWork, "basic", "digest", "digest")
		srv.user = vsim.Pick(vsim.StWork, "admin", "a-b_c", "u", "op@site")
		srv.pass = vsim.Pick(vsim.StWork, "secret", "12345", "", "p@ss:w/rd", "50% ?#")
		srv.both = srv.auth == "digest" && vsim.Bool(vsim.StWork, 1, 4)
		srv.realm = vsim.Pick(vsim.StWork, "cam", "IP Camera(23535), 2nd floor", "LIVE555 Streaming Media", "a=b", "Login to 1E=2")
		srv.nonce = vsim.Pick(vsim.StWork, "c633aaf8b83127633cbe98fac1d20d87", "Zm9vYmFy==", "a=b=c", "x1=")
		srv.extra = vsim.Pick(vsim.StWork, "", `, algorithm=MD5`, `, stale="FALSE"`, `, opaque="5ccc069c403ebaf9f0171e9517f40e41"`, `,algorithm="MD5"`)
		creds = vsim.Weighted(vsim.StWork, 1, 4, 1)
	} else if vsim.Bool(vsim.StWork, 1, 3) {
		creds = 1 // not asked for
	}
	switch creds {
	case 1:
		cl.user = url.UserPassword(srv.user, srv.pass).String()
		if srv.auth == "" {
			cl.user = "admin:hunter2"
		}
	case 2:
		cl.user = vsim.Pick(vsim.StWork, url.UserPassword(srv.user, "wrong"), url.UserPassword("nobody", srv.pass), url.User(srv.user)).String()
		if srv.pass == "" && !strings.Contains(cl.user, ":") {
			cl.user += ":wrong"
		}
		vsim.Fault("wrong_credentials")
	}
	// what goes wrong
	fault := vsim.Weighted(vsim.StFault, 6, 2, 3, 3, 1, 1, 1)
	st := vsim.Pick(vsim.StFault, 400, 403, 404, 453, 454, 455, 461, 500, 503, 551, 302, 301)
	srv.errBody = vsim.Bool(vsim.StFault, 1, 2)
	okSetups := 0
	nsel := len(srv.tracks)
	if cl.subset != nil {
		nsel = len(cl.subset)
	}
	switch fault {
	case 1:
		srv.status["DESCRIBE"] = st
	case 2:
		srv.status["SETUP"] = st
		okSetups = vsim.Draw(vsim.StFault, nsel)
		srv.okFirst["SETUP"] = okSetups
	case 3:
		srv.status["PLAY"] = st
	case 4:
		srv.pcm = true
	case 5:
		for _, t := range srv.tracks {
			if t.typ == av.AAC {
				srv.badConf = true
			}
		}
	case 6:
		srv.sdpText = vsim.Pick(vsim.StFault, "none", "empty")
	}
	link := genFastLink()
	cutAt := int64(-1)
	if fault == 0 && vsim.Bool(vsim.StFault, 1, 4) {
		cutAt = int64(vsim.Draw(vsim.StFault, 1200))
		link.Cut[1], link.CutFin = cutAt, vsim.Bool(vsim.StFault, 1, 2)
	}
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	log := &sentLog{}
	srv.feed = func(c *vsim.Conn, lk *vsim.Mutex) {
		if log.send(c, lk, srv.genRtsp(3, false)) {
			lk.Lock()
			c.Close()
			lk.Unlock()
		}
	}
	if cl.mode == 3 && srv.auth == "" && vsim.Bool(vsim.StWork, 1, 3) {
		cl.options = true
	}
	if cl.mode > 0 && vsim.Bool(vsim.StWork, 1, 4) {
		cl.headers = []string{"User-Agent: sim/1", "X-Token: a:b"}
	}
	cl.teardown = cl.mode > 0 && fault == 0 && cutAt < 0 && vsim.Bool(vsim.StWork, 1, 4)
	if cl.teardown {
		srv.feed = func(c *vsim.Conn, lk *vsim.Mutex) { log.send(c, lk, srv.genRtsp(1, false)) }
	}
	srv.start()
	p := vsim.NewProc("client")
	p.Go("client", cl.run)
	vsim.WaitUntil(100*time.Millisecond, 3*time.Hour, func() bool {
		return cl.rx.done || vsim.Failed() || srv.bad != "" || len(srv.reqs) > 100 || cl.teardown && len(cl.rx.pkts) > 0
	})
	if vsim.Failed() {
		return
	}
	if srv.bad != "" {
		fail("C15", "request", "the server was sent %s", srv.bad)
		return
	}
	what := fmt.Sprintf("auth %q, credentials %d, fault %d (%d), open mode %d", srv.auth, creds, fault, st, cl.mode)
	// the dialogue
	desc, sets, plays := 0, 0, 0
	last := -1
	seen401 := false
	var setupOrder []int
	for i, r := range srv.reqs {
		cs, _ := strconv.Atoi(r.hdr["cseq"])
		if cs <= last {
			fail("C15", "cseq", "%s: request %d (%s) has sequence number %d after %d", what, i+1, r.method, cs, last)
			return
		}
		last = cs
		for _, h := range cl.headers {
			f := strings.SplitN(h, ": ", 2)
			if r.hdr[strings.ToLower(f[0])] != f[1] {
				fail("C15", "request", "%s: %s without the header %s", what, r.method, h)
				return
			}
		}
		if strings.Contains(r.uri, "@") {
			fail("C15", "uri", "%s: credentials in the request address %s", what, r.uri)
			return
		}
		if r.hdr["authorization"] != "" && !seen401 {
			fail("C15", "credentials_sent", "%s: credentials sent unasked", what)
			return
		}
		switch r.method {
		case "DESCRIBE":
			desc++
			if r.uri != "rtsp://"+srv.addr+srv.path || !strings.Contains(r.hdr["accept"], "application/sdp") {
				fail("C15", "request", "%s: DESCRIBE %s accept %q", what, r.uri, r.hdr["accept"])
				return
			}
			if sets > 0 || plays > 0 {
				fail("C15", "order", "%s: DESCRIBE after SETUP or PLAY", what)
				return
			}
			if srv.auth != "" {
				seen401 = true
			}
		case "SETUP":
			sets++
			if desc == 0 || plays > 0 {
				fail("C15", "order", "%s: SETUP out of order", what)
				return
			}
			for k, t := range srv.tracks {
				if r.uri == srv.trackURI(t) {
					setupOrder = append(setupOrder, k)
				}
			}
		case "PLAY":
			plays++
		}
	}
	if desc > 2 || sets > nsel || plays > 1 {
		fail("C15", "endless", "%s: %d DESCRIBE, %d SETUP, %d PLAY requests", what, desc, sets, plays)
		return
	}
	want := cl.subset
	if want == nil {
		for i := range srv.tracks {
			want = append(want, i)
		}
	}
	if srv.sdpText != "" {
		want = nil
	}
	for i, k := range setupOrder {
		if i >= len(want) || want[i] != k {
			fail("C15", "selection", "%s: SETUP of track %d, selected %v", what, k, want)
			return
		}
	}
	if plays > 0 && len(setupOrder) != len(want) {
		fail("C15", "selection", "%s: PLAY after SETUP of %v, selected %v", what, setupOrder, want)
		return
	}
	refused := srv.auth != "" && creds != 1
	bad := refused || fault == 1 || fault == 2 || fault == 3 || srv.pcm || srv.badConf || srv.sdpText == "none"
	if !cl.rx.done && !cl.teardown {
		fail("C15", "hang", "%s: the client never reports an end (%v)", what, p.Blocked())
		return
	}
	if srv.sdpText == "empty" && !refused {
		if len(cl.rx.pkts) > 0 {
			fail("C15", "packets", "%s: packets out of a stream without tracks", what)
		}
		return // nothing to set up
	}
	if bad {
		if cl.rx.err == nil || cl.rx.err == io.EOF {
			fail("C15", "refusal_ignored", "%s: refused, but the client reports %v", what, cl.rx.err)
			return
		}
		if len(cl.rx.pkts) > 0 {
			fail("C15", "packets", "%s: packets out of a refused session", what)
			return
		}
		if refused && (sets > 0 || plays > 0) || fault == 1 && sets+plays > 0 || fault == 2 && (plays > 0 || sets > okSetups+1) {
			fail("C15", "refusal_ignored", "%s: negotiation goes on after the refusal (%d SETUP, %d PLAY)", what, sets, plays)
			return
		}
		if (srv.pcm || srv.badConf || srv.sdpText == "none") && sets+plays > 0 {
			fail("C15", "refusal_ignored", "%s: negotiation goes on with an unusable description", what)
			return
		}
		vsim.Probe("refusals")
	} else if cutAt < 0 {
		if !cl.opened || !srv.playing {
			fail("C15", "open", "%s: a good session is not opened: %v", what, cl.rx.err)
			return
		}
		if cl.teardown {
			vsim.WaitUntil(100*time.Millisecond, time.Hour, func() bool { return cl.rx.done })
			if srv.tornDown != 1 || !cl.rx.done {
				fail("C15", "teardown", "%s: the server saw %d TEARDOWN of its session", what, srv.tornDown)
				return
			}
		} else if len(cl.rx.pkts) != len(log.pkts(-1)) {
			fail("C15", "open", "%s: %d packets sent, %d delivered: %v", what, len(log.pkts(-1)), len(cl.rx.pkts), cl.rx.err)
			return
		}
		vsim.Probe("sessions_opened")
	} else if srv.conn != nil && srv.conn.SentBytes() >= cutAt && (srv.playEnd == 0 || cutAt < srv.playEnd) {
		if cl.rx.err == nil || cl.rx.err == io.EOF {
			fail("C15", "cut_as_end", "%s: connection lost in the negotiation, the client reports %v", what, cl.rx.err)
			return
		}
	}
	if cl.asked && cl.streams != nil {
		if len(cl.streams) != len(srv.tracks) {
			fail("C15", "tracks", "%s: %d tracks reported, %d described", what, len(cl.streams), len(srv.tracks))
			return
		}
		for i, t := range srv.tracks {
			switch t.typ {
			case av.H264:
				c, ok := cl.streams[i].(*h264.Codec)
				if !ok {
					fail("C15", "tracks", "%s: track %d is reported as %T, want H264", what, i, cl.streams[i])
					return
				}
				if t.inSDP && (!ok || len(c.SPS) != 1 || len(c.PPS) != 1 || !bytes.Equal(c.ConfigBytes, t.v.avcc)) {
					fail("C15", "tracks", "%s: parameter sets of track %d: % x, want % x", what, i, c.ConfigBytes, t.v.avcc)
					return
				}
				if t.inSDP && (c.W != t.v.w || c.H != t.v.h) {
					fail("C15", "tracks", "%s: track %d is reported as %dx%d, want %dx%d", what, i, c.W, c.H, t.v.w, t.v.h)
					return
				}
			case av.AAC:
				c, ok := cl.streams[i].(*aac.Codec)
				if !ok || !bytes.Equal(c.ConfigBytes, t.conf) || c.Config.SampleRate != t.a.rate || c.Config.ChannelLayout.Count() != t.a.ch {
					fail("C15", "tracks", "%s: track %d is not the described AAC", what, i)
					return
				}
			}
		}
		vsim.Probe("tracks_checked")
	}
	if l := gone(p, 0, 10*time.Second); l != "" {
		fail("C15", "leak", "%s: after close: %s", what, l)
	}
}

// ---------------------------------------------------------------- hostile

func junkText() string {
	w := []string{"RTSP/1.0 200 OK", "RTSP/1.0", "RTSP", "RTSPRTSP", "HTTP/1.1 200 OK", "RTSP/1.0 x OK", "RTSP/1.0 401 Unauthorized", "RTSP/1.0 -1 OK", "RTSP/1.0 200",
		"Content-Length: 5", "Content-Length: -1", "Content-Length: 2147483647", "Content-Length: 99999999999999999999", "CSeq: 1", "Session:", "Session: ;", "Session: a;b",
		"WWW-Authenticate: Digest", "WWW-Authenticate: Digest realm=\"a\"", "WWW-Authenticate: Basic realm=\"a\"", "WWW-Authenticate: Digest realm=\"a\",,=,nonce", ":", " a", "$", "$$$$", "\x00", ""}
	var b strings.Builder
	for k := vsim.Range(vsim.StWork, 1, 12); k > 0; k-- {
		b.WriteString(w[vsim.Draw(vsim.StWork, len(w))])
		b.WriteString(vsim.Pick(vsim.StWork, "\r\n", "\r\n", "\r\n", "\n", " ", "", "\r\n\r\n"))
	}
	return b.String()
}

func junkSDP() string {
	w := []string{"m=video 0 RTP/AVP 96", "m=audio 0 RTP/AVP 97", "m=video", "m=audio", "m=", "m=video 0", "m=video 0 RTP/AVP x", "m=video 0 RTP/AVP 0", "m=application 0 RTP/AVP 96",
		"a=rtpmap:96 H264/90000", "a=rtpmap:97 MPEG4-GENERIC/44100/2", "a=rtpmap:96 H264/0", "a=rtpmap:96 H264/-1", "a=rtpmap:96 H264/99999999999", "a=rtpmap:96 H264/9223372036854775807", "a=rtpmap:97 MPEG4-GENERIC/1", "a=rtpmap: H264/90000", "a=rtpmap:97 VP8/90000", "a=rtpmap:97 MPEG4-GENERIC/2147483647",
		"a=fmtp:97 mode=AAC-hbr;config=1210", "a=fmtp:97 a=b;config=", "a=fmtp:97 a=b;config=F", "a=fmtp:97 a=b;config=FFFF", "a=fmtp:97 a;config=00", "a=fmtp:97 a;config=FFFFFFFFFFFFFFFFFF",
		"a=fmtp:96 packetization-mode=1;sprop-parameter-sets=,", "a=fmtp:96 x=1;sprop-parameter-sets=Zw==,aA==", "a=fmtp:96 x=1;sprop-parameter-sets=Z/////////////////////w==,aP//////////8=", "a=fmtp:96 x=1;sprop-parameter-sets=AAAAAWdCwB8AAAABaMs=",
		"a=fmtp:96 x=1;sprop-parameter-sets=" + base64.StdEncoding.EncodeToString(append([]byte{24, 0, 4}, spsA...)), "a=fmtp:96 x=1;sprop-parameter-sets=fIUA",
		"a=fmtp:96 x=1;sprop-parameter-sets=" + base64.StdEncoding.EncodeToString(spsA) + "," + base64.StdEncoding.EncodeToString(ppsA),
		"a=fmtp:96 x=1;config=" + fmt.Sprintf("%x", append(append([]byte{0, 0, 0, 1}, spsA...), append([]byte{0, 0, 0, 1}, ppsA...)...)),
		"a=control:trackID=1", "a=control:", "a=control:rtsp://", "a", "=", "a=", "v=0", ""}
	var b strings.Builder
	for k := vsim.Range(vsim.StWork, 1, 14); k > 0; k-- {
		l := w[vsim.Draw(vsim.StWork, len(w))]
		if vsim.Bool(vsim.StWork, 1, 12) {
			x := vsim.Bytes(vsim.StWork, vsim.Range(vsim.StWork, 1, 40))
			l = "a=fmtp:96 x=1;sprop-parameter-sets=" + base64.StdEncoding.EncodeToString(append([]byte{vsim.Pick(vsim.StWork, byte(0x67), 0x68)}, x...))
		}
		b.WriteString(l + "\r\n")
	}
	return b.String()
}

// junkBlock makes a hostile interleaved block.
func (s *rtspSrv) junkBlock() []byte {
	n := len(s.tracks)
	if n == 0 {
		n = 1
	}
	ch := vsim.Draw(vsim.StWork, 2*n+2)
	pt := 96
	var ts uint32
	if i := ch / 2; i < len(s.tracks) {
		pt = s.tracks[i].pt
		ts = s.tracks[i].ts
	}
	switch vsim.Weighted(vsim.StWork, 10, 1, 1) {
	case 1:
		ts = uint32(vsim.Bytes(vsim.StWork, 4)[0]) << 24
	case 2:
		ts += 5_000_000
	}
	if i := ch / 2; i < len(s.tracks) {
		s.tracks[i].ts = ts
	}
	var pl []byte
	switch vsim.Draw(vsim.StWork, 11) {
	case 0:
	case 1:
		pl = vsim.Bytes(vsim.StWork, vsim.Draw(vsim.StWork, 40))
	case 2: // aggregates with wrong sizes
		pl = append([]byte{24}, vsim.Bytes(vsim.StWork, vsim.Draw(vsim.StWork, 60))...)
	case 3: // nested aggregates
		k := vsim.Pick(vsim.StWork, 10, 1000, 60000)
		pl = append(pl, 24)
		for k > 3 {
			k -= 3
			pl = append(pl, byte(k>>8), byte(k), 24)
		}
	case 4: // fragments of fragments
		pl = bytes.Repeat([]byte{vsim.Pick(vsim.StWork, byte(0xdc), 0x7c, 28)}, vsim.Pick(vsim.StWork, 1, 2, 3, 1000, 60000))
	case 10: // aggregates of fragments of aggregates
		k := vsim.Pick(vsim.StWork, 10, 1000, 60000)
		pl = append(pl, 0x7c, 0xc0|24)
		for k > 5 {
			k -= 4
			pl = append(pl, byte(k>>8), byte(k), 0x7c, 0xc0|24)
		}
	case 5: // fragments without start or end
		pl = append([]byte{0x7c, vsim.Pick(vsim.StWork, byte(0x05), 0x45, 0x85, 0xc5, 0x98, 0x5c, 0x9c)}, payload(1, vsim.Draw(vsim.StWork, 3000))...)
	case 6:
		pl = []byte{byte(vsim.Draw(vsim.StWork, 256))}
	case 7: // start codes inside a unit
		pl = []byte{0, 0, 0, 1, 0x65, 1, 2, 0, 0, 0, 1, 0, 0, 1, 0x67, 0, 0, 0, 1}
		pl = pl[:vsim.Draw(vsim.StWork, len(pl)+1)]
	case 8: // parameter sets
		pl = append([]byte{vsim.Pick(vsim.StWork, byte(0x67), 0x68)}, vsim.Bytes(vsim.StWork, vsim.Draw(vsim.StWork, 60))...)
		if vsim.Bool(vsim.StWork, 1, 2) {
			for i := 1; i < len(pl); i++ {
				pl[i] = vsim.Pick(vsim.StWork, pl[i], 0, 0xff)
			}
		}
	case 9:
		pl = slice(1, 20, true)
	}
	b := []byte{byte(vsim.Pick(vsim.StWork, 0x80, 0x80, 0x8f, 0x90, 0xa0, 0xb3, 0x00, 0xff)), byte(pt)}
	b = append(b, 0, 1)
	b = append(b, be32(ts)...)
	b = append(b, be32(1)...)
	if b[0]&0x10 != 0 {
		b = append(b, vsim.Bytes(vsim.StWork, 4)...)
	}
	b = append(b, pl...)
	if b[0]&0x20 != 0 {
		b = append(b, byte(vsim.Draw(vsim.StWork, 256)))
	}
	if vsim.Bool(vsim.StWork, 1, 6) {
		b = b[:vsim.Draw(vsim.StWork, min(len(b)+1, 20))]
	}
	if len(b) > 65535 {
		b = b[:65535]
	}
	f := interleave(ch, b)
	if vsim.Bool(vsim.StWork, 1, 10) {
		f[2], f[3] = byte(vsim.Draw(vsim.StWork, 256)), byte(vsim.Draw(vsim.StWork, 256))
	}
	return f
}

func rtspHostile() {
	vsim.LimitAlloc(16 << 20)
	srv := newRtspSrv()
	if vsim.Bool(vsim.StWork, 1, 4) {
		srv.auth = vsim.Pick(vsim.StWork, "basic", "digest")
		srv.user, srv.pass, srv.realm, srv.nonce = "admin", "secret", "cam", "n"
	}
	if vsim.Bool(vsim.StWork, 1, 5) {
		srv.pcm = true
	}
	cl := &rtspClient{path: srv.path}
	cl.drawMode(len(srv.tracks))
	if vsim.Bool(vsim.StWork, 2, 3) {
		cl.user = "admin:secret"
	}
	cl.skipErr = vsim.Bool(vsim.StWork, 1, 2)
	link := genFastLink()
	link.Buf = max(link.Buf, 65536)
	if link.Seg > 0 && link.Seg < 100 {
		link.Seg = 100
	}
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	at := vsim.Draw(vsim.StWork, 7) // request answered with hostility
	if at > 3 {
		at = 100 // all in the media
	}
	if vsim.Bool(vsim.StWork, 1, 4) {
		srv.sdpText = "junk"
	}
	reqs := 0
	srv.hook = func(c *vsim.Conn, r rtspReq) bool {
		reqs++
		if reqs > 200 {
			c.Close()
			return true
		}
		if reqs-1 != at {
			return false
		}
		vsim.Fault("hostile_answer")
		var b []byte
		switch vsim.Draw(vsim.StWork, 7) {
		case 0:
			b = vsim.Bytes(vsim.StWork, vsim.Range(vsim.StWork, 1, 2000))
		case 1:
			b = []byte(junkText())
		case 2: // body that never comes
			b = []byte("RTSP/1.0 200 OK\r\nCSeq: 1\r\nContent-Length: " + vsim.Pick(vsim.StWork, "2000000000", "9223372036854775807", "1000000", "-5", "0x10") + "\r\n\r\nv=0\r\n")
		case 3: // header without end
			b = []byte("RTSP/1.0 200 OK\r\n" + strings.Repeat("X: "+strings.Repeat("y", 100)+"\r\n", vsim.Range(vsim.StWork, 1, 500)))
		case 4: // challenge again and again
			b = []byte(strings.Repeat("RTSP/1.0 401 Unauthorized\r\nWWW-Authenticate: Digest realm=\"a\", nonce=\"b\"\r\n\r\n", vsim.Range(vsim.StWork, 1, 50)))
		case 5:
			for k := vsim.Range(vsim.StWork, 1, 30); k > 0; k-- {
				b = append(b, srv.junkBlock()...)
			}
		case 6:
			b = append([]byte("RTSP/1.0 200 OK\r\nContent-Length: 100000\r\n\r\n"), bytes.Repeat([]byte(vsim.Pick(vsim.StWork, "m=video 0 RTP/AVP 96\r\n", "a=control:x\r\n", "m=video 0 RTP/AVP 96\r\na=rtpmap:96 H264/90000\r\n")), 100000/10)[:100000]...)
		}
		if len(b) > 0 && vsim.Bool(vsim.StWork, 1, 3) {
			for k := vsim.Range(vsim.StWork, 1, 8); k > 0; k-- {
				b[vsim.Draw(vsim.StWork, len(b))] = byte(vsim.Draw(vsim.StWork, 256))
			}
		}
		c.Write(b)
		switch vsim.Draw(vsim.StWork, 3) {
		case 0:
			c.Close()
		case 1:
			return false // and the real answer
		}
		return true
	}
	feed := false
	srv.feed = func(c *vsim.Conn, lk *vsim.Mutex) {
		feed = true
		good := srv.genRtsp(vsim.Draw(vsim.StWork, 20), false)
		for k := vsim.Range(vsim.StWork, 1, 60); k > 0; k-- {
			var b []byte
			switch vsim.Weighted(vsim.StWork, 6, 1, 1, 2) {
			case 0:
				b = srv.junkBlock()
			case 1:
				b = vsim.Bytes(vsim.StWork, vsim.Draw(vsim.StWork, 300))
			case 2:
				b = []byte(junkText())
			case 3:
				if len(good) > 0 {
					b = append(b, good[0].b...)
					good = good[1:]
					if vsim.Bool(vsim.StWork, 1, 2) {
						b[vsim.Draw(vsim.StWork, len(b))] ^= 1 << vsim.Draw(vsim.StWork, 8)
					}
				}
			}
			vsim.Fault("hostile_media")
			lk.Lock()
			_, err := c.Write(b)
			lk.Unlock()
			if err != nil {
				break
			}
		}
		c.Close()
	}
	srv.start()
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	p := vsim.NewProc("client")
	p.Go("client", cl.run)
	// after a while the server leaves for good
	vsim.WaitUntil(100*time.Millisecond, 30*time.Second, func() bool { return cl.rx.done || vsim.Failed() })
	for _, c := range srv.proc.OpenConns() {
		c.Close()
	}
	srv.lis.Close()
	ended := vsim.WaitUntil(100*time.Millisecond, 10*time.Minute, func() bool { return cl.rx.done || vsim.Failed() })
	if vsim.Failed() {
		return
	}
	if !ended {
		fail("C16", "hang", "the server has left, the client goes on: %v", p.Blocked())
		return
	}
	var recv int64
	for _, c := range p.Conns() {
		recv += c.ReadBytes()
	}
	runtime.ReadMemStats(&m1)
	if d := int64(m1.TotalAlloc - m0.TotalAlloc); d > 512<<20+2000*recv {
		fail("C16", "memory", "%d MB were allocated to take in %d bytes", d>>20, recv)
		return
	}
	var sum int
	for _, x := range cl.rx.pkts {
		sum += len(x.Data)
	}
	if int64(sum) > 2*recv+1000 {
		fail("C16", "amplified", "%d bytes received, %d bytes of packets delivered", recv, sum)
		return
	}
	if cl.rx.err == nil {
		fail("C16", "no_error", "the client ended without reporting an error")
		return
	}
	if feed {
		vsim.Probe("hostile_media_stage")
	}
	if len(cl.rx.pkts) > 0 {
		vsim.Probe("hostile_packets")
	}
	if l := gone(p, 0, 10*time.Second); l != "" {
		fail("C16", "leak", "after close: %s", l)
	}
}

// ---------------------------------------------------------------- time

// rtspSilence: the server falls silent at a drawn point, having kept within
// the limit until then.
func rtspSilence() {
	srv := newRtspSrv()
	cl := &rtspClient{path: srv.path, mode: vsim.Range(vsim.StWork, 2, 3)}
	T := time.Duration(vsim.Range(vsim.StWork, 2, 30)) * time.Second
	cl.rtspTO = T
	// TM is the limit while media is awaited
	TM := T
	if vsim.Bool(vsim.StWork, 1, 3) {
		TM = time.Duration(vsim.Range(vsim.StWork, 2, 40)) * time.Second
		cl.rtpTO = TM
		if vsim.Bool(vsim.StWork, 1, 4) {
			cl.rtspTO = 0
		}
	}
	if cl.mode == 2 && vsim.Bool(vsim.StWork, 1, 3) {
		cl.subset = []int{vsim.Draw(vsim.StWork, len(srv.tracks))}
	}
	link := genFastLink()
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	kind := vsim.Weighted(vsim.StFault, 2, 3, 1, 2)
	at := vsim.Pick(vsim.StFault, "DESCRIBE", "SETUP", "PLAY")
	limit := TM
	if kind == 0 {
		if cl.rtspTO == 0 {
			at = "PLAY"
		}
		srv.silentAt = at
		if at != "PLAY" {
			limit = T
		}
	}
	lift, lifted := kind != 0 && vsim.Bool(vsim.StWork, 1, 6), false
	if lift {
		cl.onPkt = func(int) {
			cl.cli.RtspTimeout, cl.cli.RtpTimeout = 0, 0
			lifted = true
		}
	}
	log := &sentLog{}
	n := vsim.Range(vsim.StWork, 1, 12)
	silent := false
	srv.feed = func(c *vsim.Conn, lk *vsim.Mutex) {
		bl := srv.genRtsp(n, false)
		for i := range bl {
			bl[i].gap = 0
			if vsim.Bool(vsim.StWork, 1, 2) {
				// close to the limit, with room for transit and stalls
				bl[i].gap = TM - time.Second - link.Latency - link.Jitter - time.Duration(vsim.Draw(vsim.StWork, 500))*time.Millisecond
				if bl[i].gap < 0 {
					bl[i].gap = 0
				}
			}
		}
		if lift {
			// after its first packet the client has no limit any more
			k := 0
			for k < len(bl) && !lifted && log.send(c, lk, bl[k:k+1]) {
				k++
				vsim.WaitUntil(10*time.Millisecond, time.Second, func() bool { return lifted })
			}
			for i := k; i < len(bl); i++ {
				bl[i].gap = TM + time.Duration(vsim.Draw(vsim.StFault, 60000))*time.Millisecond
			}
			log.send(c, lk, bl[k:])
			vsim.Sleep(TM + time.Second)
			lk.Lock()
			c.Close()
			lk.Unlock()
			return
		}
		if kind == 3 {
			k := vsim.Draw(vsim.StFault, len(bl))
			log.send(c, lk, bl[:k])
			// a block in two parts, the second never comes
			lk.Lock()
			c.Write(bl[k].b[:vsim.Draw(vsim.StFault, len(bl[k].b))])
			lk.Unlock()
		} else {
			log.send(c, lk, bl)
		}
		silent = true
		switch kind {
		case 1, 3:
			vsim.Fault("rtsp_server_silent")
		case 2:
			vsim.Fault("partition")
			c.Partition()
		}
	}
	srv.start()
	p := vsim.NewProc("client")
	p.Go("client", cl.run)
	ok := vsim.WaitUntil(50*time.Millisecond, 3*time.Hour, func() bool { return cl.rx.done || vsim.Failed() || srv.bad != "" })
	if vsim.Failed() || srv.bad != "" {
		return
	}
	if !ok {
		fail("C17", "hang", "limit %v: the server is silent, the client waits for ever: %v", T, p.Blocked())
		return
	}
	var lastRead time.Duration
	for _, c := range p.Conns() {
		if c.LastRead > lastRead {
			lastRead = c.LastRead
		}
	}
	var ne net.Error
	if lifted {
		if cl.rx.err != io.EOF || len(cl.rx.pkts) != len(log.pkts(-1)) {
			fail("C17", "lifted", "the limit was lifted, the client ends with %v after %d of %d packets", cl.rx.err, len(cl.rx.pkts), len(log.pkts(-1)))
			return
		}
		vsim.Probe("limit_lifted")
		return
	}
	if !errors.As(cl.rx.err, &ne) || !ne.Timeout() {
		if lift {
			// no packet at all
			return
		}
		if kind == 0 || silent {
			fail("C17", "not_timeout", "limit %v: silence ends with %v", limit, cl.rx.err)
		} else {
			fail("C17", "early_end", "limit %v: a server within the limit was left: %v", limit, cl.rx.err)
		}
		return
	}
	d := cl.endAt - lastRead
	slack := 2*time.Second + vsim.S.StallTotal
	if d > limit+slack {
		fail("C17", "late", "limit %v: the client ended %v after the last byte", limit, d)
		return
	}
	if d < limit-time.Millisecond {
		fail("C17", "early", "limit %v: the client ended %v after the last byte", limit, d)
		return
	}
	vsim.Probe("silence_timed_out")
	if silent && len(cl.rx.pkts) != len(log.pkts(-1)) {
		fail("C17", "lost", "%d packets sent before the silence, %d delivered", len(log.pkts(-1)), len(cl.rx.pkts))
		return
	}
	if l := gone(p, 0, 10*time.Second); l != "" {
		fail("C17", "leak", "after the end: %s", l)
	}
}

// rtspDeaf: the server goes on sending, if at all, but stops reading; what the
// client has to say does not fit on the way any more.
func rtspDeaf() {
	srv := newRtspSrv()
	cl := &rtspClient{path: srv.path, mode: vsim.Range(vsim.StWork, 1, 3)}
	T := time.Duration(vsim.Range(vsim.StWork, 2, 30)) * time.Second
	cl.rtspTO = T
	link := genFastLink()
	link.Buf = vsim.Range(vsim.StWork, 100, 1000)
	link.Latency, link.Jitter = link.Latency%time.Second, link.Jitter%time.Second
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	deaf := time.Duration(-1)
	var K time.Duration
	at := vsim.Pick(vsim.StFault, "accept", "DESCRIBE", "SETUP", "media")
	log := &sentLog{}
	if at == "media" {
		K = time.Duration(vsim.Range(vsim.StWork, 1, 10)) * time.Second
		cl.keep = K
		// limits of the media are not at stake
		cl.rtpTO = time.Hour
		srv.feed = func(c *vsim.Conn, lk *vsim.Mutex) {
			t := srv.tracks[srv.setupPick()]
			ti := 0
			for i, x := range srv.tracks {
				if x == t {
					ti = i
				}
			}
			g := time.Duration(vsim.Range(vsim.StWork, 100, 1000)) * time.Millisecond
			for i := 0; i < 4000; i++ {
				d := slice(i, 20, i == 0)
				pl := d
				if t.typ == av.AAC {
					pl = append([]byte{0, 16}, be16(uint16(len(d)<<3))...)
					pl = append(pl, d...)
				}
				if !log.send(c, lk, []rtspBlock{{b: interleave(2*ti, t.rtp(pl, true)), track: ti, pkts: []av.Packet{{}}, gap: g}}) {
					return
				}
				t.ts += uint32(int64(t.scale) * int64(g) / int64(time.Second))
			}
		}
	} else {
		srv.feed = func(*vsim.Conn, *vsim.Mutex) {}
		// a request that does not fit
		cl.headers = []string{"X-Token: " + strings.Repeat("t", link.Buf+vsim.Range(vsim.StWork, 0, 2000))}
	}
	park := func() {
		vsim.Fault("rtsp_server_deaf")
		deaf = vsim.Elapsed()
		vsim.Sleep(24 * time.Hour)
	}
	srv.onAccept = func(c *vsim.Conn) {
		if at == "accept" {
			park()
		}
	}
	srv.hook = func(c *vsim.Conn, r rtspReq) bool {
		if at == "media" && r.method == "OPTIONS" {
			park()
		}
		return false
	}
	srv.after = func(m string) {
		if m == at {
			park()
		}
	}
	srv.start()
	p := vsim.NewProc("client")
	p.Go("client", cl.run)
	ok := vsim.WaitUntil(50*time.Millisecond, 3*time.Hour, func() bool { return cl.rx.done || vsim.Failed() || srv.bad != "" })
	if vsim.Failed() || srv.bad != "" {
		return
	}
	if at == "SETUP" && len(srv.tracks) == 1 && deaf >= 0 && cl.mode == 1 {
		vsim.Probe("deaf_at_play")
	}
	if !ok {
		fail("C17", "hang", "limit %v: the server stopped reading (%s), the client waits for ever: %v", T, at, p.Blocked())
		return
	}
	var ne net.Error
	if deaf < 0 && errors.As(cl.rx.err, &ne) && ne.Timeout() {
		R := 400
		for _, h := range cl.headers {
			R += len(h)
		}
		if time.Duration(R/link.Buf+2)*2*(link.Latency+link.Jitter)+vsim.S.StallTotal > T {
			// a request takes longer than the limit on this link
			vsim.Probe("link_too_slow_for_limit")
			return
		}
	}
	if deaf < 0 || !errors.As(cl.rx.err, &ne) || !ne.Timeout() {
		fail("C17", "not_timeout", "limit %v: a server that does not read (%s) ends with %v", T, at, cl.rx.err)
		return
	}
	slack := 3*time.Second + 4*(link.Latency+link.Jitter) + vsim.S.StallTotal
	d := cl.endAt - deaf
	if at == "media" {
		// what fits on the way is written at once, a request per interval
		slack += time.Duration(link.Buf/40+2) * (K + 2*time.Second)
	}
	if d > T+slack {
		fail("C17", "late", "limit %v: the client ended %v after the server stopped reading (%s)", T, d, at)
		return
	}
	if d < T-2*(link.Latency+link.Jitter)-vsim.S.StallTotal {
		fail("C17", "early", "limit %v: the client ended %v after the server stopped reading (%s)", T, d, at)
		return
	}
	vsim.Probe("deaf_" + at)
	if l := gone(p, 0, 10*time.Second); l != "" {
		fail("C17", "leak", "after the end: %s", l)
	}
}

// rtspKeepalive: while packets flow, the server hears from the client.
func rtspKeepalive() {
	srv := newRtspSrv()
	if vsim.Bool(vsim.StWork, 1, 4) {
		srv.auth = vsim.Pick(vsim.StWork, "basic", "digest")
		srv.user, srv.pass, srv.realm, srv.nonce = "admin", "secret", "cam", "c633aaf8b83127633cbe98fac1d20d87"
	}
	cl := &rtspClient{path: srv.path, mode: vsim.Range(vsim.StWork, 1, 3)}
	if srv.auth != "" {
		cl.user = "admin:secret"
	}
	K := time.Duration(vsim.Range(vsim.StWork, 2, 60)) * time.Second
	off := vsim.Bool(vsim.StWork, 1, 8)
	srv.status["OPTIONS"] = vsim.Pick(vsim.StWork, 0, 0, 405, 454, 501)
	srv.errBody = vsim.Bool(vsim.StWork, 1, 3)
	if !off {
		cl.keep = K
	}
	link := genFastLink()
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	g := time.Duration(vsim.Range(vsim.StWork, 20, 2000)) * time.Millisecond
	n := int(5*K/g) + 20
	if n > 400 {
		n = 400
	}
	log := &sentLog{}
	var first, last time.Duration
	srv.feed = func(c *vsim.Conn, lk *vsim.Mutex) {
		// one access unit a block, g apart
		t := srv.tracks[srv.setupPick()]
		ti := 0
		for i, x := range srv.tracks {
			if x == t {
				ti = i
			}
		}
		var bl []rtspBlock
		for i := 0; i < n; i++ {
			d := slice(i, 20, i == 0)
			pl := d
			if t.typ == av.AAC {
				pl = append([]byte{0, 16}, be16(uint16(len(d)<<3))...)
				pl = append(pl, d...)
			}
			bl = append(bl, rtspBlock{b: interleave(2*ti, t.rtp(pl, true)), track: ti, pkts: []av.Packet{{}}, gap: g})
			t.ts += uint32(int64(t.scale) * int64(g) / int64(time.Second))
		}
		first = vsim.Elapsed()
		log.send(c, lk, bl)
		last = vsim.Elapsed()
		vsim.Sleep(time.Second + link.Latency*4 + link.Jitter*4)
		lk.Lock()
		c.Close()
		lk.Unlock()
	}
	srv.start()
	p := vsim.NewProc("client")
	p.Go("client", cl.run)
	vsim.WaitUntil(100*time.Millisecond, 3*time.Hour, func() bool { return cl.rx.done || vsim.Failed() || srv.bad != "" })
	if vsim.Failed() {
		return
	}
	if srv.bad != "" {
		fail("C17", "request", "the server was sent %s", srv.bad)
		return
	}
	if !cl.rx.done || len(cl.rx.pkts) != n {
		fail("C17", "lost", "keepalive %v: %d of %d packets delivered, end %v", cl.keep, len(cl.rx.pkts), n, cl.rx.err)
		return
	}
	prev := first
	k := 0
	slack := g + time.Second + 2*(link.Latency+link.Jitter) + vsim.S.StallTotal
	for _, r := range srv.reqs {
		if r.method != "OPTIONS" {
			continue
		}
		k++
		if off {
			fail("C17", "keepalive", "no keepalive was asked for, the client sends one")
			return
		}
		if k > 1 && r.at-prev < K-slack {
			fail("C17", "keepalive_often", "keepalive %v: two requests %v apart", K, r.at-prev)
			return
		}
		if r.at-prev > K+slack+g {
			fail("C17", "keepalive_late", "keepalive %v: nothing for %v while packets flow every %v", K, r.at-prev, g)
			return
		}
		prev = r.at
	}
	if !off && last-prev > K+slack+g {
		fail("C17", "keepalive_late", "keepalive %v: nothing for the last %v while packets flow every %v", K, last-prev, g)
		return
	}
	if k > 0 {
		vsim.Probe("keepalives")
	}
}

// rtspClose: close ends whatever the client is doing.
func rtspClose() {
	srv := newRtspSrv()
	cl := &rtspClient{path: srv.path, mode: vsim.Draw(vsim.StWork, 4)}
	if cl.mode > 0 && vsim.Bool(vsim.StWork, 1, 2) {
		cl.rtspTO = time.Hour
	}
	link := genFastLink()
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	if vsim.Bool(vsim.StFault, 1, 2) {
		srv.silentAt = vsim.Pick(vsim.StFault, "DESCRIBE", "SETUP", "PLAY")
	}
	srv.feed = func(c *vsim.Conn, lk *vsim.Mutex) {
		(&sentLog{}).send(c, lk, srv.genRtsp(vsim.Draw(vsim.StWork, 30), false))
	}
	srv.start()
	p := vsim.NewProc("client")
	p.Go("client", cl.run)
	vsim.WaitUntil(time.Millisecond, time.Minute, func() bool { return cl.closer != nil || vsim.Failed() })
	vsim.Sleep(time.Duration(vsim.Draw(vsim.StFault, vsim.Pick(vsim.StFault, 20, 1000, 30000))) * time.Millisecond)
	if vsim.Failed() {
		return
	}
	if cl.closer == nil {
		fail("C17", "hang", "no connection within a minute")
		return
	}
	vsim.Fault("client_close")
	p.Go("closer", func() { cl.closer.Close() })
	t0 := vsim.Elapsed()
	st := vsim.S.StallTotal
	ok := vsim.WaitUntil(10*time.Millisecond, 5*time.Second, func() bool { return cl.rx.done || vsim.Failed() })
	if vsim.Failed() {
		return
	}
	if !ok && vsim.Elapsed()-t0 > 3*time.Second+vsim.S.StallTotal-st {
		fail("C17", "close", "closed, but the client goes on: %v", p.Blocked())
		return
	}
	if cl.rx.err == nil {
		fail("C17", "close", "closed, but the read reports no error")
		return
	}
	vsim.Probe("closed_while_busy")
	if l := gone(p, 0, 10*time.Second); l != "" {
		fail("C17", "leak", "after close: %s", l)
	}
}

// rtspDialTO: a server that does not answer the connection request.
func rtspDialTO() {
	cl := &rtspClient{path: "/live", mode: vsim.Pick(vsim.StWork, 0, 1)}
	T := 3 * time.Second // the opener's own limit
	if cl.mode == 1 {
		T = time.Duration(vsim.Range(vsim.StWork, 1, 40)) * time.Second
		cl.dialTO = T
	}
	vsim.S.Net.DialFor = func(*vsim.Proc, string) vsim.DialPlan { return vsim.DialPlan{Never: true} }
	vsim.Fault("dial_blackhole")
	p := vsim.NewProc("client")
	p.Go("client", cl.run)
	ok := vsim.WaitUntil(50*time.Millisecond, time.Hour, func() bool { return cl.rx.done || vsim.Failed() })
	if vsim.Failed() {
		return
	}
	slack := 500*time.Millisecond + vsim.S.StallTotal
	if !ok || cl.rx.err == nil || cl.endAt > T+slack || cl.endAt < T-slack {
		fail("C17", "dial", "limit %v: connecting to a host that does not answer ends at %v with %v", T, cl.endAt, cl.rx.err)
		return
	}
	vsim.Probe("dial_timed_out")
	if l := gone(p, 0, 10*time.Second); l != "" {
		fail("C17", "leak", "after the failed connect: %s", l)
	}
}
