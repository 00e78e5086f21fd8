package scen

import (
	"bufio"
	"bytes"
	"crypto/md5"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"strconv"
	"strings"
	"time"

	"github.com/nareix/joy5/av"

	"vsim/vsim"
)

// An RTSP server model, written from RFC 2326, 2617, 3550, 3640 and 6184.

type rtspTrack struct {
	typ             int // av.H264 or av.AAC
	pt              int
	scale           int
	control         string
	conf            []byte // AAC
	a               audioConf
	v               videoConf
	cur             videoConf // in the stream
	plain           bool      // nothing but the fixed header before the payload
	fuOpen          bool      // last fragmented unit has no end
	fmtp            int
	annexb          bool // the description gives the sets as one start-coded config
	old             []videoConf
	mark            func(*rtspBlock)
	inSDP           bool // H264 parameter sets in the description
	ctlFirst, noise bool
	encName         string
	seq             uint16
	ssrc            uint32
	ts              uint32 // current RTP timestamp
	ticks           int64  // since the first packet
	started         bool
}

type rtspReq struct {
	method, uri string
	hdr         map[string]string
	at          time.Duration
}

// rtspBlock is one thing the server sends while playing.
type rtspBlock struct {
	b     []byte // interleaved frame
	track int
	pkts  []av.Packet // packets complete with this block
	gap   time.Duration
	// parameter sets: one of two new ones, both in effect from here, replacing others
	half, change bool
	conf         *videoConf
}

type rtspSrv struct {
	proc   *vsim.Proc
	addr   string
	path   string
	tracks []*rtspTrack
	// authentication
	auth         string // "", "basic", "digest"
	user, pass   string
	realm, nonce string
	extra        string // further challenge parameters
	// behaviour
	status     map[string]int // method -> status instead of 200
	errBody    bool           // error answers carry a body
	okFirst    map[string]int // requests of a method answered normally before its status applies
	onvif      bool           // the description lists a media the client has to skip
	pcm        bool           // the description lists a media the client does not handle
	noisy      bool           // answers carry further headers
	lf         string         // line end of answers
	badConf    bool
	sdpText    string // "", "none", "empty", "junk"
	answerEnds []int64
	playEnd    int64 // of the answer to PLAY
	tornDown   int
	silentAt   string // method that gets no answer
	changes    bool   // parameter sets change while playing
	early      bool   // media may precede the answer to PLAY
	long       bool   // a stream of days
	lossy      bool   // fragments are lost on the way to the server
	damaged    bool   // damaged RTP packets
	requests   bool   // the server sends requests too
	both       bool   // challenges offer both schemes
	lower      bool   // header names in lower case, without the blank
	session    string
	sessParam  string
	hook       func(c *vsim.Conn, r rtspReq) bool // true: handled
	onAccept   func(c *vsim.Conn)                 // before anything is read
	after      func(method string)                // after a request was answered
	feed       func(c *vsim.Conn, lk *vsim.Mutex)

	blanks  bool // blanks at the ends of the lines of the description
	reqs    []rtspReq
	conns   int
	authed  int // requests that carried valid credentials
	denied  int
	setup   []int // tracks set up, in order
	playing bool
	bad     string
	lis     *vsim.Listener
	conn    *vsim.Conn
}

func md5hex(s string) string {
	h := md5.Sum([]byte(s))
	return hex.EncodeToString(h[:])
}

func (s *rtspSrv) start() {
	lis, err := vsim.ListenAs(s.proc, s.addr)
	if err != nil {
		panic(err)
	}
	s.lis = lis
	s.proc.Go("rtsp accept", func() {
		for {
			c, err := lis.AcceptConn()
			if err != nil {
				return
			}
			s.conns++
			s.conn = c
			s.proc.Go("rtsp conn", func() { s.serve(c) })
		}
	})
}

func (s *rtspSrv) sdp() string {
	switch s.sdpText {
	case "none":
		return ""
	case "empty":
		return "v=0\r\no=- 1 1 IN IP4 10.0.0.1\r\ns=stream\r\nt=0 0\r\n"
	case "junk":
		return junkSDP()
	}
	var b strings.Builder
	b.WriteString("v=0\r\no=- 1 1 IN IP4 10.0.0.1\r\ns=stream\r\nc=IN IP4 0.0.0.0\r\nt=0 0\r\na=control:*\r\n")
	control := func(t *rtspTrack) {
		if t.control != "" {
			fmt.Fprintf(&b, "a=control:%s\r\n", t.control)
		}
	}
	head := func(t *rtspTrack) {
		if t.noise {
			b.WriteString("c=IN IP4 0.0.0.0\r\nb=AS:300\r\na=recvonly\r\n")
		}
		if t.ctlFirst {
			control(t)
		}
	}
	for _, t := range s.tracks {
		switch t.typ {
		case av.H264:
			fmt.Fprintf(&b, "m=video 0 RTP/AVP %d\r\n", t.pt)
			head(t)
			fmt.Fprintf(&b, "a=rtpmap:%d H264/%d\r\n", t.pt, t.scale)
			if t.inSDP {
				sets := "sprop-parameter-sets=" + base64.StdEncoding.EncodeToString(t.v.sps) + "," + base64.StdEncoding.EncodeToString(t.v.pps)
				if t.annexb {
					sets = fmt.Sprintf("config=%x", append(append(append([]byte{0, 0, 0, 1}, t.v.sps...), 0, 0, 0, 1), t.v.pps...))
				}
				level := fmt.Sprintf("profile-level-id=%X", t.v.sps[1:4])
				fmt.Fprintf(&b, "a=fmtp:%d %s\r\n", t.pt, []string{
					"packetization-mode=1;" + level + ";" + sets,
					"packetization-mode=1; " + level + "; " + sets,
					sets,
					sets + ";packetization-mode=1",
					level + "; " + sets + "; packetization-mode=1;",
				}[t.fmtp])
			} else {
				fmt.Fprintf(&b, "a=fmtp:%d packetization-mode=1\r\n", t.pt)
			}
		case av.AAC:
			conf := t.conf
			if s.badConf {
				conf = nil
			}
			fmt.Fprintf(&b, "m=audio 0 RTP/AVP %d\r\n", t.pt)
			head(t)
			fmt.Fprintf(&b, "a=rtpmap:%d %s/%d%s\r\n", t.pt, t.encName, t.scale, []string{"/2", "", "/1", "/2", "/2"}[t.fmtp])
			fmt.Fprintf(&b, "a=fmtp:%d %s\r\n", t.pt, []string{
				fmt.Sprintf("streamtype=5;profile-level-id=1;mode=AAC-hbr;sizelength=13;indexlength=3;indexdeltalength=3;config=%X", conf),
				fmt.Sprintf("profile-level-id=1;mode=AAC-hbr;config=%x;sizelength=13;indexlength=3;indexdeltalength=3", conf),
				fmt.Sprintf("streamtype=5; profile-level-id=15; mode=AAC-hbr; config=%x; SizeLength=13; IndexLength=3; IndexDeltaLength=3; Profile=1;", conf),
				fmt.Sprintf("config=%X", conf),
				fmt.Sprintf("profile-level-id=16;config=%X;mode=AAC-hbr;constantDuration=1024;sizeLength=13;indexLength=3", conf),
			}[t.fmtp])
		}
		if !t.ctlFirst {
			control(t)
		}
		if t.noise {
			b.WriteString("a=x-dimensions: 720, 480\r\na=x-framerate: 15\r\na=Media_header:MEDIAINFO=494D4B48010100000400010010710110401F000000FA000000000000000000000000000000000000;\r\na=range:npt=0-1/2\r\n")
		}
	}
	if s.onvif {
		b.WriteString("m=application 0 RTP/AVP 107\r\na=rtpmap:107 vnd.onvif.metadata/90000\r\na=control:metadata\r\na=sendonly\r\n")
	}
	if s.pcm {
		b.WriteString("m=audio 0 RTP/AVP 0\r\na=rtpmap:0 PCMU/8000\r\na=control:pcm\r\n")
	}
	if s.blanks {
		return strings.ReplaceAll(b.String(), "\r\n", " \r\n")
	}
	return b.String()
}

func (s *rtspSrv) authOK(r rtspReq) bool {
	a := r.hdr["authorization"]
	if s.auth == "" {
		return true
	}
	if s.auth == "basic" || s.both && strings.HasPrefix(a, "Basic ") {
		return a == "Basic "+base64.StdEncoding.EncodeToString([]byte(s.user+":"+s.pass))
	}
	if !strings.HasPrefix(a, "Digest ") {
		return false
	}
	// key="value" list; values hold no quotes
	m := map[string]string{}
	rest := a[7:]
	for {
		i := strings.Index(rest, `="`)
		if i < 0 {
			break
		}
		j := strings.Index(rest[i+2:], `"`)
		if j < 0 {
			break
		}
		m[strings.Trim(rest[:i], ", ")] = rest[i+2 : i+2+j]
		rest = rest[i+2+j+1:]
	}
	want := md5hex(md5hex(s.user+":"+s.realm+":"+s.pass) + ":" + s.nonce + ":" + md5hex(r.method+":"+m["uri"]))
	return m["username"] == s.user && m["realm"] == s.realm && m["nonce"] == s.nonce && m["uri"] != "" && m["response"] == want
}

func (s *rtspSrv) serve(c *vsim.Conn) {
	br := bufio.NewReader(c)
	lk := &vsim.Mutex{}
	reply := func(r rtspReq, code int, hdr string, body string) bool {
		b := fmt.Sprintf("RTSP/1.0 %d %s\r\nCSeq: %s\r\n%s", code, map[bool]string{true: "OK", false: "Error"}[code == 200], r.hdr["cseq"], hdr)
		if body != "" {
			b += fmt.Sprintf("Content-Type: application/sdp\r\nContent-Length: %d\r\n", len(body))
		}
		if s.noisy {
			b += vsim.Pick(vsim.StWork, "", "Server: Hipcam $Rev: 12 $\r\n", "Date: Thu, Nov 19 2026 18:48:33 GMT\r\nCache-Control: no-cache\r\n", "X-A: RTSP/1.0 200 OK\r\n")
			if body == "" && vsim.Bool(vsim.StWork, 1, 4) {
				b += "Content-Length: 0\r\n"
			}
		}
		if s.lower {
			for _, k := range []string{"Session", "CSeq", "Content-Length", "WWW-Authenticate"} {
				b = strings.ReplaceAll(b, "\r\n"+k+": ", "\r\n"+strings.ToLower(k)+":")
			}
		}
		if s.lf != "" {
			b = strings.ReplaceAll(b, "\r\n", s.lf) + s.lf + body
		} else {
			b += "\r\n" + body
		}
		lk.Lock()
		s.answerEnds = append(s.answerEnds, c.SentBytes()+int64(len(b)))
		_, err := c.Write([]byte(b))
		lk.Unlock()
		vsim.Log("rtsp server: %s -> %d", r.method, code)
		return err == nil
	}
	if s.onAccept != nil {
		s.onAccept(c)
	}
	for {
		r, err := readRtspReq(br)
		if err != nil {
			if err != io.EOF && !strings.Contains(err.Error(), "reset") && !strings.Contains(err.Error(), "closed") && s.bad == "" && err != io.ErrUnexpectedEOF {
				s.bad = err.Error()
			}
			c.Close()
			return
		}
		s.reqs = append(s.reqs, r)
		vsim.Log("rtsp server: got %s %s", r.method, r.uri)
		if s.hook != nil && s.hook(c, r) {
			continue
		}
		if s.silentAt == r.method {
			vsim.Fault("rtsp_server_silent")
			io.Copy(io.Discard, br)
			return
		}
		body := ""
		if s.errBody {
			body = vsim.Pick(vsim.StFault, "<html>no</html>\r\n", "<html>\r\n<h1>RTSP/1.0 200 OK</h1>\r\n\r\n$1 RTSP\r\n")
			if vsim.Bool(vsim.StFault, 1, 2) {
				body = s.sdp()
			}
		}
		if !s.authOK(r) {
			s.denied++
			h := fmt.Sprintf("WWW-Authenticate: Basic realm=\"%s\"\r\n", s.realm)
			if s.auth == "digest" {
				h = fmt.Sprintf("WWW-Authenticate: Digest realm=\"%s\", nonce=\"%s\"%s\r\n", s.realm, s.nonce, s.extra)
				if s.both {
					h2 := fmt.Sprintf("WWW-Authenticate: Basic realm=\"%s\"\r\n", s.realm)
					if vsim.Bool(vsim.StWork, 1, 2) {
						h, h2 = h2, h
					}
					h += h2
				}
			}
			if !reply(r, 401, h, body) {
				return
			}
			continue
		}
		if s.auth != "" {
			s.authed++
		}
		if st := s.status[r.method]; st != 0 && s.okFirst[r.method] > 0 {
			s.okFirst[r.method]--
		} else if st != 0 {
			vsim.Fault(fmt.Sprintf("rtsp_%s_%d", strings.ToLower(r.method), st))
			if !reply(r, st, "", body) {
				return
			}
			continue
		}
		ok := true
		switch r.method {
		case "OPTIONS":
			ok = reply(r, 200, "Public: DESCRIBE, SETUP, TEARDOWN, PLAY, OPTIONS\r\n", "")
		case "DESCRIBE":
			ok = reply(r, 200, "Content-Base: rtsp://"+s.addr+strings.TrimSuffix(s.path, "/")+"/\r\n", s.sdp())
		case "SETUP":
			k := -1
			for i, t := range s.tracks {
				if r.uri == s.trackURI(t) {
					k = i
				}
			}
			if k < 0 {
				s.bad = "SETUP for unknown track " + r.uri
				reply(r, 404, "", "")
				continue
			}
			want := fmt.Sprintf("RTP/AVP/TCP;unicast;interleaved=%d-%d", 2*k, 2*k+1)
			if r.hdr["transport"] != want {
				s.bad = "SETUP with transport " + r.hdr["transport"]
			}
			if len(s.setup) > 0 && r.hdr["session"] != s.session {
				s.bad = fmt.Sprintf("SETUP in session %q, want %q", r.hdr["session"], s.session)
			}
			s.setup = append(s.setup, k)
			ok = reply(r, 200, fmt.Sprintf("Transport: %s;ssrc=%08X\r\nSession: %s%s\r\n", want, s.tracks[k].ssrc, s.session, s.sessParam), "")
		case "PLAY":
			if len(s.setup) == 0 {
				reply(r, 454, "", "")
				continue
			}
			if r.hdr["session"] != s.session {
				s.bad = fmt.Sprintf("PLAY in session %q, want %q", r.hdr["session"], s.session)
			}
			if r.uri != "rtsp://"+s.addr+s.path {
				s.bad = "PLAY of " + r.uri
			}
			s.playing = true
			if s.early {
				s.proc.Go("rtsp feed", func() { s.feed(c, lk) })
				vsim.Sleep(time.Duration(vsim.Draw(vsim.StWork, 300)) * time.Millisecond)
			}
			ok = reply(r, 200, "Range: npt=0.000-\r\nSession: "+s.session+"\r\nRTP-Info: url=rtsp://"+s.addr+s.path+"/track0;seq=1;rtptime=1\r\n", "")
			s.playEnd = s.answerEnds[len(s.answerEnds)-1]
			if !s.early && ok {
				s.proc.Go("rtsp feed", func() { s.feed(c, lk) })
			}
		case "TEARDOWN":
			if r.hdr["session"] == s.session {
				s.tornDown++
			}
			reply(r, 200, "Session: "+s.session+"\r\n", "")
			c.Close()
			return
		default:
			ok = reply(r, 405, "", "")
		}
		if !ok {
			return
		}
		if s.after != nil {
			s.after(r.method)
		}
	}
}

// trackURI resolves the control address of a track.
func (s *rtspSrv) trackURI(t *rtspTrack) string {
	base := "rtsp://" + s.addr + s.path
	switch {
	case strings.HasPrefix(t.control, "rtsp://"):
		return t.control
	case t.control == "" || t.control == "*":
		return base
	}
	return strings.TrimSuffix(base, "/") + "/" + t.control
}

func readRtspReq(br *bufio.Reader) (r rtspReq, err error) {
	r.hdr = map[string]string{}
	for i := 0; ; i++ {
		l, err := br.ReadString('\n')
		if err != nil {
			if l != "" && err == io.EOF {
				err = io.ErrUnexpectedEOF
			}
			return r, err
		}
		if !strings.HasSuffix(l, "\r\n") {
			return r, fmt.Errorf("request line %q", l)
		}
		l = l[:len(l)-2]
		if l == "" {
			break
		}
		if i == 0 {
			f := strings.Split(l, " ")
			if len(f) != 3 || f[2] != "RTSP/1.0" {
				return r, fmt.Errorf("request line %q", l)
			}
			r.method, r.uri = f[0], f[1]
			continue
		}
		k := strings.Index(l, ": ")
		if k <= 0 {
			return r, fmt.Errorf("header line %q", l)
		}
		r.hdr[strings.ToLower(l[:k])] = l[k+2:]
	}
	r.at = vsim.Elapsed()
	if _, err := strconv.Atoi(r.hdr["cseq"]); err != nil {
		return r, fmt.Errorf("CSeq %q", r.hdr["cseq"])
	}
	return r, nil
}

// ---------------------------------------------------------------- media

func interleave(ch int, d []byte) []byte {
	b := []byte{'$', byte(ch)}
	b = binary.BigEndian.AppendUint16(b, uint16(len(d)))
	return append(b, d...)
}

// rtp makes one RTP packet with the options a sender has.
func (t *rtspTrack) rtp(payload []byte, marker bool) []byte {
	b0, b1 := byte(0x80), byte(t.pt)
	if marker {
		b1 |= 0x80
	}
	var mid, tail []byte
	if !t.plain && vsim.Bool(vsim.StWork, 1, 10) {
		k := vsim.Range(vsim.StWork, 1, vsim.Pick(vsim.StWork, 3, 15))
		b0 |= byte(k)
		for i := 0; i < k; i++ {
			mid = append(mid, be32(uint32(i+77))...)
		}
	}
	if !t.plain && vsim.Bool(vsim.StWork, 1, 10) {
		b0 |= 0x10
		k := vsim.Range(vsim.StWork, 0, vsim.Pick(vsim.StWork, 3, 300))
		mid = append(mid, 0xbe, 0xde)
		mid = append(mid, be16(uint16(k))...)
		mid = append(mid, vsim.Bytes(vsim.StWork, 4*k)...)
	}
	if !t.plain && vsim.Bool(vsim.StWork, 1, 10) {
		b0 |= 0x20
		k := vsim.Range(vsim.StWork, 1, vsim.Pick(vsim.StWork, 8, 255))
		tail = make([]byte, k)
		tail[k-1] = byte(k)
	}
	t.seq++
	b := []byte{b0, b1}
	b = append(b, be16(t.seq)...)
	b = append(b, be32(t.ts)...)
	b = append(b, be32(t.ssrc)...)
	b = append(b, mid...)
	b = append(b, payload...)
	return append(b, tail...)
}

// rtcp makes an RTCP compound that a server may send.
func (t *rtspTrack) rtcp() []byte {
	switch vsim.Draw(vsim.StWork, 3) {
	case 0: // empty receiver report
		return append([]byte{0x80, 201, 0, 1}, be32(t.ssrc)...)
	case 1: // sender report
		b := append([]byte{0x80, 200, 0, 6}, be32(t.ssrc)...)
		b = append(b, vsim.Bytes(vsim.StWork, 8)...)
		b = append(b, be32(t.ts)...)
		b = append(b, be32(1)...)
		return append(b, be32(100)...)
	}
	b := append([]byte{0x81, 202, 0, 3}, be32(t.ssrc)...) // source description
	return append(b, 1, 4, 's', 'i', 'm', '$', 0, 0)
}

// damagedRtp makes an RTP packet that cannot be decoded.
func (t *rtspTrack) damagedRtp() []byte {
	b := t.rtp(nil, true)[:12]
	b[0] = 0x80
	if t.typ == av.AAC {
		switch vsim.Draw(vsim.StWork, 4) {
		case 0:
			return b[:vsim.Range(vsim.StWork, 8, 11)]
		case 1:
			b[0] |= byte(vsim.Range(vsim.StWork, 1, 15)) // sources that are not there
			return b
		}
		return append(b, []byte{0, 16, 0}[:vsim.Draw(vsim.StWork, 4)]...)
	}
	switch vsim.Draw(vsim.StWork, 5) {
	case 0:
		return b[:vsim.Range(vsim.StWork, 8, 11)]
	case 1:
		b[0] |= byte(vsim.Range(vsim.StWork, 1, 15))
		return b
	case 2:
		return b
	case 3:
		return append(b, vsim.Pick(vsim.StWork, byte(30), 31, 0, 0x7e)) // reserved types
	}
	return append(b, 0x7c) // a fragment without header
}

func slice(id, n int, key bool) []byte {
	if n < 3 {
		n = 3
	}
	b := payload(id, n)
	b[0] = vsim.Pick(vsim.StWork, byte(0x41), 0x61, 0x01, 0x21)
	if key {
		b[0] = vsim.Pick(vsim.StWork, byte(0x65), 0x25, 0x45)
	}
	return b
}

// genRtsp plans what a playing server sends.
func (s *rtspSrv) genRtsp(n int, mixed bool) (out []rtspBlock) {
	gap := genGap2()
	id := 0
	if s.long {
		n = vsim.Range(vsim.StWork, 70, 130)
	}
	long := s.setupPick()
	for k := 0; k < n; k++ {
		ti := s.setupPick()
		if s.long {
			ti = long
		}
		t := s.tracks[ti]
		first := !t.started
		if t.started {
			d := int64(vsim.Range(vsim.StWork, 0, t.scale/5))
			switch vsim.Weighted(vsim.StWork, 20, 1, 1) {
			case 1:
				d = 0
			case 2:
				if mixed && !s.long {
					d = int64(t.scale) * int64(vsim.Range(vsim.StWork, 1, 1700)) // up to 28 minutes
				}
			}
			if s.long {
				d = int64(t.scale) * int64(vsim.Range(vsim.StWork, 1300, 1700))
			}
			t.ticks += d
			t.ts += uint32(d)
		}
		t.started = true
		tm := time.Duration(t.ticks/int64(t.scale))*time.Second + time.Duration(t.ticks%int64(t.scale))*time.Second/time.Duration(t.scale)
		put := func(rtp []byte, pkts ...av.Packet) {
			b := rtspBlock{b: interleave(2*ti, rtp), track: ti, pkts: pkts, gap: gap()}
			if t.mark != nil {
				t.mark(&b)
			}
			out = append(out, b)
			if vsim.Bool(vsim.StWork, 1, 8) {
				out = append(out, rtspBlock{b: interleave(2*ti+1, t.rtcp()), track: ti, gap: gap()})
			}
		}
		id++
		size := genSize(vsim.Pick(vsim.StWork, 100, 1400, 8000))
		if s.long {
			size = vsim.Range(vsim.StWork, 3, 60)
		}
		if s.damaged && vsim.Bool(vsim.StWork, 1, 5) {
			vsim.Fault("rtp_damaged")
			put(t.damagedRtp())
		}
		if s.requests && vsim.Bool(vsim.StWork, 1, 8) {
			vsim.Probe("server_requests")
			out = append(out, rtspBlock{b: []byte(fmt.Sprintf("%s rtsp://%s%s RTSP/1.0\r\nCSeq: %d\r\nSession: %s\r\n\r\n", vsim.Pick(vsim.StWork, "GET_PARAMETER", "OPTIONS", "SET_PARAMETER"),
				s.addr, s.path, vsim.Range(vsim.StWork, 1, 9), s.session)), track: ti})
		}
		if s.lossy && t.typ == av.H264 && vsim.Bool(vsim.StWork, 1, 5) {
			// only some of the fragments of a unit
			h := vsim.Pick(vsim.StWork, byte(0x41), 0x65)
			frag := func(bits byte) {
				put(t.rtp(append([]byte{h&0xe0 | 28, h&31 | bits}, payload(id, vsim.Range(vsim.StWork, 1, 400))...), bits == 0x40))
			}
			switch vsim.Draw(vsim.StWork, 2) {
			case 0:
				if t.fuOpen {
					break
				}
				vsim.Fault("fragments_without_start")
				for j := vsim.Draw(vsim.StWork, 3); j > 0; j-- {
					frag(0)
				}
				frag(0x40)
			case 1:
				vsim.Fault("fragments_without_end")
				frag(0x80)
				for j := vsim.Draw(vsim.StWork, 3); j > 0; j-- {
					frag(0)
				}
				t.fuOpen = true
			}
			id++
		}
		if t.typ == av.AAC {
			d := payload(id, size)
			au := append([]byte{0, 16}, be16(uint16(len(d)<<3))...)
			put(t.rtp(append(au, d...), true), av.Packet{Type: av.AAC, Time: tm, Data: d})
			continue
		}
		key := first || vsim.Bool(vsim.StWork, 1, 8)
		mk := func(nal []byte) []byte { return append(be32(uint32(len(nal))), nal...) }
		single := func(nal []byte) {
			put(t.rtp(nal, true), av.Packet{Type: av.H264, IsKeyFrame: key, Time: tm, Data: mk(nal)})
		}
		if s.changes && key {
			from := len(out)
			if s.newSets(t, first, put, id, tm, mk) {
				for i := from; i < len(out); i++ {
					if out[i].pkts != nil { // the slices came along
						key = false
					}
				}
				if !key {
					continue
				}
			}
		}
		if key && vsim.Bool(vsim.StWork, 1, 2) {
			switch vsim.Draw(vsim.StWork, 4) {
			case 3: // end of sequence, filler
				put(t.rtp([]byte{vsim.Pick(vsim.StWork, byte(10), 11)}, false))
				put(t.rtp([]byte{12, 0xff, 0xff, 0x80}, false))
			case 0:
				if nal := t.cur.sps; vsim.Bool(vsim.StWork, 1, 6) {
					put(t.rtp(append([]byte{nal[0]&0xe0 | 28, nal[0]&31 | 0x80}, nal[1:3]...), false))
					put(t.rtp(append([]byte{nal[0]&0xe0 | 28, nal[0]&31 | 0x40}, nal[3:]...), false))
				} else {
					put(t.rtp(nal, false))
				}
				put(t.rtp(t.cur.pps, false))
			case 1:
				put(t.rtp([]byte{9, 0xf0}, false))
				put(t.rtp(append([]byte{6}, payload(id, 30)...), false))
			case 2:
				b := []byte{24}
				for _, x := range [][]byte{t.cur.sps, t.cur.pps} {
					b = append(append(b, be16(uint16(len(x)))...), x...)
				}
				put(t.rtp(b, false))
			}
		}
		switch vsim.Weighted(vsim.StWork, 3, 4, 3, 1, 1) {
		case 0:
			if vsim.Bool(vsim.StWork, 1, 60) { // as large as an interleaved frame may be
				t.plain = true
				single(slice(id, vsim.Pick(vsim.StWork, 65523, 65522, 65520, 65000), key))
				t.plain = false
				break
			}
			single(slice(id, min(size, 60000), key))
		case 4: // a camera that leaves the start codes in
			vsim.Probe("start_codes")
			var b, all []byte
			add := func(x []byte) {
				if len(b) == 0 || vsim.Bool(vsim.StWork, 1, 2) {
					b = append(b, 0)
				}
				b = append(append(b, 0, 0, 1), x...)
			}
			if key && vsim.Bool(vsim.StWork, 1, 2) {
				add(t.cur.sps)
				add(t.cur.pps)
			} else if vsim.Bool(vsim.StWork, 1, 3) {
				add([]byte{9, 0xf0})
			}
			for j := vsim.Range(vsim.StWork, 1, 3); j > 0; j-- {
				x := slice(id, min(size, 10000)+2, key)
				for i := range x {
					if x[i] == 0 { // emulation prevention, in short
						x[i] = 0xa5
					}
				}
				id++
				add(x)
				all = append(all, mk(x)...)
			}
			put(t.rtp(b, true), av.Packet{Type: av.H264, IsKeyFrame: key, Time: tm, Data: all})
		case 1: // FU-A
			t.fuOpen = false
			nal := slice(id, size+10, key)
			if vsim.Bool(vsim.StWork, 1, 20) {
				nal = slice(id, vsim.Range(vsim.StWork, 65000, 150000), key)
			}
			rest := nal[1:]
			fs := max(vsim.Pick(vsim.StWork, 1400, 500, 7, 60000), len(rest)/60+1)
			for i := 0; len(rest) > 0; i++ {
				f := rest[:min(fs, len(rest))]
				rest = rest[len(f):]
				h := nal[0] & 31
				if i == 0 {
					h |= 0x80
				}
				if len(rest) == 0 {
					if i == 0 { // a fragmented unit has two fragments at least
						h = nal[0]&31 | 0x80
						put(t.rtp(append([]byte{nal[0]&0xe0 | 28, h}, f[:len(f)/2]...), false))
						h = nal[0]&31 | 0x40
						f = f[len(f)/2:]
					} else {
						h |= 0x40
					}
					put(t.rtp(append([]byte{nal[0]&0xe0 | 28, h}, f...), true), av.Packet{Type: av.H264, IsKeyFrame: key, Time: tm, Data: mk(nal)})
					break
				}
				put(t.rtp(append([]byte{nal[0]&0xe0 | 28, h}, f...), false))
			}
		case 2: // aggregation
			b := []byte{24}
			var all []byte
			if key && vsim.Bool(vsim.StWork, 1, 2) {
				for _, x := range [][]byte{t.cur.sps, t.cur.pps} {
					b = append(append(b, be16(uint16(len(x)))...), x...)
				}
			}
			for j := vsim.Range(vsim.StWork, 1, 4); j > 0; j-- {
				x := slice(id, min(size, 10000), key)
				id++
				b = append(append(b, be16(uint16(len(x)))...), x...)
				all = append(all, mk(x)...)
			}
			put(t.rtp(b, true), av.Packet{Type: av.H264, IsKeyFrame: key, Time: tm, Data: all})
		case 3: // several slices, a packet each
			for j := vsim.Range(vsim.StWork, 2, 3); j > 0; j-- {
				single(slice(id, min(size, 60000), key))
				id++
			}
		}
	}
	return
}

// newSets sends parameter sets: the first ones of a track described without, or
// others than those in effect.
func (s *rtspSrv) newSets(t *rtspTrack, first bool, put0 func([]byte, ...av.Packet), id int, tm time.Duration, mk func([]byte) []byte) bool {
	init := first && !t.inSDP
	if !init {
		if first || !vsim.Bool(vsim.StWork, 1, 2) {
			return false
		}
		v := genVideoConf()
		if len(t.old) > 0 && vsim.Bool(vsim.StWork, 1, 3) {
			v = t.old[vsim.Draw(vsim.StWork, len(t.old))]
		}
		if bytes.Equal(v.sps, t.cur.sps) || bytes.Equal(v.pps, t.cur.pps) {
			return false
		}
		t.old = append(t.old, t.cur)
		t.cur = v
	}
	v := t.cur
	var n int
	put := func(rtp []byte, sets int, pkts ...av.Packet) {
		t.mark = func(b *rtspBlock) {
			if n += sets; sets > 0 && n < 2 {
				b.half = true
			} else if sets > 0 {
				b.conf, b.change = &v, !init
			}
		}
		put0(rtp, pkts...)
	}
	a, b := v.sps, v.pps
	if vsim.Bool(vsim.StWork, 1, 4) {
		a, b = b, a
	}
	fua := func(nal []byte) {
		k := 1 + vsim.Draw(vsim.StWork, len(nal)-2)
		put(t.rtp(append([]byte{nal[0]&0xe0 | 28, nal[0]&31 | 0x80}, nal[1:1+k]...), false), 0)
		put(t.rtp(append([]byte{nal[0]&0xe0 | 28, nal[0]&31 | 0x40}, nal[1+k:]...), false), 1)
	}
	switch mode := vsim.Weighted(vsim.StWork, 4, 3, 3, 1); mode {
	case 0:
		put(t.rtp(a, false), 1)
		if vsim.Bool(vsim.StWork, 1, 4) {
			put(t.rtp(append([]byte{6}, payload(id, 30)...), false), 0)
		}
		put(t.rtp(b, false), 1)
	case 1, 2: // aggregated, alone or with the picture
		ag := []byte{24}
		add := func(x []byte) { ag = append(append(ag, be16(uint16(len(x)))...), x...) }
		add(a)
		add(b)
		if mode == 1 {
			put(t.rtp(ag, false), 2)
			break
		}
		var all []byte
		for j := vsim.Range(vsim.StWork, 1, 3); j > 0; j-- {
			x := slice(id, vsim.Range(vsim.StWork, 3, 400), true)
			add(x)
			all = append(all, mk(x)...)
		}
		put(t.rtp(ag, true), 2, av.Packet{Type: av.H264, IsKeyFrame: true, Time: tm, Data: all})
	case 3: // fragmented
		if len(a) > 3 {
			fua(a)
		} else {
			put(t.rtp(a, false), 1)
		}
		put(t.rtp(b, false), 1)
	}
	t.mark = nil
	return true
}

func (s *rtspSrv) setupPick() int {
	if len(s.setup) == 0 {
		return vsim.Draw(vsim.StWork, len(s.tracks))
	}
	return s.setup[vsim.Draw(vsim.StWork, len(s.setup))]
}

// genGap2 draws a pace for a server that streams.
func genGap2() func() time.Duration {
	m := vsim.Weighted(vsim.StWork, 3, 2, 1)
	return func() time.Duration {
		switch m {
		case 1:
			return time.Duration(vsim.Draw(vsim.StWork, 50)) * time.Millisecond
		case 2:
			if vsim.Bool(vsim.StWork, 1, 8) {
				return time.Duration(vsim.Range(vsim.StWork, 1, 20)) * time.Second
			}
		}
		return 0
	}
}

func genTracks() (l []*rtspTrack) {
	n := 1 + vsim.Draw(vsim.StWork, 3)
	bare := n == 1 && vsim.Bool(vsim.StWork, 1, 8) // the only track needs no address
	pts := []int{96, 97, 98, 127}
	for i := 0; i < n; i++ {
		t := &rtspTrack{pt: pts[i], ssrc: uint32(i+1) * 0x01010101, control: fmt.Sprintf("trackID=%d", i)}
		if vsim.Bool(vsim.StWork, 1, 8) {
			t.pt = 96 // payload types are per track
		}
		if vsim.Bool(vsim.StWork, 1, 4) {
			t.control = fmt.Sprintf("streamid/%d", i)
		}
		t.typ = vsim.Pick(vsim.StWork, av.H264, av.AAC)
		if t.typ == av.H264 {
			t.scale = 90000
			t.inSDP = !vsim.Bool(vsim.StWork, 1, 5)
			t.v = genVideoConf()
			t.cur = t.v
		} else {
			t.a = genAudioConf()
			t.scale, t.conf = t.a.rate, t.a.b
		}
		t.ts = uint32(vsim.Pick(vsim.StWork, 0, 1, 0x12345678, 0xffffff00, 0xfffffff0, 0x7fffff00))
		t.encName = vsim.Pick(vsim.StWork, "MPEG4-GENERIC", "mpeg4-generic", "Mpeg4-Generic")
		if bare {
			t.control = vsim.Pick(vsim.StWork, "", "*")
		}
		t.fmtp = vsim.Weighted(vsim.StWork, 4, 1, 1, 1, 1)
		t.annexb = vsim.Bool(vsim.StWork, 1, 10)
		t.ctlFirst, t.noise = vsim.Bool(vsim.StWork, 1, 4), vsim.Bool(vsim.StWork, 1, 4)
		l = append(l, t)
	}
	return
}
