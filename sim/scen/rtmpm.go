package scen

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	"vsim/vsim"
)

// Independent model of an RTMP endpoint (handshake, chunk stream, commands).

type rmsg struct {
	csid uint32
	ts   uint32
	sid  uint32
	typ  byte
	data []byte
	at   time.Duration
}

func (m *rmsg) String() string {
	d := m.data
	if len(d) > 16 {
		d = d[:16]
	}
	return fmt.Sprintf("{type %d cs %d sid %d ts %d len %d %x}", m.typ, m.csid, m.sid, m.ts, len(m.data), d)
}

type crState struct {
	ts, delta, ln, sid uint32
	typ                byte
	ext                bool
	started            bool
	inMsg              bool
	buf                []byte
}

type chunkReader struct {
	r     io.Reader
	chunk int
	cs    map[uint32]*crState
	total int64
}

var errProto = errors.New("peer violated the chunk protocol")

func newChunkReader(r io.Reader) *chunkReader {
	return &chunkReader{r: r, chunk: 128, cs: map[uint32]*crState{}}
}

func (c *chunkReader) need(n int) ([]byte, error) {
	b := make([]byte, n)
	k, err := io.ReadFull(c.r, b)
	c.total += int64(k)
	return b, err
}

// read returns the next complete message.
func (c *chunkReader) read() (*rmsg, error) {
	for {
		b, err := c.need(1)
		if err != nil {
			return nil, err
		}
		f := b[0] >> 6
		csid := uint32(b[0] & 63)
		if csid == 0 {
			if b, err = c.need(1); err != nil {
				return nil, err
			}
			csid = 64 + uint32(b[0])
		} else if csid == 1 {
			if b, err = c.need(2); err != nil {
				return nil, err
			}
			csid = 64 + uint32(b[0]) + uint32(b[1])*256
		}
		s := c.cs[csid]
		if s == nil {
			s = &crState{}
			c.cs[csid] = s
		}
		if f < 3 {
			if s.inMsg {
				return nil, fmt.Errorf("%w: new header on chunk stream %d inside a message", errProto, csid)
			}
			if f > 0 && !s.started {
				return nil, fmt.Errorf("%w: format %d without predecessor on %d", errProto, f, csid)
			}
			n := []int{11, 7, 3}[f]
			if b, err = c.need(n); err != nil {
				return nil, err
			}
			tm := uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2])
			if f < 2 {
				s.ln = uint32(b[3])<<16 | uint32(b[4])<<8 | uint32(b[5])
				s.typ = b[6]
			}
			if f == 0 {
				s.sid = binary.LittleEndian.Uint32(b[7:])
			}
			s.ext = tm == 0xffffff
			if s.ext {
				if b, err = c.need(4); err != nil {
					return nil, err
				}
				tm = binary.BigEndian.Uint32(b)
			}
			if f == 0 {
				s.ts, s.delta = tm, tm
			} else {
				s.delta = tm
				s.ts += tm
			}
			s.started = true
		} else {
			if !s.started {
				return nil, fmt.Errorf("%w: format 3 without predecessor on %d", errProto, csid)
			}
			if s.ext {
				if _, err = c.need(4); err != nil {
					return nil, err
				}
			}
			if !s.inMsg {
				s.ts += s.delta
			}
		}
		if !s.inMsg {
			s.inMsg = true
			s.buf = nil
			if s.ln > 8<<20 {
				return nil, fmt.Errorf("%w: message of %d bytes", errProto, s.ln)
			}
		}
		n := int(s.ln) - len(s.buf)
		if n > c.chunk {
			n = c.chunk
		}
		if b, err = c.need(n); err != nil {
			return nil, err
		}
		s.buf = append(s.buf, b...)
		if len(s.buf) < int(s.ln) {
			continue
		}
		s.inMsg = false
		m := &rmsg{csid: csid, ts: s.ts, sid: s.sid, typ: s.typ, data: s.buf, at: vsim.Elapsed()}
		s.buf = nil
		if m.typ == 1 && len(m.data) >= 4 {
			v := binary.BigEndian.Uint32(m.data)
			if v == 0 || v > 0x7fffffff {
				return nil, fmt.Errorf("%w: chunk size %d", errProto, v)
			}
			c.chunk = int(v)
		}
		return m, nil
	}
}

// basicHdr writes a chunk basic header; form 0 picks the shortest.
func basicHdr(b []byte, f byte, csid uint32, form int) []byte {
	switch {
	case form == 3 || csid > 319:
		v := csid - 64
		return append(b, f<<6|1, byte(v), byte(v>>8))
	case form == 2 || csid > 63:
		return append(b, f<<6, byte(csid-64))
	}
	return append(b, f<<6|byte(csid))
}

func u24(b []byte, v uint32) []byte { return append(b, byte(v>>16), byte(v>>8), byte(v)) }
func be16(v uint16) []byte          { return binary.BigEndian.AppendUint16(nil, v) }
func be32(v uint32) []byte          { return binary.BigEndian.AppendUint32(nil, v) }

// encMsg encodes a message plainly: format 0 header, format 3 continuations.
func encMsg(m *rmsg, chunk int) []byte {
	var b []byte
	b = basicHdr(b, 0, m.csid, 0)
	t := m.ts
	ext := t >= 0xffffff
	if ext {
		t = 0xffffff
	}
	b = u24(b, t)
	b = u24(b, uint32(len(m.data)))
	b = append(b, m.typ)
	b = binary.LittleEndian.AppendUint32(b, m.sid)
	if ext {
		b = append(b, be32(m.ts)...)
	}
	d := m.data
	for {
		n := len(d)
		if n > chunk {
			n = chunk
		}
		b = append(b, d[:n]...)
		d = d[n:]
		if len(d) == 0 {
			return b
		}
		b = basicHdr(b, 3, m.csid, 0)
		if ext {
			b = append(b, be32(m.ts)...)
		}
	}
}

// ---------------------------------------------------------------- handshake

var (
	keyFP   = append([]byte("Genuine Adobe Flash Player 001"), keyTail...)
	keyFMS  = append([]byte("Genuine Adobe Flash Media Server 001"), keyTail...)
	keyTail = []byte{
		0xF0, 0xEE, 0xC2, 0x4A, 0x80, 0x68, 0xBE, 0xE8, 0x2E, 0x00, 0xD0, 0xD1,
		0x02, 0x9E, 0x7E, 0x57, 0x6E, 0xEC, 0x5D, 0x2D, 0x29, 0x80, 0x6F, 0xAB,
		0x93, 0xB8, 0xE6, 0x36, 0xCF, 0xEB, 0x31, 0xAE,
	}
)

func hm(key []byte, parts ...[]byte) []byte {
	h := hmac.New(sha256.New, key)
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func digestPos(p []byte, base int) int {
	return (int(p[base])+int(p[base+1])+int(p[base+2])+int(p[base+3]))%728 + base + 4
}

func findDigest(p, key []byte) []byte {
	for _, base := range []int{8, 772} {
		k := digestPos(p, base)
		if k+32 > len(p) {
			continue
		}
		if bytes.Equal(p[k:k+32], hm(key, p[:k], p[k+32:])) {
			return p[k : k+32]
		}
	}
	return nil
}

const (
	hsSimple  = iota
	hsDigest8 // digest scheme, block at 8
	hsDigest772
)

// hsClient performs the client side; it returns a description of anything the
// server did that the handshake does not allow.
func hsClient(c net.Conn, mode int) (bad string, err error) {
	c0 := append([]byte{3}, payload(vsim.Draw(vsim.StWork, 1<<20), 1536)...)
	c1 := c0[1:]
	copy(c1[0:8], make([]byte, 8))
	if mode != hsSimple {
		copy(c1[4:8], []byte{9, 0, 124, 2})
		base := 8
		if mode == hsDigest772 {
			base = 772
		}
		k := digestPos(c1, base)
		copy(c1[k:], hm(keyFP[:30], c1[:k], c1[k+32:]))
	}
	if _, err = c.Write(c0); err != nil {
		return
	}
	s := make([]byte, 1+1536*2)
	if _, err = io.ReadFull(c, s); err != nil {
		return
	}
	s1, s2 := s[1:1537], s[1537:]
	if s[0] != 3 {
		bad = fmt.Sprintf("server version byte %d", s[0])
	}
	c2 := append([]byte(nil), s1...)
	if mode == hsSimple {
		if !bytes.Equal(s2, c1) {
			bad = "S2 does not echo C1"
		}
	} else {
		d := findDigest(s1, keyFMS[:36])
		if d == nil {
			bad = "S1 carries no valid digest"
		} else {
			c2 = payload(778, 1536)
			k := hm(keyFP, d)
			copy(c2[1504:], hm(k, c2[:1504]))
		}
		dc := findDigest(c1, keyFP[:30])
		if dc != nil && !bytes.Equal(s2[1504:], hm(hm(keyFMS, dc), s2[:1504])) {
			bad = "S2 signature does not verify"
		}
	}
	_, err = c.Write(c2)
	return
}

// hsServer performs the server side.
func hsServer(c net.Conn, mode int) (bad string, err error) {
	b := make([]byte, 1537)
	if _, err = io.ReadFull(c, b); err != nil {
		return
	}
	if b[0] != 3 {
		bad = fmt.Sprintf("client version byte %d", b[0])
	}
	c1 := b[1:]
	s := append([]byte{3}, payload(vsim.Draw(vsim.StWork, 1<<20), 1536)...)
	s1 := s[1:]
	copy(s1[0:8], make([]byte, 8))
	s2 := append([]byte(nil), c1...)
	if mode != hsSimple {
		copy(s1[4:8], []byte{3, 5, 1, 1})
		base := 8
		if mode == hsDigest772 {
			base = 772
		}
		k := digestPos(s1, base)
		copy(s1[k:], hm(keyFMS[:36], s1[:k], s1[k+32:]))
		// a server that insists on the digest form serves only clients whose C1
		// carries one
		if d := findDigest(c1, keyFP[:30]); d == nil {
			bad = "C1 carries no valid digest"
		} else {
			s2 = payload(780, 1536)
			copy(s2[1504:], hm(hm(keyFMS, d), s2[:1504]))
		}
	}
	if _, err = c.Write(append(s, s2...)); err != nil {
		return
	}
	c2 := make([]byte, 1536)
	if _, err = io.ReadFull(c, c2); err != nil {
		return
	}
	if mode == hsSimple {
		if !bytes.Equal(c2, s1) {
			bad = "C2 does not echo S1"
		}
	} else if d := findDigest(s1, keyFMS[:36]); d != nil {
		if !bytes.Equal(c2[1504:], hm(hm(keyFP, d), c2[:1504])) && !bytes.Equal(c2, s1) {
			bad = "C2 signature does not verify"
		}
	}
	return
}

// ---------------------------------------------------------------- endpoint

// rpeer is a model endpoint after the handshake.
type rpeer struct {
	c     *vsim.Conn
	rd    *chunkReader
	wchnk int
	msgs  []*rmsg // everything received, in order
	err   error   // why the reader stopped
	bad   string
	sent  int64 // bytes written after the handshake
	// options
	autoPing bool
}

func newPeer(c *vsim.Conn) *rpeer {
	return &rpeer{c: c, rd: newChunkReader(c), wchnk: 128}
}

func (p *rpeer) raw(b []byte) error {
	n, err := p.c.Write(b)
	p.sent += int64(n)
	return err
}

func (p *rpeer) send(m *rmsg) error { return p.raw(encMsg(m, p.wchnk)) }

func (p *rpeer) ctl(typ byte, data []byte) error {
	err := p.send(&rmsg{csid: 2, typ: typ, data: data})
	return err
}

func (p *rpeer) setChunk(n int) error {
	err := p.ctl(1, be32(uint32(n)))
	p.wchnk = n
	return err
}

func (p *rpeer) cmd(csid, sid uint32, vs ...any) error {
	return p.send(&rmsg{csid: csid, sid: sid, typ: 20, data: amfVals(vs...)})
}

// next reads one message.
func (p *rpeer) next() (*rmsg, error) {
	m, err := p.rd.read()
	if err != nil {
		p.err = err
		return nil, err
	}
	p.msgs = append(p.msgs, m)
	return m, nil
}

type rcmd struct {
	name  string
	tid   float64
	obj   any
	args  []any
	m     *rmsg
	valid bool
}

func parseCmd(m *rmsg) *rcmd {
	d := m.data
	if m.typ == 17 && len(d) > 0 {
		d = d[1:]
	} else if m.typ != 20 {
		return nil
	}
	l, err := amfDecAll(d)
	if err != nil || len(l) < 2 {
		return nil
	}
	c := &rcmd{m: m}
	var ok1, ok2 bool
	c.name, ok1 = l[0].(string)
	c.tid, ok2 = l[1].(float64)
	if !ok1 || !ok2 {
		return nil
	}
	if len(l) > 2 {
		c.obj = l[2]
	}
	if len(l) > 3 {
		c.args = l[3:]
	}
	return c
}

func props(v any) obj {
	switch v := v.(type) {
	case obj:
		return v
	case ecma:
		return obj(v)
	}
	return nil
}

// nextCmd reads until a command arrives.
func (p *rpeer) nextCmd() (*rcmd, error) {
	for {
		m, err := p.next()
		if err != nil {
			return nil, err
		}
		if m.typ == 20 || m.typ == 17 {
			c := parseCmd(m)
			if c == nil {
				return nil, fmt.Errorf("%w: undecodable command %x", errProto, m.data)
			}
			return c, nil
		}
	}
}

// drain reads everything until the connection ends.
func (p *rpeer) drain() {
	for {
		if _, err := p.next(); err != nil {
			return
		}
	}
}

// sessOpt describes how a model client negotiates.
type sessOpt struct {
	hs       int
	app      string
	stream   string
	tcurl    string
	publish  bool
	chunk    int // client's chunk size (0: leave 128)
	extras   bool
	window   uint32
	amf3     bool
	coalesce bool
	tid0     int
	keys     int // spelling of optional keys
	pageurl  string
	hook     func(p *rpeer, at int) error
}

type sessRes struct {
	bad       string
	err       error
	status    string // last onStatus code
	level     string
	desc      string
	granted   float64
	codes     []string
	statusSid uint32
	done      bool
}

// negotiate runs a model client session up to the server's final answer.
func (p *rpeer) negotiate(o sessOpt) (r sessRes) {
	if r.bad, r.err = hsClient(p.c, o.hs); r.err != nil || r.bad != "" {
		return
	}
	tid := float64(o.tid0 + 1)
	hook := func(at int) bool {
		if o.hook != nil {
			r.err = o.hook(p, at)
		}
		return r.err == nil
	}
	if !hook(0) {
		return
	}
	if o.chunk > 0 {
		if r.err = p.setChunk(o.chunk); r.err != nil {
			return
		}
	}
	if o.window > 0 {
		if r.err = p.ctl(5, be32(o.window)); r.err != nil {
			return
		}
	}
	low := func(s string) string {
		if o.keys == 1 {
			s = strings.ToLower(s)
		}
		return s
	}
	ck := obj{{"app", o.app}, {"type", "nonprivate"}, {low("flashVer"), "FMLE/3.0"}, {low("tcUrl"), o.tcurl}}
	if o.pageurl != "" {
		ck = append(ck, kv{low("pageUrl"), o.pageurl})
	}
	ck = append(ck, kv{"fpad", false}, kv{"capabilities", 15.0}, kv{"objectEncoding", 0.0})
	if r.err = p.cmd(3, 0, "connect", tid, ck); r.err != nil {
		return
	}
	var c *rcmd
	want := tid
	for {
		if c, r.err = p.nextCmd(); r.err != nil {
			return
		}
		if c.name == "_result" || c.name == "_error" {
			break
		}
	}
	if c.name == "_error" {
		r.status, r.level = "connect-error", "error"
		return
	}
	if c.tid != want {
		r.bad = fmt.Sprintf("connect answered with transaction %v, want %v", c.tid, want)
		return
	}
	if len(c.args) < 1 || props(c.args[0]).str("code") != "NetConnection.Connect.Success" || props(c.args[0]).str("level") != "status" {
		r.bad = fmt.Sprintf("connect result %v", c.args)
		return
	}
	tid++
	if o.extras {
		if o.publish {
			r.err = p.cmd(3, 0, "releaseStream", tid, nil, o.stream)
			tid++
			if r.err == nil {
				r.err = p.cmd(3, 0, "FCPublish", tid, nil, o.stream)
			}
			tid++
		} else {
			r.err = p.cmd(3, 0, "_checkbw", tid, nil)
			tid++
		}
		if r.err != nil {
			return
		}
		if r.err = p.ctl(4, append(be16(3), append(be32(0), be32(1000)...)...)); r.err != nil {
			return
		}
	}
	if !hook(1) {
		return
	}
	want = tid
	if r.err = p.cmd(3, 0, "createStream", tid, nil); r.err != nil {
		return
	}
	tid++
	for {
		if c, r.err = p.nextCmd(); r.err != nil {
			return
		}
		if (c.name == "_result" || c.name == "_error") && c.tid == want {
			break
		}
		if c.name == "_result" && c.tid != want && !o.extras {
			r.bad = fmt.Sprintf("createStream answered with transaction %v, want %v", c.tid, want)
			return
		}
	}
	if len(c.args) < 1 {
		r.bad = "createStream result without stream id"
		return
	}
	g, ok := c.args[0].(float64)
	if !ok {
		r.bad = fmt.Sprintf("createStream result %v", c.args)
		return
	}
	r.granted = g
	if !hook(2) {
		return
	}
	if o.publish {
		r.err = p.cmd(8, uint32(g), "publish", tid, nil, o.stream, "live")
	} else {
		if o.extras {
			if r.err = p.cmd(8, 0, "getStreamLength", tid, nil, o.stream); r.err != nil {
				return
			}
			tid++
		}
		r.err = p.cmd(8, uint32(g), "play", tid, nil, o.stream, -2000.0)
	}
	if r.err != nil {
		return
	}
	return
}

// awaitStatus reads until the server reports the outcome of publish or play.
func (p *rpeer) awaitStatus(r *sessRes, publish bool) {
	for {
		var c *rcmd
		if c, r.err = p.nextCmd(); r.err != nil {
			return
		}
		if c.name != "onStatus" {
			continue
		}
		if len(c.args) < 1 {
			r.bad = "onStatus without information object"
			return
		}
		o := props(c.args[0])
		r.status, r.level, r.desc = o.str("code"), o.str("level"), o.str("description")
		r.codes = append(r.codes, r.status)
		r.statusSid = c.m.sid
		if r.level == "error" {
			r.done = true
			return
		}
		switch r.status {
		case "NetStream.Publish.Start", "NetStream.Play.Start":
			r.done = true
			return
		}
		if len(r.codes) > 20 {
			return
		}
	}
}

// ---------------------------------------------------------------- media messages

func videoMsg(key bool, pt byte, ct int32, ts uint32, data []byte) *rmsg {
	b := byte(0x27)
	if key {
		b = 0x17
	}
	d := append([]byte{b, pt, byte(ct >> 16), byte(ct >> 8), byte(ct)}, data...)
	return &rmsg{csid: 6, typ: 9, sid: 1, ts: ts, data: d}
}

func audioMsg(pt byte, ts uint32, data []byte) *rmsg {
	return &rmsg{csid: 4, typ: 8, sid: 1, ts: ts, data: append([]byte{0xaf, pt}, data...)}
}

// srvOpt describes how a model server negotiates.
type srvOpt struct {
	hs            int
	sid           uint32
	chunk         int
	noise         bool   // unrelated messages between the answers
	refuse        string // status code of the refusal, "" accepts
	refuseCreate  bool   // answers createStream with an error
	refuseConnect bool
	resultTid     bool
	window        uint32
	noiseFn       func(p *rpeer, at int) error
}

type srvRes struct {
	bad     string
	err     error
	publish bool
	app     string
	tcurl   string
	stream  string
	pubType string
	sidUsed uint32
	names   []string
}

// serve runs the server side of a session until publish or play is answered.
func (p *rpeer) serve(o srvOpt) (r srvRes) {
	if r.bad, r.err = hsServer(p.c, o.hs); r.err != nil || r.bad != "" {
		return
	}
	noise := func(at int) bool {
		if o.noiseFn == nil {
			return true
		}
		r.err = o.noiseFn(p, at)
		return r.err == nil
	}
	for {
		var c *rcmd
		if c, r.err = p.nextCmd(); r.err != nil {
			return
		}
		r.names = append(r.names, c.name)
		switch c.name {
		case "connect":
			ob := props(c.obj)
			r.app, r.tcurl = ob.str("app"), ob.str("tcUrl")
			if o.window > 0 {
				if r.err = p.ctl(5, be32(o.window)); r.err != nil {
					return
				}
			}
			if r.err = p.ctl(6, append(be32(2500000), 2)); r.err != nil {
				return
			}
			if o.chunk > 0 {
				if r.err = p.setChunk(o.chunk); r.err != nil {
					return
				}
			}
			if !noise(0) {
				return
			}
			if o.refuseConnect {
				name := "_result"
				if vsim.Bool(vsim.StWork, 1, 2) {
					name = "_error"
				}
				r.err = p.cmd(3, 0, name, c.tid, obj{{"fmsVer", "FMS/3"}}, obj{{"level", "error"}, {"code", "NetConnection.Connect.Rejected"}, {"description", "no"}})
				return
			}
			r.err = p.cmd(3, 0, "_result", c.tid, obj{{"fmsVer", "FMS/3,0,1,123"}, {"capabilities", 31.0}}, obj{{"level", "status"}, {"code", "NetConnection.Connect.Success"}, {"description", "ok"}, {"objectEncoding", 0.0}})
			if r.err != nil || !noise(1) {
				return
			}
		default:
			// optional commands may be answered or not
			var v []any
			switch vsim.Draw(vsim.StWork, 6) {
			case 0:
				v = []any{"_result", c.tid, nil}
			case 1:
				v = []any{"_result", c.tid, nil, 77.0}
			case 2:
				v = []any{"_error", c.tid, nil, obj{{"level", "error"}, {"code", "NetConnection.Call.Failed"}}}
			}
			if v != nil {
				vsim.Probe("optional_command_answered")
				if r.err = p.cmd(3, 0, v...); r.err != nil {
					return
				}
			}
		case "createStream":
			if !noise(2) {
				return
			}
			if o.refuseCreate {
				r.err = p.cmd(3, 0, "_error", c.tid, nil, obj{{"level", "error"}, {"code", "NetConnection.Call.Failed"}, {"description", "no"}})
				return
			}
			if r.err = p.cmd(3, 0, "_result", c.tid, nil, float64(o.sid)); r.err != nil {
				return
			}
			if !noise(3) {
				return
			}
		case "publish", "play":
			r.publish = c.name == "publish"
			if len(c.args) > 0 {
				r.stream, _ = c.args[0].(string)
			}
			if len(c.args) > 1 {
				r.pubType, _ = c.args[1].(string)
			}
			r.sidUsed = c.m.sid
			if !noise(4) {
				return
			}
			if o.refuse != "" {
				r.err = p.cmd(5, o.sid, "onStatus", 0.0, nil, obj{{"level", "error"}, {"code", o.refuse}, {"description", "refused"}})
				return
			}
			if r.publish {
				r.err = p.cmd(5, o.sid, "onStatus", 0.0, nil, obj{{"level", "status"}, {"code", "NetStream.Publish.Start"}, {"description", "ok"}})
			} else {
				if r.err = p.ctl(4, append(be16(0), be32(o.sid)...)); r.err != nil {
					return
				}
				if r.err = p.cmd(5, o.sid, "onStatus", 0.0, nil, obj{{"level", "status"}, {"code", "NetStream.Play.Reset"}, {"description", "ok"}}); r.err != nil {
					return
				}
				r.err = p.cmd(5, o.sid, "onStatus", 0.0, nil, obj{{"level", "status"}, {"code", "NetStream.Play.Start"}, {"description", "ok"}})
			}
			if r.err == nil {
				noise(5)
			}
			return
		}
	}
}
