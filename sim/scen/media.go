package scen

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"time"

	"github.com/nareix/joy5/av"

	"vsim/vsim"
)

// Baseline, and High profile, SPS/PPS from real encoders.
var (
	spsA = []byte{0x67, 0x42, 0xc0, 0x1f, 0xd9, 0x00, 0x78, 0x02, 0x27, 0xe5, 0x84, 0x00, 0x00, 0x03, 0x00, 0x04, 0x00, 0x00, 0x03, 0x00, 0xc8, 0x3c, 0x60, 0xc9, 0x20}
	ppsA = []byte{0x68, 0xcb, 0x83, 0xcb, 0x20}
	spsB = []byte{0x67, 0x64, 0x00, 0x1f, 0xac, 0xd9, 0x40, 0x50, 0x05, 0xbb, 0x01, 0x6a, 0x02, 0x02, 0x02, 0x80, 0x00, 0x00, 0x03, 0x00, 0x80, 0x00, 0x00, 0x1e, 0x07, 0x8c, 0x18, 0xcb}
	ppsB = []byte{0x68, 0xeb, 0xe3, 0xcb, 0x22, 0xc0}
)

func avcc(sps, pps []byte) []byte {
	b := []byte{1, sps[1], sps[2], sps[3], 0xff, 0xe1}
	b = binary.BigEndian.AppendUint16(b, uint16(len(sps)))
	b = append(b, sps...)
	b = append(b, 1)
	b = binary.BigEndian.AppendUint16(b, uint16(len(pps)))
	return append(b, pps...)
}

var aacConfs = [][]byte{{0x12, 0x10}, {0x11, 0x90}, {0x13, 0x88}, {0x12, 0x08}}

// mediaCfg shapes a generated stream.
type mediaCfg struct {
	n        int  // media packets
	audio    bool // AAC present
	video    bool // H264 present
	meta     bool
	cfgs     bool // decoder configuration packets
	reconfig bool // configuration changes mid-stream
	startMS  int64
	maxSize  int
	gop      int
	ctime    bool
	stepMS   int
	avcc     bool // video payloads are length-prefixed NAL units
	jump     bool
	subms    bool // times are not whole milliseconds
	idBase   int  // payloads of different streams differ
}

func genMediaCfg() mediaCfg {
	c := mediaCfg{}
	c.n = vsim.Range(vsim.StWork, 1, 40)
	switch vsim.Weighted(vsim.StWork, 6, 1, 1) {
	case 0:
		c.audio, c.video = true, true
	case 1:
		c.video = true
	case 2:
		c.audio = true
	}
	c.cfgs = !vsim.Bool(vsim.StWork, 1, 8)
	c.meta = vsim.Bool(vsim.StWork, 1, 2)
	c.reconfig = vsim.Bool(vsim.StWork, 1, 3)
	c.startMS = []int64{0, 1, 0xfffff0, 0xffffff, 0x1000000, 0x7ffffff0, 0xfff00000}[vsim.Weighted(vsim.StWork, 8, 2, 3, 2, 1, 1, 1)]
	c.maxSize = []int{100, 600, 5000, 70000, 300000}[vsim.Weighted(vsim.StWork, 6, 6, 6, 4, 1)]
	c.subms = vsim.Bool(vsim.StWork, 1, 4)
	c.gop = vsim.Range(vsim.StWork, 1, 12)
	c.ctime = vsim.Bool(vsim.StWork, 1, 2)
	c.stepMS = vsim.Pick(vsim.StWork, 20, 1, 0, 40, 1000)
	return c
}

func genSize(max int) int {
	switch vsim.Weighted(vsim.StWork, 10, 4, 1, 4) {
	case 0:
		return vsim.Range(vsim.StWork, 5, 60)
	case 1:
		return vsim.Range(vsim.StWork, 5, max)
	case 2:
		return vsim.Range(vsim.StWork, 0, 4)
	default:
		// around chunk and buffer boundaries
		e := vsim.Pick(vsim.StWork, 128, 256, 4096, 8192, 65536)
		n := e - 20 + vsim.Range(vsim.StWork, 0, 40)
		if n > max*2+200 {
			n = max
		}
		return n
	}
}

// payload makes unique data for packet id.
func payload(id, n int) []byte {
	b := make([]byte, n)
	vsim.FillBytes(b, uint64(id)*7919+13)
	if n >= 4 {
		binary.BigEndian.PutUint32(b, 0xA5000000|uint32(id))
	}
	return b
}

func genMetadata(id int) []byte {
	o := []kv{{"width", float64(16 * vsim.Range(vsim.StWork, 1, 100))}, {"id", float64(id)}, {"stereo", true}, {"encoder", "sim"}}
	if vsim.Bool(vsim.StWork, 1, 3) {
		o = append(o, kv{"title", string(payload(id, vsim.Range(vsim.StWork, 0, 300)))})
	}
	for vsim.Bool(vsim.StWork, 1, 3) {
		o = append(o, kv{fmt.Sprintf("x%d", len(o)), genAMF(id, 3)})
	}
	if vsim.Bool(vsim.StWork, 1, 100) {
		o = append(o, kv{"long", string(payload(id, vsim.Pick(vsim.StWork, 65535, 65536, 70000)))})
	}
	if vsim.Bool(vsim.StWork, 1, 2) {
		return amfVals(ecma(o))
	}
	return amfVals(obj(o))
}

func naluPayload(id, n int, key bool) []byte {
	// one or two length-prefixed NAL units
	t := byte(0x41)
	if key {
		t = 0x65
	}
	mk := func(id, n int) []byte {
		if n < 6 {
			n = 6
		}
		d := payload(id, n)
		d[0] = t
		for i := range d { // no start codes inside
			if d[i] == 0 {
				d[i] = 0x80
			}
		}
		return append(binary.BigEndian.AppendUint32(nil, uint32(len(d))), d...)
	}
	b := mk(id, n)
	if n%3 == 0 {
		b = append(b, mk(id+100000, n/2+6)...)
	}
	return b
}

func genMedia(c mediaCfg) []av.Packet {
	var out []av.Packet
	t := c.startMS
	id := c.idBase
	ms := func(v int64) time.Duration { return time.Duration(v) * time.Millisecond }
	vconf, aconf := 0, 0
	putV := func() {
		d := avcc(spsA, ppsA)
		if vconf%2 == 1 {
			d = avcc(spsB, ppsB)
		}
		vconf++
		out = append(out, av.Packet{Type: av.H264DecoderConfig, Data: d, Time: ms(t)})
	}
	putA := func() {
		out = append(out, av.Packet{Type: av.AACDecoderConfig, Data: append([]byte(nil), aacConfs[aconf%len(aacConfs)]...), Time: ms(t)})
		aconf++
	}
	putM := func() {
		id++
		out = append(out, av.Packet{Type: av.Metadata, Data: genMetadata(id), Time: ms(t)})
	}
	if c.meta {
		putM()
	}
	if c.cfgs {
		if c.video {
			putV()
		}
		if c.audio {
			putA()
		}
	}
	sinceKey := 1 << 30
	for i := 0; i < c.n; i++ {
		isV := c.video
		if c.audio && c.video {
			isV = vsim.Bool(vsim.StWork, 1, 2)
		}
		if c.reconfig && i > 0 && vsim.Bool(vsim.StWork, 1, 12) {
			switch vsim.Draw(vsim.StWork, 3) {
			case 0:
				if c.video {
					putV()
				}
			case 1:
				if c.audio {
					putA()
				}
			case 2:
				putM()
			}
		}
		id++
		n := genSize(c.maxSize)
		p := av.Packet{Time: ms(t)}
		if c.subms {
			p.Time += time.Duration(vsim.Draw(vsim.StWork, 1000)) * time.Microsecond
		}
		if isV {
			p.Type = av.H264
			sinceKey++
			if sinceKey >= c.gop {
				p.IsKeyFrame = true
				sinceKey = 0
			}
			if c.ctime {
				p.CTime = ms(int64(vsim.Pick(vsim.StWork, 0, 40, 80, 8388607, -40)))
			}
			if c.avcc {
				p.Data = naluPayload(id, n, p.IsKeyFrame)
			} else {
				p.Data = payload(id, n)
			}
		} else {
			p.Type = av.AAC
			p.Data = payload(id, n)
		}
		out = append(out, p)
		t += int64(vsim.Range(vsim.StWork, 0, c.stepMS))
		if c.jump && vsim.Bool(vsim.StWork, 1, 20) {
			t += int64(vsim.Range(vsim.StWork, 0, 5000))
		}
	}
	return out
}

func pktDesc(p av.Packet) string {
	d := p.Data
	if len(d) > 12 {
		d = d[:12]
	}
	return fmt.Sprintf("{%s key=%v t=%v ct=%v len=%d %x}", av.PacketTypeString[p.Type], p.IsKeyFrame, p.Time, p.CTime, len(p.Data), d)
}

// samePkt compares a delivered packet with the sent one; "" when equal.
func samePkt(sent, got av.Packet) string {
	if sent.Type != got.Type {
		return "type"
	}
	trunc := func(d time.Duration) time.Duration { return d / time.Millisecond * time.Millisecond }
	switch sent.Type {
	case av.H264:
		if sent.IsKeyFrame != got.IsKeyFrame {
			return "keyframe flag"
		}
		if trunc(sent.CTime) != got.CTime {
			return "composition time"
		}
		if trunc(sent.Time) != got.Time {
			return "time"
		}
	case av.AAC:
		if trunc(sent.Time) != got.Time {
			return "time"
		}
	case av.Metadata:
		if trunc(sent.Time) != got.Time {
			return "time"
		}
		if amfNorm(sent.Data) != amfNorm(got.Data) {
			return "metadata"
		}
		return ""
	}
	if !bytes.Equal(sent.Data, got.Data) {
		return "data"
	}
	return ""
}

// checkPrefix verifies that got is a prefix of sent; true when it is.
func checkPrefix(prop, what string, sent, got []av.Packet) bool {
	for i, g := range got {
		if i >= len(sent) {
			fail(prop, "extra", "%s: packet %d delivered beyond the %d sent: %s", what, i, len(sent), pktDesc(g))
			return false
		}
		if d := samePkt(sent[i], g); d != "" {
			fail(prop, "mismatch", "%s: packet %d differs in %s: sent %s, delivered %s", what, i, d, pktDesc(sent[i]), pktDesc(g))
			return false
		}
	}
	return true
}

// tagged payload time helper
func msT(v int64) time.Duration { return time.Duration(v) * time.Millisecond }
