package scen

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"time"

	"github.com/nareix/joy5/format"
	"github.com/nareix/joy5/format/flv"
	"github.com/nareix/joy5/format/flv/flvio"
	"github.com/nareix/joy5/format/rtmp"

	"vsim/vsim"
)

func init() {
	reg(&Prop{ID: "C30", Title: "tags of any codec pass unchanged", Real: rtmpReal, Stub: append(append([]string{}, netStub...), "file system (in-memory, torn writes)", "independent endpoint, FLV writer and FLV parser in half of the runs"),
		Rule:  "Scenarios: drawn tags (every sound format, rate, size, channel layout, frame type, codec id, packet type) sent through an RTMP session or an FLV file, between two real ends or against the independent model, with resets, cuts and crashes at drawn bytes.",
		Scens: []Scenario{{"rtmp", 3, tagsRTMP}, {"file", 2, tagsFile}}})
}

// genTags draws tags with the reference encoding of each body.
func genTags() (l []flvio.Tag) {
	n := vsim.Range(vsim.StWork, 1, 40)
	big := vsim.Pick(vsim.StWork, 50, 50, 1000, 20000)
	ts := uint32(vsim.Pick(vsim.StWork, 0, 0, 0xfffff0, 0xfffffff0, 1000))
	for i := 0; i < n; i++ {
		ts += uint32(vsim.Pick(vsim.StWork, 0, 1, 20, 40, 1000))
		t := flvio.Tag{Time: ts}
		t.Data = payload(700+i, vsim.Draw(vsim.StWork, big))
		switch vsim.Weighted(vsim.StWork, 4, 4, 1, 1) {
		case 0:
			t.Type = 8
			t.SoundFormat = byte(vsim.Draw(vsim.StWork, 16))
			if vsim.Bool(vsim.StWork, 1, 3) {
				t.SoundFormat = 10
			}
			t.SoundRate = byte(vsim.Draw(vsim.StWork, 4))
			t.SoundSize = byte(vsim.Draw(vsim.StWork, 2))
			t.SoundType = byte(vsim.Draw(vsim.StWork, 2))
			if t.SoundFormat == 10 {
				t.AACPacketType = byte(vsim.Pick(vsim.StWork, 0, 1, 1, 2))
			}
		case 1:
			t.Type = 9
			t.FrameType = byte(vsim.Range(vsim.StWork, 1, 5))
			t.VideoFormat = byte(vsim.Pick(vsim.StWork, 7, 7, 12, 2, 3, 4, 5, 6, 8))
			if t.VideoFormat == 7 || t.VideoFormat == 12 {
				t.AVCPacketType = byte(vsim.Draw(vsim.StWork, 3))
				t.CTime = int32(vsim.Pick(vsim.StWork, 0, 0, 40, -40, 0x7fffff, -0x800000, 70000))
			}
		case 2:
			t.Type = 18
			t.Data = append(amfVals(vsim.Pick(vsim.StWork, "onMetaData", "onCuePoint", "@setDataFrame")), t.Data...)
		default:
			t.Type = 15
			t.Data = append([]byte{0}, append(amfVals("onTextData"), t.Data...)...)
		}
		l = append(l, t)
	}
	return
}

// tagBody is the reference encoding of a tag's body.
func tagBody(t *flvio.Tag) (b []byte) {
	switch t.Type {
	case 8:
		b = append(b, t.SoundFormat*16+t.SoundRate*4+t.SoundSize*2+t.SoundType)
		if t.SoundFormat == 10 {
			b = append(b, t.AACPacketType)
		}
	case 9:
		b = append(b, t.FrameType*16+t.VideoFormat)
		if t.VideoFormat == 7 || t.VideoFormat == 12 {
			b = append(b, t.AVCPacketType, byte(t.CTime>>16), byte(t.CTime>>8), byte(t.CTime))
		}
	}
	return append(b, t.Data...)
}

func tagDesc(t *flvio.Tag) string {
	return fmt.Sprintf("{type %d ts %d sound %d/%d/%d/%d/%d video %d/%d/%d ct %d sid %d, %d bytes %08x}", t.Type, t.Time, t.SoundFormat, t.SoundRate, t.SoundSize, t.SoundType, t.AACPacketType, t.FrameType, t.VideoFormat, t.AVCPacketType, t.CTime, t.StreamId, len(t.Data), hash32(t.Data))
}

func hash32(b []byte) uint32 {
	h := uint32(2166136261)
	for _, c := range b {
		h = (h ^ uint32(c)) * 16777619
	}
	return h
}

// tagLog collects tags as they are read.
type tagLog struct {
	tags []flvio.Tag
	err  error
	done bool
}

func (r *tagLog) pump(read func() (flvio.Tag, error)) {
	var data, was [][]byte
	for {
		t, err := read()
		if err != nil {
			r.err, r.done = err, true
			for i, d := range data {
				if !bytes.Equal(d, was[i]) {
					fail("C30", "reused", "a tag of %d bytes, %08x, changed after it had been delivered", len(d), hash32(was[i]))
					return
				}
			}
			return
		}
		data = append(data, t.Data)
		was = append(was, append([]byte(nil), t.Data...))
		t.Data, t.Header = append([]byte(nil), t.Data...), nil
		r.add(t)
		vsim.Log("got %s", tagDesc(&t))
	}
}

// add records a tag; what a session itself says at the start of the data is not
// one of the sender's.
func (r *tagLog) add(t flvio.Tag) {
	if t.Type == 18 {
		if v, _, err := amfDec(t.Data, 0); err == nil && (v == "onStatus" || v == "|RtmpSampleAccess") {
			return
		}
	}
	r.tags = append(r.tags, t)
}

func checkTags(what string, sent, got []flvio.Tag) bool {
	for i := range got {
		if i >= len(sent) {
			fail("C30", "extra", "%s: tag %d delivered beyond the %d sent: %s", what, i, len(sent), tagDesc(&got[i]))
			return false
		}
		if a, b := tagDesc(&sent[i]), tagDesc(&got[i]); a != b || !bytes.Equal(sent[i].Data, got[i].Data) {
			fail("C30", "mismatch", "%s: tag %d: sent %s, delivered %s", what, i, a, b)
			return false
		}
	}
	return true
}

// msgTag is the inverse of tagBody.
func msgTag(m *rmsg) (t flvio.Tag) {
	t = flvio.Tag{Type: m.typ, Time: m.ts, Data: m.data}
	switch d := m.data; {
	case m.typ == 8 && len(d) > 0:
		t.SoundFormat, t.SoundRate, t.SoundSize, t.SoundType = d[0]>>4, d[0]>>2&3, d[0]>>1&1, d[0]&1
		t.Data = d[1:]
		if t.SoundFormat == 10 && len(d) > 1 {
			t.AACPacketType, t.Data = d[1], d[2:]
		}
	case m.typ == 9 && len(d) > 0:
		t.FrameType, t.VideoFormat = d[0]>>4, d[0]&15
		t.Data = d[1:]
		if (t.VideoFormat == 7 || t.VideoFormat == 12) && len(d) > 4 {
			t.AVCPacketType = d[1]
			t.CTime = int32(uint32(d[2])<<24|uint32(d[3])<<16|uint32(d[4])<<8) >> 8
			t.Data = d[5:]
		}
	}
	return
}

func tagsRTMP() {
	setBufio()
	tags := genTags()
	scale := 0
	for i := range tags {
		scale += len(tags[i].Data) + 30
	}
	link := genFastLink()
	mode := ""
	if vsim.Bool(vsim.StFault, 1, 4) {
		d := vsim.Draw(vsim.StFault, 2)
		link.Cut[d] = int64(vsim.Draw(vsim.StFault, scale+6000))
		link.CutFin = vsim.Bool(vsim.StFault, 1, 2)
		mode = "cut"
	}
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	publish := vsim.Bool(vsim.StWork, 1, 2)
	modelEnd := vsim.Pick(vsim.StWork, "none", "sender", "receiver")
	rx := &tagLog{}
	var accepted []flvio.Tag
	var pending *flvio.Tag
	sent, negBad := false, ""
	var werr error
	sp, cp := vsim.NewProc("server"), vsim.NewProc("client")
	gap := genGap()
	send := func(c *rtmp.Conn, nc net.Conn) {
		if werr = c.Prepare(rtmp.StageDataStart, rtmp.PrepareWriting); werr != nil {
			sent = true
			nc.Close()
			return
		}
		for i := range tags {
			pending = &tags[i]
			if werr = c.WriteTag(tags[i]); werr != nil {
				break
			}
			accepted, pending = append(accepted, tags[i]), nil
			gap()
		}
		sent = true
		nc.Close()
	}
	bypass := vsim.Bool(vsim.StWork, 1, 2)
	recv := func(c *rtmp.Conn, nc net.Conn) {
		if bypass {
			c.BypassMsgtypeid = []uint8{19, 16}
		}
		if rx.err = c.Prepare(rtmp.StageCommandDone, rtmp.PrepareReading); rx.err != nil {
			rx.done = true
			nc.Close()
			return
		}
		rx.pump(c.ReadTag)
		nc.Close()
	}
	msend := func(p *rpeer, mp *vsim.Proc, sid uint32) {
		mp.Go("drain", p.drain)
		for i := range tags {
			if vsim.Bool(vsim.StWork, 1, 10) {
				x := &rmsg{csid: 5, sid: sid, typ: byte(vsim.Pick(vsim.StWork, 19, 16)), ts: tags[i].Time, data: payload(i, 40)}
				if bypass {
					xt := flvio.Tag{Type: x.typ, Time: x.ts, Data: x.data}
					pending = &xt
					accepted = append(accepted, xt)
				}
				if werr = p.send(x); werr != nil {
					break
				}
				vsim.Probe("bypass_type_sent")
			}
			csid := uint32(4)
			if tags[i].Type == 9 {
				csid = 6
			}
			accepted = append(accepted, tags[i])
			if werr = p.send(&rmsg{csid: csid, sid: sid, typ: tags[i].Type, ts: tags[i].Time, data: tagBody(&tags[i])}); werr != nil {
				break
			}
			gap()
		}
		sent = true
		p.c.CloseWrite()
	}
	mrecv := func(p *rpeer) {
		for {
			m, err := p.next()
			if err != nil {
				rx.err, rx.done = err, true
				return
			}
			if m.typ == 8 || m.typ == 9 || m.typ == 18 || m.typ == 15 {
				rx.add(msgTag(m))
			}
		}
	}
	giveUp := func(s string) { negBad, sent, rx.done = s, true, true }
	// the SUT's end
	sutIO := func(c *rtmp.Conn, nc net.Conn) {
		if modelEnd == "receiver" || modelEnd == "none" && !c.Publishing {
			send(c, nc)
		} else {
			recv(c, nc)
		}
	}
	serverIsModel := modelEnd == "sender" && !publish || modelEnd == "receiver" && publish
	clientIsModel := modelEnd != "none" && !serverIsModel
	if serverIsModel {
		sp.Harness = true
		lis, err := vsim.ListenAs(sp, srvAddr)
		if err != nil {
			panic(err)
		}
		sp.Go("model", func() {
			c, err := lis.AcceptConn()
			if err != nil {
				return
			}
			p := newPeer(c)
			r := p.serve(srvOpt{hs: hsSimple, sid: 1, chunk: vsim.Pick(vsim.StWork, 0, 128, 4096, 60000)})
			if r.err != nil || r.bad != "" {
				giveUp("model server: " + r.bad)
				c.Close()
				return
			}
			if modelEnd == "sender" {
				msend(p, sp, 1)
			} else {
				mrecv(p)
			}
		})
	} else {
		srv := rtmp.NewServer()
		srv.HandleConn = sutIO
		serveRTMP(sp, srvAddr, srv)
	}
	if clientIsModel {
		cp.Harness = true
		cp.Go("model", func() {
			c, err := vsim.DialAs(cp, nil, srvAddr, 0)
			if err != nil {
				giveUp("dial")
				return
			}
			p := newPeer(c)
			r := p.negotiate(sessOpt{hs: hsSimple, app: "app", stream: "stream", tcurl: "rtmp://" + srvAddr + "/app", publish: publish, chunk: vsim.Pick(vsim.StWork, 0, 128, 4096, 60000)})
			if r.err == nil && r.bad == "" {
				p.awaitStatus(&r, publish)
			}
			if r.err != nil || r.bad != "" {
				giveUp("model client: " + r.bad)
				c.Close()
				return
			}
			if modelEnd == "sender" {
				msend(p, cp, uint32(r.granted))
			} else {
				mrecv(p)
			}
		})
	} else {
		cp.Go("client", func() {
			c, nc, err := dialRTMP("rtmp://"+srvAddr+"/app/stream", publish, vsim.Bool(vsim.StWork, 1, 2))
			if err != nil {
				giveUp("dial: " + err.Error())
				return
			}
			if publish {
				send(c, nc)
			} else {
				recv(c, nc)
			}
		})
	}
	limit := 200*time.Second + transferTime(&link, scale*8) + time.Duration(len(tags))*20*time.Second
	ok := vsim.WaitUntil(50*time.Millisecond, limit, func() bool { return rx.done && sent || vsim.Failed() })
	if vsim.Failed() {
		return
	}
	if negBad != "" {
		if mode == "" {
			fail("C30", "session", "%s", negBad)
		}
		return
	}
	all := accepted
	if pending != nil && modelEnd != "sender" {
		all = append(append([]flvio.Tag(nil), accepted...), *pending)
	}
	if !checkTags("session", all, rx.tags) {
		return
	}
	if mode != "" {
		vsim.Probe("prefix_after_cut")
		return
	}
	if !ok || werr != nil || len(rx.tags) != len(accepted) {
		fail("C30", "lost", "%d tags sent (%v), %d delivered, then %v", len(accepted), werr, len(rx.tags), rx.err)
		return
	}
	vsim.Probe("tags_" + modelEnd)
}

func tagsFile() {
	tags := genTags()
	for i := range tags {
		if vsim.Bool(vsim.StWork, 1, 8) {
			tags[i].StreamId = uint32(vsim.Draw(vsim.StWork, 1<<24))
		}
	}
	total := 13
	for i := range tags {
		total += 15 + len(tagBody(&tags[i]))
	}
	vsim.S.FS.ShortRead = vsim.Pick(vsim.StNet, 0, 1, 7, 100)
	const name = "/data/t.flv"
	rx := &tagLog{}
	n := len(tags)
	if vsim.Bool(vsim.StWork, 1, 2) {
		// written by the independent encoder
		b := append([]byte("FLV\x01\x05\x00\x00\x00\x09"), 0, 0, 0, 0)
		for i := range tags {
			t := &tags[i]
			d := tagBody(t)
			at := len(b)
			b = append(b, t.Type)
			b = u24(b, uint32(len(d)))
			b = u24(b, t.Time&0xffffff)
			b = append(b, byte(t.Time>>24))
			b = u24(b, t.StreamId)
			b = append(b, d...)
			b = append(b, be32(uint32(len(b)-at))...)
		}
		vsim.S.FS.Put(name, b)
		vsim.Probe("independent_file")
	} else {
		at := int64(-1)
		if vsim.Bool(vsim.StFault, 1, 3) {
			at = int64(vsim.Draw(vsim.StFault, total))
			off := int64(0)
			vsim.S.FS.Fault = func(op, name string, o int64, k int) (int, error) {
				if op != "write" {
					return k, nil
				}
				if off+int64(k) <= at {
					off += int64(k)
					return k, nil
				}
				return int(at - off), vsim.ErrCrash
			}
		}
		acc := 0
		var werr error
		runProc("writer", time.Hour, func() {
			var m *flv.Muxer
			o := &format.URLOpener{OnNewFlvMuxer: func(w *flv.Muxer) { m = w }}
			w, err := o.Create(name, nil)
			if err != nil {
				werr = err
				return
			}
			for i := range tags {
				if werr = m.WriteTag(tags[i]); werr != nil {
					return
				}
				acc++
			}
			werr = w.Close()
		})
		vsim.S.FS.Fault = nil
		if vsim.Failed() {
			return
		}
		if at < 0 && werr != nil {
			fail("C30", "write_error", "writing to a healthy disk: %v", werr)
			return
		}
		n = acc
		if b, _ := vsim.S.FS.Get(name); at < 0 && len(b) != total {
			fail("C30", "format", "the file has %d bytes, the format makes it %d", len(b), total)
			return
		}
	}
	runProc("reader", time.Hour, func() {
		r, err := (&format.URLOpener{}).Open(name)
		if err != nil {
			rx.err = err
			return
		}
		rx.pump(r.Flv.ReadTag)
		r.Close()
	})
	if vsim.Failed() {
		return
	}
	if !checkTags("file", tags, rx.tags) {
		return
	}
	if len(rx.tags) < n || n == len(tags) && rx.err != io.EOF {
		fail("C30", "lost", "%d tags written, %d read, then %v", n, len(rx.tags), rx.err)
		return
	}
	vsim.Probe("tag_file")
}
