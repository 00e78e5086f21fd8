package scen

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"os"
	"runtime"
	"syscall"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/codec/aac"
	"github.com/nareix/joy5/codec/h264"
	"github.com/nareix/joy5/format"
	"github.com/nareix/joy5/format/mp4"

	"vsim/vsim"
)

func init() {
	real := []string{"format (URL opener)", "format/mp4, format/mp4/mp4io", "codec/h264, codec/aac (configurations)", "utils/bits"}
	reg(&Prop{ID: "C11", Title: "MP4 recording", Real: real, Stub: diskStub,
		Rule:  "A drawn interleaving of video and audio packets (drawn times, gaps, composition offsets, sizes), refused packets between them and tracks appearing late is recorded through the URL opener; the file is read by an independent parser and, under short reads, by the demuxer.",
		Scens: []Scenario{{"record", 300, mp4Record}, {"huge", 1, mp4Huge}}})
	reg(&Prop{ID: "C12", Title: "MP4 recording on a failing disk", Real: real, Stub: diskStub,
		Rule:  "The disk fails, fills up or the process crashes at a drawn byte, seek, close or create of a recording.",
		Scens: []Scenario{{"write_fault", 1, mp4WriteFault}}})
	reg(&Prop{ID: "C13", Title: "MP4 reading", Real: real, Stub: diskStub,
		Rule:  "Files built by an independent writer with drawn tables and layout are read, and sought in, under short reads and read or seek errors, truncated at a drawn byte, or corrupted.",
		Scens: []Scenario{{"read", 3, mp4Read}, {"seek", 3, mp4Seek}, {"truncated", 2, mp4Trunc}, {"hostile", 3, mp4Hostile}}})
}

type dynStrmr struct{ f func() ([]interface{}, error) }

func (s dynStrmr) Streams() ([]interface{}, error) { return s.f() }

type mp4Op struct {
	p      av.Packet
	refuse bool
}

type mp4Plan struct {
	ops    []mp4Op
	want   map[int][]av.Packet
	late   int // type that appears late, or 0
	lateAt int // number of operations before it appears
	only   int // the only type there is, or 0
	v      *h264.Codec
	a      *aac.Codec
	vc     videoConf
	ac     audioConf
	done   int // operations so far
	sErr   bool
}

func (m *mp4Plan) Streams() ([]interface{}, error) {
	if m.sErr {
		return nil, errors.New("no streams")
	}
	has := func(t int) bool {
		return (m.only == 0 || m.only == t) && (m.late != t || m.done >= m.lateAt)
	}
	var l []interface{}
	if has(av.H264) {
		l = append(l, m.v)
	}
	if has(av.AAC) {
		l = append(l, m.a)
	}
	return l, nil
}

func genMP4Plan(refusals bool) *mp4Plan {
	m := &mp4Plan{want: map[int][]av.Packet{}}
	m.vc, m.ac = genVideoConf(), genAudioConf()
	var err error
	if m.v, err = h264.FromDecoderConfig(m.vc.avcc); err != nil {
		fail(Cur, "config", "video configuration %x is refused: %v", m.vc.avcc, err)
		m.v = h264.NewCodec()
	}
	if vsim.Bool(vsim.StWork, 1, 4) {
		m.v = h264.NewCodec()
		m.v.AddSPSPPS(m.vc.sps)
		m.v.AddSPSPPS(m.vc.pps)
	}
	if m.a, err = aac.FromMPEG4AudioConfigBytes(m.ac.b); err != nil {
		fail(Cur, "config", "audio configuration %x is refused: %v", m.ac.b, err)
		m.a = &aac.Codec{}
	}
	m.only = vsim.Pick(vsim.StWork, 0, 0, 0, av.H264, av.AAC)
	n := vsim.Range(vsim.StWork, 1, 80)
	if vsim.Bool(vsim.StWork, 1, 15) {
		n = 0
	}
	if m.only == 0 && refusals && vsim.Bool(vsim.StWork, 1, 3) {
		m.late = vsim.Pick(vsim.StWork, av.H264, av.AAC)
		m.lateAt = vsim.Range(vsim.StWork, 0, n)
	}
	type track struct {
		t    time.Duration
		step time.Duration
		n    int
		sub  bool
		last time.Duration
	}
	maxSize := vsim.Pick(vsim.StWork, 60, 300, 2000, 20000)
	tr := map[int]*track{}
	for _, k := range []int{av.H264, av.AAC} {
		t := &track{sub: vsim.Bool(vsim.StWork, 1, 2)}
		t.t = vsim.Pick(vsim.StWork, 0, time.Second, 40*time.Hour, 49*24*time.Hour, 33366700*time.Nanosecond)
		t.step = vsim.Pick(vsim.StWork, 33366700*time.Nanosecond, 40*time.Millisecond, 23219954*time.Nanosecond, 0, 1, time.Second, 11111*time.Nanosecond, 2*time.Hour, 7*time.Hour)
		tr[k] = t
	}
	gop := vsim.Range(vsim.StWork, 1, 12)
	ct := vsim.Pick(vsim.StWork, 0, 1, 2)
	id := 0
	for i := 0; i < n; i++ {
		k := av.H264
		if m.only != 0 {
			k = m.only
		} else if vsim.Bool(vsim.StWork, 1, 2) {
			k = av.AAC
		}
		t := tr[k]
		id++
		if refusals && vsim.Bool(vsim.StWork, 1, 12) {
			bad := av.Packet{Type: vsim.Pick(vsim.StWork, av.Metadata, av.H264DecoderConfig, av.AACDecoderConfig, 0, 99), Data: payload(id, 20), Time: t.t}
			if m.only != 0 && vsim.Bool(vsim.StWork, 1, 2) {
				bad.Type = av.H264 + av.AAC - m.only
			}
			if t.n > 0 && vsim.Bool(vsim.StWork, 1, 8) {
				// no entry of the file can hold such a gap
				bad.Type = k
				bad.Time = t.last + vsim.Pick(vsim.StWork, 14*time.Hour, 27*time.Hour, 60*24*time.Hour)
				if m.late == k && i < m.lateAt {
					continue
				}
			} else if t.n > 0 && t.last > 0 && vsim.Bool(vsim.StWork, 1, 2) {
				bad.Type = k
				bad.Time = t.last - time.Duration(vsim.Pick(vsim.StWork, 1, 1000000, 50000000))
				if m.late == k && i < m.lateAt {
					continue
				}
			}
			m.ops = append(m.ops, mp4Op{bad, true})
			continue
		}
		p := av.Packet{Type: k, Time: t.t, Data: payload(id, genSize(maxSize))}
		if k == av.H264 {
			p.IsKeyFrame = t.n%gop == 0 || vsim.Bool(vsim.StWork, 1, 20)
			if vsim.Bool(vsim.StWork, 1, 30) {
				p.IsKeyFrame = false
			}
			switch ct {
			case 1:
				p.CTime = time.Duration(vsim.Draw(vsim.StWork, 5)) * 40 * time.Millisecond
			case 2:
				p.CTime = time.Duration(vsim.Range(vsim.StWork, 0, 9)-4) * 33366667
			}
		}
		refuse := m.late == k && len(m.ops) < m.lateAt
		m.ops = append(m.ops, mp4Op{p, refuse})
		if refuse {
			continue
		}
		t.n++
		t.last = t.t
		m.want[k] = append(m.want[k], p)
		d := t.step
		switch vsim.Weighted(vsim.StWork, 12, 2, 1, 1) {
		case 1:
			d = time.Duration(vsim.Draw(vsim.StWork, 100)) * time.Millisecond
		case 2:
			d = 0
		case 3:
			d = time.Duration(vsim.Draw(vsim.StWork, 120)) * time.Second
		}
		if t.sub {
			d += time.Duration(vsim.Draw(vsim.StWork, 1000000))
		}
		t.t += d
	}
	return m
}

// record writes the plan; it returns the errors of accepted packets and Close.
type mp4Rec struct {
	createErr, writeErr, closeErr error
	accepted                      map[int]int
	wrong                         string
	closed                        bool
}

func (m *mp4Plan) record(name string, r *mp4Rec) func() {
	r.accepted = map[int]int{}
	return func() {
		w, err := (&format.URLOpener{}).Create(name, m)
		if err != nil {
			r.createErr = err
			return
		}
		for i, op := range m.ops {
			m.done = i
			p := copyPkt(op.p)
			err := w.WritePacket(p)
			if !bytes.Equal(p.Data, op.p.Data) {
				fail(Cur, "altered", "WritePacket changed the caller's packet: %s", pktDesc(op.p))
			}
			vsim.Log("write %s refuse=%v: %v", pktDesc(op.p), op.refuse, err)
			if op.refuse {
				if err == nil && r.wrong == "" {
					r.wrong = "accepted: " + pktDesc(op.p)
				}
				continue
			}
			if err != nil {
				r.writeErr = err
				break
			}
			r.accepted[op.p.Type]++
		}
		r.closeErr = w.Close()
		r.closed = true
		vsim.Log("close: %v", r.closeErr)
	}
}

func near(got, want, tol time.Duration) bool {
	d := got - want
	return d <= tol && d >= -tol
}

// unknownDur is the duration of a header whose 32 bits are not enough.
const unknownDur = 1<<32 - 1

// checkMP4File compares a closed file with what was recorded.
func checkMP4File(prop string, b []byte, m *mp4Plan) bool {
	f, err := mp4Parse(b)
	if err != nil {
		fail(prop, "malformed", "Close returned nil but the file is not a valid MP4: %v (%d bytes)", err, len(b))
		return false
	}
	if f.odd != "" {
		fail(prop, "formal", "the file is not right: %s", f.odd)
		return false
	}
	ids := map[uint32]bool{}
	longest := time.Duration(0)
	type span struct{ a, b int64 }
	var used []span
	seen := map[int]bool{}
	for _, t := range f.tracks {
		if ids[t.id] || t.id == 0 {
			fail(prop, "malformed", "track id %d is used twice or zero", t.id)
			return false
		}
		ids[t.id] = true
		if t.scale <= 0 || f.scale <= 0 {
			fail(prop, "malformed", "time scale %d/%d", t.scale, f.scale)
			return false
		}
		k, conf := av.H264, m.vc.avcc
		if t.kind == "mp4a" {
			k, conf = av.AAC, m.ac.b
		}
		if seen[k] {
			fail(prop, "malformed", "two %s tracks", t.kind)
			return false
		}
		seen[k] = true
		if !bytes.Equal(t.conf, conf) {
			fail(prop, "config", "%s configuration %x, want %x", t.kind, t.conf, conf)
			return false
		}
		if t.kind == "avc1" && (t.w != m.vc.w || t.h != m.vc.h) {
			fail(prop, "config", "video size %dx%d, want %dx%d: %x", t.w, t.h, m.vc.w, m.vc.h, m.vc.sps)
			return false
		}
		if t.kind == "mp4a" && (t.ch != m.ac.ch || t.rate != m.ac.rate && !(t.rate == 0 && m.ac.rate > 65535)) {
			fail(prop, "config", "%d channels %d Hz, want %d, %d", t.ch, t.rate, m.ac.ch, m.ac.rate)
			return false
		}
		want := m.want[k]
		if len(t.samples) != len(want) {
			fail(prop, "lost", "%d %s packets were accepted, the file has %d samples", len(want), t.kind, len(t.samples))
			return false
		}
		tick := ticks(1, t.scale) + 1
		if t.dur != t.sum && !(t.sum >= unknownDur && t.dur == unknownDur) {
			fail(prop, "duration", "%s: media duration %d ticks, the samples last %d", t.kind, t.dur, t.sum)
			return false
		}
		dur := ticks(t.sum, t.scale)
		if tooLong := dur > ticks(unknownDur-2, f.scale); tooLong && t.tkDur == unknownDur {
			vsim.Probe("duration_unknown")
		} else if !near(ticks(t.tkDur, f.scale), dur, ticks(2, f.scale)+tick) {
			fail(prop, "duration", "%s: track duration %v, the samples last %v", t.kind, ticks(t.tkDur, f.scale), dur)
			return false
		}
		if dur > longest {
			longest = dur
		}
		for i, s := range t.samples {
			w := want[i]
			if s.off < 0 || s.off+int64(s.size) > int64(len(b)) || !bytes.Equal(b[s.off:s.off+int64(s.size)], w.Data) {
				fail(prop, "payload", "%s sample %d at %d+%d is not %s", t.kind, i, s.off, s.size, pktDesc(w))
				return false
			}
			in := s.size == 0
			for _, x := range f.mdat {
				in = in || s.off >= x[0] && s.off+int64(s.size) <= x[1]
			}
			if !in {
				fail(prop, "malformed", "%s sample %d at %d+%d is outside of the media data %v", t.kind, i, s.off, s.size, f.mdat)
				return false
			}
			for _, u := range used {
				if s.off < u.b && u.a < s.off+int64(s.size) {
					fail(prop, "malformed", "samples overlap at %d", s.off)
					return false
				}
			}
			used = append(used, span{s.off, s.off + int64(s.size)})
			if at := w.Time - want[0].Time; !near(ticks(s.dts, t.scale), at, tick) {
				fail(prop, "time", "%s sample %d: decode time %v, want %v", t.kind, i, ticks(s.dts, t.scale), at)
				return false
			}
			if c := ticks(s.ctts, t.scale); !near(c, w.CTime, tick) {
				fail(prop, "ctime", "%s sample %d: composition offset %v, want %v", t.kind, i, c, w.CTime)
				return false
			}
			if k == av.H264 && s.key != w.IsKeyFrame {
				fail(prop, "key", "sample %d of the video: key frame %v, want %v", i, s.key, w.IsKeyFrame)
				return false
			}
		}
	}
	for k, want := range m.want {
		if len(want) > 0 && !seen[k] {
			fail(prop, "lost", "%d packets of type %d were accepted, there is no track for them", len(want), k)
			return false
		}
	}
	if longest > ticks(unknownDur-2, f.scale) && f.dur == unknownDur {
		return true
	}
	if !near(ticks(f.dur, f.scale), longest, ticks(2, f.scale)) {
		fail(prop, "duration", "movie duration %v, the longest track lasts %v", ticks(f.dur, f.scale), longest)
		return false
	}
	return true
}

type mp4Rx struct {
	rxLog
	streams []interface{}
	sErr    error
	capped  bool
}

// readMP4 reads a file to its end or first error.
func readMP4(name string, rx *mp4Rx, max int) func() {
	return func() {
		f, err := vsim.OpenFile(name, os.O_RDONLY, 0)
		if err != nil {
			rx.sErr = err
			return
		}
		defer f.Close()
		d := mp4.NewDemuxer(f)
		if rx.streams, rx.sErr = d.Streams(); rx.sErr != nil {
			rx.err = rx.sErr
			vsim.Log("streams: %v", rx.sErr)
			return
		}
		for len(rx.pkts) < max {
			p, err := d.ReadPacket()
			if err != nil {
				rx.err, rx.done = err, true
				vsim.Log("reader ends: %v", err)
				rx.unchanged()
				return
			}
			vsim.Log("got %s", pktDesc(p))
			rx.add(p)
		}
		rx.capped = true
	}
}

// checkMP4Read compares what the demuxer gave with what was recorded. It
// returns false after a violation.
func checkMP4Read(prop string, rx *mp4Rx, m *mp4Plan, whole bool) bool {
	at := map[int]int{}
	last := time.Duration(0)
	for i, p := range rx.pkts {
		want := m.want[p.Type]
		n := at[p.Type]
		if n >= len(want) {
			fail(prop, "read_extra", "packet %d read back: %s, there were %d of that type", i, pktDesc(p), len(want))
			return false
		}
		w := want[n]
		at[p.Type]++
		tol := ticks(1, 90000) + time.Microsecond
		switch {
		case !bytes.Equal(p.Data, w.Data):
			fail(prop, "read_payload", "packet %d read back: %s, want %s", i, pktDesc(p), pktDesc(w))
		case !near(p.Time, w.Time-want[0].Time, tol):
			fail(prop, "read_time", "packet %d read back: time %v, want %v", i, p.Time, w.Time-want[0].Time)
		case !near(p.CTime, w.CTime, tol):
			fail(prop, "read_ctime", "packet %d read back: composition offset %v, want %v", i, p.CTime, w.CTime)
		case w.Type == av.H264 && p.IsKeyFrame != w.IsKeyFrame:
			fail(prop, "read_key", "packet %d read back: key frame %v, want %v", i, p.IsKeyFrame, w.IsKeyFrame)
		case p.Time < last:
			fail(prop, "read_order", "packet %d read back: time %v after %v", i, p.Time, last)
		default:
			last = p.Time
			continue
		}
		return false
	}
	if !whole {
		return true
	}
	if rx.err != io.EOF {
		fail(prop, "read_end", "reading the file back ends with %v", rx.err)
		return false
	}
	for k, want := range m.want {
		if at[k] != len(want) {
			fail(prop, "read_lost", "%d packets of type %d were recorded, %d are read back", len(want), k, at[k])
			return false
		}
	}
	for _, c := range rx.streams {
		switch c := c.(type) {
		case *h264.Codec:
			if !bytes.Equal(c.ConfigBytes, m.vc.avcc) {
				fail(prop, "read_config", "h264 configuration read back %x, want %x", c.ConfigBytes, m.vc.avcc)
				return false
			}
		case *aac.Codec:
			if !bytes.Equal(c.ConfigBytes, m.a.ConfigBytes) {
				fail(prop, "read_config", "aac configuration read back %x, want %x", c.ConfigBytes, m.a.ConfigBytes)
				return false
			}
		}
	}
	return true
}

func mp4Record() {
	m := genMP4Plan(true)
	vsim.S.FS.ShortRead = vsim.Pick(vsim.StNet, 0, 1, 7, 100, 5000)
	r := &mp4Rec{}
	p, ok := runProc("recorder", time.Hour, m.record("/data/a.mp4", r))
	if vsim.Failed() {
		return
	}
	if !ok || r.createErr != nil || r.writeErr != nil || r.closeErr != nil {
		fail("C11", "write_error", "recording to a healthy disk: %v %v %v", r.createErr, r.writeErr, r.closeErr)
		return
	}
	if r.wrong != "" {
		fail("C11", "accepted", "%s", r.wrong)
		return
	}
	if len(p.OpenFiles()) > 0 {
		fail("C11", "leak", "file left open after Close")
		return
	}
	b, _ := vsim.S.FS.Get("/data/a.mp4")
	if !checkMP4File("C11", b, m) {
		return
	}
	vsim.Probe("file_checked")
	if m.late != 0 && len(m.want[m.late]) > 0 {
		vsim.Probe("late_track")
	}
	for _, op := range m.ops {
		if op.refuse {
			vsim.Probe("refused")
			break
		}
	}
	rx := &mp4Rx{}
	if _, ok := runProc("reader", time.Hour, readMP4("/data/a.mp4", rx, 1000)); !ok && !vsim.Failed() {
		fail("C11", "stuck", "reading the file does not end")
	}
	if vsim.Failed() {
		return
	}
	checkMP4Read("C11", rx, m, true)
}

func mp4WriteFault() {
	m := genMP4Plan(false)
	total := 16
	for _, op := range m.ops {
		total += len(op.p.Data)
	}
	meta := 700 + 20*len(m.ops)
	vsim.S.FS.ShortRead = vsim.Pick(vsim.StNet, 0, 7, 100)
	kind := vsim.Pick(vsim.StFault, "crash", "crash", "enospc", "eio", "eio_once", "seek", "close", "create", "streams")
	at := int64(vsim.Draw(vsim.StFault, total+meta))
	if vsim.Bool(vsim.StFault, 1, 2) {
		// around the end, where the header is completed
		at = int64(total - 30 + vsim.Draw(vsim.StFault, meta+60))
	}
	if vsim.Bool(vsim.StFault, 1, 12) {
		at = int64(vsim.Draw(vsim.StFault, 12))
	}
	torn := vsim.Bool(vsim.StFault, 2, 3)
	written := int64(0)
	seeks, seekAt := 0, vsim.Draw(vsim.StFault, 4)
	fired := false
	m.sErr = kind == "streams"
	vsim.S.FS.Fault = func(op, name string, off int64, n int) (int, error) {
		switch op {
		case "seek":
			seeks++
			if kind == "seek" && seeks > seekAt && !fired {
				fired = true
				return 0, syscall.EIO
			}
			return n, nil
		case "create", "close":
			if kind == op {
				fired = true
				return 0, vsim.Pick[error](vsim.StFault, syscall.EIO, syscall.ENOSPC)
			}
			return n, nil
		case "write":
		default:
			return n, nil
		}
		if kind != "crash" && kind != "enospc" && kind != "eio" && kind != "eio_once" {
			return n, nil
		}
		if kind == "eio_once" && fired || written+int64(n) <= at && !fired {
			written += int64(n)
			return n, nil
		}
		k := int(at - written)
		if fired || !torn {
			k = 0
		}
		fired = true
		written += int64(k)
		switch kind {
		case "crash":
			return k, vsim.ErrCrash
		case "enospc":
			vsim.Fault("disk_full")
			return k, syscall.ENOSPC
		}
		return k, syscall.EIO
	}
	r := &mp4Rec{}
	p, ok := runProc("recorder", time.Hour, m.record("/data/a.mp4", r))
	vsim.S.FS.Fault = nil
	if vsim.Failed() {
		return
	}
	if !ok {
		fail("C12", "stuck", "the recorder does not come back")
		return
	}
	reported := r.createErr != nil || r.writeErr != nil || r.closeErr != nil
	crashed := kind == "crash" && fired
	if kind == "streams" {
		if r.createErr == nil {
			fail("C12", "error_hidden", "the streams are unknown and Create succeeds")
			return
		}
	} else if !crashed {
		if fired && !reported {
			fail("C12", "error_hidden", "the disk failed (%s, byte %d) and neither WritePacket nor Close reported it", kind, at)
			return
		}
		if !fired && reported {
			fail("C12", "write_error", "recording to a healthy disk: %v %v %v", r.createErr, r.writeErr, r.closeErr)
			return
		}
	}
	if !crashed && len(p.OpenFiles()) > 0 {
		fail("C12", "leak", "%s: file left open after %v", kind, map[bool]string{true: "Close", false: "the failed Create"}[r.closed])
		return
	}
	b, exists := vsim.S.FS.Get("/data/a.mp4")
	if !crashed && !reported {
		checkMP4File("C12", b, m)
	}
	if !exists {
		return
	}
	rx := &mp4Rx{}
	_, ok = runProc("reader", time.Hour, readMP4("/data/a.mp4", rx, 1000))
	if vsim.Failed() {
		return
	}
	if !ok {
		fail("C12", "stuck", "reading the file does not end")
		return
	}
	if !checkMP4Read("C12", rx, m, false) {
		return
	}
	n := r.accepted[av.H264] + r.accepted[av.AAC]
	if rx.sErr == nil && rx.err == io.EOF && len(rx.pkts) < n {
		fail("C12", "incomplete_as_complete", "%s at byte %d: %d packets were accepted, the file reads as a complete recording of %d", kind, at, n, len(rx.pkts))
		return
	}
	if fired {
		vsim.Probe("checked_after_" + kind)
		if rx.sErr == nil {
			vsim.Probe("readable_after_" + kind)
		}
	}
}

// ---- reading ----

// reader follows the demuxer over a built file.
type mp4Reader struct {
	m   *mp4Build
	all []*bTrack // the tracks that can be read

	held [][]byte // packets as handed out
	want [][]byte // what they were
}

// unchanged checks that what was handed out is still what it was.
func (r *mp4Reader) unchanged() bool {
	for i, d := range r.held {
		if !bytes.Equal(d, r.want[i]) {
			fail("C13", "reused", "packet %d changed after it had been delivered", i)
			return false
		}
	}
	return true
}

func newMP4Reader(m *mp4Build) *mp4Reader {
	r := &mp4Reader{m: m}
	for _, t := range m.tracks {
		if t.kind == "avc1" || t.kind == "mp4a" {
			r.all = append(r.all, t)
		}
	}
	return r
}

func (r *mp4Reader) left() (n int) {
	for _, t := range r.all {
		n += len(t.s) - t.at
	}
	return
}

// take checks that p is the next packet of one of the tracks and not later than
// the next one of another.
func (r *mp4Reader) take(p av.Packet) bool {
	typ := map[string]int{"avc1": av.H264, "mp4a": av.AAC}
	var t *bTrack
	// of tracks that match, the one that is due first
	for _, x := range r.all {
		if typ[x.kind] == p.Type && x.at < len(x.s) && bytes.Equal(x.s[x.at].data, p.Data) && (t == nil || x.time(x.at) < t.time(t.at)) {
			t = x
		}
	}
	if t == nil {
		fail("C13", "payload", "%s is not the next packet of any track (%s)", pktDesc(p), r.where())
		return false
	}
	s := t.s[t.at]
	tol := time.Microsecond
	at := t.time(t.at)
	if !near(p.Time, at, tol) {
		fail("C13", "time", "sample %d of the %s track (scale %d) has decode time %v, want %v", t.at, t.kind, t.scale, p.Time, at)
		return false
	}
	c := time.Duration(0)
	if t.ctts >= 0 {
		c = ticks(int64(s.ctts), int64(t.scale))
	}
	if !near(p.CTime, c, tol) {
		fail("C13", "ctime", "sample %d of the %s track (scale %d, ctts version %d) has composition offset %v, want %v", t.at, t.kind, t.scale, t.ctts, p.CTime, c)
		return false
	}
	if t.kind == "avc1" && p.IsKeyFrame != s.key {
		fail("C13", "key", "sample %d of the video: key frame %v, want %v (sync table %v)", t.at, p.IsKeyFrame, s.key, t.stss)
		return false
	}
	for _, x := range r.all {
		if x != t && x.at < len(x.s) && x.time(x.at)+2*tol < at {
			fail("C13", "order", "%s sample at %v comes before the %s sample at %v", t.kind, at, x.kind, x.time(x.at))
			return false
		}
	}
	r.held = append(r.held, p.Data)
	r.want = append(r.want, t.s[t.at].data)
	t.at++
	return r.left() > 0 || r.unchanged()
}

func (r *mp4Reader) where() (s string) {
	for _, t := range r.all {
		s += " " + t.kind + ":" + string(rune('0'+t.at/10%10)) + string(rune('0'+t.at%10))
		if t.at < len(t.s) {
			s += "@" + t.time(t.at).String()
		}
	}
	return
}

func (r *mp4Reader) streams(l []interface{}) bool {
	if len(l) != len(r.all) {
		fail("C13", "streams", "%d streams, the file has %d tracks of known codecs", len(l), len(r.all))
		return false
	}
	for i, t := range r.all {
		switch c := l[i].(type) {
		case *h264.Codec:
			if t.kind == "avc1" && bytes.Equal(c.ConfigBytes, t.conf) && c.W == t.v.w && c.H == t.v.h {
				continue
			}
			fail("C13", "streams", "stream %d is h264 %dx%d %x, want %s %dx%d %x", i, c.W, c.H, c.ConfigBytes, t.kind, t.v.w, t.v.h, t.conf)
		case *aac.Codec:
			if t.kind == "mp4a" && bytes.Equal(c.ConfigBytes, t.conf) && c.Config.SampleRate == t.a.rate && c.Config.ChannelLayout.Count() == t.a.ch {
				continue
			}
			fail("C13", "streams", "stream %d is aac %d Hz %d channels %x, want %s %d Hz %d channels %x", i, c.Config.SampleRate, c.Config.ChannelLayout.Count(), c.ConfigBytes, t.kind, t.a.rate, t.a.ch, t.conf)
		default:
			fail("C13", "streams", "stream %d is %T", i, l[i])
		}
		return false
	}
	return true
}

func mp4Read() {
	m := genMP4Build(false)
	b := m.bytes()
	vsim.S.FS.Put("/data/a.mp4", b)
	vsim.S.FS.ShortRead = vsim.Pick(vsim.StNet, 0, 1, 7, 100, 5000)
	r := newMP4Reader(m)
	kind := vsim.Pick(vsim.StFault, "none", "none", "eio", "seek", "eio_once", "seek_once")
	at, n, bad := vsim.Draw(vsim.StFault, 40+3*r.left()), 0, 0
	vsim.S.FS.Fault = func(op, name string, off int64, k int) (int, error) {
		if op != "read" && op != "seek" {
			return k, nil
		}
		n++
		if n <= at || kind == "none" || (op == "read") != (kind == "eio" || kind == "eio_once") || bad > 0 && (kind == "eio_once" || kind == "seek_once") {
			return k, nil
		}
		bad++
		return 0, syscall.EIO
	}
	_, ok := runProc("reader", time.Hour, func() {
		f, err := vsim.OpenFile("/data/a.mp4", os.O_RDONLY, 0)
		if err != nil {
			return
		}
		defer f.Close()
		d := mp4.NewDemuxer(f)
		askFirst := vsim.Bool(vsim.StWork, 1, 2)
		fails := 0
		for tries := 0; askFirst; tries++ {
			was := bad
			l, err := d.Streams()
			if err == nil {
				if !r.streams(l) {
					return
				}
				break
			}
			vsim.Log("streams: %v", err)
			if bad == was && bad == 0 {
				fail("C13", "error", "a valid file is refused: %v", err)
				return
			}
			if tries > 2 {
				vsim.Probe("gave_up")
				return
			}
		}
		for {
			was := bad
			p, err := d.ReadPacket()
			if err == nil {
				if bad > was {
					fail("C13", "error_hidden", "a failed read of the file gave a packet")
					return
				}
				vsim.Log("got %s", pktDesc(p))
				if !r.take(p) {
					return
				}
				continue
			}
			vsim.Log("error: %v", err)
			if err == io.EOF {
				if bad > was {
					fail("C13", "error_as_end", "a failed read of the file is reported as its end")
				} else if r.left() > 0 {
					fail("C13", "lost", "end of the file with %d packets left (%s)", r.left(), r.where())
				} else if _, err := d.ReadPacket(); err != io.EOF && kind == "none" {
					fail("C13", "end", "reading past the end: %v", err)
				} else {
					vsim.Probe("read_to_end")
				}
				return
			}
			if bad == was {
				fail("C13", "error", "a valid file on a healthy disk: %v (%s)", err, r.where())
				return
			}
			if fails++; fails > 3 {
				vsim.Probe("gave_up")
				return
			}
			vsim.Probe("read_error_reported")
		}
	})
	if !ok && !vsim.Failed() {
		fail("C13", "stuck", "reading does not end")
	}
}

func mp4Seek() {
	m := genMP4Build(true)
	vsim.S.FS.Put("/data/a.mp4", m.bytes())
	vsim.S.FS.ShortRead = vsim.Pick(vsim.StNet, 0, 7, 1000)
	r := newMP4Reader(m)
	var video *bTrack
	for _, t := range r.all {
		if t.kind == "avc1" && len(t.s) > 0 && video == nil {
			video = t
		}
	}
	_, ok := runProc("reader", time.Hour, func() {
		f, err := vsim.OpenFile("/data/a.mp4", os.O_RDONLY, 0)
		if err != nil {
			return
		}
		defer f.Close()
		d := mp4.NewDemuxer(f)
		var times []time.Duration
		for k := vsim.Range(vsim.StWork, 1, 6); k > 0; k-- {
			for n := vsim.Draw(vsim.StWork, 30); n > 0; n-- {
				p, err := d.ReadPacket()
				if err == io.EOF {
					if r.left() > 0 {
						fail("C13", "lost", "end of the file with %d packets left (%s)", r.left(), r.where())
						return
					}
					break
				}
				if err != nil {
					fail("C13", "error", "a valid file on a healthy disk: %v (%s)", err, r.where())
					return
				}
				vsim.Log("got %s", pktDesc(p))
				if !r.take(p) {
					return
				}
				times = append(times, p.Time)
			}
			var tm time.Duration
			t := r.all[vsim.Draw(vsim.StWork, len(r.all))]
			switch vsim.Weighted(vsim.StWork, 4, 4, 1, 1, 2) {
			case 0:
				if len(t.s) > 0 {
					tm = t.time(vsim.Draw(vsim.StWork, len(t.s)))
				}
			case 1:
				if len(t.s) > 0 {
					i := vsim.Draw(vsim.StWork, len(t.s))
					tm = t.time(i) + ticks(int64(t.s[i].dur), int64(t.scale))/time.Duration(vsim.Range(vsim.StWork, 2, 5))
				}
			case 2:
				tm = -time.Duration(vsim.Range(vsim.StWork, 0, 5)) * time.Second
			case 3:
				tm = 400 * time.Hour
			case 4:
				if len(times) > 0 {
					tm = times[vsim.Draw(vsim.StWork, len(times))]
				}
			}
			vsim.Log("seek to %v", tm)
			if err := d.SeekToTime(tm); err != nil {
				fail("C13", "seek_error", "seeking to %v in a valid file: %v", tm, err)
				return
			}
			to := tm
			if video != nil {
				i := video.lastAt(tm)
				for i > 0 && !video.s[i].key {
					i--
				}
				video.at = i
				to = video.time(i)
			}
			for _, t := range r.all {
				if t != video && len(t.s) > 0 {
					t.at = t.lastAt(to)
				}
			}
			vsim.Log("expect%s", r.where())
			vsim.Probe("seek")
		}
		for {
			p, err := d.ReadPacket()
			if err == io.EOF {
				if r.left() > 0 {
					fail("C13", "lost", "end of the file with %d packets left (%s)", r.left(), r.where())
				}
				return
			}
			if err != nil {
				fail("C13", "error", "a valid file on a healthy disk: %v (%s)", err, r.where())
				return
			}
			vsim.Log("got %s", pktDesc(p))
			if !r.take(p) {
				return
			}
		}
	})
	if !ok && !vsim.Failed() {
		fail("C13", "stuck", "seeking does not end")
	}
}

func mp4Trunc() {
	m := genMP4Build(false)
	b := m.bytes()
	cut := vsim.Draw(vsim.StFault, len(b))
	if m.front && vsim.Bool(vsim.StFault, 2, 3) && len(b) > m.moov[1] {
		cut = m.moov[1] + vsim.Draw(vsim.StFault, len(b)-m.moov[1])
	}
	vsim.Fault("file_truncated")
	vsim.LimitAlloc(16 << 20)
	vsim.S.FS.Put("/data/a.mp4", b[:cut])
	vsim.S.FS.ShortRead = vsim.Pick(vsim.StNet, 0, 1, 7, 100, 5000)
	r := newMP4Reader(m)
	rx := &mp4Rx{}
	_, ok := runProc("reader", time.Hour, readMP4("/data/a.mp4", rx, 1000))
	if vsim.Failed() {
		return
	}
	if !ok {
		fail("C13", "stuck", "reading a truncated file does not end")
		return
	}
	if cut < m.moov[1] {
		if rx.sErr == nil {
			// a movie box without its last bytes may only lack what nobody needs
			fail("C13", "truncation_hidden", "the movie box ends at %d, the file was cut at %d and is opened as if valid", m.moov[1], cut)
		}
		vsim.Probe("truncated_moov")
		return
	}
	if rx.sErr != nil && mheaderCut(b, cut) {
		vsim.Probe("truncated_header")
		return
	}
	if rx.sErr != nil {
		fail("C13", "error", "all tables are there, reading fails before any packet: %v", rx.sErr)
		return
	}
	for _, p := range rx.pkts {
		if !r.take(p) {
			return
		}
	}
	if rx.err == io.EOF && r.left() > 0 {
		fail("C13", "truncation_as_end", "a truncated file ends like a whole one with %d packets left", r.left())
		return
	}
	if r.left() > 0 {
		// the packet that could not be read has to be one that is cut off
		next, lack := (*bTrack)(nil), false
		for _, t := range r.all {
			if t.at < len(t.s) && (next == nil || t.time(t.at) <= next.time(next.at)) {
				next = t
			}
		}
		for _, t := range r.all {
			if t.at < len(t.s) && near(t.time(t.at), next.time(next.at), 2*time.Microsecond) {
				lack = lack || t.s[t.at].off+int64(len(t.s[t.at].data)) > int64(cut)
			}
		}
		if !lack {
			fail("C13", "lost", "the next packet is in the file, reading stops with %v", rx.err)
			return
		}
		vsim.Probe("truncated_data")
	}
}

func mp4Hostile() {
	m := genMP4Build(false)
	kind := vsim.Weighted(vsim.StFault, 5, 5, 2, 1, 2, 3)
	if kind == 5 { // decoder configurations that are cut, nested or garbage
		for _, t := range m.tracks {
			if t.kind == "mp4a" {
				t.desc = mp4BadDesc(4)
			} else if vsim.Bool(vsim.StFault, 1, 2) {
				t.conf = append([]byte(nil), t.conf[:vsim.Draw(vsim.StFault, len(t.conf)+1)]...)
			}
			for k := vsim.Draw(vsim.StFault, 4); k > 0 && t.kind == "avc1" && len(t.conf) > 0; k-- {
				t.conf = append([]byte(nil), t.conf...)
				t.conf[vsim.Draw(vsim.StFault, len(t.conf))] = byte(vsim.Draw(vsim.StFault, 256))
			}
		}
	}
	b := m.bytes()
	vsim.LimitAlloc(24 << 20)
	vsim.Fault("file_corrupted")
	a, e := m.moov[0], m.moov[1]
	switch kind {
	case 0: // a 32 bit field of the movie box
		for k := vsim.Range(vsim.StFault, 1, 3); k > 0; k-- {
			i := a + vsim.Draw(vsim.StFault, e-a-4)
			if vsim.Bool(vsim.StFault, 2, 3) {
				i = mp4Field(b, a, e)
			}
			if i+4 > len(b) {
				continue
			}
			v := vsim.Pick(vsim.StFault, 0, 1, 7, 8, 9, 0xff, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffff8, 0x10000000, 1000)
			if vsim.Bool(vsim.StFault, 1, 3) {
				v = int(binary.BigEndian.Uint32(b[i:])) + vsim.Range(vsim.StFault, 0, 32) - 16
			}
			binary.BigEndian.PutUint32(b[i:], uint32(v))
		}
	case 1: // bytes
		for k := vsim.Range(vsim.StFault, 1, 8); k > 0; k-- {
			b[a+vsim.Draw(vsim.StFault, e-a)] ^= byte(vsim.Range(vsim.StFault, 1, 255))
		}
	case 2: // anywhere
		for k := vsim.Range(vsim.StFault, 1, 8); k > 0; k-- {
			b[vsim.Draw(vsim.StFault, len(b))] = byte(vsim.Draw(vsim.StFault, 256))
		}
	case 3: // garbage
		b = payload(vsim.Draw(vsim.StFault, 1000), vsim.Draw(vsim.StFault, 300))
		if len(b) > 8 {
			copy(b[4:], vsim.Pick(vsim.StFault, "moov", "mdat", "moof", "free"))
			if vsim.Bool(vsim.StFault, 1, 2) {
				copy(b, words(vsim.Pick[uint32](vsim.StFault, 0, 1, 8, 0xffffffff, 0x7fffffff, uint32(len(b)))))
			}
		}
	case 4: // a table is missing, or one of the boxes is another one's
		names := []string{"stts", "stsc", "stsz", "stco", "mdhd", "stbl", "minf", "mdia", "stsd", "avcC", "esds", "ctts", "stss", "tkhd", "trun", "traf"}
		i := bytes.Index(b, []byte(names[vsim.Draw(vsim.StFault, 13)]))
		if i > 0 {
			copy(b[i:], names[vsim.Draw(vsim.StFault, len(names))])
			if vsim.Bool(vsim.StFault, 1, 2) {
				copy(b[i:], "free")
			}
		}
	}
	if vsim.Bool(vsim.StFault, 1, 8) {
		b = append(b, mp4Moof()...)
	}
	vsim.S.FS.Put("/data/a.mp4", b)
	vsim.S.FS.ShortRead = vsim.Pick(vsim.StNet, 0, 7, 1000)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	got := 0
	_, ok := runProc("reader", time.Hour, func() {
		f, err := vsim.OpenFile("/data/a.mp4", os.O_RDONLY, 0)
		if err != nil {
			return
		}
		defer f.Close()
		d := mp4.NewDemuxer(f)
		errs := 0
		for k := 0; k < 400; k++ {
			if vsim.Bool(vsim.StWork, 1, 20) {
				d.SeekToTime(time.Duration(vsim.Range(vsim.StWork, 0, 100)-5) * time.Second)
			}
			if vsim.Bool(vsim.StWork, 1, 30) {
				d.CurrentTime()
			}
			p, err := d.ReadPacket()
			if err != nil {
				if errs++; errs > 3 || err == io.EOF {
					return
				}
				continue
			}
			got += len(p.Data)
		}
	})
	runtime.ReadMemStats(&m1)
	if vsim.Failed() {
		return
	}
	if !ok {
		fail("C13", "stuck", "reading a malformed file does not end")
		return
	}
	if d := m1.TotalAlloc - m0.TotalAlloc; d > 200<<20+uint64(4*got) {
		fail("C13", "alloc", "reading a malformed file of %d bytes allocated %d MB for %d bytes of packets", len(b), d>>20, got)
		return
	}
	vsim.Probe("hostile_survived")
}

// mp4BadDesc is a chain of descriptors whose lengths and contents need not agree.
func mp4BadDesc(depth int) (b []byte) {
	for k := vsim.Range(vsim.StFault, 1, 2); k > 0; k-- {
		tag := vsim.Pick[byte](vsim.StFault, 3, 4, 5, 6, 0)
		head := map[byte]int{3: 3, 4: 13}[tag]
		if vsim.Bool(vsim.StFault, 1, 3) {
			head = vsim.Draw(vsim.StFault, head+1)
		}
		body := payload(int(tag), head)
		if depth > 0 && (tag == 3 || tag == 4) {
			body = append(body, mp4BadDesc(depth-1)...)
		} else {
			body = append(body, payload(9, vsim.Draw(vsim.StFault, 12))...)
		}
		d := mdescB(tag, vsim.Range(vsim.StFault, 1, 4), body)
		if vsim.Bool(vsim.StFault, 1, 4) {
			d[1] = byte(vsim.Draw(vsim.StFault, 256))
		}
		if vsim.Bool(vsim.StFault, 1, 3) {
			d = d[:vsim.Draw(vsim.StFault, len(d)+1)]
		}
		b = append(b, d...)
	}
	return
}

// mp4Field is the position of the size of a box, or of the entry count, flags or
// a word of a table.
func mp4Field(b []byte, a, e int) int {
	names := []string{"stts", "stsc", "stsz", "stco", "ctts", "stss", "mdhd", "stsd", "mdia", "minf", "stbl", "trak", "avc1", "mp4a", "avcC", "esds", "dref", "dinf", "moov"}
	nm := names[vsim.Draw(vsim.StFault, len(names))]
	var at []int
	for i := a; i+4 <= e; i++ {
		if string(b[i:i+4]) == nm {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return a
	}
	i := at[vsim.Draw(vsim.StFault, len(at))]
	switch vsim.Draw(vsim.StFault, 4) {
	case 0:
		return i - 4
	case 1:
		return i + 8
	}
	return i + 4 + 4*vsim.Draw(vsim.StFault, 8)
}

// mp4Moof is a movie fragment with drawn flags.
func mp4Moof() []byte {
	fl := uint32(vsim.Draw(vsim.StFault, 0x1000))
	n := vsim.Pick[uint32](vsim.StFault, 0, 1, 5, 1000, 0xffffffff, 0x7fffffff)
	trun := mfull("trun", 0, fl, be32(n), payload(3, vsim.Draw(vsim.StFault, 60)))
	tfhd := mfull("tfhd", 0, uint32(vsim.Draw(vsim.StFault, 0x40)), payload(4, vsim.Draw(vsim.StFault, 30)))
	tfdt := mfull("tfdt", byte(vsim.Draw(vsim.StFault, 2)), 0, payload(5, vsim.Draw(vsim.StFault, 12)))
	return mb("moof", mfull("mfhd", 0, 0, payload(6, vsim.Draw(vsim.StFault, 8))), mb("traf", tfhd, tfdt, trun))
}
