package scen

import (
	"encoding/binary"
	"fmt"
	"syscall"
	"time"

	"github.com/nareix/joy5/av"

	"vsim/vsim"
)

func init() {
	reg(&Prop{ID: "C27", Title: "FLV rewriting tools", Real: []string{"cmd/avtool avcc2annexb, moveh264seqhdrtokeyframe", "format/flv, format/flv/flvio (tags, AMF)", "codec/h264", "utils/bits/pio"}, Stub: diskStub,
		Rule:  "Scenario: one avtool process rewrites an FLV file built by an independent writer; either disk operation may fail, the source may be cut off and the process may crash at a drawn byte.",
		Scens: []Scenario{{"rewrite", 1, flvTools}}})
}

// splitNALUs is the model's view of a length-prefixed or start-code payload.
func splitNALUs(b []byte) (l [][]byte) {
	if len(b) > 4 && b[0] == 0 && b[1] == 0 && b[2] == 0 && b[3] == 1 && int(binary.BigEndian.Uint32(b))+4 != len(b) {
		for i := 4; i < len(b); {
			k := i
			for k < len(b) && !(k+4 <= len(b) && b[k] == 0 && b[k+1] == 0 && b[k+2] == 0 && b[k+3] == 1) {
				k++
			}
			l = append(l, b[i:k])
			i = k + 4
		}
		return
	}
	for len(b) >= 4 {
		n := int(binary.BigEndian.Uint32(b))
		l = append(l, b[4:4+n])
		b = b[4+n:]
	}
	return
}

func annexB(l [][]byte) (b []byte) {
	for _, n := range l {
		b = append(append(b, 0, 0, 1), n...)
	}
	return
}

// confSets returns the parameter sets of a decoder configuration.
func confSets(b []byte) (l [][]byte) {
	n := int(b[5] & 31)
	b = b[6:]
	for k := 0; k < 2; k++ {
		for ; n > 0; n-- {
			z := int(binary.BigEndian.Uint16(b))
			l = append(l, b[2:2+z])
			b = b[2+z:]
		}
		if k == 0 {
			n = int(b[0])
			b = b[1:]
		}
	}
	return
}

// rewritten is what the tool has to make of the packets.
func rewritten(tool string, in []av.Packet) (out []av.Packet, from []int) {
	var sets [][]byte
	for i, p := range in {
		switch p.Type {
		case av.H264DecoderConfig:
			if tool != "avcc2annexb" {
				sets = confSets(p.Data)
				continue
			}
		case av.H264:
			l := splitNALUs(p.Data)
			if tool == "avcc2annexb" {
				b := annexB(l)
				p.Data = append(be32(uint32(len(b))), b...)
			} else if p.IsKeyFrame {
				p.Data = annexB(append(append([][]byte{}, sets...), l...))
			} else {
				p.Data = annexB(l)
			}
		}
		out = append(out, p)
		from = append(from, i)
	}
	return
}

func flvTools() {
	tool := vsim.Pick(vsim.StWork, "avcc2annexb", "moveh264seqhdrtokeyframe")
	mc := genMediaCfg()
	mc.avcc = true
	mc.maxSize = min(mc.maxSize, 70000)
	media := genMedia(mc)
	if vsim.Bool(vsim.StWork, 1, 15) {
		media = nil
	}
	for i := range media {
		p := &media[i]
		if p.Type == av.H264DecoderConfig && vsim.Bool(vsim.StWork, 1, 3) {
			// several parameter sets
			p.Data = avccSets([][]byte{spsA, spsB}[vsim.Draw(vsim.StWork, 2)], ppsA, ppsC)
		}
		if p.Type == av.H264 && vsim.Bool(vsim.StWork, 1, 10) {
			var b []byte
			for _, n := range splitNALUs(p.Data) {
				b = append(append(b, 0, 0, 0, 1), n...)
			}
			p.Data = b
		}
	}
	want, from := rewritten(tool, media)
	b, ends := flvBytes(media, true)
	fs := vsim.S.FS
	fs.ShortRead = vsim.Pick(vsim.StNet, 0, 0, 1, 7, 5000)
	if mc.maxSize > 6000 && fs.ShortRead == 1 {
		fs.ShortRead = 100
	}
	const src, dst = "/in/a.flv", "/out/b.flv"
	out := byteLog{}
	kind := vsim.Pick(vsim.StFault, "none", "none", "src_open", "src_read", "src_cut", "dst_create", "dst_write", "dst_write", "dst_once", "dst_full", "dst_close", "crash")
	n := len(media) // packets of the source before the fault
	bad, either := kind != "none", false
	size := len(b) + 13
	for _, p := range want {
		size += len(p.Data) / 8
	}
	at := int64(vsim.Draw(vsim.StFault, size))
	torn := vsim.Bool(vsim.StFault, 2, 3)
	switch kind {
	case "src_read", "src_cut":
		at = int64(vsim.Draw(vsim.StFault, len(b)))
		n = 0
		for n < len(ends) && ends[n] <= int(at) {
			n++
		}
		if kind == "src_cut" {
			vsim.Fault("file_truncated")
			b = b[:at]
			// only a cut inside a packet is known to be one
			own := int64(1 << 40)
			if n < len(ends) {
				own = int64(ends[n] - 15 - len(pktToMsg(media[n], false).data))
			}
			either = !(at > own && at < int64(ends[n]-4))
		}
	}
	if kind != "src_open" {
		fs.Put(src, b)
	} else {
		vsim.Fault("source_open_error")
	}
	written, fired := int64(0), false
	fs.Fault = func(op, name string, off int64, k int) (int, error) {
		if name == src {
			if op == "read" && kind == "src_read" && off+int64(k) > at {
				fired = true
				return int(max(0, at-off)), syscall.EIO
			}
			return k, nil
		}
		if name != dst {
			return k, nil
		}
		switch op {
		case "create", "close":
			if kind == "dst_"+op {
				fired = true
				return 0, vsim.Pick[error](vsim.StFault, syscall.EIO, syscall.ENOSPC)
			}
		case "write":
			hit := kind == "crash" || kind == "dst_write" || kind == "dst_full" || kind == "dst_once" && !fired
			if !hit || !fired && written+int64(k) <= at {
				written += int64(k)
				return k, nil
			}
			z := 0
			if torn && !fired {
				z = int(at - written)
			}
			fired = true
			written += int64(z)
			switch kind {
			case "crash":
				return z, vsim.ErrCrash
			case "dst_full":
				vsim.Fault("disk_full")
				return z, syscall.ENOSPC
			}
			return z, syscall.EIO
		}
		return k, nil
	}
	p := vsim.NewProc("tool")
	vsim.Log("%s, %d packets, %s at %d", tool, len(media), kind, at)
	startAvtool(p, tool, src, dst)
	done := vsim.WaitUntil(10*time.Millisecond, time.Hour, func() bool { return p.Exited || p.Dead || vsim.Failed() })
	if vsim.Failed() {
		return
	}
	if !done {
		fail("C27", "stuck", "%s has not ended: %v", tool, p.Blocked())
		return
	}
	switch kind {
	case "src_read", "dst_write", "dst_once", "dst_full", "crash":
		// the place may lie beyond what was needed
		bad = fired
	}
	for _, f := range fs.Created {
		if f != dst && f != src {
			fail("C27", "other_file", "%s writes %s", tool, f)
			return
		}
	}
	crashed := kind == "crash" && fired
	if !crashed && !either {
		if bad && p.Code == 0 {
			fail("C27", "error_hidden", "%s at %d: %s exits with 0", kind, at, tool)
			return
		}
		if !bad && p.Code != 0 {
			fail("C27", "exit", "%s (%s): %s exits with %d", kind, fmt.Sprint(len(media), " packets"), tool, p.Code)
			return
		}
	}
	out.b, _ = fs.Get(dst)
	pkts, whole := out.flvOut()
	got := []av.Packet{}
	for _, o := range pkts {
		got = append(got, o.p)
	}
	// what the source gave before the fault
	need := 0
	for need < len(want) && from[need] < n {
		need++
	}
	if !checkPrefix("C27", tool, want, got) {
		return
	}
	if len(got) > need {
		fail("C27", "extra", "%s at %d: the source gives %d packets, %d are written", kind, at, need, len(got))
		return
	}
	switch kind {
	case "none", "src_read", "src_cut", "dst_close":
		if len(got) != need || (!whole && len(b) >= 13 && need > 0) {
			fail("C27", "lost", "%s at %d: %d packets should be written, there are %d (whole %v)", kind, at, need, len(got), whole)
			return
		}
	}
	if p.Code == 0 && !crashed && !either && (len(got) != len(want) || !whole) {
		fail("C27", "lost", "%s exits with 0, %d of %d packets are written (whole %v)", tool, len(got), len(want), whole)
		return
	}
	if bad {
		vsim.Probe("checked_after_" + kind)
	} else {
		vsim.Probe("rewritten_" + tool)
	}
}

// ppsC has identifier 1.
var ppsC = []byte{0x68, 0x5b, 0x83, 0xcb, 0x20}

func avccSets(sps []byte, pps ...[]byte) []byte {
	b := []byte{1, sps[1], sps[2], sps[3], 0xff, 0xe1}
	b = append(append(b, be16(uint16(len(sps)))...), sps...)
	b = append(b, byte(len(pps)))
	for _, p := range pps {
		b = append(append(b, be16(uint16(len(p)))...), p...)
	}
	return b
}
