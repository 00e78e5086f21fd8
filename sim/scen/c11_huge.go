package scen

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format"
	"github.com/nareix/joy5/format/mp4"

	"vsim/vsim"
)

// mp4Huge records about as much as offsets of 32 bits reach. The middle of the
// file is not kept by the simulated disk.
func mp4Huge() {
	const hole = 1 << 20
	big := vsim.Pick(vsim.StWork, 16<<20, 64<<20, 250<<20)
	total := int64(1)<<32 - int64(vsim.Pick(vsim.StWork, 1, 2, 3, 4))*hole
	n := int(total / int64(big))
	vsim.S.FS.HoleAt, vsim.S.FS.HoleLen = hole, total-2*hole
	zeros := make([]byte, big)
	fill := total - int64(n)*int64(big) // what is left up to the limit
	var ops []av.Packet
	add := func(size int, data []byte) {
		if data == nil {
			data = payload(len(ops), size)
		}
		ops = append(ops, av.Packet{Type: av.H264, IsKeyFrame: true, Time: time.Duration(len(ops)) * 40 * time.Millisecond, Data: data})
	}
	for i := vsim.Draw(vsim.StWork, 5); i >= 0; i-- {
		add(genSize(20000), nil)
	}
	for i := 0; i < n; i++ {
		add(0, zeros)
	}
	for left := fill; left > 0; left -= 8 * hole {
		add(0, zeros[:min(left, 8*hole)])
	}
	for i := vsim.Draw(vsim.StWork, 40); i >= 0; i-- {
		add(genSize(200000), nil)
	}
	plan := genMP4Plan(false)
	plan.only, plan.late = av.H264, 0
	sut := vsim.NewProc("app")
	var want []av.Packet
	var closeErr error
	done, refused := false, 0
	sut.Go("main", func() {
		defer func() { done = true }()
		w, err := (&format.URLOpener{}).Create("/f.mp4", plan)
		if err != nil {
			closeErr = err
			return
		}
		for _, p := range ops {
			if err := w.WritePacket(p); err != nil {
				vsim.Log("refused %d bytes at %v: %v", len(p.Data), p.Time, err)
				refused++
				continue
			}
			want = append(want, p)
		}
		closeErr = w.Close()
	})
	if !vsim.WaitUntil(time.Second, 100*time.Second, func() bool { return done || sut.Dead }) || !done {
		return
	}
	if closeErr != nil {
		fail("C11", "close", "%d packets were recorded, %d refused: Close returns %v", len(want), refused, closeErr)
		return
	}
	sum := int64(0)
	for _, p := range want {
		sum += int64(len(p.Data))
	}
	if refused > 0 {
		vsim.Probe("file_full")
		// only what would not fit may be refused
		if sum+int64(len(ops[len(ops)-1].Data)) < total-64*hole {
			fail("C11", "refused", "%d packets are refused, only %d bytes were recorded", refused, sum)
			return
		}
	}
	f, at, err := hugeParse("/f.mp4")
	if err == nil && f.odd != "" {
		err = errors.New(f.odd)
	}
	if err == nil && len(f.tracks) != 1 {
		err = fmt.Errorf("%d tracks", len(f.tracks))
	}
	if err != nil {
		fail("C11", "malformed", "%d bytes were recorded and the file is not a valid MP4: %v", sum, err)
		return
	}
	t := f.tracks[0]
	if len(t.samples) != len(want) {
		fail("C11", "lost", "%d packets were accepted, the file has %d samples", len(want), len(t.samples))
		return
	}
	for i, s := range t.samples {
		if s.size != len(want[i].Data) || s.off < f.mdat[0][0] || s.off+int64(s.size) > f.mdat[0][1] {
			fail("C11", "malformed", "sample %d at %d+%d, the packet has %d bytes, the media data is at %v", i, s.off, s.size, len(want[i].Data), f.mdat)
			return
		}
		if b := at(s.off, s.size); b != nil && !bytes.Equal(b, want[i].Data) {
			fail("C11", "payload", "sample %d at %d+%d is not what was written", i, s.off, s.size)
			return
		}
	}
	vsim.Probe("huge_file_checked")
	// the demuxer finds the end of it
	last := len(want) - 1 - vsim.Draw(vsim.StWork, 3)
	if last < 0 || len(want[last].Data) > 1<<21 {
		return
	}
	done = false
	rd := vsim.NewProc("reader")
	rd.Go("main", func() {
		defer func() { done = true }()
		f, err := vsim.OpenFile("/f.mp4", os.O_RDONLY, 0)
		if err != nil {
			return
		}
		defer f.Close()
		d := mp4.NewDemuxer(f)
		if _, err := d.Streams(); err != nil {
			fail("C11", "read_end", "the file of %d bytes cannot be read: %v", sum, err)
			return
		}
		if err := d.SeekToTime(want[last].Time); err != nil {
			fail("C11", "read_end", "seeking to %v in a file of %d bytes: %v", want[last].Time, sum, err)
			return
		}
		for i := last; ; i++ {
			p, err := d.ReadPacket()
			if i == len(want) {
				if err != io.EOF {
					fail("C11", "read_end", "reading ends with %v", err)
				}
				return
			}
			if err != nil || !bytes.Equal(p.Data, want[i].Data) {
				fail("C11", "read_payload", "packet %d of a file of %d bytes is not read back: %s %v", i, sum, pktDesc(p), err)
				return
			}
		}
	})
	vsim.WaitUntil(time.Second, 1000*time.Second, func() bool { return done || rd.Dead })
}

// hugeParse parses a file with a hole; at gives the bytes of it that lie
// outside.
func hugeParse(name string) (f *mp4File, at func(int64, int) []byte, err error) {
	ino := vsim.S.FS.Files[name]
	at = func(off int64, n int) []byte {
		p, m, hole := ino.Phys(off, n)
		if hole || m < n || p+int64(n) > int64(len(ino.Data)) {
			return nil
		}
		return ino.Data[p:][:n]
	}
	f = &mp4File{}
	var top []mbox
	for off := int64(0); off < ino.Size(); {
		h := at(off, 8)
		if h == nil {
			return f, at, fmt.Errorf("a box is said to be at %d", off)
		}
		n, hl := int64(binary.BigEndian.Uint32(h)), int64(8)
		if n == 1 {
			if h = at(off, 16); h == nil {
				return f, at, fmt.Errorf("cut box")
			}
			n, hl = int64(binary.BigEndian.Uint64(h[8:])), 16
		}
		if n < hl || n > ino.Size()-off {
			return f, at, fmt.Errorf("box %q has size %d at %d of %d", h[4:8], n, off, ino.Size())
		}
		if typ := string(h[4:8]); typ == "mdat" {
			f.mdat = append(f.mdat, [2]int64{off + hl, off + n})
		} else if b := at(off+hl, int(n-hl)); b != nil {
			top = append(top, mbox{typ, b, off + hl})
		}
		off += n
	}
	if len(f.mdat) != 1 {
		return f, at, fmt.Errorf("%d media data boxes", len(f.mdat))
	}
	return f, at, f.movie(top)
}
