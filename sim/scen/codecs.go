package scen

import (
	"vsim/vsim"
)

// Independent writers of codec configurations.

type bitw struct {
	b []byte
	n uint
}

func (w *bitw) u(v uint64, n int) {
	for n--; n >= 0; n-- {
		if w.n%8 == 0 {
			w.b = append(w.b, 0)
		}
		w.b[len(w.b)-1] |= byte(v>>uint(n)&1) << (7 - w.n%8)
		w.n++
	}
}

func (w *bitw) flag(b bool) bool {
	if b {
		w.u(1, 1)
	} else {
		w.u(0, 1)
	}
	return b
}

func (w *bitw) ue(v int) {
	n := 0
	for (v+1)>>uint(n+1) != 0 {
		n++
	}
	w.u(0, n)
	w.u(uint64(v+1), n+1)
}

func (w *bitw) se(v int) {
	if v > 0 {
		w.ue(2*v - 1)
	} else {
		w.ue(-2 * v)
	}
}

// nal ends the payload and prefixes the header, with emulation prevention.
func (w *bitw) nal(hdr byte) []byte {
	w.u(1, 1)
	out := []byte{hdr}
	z := 0
	for _, x := range w.b {
		if z >= 2 && x <= 3 {
			out = append(out, 3)
			z = 0
		}
		out = append(out, x)
		if x == 0 {
			z++
		} else {
			z = 0
		}
	}
	return out
}

type videoConf struct {
	sps, pps []byte
	w, h     int
	avcc     []byte
}

// genVideoConf draws a parameter set pair and what it means.
func genVideoConf() videoConf {
	switch vsim.Weighted(vsim.StWork, 2, 1, 5) {
	case 0:
		return videoConf{spsA, ppsA, 1920, 1080, avcc(spsA, ppsA)}
	case 1:
		return videoConf{spsB, ppsB, 1280, 720, avcc(spsB, ppsB)}
	}
	d := func(n int) int { return vsim.Draw(vsim.StWork, n) }
	p := func(num, den int) bool { return vsim.Bool(vsim.StWork, num, den) }
	v := videoConf{}
	profile := vsim.Pick(vsim.StWork, 66, 77, 88, 100, 110, 122, 244, 44)
	w := &bitw{}
	w.u(uint64(profile), 8)
	w.u(uint64(d(64))<<2, 8)
	w.u(uint64(vsim.Pick(vsim.StWork, 9, 10, 30, 31, 40, 42, 51)), 8)
	spsID := vsim.Pick(vsim.StWork, 0, 0, 0, 1, 31)
	w.ue(spsID)
	chroma, planes, depth := 1, false, 0
	high := profile >= 100 || profile == 44
	if high {
		chroma = vsim.Pick(vsim.StWork, 1, 1, 1, 0, 2, 3)
		w.ue(chroma)
		if chroma == 3 {
			planes = w.flag(p(1, 3))
		}
		depth = d(7)
		w.ue(depth)
		w.ue(depth)
		w.flag(p(1, 4))
		if w.flag(p(1, 3)) {
			lists := 8
			if chroma == 3 {
				lists = 12
			}
			for i := 0; i < lists; i++ {
				if !w.flag(p(1, 2)) {
					continue
				}
				size := 16
				if i >= 6 {
					size = 64
				}
				last := 8
				for j := 0; j < size; j++ {
					next := (last + d(256) - 128 + 256) % 256
					delta := next - last
					if delta > 127 {
						delta -= 256
					} else if delta < -128 {
						delta += 256
					}
					w.se(delta)
					if next == 0 {
						break
					}
					last = next
				}
			}
		}
	}
	w.ue(d(13))
	switch poc := d(3); poc {
	case 0:
		w.ue(0)
		w.ue(d(13))
	case 1:
		w.ue(1)
		w.flag(p(1, 2))
		w.se(d(1<<16) - 1<<15)
		w.se(d(1<<16) - 1<<15)
		n := vsim.Pick(vsim.StWork, 0, 1, 5, 255)
		w.ue(n)
		for ; n > 0; n-- {
			w.se(d(2001) - 1000)
		}
	case 2:
		w.ue(2)
	}
	w.ue(d(17))
	w.flag(p(1, 4))
	mbw := vsim.Pick(vsim.StWork, 1, 20, 40, 80, 120, 240, 11)
	mbh := vsim.Pick(vsim.StWork, 1, 15, 30, 45, 68, 135, 9)
	interlaced := p(1, 3)
	f := 1
	if interlaced {
		f = 2
		mbh = (mbh + 1) / 2
	}
	w.ue(mbw - 1)
	w.ue(mbh - 1)
	w.flag(!interlaced)
	if interlaced {
		w.flag(p(1, 2))
	}
	w.flag(interlaced || p(1, 2))
	v.w, v.h = mbw*16, mbh*16*f
	ux, uy := 1, f
	if chroma == 1 || chroma == 2 {
		ux = 2
	}
	if chroma == 1 {
		uy = 2 * f
	}
	_ = planes // crop units of separate planes are those of monochrome
	if w.flag(p(1, 2)) {
		l, r := d(3), d(15/ux-2)
		t, b := d(2), d(15/uy-1)
		for _, x := range []int{l, r, t, b} {
			w.ue(x)
		}
		v.w -= ux * (l + r)
		v.h -= uy * (t + b)
	}
	hrd := func() {
		n := d(3)
		w.ue(n)
		w.u(uint64(d(256)), 8)
		for ; n >= 0; n-- {
			w.ue(d(100000))
			w.ue(d(100000))
			w.flag(p(1, 2))
		}
		w.u(uint64(d(1<<20)), 20)
	}
	if w.flag(p(2, 3)) {
		if w.flag(p(1, 2)) {
			if a := vsim.Pick(vsim.StWork, 1, 14, 255); a == 255 {
				w.u(255, 8)
				w.u(uint64(d(65536)), 16)
				w.u(uint64(d(65536)), 16)
			} else {
				w.u(uint64(a), 8)
			}
		}
		if w.flag(p(1, 2)) {
			w.flag(p(1, 2))
		}
		if w.flag(p(1, 2)) {
			w.u(uint64(d(8)), 3)
			w.flag(p(1, 2))
			if w.flag(p(1, 2)) {
				w.u(uint64(d(1<<24)), 24)
			}
		}
		if w.flag(p(1, 2)) {
			w.ue(d(6))
			w.ue(d(6))
		}
		if w.flag(p(1, 2)) {
			w.u(uint64(vsim.Pick(vsim.StWork, 1, 1001, 0)), 32)
			w.u(uint64(vsim.Pick(vsim.StWork, 50, 60000, 1<<32-1)), 32)
			w.flag(p(1, 2))
		}
		nalHRD := w.flag(p(1, 4))
		if nalHRD {
			hrd()
		}
		vclHRD := w.flag(p(1, 4))
		if vclHRD {
			hrd()
		}
		if nalHRD || vclHRD {
			w.flag(p(1, 2))
		}
		w.flag(p(1, 2))
		if w.flag(p(1, 2)) {
			w.flag(p(1, 2))
			for i := 0; i < 6; i++ {
				w.ue(d(17))
			}
		}
	}
	v.sps = w.nal(vsim.Pick[byte](vsim.StWork, 0x67, 0x27, 0x47))
	w = &bitw{}
	w.ue(vsim.Pick(vsim.StWork, 0, 0, 1, 255))
	w.ue(spsID)
	w.flag(p(1, 2))
	w.flag(false)
	w.ue(0)
	w.ue(d(4))
	w.ue(d(4))
	w.flag(false)
	w.u(0, 2)
	w.se(d(20) - 10)
	w.se(d(20) - 10)
	w.se(d(10) - 5)
	w.flag(true)
	w.flag(false)
	w.flag(false)
	v.pps = w.nal(0x68)
	v.avcc = avcc(v.sps, v.pps)
	vsim.Probe("drawn_video_parameters")
	return v
}

type audioConf struct {
	b        []byte
	rate, ch int
}

var aacRates = []int{96000, 88200, 64000, 48000, 44100, 32000, 24000, 22050, 16000, 12000, 11025, 8000, 7350}

// genAudioConf draws an AudioSpecificConfig and what it means.
func genAudioConf() audioConf {
	w := &bitw{}
	a := audioConf{}
	aot := vsim.Pick(vsim.StWork, 2, 2, 2, 1, 4, 5, 29, 42)
	if aot >= 32 {
		w.u(31, 5)
		w.u(uint64(aot-32), 6)
	} else {
		w.u(uint64(aot), 5)
	}
	if vsim.Bool(vsim.StWork, 1, 6) {
		a.rate = vsim.Pick(vsim.StWork, 44100, 48000, 37800, 16, 96000, 192000)
		w.u(15, 4)
		w.u(uint64(a.rate), 24)
	} else {
		i := vsim.Draw(vsim.StWork, len(aacRates))
		a.rate = aacRates[i]
		w.u(uint64(i), 4)
	}
	c := vsim.Pick(vsim.StWork, 2, 1, 2, 3, 4, 5, 6, 7)
	a.ch = c
	if c == 7 {
		a.ch = 8
	}
	w.u(uint64(c), 4)
	w.u(0, 3)
	if aot == 5 || aot == 29 {
		w.u(3, 4)
		w.u(2, 5)
	}
	if vsim.Bool(vsim.StWork, 1, 3) {
		w.u(0x2b7, 11) // backward compatible extension
		w.u(5, 5)
		w.flag(false)
	}
	a.b = w.b
	return a
}
