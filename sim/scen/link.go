package scen

import (
	"time"

	"vsim/vsim"
)

// genLink draws a healthy link: latency, jitter, segmentation and buffers vary.
func genLink() vsim.LinkCfg {
	l := vsim.PlainLink()
	l.Latency = vsim.Pick(vsim.StNet, 0, time.Millisecond, 20*time.Millisecond, 150*time.Millisecond)
	l.Jitter = vsim.Pick(vsim.StNet, 0, 0, 5*time.Millisecond, 100*time.Millisecond)
	l.Buf = vsim.Pick(vsim.StNet, 65536, 1<<20, 4096, 700, 100)
	if l.Buf < 4096 && l.Latency+l.Jitter > 6*time.Millisecond {
		l.Buf = 4096 // keep the negotiation well inside its time limit
	}
	l.Seg = vsim.Pick(vsim.StNet, 0, 1460, 100, 7, 1)
	l.OneSeg = vsim.Bool(vsim.StNet, 1, 2)
	l.Trickle = vsim.Bool(vsim.StNet, 1, 6)
	return l
}

// genFastLink is genLink without the slowest settings.
func genFastLink() vsim.LinkCfg {
	l := genLink()
	if l.Buf < 4096 {
		l.Buf = 4096
	}
	return l
}

// setAtomStall may hold up tasks right at atomic operations, where the order of
// two of them matters.
func setAtomStall() {
	vsim.S.AtomStall, vsim.S.AtomLeft = vsim.Pick(vsim.StFault, 0, 0, 0, 3, 10, 40), vsim.Range(vsim.StFault, 1, 6)
}
