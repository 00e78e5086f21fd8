package scen

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/codec/h264"
	"github.com/nareix/joy5/format/rtsp"

	"vsim/vsim"
)

func init() {
	reg(&Prop{ID: "C29", Title: "RTSP codec changes", Real: rtspReal, Stub: rtspStub,
		Rule:  "A model camera replaces the parameter sets of drawn tracks at drawn key frames, in all packagings and mixed with other tracks, under drawn segmentation, stalls, cuts and resets; the client handles each change and reads on.",
		Scens: []Scenario{{"change", 1, rtspChange}}})
}

// changeEv is a packet, or a reported change with the tracks as described then.
type changeEv struct {
	p     av.Packet
	raw   []byte
	codec []*h264.Codec
}

// described copies what a client says about its H264 tracks.
func described(c *rtsp.Client) (l []*h264.Codec, err error) {
	streams, err := c.Streams()
	if err != nil {
		return nil, err
	}
	for _, s := range streams {
		k, _ := s.(*h264.Codec)
		if k != nil {
			d := *k
			d.ConfigBytes = append([]byte(nil), k.ConfigBytes...)
			d.SPS, d.PPS = map[int][]byte{}, map[int][]byte{}
			for i, b := range k.SPS {
				d.SPS[i] = b
			}
			for i, b := range k.PPS {
				d.PPS[i] = b
			}
			k = &d
		}
		l = append(l, k)
	}
	return
}

func rtspChange() {
	srv := newRtspSrv()
	srv.changes = true
	srv.early = vsim.Bool(vsim.StWork, 1, 4)
	link := genFastLink()
	mode := vsim.Weighted(vsim.StFault, 5, 2, 2) // complete, cut with FIN, reset
	hi := vsim.Pick(vsim.StFault, 3000, 20000, 200000)
	if mode > 0 {
		link.Cut[1] = int64(vsim.Draw(vsim.StFault, hi))
		link.CutFin = mode == 1
	}
	if vsim.Bool(vsim.StFault, 1, 4) {
		link.StallAt[1] = int64(vsim.Draw(vsim.StFault, hi))
		link.StallFor[1] = time.Duration(vsim.Range(vsim.StFault, 1, 60)) * time.Second
		vsim.Fault("link_stall")
	}
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	cl := &rtspClient{path: srv.path}
	cl.drawMode(len(srv.tracks))
	if cl.mode == 0 {
		cl.mode = 1
	}
	cl.skipErr = vsim.Bool(vsim.StWork, 1, 3)
	if vsim.Bool(vsim.StWork, 1, 4) {
		cl.keep = time.Duration(vsim.Range(vsim.StWork, 1, 20)) * time.Second
	}
	again := vsim.Draw(vsim.StWork, 3)
	log := &sentLog{}
	n := vsim.Range(vsim.StWork, 1, 40)
	srv.feed = func(c *vsim.Conn, lk *vsim.Mutex) {
		if log.send(c, lk, mergeTracks(srv.genRtsp(n, true))) {
			lk.Lock()
			c.Close()
			lk.Unlock()
		}
	}
	srv.start()
	var evs []changeEv
	var last []*h264.Codec
	var end error
	p, ok := runProc("client", 6*time.Hour, func() {
		err := cl.open()
		if cl.closer != nil {
			defer cl.closer.Close()
		}
		cli := cl.cli
		for err == nil {
			var pkt av.Packet
			pkt, err = cli.ReadPacket()
			if errors.Is(err, rtsp.ErrCodecChange) {
				for k := 0; k < again; k++ {
					if _, err = cli.ReadPacket(); !errors.Is(err, rtsp.ErrCodecChange) {
						var ne net.Error
						if cl.keep > 0 && errors.As(err, &ne) {
							break // a keepalive met the closed connection
						}
						fail("C29", "unreported", "reading on without handling a reported change: %v", err)
						return
					}
				}
				if cli, err = cli.HandleCodecChange(); err != nil {
					fail("C29", "handle", "handling a change: %v", err)
					return
				}
				var d []*h264.Codec
				if d, err = described(cli); err != nil {
					fail("C29", "handle", "tracks after a change: %v", err)
					return
				}
				vsim.Log("codec change")
				evs = append(evs, changeEv{codec: d})
				continue
			}
			if err == nil {
				vsim.Log("got %s", pktDesc(pkt))
				evs = append(evs, changeEv{p: copyPkt(pkt), raw: pkt.Data})
			}
		}
		end = err
		if cl.opened = cli != nil; cl.opened && srv.playing {
			last, _ = described(cli)
		}
		vsim.Log("reader ends: %v", err)
	})
	if vsim.Failed() {
		return
	}
	if srv.bad != "" {
		fail("C29", "request", "the server was sent %s", srv.bad)
		return
	}
	if !ok {
		fail("C29", "hang", "mode %d: the reader never ends; client %v", mode, p.Blocked())
		return
	}
	var cut int64 = -1
	if link.Cut[1] >= 0 && srv.conn != nil && srv.conn.SentBytes() >= link.Cut[1] {
		cut = link.Cut[1]
	}
	// what the blocks that arrived stand for
	state := make([]*videoConf, len(srv.tracks))
	for i, t := range srv.tracks {
		if t.typ == av.H264 && t.inSDP {
			state[i] = &t.v
		}
	}
	at, changes := 0, 0
	check := func(l []*h264.Codec, what string) bool {
		for i, v := range state {
			if v == nil {
				continue
			}
			if i >= len(l) || l[i] == nil {
				fail("C29", "tracks", "%s: track %d is not described", what, i)
				return false
			}
			c := l[i]
			if len(c.SPS) != 1 || len(c.PPS) != 1 || !bytes.Equal(c.ConfigBytes, v.avcc) || c.W != v.w || c.H != v.h {
				fail("C29", "tracks", "%s: track %d is described as %dx%d % x, want %dx%d % x", what, i, c.W, c.H, c.ConfigBytes, v.w, v.h, v.avcc)
				return false
			}
		}
		return true
	}
	whole := mode == 0 || mode == 1 && cut < 0 || mode == 1 && cl.keep == 0
	if cl.keep > 0 && end != io.EOF {
		whole = false // a keepalive may meet the closed connection
	}
	for i, b := range log.blocks {
		if cut >= 0 && log.end[i] > cut {
			break
		}
		full := at < len(evs)
		if b.half {
			state[b.track] = nil
		}
		if b.conf != nil {
			state[b.track] = b.conf
		}
		if b.change {
			if !full {
				if whole {
					fail("C29", "unreported", "new parameter sets of track %d are not reported; end: %v", b.track, end)
					return
				}
				break
			}
			if evs[at].codec == nil {
				fail("C29", "unreported", "new parameter sets of track %d: %s is delivered without reporting the change", b.track, pktDesc(evs[at].p))
				return
			}
			changes++
			if !check(evs[at].codec, fmt.Sprintf("after change %d", changes)) {
				return
			}
			vsim.Probe("change_reported")
			at++
		}
		for _, want := range b.pkts {
			if at >= len(evs) {
				if whole {
					fail("C29", "lost", "%s arrived and is not delivered; end: %v", pktDesc(want), end)
					return
				}
				break
			}
			if evs[at].codec != nil {
				fail("C29", "spurious", "a change is reported where none happened, before %s", pktDesc(want))
				return
			}
			if d := sameRtsp(want, evs[at].p); d != "" {
				fail("C29", "differs", "packet after %d changes: %s", changes, d)
				return
			}
			if !bytes.Equal(evs[at].raw, evs[at].p.Data) {
				fail("C29", "reused", "a packet changed after it was delivered")
				return
			}
			at++
		}
		if at >= len(evs) && !whole {
			break
		}
	}
	if at < len(evs) {
		fail("C29", "spurious", "%d events after everything that was sent", len(evs)-at)
		return
	}
	if whole && last != nil && !check(last, "at the end") {
		return
	}
	if whole {
		vsim.Probe("complete_transfer")
	}
	if l := gone(p, 0, 10*time.Second); l != "" {
		fail("C29", "leak", "after close: %s", l)
	}
}
