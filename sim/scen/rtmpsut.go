package scen

import (
	"bytes"
	"crypto/ed25519"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"math/big"
	"net"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format"
	"github.com/nareix/joy5/format/rtmp"

	"vsim/vsim"
)

const srvAddr = "srv:1935"

// serveRTMP runs an RTMP server built from the code under test.
func serveRTMP(p *vsim.Proc, addr string, s *rtmp.Server) *vsim.Listener {
	lis, err := vsim.ListenAs(p, addr)
	if err != nil {
		panic(err)
	}
	p.Go(p.Name+"/accept", func() {
		for {
			nc, err := lis.Accept()
			if err != nil {
				return
			}
			p.Go(p.Name+"/conn", func() { s.HandleNetConn(nc) })
		}
	})
	return lis
}

// tlsConf is a server's, with a certificate that is the same in every run.
var tlsConf = func() *tls.Config {
	key := ed25519.NewKeyFromSeed(make([]byte, 32))
	t := &x509.Certificate{SerialNumber: big.NewInt(1), NotAfter: vsim.Epoch.Add(1 << 40)}
	der, err := x509.CreateCertificate(bytes.NewReader(make([]byte, 4096)), t, t, key.Public(), key)
	if err != nil {
		panic(err)
	}
	return &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}
}()

// serveTLS is serveRTMP behind TLS.
func serveTLS(p *vsim.Proc, addr string, s *rtmp.Server) {
	lis, err := vsim.ListenAs(p, addr)
	if err != nil {
		panic(err)
	}
	p.Go(p.Name+"/accept", func() {
		for {
			nc, err := lis.Accept()
			if err != nil {
				return
			}
			p.Go(p.Name+"/conn", func() { s.HandleNetConn(tls.Server(nc, tlsConf)) })
		}
	})
}

// rxLog collects what a reader was given.
type rxLog struct {
	pkts []av.Packet
	data [][]byte // as handed out, not copied
	at   []time.Duration
	err  error
	done bool
}

func copyPkt(p av.Packet) av.Packet {
	p.Data = append([]byte(nil), p.Data...)
	return p
}

func (r *rxLog) add(p av.Packet) {
	r.pkts = append(r.pkts, copyPkt(p))
	r.data = append(r.data, p.Data)
	r.at = append(r.at, vsim.Elapsed())
}

// unchanged checks that what was handed out is still what it was.
func (r *rxLog) unchanged() {
	for i, d := range r.data {
		if !bytes.Equal(d, r.pkts[i].Data) {
			fail(Cur, "reused", "packet %d of %d changed after it had been delivered: was %s", i, len(r.pkts), pktDesc(r.pkts[i]))
			return
		}
	}
}

type packetReader interface{ ReadPacket() (av.Packet, error) }
type packetWriter interface{ WritePacket(av.Packet) error }

func (r *rxLog) pump(src packetReader) {
	for {
		p, err := src.ReadPacket()
		if err != nil {
			r.err, r.done = err, true
			vsim.Log("reader ends: %v", err)
			r.unchanged()
			return
		}
		vsim.Log("got %s", pktDesc(p))
		r.add(p)
	}
}

// txLog records what a writer accepted.
type txLog struct {
	pkts     []av.Packet // WritePacket returned nil
	at       []time.Duration
	pending  *av.Packet // WritePacket in progress or failed
	err      error
	done     bool
	acceptAt time.Duration
	hdr      byte // FLV header flags the user asked for
}

func (t *txLog) write(w packetWriter, p av.Packet) error {
	q := copyPkt(p)
	t.pending = &q
	vsim.Log("write %s", pktDesc(p))
	p = copyPkt(p)
	err := w.WritePacket(p)
	if !bytes.Equal(p.Data, q.Data) {
		fail(Cur, "altered", "WritePacket changed the caller's packet: %s", pktDesc(q))
	}
	// whatever was written, the buffer is the caller's again
	for i := range p.Data {
		p.Data[i] ^= 0xa5
	}
	if err != nil {
		t.err = err
		vsim.Log("write failed: %v", err)
		return err
	}
	t.pkts = append(t.pkts, q)
	t.at = append(t.at, vsim.Elapsed())
	t.pending = nil
	return nil
}

func (t *txLog) all() []av.Packet {
	if t.pending != nil {
		return append(append([]av.Packet(nil), t.pkts...), *t.pending)
	}
	return t.pkts
}

// openRTMP opens a client of the code under test through the URL opener or the
// low-level client.
func dialRTMP(url string, write bool, viaOpener bool) (c *rtmp.Conn, nc net.Conn, err error) {
	if viaOpener {
		o := &format.URLOpener{}
		if write {
			w, err := o.Create(url, nil)
			if err != nil {
				return nil, nil, err
			}
			return w.Rtmp, w.NetConn, nil
		}
		r, err := o.Open(url)
		if err != nil {
			return nil, nil, err
		}
		return r.Rtmp, r.NetConn, nil
	}
	fl := rtmp.PrepareReading
	if write {
		fl = rtmp.PrepareWriting
	}
	return rtmp.NewClient().Dial(url, fl)
}

func setBufio() {
	rtmp.BufioSize = vsim.Pick(vsim.StWork, 4096, 16, 100, 1024, 65536)
}

// transferTime is a generous bound on how long n bytes take on a link.
func transferTime(l *vsim.LinkCfg, n int) time.Duration {
	per := l.Latency + l.Jitter + 20*time.Millisecond
	rounds := n/l.Buf + 4
	return 10*time.Second + time.Duration(rounds)*per*2 + l.StallFor[0] + l.StallFor[1]
}

func pktsBytes(l []av.Packet) int {
	n := 0
	for _, p := range l {
		n += len(p.Data) + 300
	}
	return n
}

var _ = fmt.Sprint
