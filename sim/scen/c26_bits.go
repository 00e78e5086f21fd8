package scen

import (
	"bytes"
	"errors"
	"io"
	"math/bits"
	"os"
	"syscall"
	"time"

	jbits "github.com/nareix/joy5/utils/bits"

	"vsim/vsim"
)

func init() {
	real := []string{"utils/bits (bit reader, bit writer, exponential Golomb reader)"}
	reg(&Prop{ID: "C26", Title: "Bit streams", Real: real, Stub: append([]string{"sources that hand out data in drawn pieces"}, diskStub...),
		Rule:  "Scenarios: a drawn history of bit and byte writes to a disk that may fail; drawn reads of bits, bytes and codes from a file or a source that hands out pieces and may end or fail at a drawn byte.",
		Scens: []Scenario{{"write", 1, bitsWrite}, {"read", 1, bitsRead}, {"golomb", 1, bitsGolomb}}})
}

// bitBuf is the model: a list of bits.
type bitBuf struct{ b []byte }

func (m *bitBuf) put(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		m.b = append(m.b, byte(v>>uint(i))&1)
	}
}

func (m *bitBuf) pad() {
	for len(m.b)%8 != 0 {
		m.b = append(m.b, 0)
	}
}

func (m *bitBuf) bytes() []byte {
	o := make([]byte, (len(m.b)+7)/8)
	for i, v := range m.b {
		o[i/8] |= v << uint(7-i%8)
	}
	return o
}

func drawBits(n int) (v uint64) {
	for i := 0; i < 4; i++ {
		v = v<<16 | uint64(vsim.Draw(vsim.StWork, 1<<16))
	}
	switch vsim.Draw(vsim.StWork, 6) {
	case 0:
		v = 0
	case 1:
		v = ^uint64(0)
	}
	if n < 64 {
		v &= 1<<uint(n) - 1
	}
	return
}

func drawWidth() int {
	switch vsim.Draw(vsim.StWork, 5) {
	case 0:
		return vsim.Pick(vsim.StWork, 0, 1, 7, 8, 9, 31, 32, 33, 56, 57, 63, 64)
	case 1:
		return vsim.Range(vsim.StWork, 0, 64)
	}
	return vsim.Range(vsim.StWork, 1, 17)
}

func bitsWrite() {
	type op struct {
		kind string
		v    uint64
		n    int
		d    []byte
	}
	m := &bitBuf{}
	var ops []op
	for k := vsim.Range(vsim.StWork, 0, 40); k > 0; k-- {
		switch vsim.Weighted(vsim.StWork, 8, 4, 2, 1) {
		case 0:
			n := drawWidth()
			v := drawBits(n)
			m.put(v, n)
			ops = append(ops, op{"bits64", v, n, nil})
		case 1:
			n := min(drawWidth(), 32)
			v := drawBits(n)
			m.put(v, n)
			ops = append(ops, op{"bits", v, n, nil})
		case 2:
			d := payload(k, vsim.Range(vsim.StWork, 0, 20))
			for _, c := range d {
				m.put(uint64(c), 8)
			}
			ops = append(ops, op{"bytes", 0, 0, d})
		case 3:
			m.pad()
			ops = append(ops, op{"flush", 0, 0, nil})
		}
	}
	m.pad()
	ops = append(ops, op{"flush", 0, 0, nil})
	want := m.bytes()
	at := int64(-1)
	if vsim.Bool(vsim.StFault, 1, 2) {
		at = int64(vsim.Draw(vsim.StFault, len(want)+2))
	}
	crash := vsim.Bool(vsim.StFault, 1, 3)
	torn := vsim.Bool(vsim.StFault, 1, 2)
	written, fired := int64(0), false
	vsim.S.FS.Fault = func(o, name string, off int64, n int) (int, error) {
		if o != "write" || at < 0 || written+int64(n) <= at {
			written += int64(n)
			return n, nil
		}
		fired = true
		k := 0
		if torn {
			k = int(at - written)
		}
		at = 0
		if crash {
			return k, vsim.ErrCrash
		}
		return k, syscall.EIO
	}
	var werr error
	_, ok := runProc("writer", time.Hour, func() {
		f, err := vsim.OpenFile("/data/bits", os.O_CREATE|os.O_WRONLY, 0o644)
		if err != nil {
			werr = err
			return
		}
		w := &jbits.Writer{W: f}
		for _, o := range ops {
			switch o.kind {
			case "bits64":
				werr = w.WriteBits64(o.v, o.n)
			case "bits":
				werr = w.WriteBits(uint(o.v), o.n)
			case "bytes":
				var n int
				if n, werr = w.Write(o.d); werr == nil && n != len(o.d) {
					fail("C26", "write_count", "Write of %d bytes returns %d and no error", len(o.d), n)
				}
			case "flush":
				werr = w.FlushBits()
			}
			vsim.Log("%s n=%d v=%x d=%x: %v", o.kind, o.n, o.v, o.d, werr)
			if werr != nil {
				break
			}
		}
		f.Close()
	})
	if vsim.Failed() {
		return
	}
	got, _ := vsim.S.FS.Get("/data/bits")
	switch {
	case !ok:
		fail("C26", "stuck", "writing does not end")
	case fired && crash:
		vsim.Probe("write_crash")
	case fired && werr == nil:
		fail("C26", "error_hidden", "the disk failed and no write or flush reported it")
	case fired:
		vsim.Probe("write_error")
	case werr != nil:
		fail("C26", "write_error", "writing to a healthy disk: %v", werr)
	default:
		vsim.Probe("written")
		if !bytes.Equal(got, want) {
			fail("C26", "written", "%d operations write %x, want %x", len(ops), got, want)
		}
	}
	if !vsim.Failed() && !bytes.HasPrefix(want, got) {
		fail("C26", "written", "after the failure the file has %x, want a prefix of %x", got, want)
	}
}

// pieces hands out data in drawn pieces, and then an error.
type pieces struct {
	b    []byte
	at   int
	err  error
	with bool // the last piece comes with the error
}

func (p *pieces) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if p.at == len(p.b) {
		return 0, p.err
	}
	n := min(len(b), len(p.b)-p.at)
	if n > 1 && vsim.Bool(vsim.StNet, 1, 2) {
		n = vsim.Range(vsim.StNet, 1, n)
		vsim.Fault("short_read")
	}
	if vsim.Bool(vsim.StNet, 1, 20) {
		vsim.Fault("empty_read")
		return 0, nil
	}
	copy(b, p.b[p.at:p.at+n])
	p.at += n
	if p.with && p.at == len(p.b) {
		return n, p.err
	}
	return n, nil
}

var errPieces = errors.New("source failed")

// bitsSource gives the data through a file or directly; it returns what the
// reader has to see at the end and how much was taken.
func bitsSource(b []byte) (src io.Reader, end error, taken func() int) {
	end = vsim.Pick(vsim.StFault, io.EOF, errPieces)
	if vsim.Bool(vsim.StNet, 1, 2) {
		p := &pieces{b: b, err: end, with: vsim.Bool(vsim.StNet, 1, 4)}
		return p, end, func() int { return p.at }
	}
	vsim.S.FS.ShortRead = vsim.Pick(vsim.StNet, 0, 1, 2, 7)
	if end == io.EOF {
		vsim.S.FS.Put("/data/bits", b)
	} else {
		end = syscall.EIO
		vsim.S.FS.Put("/data/bits", append(b[:len(b):len(b)], 0xff))
		vsim.S.FS.Fault = func(op, name string, off int64, n int) (int, error) {
			if op == "read" && off+int64(n) > int64(len(b)) {
				return max(0, len(b)-int(off)), syscall.EIO
			}
			return n, nil
		}
	}
	f, err := vsim.OpenFile("/data/bits", os.O_RDONLY, 0)
	if err != nil {
		panic(err)
	}
	return f, end, func() int {
		at, _ := f.Seek(0, 1)
		return int(at)
	}
}

func sameErr(got, want error) bool {
	if want == io.EOF {
		return got != nil // however it says that there is no more
	}
	return errors.Is(got, want)
}

func bitsRead() {
	m := &bitBuf{}
	data := payload(7, vsim.Range(vsim.StWork, 0, 60))
	for _, c := range data {
		m.put(uint64(c), 8)
	}
	_, ok := runProc("reader", time.Hour, func() {
		src, end, taken := bitsSource(data)
		r := &jbits.Reader{R: src}
		pos := 0
		for k := 0; k < 60; k++ {
			var err error
			n := drawWidth()
			kind := vsim.Weighted(vsim.StWork, 6, 3, 2)
			switch kind {
			case 0, 1:
				var v uint64
				if kind == 1 {
					n = min(n, 32)
					var u uint
					u, err = r.ReadBits(n)
					v = uint64(u)
				} else {
					v, err = r.ReadBits64(n)
				}
				vsim.Log("at %d: %d bits: %x %v", pos, n, v, err)
				if left := len(m.b) - pos; n > left {
					if err == nil {
						fail("C26", "made_up", "%d bits are left, reading %d gives %x", left, n, v)
					} else if !sameErr(err, end) {
						fail("C26", "read_error", "the source ends with %v, reading reports %v", end, err)
					} else {
						vsim.Probe("read_end")
					}
					return
				}
				want := uint64(0)
				for _, x := range m.b[pos : pos+n] {
					want = want<<1 | uint64(x)
				}
				if err != nil || v != want {
					fail("C26", "read", "%d bits at %d: %x %v, want %x", n, pos, v, err, want)
					return
				}
				pos += n
			case 2:
				p := make([]byte, vsim.Range(vsim.StWork, 0, 20))
				n, err = r.Read(p)
				vsim.Log("at %d: %d bytes: %d %x %v", pos, len(p), n, p, err)
				left := (len(m.b) - pos) / 8
				if n > left || n > len(p) {
					fail("C26", "made_up", "%d bytes are left, reading %d gives %d", left, len(p), n)
					return
				}
				for i, c := range p[:n] {
					want := byte(0)
					for _, x := range m.b[pos+8*i : pos+8*i+8] {
						want = want<<1 | x
					}
					if c != want {
						fail("C26", "read", "byte %d of %d at bit %d: %x, want %x", i, len(p), pos, c, want)
						return
					}
				}
				pos += 8 * n
				if err != nil {
					if n < left {
						fail("C26", "read", "reading %d bytes with %d left gives %d and %v", len(p), left, n, err)
					} else if !sameErr(err, end) {
						fail("C26", "read_error", "the source ends with %v, reading reports %v", end, err)
					} else {
						vsim.Probe("read_end")
					}
					return
				}
				if n < len(p) && n == 0 {
					fail("C26", "read", "reading %d bytes gives none and no error", len(p))
					return
				}
			}
			if t := taken(); t*8 >= pos+8 {
				fail("C26", "read_ahead", "%d bits were read, %d bytes were taken from the source", pos, t)
				return
			}
		}
		vsim.Probe("read_some")
	})
	if !ok && !vsim.Failed() {
		fail("C26", "stuck", "reading does not end")
	}
}

// drawCode draws a value for an exponential Golomb code, which has at most 32
// leading zeros.
func drawCode(max int) uint64 {
	n := vsim.Range(vsim.StWork, 1, max)
	v := drawBits(n)
	if vsim.Bool(vsim.StWork, 1, 3) {
		v = uint64(1)<<uint(n) - uint64(vsim.Draw(vsim.StWork, 3))
	}
	return min(v, 1<<uint(max)-2)
}

func bitsGolomb() {
	type code struct {
		kind string
		v    int64
		n    int
	}
	m := &bitBuf{}
	var codes []code
	ue := func(v uint64) {
		n := bits.Len64(v+1) - 1
		m.put(0, n)
		m.put(v+1, n+1)
	}
	var ends []int
	for k := vsim.Range(vsim.StWork, 0, 40); k > 0; k-- {
		switch vsim.Draw(vsim.StWork, 4) {
		case 0:
			n := vsim.Range(vsim.StWork, 1, 32)
			v := drawBits(n)
			m.put(v, n)
			codes = append(codes, code{"u", int64(v), n})
		case 1:
			v := drawBits(1)
			m.put(v, 1)
			codes = append(codes, code{"bit", int64(v), 1})
		case 2:
			v := drawCode(33)
			ue(v)
			codes = append(codes, code{"ue", int64(v), 0})
		case 3:
			v := int64(drawCode(32))
			if vsim.Bool(vsim.StWork, 1, 2) {
				v = -v
			}
			if v > 0 {
				ue(uint64(2*v - 1))
			} else {
				ue(uint64(-2 * v))
			}
			codes = append(codes, code{"se", v, 0})
		}
		ends = append(ends, len(m.b))
	}
	m.pad()
	data := m.bytes()
	cut := len(data)
	if len(data) > 0 && vsim.Bool(vsim.StFault, 1, 2) {
		cut = vsim.Draw(vsim.StFault, len(data))
		vsim.Fault("data_cut")
	}
	_, ok := runProc("reader", time.Hour, func() {
		src, end, taken := bitsSource(data[:cut])
		r := &jbits.GolombBitReader{R: src}
		for i, c := range codes {
			var u uint
			var err error
			switch c.kind {
			case "u":
				u, err = r.ReadBits(c.n)
			case "bit":
				u, err = r.ReadBit()
			case "ue":
				u, err = r.ReadExponentialGolombCode()
			case "se":
				u, err = r.ReadSE()
			}
			vsim.Log("%s %d: %d %v", c.kind, c.n, int64(u), err)
			if ends[i] > 8*cut {
				if err == nil {
					fail("C26", "made_up", "%s ends at bit %d, there are %d, reading gives %d", c.kind, ends[i], 8*cut, int64(u))
				} else if !sameErr(err, end) {
					fail("C26", "read_error", "the source ends with %v, reading reports %v", end, err)
				} else {
					vsim.Probe("golomb_end")
				}
				return
			}
			if err != nil || int64(u) != c.v {
				fail("C26", "golomb", "code %d (%s): %d %v, want %d", i, c.kind, int64(u), err, c.v)
				return
			}
			if t := taken(); t*8 >= ends[i]+8 {
				fail("C26", "read_ahead", "%d bits were read, %d bytes were taken from the source", ends[i], t)
				return
			}
		}
		vsim.Probe("golomb_read")
	})
	if !ok && !vsim.Failed() {
		fail("C26", "stuck", "reading does not end")
	}
}
