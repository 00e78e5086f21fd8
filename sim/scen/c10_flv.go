package scen

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"strings"
	"syscall"
	"time"

	"github.com/nareix/joy5/av"
	"github.com/nareix/joy5/format"
	"github.com/nareix/joy5/format/flv"

	"vsim/vsim"
)

var diskStub = []string{"file system (in-memory: short reads, read/write errors, torn writes, full disk, crash at any byte)", "clock and timers", "goroutine scheduler"}

func init() {
	reg(&Prop{ID: "C10", Title: "FLV files and streams", Real: []string{"format (URL opener)", "format/flv, format/flv/flvio (tags, AMF)", "utils/bits/pio"},
		Stub:  append([]string{"HTTP transport over simulated TCP (response parsed by net/http), HTTP server is a model"}, diskStub...),
		Rule:  "Scenarios: write then read a file under short reads; crash, disk error or full disk at a drawn byte of the write history; read error, truncation or corruption at a drawn byte; FLV over HTTP with cuts and stalls; files built by an independent writer.",
		Scens: []Scenario{{"roundtrip", 2, flvRoundtrip}, {"write_fault", 3, flvWriteFault}, {"read_fault", 3, flvReadFault}, {"http", 3, flvHTTP}}})
}

// flvBytes builds an FLV file independently of the code under test and reports
// where each packet's bytes end.
func flvBytes(l []av.Packet, noise bool) (b []byte, ends []int) {
	skip := 0
	if noise {
		skip = vsim.Pick(vsim.StWork, 0, 0, 1, 100, 300, 70000)
	}
	b = append(b, 'F', 'L', 'V', 1, byte(vsim.Pick(vsim.StWork, 5, 0, 1, 4)))
	b = append(b, be32(uint32(9+skip))...)
	b = append(b, make([]byte, 4+skip)...)
	tag := func(typ byte, ts uint32, d []byte) {
		at := len(b)
		b = append(b, typ)
		b = u24(b, uint32(len(d)))
		b = u24(b, ts&0xffffff)
		b = append(b, byte(ts>>24), 0, 0, 0)
		b = append(b, d...)
		b = append(b, be32(uint32(len(b)-at))...)
	}
	for _, p := range l {
		for noise && vsim.Bool(vsim.StWork, 1, 12) {
			// tags a reader has to skip
			switch vsim.Draw(vsim.StWork, 4) {
			case 0:
				tag(9, 0, []byte{0x17, 2, 0, 0, 0})
			case 1:
				tag(byte(vsim.Pick(vsim.StWork, 1, 2, 7, 10, 20)), 5, payload(3, vsim.Draw(vsim.StWork, 40)))
			case 2:
				tag(8, 5, append([]byte{0x2f}, payload(3, 20)...)) // MP3
			case 3:
				tag(18, 5, amfVals("onCuePoint", obj{{"a", 1.0}}))
			}
		}
		m := pktToMsg(p, false)
		if noise && m.typ == 18 && vsim.Bool(vsim.StWork, 1, 6) {
			m.typ, m.data = 15, append([]byte{0}, m.data...)
		}
		tag(m.typ, m.ts, m.data)
		ends = append(ends, len(b))
	}
	return
}

// flvParse reads an FLV file by the letter of the format.
func flvParse(b []byte) (l []av.Packet, bad string) {
	if len(b) < 13 || string(b[:4]) != "FLV\x01" || b[4]&^5 != 0 {
		return nil, "file header"
	}
	at := int(binary.BigEndian.Uint32(b[5:]))
	if at != 9 {
		return nil, "header size"
	}
	prev := 0
	for {
		if len(b)-at < 4 || int(binary.BigEndian.Uint32(b[at:])) != prev {
			return l, fmt.Sprintf("size of the previous tag at %d is not %d", at, prev)
		}
		at += 4
		if at == len(b) {
			return l, ""
		}
		if len(b)-at < 11 {
			return l, "torn tag"
		}
		n := int(b[at+1])<<16 | int(b[at+2])<<8 | int(b[at+3])
		if len(b)-at-11 < n {
			return l, "torn tag"
		}
		if b[at+8]|b[at+9]|b[at+10] != 0 {
			return l, "stream id"
		}
		m := &rmsg{typ: b[at], ts: uint32(b[at+7])<<24 | uint32(b[at+4])<<16 | uint32(b[at+5])<<8 | uint32(b[at+6]), data: b[at+11 : at+11+n]}
		p, ok := msgToPkt(m)
		if !ok {
			return l, fmt.Sprintf("tag %d of type %d", len(l), m.typ)
		}
		l = append(l, p)
		prev = 11 + n
		at += prev
	}
}

func openRead(name string, rx *rxLog, whenOpen func()) error {
	r, err := (&format.URLOpener{}).Open(name)
	if err != nil {
		rx.err, rx.done = err, true
		return err
	}
	if whenOpen != nil {
		whenOpen()
	}
	rx.pump(r)
	r.Close()
	return nil
}

// runProc runs fn as a process of the code under test and waits for it.
func runProc(name string, max time.Duration, fn func()) (p *vsim.Proc, ok bool) {
	p = vsim.NewProc(name)
	done := false
	p.Go(name, func() { fn(); done = true })
	ok = vsim.WaitUntil(10*time.Millisecond, max, func() bool { return done || p.Dead || vsim.Failed() })
	return
}

func flvMedia() []av.Packet {
	mc := genMediaCfg()
	if vsim.Bool(vsim.StWork, 1, 10) {
		mc.n = 0
	}
	return genMedia(mc)
}

func writeFLV(name string, media []av.Packet, tx *txLog, cerr *error) func() {
	return func() {
		o := &format.URLOpener{}
		tx.hdr = byte(vsim.Pick(vsim.StWork, 0, 0, 5, 1, 4))
		if tx.hdr != 0 {
			o.OnNewFlvMuxer = func(w *flv.Muxer) { w.HasVideo, w.HasAudio = tx.hdr&1 != 0, tx.hdr&4 != 0 }
		}
		w, err := o.Create(name, nil)
		if err != nil {
			tx.err = err
			return
		}
		for _, p := range media {
			if tx.write(w, p) != nil {
				break
			}
		}
		*cerr = w.Close()
		tx.done = true
	}
}

func flvRoundtrip() {
	media := flvMedia()
	vsim.S.FS.ShortRead = vsim.Pick(vsim.StNet, 0, 1, 7, 100, 5000)
	tx, rx := &txLog{}, &rxLog{}
	var cerr error
	runProc("writer", time.Hour, writeFLV("/data/a.flv", media, tx, &cerr))
	if vsim.Failed() {
		return
	}
	if tx.err != nil || cerr != nil {
		fail("C10", "write_error", "writing to a healthy disk: %v %v", tx.err, cerr)
		return
	}
	if file, ok := vsim.S.FS.Get("/data/a.flv"); ok && (len(media) > 0 || len(file) > 0) {
		got, bad := flvParse(file)
		if bad == "" && file[4] != tx.hdr {
			bad = fmt.Sprintf("header flags %d where the user declared %d", file[4], tx.hdr)
		}
		if bad != "" {
			fail("C10", "format", "not a valid FLV file: %s", bad)
			return
		}
		if !checkPrefix("C10", "file as an independent reader sees it", media, got) {
			return
		}
		if len(got) != len(media) {
			fail("C10", "lost", "wrote %d packets, the file holds %d", len(media), len(got))
			return
		}
	}
	p, ok := runProc("reader", time.Hour, func() { openRead("/data/a.flv", rx, nil) })
	if vsim.Failed() {
		return
	}
	if len(media) == 0 {
		if len(rx.pkts) > 0 {
			fail("C10", "extra", "packets out of an empty recording")
		}
		return
	}
	if !checkPrefix("C10", "file", media, rx.pkts) {
		return
	}
	if !ok || len(rx.pkts) != len(media) || rx.err != io.EOF {
		fail("C10", "lost", "wrote %d packets, read back %d then %v", len(media), len(rx.pkts), rx.err)
		return
	}
	if len(p.OpenFiles()) > 0 {
		fail("C10", "leak", "file left open after Close")
	}
	vsim.Probe("roundtrip")
}

func flvWriteFault() {
	media := flvMedia()
	if len(media) == 0 {
		return
	}
	total := 0
	for _, p := range media {
		total += len(p.Data) + 25
	}
	vsim.S.FS.ShortRead = vsim.Pick(vsim.StNet, 0, 7, 100)
	kind := vsim.Pick(vsim.StFault, "crash", "enospc", "eio", "eio_once")
	at := int64(vsim.Draw(vsim.StFault, vsim.Pick(vsim.StFault, total+30, total+30, 40)))
	torn := vsim.Bool(vsim.StFault, 2, 3)
	written := int64(0)
	fired := false
	vsim.S.FS.Fault = func(op, name string, off int64, n int) (int, error) {
		if op != "write" {
			return n, nil
		}
		if kind == "eio_once" && fired {
			written += int64(n)
			return n, nil
		}
		if written+int64(n) <= at && !fired {
			written += int64(n)
			return n, nil
		}
		k := int(at - written)
		if fired {
			k = 0
		} else if !torn {
			k = 0
		}
		fired = true
		written += int64(k)
		switch kind {
		case "crash":
			return k, vsim.ErrCrash
		case "enospc":
			vsim.Fault("disk_full")
			return k, syscall.ENOSPC
		}
		return k, syscall.EIO
	}
	tx, rx := &txLog{}, &rxLog{}
	var cerr error
	wp, _ := runProc("writer", time.Hour, writeFLV("/data/a.flv", media, tx, &cerr))
	vsim.S.FS.Fault = nil
	if vsim.Failed() {
		return
	}
	if fired && kind != "crash" && tx.err == nil && cerr == nil {
		fail("C10", "error_hidden", "the disk refused a write (%s) and neither WritePacket nor Close reported it", kind)
		return
	}
	if !fired && (tx.err != nil || cerr != nil) {
		fail("C10", "write_error", "writing to a healthy disk: %v %v", tx.err, cerr)
		return
	}
	_, ok := runProc("reader", time.Hour, func() { openRead("/data/a.flv", rx, nil) })
	if vsim.Failed() {
		return
	}
	if !ok {
		fail("C10", "stuck", "reading the file does not end")
		return
	}
	if !checkPrefix("C10", "file after "+kind, tx.all(), rx.pkts) {
		return
	}
	if len(rx.pkts) < len(tx.pkts) {
		fail("C10", "lost", "%s at byte %d: WritePacket accepted %d packets, %d can be read back (%v)", kind, at, len(tx.pkts), len(rx.pkts), rx.err)
		return
	}
	_ = wp
	if fired {
		vsim.Probe("checked_after_" + kind)
	}
}

func flvReadFault() {
	media := flvMedia()
	vsim.LimitAlloc(48 << 20)
	vsim.S.FS.ShortRead = vsim.Pick(vsim.StNet, 0, 1, 7, 100)
	b, ends := flvBytes(media, true)
	kind := vsim.Pick(vsim.StFault, "none", "eio", "eio_once", "truncate", "corrupt", "corrupt", "garbage")
	at := vsim.Draw(vsim.StFault, vsim.Pick(vsim.StFault, len(b), len(b), min(len(b), 40)))
	switch kind {
	case "truncate":
		vsim.Fault("file_truncated")
		b = b[:at]
	case "corrupt":
		vsim.Fault("file_corrupted")
		for k := vsim.Range(vsim.StFault, 1, 5); k > 0; k-- {
			i := at + vsim.Draw(vsim.StFault, len(b)-at)
			if vsim.Bool(vsim.StFault, 1, 2) {
				i = at
			}
			b[i] ^= byte(vsim.Range(vsim.StFault, 1, 255))
		}
	case "garbage":
		vsim.Fault("file_corrupted")
		b = append(b[:at:at], hostileFLV()...)
	case "eio", "eio_once":
		fired := false
		vsim.S.FS.Fault = func(op, name string, off int64, n int) (int, error) {
			if op == "read" && off+int64(n) > int64(at) && (kind == "eio" || !fired) {
				fired = true
				return max(0, at-int(off)), syscall.EIO
			}
			return n, nil
		}
	}
	vsim.S.FS.Put("/data/a.flv", b)
	rx := &rxLog{}
	p, ok := runProc("reader", time.Hour, func() { openRead("/data/a.flv", rx, nil) })
	if vsim.Failed() {
		return
	}
	if !ok {
		fail("C10", "stuck", "reading the file does not end")
		return
	}
	if len(p.OpenFiles()) > 0 {
		fail("C10", "leak", "file left open")
	}
	n := len(media)
	if kind != "none" {
		n = 0
		for n < len(ends) && ends[n] <= at {
			n++
		}
	}
	got := rx.pkts
	if kind == "corrupt" || kind == "garbage" {
		got = got[:min(n, len(got))]
	}
	if !checkPrefix("C10", "file", media, got) {
		return
	}
	if len(got) < n {
		fail("C10", "lost", "%s at byte %d: %d packets lie before it, %d were read (%v)", kind, at, n, len(got), rx.err)
		return
	}
	switch kind {
	case "none":
		if rx.err != io.EOF {
			fail("C10", "end", "complete file ends with %v", rx.err)
		}
		vsim.Probe("independent_file_read")
	case "eio", "eio_once":
		if rx.err == io.EOF {
			fail("C10", "error_hidden", "a disk read error was reported as the end of the file")
		}
		vsim.Probe("read_error_checked")
	default:
		if kind == "truncate" && n < len(ends) && rx.err == io.EOF {
			if own := ends[n] - 15 - len(pktToMsg(media[n], false).data); at > own {
				fail("C10", "error_hidden", "a file cut after %d bytes of a packet of %d was reported as ending orderly", at-own, ends[n]-own)
			}
		}
		vsim.Probe("damaged_file_" + kind)
	}
}

// hostileFLV makes tags no muxer writes.
func hostileFLV() []byte {
	var b []byte
	for k := vsim.Range(vsim.StWork, 1, 6); k > 0; k-- {
		var d []byte
		typ := byte(vsim.Pick(vsim.StWork, 8, 9, 18, 15, 0, 255))
		switch typ {
		case 18:
			d = amfVals(vsim.Pick(vsim.StWork, "onMetaData", "@setDataFrame", "x"))
			for i := vsim.Draw(vsim.StWork, 3); i > 0 && len(d) < 1<<20; i-- {
				d = hostileAMF(d, 0)
			}
		case 15:
			d = []byte{0, 6, 21}
			d = append(d, "onMetaData"...)
			for i := vsim.Draw(vsim.StWork, 3); i > 0 && len(d) < 1<<20; i-- {
				d = hostileAMF3(d)
			}
		default:
			d = payload(k, vsim.Draw(vsim.StWork, 10))
			if len(d) > 1 && vsim.Bool(vsim.StWork, 1, 2) {
				d[0], d[1] = byte(vsim.Pick(vsim.StWork, 0x17, 0xaf, 0x27, 0)), byte(vsim.Draw(vsim.StWork, 3))
			}
		}
		n := uint32(len(d))
		if vsim.Bool(vsim.StWork, 1, 5) {
			n = uint32(vsim.Pick(vsim.StWork, 0, 0xffffff, 100, 1<<20))
		}
		b = append(b, typ)
		b = u24(b, n)
		b = append(b, 0, 0, 1, 0, 0, 0, 0)
		b = append(b, d...)
		if vsim.Bool(vsim.StWork, 3, 4) {
			b = append(b, be32(n+11)...)
		}
	}
	return b
}

func flvHTTP() {
	media := flvMedia()
	if len(media) == 0 {
		return
	}
	link := genFastLink()
	mode := vsim.Pick(vsim.StFault, "none", "none", "cut", "fin", "stall", "reset", "close_early")
	b, ends := flvBytes(media, true)
	if mode == "cut" || mode == "fin" {
		link.CutFin = mode == "fin"
		link.Cut[1] = int64(vsim.Draw(vsim.StFault, len(b)+300))
	}
	if mode == "stall" {
		link.StallAt[1] = int64(vsim.Draw(vsim.StFault, len(b)))
		link.StallFor[1] = time.Duration(vsim.Range(vsim.StFault, 1, 300)) * time.Second
	}
	vsim.S.Net.LinkFor = func(*vsim.Proc, string) vsim.LinkCfg { return link }
	framing := vsim.Pick(vsim.StWork, "length", "chunked", "close")
	hp, sut := vsim.NewProc("http"), vsim.NewProc("sut")
	hp.Harness = true
	addr := "web:80"
	url := "http://web/live/a.flv"
	if vsim.Bool(vsim.StWork, 1, 2) {
		addr, url = "web:8080", "http://web:8080/live/a.flv?token=1"
	}
	lis, err := vsim.ListenAs(hp, addr)
	if err != nil {
		panic(err)
	}
	early := len(b)
	if mode == "close_early" || mode == "reset" {
		early = vsim.Draw(vsim.StFault, len(b))
	}
	live := vsim.Bool(vsim.StWork, 1, 3)
	gap := genGap()
	bad := ""
	hp.Go("http", func() {
		c, err := lis.AcceptConn()
		if err != nil {
			return
		}
		br := bufio.NewReader(c)
		first := ""
		for {
			l, err := br.ReadString('\n')
			if err != nil {
				return
			}
			if first == "" {
				first = l
			}
			if strings.TrimSpace(l) == "" {
				break
			}
		}
		if want := "GET " + url[strings.Index(url, "/live"):] + " "; !strings.HasPrefix(first, want) {
			bad = "request " + first
		}
		var h bytes.Buffer
		h.WriteString("HTTP/1.1 200 OK\r\nContent-Type: video/x-flv\r\n")
		switch framing {
		case "length":
			fmt.Fprintf(&h, "Content-Length: %d\r\n\r\n", len(b))
		case "chunked":
			h.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		default:
			h.WriteString("Connection: close\r\n\r\n")
		}
		if _, err := c.Write(h.Bytes()); err != nil {
			return
		}
		d := b[:early]
		for len(d) > 0 {
			n := len(d)
			if live || framing == "chunked" {
				n = min(n, vsim.Range(vsim.StWork, 1, 20000))
			}
			out := d[:n]
			if framing == "chunked" {
				out = append([]byte(fmt.Sprintf("%x\r\n", n)), out...)
				out = append(out, '\r', '\n')
			}
			if _, err := c.Write(out); err != nil {
				return
			}
			d = d[n:]
			if live {
				gap()
			}
		}
		if early == len(b) && framing == "chunked" {
			c.Write([]byte("0\r\n\r\n"))
		}
		if mode == "reset" {
			c.Reset()
			return
		}
		c.CloseWrite()
		io.Copy(io.Discard, c)
		c.Close()
	})
	rx := &rxLog{}
	opened := false
	sut.Go("reader", func() {
		err := openRead(url, rx, func() { opened = true })
		rx.done = true
		if err == nil {
			vsim.Probe("http_stream_opened")
		}
	})
	limit := 600*time.Second + transferTime(&link, len(b)*2) + time.Duration(len(b)/100)*20*time.Second
	ok := vsim.WaitUntil(50*time.Millisecond, limit, func() bool { return rx.done || vsim.Failed() })
	if vsim.Failed() {
		return
	}
	if bad != "" {
		fail("C10", "request", "%s", bad)
		return
	}
	if !checkPrefix("C10", "http", media, rx.pkts) {
		return
	}
	if !ok {
		fail("C10", "stuck", "reader neither progresses nor ends")
		return
	}
	faulty := mode != "none" && mode != "stall"
	if !faulty {
		if len(rx.pkts) != len(media) || rx.err != io.EOF {
			fail("C10", "lost", "http stream carried %d packets, reader got %d then %v", len(media), len(rx.pkts), rx.err)
		}
		vsim.Probe("http_complete")
		return
	}
	if mode == "close_early" && opened {
		n := 0
		for n < len(ends) && ends[n] <= early {
			n++
		}
		if len(rx.pkts) < n {
			fail("C10", "lost", "http stream ended after %d packets, reader got %d (%v)", n, len(rx.pkts), rx.err)
		}
	}
	if len(rx.pkts) < len(media) && rx.err == io.EOF && (framing != "close" || mode == "reset" || mode == "cut") {
		fail("C10", "error_hidden", "an interrupted http stream (%s, %s) was reported as its orderly end after %d of %d packets", mode, framing, len(rx.pkts), len(media))
	}
	vsim.Probe("http_" + mode)
}
