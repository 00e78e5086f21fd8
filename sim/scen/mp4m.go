package scen

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"time"

	"vsim/vsim"
)

// An MP4 parser and builder that share nothing with the code under test.

type mp4Sample struct {
	off  int64
	size int
	dts  int64
	ctts int64
	key  bool
}

type mp4Track struct {
	kind    string // sample entry
	conf    []byte
	scale   int64
	dur     int64 // mdhd
	tkDur   int64
	id      uint32
	w, h    int
	ch      int
	rate    int
	samples []mp4Sample
	sum     int64  // of stts
	synced  bool   // has stss
	odd     string // what is formally wrong with it
}

type mp4File struct {
	tracks  []*mp4Track
	mdat    [][2]int64
	scale   int64
	dur     int64
	sawMoov bool
	odd     string
}

type mbox struct {
	typ  string
	body []byte
	at   int64 // of the body
}

func mboxes(b []byte, at int64) (l []mbox, err error) {
	for o := 0; o < len(b); {
		if len(b)-o < 8 {
			return l, fmt.Errorf("%d stray bytes", len(b)-o)
		}
		n, h := int64(binary.BigEndian.Uint32(b[o:])), 8
		typ := string(b[o+4 : o+8])
		if n == 1 && len(b)-o >= 16 {
			n, h = int64(binary.BigEndian.Uint64(b[o+8:])), 16
		} else if n == 0 {
			n = int64(len(b) - o)
		}
		if n < int64(h) || n > int64(len(b)-o) {
			return l, fmt.Errorf("box %q has size %d in %d bytes", typ, n, len(b)-o)
		}
		l = append(l, mbox{typ, b[o+h : o+int(n)], at + int64(o+h)})
		o += int(n)
	}
	return
}

func mfind(l []mbox, typ string) *mbox {
	for i := range l {
		if l[i].typ == typ {
			return &l[i]
		}
	}
	return nil
}

// mchild parses the box typ of l, whose payload starts skip bytes in.
func mchild(l []mbox, typ string, skip int) ([]mbox, error) {
	b := mfind(l, typ)
	if b == nil {
		return nil, fmt.Errorf("no %s", typ)
	}
	if len(b.body) < skip {
		return nil, fmt.Errorf("short %s", typ)
	}
	k, err := mboxes(b.body[skip:], b.at+int64(skip))
	if err != nil {
		err = fmt.Errorf("in %s: %v", typ, err)
	}
	return k, err
}

// mtable returns the entries of a full box with n words each.
func mtable(l []mbox, typ string, words int) (t [][]uint32, ver byte, err error) {
	b := mfind(l, typ)
	if b == nil {
		return nil, 0, fmt.Errorf("no %s", typ)
	}
	if len(b.body) < 8 {
		return nil, 0, fmt.Errorf("short %s", typ)
	}
	n := int(binary.BigEndian.Uint32(b.body[4:]))
	if len(b.body) != 8+n*4*words {
		return nil, 0, fmt.Errorf("%s: %d entries in %d bytes", typ, n, len(b.body))
	}
	for i := 0; i < n; i++ {
		e := make([]uint32, words)
		for k := range e {
			e[k] = binary.BigEndian.Uint32(b.body[8+(i*words+k)*4:])
		}
		t = append(t, e)
	}
	return t, b.body[0], nil
}

type mdesc struct {
	tag  byte
	body []byte
}

func mdescs(b []byte) (l []mdesc, err error) {
	for len(b) > 0 {
		tag, n, i := b[0], 0, 1
		for ; ; i++ {
			if i >= len(b) || i > 4 {
				return l, fmt.Errorf("descriptor %d: bad length", tag)
			}
			n = n<<7 | int(b[i]&0x7f)
			if b[i]&0x80 == 0 {
				i++
				break
			}
		}
		if n > len(b)-i {
			return l, fmt.Errorf("descriptor %d: %d bytes of %d", tag, n, len(b)-i)
		}
		l = append(l, mdesc{tag, b[i : i+n]})
		b = b[i+n:]
	}
	return
}

func mesds(b []byte) ([]byte, error) {
	if len(b) < 4 {
		return nil, fmt.Errorf("short esds")
	}
	l, err := mdescs(b[4:])
	if err != nil {
		return nil, err
	}
	if len(l) != 1 || l[0].tag != 3 || len(l[0].body) < 3 {
		return nil, fmt.Errorf("no ES descriptor")
	}
	if l, err = mdescs(l[0].body[3:]); err != nil {
		return nil, err
	}
	for _, d := range l {
		if d.tag != 4 {
			continue
		}
		if len(d.body) < 13 || d.body[0] != 0x40 {
			return nil, fmt.Errorf("decoder config is not MPEG-4 audio")
		}
		if l, err = mdescs(d.body[13:]); err != nil {
			return nil, err
		}
		for _, d := range l {
			if d.tag == 5 {
				return d.body, nil
			}
		}
	}
	return nil, fmt.Errorf("no decoder config")
}

func mp4Parse(b []byte) (f *mp4File, err error) {
	f = &mp4File{}
	top, err := mboxes(b, 0)
	if err != nil {
		return f, err
	}
	for _, x := range top {
		if x.typ == "mdat" {
			f.mdat = append(f.mdat, [2]int64{x.at, x.at + int64(len(x.body))})
		}
	}
	return f, f.movie(top)
}

var mIdentity = []byte{0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x40, 0, 0, 0}

func (f *mp4File) movie(top []mbox) error {
	moov, err := mchild(top, "moov", 0)
	if err != nil {
		return err
	}
	f.sawMoov = true
	mvhd := mfind(moov, "mvhd")
	if mvhd == nil || len(mvhd.body) != 100 || mvhd.body[0] != 0 {
		return fmt.Errorf("mvhd")
	}
	f.scale, f.dur = int64(binary.BigEndian.Uint32(mvhd.body[12:])), int64(binary.BigEndian.Uint32(mvhd.body[16:]))
	for _, x := range moov {
		if x.typ == "trak" {
			t, err := mp4ParseTrack(x)
			if err != nil {
				return fmt.Errorf("track %d: %v", len(f.tracks)+1, err)
			}
			f.tracks = append(f.tracks, t)
		}
	}
	next := binary.BigEndian.Uint32(mvhd.body[96:])
	switch {
	case binary.BigEndian.Uint32(mvhd.body[20:]) != 0x10000:
		f.odd = "the preferred rate is not 1"
	case binary.BigEndian.Uint16(mvhd.body[24:]) != 0x100:
		f.odd = "the preferred volume is not 1"
	case !bytes.Equal(mvhd.body[36:72], mIdentity):
		f.odd = "the transformation matrix is not unity"
	}
	for _, t := range f.tracks {
		if f.odd == "" {
			f.odd = t.odd
		}
		if t.id >= next && f.odd == "" {
			f.odd = fmt.Sprintf("next track id is %d, track %d exists", next, t.id)
		}
	}
	return nil
}

func mp4ParseTrack(x mbox) (t *mp4Track, err error) {
	t = &mp4Track{}
	trak, err := mboxes(x.body, x.at)
	if err != nil {
		return t, err
	}
	tkhd := mfind(trak, "tkhd")
	if tkhd == nil || len(tkhd.body) != 84 {
		return t, fmt.Errorf("tkhd")
	}
	t.id = binary.BigEndian.Uint32(tkhd.body[12:])
	t.tkDur = int64(binary.BigEndian.Uint32(tkhd.body[20:]))
	tw, th := binary.BigEndian.Uint32(tkhd.body[76:]), binary.BigEndian.Uint32(tkhd.body[80:])
	switch {
	case tkhd.body[3]&3 != 3:
		t.odd = fmt.Sprintf("track flags %#x: not enabled in the movie", tkhd.body[3])
	case !bytes.Equal(tkhd.body[40:76], mIdentity):
		t.odd = "the transformation matrix of the track is not unity"
	}
	mdia, err := mchild(trak, "mdia", 0)
	if err != nil {
		return t, err
	}
	mdhd := mfind(mdia, "mdhd")
	if mdhd == nil || len(mdhd.body) != 24 {
		return t, fmt.Errorf("mdhd")
	}
	t.scale, t.dur = int64(binary.BigEndian.Uint32(mdhd.body[12:])), int64(binary.BigEndian.Uint32(mdhd.body[16:]))
	hdlr := mfind(mdia, "hdlr")
	if hdlr == nil || len(hdlr.body) < 20 {
		return t, fmt.Errorf("hdlr")
	}
	minf, err := mchild(mdia, "minf", 0)
	if err != nil {
		return t, err
	}
	refs, err := mselfRefs(minf)
	if err != nil {
		return t, err
	}
	stbl, err := mchild(minf, "stbl", 0)
	if err != nil {
		return t, err
	}
	stsd, err := mchild(stbl, "stsd", 8)
	if err != nil {
		return t, err
	}
	if len(stsd) != 1 || binary.BigEndian.Uint32(mfind(stbl, "stsd").body[4:]) != 1 {
		return t, fmt.Errorf("%d sample entries", len(stsd))
	}
	t.kind = stsd[0].typ
	e := stsd[0].body
	if len(e) >= 8 {
		if r := int(binary.BigEndian.Uint16(e[6:])); r < 1 || r > len(refs) || !refs[r-1] {
			t.odd = fmt.Sprintf("samples are in data reference %d, of the %d the file itself is %v", r, len(refs), refs)
		}
	}
	vol := binary.BigEndian.Uint16(tkhd.body[36:])
	switch {
	case t.kind == "avc1" && len(e) >= 78:
		if string(hdlr.body[8:12]) != "vide" {
			return t, fmt.Errorf("handler %q of avc1", hdlr.body[8:12])
		}
		t.w, t.h = int(binary.BigEndian.Uint16(e[24:])), int(binary.BigEndian.Uint16(e[26:]))
		switch {
		case mfind(minf, "vmhd") == nil:
			t.odd = "no vmhd"
		case tw != uint32(t.w)<<16 || th != uint32(t.h)<<16:
			t.odd = fmt.Sprintf("the track is shown at %g x %g, the pictures are %d x %d", float64(tw)/65536, float64(th)/65536, t.w, t.h)
		case vol != 0:
			t.odd = "a video track has a volume"
		case binary.BigEndian.Uint16(e[40:]) != 1:
			t.odd = "not one frame per sample"
		case binary.BigEndian.Uint16(e[74:]) != 0x18:
			t.odd = "colour depth is not 24"
		case binary.BigEndian.Uint16(e[76:]) != 0xffff:
			t.odd = "colour table"
		}
		k, err := mchild(stsd, "avc1", 78)
		if err != nil {
			return t, err
		}
		c := mfind(k, "avcC")
		if c == nil {
			return t, fmt.Errorf("no avcC")
		}
		t.conf = c.body
	case t.kind == "mp4a" && len(e) >= 28:
		if string(hdlr.body[8:12]) != "soun" {
			return t, fmt.Errorf("handler %q of mp4a", hdlr.body[8:12])
		}
		t.ch, t.rate = int(binary.BigEndian.Uint16(e[16:])), int(binary.BigEndian.Uint16(e[24:]))
		switch {
		case mfind(minf, "smhd") == nil:
			t.odd = "no smhd"
		case vol != 0x100:
			t.odd = "the volume of the audio track is not 1"
		case tw != 0 || th != 0:
			t.odd = "an audio track has a size"
		}
		k, err := mchild(stsd, "mp4a", 28)
		if err != nil {
			return t, err
		}
		c := mfind(k, "esds")
		if c == nil {
			return t, fmt.Errorf("no esds")
		}
		if t.conf, err = mesds(c.body); err != nil {
			return t, fmt.Errorf("esds: %v", err)
		}
	default:
		return t, fmt.Errorf("sample entry %q", t.kind)
	}
	return t, mp4Samples(t, stbl)
}

// mselfRefs tells which data references of a track are the file itself.
func mselfRefs(minf []mbox) (l []bool, err error) {
	dinf, err := mchild(minf, "dinf", 0)
	if err != nil {
		return nil, err
	}
	refs, err := mchild(dinf, "dref", 8)
	if err != nil {
		return nil, err
	}
	if n := binary.BigEndian.Uint32(mfind(dinf, "dref").body[4:]); int(n) != len(refs) {
		return nil, fmt.Errorf("dref: %d entries, announced are %d", len(refs), n)
	}
	for _, r := range refs {
		l = append(l, len(r.body) >= 4 && r.typ == "url " && r.body[3]&1 == 1)
	}
	return l, nil
}

func mp4Samples(t *mp4Track, stbl []mbox) error {
	stts, _, err := mtable(stbl, "stts", 2)
	if err != nil {
		return err
	}
	stsc, _, err := mtable(stbl, "stsc", 3)
	if err != nil {
		return err
	}
	co, words := "stco", 1
	if mfind(stbl, co) == nil {
		co, words = "co64", 2
	}
	stco, _, err := mtable(stbl, co, words)
	if err != nil {
		return err
	}
	z := mfind(stbl, "stsz")
	if z == nil || len(z.body) < 12 {
		return fmt.Errorf("no stsz")
	}
	fixed, n := int(binary.BigEndian.Uint32(z.body[4:])), int(binary.BigEndian.Uint32(z.body[8:]))
	if fixed == 0 && len(z.body) != 12+4*n || n > 1<<20 {
		return fmt.Errorf("stsz: %d samples in %d bytes", n, len(z.body))
	}
	for i := 0; i < n; i++ {
		s := mp4Sample{size: fixed}
		if fixed == 0 {
			s.size = int(binary.BigEndian.Uint32(z.body[12+4*i:]))
		}
		t.samples = append(t.samples, s)
	}
	i, d := 0, int64(0)
	for _, e := range stts {
		for k := uint32(0); k < e[0]; k++ {
			if i >= n {
				return fmt.Errorf("stts covers more than %d samples", n)
			}
			t.samples[i].dts = d
			d += int64(e[1])
			i++
		}
	}
	if i != n {
		return fmt.Errorf("stts covers %d of %d samples", i, n)
	}
	t.sum = d
	if mfind(stbl, "ctts") != nil {
		ctts, ver, err := mtable(stbl, "ctts", 2)
		if err != nil {
			return err
		}
		i = 0
		for _, e := range ctts {
			for k := uint32(0); k < e[0]; k++ {
				if i >= n {
					return fmt.Errorf("ctts covers more than %d samples", n)
				}
				t.samples[i].ctts = int64(e[1])
				if ver != 0 {
					t.samples[i].ctts = int64(int32(e[1]))
				}
				i++
			}
		}
		if i != n && len(ctts) > 0 {
			return fmt.Errorf("ctts covers %d of %d samples", i, n)
		}
	}
	if mfind(stbl, "stss") != nil {
		stss, _, err := mtable(stbl, "stss", 1)
		if err != nil {
			return err
		}
		t.synced = true
		last := uint32(0)
		for _, e := range stss {
			if e[0] <= last || int(e[0]) > n {
				return fmt.Errorf("stss: sample %d after %d of %d", e[0], last, n)
			}
			last = e[0]
			t.samples[e[0]-1].key = true
		}
	} else {
		for i := range t.samples {
			t.samples[i].key = true
		}
	}
	i = 0
	g := 0
	for c := range stco {
		for g+1 < len(stsc) && int(stsc[g+1][0]) <= c+1 {
			g++
		}
		if len(stsc) == 0 || int(stsc[0][0]) != 1 || stsc[g][2] != 1 {
			return fmt.Errorf("stsc")
		}
		o := int64(stco[c][0])
		if words == 2 {
			o = o<<32 | int64(stco[c][1])
		}
		for k := uint32(0); k < stsc[g][1]; k++ {
			if i >= n {
				return fmt.Errorf("chunks hold more than %d samples", n)
			}
			t.samples[i].off = o
			o += int64(t.samples[i].size)
			i++
		}
	}
	if i != n {
		return fmt.Errorf("chunks hold %d of %d samples", i, n)
	}
	return nil
}

func ticks(ts, scale int64) time.Duration {
	return time.Duration(ts/scale)*time.Second + time.Duration(ts%scale)*time.Second/time.Duration(scale)
}

// ---- builder ----

func mb(typ string, parts ...[]byte) []byte {
	n := 8
	for _, p := range parts {
		n += len(p)
	}
	b := append(be32(uint32(n)), typ...)
	for _, p := range parts {
		b = append(b, p...)
	}
	return b
}

func mfull(typ string, ver byte, flags uint32, parts ...[]byte) []byte {
	return mb(typ, append([][]byte{u24([]byte{ver}, flags)}, parts...)...)
}

func words(v ...uint32) (b []byte) {
	for _, x := range v {
		b = append(b, be32(x)...)
	}
	return
}

type bSample struct {
	dur  uint32
	ctts int32
	key  bool
	data []byte
	dts  int64
	off  int64
}

type bTrack struct {
	kind   string // avc1, mp4a, text, mp4v
	conf   []byte
	a      audioConf
	v      videoConf
	scale  uint32
	s      []bSample
	fixed  int
	stss   bool
	ctts   int   // -1 none, or the version
	chunks []int // samples per chunk
	offs   []int64
	noise  bool
	ltyp   int    // descriptor length bytes
	at     int    // read position
	desc   []byte // replaces the descriptors, if set (malformed)
}

func (t *bTrack) time(i int) time.Duration { return ticks(t.s[i].dts, int64(t.scale)) }

// lastAt is the last sample at or before tm.
func (t *bTrack) lastAt(tm time.Duration) int {
	r := 0
	for i := range t.s {
		if t.time(i) <= tm {
			r = i
		}
	}
	return r
}

// mnoise is a box nobody knows.
func mnoise(on bool) []byte {
	if !on || !vsim.Bool(vsim.StWork, 1, 4) {
		return nil
	}
	return mb(vsim.Pick(vsim.StWork, "free", "udta", "sgpd", "edts", "uuid", "meta"), payload(7, vsim.Draw(vsim.StWork, 40)))
}

func mdescB(tag byte, lenBytes int, body []byte) []byte {
	b := []byte{tag}
	for i := lenBytes - 1; i > 0; i-- {
		b = append(b, byte(len(body)>>(7*uint(i)))&0x7f|0x80)
	}
	b = append(b, byte(len(body))&0x7f)
	return append(b, body...)
}

func (t *bTrack) entry() []byte {
	switch t.kind {
	case "avc1":
		h := make([]byte, 78)
		h[7] = 1
		binary.BigEndian.PutUint16(h[24:], 320)
		binary.BigEndian.PutUint16(h[26:], 240)
		h[41] = 1
		h[75] = 24
		h[76], h[77] = 0xff, 0xff
		return mb("avc1", h, mnoise(t.noise), mb("avcC", t.conf), mnoise(t.noise))
	case "mp4a":
		h := make([]byte, 28)
		h[7], h[17], h[19] = 1, 2, 16
		if t.desc != nil {
			return mb("mp4a", h, mfull("esds", 0, 0, t.desc), mnoise(t.noise))
		}
		binary.BigEndian.PutUint16(h[24:], 44100)
		dc := append([]byte{0x40, 0x15, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, mdescB(5, t.ltyp, t.conf)...)
		es := append([]byte{0, 1, 0}, mdescB(4, t.ltyp, dc)...)
		if t.noise {
			es = append(es, mdescB(6, t.ltyp, []byte{2})...)
		}
		return mb("mp4a", h, mfull("esds", 0, 0, mdescB(3, t.ltyp, es)), mnoise(t.noise))
	case "mp4v":
		return mb("mp4v", make([]byte, 78), mfull("esds", 0, 0, payload(1, 20)))
	}
	return mb("tx3g", payload(2, 38))
}

func (t *bTrack) trak(id uint32) []byte {
	total := int64(0)
	var stts, ctts, stss, stsz, stsc, stco []byte
	nt, nc, ns, nsc := uint32(0), uint32(0), uint32(0), uint32(0)
	for i := 0; i < len(t.s); {
		j := i
		for j < len(t.s) && t.s[j].dur == t.s[i].dur && (!t.noise || j == i || (i+j)%7 != 0) {
			j++
		}
		if t.noise && i%11 == 3 {
			stts = append(stts, words(0, 77)...)
			nt++
		}
		stts = append(stts, words(uint32(j-i), t.s[i].dur)...)
		nt++
		i = j
	}
	for i := 0; i < len(t.s); {
		j := i
		for j < len(t.s) && t.s[j].ctts == t.s[i].ctts && (!t.noise || j == i || (i+j)%5 != 0) {
			j++
		}
		ctts = append(ctts, words(uint32(j-i), uint32(t.s[i].ctts))...)
		nc++
		i = j
	}
	for i, s := range t.s {
		total += int64(s.dur)
		if s.key {
			stss = append(stss, be32(uint32(i+1))...)
			ns++
		}
		stsz = append(stsz, be32(uint32(len(s.data)))...)
	}
	for i, n := range t.chunks {
		if i == 0 || n != t.chunks[i-1] || t.noise && i%3 == 0 {
			stsc = append(stsc, words(uint32(i+1), uint32(n), 1)...)
			nsc++
		}
		stco = append(stco, be32(uint32(t.offs[i]))...)
	}
	stbl := [][]byte{mfull("stsd", 0, 0, be32(1), t.entry()), mnoise(t.noise),
		mfull("stts", 0, 0, be32(nt), stts)}
	if t.stss {
		stbl = append(stbl, mfull("stss", 0, 0, be32(ns), stss))
	}
	if t.ctts >= 0 {
		stbl = append(stbl, mfull("ctts", byte(t.ctts), 0, be32(nc), ctts))
	}
	stbl = append(stbl, mnoise(t.noise), mfull("stsc", 0, 0, be32(nsc), stsc))
	if t.fixed > 0 {
		stbl = append(stbl, mfull("stsz", 0, 0, be32(uint32(t.fixed)), be32(uint32(len(t.s)))))
	} else {
		stbl = append(stbl, mfull("stsz", 0, 0, be32(0), be32(uint32(len(t.s))), stsz))
	}
	if t.kind == "text" && t.noise {
		stbl = append(stbl, mfull("co64", 0, 0, be32(0)))
	} else {
		stbl = append(stbl, mfull("stco", 0, 0, be32(uint32(len(t.offs))), stco))
	}
	sub := map[string]string{"avc1": "vide", "mp4v": "vide", "mp4a": "soun", "text": "text"}[t.kind]
	hd := mfull("vmhd", 0, 1, make([]byte, 8))
	if sub != "vide" {
		hd = mfull("smhd", 0, 0, make([]byte, 4))
	}
	dinf := mb("dinf", mfull("dref", 0, 0, be32(1), mfull("url ", 0, 1)))
	minf := mb("minf", hd, mnoise(t.noise), dinf, mb("stbl", stbl...))
	mdhd := mfull("mdhd", 0, 0, words(0, 0, t.scale, uint32(total)), []byte{0x55, 0xc4, 0, 0})
	hdlr := mfull("hdlr", 0, 0, be32(0), []byte(sub), make([]byte, 12), []byte("x\x00"))
	tk := make([]byte, 80)
	binary.BigEndian.PutUint32(tk[8:], id)
	return mb("trak", mfull("tkhd", 0, 3, tk), mnoise(t.noise), mb("mdia", mdhd, hdlr, mnoise(t.noise), minf))
}

type mp4Build struct {
	tracks []*bTrack
	noise  bool
	front  bool // moov first
	large  bool // 64 bit mdat size
	open   bool // size 0 for the last mdat
	moov   [2]int
}

func genMP4Build(seekable bool) *mp4Build {
	m := &mp4Build{noise: vsim.Bool(vsim.StWork, 1, 2), front: vsim.Bool(vsim.StWork, 1, 2), large: vsim.Bool(vsim.StWork, 1, 4)}
	m.open = m.front && vsim.Bool(vsim.StWork, 1, 4)
	kinds := vsim.Pick(vsim.StWork, []string{"avc1", "mp4a"}, []string{"mp4a", "avc1"}, []string{"avc1"}, []string{"mp4a"},
		[]string{"avc1", "mp4a", "mp4a"}, []string{"text", "avc1", "mp4v", "mp4a"})
	id := 0
	for _, k := range kinds {
		t := &bTrack{kind: k, noise: m.noise && vsim.Bool(vsim.StWork, 2, 3), ltyp: vsim.Pick(vsim.StWork, 4, 1, 2), ctts: -1}
		t.scale = vsim.Pick[uint32](vsim.StWork, 90000, 1000, 44100, 48000, 600, 1, 10000000, 1000000, 12800)
		switch k {
		case "avc1":
			t.v = genVideoConf()
			t.conf = t.v.avcc
			if t.v.sps[1] >= 100 && vsim.Bool(vsim.StWork, 1, 2) {
				t.conf = append(t.conf[:len(t.conf):len(t.conf)], 0xfd, 0xf8, 0xf8, 0)
			}
			t.ctts = vsim.Pick(vsim.StWork, -1, 0, 1)
			t.stss = vsim.Bool(vsim.StWork, 3, 4)
		case "mp4a":
			t.a = genAudioConf()
			t.conf = t.a.b
		}
		n := vsim.Range(vsim.StWork, 1, 60)
		if vsim.Bool(vsim.StWork, 1, 12) {
			n = 0
		}
		if vsim.Bool(vsim.StWork, 1, 4) {
			t.fixed = vsim.Range(vsim.StWork, 8, 400)
			if vsim.Bool(vsim.StWork, 1, 12) {
				n, t.fixed = min(n, 8), vsim.Range(vsim.StWork, 60000, 140000)
			}
		}
		long := vsim.Bool(vsim.StWork, 1, 6)
		noKey := t.stss && !seekable && vsim.Bool(vsim.StWork, 1, 10)
		gop := vsim.Range(vsim.StWork, 1, 12)
		d := int64(0)
		step := vsim.Range(vsim.StWork, 0, int(t.scale)/10+1)
		for i := 0; i < n; i++ {
			s := bSample{dts: d, key: true}
			if t.stss {
				s.key = !noKey && (i == 0 && seekable || i%gop == 0 && !(i == 0 && t.noise && !seekable) || vsim.Bool(vsim.StWork, 1, 20))
			}
			switch vsim.Weighted(vsim.StWork, 12, 1, 2) {
			case 0:
				s.dur = uint32(step)
			case 1:
				s.dur = 0
			case 2:
				s.dur = uint32(vsim.Draw(vsim.StWork, int(t.scale)+2))
			}
			if long && vsim.Bool(vsim.StWork, 1, 3) {
				v := int64(t.scale) * int64(vsim.Range(vsim.StWork, 100, 3000))
				if v > 0xffffffff {
					v = 0xffffffff
				}
				s.dur = uint32(v)
			}
			d += int64(s.dur)
			if t.ctts >= 0 {
				s.ctts = int32(vsim.Pick(vsim.StWork, 0, step, 2*step, 3*step))
				if t.ctts == 1 && vsim.Bool(vsim.StWork, 1, 2) {
					s.ctts = -s.ctts
				}
			}
			size := t.fixed
			if size == 0 {
				size = 8 + genSize(800)
				if len(kinds) < 3 && vsim.Bool(vsim.StWork, 1, 20) {
					size = 0
				}
				if vsim.Bool(vsim.StWork, 1, 200) {
					size = vsim.Range(vsim.StWork, 60000, 300000)
				}
			}
			id++
			s.data = payload(id, size)
			t.s = append(t.s, s)
		}
		per := vsim.Range(vsim.StWork, 1, 6)
		for left := n; left > 0; {
			c := per
			if vsim.Bool(vsim.StWork, 1, 4) {
				c = vsim.Range(vsim.StWork, 1, 9)
			}
			if c > left {
				c = left
			}
			t.chunks = append(t.chunks, c)
			left -= c
		}
		t.offs = make([]int64, len(t.chunks))
		m.tracks = append(m.tracks, t)
	}
	return m
}

func (m *mp4Build) bytes() []byte {
	// order of the chunks in the file
	type ref struct{ t, c, first int }
	var order []ref
	next := make([]int, len(m.tracks))
	first := make([]int, len(m.tracks))
	for {
		var can []int
		for i, t := range m.tracks {
			if next[i] < len(t.chunks) {
				can = append(can, i)
			}
		}
		if len(can) == 0 {
			break
		}
		i := can[vsim.Draw(vsim.StWork, len(can))]
		order = append(order, ref{i, next[i], first[i]})
		first[i] += m.tracks[i].chunks[next[i]]
		next[i]++
	}
	if m.noise && vsim.Bool(vsim.StWork, 1, 4) {
		for i := len(order) - 1; i > 0; i-- {
			j := vsim.Draw(vsim.StWork, i+1)
			order[i], order[j] = order[j], order[i]
		}
	}
	var data []byte
	for _, r := range order {
		t := m.tracks[r.t]
		if m.noise && vsim.Bool(vsim.StWork, 1, 5) {
			data = append(data, payload(9, vsim.Draw(vsim.StWork, 30))...)
		}
		t.offs[r.c] = int64(len(data))
		for k := 0; k < t.chunks[r.c]; k++ {
			t.s[r.first+k].off = int64(len(data))
			data = append(data, t.s[r.first+k].data...)
		}
	}
	ftyp := mb("ftyp", []byte("isom"), be32(512), []byte("isomavc1"))
	if vsim.Bool(vsim.StWork, 1, 4) {
		ftyp = nil
	}
	pre := mnoise(m.noise)
	extra := mnoise(m.noise)
	var moov []byte
	{
		l := [][]byte{mfull("mvhd", 0, 0, words(0, 0, 1000, 0), make([]byte, 80)), extra}
		for i, t := range m.tracks {
			l = append(l, t.trak(uint32(i+1)))
		}
		moov = mb("moov", l...)
	}
	hdr := mb("mdat")
	binary.BigEndian.PutUint32(hdr, uint32(8+len(data)))
	if m.large {
		hdr = append(append(be32(1), "mdat"...), 0, 0, 0, 0)
		hdr = append(hdr, be32(uint32(16+len(data)))...)
	} else if m.open {
		binary.BigEndian.PutUint32(hdr, 0)
	}
	base := len(ftyp) + len(pre) + len(hdr)
	if m.front {
		base += len(moov)
	}
	// the offsets are stored in place
	for _, t := range m.tracks {
		for i := range t.offs {
			t.offs[i] += int64(base)
		}
		for i := range t.s {
			t.s[i].off += int64(base)
		}
	}
	patchSTCO(moov, m.tracks)
	var b []byte
	b = append(append(b, ftyp...), pre...)
	if m.front {
		m.moov = [2]int{len(b), len(b) + len(moov)}
		b = append(b, moov...)
	}
	b = append(append(b, hdr...), data...)
	if !m.front {
		b = append(b, mnoise(m.noise)...)
		m.moov = [2]int{len(b), len(b) + len(moov)}
		b = append(b, moov...)
	}
	return b
}

// patchSTCO rewrites the chunk offsets of a moov box whose layout is final.
func patchSTCO(moov []byte, tracks []*bTrack) {
	k := 0
	top, err := mboxes(moov, 0)
	if err != nil {
		panic(err)
	}
	kids, err := mboxes(top[0].body, top[0].at)
	if err != nil {
		panic(err)
	}
	for _, x := range kids {
		if x.typ != "trak" {
			continue
		}
		t := tracks[k]
		k++
		l, _ := mboxes(x.body, x.at)
		mdia, _ := mchild(l, "mdia", 0)
		minf, _ := mchild(mdia, "minf", 0)
		stbl, err := mchild(minf, "stbl", 0)
		if err != nil {
			panic(err)
		}
		if c := mfind(stbl, "stco"); c != nil {
			for i, o := range t.offs {
				binary.BigEndian.PutUint32(moov[c.at+8+int64(4*i):], uint32(o))
			}
		}
	}
}

// mheaderCut tells whether cut falls inside the header of a top level box.
func mheaderCut(b []byte, cut int) bool {
	l, _ := mboxes(b, 0)
	o := int64(0)
	for _, x := range l {
		if int64(cut) > o && int64(cut) < x.at {
			return true
		}
		o = x.at + int64(len(x.body))
	}
	return false
}
