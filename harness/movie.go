package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"strings"

	mp4 "github.com/abema/go-mp4"
)

// This file generates whole movies (progressive and fragmented) together
// with the facts they store.

type bb struct{ b []byte }

func (w *bb) u8(v ...uint64) *bb {
	for _, x := range v {
		w.b = append(w.b, byte(x))
	}
	return w
}
func (w *bb) u16(v ...uint64) *bb {
	for _, x := range v {
		w.b = binary.BigEndian.AppendUint16(w.b, uint16(x))
	}
	return w
}
func (w *bb) u24(v uint64) *bb { w.b = append(w.b, byte(v>>16), byte(v>>8), byte(v)); return w }
func (w *bb) u32(v ...uint64) *bb {
	for _, x := range v {
		w.b = binary.BigEndian.AppendUint32(w.b, uint32(x))
	}
	return w
}
func (w *bb) u64(v ...uint64) *bb {
	for _, x := range v {
		w.b = binary.BigEndian.AppendUint64(w.b, x)
	}
	return w
}
func (w *bb) raw(p ...byte) *bb    { w.b = append(w.b, p...); return w }
func (w *bb) str(s string) *bb     { w.b = append(w.b, s...); return w }
func (w *bb) zero(n int) *bb       { w.b = append(w.b, make([]byte, n)...); return w }
func (w *bb) full(v, f uint64) *bb { return w.u8(v).u24(f) }

type mSample struct {
	size  uint32
	delta uint32
	cto   int64
	data  []byte
	idr   bool
}

type mChunk struct {
	first, n int
	off      uint64
	mdat     *node
	rel      uint64
	data     []byte
}

type mTrack struct {
	id        uint32
	timescale uint32
	duration  uint64
	kind      string // avc1 encv mp4a enca other
	avc       mp4.AVCDecConfigInfo
	hasAvcC   bool
	aac       mp4.MP4AInfo
	hasEsds   bool
	gaSync    bool // sync extension behind a GASpecificConfig: known finding
	elst      []mp4.EditListEntry
	hasElst   bool
	samples   []mSample
	chunks    []mChunk
	co64      bool
	chunkBox  *node
	trak      *node
}

type mSeg struct {
	track   int
	trackID uint32
	moof    *node
	tfhd    *node
	mdat    []*node
	bmdt    uint64
	defDur  uint32
	defSize uint32
	durs    []uint32 // effective per-sample values
	sizes   []uint32
	ctos    []int64
	hasTrun bool
	badly   bool
}

type movie struct {
	c         *Case
	f         *fileGen
	qt        bool
	ctx       mp4.Context
	major     string
	minor     uint32
	brands    []string
	hasFtyp   bool
	timescale uint32
	duration  uint64
	hasMvhd   bool
	fast      bool
	tracks    []*mTrack
	segs      []*mSeg
	ns        []*node
	moov      *node
	plain     bool // no extra boxes
	real      bool // sample data exist
	huge      bool
	nosample  bool // fragmented: empty sample tables
	posTime   bool // positive timescales and durations
	gaOK      bool // allow the sync extension behind a GASpecificConfig
	maxTracks int
	kinds     []string
	maxSample int
	ascii     bool // brands are ASCII
	large     bool // long lists of everything
	anyOrder  bool // fragments may precede the movie box, tracks be encrypted in part
}

func newMovie(c *Case) *movie {
	big := c.big
	c.big = 0
	defer func() { c.big = big }()
	m := &movie{c: c, f: newFileGen(c), maxTracks: 3, maxSample: 40}
	m.f.canon = false
	m.f.noTail = true
	return m
}

// mk makes a box with a definite payload.
func (m *movie) mk(t string, ctx mp4.Context, pay []byte, kids ...*node) *node {
	n := &node{typ: bt(t), hdr: 8, ctx: ctx, pay: pay, kids: kids}
	if m.c.Chance(8) {
		n.hdr = 16
	}
	n.spec = specFor(n.typ, ctx)
	if n.spec != nil {
		v, k, err := n.spec.Decode(pay, ctx)
		if err != nil || k != len(pay) && len(kids) > 0 {
			panic(fmt.Sprintf("generator: %s %x: %v (%d of %d)", t, pay, err, k, len(pay)))
		}
		n.val = v
	}
	return n
}

var movieTypes = map[string]bool{}

func init() {
	for _, t := range []string{"ftyp", "moov", "mvhd", "trak", "moof", "mdat", "tkhd", "edts", "elst", "mdia", "mdhd", "minf", "stbl", "stsd", "avc1", "avcC", "encv", "mp4a", "enca", "esds", "wave", "stco", "co64", "stts", "ctts", "stsc", "stsz", "traf", "tfhd", "tfdt", "trun", "keys", "mvex", "trex", "sidx", "pssh", "mfra", "\x00\x00\x00\x00"} {
		movieTypes[t] = true
	}
}

// extras draws boxes that have nothing to do with the movie's facts.
func (m *movie) extras(ctx mp4.Context) []*node {
	c := m.c
	if m.plain || !c.Chance(3) {
		return nil
	}
	var out []*node
	for i := c.Int(1, 2); i > 0; i-- {
		m.f.budget = 4
		n := m.f.box(ctx, 5, false)
		if movieTypes[string(n.typ[:])] || n.zeros > 0 {
			continue
		}
		out = append(out, n)
	}
	return out
}

// mix interleaves the boxes with extra ones, in arbitrary order.
func (m *movie) mix(ctx mp4.Context, ns []*node, shuffle bool) []*node {
	c := m.c
	if shuffle && c.Bool() {
		for i := len(ns) - 1; i > 0; i-- {
			j := c.Pick(i + 1)
			ns[i], ns[j] = ns[j], ns[i]
		}
	}
	for _, x := range m.extras(ctx) {
		i := c.Pick(len(ns) + 1)
		ns = append(ns[:i:i], append([]*node{x}, ns[i:]...)...)
	}
	return ns
}

func (m *movie) brand() string {
	c := m.c
	l := []string{"isom", "iso2", "avc1", "mp41", "mp42", "qt  ", "dash", "\xa9x\x00\xff"}
	if m.ascii {
		l[7] = "1234"
	}
	if !m.ascii && c.Chance(12) {
		return nearQT(c)
	}
	if c.Chance(3) {
		b := c.Bytes(4)
		if m.ascii {
			for i := range b {
				b[i] &= 0x7f
			}
		}
		return string(b)
	}
	return l[c.Pick(len(l))]
}

func (m *movie) ftyp() *node {
	c := m.c
	m.hasFtyp = true
	m.major = m.brand()
	m.minor = uint32(c.UBits(32))
	w := (&bb{}).str(m.major).u32(uint64(m.minor))
	k := c.Small(6)
	if m.large {
		k = c.Int(0, 100)
	}
	for ; k > 0; k-- {
		b := m.brand()
		m.brands = append(m.brands, b)
		if b == "qt  " {
			m.qt = true
		}
		w.str(b)
	}
	n := m.mk("ftyp", mp4.Context{}, w.b)
	m.ctx.IsQuickTimeCompatible = m.qt
	return n
}

func (m *movie) scale() uint32 {
	c := m.c
	if c.Bool() || m.posTime && c.Chance(3) {
		return []uint32{1000, 90000, 44100, 48000, 600, 1, 10240, 25}[c.Pick(8)]
	}
	if v := uint32(c.UBits(32)); v > 0 || !m.posTime {
		return v
	}
	return 7
}

// times writes version, flags, creation and modification time.
func (m *movie) times(v uint64, flags uint64) *bb {
	w := (&bb{}).full(v, flags)
	if v == 0 {
		return w.u32(m.c.UBits(32), m.c.UBits(32))
	}
	return w.u64(m.c.UBits(64), m.c.UBits(64))
}

func (w *bb) sized(v, x uint64) *bb {
	if v == 0 {
		return w.u32(x)
	}
	return w.u64(x)
}

func (m *movie) dur(v uint64) uint64 {
	if v == 0 {
		return m.c.UBits(32)
	}
	return m.c.UBits(64)
}

func (m *movie) mvhd() *node {
	c := m.c
	m.hasMvhd = true
	v := uint64(c.Pick(2))
	m.timescale, m.duration = m.scale(), m.dur(v)
	w := m.times(v, 0).u32(uint64(m.timescale)).sized(v, m.duration)
	w.u32(0x10000).u16(0x100, 0).zero(8)
	for i := 0; i < 9; i++ {
		w.u32(c.UBits(32))
	}
	w.zero(24).u32(c.UBits(32))
	return m.mk("mvhd", m.ctx, w.b)
}

func (m *movie) tkhd(t *mTrack) *node {
	c := m.c
	v := uint64(c.Pick(2))
	w := m.times(v, uint64(c.Pick(8))).u32(uint64(t.id), 0).sized(v, m.dur(v)).zero(8)
	w.u16(c.UBits(16), c.UBits(16), 0x100, 0)
	for i := 0; i < 9; i++ {
		w.u32(c.UBits(32))
	}
	w.u32(c.UBits(32), c.UBits(32))
	return m.mk("tkhd", m.ctx, w.b)
}

func (m *movie) mdhd(t *mTrack) *node {
	v := uint64(m.c.Pick(2))
	t.timescale, t.duration = m.scale(), m.dur(v)
	w := m.times(v, 0).u32(uint64(t.timescale)).sized(v, t.duration).u16(0x55c4, 0)
	return m.mk("mdhd", m.ctx, w.b)
}

func (m *movie) edts(t *mTrack) *node {
	c := m.c
	t.hasElst = true
	v := uint64(c.Pick(2))
	n := c.Pick(4)
	if m.large {
		n = c.Int(0, 300)
	}
	w := (&bb{}).full(v, 0).u32(uint64(n))
	for i := 0; i < n; i++ {
		var e mp4.EditListEntry
		if v == 0 {
			e.SegmentDuration = c.UBits(32)
			e.MediaTime = c.IBits(32)
			w.u32(e.SegmentDuration, uint64(e.MediaTime))
		} else {
			e.SegmentDuration = c.UBits(64)
			e.MediaTime = c.IBits(64)
			w.u64(e.SegmentDuration, uint64(e.MediaTime))
		}
		w.u16(c.UBits(16), c.UBits(16))
		t.elst = append(t.elst, e)
	}
	return m.mk("edts", m.ctx, nil, m.mix(m.ctx, []*node{m.mk("elst", m.ctx, w.b)}, false)...)
}

func (m *movie) visual(t *mTrack) *node {
	c := m.c
	t.avc.Width, t.avc.Height = uint16(c.UBits(16)), uint16(c.UBits(16))
	w := (&bb{}).zero(6).u16(1, 0, 0).zero(12).u16(uint64(t.avc.Width), uint64(t.avc.Height)).u32(0x480000, 0x480000, 0).u16(1).raw(c.Bytes(32)...).u16(24, 0xffff)
	w.b[42] %= 32
	kids := []*node{}
	if t.kind == "encv" {
		kids = append(kids, m.sinf("avc1"))
	}
	if t.hasAvcC {
		kids = append(kids, m.avcC(t))
	}
	return m.mk(t.kind, m.ctx, w.b, m.mix(m.ctx, kids, true)...)
}

func (m *movie) sinf(orig string) *node {
	return m.mk("sinf", m.ctx, nil, m.mk("frma", m.ctx, []byte(orig)), m.mk("schm", m.ctx, (&bb{}).full(0, 0).str("cenc").u32(0x10000).b))
}

func (m *movie) avcC(t *mTrack) *node {
	c := m.c
	a := &t.avc
	a.ConfigurationVersion = 1
	if c.Chance(4) {
		a.ConfigurationVersion = uint8(c.UBits(8))
	}
	a.Profile = []uint8{66, 77, 88, 100, 110, 122, 144, 244}[c.Pick(8)]
	a.ProfileCompatibility = uint8(c.UBits(8))
	a.Level = uint8(c.UBits(8))
	if a.LengthSize == 0 {
		a.LengthSize = []uint16{1, 2, 4}[c.Pick(3)]
	}
	w := (&bb{}).u8(uint64(a.ConfigurationVersion), uint64(a.Profile), uint64(a.ProfileCompatibility), uint64(a.Level), 0xfc|uint64(a.LengthSize-1))
	k := c.Pick(3)
	w.u8(0xe0 | uint64(k))
	for ; k > 0; k-- {
		b := c.Bytes(c.Small(20))
		w.u16(uint64(len(b))).raw(b...)
	}
	k = c.Pick(3)
	w.u8(uint64(k))
	for ; k > 0; k-- {
		b := c.Bytes(c.Small(20))
		w.u16(uint64(len(b))).raw(b...)
	}
	if highProfile(uint64(a.Profile)) && c.Bool() {
		w.u8(0xfd, 0xf8, 0xf8, 0)
	}
	return m.mk("avcC", m.ctx, w.b)
}

type bitAcc struct {
	b []byte
	n int
}

func (a *bitAcc) put(v uint64, bits int) {
	for i := bits - 1; i >= 0; i-- {
		if a.n%8 == 0 {
			a.b = append(a.b, 0)
		}
		a.b[a.n/8] |= byte(v>>uint(i)&1) << uint(7-a.n%8)
		a.n++
	}
}

func (a *bitAcc) aot(v uint64) {
	if v < 31 {
		a.put(v, 5)
	} else {
		a.put(31, 5)
		a.put(v-32, 6)
	}
}

// asc draws an AudioSpecificConfig and gives the object type to report.
func (m *movie) asc(t *mTrack) ([]byte, uint8) {
	c := m.c
	a := &bitAcc{}
	sfi := func() {
		if c.Bool() {
			a.put(15, 4)
			a.put(c.UBits(24), 24)
		} else {
			a.put(uint64(c.Pick(13)), 4)
		}
	}
	switch c.Pick(6) {
	case 0: // any object type
		v := uint64(c.Int(1, 94))
		for v == 31 || v == 2 {
			v++
		}
		a.aot(v)
		sfi()
		a.put(uint64(c.Pick(8)), 4)
		if c.Bool() {
			a.put(c.UBits(32), c.Int(0, 32))
		}
		return a.b, uint8(v)
	case 1, 2: // plain AAC-LC
		a.aot(2)
		sfi()
		a.put(uint64(c.Pick(8)), 4)
		a.put(0, 3)
		return a.b, 2
	case 3: // with the extension as the library looks for it
		a.aot(2)
		sfi()
		a.put(uint64(c.Pick(8)), 4)
		return m.ascExt(a, sfi)
	case 4: // the sync extension is something else
		a.aot(2)
		sfi()
		a.put(uint64(c.Pick(8)), 4)
		s := uint64(0x2b7) ^ 1<<uint(c.Pick(11))
		a.put(s, 11)
		a.aot(5)
		a.put(1, 1)
		a.put(3, 4)
		return a.b, 2
	default: // the standard's layout: a GASpecificConfig comes first
		if !m.gaOK || !c.Chance(4) {
			a.aot(2)
			sfi()
			a.put(uint64(c.Pick(8)), 4)
			a.put(0, 3)
			return a.b, 2
		}
		a.aot(2)
		a.put(uint64(c.Pick(13)), 4)
		a.put(uint64(c.Pick(8)), 4)
		a.put(0, 3)
		a.put(0x2b7, 11)
		a.aot(5)
		a.put(1, 1)
		a.put(uint64(c.Pick(13)), 4)
		t.gaSync = true
		return a.b, 5
	}
}

func (m *movie) ascExt(a *bitAcc, sfi func()) ([]byte, uint8) {
	c := m.c
	a.put(0x2b7, 11)
	x := []uint64{5, 22, 5, 5, 2, 29, 42}[c.Pick(7)]
	a.aot(x)
	if x != 5 && x != 22 {
		a.put(c.UBits(8), 8)
		return a.b, 2
	}
	if c.Chance(4) {
		a.put(0, 1)
		return a.b, 2
	}
	a.put(1, 1)
	if x == 22 {
		if c.Bool() {
			a.put(uint64(c.Pick(16)), 4)
		}
		return a.b, 5
	}
	sfi()
	switch c.Pick(4) {
	case 0:
		return a.b, 5
	case 1:
		a.put(0x548, 11)
		a.put(1, 1)
		return a.b, 29
	case 2:
		a.put(0x548, 11)
		a.put(0, 1)
		return a.b, 5
	}
	a.put(0x548^1<<uint(c.Pick(11)), 11)
	a.put(1, 1)
	return a.b, 5
}

func (m *movie) esds(t *mTrack, ctx mp4.Context) *node {
	c := m.c
	w := (&bb{}).full(0, 0)
	size := func(n int) {
		if c.Bool() {
			w.u8(0x80, 0x80, 0x80)
		}
		w.u8(uint64(n))
	}
	oti := uint64(0x40)
	if c.Chance(4) {
		oti = []uint64{0x67, 0x6b, 0x69, 0xdd, 1, 0x41}[c.Pick(6)]
	}
	t.aac.OTI = uint8(oti)
	var l []func()
	l = append(l, func() {
		w.u8(3)
		size(0x19)
		w.u16(c.UBits(16)).u8(0)
	}, func() {
		w.u8(4)
		size(13 + 4)
		w.u8(oti, 0x15).u24(c.UBits(24)).u32(c.UBits(32), c.UBits(32))
	})
	if oti == 0x40 || c.Bool() {
		b, aot := m.asc(t)
		if oti == 0x40 {
			t.aac.AudOTI = aot
		} else {
			t.gaSync = false
		}
		l = append(l, func() {
			w.u8(5)
			size(len(b))
			w.raw(b...)
		})
	}
	if c.Bool() {
		l = append(l, func() {
			w.u8(6)
			size(1)
			w.u8(2)
		})
	}
	for k := c.Pick(9) - 5; k > 0; k-- {
		// descriptors of other kinds
		tag := uint64([]int{1, 2, 7, 9, 0x0a, 0x0e, 0x40, 0x7f, 0x80, 0xc0, 0xfe}[c.Pick(11)])
		b := c.Bytes(c.Small(20))
		i := c.Pick(len(l) + 1)
		l = append(l[:i:i], append([]func(){func() {
			w.u8(tag)
			size(len(b))
			w.raw(b...)
		}}, l[i:]...)...)
	}
	if c.Chance(4) {
		// they are told apart by their tags, not by their order
		for i := len(l) - 1; i > 0; i-- {
			j := c.Pick(i + 1)
			l[i], l[j] = l[j], l[i]
		}
	}
	for _, d := range l {
		d()
	}
	return m.mk("esds", ctx, w.b)
}

func (m *movie) audio(t *mTrack) *node {
	c := m.c
	t.aac.ChannelCount = uint16(c.Pick(9))
	if c.Chance(4) {
		t.aac.ChannelCount = uint16(c.UBits(16))
	}
	ev := uint64(0)
	if m.qt {
		ev = uint64(c.Pick(3))
	}
	w := (&bb{}).zero(6).u16(1, ev, 0, 0, 0).u16(uint64(t.aac.ChannelCount), 16, 0, 0).u32(48000 << 16)
	switch ev {
	case 1:
		w.raw(c.Bytes(16)...)
	case 2:
		w.raw(c.Bytes(36)...)
	}
	var kids []*node
	if t.kind == "enca" {
		kids = append(kids, m.sinf("mp4a"))
	}
	if t.hasEsds {
		if m.qt && t.kind == "mp4a" && c.Bool() {
			ctx := m.ctx
			ctx.UnderWave = true
			e := m.esds(t, ctx)
			ks := []*node{m.mk("frma", ctx, []byte("mp4a"))}
			if c.Bool() {
				// the sample entry's type below wave, without its fields
				ks = append(ks, m.mk("mp4a", ctx, c.Bytes(c.Pick(12))))
			}
			ks = append(ks, e)
			kids = append(kids, m.mk("wave", m.ctx, nil, ks...))
		} else {
			kids = append(kids, m.esds(t, m.ctx))
		}
	}
	return m.mk(t.kind, m.ctx, w.b, m.mix(m.ctx, kids, true)...)
}

func (m *movie) entry(t *mTrack) *node {
	c := m.c
	switch t.kind {
	case "avc1", "encv":
		return m.visual(t)
	case "mp4a", "enca":
		return m.audio(t)
	}
	n := m.f.typed(bt([]string{"hvc1", "Opus", "stpp", "wvtt", "av01", "vp09", "text"}[c.Pick(7)]), m.ctx)
	return n
}

// nal draws a sample made of length-prefixed units.
func (m *movie) nal(t *mTrack, sm *mSample) {
	c := m.c
	ls := int(t.avc.LengthSize)
	if ls == 0 {
		ls = 4
	}
	var w []byte
	for i := c.Small(5); i > 0; i-- {
		n := c.Small(40)
		if ls > 1 && c.Chance(12) {
			n = c.Int(250, 600)
		}
		if ls == 4 && c.Chance(60) {
			n = c.Int(65530, 66000)
		}
		if ls == 1 && n > 255 {
			n = 255
		}
		b := c.Bytes(n)
		if n > 0 {
			typ := byte([]int{1, 1, 6, 7, 8, 9, 2, 4, 13, 21, 31}[c.Pick(11)])
			if c.Chance(12) {
				typ = 5
			}
			b[0] = byte(c.Pick(8))<<5 | typ
			if typ == 5 {
				sm.idr = true
			}
			for k := 1; k < n && k < 4; k++ {
				if c.Bool() {
					b[k] = 0x65
				}
			}
		}
		var l [4]byte
		binary.BigEndian.PutUint32(l[:], uint32(n))
		w = append(w, l[4-ls:]...)
		w = append(w, b...)
	}
	sm.data = w
	sm.size = uint32(len(w))
}

func (m *movie) sampleTables(t *mTrack) []*node {
	c := m.c
	// chunks and their samples
	n := 0
	spc := 0
	if !m.nosample {
		nch := c.Small(12)
		if m.large {
			nch = c.Int(0, 400)
		}
		for i := 0; i < nch && n < m.maxSample; i++ {
			if i == 0 || c.Bool() {
				spc = c.Int(1, 5)
				if c.Chance(10) {
					spc = c.Int(1, 40)
				}
				if m.maxSample > 1000 && c.Chance(3) {
					spc = c.Int(1, 4000)
				}
			}
			t.chunks = append(t.chunks, mChunk{first: n, n: spc})
			n += spc
		}
	}
	t.samples = make([]mSample, n)
	common := c.Chance(4)
	csize := uint32(c.UBits(32))
	for i := range t.samples {
		s := &t.samples[i]
		switch {
		case m.real && (t.kind == "avc1" || t.kind == "encv"):
			common = false
			m.nal(t, s)
		case m.real && common:
			s.size = 1 + csize%40
			s.data = c.Bytes(int(s.size))
		case m.real:
			s.data = c.Bytes(c.Small(40))
			s.size = uint32(len(s.data))
		case common:
			s.size = csize | 1
		default:
			s.size = uint32(c.UBits(32))
		}
	}
	if n == 0 {
		common = false
	}
	// stts
	w := &bb{}
	runs := 0
	for i := 0; i < n; {
		k := c.Int(1, n-i)
		if c.Bool() {
			k = 1
		}
		d := uint32(c.UBits(32))
		if m.posTime || c.Bool() {
			d = uint32(c.Int(0, 5000))
		}
		w.u32(uint64(k), uint64(d))
		runs++
		for ; k > 0; k-- {
			t.samples[i].delta = d
			i++
		}
		if c.Chance(10) {
			w.u32(0, c.UBits(32))
			runs++
		}
	}
	out := []*node{m.mk("stts", m.ctx, append((&bb{}).full(0, 0).u32(uint64(runs)).b, w.b...))}
	// ctts
	if c.Bool() {
		v := uint64(c.Pick(2))
		w, runs = &bb{}, 0
		for i := 0; i < n; {
			if c.Chance(20) {
				break // the table ends early
			}
			k := c.Int(1, n-i)
			if c.Bool() {
				k = 1
			}
			o := int64(c.UBits(32))
			if v == 1 {
				o = c.IBits(32)
			}
			w.u32(uint64(k), uint64(o))
			runs++
			for ; k > 0; k-- {
				t.samples[i].cto = o
				i++
			}
		}
		out = append(out, m.mk("ctts", m.ctx, append((&bb{}).full(v, 0).u32(uint64(runs)).b, w.b...)))
	}
	// stsc
	w, runs = &bb{}, 0
	for i, k := range t.chunks {
		if i > 0 && k.n == t.chunks[i-1].n && !c.Chance(6) {
			continue
		}
		w.u32(uint64(i+1), uint64(k.n), 1)
		runs++
	}
	out = append(out, m.mk("stsc", m.ctx, append((&bb{}).full(0, 0).u32(uint64(runs)).b, w.b...)))
	// stsz
	w = (&bb{}).full(0, 0)
	if common {
		w.u32(uint64(t.samples[0].size), uint64(n))
	} else {
		w.u32(0, uint64(n))
		for i := range t.samples {
			w.u32(uint64(t.samples[i].size))
		}
	}
	out = append(out, m.mk("stsz", m.ctx, w.b))
	// chunk offsets; filled in later
	t.co64 = m.huge || c.Chance(3)
	w = (&bb{}).full(0, 0).u32(uint64(len(t.chunks)))
	for i := range t.chunks {
		k := &t.chunks[i]
		for s := k.first; s < k.first+k.n; s++ {
			k.data = append(k.data, t.samples[s].data...)
		}
		if t.co64 {
			k.off = c.UBits(63)
			w.u64(k.off)
		} else {
			k.off = c.UBits(32)
			w.u32(k.off)
		}
	}
	name := "stco"
	if t.co64 {
		name = "co64"
	}
	t.chunkBox = m.mk(name, m.ctx, w.b)
	out = append(out, t.chunkBox)
	return out
}

func (m *movie) trak(i int) *mTrack {
	c := m.c
	t := &mTrack{}
	for {
		t.id = uint32(i + 1)
		if c.Bool() {
			t.id = uint32(c.UBits(32))
		}
		dup := false
		for _, o := range m.tracks {
			dup = dup || o.id == t.id
		}
		if !dup {
			break
		}
		i += 1000
	}
	if m.kinds != nil {
		t.kind = m.kinds[len(m.tracks)]
	} else {
		t.kind = []string{"avc1", "mp4a", "encv", "enca", "other", "avc1", "mp4a"}[c.Pick(7)]
	}
	t.hasAvcC = !c.Chance(8)
	t.hasEsds = !c.Chance(8)
	x := m.ctx
	entry := m.entry(t)
	entries := []*node{entry}
	if t.kind == "enca" && m.anyOrder && c.Chance(4) {
		// a part of the track in the clear, with the same parameters
		clear := m.mk("mp4a", x, append([]byte(nil), entry.pay...), cloneTree(entry.kids)...)
		entries = []*node{entry, clear}
		if c.Bool() {
			entries = []*node{clear, entry}
		}
		c.Class("encrypted and unencrypted sample entry")
	}
	stsd := m.mk("stsd", x, (&bb{}).full(0, 0).u32(uint64(len(entries))).b, entries...)
	stbl := m.mk("stbl", x, nil, m.mix(x, append([]*node{stsd}, m.sampleTables(t)...), true)...)
	minf := m.mk("minf", x, nil, m.mix(x, []*node{stbl}, true)...)
	mdia := m.mk("mdia", x, nil, m.mix(x, []*node{m.mdhd(t), minf}, true)...)
	kids := []*node{m.tkhd(t)}
	if c.Bool() {
		kids = append(kids, m.edts(t))
	}
	kids = append(kids, mdia)
	t.trak = m.mk("trak", x, nil, m.mix(x, kids, true)...)
	return t
}

// media draws the payload of a media data box.
func (m *movie) media(max int) []byte {
	if m.c.fat && m.c.Bool() {
		return m.c.Bytes(fatSize(m.c))
	}
	return m.c.Bytes(m.c.Small(max))
}

func (m *movie) hugeBox() *node {
	n := m.mk("mdat", m.ctx, nil)
	n.hdr = 16
	n.zeros = 1<<32 + m.c.U64()%(1<<34)
	return n
}

func (m *movie) build(frag bool) {
	c := m.c
	var root []*node
	if !c.Chance(10) || m.hasFtyp {
		root = append(root, m.ftyp())
	}
	var moovKids []*node
	if !c.Chance(12) || m.kinds != nil {
		moovKids = append(moovKids, m.mvhd())
	}
	nt := c.Pick(m.maxTracks + 1)
	if m.large {
		nt = c.Int(0, m.maxTracks)
	}
	if m.kinds != nil {
		nt = len(m.kinds)
	}
	if nt == 0 && !c.Chance(3) {
		nt = 1
	}
	for i := 0; i < nt; i++ {
		t := m.trak(i)
		m.tracks = append(m.tracks, t)
	}
	for _, t := range m.tracks {
		moovKids = append(moovKids, t.trak)
	}
	if frag {
		var ex []*node
		for _, t := range m.tracks {
			ex = append(ex, m.mk("trex", m.ctx, (&bb{}).full(0, 0).u32(uint64(t.id), 1, c.UBits(20), c.UBits(20), 0).b))
		}
		moovKids = append(moovKids, m.mk("mvex", m.ctx, nil, ex...))
	}
	if c.Chance(3) && len(moovKids) > 1 {
		// mvhd need not come first
		k := c.Pick(len(moovKids))
		moovKids[0], moovKids[k] = moovKids[k], moovKids[0]
		m.tracks = nil2(m.tracks, moovKids)
	}
	m.moov = m.mk("moov", m.ctx, nil, m.mix(m.ctx, moovKids, false)...)
	var mdats []*node
	for i := c.Pick(3); i > 0; i-- {
		mdats = append(mdats, m.mk("mdat", m.ctx, nil))
	}
	if m.real && len(mdats) == 0 {
		mdats = append(mdats, m.mk("mdat", m.ctx, nil))
	}
	// order: some media data before moov, or not
	before := 0
	if !frag && c.Bool() {
		before = c.Pick(len(mdats) + 1)
	}
	var hb *node
	hugeFirst := false
	if m.huge {
		hb = m.hugeBox()
		hugeFirst = c.Bool() && !frag
	}
	if frag && len(mdats) > 0 && !m.real {
		mdats = nil
	}
	m.fast = before == 0 && !hugeFirst
	root = append(root, m.extras(m.ctx)...)
	if hugeFirst {
		root = append(root, hb)
	}
	root = append(root, mdats[:min(before, len(mdats))]...)
	var frags []*node
	if frag {
		frags = m.fragments()
		if m.anyOrder && c.Chance(4) {
			k := c.Pick(len(frags) + 1)
			if k > 0 && c.Bool() {
				k = 1
			}
			for _, n := range frags[:k] {
				m.fast = m.fast && n.typ != bt("mdat")
			}
			root = append(root, frags[:k]...)
			frags = frags[k:]
			c.Class("fragments before the movie box")
		}
	}
	root = append(root, m.moov)
	if m.huge && !hugeFirst {
		root = append(root, hb)
	}
	root = append(root, m.extras(m.ctx)...)
	root = append(root, mdats[min(before, len(mdats)):]...)
	root = append(root, frags...)
	root = append(root, m.extras(m.ctx)...)
	m.ns = root
	if m.real && !m.nosample {
		m.place(mdats)
	}
	layout(m.ns, 0, nil)
	if m.real && !m.nosample {
		m.patch()
	}
}

// nil2 restores the track order after the boxes were exchanged.
func nil2(ts []*mTrack, kids []*node) []*mTrack {
	var out []*mTrack
	for _, n := range kids {
		for _, t := range ts {
			if t.trak == n {
				out = append(out, t)
			}
		}
	}
	return out
}

// place distributes the chunks over the media data boxes.
func (m *movie) place(mdats []*node) {
	c := m.c
	next := make([]int, len(m.tracks))
	for {
		var cand []int
		for i, t := range m.tracks {
			if next[i] < len(t.chunks) {
				cand = append(cand, i)
			}
		}
		if len(cand) == 0 {
			break
		}
		i := cand[c.Pick(len(cand))]
		k := &m.tracks[i].chunks[next[i]]
		next[i]++
		d := mdats[c.Pick(len(mdats))]
		if c.Bool() {
			d.pay = append(d.pay, c.Bytes(c.Small(10))...)
		}
		k.mdat, k.rel = d, uint64(len(d.pay))
		d.pay = append(d.pay, k.data...)
	}
	for _, d := range mdats {
		if c.Bool() {
			d.pay = append(d.pay, c.Bytes(c.Small(20))...)
		}
		d.val = &Val{P: true, F: []*Val{{P: true, B: d.pay}}}
	}
}

// patch writes the true chunk offsets.
func (m *movie) patch() {
	for _, t := range m.tracks {
		p := t.chunkBox.pay
		for i := range t.chunks {
			k := &t.chunks[i]
			k.off = k.mdat.payOff() + k.rel
			if t.co64 {
				binary.BigEndian.PutUint64(p[8+8*i:], k.off)
			} else {
				if k.off > math.MaxUint32 {
					panic("generator: chunk offset")
				}
				binary.BigEndian.PutUint32(p[8+4*i:], uint32(k.off))
			}
		}
		v, _, err := t.chunkBox.spec.Decode(p, m.ctx)
		if err != nil {
			panic(err)
		}
		t.chunkBox.val = v
	}
}

func (m *movie) fragments() []*node {
	c := m.c
	var out []*node
	n := c.Small(8)
	if m.large {
		n = c.Int(0, 300)
	}
	for i := 0; i < n; i++ {
		s := &mSeg{}
		out = append(out, m.fragment(s)...)
		m.segs = append(m.segs, s)
		out = append(out, m.extras(m.ctx)...)
	}
	return out
}

// fragment builds one moof and the media data that follows it.
func (m *movie) fragment(s *mSeg) []*node {
	c := m.c
	x := m.ctx
	if len(m.tracks) > 0 && !(m.kinds == nil && c.Chance(8)) {
		s.track = c.Pick(len(m.tracks))
		s.trackID = m.tracks[s.track].id
	} else {
		s.track = -1
		s.trackID = uint32(c.UBits(32))
	}
	fl := uint64(0)
	w := (&bb{}).u32(uint64(s.trackID))
	if c.Bool() {
		fl |= 1
		w.u64(c.UBits(64))
	}
	if c.Bool() {
		fl |= 2
		w.u32(c.UBits(32))
	}
	n := c.Small(12)
	if c.Chance(20) {
		n = c.Int(100, 2000)
	}
	lim := uint64(math.MaxUint32)
	if n > 0 {
		lim = math.MaxUint32 / uint64(n)
	}
	small := func() uint32 {
		u := c.UBits(32)
		if c.Bool() {
			u %= 4000
		}
		if u > lim {
			u %= lim + 1
		}
		return uint32(u)
	}
	// composition-adjusted offsets stay within 31 bits
	lim2 := uint64(math.MaxInt32)
	if n > 0 {
		lim2 = math.MaxInt32 / 2 / uint64(n)
	}
	dur := func() uint32 { return uint32(uint64(small()) % (lim2 + 1)) }
	if c.Bool() || m.kinds != nil && !c.Chance(4) {
		fl |= 8
		s.defDur = dur()
		if m.posTime && s.defDur == 0 {
			s.defDur = 1
		}
		w.u32(uint64(s.defDur))
	}
	if c.Bool() {
		fl |= 0x10
		s.defSize = small()
		w.u32(uint64(s.defSize))
	}
	if c.Bool() {
		fl |= 0x20
		w.u32(c.UBits(32))
	}
	if c.Bool() {
		fl |= 0x20000
	}
	s.tfhd = m.mk("tfhd", x, append((&bb{}).full(0, fl).b, w.b...))
	kids := []*node{s.tfhd}
	if !c.Chance(8) {
		v := uint64(c.Pick(2))
		if v == 0 {
			s.bmdt = c.UBits(32)
		} else {
			s.bmdt = c.UBits(64)
		}
		kids = append(kids, m.mk("tfdt", x, (&bb{}).full(v, 0).sized(v, s.bmdt).b))
	}
	if !c.Chance(8) || m.kinds != nil {
		s.hasTrun = true
		v := uint64(c.Pick(2))
		fl := uint64(0)
		w := &bb{}
		if c.Bool() {
			fl |= 1
			w.u32(c.UBits(32))
		}
		if c.Bool() {
			fl |= 4
			w.u32(c.UBits(32))
		}
		for _, b := range []uint64{0x100, 0x200, 0x400, 0x800} {
			if c.Bool() {
				fl |= b
			}
		}
		if fl&0xf00 == 0 && n > 900 {
			n = 900
		}
		pos := false
		for i := 0; i < n; i++ {
			d, z, o := s.defDur, s.defSize, int64(0)
			if fl&0x100 != 0 {
				d = dur()
				if m.posTime && d == 0 {
					d = 1
				}
				w.u32(uint64(d))
			}
			if fl&0x200 != 0 {
				z = small()
				w.u32(uint64(z))
			}
			if fl&0x400 != 0 {
				w.u32(c.UBits(32))
			}
			if fl&0x800 != 0 {
				if v == 0 {
					o = int64(c.UBits(30))
				} else {
					o = c.IBits(31)
				}
				w.u32(uint64(o))
			}
			s.durs, s.sizes, s.ctos = append(s.durs, d), append(s.sizes, z), append(s.ctos, o)
			pos = pos || d > 0
		}
		kids = append(kids, m.mk("trun", x, append((&bb{}).full(v, fl).u32(uint64(n)).b, w.b...)))
	}
	traf := m.mk("traf", x, nil, m.mix(x, kids, m.kinds == nil)...)
	mk := []*node{m.mk("mfhd", x, (&bb{}).full(0, 0).u32(uint64(len(m.segs)+1)).b), traf}
	s.moof = m.mk("moof", x, nil, m.mix(x, mk, m.kinds == nil)...)
	out := []*node{s.moof}
	k := 1
	if c.Chance(6) {
		k = c.Pick(3)
	}
	for ; k > 0; k-- {
		d := m.mk("mdat", x, m.media(60))
		s.mdat = append(s.mdat, d)
		out = append(out, d)
	}
	return out
}

// ---- expected facts, in a form that prints ----

type factList []string

func (f *factList) add(format string, a ...interface{}) { *f = append(*f, fmt.Sprintf(format, a...)) }

func (m *movie) facts() []string {
	var f factList
	var br []string
	for _, b := range m.brands {
		br = append(br, fmt.Sprintf("%x", b))
	}
	if m.hasFtyp {
		f.add("major %x minor %d brands %v", m.major, m.minor, br)
	} else {
		f.add("major 00000000 minor 0 brands []")
	}
	f.add("fast start %v timescale %d duration %d", m.fast, m.timescale, m.duration)
	f.add("%d tracks", len(m.tracks))
	for i, t := range m.tracks {
		codec, enc := mp4.CodecUnknown, false
		switch t.kind {
		case "avc1", "encv":
			codec = mp4.CodecAVC1
		case "mp4a", "enca":
			codec = mp4.CodecMP4A
		}
		enc = t.kind == "encv" || t.kind == "enca"
		f.add("track %d: id %d timescale %d duration %d codec %d encrypted %v", i, t.id, t.timescale, t.duration, codec, enc)
		f.add("edit list %d", len(t.elst))
		for _, e := range t.elst {
			f.add("edit %d %d", e.MediaTime, e.SegmentDuration)
		}
		if t.kind == "avc1" && t.hasAvcC {
			f.add("avc %+v", t.avc)
		} else {
			f.add("no avc")
		}
		if (t.kind == "mp4a" || t.kind == "enca") && t.hasEsds {
			a := t.aac
			f.add("aac %+v", a)
		} else {
			f.add("no aac")
		}
		f.add("%d samples", len(t.samples))
		for i, s := range t.samples {
			f.add("sample %d: size %d delta %d offset %d", i, s.size, s.delta, s.cto)
		}
		f.add("%d chunks", len(t.chunks))
		for i, k := range t.chunks {
			f.add("chunk %d: at %d, %d samples", i, k.off, k.n)
		}
	}
	f.add("%d segments", len(m.segs))
	for i, s := range m.segs {
		f.add("segment %d: %s", i, s.fact())
	}
	return f
}

func (s *mSeg) totals() (dur, size uint64, cto int64) {
	t := int64(0)
	for i := range s.durs {
		dur += uint64(s.durs[i])
		size += uint64(s.sizes[i])
		o := t + s.ctos[i]
		if i == 0 || o < cto {
			cto = o
		}
		t += int64(s.durs[i])
	}
	return
}

func (s *mSeg) fact() string {
	d, z, o := s.totals()
	return fmt.Sprintf("track %d at %d base %d default duration %d, %d samples, duration %d size %d offset %d", s.trackID, s.moof.off, s.bmdt, s.defDur, len(s.durs), d, z, o)
}

func probeFacts(p *mp4.ProbeInfo) []string {
	var f factList
	var br []string
	for _, b := range p.CompatibleBrands {
		br = append(br, fmt.Sprintf("%x", string(b[:])))
	}
	f.add("major %x minor %d brands %v", string(p.MajorBrand[:]), p.MinorVersion, br)
	f.add("fast start %v timescale %d duration %d", p.FastStart, p.Timescale, p.Duration)
	f.add("%d tracks", len(p.Tracks))
	for i, t := range p.Tracks {
		f.add("track %d: id %d timescale %d duration %d codec %d encrypted %v", i, t.TrackID, t.Timescale, t.Duration, t.Codec, t.Encrypted)
		f.add("edit list %d", len(t.EditList))
		for _, e := range t.EditList {
			f.add("edit %d %d", e.MediaTime, e.SegmentDuration)
		}
		if t.AVC != nil {
			f.add("avc %+v", *t.AVC)
		} else {
			f.add("no avc")
		}
		if t.MP4A != nil {
			f.add("aac %+v", *t.MP4A)
		} else {
			f.add("no aac")
		}
		f.add("%d samples", len(t.Samples))
		for i, s := range t.Samples {
			f.add("sample %d: size %d delta %d offset %d", i, s.Size, s.TimeDelta, s.CompositionTimeOffset)
		}
		f.add("%d chunks", len(t.Chunks))
		for i, k := range t.Chunks {
			f.add("chunk %d: at %d, %d samples", i, k.DataOffset, k.SamplesPerChunk)
		}
	}
	f.add("%d segments", len(p.Segments))
	for i, s := range p.Segments {
		f.add("segment %d: track %d at %d base %d default duration %d, %d samples, duration %d size %d offset %d", i, s.TrackID, s.MoofOffset, s.BaseMediaDecodeTime, s.DefaultSampleDuration,
			s.SampleCount, s.Duration, s.Size, s.CompositionTimeOffset)
	}
	return f
}

// factDiff gives the first difference.
func factDiff(got, want []string) string {
	for i := 0; i < len(got) || i < len(want); i++ {
		var a, b string
		if i < len(got) {
			a = got[i]
		}
		if i < len(want) {
			b = want[i]
		}
		if a != b {
			return fmt.Sprintf("%q, want %q", a, b)
		}
	}
	return ""
}

func (m *movie) summary() string { return strings.Join(m.facts(), "\n") }
