package main

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"
	"strings"

	mp4 "github.com/abema/go-mp4"
)

func init() {
	register(&Prop{
		ID: "C15", Level: "exploration",
		Rule:        "the track has AVC parameters and at least two samples, one of them with an IDR slice and one without",
		Assumptions: []string{"the NAL units of a sample fill it exactly", "the file holds every sample in full"},
		Subs: []Sub{
			{Name: "probed", N: 16000, F: func(c *Case) { c15Movie(c, false) }},
			{Name: "handbuilt", N: 60000, F: func(c *Case) { c15Hand(c, false, 8, 4) }},
			{Name: "hugeunits", N: 30000, F: func(c *Case) { c15Hand(c, true, 8, 4) }},
			{Name: "large", N: 1200, F: func(c *Case) {
				ch, sp := c.Int(0, 300), c.Int(0, 200)
				c.Fast(func() {
					if c.Bool() {
						c15Movie(c, true)
					} else {
						c15Hand(c, c.Chance(3), ch, sp)
					}
				})
			}},
		},
	})
	register(&Prop{
		ID: "C16", Level: "exploration",
		Rule:        "the list has at least two entries with a positive total duration",
		Assumptions: []string{"eight times the total size times the timescale fits 64 bits", "the window duration is positive"},
		Subs: []Sub{
			{Name: "samples", N: 120000, F: c16Samples},
			{Name: "uniform", N: 40000, F: c16Uniform},
			{Name: "segments", N: 80000, F: c16Segments},
			{Name: "probed", N: 6000, F: c16Probed},
		},
	})
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (t *mTrack) idrs() []int {
	var out []int
	for i, s := range t.samples {
		if s.idr {
			out = append(out, i)
		}
	}
	return out
}

func c15Movie(c *Case, large bool) {
	m := newMovie(c)
	if m.large = large; large {
		m.maxSample = 3000
	}
	m.real = true
	m.huge = c.Chance(3)
	if c.Chance(4) {
		m.plain = true
	}
	m.kinds = [][]string{{"avc1"}, {"avc1", "mp4a"}, {"mp4a", "avc1"}, {"avc1", "avc1"}, {"encv", "avc1"}, {"other", "mp4a"}}[c.Pick(6)]
	m.build(false)
	m.notes()
	s := render(m.ns)
	r := &sparseReader{s: s}
	p, err := mp4.Probe(r)
	if err != nil {
		c.Failf("probing failed: %v", err)
	}
	for i, t := range m.tracks {
		r.pos = int64(c.U64() % (s.size + 1))
		got, err := mp4.FindIDRFrames(r, p.Tracks[i])
		if err != nil {
			c.Failf("track %d: IDR search failed: %v", i, err)
		}
		var want []int
		if t.kind == "avc1" && t.hasAvcC {
			want = t.idrs()
			if len(want) > 0 && len(want) < len(t.samples) {
				c.NonTrivial(fmt.Sprint(m.summary(), i))
			}
			c.Class(fmt.Sprintf("length size %d", t.avc.LengthSize))
		} else {
			c.Class("no AVC configuration")
		}
		if !sameInts(got, want) {
			c.Failf("track %d (length size %d): IDR samples %v, want %v", i, t.avc.LengthSize, got, want)
		}
	}
}

// c15Hand searches in a hand-built track over a sparse file.
func c15Hand(c *Case, huge bool, maxChunks, perChunk int) {
	ls := []int{1, 2, 4}[c.Pick(3)]
	if huge {
		ls = 4 - 2*c.Pick(2)
	}
	t := &mp4.TrackInfo{AVC: &mp4.AVCDecConfigInfo{LengthSize: uint16(ls)}}
	s := &sparse{}
	add := func(off uint64, b []byte) {
		s.segs = append(s.segs, seg{off, b})
		s.size = max(s.size, off+uint64(len(b)))
	}
	nch := c.Small(maxChunks)
	order := make([]int, nch)
	for i := range order {
		order[i] = i
	}
	if c.Bool() {
		for i := nch - 1; i > 0; i-- {
			j := c.Pick(i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}
	// sample layout per chunk, then placement in some order
	type unit struct {
		off  uint64
		data []byte
	}
	units := make([][]unit, nch)
	length := make([]uint64, nch)
	var want []int
	desc := ""
	var full strings.Builder
	for k := 0; k < nch; k++ {
		n := c.Pick(perChunk + 1)
		pos := uint64(0)
		for i := 0; i < n; i++ {
			start := pos
			idr := false
			desc += "("
			for u := c.Small(4); u > 0; u-- {
				l := uint64(c.Pick(12))
				if huge && c.Chance(3) {
					room := uint64(0xffffffff) - (pos - start)
					l = c.U64() >> uint(32+c.Pick(12))
					if ls == 2 {
						l &= 0xffff
					}
					if room < l+64 {
						l = uint64(c.Pick(12))
					}
					if room < 64 {
						break
					}
				}
				h := make([]byte, 8)
				binary.BigEndian.PutUint64(h, l)
				h = append([]byte{}, h[8-ls:]...)
				if l > 0 {
					typ := byte(c.Pick(32))
					if c.Bool() {
						typ = []byte{1, 5, 6, 7, 9, 21}[c.Pick(6)]
					}
					h = append(h, byte(c.Pick(8))<<5|typ)
					body := c.Bytes(int(min(l-1, 10)))
					for q := range body {
						if c.Chance(3) {
							body[q] = 0x65
						}
					}
					h = append(h, body...)
					desc += fmt.Sprintf(" %d:%d", typ, l)
					idr = idr || typ == 5
				} else {
					desc += " 0"
				}
				units[k] = append(units[k], unit{pos, h})
				pos += uint64(ls) + l
			}
			desc += ")"
			if idr {
				want = append(want, len(t.Samples))
			}
			t.Samples = append(t.Samples, &mp4.Sample{Size: uint32(pos - start), TimeDelta: uint32(c.Pick(9))})
		}
		length[k] = pos
		t.Chunks = append(t.Chunks, &mp4.Chunk{SamplesPerChunk: uint32(n)})
		desc += fmt.Sprintf("/%d ", n)
		if len(desc) > 1<<16 {
			full.WriteString(desc)
			desc = ""
		}
	}
	desc = full.String() + desc
	at := uint64(c.Pick(20))
	for _, k := range order {
		if c.Bool() {
			at += uint64(c.Pick(20))
		}
		if huge && c.Chance(3) {
			at += c.U64() >> uint(c.Int(24, 60))
		}
		t.Chunks[k].DataOffset = at
		desc += fmt.Sprintf("@%d ", at)
		for _, u := range units[k] {
			add(at+u.off, u.data)
		}
		at += length[k]
	}
	s.size = max(s.size, at)
	sort.Slice(s.segs, func(i, j int) bool { return s.segs[i].off < s.segs[j].off })
	if c.Chance(8) && len(t.Chunks) > 0 {
		// a chunk list that promises more samples than there are
		t.Chunks[len(t.Chunks)-1].SamplesPerChunk += uint32(c.Int(1, 5))
	}
	if c.Chance(8) {
		// empty samples, and chunks without samples
		t.Chunks = append(t.Chunks, &mp4.Chunk{DataOffset: uint64(c.Pick(100)), SamplesPerChunk: uint32(c.Pick(3))})
		t.Samples = append(t.Samples, &mp4.Sample{})
	}
	c.Note("track", desc)
	c.Note("length size", ls)
	c.Class(fmt.Sprintf("length size %d", ls))
	if len(want) > 0 && len(want) < len(t.Samples) {
		c.NonTrivial(desc, fmt.Sprint(ls))
	}
	r := &sparseReader{s: s, pos: int64(c.U64() % (s.size + 1))}
	if c.Chance(10) {
		t.AVC, want = nil, nil
	}
	for i := c.Pick(2); i >= 0; i-- {
		got, err := mp4.FindIDRFrames(r, t)
		if err != nil {
			c.Failf("IDR search failed: %v", err)
		}
		if !sameInts(got, want) {
			c.Failf("IDR samples %v, want %v", got, want)
		}
	}
}

// ---- bitrates ----

func rate(size, scale, dur uint64) (uint64, bool) {
	hi, lo := bits.Mul64(8*size, scale)
	if hi != 0 || size >= 1<<60 {
		return 0, false
	}
	if dur == 0 {
		return 0, true
	}
	return lo / dur, true
}

func c16List(c *Case) (mp4.Samples, string) {
	var l mp4.Samples
	n := c.Small(60)
	if c.Chance(40) {
		n = c.Int(100, 3000)
	}
	bound := 32
	if c.Bool() {
		bound = c.Int(1, 14)
	}
	dz := c.Chance(3)
	for i := 0; i < n; i++ {
		s := &mp4.Sample{Size: uint32(c.UBits(bound)), TimeDelta: uint32(c.UBits(bound)), CompositionTimeOffset: c.IBits(32)}
		if dz && c.Bool() {
			s.TimeDelta = 0
		}
		l = append(l, s)
	}
	d := ""
	for _, s := range l {
		d += fmt.Sprintf("%d/%d ", s.Size, s.TimeDelta)
	}
	return l, d
}

func sums(l mp4.Samples) (ps, pd []uint64) {
	ps, pd = make([]uint64, len(l)+1), make([]uint64, len(l)+1)
	for i, s := range l {
		ps[i+1] = ps[i] + uint64(s.Size)
		pd[i+1] = pd[i] + uint64(s.TimeDelta)
	}
	return
}

// peakRate is the largest rate over the sliding windows.
func peakRate(ps, pd []uint64, ts uint32, delta uint64) (peak uint64, windows int) {
	n := len(ps) - 1
	if delta == 0 {
		return 0, 0
	}
	for b, e := 0, 0; e < n; {
		for e++; e < n && pd[e]-pd[b] < delta; e++ {
		}
		r, _ := rate(ps[e]-ps[b], uint64(ts), pd[e]-pd[b])
		peak = max(peak, r)
		windows++
		for b++; pd[e]-pd[b] >= delta; b++ {
		}
	}
	return
}

// c16Judge compares average and peak with the definitions.
func c16Judge(c *Case, l mp4.Samples, ts uint32, delta uint64) {
	ps, pd := sums(l)
	n := len(l)
	avg, ok := rate(ps[n], uint64(ts), pd[n])
	if !ok {
		c.Class("too large")
		l.GetBitrate(ts)
		l.GetMaxBitrate(ts, delta)
		return
	}
	if got := l.GetBitrate(ts); got != avg {
		c.Failf("average bitrate %d, want %d (%d bytes in %d / %d)", got, avg, ps[n], pd[n], ts)
	}
	got := l.GetMaxBitrate(ts, delta)
	if delta == 0 {
		return
	}
	peak, windows := peakRate(ps, pd, ts, delta)
	c.ClassIf(windows > 2, "several windows")
	if got != peak {
		c.Failf("peak bitrate over %d/%d is %d, want %d (average %d)", delta, ts, got, peak, avg)
	}
}

func c16Delta(c *Case, l mp4.Samples) uint64 {
	_, pd := sums(l)
	tot := pd[len(l)]
	switch c.Pick(5) {
	case 0:
		return c.UBits(32)
	case 1:
		return tot + uint64(c.Pick(3)) - min(tot, uint64(c.Pick(2)))
	case 2:
		return 1
	}
	return 1 + c.U64()%(tot+1)
}

func c16Samples(c *Case) {
	l, d := c16List(c)
	ts := uint32(c.UBits(32))
	if c.Bool() {
		ts = uint32(c.UBits(17))
	}
	delta := c16Delta(c, l)
	c.Note("samples", d)
	c.Note("timescale", ts)
	c.Note("window", delta)
	if _, pd := sums(l); len(l) > 1 && pd[len(l)] > 0 {
		c.NonTrivial(d, ts, delta)
	}
	c16Judge(c, l, ts, delta)
}

func c16Uniform(c *Case) {
	n := 1 + c.Small(60)
	var l mp4.Samples
	size, dur := uint32(c.UBits(24)), uint32(c.UBits(20))|1
	for i := 0; i < n; i++ {
		l = append(l, &mp4.Sample{Size: size, TimeDelta: dur})
	}
	ts := uint32(c.UBits(20))
	delta := c16Delta(c, l)
	c.Note("samples", fmt.Sprintf("%d of %d/%d", n, size, dur))
	c.Note("timescale", ts)
	c.Note("window", delta)
	c.NonTrivial(n, size, dur, ts, delta)
	if delta == 0 {
		delta = 1
	}
	a, p := l.GetBitrate(ts), l.GetMaxBitrate(ts, delta)
	if a != p {
		c.Failf("equal samples: average %d, peak %d", a, p)
	}
	if want := 8 * uint64(size) * uint64(ts) / uint64(dur); a != want && n == 1 {
		c.Failf("bitrate %d, want %d", a, want)
	}
	c16Judge(c, l, ts, delta)
}

func c16JudgeSegments(c *Case, l mp4.Segments, id uint32, ts uint32) {
	var size, dur, peak uint64
	fit := true
	for _, s := range l {
		if s.TrackID != id {
			continue
		}
		size += uint64(s.Size)
		dur += uint64(s.Duration)
		r, ok := rate(uint64(s.Size), uint64(ts), uint64(s.Duration))
		fit = fit && ok
		peak = max(peak, r)
	}
	avg, ok := rate(size, uint64(ts), dur)
	a, p := l.GetBitrate(id, ts), l.GetMaxBitrate(id, ts)
	if !ok || !fit {
		c.Class("too large")
		return
	}
	if a != avg {
		c.Failf("track %d: average bitrate %d, want %d", id, a, avg)
	}
	if p != peak {
		c.Failf("track %d: peak bitrate %d, want %d", id, p, peak)
	}
}

func c16Segments(c *Case) {
	var l mp4.Segments
	d := ""
	bound := 32
	if c.Bool() {
		bound = c.Int(1, 14)
	}
	ids := []uint32{uint32(c.UBits(32)), 1, 2}
	for i := c.Small(30); i > 0; i-- {
		s := &mp4.Segment{TrackID: ids[c.Pick(3)], Size: uint32(c.UBits(bound)), Duration: uint32(c.UBits(bound)), SampleCount: uint32(c.Pick(30)), DefaultSampleDuration: uint32(c.UBits(32))}
		l = append(l, s)
		d += fmt.Sprintf("%d:%d/%d ", s.TrackID, s.Size, s.Duration)
	}
	ts := uint32(c.UBits(32))
	if c.Bool() {
		ts = uint32(c.UBits(17))
	}
	c.Note("segments", d)
	c.Note("timescale", ts)
	if len(l) > 1 {
		c.NonTrivial(d, ts)
	}
	for _, id := range append(ids, uint32(c.UBits(32))) {
		c16JudgeSegments(c, l, id, ts)
	}
}

// c16Probed evaluates the lists of a probed movie.
func c16Probed(c *Case) {
	m := newMovie(c)
	m.posTime = c.Bool()
	m.build(c.Bool())
	m.notes()
	p, err := mp4.Probe(&sparseReader{s: render(m.ns)})
	if err != nil {
		c.Failf("probing failed: %v", err)
	}
	for i, t := range m.tracks {
		if len(t.samples) > 1 || len(m.segs) > 1 {
			c.NonTrivial(m.summary(), i)
		}
		var l mp4.Samples
		for _, s := range t.samples {
			l = append(l, &mp4.Sample{Size: s.size, TimeDelta: s.delta})
		}
		delta := c16Delta(c, l)
		_, pd := sums(l)
		_ = pd
		c16Judge(c, p.Tracks[i].Samples, t.timescale, delta)
		c16JudgeSegments(c, p.Segments, t.id, t.timescale)
	}
}
