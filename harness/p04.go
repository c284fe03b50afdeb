package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"runtime/metrics"

	mp4 "github.com/abema/go-mp4"
)

func init() {
	register(&Prop{
		ID: "C04", Level: "exploration",
		Rule: "the input has at least one byte and at least one entry point was run on it to its end; each (input, entry point) counts as one evaluation",
		Assumptions: []string{"sample counts that a file declares without giving bytes for them are capped at 4095 per entry",
			"a case that uses more than 25 s of CPU time (inputs are below 2 MB) counts as a hang",
			"allocation is out of proportion when one call allocates more than 64 MiB + 20000 bytes per byte of input in total, or more than 1.5 GB at once"},
		Subs: []Sub{
			{Name: "payloads", N: 100000, F: c04Payload},
			{Name: "files", N: 24000, F: c04Files},
			{Name: "soup", N: 16000, F: c04Soup},
			{Name: "tables", N: 12000, F: c04Tables},
			{Name: "idr", N: 20000, F: c04IDR},
			{Name: "deep", N: 60, F: c04Deep},
			{Name: "commands", N: 6000, F: c04Commands},
		},
	})
}

// guard runs one entry point: no panic (rapid reports it), no allocation out
// of proportion.
func (c *Case) guard(name string, size int, f func()) {
	c.Note("entry", name)
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	before := s[0].Value.Uint64()
	f()
	metrics.Read(s)
	used := s[0].Value.Uint64() - before
	c.More(1)
	if used > 64<<20+20000*uint64(size) {
		c.Failf("%s allocated %d bytes for an input of %d bytes", name, used, size)
	}
	if size > 0 {
		switch r := used / uint64(size); {
		case r > 5000 && used > 1<<20:
			c.Class("over 5000 bytes per byte")
		case r > 1000 && used > 1<<20:
			c.Class("over 1000 bytes per byte")
		}
	}
}

func (c *Case) mustNotCrash(what string) {
	if r := recover(); r != nil {
		if isRapid(r) {
			panic(r)
		}
		c.Failf("%s: panic: %v\n%s", what, r, shortStack())
	}
}

func isRapid(r interface{}) bool {
	s := fmt.Sprintf("%T", r)
	return len(s) > 6 && (s[:6] == "rapid." || s[:7] == "*rapid." || s == "main.tbExit")
}

func c04Payload(c *Case) {
	s := drawSpec(c)
	g := newGen(c)
	g.max = 8
	ctx, t := g.context(s)
	var p []byte
	switch c.Pick(5) {
	case 0:
		p = c.Bytes(c.Small(80))
	default:
		p = append([]byte{}, mutatedPayload(c, g, s, ctx)...)
		if len(p) > 3 && c.Bool() {
			hostileWord(c, p)
		}
	}
	size := uint64(len(p))
	if c.Chance(4) {
		size = c.UBits([]int{8, 16, 24, 32, 40, 60}[c.Pick(6)])
	}
	if s.Name == "trun" && len(p) >= 8 {
		if binary.BigEndian.Uint32(p[4:]) != 0xffffffff {
			p[4], p[5] = 0, 0
			p[6] &= 0xf
		}
	}
	if c.Chance(8) {
		ctx = g.anyContext()
	}
	noteBox(c, s, t, ctx, nil)
	c.Note("payload", p)
	c.Note("declared size", size)
	if len(p) > 0 {
		c.NonTrivial(t[:], p, size, fmt.Sprintf("%+v", ctx))
	}
	defer c.mustNotCrash("payload of " + s.Name)
	var b mp4.IBox
	var err error
	at := int64(0)
	if c.Chance(10) {
		at = int64(len(p) + c.Int(0, 20))
	}
	c.Note("position", at)
	c.guard("decode", len(p), func() {
		r := bytes.NewReader(p)
		r.Seek(at, io.SeekStart)
		b, _, err = mp4.UnmarshalAny(r, t, size, ctx)
	})
	if err != nil {
		c.Class("refused")
		return
	}
	c.Class("accepted")
	c.guard("text", len(p), func() { mp4.Stringify(b, ctx) })
	c.guard("indented text", len(p), func() { mp4.StringifyWithIndent(b, " ", ctx) })
	c.guard("encode", len(p), func() { mp4.Marshal(&memFile{}, b, ctx) })
}

var hostile32 = []uint32{0, 1, 2, 7, 8, 9, 15, 16, 17, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0xffffff, 0x1000000, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 0x20000000, 0x40000000, 0xfffffffc, 0xfffffff8}

func hostileWord(c *Case, p []byte) {
	i := c.Pick(len(p))
	switch c.Pick(4) {
	case 0:
		p[i] = byte(hostile32[c.Pick(11)])
	case 1:
		if i+2 <= len(p) {
			binary.BigEndian.PutUint16(p[i:], uint16(hostile32[c.Pick(len(hostile32))]))
		}
	case 2:
		if i+4 <= len(p) {
			binary.BigEndian.PutUint32(p[i:], hostile32[c.Pick(len(hostile32))])
		}
	default:
		if i+8 <= len(p) {
			binary.BigEndian.PutUint64(p[i:], hostile64(c))
		}
	}
}

func hostile64(c *Case) uint64 {
	switch c.Pick(3) {
	case 0:
		return uint64(hostile32[c.Pick(len(hostile32))])
	case 1:
		return -uint64(hostile32[c.Pick(len(hostile32))])
	}
	return 1<<uint(c.Pick(64)) - uint64(c.Pick(3))
}

// hostileFile draws a file and damages it.
func hostileFile(c *Case) []byte {
	var ns []*node
	switch c.Pick(4) {
	case 0, 1:
		f := newFileGen(c)
		f.budget = 25
		f.ctxy = c.Bool()
		ns = f.file()
	default:
		m := newMovie(c)
		m.maxTracks, m.maxSample = 2, 12
		m.real = true
		m.plain = c.Bool()
		frag := c.Chance(3)
		m.nosample = frag
		m.build(frag)
		ns = m.ns
	}
	b := append([]byte{}, render(ns).bytes()...)
	all := allNodes(ns)
	if len(all) == 0 || len(b) == 0 {
		return b
	}
	for k := c.Int(0, 4); k > 0 && len(b) > 0; k-- {
		n := all[c.Pick(len(all))]
		if n.end() > uint64(len(b)) {
			continue
		}
		h := b[n.off:]
		switch c.Pick(10) {
		case 0: // the size of a box
			if n.hdr == 16 && c.Bool() {
				binary.BigEndian.PutUint64(h[8:], hostile64(c))
			} else {
				x := hostile32[c.Pick(len(hostile32))]
				if c.Bool() {
					x = uint32(n.size) + uint32(c.Int(-9, 9))
				}
				binary.BigEndian.PutUint32(h, x)
			}
		case 1: // the type of a box
			o := all[c.Pick(len(all))]
			copy(h[4:8], o.typ[:])
		case 2, 3: // the payload of a box
			if p := h[n.hdr : n.hdr+uint64(len(n.pay))]; len(p) > 0 {
				hostileWord(c, p)
			}
		case 4:
			hostileWord(c, b)
		case 5:
			b = b[:c.Pick(len(b))]
		case 6: // copy a range over another
			i, j := c.Pick(len(b)), c.Pick(len(b))
			copy(b[i:], append([]byte{}, b[j:min(len(b), j+c.Pick(200))]...))
		case 7: // insert a range
			i, j := c.Pick(len(b)), c.Pick(len(b))
			x := append([]byte{}, b[j:min(len(b), j+c.Pick(200))]...)
			b = append(b[:i:i], append(x, b[i:]...)...)
		case 8: // remove a range
			i := c.Pick(len(b))
			j := min(len(b), i+c.Int(1, 40))
			b = append(b[:i:i], b[j:]...)
		case 9:
			b[c.Pick(len(b))] ^= 1 << uint(c.Pick(8))
		}
	}
	capCounts(b)
	return b
}

func c04Files(c *Case) {
	b := hostileFile(c)
	c04Library(c, b)
}

// c04Tables gives the sample tables of a movie (runs and edit lists included)
// entries that fit neither each other nor the movie.
func c04Tables(c *Case) {
	m := newMovie(c)
	m.maxTracks, m.maxSample = 2, 12
	m.real = true
	m.plain = true
	frag := c.Chance(4)
	m.build(frag)
	num := func(most int) uint32 {
		switch c.Pick(8) {
		case 0:
			return hostile32[c.Pick(len(hostile32))]
		case 1:
			return 0
		}
		return uint32(c.Int(1, most))
	}
	for _, n := range allNodes(m.ns) {
		if len(n.kids) > 0 || c.Chance(3) {
			continue
		}
		var w []byte
		u32 := func(x ...uint32) {
			for _, y := range x {
				w = binary.BigEndian.AppendUint32(w, y)
			}
		}
		k := c.Small(7)
		switch n.typ {
		case bt("stco"):
			u32(0, uint32(k))
			for ; k > 0; k-- {
				u32(num(4000))
			}
		case bt("co64"):
			u32(0, uint32(k))
			for ; k > 0; k-- {
				u32(c.pickHigh(), num(4000))
			}
		case bt("stsc"):
			u32(0, uint32(k))
			var at uint32
			for i := 0; i < k; i++ {
				if c.Chance(6) {
					at = num(9)
				} else {
					at += uint32(c.Int(1, 3))
				}
				u32(at, num(6), num(3))
			}
		case bt("stts"), bt("ctts"):
			u32(uint32(c.Pick(2))<<24*uint32(b2i(n.typ == bt("ctts"))), uint32(k))
			for ; k > 0; k-- {
				s := num(9)
				if n.typ == bt("stts") {
					s &= 4095
				}
				u32(s, num(2000))
			}
		case bt("stsz"):
			if c.Chance(3) {
				u32(0, num(5000), num(20))
			} else {
				u32(0, 0, uint32(k))
				for ; k > 0; k-- {
					u32(num(300))
				}
			}
		default:
			continue
		}
		n.pay, n.val = w, nil
	}
	layout(m.ns, 0, nil)
	c04Library(c, append([]byte{}, render(m.ns).bytes()...))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (c *Case) pickHigh() uint32 {
	if c.Chance(4) {
		return hostile32[c.Pick(len(hostile32))]
	}
	return 0
}

// c04Soup builds files from headers with arbitrary sizes and types.
func c04Soup(c *Case) {
	var b []byte
	for k := c.Int(1, 12); k > 0; k-- {
		var t mp4.BoxType
		switch c.Pick(4) {
		case 0:
			t = anyType(c)
		case 1:
			t = bt(plainContainers[c.Pick(len(plainContainers))])
		default:
			s := specs[c.Pick(len(specs))]
			t = s.Types[c.Pick(len(s.Types))]
		}
		n := uint64(c.Int(0, 200))
		if c.Chance(4) {
			n = hostile64(c)
		}
		if c.Chance(3) {
			b = binary.BigEndian.AppendUint32(b, 1)
			b = append(b, t[:]...)
			b = binary.BigEndian.AppendUint64(b, n)
		} else {
			b = binary.BigEndian.AppendUint32(b, uint32(n))
			b = append(b, t[:]...)
		}
		if c.Chance(3) {
			b = append(b, c.Bytes(c.Small(60))...)
		}
	}
	capCounts(b)
	c04Library(c, b)
}

func c04Library(c *Case, b []byte) {
	c.Note("file", b)
	if len(b) > 0 {
		c.NonTrivial(b)
	}
	defer c.mustNotCrash("file")
	size := len(b)
	open := func() io.ReadSeeker { return bytes.NewReader(b) }
	var infos []mp4.BoxInfo
	var paths []mp4.BoxPath
	c.guard("traverse", size, func() {
		r := open()
		_, err := mp4.ReadBoxStructure(r, func(h *mp4.ReadHandle) (interface{}, error) {
			if len(infos) < 400 {
				infos = append(infos, h.BoxInfo)
				paths = append(paths, append(mp4.BoxPath{}, h.Path...))
			}
			if !h.BoxInfo.IsSupportedType() {
				h.ReadData(io.Discard)
				return nil, nil
			}
			if x, _, err := h.ReadPayload(); err == nil {
				mp4.Stringify(x, h.BoxInfo.Context)
			}
			h.Expand()
			return nil, nil
		})
		c.ClassIf(err == nil, "traversed")
	})
	c.guard("traverse strictly", size, func() {
		mp4.ReadBoxStructure(open(), func(h *mp4.ReadHandle) (interface{}, error) {
			if !h.BoxInfo.IsSupportedType() {
				_, err := h.ReadData(io.Discard)
				return nil, err
			}
			return h.Expand()
		})
	})
	for k := c.Pick(3); k > 0; k-- {
		at := int64(c.Pick(size + 3))
		c.guard("header", size, func() {
			r := open()
			r.Seek(at, io.SeekStart)
			if bi, err := mp4.ReadBoxInfo(r); err == nil {
				bi.SeekToPayload(r)
				bi.SeekToEnd(r)
				bi.SeekToStart(r)
			}
		})
	}
	if len(infos) > 0 {
		var ps []mp4.BoxPath
		for k := c.Int(1, 3); k > 0; k-- {
			p := append(mp4.BoxPath{}, paths[c.Pick(len(paths))]...)
			if c.Chance(3) {
				p[c.Pick(len(p))] = mp4.BoxTypeAny()
			}
			ps = append(ps, p)
		}
		c.Note("paths", fmt.Sprint(ps))
		c.guard("extract", size, func() { mp4.ExtractBoxes(open(), nil, ps) })
		c.guard("extract payloads", size, func() { mp4.ExtractBoxesWithPayload(open(), nil, ps) })
		bi := infos[c.Pick(len(infos))]
		if bi.Type != bt("trun") && c.Chance(6) {
			// a box the caller knows of from elsewhere
			bi.Offset = uint64(c.Pick(2*size + 2))
			bi.Size = max(bi.HeaderSize, c.UBits(33))
		}
		c.guard("extract below", size, func() {
			p := mp4.BoxPath{mp4.BoxTypeAny()}
			if c.Bool() {
				p = append(p, mp4.BoxTypeAny())
			}
			mp4.ExtractBoxWithPayload(open(), &bi, p)
		})
		c.guard("raw data", size, func() {
			h := bi
			mp4.ReadBoxStructureFromInternal(open(), &h, func(h *mp4.ReadHandle) (interface{}, error) { return h.ReadData(io.Discard) })
		})
		c.guard("copy", size, func() {
			h := bi
			mp4.NewWriter(&memFile{}).CopyBox(open(), &h)
		})
	}
	c.guard("probe", size, func() {
		r := open()
		p, err := mp4.Probe(r)
		if err != nil {
			return
		}
		c.Class("probed")
		for _, t := range p.Tracks {
			mp4.FindIDRFrames(r, t)
			t.Samples.GetBitrate(t.Timescale)
			t.Samples.GetMaxBitrate(t.Timescale, uint64(t.Timescale))
			p.Segments.GetBitrate(t.TrackID, t.Timescale)
			p.Segments.GetMaxBitrate(t.TrackID, t.Timescale)
			for _, e := range t.EditList {
				_ = e.MediaTime
			}
		}
	})
}

// c04IDR searches tracks built by hand over arbitrary bytes.
func c04IDR(c *Case) {
	ls := 1 + c.Pick(4)
	b := c.Bytes(c.Int(1, 60))
	for k := c.Pick(5); k > 0; k-- {
		i := c.Pick(len(b))
		// a length that leads back, or far ahead
		x := uint64(c.Int(-70, 70))
		for j := 0; j < ls && i+j < len(b); j++ {
			b[i+j] = byte(x >> uint(8*(ls-1-j)))
		}
	}
	t := &mp4.TrackInfo{AVC: &mp4.AVCDecConfigInfo{LengthSize: uint16(ls)}, Timescale: uint32(c.UBits(32))}
	for k := c.Int(1, 6); k > 0; k-- {
		size := uint32(c.Pick(len(b) + 3))
		if c.Chance(6) {
			size = uint32(c.UBits(32))
		}
		t.Samples = append(t.Samples, &mp4.Sample{Size: size, TimeDelta: uint32(c.UBits(32))})
	}
	for k := c.Int(1, 4); k > 0; k-- {
		off := uint64(c.Pick(len(b)))
		if c.Chance(6) {
			off = hostile64(c)
		}
		n := uint32(c.Pick(5))
		if c.Chance(8) {
			n = uint32(c.UBits(32))
		}
		t.Chunks = append(t.Chunks, &mp4.Chunk{DataOffset: off, SamplesPerChunk: n})
	}
	c.Note("bytes", b)
	c.Note("track", deep(t))
	c.NonTrivial(b, deep(t))
	defer c.mustNotCrash("hand-built track")
	c.guard("IDR search", len(b), func() {
		_, err := mp4.FindIDRFrames(bytes.NewReader(b), t)
		c.ClassIf(err == nil, "searched")
	})
	c.guard("bitrate", len(b), func() {
		t.Samples.GetBitrate(t.Timescale)
		t.Samples.GetMaxBitrate(t.Timescale, c.UBits(40))
	})
}

// c04Deep nests boxes.
func c04Deep(c *Case) {
	n := c.Int(1, 3000)
	if c.Bool() {
		n = c.Int(3000, 120000)
	}
	l := append([]string{}, plainContainers...)
	kinds := []string{l[c.Pick(len(l))], l[c.Pick(len(l))]}
	large := c.Chance(4)
	c.Note("levels", n)
	c.Note("of", kinds)
	pre := func(t string) int {
		k := 8
		if large {
			k = 16
		}
		if s := specNamed(t); s.Full {
			k += 4
		}
		if t == "stsd" || t == "dref" {
			k += 4
		}
		return k
	}
	total := 0
	for i := 0; i < n; i++ {
		total += pre(kinds[i%2])
	}
	b := make([]byte, 0, total)
	for i := 0; i < n; i++ {
		t := kinds[i%2]
		x := make([]byte, pre(t))
		if large {
			binary.BigEndian.PutUint32(x, 1)
			binary.BigEndian.PutUint64(x[8:], uint64(total-len(b)))
		} else {
			binary.BigEndian.PutUint32(x, uint32(total-len(b)))
		}
		copy(x[4:], t)
		b = append(b, x...)
	}
	c.NonTrivial(n, kinds, large)
	c.Note("file", func() string { return fmt.Sprintf("%d bytes, beginning %x", len(b), b[:min(len(b), 200)]) })
	defer c.mustNotCrash("nested file")
	c.guard("traverse", len(b), func() {
		mp4.ReadBoxStructure(bytes.NewReader(b), func(h *mp4.ReadHandle) (interface{}, error) { return h.Expand() })
	})
	c.guard("probe", len(b), func() { mp4.Probe(bytes.NewReader(b)) })
	path := mp4.BoxPath{}
	for i := 0; i < min(n, 2000); i++ {
		path = append(path, mp4.BoxTypeAny())
	}
	c.guard("extract", len(b), func() { mp4.ExtractBox(bytes.NewReader(b), nil, path) })
}

func c04Commands(c *Case) {
	b := hostileFile(c)
	c.Note("file", b)
	if len(b) == 0 {
		return
	}
	name := scratchFile("hostile.mp4", b)
	var cmds [][]string
	cmds = append(cmds, []string{"dump", name}, []string{"dump", "-a", name}, []string{"dump", "-a", "-full", "mdat,free,skip", "-offset", "-hex", name},
		[]string{"probe", name}, []string{"probe", "-format", "yaml", name}, []string{"psshdump", name})
	t := bt("trak")
	if len(b) >= 8 {
		copy(t[:], b[4:])
	}
	cmds = append(cmds, []string{"extract", "mdat", name}, []string{"extract", string(t[:]), name}, []string{"extract", "stts", name})
	args := cmds[c.Pick(len(cmds))]
	for k := 0; k < 3; k++ {
		if k > 0 {
			args = cmds[c.Pick(len(cmds))]
		}
		if args[1][0] == '-' && args[0] == "extract" {
			continue
		}
		c.NonTrivial(b, fmt.Sprint(args))
		c.Note("command", fmt.Sprint(args))
		var t toolRun
		c.guard(args[0], len(b), func() { t = runTool(args[0], args[1:]...) })
		if t.crash != "" {
			c.Failf("mp4tool %v: %s", args, t.crash)
		}
		c.ClassIf(t.status == 0, args[0]+" succeeds")
		c.ClassIf(t.status != 0, args[0]+" fails")
		if t.status != 0 && t.status != 1 {
			c.Failf("mp4tool %v: status %d", args, t.status)
		}
	}
}
