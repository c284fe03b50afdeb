package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"

	mp4 "github.com/abema/go-mp4"
)

func init() {
	register(&Prop{
		ID: "C10", Level: "exploration",
		Rule:        "the history closes at least two boxes, or one box after patching, copying or growing beyond 32 bits",
		Assumptions: []string{"the write position is at the end of the output when a box is started, closed or copied to (patches seek back and return)", "a to-end-of-file box keeps its zero size field"},
		Subs: []Sub{
			{Name: "histories", N: 60000, F: func(c *Case) { c10History(c, false, 25, 12) }},
			{Name: "huge", N: 16000, F: func(c *Case) { c10History(c, true, 25, 12) }},
			{Name: "long", N: 2000, F: func(c *Case) {
				steps := c.Int(25, 2000)
				c.Fast(func() { c10History(c, c.Chance(4), steps, c.Int(1, 1000)) })
			}},
			{Name: "fat", N: 1000, F: fat(func(c *Case) { c10History(c, false, 25, 12) })},
			{Name: "outgrown", N: 8000, F: c10Outgrown},
			{Name: "copy", N: 20000, F: c10Copy},
			{Name: "vast", N: 100, F: c10Vast},
		},
	})
	register(&Prop{
		ID: "C11", Level: "exploration",
		Rule:        "the header is at a position other than zero or has a size of more than 32 bits",
		Assumptions: []string{"the box information given to the writer is consistent: the size includes a header of the stated form"},
		Subs: []Sub{
			{Name: "roundtrip", N: 120000, F: c11RoundTrip},
			{Name: "promoted", N: 10000, F: c11Promoted},
			{Name: "read", N: 120000, F: c11Read},
		},
	})
}

// wbox is an open box of the writer model.
type wbox struct {
	typ   mp4.BoxType
	off   uint64
	hdr   uint64
	toEOF bool
	info  *mp4.BoxInfo
	was   mp4.BoxInfo // what info said
}

// startInfo draws what a box is started with, and the header it must get.
func startInfo(c *Case) (*mp4.BoxInfo, uint64) {
	bi := &mp4.BoxInfo{Type: anyType(c), Offset: c.U64() >> 20}
	switch c.Pick(8) {
	case 0, 1, 2:
		return bi, 8
	case 3:
		bi.HeaderSize = 16
		bi.Size = 16
		return bi, 16
	case 4:
		bi.HeaderSize = 8
		bi.Size = 8 + c.UBits(31)
		return bi, 8
	case 5:
		bi.HeaderSize = 16
		bi.Size = 16 + c.UBits(40)
		return bi, 16
	case 6:
		bi.HeaderSize = 8
		bi.Size = math.MaxUint32 + uint64(c.Int(-2, 3))
		if bi.Size > math.MaxUint32 {
			return bi, 16
		}
		return bi, 8
	default:
		bi.HeaderSize = 8
		bi.Size = 8
		return bi, 8
	}
}

type mustFile struct {
	segs []seg
}

// expected image: data is kept as a list of writes, later ones win.
func (m *mustFile) write(off uint64, b []byte) {
	m.segs = append(m.segs, seg{off, append([]byte(nil), b...)})
}

func (m *mustFile) compare(c *Case, f *memFile, end uint64) {
	if uint64(f.size) != end {
		c.Failf("the output has %d bytes, %d were accounted for", f.size, end)
	}
	want := &memFile{}
	for _, s := range m.segs {
		want.Seek(int64(s.off), io.SeekStart)
		want.Write(s.data)
	}
	compareFiles(c, f, want)
}

func compareFiles(c *Case, got, want *memFile) {
	zero := make([]byte, 1<<pageBits)
	for _, m := range []*memFile{got, want} {
		for k := range m.pages {
			a, b := got.pages[k], want.pages[k]
			if a == nil {
				a = zero
			}
			if b == nil {
				b = zero
			}
			if !bytes.Equal(a, b) {
				for i := range a {
					if a[i] != b[i] {
						o := k<<pageBits + int64(i)
						c.Failf("the output differs at %d: %x, want %x", o, got.slice(o, min(o+24, got.size)), want.slice(o, min(o+24, max(o, want.size))))
					}
				}
			}
		}
	}
}

func c10History(c *Case, huge bool, maxSteps, maxDepth int) {
	f := &memFile{}
	m := &mustFile{}
	pos := uint64(0)
	if c.Bool() {
		pos = uint64(c.Int(1, 200))
		if c.Chance(3) {
			pos = c.U64() >> uint(c.Int(24, 60))
		}
		pre := c.Bytes(c.Int(1, 30))
		f.Write(pre)
		m.write(0, pre)
		if pos < uint64(len(pre)) {
			pos = uint64(len(pre))
		}
		f.Seek(int64(pos), io.SeekStart)
		if pos > uint64(f.size) {
			// make the file reach the starting position
			f.Seek(int64(pos)-1, io.SeekStart)
			f.Write([]byte{0x5a})
			m.write(pos-1, []byte{0x5a})
		}
	}
	c.Note("start", pos)
	w := mp4.NewWriter(f)
	var stack []*wbox
	var done []*wbox
	var ops []string
	defer func() {
		for _, l := range [][]*wbox{done, stack} {
			for _, b := range l {
				if *b.info != b.was {
					c.Failf("the information of a box changed after it was returned: %+v, was %+v", *b.info, b.was)
				}
			}
		}
	}()
	note := func(format string, a ...interface{}) { ops = append(ops, fmt.Sprintf(format, a...)) }
	c.Note("ops", func() string { return fmt.Sprint(ops) })
	closed, special := 0, 0
	var src *sparse
	var srcNodes []*node
	write := func(b []byte) {
		n, err := w.Write(b)
		if err != nil || n != len(b) {
			c.Failf("write: %d %v", n, err)
		}
		m.write(pos, b)
		pos += uint64(len(b))
	}
	end := func() bool {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		size := pos - b.off
		bi, err := w.EndBox()
		note("end")
		if size > math.MaxUint32 && b.hdr == 8 && !b.toEOF {
			if err == nil {
				c.Failf("closing a box of %d bytes with an 8-byte header succeeded: %+v", size, bi)
			}
			c.Class("outgrown")
			return false
		}
		if err != nil {
			c.Failf("closing a box of %d bytes: %v", size, err)
		}
		if bi.Offset != b.off || bi.Size != size || bi.HeaderSize != b.hdr || bi.Type != b.typ || bi.ExtendToEOF != b.toEOF {
			c.Failf("the closed box is %+v, it is %q offset %d size %d header %d to-end-of-file %v", bi, string(b.typ[:]), b.off, size, b.hdr, b.toEOF)
		}
		b.was = *b.info
		done = append(done, b, &wbox{info: bi, was: *bi})
		if b.toEOF {
			m.write(b.off, append(make([]byte, 4), b.typ[:]...))
		} else {
			m.write(b.off, sizeHeader(b.typ, size, b.hdr == 16))
		}
		at, err := w.Seek(0, io.SeekCurrent)
		if err != nil || uint64(at) != pos {
			c.Failf("after closing a box the position is %d, want %d (%v)", at, pos, err)
		}
		closed++
		return true
	}
	steps := c.Int(1, maxSteps)
	up := false
	for i := 0; i < steps; i++ {
		if maxDepth > 12 && c.Chance(50) {
			up = !up // many boxes are started, then many closed
		}
		k := c.Pick(10)
		if maxDepth > 12 && k > 6 && up {
			k = 0
		}
		switch {
		case k < 3 && len(stack) < maxDepth:
			bi, hdr := startInfo(c)
			if len(done) > 0 && c.Bool() {
				bi.Type = done[c.Pick(len(done))].info.Type
			}
			if c.Chance(12) {
				bi.ExtendToEOF = true
				bi.HeaderSize, bi.Size = 8, 8+c.UBits(20)
				if c.Chance(4) { // derived from a box with a long header
					bi.HeaderSize, bi.Size = 16, 16+c.UBits(40)
				}
				hdr = 8
			}
			in := *bi
			out, err := w.StartBox(bi)
			note("start(%q size=%d header=%d eof=%v)", string(bi.Type[:]), bi.Size, bi.HeaderSize, bi.ExtendToEOF)
			if err != nil {
				c.Failf("starting a box: %v", err)
			}
			if *bi != in {
				c.Failf("starting a box changes the caller's information: %+v", bi)
			}
			if out.Offset != pos || out.HeaderSize != hdr || out.Type != in.Type || out.Size != in.Size-in.HeaderSize+hdr || out.ExtendToEOF != in.ExtendToEOF {
				c.Failf("the started box is %+v, want offset %d header %d type %q size %d", out, pos, hdr, string(in.Type[:]), in.Size-in.HeaderSize+hdr)
			}
			stack = append(stack, &wbox{in.Type, pos, hdr, in.ExtendToEOF, out, *out})
			// the header's size is only due when the box is closed
			m.write(pos, sizeHeader(in.Type, 0, hdr == 16))
			pos += hdr
			at, _ := w.Seek(0, io.SeekCurrent)
			if uint64(at) != pos {
				c.Failf("after starting a box the position is %d, want %d", at, pos)
			}
		case k < 6:
			if len(stack) == 0 && c.Bool() {
				continue
			}
			b := c.Bytes(c.Small(60))
			if c.fat && c.Bool() {
				b = c.Bytes(fatSize(c))
			}
			note("write(%x)", b)
			write(b)
		case k == 6:
			if huge && c.Bool() {
				d := uint64(math.MaxUint32) + uint64(c.Int(-40, 40))
				if c.Chance(3) {
					d = c.U64() >> 28
				}
				note("skip(%d)+1", d)
				if _, err := w.Seek(int64(d), io.SeekCurrent); err != nil {
					c.Failf("seek: %v", err)
				}
				pos += d
				write([]byte{1})
				special++
				continue
			}
			if src == nil {
				g := newFileGen(c)
				g.budget = 8
				srcNodes = allNodes(g.file())
				if len(srcNodes) == 0 {
					continue
				}
				var roots []*node
				for _, n := range srcNodes {
					if n.parent == nil {
						roots = append(roots, n)
					}
				}
				src = render(roots)
				shift := c.U64() >> uint(c.Int(24, 60))
				for i := range src.segs {
					src.segs[i].off += shift
				}
				src.size += shift
				for _, n := range srcNodes {
					n.off += shift
				}
				c.Note("source", func() string { return fmt.Sprintf("%s at %d", nodesString(roots), shift) })
			}
			n := srcNodes[c.Pick(len(srcNodes))]
			note("copy(%v)", n)
			r := &sparseReader{s: src, pos: int64(c.U64() >> 30)}
			bi := n.info()
			if err := w.CopyBox(r, bi); err != nil {
				c.Failf("copying %v: %v", n, err)
			}
			b := src.slice(n.off, n.end())
			m.write(pos, b)
			pos += n.size
			special++
		case k == 7:
			if len(stack) == 0 {
				continue
			}
			// patch something already written inside the innermost box
			b := stack[len(stack)-1]
			lo, hi := b.off+b.hdr, pos
			if lo >= hi {
				continue
			}
			o := lo + c.U64()%(hi-lo)
			if hi-lo > 1<<20 {
				o = lo + uint64(c.Pick(20))
			}
			p := c.Bytes(c.Int(1, 8))
			if uint64(len(p)) > hi-o {
				p = p[:hi-o]
			}
			// not across the headers of boxes closed inside
			note("patch(%d,%x)", o, p)
			var err error
			switch c.Pick(3) {
			case 0:
				_, err = w.Seek(int64(o), io.SeekStart)
			case 1:
				_, err = w.Seek(int64(o)-int64(pos), io.SeekCurrent)
			default:
				_, err = w.Seek(int64(o)-f.size, io.SeekEnd)
			}
			if err != nil {
				c.Failf("seek: %v", err)
			}
			w.Write(p)
			m.write(o, p)
			if c.Bool() {
				_, err = w.Seek(int64(pos), io.SeekStart)
			} else {
				_, err = w.Seek(0, io.SeekEnd)
			}
			if err != nil {
				c.Failf("seek: %v", err)
			}
			special++
		default:
			if len(stack) == 0 {
				continue
			}
			if !end() {
				return
			}
		}
	}
	for len(stack) > 0 {
		if !end() {
			return
		}
	}
	m.compare(c, f, max(pos, uint64(f.size)))
	if uint64(f.size) != pos && closed > 0 {
		c.Failf("the output has %d bytes, the position is %d", f.size, pos)
	}
	c.ClassIf(special > 0, "patched, copied or grown")
	c.ClassIf(f.size > math.MaxUint32, "beyond 4 GiB")
	if closed > 1 || closed > 0 && special > 0 {
		c.NonTrivial(fmt.Sprint(ops))
	}
	c.More(closed)
}

// c10Outgrown closes a box with an 8-byte header around the 32-bit limit.
func c10Outgrown(c *Case) {
	f := &memFile{}
	start := uint64(0)
	if c.Bool() {
		start = c.U64() >> uint(c.Int(24, 60))
	}
	f.Seek(int64(start), io.SeekStart)
	w := mp4.NewWriter(f)
	depth := c.Int(1, 3)
	if _, err := w.StartBox(&mp4.BoxInfo{Type: bt("moov"), HeaderSize: 16, Size: 16}); err != nil {
		c.Failf("start: %v", err)
	}
	for i := 1; i < depth; i++ {
		w.Write(c.Bytes(c.Pick(10)))
	}
	bi, err := w.StartBox(&mp4.BoxInfo{Type: bt("mdat")})
	if err != nil {
		c.Failf("start: %v", err)
	}
	size := uint64(math.MaxUint32) + uint64(c.Int(-20, 20))
	if c.Chance(3) {
		size += c.U64() >> uint(c.Int(24, 63))
	}
	c.Note("size", size)
	c.Note("offset", bi.Offset)
	c.NonTrivial(size, bi.Offset)
	if _, err := w.Seek(int64(bi.Offset+size), io.SeekStart); err != nil {
		c.Failf("seek: %v", err)
	}
	out, err := w.EndBox()
	if size > math.MaxUint32 {
		c.Class("outgrown")
		if err == nil {
			c.Failf("closing a box of %d bytes with an 8-byte header succeeded: %+v", size, out)
		}
		return
	}
	if err != nil || out.Size != size || out.HeaderSize != 8 || out.Offset != bi.Offset {
		c.Failf("closing a box of %d bytes: %+v, %v", size, out, err)
	}
	h := f.slice(int64(bi.Offset), int64(bi.Offset)+8)
	if uint64(binary.BigEndian.Uint32(h)) != size {
		c.Failf("closing a box of %d bytes wrote the header %x", size, h)
	}
	outer, err := w.EndBox()
	if err != nil || outer.Size != f2(f, outer, bi.Offset+size) || outer.HeaderSize != 16 || outer.Offset != start {
		c.Failf("closing the outer box: %+v, %v", outer, err)
	}
}

func f2(f *memFile, outer *mp4.BoxInfo, end uint64) uint64 {
	return binary.BigEndian.Uint64(f.slice(int64(outer.Offset)+8, int64(outer.Offset)+16)) | (end - outer.Offset)
}

// c10Copy copies single boxes from everywhere.
func c10Copy(c *Case) {
	n := c.Int(8, 200)
	if c.Chance(6) {
		n = c.Int(8, 200000)
	} else if c.Chance(100) {
		n = c.Int(8, 3<<20)
	}
	b := make([]byte, n)
	fillBytes(b, c.U64())
	off := c.U64() >> uint(c.Int(1, 63))
	if off > math.MaxInt64-uint64(n)-100 {
		off = math.MaxInt64 - uint64(n) - 100
	}
	before := c.Bytes(c.Pick(20))
	if off < uint64(len(before)) {
		before = before[:off]
	}
	after := c.Bytes(c.Pick(20))
	var s sparse
	if len(before) > 0 {
		s.segs = append(s.segs, seg{off - uint64(len(before)), before})
	}
	s.segs = append(s.segs, seg{off, b}, seg{off + uint64(n), after})
	s.size = off + uint64(n+len(after))
	cut := c.Chance(4)
	if cut {
		s.size = off + uint64(c.Pick(n))
		if c.Bool() {
			s.size = off + uint64(blocky(c, n))
		}
		if s.size == off {
			s.segs = s.segs[:len(s.segs)-2]
		} else {
			s.segs = s.segs[:len(s.segs)-1]
			s.segs[len(s.segs)-1].data = b[:s.size-off]
		}
	}
	c.Note("offset", off)
	c.Note("size", n)
	c.Note("cut", cut)
	c.NonTrivial(off, n, cut)
	c.ClassIf(cut, "source ends early")
	f := &memFile{}
	start := c.U64() >> uint(c.Int(24, 60))
	f.Seek(int64(start), io.SeekStart)
	w := mp4.NewWriter(f)
	bi := &mp4.BoxInfo{Offset: off, Size: uint64(n), HeaderSize: 8, Type: bt("free")}
	in := *bi
	r := io.ReadSeeker(&sparseReader{s: &s, pos: int64(c.U64() >> 20)})
	if c.Bool() {
		r = &chunkReader{r: r, c: c}
	}
	err := w.CopyBox(r, bi)
	if *bi != in {
		c.Failf("copying changes the box information: %+v", bi)
	}
	if cut {
		if err == nil {
			c.Failf("copying %d bytes of which %d exist succeeded", n, s.size-off)
		}
		return
	}
	if err != nil {
		c.Failf("copying %d bytes at %d: %v", n, off, err)
	}
	if uint64(f.pos) != start+uint64(n) || uint64(f.size) != start+uint64(n) {
		c.Failf("copying %d bytes to %d: position %d, size %d", n, start, f.pos, f.size)
	}
	if !bytes.Equal(f.slice(int64(start), f.size), b) {
		c.Failf("the copied bytes differ")
	}
}

// chunkReader returns arbitrary short reads.
type chunkReader struct {
	r io.ReadSeeker
	c *Case
	x uint64
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	r.x = mix(r.x + 0x9e3779b97f4a7c15)
	n := 1 + int(r.x%uint64(len(p)))
	if r.x>>40%3 == 0 {
		n = 1
	}
	return r.r.Read(p[:n])
}

func (r *chunkReader) Seek(off int64, whence int) (int64, error) { return r.r.Seek(off, whence) }

// ---- C11 ----

func drawOffset(c *Case) uint64 {
	switch c.Pick(5) {
	case 0:
		return 0
	case 1:
		return uint64(c.Int(1, 100))
	case 2:
		return uint64(math.MaxUint32) + uint64(c.Int(-20, 20))
	}
	return c.U64() >> uint(c.Int(2, 60))
}

func c11RoundTrip(c *Case) {
	off := drawOffset(c)
	bi := &mp4.BoxInfo{Offset: c.U64(), Type: anyType(c), HeaderSize: 8}
	eof := c.Chance(5)
	var size uint64
	switch {
	case c.Bool():
		size = 8 + c.UBits(32)
	case c.Bool():
		size = math.MaxUint32 + uint64(c.Int(-10, 10))
	default:
		size = 8 + c.UBits(62)
	}
	if c.Chance(3) || size > math.MaxUint32 {
		bi.HeaderSize = 16
		size = max(size, 16)
	}
	if size > math.MaxInt64-off {
		size = math.MaxInt64 - off
	}
	if eof {
		bi.ExtendToEOF = true
		bi.HeaderSize = 8
		size = max(size, 8)
		if size >= 16 && c.Chance(4) { // derived from a box with a long header
			bi.HeaderSize = 16
		}
	} else if size > math.MaxUint32 {
		bi.HeaderSize = 16
	}
	bi.Size = size
	c.Note("box", fmt.Sprintf("%+v", bi))
	c.Note("offset", off)
	if off > 0 || size > math.MaxUint32 {
		c.NonTrivial(bi.Type[:], off, size, bi.HeaderSize, eof)
	}
	f := &memFile{}
	f.Seek(int64(off), io.SeekStart)
	in := *bi
	w, err := mp4.WriteBoxInfo(f, bi)
	if err != nil {
		c.Failf("write: %v", err)
	}
	if *bi != in {
		c.Failf("writing changes the given information: %+v", bi)
	}
	c.ClassIf(eof, "to end of file")
	c.ClassIf(bi.HeaderSize == 16 && !eof, "16-byte form")
	hdr := bi.HeaderSize
	if eof {
		hdr = 8
		size -= bi.HeaderSize - 8
		c.ClassIf(bi.HeaderSize == 16, "to end of file, from a 16-byte header")
	}
	want := mp4.BoxInfo{Offset: off, Size: size, HeaderSize: hdr, Type: bi.Type, ExtendToEOF: eof}
	if *w != want {
		c.Failf("the writer reports %+v, want %+v", *w, want)
	}
	if uint64(f.pos) != off+w.HeaderSize || f.size != f.pos {
		c.Failf("position %d size %d after writing a %d-byte header at %d", f.pos, f.size, w.HeaderSize, off)
	}
	hb := sizeHeader(bi.Type, size, hdr == 16)
	if eof {
		clear(hb[:4])
	}
	if got := f.slice(int64(off), f.size); !bytes.Equal(got, hb) {
		c.Failf("the header is %x, want %x", got, hb)
	}
	if eof {
		f.size = int64(off + size)
	}
	f.Seek(int64(off), io.SeekStart)
	r, err := mp4.ReadBoxInfo(f)
	if err != nil {
		c.Failf("read back: %v", err)
	}
	if *r != want {
		c.Failf("read back as %+v, want %+v", *r, want)
	}
	if uint64(f.pos) != off+want.HeaderSize {
		c.Failf("after reading the header at %d the position is %d", off, f.pos)
	}
	c11Seeks(c, r, f)
}

func c11Seeks(c *Case, bi *mp4.BoxInfo, f io.Seeker) {
	for i, want := range []uint64{bi.Offset, bi.Offset + bi.HeaderSize, bi.Offset + bi.Size} {
		f.Seek(int64(c.U64()>>30), io.SeekStart)
		var n int64
		var err error
		switch i {
		case 0:
			n, err = bi.SeekToStart(f)
		case 1:
			n, err = bi.SeekToPayload(f)
		default:
			n, err = bi.SeekToEnd(f)
		}
		at, _ := f.Seek(0, io.SeekCurrent)
		if err != nil || uint64(n) != want || uint64(at) != want {
			c.Failf("seek %d of %+v goes to %d (reported %d, %v), want %d", i, bi, at, n, err, want)
		}
	}
}

// c11Promoted writes headers that say 8 bytes with a size beyond 32 bits.
func c11Promoted(c *Case) {
	off := drawOffset(c)
	size := uint64(math.MaxUint32) + 1 + uint64(c.Pick(20))
	if c.Bool() {
		size += c.U64() >> uint(c.Int(3, 60))
	}
	if size > math.MaxInt64-off-8 {
		size = math.MaxInt64 - off - 8
	}
	if size <= math.MaxUint32 {
		return
	}
	c.Note("size", size)
	c.Note("offset", off)
	c.NonTrivial(size, off)
	f := &memFile{}
	f.Seek(int64(off), io.SeekStart)
	w, err := mp4.WriteBoxInfo(f, &mp4.BoxInfo{Type: bt("mdat"), Size: size, HeaderSize: 8})
	if err != nil {
		c.Failf("write: %v", err)
	}
	if w.HeaderSize != 16 || w.Size != size+8 || w.Offset != off {
		c.Failf("a box of %d bytes with an 8-byte header, at %d, is reported as %+v", size, off, w)
	}
	f.Seek(int64(off), io.SeekStart)
	r, err := mp4.ReadBoxInfo(f)
	if err != nil || r.HeaderSize != 16 || r.Type != bt("mdat") {
		c.Failf("read back: %+v %v", r, err)
	}
	if r.Size == size {
		theWorker.known["promoted-size"] = "WriteBoxInfo given an 8-byte header and a size beyond 32 bits writes the 16-byte form with the given size but reports that size plus 8 (e.g. size 4294967296)"
		c.Class("known finding promoted-size")
		return
	}
	if r.Size != w.Size {
		c.Failf("the writer reports size %d, the header says %d (given %d)", w.Size, r.Size, size)
	}
}

func c11Read(c *Case) {
	off := drawOffset(c)
	t := anyType(c)
	var h []byte
	declared := uint64(0)
	eof := false
	large := false
	switch c.Pick(4) {
	case 0:
		eof = true
		h = append(make([]byte, 4), t[:]...)
	case 1:
		large = true
		declared = c.UBits(64)
		h = sizeHeader(t, declared, true)
	default:
		declared = c.UBits(32)
		if declared < 2 {
			declared += 2
		}
		h = sizeHeader(t, declared, false)
	}
	rest := c.U64() >> uint(c.Int(2, 64))
	if rest > math.MaxInt64-off-16 {
		rest = 0
	}
	short := c.Chance(5)
	full := len(h)
	if short {
		h = h[:c.Pick(len(h))]
		rest = 0
	}
	s := &sparse{segs: []seg{{off, h}}, size: off + uint64(len(h)) + rest}
	if len(h) == 0 {
		s.segs = nil
	}
	c.Note("header", h)
	c.Note("offset", off)
	c.Note("file size", s.size)
	if off > 0 || declared > math.MaxUint32 {
		c.NonTrivial(h, off, rest)
	}
	r := io.ReadSeeker(&sparseReader{s: s, pos: int64(off)})
	sr := r
	if c.Bool() {
		r = &chunkReader{r: r, c: c, x: c.U64()}
	}
	bi, err := mp4.ReadBoxInfo(r)
	if eof {
		declared = s.size - off
	}
	if short && len(h) < full {
		c.Class("incomplete")
		if err == nil {
			c.Failf("an incomplete header of %d bytes is read as %+v", len(h), bi)
		}
		return
	}
	if declared < uint64(full) || declared > math.MaxInt64-off {
		c.Class("invalid")
		if err == nil {
			c.Failf("a header of size %d (%d bytes) at %d is read as %+v", declared, full, off, bi)
		}
		return
	}
	if err != nil {
		c.Failf("a header of size %d (%d bytes) at %d: %v", declared, full, off, err)
	}
	want := mp4.BoxInfo{Offset: off, Size: declared, HeaderSize: uint64(full), Type: t, ExtendToEOF: eof}
	if *bi != want {
		c.Failf("read as %+v, want %+v", *bi, want)
	}
	if at, _ := sr.Seek(0, io.SeekCurrent); uint64(at) != off+uint64(full) {
		c.Failf("after a %d-byte header at %d the position is %d", full, off, at)
	}
	_ = large
	c11Seeks(c, bi, sr)
}

// blocky draws a number below n that is likely a multiple of a block size.
func blocky(c *Case, n int) int {
	k := c.Pick(n)
	j := uint(c.Pick(22))
	for j > 3 && n>>j == 0 {
		j = uint(c.Pick(int(j)))
	}
	k = k >> j << j
	if c.Chance(4) {
		k += c.Int(-9, 9)
	}
	if k < 0 || k >= n {
		k = 0
	}
	return k
}
