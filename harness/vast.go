package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"

	mp4 "github.com/abema/go-mp4"
)

// Files of several GiB that are really read and written from one end to the
// other: the content of their one large box is not filled in by the reader,
// except for eight bytes in every 4096, and not kept by the writer, which
// checks those.

const vastStep = 4096

// stamp writes the bytes of a vast region that begin at position pos.
func stamp(p []byte, pos uint64) {
	stamps(p, pos, func(p, s []byte) bool { copy(p, s); return true })
}

// stamped says whether the bytes at position pos are those of the region.
func stamped(p []byte, pos uint64) bool {
	return stamps(p, pos, func(p, s []byte) bool { return bytes.Equal(p[:len(s)], s) })
}

func stamps(p []byte, pos uint64, f func(p, s []byte) bool) bool {
	k := pos / vastStep * vastStep
	if pos-k >= 8 {
		k += vastStep
	}
	var b [8]byte
	for ; k < pos+uint64(len(p)); k += vastStep {
		binary.BigEndian.PutUint64(b[:], mix(k+77))
		s, at := b[:], 0
		if k < pos {
			s = s[pos-k:]
		} else {
			at = int(k - pos)
		}
		if len(s) > len(p)-at {
			s = s[:len(p)-at]
		}
		if !f(p[at:], s) {
			return false
		}
	}
	return true
}

// vastReader reads a sparse file whose bytes [a,b) are stamped.
type vastReader struct {
	s     *sparse
	a, b  uint64
	pos   uint64
	short uint64 // never more than this at once, if not 0
}

func (r *vastReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.short > 0 && uint64(len(p)) > r.short {
		p = p[:r.short]
	}
	if r.pos >= r.s.size {
		return 0, io.EOF
	}
	if r.pos >= r.a && r.pos < r.b {
		p = p[:min(uint64(len(p)), r.b-r.pos)]
		stamp(p, r.pos-r.a)
		r.pos += uint64(len(p))
		return len(p), nil
	}
	if r.pos < r.a {
		p = p[:min(uint64(len(p)), r.a-r.pos)]
	}
	n := r.s.readAt(p, r.pos)
	r.pos += uint64(n)
	return n, nil
}

func (r *vastReader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += int64(r.pos)
	case io.SeekEnd:
		off += int64(r.s.size)
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	r.pos = uint64(off)
	return off, nil
}

// vastSink is a file whose bytes [a,b) must be written with a stamped region.
type vastSink struct {
	memFile
	c    *Case
	a, b int64
	got  uint64 // bytes written to the region
}

func (w *vastSink) Write(p []byte) (int, error) {
	n := 0
	for len(p) > 0 {
		switch {
		case w.pos >= w.b:
			k, _ := w.memFile.Write(p)
			return n + k, nil
		case w.pos < w.a:
			k, _ := w.memFile.Write(p[:min(int64(len(p)), w.a-w.pos)])
			n += k
			p = p[k:]
		default:
			k := min(int64(len(p)), w.b-w.pos)
			if !stamped(p[:k], uint64(w.pos-w.a)) {
				w.c.Failf("wrong bytes are written at %d (the large box's content is at %d to %d)", w.pos, w.a, w.b)
			}
			w.got += uint64(k)
			w.pos += k
			w.size = max(w.size, w.pos)
			n += int(k)
			p = p[k:]
		}
	}
	return n, nil
}

// vastSize draws the size of a large region.
func vastSize(c *Case) uint64 {
	switch c.Pick(8) {
	case 0:
		return 1<<31 + uint64(c.Int(-20, 20))
	case 1, 2, 3:
		return 1<<32 + uint64(c.Int(-40, 40))
	case 4:
		return 1<<33 + uint64(c.Int(-20, 20))
	}
	return 1<<31 + c.U64()%(7<<31)
}

// vastFile draws a file with one large box.
func vastFile(c *Case, f *fileGen) (ns []*node, file *sparse, big *node) {
	f.huge = true
	f.budget = 12
	ns = f.file()
	all := allNodes(ns)
	var l []*node
	for _, n := range all {
		if n.zeros > 0 {
			l = append(l, n)
		}
	}
	if len(l) > 0 {
		big = l[c.Pick(len(l))]
	} else {
		big = &node{typ: bt("mdat"), spec: specNamed("mdat"), hdr: 8}
		i := 0
		if len(ns) > 0 {
			i = c.Pick(len(ns)) // a box in the middle may extend to the end of the file
		}
		if len(ns) > 0 && ns[i].typ == bt("ftyp") {
			i++
		}
		if i > 0 {
			big.ctx = after(ns[i-1], ns[i-1].ctx, true)
			ns[i-1].toEOF = false
		}
		ns = append(ns[:i:i], append([]*node{big}, ns[i:]...)...)
	}
	for _, n := range all {
		n.zeros = 0
	}
	big.zeros = vastSize(c)
	if c.Chance(4) && !big.toEOF {
		big.hdr = 16
	}
	layout(ns, 0, nil)
	file = render(ns)
	c.Note("tree", func() string { return nodesString(ns) })
	c.Note("large box", big)
	c.ClassIf(big.size > math.MaxUint32, "4 GiB or more")
	c.ClassIf(big.parent != nil, "not at the top")
	c.NonTrivial(nodesString(ns))
	return
}

func vastReaderOf(c *Case, file *sparse, big *node) *vastReader {
	b := big.payOff() + uint64(len(big.pay)) + big.zeros
	r := &vastReader{s: file, a: b - big.zeros, b: b}
	if c.Chance(4) {
		r.short = uint64(c.Int(3000, 100000))
	}
	return r
}

// c06Vast reads the raw data of a large box of a file.
func c06Vast(c *Case) {
	ns, file, big := vastFile(c, newFileGen(c))
	r := vastReaderOf(c, file, big)
	up := map[uint64]bool{}
	for p := big.parent; p != nil; p = p.parent {
		up[p.off] = true
	}
	var want, got []uint64
	walkNodes(ns, func(n *node, _ int) {
		if n.parent == nil || up[n.parent.off] {
			want = append(want, n.off)
		}
	})
	_, err := mp4.ReadBoxStructure(r, func(h *mp4.ReadHandle) (interface{}, error) {
		got = append(got, h.BoxInfo.Offset)
		switch {
		case h.BoxInfo.Offset == big.off:
			w := &vastSink{c: c, a: int64(len(big.pay)), b: int64(uint64(len(big.pay)) + big.zeros)}
			n, err := h.ReadData(w)
			if err != nil || n != big.paySize() || uint64(w.size) != big.paySize() || w.got != big.zeros {
				c.Failf("raw data of %v: %d bytes reported, %d written, want %d (%v)", big, n, w.size, big.paySize(), err)
			}
		case up[h.BoxInfo.Offset]:
			_, err := h.Expand()
			return nil, err
		}
		return nil, nil
	})
	if err != nil {
		c.Failf("traversal: %v", err)
	}
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.Failf("boxes visited at %v, want %v", got, want)
	}
}

// c10Vast copies a large box into a box.
func c10Vast(c *Case) {
	_, file, big := vastFile(c, newFileGen(c))
	r := vastReaderOf(c, file, big)
	start := c.U64() >> uint(c.Int(24, 60))
	pre := c.Bytes(c.Small(20))
	at := start + 16 + uint64(len(pre))
	n := big
	for n.parent != nil && c.Bool() {
		n = n.parent // a box around it
	}
	f := &vastSink{c: c, a: int64(at + r.a - n.off), b: int64(at + r.b - n.off)}
	f.Seek(int64(start), io.SeekStart)
	w := mp4.NewWriter(f)
	if _, err := w.StartBox(&mp4.BoxInfo{Type: bt("mdat"), HeaderSize: 16, Size: 16}); err != nil {
		c.Failf("start: %v", err)
	}
	w.Write(pre)
	r.Seek(int64(c.U64()%file.size), io.SeekStart)
	bi := n.info()
	in := *bi
	if err := w.CopyBox(r, bi); err != nil || *bi != in {
		c.Failf("copying %v: %v (%+v)", n, err, bi)
	}
	if uint64(f.pos) != at+n.size {
		c.Failf("copying %v of %d bytes moved the position by %d", n, n.size, uint64(f.pos)-at)
	}
	out, err := w.EndBox()
	if size := 16 + uint64(len(pre)) + n.size; err != nil || out.Size != size || out.Offset != start || out.HeaderSize != 16 || uint64(f.pos) != start+size || uint64(f.size) != start+size {
		c.Failf("closing the box of %d bytes at %d: %+v, %v, position %d, size %d", size, start, out, err, f.pos, f.size)
	} else if h := f.slice(int64(start), int64(at)); !bytes.Equal(h, append(sizeHeader(bt("mdat"), size, true), pre...)) {
		c.Failf("closing the box of %d bytes left %x", size, h)
	}
	if f.got != big.zeros {
		c.Failf("%d bytes of the content are written, it has %d", f.got, big.zeros)
	}
	for _, e := range [][2]uint64{{n.off, r.a}, {r.b, n.end()}} {
		if g, x := f.slice(int64(at+e[0]-n.off), int64(at+e[1]-n.off)), file.slice(e[0], e[1]); !bytes.Equal(g, x) {
			c.Failf("the copy of [%d,%d) differs%s", e[0], e[1], firstDiff(g, x))
		}
	}
}

// c12Vast rewrites a file with a large box.
func c12Vast(c *Case) {
	f := newFileGen(c)
	f.noTail, f.noEOF = true, true
	ns, file, big := vastFile(c, f)
	r := vastReaderOf(c, file, big)
	dst := &vastSink{c: c, a: int64(r.a), b: int64(r.b)}
	w := mp4.NewWriter(dst)
	byOff := map[uint64]*node{}
	for _, n := range allNodes(ns) {
		byOff[n.off] = n
	}
	_, err := mp4.ReadBoxStructure(r, func(h *mp4.ReadHandle) (interface{}, error) {
		n := byOff[h.BoxInfo.Offset]
		if n == nil {
			c.Failf("no box at %d", h.BoxInfo.Offset)
		}
		k := c.Pick(3)
		if k == 0 && c.Bool() {
			return nil, w.CopyBox(r, &h.BoxInfo)
		}
		if _, err := w.StartBox(&h.BoxInfo); err != nil {
			return nil, err
		}
		if k > 0 && n.reencodable() {
			b, _, err := h.ReadPayload()
			if err != nil {
				return nil, err
			}
			if _, err := mp4.Marshal(w, b, h.BoxInfo.Context); err != nil {
				return nil, err
			}
			if _, err := h.Expand(); err != nil {
				return nil, err
			}
		} else if _, err := h.ReadData(w); err != nil {
			return nil, err
		}
		_, err := w.EndBox()
		return nil, err
	})
	if err != nil {
		c.Failf("rewriting: %v", err)
	}
	if uint64(dst.size) != file.size || dst.got != big.zeros {
		c.Failf("the rewritten file has %d bytes (%d of the large content), want %d (%d)", dst.size, dst.got, file.size, big.zeros)
	}
	for _, e := range [][2]uint64{{0, r.a}, {r.b, file.size}} {
		if g, x := dst.slice(int64(e[0]), int64(e[1])), file.slice(e[0], e[1]); !bytes.Equal(g, x) {
			c.Failf("the rewritten file differs in [%d,%d)%s", e[0], e[1], firstDiff(g, x))
		}
	}
}

// insertVast puts a large box at the top of a file, among the first n boxes.
func insertVast(c *Case, ns []*node, n int) []*node {
	t := "mdat"
	big := &node{typ: bt(t), spec: specNamed(t), hdr: 8, zeros: vastSize(c)}
	if n > 0 {
		n = c.Pick(n)
	}
	ns = append(ns[:n:n], append([]*node{big}, ns[n:]...)...)
	layout(ns, 0, nil)
	return ns
}
