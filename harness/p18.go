package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"testing/iotest"

	mp4 "github.com/abema/go-mp4"
	"github.com/sunfish-shogi/bufseekio"
)

func init() {
	register(&Prop{
		ID: "C18", Level: "fault_enumeration",
		Rule:        "the operation made at least one call on the reader or writer at which a failure was injected; each (operation, call, kind of failure) counts as one evaluation",
		Assumptions: []string{"a failing call returns a non-nil error other than io.EOF and fewer bytes than it was given (io.CopyN takes a full count for success)", "the operation succeeds without the fault"},
		Subs: []Sub{
			{Name: "reading", N: 6000, F: func(c *Case) {
				c18Run(c, []string{"traverse", "internal", "extract", "extractpayload", "probe", "idr", "header"}[c.Pick(7)])
			}},
			{Name: "decode", N: 12000, F: func(c *Case) { c18Run(c, "decode") }},
			{Name: "encode", N: 12000, F: func(c *Case) { c18Run(c, "encode") }},
			{Name: "writing", N: 6000, F: func(c *Case) { c18Run(c, []string{"writer", "rewrite"}[c.Pick(2)]) }},
			{Name: "fat", N: 250, F: fat(func(c *Case) {
				c18Run(c, []string{"traverse", "extract", "extractpayload", "writer", "rewrite", "encode", "decode"}[c.Pick(7)])
			})},
			{Name: "truncated", N: 20000, F: c18Truncated},
			{Name: "cut", N: 12000, F: c18Cut},
		},
	})
	register(&Prop{
		ID: "C19", Level: "exploration",
		Rule:        "the operation reads at least one byte; each (operation, way of delivery) counts as one evaluation",
		Assumptions: []string{"readers follow the io.Reader and io.Seeker contracts"},
		Subs: []Sub{
			{Name: "files", N: 12000, F: func(c *Case) {
				c19Run(c, []string{"traverse", "internal", "extract", "extractpayload", "probe", "probefra", "idr", "header", "rewrite", "writer"}[c.Pick(10)])
			}},
			{Name: "payloads", N: 24000, F: func(c *Case) { c19Run(c, "decode") }},
			{Name: "fat", N: 250, F: fat(func(c *Case) {
				c19Run(c, []string{"traverse", "extract", "extractpayload", "writer", "rewrite", "encode", "decode"}[c.Pick(7)])
			})},
			{Name: "hostile", N: 16000, F: c19Hostile},
		},
	})
}

// a failing call may return anything but io.EOF
var faultErrs = []error{errors.New("injected failure"), os.ErrClosed, io.ErrShortWrite, io.ErrNoProgress, os.ErrDeadlineExceeded}

const (
	ioRead = iota
	ioWrite
	ioSeek
)

// faulty counts the calls on a reader and a writer and fails one of them
// (or all from one on).
type faulty struct {
	calls  []byte
	failAt int
	sticky bool
	mode   int
	hits   int
	err    error
}

func (f *faulty) call(kind byte) bool {
	k := len(f.calls)
	f.calls = append(f.calls, kind)
	if f.failAt >= 0 && (k == f.failAt || f.sticky && k > f.failAt) {
		f.hits++
		return true
	}
	return false
}

type faultyReader struct {
	f *faulty
	r io.ReadSeeker
}

func (r *faultyReader) Read(p []byte) (int, error) {
	if r.f.call(ioRead) {
		if r.f.mode == 1 && len(p) > 1 {
			n, _ := r.r.Read(p[:len(p)/2])
			return n, r.f.err
		}
		return 0, r.f.err
	}
	return r.r.Read(p)
}

func (r *faultyReader) Seek(off int64, whence int) (int64, error) {
	if r.f.call(ioSeek) {
		if r.f.mode == 1 {
			n, _ := r.r.Seek(off, whence)
			return n, r.f.err
		}
		return 0, r.f.err
	}
	return r.r.Seek(off, whence)
}

type faultyWriter struct {
	f *faulty
	w io.WriteSeeker
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	if w.f.call(ioWrite) {
		if w.f.mode == 1 {
			n, _ := w.w.Write(p[:len(p)/2])
			return n, w.f.err
		}
		return 0, w.f.err
	}
	return w.w.Write(p)
}

func (w *faultyWriter) Seek(off int64, whence int) (int64, error) {
	if w.f.call(ioSeek) {
		if w.f.mode == 1 {
			n, _ := w.w.Seek(off, whence)
			return n, w.f.err
		}
		return 0, w.f.err
	}
	return w.w.Seek(off, whence)
}

func c18Run(c *Case, kind string) {
	op := drawOp(c, kind)
	c.Class(op.name)
	dry := &faulty{failAt: -1}
	_, err := op.run(&faultyReader{dry, &sparseReader{s: op.src}}, &faultyWriter{dry, &memFile{}})
	if err != nil {
		c.Class(op.name + " fails by itself")
		return
	}
	n := len(dry.calls)
	var at []int
	if n <= 48 {
		for i := 0; i < n; i++ {
			at = append(at, i)
		}
		c.Class("every call")
	} else {
		for i := 0; i < 24; i++ {
			at = append(at, c.Pick(n))
		}
		// seeks are rarer than reads
		var sk []int
		for i, k := range dry.calls {
			if k == ioSeek {
				sk = append(sk, i)
			}
		}
		for i := 0; i < 12 && len(sk) > 0; i++ {
			at = append(at, sk[c.Pick(len(sk))])
		}
		at = append(at, n-1)
	}
	mode, sticky, fe := c.Pick(2), c.Chance(4), faultErrs[c.Pick(len(faultErrs))]
	c.Note("failure", fe)
	for _, k := range at {
		f := &faulty{failAt: k, mode: mode, sticky: sticky, err: fe}
		c.NonTrivial(op.src.segsKey(), op.name, k, mode, sticky)
		c.More(1)
		res, err := op.run(&faultyReader{f, &sparseReader{s: op.src}}, &faultyWriter{f, &memFile{}})
		if f.hits == 0 {
			c.Failf("harness: call %d of %d not made again", k, n)
		}
		if err == nil {
			what := []string{"read", "write", "seek"}[dry.calls[k]]
			c.Failf("%s reports success although call %d of %d, a %s, failed (mode %d, sticky %v): %s", op.name, k, n, what, mode, sticky, clip(res))
		}
	}
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

func (s *sparse) segsKey() string {
	k := fmt.Sprint(s.size)
	for _, g := range s.segs {
		k += string(g.data)
	}
	return k
}

// truncated gives the first n bytes of the file.
func (s *sparse) truncated(n uint64) *sparse {
	t := &sparse{size: n}
	for _, g := range s.segs {
		if g.off >= n {
			break
		}
		d := g.data
		if uint64(len(d)) > n-g.off {
			d = d[:n-g.off]
		}
		t.segs = append(t.segs, seg{g.off, d})
	}
	return t
}

// c18Truncated runs operations with a definite extent on a source that ends
// early: either the missing bytes do not matter, or the operation fails.
func c18Truncated(c *Case) {
	op := drawOp(c, []string{"decode", "extract", "extractpayload", "idr", "writer"}[c.Pick(5)])
	if !op.full || op.src.size == 0 {
		return
	}
	full := &memFile{}
	want, err := op.run(&sparseReader{s: op.src}, full)
	if err != nil {
		return
	}
	for i := 0; i < 4; i++ {
		cut := c.U64() % op.src.size
		c.More(1)
		c.Note("cut", cut)
		w := &memFile{}
		got, err := op.run(&sparseReader{s: op.src.truncated(cut)}, w)
		c.NonTrivial(op.src.segsKey(), cut)
		c.ClassIf(err != nil, op.name+" refused")
		c.ClassIf(err == nil, op.name+" unaffected")
		if err == nil && (got != want || op.write && !bytes.Equal(w.bytes(), full.bytes())) {
			c.Failf("%s of a source of %d bytes cut to %d succeeds with another result: %s instead of %s", op.name, op.src.size, cut, clip(got), clip(want))
		}
	}
}

// ---- C19 ----

// oneByte delivers single bytes.
type seekReader struct {
	io.Reader
	s io.Seeker
}

func (r *seekReader) Seek(off int64, whence int) (int64, error) { return r.s.Seek(off, whence) }

// eofReader returns end-of-file together with the last bytes.
type eofReader struct {
	r    *sparseReader
	x    uint64
	lazy bool
}

func (r *eofReader) Read(p []byte) (int, error) {
	if r.lazy {
		// now and then nothing at all
		r.x = mix(r.x + 0x9e3779b97f4a7c15)
		if r.x%4 == 0 {
			return 0, nil
		}
		if len(p) > 1 && r.x%4 == 1 {
			p = p[:len(p)/2]
		}
	}
	n, err := r.r.Read(p)
	if err == nil && uint64(r.r.pos) >= r.r.s.size {
		err = io.EOF
	}
	return n, err
}

func (r *eofReader) Seek(off int64, whence int) (int64, error) { return r.r.Seek(off, whence) }

// blockReader reads its source in aligned blocks and keeps one.
type blockReader struct {
	s    io.ReadSeeker
	n    int
	pos  int64
	blk  []byte
	base int64
	have bool
}

func (r *blockReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	b := r.pos / int64(r.n) * int64(r.n)
	if !r.have || b != r.base {
		if _, err := r.s.Seek(b, io.SeekStart); err != nil {
			return 0, err
		}
		r.blk = make([]byte, r.n)
		n, err := io.ReadFull(r.s, r.blk)
		if err != nil && err != io.EOF && err != io.ErrUnexpectedEOF {
			return 0, err
		}
		r.blk, r.base, r.have = r.blk[:n], b, true
	}
	if r.pos-b >= int64(len(r.blk)) {
		return 0, io.EOF
	}
	n := copy(p, r.blk[r.pos-b:])
	r.pos += int64(n)
	return n, nil
}

func (r *blockReader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += r.pos
	case io.SeekEnd:
		e, err := r.s.Seek(0, io.SeekEnd)
		if err != nil {
			return 0, err
		}
		off += e
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	r.pos = off
	return off, nil
}

var deliveries = []string{"single bytes", "short reads", "data with EOF", "lazy", "halves", "own buffer", "buffered", "buffered small", "bytes.Reader", "file", "moved"}

func deliver(c *Case, s *sparse, how string) (io.ReadSeeker, func()) {
	base := &sparseReader{s: s}
	none := func() {}
	switch how {
	case "single bytes":
		return &seekReader{iotest.OneByteReader(base), base}, none
	case "short reads":
		return &chunkReader{r: base, c: c, x: c.U64()}, none
	case "data with EOF":
		return &eofReader{r: base}, none
	case "lazy":
		return &eofReader{r: base, x: c.U64(), lazy: true}, none
	case "halves":
		return &seekReader{iotest.HalfReader(base), base}, none
	case "own buffer":
		return &blockReader{s: base, n: 1 + c.Pick(70)}, none
	case "buffered":
		return bufseekio.NewReadSeeker(base, 1024, 4), none
	case "buffered small":
		return bufseekio.NewReadSeeker(base, 1+c.Pick(40), 1+c.Pick(3)), none
	case "bytes.Reader":
		return bytes.NewReader(s.bytes()), none
	case "file":
		if s.size > 1<<20 {
			return base, none
		}
		f, err := os.CreateTemp(".", "in")
		if err != nil {
			panic(err)
		}
		f.Write(s.bytes())
		return f, func() { f.Close(); os.Remove(f.Name()) }
	}
	base.pos = int64(c.U64() % (s.size + 20))
	return base, none
}

func c19Run(c *Case, kind string) {
	op := drawOp(c, kind)
	c.Class(op.name)
	c19Judge(c, op, true)
}

func c19Judge(c *Case, op *ioOp, sound bool) {
	base := &sparseReader{s: op.src}
	full := &memFile{}
	want, werr := op.run(base, full)
	c.ClassIf(werr != nil, op.name+" fails")
	if werr == nil && base.pos > 0 || op.size > 0 {
		c.NonTrivial(op.src.segsKey(), op.name)
	}
	for _, how := range deliveries {
		if how == "file" && (!sound || !c.Chance(20)) {
			continue
		}
		if how == "moved" && !op.abs {
			continue
		}
		if how[:4] == "buff" && !sound {
			// that package panics when it is read beyond the end of the file
			continue
		}
		r, done := deliver(c, op.src, how)
		n := 1
		if c.Chance(4) {
			n = 2
		}
		for ; n > 0; n-- {
			w := &memFile{}
			got, err := op.run(r, w)
			c.More(1)
			bad := (err == nil) != (werr == nil) || err == nil && (got != want || !bytes.Equal(w.bytes(), full.bytes()))
			if bad {
				done()
				c.Failf("%s gives another result when the bytes are delivered by %q (err %v instead of %v): %s", op.name, how, err, werr, clip(lineDiff(got, want)))
			}
		}
		done()
	}
}

func lineDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	i = max(0, i-40)
	return clip(a[i:]) + "\ninstead of\n" + clip(b[i:])
}

// c19Hostile compares deliveries on damaged sources.
func c19Hostile(c *Case) {
	op := drawOp(c, []string{"traverse", "internal", "extract", "extractpayload", "probe", "decode", "header"}[c.Pick(7)])
	if op.src.size > 1<<20 || op.src.size == 0 {
		return
	}
	b := op.src.bytes()
	for k := c.Int(1, 4); k > 0; k-- {
		switch c.Pick(4) {
		case 0:
			b[c.Pick(len(b))] ^= 1 << uint(c.Pick(8))
		case 1:
			b[c.Pick(len(b))] = byte(c.U64())
		case 2:
			if len(b) > 1 {
				b = b[:c.Int(1, len(b)-1)]
			}
		case 3:
			b = append(b, c.Bytes(c.Int(1, 9))...)
		}
	}
	capCounts(b)
	if op.trunAt > 0 && op.trunAt+8 <= len(b) {
		b[op.trunAt+4], b[op.trunAt+5] = 0, 0
	}
	op.src.segs, op.src.size = []seg{{0, b}}, uint64(len(b))
	c.Note("damaged", b)
	c19Judge(c, op, false)
}

// capCounts limits the numbers of samples that a file declares without giving
// bytes for them.
func capCounts(b []byte) {
	be := binary.BigEndian
	limit := func(i int, m uint32) {
		if i+4 <= len(b) && be.Uint32(b[i:]) > m && (be.Uint32(b[i:]) != ^uint32(0) || m == 0x3ff) {
			be.PutUint32(b[i:], be.Uint32(b[i:])&m)
		}
	}
	for i := 0; i+4 <= len(b); i++ {
		switch string(b[i : i+4]) {
		case "stts":
			for k := i + 12; k+4 <= len(b) && k < i+12+4*800; k += 4 {
				limit(k, 0x3ff)
			}
		case "trun":
			limit(i+8, 0xfff)
			limit(i+16, 0xfff)
		}
	}
}

// limitWriter fails once a number of bytes was written.
type limitWriter struct {
	memFile
	left int
	err  error
}

func (w *limitWriter) Write(p []byte) (int, error) {
	if len(p) > w.left {
		n, _ := w.memFile.Write(p[:w.left])
		w.left = 0
		return n, w.err
	}
	w.left -= len(p)
	return w.memFile.Write(p)
}

// c18Cut: large boxes of which the source has only a part, or the destination
// takes only a part, often ending at the boundary of some block.
func c18Cut(c *Case) {
	n := c.Int(1, 70000)
	if c.Chance(4) {
		n = c.Int(1, 600000)
	} else if c.Chance(60) {
		n = c.Int(1, 5<<20)
	}
	t := bt([]string{"mdat", "free", "skip", "zzzz"}[c.Pick(4)])
	x := &node{typ: t, hdr: 8 + 8*uint64(c.Pick(2))}
	if t == bt("zzzz") {
		x.pay = make([]byte, n)
		fillBytes(x.pay, c.U64())
	} else {
		x.spec = specNamed(string(t[:]))
		x.val = zeroStruct(x.spec.Def)
		x.val.F[0].B = make([]byte, n)
		fillBytes(x.val.F[0].B, c.U64())
		x.pay = x.val.F[0].B
	}
	pre := c.Bytes(c.Pick(40))
	if c.Chance(3) {
		pre = c.Bytes(c.Pick(70000))
	}
	head := sizeHeader(bt("skip"), uint64(8+len(pre)), false)
	file := append(append([]byte{}, head...), pre...)
	off := len(file)
	file = append(file, sizeHeader(t, uint64(n)+x.hdr, x.hdr == 16)...)
	body := len(file)
	file = append(file, x.pay...)
	info := &mp4.BoxInfo{Offset: uint64(off), Size: uint64(len(file) - off), HeaderSize: x.hdr, Type: t}
	// how much of the payload there is
	base := []int{0, off, body}[c.Pick(3)]
	cut := base + blocky(c, len(file)-base)
	if cut < body {
		cut = body + blocky(c, n)
	}
	writer := c.Bool()
	lim := &limitWriter{left: 1 << 40}
	part := file[:cut]
	if writer {
		lim.left, lim.err = blocky(c, n), faultErrs[c.Pick(len(faultErrs))]
		part = file
	}
	c.Note("box", fmt.Sprintf("%q at %d, header of %d bytes, payload of %d bytes", string(t[:]), off, x.hdr, n))
	c.Note("source has", len(part)-body)
	if writer {
		c.Note("destination takes", lim.left)
	}
	var r io.ReadSeeker = bytes.NewReader(part)
	if c.Chance(3) {
		r = &chunkReader{r: r, c: c}
	}
	k := c.Pick(5)
	if writer {
		k = c.Pick(3)
	}
	var err error
	op := ""
	read := func(f func(h *mp4.ReadHandle) error) error {
		_, err := mp4.ReadBoxStructure(r, func(h *mp4.ReadHandle) (interface{}, error) {
			if h.BoxInfo.Type == t && h.BoxInfo.Offset == uint64(off) {
				return nil, f(h)
			}
			return nil, nil
		})
		return err
	}
	switch {
	case k == 0:
		op = "CopyBox"
		err = mp4.NewWriter(lim).CopyBox(r, info)
	case k == 1:
		op = "ReadData"
		err = read(func(h *mp4.ReadHandle) error { _, err := h.ReadData(lim); return err })
	case writer && t == bt("zzzz"):
		op = "CopyBox"
		err = mp4.NewWriter(lim).CopyBox(r, info)
	case writer:
		op = "Marshal"
		b, e := t.New(mp4.Context{})
		if e != nil {
			c.Failf("%v", e)
		}
		reflect.ValueOf(b).Elem().FieldByName("Data").SetBytes(x.pay)
		_, err = mp4.Marshal(lim, b, mp4.Context{})
	case t == bt("zzzz"):
		op = "ReadData"
		err = read(func(h *mp4.ReadHandle) error { _, err := h.ReadData(lim); return err })
	case k == 2:
		op = "ReadPayload"
		err = read(func(h *mp4.ReadHandle) error { _, _, err := h.ReadPayload(); return err })
	case k == 3:
		op = "UnmarshalAny"
		r.Seek(int64(body), io.SeekStart)
		_, _, err = mp4.UnmarshalAny(r, t, uint64(n), mp4.Context{})
	default:
		op = "ExtractBoxWithPayload"
		_, err = mp4.ExtractBoxWithPayload(r, nil, mp4.BoxPath{t})
	}
	c.Class(op)
	c.ClassIf(writer, op+" to a failing destination")
	c.NonTrivial(op, t[:], n, off, len(part), lim.left)
	if err == nil {
		c.Failf("%s of a box with %d bytes of payload succeeds", op, n)
	}
}
