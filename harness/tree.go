package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"

	mp4 "github.com/abema/go-mp4"
)

// node is one box of a generated file.
type node struct {
	typ    mp4.BoxType
	hdr    uint64 // 8 or 16
	toEOF  bool
	spec   *Spec // nil: no definition in this context
	val    *Val
	badVer bool
	ctx    mp4.Context
	pay    []byte // payload in front of the children
	zeros  uint64 // virtual zero bytes after pay
	kids   []*node
	trail  []byte
	off    uint64
	size   uint64
	path   mp4.BoxPath
	parent *node
	mark   int
}

func (n *node) end() uint64     { return n.off + n.size }
func (n *node) payOff() uint64  { return n.off + n.hdr }
func (n *node) paySize() uint64 { return n.size - n.hdr }

// readable says whether the library can decode the payload.
func (n *node) readable() bool { return n.spec != nil && !n.badVer }

func (n *node) String() string {
	var b strings.Builder
	n.str(&b)
	return b.String()
}

func (n *node) str(b *strings.Builder) {
	fmt.Fprintf(b, "%q@%d+%d", string(n.typ[:]), n.off, n.size)
	if n.hdr == 16 {
		b.WriteByte('L')
	}
	if n.toEOF {
		b.WriteByte('E')
	}
	if n.badVer {
		b.WriteByte('V')
	}
	if len(n.kids) > 0 {
		b.WriteByte('(')
		for i, x := range n.kids {
			if i > 0 {
				b.WriteByte(' ')
			}
			x.str(b)
		}
		b.WriteByte(')')
	}
	if len(n.trail) > 0 {
		fmt.Fprintf(b, "+%d", len(n.trail))
	}
}

func nodesString(ns []*node) string {
	var b strings.Builder
	for i, x := range ns {
		if i > 0 {
			b.WriteByte(' ')
		}
		x.str(&b)
	}
	return b.String()
}

// layout assigns offsets and sizes.
func layout(ns []*node, off uint64, parent *node) uint64 {
	for _, n := range ns {
		n.parent = parent
		n.path = nil
		if parent != nil {
			n.path = append(n.path, parent.path...)
		}
		n.path = append(n.path, n.typ)
		off = n.layout(off)
	}
	return off
}

func (n *node) layout(off uint64) uint64 {
	n.off = off
	end := layout(n.kids, off+n.hdr+uint64(len(n.pay))+n.zeros, n) + uint64(len(n.trail))
	n.size = end - off
	if n.size > 0xffffffff && n.hdr == 8 && !n.toEOF {
		n.hdr = 16
		return n.layout(off)
	}
	return end
}

// walkNodes visits the boxes in file order.
func walkNodes(ns []*node, f func(n *node, depth int)) { walkNodesD(ns, f, 0) }

func walkNodesD(ns []*node, f func(n *node, depth int), d int) {
	for _, n := range ns {
		f(n, d)
		walkNodesD(n.kids, f, d+1)
	}
}

func allNodes(ns []*node) []*node {
	var out []*node
	walkNodes(ns, func(n *node, _ int) { out = append(out, n) })
	return out
}

func (n *node) header() []byte {
	h := make([]byte, n.hdr)
	copy(h[4:], n.typ[:])
	switch {
	case n.toEOF:
	case n.hdr == 16:
		binary.BigEndian.PutUint32(h, 1)
		binary.BigEndian.PutUint64(h[8:], n.size)
	default:
		binary.BigEndian.PutUint32(h, uint32(n.size))
	}
	return h
}

// ---- sparse files ----

type seg struct {
	off  uint64
	data []byte
}

// sparse is an in-memory file with virtual zero ranges.
type sparse struct {
	segs []seg
	size uint64
}

func render(ns []*node) *sparse {
	s := &sparse{}
	end := uint64(0)
	var rec func(ns []*node)
	add := func(off uint64, b []byte) {
		if len(b) == 0 {
			return
		}
		if k := len(s.segs); k > 0 && s.segs[k-1].off+uint64(len(s.segs[k-1].data)) == off {
			s.segs[k-1].data = append(s.segs[k-1].data, b...)
		} else {
			s.segs = append(s.segs, seg{off, append([]byte(nil), b...)})
		}
	}
	rec = func(ns []*node) {
		for _, n := range ns {
			add(n.off, n.header())
			add(n.payOff(), n.pay)
			rec(n.kids)
			add(n.end()-uint64(len(n.trail)), n.trail)
			end = max(end, n.end())
		}
	}
	rec(ns)
	s.size = end
	return s
}

// bytes materialises the file (small files only).
func (s *sparse) bytes() []byte {
	if s.size > 1<<28 {
		panic("sparse file too large to materialise")
	}
	b := make([]byte, s.size)
	for _, g := range s.segs {
		copy(b[g.off:], g.data)
	}
	return b
}

// slice returns the bytes [a,b).
func (s *sparse) slice(a, b uint64) []byte {
	p := make([]byte, b-a)
	s.readAt(p, a)
	return p
}

func (s *sparse) readAt(p []byte, off uint64) int {
	if off >= s.size {
		return 0
	}
	n := uint64(len(p))
	if n > s.size-off {
		n = s.size - off
	}
	p = p[:n]
	clear(p)
	i := sort.Search(len(s.segs), func(i int) bool { return s.segs[i].off+uint64(len(s.segs[i].data)) > off })
	for ; i < len(s.segs) && s.segs[i].off < off+n; i++ {
		g := s.segs[i]
		if g.off >= off {
			copy(p[g.off-off:], g.data)
		} else {
			copy(p, g.data[off-g.off:])
		}
	}
	return int(n)
}

// sparseReader is a conforming ReadSeeker over a sparse file.
type sparseReader struct {
	s   *sparse
	pos int64
}

func (r *sparseReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := r.s.readAt(p, uint64(r.pos))
	if n == 0 {
		return 0, io.EOF
	}
	r.pos += int64(n)
	return n, nil
}

func (r *sparseReader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += r.pos
	case io.SeekEnd:
		off += int64(r.s.size)
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	r.pos = off
	return off, nil
}

// ---- generation ----

type fileGen struct {
	c      *Case
	g      *Gen
	budget int
	huge   bool // allow virtual payloads
	canon  bool // canonical payloads of supported versions only, no QuickTime oddities
	noBad  bool // no unsupported versions
	noUnk  bool
	noEOF  bool
	noTail bool
	noQT   bool // never list the QuickTime brand
	ctxy   bool // prefer context-sensitive structures
	leaf   bool // no children in types listed in noKids
	wide   bool // very many siblings
	deep   int  // nest this deep
	fat    bool // some boxes with payloads beyond all buffer sizes
}

func newFileGen(c *Case) *fileGen {
	if n := c.big; n > 0 {
		c.big = 0
		defer func() { c.big = n }()
		return newBigGen(c, n, n/3)
	}
	g := newGen(c)
	g.max = 6
	return &fileGen{c: c, g: g, budget: 40, fat: c.fat}
}

// fatSize draws the size of a large payload.
func fatSize(c *Case) int {
	if c.Bool() {
		return []int{4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 131073, 262144, 262145}[c.Pick(14)]
	}
	return c.Int(3000, 300000)
}

// newBigGen is for files with very many or very deeply nested boxes. The case
// has to be generated in c.Fast.
func newBigGen(c *Case, max, depth int) *fileGen {
	f := newFileGen(c)
	f.g.max = 3
	if c.Bool() {
		f.wide = true
		f.budget = c.Int(100, max)
		c.Class("many boxes")
	} else {
		f.deep = c.Int(10, depth)
		f.budget = 3*f.deep + 20
		c.Class("deeply nested")
	}
	return f
}

// count draws a number of siblings.
func (f *fileGen) count(n int) int {
	if f.wide && f.c.Chance(3) {
		return f.c.Int(0, f.budget)
	}
	return f.c.Small(n)
}

// nest makes a chain of boxes nested in each other, with siblings on the way.
func (f *fileGen) nest(ctx mp4.Context, depth int, root bool) []*node {
	c := f.c
	side := func() []*node {
		if c.Chance(3) {
			return f.boxes(ctx, 9, root, c.Small(3))
		}
		return nil
	}
	ns := side()
	for _, n := range ns {
		ctx = after(n, ctx, root)
	}
	if depth == 0 {
		return ns
	}
	l := plainContainers
	if f.ctxy {
		l = ctxContainers
	}
	var n *node
	for {
		if c.Chance(6) {
			n = f.typed(bt(entryTypes[c.Pick(len(entryTypes))]), ctx)
		} else {
			n = f.typed(bt(l[c.Pick(len(l))]), ctx)
		}
		if n.readable() && !n.spec.openIn(ctx) && len(n.kids) == 0 && !(f.leaf && noKids[n.typ]) {
			break
		}
	}
	n.kids = f.nest(inside(n.typ, ctx), depth-1, false)
	f.tail(n, ctx)
	ns = append(ns, n)
	ctx = after(n, ctx, root)
	return append(ns, side()...)
}

var plainContainers = []string{"moov", "trak", "mdia", "minf", "stbl", "dinf", "edts", "udta", "meta", "ilst", "wave", "moof", "traf", "mvex", "mfra", "sinf", "schi", "stsd", "dref"}
var ctxContainers = []string{"udta", "meta", "ilst", "wave", "moov", "udta", "meta", "ilst"}
var entryTypes = []string{"avc1", "mp4a", "enca", "encv", "mp4a", "hvc1", "Opus", "stpp", "wvtt", "ac-3", "fpcm", "ipcm"}

func bt(s string) mp4.BoxType { return mp4.BoxType{s[0], s[1], s[2], s[3]} }

// file generates the boxes of a whole file.
func (f *fileGen) file() []*node {
	c := f.c
	var ctx mp4.Context
	var ns []*node
	if c.Chance(3) || f.ctxy && c.Bool() {
		n := f.typed(bt("ftyp"), ctx)
		ns = append(ns, n)
		ctx = after(n, ctx, true)
	}
	if f.deep > 0 {
		ns = append(ns, f.nest(ctx, f.deep, true)...)
	} else {
		ns = append(ns, f.boxes(ctx, 0, true, 1+f.count(6))...)
	}
	if !f.noEOF && len(ns) > 0 && c.Chance(4) {
		// the last box, and perhaps its last descendants, reach to the end
		// of the file
		n := ns[len(ns)-1]
		for {
			n.toEOF, n.hdr = true, 8
			if len(n.kids) == 0 || len(n.trail) > 0 || c.Chance(3) || n.typ == bt("meta") && len(n.kids) == 1 && len(n.pay) == 0 {
				break
			}
			n = n.kids[len(n.kids)-1]
		}
	}
	layout(ns, 0, nil)
	return ns
}

// after gives the context of the boxes following n on the same level.
func after(n *node, ctx mp4.Context, root bool) mp4.Context {
	if !n.readable() {
		return ctx
	}
	if root && n.typ == bt("ftyp") {
		l := n.val.F[2].L
		for _, b := range l {
			if string(b.F[0].B) == "qt  " {
				ctx.IsQuickTimeCompatible = true
			}
		}
	}
	if n.typ == bt("keys") {
		ctx.QuickTimeKeysMetaEntryCount = int(int32(n.val.F[1].U))
	}
	return ctx
}

var ilstItemTypes map[mp4.BoxType]bool

func isIlstItem(t mp4.BoxType) bool {
	if ilstItemTypes == nil {
		ilstItemTypes = map[mp4.BoxType]bool{}
		for _, t := range specNamed("ilstmeta").Types {
			ilstItemTypes[t] = true
		}
	}
	return ilstItemTypes[t]
}

// inside gives the context of the children of a box.
func inside(t mp4.BoxType, ctx mp4.Context) mp4.Context {
	switch {
	case t == bt("wave"):
		ctx.UnderWave = true
	case t == bt("ilst"):
		ctx.UnderIlst = true
	case ctx.UnderIlst && !ctx.UnderIlstMeta && isIlstItem(t):
		ctx.UnderIlstMeta = true
		if t == bt("----") {
			ctx.UnderIlstFreeMeta = true
		}
	case t == bt("udta"):
		ctx.UnderUdta = true
	}
	return ctx
}

func (f *fileGen) boxes(ctx mp4.Context, depth int, root bool, n int) []*node {
	var ns []*node
	for i := 0; i < n && f.budget > 0; i++ {
		f.budget--
		x := f.box(ctx, depth, root)
		ns = append(ns, x)
		ctx = after(x, ctx, root)
	}
	return ns
}

func (f *fileGen) box(ctx mp4.Context, depth int, root bool) *node {
	c := f.c
	k := c.Pick(10)
	if f.ctxy && ctx.UnderIlst && c.Bool() {
		// items, numbered items and their contents
		switch {
		case ctx.UnderIlstMeta:
			return f.typed(bt([]string{"data", "mean", "name", "data"}[c.Pick(4)]), ctx)
		case c.Bool():
			return f.typed(mp4.BoxType{0, 0, 0, byte(c.Pick(8))}, ctx)
		}
		s := specNamed("ilstmeta")
		t := s.Types[c.Pick(len(s.Types))]
		if c.Chance(3) {
			t = bt("----")
		}
		return f.container(t, ctx, depth)
	}
	if f.ctxy && c.Chance(4) {
		return f.typed(bt([]string{"keys", "data", "mean", "name", "titl", "cprt", "gnre", "auth", "mp4a", "enca"}[c.Pick(10)]), ctx)
	}
	switch {
	case k < 2 && !f.noUnk:
		return f.opaque(ctx)
	case k < 5 && depth < 7:
		l := plainContainers
		if f.ctxy {
			l = ctxContainers
		}
		return f.container(bt(l[c.Pick(len(l))]), ctx, depth)
	case k < 6 && depth < 7:
		return f.container(bt(entryTypes[c.Pick(len(entryTypes))]), ctx, depth)
	case k < 7 && f.huge && c.Bool():
		n := f.opaque(ctx)
		n.typ, n.spec = bt("mdat"), specNamed("mdat")
		n.val = nil
		n.hdr = 16
		n.zeros = c.U64()%(1<<33) + 1<<31
		if n.zeros < 0xfffffff0 && c.Bool() {
			n.hdr = 8
		}
		return n
	}
	s := drawSpec(c)
	if u := anyUser(c); u != nil && c.Chance(4) {
		s = u
	}
	t := bt("free")
	if len(s.Types) > 0 {
		t = s.Types[c.Pick(len(s.Types))]
	} else {
		t = mp4.BoxType{0, 0, 0, byte(c.Pick(8))}
	}
	if c.Chance(12) && depth < 7 {
		return f.container(t, ctx, depth)
	}
	return f.typed(t, ctx)
}

func (f *fileGen) hdr() uint64 {
	if f.c.Chance(5) {
		return 16
	}
	return 8
}

// opaque makes a box without a definition.
func (f *fileGen) opaque(ctx mp4.Context) *node {
	c := f.c
	var t mp4.BoxType
	for try := 0; ; try++ {
		t = anyType(c)
		if t != (mp4.BoxType{}) && specFor(t, ctx) == nil {
			break
		}
		if try > 10 {
			t = bt("zzzz")
			break
		}
	}
	n := &node{typ: t, hdr: f.hdr(), ctx: ctx, pay: c.Bytes(c.Small(60))}
	if f.fat && c.Chance(3) {
		n.pay = c.Bytes(fatSize(c))
	}
	return n
}

// typed makes a box with the fields its type has in the context, without
// children.
func (f *fileGen) typed(t mp4.BoxType, ctx mp4.Context) *node {
	c := f.c
	s := specFor(t, ctx)
	n := &node{typ: t, hdr: f.hdr(), ctx: ctx, spec: s}
	if s == nil {
		if f.noUnk {
			return f.typed(bt("free"), ctx)
		}
		n.pay = c.Bytes(c.Small(40))
		if f.fat && c.Chance(3) {
			n.pay = c.Bytes(fatSize(c))
		}
		return n
	}
	if s.Name == "meta" && !f.canon && c.Chance(4) {
		// QuickTime form, with something to make it readable
		n.val = zeroStruct(s.Def)
		k := f.typed(bt("free"), ctx)
		if sizes := []int{256, 256, 512, 1024, 65536, 131072}; f.deep == 0 && c.Chance(6) {
			// a size whose low bytes are zero, as those of a version and flags
			m := sizes[c.Pick(len(sizes))]
			if m > 256 && !c.Chance(4) {
				m = 256
			}
			k = &node{typ: k.typ, hdr: 8, ctx: ctx, spec: k.spec, val: zeroStruct(k.spec.Def)}
			k.val.F[0] = &Val{P: true, B: make([]byte, m-8)}
			k.pay = mustEncode(k.spec, k.val, ctx)
			c.Class("meta of QuickTime form beginning with zero bytes")
		}
		n.kids = []*node{k}
		return n
	}
	if t == bt("ftyp") && f.noQT {
		n.val = f.g.value(s, ctx)
		for _, b := range n.val.F[2].L {
			if string(b.F[0].B) == "qt  " {
				b.F[0].B = []byte("isom")
			}
		}
	} else {
		n.val = f.g.value(s, ctx)
	}
	if t == bt("ftyp") && c.Chance(3) {
		// the QuickTime brand as major brand alone does not count
		n.val.F[0].B = []byte("qt  ")
	}
	if t == bt("ftyp") && c.Chance(4) && len(n.val.F[2].L) > 0 {
		n.val.F[2].L[c.Pick(len(n.val.F[2].L))].F[0].B = []byte(nearQT(c))
	}
	switch {
	case !f.fat:
	case s.Name == "mdat" || s.Name == "free" || s.Name == "skip":
		if c.Chance(2) {
			n.val.F[0].B = c.Bytes(fatSize(c))
		}
	case t != bt("ftyp") && c.Chance(10):
		g := *f.g
		g.big = fatSize(c) / 8
		n.val = g.value(s, ctx)
	}
	n.pay = mustEncode(s, n.val, ctx)
	if !f.noBad && !f.canon && s.Full && s.Versions != nil && s.Name != "meta" && c.Chance(12) {
		v := c.Int(0, 255)
		if !s.supports(v) {
			n.badVer = true
			n.pay = append([]byte{}, n.pay...)
			n.pay[0] = byte(v)
		}
	}
	if s.Name == "mdat" && f.huge {
		n.zeros = 0
	}
	return n
}

func (f *fileGen) container(t mp4.BoxType, ctx mp4.Context, depth int) *node {
	n := f.typed(t, ctx)
	if !n.readable() || n.spec.openIn(ctx) || t == bt("keys") || f.leaf && noKids[t] {
		return n
	}
	n.kids = append(n.kids, f.boxes(inside(t, ctx), depth+1, false, f.count(7))...)
	f.tail(n, ctx)
	return n
}

// tail adds the bytes that may follow the children in QuickTime files.
func (f *fileGen) tail(n *node, ctx mp4.Context) {
	c := f.c
	t := n.typ
	if ctx.IsQuickTimeCompatible && !f.noTail && c.Chance(5) && len(n.pay)+len(n.kids) > 0 && (t != bt("meta") || len(n.pay) > 0) {
		n.trail = c.Bytes(c.Int(1, 7))
	}
}

// nearQT is a brand that resembles that of QuickTime.
func nearQT(c *Case) string {
	return []string{"qt\x00\x00", "QT  ", " qt ", "  qt", "qt \x00", "qt\t ", "qt2 ", "qtqt", "Qt  ", "qt__", "qt \xa0", "\x00qt ", "tq  ", "qt\n\n", "q t ", "mqt "}[c.Pick(16)]
}
