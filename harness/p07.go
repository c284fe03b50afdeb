package main

import (
	"bytes"
	"encoding/binary"
	"math"

	mp4 "github.com/abema/go-mp4"
)

func init() {
	register(&Prop{
		ID: "C07", Level: "exploration",
		Rule:        "the file has exactly one structural fault, in a box reached by the operation; tolerated QuickTime left-overs count as well",
		Assumptions: []string{"left-over bytes of fewer than eight bytes at the end of the file itself are not judged"},
		Subs: []Sub{
			{Name: "traversal", N: 60000, F: c07Traversal},
			{Name: "extraction", N: 40000, F: c07Extraction},
			{Name: "large", N: 1200, F: large(2000, func(c *Case) {
				if c.Bool() {
					c07Traversal(c)
				} else {
					c07Extraction(c)
				}
			})},
			{Name: "header", N: 60000, F: c07Header},
			{Name: "fat", N: 1000, F: fat(func(c *Case) {
				if c.Bool() {
					c07RawData(c)
				} else {
					c07Traversal(c)
				}
			})},
			{Name: "rawdata", N: 30000, F: c07RawData},
			{Name: "probe", N: 8000, F: c07Probe},
		},
	})
}

// fault is one structural fault of a file.
type fault struct {
	what   string
	parent *node // nil: top level
	box    *node // the box with the wrong header; nil: left-over bytes
	hdr    []byte
	extra  []byte // appended to the file
	ok     bool   // tolerated
}

func (f *fault) apply(file []byte) []byte {
	if f.box != nil {
		file = append([]byte{}, file...)
		copy(file[f.box.off:], f.hdr)
	}
	if len(f.extra) > 0 {
		file = append(file[:len(file):len(file)], f.extra...)
	}
	return file
}

func sizeHeader(t mp4.BoxType, size uint64, large bool) []byte {
	if !large {
		b := make([]byte, 8)
		binary.BigEndian.PutUint32(b, uint32(size))
		copy(b[4:], t[:])
		return b
	}
	b := make([]byte, 16)
	b[3] = 1
	copy(b[4:], t[:])
	binary.BigEndian.PutUint64(b[8:], size)
	return b
}

// injectFault puts one fault into the children of one of the containers.
func injectFault(c *Case, ns []*node, parents []*node, root bool, fileSize func() uint64) *fault {
	var cand []*node
	for _, p := range parents {
		if p.readable() {
			cand = append(cand, p)
		}
	}
	root = len(cand) == 0 || root && c.Chance(5)
	if root && len(ns) == 0 || !root && len(cand) == 0 {
		return nil
	}
	f := &fault{}
	if root && c.Chance(6) && !tailOpen(ns) {
		f.what = "64-bit header cut off by the end of the file"
		f.extra = sizeHeader(anyType(c), uint64(c.Int(16, 600)), true)[:8+c.Pick(8)]
		return f
	}
	kids := ns
	if !root {
		f.parent = cand[c.Pick(len(cand))]
		kids = f.parent.kids
	}
	if f.parent != nil && (len(kids) == 0 || c.Chance(3)) {
		// left-over bytes
		p := f.parent
		if p.typ == bt("meta") && len(p.pay) == 0 || p.typ == bt("keys") || p.spec.openIn(p.ctx) || len(p.pay) == 0 && p.typ == bt("meta") {
			return nil
		}
		p.trail = c.Bytes(c.Int(1, 7))
		if last := lastKid(p); last != nil && last.toEOF {
			return nil
		}
		layout(ns, 0, nil)
		f.what = "left-over bytes"
		f.ok = p.ctx.IsQuickTimeCompatible
		return f
	}
	x := kids[c.Pick(len(kids))]
	f.box = x
	end := fileSize()
	if f.parent != nil {
		end = f.parent.end()
	}
	left := end - x.off
	large := x.hdr == 16
	switch k := c.Pick(6); {
	case k < 2 && f.parent != nil:
		f.what = "box larger than what is left of its parent"
		d := uint64(c.Int(1, 9))
		if c.Chance(3) {
			d = 1 + c.U64()>>uint(c.Int(1, 63))
		}
		size := left + d
		if !large && size > math.MaxUint32 {
			size = left + 1
		}
		if size > math.MaxInt64 || size < left {
			return nil
		}
		f.hdr = sizeHeader(x.typ, size, large)
	case k == 2 && f.parent != nil && f.parent.end() < fileSize():
		f.what = "to-end-of-file box inside a parent that ends earlier"
		f.hdr = sizeHeader(x.typ, 0, false)
	case k == 3 && f.parent != nil && left < 16 && len(x.kids) == 0 && x.hdr == 8:
		f.what = "64-bit header reaching over the end of its parent"
		f.hdr = sizeHeader(x.typ, 1, false)
	case k == 4 && large:
		f.what = "end beyond the offset range"
		u := c.U64()
		size := uint64(math.MaxInt64) - x.off + 1 + u>>uint(c.Int(1, 63))
		if c.Chance(3) {
			size = math.MaxUint64 - uint64(c.Pick(40))
		}
		f.hdr = sizeHeader(x.typ, size, true)
	default:
		f.what = "size smaller than the header"
		if large {
			f.hdr = sizeHeader(x.typ, uint64(c.Pick(16)), true)
		} else {
			f.hdr = sizeHeader(x.typ, uint64(c.Int(2, 7)), false)
		}
	}
	return f
}

func lastKid(n *node) *node {
	if len(n.kids) == 0 {
		return nil
	}
	return n.kids[len(n.kids)-1]
}

func c07Gen(c *Case) (ns []*node, f *fault, file []byte) {
	return c07GenWith(c, newFileGen(c))
}

func c07GenWith(c *Case, g *fileGen) (ns []*node, f *fault, file []byte) {
	g.noTail = true
	ns = g.file()
	var parents []*node
	for _, n := range allNodes(ns) {
		if len(n.kids) > 0 {
			parents = append(parents, n)
			if n.typ == bt("meta") && len(n.pay) == 0 && len(n.kids) > 0 {
				// the QuickTime form is recognised by its first child
				parents = parents[:len(parents)-1]
			}
		}
	}
	f = injectFault(c, ns, parents, true, func() uint64 { return ns[len(ns)-1].end() })
	if f == nil {
		return
	}
	file = f.apply(render(ns).bytes())
	c.Note("tree", func() string { return nodesString(ns) })
	c.Note("fault", f.what)
	if f.parent != nil {
		c.Note("parent", f.parent)
	}
	if f.box != nil {
		c.Note("box", f.box)
	}
	c.Note("file", file)
	c.ClassIf(f.parent == nil, "top level: "+f.what)
	if f.parent != nil {
		c.Class("nested: " + f.what)
	}
	c.ClassIf(f.ok, "tolerated")
	c.NonTrivial(file)
	return
}

func c07Traversal(c *Case) {
	ns, f, file := c07Gen(c)
	if f == nil {
		return
	}
	all := allNodes(ns)
	at := map[uint64]*node{}
	for _, n := range all {
		at[n.off] = n
	}
	calls := 0
	_, err := mp4.ReadBoxStructure(bytes.NewReader(file), func(h *mp4.ReadHandle) (interface{}, error) {
		n := at[h.BoxInfo.Offset]
		calls++
		if n == nil {
			c.Failf("the handler is called for a box at %d where there is none", h.BoxInfo.Offset)
		}
		if f.box == n {
			c.Failf("the handler is called for %v although: %s", n, f.what)
		}
		if f.box != nil && f.parent != nil && n == f.parent || leadsTo(n, f) || c.Bool() {
			if c.Chance(3) {
				h.ReadPayload()
			}
			if !n.readable() {
				return nil, nil
			}
			vals, err := h.Expand()
			if err == nil && (n == f.parent || leadsTo(n, f)) && !f.ok {
				c.Failf("expanding %v gave %d values and no error although: %s", n, len(vals), f.what)
			}
			return nil, err
		}
		return nil, nil
	})
	if f.ok {
		if err != nil {
			c.Failf("left-over bytes in a QuickTime file: %v", err)
		}
	} else if err == nil {
		c.Failf("traversal succeeded although: %s", f.what)
	}
}

// leadsTo says whether n is an ancestor of (or is) the fault's parent.
func leadsTo(n *node, f *fault) bool {
	for p := f.parent; p != nil; p = p.parent {
		if p == n {
			return true
		}
	}
	return false
}

func c07Extraction(c *Case) {
	ns, f, file := c07Gen(c)
	if f == nil {
		return
	}
	_ = ns
	var path mp4.BoxPath
	if f.parent != nil {
		path = append(path, f.parent.path...)
	}
	for _, t := range path {
		if t == mp4.BoxTypeAny() {
			return
		}
	}
	last := mp4.BoxTypeAny()
	if c.Bool() {
		last = bt("zzzy")
	}
	path = append(path, last)
	paths := []mp4.BoxPath{path}
	if c.Bool() {
		paths = append(paths, mp4.BoxPath{bt("zzzx"), bt("free")})
	}
	r := bytes.NewReader(file)
	var parent *mp4.BoxInfo
	if f.parent != nil && c.Bool() {
		p := f.parent
		k := len(path) - 1
		for i := c.Pick(k); i > 0; i-- {
			p = p.parent
			k--
		}
		parent = p.info()
		for i := range paths {
			if len(paths[i]) > k {
				paths[i] = paths[i][k:]
			}
		}
		paths = paths[:1]
		c.Class("from a parent")
	}
	c.Note("paths", paths)
	bis, err := mp4.ExtractBoxes(r, parent, paths)
	if f.ok {
		// another expanded box of the same path may be unreadable
		if err != nil && parent != nil {
			c.Failf("left-over bytes in a QuickTime file: %v", err)
		}
		return
	}
	if err == nil {
		c.Failf("extraction by %v gave %d boxes and no error although: %s", paths, len(bis), f.what)
	}
	if _, err := mp4.ExtractBoxesWithPayload(r, parent, paths); err == nil {
		c.Failf("extraction with payload by %v gave no error although: %s", paths, f.what)
	}
}

// c07Header reads single headers.
func c07Header(c *Case) {
	large := c.Bool()
	pre := c.Pick(40)
	var size uint64
	bad := false
	off := uint64(pre)
	base := uint64(0)
	if c.Chance(3) {
		base = c.U64() >> uint(c.Int(1, 40))
	}
	off += base
	switch c.Pick(4) {
	case 0:
		if large {
			size = uint64(c.Pick(18))
			bad = size < 16
		} else {
			size = uint64(c.Int(2, 9))
			bad = size < 8
		}
	case 1:
		large = true
		size = uint64(math.MaxInt64) - off + uint64(c.Pick(5)) - 2
		bad = size > math.MaxInt64-off
	case 2:
		large = true
		size = c.UBits(64)
		bad = size > math.MaxInt64-off || size < 16
	default:
		size = c.UBits(32)
		if size < 2 {
			size = 9
		}
		bad = size < 8 || large && size < 16
	}
	h := sizeHeader(anyType(c), size, large)
	s := &sparse{segs: []seg{{off, h}}, size: off + uint64(len(h)) + uint64(c.Pick(20))}
	c.Note("offset", off)
	c.Note("header", h)
	c.NonTrivial(h, off)
	c.ClassIf(bad, "bad")
	r := &sparseReader{s: s, pos: int64(off)}
	bi, err := mp4.ReadBoxInfo(r)
	if bad != (err != nil) {
		c.Failf("header of size %d (%d bytes) at %d: %+v, err=%v", size, len(h), off, bi, err)
	}
	if err == nil && (bi.Size != size || bi.Offset != off || bi.HeaderSize != uint64(len(h))) {
		c.Failf("header of size %d (%d bytes) at %d: %+v", size, len(h), off, bi)
	}
}

// c07RawData reads raw data of boxes that end behind the end of the file.
func c07RawData(c *Case) {
	g := newFileGen(c)
	g.noTail, g.noEOF = true, true
	ns := g.file()
	all := allNodes(ns)
	file := render(ns).bytes()
	if len(file) == 0 {
		return
	}
	cut := c.Pick(len(file))
	file = file[:cut]
	c.Note("tree", func() string { return nodesString(ns) })
	c.Note("cut", cut)
	at := map[uint64]*node{}
	for _, n := range all {
		at[n.off] = n
	}
	short := 0
	mp4.ReadBoxStructure(bytes.NewReader(file), func(h *mp4.ReadHandle) (interface{}, error) {
		n := at[h.BoxInfo.Offset]
		if n == nil {
			c.Failf("the handler is called for a box at %d where there is none", h.BoxInfo.Offset)
		}
		var w bytes.Buffer
		k, err := h.ReadData(&w)
		if n.end() > uint64(cut) {
			short++
			if err == nil {
				c.Failf("reading the raw data of %v from a file of %d bytes gave %d bytes and no error", n, cut, k)
			}
		} else if err != nil || k != n.paySize() {
			c.Failf("raw data of %v: %d, %v", n, k, err)
		}
		var ws memFile
		err = mp4.NewWriter(&ws).CopyBox(bytes.NewReader(file), &h.BoxInfo)
		if (n.end() > uint64(cut)) != (err != nil) {
			c.Failf("copying %v from a file of %d bytes: err=%v", n, cut, err)
		}
		if n.readable() {
			h.Expand()
		}
		return nil, nil
	})
	if short > 0 {
		c.NonTrivial(file)
	}
}

// probedContainers are the boxes probing looks into.
var probedContainers = map[string]bool{"moov": true, "trak": true, "edts": true, "mdia": true, "minf": true, "stbl": true, "stsd": true,
	"avc1": true, "encv": true, "mp4a": true, "enca": true, "wave": true, "moof": true, "traf": true}

// c07Probe puts one fault into the boxes probing looks into.
func c07Probe(c *Case) {
	m := newMovie(c)
	m.maxTracks = 2
	m.nosample = c.Bool()
	m.build(c.Bool())
	var parents []*node
	probed := map[*node]bool{nil: true}
	walkNodes(m.ns, func(n *node, _ int) {
		t := string(n.typ[:])
		if !probed[n.parent] || !probedContainers[t] {
			return
		}
		p := ""
		if n.parent != nil {
			p = string(n.parent.typ[:])
		}
		ok := false
		switch t {
		case "moov", "moof":
			ok = p == ""
		case "trak":
			ok = p == "moov"
		case "traf":
			ok = p == "moof"
		case "edts", "mdia":
			ok = p == "trak"
		case "minf":
			ok = p == "mdia"
		case "stbl":
			ok = p == "minf"
		case "stsd":
			ok = p == "stbl"
		case "wave":
			ok = p == "mp4a"
		default:
			ok = p == "stsd"
		}
		if ok {
			probed[n] = true
			if len(n.kids) > 0 {
				parents = append(parents, n)
			}
		}
	})
	size := func() uint64 { return m.ns[len(m.ns)-1].end() }
	if len(m.ns) == 0 {
		return
	}
	f := injectFault(c, m.ns, parents, true, size)
	if f == nil {
		return
	}
	file := f.apply(render(m.ns).bytes())
	c.Note("tree", func() string { return nodesString(m.ns) })
	c.Note("fault", f.what)
	if f.parent != nil {
		c.Note("parent", f.parent)
		c.Class(string(f.parent.typ[:]) + ": " + f.what)
	}
	if f.box != nil {
		c.Note("box", f.box)
	}
	c.Note("file", file)
	c.NonTrivial(file)
	p, err := mp4.Probe(bytes.NewReader(file))
	if f.ok {
		c.Class("tolerated")
		if err != nil {
			c.Failf("left-over bytes in a QuickTime file: %v", err)
		}
		if d := factDiff(probeFacts(p), m.facts()); d != "" {
			c.Failf("left-over bytes in a QuickTime file: %s", d)
		}
	} else if err == nil {
		c.Failf("probing succeeded although: %s", f.what)
	}
}

// tailOpen says whether the last box extends to the end of the file.
func tailOpen(ns []*node) bool {
	for len(ns) > 0 {
		n := ns[len(ns)-1]
		if n.toEOF {
			return true
		}
		ns = n.kids
	}
	return false
}
