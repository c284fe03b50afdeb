package main

import (
	"bytes"
	"fmt"
	"io"

	mp4 "github.com/abema/go-mp4"
)

func init() {
	register(&Prop{
		ID: "C08", Level: "exploration",
		Rule:        "the file has a box whose context is not the empty one",
		Assumptions: []string{"files are well-formed; the brand and entry count which a ftyp and a keys box bring about are not judged on these boxes themselves"},
		Subs: []Sub{
			{Name: "traversal", N: 50000, F: func(c *Case) { c08Traversal(c, newFileGen(c)) }},
			{Name: "extraction", N: 40000, F: func(c *Case) { c08Extraction(c, newFileGen(c)) }},
			{Name: "large", N: 1200, F: func(c *Case) {
				max := c.Int(200, 3000)
				c.Fast(func() {
					f := newBigGen(c, max, max/3)
					if c.Bool() {
						c08Traversal(c, f)
					} else {
						c08Extraction(c, f)
					}
				})
			}},
		},
	})
	register(&Prop{
		ID: "C09", Level: "exploration",
		Rule:        "at least one box matches, or the extraction has to refuse",
		Assumptions: []string{"no box in the file has the wildcard type 0x00000000", "a path that leads into a box of unsupported type or version makes the extraction fail"},
		Subs: []Sub{
			{Name: "paths", N: 60000, F: c09Paths},
			{Name: "payload", N: 40000, F: c09Payload},
			{Name: "fat", N: 1000, F: fat(c09Payload)},
			{Name: "huge", N: 10000, F: c09Huge},
			{Name: "large", N: 1600, F: func(c *Case) {
				max := c.Int(200, 2000)
				c.Fast(func() {
					f := newBigGen(c, max, max/3)
					f.noBad = !c.Chance(4)
					pay := c.Bool()
					x := drawExtraction(c, f, pay)
					if pay {
						x.payload(c)
					} else {
						x.run(c)
					}
				})
			}},
		},
	})
}

func (n *node) someCtx() bool { return n.ctx != (mp4.Context{}) }

func c08Traversal(c *Case, f *fileGen) {
	f.ctxy = true
	ns := f.file()
	file := render(ns)
	c.Note("tree", func() string { return nodesString(ns) })
	c.Note("file", file.bytes())
	r := &sparseReader{s: file}
	t := &traverse{c: c, r: r, file: file, ctxOnly: true}
	var handler mp4.ReadHandler
	handler = func(h *mp4.ReadHandle) (interface{}, error) {
		fr := t.stack[len(t.stack)-1]
		if fr.idx >= len(fr.list) {
			c.Failf("one box too many: %+v", h.BoxInfo)
		}
		n := fr.list[fr.idx]
		fr.idx++
		t.visits++
		t.checkInfo(h, n, fr)
		c08Class(c, n)
		if c.Bool() {
			t.act(h, n, 1)
		}
		nf := &travFrame{list: n.kids}
		t.stack = append(t.stack, nf)
		_, err := h.Expand()
		t.stack = t.stack[:len(t.stack)-1]
		if _, _, werr := wantDecode(n); err != werr {
			c.Failf("expanding %v in context %+v: err=%v, want %v", n, n.ctx, err, werr)
		}
		return nil, nil
	}
	t.stack = []*travFrame{{list: ns}}
	if _, err := mp4.ReadBoxStructure(r, handler); err != nil {
		c.Failf("traversal failed: %v", err)
	}
	c.More(t.visits)
	for _, n := range allNodes(ns) {
		if n.someCtx() {
			c.NonTrivial(file.bytes())
			break
		}
	}
}

func c08Class(c *Case, n *node) {
	x := n.ctx
	c.ClassIf(x.IsQuickTimeCompatible, "quicktime")
	c.ClassIf(x.UnderWave, "wave")
	c.ClassIf(x.UnderIlst, "ilst")
	c.ClassIf(x.UnderIlstMeta, "ilst item")
	c.ClassIf(x.UnderIlstFreeMeta, "free-form item")
	c.ClassIf(x.UnderUdta, "udta")
	c.ClassIf(x.QuickTimeKeysMetaEntryCount > 0, "keys")
	c.ClassIf(n.spec != nil && n.spec.Item, "numbered item")
	c.ClassIf(n.spec != nil && n.spec.Applies != nil, "context-dependent type")
	c.ClassIf(n.spec != nil && n.spec.Name == "audio" && x.IsQuickTimeCompatible, "audio entry in QuickTime")
}

func wildcard(n *node) bool { return n.typ == mp4.BoxType{} }

// extractFile draws a file without boxes of the wildcard type.
func extractFile(c *Case, f *fileGen) []*node {
	ns := f.file()
	walkNodes(ns, func(n *node, _ int) {
		if wildcard(n) {
			n.typ, n.spec, n.val, n.kids = bt("zzzz"), nil, nil, nil
			n.pay = append(n.pay, n.trail...)
			n.trail = nil
		}
	})
	layout(ns, 0, nil)
	return ns
}

func matchEl(a, b mp4.BoxType) bool { return a == b || a == mp4.BoxType{} || b == mp4.BoxType{} }

// modelExtract lists the boxes below ns matching the paths (relative to
// depth base). bad is the first box that had to be expanded and cannot be.
func modelExtract(ns []*node, paths []mp4.BoxPath, base int) (out []*node, bad *node) {
	for _, n := range ns {
		p := n.path[base:]
		lead, match := leads(p, paths)
		if match {
			out = append(out, n)
		}
		if lead {
			if !n.readable() {
				return out, n
			}
			o, b := modelExtract(n.kids, paths, base)
			out = append(out, o...)
			if b != nil {
				return out, b
			}
		}
	}
	return out, nil
}

func leads(p mp4.BoxPath, paths []mp4.BoxPath) (lead, match bool) {
	for _, q := range paths {
		if len(p) > len(q) {
			continue
		}
		ok := true
		for i := range p {
			ok = ok && matchEl(p[i], q[i])
		}
		if ok && len(p) == len(q) {
			match = true
		} else if ok {
			lead = true
		}
	}
	return
}

// drawPaths draws a path set for the boxes below top (cut of base elements).
func drawPaths(c *Case, all []*node, base int) []mp4.BoxPath {
	var paths []mp4.BoxPath
	k := 1 + c.Pick(4)
	if c.Chance(6) {
		k = c.Int(4, 40)
		if c.Chance(3) {
			k = c.Int(40, 300)
		}
	}
	for ; k > 0; k-- {
		var p mp4.BoxPath
		if len(all) > 0 && !c.Chance(8) {
			n := all[c.Pick(len(all))]
			p = append(p, n.path[base:]...)
		} else {
			for i := 1 + c.Pick(3); i > 0; i-- {
				p = append(p, anyType(c))
			}
		}
		if len(p) == 0 {
			p = mp4.BoxPath{bt("moov")}
		}
		switch c.Pick(8) {
		case 0, 1:
			p[len(p)-1] = mp4.BoxTypeAny()
		case 2:
			p[c.Pick(len(p))] = mp4.BoxTypeAny()
		case 3:
			if len(p) > 1 {
				p = p[:c.Int(1, len(p))]
			}
		case 4:
			p = append(p, bt([]string{"free", "trak", "data"}[c.Pick(3)]))
		case 5:
			p = append(p, mp4.BoxTypeAny())
		}
		paths = append(paths, p)
	}
	if c.Chance(4) {
		paths = append(paths, append(mp4.BoxPath{}, paths[0]...))
	}
	return paths
}

// damage destroys boxes no path leads to, keeping their sizes.
func damage(c *Case, ns []*node, paths []mp4.BoxPath, base int, payloads bool) int {
	k := 0
	for _, n := range ns {
		lead, match := leads(n.path[base:], paths)
		if lead {
			k += damage(c, n.kids, paths, base, payloads)
			continue
		}
		if match && payloads || n.typ == bt("ftyp") || n.typ == bt("keys") || n.zeros > 0 || c.Bool() {
			continue
		}
		size := n.paySize()
		if size == 0 || size > 1<<20 {
			continue
		}
		b := c.Bytes(int(size))
		n.pay, n.kids, n.trail = b, nil, nil
		k++
	}
	return k
}

type extraction struct {
	ns, top []*node
	parent  *node
	base    int
	paths   []mp4.BoxPath
	file    *sparse
	want    []*node
	bad     *node
}

func drawExtraction(c *Case, f *fileGen, payloads bool) *extraction {
	x := &extraction{ns: extractFile(c, f)}
	all := allNodes(x.ns)
	x.top = x.ns
	if c.Chance(3) {
		var cand []*node
		for _, n := range all {
			if n.readable() && len(n.kids) > 0 && n.zeros == 0 {
				cand = append(cand, n)
			}
		}
		if len(cand) > 0 {
			x.parent = cand[c.Pick(len(cand))]
			x.top = x.parent.kids
			x.base = len(x.parent.path)
		}
	}
	x.paths = drawPaths(c, allNodes(x.top), x.base)
	if c.Chance(3) {
		k := damage(c, x.top, x.paths, x.base, payloads)
		c.ClassIf(k > 0, "damaged elsewhere")
		layout(x.ns, 0, nil)
	}
	x.file = render(x.ns)
	x.want, x.bad = modelExtract(x.top, x.paths, x.base)
	c.Note("tree", func() string { return nodesString(x.ns) })
	c.Note("paths", x.paths)
	if x.parent != nil {
		c.Note("parent", x.parent)
		c.Class("relative to a parent")
	}
	if x.file.size < 1<<16 {
		c.Note("file", x.file.bytes())
	}
	if len(x.want) > 0 || x.bad != nil {
		c.NonTrivial(nodesString(x.ns), fmt.Sprint(x.paths), x.base)
	}
	c.ClassIf(len(x.want) > 0, "matches")
	c.ClassIf(x.bad != nil, "refused")
	return x
}

func (n *node) info() *mp4.BoxInfo {
	return &mp4.BoxInfo{Offset: n.off, Size: n.size, HeaderSize: n.hdr, Type: n.typ, ExtendToEOF: n.toEOF, Context: n.ctx}
}

func (x *extraction) parentInfo() *mp4.BoxInfo {
	if x.parent == nil {
		return nil
	}
	return x.parent.info()
}

func infoDiff(bi *mp4.BoxInfo, n *node) string {
	if bi.Type != n.typ || bi.Offset != n.off || bi.Size != n.size || bi.HeaderSize != n.hdr || bi.ExtendToEOF != n.toEOF {
		return fmt.Sprintf("{%q offset %d size %d header %d toEOF %v} instead of %v", string(bi.Type[:]), bi.Offset, bi.Size, bi.HeaderSize, bi.ExtendToEOF, n)
	}
	return ctxDiff(bi.Context, n)
}

func (x *extraction) judge(c *Case, bis []*mp4.BoxInfo, err error) {
	if x.bad != nil {
		if err == nil {
			c.Failf("extraction succeeded although %v had to be expanded", x.bad)
		}
		return
	}
	if err != nil {
		c.Failf("extraction failed: %v", err)
	}
	if len(bis) != len(x.want) {
		c.Failf("extraction gives %d boxes, %d match (%s)", len(bis), len(x.want), nodesString(x.want))
	}
	for i := range bis {
		if d := infoDiff(bis[i], x.want[i]); d != "" {
			c.Failf("extracted box %d: %s", i, d)
		}
	}
}

func c09Paths(c *Case) {
	x := drawExtraction(c, newFileGen(c), false)
	x.run(c)
}

func c09Huge(c *Case) {
	f := newFileGen(c)
	f.huge = true
	x := drawExtraction(c, f, false)
	c.ClassIf(x.file.size > 1<<32, "beyond 4 GiB")
	hit := false
	walkNodes(x.top, func(n *node, _ int) {
		lead, _ := leads(n.path[x.base:], x.paths)
		hit = hit || lead && n.zeros > 0
	})
	if hit {
		return // would read gigabytes
	}
	x.run(c)
}

func (x *extraction) run(c *Case) {
	r := &sparseReader{s: x.file}
	r.Seek(int64(c.U64()%(x.file.size+5)), io.SeekStart)
	if c.Chance(10) {
		if bis, err := mp4.ExtractBoxes(r, x.parentInfo(), nil); err != nil || len(bis) != 0 {
			c.Failf("extraction by no path gives %d boxes, err=%v", len(bis), err)
		}
		ps := append([]mp4.BoxPath{}, x.paths...)
		ps[c.Pick(len(ps))] = mp4.BoxPath{}
		if _, err := mp4.ExtractBoxes(r, x.parentInfo(), ps); err == nil {
			c.Failf("extraction with an empty path is not an error")
		}
		if _, err := mp4.ExtractBoxesWithPayload(r, x.parentInfo(), ps); err == nil {
			c.Failf("extraction with an empty path is not an error")
		}
		c.More(3)
	}
	p := x.parentInfo()
	for i := 0; i < 2; i++ {
		bis, err := mp4.ExtractBoxes(r, p, x.paths)
		x.judge(c, bis, err)
		c.More(1)
	}
	if len(x.paths) == 1 {
		bis, err := mp4.ExtractBox(r, x.parentInfo(), x.paths[0])
		x.judge(c, bis, err)
		c.More(1)
	}
}

func c09Payload(c *Case) {
	f := newFileGen(c)
	f.noBad = c.Bool()
	x := drawExtraction(c, f, true)
	x.payload(c)
}

func (x *extraction) payload(c *Case) {
	bad := x.bad
	for _, n := range x.want {
		if !n.readable() && bad == nil {
			bad = n
		}
	}
	r := &sparseReader{s: x.file}
	r.Seek(int64(c.U64()%(x.file.size+5)), io.SeekStart)
	p := x.parentInfo()
	for i := 0; i < 2; i++ {
		var bips []*mp4.BoxInfoWithPayload
		var err error
		if len(x.paths) == 1 && i == 0 {
			bips, err = mp4.ExtractBoxWithPayload(r, p, x.paths[0])
		} else {
			bips, err = mp4.ExtractBoxesWithPayload(r, p, x.paths)
		}
		if bad != nil {
			if err == nil {
				c.Failf("extraction with payload succeeded although %v cannot be decoded", bad)
			}
			continue
		}
		var bis []*mp4.BoxInfo
		for _, b := range bips {
			b := b
			bis = append(bis, &b.Info)
		}
		x.judge(c, bis, err)
		for i, b := range bips {
			want, _, _ := wantDecode(x.want[i])
			if d := diffBoxes(b.Payload, want); d != "" {
				c.Failf("payload of extracted box %v in context %+v: %s", x.want[i], x.want[i].ctx, d)
			}
		}
		c.More(len(bips))
	}
}

// c08Extraction extracts context-dependent boxes.
func c08Extraction(c *Case, f *fileGen) {
	f.ctxy = true
	f.noBad = true
	x := &extraction{ns: extractFile(c, f), file: nil}
	var cand []*node
	for _, n := range allNodes(x.ns) {
		if n.readable() && n.someCtx() {
			cand = append(cand, n)
		}
	}
	if len(cand) == 0 {
		return
	}
	n := cand[c.Pick(len(cand))]
	x.top = x.ns
	if k := c.Pick(len(n.path)); k > 0 {
		p := n
		for i := k; i < len(n.path); i++ {
			p = p.parent
		}
		x.parent, x.base, x.top = p, k, p.kids
	}
	x.paths = []mp4.BoxPath{append(mp4.BoxPath{}, n.path[x.base:]...)}
	x.file = render(x.ns)
	x.want, x.bad = modelExtract(x.top, x.paths, x.base)
	c.Note("tree", func() string { return nodesString(x.ns) })
	c.Note("file", x.file.bytes())
	c.Note("paths", x.paths)
	c.Note("parent", x.parent)
	c08Class(c, n)
	c.NonTrivial(nodesString(x.ns), n.off, x.base)
	x.payload(c)
}

var _ = bytes.Equal
