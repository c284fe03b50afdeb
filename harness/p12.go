package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	mp4 "github.com/abema/go-mp4"
)

func init() {
	register(&Prop{
		ID: "C12", Level: "exploration",
		Rule:        "at least one box with children is expanded and re-encoded; for edits, at least one box is modified, dropped, added or replaced",
		Assumptions: []string{"re-encoded boxes are in the canonical encoding of their type (no left-over bytes, no QuickTime-style meta)", "ftyp and keys boxes are not edited, so the surroundings of the other boxes keep their meaning"},
		Subs: []Sub{
			{Name: "identity", N: 40000, F: func(c *Case) { c12Run(c, newFileGen(c), false, false) }},
			{Name: "edits", N: 50000, F: func(c *Case) { c12Run(c, newFileGen(c), true, false) }},
			{Name: "fat", N: 1000, F: fat(func(c *Case) { c12Run(c, newFileGen(c), true, false) })},
			{Name: "vast", N: 100, F: c12Vast},
			{Name: "huge", N: 10000, F: func(c *Case) { c12Run(c, newFileGen(c), true, true) }},
			{Name: "large", N: 1000, F: func(c *Case) {
				max := c.Int(200, 2000)
				c.Fast(func() { c12Run(c, newBigGen(c, max, max/3), c.Bool(), false) })
			}},
		},
	})
}

const (
	rwCopy = iota
	rwExpand
	rwModify
	rwDrop
	rwReplace
)

type plan struct {
	op     int
	n      *node
	val    *Val // modified value
	before []*node
	after  []*node
	repl   *node
	kids   []*plan
	out    *node
}

func (n *node) reencodable() bool {
	return n.readable() && len(n.trail) == 0 && n.zeros == 0 && !(n.typ == bt("meta") && len(n.pay) == 0)
}

type rewriter struct {
	c       *Case
	f       *fileGen
	edits   bool
	touched int
	expands int
	log     []string
}

func (w *rewriter) newBox(ctx mp4.Context) *node {
	for try := 0; try < 5; try++ {
		n := w.f.box(ctx, 9, false)
		if n.typ != bt("ftyp") && n.typ != bt("keys") && !n.badVer && n.zeros == 0 && n.reencodable() && len(n.kids) == 0 {
			n.hdr = 8
			return n
		}
	}
	n := w.f.typed(bt("free"), ctx)
	n.hdr = 8
	return n
}

func (w *rewriter) plan(ns []*node) []*plan {
	c := w.c
	var out []*plan
	for _, n := range ns {
		p := &plan{n: n}
		fixed := n.typ == bt("ftyp") || n.typ == bt("keys")
		k := c.Pick(10)
		if w.f.deep > 0 && len(n.kids) > 0 && !c.Chance(100) {
			k = 3 + c.Pick(6)
		}
		p.op = rwCopy
		switch {
		case n.zeros > 0:
			if w.edits {
				p.op = rwDrop
			}
		case w.edits && k == 0 && !fixed:
			p.op = rwDrop
		case w.edits && k == 1 && !fixed && !n.toEOF:
			p.op = rwReplace
			p.repl = w.newBox(n.ctx)
			p.repl.hdr = 8
		case w.edits && k < 4 && !fixed && n.reencodable():
			p.op = rwModify
		case n.reencodable() && (k < 9 || len(n.kids) > 0 && k < 10 && c.Bool()):
			p.op = rwExpand
		}
		if p.op >= rwModify {
			w.touched++
		}
		p.out = &node{typ: n.typ, hdr: n.hdr, toEOF: n.toEOF, spec: n.spec, val: n.val, badVer: n.badVer, ctx: n.ctx, pay: n.pay, kids: n.kids, trail: n.trail}
		switch p.op {
		case rwDrop:
			p.out = nil
		case rwReplace:
			p.out = p.repl
		case rwModify, rwExpand:
			if p.op == rwModify {
				p.val = w.f.g.value(n.spec, n.ctx)
				if len(n.kids) > 0 && n.typ == bt("meta") {
					p.val = n.val
				}
				p.out.val = p.val
				p.out.pay = mustEncode(n.spec, p.val, n.ctx)
			}
			if len(n.kids) > 0 {
				w.expands++
				p.kids = w.plan(n.kids)
				p.out.kids = outNodes(p.kids)
			}
		}
		if w.edits && !n.toEOF && c.Chance(8) {
			p.after = append(p.after, w.newBox(n.ctx2()))
			w.touched++
		}
		if w.edits && c.Chance(8) && !fixed {
			p.before = append(p.before, w.newBox(n.ctx))
			w.touched++
		}
		out = append(out, p)
	}
	return out
}

// ctx2 is the context behind the box on its level.
func (n *node) ctx2() mp4.Context { return after(n, n.ctx, n.parent == nil) }

func outNodes(ps []*plan) []*node {
	var out []*node
	for _, p := range ps {
		out = append(out, p.before...)
		if p.out != nil {
			out = append(out, p.out)
		}
		out = append(out, p.after...)
	}
	return out
}

// cloneTree copies a tree so that it can be laid out separately.
func cloneTree(ns []*node) []*node {
	var out []*node
	for _, n := range ns {
		m := *n
		m.kids = cloneTree(n.kids)
		out = append(out, &m)
	}
	return out
}

var opNames = []string{"copy", "expand", "modify", "drop", "replace"}

func (p *plan) String() string {
	var b strings.Builder
	p.str(&b)
	return b.String()
}

func (p *plan) str(b *strings.Builder) {
	for _, n := range p.before {
		fmt.Fprintf(b, "add %q, ", string(n.typ[:]))
	}
	fmt.Fprintf(b, "%s %q", opNames[p.op], string(p.n.typ[:]))
	if len(p.kids) > 0 {
		b.WriteByte('[')
		for i, k := range p.kids {
			if i > 0 {
				b.WriteByte(' ')
			}
			k.str(b)
		}
		b.WriteByte(']')
	}
	for _, n := range p.after {
		fmt.Fprintf(b, ", add %q", string(n.typ[:]))
	}
}

func c12Run(c *Case, f *fileGen, edits, huge bool) {
	f.huge = huge
	f.noTail = c.Bool()
	if huge {
		f.budget = 12
	}
	ns := f.file()
	file := render(ns)
	rw := &rewriter{c: c, f: f, edits: edits}
	ps := rw.plan(ns)
	outNs := cloneTree(outNodes(ps))
	c.Note("tree", func() string { return nodesString(ns) })
	c.Note("plan", func() string { return fmt.Sprint(ps) })
	if file.size < 1<<16 {
		c.Note("file", file.bytes())
	}
	for _, n := range ns {
		if n.zeros > 0 && !edits {
			return
		}
	}
	big := false
	walkNodes(outNs, func(n *node, _ int) { big = big || n.zeros > 0 })
	if big {
		return
	}
	if huge && file.size < 1<<32 {
		c.Class("small")
	}
	outBase := uint64(0)
	if huge {
		outBase = c.U64() >> uint(c.Int(20, 40))
	}
	layout(outNs, outBase, nil)
	want := render(outNs)
	var r io.ReadSeeker = &sparseReader{s: file}
	if c.Chance(4) {
		r = &chunkReader{r: r, c: c}
	}
	dst := &memFile{}
	dst.Seek(int64(outBase), io.SeekStart)
	w := mp4.NewWriter(dst)
	type frame struct {
		ps  []*plan
		idx int
	}
	stack := []*frame{{ps: ps}}
	var fail error
	writeNew := func(n *node) error {
		if _, err := w.StartBox(&mp4.BoxInfo{Type: n.typ}); err != nil {
			return err
		}
		if _, err := mp4.Marshal(w, n.spec.Build(n.val, n.typ), n.ctx); err != nil {
			return err
		}
		_, err := w.EndBox()
		return err
	}
	_, err := mp4.ReadBoxStructure(r, func(h *mp4.ReadHandle) (interface{}, error) {
		fr := stack[len(stack)-1]
		if fr.idx >= len(fr.ps) {
			c.Failf("one box too many: %+v", h.BoxInfo)
		}
		p := fr.ps[fr.idx]
		fr.idx++
		for _, n := range p.before {
			if err := writeNew(n); err != nil {
				return nil, err
			}
		}
		switch p.op {
		case rwCopy:
			if err := w.CopyBox(r, &h.BoxInfo); err != nil {
				return nil, err
			}
		case rwReplace:
			if err := writeNew(p.repl); err != nil {
				return nil, err
			}
		case rwExpand, rwModify:
			if _, err := w.StartBox(&h.BoxInfo); err != nil {
				return nil, err
			}
			box, _, err := h.ReadPayload()
			if err != nil {
				return nil, fmt.Errorf("payload of %v: %v", p.n, err)
			}
			if p.op == rwModify {
				box = p.n.spec.Build(p.val, p.n.typ)
			}
			if _, err := mp4.Marshal(w, box, h.BoxInfo.Context); err != nil {
				return nil, fmt.Errorf("encoding %v: %v", p.n, err)
			}
			stack = append(stack, &frame{ps: p.kids})
			_, err = h.Expand()
			stack = stack[:len(stack)-1]
			if err != nil {
				return nil, err
			}
			bi, err := w.EndBox()
			if err != nil {
				return nil, err
			}
			_ = bi
		}
		for _, n := range p.after {
			if err := writeNew(n); err != nil {
				return nil, err
			}
		}
		return nil, nil
	})
	if err != nil || fail != nil {
		c.Failf("rewriting failed: %v", err)
	}
	if want.size == 0 {
		want.size = outBase
	}
	if uint64(dst.size) != want.size && !(len(outNs) == 0 && dst.size == 0) {
		c.Failf("the rewritten file has %d bytes, want %d", uint64(dst.size)-outBase, want.size-outBase)
	}
	if len(outNs) == 0 {
		return
	}
	got := dst.slice(int64(outBase), dst.size)
	exp := want.slice(outBase, want.size)
	if !bytes.Equal(got, exp) {
		i := 0
		for got[i] == exp[i] {
			i++
		}
		c.Failf("the rewritten file differs from byte %d on:\n%x\nwant\n%x", i, got, exp)
	}
	if !edits {
		if !bytes.Equal(got, file.bytes()) {
			c.Failf("the rewritten file differs from the original")
		}
	}
	if rw.expands > 0 && (!edits || rw.touched > 0) {
		c.NonTrivial(fmt.Sprint(ps), exp)
	}
	c.ClassIf(rw.touched > 0, "edited")
	// read it again
	again := cloneTree(outNs)
	layout(again, 0, nil)
	file2 := &sparse{segs: []seg{{0, got}}, size: uint64(len(got))}
	t := &traverse{c: c, r: &sparseReader{s: file2}, file: file2, always: true}
	fr := &travFrame{list: again}
	t.stack = []*travFrame{fr}
	if _, err := mp4.ReadBoxStructure(t.r, t.handler); err != nil {
		c.Failf("the rewritten file cannot be traversed: %v", err)
	}
	if fr.idx != len(again) {
		c.Failf("the rewritten file has %d of %d top-level boxes", fr.idx, len(again))
	}
	c.More(t.visits)
}
