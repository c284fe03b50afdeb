package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"reflect"

	mp4 "github.com/abema/go-mp4"
)

func init() {
	register(&Prop{
		ID: "C06", Level: "exploration",
		Rule:        "the traversed file has at least two boxes and at least one box is expanded",
		Assumptions: []string{"files are well-formed: sizes nest, every payload is the encoding of a box of the type in its context"},
		Subs: []Sub{
			{Name: "actions", N: 50000, F: func(c *Case) { c06Run(c, newFileGen(c), false) }},
			{Name: "huge", N: 16000, F: func(c *Case) {
				f := newFileGen(c)
				f.huge = true
				c06Run(c, f, false)
			}},
			{Name: "errors", N: 20000, F: func(c *Case) { c06Run(c, newFileGen(c), true) }},
			{Name: "large", N: 1600, F: func(c *Case) {
				max := c.Int(200, 3000)
				c.Fast(func() { c06Run(c, newBigGen(c, max, max/3), c.Chance(4)) })
			}},
			{Name: "fat", N: 1000, F: fat(func(c *Case) { c06Run(c, newFileGen(c), false) })},
			{Name: "internal", N: 20000, F: c06Internal},
			{Name: "vast", N: 100, F: c06Vast},
		},
	})
}

type marker struct{ k int }

type travFrame struct {
	list   []*node
	idx    int
	params []interface{}
	vals   []interface{}
}

// traverse drives a traversal with random handler actions against the tree.
type traverse struct {
	c       *Case
	r       io.ReadSeeker
	file    *sparse
	stack   []*travFrame
	next    int
	fail    *node
	failErr error
	failed  bool
	kept    []keptHandle
	maxAct  int
	expands int
	visits  int
	ctxOnly bool // C08: judge contexts and payloads
	base    int  // path elements above the starting box to cut off
	always  bool // expand everything
	once    bool // visit no box twice
}

type keptHandle struct {
	h *mp4.ReadHandle
	n *node
}

func (t *traverse) handler(h *mp4.ReadHandle) (interface{}, error) {
	c := t.c
	fr := t.stack[len(t.stack)-1]
	if t.failed {
		c.Failf("the handler is called for %v after an error was returned", h.BoxInfo)
	}
	if fr.idx >= len(fr.list) {
		c.Failf("the handler is called for one box too many: %+v", h.BoxInfo)
	}
	n := fr.list[fr.idx]
	fr.idx++
	t.visits++
	t.checkInfo(h, n, fr)
	t.kept = append(t.kept, keptHandle{h, n})
	acts := c.Pick(4)
	if n.kids != nil && acts == 0 && !c.Chance(4) {
		acts = 1
	}
	if t.always {
		acts = 1
	} else if t.once && n.kids != nil {
		acts = 1 + c.Pick(2)
	}
	for i := 0; i < acts && !t.failed; i++ {
		k := c.Pick(8)
		if t.once {
			k = c.Pick(6)
			if i == acts-1 && !c.Chance(200) {
				k = 7
			}
		} else if t.always || n.kids != nil && i == acts-1 && c.Chance(2) {
			k = 7
		}
		if err := t.act(h, n, k); err != nil {
			return nil, err
		}
	}
	if n == t.fail && !t.failed {
		t.failed = true
		return nil, t.failErr
	}
	m := &marker{t.next}
	t.next++
	fr.vals = append(fr.vals, m)
	if c.Chance(4) {
		t.r.Seek(int64(c.U64()%(t.file.size+10)), io.SeekStart)
	}
	return m, nil
}

func (t *traverse) checkInfo(h *mp4.ReadHandle, n *node, fr *travFrame) {
	c := t.c
	bi := h.BoxInfo
	if bi.Type != n.typ || bi.Offset != n.off || bi.Size != n.size || bi.HeaderSize != n.hdr || bi.ExtendToEOF != n.toEOF {
		c.Failf("the handler gets {%q offset %d size %d header %d toEOF %v}, the file has %v (offset %d size %d header %d toEOF %v)",
			string(bi.Type[:]), bi.Offset, bi.Size, bi.HeaderSize, bi.ExtendToEOF, n, n.off, n.size, n.hdr, n.toEOF)
	}
	if d := pathDiff(h.Path, n.path[t.base:]); d != "" {
		c.Failf("box %v: path %s", n, d)
	}
	if len(h.Params) != len(fr.params) {
		c.Failf("box %v gets %d parameters, %d were given", n, len(h.Params), len(fr.params))
	}
	for i := range h.Params {
		if h.Params[i] != fr.params[i] {
			c.Failf("box %v: parameter %d is %v, not the one given", n, i, h.Params[i])
		}
	}
	if t.ctxOnly {
		if d := ctxDiff(bi.Context, n); d != "" {
			c.Failf("box %v: %s (%+v, want %+v)", n, d, bi.Context, n.ctx)
		}
		if got := bi.IsSupportedType(); got != (n.spec != nil) {
			c.Failf("box %v: supported=%v in context %+v", n, got, n.ctx)
		}
	}
}

// ctxDiff compares contexts; the brand and the entry count that a ftyp and a
// keys box themselves bring are not judged on these boxes.
func ctxDiff(got mp4.Context, n *node) string {
	want := n.ctx
	if n.typ == bt("ftyp") {
		got.IsQuickTimeCompatible = want.IsQuickTimeCompatible
	}
	if n.typ == bt("keys") {
		got.QuickTimeKeysMetaEntryCount = want.QuickTimeKeysMetaEntryCount
	}
	if got != want {
		return "wrong context"
	}
	return ""
}

func pathDiff(got, want mp4.BoxPath) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%v, want %v", got, want)
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("%v, want %v", got, want)
		}
	}
	return ""
}

// wantDecode gives the box, its size and the error decoding n must yield.
func wantDecode(n *node) (mp4.IBox, int, error) {
	if n.spec == nil {
		return nil, 0, mp4.ErrBoxInfoNotFound
	}
	if n.badVer {
		return nil, 0, mp4.ErrUnsupportedBoxVersion
	}
	return n.spec.Build(n.val, n.typ), len(n.pay), nil
}

func (t *traverse) act(h *mp4.ReadHandle, n *node, k int) error {
	c := t.c
	switch k {
	case 0:
		t.r.Seek(int64(c.U64()%(t.file.size+10)), io.SeekStart)
	case 1, 2, 3:
		if n.zeros > 0 {
			return nil
		}
		b, m, err := h.ReadPayload()
		want, k, werr := wantDecode(n)
		if err != werr {
			c.Failf("reading the payload of %v: err=%v, want %v", n, err, werr)
		}
		if err == nil {
			if m != uint64(k) {
				c.Failf("reading the payload of %v: %d bytes, the fields occupy %d", n, m, k)
			}
			if d := diffBoxes(b, want); d != "" {
				c.Failf("payload of %v: %s", n, d)
			}
			if c.Bool() {
				// the box is the handler's
				scribble(reflect.ValueOf(b).Elem())
			}
		}
	case 4, 5:
		if n.paySize() > 1<<20 {
			return nil
		}
		var w bytes.Buffer
		m, err := h.ReadData(&w)
		if err != nil || m != n.paySize() {
			c.Failf("raw data of %v: n=%d err=%v", n, m, err)
		}
		if !bytes.Equal(w.Bytes(), t.file.slice(n.payOff(), n.end())) {
			c.Failf("raw data of %v differs from the file", n)
		}
	default:
		if n.zeros > 0 {
			return nil
		}
		fr := &travFrame{list: n.kids}
		for i := c.Pick(4); i > 0; i-- {
			fr.params = append(fr.params, &marker{-i})
		}
		t.stack = append(t.stack, fr)
		vals, err := h.Expand(fr.params...)
		t.stack = t.stack[:len(t.stack)-1]
		t.expands++
		if t.failed {
			if err != t.failErr {
				c.Failf("expanding %v returned %v, a handler below returned %v", n, err, t.failErr)
			}
			return err
		}
		_, _, werr := wantDecode(n)
		if err != werr {
			c.Failf("expanding %v: err=%v, want %v", n, err, werr)
		}
		if err != nil {
			return nil
		}
		if fr.idx != len(n.kids) {
			c.Failf("expanding %v visited %d of %d children", n, fr.idx, len(n.kids))
		}
		t.checkVals(vals, fr, "expanding "+n.String())
	}
	return nil
}

func (t *traverse) checkVals(vals []interface{}, fr *travFrame, what string) {
	if len(vals) != len(fr.vals) {
		t.c.Failf("%s returned %d values for %d boxes", what, len(vals), len(fr.vals))
	}
	for i := range vals {
		if vals[i] != fr.vals[i] {
			t.c.Failf("%s: value %d is not the one the handler returned", what, i)
		}
	}
}

func (t *traverse) checkKept() {
	for _, k := range t.kept {
		if d := pathDiff(k.h.Path, k.n.path[t.base:]); d != "" {
			t.c.Failf("the path of %v changed after the handler returned: %s", k.n, d)
		}
		bi := k.h.BoxInfo
		if bi.Type != k.n.typ || bi.Offset != k.n.off || bi.Size != k.n.size || bi.HeaderSize != k.n.hdr {
			t.c.Failf("the information of %v changed after the handler returned: %+v", k.n, bi)
		}
	}
}

func c06Run(c *Case, f *fileGen, errs bool) {
	ns := f.file()
	file := render(ns)
	c.Note("tree", func() string { return nodesString(ns) })
	if file.size < 1<<16 {
		c.Note("file", file.bytes())
	}
	r := &sparseReader{s: file}
	r.Seek(int64(c.U64()%(file.size+5)), io.SeekStart)
	t := &traverse{c: c, r: r, file: file, once: f.wide || f.deep > 0}
	if errs {
		if all := allNodes(ns); len(all) > 0 {
			t.fail = all[c.Pick(len(all))]
			t.failErr = []error{errors.New("handler error"), io.EOF, mp4.ErrBoxInfoNotFound, io.ErrUnexpectedEOF}[c.Pick(4)]
			c.Note("failing", t.fail)
		}
	}
	fr := &travFrame{list: ns}
	for i := c.Pick(4); i > 0; i-- {
		fr.params = append(fr.params, &marker{-i})
	}
	t.stack = []*travFrame{fr}
	vals, err := mp4.ReadBoxStructure(r, t.handler, fr.params...)
	c.ClassIf(file.size > 1<<32, "beyond 4 GiB")
	c.ClassIf(t.failed, "handler failed")
	c.More(t.visits)
	if t.expands > 0 && t.visits > 1 {
		c.NonTrivial(nodesString(ns), t.visits, t.expands)
	}
	if t.failed {
		if err != t.failErr {
			c.Failf("traversal returned %v, the handler returned %v", err, t.failErr)
		}
		return
	}
	if err != nil {
		c.Failf("traversal failed: %v", err)
	}
	if fr.idx != len(ns) {
		c.Failf("traversal visited %d of %d top-level boxes", fr.idx, len(ns))
	}
	t.checkVals(vals, fr, "the traversal")
	t.checkKept()
}

// c06Internal starts at a box inside the file.
func c06Internal(c *Case) {
	f := newFileGen(c)
	ns := f.file()
	all := allNodes(ns)
	if len(all) == 0 {
		return
	}
	file := render(ns)
	c.Note("tree", func() string { return nodesString(ns) })
	c.Note("file", file.bytes())
	n := all[c.Pick(len(all))]
	c.Note("start", n)
	r := &sparseReader{s: file}
	r.Seek(int64(n.off), io.SeekStart)
	bi, err := mp4.ReadBoxInfo(r)
	if err != nil {
		c.Failf("header of %v: %v", n, err)
	}
	bi.Context = n.ctx
	t := &traverse{c: c, r: r, file: file, base: len(n.path) - 1}
	fr := &travFrame{list: []*node{n}}
	for i := c.Pick(4); i > 0; i-- {
		fr.params = append(fr.params, &marker{-i})
	}
	for round := 0; round < 2; round++ {
		fr.idx, fr.vals = 0, nil
		t.stack = []*travFrame{fr}
		r.Seek(int64(c.U64()%(file.size+5)), io.SeekStart)
		val, err := mp4.ReadBoxStructureFromInternal(r, bi, t.handler, fr.params...)
		if err != nil {
			c.Failf("traversal of %v failed: %v", n, err)
		}
		if fr.idx != 1 || val != fr.vals[0] {
			c.Failf("traversal of %v returned %v after %d calls", n, val, fr.idx)
		}
		t.checkKept()
	}
	c.More(t.visits)
	if t.expands > 0 && t.visits > 1 {
		c.NonTrivial(nodesString(ns), n.off, t.visits, t.expands)
	}
}
