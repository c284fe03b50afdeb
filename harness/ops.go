package main

import (
	"fmt"
	"io"
	"reflect"
	"strings"

	mp4 "github.com/abema/go-mp4"
)

// This file generates self-contained library operations. An operation can be
// run any number of times, on any reader and writer, and gives a text that
// holds everything it returned.

type ioOp struct {
	name   string
	src    *sparse
	size   int // number of boxes, or so
	run    func(r io.ReadSeeker, w io.WriteSeeker) (string, error)
	write  bool // writes to w
	abs    bool // starts from the beginning or from a given box, so the reader's position does not matter
	trunAt int  // where the payload of a trun begins that is not in a box
	full   bool // every byte of the source matters to the result, or is not needed at all
}

// deep prints a value with everything it refers to.
func deep(x interface{}) string {
	var b strings.Builder
	deepV(&b, reflect.ValueOf(x))
	return b.String()
}

func deepV(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteByte('&')
		deepV(b, v.Elem())
	case reflect.Struct:
		b.WriteString(v.Type().Name())
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" && !v.Type().Field(i).Anonymous {
				continue
			}
			b.WriteString(v.Type().Field(i).Name)
			b.WriteByte(':')
			deepV(b, v.Field(i))
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			for i := 0; i < v.Len(); i++ {
				fmt.Fprintf(b, "%02x", v.Index(i).Uint())
			}
			return
		}
		fmt.Fprintf(b, "%d[", v.Len())
		for i := 0; i < v.Len(); i++ {
			deepV(b, v.Index(i))
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprint(b, v.Uint())
	default:
		fmt.Fprintf(b, "?%v", v.Kind())
	}
}

func infoText(bi *mp4.BoxInfo) string {
	return fmt.Sprintf("%x@%d+%d/%d %v %+v", bi.Type[:], bi.Offset, bi.Size, bi.HeaderSize, bi.ExtendToEOF, bi.Context)
}

type opWriter struct {
	strings.Builder
}

func (o *opWriter) add(f string, a ...interface{}) { fmt.Fprintf(&o.Builder, f+"\n", a...) }

var opKinds = []string{"decode", "header", "traverse", "internal", "extract", "extractpayload", "probe", "probefra", "idr", "encode", "writer", "rewrite", "text", "query"}

// drawOp draws one operation.
func drawOp(c *Case, kind string) *ioOp {
	op := &ioOp{name: kind}
	switch kind {
	case "decode":
		opDecode(c, op)
	case "header":
		opHeader(c, op)
	case "traverse":
		opTraverse(c, op)
	case "internal":
		opInternal(c, op)
	case "extract":
		opExtract(c, op, false)
	case "extractpayload":
		opExtract(c, op, true)
	case "probe":
		opProbe(c, op, false)
	case "probefra":
		opProbe(c, op, true)
	case "idr":
		opIDR(c, op)
	case "encode":
		opEncode(c, op)
	case "text":
		opText(c, op)
	case "query":
		opQuery(c, op)
	case "writer":
		opWriterScript(c, op)
	case "rewrite":
		opRewrite(c, op)
	}
	c.Note("operation", op.name)
	return op
}

func opGen(c *Case) *Gen {
	g := newGen(c)
	g.max = 12
	if c.fat {
		g.max, g.big = 3, fatSize(c)/8
	}
	return g
}

// opSpec draws the structure of an operation on a payload.
func opSpec(c *Case) *Spec {
	if c.fat {
		if c.Bool() {
			return specNamed(byteTypes[c.Pick(len(byteTypes))])
		}
		return bigSpec(c)
	}
	if u := anyUser(c); u != nil && c.Chance(3) {
		return u
	}
	return drawSpec(c)
}

func opDecode(c *Case, op *ioOp) {
	s := opSpec(c)
	g := opGen(c)
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	p := mustEncode(s, v, ctx)
	if s.Name == "meta" && c.Chance(4) {
		p = append([]byte{}, p...)
		copy(p, "\x00\x00\x00\x08")
		p = append(p, "hdlr"...)
	}
	pre := c.Bytes(c.Int(1, 10))
	if s.Name == "trun" {
		op.trunAt = len(pre)
	}
	file := append(append(append([]byte{}, pre...), p...), c.Bytes(c.Pick(30))...)
	noteBox(c, s, t, ctx, v)
	c.Note("payload", p)
	op.size = len(p)
	op.abs, op.full = true, true
	op.src = &sparse{segs: []seg{{0, file}}, size: uint64(len(file))}
	into := c.Bool()
	op.run = func(r io.ReadSeeker, w io.WriteSeeker) (string, error) {
		if _, err := r.Seek(int64(len(pre)), io.SeekStart); err != nil {
			return "", err
		}
		var b mp4.IBox
		var n uint64
		var err error
		if into {
			b = instance(s, t)
			n, err = mp4.Unmarshal(r, uint64(len(p)), b, ctx)
		} else {
			b, n, err = mp4.UnmarshalAny(r, t, uint64(len(p)), ctx)
		}
		if err != nil {
			return "", err
		}
		at, err := r.Seek(0, io.SeekCurrent)
		if err != nil {
			return "", err
		}
		return fmt.Sprintf("%d %d %s", n, at, deep(b)), nil
	}
}

func opHeader(c *Case, op *ioOp) {
	f := newFileGen(c)
	f.noBad = true
	ns := f.file()
	op.src = render(ns)
	op.size = len(ns)
	all := allNodes(ns)
	n := all[c.Pick(len(all))]
	c.Note("file", op.src.bytes())
	c.Note("box", n)
	op.abs = true
	op.run = func(r io.ReadSeeker, w io.WriteSeeker) (string, error) {
		if _, err := r.Seek(int64(n.off), io.SeekStart); err != nil {
			return "", err
		}
		bi, err := mp4.ReadBoxInfo(r)
		if err != nil {
			return "", err
		}
		o := &opWriter{}
		at, err := r.Seek(0, io.SeekCurrent)
		if err != nil {
			return "", err
		}
		o.add("%s %d", infoText(bi), at)
		for _, f := range []func(io.Seeker) (int64, error){bi.SeekToEnd, bi.SeekToStart, bi.SeekToPayload} {
			k, err := f(r)
			if err != nil {
				return "", err
			}
			o.add("%d", k)
		}
		return o.String(), nil
	}
}

// scripted makes a handler whose actions depend only on the seed and the box.
func scripted(seed uint64, r io.ReadSeeker, w io.WriteSeeker, o *opWriter, size uint64) mp4.ReadHandler {
	return func(h *mp4.ReadHandle) (interface{}, error) {
		bi := &h.BoxInfo
		x := mix(seed + bi.Offset*0x9e3779b97f4a7c15 + 1)
		o.add("call %s %x %v", infoText(bi), h.Path, h.Params)
		for k := int(x % 4); k >= 0; k-- {
			x = mix(x + 0x9e3779b97f4a7c15)
			a := x % 8
			if !bi.IsSupportedType() && (a < 2 || a > 4) {
				continue
			}
			switch a {
			case 0, 1:
				b, n, err := h.ReadPayload()
				if err != nil {
					return nil, err
				}
				o.add("payload %d %s", n, deep(b))
			case 2, 3:
				n, err := h.ReadData(w)
				if err != nil {
					return nil, err
				}
				o.add("data %d", n)
			case 4:
				if _, err := r.Seek(int64(x>>8%(size+9)), io.SeekStart); err != nil {
					return nil, err
				}
			default:
				vals, err := h.Expand(int(x >> 20 & 7))
				if err != nil {
					return nil, err
				}
				o.add("expanded %v", vals)
			}
		}
		return fmt.Sprintf("v%d", bi.Offset), nil
	}
}

func opTraverse(c *Case, op *ioOp) {
	f := newFileGen(c)
	f.noBad = true
	f.budget = 20
	f.ctxy = c.Bool()
	ns := f.file()
	op.src = render(ns)
	op.size = len(ns)
	seed := c.U64()
	c.Note("file", op.src.bytes())
	c.Note("script", seed)
	op.write, op.abs = true, true
	op.run = func(r io.ReadSeeker, w io.WriteSeeker) (string, error) {
		o := &opWriter{}
		vals, err := mp4.ReadBoxStructure(r, scripted(seed, r, w, o, op.src.size), "p", 3)
		o.add("%v", vals)
		return o.String(), err
	}
}

func opInternal(c *Case, op *ioOp) {
	f := newFileGen(c)
	f.noBad = true
	f.budget = 20
	f.ctxy = c.Bool()
	ns := f.file()
	op.src = render(ns)
	all := allNodes(ns)
	op.size = len(all)
	n := all[c.Pick(len(all))]
	if c.Bool() {
		for _, k := range all {
			if k.typ == bt("ftyp") || k.typ == bt("keys") || k.typ == bt("ilst") {
				n = k
			}
		}
	}
	seed := c.U64()
	c.Note("file", op.src.bytes())
	c.Note("box", n)
	c.Note("script", seed)
	op.write, op.abs = true, true
	bi := n.info() // shared by all runs
	op.run = func(r io.ReadSeeker, w io.WriteSeeker) (string, error) {
		o := &opWriter{}
		val, err := mp4.ReadBoxStructureFromInternal(r, bi, scripted(seed, r, w, o, op.src.size), "p")
		o.add("%v", val)
		return o.String(), err
	}
}

func opExtract(c *Case, op *ioOp, payload bool) {
	f := newFileGen(c)
	f.noBad = true
	f.budget = 24
	f.ctxy = c.Bool()
	var x *extraction
	for try := 0; ; try++ {
		x = drawExtraction(c, f, payload)
		if x.bad == nil || try > 3 {
			break
		}
		f.budget = 24
	}
	op.src = x.file
	op.size = len(x.want)
	op.abs = true
	parent := x.parentInfo()
	op.full = parent != nil
	if parent != nil {
		// a box that reaches to the end of the file ends where the file is cut
		walkNodes([]*node{x.parent}, func(n *node, _ int) { op.full = op.full && !n.toEOF })
	}
	op.run = func(r io.ReadSeeker, w io.WriteSeeker) (string, error) {
		o := &opWriter{}
		if payload {
			bs, err := mp4.ExtractBoxesWithPayload(r, parent, x.paths)
			if err != nil {
				return "", err
			}
			for _, b := range bs {
				o.add("%s %s", infoText(&b.Info), deep(b.Payload))
			}
			return o.String(), nil
		}
		bs, err := mp4.ExtractBoxes(r, parent, x.paths)
		if err != nil {
			return "", err
		}
		for _, b := range bs {
			o.add("%s", infoText(b))
		}
		return o.String(), nil
	}
}

func opMovie(c *Case) *movie {
	m := newMovie(c)
	m.maxTracks = 2
	m.maxSample = 12
	m.real = true
	if c.Bool() {
		m.plain = true
	}
	frag := c.Chance(3)
	m.nosample = frag
	m.build(frag)
	m.notes()
	return m
}

func opProbe(c *Case, op *ioOp, fra bool) {
	m := opMovie(c)
	op.src = render(m.ns)
	op.size = len(m.tracks) + len(m.segs)
	op.abs = true
	op.run = func(r io.ReadSeeker, w io.WriteSeeker) (string, error) {
		f := mp4.Probe
		if fra {
			f = mp4.ProbeFra
		}
		p, err := f(r)
		if err != nil {
			return "", err
		}
		return deep(p), nil
	}
}

func opIDR(c *Case, op *ioOp) {
	m := newMovie(c)
	m.maxSample = 12
	m.real = true
	m.kinds = []string{"avc1"}
	m.build(false)
	m.notes()
	t := m.tracks[0]
	op.src = render(m.ns)
	op.size = len(t.samples)
	op.abs, op.full = true, true
	tr := &mp4.TrackInfo{}
	if t.hasAvcC {
		tr.AVC = &mp4.AVCDecConfigInfo{LengthSize: t.avc.LengthSize}
	}
	for _, s := range t.samples {
		tr.Samples = append(tr.Samples, &mp4.Sample{Size: s.size})
	}
	for _, k := range t.chunks {
		tr.Chunks = append(tr.Chunks, &mp4.Chunk{DataOffset: k.off, SamplesPerChunk: uint32(k.n)})
	}
	op.run = func(r io.ReadSeeker, w io.WriteSeeker) (string, error) {
		idx, err := mp4.FindIDRFrames(r, tr)
		return fmt.Sprint(idx), err
	}
}

func opEncode(c *Case, op *ioOp) {
	s := opSpec(c)
	g := opGen(c)
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	noteBox(c, s, t, ctx, v)
	b := s.Build(v, t)
	op.src = &sparse{}
	op.write = true
	op.size = 1
	op.run = func(r io.ReadSeeker, w io.WriteSeeker) (string, error) {
		n, err := mp4.Marshal(w, b, ctx)
		return fmt.Sprint(n), err
	}
}

func opText(c *Case, op *ioOp) {
	s := opSpec(c)
	g := opGen(c)
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	noteBox(c, s, t, ctx, v)
	b := s.Build(v, t)
	ind := []string{"", " ", "\t"}[c.Pick(3)]
	op.src = &sparse{}
	op.size = 1
	op.run = func(r io.ReadSeeker, w io.WriteSeeker) (string, error) {
		return mp4.StringifyWithIndent(b, ind, ctx)
	}
}

func opWriterScript(c *Case, op *ioOp) {
	type ins struct {
		k   int
		bi  mp4.BoxInfo
		b   []byte
		off int64
	}
	f := newFileGen(c)
	f.noBad = true
	f.budget = 8
	ns := f.file()
	all := allNodes(ns)
	op.src = render(ns)
	var prog []ins
	depth := 0
	for i := c.Int(1, 14); i > 0; i-- {
		switch k := c.Pick(6); {
		case k < 2:
			bi := mp4.BoxInfo{Type: anyType(c)}
			if c.Chance(4) {
				bi.Size, bi.HeaderSize = 16, 16
			} else if c.Chance(4) {
				bi.Size, bi.HeaderSize, bi.ExtendToEOF = 8, 8, true
			}
			prog = append(prog, ins{k: 0, bi: bi})
			depth++
		case k == 2:
			prog = append(prog, ins{k: 1, b: c.Bytes(c.Small(40))})
		case k == 3:
			n := all[c.Pick(len(all))]
			prog = append(prog, ins{k: 2, bi: *n.info()})
		case k == 4:
			prog = append(prog, ins{k: 3, off: int64(c.Pick(30)), b: c.Bytes(c.Pick(4))})
		case depth > 0:
			prog = append(prog, ins{k: 4})
			depth--
		}
	}
	for ; depth > 0; depth-- {
		prog = append(prog, ins{k: 4})
	}
	c.Note("program", fmt.Sprintf("%+v", prog))
	op.write, op.full = true, true
	op.size = len(prog)
	op.abs = true
	op.run = func(r io.ReadSeeker, ws io.WriteSeeker) (string, error) {
		w := mp4.NewWriter(ws)
		o := &opWriter{}
		for _, p := range prog {
			switch p.k {
			case 0:
				bi := p.bi
				x, err := w.StartBox(&bi)
				if err != nil {
					return "", err
				}
				o.add("%s", infoText(x))
			case 1:
				n, err := w.Write(p.b)
				if err != nil {
					return "", err
				}
				o.add("%d", n)
			case 2:
				bi := p.bi
				if err := w.CopyBox(r, &bi); err != nil {
					return "", err
				}
			case 3:
				end, err := w.Seek(0, io.SeekCurrent)
				if err != nil {
					return "", err
				}
				if p.off+int64(len(p.b)) > end {
					break
				}
				if _, err := w.Seek(p.off, io.SeekStart); err != nil {
					return "", err
				}
				if _, err := w.Write(p.b); err != nil {
					return "", err
				}
				if _, err := w.Seek(0, io.SeekEnd); err != nil {
					return "", err
				}
			case 4:
				x, err := w.EndBox()
				if err != nil {
					return "", err
				}
				o.add("%s", infoText(x))
			}
		}
		return o.String(), nil
	}
}

func opRewrite(c *Case, op *ioOp) {
	f := newFileGen(c)
	f.canon, f.noBad = true, true
	f.noEOF = c.Bool()
	f.noTail = true
	f.budget = 16
	ns := f.file()
	op.src = render(ns)
	op.size = len(ns)
	seed := c.U64()
	c.Note("file", op.src.bytes())
	c.Note("script", seed)
	op.write, op.abs, op.full = true, true, false
	op.run = func(r io.ReadSeeker, ws io.WriteSeeker) (string, error) {
		w := mp4.NewWriter(ws)
		vals, err := mp4.ReadBoxStructure(r, func(h *mp4.ReadHandle) (interface{}, error) {
			if !h.BoxInfo.IsSupportedType() || mix(seed+h.BoxInfo.Offset)%3 == 0 {
				return nil, w.CopyBox(r, &h.BoxInfo)
			}
			if _, err := w.StartBox(&h.BoxInfo); err != nil {
				return nil, err
			}
			b, _, err := h.ReadPayload()
			if err != nil {
				return nil, err
			}
			if _, err := mp4.Marshal(w, b, h.BoxInfo.Context); err != nil {
				return nil, err
			}
			if _, err := h.Expand(); err != nil {
				return nil, err
			}
			bi, err := w.EndBox()
			if err != nil {
				return nil, err
			}
			return infoText(bi), nil
		})
		return fmt.Sprint(vals), err
	}
}

// opQuery asks about types and boxes: lookups, names, flags and accessors.
func opQuery(c *Case, op *ioOp) {
	op.src = &sparse{}
	op.size = 1
	g := opGen(c)
	type q struct {
		t    mp4.BoxType
		u    mp4.BoxType
		ctx  mp4.Context
		v    uint8
		box  mp4.IBox
		flag uint32
	}
	var qs []q
	for n := c.Int(1, 12); n > 0; n-- {
		x := q{t: anyType(c), u: anyType(c), ctx: g.anyContext(), v: uint8(c.Pick(4)), flag: uint32(c.UBits(24))}
		for c.Chance(2) {
			x.t[c.Pick(4)] = []byte{0xa9, 0x20, 0x7e, 0x7f, 0, 0xff}[c.Pick(6)]
		}
		if c.Bool() {
			s := opSpec(c)
			ctx, t := g.context(s)
			x.t, x.ctx = t, ctx
			x.box = s.Build(g.value(s, ctx), t)
		}
		qs = append(qs, x)
	}
	c.Note("query", func() string { return fmt.Sprintf("%+v", qs) })
	op.run = func(r io.ReadSeeker, w io.WriteSeeker) (string, error) {
		o := &opWriter{}
		for _, x := range qs {
			vs, err := x.t.GetSupportedVersions(x.ctx)
			o.add("%x %q %v %v %v %v %v", x.t[:], x.t.String(), x.t.IsSupported(x.ctx), vs, err, x.t.IsSupportedVersion(x.v, x.ctx), x.t.MatchWith(x.u))
			o.add("%v %v %v", mp4.StrToBoxType(string(x.u[:])) == x.u, mp4.BoxTypeAny(), mp4.IsIlstMetaBoxType(x.t))
			if b, err := x.t.New(x.ctx); err != nil {
				o.add("%v", err)
			} else {
				b.SetFlags(x.flag)
				b.AddFlag(x.flag >> 3)
				b.RemoveFlag(x.flag >> 5)
				o.add("%v %v %v %s", b.GetType(), b.GetFlags(), b.CheckFlag(x.flag), deep(b))
			}
			if x.box != nil {
				o.add("%v %v %v %s", x.box.GetType(), x.box.GetVersion(), x.box.GetFlags(), getters(x.box))
			}
		}
		return o.String(), nil
	}
}

// getters calls the accessors of a box that take nothing or an index.
func getters(b mp4.IBox) string {
	v := reflect.ValueOf(b)
	o := &opWriter{}
	for i := 0; i < v.NumMethod(); i++ {
		m := v.Type().Method(i)
		if !strings.HasPrefix(m.Name, "Get") || m.Type.NumOut() != 1 {
			continue
		}
		var in []reflect.Value
		switch {
		case m.Type.NumIn() == 1:
		case m.Type.NumIn() == 2 && m.Type.In(1).Kind() == reflect.Int:
			in = []reflect.Value{reflect.ValueOf(0)}
		default:
			continue
		}
		func() {
			defer func() {
				if recover() != nil {
					o.add("%s panics", m.Name)
				}
			}()
			o.add("%s %v", m.Name, v.Method(i).Call(in)[0].Interface())
		}()
	}
	return o.String()
}
