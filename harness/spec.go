package main

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	mp4 "github.com/abema/go-mp4"
)

// This file is the reference model of box payload layouts: a value tree, and
// an encoder, decoder and text renderer driven by hand-written layout tables
// (spec_types.go). It shares no code with the library and does not look at
// its field tags.

type Kind int

const (
	KUint Kind = iota
	KInt
	KBool
	KCStr    // NUL-terminated, or up to the end of the region
	KZStr    // NUL-terminated, terminator required
	KBoxStr  // to the end of the box
	KName    // hdlr name
	KVarint  // 7 bits per byte, written with 4 bytes
	KByteArr // fixed byte array
	KBytes   // byte slice
	KArr     // array of other elements
	KSlice   // slice of other elements
	KStruct
	KComputed // no bytes; value derived while decoding
)

type Val struct {
	P bool
	U uint64
	S string
	B []byte
	L []*Val
	F []*Val
}

type Fld struct {
	Name  string
	K     Kind
	Go    int // width of the Go integer type
	Bits  int
	BitsF func(e *Env) int
	Elem  *Fld
	Def   *Def
	N     int
	Len   func(e *Env) int64
	Size  func(e *Env) int64 // struct confined to this many bytes
	Align int                // open-ended table: remaining bits must be a multiple
	Ext   bool
	Ptr   bool
	Ver   int
	NVer  int
	Opt   uint32
	NOpt  uint32
	Cond  func(e *Env) bool
	Hid   bool
	Cnst  bool
	Fmt   byte // 0 default, 'x', 'd', 's', 'l', 'u'
	Str   func(e *Env, v *Val) (string, bool)
	Comp  func(e *Env, left int64) bool
	Gen   func(g *Gen, e *Env) *Val
	MaxN  int
	ZVer  int // version in which the terminator is required
}

// toEnd is the length of a field that reaches to the end of the payload.
const toEnd = -1 << 62

type Def struct {
	Name   string
	Fields []*Fld
	idx    map[string]int
	Wire   func(e *Env) []int // wire order, nil = declaration order
}

func def(name string, fs ...*Fld) *Def {
	d := &Def{Name: name, Fields: fs, idx: map[string]int{}}
	for i, f := range fs {
		d.idx[f.Name] = i
	}
	return d
}

type frame struct {
	d *Def
	v *Val
}

type Env struct {
	Ctx   mp4.Context
	Ver   int // -1 before it is known
	Flags uint32
	stack []frame
	left  int64 // bits left in the region, when decoding
}

func (e *Env) at(up int, name string) *Val {
	fr := e.stack[len(e.stack)-1-up]
	return fr.v.F[fr.d.idx[name]]
}
func (e *Env) U(name string) uint64 { return e.at(0, name).U }
func (e *Env) B(name string) []byte { return e.at(0, name).B }

func (f *Fld) bits(e *Env) int {
	if f.BitsF != nil {
		return f.BitsF(e)
	}
	return f.Bits
}

// anyVersionAt255 makes version 255 have all version-dependent fields (a
// known finding of the library).
var anyVersionAt255 bool

func (f *Fld) present(e *Env) bool {
	if e.Ver != 255 || !anyVersionAt255 {
		if f.Ver >= 0 && e.Ver != f.Ver {
			return false
		}
		if f.NVer >= 0 && e.Ver == f.NVer {
			return false
		}
	}
	if f.Opt != 0 && e.Flags&f.Opt == 0 {
		return false
	}
	if f.NOpt != 0 && e.Flags&f.NOpt != 0 {
		return false
	}
	if f.Cond != nil && !f.Cond(e) {
		return false
	}
	return true
}

func (d *Def) order(e *Env) []int {
	if d.Wire != nil {
		if o := d.Wire(e); o != nil {
			return o
		}
	}
	o := make([]int, len(d.Fields))
	for i := range o {
		o[i] = i
	}
	return o
}

// ---- field constructors ----

func fld(n string, k Kind) *Fld           { return &Fld{Name: n, K: k, Ver: -1, NVer: -1} }
func uN(goBits int, n string, b int) *Fld { f := fld(n, KUint); f.Go = goBits; f.Bits = b; return f }
func iN(goBits int, n string, b int) *Fld { f := fld(n, KInt); f.Go = goBits; f.Bits = b; return f }
func u8(n string, b int) *Fld             { return uN(8, n, b) }
func u16(n string, b int) *Fld            { return uN(16, n, b) }
func u32(n string, b int) *Fld            { return uN(32, n, b) }
func u64f(n string, b int) *Fld           { return uN(64, n, b) }
func i8(n string, b int) *Fld             { return iN(8, n, b) }
func i16(n string, b int) *Fld            { return iN(16, n, b) }
func i32(n string, b int) *Fld            { return iN(32, n, b) }
func i64f(n string, b int) *Fld           { return iN(64, n, b) }
func bl(n string, b int) *Fld             { f := fld(n, KBool); f.Bits = b; return f }
func cs(n string) *Fld                    { return fld(n, KCStr) }
func boxs(n string) *Fld                  { return fld(n, KBoxStr) }
func byA(n string, cnt int) *Fld          { f := fld(n, KByteArr); f.N = cnt; return f }
func bySl(n string) *Fld                  { return fld(n, KBytes) }
func arr(n string, cnt int, el *Fld) *Fld { f := fld(n, KArr); f.N = cnt; f.Elem = el; return f }
func sl(n string, el *Fld) *Fld           { f := fld(n, KSlice); f.Elem = el; return f }
func st(n string, d *Def) *Fld            { f := fld(n, KStruct); f.Def = d; return f }
func ext(n string, d *Def) *Fld           { f := st(n, d); f.Ext = true; return f }

func (f *Fld) ver(v int) *Fld     { f.Ver = v; return f }
func (f *Fld) nver(v int) *Fld    { f.NVer = v; return f }
func (f *Fld) opt(v uint32) *Fld  { f.Opt = v; return f }
func (f *Fld) nopt(v uint32) *Fld { f.NOpt = v; return f }
func (f *Fld) cnst() *Fld         { f.Cnst = true; return f }
func (f *Fld) hid() *Fld          { f.Hid = true; return f }
func (f *Fld) fmt(c byte) *Fld    { f.Fmt = c; return f }
func (f *Fld) ptr() *Fld          { f.Ptr = true; return f }
func (f *Fld) align(b int) *Fld   { f.Align = b; return f }
func (f *Fld) max(n int) *Fld     { f.MaxN = n; return f }
func (f *Fld) zver(v int) *Fld    { f.ZVer = v; return f }
func (f *Fld) cond(c func(e *Env) bool) *Fld {
	f.Cond = c
	return f
}
func (f *Fld) str(s func(e *Env, v *Val) (string, bool)) *Fld { f.Str = s; return f }
func (f *Fld) gen(g func(g *Gen, e *Env) *Val) *Fld           { f.Gen = g; return f }
func (f *Fld) lenf(l func(e *Env) int64) *Fld                 { f.Len = l; return f }
func (f *Fld) lenOf(name string) *Fld {
	f.Len = func(e *Env) int64 { return int64(e.U(name)) }
	return f
}
func (f *Fld) lenC(n int64) *Fld { f.Len = func(*Env) int64 { return n }; return f }
func (f *Fld) size(s func(e *Env) int64) *Fld {
	f.Size = s
	return f
}

// cnt marks a count field: it is generated small.
func (f *Fld) cnt() *Fld {
	f.Gen = func(g *Gen, e *Env) *Val {
		m := 1<<uint(min(f.Bits, 31)) - 1
		if g.big > 0 && len(e.stack) <= 1 {
			return &Val{P: true, U: uint64(min(m, g.big))}
		}
		return &Val{P: true, U: uint64(g.c.Small(min(m, g.max)))}
	}
	return f
}

// ---- bit IO ----

type bitW struct {
	b []byte
	n uint // bits in the last byte
}

func (w *bitW) put(v uint64, bits int) {
	for i := bits - 1; i >= 0; i-- {
		if w.n == 0 {
			w.b = append(w.b, 0)
		}
		var bit byte
		if i < 64 {
			bit = byte(v>>uint(i)) & 1
		}
		w.b[len(w.b)-1] |= bit << (7 - w.n)
		w.n = (w.n + 1) % 8
	}
}

func (w *bitW) bytes(p []byte) {
	if w.n == 0 {
		w.b = append(w.b, p...)
		return
	}
	for _, x := range p {
		w.put(uint64(x), 8)
	}
}

func (w *bitW) len() int64 {
	if w.n == 0 {
		return int64(len(w.b)) * 8
	}
	return int64(len(w.b)-1)*8 + int64(w.n)
}

type bitR struct {
	b   []byte
	pos int64
}

func (r *bitR) get(bits int) uint64 {
	var v uint64
	for i := 0; i < bits; i++ {
		v = v<<1 | uint64(r.b[r.pos>>3]>>(7-uint(r.pos&7))&1)
		r.pos++
	}
	return v
}

var (
	errShort     = errors.New("ref: payload too short")
	errAlign     = errors.New("ref: does not divide into elements")
	errTooFew    = errors.New("ref: too few elements")
	errVersion   = errors.New("ref: unsupported version")
	errHuge      = errors.New("ref: many entries without bytes")
	errUnaligned = errors.New("ref: not whole bytes")
	errDontCare  = errors.New("ref: outside the modelled domain")
	errBadBox    = errors.New("ref: inconsistent box")
)

// ---- encoder ----

func (s *Spec) env(v *Val, ctx mp4.Context) *Env {
	e := &Env{Ctx: ctx}
	if s.Full {
		fb := v.F[s.Def.idx["FullBox"]]
		e.Ver = int(fb.F[0].U)
		b := fb.F[1].B
		e.Flags = uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2])
	}
	return e
}

func (s *Spec) Encode(v *Val, ctx mp4.Context) ([]byte, error) {
	w := &bitW{}
	e := s.env(v, ctx)
	if s.Check != nil {
		if err := s.Check(e, v); err != nil {
			return nil, err
		}
	}
	if err := encStruct(w, e, s.Def, v); err != nil {
		return nil, err
	}
	if w.n != 0 {
		return nil, errUnaligned
	}
	if w.b == nil {
		return []byte{}, nil
	}
	return w.b, nil
}

func encStruct(w *bitW, e *Env, d *Def, v *Val) error {
	if v.F == nil {
		v = zeroStruct(d)
	}
	e.stack = append(e.stack, frame{d, v})
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	for _, i := range d.order(e) {
		f := d.Fields[i]
		if !f.present(e) {
			continue
		}
		if err := encFld(w, e, f, v.F[i]); err != nil {
			return err
		}
	}
	return nil
}

func encFld(w *bitW, e *Env, f *Fld, v *Val) error {
	switch f.K {
	case KUint, KInt:
		w.put(v.U, f.bits(e))
	case KBool:
		x := uint64(0)
		if v.U != 0 {
			x = ^uint64(0)
		}
		w.put(x, f.bits(e))
	case KCStr, KZStr, KName:
		w.bytes([]byte(v.S))
		w.bytes([]byte{0})
	case KBoxStr:
		w.bytes([]byte(v.S))
	case KVarint:
		for i := 3; i >= 0; i-- {
			x := v.U >> uint(7*i) & 0x7f
			if i > 0 {
				x |= 0x80
			}
			w.put(x, 8)
		}
	case KByteArr:
		w.bytes(v.B)
	case KBytes:
		n := int64(len(v.B))
		if f.Len != nil {
			if m := f.Len(e); m != toEnd {
				if m < 0 || m > n {
					return errTooFew
				}
				n = m
			}
		}
		w.bytes(v.B[:n])
	case KArr, KSlice:
		l := v.L
		if f.K == KSlice && f.Len != nil {
			m := f.Len(e)
			if m < 0 || m > int64(len(l)) {
				return errTooFew
			}
			l = l[:m]
		}
		for _, x := range l {
			if err := encFld(w, e, f.Elem, x); err != nil {
				return err
			}
		}
	case KStruct:
		return encStruct(w, e, f.Def, v)
	case KComputed:
	}
	return nil
}

// ---- decoder ----

// Decode decodes p (exactly the payload) and returns the value tree and the
// number of bytes used.
func (s *Spec) Decode(p []byte, ctx mp4.Context) (*Val, int, error) {
	if s.Name == "meta" {
		if len(p) < 4 {
			return nil, 0, errShort
		}
		if p[0]|p[1]|p[2]|p[3] != 0 {
			v := zeroStruct(s.Def)
			return v, 0, nil
		}
	}
	d := &dec{r: &bitR{b: p}, s: s, e: &Env{Ctx: ctx}}
	v, err := d.strct(s.Def, int64(len(p))*8)
	if err != nil {
		return nil, 0, err
	}
	if d.r.pos%8 != 0 {
		return nil, 0, errUnaligned
	}
	return v, int(d.r.pos / 8), nil
}

// limitless makes the decoder read a declared count of 0xffffffff as "to the
// end of the region" (a known finding of the library).
var limitless bool

type dec struct {
	r *bitR
	s *Spec
	e *Env
	n int
}

func zeroStruct(d *Def) *Val {
	v := &Val{P: true, F: make([]*Val, len(d.Fields))}
	for i, f := range d.Fields {
		v.F[i] = zeroFld(f)
	}
	return v
}

func zeroFld(f *Fld) *Val {
	switch f.K {
	case KStruct:
		if f.Ptr {
			return &Val{}
		}
		v := zeroStruct(f.Def)
		v.P = false
		return v
	case KByteArr:
		return &Val{B: make([]byte, f.N)}
	case KArr:
		v := &Val{}
		for i := 0; i < f.N; i++ {
			v.L = append(v.L, zeroFld(f.Elem))
		}
		return v
	}
	return &Val{}
}

func (d *dec) strct(df *Def, end int64) (*Val, error) {
	v := zeroStruct(df)
	d.e.stack = append(d.e.stack, frame{df, v})
	defer func() { d.e.stack = d.e.stack[:len(d.e.stack)-1] }()
	order := df.order(d.e)
	for k := range order {
		i := order[k]
		f := df.Fields[i]
		if !f.present(d.e) {
			continue
		}
		x, err := d.fld(f, end)
		if err != nil {
			return nil, err
		}
		x.P = true
		v.F[i] = x
		if f.Name == "FullBox" && f.K == KStruct && len(d.e.stack) == 1 {
			d.e.Ver = int(x.F[0].U)
			b := x.F[1].B
			d.e.Flags = uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2])
			if !d.s.supports(d.e.Ver) {
				return nil, errVersion
			}
			order = df.order(d.e)
		}
	}
	return v, nil
}

func (d *dec) take(end int64, n int64) error {
	if n < 0 || d.r.pos+n > end {
		return errShort
	}
	return nil
}

func (d *dec) readBytes(n int64) []byte {
	b := make([]byte, n)
	if d.r.pos%8 == 0 {
		copy(b, d.r.b[d.r.pos/8:])
		d.r.pos += n * 8
		return b
	}
	for i := range b {
		b[i] = byte(d.r.get(8))
	}
	return b
}

func (d *dec) fld(f *Fld, end int64) (*Val, error) {
	d.n++
	if d.n > 100000 {
		return nil, errDontCare
	}
	v := &Val{P: true}
	start := d.r.pos
	switch f.K {
	case KUint, KInt, KBool:
		n := f.bits(d.e)
		if err := d.take(end, int64(n)); err != nil {
			return nil, err
		}
		u := d.r.get(n)
		if f.K == KInt && n < 64 && u>>uint(n-1)&1 == 1 {
			u |= ^uint64(0) << uint(n)
		}
		if f.K == KBool && u != 0 {
			u = 1
		}
		v.U = u
	case KCStr, KZStr:
		var s []byte
		for {
			if d.r.pos+8 > end {
				if d.r.pos < end {
					return nil, errDontCare
				}
				if f.K == KZStr || f.ZVer > 0 && d.e.Ver == f.ZVer {
					return nil, errShort
				}
				break
			}
			c := byte(d.r.get(8))
			if c == 0 {
				break
			}
			s = append(s, c)
		}
		v.S = string(s)
	case KBoxStr:
		// reads up to the end, or to a NUL
		var s []byte
		for d.r.pos+8 <= end {
			c := byte(d.r.get(8))
			if c == 0 {
				break
			}
			s = append(s, c)
		}
		v.S = string(s)
	case KName:
		rest := d.readBytes((end - d.r.pos) / 8)
		switch {
		case len(rest) == 0:
		case d.e.U("PreDefined") != 0 && len(rest) >= 2 && len(rest) == int(rest[0])+1:
			v.S = string(rest[1:])
		default:
			k := 0
			for k < len(rest) && rest[k] != 0 {
				k++
			}
			v.S = string(rest[:k])
		}
	case KVarint:
		for i := 0; ; i++ {
			if err := d.take(end, 8); err != nil {
				return nil, err
			}
			if i >= 5 || v.U>>25 != 0 {
				return nil, errDontCare
			}
			c := d.r.get(8)
			v.U = v.U<<7 | c&0x7f
			if c&0x80 == 0 {
				break
			}
		}
	case KByteArr:
		if err := d.take(end, int64(f.N)*8); err != nil {
			return nil, err
		}
		v.B = d.readBytes(int64(f.N))
	case KBytes:
		n := (end - d.r.pos) / 8
		m := int64(toEnd)
		if f.Len != nil {
			m = f.Len(d.e)
		}
		if m != toEnd && !(limitless && m == 1<<32-1) {
			n = m
			if n < 0 || n > 1<<40 {
				return nil, errShort
			}
			if err := d.take(end, n*8); err != nil {
				return nil, err
			}
		} else if (end-d.r.pos)%8 != 0 {
			return nil, errAlign
		}
		v.B = d.readBytes(n)
	case KArr:
		for i := 0; i < f.N; i++ {
			x, err := d.fld(f.Elem, end)
			if err != nil {
				return nil, err
			}
			v.L = append(v.L, x)
		}
	case KSlice:
		if f.Len != nil {
			n := f.Len(d.e)
			if n < 0 {
				return nil, errShort
			}
			if limitless && n == 1<<32-1 {
				g := *f
				g.Len = nil
				return d.fld(&g, end)
			}
			for i := int64(0); i < n; i++ {
				if i == 1000 && d.r.pos == start {
					return nil, errHuge
				}
				x, err := d.fld(f.Elem, end)
				if err != nil {
					return nil, err
				}
				v.L = append(v.L, x)
			}
		} else {
			if f.Align != 0 && (end-d.r.pos)%int64(f.Align) != 0 {
				return nil, errAlign
			}
			for d.r.pos < end {
				p := d.r.pos
				x, err := d.fld(f.Elem, end)
				if err != nil {
					return nil, err
				}
				if d.r.pos == p {
					return nil, errAlign
				}
				v.L = append(v.L, x)
			}
		}
	case KStruct:
		if f.Size != nil {
			if sz := f.Size(d.e); sz > 0 {
				sub := d.r.pos + sz*8
				if sub > end || sz > 1<<40 {
					return nil, errShort
				}
				x, err := d.strct(f.Def, sub)
				if err != nil {
					return nil, err
				}
				if d.r.pos != sub {
					return nil, errAlign
				}
				return x, nil
			}
		}
		return d.strct(f.Def, end)
	case KComputed:
		if f.Comp(d.e, end-d.r.pos) {
			v.U = 1
		}
	}
	return v, nil
}

// ---- text form ----

func escText(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		r, n := utf8.DecodeRuneInString(s[i:])
		i += n
		if unicode.IsGraphic(r) {
			b.WriteRune(r)
		} else {
			b.WriteByte('.')
		}
	}
	return b.String()
}

func quote(s string) string { return `"` + escText(s) + `"` }

type txt struct {
	b      strings.Builder
	e      *Env
	indent string
	sp     bool // a separator is needed before the next field
}

func (s *Spec) Text(v *Val, ctx mp4.Context, indent string) string {
	t := &txt{e: s.env(v, ctx), indent: indent}
	t.fields(s.Def, v, 1)
	return t.b.String()
}

// fields renders the fields of a struct at the given nesting level.
func (t *txt) fields(d *Def, v *Val, level int) {
	t.e.stack = append(t.e.stack, frame{d, v})
	defer func() { t.e.stack = t.e.stack[:len(t.e.stack)-1] }()
	for i, f := range d.Fields {
		if f.Cnst || f.Hid || !f.present(t.e) {
			continue
		}
		if f.Ext {
			t.fields(f.Def, v.F[i], level)
			continue
		}
		if t.indent != "" {
			t.b.WriteString(strings.Repeat(t.indent, level))
		} else if t.sp {
			t.b.WriteByte(' ')
		}
		t.b.WriteString(f.Name)
		t.b.WriteByte('=')
		t.sp = true
		done := false
		if f.Str != nil {
			if s, ok := f.Str(t.e, v.F[i]); ok {
				t.b.WriteString(s)
				done = true
			}
		}
		if !done {
			t.value(f, v.F[i], level)
		}
		if t.indent != "" {
			t.b.WriteByte('\n')
		}
	}
}

func (t *txt) value(f *Fld, v *Val, level int) {
	switch f.K {
	case KUint, KInt, KVarint:
		t.b.WriteString(numText(f, v.U))
	case KBool, KComputed:
		t.b.WriteString(strconv.FormatBool(v.U != 0))
	case KCStr, KZStr, KBoxStr, KName:
		t.b.WriteString(quote(v.S))
	case KByteArr, KBytes:
		b := v.B
		if f.K == KBytes && f.Len != nil {
			if n := f.Len(t.e); n >= 0 && n < int64(len(b)) {
				b = b[:n]
			}
		}
		t.b.WriteString(bytesText(f.Fmt, b))
	case KArr, KSlice:
		l := v.L
		if f.K == KSlice && f.Len != nil {
			if n := f.Len(t.e); n >= 0 && n < int64(len(l)) {
				l = l[:n]
			}
		}
		if f.Fmt == 'l' {
			t.b.WriteByte('"')
			for _, x := range l {
				t.b.WriteString(escText(string([]byte{byte(x.U + 0x60)})))
			}
			t.b.WriteByte('"')
			return
		}
		t.b.WriteByte('[')
		el := *f.Elem
		if el.Fmt == 0 {
			el.Fmt = f.Fmt
		}
		for i, x := range l {
			if i > 0 {
				t.b.WriteString(", ")
			}
			t.value(&el, x, level+1)
		}
		t.b.WriteByte(']')
	case KStruct:
		t.b.WriteByte('{')
		if t.indent != "" {
			t.b.WriteByte('\n')
		}
		t.sp = false
		t.fields(f.Def, v, level+1)
		if t.indent != "" {
			t.b.WriteString(strings.Repeat(t.indent, level))
		}
		t.b.WriteByte('}')
		t.sp = true
	}
}

func numText(f *Fld, u uint64) string {
	if f.K == KInt {
		x := int64(u)
		if f.Fmt == 'x' {
			if x < 0 {
				return "-0x" + strconv.FormatUint(-u, 16)
			}
			return "0x" + strconv.FormatUint(uint64(x), 16)
		}
		return strconv.FormatInt(x, 10)
	}
	if f.Fmt == 'x' || f.Fmt != 'd' && f.Go == 8 {
		return "0x" + strconv.FormatUint(u, 16)
	}
	return strconv.FormatUint(u, 10)
}

func bytesText(format byte, b []byte) string {
	switch format {
	case 's':
		return quote(string(b))
	case 'u':
		return uuidText(b)
	case 'f':
		var x uint32
		for _, c := range b {
			x = x<<8 | uint32(c)
		}
		return fmt.Sprintf("0x%06x", x)
	}
	var s []string
	for _, c := range b {
		if format == 'd' {
			s = append(s, strconv.Itoa(int(c)))
		} else {
			s = append(s, "0x"+strconv.FormatUint(uint64(c), 16))
		}
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func uuidText(b []byte) string {
	if len(b) != 16 {
		return fmt.Sprintf("%x", b)
	}
	return fmt.Sprintf("%x-%x-%x-%x-%x", b[:4], b[4:6], b[6:8], b[8:10], b[10:])
}

// ---- bridge to the library's structs ----

// Set stores a value tree in a box struct (absent fields stay zero).
func setStruct(rv reflect.Value, d *Def, v *Val) { setStructX(rv, d, v, false) }

// setStructX with all also stores the values of absent fields.
func setStructX(rv reflect.Value, d *Def, v *Val, all bool) {
	if v.F == nil {
		return
	}
	for i, f := range d.Fields {
		x := rv.FieldByName(f.Name)
		if !x.IsValid() {
			panic(fmt.Sprintf("%s has no field %s", rv.Type(), f.Name))
		}
		if v.F[i] == nil || !v.F[i].P && !(all && f.K != KStruct) {
			continue
		}
		setVal(x, f, v.F[i], all)
	}
}

func setVal(rv reflect.Value, f *Fld, v *Val, all bool) {
	if rv.Kind() == reflect.Ptr {
		p := reflect.New(rv.Type().Elem())
		setVal(p.Elem(), f, v, all)
		rv.Set(p)
		return
	}
	switch f.K {
	case KUint, KVarint:
		rv.SetUint(v.U)
	case KInt:
		rv.SetInt(int64(v.U))
	case KBool, KComputed:
		rv.SetBool(v.U != 0)
	case KCStr, KZStr, KBoxStr, KName:
		rv.SetString(v.S)
	case KByteArr:
		for i, c := range v.B {
			rv.Index(i).SetUint(uint64(c))
		}
	case KBytes:
		if v.B == nil {
			return
		}
		s := reflect.MakeSlice(rv.Type(), len(v.B), len(v.B))
		for i, c := range v.B {
			s.Index(i).SetUint(uint64(c))
		}
		rv.Set(s)
	case KArr:
		for i, x := range v.L {
			setVal(rv.Index(i), f.Elem, x, all)
		}
	case KSlice:
		if v.L == nil {
			return
		}
		s := reflect.MakeSlice(rv.Type(), len(v.L), len(v.L))
		for i, x := range v.L {
			setVal(s.Index(i), f.Elem, x, all)
		}
		rv.Set(s)
	case KStruct:
		setStructX(rv, f.Def, v, all)
	}
}

// Build makes the library box holding the value tree.
func (s *Spec) Build(v *Val, bt mp4.BoxType) mp4.IBox { return s.build(v, bt, false) }

// BuildAll also stores the (meaningless) values of absent fields.
func (s *Spec) BuildAll(v *Val, bt mp4.BoxType) mp4.IBox { return s.build(v, bt, true) }

func (s *Spec) build(v *Val, bt mp4.BoxType, all bool) mp4.IBox {
	b := s.New()
	setStructX(reflect.ValueOf(b).Elem(), s.Def, v, all)
	if a, ok := b.(mp4.IAnyType); ok {
		a.SetType(bt)
	}
	return b
}

// diffBoxes compares two boxes: nil and empty tables are the same. It
// returns a description of the first difference.
func diffBoxes(a, b interface{}) string {
	if reflect.DeepEqual(a, b) {
		return ""
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Type() != vb.Type() {
		return fmt.Sprintf("type %s vs %s", va.Type(), vb.Type())
	}
	return diffVal(va.Type().String(), va, vb)
}

func diffVal(path string, a, b reflect.Value) string {
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: nil %v vs nil %v", path, a.IsNil(), b.IsNil())
			}
			return ""
		}
		return diffVal(path, a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if d := diffVal(path+"."+a.Type().Field(i).Name, a.Field(i), b.Field(i)); d != "" {
				return d
			}
		}
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: length %d vs %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if d := diffVal("", a.Index(i), b.Index(i)); d != "" {
				return fmt.Sprintf("%s[%d]%s", path, i, d)
			}
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %d vs %d", path, a.Int(), b.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s: %d (0x%x) vs %d (0x%x)", path, a.Uint(), a.Uint(), b.Uint(), b.Uint())
		}
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: %v vs %v", path, a.Bool(), b.Bool())
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q vs %q", path, a.String(), b.String())
		}
	default:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return path + " differs"
		}
	}
	return ""
}

// cloneVal copies a value tree.
func cloneVal(v *Val) *Val {
	if v == nil {
		return nil
	}
	w := *v
	w.B = append([]byte(nil), v.B...)
	if v.L != nil {
		w.L = make([]*Val, len(v.L))
		for i, x := range v.L {
			w.L[i] = cloneVal(x)
		}
	}
	if v.F != nil {
		w.F = make([]*Val, len(v.F))
		for i, x := range v.F {
			w.F[i] = cloneVal(x)
		}
	}
	return &w
}

// leaf is a place in a value tree together with the same place in a box.
type leaf struct {
	path string
	f    *Fld
	v    *Val
	rv   reflect.Value
	e    Env
}

// leaves lists the present fields for which keep is true. The environment of
// each leaf is that of its struct.
func (s *Spec) leaves(v *Val, ctx mp4.Context, b mp4.IBox, keep func(*Fld) bool) []leaf {
	e := s.env(v, ctx)
	var out []leaf
	var rv reflect.Value
	if b != nil {
		rv = reflect.ValueOf(b).Elem()
	}
	walkStruct(&out, e, "", s.Def, v, rv, keep)
	return out
}

func walkStruct(out *[]leaf, e *Env, path string, d *Def, v *Val, rv reflect.Value, keep func(*Fld) bool) {
	if v.F == nil {
		v = zeroStruct(d)
	}
	e.stack = append(e.stack, frame{d, v})
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	for i, f := range d.Fields {
		if !f.present(e) {
			continue
		}
		var x reflect.Value
		if rv.IsValid() {
			x = rv.FieldByName(f.Name)
		}
		walkFld(out, e, path+"."+f.Name, f, v.F[i], x, keep)
	}
}

func walkFld(out *[]leaf, e *Env, path string, f *Fld, v *Val, rv reflect.Value, keep func(*Fld) bool) {
	if keep(f) {
		c := *e
		c.stack = append([]frame(nil), e.stack...)
		x := rv
		if x.IsValid() && x.Kind() == reflect.Ptr {
			x = x.Elem()
		}
		*out = append(*out, leaf{path, f, v, x, c})
	}
	if rv.IsValid() && rv.Kind() == reflect.Ptr {
		rv = rv.Elem()
	}
	switch f.K {
	case KStruct:
		walkStruct(out, e, path, f.Def, v, rv, keep)
	case KArr, KSlice:
		for i, x := range v.L {
			if i >= 200 {
				break
			}
			var y reflect.Value
			if rv.IsValid() {
				y = rv.Index(i)
			}
			walkFld(out, e, fmt.Sprintf("%s[%d]", path, i), f.Elem, x, y, keep)
		}
	}
}
