package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"sync"

	mp4 "github.com/abema/go-mp4"
	"github.com/abema/go-mp4/internal/bitio"
)

// Structures with hooks. Every hook call is answered from the script of the
// case, which also says which calls must come, in which order, at which bit.

type hkHooks struct{ mp4.BaseCustomFieldObject }

func (*hkHooks) OnReadField(name string, r bitio.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return hkCur.read("sub", name, r, left, ctx)
}

func (*hkHooks) OnWriteField(name string, w bitio.Writer, ctx mp4.Context) (uint64, bool, error) {
	return hkCur.write("sub", name, w, ctx)
}

func (*hkHooks) StringifyField(name, indent string, depth int, ctx mp4.Context) (string, bool) {
	return hkCur.str("sub", name, indent)
}

// hkSub has hooks of its own; the hooks of its fields are not the box's.
type hkSub struct {
	hkHooks
	X uint8  `mp4:"0,size=5"`
	Y uint16 `mp4:"1,size=11,hex"`
}

// hkElem has none: the hooks of the box are asked.
type hkElem struct {
	P int8   `mp4:"0,size=4"`
	Q uint32 `mp4:"1,size=20"`
}

type hkBoxHooks struct{ mp4.Box }

func (*hkBoxHooks) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {
	return hkCur.before(r, size, ctx)
}

func (*hkBoxHooks) OnReadField(name string, r bitio.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return hkCur.read("box", name, r, left, ctx)
}

func (*hkBoxHooks) OnWriteField(name string, w bitio.Writer, ctx mp4.Context) (uint64, bool, error) {
	return hkCur.write("box", name, w, ctx)
}

func (*hkBoxHooks) StringifyField(name, indent string, depth int, ctx mp4.Context) (string, bool) {
	return hkCur.str("box", name, indent)
}

func (*hkBoxHooks) GetFieldLength(name string, ctx mp4.Context) uint { return uint(hkCur.lens[name]) }
func (*hkBoxHooks) GetFieldSize(name string, ctx mp4.Context) uint   { return uint(hkCur.sizes[name]) }
func (*hkBoxHooks) IsOptFieldEnabled(name string, ctx mp4.Context) bool {
	return hkCur.opts[name]
}

// hkOne has everything and ends with a field that reaches to the end.
type hkOne struct {
	hkBoxHooks
	A uint8    `mp4:"0,size=3"`
	B int16    `mp4:"1,size=13"`
	C []byte   `mp4:"2,size=8,len=dynamic"`
	D string   `mp4:"3,string"`
	E hkSub    `mp4:"4,size=16"`
	F []hkElem `mp4:"5,len=dynamic"`
	G uint64   `mp4:"6,size=dynamic,opt=dynamic"`
	H []byte   `mp4:"7,size=8"`
}

func (*hkOne) GetType() mp4.BoxType { return mp4.StrToBoxType("hk01") }

// hkTwo has bits of all kinds and no open end.
type hkTwo struct {
	hkBoxHooks
	A bool     `mp4:"0,size=1"`
	B hkSub    `mp4:"1"`
	C [3]uint8 `mp4:"2,size=7"`
	D *hkElem  `mp4:"3"`
	E uint32   `mp4:"4,size=dynamic"`
	F []hkSub  `mp4:"5,len=dynamic"`
	G string   `mp4:"6,string,opt=dynamic"`
	H int64    `mp4:"7,size=64"`
}

func (*hkTwo) GetType() mp4.BoxType { return mp4.StrToBoxType("hk02") }

// hkThree is a full box with an extended structure.
type HkExt struct {
	U uint16 `mp4:"0,size=9"`
	V uint8  `mp4:"1,size=7,hex"`
}

type hkThree struct {
	mp4.FullBox `mp4:"0,extend"`
	HkExt       `mp4:"1,extend"`
	C           uint32   `mp4:"2,size=32,ver=1"`
	D           uint16   `mp4:"3,size=16,opt=0x000001"`
	E           []uint16 `mp4:"4,size=dynamic,len=dynamic"`
	F           string   `mp4:"5,boxstring"`
}

func (*hkThree) GetType() mp4.BoxType { return mp4.StrToBoxType("hk03") }

func (*hkThree) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {
	return hkCur.before(r, size, ctx)
}

func (*hkThree) OnReadField(name string, r bitio.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	return hkCur.read("box", name, r, left, ctx)
}

func (*hkThree) OnWriteField(name string, w bitio.Writer, ctx mp4.Context) (uint64, bool, error) {
	return hkCur.write("box", name, w, ctx)
}

func (*hkThree) StringifyField(name, indent string, depth int, ctx mp4.Context) (string, bool) {
	return hkCur.str("box", name, indent)
}

func (*hkThree) GetFieldLength(name string, ctx mp4.Context) uint { return uint(hkCur.lens[name]) }
func (*hkThree) GetFieldSize(name string, ctx mp4.Context) uint   { return uint(hkCur.sizes[name]) }

// hkF describes a field to the model.
type hkF struct {
	name  string
	kind  byte // u i b(ool) s(tring) t(ext without end) B(ytes) R(est) S(truct) L(ist of structs) A(rray of u) N(umbers, counted) P(ointer to struct) F(ull box header)
	bits  int  // of a number; -1: dynamic
	size  int  // S: confined to so many bits
	n     int  // A: length
	sub   []*hkF
	owner string // of the fields in sub
	opt   bool
	ver   int // 1: version 1 only
	flag  bool
	hex   bool
	ext   bool
}

var (
	hkSubF  = []*hkF{{name: "X", kind: 'u', bits: 5, hex: true}, {name: "Y", kind: 'u', bits: 11, hex: true}}
	hkElemF = []*hkF{{name: "P", kind: 'i', bits: 4}, {name: "Q", kind: 'u', bits: 20}}
	hkExtF  = []*hkF{{name: "U", kind: 'u', bits: 9}, {name: "V", kind: 'u', bits: 7, hex: true}}
)

type hkType struct {
	name string
	t    reflect.Type
	code string
	full bool
	f    []*hkF
}

var hkTypes = []*hkType{
	{"hkOne", reflect.TypeOf(hkOne{}), "hk01", false, []*hkF{
		{name: "A", kind: 'u', bits: 3, hex: true},
		{name: "B", kind: 'i', bits: 13},
		{name: "C", kind: 'B'},
		{name: "D", kind: 's'},
		{name: "E", kind: 'S', size: 16, sub: hkSubF, owner: "sub"},
		{name: "F", kind: 'L', sub: hkElemF, owner: "box"},
		{name: "G", kind: 'u', bits: -1, opt: true},
		{name: "H", kind: 'R'},
	}},
	{"hkTwo", reflect.TypeOf(hkTwo{}), "hk02", false, []*hkF{
		{name: "A", kind: 'b', bits: 1},
		{name: "B", kind: 'S', sub: hkSubF, owner: "sub"},
		{name: "C", kind: 'A', bits: 7, n: 3, hex: true},
		{name: "D", kind: 'P', sub: hkElemF, owner: "box"},
		{name: "E", kind: 'u', bits: -1},
		{name: "F", kind: 'L', sub: hkSubF, owner: "sub"},
		{name: "G", kind: 's', opt: true},
		{name: "H", kind: 'i', bits: 64},
	}},
	{"hkThree", reflect.TypeOf(hkThree{}), "hk03", true, []*hkF{
		{name: "FullBox", kind: 'F', ext: true},
		{name: "HkExt", kind: 'S', sub: hkExtF, owner: "box", ext: true},
		{name: "C", kind: 'u', bits: 32, ver: 1},
		{name: "D", kind: 'u', bits: 16, flag: true},
		{name: "E", kind: 'N', bits: -1},
		{name: "F", kind: 't'},
	}},
}

const (
	hkNone     = iota
	hkPrefix   // takes bits, then the field follows
	hkOverride // takes the field's place
	hkPeek     // looks ahead and comes back
	hkReseek   // goes back to the byte and forward again
	hkMisalign // tries what is refused within a byte
	hkError    // fails
)

var hkActNames = []string{"none", "prefix", "override", "peek", "reseek", "misaligned access", "error"}

// hkEvent is one expected hook call.
type hkEvent struct {
	owner, name string
	pos         int // bits before it
	scope       int // confined: end of the scope in bits; -1: the payload
	act         int
	bits        []byte // taken or produced, one per element
	text        string
	isText      bool
}

type hkScript struct {
	c      *Case
	ctx    mp4.Context
	lens   map[string]int
	sizes  map[string]int
	opts   map[string]bool
	events []*hkEvent
	next   int
	base   int64 // byte position of the payload
	total  int   // payload size in bits, as told
	bad    string
	fail   error
	chunks []int // how hooks split their access
	ci     int
	indent string
	texts  map[string]string
	shown  []string
	// BeforeUnmarshal
	beforeN   int
	beforeAct int // 0 nothing, 1 takes bytes, 2 takes the payload, 3 fails, 4 peeks
	beforeGot []byte
	beforeCnt int
	cut       bool // the payload may end early
}

var hkCur *hkScript

var errHook = errors.New("hook failed")

func (s *hkScript) wrong(format string, args ...interface{}) {
	if s.bad == "" {
		s.bad = fmt.Sprintf(format, args...)
	}
}

func (s *hkScript) chunk(max int) int {
	s.ci++
	k := s.chunks[s.ci%len(s.chunks)]
	if k > max {
		k = max
	}
	return k
}

func (s *hkScript) before(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) {
	s.beforeCnt++
	if size*8 != uint64(s.total) || ctx != s.ctx {
		s.wrong("BeforeUnmarshal got size %d, context %+v", size, ctx)
	}
	if p, err := r.Seek(0, io.SeekCurrent); err != nil || p != s.base {
		s.wrong("BeforeUnmarshal: the reader is at %d, %v, not %d", p, err, s.base)
	}
	switch s.beforeAct {
	case 1, 2:
		b := make([]byte, s.beforeN)
		if _, err := io.ReadFull(r, b); err != nil {
			return 0, false, err
		}
		s.beforeGot = b
		return uint64(s.beforeN), s.beforeAct == 2, nil
	case 3:
		return 0, false, s.fail
	case 4:
		io.ReadFull(r, make([]byte, s.beforeN))
		_, err := r.Seek(s.base, io.SeekStart)
		return 0, false, err
	}
	return 0, false, nil
}

func (s *hkScript) take(owner, name string, ctx mp4.Context) *hkEvent {
	if ctx != s.ctx {
		s.wrong("hook of %s.%s got context %+v", owner, name, ctx)
	}
	if s.next >= len(s.events) {
		s.wrong("unexpected hook call for %s.%s after the last field", owner, name)
		return nil
	}
	e := s.events[s.next]
	s.next++
	if e.owner != owner || e.name != name {
		s.wrong("hook call for %s.%s, expected %s.%s", owner, name, e.owner, e.name)
		return nil
	}
	return e
}

func (s *hkScript) read(owner, name string, r bitio.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) {
	e := s.take(owner, name, ctx)
	if e == nil {
		return 0, false, errHook
	}
	end := s.total
	if e.scope >= 0 {
		end = e.scope
	}
	if s.cut && e.pos > s.total && e.scope < 0 && left <= uint64(s.total) {
		// a text was cut short before
	} else if left != uint64(end-e.pos) {
		s.wrong("hook of %s.%s at bit %d of %d was told of %d bits left", owner, name, e.pos, end, int64(left))
		return 0, false, errHook
	}
	at := s.base + int64(e.pos/8)
	act := e.act
	if s.cut && act >= hkPeek {
		act = hkNone // the positions are not those of the script
	}
	switch act {
	case hkError:
		return 0, false, s.fail
	case hkPeek:
		n := s.chunk(9)
		r.ReadBits(uint(n))
		if _, err := r.Seek(at, io.SeekStart); err != nil {
			return 0, false, err
		}
		if k := e.pos % 8; k > 0 {
			if _, err := r.ReadBits(uint(k)); err != nil {
				return 0, false, err
			}
		}
	case hkReseek:
		p, err := r.Seek(at, io.SeekStart)
		if err != nil || p != at {
			s.wrong("seeking to %d: %d, %v", at, p, err)
		}
		for k := e.pos % 8; k > 0; k-- {
			if _, err := r.ReadBit(); err != nil {
				return 0, false, err
			}
		}
	case hkMisalign:
		b := make([]byte, 3)
		n, err := 0, error(nil)
		if e.pos%8 != 0 {
			if n, err = r.Read(b); n != 0 || err != bitio.ErrInvalidAlignment {
				s.wrong("reading bytes at bit %d: %d, %v", e.pos, n, err)
			}
			if _, err := r.Seek(0, io.SeekCurrent); err != bitio.ErrInvalidAlignment {
				s.wrong("asking for the position at bit %d: %v", e.pos, err)
			}
			if _, err := r.Seek(2, io.SeekCurrent); err != bitio.ErrInvalidAlignment {
				s.wrong("seeking relatively at bit %d: %v", e.pos, err)
			}
		} else if p, err := r.Seek(0, io.SeekCurrent); p != at || err != nil {
			s.wrong("asking for the position at bit %d: %d, %v, want %d", e.pos, p, err, at)
		}
	}
	got := make([]byte, 0, len(e.bits))
	for len(got) < len(e.bits) {
		k := s.chunk(len(e.bits) - len(got))
		pos := e.pos + len(got)
		switch {
		case k == 1:
			b, err := r.ReadBit()
			if err != nil {
				return 0, false, err
			}
			x := byte(0)
			if b {
				x = 1
			}
			got = append(got, x)
		case pos%8 == 0 && k >= 8 && k&1 == 0:
			b := make([]byte, k/8)
			if _, err := io.ReadFull(r, b); err != nil {
				return 0, false, err
			}
			for _, x := range b {
				for j := 7; j >= 0; j-- {
					got = append(got, x>>uint(j)&1)
				}
			}
		default:
			b, err := r.ReadBits(uint(k))
			if err != nil {
				return 0, false, err
			}
			if len(b) != (k+7)/8 {
				s.wrong("reading %d bits returned %d bytes", k, len(b))
				return 0, false, errHook
			}
			for j := 0; j < len(b)*8; j++ {
				x := b[j/8] >> uint(7-j%8) & 1
				if j < len(b)*8-k {
					if x != 0 {
						s.wrong("reading %d bits returned %x", k, b)
					}
					continue
				}
				got = append(got, x)
			}
		}
	}
	if !bytes.Equal(got, e.bits) && !s.cut {
		s.wrong("hook of %s.%s at bit %d read %v, want %v", owner, name, e.pos, got, e.bits)
	}
	return uint64(len(got)), e.act == hkOverride, nil
}

func (s *hkScript) write(owner, name string, w bitio.Writer, ctx mp4.Context) (uint64, bool, error) {
	e := s.take(owner, name, ctx)
	if e == nil {
		return 0, false, errHook
	}
	switch e.act {
	case hkError:
		return 0, false, s.fail
	case hkMisalign:
		if e.pos%8 != 0 {
			if n, err := w.Write([]byte{1, 2, 3}); n != 0 || err != bitio.ErrInvalidAlignment {
				s.wrong("writing bytes at bit %d: %d, %v", e.pos, n, err)
			}
		}
	}
	for i := 0; i < len(e.bits); {
		k := s.chunk(len(e.bits) - i)
		pos := e.pos + i
		b := packBits(e.bits[i : i+k])
		switch {
		case k == 1:
			if err := w.WriteBit(e.bits[i] == 1); err != nil {
				return 0, false, err
			}
		case pos%8 == 0 && k >= 8 && k&1 == 0:
			k = k / 8 * 8
			b = packBits(e.bits[i : i+k])
			if n, err := w.Write(b); n != len(b) || err != nil {
				return 0, false, fmt.Errorf("write: %d, %v", n, err)
			}
		default:
			// what lies before the given bits does not matter
			if k%8 != 0 {
				b[0] |= byte(0xff) << uint(k%8) & byte(0x55*(s.ci%4))
			}
			for j := s.ci % 3; j > 0; j-- {
				b = append([]byte{byte(0xa5 * j)}, b...)
			}
			if err := w.WriteBits(b, uint(k)); err != nil {
				return 0, false, err
			}
		}
		i += k
	}
	return uint64(len(e.bits)), e.act == hkOverride, nil
}

// packBits puts bits right-aligned into bytes.
func packBits(bits []byte) []byte {
	n := (len(bits) + 7) / 8
	b := make([]byte, n)
	off := n*8 - len(bits)
	for i, x := range bits {
		b[(off+i)/8] |= x << uint(7-(off+i)%8)
	}
	return b
}

func (s *hkScript) str(owner, name, indent string) (string, bool) {
	s.shown = append(s.shown, owner+"."+name)
	if indent != s.indent {
		s.wrong("StringifyField of %s got indent %q", name, indent)
	}
	t, ok := s.texts[owner+"."+name]
	return t, ok
}

func init() {
	for _, t := range hkTypes {
		b := reflect.New(t.t).Interface().(mp4.IBox)
		if t.full {
			mp4.AddBoxDef(b, 0, 1, 2)
		} else {
			mp4.AddBoxDef(b)
		}
	}
	register(&Prop{
		ID: "C22", Level: "exploration",
		Rule: "hooks: at least one hook acts or fails; bit access: at least one access begins or ends within a byte",
		Assumptions: []string{
			"hooks report exactly the bits they read or write and leave the reader behind them",
			"hooks leave the bits of a structure confined to a size as many as they were",
			"WriteBits is given at least as many bits as it is asked to write",
		},
		Subs: []Sub{
			{Name: "decode", N: 200000, F: func(c *Case) { c22Hooks(c, 'r') }},
			{Name: "encode", N: 200000, F: func(c *Case) { c22Hooks(c, 'w') }},
			{Name: "text", N: 50000, F: c22Text},
			{Name: "before", N: 40000, F: c22Before},
			{Name: "short", N: 100000, F: c22Short},
			{Name: "pstring", N: 100000, F: c22PString},
			{Name: "bitreader", N: 150000, F: c22Reader},
			{Name: "bitwriter", N: 150000, F: c22Writer},
		},
	})
}

// hkBuild walks the fields, drawing values and hook actions.
type hkBuild struct {
	c    *Case
	s    *hkScript
	bits []byte
	ver  uint64
	flag bool
	busy bool // some hook acts
	mis  bool // does not end on a byte
	mode byte
}

func (h *hkBuild) put(v uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		h.bits = append(h.bits, byte(v>>uint(i)&1))
	}
}

func (h *hkBuild) rnd(n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 64 {
		u := h.c.U64()
		for j := i; j < n && j < i+64; j++ {
			b[j] = byte(u & 1)
			u >>= 1
		}
	}
	return b
}

// width of a field whose hook may stand in for it in a confined structure
func (h *hkBuild) field(owner string, f *hkF, dst reflect.Value, scope int, depth int) {
	c := h.c
	if f.opt && !h.s.opts[f.name] || f.ver == 1 && h.ver != 1 || f.flag && !h.flag {
		return
	}
	e := &hkEvent{owner: owner, name: f.name, pos: len(h.bits), scope: scope}
	h.s.events = append(h.s.events, e)
	act := hkNone
	if c.Chance(3) {
		act = c.Int(hkPrefix, hkMisalign)
	}
	if f.kind == 'F' && h.mode == 'r' && act == hkOverride {
		act = hkNone // the version would be missing
	}
	if scope >= 0 && act == hkPrefix {
		act = hkMisalign
	}
	last := f.kind == 'R' || f.kind == 't'
	if last {
		// reaches to the end: on a byte boundary
		k := (8 - len(h.bits)%8) % 8
		if k > 0 && !c.Chance(12) {
			act = hkPrefix
			e.bits = h.rnd(k)
			if c.Bool() {
				e.bits = h.rnd(k + 8*c.Pick(4))
			}
		} else if k > 0 {
			if f.kind == 'R' {
				h.mis = true
			}
			if act == hkPrefix || act == hkOverride {
				act = hkNone
			}
		} else if act == hkPrefix {
			e.bits = h.rnd(8 * c.Int(1, 3))
		}
	}
	if act == hkPrefix && e.bits == nil {
		e.bits = h.rnd(c.Int(1, 40))
	}
	if act == hkOverride {
		n := c.Int(0, 50)
		if scope >= 0 {
			n = f.bits
		}
		if last {
			n = 8 * c.Pick(5)
		}
		e.bits = h.rnd(n)
	}
	e.act = act
	h.bits = append(h.bits, e.bits...)
	if act != hkNone {
		h.busy = true
		c.Class(hkActNames[act])
	}
	v := dst.FieldByName(f.name)
	if act == hkOverride {
		if f.kind == 'F' {
			v.Field(1).SetUint(h.ver)
			if h.flag {
				v.Field(2).Index(2).SetUint(1)
			}
		}
		return
	}
	width := f.bits
	if width == -1 {
		width = h.s.sizes[f.name]
	}
	switch f.kind {
	case 'F':
		h.put(h.ver, 8)
		fl := uint64(0)
		if h.flag {
			fl = 1
		}
		fl |= c.UBits(24) &^ 1
		h.put(fl, 24)
		v.Field(1).SetUint(h.ver)
		reflect.Copy(v.Field(2), reflect.ValueOf([]byte{byte(fl >> 16), byte(fl >> 8), byte(fl)}))
	case 'u':
		x := c.UBits(width)
		h.put(x, width)
		v.SetUint(x)
	case 'i':
		x := c.IBits(width)
		h.put(uint64(x), width)
		v.SetInt(x)
	case 'b':
		x := c.Bool()
		if x {
			h.put(1, 1)
		} else {
			h.put(0, 1)
		}
		v.SetBool(x)
	case 's', 't':
		t := noNul(c.Bytes(c.Pick(6)))
		for _, x := range t {
			h.put(uint64(x), 8)
		}
		if f.kind == 's' {
			h.put(0, 8)
		}
		v.SetString(string(t))
	case 'B', 'R':
		n := h.s.lens[f.name]
		if f.kind == 'R' {
			n = c.Pick(9)
		}
		t := c.Bytes(n)
		for _, x := range t {
			h.put(uint64(x), 8)
		}
		v.SetBytes(t)
	case 'A':
		for i := 0; i < f.n; i++ {
			x := c.UBits(width)
			h.put(x, width)
			v.Index(i).SetUint(x)
		}
	case 'N':
		n := h.s.lens[f.name]
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			x := c.UBits(width)
			h.put(x, width)
			v.Index(i).SetUint(x)
		}
	case 'S':
		sc := scope
		if f.size > 0 {
			sc = len(h.bits) + f.size
		}
		for _, s := range f.sub {
			h.field(f.owner, s, v, sc, depth+1)
		}
	case 'P':
		v.Set(reflect.New(v.Type().Elem()))
		for _, s := range f.sub {
			h.field(f.owner, s, v.Elem(), scope, depth+1)
		}
	case 'L':
		n := h.s.lens[f.name]
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			for _, s := range f.sub {
				h.field(f.owner, s, v.Index(i), scope, depth+1)
			}
		}
	}
}

func hkDraw(c *Case, mode byte) (*hkType, *hkBuild, mp4.IBox) {
	t := hkTypes[c.Pick(len(hkTypes))]
	s := &hkScript{c: c, lens: map[string]int{}, sizes: map[string]int{}, opts: map[string]bool{}, texts: map[string]string{}}
	s.ctx = newGen(c).anyContext()
	for _, f := range t.f {
		switch {
		case f.kind == 'B' || f.kind == 'L' || f.kind == 'N':
			s.lens[f.name] = c.Pick(5)
		}
		if f.bits == -1 {
			max := map[string]int{"hkOneG": 64, "hkTwoE": 32, "hkThreeE": 16}[t.name+f.name]
			s.sizes[f.name] = c.Int(1, max)
		}
		if f.opt {
			s.opts[f.name] = c.Bool()
		}
	}
	for i := 0; i < 5; i++ {
		s.chunks = append(s.chunks, []int{1, 2, 3, 7, 8, 9, 13, 16, 24, 32}[c.Pick(10)])
	}
	s.fail = fmt.Errorf("hook error %d", c.Pick(1000))
	h := &hkBuild{c: c, s: s, ver: uint64(c.Pick(3)), flag: c.Bool(), mode: mode}
	b := reflect.New(t.t)
	for _, f := range t.f {
		h.field("box", f, b.Elem(), -1, 0)
	}
	// a structure without an open end seldom ends on a byte: mostly let the
	// first hook take what is missing
	if k := len(h.bits) % 8; k != 0 && !h.mis {
		e := h.s.events[0]
		if (e.act == hkNone || e.act == hkPrefix) && !c.Chance(8) {
			n := 8 - k
			if e.act == hkNone {
				e.act = hkPrefix
				h.busy = true
			}
			extra := h.rnd(n)
			at := e.pos + len(e.bits)
			e.bits = append(append([]byte{}, e.bits...), extra...)
			h.bits = append(append(append([]byte{}, h.bits[:at]...), extra...), h.bits[at:]...)
			for _, x := range h.s.events[1:] {
				x.pos += n
				if x.scope >= 0 {
					x.scope += n
				}
			}
		} else {
			h.mis = true
		}
	}
	return t, h, b.Interface().(mp4.IBox)
}

func (h *hkBuild) note(t *hkType, b mp4.IBox) {
	h.c.Note("type", t.name)
	h.c.Note("box", b)
	h.c.Note("payload", h.payload())
	h.c.Note("hooks", func() string {
		var o []string
		for _, e := range h.s.events {
			o = append(o, fmt.Sprintf("%s.%s at bit %d: %s %v", e.owner, e.name, e.pos, hkActNames[e.act], e.bits))
		}
		return strings.Join(o, "\n")
	})
	h.c.Note("lengths, sizes, optional fields", fmt.Sprint(h.s.lens, h.s.sizes, h.s.opts))
}

// payload is the bits, filled up to whole bytes.
func (h *hkBuild) payload() []byte {
	bits := h.bits
	for len(bits)%8 != 0 {
		bits = append(bits[:len(bits):len(bits)], 0)
	}
	return packBits(bits)
}

func c22Hooks(c *Case, mode byte) {
	t, h, b := hkDraw(c, mode)
	s := h.s
	pay := h.payload()
	h.note(t, b)
	s.total = len(pay) * 8
	failAt := -1
	if c.Chance(5) {
		failAt = c.Pick(len(s.events))
		s.events[failAt].act = hkError
		if s.events[failAt].owner == "sub" {
			c.Class("error in a nested structure")
		}
		c.Note("fails at", fmt.Sprintf("%s.%s", s.events[failAt].owner, s.events[failAt].name))
		c.Class("error")
	}
	c.ClassIf(h.mis, "not whole bytes")
	if h.busy || failAt >= 0 {
		c.NonTrivial(t.code, pay, failAt)
	}
	hkCur = s
	if mode == 'w' {
		before := reflect.New(t.t)
		before.Elem().Set(reflect.ValueOf(b).Elem())
		// an overridden field is not written, whatever it holds
		var o bytes.Buffer
		n, err := mp4.Marshal(&o, b, s.ctx)
		if s.bad != "" {
			c.Failf("%s: %s", t.name, s.bad)
		}
		switch {
		case failAt >= 0:
			if err != s.fail || n != 0 {
				c.Failf("%s: the hook failed with %v, Marshal returned %d, %v", t.name, s.fail, n, err)
			}
			if s.next != failAt+1 {
				c.Failf("%s: hooks were called after one failed", t.name)
			}
			k := s.events[failAt].pos / 8
			if o.Len() != k || !bytes.Equal(o.Bytes(), pay[:k]) {
				c.Failf("%s: after the failure at bit %d the output is %x", t.name, s.events[failAt].pos, o.Bytes())
			}
			return
		case len(h.bits)%8 != 0:
			if err == nil {
				c.Failf("%s: %d bits were encoded as %d bytes", t.name, len(h.bits), n)
			}
			return
		}
		if err != nil || int(n) != len(pay) || !bytes.Equal(o.Bytes(), pay) {
			c.Failf("%s: Marshal = %d, %v\n%x, want\n%x", t.name, n, err, o.Bytes(), pay)
		}
		if s.next != len(s.events) {
			c.Failf("%s: only %d of %d hook calls were made", t.name, s.next, len(s.events))
		}
		return
	}
	s.base = int64(c.Pick(4))
	file := append(append(c.Bytes(int(s.base)), pay...), c.Bytes(c.Pick(20))...)
	r := bytes.NewReader(file)
	r.Seek(s.base, io.SeekStart)
	got := reflect.New(t.t).Interface().(mp4.IBox)
	n, err := mp4.Unmarshal(r, uint64(len(pay)), got, s.ctx)
	if s.bad != "" {
		c.Failf("%s: %s", t.name, s.bad)
	}
	if s.beforeCnt != 1 {
		c.Failf("%s: BeforeUnmarshal was called %d times", t.name, s.beforeCnt)
	}
	switch {
	case failAt >= 0:
		if err != s.fail || n != 0 {
			c.Failf("%s: the hook failed with %v, Unmarshal returned %d, %v", t.name, s.fail, n, err)
		}
		if s.next != failAt+1 {
			c.Failf("%s: hooks were called after one failed", t.name)
		}
		return
	case len(h.bits)%8 != 0:
		if err == nil {
			c.Failf("%s: decoding %d bits succeeded: %d", t.name, len(h.bits), n)
		}
		return
	}
	if err != nil || int(n) != len(pay) {
		c.Failf("%s: Unmarshal = %d, %v, want %d", t.name, n, err, len(pay))
	}
	if p, _ := r.Seek(0, io.SeekCurrent); p != s.base+int64(len(pay)) {
		c.Failf("%s: the reader stands at %d after the payload, not %d", t.name, p, s.base+int64(len(pay)))
	}
	if s.next != len(s.events) {
		c.Failf("%s: only %d of %d hook calls were made", t.name, s.next, len(s.events))
	}
	if d := diffBoxes(got, b); d != "" {
		c.Failf("%s: decoded box differs: %s", t.name, d)
	}
}

// c22Text: the text hook replaces a field's value and nothing else.
func c22Text(c *Case) {
	t, h, b := hkDraw(c, 'w')
	s := h.s
	h.note(t, b)
	some := false
	var want []string
	var shown []string
	seen := map[string]bool{}
	var render func(owner string, fs []*hkF, v reflect.Value, depth int, ext bool) string
	render = func(owner string, fs []*hkF, v reflect.Value, depth int, ext bool) string {
		var o []string
		for _, f := range fs {
			if f.opt && !s.opts[f.name] || f.ver == 1 && h.ver != 1 || f.flag && !h.flag {
				continue
			}
			if f.kind == 'F' {
				shown = append(shown, owner+"."+f.name)
				fl := b.GetFlags()
				o = append(o, fmt.Sprintf("Version=%d Flags=0x%06x", b.GetVersion(), fl))
				continue
			}
			shown = append(shown, owner+"."+f.name)
			key := owner + "." + f.name
			if !f.ext && !seen[key] && c.Chance(3) {
				s.texts[key] = fmt.Sprintf("<%s>", string(rune('a'+c.Pick(26))))
				if c.Chance(4) {
					s.texts[key] = ""
				}
				some = true
			}
			seen[key] = true
			if x, ok := s.texts[key]; ok {
				o = append(o, f.name+"="+x)
				continue
			}
			fv := v.FieldByName(f.name)
			var x string
			num := func(v reflect.Value) string {
				switch {
				case f.kind == 'b':
					return fmt.Sprint(v.Bool())
				case f.kind == 'i':
					return fmt.Sprint(v.Int())
				case f.hex:
					return fmt.Sprintf("0x%x", v.Uint())
				}
				return fmt.Sprint(v.Uint())
			}
			switch f.kind {
			case 'u', 'i', 'b':
				x = num(fv)
			case 's', 't':
				x = quote(fv.String())
			case 'B', 'R':
				var l []string
				for _, y := range fv.Bytes() {
					l = append(l, fmt.Sprintf("0x%x", y))
				}
				x = "[" + strings.Join(l, ", ") + "]"
			case 'A', 'N':
				var l []string
				for i := 0; i < fv.Len(); i++ {
					l = append(l, num(fv.Index(i)))
				}
				x = "[" + strings.Join(l, ", ") + "]"
			case 'S':
				x = render(f.owner, f.sub, fv, depth+1, f.ext)
			case 'P':
				x = render(f.owner, f.sub, fv.Elem(), depth+1, false)
			case 'L':
				var l []string
				for i := 0; i < fv.Len(); i++ {
					l = append(l, render(f.owner, f.sub, fv.Index(i), depth+1, false))
				}
				x = "[" + strings.Join(l, ", ") + "]"
			}
			if f.ext {
				o = append(o, x)
			} else {
				o = append(o, f.name+"="+x)
			}
		}
		x := strings.Join(o, " ")
		if !ext {
			x = "{" + x + "}"
		}
		return x
	}
	// pointers and lists that a hook stood in for are empty in the box; give
	// them what the declared lengths say
	bv := reflect.ValueOf(b).Elem()
	if t.full {
		if bv.FieldByName("Version").Uint() != h.ver || (b.GetFlags()&1 != 0) != h.flag {
			b.SetVersion(uint8(h.ver))
			b.SetFlags(0)
			if h.flag {
				b.SetFlags(1)
			}
		}
	}
	for _, f := range t.f {
		v := bv.FieldByName(f.name)
		switch {
		case f.kind == 'P' && v.IsNil():
			v.Set(reflect.New(v.Type().Elem()))
		case (f.kind == 'L' || f.kind == 'N' || f.kind == 'B') && v.Len() != s.lens[f.name]:
			v.Set(reflect.MakeSlice(v.Type(), s.lens[f.name], s.lens[f.name]))
		}
	}
	want = []string{render("box", t.f, bv, 0, true)}
	if some {
		c.NonTrivial(t.code, want[0])
	}
	hkCur = s
	got, err := mp4.Stringify(b, s.ctx)
	if s.bad != "" {
		c.Failf("%s: %s", t.name, s.bad)
	}
	if err != nil || got != want[0] {
		c.Failf("%s: text %q, %v, want %q", t.name, got, err, want[0])
	}
	if !reflect.DeepEqual(s.shown, shown) {
		c.Failf("%s: text hooks called for %v, want %v", t.name, s.shown, shown)
	}
	// the indented form asks for the same fields, and shows the same
	s.shown, s.indent = nil, []string{" ", "\t", "--"}[c.Pick(3)]
	ind, err := mp4.StringifyWithIndent(b, s.indent, s.ctx)
	if s.bad != "" {
		c.Failf("%s: %s", t.name, s.bad)
	}
	if err != nil || !reflect.DeepEqual(s.shown, shown) {
		c.Failf("%s: indented text: %v, hooks called for %v, want %v", t.name, err, s.shown, shown)
	}
	strip := func(x string) string {
		return strings.NewReplacer(" ", "", "\n", "", "\t", "", "-", "").Replace(x)
	}
	if strip(ind) != strip(want[0]) {
		c.Failf("%s: indented text %q shows other than %q", t.name, ind, want[0])
	}
	c.More(1)
}

// c22Before: the hook before decoding.
func c22Before(c *Case) {
	t, h, b := hkDraw(c, 'r')
	s := h.s
	pay := h.payload()
	h.note(t, b)
	s.beforeAct = c.Int(1, 4)
	s.beforeN = c.Pick(6)
	c.Note("before", fmt.Sprint(s.beforeAct, s.beforeN))
	c.NonTrivial(t.code, pay, s.beforeAct, s.beforeN)
	lead := c.Bytes(s.beforeN)
	if s.beforeAct > 2 {
		lead = nil
	}
	for _, e := range s.events {
		e.pos += len(lead) * 8
		if e.scope >= 0 {
			e.scope += len(lead) * 8
		}
	}
	pay = append(append([]byte{}, lead...), pay...)
	s.total = len(pay) * 8
	s.base = int64(c.Pick(4))
	file := append(append(c.Bytes(int(s.base)), pay...), c.Bytes(8+c.Pick(20))...)
	r := bytes.NewReader(file)
	r.Seek(s.base, io.SeekStart)
	got := reflect.New(t.t).Interface().(mp4.IBox)
	hkCur = s
	n, err := mp4.Unmarshal(r, uint64(len(pay)), got, s.ctx)
	if s.bad != "" {
		c.Failf("%s: %s", t.name, s.bad)
	}
	if s.beforeCnt != 1 {
		c.Failf("%s: BeforeUnmarshal was called %d times", t.name, s.beforeCnt)
	}
	p, _ := r.Seek(0, io.SeekCurrent)
	switch s.beforeAct {
	case 2:
		c.Class("takes the payload")
		if n != uint64(s.beforeN) || err != nil || s.next != 0 || p != s.base+int64(n) {
			c.Failf("%s: the payload was taken by the hook (%d bytes), but Unmarshal = %d, %v, %d field hooks called, position %d", t.name, s.beforeN, n, err, s.next, p)
		}
		return
	case 3:
		c.Class("fails")
		if n != 0 || err != s.fail || s.next != 0 {
			c.Failf("%s: the hook failed, but Unmarshal = %d, %v, %d field hooks called", t.name, n, err, s.next)
		}
		return
	case 1:
		c.Class("takes bytes")
		if !bytes.Equal(s.beforeGot, lead) {
			c.Failf("%s: the hook read %x, want %x", t.name, s.beforeGot, lead)
		}
	}
	if len(h.bits)%8 != 0 {
		if err == nil {
			c.Failf("%s: decoding %d bits succeeded", t.name, len(h.bits))
		}
		return
	}
	if err != nil || int(n) != len(pay) || p != s.base+int64(n) || s.next != len(s.events) {
		c.Failf("%s: Unmarshal = %d, %v, position %d, %d of %d hooks, want %d", t.name, n, err, p, s.next, len(s.events), len(pay))
	}
	if d := diffBoxes(got, b); d != "" {
		c.Failf("%s: decoded box differs: %s", t.name, d)
	}
}

// c22Short: a payload that ends early, with more bytes behind it. Hooks are
// never told of more bits than are left, and overrunning is an error.
func c22Short(c *Case) {
	t, h, b := hkDraw(c, 'r')
	s := h.s
	pay := h.payload()
	if len(pay) == 0 || len(h.bits)%8 != 0 {
		return
	}
	h.note(t, b)
	k := c.Pick(len(pay))
	s.cut = true
	s.total = k * 8
	// nothing but an open end can be shortened
	end := len(h.bits)
	open := false
	if l := t.f[len(t.f)-1]; l.kind == 'R' || l.kind == 't' {
		e := s.events[len(s.events)-1]
		if e.act != hkOverride {
			open = true
			end = e.pos + len(e.bits)
		}
	}
	// a text that lacks its end stops where the payload does: what follows
	// may then fit
	mayFit := false
	for i, e := range s.events {
		if (t.name == "hkOne" && e.name == "D" || t.name == "hkTwo" && e.name == "G") && e.owner == "box" && e.act != hkOverride {
			mayFit = k*8 >= e.pos+len(e.bits) && i+1 < len(s.events) && k*8 < s.events[i+1].pos
		}
	}
	c.Note("size", k)
	c.NonTrivial(t.code, pay, k)
	r := bytes.NewReader(append(append([]byte{}, pay...), c.Bytes(c.Pick(12))...))
	got := reflect.New(t.t).Interface().(mp4.IBox)
	hkCur = s
	n, err := mp4.Unmarshal(r, uint64(k), got, s.ctx)
	if s.bad != "" {
		c.Failf("%s: %s", t.name, s.bad)
	}
	if open && k*8 >= end {
		c.Class("open end shortened")
		if err != nil || int(n) != k {
			c.Failf("%s: Unmarshal of %d bytes = %d, %v", t.name, k, n, err)
		}
		return
	}
	if err == nil && int(n) > k {
		c.Failf("%s: Unmarshal of %d bytes = %d", t.name, k, n)
	}
	// all fields before an open end are needed
	if err == nil && mayFit {
		c.Class("text ends with the payload")
		return
	}
	if err == nil {
		c.Failf("%s: %d bytes of %d were decoded without error: n=%d", t.name, k, len(pay), n)
	}
	c.Class("refused")
}

// c22Reader: bit-level reading against a bit string.
func c22Reader(c *Case) {
	data := c.Bytes(c.Int(0, 24))
	if c.Chance(10) {
		data = c.Bytes(c.Int(60, 200))
	}
	wide := c.Chance(40)
	if wide {
		data = c.Bytes(c.Int(300, 9000))
	}
	var bits []byte
	for _, x := range data {
		for j := 7; j >= 0; j-- {
			bits = append(bits, x>>uint(j)&1)
		}
	}
	c.Note("data", data)
	seekable := c.Bool()
	src := bytes.NewReader(data)
	var r bitio.Reader
	var rs bitio.ReadSeeker
	if seekable {
		rs = bitio.NewReadSeeker(src)
		r = rs
	} else {
		r = bitio.NewReader(src)
	}
	var log []string
	c.Note("calls", func() string { return strings.Join(log, "\n") })
	pos := 0 // bits
	end := len(bits)
	part := false
	for steps := c.Int(1, 16); steps > 0; steps-- {
		part = part || pos%8 != 0
		switch op := c.Pick(8); {
		case op < 3: // bits
			w := []int{c.Int(0, 9), c.Int(0, 24), c.Int(0, 70), 8 * c.Pick(5), 8 - pos%8}[c.Pick(5)]
			if wide && c.Bool() {
				w = c.Pick((end-pos)+9) >> uint(c.Pick(6))
			}
			log = append(log, fmt.Sprintf("ReadBits(%d) at bit %d", w, pos))
			got, err := r.ReadBits(uint(w))
			if pos+w > end {
				if err == nil {
					c.Failf("ReadBits(%d) at bit %d of %d returned %x", w, pos, end, got)
				}
				c.Class("past the end")
				pos = end
				break
			}
			if want := packBits(bits[pos : pos+w]); err != nil || !bytes.Equal(got, want) {
				c.Failf("ReadBits(%d) at bit %d = %x, %v, want %x", w, pos, got, err, want)
			}
			if binary.Size(got) != (w+7)/8 {
				c.Failf("ReadBits(%d) returned %d bytes", w, len(got))
			}
			pos += w
		case op == 3: // one bit
			log = append(log, fmt.Sprintf("ReadBit() at bit %d", pos))
			got, err := r.ReadBit()
			if pos == end {
				if err == nil {
					c.Failf("ReadBit at the end returned %v", got)
				}
				break
			}
			if err != nil || got != (bits[pos] == 1) {
				c.Failf("ReadBit at bit %d = %v, %v, want %d", pos, got, err, bits[pos])
			}
			pos++
		case op < 6 || !seekable: // bytes
			b := make([]byte, c.Pick(6))
			if wide && c.Bool() {
				b = make([]byte, c.Pick(len(data)+9)>>uint(c.Pick(6)))
			}
			log = append(log, fmt.Sprintf("Read(%d bytes) at bit %d", len(b), pos))
			n, err := r.Read(b)
			if pos%8 != 0 {
				c.Class("bytes refused")
				if n != 0 || err != bitio.ErrInvalidAlignment || !bytes.Equal(b, make([]byte, len(b))) {
					c.Failf("Read(%d bytes) at bit %d = %d, %v", len(b), pos, n, err)
				}
				break
			}
			want := len(b)
			if want > len(data)-pos/8 {
				want = len(data) - pos/8
			}
			if n != want || !bytes.Equal(b[:n], data[pos/8:pos/8+n]) || err != nil && !(err == io.EOF && pos == end) || want == 0 && len(b) > 0 && err == nil {
				c.Failf("Read(%d bytes) at bit %d = %d, %v, %x", len(b), pos, n, err, b)
			}
			pos += n * 8
		default:
			whence := c.Pick(3)
			off := int64(c.Pick(len(data)+1)) - []int64{0, int64(pos / 8), int64(len(data))}[whence]
			if c.Chance(8) {
				off = -int64(len(data)) - 5
			}
			log = append(log, fmt.Sprintf("Seek(%d, %d) at bit %d", off, whence, pos))
			p, err := rs.Seek(off, whence)
			if whence == io.SeekCurrent && pos%8 != 0 {
				c.Class("relative seek refused")
				if err != bitio.ErrInvalidAlignment {
					c.Failf("Seek(%d, current) at bit %d = %d, %v", off, pos, p, err)
				}
				break
			}
			to := off + []int64{0, int64(pos / 8), int64(len(data))}[whence]
			if to < 0 {
				if err == nil {
					c.Failf("Seek(%d, %d) at bit %d succeeded: %d", off, whence, pos, p)
				}
				break
			}
			if err != nil || p != to {
				c.Failf("Seek(%d, %d) at bit %d = %d, %v, want %d", off, whence, pos, p, err, to)
			}
			c.ClassIf(pos%8 != 0, "partial bits discarded")
			pos = int(to) * 8
			if pos > end {
				end = pos // not generated
			}
		}
		c.More(1)
	}
	if part {
		c.NonTrivial(data, strings.Join(log, ";"))
	}
}

// c22Writer: bit-level writing against a bit string.
func c22Writer(c *Case) {
	var o bytes.Buffer
	w := bitio.NewWriter(&o)
	var bits []byte
	var log []string
	c.Note("calls", func() string { return strings.Join(log, "\n") })
	part := false
	wide := c.Chance(40)
	for steps := c.Int(1, 16); steps > 0; steps-- {
		part = part || len(bits)%8 != 0
		switch c.Pick(4) {
		case 0, 1:
			b := c.Bytes(c.Pick(9))
			if wide && c.Bool() {
				b = c.Bytes(c.Pick(1200))
			}
			k := c.Pick(len(b)*8 + 1)
			if c.Chance(3) {
				k = len(b) * 8
			}
			log = append(log, fmt.Sprintf("WriteBits(%x, %d) at bit %d", b, k, len(bits)))
			keep := append([]byte{}, b...)
			if err := w.WriteBits(b, uint(k)); err != nil {
				c.Failf("WriteBits(%x, %d): %v", b, k, err)
			}
			if !bytes.Equal(b, keep) {
				c.Failf("WriteBits changed its argument: %x, was %x", b, keep)
			}
			for j := len(b)*8 - k; j < len(b)*8; j++ {
				bits = append(bits, b[j/8]>>uint(7-j%8)&1)
			}
		case 2:
			x := c.Bool()
			log = append(log, fmt.Sprintf("WriteBit(%v) at bit %d", x, len(bits)))
			if err := w.WriteBit(x); err != nil {
				c.Failf("WriteBit: %v", err)
			}
			if x {
				bits = append(bits, 1)
			} else {
				bits = append(bits, 0)
			}
		default:
			b := c.Bytes(c.Pick(6))
			if wide && c.Bool() {
				b = c.Bytes(c.Pick(9000))
			}
			log = append(log, fmt.Sprintf("Write(%x) at bit %d", b, len(bits)))
			n, err := w.Write(b)
			if len(bits)%8 != 0 {
				c.Class("bytes refused")
				if n != 0 || err != bitio.ErrInvalidAlignment {
					c.Failf("Write(%x) at bit %d = %d, %v", b, len(bits), n, err)
				}
				break
			}
			if n != len(b) || err != nil {
				c.Failf("Write(%x) at bit %d = %d, %v", b, len(bits), n, err)
			}
			for _, x := range b {
				for j := 7; j >= 0; j-- {
					bits = append(bits, x>>uint(j)&1)
				}
			}
		}
		if want := packBits(bits[:len(bits)/8*8]); !bytes.Equal(o.Bytes(), want) {
			c.Failf("after %s the output is %x, want %x", log[len(log)-1], o.Bytes(), want)
		}
		c.More(1)
	}
	if part {
		c.NonTrivial(strings.Join(log, ";"))
	}
}

// hkPS has texts that may be in the length-prefixed form of QuickTime.
type hkPS struct {
	mp4.FullBox `mp4:"0,extend"`
	A           uint16 `mp4:"1,size=16"`
	N           string `mp4:"2,string=c_p"`
	K           hkPSub `mp4:"3"`
	R           []byte `mp4:"4,size=8"`
}

type hkPSub struct {
	mp4.BaseCustomFieldObject
	S string `mp4:"0,string=c_p"`
	B uint8  `mp4:"1,size=8"`
}

var hkPOnce sync.Once // the registration prints a warning

type hkPCall struct {
	name string
	b    []byte
	rest uint64
	yes  bool
}

type hkPState struct {
	c    *Case
	want []hkPCall
	next int
	bad  string
	ctx  mp4.Context
}

var hkPCur *hkPState

func (s *hkPState) call(name string, b []byte, rest uint64, ctx mp4.Context) bool {
	if s.bad != "" {
		return false
	}
	if s.next >= len(s.want) {
		s.bad = fmt.Sprintf("IsPString(%s, %x, %d) called too often", name, b, rest)
		return false
	}
	e := s.want[s.next]
	s.next++
	if e.name != name || !bytes.Equal(e.b, b) || e.rest != rest || ctx != s.ctx {
		s.bad = fmt.Sprintf("IsPString(%s, %x, %d, %v) called, want (%s, %x, %d)", name, b, rest, ctx, e.name, e.b, e.rest)
	}
	return e.yes
}

func (*hkPS) GetType() mp4.BoxType { return bt("hkps") }
func (*hkPS) IsPString(name string, b []byte, rest uint64, ctx mp4.Context) bool {
	return hkPCur.call(name, b, rest, ctx)
}
func (*hkPSub) IsPString(name string, b []byte, rest uint64, ctx mp4.Context) bool {
	return hkPCur.call("sub "+name, b, rest, ctx)
}

// c22PString: texts that start with their length, where the hook says so.
func c22PString(c *Case) {
	hkPOnce.Do(func() { mp4.AddBoxDef(&hkPS{}, 0) })
	var pay []byte
	drawText := func(last int) []byte {
		switch c.Pick(4) {
		case 0: // length and text
			t := c.Bytes(c.Pick(8))
			return append([]byte{byte(len(t))}, t...)
		case 1:
			return append(noNul(c.Bytes(c.Pick(12))), 0)
		case 2:
			return c.Bytes(c.Pick(5))
		default: // a length at the limit
			t := c.Bytes(c.Pick(20))
			return append([]byte{byte(len(t) + last - c.Pick(3))}, t...)
		}
	}
	pay = append(pay, 0, 0, 0, 0)
	pay = append(pay, c.Bytes(2)...)
	pay = append(pay, drawText(0)...)
	pay = append(pay, drawText(1)...)
	pay = append(pay, c.Bytes(c.Pick(6))...)
	if c.Chance(4) && len(pay) > 6 {
		pay = pay[:6+c.Pick(len(pay)-6)]
	}
	s := &hkPState{c: c, ctx: newGen(c).anyContext()}
	want := &hkPS{}
	want.A = uint16(pay[4])<<8 | uint16(pay[5])
	p := 6
	text := func(name string) string {
		if rest := len(pay) - p; rest >= 2 {
			if n := int(pay[p]); n <= rest-1 {
				e := hkPCall{name, pay[p+1 : p+1+n], uint64(rest - 1 - n), c.Bool()}
				s.want = append(s.want, e)
				if e.yes {
					p += 1 + n
					c.Class("with its length")
					return string(e.b)
				}
			}
		}
		b := p
		for p < len(pay) && pay[p] != 0 {
			p++
		}
		t := string(pay[b:p])
		if p < len(pay) {
			p++
		}
		return t
	}
	want.N = text("N")
	want.K.S = text("sub S")
	short := p >= len(pay)
	if !short {
		want.K.B = pay[p]
		want.R = pay[p+1:]
	}
	c.Note("payload", pay)
	c.Note("hook calls", fmt.Sprintf("%+v", s.want))
	if len(s.want) > 0 {
		c.NonTrivial(pay, fmt.Sprint(s.want))
	}
	c.ClassIf(short, "too short")
	base := c.Pick(4)
	file := append(append(c.Bytes(base), pay...), c.Bytes(c.Pick(2)*300)...)
	if short {
		file = file[:base+len(pay)]
	}
	r := bytes.NewReader(file)
	r.Seek(int64(base), io.SeekStart)
	hkPCur = s
	got := &hkPS{}
	n, err := mp4.Unmarshal(r, uint64(len(pay)), got, s.ctx)
	if s.bad != "" {
		c.Failf("%s", s.bad)
	}
	if short {
		if err == nil {
			c.Failf("a payload without the last byte was decoded: %+v", got)
		}
		return
	}
	if err != nil || int(n) != len(pay) {
		c.Failf("Unmarshal = %d, %v", n, err)
	}
	if s.next != len(s.want) {
		c.Failf("only %d of %d hook calls were made", s.next, len(s.want))
	}
	if pos, _ := r.Seek(0, io.SeekCurrent); pos != int64(base+len(pay)) {
		c.Failf("the reader stands at %d after the payload", pos-int64(base))
	}
	if d := diffBoxes(got, want); d != "" {
		c.Failf("decoded box differs: %s", d)
	}
}
