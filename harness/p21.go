package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"strings"
	"unicode/utf8"

	mp4 "github.com/abema/go-mp4"
)

// Payload structures registered by the searches of this file. Those with an
// AnyTypeBox take the type they are created for; the fixed ones report the
// type in their variable.

type rAny1 struct {
	mp4.AnyTypeBox
	A uint8 `mp4:"0,size=8"`
}

type rAny2 struct {
	mp4.AnyTypeBox
	B uint16 `mp4:"0,size=16,hex"`
}

type rAny3 struct {
	mp4.AnyTypeBox
	C []uint16 `mp4:"0,size=16"`
}

type rAnyFull struct {
	mp4.FullBox `mp4:"0,extend"`
	Type        mp4.BoxType
	D           uint32 `mp4:"1,size=32,ver=0"`
	E           uint64 `mp4:"2,size=64,nver=0"`
}

func (b *rAnyFull) GetType() mp4.BoxType  { return b.Type }
func (b *rAnyFull) SetType(t mp4.BoxType) { b.Type = t }

var rFixType [3]mp4.BoxType

type rFix0 struct {
	mp4.Box
	F uint8 `mp4:"0,size=8,dec"`
}

type rFix1 struct {
	mp4.FullBox `mp4:"0,extend"`
	G           uint8 `mp4:"1,size=8"`
}

type rFix2 struct {
	mp4.Box
	H string `mp4:"0,string"`
}

func (*rFix0) GetType() mp4.BoxType { return rFixType[0] }
func (*rFix1) GetType() mp4.BoxType { return rFixType[1] }
func (*rFix2) GetType() mp4.BoxType { return rFixType[2] }

// regForm is a payload structure with a generator of payloads.
type regForm struct {
	name  string
	typ   reflect.Type
	fixed int // index in rFixType, -1: any type
	full  bool
	pay   func(c *Case, ver int) ([]byte, mp4.IBox, string) // payload, box, text
}

var regForms = []*regForm{
	{"rAny1", reflect.TypeOf(rAny1{}), -1, false, func(c *Case, ver int) ([]byte, mp4.IBox, string) {
		x := uint8(c.UBits(8))
		return []byte{x}, &rAny1{A: x}, fmt.Sprintf("A=0x%x", x)
	}},
	{"rAny2", reflect.TypeOf(rAny2{}), -1, false, func(c *Case, ver int) ([]byte, mp4.IBox, string) {
		x := uint16(c.UBits(16))
		return []byte{byte(x >> 8), byte(x)}, &rAny2{B: x}, fmt.Sprintf("B=0x%x", x)
	}},
	{"rAny3", reflect.TypeOf(rAny3{}), -1, false, func(c *Case, ver int) ([]byte, mp4.IBox, string) {
		b := &rAny3{}
		var p []byte
		var t []string
		for n := c.Pick(4); n > 0; n-- {
			x := uint16(c.UBits(16))
			b.C = append(b.C, x)
			p = append(p, byte(x>>8), byte(x))
			t = append(t, fmt.Sprint(x))
		}
		return p, b, "C=[" + strings.Join(t, ", ") + "]"
	}},
	{"rAnyFull", reflect.TypeOf(rAnyFull{}), -1, true, func(c *Case, ver int) ([]byte, mp4.IBox, string) {
		b := &rAnyFull{}
		b.Version = uint8(ver)
		p := []byte{byte(ver), 0, 0, 0}
		if ver == 0 {
			b.D = uint32(c.UBits(32))
			return binary.BigEndian.AppendUint32(p, b.D), b, fmt.Sprintf("Version=0 Flags=0x000000 D=%d", b.D)
		}
		b.E = c.UBits(64)
		return binary.BigEndian.AppendUint64(p, b.E), b, fmt.Sprintf("Version=%d Flags=0x000000 E=%d", ver, b.E)
	}},
	{"rFix0", reflect.TypeOf(rFix0{}), 0, false, func(c *Case, ver int) ([]byte, mp4.IBox, string) {
		x := uint8(c.UBits(8))
		return []byte{x}, &rFix0{F: x}, fmt.Sprintf("F=%d", x)
	}},
	{"rFix1", reflect.TypeOf(rFix1{}), 1, true, func(c *Case, ver int) ([]byte, mp4.IBox, string) {
		b := &rFix1{G: uint8(c.UBits(8))}
		b.Version = uint8(ver)
		return []byte{byte(ver), 0, 0, 0, b.G}, b, fmt.Sprintf("Version=%d Flags=0x000000 G=0x%x", ver, b.G)
	}},
	{"rFix2", reflect.TypeOf(rFix2{}), 2, false, func(c *Case, ver int) ([]byte, mp4.IBox, string) {
		s := "t" + string(rune('a'+c.Pick(26)))
		return []byte(s + "\x00"), &rFix2{H: s}, fmt.Sprintf("H=%q", s)
	}},
}

// regDef is one registration in the model.
type regDef struct {
	form *regForm
	vers []uint8
	pred func(mp4.Context) bool
	desc string
}

func (d *regDef) supports(v uint8) bool {
	if len(d.vers) == 0 {
		return true
	}
	return bytes.IndexByte(d.vers, v) >= 0
}

var regCounter uint32 // type codes are used up; shared by the cases of a run

// regFresh makes a type code no case has used yet.
func regFresh(c *Case) mp4.BoxType {
	regCounter++
	n := regCounter
	switch c.Pick(5) {
	case 0: // a number, as metadata items have
		return mp4.BoxType{byte((n + 1000) >> 24), byte((n + 1000) >> 16), byte((n + 1000) >> 8), byte(n + 1000)}
	case 1: // beginning with the copyright sign
		return mp4.BoxType{0xa9, byte(0x80 + n>>14&0x7f), byte(0x80 + n>>7&0x7f), byte(0x80 + n&0x7f)}
	default:
		return mp4.BoxType{'Q', byte(0x80 + n>>14&0x7f), byte(0x80 + n>>7&0x7f), byte(0x80 + n&0x7f)}
	}
}

type regPred struct {
	name string
	f    func(mp4.Context) bool
}

func drawPred(c *Case, depth int) regPred {
	switch k := c.Pick(10); {
	case k == 0:
		return regPred{"true", func(mp4.Context) bool { return true }}
	case k == 1:
		return regPred{"false", func(mp4.Context) bool { return false }}
	case k == 2:
		n := c.Pick(3)
		return regPred{fmt.Sprintf("count>%d", n), func(x mp4.Context) bool { return x.QuickTimeKeysMetaEntryCount > n }}
	case k < 8 || depth > 2:
		names := []string{"qt", "wave", "ilst", "ilstMeta", "free", "udta"}
		i := c.Pick(len(names))
		return regPred{names[i], func(x mp4.Context) bool {
			return []bool{x.IsQuickTimeCompatible, x.UnderWave, x.UnderIlst, x.UnderIlstMeta, x.UnderIlstFreeMeta, x.UnderUdta}[i]
		}}
	case k == 8:
		a, b := drawPred(c, depth+1), drawPred(c, depth+1)
		if c.Bool() {
			return regPred{"(" + a.name + " or " + b.name + ")", func(x mp4.Context) bool { return a.f(x) || b.f(x) }}
		}
		return regPred{"(" + a.name + " and " + b.name + ")", func(x mp4.Context) bool { return a.f(x) && b.f(x) }}
	default:
		a := drawPred(c, depth+1)
		return regPred{"not " + a.name, func(x mp4.Context) bool { return !a.f(x) }}
	}
}

func drawVers(c *Case) []uint8 {
	switch c.Pick(6) {
	case 0, 1:
		return nil
	case 2:
		return []uint8{0}
	case 3:
		return []uint8{0, 1}
	case 4:
		return []uint8{uint8(c.Pick(255))}
	}
	return []uint8{3, 1, uint8(c.Pick(6))}
}

func init() {
	register(&Prop{
		ID: "C21", Level: "exploration",
		Rule: "histories: at least one registration precedes the query; built-in types: the type is registered in some context or is a changed code of one that is",
		Assumptions: []string{
			"the table of built-in structures, contexts and versions in spec_types.go is what the library documents",
			"a box is encoded and rendered in a context in which its own structure is the winning definition",
		},
		Subs: []Sub{
			{Name: "history", N: 60000, Thorough: 10, F: c21History},
			{Name: "builtin", N: 150000, F: c21Builtin},
			{Name: "shadow", N: 3000, Thorough: 5, F: c21Shadow},
			{Name: "codes", N: 150000, F: c21Codes},
			{Name: "names", N: 1000, F: c21Names},
		},
	})
}

// regLookup is the model: the latest accepting registration.
func regLookup(defs []*regDef, ctx mp4.Context) *regDef {
	for i := len(defs) - 1; i >= 0; i-- {
		if defs[i].pred == nil || defs[i].pred(ctx) {
			return defs[i]
		}
	}
	return nil
}

// c21History: registrations and queries in any order.
func c21History(c *Case) {
	defs := map[mp4.BoxType][]*regDef{}
	var codes []mp4.BoxType
	for n := c.Int(1, 3); n > 0; n-- {
		codes = append(codes, regFresh(c))
	}
	// each fixed structure belongs to one of the types of this case
	for i := range rFixType {
		rFixType[i] = codes[c.Pick(len(codes))]
	}
	g := newGen(c)
	var log []string
	c.Note("history", func() string { return strings.Join(log, "\n") })
	for steps := c.Int(1, 14); steps > 0; steps-- {
		if c.Chance(3) {
			form := regForms[c.Pick(len(regForms))]
			code := codes[c.Pick(len(codes))]
			d := &regDef{form: form, vers: drawVers(c), desc: form.name}
			pred := regPred{"always", nil}
			if c.Bool() {
				pred = drawPred(c, 0)
			}
			if form.fixed >= 0 {
				code = rFixType[form.fixed]
			}
			d.pred = pred.f
			d.desc = fmt.Sprintf("%s versions %v when %s", form.name, d.vers, pred.name)
			log = append(log, fmt.Sprintf("register %x as %s", code[:], d.desc))
			v := reflect.New(form.typ).Interface()
			given := append([]uint8(nil), d.vers...)
			if form.fixed < 0 && c.Bool() {
				a := v.(mp4.IAnyType)
				if d.pred == nil {
					mp4.AddAnyTypeBoxDef(a, code, given...)
				} else {
					mp4.AddAnyTypeBoxDefEx(a, code, d.pred, given...)
				}
			} else {
				if a, ok := v.(mp4.IAnyType); ok {
					a.SetType(code)
				}
				if d.pred == nil {
					mp4.AddBoxDef(v.(mp4.IBox), given...)
				} else {
					mp4.AddBoxDefEx(v.(mp4.IBox), d.pred, given...)
				}
			}
			defs[code] = append(defs[code], d)
			continue
		}
		code := codes[c.Pick(len(codes))]
		ctx := g.anyContext()
		if c.Chance(3) {
			ctx.UnderIlst = true
			ctx.QuickTimeKeysMetaEntryCount = int(binary.BigEndian.Uint32(code[:])) - 1 + c.Pick(3)
		}
		log = append(log, fmt.Sprintf("query %x in %+v", code[:], ctx))
		if len(defs[code]) > 0 {
			c.NonTrivial(log)
		}
		c21Query(c, code, ctx, regLookup(defs[code], ctx), &log)
		c.More(1)
	}
}

// c21Query compares everything that depends on the definition.
func c21Query(c *Case, t mp4.BoxType, ctx mp4.Context, d *regDef, log *[]string) {
	n := int64(binary.BigEndian.Uint32(t[:]))
	isItem := d == nil && ctx.UnderIlst && n >= 1 && n <= int64(ctx.QuickTimeKeysMetaEntryCount)
	want := "no definition"
	if d != nil {
		want = d.desc
	} else if isItem {
		want = "metadata item"
	}
	c.Class(map[bool]string{true: "definition", false: want}[d != nil])
	*log = append(*log, "  expected: "+want)
	if got := t.IsSupported(ctx); got != (d != nil || isItem) {
		c.Failf("IsSupported(%x, %+v) = %v, want %s", t[:], ctx, got, want)
	}
	ver := uint8(c.Pick(8))
	if c.Chance(3) {
		ver = uint8(c.Pick(255))
	}
	if d != nil && len(d.vers) > 0 && c.Bool() {
		ver = d.vers[c.Pick(len(d.vers))]
	}
	verOK := isItem || d != nil && d.supports(ver)
	if got := t.IsSupportedVersion(ver, ctx); got != verOK {
		c.Failf("IsSupportedVersion(%x, %d, %+v) = %v, want %s", t[:], ver, ctx, got, want)
	}
	vs, err := t.GetSupportedVersions(ctx)
	b, nerr := t.New(ctx)
	if d == nil && !isItem {
		if err != mp4.ErrBoxInfoNotFound || len(vs) != 0 {
			c.Failf("GetSupportedVersions(%x) = %v, %v, want not found", t[:], vs, err)
		}
		if nerr != mp4.ErrBoxInfoNotFound || b != nil {
			c.Failf("New(%x) = %v, %v, want not found", t[:], b, nerr)
		}
		r := bytes.NewReader([]byte{1, 2, 3, 4, 5, 6, 7, 8})
		if b, n, err := mp4.UnmarshalAny(r, t, 8, ctx); err != mp4.ErrBoxInfoNotFound || n != 0 || b != nil || r.Len() != 8 {
			c.Failf("UnmarshalAny(%x) = %v, %d, %v, want not found", t[:], b, n, err)
		}
		for _, f := range regForms {
			_, x, _ := f.pay(c, 0)
			if a, ok := x.(mp4.IAnyType); ok {
				a.SetType(t)
			}
			if x.GetType() != t {
				continue
			}
			if n, err := mp4.Unmarshal(r, 8, x, ctx); err != mp4.ErrBoxInfoNotFound || n != 0 || r.Len() != 8 {
				c.Failf("Unmarshal(%x) = %d, %v, want not found", t[:], n, err)
			}
			var w bytes.Buffer
			if n, err := mp4.Marshal(&w, x, ctx); err != mp4.ErrBoxInfoNotFound || n != 0 || w.Len() != 0 {
				c.Failf("Marshal(%x) = %d, %v, want not found", t[:], n, err)
			}
			if s, err := mp4.Stringify(x, ctx); err != mp4.ErrBoxInfoNotFound || s != "" {
				c.Failf("Stringify(%x) = %q, %v, want not found", t[:], s, err)
			}
			if s, err := mp4.StringifyWithIndent(x, " ", ctx); err != mp4.ErrBoxInfoNotFound || s != "" {
				c.Failf("StringifyWithIndent(%x) = %q, %v, want not found", t[:], s, err)
			}
		}
		return
	}
	if err != nil || nerr != nil {
		c.Failf("type %x with %s: GetSupportedVersions: %v, New: %v", t[:], want, err, nerr)
	}
	if isItem {
		it, ok := b.(*mp4.Item)
		if !ok || it.GetType() != t || len(vs) != 0 {
			c.Failf("New(%x) = %T %v, versions %v, want a metadata item", t[:], b, b.GetType(), vs)
		}
		it.SetType(mp4.BoxType{})
		if d := diffBoxes(it, &mp4.Item{}); d != "" {
			c.Failf("a new metadata item is not zero: %s", d)
		}
		return
	}
	if !bytes.Equal(vs, d.vers) {
		c.Failf("GetSupportedVersions(%x) = %v, want %v", t[:], vs, d.vers)
	}
	if reflect.TypeOf(b).Elem() != d.form.typ {
		c.Failf("New(%x) = %T, want %s", t[:], b, want)
	}
	if b.GetType() != t {
		c.Failf("New(%x) has type %x", t[:], b.GetType())
	}
	if a, ok := b.(mp4.IAnyType); ok {
		a.SetType(mp4.BoxType{})
	}
	if !reflect.ValueOf(b).Elem().IsZero() {
		c.Failf("New(%x) is not zero: %+v", t[:], b)
	}
	pay, box, txt := d.form.pay(c, int(ver))
	if a, ok := box.(mp4.IAnyType); ok {
		a.SetType(t)
	}
	var w bytes.Buffer
	if n, err := mp4.Marshal(&w, box, ctx); err != nil || !bytes.Equal(w.Bytes(), pay) || int(n) != len(pay) {
		c.Failf("Marshal(%x as %s) = %d, %v, %x, want %x", t[:], want, n, err, w.Bytes(), pay)
	}
	if s, err := mp4.Stringify(box, ctx); err != nil || s != txt {
		c.Failf("Stringify(%x as %s) = %q, %v, want %q", t[:], want, s, err, txt)
	}
	got, n2, err := mp4.UnmarshalAny(bytes.NewReader(pay), t, uint64(len(pay)), ctx)
	if d.form.full && !d.supports(ver) {
		if err != mp4.ErrUnsupportedBoxVersion {
			c.Failf("UnmarshalAny(%x as %s) of version %d: %v, want unsupported version", t[:], want, ver, err)
		}
		c.Class("unsupported version")
		return
	}
	if err != nil || int(n2) != len(pay) {
		c.Failf("UnmarshalAny(%x as %s) = %d, %v", t[:], want, n2, err)
	}
	if df := diffBoxes(got, box); df != "" {
		c.Failf("UnmarshalAny(%x as %s): %s", t[:], want, df)
	}
	into := reflect.New(d.form.typ).Interface().(mp4.IBox)
	if a, ok := into.(mp4.IAnyType); ok {
		a.SetType(t)
	}
	if n, err := mp4.Unmarshal(bytes.NewReader(pay), uint64(len(pay)), into, ctx); err != nil || int(n) != len(pay) || diffBoxes(into, box) != "" {
		c.Failf("Unmarshal(%x as %s) = %d, %v %s", t[:], want, n, err, diffBoxes(into, box))
	}
	// found in a file (context of the top level)
	if ctx == (mp4.Context{}) {
		file := append([]byte{0, 0, 0, byte(8 + len(pay)), t[0], t[1], t[2], t[3]}, pay...)
		_, err := mp4.ReadBoxStructure(bytes.NewReader(file), func(h *mp4.ReadHandle) (interface{}, error) {
			if !h.BoxInfo.IsSupportedType() {
				c.Failf("%x as %s is not supported in a file", t[:], want)
			}
			x, _, err := h.ReadPayload()
			if err != nil {
				return nil, err
			}
			if df := diffBoxes(x, box); df != "" {
				c.Failf("%x as %s read from a file: %s", t[:], want, df)
			}
			return nil, nil
		})
		if err != nil {
			c.Failf("%x as %s read from a file: %v", t[:], want, err)
		}
		c.Class("in a file")
	}
}

// c21Builtin: the built-in definitions over all contexts.
func c21Builtin(c *Case) {
	t := anyType(c)
	if c.Bool() {
		s := drawSpec(c)
		if len(s.Types) > 0 {
			t = s.Types[c.Pick(len(s.Types))]
		}
		if c.Chance(4) {
			t[c.Pick(4)] ^= []byte{0x20, 1, 0x80, 0xff}[c.Pick(4)]
		}
	}
	if t[0] == 'Q' || t[0] == 0xa9 && t[1] >= 0x80 {
		return // may have been registered by c21History
	}
	g := newGen(c)
	ctx := g.anyContext()
	if c.Chance(4) {
		ctx.UnderIlst = true
		ctx.QuickTimeKeysMetaEntryCount = c.Pick(4)
		t = mp4.BoxType{0, 0, 0, byte(c.Pick(5))}
	}
	c.Note("type", fmt.Sprintf("%q", string(t[:])))
	c.Note("context", ctx)
	s := specFor(t, ctx)
	if len(specByType[t]) > 0 || s != nil {
		c.NonTrivial(t[:], fmt.Sprintf("%+v", ctx))
	}
	b, err := t.New(ctx)
	vs, verr := t.GetSupportedVersions(ctx)
	ver := uint8(c.Pick(4))
	if c.Bool() {
		ver = uint8(c.Pick(256))
	}
	if s == nil {
		c.Class("unknown")
		if t.IsSupported(ctx) || b != nil || err != mp4.ErrBoxInfoNotFound || verr != mp4.ErrBoxInfoNotFound || len(vs) != 0 || t.IsSupportedVersion(ver, ctx) {
			c.Failf("%q is not known in %+v, but: IsSupported=%v New=%T,%v versions=%v,%v", string(t[:]), ctx, t.IsSupported(ctx), b, err, vs, verr)
		}
		r := bytes.NewReader(make([]byte, 64))
		if _, n, err := mp4.UnmarshalAny(r, t, 64, ctx); err != mp4.ErrBoxInfoNotFound || n != 0 || r.Len() != 64 {
			c.Failf("decoding the unknown %q: n=%d err=%v", string(t[:]), n, err)
		}
		return
	}
	c.Class("type " + s.Name)
	if !t.IsSupported(ctx) || err != nil || verr != nil {
		c.Failf("%q is %s in %+v, but: IsSupported=%v New: %v, versions: %v", string(t[:]), s.Name, ctx, t.IsSupported(ctx), err, verr)
	}
	if reflect.TypeOf(b) != reflect.TypeOf(s.New()) {
		c.Failf("New(%q) in %+v is a %T, want %T", string(t[:]), ctx, b, s.New())
	}
	if b.GetType() != t {
		c.Failf("New(%q) has type %q", string(t[:]), b.GetType())
	}
	if a, ok := b.(mp4.IAnyType); ok {
		a.SetType(mp4.BoxType{})
	}
	if !reflect.ValueOf(b).Elem().IsZero() {
		c.Failf("New(%q) is not zero: %+v", string(t[:]), b)
	}
	// The supported versions of boxes without a version field are either
	// everything or version 0; either way the two queries must agree.
	if s.Full {
		if got := t.IsSupportedVersion(ver, ctx); got != s.supports(int(ver)) {
			c.Failf("IsSupportedVersion(%q, %d) = %v", string(t[:]), ver, got)
		}
	}
	have := map[int]bool{}
	for _, v := range vs {
		have[int(v)] = true
	}
	for v := 0; v < 256; v++ {
		if s.Full && (s.Versions == nil && len(vs) > 0 || s.Versions != nil && have[v] != s.supports(v)) {
			c.Failf("GetSupportedVersions(%q) = %v, want %v", string(t[:]), vs, s.Versions)
		}
		if got := t.IsSupportedVersion(uint8(v), ctx); got != (len(vs) == 0 || have[v]) {
			c.Failf("IsSupportedVersion(%q, %d) = %v, but GetSupportedVersions = %v", string(t[:]), v, got, vs)
		}
	}
	if !t.IsSupportedVersion(0, ctx) && !s.Full {
		c.Failf("version 0 of %q, which has no version field, is not supported", string(t[:]))
	}
	// support as seen from a file
	bi := mp4.BoxInfo{Type: t, Context: ctx}
	if !bi.IsSupportedType() {
		c.Failf("%q is %s in %+v, but BoxInfo.IsSupportedType is false", string(t[:]), s.Name, ctx)
	}
}

// c21Shadow registers a structure for a built-in type in one context only:
// it wins there and nowhere else.
func c21Shadow(c *Case) {
	s := specs[c.Pick(len(specs))]
	if len(s.Types) == 0 {
		return
	}
	t := s.Types[c.Pick(len(s.Types))]
	regCounter++
	mark := 1<<30 + int(regCounter) // a keys entry count only this case uses
	form := regForms[c.Pick(4)]
	d := &regDef{form: form, vers: drawVers(c), desc: form.name}
	d.pred = func(x mp4.Context) bool { return x.QuickTimeKeysMetaEntryCount == mark }
	mp4.AddAnyTypeBoxDefEx(reflect.New(form.typ).Interface().(mp4.IAnyType), t, d.pred, append([]uint8(nil), d.vers...)...)
	g := newGen(c)
	ctx := g.anyContext()
	c.Note("type", fmt.Sprintf("%q", string(t[:])))
	c.Note("registered", d.desc)
	c.Note("context", ctx)
	c.NonTrivial(t[:], form.name, fmt.Sprintf("%+v", ctx))
	var log []string
	ctx.QuickTimeKeysMetaEntryCount = mark
	c21Query(c, t, ctx, d, &log)
	ctx.QuickTimeKeysMetaEntryCount = 0
	b, err := t.New(ctx)
	if m := specFor(t, ctx); m == nil {
		if err != mp4.ErrBoxInfoNotFound {
			c.Failf("New(%q) in %+v: %T %v, want not found", string(t[:]), ctx, b, err)
		}
	} else if err != nil || reflect.TypeOf(b) != reflect.TypeOf(m.New()) {
		c.Failf("New(%q) in %+v: %T %v, want %T", string(t[:]), ctx, b, err, m.New())
	}
}

// c21Codes: type codes as text, numbers and bytes.
func c21Codes(c *Case) {
	var t mp4.BoxType
	switch c.Pick(5) {
	case 0:
		copy(t[:], c.Bytes(4))
	case 1:
		t = anyType(c)
	case 2:
		for i := range t {
			t[i] = []byte{0, 1, 0x1f, 0x20, 0x21, 0x7d, 0x7e, 0x7f, 0x80, 0xa8, 0xa9, 0xaa, 0xff, '(', 'c', ')'}[c.Pick(16)]
		}
	default:
		for i := range t {
			t[i] = byte(0x20 + c.Pick(0x5f))
		}
		if c.Chance(3) {
			t[c.Pick(4)] = 0xa9
		}
		if c.Chance(3) {
			t[c.Pick(4)] = byte(c.U64())
		}
	}
	c.Note("type", fmt.Sprintf("%x", t[:]))
	c.NonTrivial(t[:])
	if got := mp4.IsIlstMetaBoxType(t); got != isIlstItem(t) {
		c.Failf("IsIlstMetaBoxType(%x) = %v", t[:], got)
	}
	if got := mp4.StrToBoxType(string(t[:])); got != t {
		c.Failf("StrToBoxType(%q) = %x", string(t[:]), got[:])
	}
	n := uint32(t[0])<<24 | uint32(t[1])<<16 | uint32(t[2])<<8 | uint32(t[3])
	if got := mp4.Uint32ToBoxType(n); got != t {
		c.Failf("Uint32ToBoxType(%#x) = %x", n, got[:])
	}
	// text
	printable := true
	want := ""
	for _, b := range t {
		switch {
		case b == 0xa9:
			want += "(c)"
		case b >= 0x20 && b <= 0x7e:
			want += string(rune(b))
		default:
			printable = false
		}
	}
	if !printable {
		want = fmt.Sprintf("0x%08x", n)
	}
	c.ClassIf(printable, "printable")
	c.ClassIf(!printable, "hexadecimal")
	if got := t.String(); got != want || !utf8.ValidString(got) {
		c.Failf("String of %x = %q, want %q", t[:], got, want)
	}
	// matching
	u := t
	switch c.Pick(4) {
	case 0:
		u[c.Pick(4)] ^= byte(1 << uint(c.Pick(8)))
	case 1:
		copy(u[:], c.Bytes(4))
	case 2:
		u = mp4.BoxType{}
		if c.Bool() {
			u[c.Pick(4)] = 1
		}
	}
	any := mp4.BoxTypeAny()
	if any != (mp4.BoxType{}) {
		c.Failf("BoxTypeAny() = %x", any[:])
	}
	m := t == u || t == any || u == any
	if t.MatchWith(u) != m || u.MatchWith(t) != m {
		c.Failf("MatchWith(%x, %x) = %v, %v, want %v", t[:], u[:], t.MatchWith(u), u.MatchWith(t), m)
	}
	if !t.MatchWith(any) || !any.MatchWith(t) || !t.MatchWith(t) {
		c.Failf("%x does not match the wildcard or itself", t[:])
	}
	// texts of other lengths are not type codes
	s := string(c.Bytes(c.Pick(12)))
	if len(s) != 4 {
		func() {
			defer func() {
				if recover() == nil {
					c.Failf("StrToBoxType(%q) returned a type", s)
				}
			}()
			mp4.StrToBoxType(s)
		}()
	}
}

// c21Names: the named type codes.
func c21Names(c *Case) {
	keys := boxTypeNames
	e := keys[c.Pick(len(keys))]
	c.Note("type", e.s)
	c.NonTrivial(e.s)
	if got := e.f(); string(got[:]) != e.s {
		c.Failf("the type code named %q is %q", e.s, string(got[:]))
	}
}

var boxTypeNames = []struct {
	s string
	f func() mp4.BoxType
}{
	{"av01", mp4.BoxTypeAv01},
	{"av1C", mp4.BoxTypeAv1C},
	{"ac-3", mp4.BoxTypeAC3},
	{"dac3", mp4.BoxTypeDAC3},
	{"btrt", mp4.BoxTypeBtrt},
	{"co64", mp4.BoxTypeCo64},
	{"colr", mp4.BoxTypeColr},
	{"cslg", mp4.BoxTypeCslg},
	{"ctts", mp4.BoxTypeCtts},
	{"dinf", mp4.BoxTypeDinf},
	{"dref", mp4.BoxTypeDref},
	{"url ", mp4.BoxTypeUrl},
	{"urn ", mp4.BoxTypeUrn},
	{"edts", mp4.BoxTypeEdts},
	{"elst", mp4.BoxTypeElst},
	{"emsg", mp4.BoxTypeEmsg},
	{"fiel", mp4.BoxTypeFiel},
	{"free", mp4.BoxTypeFree},
	{"skip", mp4.BoxTypeSkip},
	{"frma", mp4.BoxTypeFrma},
	{"ftyp", mp4.BoxTypeFtyp},
	{"hdlr", mp4.BoxTypeHdlr},
	{"hvcC", mp4.BoxTypeHvcC},
	{"mdat", mp4.BoxTypeMdat},
	{"mdhd", mp4.BoxTypeMdhd},
	{"mdia", mp4.BoxTypeMdia},
	{"mehd", mp4.BoxTypeMehd},
	{"meta", mp4.BoxTypeMeta},
	{"mfhd", mp4.BoxTypeMfhd},
	{"mfra", mp4.BoxTypeMfra},
	{"mfro", mp4.BoxTypeMfro},
	{"minf", mp4.BoxTypeMinf},
	{"moof", mp4.BoxTypeMoof},
	{"moov", mp4.BoxTypeMoov},
	{"mvex", mp4.BoxTypeMvex},
	{"mvhd", mp4.BoxTypeMvhd},
	{"saio", mp4.BoxTypeSaio},
	{"saiz", mp4.BoxTypeSaiz},
	{"mp4v", mp4.BoxTypeMp4v},
	{"avc1", mp4.BoxTypeAvc1},
	{"encv", mp4.BoxTypeEncv},
	{"hev1", mp4.BoxTypeHev1},
	{"hvc1", mp4.BoxTypeHvc1},
	{"mp4a", mp4.BoxTypeMp4a},
	{"enca", mp4.BoxTypeEnca},
	{"avcC", mp4.BoxTypeAvcC},
	{"pasp", mp4.BoxTypePasp},
	{"stpp", mp4.BoxTypeStpp},
	{"sbtt", mp4.BoxTypeSbtt},
	{"sbgp", mp4.BoxTypeSbgp},
	{"schi", mp4.BoxTypeSchi},
	{"schm", mp4.BoxTypeSchm},
	{"sdtp", mp4.BoxTypeSdtp},
	{"sgpd", mp4.BoxTypeSgpd},
	{"sidx", mp4.BoxTypeSidx},
	{"sinf", mp4.BoxTypeSinf},
	{"smhd", mp4.BoxTypeSmhd},
	{"stbl", mp4.BoxTypeStbl},
	{"stco", mp4.BoxTypeStco},
	{"stsc", mp4.BoxTypeStsc},
	{"stsd", mp4.BoxTypeStsd},
	{"stss", mp4.BoxTypeStss},
	{"stsz", mp4.BoxTypeStsz},
	{"stts", mp4.BoxTypeStts},
	{"styp", mp4.BoxTypeStyp},
	{"tfdt", mp4.BoxTypeTfdt},
	{"tfhd", mp4.BoxTypeTfhd},
	{"tfra", mp4.BoxTypeTfra},
	{"tkhd", mp4.BoxTypeTkhd},
	{"traf", mp4.BoxTypeTraf},
	{"trak", mp4.BoxTypeTrak},
	{"trep", mp4.BoxTypeTrep},
	{"trex", mp4.BoxTypeTrex},
	{"trun", mp4.BoxTypeTrun},
	{"udta", mp4.BoxTypeUdta},
	{"vmhd", mp4.BoxTypeVmhd},
	{"wave", mp4.BoxTypeWave},
	{"esds", mp4.BoxTypeEsds},
	{"vttC", mp4.BoxTypeVttC},
	{"vlab", mp4.BoxTypeVlab},
	{"wvtt", mp4.BoxTypeWvtt},
	{"vttc", mp4.BoxTypeVttc},
	{"vsid", mp4.BoxTypeVsid},
	{"ctim", mp4.BoxTypeCtim},
	{"iden", mp4.BoxTypeIden},
	{"sttg", mp4.BoxTypeSttg},
	{"payl", mp4.BoxTypePayl},
	{"vtte", mp4.BoxTypeVtte},
	{"vtta", mp4.BoxTypeVtta},
	{"ipcm", mp4.BoxTypeIpcm},
	{"fpcm", mp4.BoxTypeFpcm},
	{"pcmC", mp4.BoxTypePcmC},
	{"pssh", mp4.BoxTypePssh},
	{"tenc", mp4.BoxTypeTenc},
	{"ilst", mp4.BoxTypeIlst},
	{"data", mp4.BoxTypeData},
	{"keys", mp4.BoxTypeKeys},
	{"Opus", mp4.BoxTypeOpus},
	{"dOps", mp4.BoxTypeDOps},
	{"vp08", mp4.BoxTypeVp08},
	{"vp09", mp4.BoxTypeVp09},
	{"vpcC", mp4.BoxTypeVpcC},
}
