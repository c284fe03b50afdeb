package main

import (
	"bytes"
	"fmt"
	"time"

	mp4 "github.com/abema/go-mp4"
)

func init() {
	register(&Prop{
		ID: "C02", Level: "exploration",
		Rule:        "the box encodes to at least one byte, or the case exercises a refusal (short table, unregistered type, inconsistent profile)",
		Assumptions: []string{"the reference layouts in spec_types.go state the formats correctly", "text fields without NUL bytes"},
		Subs: []Sub{
			{Name: "layout", N: 200000, F: func(c *Case) { g := newGen(c); g.junk = c.Bool(); c02One(c, drawSpec(c), g) }},
			{Name: "versions", N: 50000, F: c02Versions},
			{Name: "bigtables", N: 800, Thorough: 25, F: c02Big},
			{Name: "hugetables", N: 10, Thorough: 30, MaxShard: 4, MemLimit: 5 << 30, CPULimit: 200 * time.Second, F: func(c *Case) {
				s, g := drawHuge(c, 1<<24+1)
				c.Fast(func() { c02One(c, s, g) })
			}},
			{Name: "short", N: 60000, F: c02Short},
			{Name: "long", N: 60000, F: c02Long},
			{Name: "unregistered", N: 20000, F: c02Unregistered},
			{Name: "profile", N: 8000, F: c02Profile},
		},
	})
}

func c02Versions(c *Case) {
	s := specs[c.Pick(len(specs))]
	g := newGen(c)
	g.max = 6
	g.junk = true
	if s.Full {
		if s.Versions != nil {
			g.vers = s.Versions[c.Pick(len(s.Versions))]
		}
		g.fl = int64(uint32(1) << uint(c.Pick(24)))
		if c.Chance(3) {
			g.fl ^= 0xffffff
		}
	}
	c02One(c, s, g)
}

func c02Big(c *Case) {
	s := bigSpec(c)
	g := newGen(c)
	g.max = 3
	g.big = bigSizes[c.Pick(len(bigSizes))]
	c.Fast(func() { c02One(c, s, g) })
}

func mustEncode(s *Spec, v *Val, ctx mp4.Context) []byte {
	p, err := s.Encode(v, ctx)
	if err != nil {
		panic(fmt.Sprintf("generator: %s: %v", s.Name, err))
	}
	return p
}

func c02One(c *Case, s *Spec, g *Gen) {
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	noteBox(c, s, t, ctx, nil)
	want := mustEncode(s, v, ctx)
	b := s.BuildAll(v, t)
	c.Note("box", b)
	c.Note("layout", want)
	c.Class(s.class())
	if len(want) > 0 {
		c.NonTrivial(t[:], want, fmt.Sprintf("%+v", ctx))
	}
	var w bytes.Buffer
	n, err := mp4.Marshal(&w, b, ctx)
	if err != nil {
		c.Failf("encoding %s failed: %v", s.Name, err)
	}
	if !bytes.Equal(w.Bytes(), want) {
		c.Failf("encoding %s wrote\n%x\nthe format is\n%x", s.Name, w.Bytes(), want)
	}
	if n != uint64(len(want)) {
		c.Failf("encoding %s reports %d bytes, wrote %d", s.Name, n, len(want))
	}
}

// tables lists the tables with a declared, non-zero number of entries.
func tables(s *Spec, v *Val, ctx mp4.Context, b mp4.IBox) []leaf {
	var out []leaf
	for _, l := range s.leaves(v, ctx, b, func(f *Fld) bool { return (f.K == KSlice || f.K == KBytes) && f.Len != nil }) {
		if n := l.f.Len(&l.e); n > 0 {
			out = append(out, l)
		}
	}
	return out
}

func hasTables(c *Case) *Spec { return tableSpecs()[c.Pick(len(tableSpecs()))] }

var tableSpecCache []*Spec

func tableSpecs() []*Spec {
	if tableSpecCache == nil {
		for _, s := range specPool {
			switch s.Name {
			case "co64", "ctts", "elst", "hvcC", "saio", "saiz", "avcC", "sbgp", "sgpd", "sidx", "stco", "stsc", "stss", "stsz", "stts", "tfra", "trun", "esds",
				"pssh", "tenc", "item", "keys", "dOps", "vpcC", "audio":
				tableSpecCache = append(tableSpecCache, s)
			}
		}
	}
	return tableSpecCache
}

func c02Short(c *Case) { c02ShortOf(c, hasTables(c)) }
func c02ShortOf(c *Case, s *Spec) {
	g := newGen(c)
	g.max = 12
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	b := s.Build(v, t)
	ls := tables(s, v, ctx, b)
	if len(ls) == 0 {
		c.Class("no table")
		return
	}
	l := ls[c.Pick(len(ls))]
	n := l.rv.Len()
	k := c.Pick(n)
	l.rv.Set(l.rv.Slice(0, k))
	if k == 0 && c.Bool() {
		l.rv.SetZero()
	}
	noteBox(c, s, t, ctx, nil)
	c.Note("box", b)
	c.Note("table", fmt.Sprintf("%s cut from %d to %d entries", l.path, n, k))
	c.Class(s.tableClass(l.f))
	c.NonTrivial(t[:], l.path, n, k, fmt.Sprintf("%+v", b))
	var w bytes.Buffer
	if m, err := mp4.Marshal(&w, b, ctx); err == nil {
		c.Failf("encoding %s with %d of %d declared entries in %s succeeded (n=%d, %x)", s.Name, k, n, l.path, m, w.Bytes())
	}
}

func c02Long(c *Case) { c02LongOf(c, hasTables(c)) }
func c02LongOf(c *Case, s *Spec) {
	g := newGen(c)
	g.max = 12
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	b := s.Build(v, t)
	want := mustEncode(s, v, ctx)
	ls := s.leaves(v, ctx, b, func(f *Fld) bool { return (f.K == KSlice || f.K == KBytes) && f.Len != nil })
	added := 0
	for _, l := range ls {
		if l.f.Len(&l.e) < 0 || !c.Bool() {
			continue
		}
		k := c.Int(1, 3)
		for i := 0; i < k; i++ {
			e := l.rv.Type().Elem()
			x := l.rv
			nv := reflectNew(e)
			if l.f.K == KBytes {
				nv.SetUint(c.U64() & 0xff)
			} else {
				el := g.fld(l.f.Elem, &l.e)
				el.P = true
				setVal(nv, l.f.Elem, el, false)
			}
			x.Set(reflectAppend(x, nv))
			added++
		}
	}
	noteBox(c, s, t, ctx, nil)
	c.Note("box", b)
	if added == 0 {
		c.Class("nothing added")
		return
	}
	c.Class(s.class())
	c.NonTrivial(t[:], fmt.Sprintf("%+v", b))
	var w bytes.Buffer
	n, err := mp4.Marshal(&w, b, ctx)
	if err != nil || n != uint64(len(want)) || !bytes.Equal(w.Bytes(), want) {
		c.Failf("encoding %s with more entries than declared: n=%d err=%v\n%x\nwant\n%x", s.Name, n, err, w.Bytes(), want)
	}
}

// c02Unregistered encodes boxes in contexts where their type is unknown.
func c02Unregistered(c *Case) {
	s := drawSpec(c)
	g := newGen(c)
	g.max = 4
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	if s.Any {
		t = anyType(c)
	}
	ctx2 := g.anyContext()
	b := s.Build(v, t)
	noteBox(c, s, t, ctx2, nil)
	c.Note("box", b)
	if specFor(t, ctx2) != nil {
		c.Class("known")
		return
	}
	c.Class("unknown " + s.Name)
	c.NonTrivial(t[:], s.Name, fmt.Sprintf("%+v", ctx2))
	w := &countW{}
	n, err := mp4.Marshal(w, b, ctx2)
	if err != mp4.ErrBoxInfoNotFound || n != 0 || w.calls != 0 {
		c.Failf("encoding a box of unregistered type %q: n=%d err=%v, %d writes", string(t[:]), n, err, w.calls)
	}
}

type countW struct{ calls int }

func (w *countW) Write(p []byte) (int, error) { w.calls++; return len(p), nil }

// anyType draws a box type, known or not.
func anyType(c *Case) mp4.BoxType {
	switch c.Pick(7) {
	case 6:
		if len(dict.fours) > 0 {
			return mp4.BoxType(dict.fours[c.Pick(len(dict.fours))])
		}
		return mp4.BoxType{}
	case 0:
		s := specs[c.Pick(len(specs))]
		if len(s.Types) == 0 {
			return mp4.BoxType{0, 0, 0, 1}
		}
		return s.Types[c.Pick(len(s.Types))]
	case 1:
		b := c.Bytes(4)
		return mp4.BoxType{b[0], b[1], b[2], b[3]}
	case 2:
		return mp4.BoxType{0, 0, byte(c.Pick(2)), byte(c.Pick(256))}
	default:
		var t mp4.BoxType
		for i := range t {
			t[i] = byte('a' + c.Pick(26))
		}
		return t
	}
}

func c02Profile(c *Case) {
	s := specNamed("avcC")
	g := newGen(c)
	g.max = 6
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	b := s.Build(v, t).(*mp4.AVCDecoderConfiguration)
	b.HighProfileFieldsEnabled = true
	b.Profile = uint8(c.UBits(8))
	b.NumOfSequenceParameterSetExt = uint8(len(b.SequenceParameterSetsExt))
	c.Note("box", b)
	c.NonTrivial(b.Profile, fmt.Sprintf("%+v", b))
	var w bytes.Buffer
	_, err := mp4.Marshal(&w, b, ctx)
	hp := highProfile(uint64(b.Profile))
	c.ClassIf(hp, "high profile")
	if (err == nil) != hp {
		c.Failf("encoding avcC with high profile fields and profile %d: err=%v", b.Profile, err)
	}
}
