package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"time"

	mp4 "github.com/abema/go-mp4"
)

func reflectNew(t reflect.Type) reflect.Value                      { return reflect.New(t).Elem() }
func reflectAppend(s reflect.Value, x reflect.Value) reflect.Value { return reflect.Append(s, x) }

func init() {
	register(&Prop{
		ID: "C03", Level: "exploration",
		Rule:        "the box has a non-empty payload",
		Assumptions: []string{"text fields without NUL bytes; a handler name that would read as a counted string is outside"},
		Subs: []Sub{
			{Name: "values", N: 200000, F: func(c *Case) { c03Values(c, drawSpec(c), newGen(c)) }},
			{Name: "bigtables", N: 600, Thorough: 25, F: func(c *Case) {
				g := newGen(c)
				g.max = 3
				g.big = bigSizes[c.Pick(len(bigSizes))]
				s := bigSpec(c)
				c.Fast(func() { c03Values(c, s, g) })
			}},
			{Name: "hugetables", N: 10, Thorough: 30, MaxShard: 4, MemLimit: 5 << 30, CPULimit: 200 * time.Second, F: func(c *Case) {
				s, g := drawHuge(c, 1<<24+1)
				c.Fast(func() { c03Values(c, s, g) })
			}},
			{Name: "bytes", N: 120000, F: c03Bytes},
			{Name: "edit", N: 120000, F: c03Edit},
		},
	})
}

func c03Values(c *Case, s *Spec, g *Gen) {
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	b := s.Build(v, t)
	noteBox(c, s, t, ctx, nil)
	c.Note("box", b)
	c.Class(s.class())
	var w bytes.Buffer
	n, err := mp4.Marshal(&w, b, ctx)
	if err != nil {
		c.Failf("encoding %s: %v", s.Name, err)
	}
	p := w.Bytes()
	if len(p) > 0 {
		c.NonTrivial(t[:], p, fmt.Sprintf("%+v", ctx))
	}
	b2, m, err := mp4.UnmarshalAny(bytes.NewReader(p), t, uint64(len(p)), ctx)
	if err != nil {
		c.Failf("decoding the encoding of %s: %v", s.Name, err)
	}
	if m != n {
		c.Failf("%s: encoded %d bytes, decoded %d", s.Name, n, m)
	}
	if d := diffBoxes(b2, b); d != "" {
		c.Failf("%s changed over a round trip: %s", s.Name, d)
	}
}

func leafPaths(ls []leaf) []string {
	var out []string
	for _, l := range ls {
		out = append(out, l.path)
	}
	return out
}

// canonical says whether the payload is exactly what the format prescribes
// for its values.
func canonical(s *Spec, p []byte, ctx mp4.Context) (*Val, bool) {
	v, n, err := s.Decode(p, ctx)
	if err != nil || n != len(p) {
		return nil, false
	}
	q, err := s.Encode(v, ctx)
	if err != nil || !bytes.Equal(p, q) {
		return nil, false
	}
	return v, true
}

func c03Bytes(c *Case) {
	s := drawSpec(c)
	g := newGen(c)
	g.max = 12
	ctx, t := g.context(s)
	p := mutatedPayload(c, g, s, ctx)
	noteBox(c, s, t, ctx, nil)
	c.Note("payload", p)
	if _, ok := canonical(s, p, ctx); !ok {
		c.Class("not canonical")
		return
	}
	c.Class("canonical")
	if len(p) > 0 {
		c.NonTrivial(t[:], p)
	}
	b, n, err := mp4.UnmarshalAny(bytes.NewReader(p), t, uint64(len(p)), ctx)
	if err != nil || n != uint64(len(p)) {
		c.Failf("decoding a canonical %s: n=%d err=%v, want n=%d", s.Name, n, err, len(p))
	}
	var w bytes.Buffer
	m, err := mp4.Marshal(&w, b, ctx)
	if err != nil || m != uint64(len(p)) {
		c.Failf("encoding a decoded %s: n=%d err=%v, want n=%d", s.Name, m, err, len(p))
	}
	if !bytes.Equal(w.Bytes(), p) {
		c.Failf("%s: bytes changed over a round trip\n%x\nwant\n%x", s.Name, w.Bytes(), p)
	}
}

// c03Edit decodes, changes one field, encodes: only that field's bytes
// change.
func c03Edit(c *Case) {
	s := drawSpec(c)
	g := newGen(c)
	g.max = 8
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	p := mustEncode(s, v, ctx)
	noteBox(c, s, t, ctx, nil)
	c.Note("payload", p)
	b, _, err := mp4.UnmarshalAny(bytes.NewReader(p), t, uint64(len(p)), ctx)
	if err != nil {
		c.Failf("decoding %s: %v", s.Name, err)
	}
	if d := diffBoxes(b, s.Build(v, t)); d != "" {
		c.Class("decoded differently") // C01's business
		return
	}
	v2 := cloneVal(v)
	ls := s.leaves(v2, ctx, b, func(f *Fld) bool {
		switch f.K {
		case KUint, KInt, KBool, KByteArr, KBytes, KCStr, KBoxStr:
			return true
		}
		return false
	})
	if len(ls) == 0 {
		c.Class("no field")
		return
	}
	l := ls[c.Pick(len(ls))]
	switch l.f.K {
	case KUint, KInt:
		n := l.f.bits(&l.e)
		if l.f.K == KInt {
			l.v.U = uint64(c.IBits(n))
			l.rv.SetInt(int64(l.v.U))
		} else {
			l.v.U = c.UBits(n)
			l.rv.SetUint(l.v.U)
		}
	case KBool:
		l.v.U ^= 1
		l.rv.SetBool(l.v.U != 0)
	case KByteArr:
		i := c.Pick(len(l.v.B))
		l.v.B[i] = byte(c.U64())
		l.rv.Index(i).SetUint(uint64(l.v.B[i]))
	case KBytes:
		if len(l.v.B) == 0 {
			c.Class("empty table")
			return
		}
		i := c.Pick(len(l.v.B))
		l.v.B[i] = byte(c.U64())
		l.rv.Index(i).SetUint(uint64(l.v.B[i]))
	default:
		l.v.S = g.str()
		l.rv.SetString(l.v.S)
	}
	c.Note("changed", l.path)
	if s.Full && !s.supports(s.env(v2, ctx).Ver) {
		c.Class("version changed to an unsupported one")
		return
	}
	every := func(*Fld) bool { return true }
	if strings.Join(leafPaths(s.leaves(v, ctx, nil, every)), " ") != strings.Join(leafPaths(s.leaves(v2, ctx, nil, every)), " ") {
		c.Class("other fields appear or vanish")
		return
	}
	want, err := s.Encode(v2, ctx)
	if err != nil {
		c.Class("inconsistent after the change")
		return
	}
	c.Class(s.class())
	c.NonTrivial(t[:], p, want, l.path)
	var w bytes.Buffer
	n, err := mp4.Marshal(&w, b, ctx)
	if err != nil || n != uint64(len(want)) || !bytes.Equal(w.Bytes(), want) {
		c.Failf("%s re-encoded after changing %s: n=%d err=%v\n%x\nwant\n%x\n(before\n%x)", s.Name, l.path, n, err, w.Bytes(), want, p)
	}
}
