package main

import (
	"bytes"
	"fmt"
	"io"
	"time"

	mp4 "github.com/abema/go-mp4"
)

// drawSpec picks a structure (weighted by how much it varies).
func drawSpec(c *Case) *Spec { return specPool[c.Pick(len(specPool))] }

func noteBox(c *Case, s *Spec, t mp4.BoxType, ctx mp4.Context, v *Val) {
	c.Note("type", fmt.Sprintf("%s (%q)", s.Name, string(t[:])))
	c.Note("context", ctx)
	if v != nil {
		c.Note("fields", func() string {
			return fmt.Sprintf("%+v", s.Build(v, t))
		})
	}
}

func instance(s *Spec, t mp4.BoxType) mp4.IBox {
	b := s.New()
	if a, ok := b.(mp4.IAnyType); ok {
		a.SetType(t)
	}
	return b
}

func init() {
	register(&Prop{
		ID: "C01", Level: "exploration",
		Rule:        "the encoded payload carries at least one non-zero byte, or at least one field of the type is absent for the version, flags or context drawn",
		Assumptions: []string{"the reference layouts in spec_types.go state the formats correctly", "text fields without NUL bytes"},
		Subs: []Sub{
			{Name: "layout", N: 200000, F: c01Layout},
			{Name: "versions", N: 50000, F: c01Versions},
			{Name: "qtmeta", N: 800, Thorough: 10, F: c01QTMeta},
			{Name: "truth", N: 100000, F: c01Truth},
			{Name: "bigtables", N: 800, Thorough: 25, F: c01Big},
			{Name: "hugetables", N: 10, Thorough: 30, MaxShard: 4, MemLimit: 5 << 30, CPULimit: 200 * time.Second, F: func(c *Case) {
				s, g := drawHuge(c, 1<<24+1)
				c.Fast(func() { c01One(c, s, g) })
			}},
		},
	})
}

func c01Layout(c *Case) {
	s := drawSpec(c)
	c01One(c, s, newGen(c))
}

// c01Versions walks versions, single flag bits and contexts evenly over all
// types, including the rare ones.
func c01Versions(c *Case) {
	s := specs[c.Pick(len(specs))]
	g := newGen(c)
	g.max = 6
	if s.Full {
		if s.Versions != nil {
			g.vers = s.Versions[c.Pick(len(s.Versions))]
		}
		g.fl = int64(uint32(1) << uint(c.Pick(24)))
		if c.Chance(3) {
			g.fl ^= 0xffffff
		}
	}
	c01One(c, s, g)
}

var bigSizes = []int{64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 32767, 32768, 65535, 65536, 66000}

// bigSpec picks a structure, mostly one with tables.
func bigSpec(c *Case) *Spec {
	if c.Chance(4) {
		return drawSpec(c)
	}
	return hasTables(c)
}

var hugeSizes = []int{65537, 100000, 131071, 131072, 131073, 262145}

var byteTypes = []string{"mdat", "free", "pssh", "emsg"}

// drawHuge picks a structure and a size far beyond the usual: tables of
// hundreds of thousands of entries, byte fields of megabytes.
func drawHuge(c *Case, most int) (*Spec, *Gen) {
	g := newGen(c)
	g.max = 3
	if c.Chance(3) {
		n := byteTypes[c.Pick(len(byteTypes))]
		for _, s := range specPool {
			if s.Name == n {
				if n == "pssh" {
					// a table as well, of elements of some size
					most = min(most, 1<<20+1)
				}
				g.big = min(most, []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 1<<22 + 1, 1<<24 - 1, 1 << 24, 1<<24 + 1}[c.Pick(7)])
				return s, g
			}
		}
	}
	g.big = hugeSizes[c.Pick(len(hugeSizes))]
	return hasTables(c), g
}

// c01Big uses tables and open-ended fields of many entries.
func c01Big(c *Case) {
	s := bigSpec(c)
	g := newGen(c)
	g.max = 3
	g.big = bigSizes[c.Pick(len(bigSizes))]
	c.Fast(func() { c01One(c, s, g) })
}

func c01One(c *Case, s *Spec, g *Gen) {
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	noteBox(c, s, t, ctx, v)
	p, err := s.Encode(v, ctx)
	if err != nil {
		panic(fmt.Sprintf("generator: %s: %v", s.Name, err))
	}
	pay := p
	want := s.Build(v, t)
	if c.Chance(4) {
		// bytes behind the fields, where the format has an end of its own
		more := append(append([]byte{}, p...), c.Bytes(c.Int(1, 20))...)
		if v2, n, err := s.Decode(more, ctx); err == nil && n < len(more) {
			want = s.Build(v2, t)
			pay = more
			p = more[:n]
		}
	}
	c.Note("payload", pay)
	c.Class(s.class())
	if s.Full {
		if ver := s.env(v, ctx).Ver; ver < 3 {
			c.Class(fmt.Sprintf("version %d", ver))
		} else {
			c.Class("version 3 or more")
		}
	}
	nz := false
	for _, b := range p {
		nz = nz || b != 0
	}
	if nz || len(p) == 0 {
		c.NonTrivial(t[:], p, fmt.Sprintf("%+v", ctx))
	}

	// position the payload somewhere in a larger stream
	pre := 0
	if c.Chance(3) {
		pre = c.Int(1, 9)
	}
	file := append(append(make([]byte, pre), pay...), c.Bytes(c.Pick(12))...)
	r := bytes.NewReader(file)
	for round := 0; round < 2; round++ {
		r.Seek(int64(pre), io.SeekStart)
		b, n, err := mp4.UnmarshalAny(r, t, uint64(len(pay)), ctx)
		if err != nil {
			c.Failf("decoding a valid payload of %s (round %d) failed: %v", s.Name, round, err)
		}
		if n != uint64(len(p)) {
			c.Failf("decoding %s reports %d bytes, the fields occupy %d", s.Name, n, len(p))
		}
		if d := diffBoxes(b, want); d != "" {
			c.Failf("decoded %s differs from the encoded values: %s", s.Name, d)
		}
		if b.GetType() != t {
			c.Failf("decoded %s has type %v", s.Name, b.GetType())
		}
	}
	r.Seek(int64(pre), io.SeekStart)
	b := instance(s, t)
	n, err := mp4.Unmarshal(r, uint64(len(pay)), b, ctx)
	if err != nil || n != uint64(len(p)) {
		c.Failf("decoding into a given %s: n=%d err=%v, want n=%d", s.Name, n, err, len(p))
	}
	if d := diffBoxes(b, want); d != "" {
		c.Failf("%s decoded into a given box differs: %s", s.Name, d)
	}
	c.More(2)
}

// c01QTMeta: the QuickTime form of meta has no version and flags.
func c01QTMeta(c *Case) {
	p := c.Bytes(c.Int(4, 64))
	if p[0]|p[1]|p[2]|p[3] == 0 {
		p[c.Pick(4)] = byte(c.Int(1, 255))
	}
	g := newGen(c)
	ctx := g.anyContext()
	c.Note("payload", p)
	c.Note("context", ctx)
	c.NonTrivial(p)
	b, n, err := mp4.UnmarshalAny(bytes.NewReader(p), mp4.BoxTypeMeta(), uint64(len(p)), ctx)
	if err != nil || n != 0 {
		c.Failf("QuickTime meta: n=%d err=%v, want 0 bytes", n, err)
	}
	if d := diffBoxes(b, &mp4.Meta{}); d != "" {
		c.Failf("QuickTime meta: %s", d)
	}
	var m mp4.Meta
	m.Version, m.Flags = 7, [3]byte{1, 2, 3}
	if n, err := mp4.Unmarshal(bytes.NewReader(p), uint64(len(p)), &m, ctx); err != nil || n != 0 {
		c.Failf("QuickTime meta: n=%d err=%v, want 0 bytes", n, err)
	}
	if d := diffBoxes(&m, &mp4.Meta{}); d != "" {
		c.Failf("QuickTime meta into a given box: %s", d)
	}
}

// c01Truth decodes arbitrary and mutated payloads; whenever the reference
// decoder accepts, the library must agree on every field.
func c01Truth(c *Case) {
	s := drawSpec(c)
	g := newGen(c)
	g.max = 12
	ctx, t := g.context(s)
	p := mutatedPayload(c, g, s, ctx)
	noteBox(c, s, t, ctx, nil)
	c.Note("payload", p)
	v, n, err := s.Decode(p, ctx)
	if err != nil {
		c.Class("reference rejects: " + err.Error())
		return
	}
	c.Class("reference accepts")
	c.NonTrivial(t[:], p)
	b, ln, err := mp4.UnmarshalAny(bytes.NewReader(p), t, uint64(len(p)), ctx)
	if err != nil {
		c.Failf("decoding a payload that fits %s failed: %v", s.Name, err)
	}
	if int(ln) != n {
		c.Failf("decoding %s reports %d bytes, the fields occupy %d", s.Name, ln, n)
	}
	if d := diffBoxes(b, s.Build(v, t)); d != "" {
		c.Failf("decoded %s differs from the payload's values: %s", s.Name, d)
	}
}

// mutatedPayload makes a payload near a valid one: exact, with changed bytes
// or bits, cut, extended, or random after the version.
func mutatedPayload(c *Case, g *Gen, s *Spec, ctx mp4.Context) []byte {
	v := g.value(s, ctx)
	p, err := s.Encode(v, ctx)
	if err != nil {
		panic(fmt.Sprintf("generator: %s: %v", s.Name, err))
	}
	p = append([]byte{}, p...)
	for k := c.Pick(4); k > 0; k-- {
		switch c.Pick(6) {
		case 0:
			if len(p) > 0 {
				p[c.Pick(len(p))] ^= 1 << uint(c.Pick(8))
			}
		case 1:
			if len(p) > 0 {
				p[c.Pick(len(p))] = byte(c.U64())
			}
		case 2:
			if len(p) > 0 {
				p = p[:c.Pick(len(p)+1)]
			}
		case 3:
			p = append(p, c.Bytes(c.Int(1, 16))...)
		case 4:
			if len(p) > 4 {
				q := c.Bytes(len(p) - 4)
				copy(p[4:], q)
			}
		case 5:
			if len(p) > 0 {
				i := c.Pick(len(p))
				p = append(append(append([]byte{}, p[:i]...), byte(c.U64())), p[i:]...)
			}
		}
	}
	return p
}
