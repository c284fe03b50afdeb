package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"

	mp4 "github.com/abema/go-mp4"
)

func init() {
	register(&Prop{
		ID: "C05", Level: "exploration",
		Rule:        "the payload has at least one byte; refused and accepted payloads both count",
		Assumptions: []string{"the reference layouts in spec_types.go state the formats correctly", "payloads on which the reference declares itself undecided (more than 100000 elements, over-long variable-length integers) are only checked for the boundary"},
		Subs: []Sub{
			{Name: "mutated", N: 150000, F: c05Mutated},
			{Name: "cuts", N: 9000, F: c05Cuts},
			{Name: "versions", N: 40000, F: c05Versions},
			{Name: "counts", N: 60000, F: c05Counts},
			{Name: "bigtables", N: 600, F: c05Big},
			{Name: "bigrest", N: 160, F: c05BigRest},
		},
	})
}

func c05Mutated(c *Case) { c05MutatedOf(c, drawSpec(c)) }
func c05MutatedOf(c *Case, s *Spec) {
	g := newGen(c)
	g.max = 12
	ctx, t := g.context(s)
	p := mutatedPayload(c, g, s, ctx)
	c05One(c, s, t, ctx, p)
}

func c05Big(c *Case) {
	s := bigSpec(c)
	g := newGen(c)
	g.max = 3
	g.big = bigSizes[c.Pick(len(bigSizes)-4)]
	ctx, t := g.context(s)
	var p []byte
	c.Fast(func() { p = mutatedPayload(c, g, s, ctx) })
	if len(p) > 0 && c.Chance(3) {
		p = p[:c.Pick(len(p))]
	}
	c05One(c, s, t, ctx, p)
}

// c05BigRest lets the payload go on far behind the fields.
func c05BigRest(c *Case) {
	s := drawSpec(c)
	g := newGen(c)
	g.max = 4
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	p := mustEncode(s, v, ctx)
	rest := bigSizes[c.Pick(len(bigSizes))] + c.Pick(3)
	if c.Bool() {
		rest = c.Int(66000, 4<<20)
	}
	if s.openIn(ctx) && rest > 66000 && s.Name != "mdat" && s.Name != "free" && s.Name != "skip" {
		rest = 66000 // millions of entries take gigabytes in the model
	}
	q := append(append(make([]byte, 0, len(p)+rest), p...), make([]byte, rest)...)
	noteBox(c, s, t, ctx, nil)
	c.Note("payload", p)
	c.Note("further bytes in the payload", rest)
	if len(p) > 0 {
		c.NonTrivial(t[:], p, rest, fmt.Sprintf("%+v", ctx))
	}
	if _, k, err := s.Decode(q, ctx); err == nil && k > len(p)+100000 {
		c.Class("open-ended")
		return
	}
	c.Class(c05Check(c, s, t, ctx, q, nil, c.Pick(3)))
}

// c05Cuts presents every prefix of a valid payload, with the rest of it
// following the boundary.
func c05Cuts(c *Case) { c05CutsOf(c, drawSpec(c)) }
func c05CutsOf(c *Case, s *Spec) {
	g := newGen(c)
	g.max = 6
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	p := mustEncode(s, v, ctx)
	noteBox(c, s, t, ctx, nil)
	c.Note("payload", p)
	c.Class(s.class())
	if len(p) > 0 {
		c.NonTrivial(t[:], p, fmt.Sprintf("%+v", ctx))
	}
	n := 0
	for k := 0; k <= len(p); k++ {
		if len(p) > 400 && k > 100 && k < len(p)-50 && c.Pick(len(p)) >= 150 {
			continue // long payloads: a sample of the cuts
		}
		n++
		c05Check(c, s, t, ctx, p[:k], p[k:], 0)
	}
	c.More(n)
}

func c05Versions(c *Case) {
	s := specs[c.Pick(len(specs))]
	g := newGen(c)
	g.max = 6
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	p := append([]byte{}, mustEncode(s, v, ctx)...)
	if s.Full {
		p[0] = byte(c.U64())
		if c.Bool() {
			p[0] = byte(c.Pick(4))
		}
	}
	c05One(c, s, t, ctx, p)
}

// c05Counts inflates counts and lengths inside valid payloads.
func c05Counts(c *Case) {
	s := hasTables(c)
	g := newGen(c)
	g.max = 6
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	p := append([]byte{}, mustEncode(s, v, ctx)...)
	for k := c.Int(1, 2); k > 0 && len(p) > 0; k-- {
		i := c.Pick(len(p))
		switch c.Pick(5) {
		case 0:
			p[i] += byte(c.Int(1, 3))
		case 1:
			p[i] = 0xff
		case 2:
			if i+4 <= len(p) {
				binary.BigEndian.PutUint32(p[i:], binary.BigEndian.Uint32(p[i:])+uint32(c.Int(1, 4)))
			}
		case 3:
			if i+4 <= len(p) {
				binary.BigEndian.PutUint32(p[i:], ^uint32(0)-uint32(c.Pick(3)))
			}
		case 4:
			if i+4 <= len(p) {
				binary.BigEndian.PutUint32(p[i:], 1<<uint(c.Int(16, 31)))
			}
		}
	}
	c05One(c, s, t, ctx, p)
}

func c05One(c *Case, s *Spec, t mp4.BoxType, ctx mp4.Context, p []byte) {
	noteBox(c, s, t, ctx, nil)
	c.Note("payload", p)
	if len(p) > 0 {
		c.NonTrivial(t[:], p, fmt.Sprintf("%+v", ctx))
	}
	pre := 0
	if c.Bool() {
		pre = c.Int(1, 40)
	}
	tail := c.Bytes(c.Pick(40))
	c.Note("tail", tail)
	cls := c05Check(c, s, t, ctx, p, tail, pre)
	c.Class(cls)
	// a payload whose end lies beyond the end of the stream
	if c.Bool() {
		over := uint64(c.Int(1, 50))
		if c.Chance(4) {
			over = c.UBits(40)
		}
		c05Beyond(c, s, t, ctx, p, over)
		c.More(1)
	}
}

// unlimitedCount says whether a declared count of 0xffffffff appears: the
// library takes it for "to the end of the payload" (known finding).
func unlimitedCount(s *Spec, p []byte) bool {
	return bytes.Contains(p, []byte{0xff, 0xff, 0xff, 0xff})
}

func c05Check(c *Case, s *Spec, t mp4.BoxType, ctx mp4.Context, p, tail []byte, pre int) string {
	if s.User && s.Full && len(p) > 0 && p[0] == 255 {
		return "version 255" // see c20Version255
	}
	v, k, rerr := s.Decode(p, ctx)
	if rerr == errHuge {
		return rerr.Error()
	}
	tails := [][]byte{tail, bytes.Repeat([]byte{0}, 40), nil}
	for i, tl := range tails {
		file := append(append(make([]byte, pre), p...), tl...)
		r := bytes.NewReader(file)
		r.Seek(int64(pre), io.SeekStart)
		b, n, err := mp4.UnmarshalAny(r, t, uint64(len(p)), ctx)
		pos := int64(len(file)) - int64(r.Len())
		if err == nil {
			if n > uint64(len(p)) {
				c.Failf("decoding %s reports %d bytes of a %d-byte payload", s.Name, n, len(p))
			}
			if pos != int64(pre)+int64(n) {
				c.Failf("decoding %s of %d bytes at %d left the reader at %d, not %d", s.Name, n, pre, pos, uint64(pre)+n)
			}
		}
		switch {
		case rerr == nil:
			if err != nil {
				c.Failf("%s: a valid payload of %d bytes was refused: %v (tail %d)", s.Name, len(p), err, i)
			}
			if n != uint64(k) {
				c.Failf("%s: %d bytes used, the fields occupy %d (tail %d)", s.Name, n, k, i)
			}
			if d := diffBoxes(b, s.Build(v, t)); d != "" {
				c.Failf("%s: decoded values differ (tail %d): %s", s.Name, i, d)
			}
		case rerr == errVersion:
			if err != mp4.ErrUnsupportedBoxVersion {
				c.Failf("%s version %d: err=%v, want ErrUnsupportedBoxVersion", s.Name, p[0], err)
			}
			if pos != int64(pre) {
				c.Failf("%s version %d: the reader is left at %d, the payload starts at %d", s.Name, p[0], pos, pre)
			}
		case rerr == errDontCare:
		default:
			if err == nil {
				if unlimitedCount(s, p) && c05Unlimited(c, s, t, ctx, p, b) {
					continue
				}
				c.Failf("%s: a payload that is %v was accepted: n=%d of %d, %+v (tail %d)", s.Name, rerr, n, len(p), b, i)
			}
		}
	}
	switch rerr {
	case nil:
		if k < len(p) {
			return "accepted with bytes left"
		}
		return "accepted"
	}
	return rerr.Error()
}

// c05Unlimited recognises the known finding: a declared count of 0xffffffff
// entries is read as "as many as fit".
func c05Unlimited(c *Case, s *Spec, t mp4.BoxType, ctx mp4.Context, p []byte, b mp4.IBox) bool {
	old := limitless
	limitless = true
	v, _, err := s.Decode(p, ctx)
	limitless = old
	if err != nil || diffBoxes(b, s.Build(v, t)) != "" {
		return false
	}
	c.Class("known finding count-ffffffff")
	theWorker.known["count-ffffffff"] = "a declared table length of 0xffffffff is taken for \"up to the end of the payload\", so a payload too short for that many entries is accepted (e.g. co64 00000000ffffffff)"
	return true
}

func c05Beyond(c *Case, s *Spec, t mp4.BoxType, ctx mp4.Context, p []byte, over uint64) {
	if s.User && s.Full && (len(p) == 0 || p[0] == 255) {
		return
	}
	size := uint64(len(p)) + over
	if _, _, e := s.Decode(append(append([]byte{}, p...), make([]byte, min(over, 64))...), ctx); e == errHuge {
		return
	}
	r := bytes.NewReader(p)
	b, n, err := mp4.UnmarshalAny(r, t, size, ctx)
	if err != nil {
		return
	}
	if n > uint64(len(p)) {
		c.Failf("%s: %d bytes reported, the stream has %d", s.Name, n, len(p))
	}
	if int(n) != len(p)-r.Len() {
		c.Failf("%s: %d bytes reported, the reader is at %d", s.Name, n, len(p)-r.Len())
	}
	// accepted: the fields must not have needed the missing bytes
	if over > 1<<16 {
		return
	}
	for _, fill := range []byte{0, 0xff, 0x41} {
		q := append(append([]byte{}, p...), bytes.Repeat([]byte{fill}, int(over))...)
		v, k, rerr := s.Decode(q, ctx)
		if rerr == errDontCare || unlimitedCount(s, q) {
			return
		}
		if rerr != nil {
			c.Failf("%s of declared size %d accepted from a stream of %d bytes; with the rest present it is %v", s.Name, size, len(p), rerr)
		}
		if uint64(k) != n {
			c.Failf("%s of declared size %d: %d bytes used from a stream of %d bytes, the fields occupy %d", s.Name, size, n, len(p), k)
		}
		if d := diffBoxes(b, s.Build(v, t)); d != "" {
			c.Failf("%s of declared size %d from a stream of %d bytes: %s", s.Name, size, len(p), d)
		}
	}
}
