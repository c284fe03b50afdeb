package main

import (
	"fmt"
	"strings"
	"time"
	"unicode"

	mp4 "github.com/abema/go-mp4"
)

func init() {
	register(&Prop{
		ID: "C17", Level: "exploration",
		Rule:        "the text form shows at least one field",
		Assumptions: []string{"the display kinds in spec_types.go are those the library documents"},
		Subs: []Sub{
			{Name: "text", N: 160000, F: func(c *Case) { c17One(c, drawSpec(c), newGen(c)) }},
			{Name: "evenly", N: 50000, F: func(c *Case) {
				g := newGen(c)
				g.max = 6
				c17One(c, specs[c.Pick(len(specs))], g)
			}},
			{Name: "bigtables", N: 500, Thorough: 25, F: func(c *Case) {
				g := newGen(c)
				g.max = 3
				g.big = bigSizes[c.Pick(len(bigSizes))]
				s := bigSpec(c)
				c.Fast(func() { c17One(c, s, g) })
			}},
			{Name: "hugetables", N: 10, Thorough: 30, MaxShard: 4, MemLimit: 5 << 30, CPULimit: 200 * time.Second, F: func(c *Case) {
				s, g := drawHuge(c, 1<<20)
				c.Fast(func() { c17One(c, s, g) })
			}},
			{Name: "unregistered", N: 10000, F: c17Unregistered},
		},
	})
}

var indents = []string{"", "", "  ", " ", "\t", "--"}

func c17One(c *Case, s *Spec, g *Gen) {
	g.junk = c.Bool()
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	if c.Chance(5) {
		lengthen(c, s, v, ctx)
	}
	b := s.BuildAll(v, t)
	indent := indents[c.Pick(len(indents))]
	noteBox(c, s, t, ctx, nil)
	c.Note("box", b)
	c.Note("indent", indent)
	c.Class(s.class())
	want := s.Text(v, ctx, indent)
	c.Note("text", want)
	if want != "" {
		c.NonTrivial(t[:], want)
	}
	var got string
	var err error
	if indent == "" && c.Bool() {
		got, err = mp4.Stringify(b, ctx)
	} else {
		got, err = mp4.StringifyWithIndent(b, indent, ctx)
	}
	if err != nil {
		c.Failf("text form of %s: %v", s.Name, err)
	}
	if got != want && s.Name == "item" {
		// known finding: the flags of a numbered metadata item are shown as
		// zero whatever they are
		fl := fmt.Sprintf("Flags=%s", bytesText('f', v.F[1].B))
		alt := strings.Replace(want, fl, "Flags=0x000000", 1)
		if fl != "Flags=0x000000" && got == alt {
			theWorker.known["item-flags"] = "the text form of a numbered metadata item (Item) shows Flags=0x000000 whatever its flags are"
			c.Class("known finding item-flags")
			want = got
		}
	}
	if got != want {
		c.Failf("text form of %s is\n%s\nwant\n%s", s.Name, got, want)
	}
	if indent == "" {
		for _, r := range got {
			if !unicode.IsGraphic(r) {
				c.Failf("text form of %s holds the unprintable %q: %q", s.Name, r, got)
			}
		}
	}
}

// lengthen gives the lists with a declared length more elements than that,
// which are then no part of the box.
func lengthen(c *Case, s *Spec, v *Val, ctx mp4.Context) {
	for _, l := range s.leaves(v, ctx, nil, func(f *Fld) bool { return (f.K == KSlice || f.K == KBytes) && f.Len != nil }) {
		if l.f.Len(&l.e) < 0 || c.Bool() {
			continue
		}
		for k := c.Int(1, 3); k > 0; k-- {
			if l.f.K == KBytes {
				l.v.B = append(l.v.B, byte(c.Pick(256)))
			} else if n := len(l.v.L); n > 0 {
				l.v.L = append(l.v.L, l.v.L[n-1])
			} else {
				l.v.L = append(l.v.L, zeroFld(l.f.Elem))
			}
		}
		c.Class("list longer than declared")
	}
}

func c17Unregistered(c *Case) {
	s := drawSpec(c)
	g := newGen(c)
	g.max = 4
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	if s.Any {
		t = anyType(c)
	}
	ctx2 := g.anyContext()
	b := s.Build(v, t)
	if specFor(t, ctx2) != nil {
		return
	}
	noteBox(c, s, t, ctx2, nil)
	c.NonTrivial(t[:], s.Name, fmt.Sprintf("%+v", ctx2))
	if txt, err := mp4.Stringify(b, ctx2); err != mp4.ErrBoxInfoNotFound || txt != "" {
		c.Failf("text form of a box of unregistered type %q: %q, err=%v", string(t[:]), txt, err)
	}
}
