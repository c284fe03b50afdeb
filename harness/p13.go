package main

import (
	"strings"

	mp4 "github.com/abema/go-mp4"
)

func init() {
	register(&Prop{
		ID: "C13", Level: "exploration",
		Rule:        "the movie has at least one track with at least one sample",
		Assumptions: []string{"one kind of sample entry per track (besides an unencrypted one with the same parameters), one movie box, table sizes agree with each other", "AVC parameters are those of unencrypted AVC sample entries"},
		Subs: []Sub{
			{Name: "tables", N: 24000, F: func(c *Case) { c13Run(c, func(m *movie) {}) }},
			{Name: "real", N: 8000, F: func(c *Case) { c13Run(c, func(m *movie) { m.real = true; m.f.huge = false }) }},
			{Name: "huge", N: 5000, F: func(c *Case) { c13Run(c, func(m *movie) { m.real, m.huge = true, true }) }},
			{Name: "manysamples", N: 160, F: func(c *Case) {
				c.Fast(func() { c13Run(c, func(m *movie) { m.maxSample = 20000; m.maxTracks = 1; m.plain = true }) })
			}},
			{Name: "large", N: 600, F: func(c *Case) {
				n := c.Int(1, 60)
				k := c.Int(1, 10000/n)
				c.Fast(func() {
					c13Run(c, func(m *movie) { m.large = true; m.maxTracks, m.maxSample = n, k; m.real = c.Bool() })
				})
			}},
			{Name: "missing", N: 8000, F: c13Missing},
			{Name: "fragmented", N: 6000, F: func(c *Case) { c14Run(c, false, false) }},
		},
	})
	register(&Prop{
		ID: "C14", Level: "exploration",
		Rule:        "the file has at least one fragment with at least one sample",
		Assumptions: []string{"totals fit 32 bits and composition-adjusted offsets fit 31 bits, the widths in which they are reported"},
		Subs: []Sub{
			{Name: "fragments", N: 24000, F: func(c *Case) { c14Run(c, false, false) }},
			{Name: "huge", N: 8000, F: func(c *Case) { c14Run(c, true, false) }},
			{Name: "large", N: 500, F: func(c *Case) { c.Fast(func() { c14Run(c, c.Bool(), true) }) }},
			{Name: "missing", N: 8000, F: c14Missing},
		},
	})
}

func (m *movie) notes() {
	c := m.c
	c.Note("facts", func() string { return m.summary() })
	c.Note("tree", func() string { return nodesString(m.ns) })
	c.Note("file", func() string {
		f := render(m.ns)
		if f.size > 1<<16 {
			return "(large)"
		}
		return renderVal(f.bytes())
	})
}

func (m *movie) judge(p *mp4.ProbeInfo, err error) {
	c := m.c
	if err != nil {
		c.Failf("probing failed: %v", err)
	}
	got, want := probeFacts(p), m.facts()
	d := factDiff(got, want)
	if d == "" {
		return
	}
	// known finding: the sync extension is looked for in the wrong place
	known := false
	old := []uint8{}
	for _, t := range m.tracks {
		old = append(old, t.aac.AudOTI)
		if t.gaSync {
			known = true
			t.aac.AudOTI = 2
		}
	}
	if known {
		d2 := factDiff(got, m.facts())
		if d2 == "" {
			theWorker.known["asc-ga"] = "detectAACProfile looks for the SBR sync extension right behind the channel configuration, without the GASpecificConfig that comes between (e.g. AudioSpecificConfig 1390 56e5 a0 is reported as object type 2, not 5)"
			c.Class("known finding asc-ga")
			return
		}
	}
	for i, t := range m.tracks {
		t.aac.AudOTI = old[i]
	}
	c.Failf("probing reports %s", d)
}

func c13Run(c *Case, set func(m *movie)) {
	m := newMovie(c)
	m.gaOK, m.anyOrder = true, true
	set(m)
	m.build(false)
	m.notes()
	for _, t := range m.tracks {
		c.Class(t.kind)
		if len(t.samples) > 0 {
			c.NonTrivial(m.summary())
		}
		c.ClassIf(t.gaSync, "standard sync extension")
		c.ClassIf(t.co64, "64-bit chunk offsets")
	}
	c.ClassIf(m.fast, "fast start")
	c.ClassIf(m.qt, "QuickTime")
	r := &sparseReader{s: render(m.ns), pos: int64(c.U64() >> 40)}
	var p *mp4.ProbeInfo
	var err error
	if c.Chance(4) {
		p, err = mp4.ProbeFra(r)
	} else {
		p, err = mp4.Probe(r)
	}
	m.judge(p, err)
	if c.Chance(4) {
		p, err = mp4.Probe(r)
		m.judge(p, err)
	}
}

// remove takes the first box of one of the types out of the tree.
func remove(ns []*node, t string) ([]*node, bool) {
	for i, n := range ns {
		if n.typ == bt(t) {
			return append(append([]*node{}, ns[:i]...), ns[i+1:]...), true
		}
		if k, ok := remove(n.kids, t); ok {
			n.kids = k
			return ns, true
		}
	}
	return ns, false
}

func c13Missing(c *Case) {
	m := newMovie(c)
	m.plain = true
	m.build(false)
	if len(m.tracks) == 0 {
		return
	}
	t := m.tracks[c.Pick(len(m.tracks))]
	what := []string{"tkhd", "mdhd", "stts", "stsc", string(t.chunkBox.typ[:]), "stbl", "minf", "mdia"}[c.Pick(8)]
	k, ok := remove(t.trak.kids, what)
	if !ok {
		c.Failf("generator: no %s", what)
	}
	t.trak.kids = k
	layout(m.ns, 0, nil)
	m.notes()
	c.Note("missing", what)
	c.NonTrivial(m.summary(), what)
	c.Class(what)
	if p, err := mp4.Probe(&sparseReader{s: render(m.ns)}); err == nil {
		c.Failf("a track without %s is reported: %s", what, strings.Join(probeFacts(p), "\n"))
	}
}

func c14Run(c *Case, huge, large bool) {
	m := newMovie(c)
	if m.large = large; large {
		m.maxTracks = 20
	}
	m.nosample = true
	m.anyOrder = true
	m.huge = huge
	m.build(true)
	m.notes()
	for _, s := range m.segs {
		if len(s.durs) > 0 {
			c.NonTrivial(m.summary())
		}
		c.ClassIf(!s.hasTrun, "no run")
		c.ClassIf(s.moof.off > 1<<32, "beyond 4 GiB")
		_, _, o := s.totals()
		c.ClassIf(o < 0, "negative offset")
	}
	p, err := mp4.Probe(&sparseReader{s: render(m.ns), pos: int64(c.U64() >> 40)})
	m.judge(p, err)
	c.More(len(m.segs))
}

func c14Missing(c *Case) {
	m := newMovie(c)
	m.plain = true
	m.nosample = true
	m.build(true)
	if len(m.segs) == 0 {
		return
	}
	s := m.segs[c.Pick(len(m.segs))]
	what := []string{"tfhd", "traf"}[c.Pick(2)]
	s.moof.kids, _ = remove(s.moof.kids, what)
	layout(m.ns, 0, nil)
	m.notes()
	c.Note("missing", what)
	c.NonTrivial(m.summary(), what)
	if p, err := mp4.Probe(&sparseReader{s: render(m.ns)}); err == nil {
		c.Failf("a fragment without %s is reported: %s", what, strings.Join(probeFacts(p), "\n"))
	}
}
