package main

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path"
	"sort"
	"strconv"
	"strings"

	mp4 "github.com/abema/go-mp4"
)

func init() {
	register(&Prop{
		ID: "C28", Level: "exploration",
		Rule:        "at least one fragment of a supported track",
		Assumptions: []string{"track ids are distinct, each trak has one tkhd, mdhd and sample entry, each moof one traf with one tfhd", "the peak bandwidth counts the media data boxes (of a fragment followed by several, the largest or all of them)", "durations are compared to the precision they are printed in"},
		Subs: []Sub{
			{Name: "divide", N: 6000, F: func(c *Case) { c28Run(c, false) }},
			{Name: "huge", N: 800, F: func(c *Case) {
				m, ts := c28Build(c)
				n := 0
				for m.ns[n] != m.moov && n < len(m.ns)-1 && m.ns[n].typ != bt("moof") {
					n++
				}
				m.ns = insertVast(c, m.ns, n+1)
				c28Judge(c, m, ts, false)
			}},
			{Name: "large", N: 200, F: large(300, func(c *Case) { c28Run(c, false) })},
			{Name: "fat", N: 400, F: fat(func(c *Case) { c28Run(c, false) })},
			{Name: "binary", N: 200, F: func(c *Case) { c28Run(c, true) }},
		},
	})
}

// movieRuns adds further runs to a fragment.
func (m *movie) moreRuns(s *mSeg) {
	c := m.c
	var traf *node
	for _, k := range s.moof.kids {
		if k.typ == bt("traf") {
			traf = k
		}
	}
	for i := c.Small(3); i > 0; i-- {
		v, fl := uint64(c.Pick(2)), uint64(0)
		w := &bb{}
		if c.Bool() {
			fl |= 1
			w.u32(c.UBits(32))
		}
		for _, b := range []uint64{0x100, 0x200, 0x400, 0x800} {
			if c.Bool() {
				fl |= b
			}
		}
		n := c.Small(8)
		for k := 0; k < n; k++ {
			d := s.defDur
			if fl&0x100 != 0 {
				d = uint32(c.UBits(32))
				w.u32(uint64(d))
			}
			for b := uint64(0x200); b < 0x1000; b <<= 1 {
				if fl&b != 0 {
					w.u32(c.UBits(32))
				}
			}
			s.durs, s.sizes, s.ctos = append(s.durs, d), append(s.sizes, 0), append(s.ctos, 0)
		}
		// the count comes before the optional fields
		traf.kids = append(traf.kids, m.mk("trun", m.ctx, append((&bb{}).full(v, fl).u32(uint64(n)).b, w.b...)))
	}
}

// leafBox is a typed box with generated fields and children.
func (m *movie) grown(t string, ctx mp4.Context) *node {
	n := m.f.typed(bt(t), ctx)
	if n.readable() && !noKids[n.typ] && n.pay != nil || t == "udta" {
		if m.f.budget < 6 {
			m.f.budget = 6
		}
		n.kids = append(n.kids, m.f.boxes(inside(n.typ, ctx), 2, false, m.c.Small(3))...)
	}
	return n
}

type c28Track struct {
	*mTrack
	dir  string
	segs []*mSeg
	init []byte
}

func c28Build(c *Case) (*movie, []*c28Track) {
	m := newMovie(c)
	m.nosample = c.Bool()
	m.gaOK = true
	m.maxSample = 12
	kinds := []string{"avc1", "mp4a", "encv", "enca", "other"}
	for i := len(kinds) - 1; i > 0; i-- {
		j := c.Pick(i + 1)
		kinds[i], kinds[j] = kinds[j], kinds[i]
	}
	m.kinds = kinds[:c.Pick(6)]
	if len(m.kinds) == 0 && c.Chance(2) {
		m.kinds = kinds[:2]
	}
	var root []*node
	if !c.Chance(8) {
		root = append(root, m.ftyp())
	}
	var mk []*node
	mk = append(mk, m.mvhd())
	for i := range m.kinds {
		t := m.trak(i)
		m.tracks = append(m.tracks, t)
		mk = append(mk, t.trak)
	}
	m.kinds = nil
	for i := c.Small(5); i > 0; i-- {
		switch c.Pick(3) {
		case 0:
			mk = append(mk, m.grown("pssh", m.ctx))
		case 1:
			mk = append(mk, m.grown("udta", m.ctx))
		case 2:
			var ex []*node
			for _, t := range m.tracks {
				ex = append(ex, m.mk("trex", m.ctx, (&bb{}).full(0, 0).u32(uint64(t.id), 1, c.UBits(20), c.UBits(20), 0).b))
			}
			mk = append(mk, m.mk("mvex", m.ctx, nil, m.mix(m.ctx, ex, true)...))
		}
	}
	if c.Bool() {
		for i := len(mk) - 1; i > 0; i-- {
			j := c.Pick(i + 1)
			mk[i], mk[j] = mk[j], mk[i]
		}
	}
	m.moov = m.mk("moov", m.ctx, nil, mk...)
	var rest []*node
	k := c.Small(10)
	if c.big > 0 {
		k = c.Int(0, c.big)
	}
	for ; k > 0; k-- {
		s := &mSeg{}
		f := m.fragment(s)
		m.moreRuns(s)
		m.segs = append(m.segs, s)
		rest = append(rest, f...)
	}
	if c.Chance(4) {
		rest = append([]*node{m.mk("mdat", m.ctx, m.media(40))}, rest...)
	}
	if c.Chance(4) {
		i := c.Pick(len(rest) + 1)
		rest = append(rest[:i:i], append([]*node{m.mk("mfra", m.ctx, nil, m.mk("mfro", m.ctx, (&bb{}).full(0, 0).u32(16).b))}, rest[i:]...)...)
	}
	at := 0
	if c.Chance(8) {
		at = c.Pick(len(rest) + 1)
	}
	root = append(root, rest[:at]...)
	root = append(root, m.moov)
	root = append(root, rest[at:]...)
	for _, n := range root {
		if n.typ == bt("mdat") && c.Chance(10) {
			n.zeros = uint64(c.Pick(200000))
		}
	}
	if l := root[len(root)-1]; c.Chance(5) {
		l.toEOF, l.hdr = true, 8
	}
	m.ns = root
	layout(root, 0, nil)
	var ts []*c28Track
	for _, t := range m.tracks {
		dir := map[string]string{"avc1": "video", "mp4a": "audio", "encv": "video_enc", "enca": "audio_enc"}[t.kind]
		if dir == "" {
			continue
		}
		x := &c28Track{mTrack: t, dir: dir}
		for _, s := range m.segs {
			if s.trackID == t.id {
				x.segs = append(x.segs, s)
			}
		}
		var in []*node
		for _, n := range root {
			switch n.typ.String() {
			case "ftyp":
				in = append(in, n)
			case "moov":
				v := *n
				v.kids = nil
				for _, k := range n.kids {
					if k.typ != bt("trak") || k == t.trak {
						v.kids = append(v.kids, k)
					}
				}
				in = append(in, &v)
			}
		}
		in = cloneTree(in)
		layout(in, 0, nil)
		x.init = render(in).bytes()
		ts = append(ts, x)
	}
	layout(root, 0, nil)
	return m, ts
}

func (s *mSeg) seconds(timescale uint32) float64 {
	var d uint64
	for _, x := range s.durs {
		d += uint64(x)
	}
	if timescale == 0 {
		return 0
	}
	return float64(d) / float64(timescale)
}

func near(a, b float64) bool {
	return math.Abs(a-b) <= 0.0000011+1e-12*math.Abs(b)
}

func c28Run(c *Case, binary bool) {
	m, ts := c28Build(c)
	c28Judge(c, m, ts, binary)
}

func c28Judge(c *Case, m *movie, ts []*c28Track, binary bool) {
	m.notes()
	file := render(m.ns)
	name := writeSparse("in.mp4", file)
	if err := os.RemoveAll("divided"); err != nil {
		panic(err)
	}
	if err := os.Mkdir("divided", 0777); err != nil {
		panic(err)
	}
	r := runCmd(c, binary, "divide", name, "divided")
	if r.status != 0 {
		c.Failf("divide: status %d: %s", r.status, tail(r.out))
	}
	want := map[string]bool{"playlist.m3u8": true}
	byDir := map[string]*c28Track{}
	for _, t := range ts {
		byDir[t.dir] = t
		want[t.dir] = true
		c.Class(t.dir)
	}
	if d := dirDiff("divided", want, nil); d != "" {
		c.Failf("divide: %s", d)
	}
	for _, t := range ts {
		c28Track1(c, t, file)
		if len(t.segs) > 0 {
			c.NonTrivial(m.summary(), t.init)
		}
	}
	c28Master(c, byDir)
	c.ClassIf(len(ts) > 2, "more than two tracks")
	c.ClassIf(m.ns[len(m.ns)-1].toEOF, "to end of file")
}

func dirDiff(dir string, want, may map[string]bool) string {
	es, err := os.ReadDir(dir)
	if err != nil {
		return err.Error()
	}
	have := map[string]bool{}
	for _, e := range es {
		have[e.Name()] = true
		if !want[e.Name()] && !may[e.Name()] {
			return fmt.Sprintf("%s has an unexpected entry %s", dir, e.Name())
		}
	}
	var miss []string
	for k := range want {
		if !have[k] {
			miss = append(miss, k)
		}
	}
	if len(miss) > 0 {
		sort.Strings(miss)
		return fmt.Sprintf("%s lacks %v", dir, miss)
	}
	return ""
}

func c28Track1(c *Case, t *c28Track, file *sparse) {
	dir := path.Join("divided", t.dir)
	want := map[string]bool{"init.mp4": true, "playlist.m3u8": true}
	for i := range t.segs {
		want[fmt.Sprintf("%d.mp4", i)] = true
	}
	may := map[string]bool{}
	if len(t.segs) == 0 {
		may["0.mp4"] = true
		if b, _ := os.ReadFile(path.Join(dir, "0.mp4")); len(b) > 0 {
			c.Failf("%s: a segment of %d bytes for no fragment", t.dir, len(b))
		}
	}
	if d := dirDiff(dir, want, may); d != "" {
		c.Failf("divide: %s", d)
	}
	read := func(n string) []byte {
		b, err := os.ReadFile(path.Join(dir, n))
		if err != nil {
			c.Failf("divide: %v", err)
		}
		return b
	}
	if b := read("init.mp4"); !bytes.Equal(b, t.init) {
		c.Failf("%s/init.mp4: %d bytes, want %d%s", t.dir, len(b), len(t.init), firstDiff(b, t.init))
	}
	max := 0.0
	for i, s := range t.segs {
		w := append([]byte{}, file.slice(s.moof.off, s.moof.end())...)
		for _, d := range s.mdat {
			w = append(w, file.slice(d.off, d.end())...)
		}
		if b := read(fmt.Sprintf("%d.mp4", i)); !bytes.Equal(b, w) {
			c.Failf("%s/%d.mp4: %d bytes, want %d%s", t.dir, i, len(b), len(w), firstDiff(b, w))
		}
		max = math.Max(max, s.seconds(t.timescale))
		c.ClassIf(len(s.mdat) != 1, "fragment with other than one mdat")
	}
	ls := strings.Split(string(read("playlist.m3u8")), "\n")
	c.Note("playlist", func() string { return strings.Join(ls, "\n") })
	if ls[0] != "#EXTM3U" {
		c.Failf("%s: no playlist: %q", t.dir, ls)
	}
	var uris []string
	var durs []float64
	mapped, ended, vod := false, false, false
	target := -1
	for _, l := range ls[1:] {
		switch {
		case strings.HasPrefix(l, "#EXTINF:"):
			v, err := strconv.ParseFloat(strings.TrimSuffix(l[8:], ","), 64)
			if err != nil || len(durs) != len(uris) {
				c.Failf("%s: playlist line %q", t.dir, l)
			}
			durs = append(durs, v)
		case strings.HasPrefix(l, "#EXT-X-MAP:"):
			mapped = attr(l, "URI") == "init.mp4" && len(durs) == 0
		case l == "#EXT-X-ENDLIST":
			ended = true
		case l == "#EXT-X-PLAYLIST-TYPE:VOD":
			vod = true
		case strings.HasPrefix(l, "#EXT-X-TARGETDURATION:"):
			target, _ = strconv.Atoi(l[22:])
		case strings.HasPrefix(l, "#") || l == "":
		default:
			uris = append(uris, l)
			if len(uris) != len(durs) || ended {
				c.Failf("%s: playlist line %q", t.dir, l)
			}
		}
	}
	if !mapped || !ended || !vod || len(uris) != len(t.segs) {
		c.Failf("%s: playlist %q for %d segments", t.dir, ls, len(t.segs))
	}
	for i, s := range t.segs {
		if uris[i] != fmt.Sprintf("%d.mp4", i) {
			c.Failf("%s: segment %d of the playlist is %q", t.dir, i, uris[i])
		}
		if x := s.seconds(t.timescale); !near(durs[i], x) {
			c.Failf("%s: segment %d lasts %v in the playlist, want %v", t.dir, i, durs[i], x)
		}
	}
	if float64(target) != math.Ceil(max) && !(near(max, math.Round(max)) && float64(target) == math.Round(max)) {
		c.Failf("%s: target duration %d for segments up to %v", t.dir, target, max)
	}
}

// attr gives an attribute of a playlist tag.
func attr(l, name string) string {
	_, l, _ = strings.Cut(l, ":")
	for l != "" {
		k, r, ok := strings.Cut(l, "=")
		if !ok {
			return ""
		}
		var v string
		if strings.HasPrefix(r, `"`) {
			v, r, _ = strings.Cut(r[1:], `"`)
			r = strings.TrimPrefix(r, ",")
		} else {
			v, r, _ = strings.Cut(r, ",")
		}
		if k == name {
			return v
		}
		l = r
	}
	return ""
}

func c28Master(c *Case, byDir map[string]*c28Track) {
	b, err := os.ReadFile("divided/playlist.m3u8")
	if err != nil {
		c.Failf("divide: %v", err)
	}
	ls := strings.Split(strings.TrimRight(string(b), "\n"), "\n")
	c.Note("master playlist", func() string { return string(b) })
	bad := func(f string, a ...interface{}) { c.Failf("master playlist: %s\n%s", fmt.Sprintf(f, a...), b) }
	pick := func(a string) *c28Track {
		if t := byDir[a]; t != nil {
			return t
		}
		return byDir[a+"_enc"]
	}
	at, vt := pick("audio"), pick("video")
	if ls[0] != "#EXTM3U" {
		bad("no #EXTM3U")
	}
	media, stream, uri := "", "", ""
	for i, l := range ls[1:] {
		switch {
		case strings.HasPrefix(l, "#EXT-X-MEDIA:"):
			if media != "" {
				bad("two renditions")
			}
			media = l
		case strings.HasPrefix(l, "#EXT-X-STREAM-INF:"):
			if stream != "" {
				bad("two streams")
			}
			stream = l
			if i+2 < len(ls) {
				uri = ls[i+2]
			}
		case strings.HasPrefix(l, "#") || l == "":
		default:
			if stream == "" || l != uri {
				bad("line %q", l)
			}
		}
	}
	if (media != "") != (at != nil) || (stream != "") != (vt != nil) {
		bad("audio %v, video %v", at != nil, vt != nil)
	}
	if at != nil {
		if attr(media, "TYPE") != "AUDIO" || attr(media, "URI") != at.dir+"/playlist.m3u8" {
			bad("audio %q", media)
		}
	}
	if vt == nil {
		return
	}
	if uri != vt.dir+"/playlist.m3u8" {
		bad("video %q", uri)
	}
	if x := attr(stream, "RESOLUTION"); x != fmt.Sprintf("%dx%d", vt.avc.Width, vt.avc.Height) {
		bad("resolution %s, want %dx%d", x, vt.avc.Width, vt.avc.Height)
	}
	if g := attr(stream, "AUDIO"); at != nil && (g == "" || g != attr(media, "GROUP-ID")) || at == nil && g != "" {
		bad("audio group %q", g)
	}
	bw, err := strconv.ParseUint(attr(stream, "BANDWIDTH"), 10, 64)
	if err != nil {
		bad("bandwidth: %v", err)
	}
	lo, hi := 0.0, 0.0
	for _, s := range vt.segs {
		d := s.seconds(vt.timescale)
		if d <= 0 {
			continue
		}
		sum := 0.0
		for _, x := range s.mdat {
			lo = math.Max(lo, float64(x.size)*8/d)
			sum += float64(x.size)
		}
		hi = math.Max(hi, sum*8/d)
	}
	if f := float64(bw); f < math.Floor(lo*(1-1e-12)) || f > hi*(1+1e-12) {
		bad("bandwidth %d, want between %f and %f", bw, lo, hi)
	}
	c.ClassIf(hi > 0, "with bandwidth")
}
