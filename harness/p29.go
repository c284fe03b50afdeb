package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"strings"

	"gopkg.in/yaml.v2"
)

func init() {
	register(&Prop{
		ID: "C29", Level: "exploration",
		Rule:        "at least one track with samples or segments",
		Assumptions: []string{"brands are ASCII", "a file holds its samples either in the tables of the tracks or in fragments", "picture size and profile are those of unencrypted AVC sample entries", "one run per fragment", "seconds are compared in single precision"},
		Subs: []Sub{
			{Name: "progressive", N: 5000, F: func(c *Case) { c29Run(c, false, false, false) }},
			{Name: "huge", N: 1500, F: func(c *Case) { c29Run(c, c.Chance(3), false, true) }},
			{Name: "fragmented", N: 5000, F: func(c *Case) { c29Run(c, true, false, false) }},
			{Name: "large", N: 300, F: large(100, func(c *Case) { c29Run(c, c.Bool(), false, false) })},
			{Name: "binary", N: 200, F: func(c *Case) { c29Run(c, c.Bool(), true, false) }},
		},
	})
}

type repTrack struct {
	TrackID         uint32  `yaml:"track_id"`
	Timescale       uint32  `yaml:"timescale"`
	Duration        uint64  `yaml:"duration"`
	DurationSeconds float64 `yaml:"duration_seconds"`
	Codec           string  `yaml:"codec"`
	Encrypted       bool    `yaml:"encrypted"`
	Width           uint16  `yaml:"width"`
	Height          uint16  `yaml:"height"`
	SampleNum       int     `yaml:"sample_num"`
	ChunkNum        int     `yaml:"chunk_num"`
	IDRFrameNum     int     `yaml:"idr_frame_num"`
	Bitrate         uint64  `yaml:"bitrate"`
	MaxBitrate      uint64  `yaml:"max_bitrate"`
}

type rep struct {
	MajorBrand       string     `yaml:"major_brand"`
	MinorVersion     uint32     `yaml:"minor_version"`
	CompatibleBrands []string   `yaml:"compatible_brands"`
	FastStart        bool       `yaml:"fast_start"`
	Timescale        uint32     `yaml:"timescale"`
	Duration         uint64     `yaml:"duration"`
	DurationSeconds  float64    `yaml:"duration_seconds"`
	Tracks           []repTrack `yaml:"tracks"`
}

func secs(d uint64, ts uint32) float64 {
	if ts == 0 {
		return 0
	}
	return float64(d) / float64(ts)
}

// c29Want derives the report from the movie; skip names tracks whose bitrates
// go beyond 64 bits.
func c29Want(m *movie) (r rep, skip map[int]bool) {
	skip = map[int]bool{}
	r.MajorBrand = "\x00\x00\x00\x00"
	if m.hasFtyp {
		r.MajorBrand, r.MinorVersion = m.major, m.minor
	}
	r.CompatibleBrands = append([]string{}, m.brands...)
	r.FastStart, r.Timescale, r.Duration = m.fast, m.timescale, m.duration
	r.DurationSeconds = secs(m.duration, m.timescale)
	r.Tracks = []repTrack{}
	for i, t := range m.tracks {
		x := repTrack{TrackID: t.id, Timescale: t.timescale, Duration: t.duration, DurationSeconds: secs(t.duration, t.timescale), SampleNum: len(t.samples), ChunkNum: len(t.chunks)}
		x.Encrypted = t.kind == "encv" || t.kind == "enca"
		switch t.kind {
		case "avc1", "encv":
			x.Codec = "avc1"
			if t.kind == "avc1" && t.hasAvcC {
				x.Codec = fmt.Sprintf("avc1.%02X%02X%02X", t.avc.Profile, t.avc.ProfileCompatibility, t.avc.Level)
				x.Width, x.Height = t.avc.Width, t.avc.Height
				x.IDRFrameNum = len(t.idrs())
			}
		case "mp4a", "enca":
			x.Codec = "mp4a"
			if t.hasEsds && t.aac.OTI != 0 {
				x.Codec += fmt.Sprintf(".%X", t.aac.OTI)
				if t.aac.AudOTI != 0 {
					x.Codec += fmt.Sprintf(".%d", t.aac.AudOTI)
				}
			}
		default:
			x.Codec = "unknown"
		}
		ps, pd := []uint64{0}, []uint64{0}
		add := func(size, dur uint64) {
			ps, pd = append(ps, ps[len(ps)-1]+size), append(pd, pd[len(pd)-1]+dur)
		}
		for _, s := range t.samples {
			add(uint64(s.size), uint64(s.delta))
		}
		fit := true
		for _, s := range m.segs {
			if s.trackID != t.id {
				continue
			}
			d, z, _ := s.totals()
			r, ok := rate(z, uint64(t.timescale), d)
			fit = fit && ok
			x.MaxBitrate = max(x.MaxBitrate, r)
			add(z, d)
		}
		var ok bool
		x.Bitrate, ok = rate(ps[len(ps)-1], uint64(t.timescale), pd[len(pd)-1])
		if len(t.samples) > 0 {
			x.MaxBitrate, _ = peakRate(ps, pd, t.timescale, uint64(t.timescale))
		}
		skip[i] = !ok || !fit
		r.Tracks = append(r.Tracks, x)
	}
	return
}

func c29Compare(got, want rep, skip map[int]bool) string {
	sec := func(a, b float64) bool { return math.Abs(a-b) <= 4e-7*math.Abs(b) }
	if len(got.Tracks) != len(want.Tracks) {
		return fmt.Sprintf("%d tracks, want %d", len(got.Tracks), len(want.Tracks))
	}
	if !sec(got.DurationSeconds, want.DurationSeconds) {
		return fmt.Sprintf("%v seconds, want %v", got.DurationSeconds, want.DurationSeconds)
	}
	for i := range got.Tracks {
		a, b := got.Tracks[i], want.Tracks[i]
		if !sec(a.DurationSeconds, b.DurationSeconds) {
			return fmt.Sprintf("track %d: %v seconds, want %v", i, a.DurationSeconds, b.DurationSeconds)
		}
		a.DurationSeconds = b.DurationSeconds
		if skip[i] {
			a.Bitrate, a.MaxBitrate = b.Bitrate, b.MaxBitrate
		}
		if a != b {
			return fmt.Sprintf("track %d: %+v, want %+v", i, a, b)
		}
	}
	got.DurationSeconds, got.Tracks, want.Tracks = want.DurationSeconds, nil, nil
	if a, b := fmt.Sprintf("%#v", got), fmt.Sprintf("%#v", want); a != b {
		return fmt.Sprintf("%s, want %s", a, b)
	}
	return ""
}

func c29Run(c *Case, frag, binary, huge bool) {
	m := newMovie(c)
	m.ascii = true
	m.real = true
	m.nosample = frag
	m.posTime = c.Bool()
	m.f.huge, m.huge = false, huge
	m.maxSample = 25
	if m.large = c.big > 0; m.large {
		m.maxTracks = c.Int(0, c.big)
	}
	m.build(frag)
	m.notes()
	name := writeSparse("in.mp4", render(m.ns))
	want, skip := c29Want(m)
	for _, t := range want.Tracks {
		c.Class("codec " + strings.SplitN(t.Codec, ".", 2)[0])
		c.ClassIf(t.IDRFrameNum > 0, "IDR frames")
		c.ClassIf(t.MaxBitrate > t.Bitrate, "peak above average")
		c.ClassIf(t.Bitrate > 0, "bitrate")
		if t.SampleNum > 0 || t.Bitrate > 0 {
			c.NonTrivial(fmt.Sprintf("%+v", want))
		}
	}
	formats := [][]string{{}, {"-format", "json"}, {"-format=json"}}
	js := runCmd(c, binary, "probe", append(formats[c.Pick(3)], name)...)
	if js.status != 0 {
		c.Failf("probe: status %d: %s", js.status, tail(js.out))
	}
	var got rep
	d := json.NewDecoder(bytes.NewReader(js.out))
	d.DisallowUnknownFields()
	if err := d.Decode(&got); err != nil || d.More() {
		c.Failf("probe: unreadable JSON (%v): %s", err, js.out)
	}
	if d := c29Compare(got, want, skip); d != "" {
		c.Failf("JSON report: %s", d)
	}
	var gm map[string]interface{}
	if err := json.Unmarshal(js.out, &gm); err != nil {
		c.Failf("probe: unreadable JSON (%v): %s", err, js.out)
	}
	ts, _ := gm["Tracks"].([]interface{})
	for i := -1; i < len(ts); i++ {
		m, keys := gm, []string{"MajorBrand", "MinorVersion", "CompatibleBrands", "FastStart", "Timescale", "Duration", "DurationSeconds", "Tracks"}
		if i >= 0 {
			m, _ = ts[i].(map[string]interface{})
			keys = []string{"TrackID", "Timescale", "Duration", "DurationSeconds", "Codec", "Encrypted"}
		}
		for _, k := range keys {
			if _, ok := m[k]; !ok {
				c.Failf("the JSON report lacks %s (track index %d): %s", k, i, js.out)
			}
		}
	}
	ys := runCmd(c, binary, "probe", append([][]string{{"-format", "yaml"}, {"-format=yaml"}}[c.Pick(2)], name)...)
	if ys.status != 0 {
		c.Failf("probe: status %d: %s", ys.status, tail(ys.out))
	}
	var y rep
	if err := yaml.UnmarshalStrict(ys.out, &y); err != nil {
		c.Failf("probe: unreadable YAML (%v): %s", err, ys.out)
	}
	var ym map[string]interface{}
	if err := yaml.Unmarshal(ys.out, &ym); err != nil {
		c.Failf("probe: unreadable YAML (%v): %s", err, ys.out)
	}
	ts, _ = ym["tracks"].([]interface{})
	if len(ts) != len(y.Tracks) {
		c.Failf("YAML report: no list of tracks: %s", ys.out)
	}
	has := func(k string, i int, ok bool) {
		if !ok {
			c.Failf("the YAML report lacks %s (track index %d): %s", k, i, ys.out)
		}
	}
	for _, k := range []string{"major_brand", "minor_version", "compatible_brands", "fast_start", "timescale", "duration", "duration_seconds", "tracks"} {
		_, ok := ym[k]
		has(k, -1, ok)
	}
	for i, t := range ts {
		m, _ := t.(map[interface{}]interface{})
		for _, k := range []string{"track_id", "timescale", "duration", "duration_seconds", "codec", "encrypted"} {
			_, ok := m[k]
			has(k, i, ok)
		}
	}
	if d := c29Compare(y, want, skip); d != "" {
		c.Failf("YAML report: %s", d)
	}
	if a, b := fmt.Sprintf("%#v", got), fmt.Sprintf("%#v", y); a != b {
		// the bitrates that go beyond 64 bits are equal in both, too
		c.Failf("JSON and YAML differ: %s and %s", a, b)
	}
}
