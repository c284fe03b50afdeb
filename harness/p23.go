package main

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"strings"

	mp4 "github.com/abema/go-mp4"
)

// A version-independent accessor: the field read for version 0 and for
// version 1. With a table, the fields are those of its entries.
type acc struct {
	box    func() mp4.IBox
	method string
	table  string
	v0, v1 string
}

func accs(box func() mp4.IBox, table string, a ...string) []acc {
	var o []acc
	for i := 0; i+2 < len(a); i += 3 {
		o = append(o, acc{box, a[i], table, a[i+1], a[i+2]})
	}
	return o
}

var accessors = func() []acc {
	var o []acc
	add := func(a []acc) { o = append(o, a...) }
	times := []string{
		"GetCreationTime", "CreationTimeV0", "CreationTimeV1",
		"GetModificationTime", "ModificationTimeV0", "ModificationTimeV1",
		"GetDuration", "DurationV0", "DurationV1",
	}
	add(accs(func() mp4.IBox { return &mp4.Mvhd{} }, "", times...))
	add(accs(func() mp4.IBox { return &mp4.Mdhd{} }, "", times...))
	add(accs(func() mp4.IBox { return &mp4.Tkhd{} }, "", times...))
	add(accs(func() mp4.IBox { return &mp4.Mehd{} }, "",
		"GetFragmentDuration", "FragmentDurationV0", "FragmentDurationV1"))
	add(accs(func() mp4.IBox { return &mp4.Tfdt{} }, "",
		"GetBaseMediaDecodeTime", "BaseMediaDecodeTimeV0", "BaseMediaDecodeTimeV1"))
	add(accs(func() mp4.IBox { return &mp4.Sidx{} }, "",
		"GetEarliestPresentationTime", "EarliestPresentationTimeV0", "EarliestPresentationTimeV1",
		"GetFirstOffset", "FirstOffsetV0", "FirstOffsetV1"))
	add(accs(func() mp4.IBox { return &mp4.Cslg{} }, "",
		"GetCompositionToDTSShift", "CompositionToDTSShiftV0", "CompositionToDTSShiftV1",
		"GetLeastDecodeToDisplayDelta", "LeastDecodeToDisplayDeltaV0", "LeastDecodeToDisplayDeltaV1",
		"GetGreatestDecodeToDisplayDelta", "GreatestDecodeToDisplayDeltaV0", "GreatestDecodeToDisplayDeltaV1",
		"GetCompositionStartTime", "CompositionStartTimeV0", "CompositionStartTimeV1",
		"GetCompositionEndTime", "CompositionEndTimeV0", "CompositionEndTimeV1"))
	add(accs(func() mp4.IBox { return &mp4.Ctts{} }, "Entries",
		"GetSampleOffset", "SampleOffsetV0", "SampleOffsetV1"))
	add(accs(func() mp4.IBox { return &mp4.Elst{} }, "Entries",
		"GetSegmentDuration", "SegmentDurationV0", "SegmentDurationV1",
		"GetMediaTime", "MediaTimeV0", "MediaTimeV1"))
	add(accs(func() mp4.IBox { return &mp4.Tfra{} }, "Entries",
		"GetTime", "TimeV0", "TimeV1",
		"GetMoofOffset", "MoofOffsetV0", "MoofOffsetV1"))
	add(accs(func() mp4.IBox { return &mp4.Trun{} }, "Entries",
		"GetSampleCompositionTimeOffset", "SampleCompositionTimeOffsetV0", "SampleCompositionTimeOffsetV1"))
	add(accs(func() mp4.IBox { return &mp4.Saio{} }, "",
		"GetOffset", "OffsetV0", "OffsetV1"))
	return o
}()

// fillAny gives every number of v a value; tables get n entries.
func fillAny(c *Case, v reflect.Value, n int) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fillAny(c, v.Field(i), n)
			}
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		for i := 0; i < n; i++ {
			fillAny(c, v.Index(i), n)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillAny(c, v.Index(i), n)
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(c.IBits(v.Type().Bits()))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(c.UBits(v.Type().Bits()))
	case reflect.Bool:
		v.SetBool(c.Bool())
	}
}

func bigOf(v reflect.Value) *big.Int {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return big.NewInt(v.Int())
	}
	return new(big.Int).SetUint64(v.Uint())
}

func init() {
	register(&Prop{
		ID: "C23", Level: "exploration",
		Rule: "accessors: the fields of the versions differ; flags: an operation changes some bit; brands: the list changes; lists: at least two words",
		Assumptions: []string{
			"an entry index is within its table",
			"whitespace between words is that of ASCII",
			"testing several flag bits at once is checked where all or none of them are set",
		},
		Subs: []Sub{
			{Name: "versions", N: 200000, F: c23Versions},
			{Name: "decoded", N: 50000, F: c23Decoded},
			{Name: "fixedpoint", N: 150000, F: c23Fixed},
			{Name: "flags", N: 60000, F: c23Flags},
			{Name: "brands", N: 60000, F: c23Brands},
			{Name: "lists", N: 60000, F: c23Lists},
			{Name: "names", N: 200, F: c23Names},
		},
	})
}

// c23Call calls the accessor and compares it with the field of the version.
func c23Call(c *Case, a acc, b mp4.IBox, ver uint8, n int) {
	rv := reflect.ValueOf(b)
	idx := 0
	var args []reflect.Value
	field := func(name string) reflect.Value {
		v := rv.Elem()
		if a.table != "" {
			return v.FieldByName(a.table).Index(idx).FieldByName(name)
		}
		v = v.FieldByName(name)
		if v.Kind() == reflect.Slice {
			return v.Index(idx)
		}
		return v
	}
	if a.table != "" || rv.Elem().FieldByName(a.v0).Kind() == reflect.Slice {
		idx = c.Pick(n)
		args = append(args, reflect.ValueOf(idx))
	}
	want := new(big.Int)
	switch ver {
	case 0:
		want = bigOf(field(a.v0))
	case 1:
		want = bigOf(field(a.v1))
	}
	keep := reflect.New(rv.Elem().Type())
	deepCopy(keep.Elem(), rv.Elem())
	got := rv.MethodByName(a.method).Call(args)[0]
	if bigOf(got).Cmp(want) != 0 {
		c.Failf("%T version %d: %s(%v) = %v, want %v", b, ver, a.method, idx, got, want)
	}
	if d := diffBoxes(b, keep.Interface()); d != "" {
		c.Failf("%T: %s changed the box: %s", b, a.method, d)
	}
}

func deepCopy(dst, src reflect.Value) {
	switch src.Kind() {
	case reflect.Struct:
		dst.Set(src)
		for i := 0; i < src.NumField(); i++ {
			if dst.Field(i).CanSet() {
				deepCopy(dst.Field(i), src.Field(i))
			}
		}
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()))
		for i := 0; i < src.Len(); i++ {
			deepCopy(dst.Index(i), src.Index(i))
		}
	case reflect.Ptr:
		if src.IsNil() {
			return
		}
		dst.Set(reflect.New(src.Type().Elem()))
		deepCopy(dst.Elem(), src.Elem())
	default:
		dst.Set(src)
	}
}

func c23Versions(c *Case) {
	a := accessors[c.Pick(len(accessors))]
	b := a.box()
	n := c.Int(1, 4)
	fillAny(c, reflect.ValueOf(b).Elem(), n)
	ver := uint8(c.Pick(3))
	if c.Chance(5) {
		ver = uint8(c.Pick(256))
	}
	b.SetVersion(ver)
	if b.GetVersion() != ver {
		c.Failf("%T: SetVersion(%d), GetVersion() = %d", b, ver, b.GetVersion())
	}
	c.Note("box", b)
	c.Note("method", a.method)
	c.Class(fmt.Sprintf("%T.%s", b, a.method))
	c.ClassIf(ver > 1, "unknown version")
	c.NonTrivial(fmt.Sprintf("%T", b), a.method, fmt.Sprintf("%+v", b))
	c23Call(c, a, b, ver, n)
}

// c23Decoded: the accessors of a decoded box give the values of the payload.
func c23Decoded(c *Case) {
	a := accessors[c.Pick(len(accessors))]
	t := a.box().GetType()
	s := specByType[t][0]
	g := newGen(c)
	ctx, t := g.context(s)
	v := g.value(s, ctx)
	p := mustEncode(s, v, ctx)
	noteBox(c, s, t, ctx, v)
	c.Note("payload", p)
	got, _, err := mp4.UnmarshalAny(bytes.NewReader(p), t, uint64(len(p)), ctx)
	if err != nil {
		c.Failf("decoding %s: %v", s.Name, err)
	}
	want := s.Build(v, t)
	if d := diffBoxes(got, want); d != "" {
		return // C01
	}
	n := 0
	rv := reflect.ValueOf(got).Elem()
	if a.table != "" {
		n = rv.FieldByName(a.table).Len()
	} else if f := rv.FieldByName([]string{a.v0, a.v1}[got.GetVersion()&1]); f.Kind() == reflect.Slice {
		n = f.Len()
	} else {
		n = 1
	}
	if n == 0 || got.GetVersion() > 1 {
		return
	}
	c.Class(fmt.Sprintf("%s version %d", s.Name, got.GetVersion()))
	c.NonTrivial(t[:], a.method, p)
	c23Call(c, a, got, got.GetVersion(), n)
}

// c23Fixed: fixed-point accessors.
func c23Fixed(c *Case) {
	ratio := func(num int64, den int64, got float64, what string) {
		want := new(big.Rat).SetFrac64(num, den)
		x := new(big.Rat)
		if x.SetFloat64(got) == nil || x.Cmp(want) != 0 {
			c.Failf("%s of %d/%d = %v", what, num, den, got)
		}
	}
	floor := func(num int64, den int64, got int64, what string) {
		want := num / den
		if num%den < 0 {
			want--
		}
		if got != want {
			c.Failf("%s of %d/%d = %d, want %d", what, num, den, got, want)
		}
	}
	switch c.Pick(5) {
	case 0:
		x := int32(c.IBits(32))
		c.Note("mvhd rate", x)
		c.NonTrivial("rate", x)
		b := &mp4.Mvhd{Rate: x}
		ratio(int64(x), 1<<16, b.GetRate(), "rate")
		floor(int64(x), 1<<16, int64(b.GetRateInt()), "integer rate")
	case 1:
		x := int16(c.IBits(16))
		c.Note("smhd balance", x)
		c.NonTrivial("balance", x)
		b := &mp4.Smhd{Balance: x}
		ratio(int64(x), 1<<8, float64(b.GetBalance()), "balance")
		floor(int64(x), 1<<8, int64(b.GetBalanceInt()), "integer balance")
	case 2, 3:
		x, y := uint32(c.UBits(32)), uint32(c.UBits(32))
		c.Note("tkhd size", fmt.Sprint(x, y))
		c.NonTrivial("size", x, y)
		b := &mp4.Tkhd{Width: x, Height: y}
		ratio(int64(x), 1<<16, b.GetWidth(), "width")
		ratio(int64(y), 1<<16, b.GetHeight(), "height")
		floor(int64(x), 1<<16, int64(b.GetWidthInt()), "integer width")
		floor(int64(y), 1<<16, int64(b.GetHeightInt()), "integer height")
	default:
		x := uint32(c.UBits(32))
		c.Note("sample rate", x)
		c.NonTrivial("samplerate", x)
		b := &mp4.AudioSampleEntry{SampleRate: x}
		ratio(int64(x), 1<<16, b.GetSampleRate(), "sample rate")
		floor(int64(x), 1<<16, int64(b.GetSampleRateInt()), "integer sample rate")
	}
}

// c23Flags: version and flags of boxes.
func c23Flags(c *Case) {
	s := drawSpec(c)
	b := s.New()
	if c.Chance(8) {
		b = &rAnyFull{}
	}
	fb := reflect.ValueOf(b).Elem().FieldByName("FullBox")
	if !fb.IsValid() {
		// plain boxes have neither
		c.Class("plain box")
		switch c.Pick(4) {
		case 0:
			b.SetFlags(uint32(c.UBits(32)))
		case 1:
			b.AddFlag(uint32(c.UBits(32)))
		case 2:
			b.RemoveFlag(uint32(c.UBits(32)))
		default:
			b.SetVersion(uint8(c.UBits(8)))
		}
		if b.GetVersion() != 0 || b.GetFlags() != 0 {
			c.Failf("%T has version %d, flags %x", b, b.GetVersion(), b.GetFlags())
		}
		return
	}
	c.Class("full box")
	model, ver := uint32(c.UBits(24)), uint8(c.UBits(8))
	b.SetFlags(model)
	b.SetVersion(ver)
	var log []string
	log = append(log, fmt.Sprintf("%T with version %d, flags %06x", b, ver, model))
	c.Note("calls", func() string { return strings.Join(log, "\n") })
	changed := false
	bits := func() uint32 {
		x := uint32(c.UBits(32))
		if c.Bool() {
			x = 1 << uint(c.Pick(26))
		}
		return x
	}
	for n := c.Int(1, 8); n > 0; n-- {
		x := bits()
		old := model
		switch c.Pick(5) {
		case 0:
			log = append(log, fmt.Sprintf("SetFlags(%x)", x))
			b.SetFlags(x)
			model = x & 0xffffff
		case 1:
			log = append(log, fmt.Sprintf("AddFlag(%x)", x))
			b.AddFlag(x)
			model |= x & 0xffffff
		case 2:
			log = append(log, fmt.Sprintf("RemoveFlag(%x)", x))
			b.RemoveFlag(x)
			model &^= x
		case 3:
			ver = uint8(c.UBits(8))
			log = append(log, fmt.Sprintf("SetVersion(%d)", ver))
			b.SetVersion(ver)
		default:
			log = append(log, fmt.Sprintf("CheckFlag(%x)", x))
			if model&x == 0 && b.CheckFlag(x) {
				c.Failf("CheckFlag(%x) with flags %x is true", x, model)
			}
			if x != 0 && model&x == x && !b.CheckFlag(x) {
				c.Failf("CheckFlag(%x) with flags %x is false", x, model)
			}
		}
		changed = changed || old != model
		f := fb.FieldByName("Flags")
		got := uint32(f.Index(0).Uint())<<16 | uint32(f.Index(1).Uint())<<8 | uint32(f.Index(2).Uint())
		if b.GetFlags() != model || got != model || b.GetVersion() != ver || fb.FieldByName("Version").Uint() != uint64(ver) {
			c.Failf("after %s: version %d, flags %06x (stored %06x), want version %d, flags %06x", log[len(log)-1], b.GetVersion(), b.GetFlags(), got, ver, model)
		}
		for i := 0; i < 24; i++ {
			if b.CheckFlag(1<<uint(i)) != (model>>uint(i)&1 == 1) {
				c.Failf("CheckFlag(%x) with flags %06x is %v", 1<<uint(i), model, b.CheckFlag(1<<uint(i)))
			}
		}
		c.More(1)
	}
	// nothing else was touched
	fb.Set(reflect.Zero(fb.Type()))
	if d := diffBoxes(b, reflect.New(reflect.TypeOf(b).Elem()).Interface()); d != "" {
		c.Failf("flag operations changed the box: %s", d)
	}
	if changed {
		c.NonTrivial(strings.Join(log, ";"))
	}
}

// c23Brands: the compatible brands as a set.
func c23Brands(c *Case) {
	pool := [][4]byte{mp4.BrandQT(), mp4.BrandISOM(), mp4.BrandISO2(), {}, {'a', 'b', 'c', 'd'}, {'a', 'b', 'c', 'e'}, {'d', 'c', 'b', 'a'}}
	b := &mp4.Ftyp{MinorVersion: uint32(c.UBits(32)), MajorBrand: pool[c.Pick(len(pool))]}
	model := map[[4]byte]int{}
	major, minor := b.MajorBrand, b.MinorVersion
	var log []string
	for n := c.Pick(6); n > 0; n-- {
		x := pool[c.Pick(len(pool))]
		b.CompatibleBrands = append(b.CompatibleBrands, mp4.CompatibleBrandElem{CompatibleBrand: x})
		model[x]++
		log = append(log, fmt.Sprintf("has %q", string(x[:])))
	}
	c.Note("calls", func() string { return strings.Join(log, "\n") })
	changed := false
	for n := c.Int(1, 10); n > 0; n-- {
		x := pool[c.Pick(len(pool))]
		if c.Chance(6) {
			copy(x[:], c.Bytes(4))
		}
		switch c.Pick(3) {
		case 0:
			log = append(log, fmt.Sprintf("add %q", string(x[:])))
			b.AddCompatibleBrand(x)
			if model[x] == 0 {
				model[x] = 1
				changed = true
			}
		case 1:
			log = append(log, fmt.Sprintf("remove %q", string(x[:])))
			b.RemoveCompatibleBrand(x)
			changed = changed || model[x] > 0
			delete(model, x)
		default:
			log = append(log, fmt.Sprintf("query %q", string(x[:])))
			if b.HasCompatibleBrand(x) != (model[x] > 0) {
				c.Failf("HasCompatibleBrand(%q) = %v", string(x[:]), b.HasCompatibleBrand(x))
			}
		}
		got := map[[4]byte]int{}
		for _, e := range b.CompatibleBrands {
			got[e.CompatibleBrand]++
		}
		if !reflect.DeepEqual(got, model) {
			c.Failf("after %s the brands are %q, want %v", log[len(log)-1], b.CompatibleBrands, model)
		}
		for _, x := range pool {
			if b.HasCompatibleBrand(x) != (model[x] > 0) {
				c.Failf("after %s: HasCompatibleBrand(%q) = %v", log[len(log)-1], string(x[:]), b.HasCompatibleBrand(x))
			}
		}
		if b.MajorBrand != major || b.MinorVersion != minor {
			c.Failf("after %s the major brand is %q, the minor version %d", log[len(log)-1], b.MajorBrand, b.MinorVersion)
		}
		c.More(1)
	}
	if changed {
		c.NonTrivial(strings.Join(log, ";"))
	}
}

// c23Lists: the space-separated lists of a subtitle sample entry.
func c23Lists(c *Case) {
	var lists [3][]string
	var texts [3]string
	for k := range lists {
		var t string
		ws := func(min int) {
			for n := c.Int(min, 3); n > 0; n-- {
				t += string(rune(" \t\n\r\v\f"[[]int{0, 0, 0, 1, 2, 3, 4, 5}[c.Pick(8)]]))
			}
		}
		ws(0)
		for i, n := 0, c.Pick(5); i < n; i++ {
			if i > 0 {
				ws(1)
			}
			var w string
			for m := c.Int(1, 8); m > 0; m-- {
				w += string([]rune{'a', 'Z', ':', '/', '.', ',', '"', '<', 'é', '漢', '_', '\x01', '0'}[c.Pick(13)])
			}
			lists[k] = append(lists[k], w)
			t += w
		}
		ws(0)
		texts[k] = t
		if len(lists[k]) > 1 {
			c.NonTrivial(k, t)
		}
	}
	c.Note("texts", fmt.Sprintf("%q", texts))
	b := &mp4.XMLSubtitleSampleEntry{Namespace: texts[0], SchemaLocation: texts[1], AuxiliaryMIMETypes: texts[2]}
	for k, got := range [][]string{b.GetNamespaceList(), b.GetSchemaLocationList(), b.GetAuxiliaryMIMETypesList()} {
		if len(got) != len(lists[k]) || len(got) > 0 && !reflect.DeepEqual(got, lists[k]) {
			c.Failf("list %d of %q is %q, want %q", k, texts[k], got, lists[k])
		}
	}
	if b.Namespace != texts[0] || b.SchemaLocation != texts[1] || b.AuxiliaryMIMETypes != texts[2] {
		c.Failf("asking for the lists changed the box")
	}
}

// c23Names: the named brands.
func c23Names(c *Case) {
	all := []struct {
		s string
		b [4]byte
	}{
		{"qt  ", mp4.BrandQT()}, {"isom", mp4.BrandISOM()}, {"iso2", mp4.BrandISO2()}, {"iso3", mp4.BrandISO3()},
		{"iso4", mp4.BrandISO4()}, {"iso5", mp4.BrandISO5()}, {"iso6", mp4.BrandISO6()}, {"iso7", mp4.BrandISO7()},
		{"iso8", mp4.BrandISO8()}, {"iso9", mp4.BrandISO9()}, {"avc1", mp4.BrandAVC1()}, {"mp41", mp4.BrandMP41()},
		{"mp71", mp4.BrandMP71()},
	}
	e := all[c.Pick(len(all))]
	c.Note("brand", e.s)
	c.NonTrivial(e.s)
	if string(e.b[:]) != e.s {
		c.Failf("the brand named %q is %q", e.s, string(e.b[:]))
	}
}
