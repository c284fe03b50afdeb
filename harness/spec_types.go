package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	mp4 "github.com/abema/go-mp4"
)

// Spec is the layout of one supported box structure.
type Spec struct {
	Name     string
	Types    []mp4.BoxType
	Versions []int // nil: any
	Full     bool
	Any      bool // one structure for several types
	Def      *Def
	New      func() mp4.IBox
	Applies  func(ctx mp4.Context) bool // nil: every context
	Ctx      func(g *Gen) mp4.Context   // extra context generator
	Check    func(e *Env, v *Val) error
	Parent   bool // children may follow the fields
	Open     bool // reads to the end of the payload: nothing may follow
	Item     bool // numbered metadata item
	Weight   int
	User     bool // a generated user structure
	Misfit   bool // does not add up to whole bytes
}

func (s *Spec) class() string {
	if s.User {
		return "user structure"
	}
	return "type " + s.Name
}

func (s *Spec) tableClass(f *Fld) string {
	if s.User {
		return "table of a user structure"
	}
	return "table " + s.Name + "." + f.Name
}

func (s *Spec) supports(v int) bool {
	if s.Versions == nil {
		return true
	}
	for _, x := range s.Versions {
		if x == v {
			return true
		}
	}
	return false
}

var specs []*Spec

var specByType = map[mp4.BoxType][]*Spec{}

func tt(ss ...string) []mp4.BoxType {
	var r []mp4.BoxType
	for _, s := range ss {
		r = append(r, mp4.BoxType{s[0], s[1], s[2], s[3]})
	}
	return r
}

var dFull = def("FullBox", u8("Version", 8).fmt('d'), byA("Flags", 3).fmt('f'))

var dSampleEntry = def("SampleEntry", byA("Reserved", 6).cnst(), u16("DataReferenceIndex", 16))

// box defines a plain box, full defines one with version and flags.
func box(n string, newF func() mp4.IBox, fs ...*Fld) *Spec {
	s := &Spec{Name: n, Types: tt(n), Def: def(n, fs...), New: newF}
	specs = append(specs, s)
	return s
}

func full(n string, newF func() mp4.IBox, vers []int, fs ...*Fld) *Spec {
	fb := ext("FullBox", dFull)
	s := &Spec{Name: n, Types: tt(n), Versions: vers, Full: true, New: newF}
	fb.Gen = func(g *Gen, e *Env) *Val { return g.fullBox(s) }
	s.Def = def(n, append([]*Fld{fb}, fs...)...)
	specs = append(specs, s)
	return s
}

func (s *Spec) types(ss ...string) *Spec { s.Types = tt(ss...); s.Any = true; return s }
func (s *Spec) parent() *Spec            { s.Parent = true; return s }
func (s *Spec) open() *Spec              { s.Open = true; return s }
func (s *Spec) w(n int) *Spec            { s.Weight = n; return s }

var v0 = []int{0}
var v01 = []int{0, 1}

func fixed1616s(e *Env, v *Val) (string, bool) {
	x := int32(v.U)
	if x&0xffff == 0 {
		return strconv.Itoa(int(x >> 16)), true
	}
	return strconv.FormatFloat(float64(x)/65536, 'f', 5, 64), true
}

func fixed1616u(e *Env, v *Val) (string, bool) {
	x := uint32(v.U)
	if x&0xffff == 0 {
		return strconv.Itoa(int(x >> 16)), true
	}
	return strconv.FormatFloat(float64(x)/65536, 'f', 5, 64), true
}

func fixed88s(e *Env, v *Val) (string, bool) {
	x := int16(v.U)
	if x&0xff == 0 {
		return strconv.Itoa(int(x >> 8)), true
	}
	return strconv.FormatFloat(float64(x)/256, 'f', 3, 32), true
}

func quotedBytes(e *Env, v *Val) (string, bool) { return quote(string(v.B)), true }

func fourIs(name string, vals ...string) func(e *Env) bool {
	return func(e *Env) bool {
		for _, v := range vals {
			if string(e.B(name)) == v {
				return true
			}
		}
		return false
	}
}

func pick4(vals ...string) func(g *Gen, e *Env) *Val {
	return func(g *Gen, e *Env) *Val {
		if g.c.Chance(8) {
			return &Val{P: true, B: g.c.Bytes(4)}
		}
		return &Val{P: true, B: []byte(vals[g.c.Pick(len(vals))])}
	}
}

func pickU(bits int, vals ...uint64) func(g *Gen, e *Env) *Val {
	return func(g *Gen, e *Env) *Val {
		if g.c.Chance(6) {
			return &Val{P: true, U: g.c.UBits(bits)}
		}
		return &Val{P: true, U: vals[g.c.Pick(len(vals))]}
	}
}

func paramSet() *Def {
	return def("set", u16("Length", 16).cnt(), bySl("NALUnit").lenOf("Length"))
}

var (
	dBrand   = def("brand", byA("CompatibleBrand", 4).fmt('s').gen(pick4("isom", "iso2", "mp41", "qt  ", "avc1", "\xa9abc")))
	dAlstOpt = def("opt", u16("NumOutputSamples", 16), u16("NumTotalSamples", 16))
	dRap     = def("rap", bl("NumLeadingSamplesKnown", 1), u8("NumLeadingSamples", 7))
	dTele    = def("tele", bl("LevelIndependentlyDecodable", 1), u8("Reserved", 7).cnst())
)

func highProfile(p uint64) bool { return p == 100 || p == 110 || p == 122 || p == 144 }

func isRoll(e *Env) bool { return fourIs("GroupingType", "roll", "prol")(e) }

func sgpdNoLen(e *Env) bool { return e.Ver == 1 && e.U("DefaultLength") == 0 }

// sgpdDL is the default length, which only version 1 stores.
func sgpdDL(e *Env, up int) int64 {
	if e.Ver != 1 {
		return 0
	}
	return int64(e.at(up, "DefaultLength").U)
}

func sgpdIs(withLen bool, types ...string) func(e *Env) bool {
	t := fourIs("GroupingType", types...)
	return func(e *Env) bool { return t(e) && sgpdNoLen(e) != withLen }
}

func init() {
	box("btrt", func() mp4.IBox { return &mp4.Btrt{} }, u32("BufferSizeDB", 32), u32("MaxBitrate", 32), u32("AvgBitrate", 32))
	full("co64", func() mp4.IBox { return &mp4.Co64{} }, v0, u32("EntryCount", 32).cnt(), sl("ChunkOffset", u64f("", 64)).lenOf("EntryCount"))
	nclx := fourIs("ColourType", "nclx")
	icc := fourIs("ColourType", "rICC", "prof")
	// the colour type is itself kept only with nclx; other types keep their
	// payload
	box("colr", func() mp4.IBox { return &mp4.Colr{} },
		byA("ColourType", 4).fmt('s').gen(pick4("nclx", "nclx", "rICC", "prof", "nclc")),
		u16("ColourPrimaries", 16).cond(nclx), u16("TransferCharacteristics", 16).cond(nclx), u16("MatrixCoefficients", 16).cond(nclx),
		bl("FullRangeFlag", 1).cond(nclx), u8("Reserved", 7).cond(nclx),
		bySl("Profile").cond(icc), bySl("Unknown").cond(func(e *Env) bool { return !nclx(e) && !icc(e) })).open()
	full("cslg", func() mp4.IBox { return &mp4.Cslg{} }, v01,
		i32("CompositionToDTSShiftV0", 32).ver(0), i32("LeastDecodeToDisplayDeltaV0", 32).ver(0), i32("GreatestDecodeToDisplayDeltaV0", 32).ver(0),
		i32("CompositionStartTimeV0", 32).ver(0), i32("CompositionEndTimeV0", 32).ver(0),
		i64f("CompositionToDTSShiftV1", 64).nver(0), i64f("LeastDecodeToDisplayDeltaV1", 64).nver(0), i64f("GreatestDecodeToDisplayDeltaV1", 64).nver(0),
		i64f("CompositionStartTimeV1", 64).nver(0), i64f("CompositionEndTimeV1", 64).nver(0))
	full("ctts", func() mp4.IBox { return &mp4.Ctts{} }, v01, u32("EntryCount", 32).cnt(),
		sl("Entries", st("", def("e", u32("SampleCount", 32), u32("SampleOffsetV0", 32).ver(0), i32("SampleOffsetV1", 32).ver(1)))).lenOf("EntryCount"))
	box("dinf", func() mp4.IBox { return &mp4.Dinf{} }).parent()
	full("dref", func() mp4.IBox { return &mp4.Dref{} }, v0, u32("EntryCount", 32)).parent()
	full("url ", func() mp4.IBox { return &mp4.Url{} }, v0, cs("Location").nopt(1))
	full("urn ", func() mp4.IBox { return &mp4.Urn{} }, v0, cs("Name").nopt(1), cs("Location").nopt(1))
	box("edts", func() mp4.IBox { return &mp4.Edts{} }).parent()
	full("elst", func() mp4.IBox { return &mp4.Elst{} }, v01, u32("EntryCount", 32).cnt(),
		sl("Entries", st("", def("e", u32("SegmentDurationV0", 32).ver(0), i32("MediaTimeV0", 32).ver(0), u64f("SegmentDurationV1", 64).ver(1), i64f("MediaTimeV1", 64).ver(1),
			i16("MediaRateInteger", 16), i16("MediaRateFraction", 16).cnst()))).lenOf("EntryCount"))
	emsg := full("emsg", func() mp4.IBox { return &mp4.Emsg{} }, v01, cs("SchemeIdUri").zver(1), cs("Value").zver(1), u32("Timescale", 32),
		u32("PresentationTimeDelta", 32).ver(0), u64f("PresentationTime", 64).ver(1), u32("EventDuration", 32), u32("Id", 32), bySl("MessageData").fmt('s')).open()
	emsg.Def.Wire = func(e *Env) []int {
		if e.Ver == 1 {
			return []int{0, 3, 4, 5, 6, 7, 1, 2, 8}
		}
		return nil
	}
	box("fiel", func() mp4.IBox { return &mp4.Fiel{} }, u8("FieldCount", 8), u8("FieldOrdering", 8))
	box("free", func() mp4.IBox { return &mp4.Free{} }, bySl("Data")).open()
	box("skip", func() mp4.IBox { return &mp4.Skip{} }, bySl("Data")).open()
	box("frma", func() mp4.IBox { return &mp4.Frma{} }, byA("DataFormat", 4).fmt('s'))
	brands := func() []*Fld {
		return []*Fld{byA("MajorBrand", 4).fmt('s'), u32("MinorVersion", 32), sl("CompatibleBrands", st("", dBrand)).align(32)}
	}
	box("ftyp", func() mp4.IBox { return &mp4.Ftyp{} }, brands()...).open()
	box("styp", func() mp4.IBox { return &mp4.Styp{} }, brands()...).open()
	name := fld("Name", KName)
	name.Gen = func(g *Gen, e *Env) *Val {
		s := g.str()
		if e.U("PreDefined") != 0 && len(s) > 0 && int(s[0]) == len(s) {
			s += "z"
		}
		return &Val{P: true, S: s}
	}
	full("hdlr", func() mp4.IBox { return &mp4.Hdlr{} }, v0, u32("PreDefined", 32).gen(pickU(32, 0, 0, 0x6d686c72)), byA("HandlerType", 4).fmt('s').gen(pick4("vide", "soun", "mdir", "meta")),
		arr("Reserved", 3, u32("", 32)).cnst(), name).open()
	box("hvcC", func() mp4.IBox { return &mp4.HvcC{} },
		u8("ConfigurationVersion", 8), u8("GeneralProfileSpace", 2), bl("GeneralTierFlag", 1), u8("GeneralProfileIdc", 5),
		arr("GeneralProfileCompatibility", 32, bl("", 1)), byA("GeneralConstraintIndicator", 6), u8("GeneralLevelIdc", 8),
		u8("Reserved1", 4).cnst(), u16("MinSpatialSegmentationIdc", 12), u8("Reserved2", 6).cnst(), u8("ParallelismType", 2),
		u8("Reserved3", 6).cnst(), u8("ChromaFormatIdc", 2), u8("Reserved4", 5).cnst(), u8("BitDepthLumaMinus8", 3),
		u8("Reserved5", 5).cnst(), u8("BitDepthChromaMinus8", 3), u16("AvgFrameRate", 16), u8("ConstantFrameRate", 2), u8("NumTemporalLayers", 2),
		u8("TemporalIdNested", 2), u8("LengthSizeMinusOne", 2), u8("NumOfNaluArrays", 8).cnt(),
		sl("NaluArrays", st("", def("na", bl("Completeness", 1), bl("Reserved", 1), u8("NaluType", 6), u16("NumNalus", 16).cnt(),
			sl("Nalus", st("", paramSet())).lenOf("NumNalus")))).lenOf("NumOfNaluArrays"))
	box("mdat", func() mp4.IBox { return &mp4.Mdat{} }, bySl("Data")).open()
	full("mdhd", func() mp4.IBox { return &mp4.Mdhd{} }, v01, u32("CreationTimeV0", 32).ver(0), u32("ModificationTimeV0", 32).ver(0),
		u64f("CreationTimeV1", 64).ver(1), u64f("ModificationTimeV1", 64).ver(1), u32("Timescale", 32), u32("DurationV0", 32).ver(0), u64f("DurationV1", 64).ver(1),
		bl("Pad", 1).hid(), arr("Language", 3, u8("", 5)).fmt('l'), u16("PreDefined", 16))
	for _, n := range []struct {
		s string
		f func() mp4.IBox
	}{
		{"mdia", func() mp4.IBox { return &mp4.Mdia{} }}, {"mfra", func() mp4.IBox { return &mp4.Mfra{} }}, {"minf", func() mp4.IBox { return &mp4.Minf{} }},
		{"moof", func() mp4.IBox { return &mp4.Moof{} }}, {"moov", func() mp4.IBox { return &mp4.Moov{} }}, {"mvex", func() mp4.IBox { return &mp4.Mvex{} }},
		{"schi", func() mp4.IBox { return &mp4.Schi{} }}, {"sinf", func() mp4.IBox { return &mp4.Sinf{} }}, {"stbl", func() mp4.IBox { return &mp4.Stbl{} }},
		{"traf", func() mp4.IBox { return &mp4.Traf{} }}, {"trak", func() mp4.IBox { return &mp4.Trak{} }}, {"udta", func() mp4.IBox { return &mp4.Udta{} }},
		{"wave", func() mp4.IBox { return &mp4.Wave{} }}, {"ilst", func() mp4.IBox { return &mp4.Ilst{} }}, {"vttc", func() mp4.IBox { return &mp4.VTTCueBox{} }},
		{"vtte", func() mp4.IBox { return &mp4.VTTEmptyCueBox{} }},
	} {
		box(n.s, n.f).parent()
	}
	full("mehd", func() mp4.IBox { return &mp4.Mehd{} }, v01, u32("FragmentDurationV0", 32).ver(0), u64f("FragmentDurationV1", 64).ver(1))
	full("meta", func() mp4.IBox { return &mp4.Meta{} }, v0).parent()
	full("mfhd", func() mp4.IBox { return &mp4.Mfhd{} }, v0, u32("SequenceNumber", 32))
	full("mfro", func() mp4.IBox { return &mp4.Mfro{} }, v0, u32("Size", 32))
	full("mvhd", func() mp4.IBox { return &mp4.Mvhd{} }, v01, u32("CreationTimeV0", 32).ver(0), u32("ModificationTimeV0", 32).ver(0),
		u64f("CreationTimeV1", 64).ver(1), u64f("ModificationTimeV1", 64).ver(1), u32("Timescale", 32), u32("DurationV0", 32).ver(0), u64f("DurationV1", 64).ver(1),
		i32("Rate", 32).str(fixed1616s), i16("Volume", 16), i16("Reserved", 16).cnst(), arr("Reserved2", 2, u32("", 32)).cnst(),
		arr("Matrix", 9, i32("", 32)).fmt('x'), arr("PreDefined", 6, i32("", 32)), u32("NextTrackID", 32))
	auxT := func() []*Fld {
		return []*Fld{byA("AuxInfoType", 4).fmt('s').opt(1), u32("AuxInfoTypeParameter", 32).opt(1).fmt('x')}
	}
	full("saio", func() mp4.IBox { return &mp4.Saio{} }, v01, append(auxT(), u32("EntryCount", 32).cnt(),
		sl("OffsetV0", u32("", 32)).ver(0).lenOf("EntryCount"), sl("OffsetV1", u64f("", 64)).nver(0).lenOf("EntryCount"))...)
	full("saiz", func() mp4.IBox { return &mp4.Saiz{} }, v0, append(auxT(), u8("DefaultSampleInfoSize", 8).fmt('d').gen(pickU(8, 0, 0, 8)), u32("SampleCount", 32).cnt(),
		bySl("SampleInfoSize").fmt('d').cond(func(e *Env) bool { return e.U("DefaultSampleInfoSize") == 0 }).lenOf("SampleCount"))...)

	se := func() *Fld { return ext("SampleEntry", dSampleEntry) }
	box("visual", func() mp4.IBox { return &mp4.VisualSampleEntry{} }, se(),
		u16("PreDefined", 16), u16("Reserved", 16).cnst(), arr("PreDefined2", 3, u32("", 32)), u16("Width", 16), u16("Height", 16),
		u32("Horizresolution", 32), u32("Vertresolution", 32), u32("Reserved2", 32).cnst(), u16("FrameCount", 16),
		byA("Compressorname", 32).str(func(e *Env, v *Val) (string, bool) {
			if v.B[0] <= 31 {
				return quote(string(v.B[1 : int(v.B[0])+1])), true
			}
			return "", false
		}).gen(func(g *Gen, e *Env) *Val {
			b := g.c.Bytes(32)
			if !g.c.Chance(4) {
				b[0] = byte(g.c.Pick(33))
			}
			return &Val{P: true, B: b}
		}), u16("Depth", 16), i16("PreDefined3", 16)).types("mp4v", "avc1", "encv", "hev1", "hvc1", "av01", "vp08", "vp09").parent().w(3)
	inWave := func(e *Env) bool { return e.Ctx.IsQuickTimeCompatible && e.Ctx.UnderWave }
	notWave := func(e *Env) bool { return !inWave(e) }
	box("audio", func() mp4.IBox { return &mp4.AudioSampleEntry{} }, se().cond(notWave),
		u16("EntryVersion", 16).cond(notWave).gen(pickU(16, 0, 1, 2)), arr("Reserved", 3, u16("", 16)).cond(notWave).cnst(),
		u16("ChannelCount", 16).cond(notWave), u16("SampleSize", 16).cond(notWave), u16("PreDefined", 16).cond(notWave), u16("Reserved2", 16).cond(notWave).cnst(),
		u32("SampleRate", 32).cond(notWave).str(fixed1616u),
		bySl("QuickTimeData").cond(func(e *Env) bool {
			return e.Ctx.IsQuickTimeCompatible && (e.Ctx.UnderWave || e.U("EntryVersion") == 1 || e.U("EntryVersion") == 2)
		}).lenf(func(e *Env) int64 {
			switch {
			case inWave(e):
				return toEnd
			case e.U("EntryVersion") == 1:
				return 16
			}
			return 36
		})).types("mp4a", "enca", "ac-3", "Opus", "ipcm", "fpcm").parent().w(6)
	box("avcC", func() mp4.IBox { return &mp4.AVCDecoderConfiguration{} },
		u8("ConfigurationVersion", 8), u8("Profile", 8).gen(pickU(8, 66, 77, 88, 100, 110, 122, 144, 100, 110, 122, 144, 44, 83, 86, 118, 128, 138, 139, 134, 135, 244)), u8("ProfileCompatibility", 8), u8("Level", 8),
		u8("Reserved", 6).cnst(), u8("LengthSizeMinusOne", 2), u8("Reserved2", 3).cnst(), u8("NumOfSequenceParameterSets", 5).cnt(),
		sl("SequenceParameterSets", st("", paramSet())).lenOf("NumOfSequenceParameterSets"),
		u8("NumOfPictureParameterSets", 8).cnt(), sl("PictureParameterSets", st("", paramSet())).lenOf("NumOfPictureParameterSets"),
		func() *Fld {
			f := fld("HighProfileFieldsEnabled", KComputed).hid()
			f.Comp = func(e *Env, left int64) bool { return left >= 32 && highProfile(e.U("Profile")) }
			f.Gen = func(g *Gen, e *Env) *Val {
				v := &Val{P: true}
				if highProfile(e.U("Profile")) && !g.c.Chance(4) {
					v.U = 1
				}
				return v
			}
			return f
		}(),
		u8("Reserved3", 6).cnst().cond(hpEnabled), u8("ChromaFormat", 2).cond(hpEnabled), u8("Reserved4", 5).cnst().cond(hpEnabled), u8("BitDepthLumaMinus8", 3).cond(hpEnabled),
		u8("Reserved5", 5).cnst().cond(hpEnabled), u8("BitDepthChromaMinus8", 3).cond(hpEnabled), u8("NumOfSequenceParameterSetExt", 8).cnt().cond(hpEnabled),
		sl("SequenceParameterSetsExt", st("", paramSet())).cond(hpEnabled).lenOf("NumOfSequenceParameterSetExt")).types("avcC").w(3).open().check(func(e *Env, v *Val) error {
		// the high profile fields only exist for the high profiles
		if v.F[s4(v, "HighProfileFieldsEnabled")].U != 0 && !highProfile(v.F[1].U) {
			return errBadBox
		}
		return nil
	})
	box("pasp", func() mp4.IBox { return &mp4.PixelAspectRatioBox{} }, u32("HSpacing", 32), u32("VSpacing", 32)).types("pasp")
	box("stpp", func() mp4.IBox { return &mp4.XMLSubtitleSampleEntry{} }, se(), cs("Namespace"), cs("SchemaLocation"), cs("AuxiliaryMIMETypes")).types("stpp").parent()
	box("sbtt", func() mp4.IBox { return &mp4.TextSubtitleSampleEntry{} }, se(), cs("ContentEncoding"), cs("MIMEFormat")).types("sbtt").parent()
	full("sbgp", func() mp4.IBox { return &mp4.Sbgp{} }, v01, u32("GroupingType", 32), u32("GroupingTypeParameter", 32).ver(1), u32("EntryCount", 32).cnt(),
		sl("Entries", st("", def("e", u32("SampleCount", 32), u32("GroupDescriptionIndex", 32)))).lenOf("EntryCount"))
	full("schm", func() mp4.IBox { return &mp4.Schm{} }, v0, byA("SchemeType", 4).fmt('s').gen(pick4("cenc", "cbcs")), u32("SchemeVersion", 32).fmt('x'), bySl("SchemeUri").opt(1).fmt('s')).open()
	full("sdtp", func() mp4.IBox { return &mp4.Sdtp{} }, v0, sl("Samples", st("", def("e", u8("IsLeading", 2), u8("SampleDependsOn", 2), u8("SampleIsDependedOn", 2), u8("SampleHasRedundancy", 2)))).align(8)).open()
	full("sgpd", func() mp4.IBox { return &mp4.Sgpd{} }, []int{1, 2},
		byA("GroupingType", 4).fmt('s').gen(pick4("roll", "prol", "alst", "alst", "rap ", "tele")),
		u32("DefaultLength", 32).ver(1).gen(func(g *Gen, e *Env) *Val {
			if g.c.Pick(2) == 0 {
				return &Val{P: true}
			}
			switch string(e.B("GroupingType")) {
			case "alst":
				return &Val{P: true, U: uint64(4 + 4*g.c.Small(min(g.max, 12)))}
			case "roll", "prol":
				return &Val{P: true, U: 2}
			case "rap ", "tele":
				return &Val{P: true, U: 1}
			}
			return &Val{P: true, U: g.c.UBits(32)}
		}),
		u32("DefaultSampleDescriptionIndex", 32).ver(2),
		u32("EntryCount", 32).gen(func(g *Gen, e *Env) *Val {
			n := g.c.Small(g.max)
			if string(e.B("GroupingType")) == "alst" && e.Ver == 2 && n > 1 {
				n = 1 // entries without a length cannot be delimited
			}
			if !fourIs("GroupingType", "roll", "prol", "alst", "rap ", "tele")(e) {
				return &Val{P: true, U: g.c.UBits(32)}
			}
			return &Val{P: true, U: uint64(n)}
		}),
		sl("RollDistances", i16("", 16)).cond(sgpdIs(true, "roll", "prol")).lenOf("EntryCount"),
		sl("RollDistancesL", st("", def("e", u32("DescriptionLength", 32), i16("RollDistance", 16)))).cond(sgpdIs(false, "roll", "prol")).lenOf("EntryCount"),
		sl("AlternativeStartupEntries", st("", alstDef(1, func(e *Env) int64 { return sgpdDL(e, 1) })).size(func(e *Env) int64 { return sgpdDL(e, 0) })).
			cond(sgpdIs(true, "alst")).lenOf("EntryCount"),
		sl("AlternativeStartupEntriesL", st("", def("el", u32("DescriptionLength", 32).gen(func(g *Gen, e *Env) *Val {
			return &Val{P: true, U: uint64(4 + 4*g.c.Small(min(g.max, 12)))}
		}), ext("AlternativeStartupEntry", alstDef(1, func(e *Env) int64 { return int64(e.at(1, "DescriptionLength").U) })).size(func(e *Env) int64 { return int64(e.U("DescriptionLength")) })))).
			cond(sgpdIs(false, "alst")).lenOf("EntryCount"),
		sl("VisualRandomAccessEntries", st("", dRap)).cond(sgpdIs(true, "rap ")).lenOf("EntryCount"),
		sl("VisualRandomAccessEntriesL", st("", def("e", u32("DescriptionLength", 32), ext("VisualRandomAccessEntry", dRap)))).cond(sgpdIs(false, "rap ")).lenOf("EntryCount"),
		sl("TemporalLevelEntries", st("", dTele)).cond(sgpdIs(true, "tele")).lenOf("EntryCount"),
		sl("TemporalLevelEntriesL", st("", def("e", u32("DescriptionLength", 32), ext("TemporalLevelEntry", dTele)))).cond(sgpdIs(false, "tele")).lenOf("EntryCount"),
		bySl("Unsupported").cond(func(e *Env) bool { return !fourIs("GroupingType", "roll", "prol", "alst", "rap ", "tele")(e) })).open().w(6)
	full("sidx", func() mp4.IBox { return &mp4.Sidx{} }, v01, u32("ReferenceID", 32), u32("Timescale", 32),
		u32("EarliestPresentationTimeV0", 32).ver(0), u32("FirstOffsetV0", 32).ver(0), u64f("EarliestPresentationTimeV1", 64).nver(0), u64f("FirstOffsetV1", 64).nver(0),
		u16("Reserved", 16).cnst(), u16("ReferenceCount", 16).cnt(),
		sl("References", st("", def("e", bl("ReferenceType", 1), u32("ReferencedSize", 31), u32("SubsegmentDuration", 32), bl("StartsWithSAP", 1), u32("SAPType", 3), u32("SAPDeltaTime", 28)))).lenOf("ReferenceCount"))
	full("smhd", func() mp4.IBox { return &mp4.Smhd{} }, v0, i16("Balance", 16).str(fixed88s), u16("Reserved", 16).cnst())
	full("stco", func() mp4.IBox { return &mp4.Stco{} }, v0, u32("EntryCount", 32).cnt(), sl("ChunkOffset", u32("", 32)).lenOf("EntryCount"))
	full("stsc", func() mp4.IBox { return &mp4.Stsc{} }, v0, u32("EntryCount", 32).cnt(),
		sl("Entries", st("", def("e", u32("FirstChunk", 32), u32("SamplesPerChunk", 32), u32("SampleDescriptionIndex", 32)))).lenOf("EntryCount"))
	full("stsd", func() mp4.IBox { return &mp4.Stsd{} }, v0, u32("EntryCount", 32)).parent()
	full("stss", func() mp4.IBox { return &mp4.Stss{} }, v0, u32("EntryCount", 32).cnt(), sl("SampleNumber", u32("", 32)).lenOf("EntryCount"))
	full("stsz", func() mp4.IBox { return &mp4.Stsz{} }, v0, u32("SampleSize", 32).gen(pickU(32, 0, 0, 77)), u32("SampleCount", 32).gen(func(g *Gen, e *Env) *Val {
		if e.U("SampleSize") != 0 {
			return &Val{P: true, U: g.c.UBits(32)}
		}
		return &Val{P: true, U: uint64(g.c.Small(g.max))}
	}), sl("EntrySize", u32("", 32)).lenf(func(e *Env) int64 {
		if e.U("SampleSize") == 0 {
			return int64(e.U("SampleCount"))
		}
		return 0
	}))
	full("stts", func() mp4.IBox { return &mp4.Stts{} }, v0, u32("EntryCount", 32).cnt(),
		sl("Entries", st("", def("e", u32("SampleCount", 32), u32("SampleDelta", 32)))).lenOf("EntryCount"))
	full("tfdt", func() mp4.IBox { return &mp4.Tfdt{} }, v01, u32("BaseMediaDecodeTimeV0", 32).ver(0), u64f("BaseMediaDecodeTimeV1", 64).ver(1))
	full("tfhd", func() mp4.IBox { return &mp4.Tfhd{} }, v0, u32("TrackID", 32), u64f("BaseDataOffset", 64).opt(1), u32("SampleDescriptionIndex", 32).opt(2),
		u32("DefaultSampleDuration", 32).opt(8), u32("DefaultSampleSize", 32).opt(0x10), u32("DefaultSampleFlags", 32).opt(0x20).fmt('x'))
	dyn := func(n string) func(e *Env) int {
		return func(e *Env) int { return 8 + 8*int(e.at(1, n).U) }
	}
	dynU := func(name, n string) *Fld { f := u32(name, 0); f.BitsF = dyn(n); return f }
	full("tfra", func() mp4.IBox { return &mp4.Tfra{} }, v01, u32("TrackID", 32), u32("Reserved", 26).cnst(), u8("LengthSizeOfTrafNum", 2), u8("LengthSizeOfTrunNum", 2), u8("LengthSizeOfSampleNum", 2),
		u32("NumberOfEntry", 32).cnt(), sl("Entries", st("", def("e", u32("TimeV0", 32).ver(0), u32("MoofOffsetV0", 32).ver(0), u64f("TimeV1", 64).ver(1), u64f("MoofOffsetV1", 64).ver(1),
			dynU("TrafNumber", "LengthSizeOfTrafNum"), dynU("TrunNumber", "LengthSizeOfTrunNum"), dynU("SampleNumber", "LengthSizeOfSampleNum")))).lenOf("NumberOfEntry")).w(2)
	full("tkhd", func() mp4.IBox { return &mp4.Tkhd{} }, v01, u32("CreationTimeV0", 32).ver(0), u32("ModificationTimeV0", 32).ver(0),
		u64f("CreationTimeV1", 64).ver(1), u64f("ModificationTimeV1", 64).ver(1), u32("TrackID", 32), u32("Reserved0", 32).cnst(), u32("DurationV0", 32).ver(0), u64f("DurationV1", 64).ver(1),
		arr("Reserved1", 2, u32("", 32)).cnst(), i16("Layer", 16), i16("AlternateGroup", 16), i16("Volume", 16), u16("Reserved2", 16).cnst(), arr("Matrix", 9, i32("", 32)).fmt('x'),
		u32("Width", 32).str(fixed1616u), u32("Height", 32).str(fixed1616u))
	full("trep", func() mp4.IBox { return &mp4.Trep{} }, v0, u32("TrackID", 32)).parent()
	full("trex", func() mp4.IBox { return &mp4.Trex{} }, v0, u32("TrackID", 32), u32("DefaultSampleDescriptionIndex", 32), u32("DefaultSampleDuration", 32), u32("DefaultSampleSize", 32), u32("DefaultSampleFlags", 32).fmt('x'))
	full("trun", func() mp4.IBox { return &mp4.Trun{} }, v01, u32("SampleCount", 32).cnt(), i32("DataOffset", 32).opt(1), u32("FirstSampleFlags", 32).opt(4).fmt('x'),
		sl("Entries", st("", def("e", u32("SampleDuration", 32).opt(0x100), u32("SampleSize", 32).opt(0x200), u32("SampleFlags", 32).opt(0x400).fmt('x'),
			u32("SampleCompositionTimeOffsetV0", 32).opt(0x800).ver(0), i32("SampleCompositionTimeOffsetV1", 32).opt(0x800).nver(0)))).lenOf("SampleCount")).w(4)
	full("vmhd", func() mp4.IBox { return &mp4.Vmhd{} }, v0, u16("Graphicsmode", 16), arr("Opcolor", 3, u16("", 16)))

	full("3gpp", func() mp4.IBox { return &mp4.Udta3GppString{} }, v0, bl("Pad", 1).hid(), arr("Language", 3, u8("", 5)).fmt('l'), bySl("Data").fmt('s')).types("titl", "dscp", "cprt", "perf", "auth", "gnre").open().
		ctx(func(c mp4.Context) bool { return c.UnderUdta }, func(g *Gen) mp4.Context {
			return mp4.Context{UnderUdta: true, IsQuickTimeCompatible: g.c.Bool(), UnderWave: g.c.Chance(8)}
		}).w(2)
	box("av1C", func() mp4.IBox { return &mp4.Av1C{} }, u8("Marker", 1).cnst(), u8("Version", 7).cnst(), u8("SeqProfile", 3), u8("SeqLevelIdx0", 5), u8("SeqTier0", 1), u8("HighBitdepth", 1), u8("TwelveBit", 1),
		u8("Monochrome", 1), u8("ChromaSubsamplingX", 1), u8("ChromaSubsamplingY", 1), u8("ChromaSamplePosition", 2), u8("Reserved", 3).cnst(), u8("InitialPresentationDelayPresent", 1),
		u8("InitialPresentationDelayMinusOne", 4), bySl("ConfigOBUs")).open()
	box("dac3", func() mp4.IBox { return &mp4.Dac3{} }, u8("Fscod", 2), u8("Bsid", 5), u8("Bsmod", 3), u8("Acmod", 3), u8("LfeOn", 1), u8("BitRateCode", 5), u8("Reserved", 5).cnst())

	esDescr := def("ES", u16("ESID", 16), bl("StreamDependenceFlag", 1), bl("UrlFlag", 1), bl("OcrStreamFlag", 1), i8("StreamPriority", 5),
		u16("DependsOnESID", 16).cond(func(e *Env) bool { return e.U("StreamDependenceFlag") != 0 }),
		u8("URLLength", 8).cnt().cond(func(e *Env) bool { return e.U("UrlFlag") != 0 }),
		bySl("URLString").fmt('s').cond(func(e *Env) bool { return e.U("UrlFlag") != 0 }).lenOf("URLLength"),
		u16("OCRESID", 16).cond(func(e *Env) bool { return e.U("OcrStreamFlag") != 0 }))
	dcDescr := def("DC", u8("ObjectTypeIndication", 8), i8("StreamType", 6), bl("UpStream", 1), bl("Reserved", 1), u32("BufferSizeDB", 24), u32("MaxBitrate", 32), u32("AvgBitrate", 32))
	tagIs := func(t uint64) func(e *Env) bool { return func(e *Env) bool { return e.U("Tag") == t } }
	szF := fld("Size", KVarint)
	szF.Go = 32
	szF.Gen = func(g *Gen, e *Env) *Val {
		if t := e.U("Tag"); t == 3 || t == 4 {
			return &Val{P: true, U: g.c.UBits(28)}
		}
		if g.c.Chance(10) {
			return &Val{P: true, U: uint64(g.c.Int(120, 300))}
		}
		return &Val{P: true, U: uint64(g.c.Small(g.max))}
	}
	full("esds", func() mp4.IBox { return &mp4.Esds{} }, v0, sl("Descriptors", st("", def("descr",
		i8("Tag", 8).gen(func(g *Gen, e *Env) *Val {
			if g.c.Chance(6) {
				return &Val{P: true, U: uint64(g.c.IBits(8))}
			}
			return &Val{P: true, U: uint64(g.c.Int(3, 6))}
		}).str(func(e *Env, v *Val) (string, bool) {
			switch v.U {
			case 3:
				return "ESDescr", true
			case 4:
				return "DecoderConfigDescr", true
			case 5:
				return "DecSpecificInfo", true
			case 6:
				return "SLConfigDescr", true
			}
			return "", false
		}), szF, ext("ESDescriptor", esDescr).ptr().cond(tagIs(3)), ext("DecoderConfigDescriptor", dcDescr).ptr().cond(tagIs(4)),
		bySl("Data").cond(func(e *Env) bool { t := e.U("Tag"); return t != 3 && t != 4 }).lenOf("Size"))))).open().w(4)

	for _, n := range []struct {
		s, f string
		n    func() mp4.IBox
	}{
		{"vttC", "Config", func() mp4.IBox { return &mp4.WebVTTConfigurationBox{} }}, {"vlab", "SourceLabel", func() mp4.IBox { return &mp4.WebVTTSourceLabelBox{} }},
		{"ctim", "CueCurrentTime", func() mp4.IBox { return &mp4.CueTimeBox{} }}, {"iden", "CueId", func() mp4.IBox { return &mp4.CueIDBox{} }},
		{"sttg", "Settings", func() mp4.IBox { return &mp4.CueSettingsBox{} }}, {"payl", "CueText", func() mp4.IBox { return &mp4.CuePayloadBox{} }},
		{"vtta", "CueAdditionalText", func() mp4.IBox { return &mp4.VTTAdditionalTextBox{} }},
	} {
		box(n.s, n.n, boxs(n.f)).open()
	}
	box("wvtt", func() mp4.IBox { return &mp4.WVTTSampleEntry{} }, se()).types("wvtt").parent()
	box("vsid", func() mp4.IBox { return &mp4.CueSourceIDBox{} }, u32("SourceId", 32))
	full("pcmC", func() mp4.IBox { return &mp4.PcmC{} }, v01, u8("FormatFlags", 8), u8("PCMSampleSize", 8))
	full("pssh", func() mp4.IBox { return &mp4.Pssh{} }, v01, byA("SystemID", 16).fmt('u'), u32("KIDCount", 32).cnt().nver(0),
		sl("KIDs", st("", def("kid", byA("KID", 16).fmt('u')))).nver(0).lenOf("KIDCount").str(func(e *Env, v *Val) (string, bool) {
			var s []string
			for i, x := range v.L {
				if uint64(i) < e.U("KIDCount") {
					s = append(s, uuidText(x.F[0].B))
				}
			}
			return "[" + strings.Join(s, ", ") + "]", true
		}),
		func() *Fld { f := i32("DataSize", 32); f.cnt(); return f }(), bySl("Data").lenf(func(e *Env) int64 { return int64(e.U("DataSize")) })).w(2)
	ivp := func(e *Env) bool { return e.U("DefaultIsProtected") == 1 && e.U("DefaultPerSampleIVSize") == 0 }
	full("tenc", func() mp4.IBox { return &mp4.Tenc{} }, v01, u8("Reserved", 8).fmt('d'), u8("DefaultCryptByteBlock", 4).fmt('d'), u8("DefaultSkipByteBlock", 4).fmt('d'),
		u8("DefaultIsProtected", 8).fmt('d').gen(pickU(8, 0, 1)), u8("DefaultPerSampleIVSize", 8).fmt('d').gen(pickU(8, 0, 8, 16)), byA("DefaultKID", 16).fmt('u'),
		u8("DefaultConstantIVSize", 8).fmt('d').cnt().cond(ivp), bySl("DefaultConstantIV").cond(ivp).lenOf("DefaultConstantIVSize")).w(3)

	dataFields := func() []*Fld {
		return []*Fld{u32("DataType", 32).gen(pickU(32, 0, 1, 2, 3, 14, 21, 22, 23)).str(func(e *Env, v *Val) (string, bool) {
			s, ok := map[uint64]string{0: "BINARY", 1: "UTF8", 2: "UTF16", 3: "MAC_STR", 14: "JPEG", 21: "INT", 22: "FLOAT32", 23: "FLOAT64"}[v.U]
			return s, ok
		}), u32("DataLang", 32), bySl("Data").str(func(e *Env, v *Val) (string, bool) {
			if e.U("DataType") == 1 {
				return quote(string(v.B)), true
			}
			return "", false
		})}
	}
	box("data", func() mp4.IBox { return &mp4.Data{} }, dataFields()...).open().
		ctx(func(c mp4.Context) bool { return c.UnderIlstMeta }, func(g *Gen) mp4.Context {
			return mp4.Context{UnderIlst: true, UnderIlstMeta: true, UnderIlstFreeMeta: g.c.Bool(), UnderUdta: g.c.Bool(), IsQuickTimeCompatible: g.c.Bool()}
		}).w(2)
	box("ilstmeta", func() mp4.IBox { return &mp4.IlstMetaContainer{} }).types(
		"----", "aART", "akID", "apID", "atID", "cmID", "cnID", "covr", "cpil", "cprt", "desc", "disk", "egid", "geID", "gnre", "pcst", "pgap", "plID", "purd", "purl", "rtng", "sfID",
		"soaa", "soal", "soar", "soco", "sonm", "sosn", "stik", "tmpo", "trkn", "tven", "tves", "tvnn", "tvsh", "tvsn",
		"\xa9ART", "\xa9alb", "\xa9cmt", "\xa9com", "\xa9day", "\xa9gen", "\xa9grp", "\xa9nam", "\xa9too", "\xa9wrt").parent().
		ctx(func(c mp4.Context) bool { return c.UnderIlst && !c.UnderIlstMeta }, func(g *Gen) mp4.Context {
			return mp4.Context{UnderIlst: true, UnderUdta: g.c.Bool(), IsQuickTimeCompatible: g.c.Bool()}
		}).w(2)
	box("ilststr", func() mp4.IBox { return &mp4.StringData{} }, bySl("Data").str(quotedBytes)).types("mean", "name").open().
		ctx(func(c mp4.Context) bool { return c.UnderIlstFreeMeta }, func(g *Gen) mp4.Context {
			return mp4.Context{UnderIlst: true, UnderIlstMeta: true, UnderIlstFreeMeta: true, UnderUdta: g.c.Bool()}
		})
	item := box("item", func() mp4.IBox { return &mp4.Item{} }, u8("Version", 8).fmt('d'), byA("Flags", 3).fmt('f'), bySl("ItemName").lenC(4).str(quotedBytes), st("Data", def("data", dataFields()...))).open().
		ctx(nil, nil).w(2)
	item.Any = true
	item.Item = true
	full("keys", func() mp4.IBox { return &mp4.Keys{} }, nil, func() *Fld { f := i32("EntryCount", 32); f.cnt(); return f }(),
		sl("Entries", st("", def("key", i32("KeySize", 32).gen(func(g *Gen, e *Env) *Val {
			return &Val{P: true, U: uint64(8 + g.c.Small(g.max))}
		}), bySl("KeyNamespace").lenC(4).str(quotedBytes), bySl("KeyValue").str(quotedBytes).lenf(func(e *Env) int64 { return int64(e.U("KeySize")) - 8 })))).lenf(func(e *Env) int64 { return int64(e.U("EntryCount")) })).w(2)
	mapped := func(e *Env) bool { return e.U("ChannelMappingFamily") != 0 }
	box("dOps", func() mp4.IBox { return &mp4.DOps{} }, u8("Version", 8).fmt('d'), u8("OutputChannelCount", 8).cnt(), u16("PreSkip", 16), u32("InputSampleRate", 32), i16("OutputGain", 16),
		u8("ChannelMappingFamily", 8).gen(pickU(8, 0, 1, 255)), u8("StreamCount", 8).cond(mapped), u8("CoupledCount", 8).cond(mapped), bySl("ChannelMapping").cond(mapped).lenOf("OutputChannelCount")).w(2)
	full("vpcC", func() mp4.IBox { return &mp4.VpcC{} }, nil, u8("Profile", 8), u8("Level", 8), u8("BitDepth", 4), u8("ChromaSubsampling", 3), u8("VideoFullRangeFlag", 1), u8("ColourPrimaries", 8),
		u8("TransferCharacteristics", 8), u8("MatrixCoefficients", 8), u16("CodecInitializationDataSize", 16).cnt(), bySl("CodecInitializationData").lenOf("CodecInitializationDataSize"))

	for _, s := range specs {
		if s.Item {
			continue
		}
		for _, t := range s.Types {
			// later definitions win
			specByType[t] = append([]*Spec{s}, specByType[t]...)
		}
	}
	for _, s := range specs {
		if s.Weight == 0 {
			s.Weight = 1
		}
		for i := 0; i < s.Weight; i++ {
			specPool = append(specPool, s)
		}
	}
}

var specPool []*Spec

var itemSpec *Spec

func specNamed(n string) *Spec {
	for _, s := range specs {
		if s.Name == n {
			return s
		}
	}
	panic("no spec " + n)
}

func hpEnabled(e *Env) bool { return e.U("HighProfileFieldsEnabled") != 0 }

func s4(v *Val, name string) int { return specNamed("avcC").Def.idx[name] }

func (s *Spec) check(f func(e *Env, v *Val) error) *Spec { s.Check = f; return s }

func (s *Spec) ctx(applies func(mp4.Context) bool, g func(g *Gen) mp4.Context) *Spec {
	s.Applies = applies
	s.Ctx = g
	return s
}

// alstDef lays out one alternative startup entry; total gives the byte size
// of the entry when it has one.
func alstDef(up int, total func(e *Env) int64) *Def {
	slots := func(e *Env) int64 { // 4-byte slots after the two counts
		t := total(e)
		if t < 4 {
			return -1
		}
		return (t - 4) / 4
	}
	opts := sl("Opts", st("", dAlstOpt)).align(32)
	opts.Gen = func(g *Gen, e *Env) *Val {
		n := slots(e)
		if n < 0 {
			n = int64(g.c.Small(g.max))
		} else {
			n -= int64(e.U("RollCount"))
		}
		v := &Val{P: true}
		for i := int64(0); i < n; i++ {
			v.L = append(v.L, g.fld(opts.Elem, e))
		}
		return v
	}
	return def("AlternativeStartupEntry", u16("RollCount", 16).gen(func(g *Gen, e *Env) *Val {
		n := slots(e)
		if n < 0 {
			n = int64(min(g.max, 12))
		}
		return &Val{P: true, U: uint64(g.c.Int(0, int(n)))}
	}), u16("FirstOutputSample", 16), sl("SampleOffset", u32("", 32)).lenOf("RollCount"), opts)
}

// specFor finds the structure a type has in a context.
func specFor(t mp4.BoxType, ctx mp4.Context) *Spec {
	for _, s := range specByType[t] {
		if s.Applies == nil || s.Applies(ctx) {
			return s
		}
	}
	if ctx.UnderIlst {
		n := int64(t[0])<<24 | int64(t[1])<<16 | int64(t[2])<<8 | int64(t[3])
		if n >= 1 && n <= int64(ctx.QuickTimeKeysMetaEntryCount) {
			return specNamed("item")
		}
	}
	return nil
}

// ---- value generation ----

type Gen struct {
	c    *Case
	max  int  // largest table
	big  int  // if set, size of the tables and open-ended fields of the box itself
	junk bool // also give values to absent fields
	vers int  // forced version, -1 = any supported
	fl   int64
	spec *Spec
	left int // so many list elements may still be generated
}

func newGen(c *Case) *Gen { return &Gen{c: c, max: 60, vers: -1, fl: -1, left: math.MaxInt} }

var flagPool = []uint32{1, 2, 4, 8, 0x10, 0x20, 0x100, 0x200, 0x400, 0x800, 0x10000, 0x20000}

func (g *Gen) flags() uint32 {
	if g.fl >= 0 {
		return uint32(g.fl)
	}
	c := g.c
	switch c.Pick(6) {
	case 0:
		return 0
	case 1:
		return uint32(c.U64()) & 0xffffff
	case 2:
		return 0xffffff
	default:
		var f uint32
		m := c.U64()
		for i, b := range flagPool {
			if m>>uint(i)&1 == 1 {
				f |= b
			}
		}
		return f
	}
}

func (g *Gen) fullBox(s *Spec) *Val {
	v := zeroStruct(dFull)
	v.F[0].P, v.F[1].P = true, true
	if s.Name == "meta" {
		return v
	}
	switch {
	case g.vers >= 0:
		v.F[0].U = uint64(g.vers)
	case s.Versions == nil:
		v.F[0].U = g.c.UBits(8)
	default:
		v.F[0].U = uint64(s.Versions[g.c.Pick(len(s.Versions))])
	}
	f := g.flags()
	v.F[1].B = []byte{byte(f >> 16), byte(f >> 8), byte(f)}
	return v
}

var strPool = []string{"", "a", "eng", "abc def", "été", "日本語", "tab\there", "line\nbreak", "bad\xff\xfeutf", "{x=1}", "\"quoted\"", "\u00a0\u2028\u200b", "{"}

// count draws the size of a table or open-ended field.
func (g *Gen) count(e *Env) int {
	if g.big > 0 && len(e.stack) <= 1 {
		return g.big
	}
	return g.c.Small(g.max)
}

func (g *Gen) str() string {
	c := g.c
	if g.big > 0 {
		b := make([]byte, g.big)
		for i := range b {
			b[i] = 0x20 + byte(c.U64()%0x5f)
		}
		return string(b)
	}
	switch c.Pick(5) {
	case 0:
		return strPool[c.Pick(len(strPool))]
	case 1:
		return string(noNul(c.Bytes(c.Small(g.max))))
	default:
		b := c.Bytes(c.Small(min(g.max, 24)))
		for i := range b {
			b[i] = 0x20 + b[i]%0x5f
		}
		return string(b)
	}
}

func noNul(b []byte) []byte {
	for i := range b {
		if b[i] == 0 {
			b[i] = '0'
		}
	}
	return b
}

// value generates a box of the given structure.
func (g *Gen) value(s *Spec, ctx mp4.Context) (v *Val) {
	g.spec = s
	defer func() { g.left = math.MaxInt }()
	if _, ok := userSource[s.Name]; ok {
		// lists within lists of generated structures can become very long
		big, most := g.big, g.max
		defer func() { g.big, g.max = big, most }()
		for i := 0; v == nil && i < 20; i++ {
			g.left = 1 << 18
			v = g.bounded(s, ctx)
			switch i {
			case 2:
				g.big = 0
			case 6:
				g.max = min(g.max, 3)
			}
		}
		if v != nil {
			return
		}
	}
	g.left = math.MaxInt
	v = g.strct(s.Def, &Env{Ctx: ctx})
	v.P = true
	return v
}

type tooLarge struct{}

// bounded gives nil instead of a box of too many values.
func (g *Gen) bounded(s *Spec, ctx mp4.Context) (v *Val) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(tooLarge); !ok {
				panic(r)
			}
			v = nil
		}
	}()
	v = g.strct(s.Def, &Env{Ctx: ctx})
	v.P = true
	return v
}

func (g *Gen) strct(d *Def, e *Env) *Val {
	v := zeroStruct(d)
	e.stack = append(e.stack, frame{d, v})
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	for i, f := range d.Fields {
		if !f.present(e) {
			if g.junk {
				switch f.K {
				case KUint, KInt, KBool, KCStr, KZStr, KBoxStr, KByteArr:
					v.F[i] = g.plain(f, e)
					v.F[i].P = false
				case KBytes:
					v.F[i] = &Val{B: g.c.Bytes(g.c.Pick(6))}
				case KSlice, KArr:
					if f.Elem.K == KUint || f.Elem.K == KInt {
						n := g.c.Pick(4)
						if f.K == KArr {
							n = f.N
						}
						v.F[i] = &Val{}
						for ; n > 0; n-- {
							v.F[i].L = append(v.F[i].L, g.plain(f.Elem, e))
						}
					}
				}
			}
			continue
		}
		v.F[i] = g.fld(f, e)
		v.F[i].P = true
		if f.Name == "FullBox" && len(e.stack) == 1 {
			fb := v.F[i]
			e.Ver = int(fb.F[0].U)
			b := fb.F[1].B
			e.Flags = uint32(b[0])<<16 | uint32(b[1])<<8 | uint32(b[2])
		}
	}
	return v
}

func (g *Gen) fld(f *Fld, e *Env) *Val {
	if f.Gen != nil {
		return f.Gen(g, e)
	}
	return g.plain(f, e)
}

func (g *Gen) plain(f *Fld, e *Env) *Val {
	c := g.c
	v := &Val{P: true}
	switch f.K {
	case KUint:
		n := f.Bits
		if f.BitsF != nil && f.present(e) {
			n = f.BitsF(e)
		} else if n == 0 {
			n = 8
		}
		v.U = c.UBits(n)
	case KInt:
		n := f.Bits
		if f.BitsF != nil {
			n = f.BitsF(e)
		}
		v.U = uint64(c.IBits(n))
	case KBool:
		v.U = uint64(c.Pick(2))
	case KCStr, KZStr, KBoxStr, KName:
		v.S = g.str()
	case KVarint:
		v.U = c.UBits(28)
	case KByteArr:
		v.B = c.Bytes(f.N)
		if f.Fmt == 's' && c.Bool() {
			for i := range v.B {
				v.B[i] = 0x20 + v.B[i]%0x5f
			}
		}
	case KBytes:
		n := int64(g.count(e))
		if f.Len != nil {
			if m := f.Len(e); m != toEnd {
				n = m
			}
		}
		if n < 0 || n > 1<<24+1 {
			panic(fmt.Sprintf("generator: %s length %d", f.Name, n))
		}
		if g.left -= int(n / 64); g.left < 0 {
			panic(tooLarge{})
		}
		v.B = c.Bytes(int(n))
	case KArr:
		for i := 0; i < f.N; i++ {
			v.L = append(v.L, g.fld(f.Elem, e))
		}
	case KSlice:
		n := int64(g.count(e))
		if f.Len != nil {
			n = f.Len(e)
		}
		if n < 0 || n > 1<<24+1 {
			panic(fmt.Sprintf("generator: %s length %d", f.Name, n))
		}
		if g.left -= int(n); g.left < 0 {
			panic(tooLarge{})
		}
		sub := *g
		sub.big = 0
		if f.Elem.K == KStruct && g.max > 12 {
			sub.max = 12
		}
		for i := int64(0); i < n; i++ {
			v.L = append(v.L, sub.fld(f.Elem, e))
		}
		g.left = sub.left
	case KStruct:
		x := g.strct(f.Def, e)
		x.P = true
		return x
	case KComputed:
	}
	return v
}

// context picks a context in which the structure applies, and a type.
func (g *Gen) context(s *Spec) (mp4.Context, mp4.BoxType) {
	c := g.c
	if s.Item {
		n := c.Int(1, 300)
		if c.Bool() {
			n = c.Int(1, 4)
		}
		k := c.Int(1, n)
		return mp4.Context{UnderIlst: true, QuickTimeKeysMetaEntryCount: n, UnderUdta: c.Bool(), IsQuickTimeCompatible: c.Bool(), UnderIlstMeta: c.Chance(6)},
			mp4.BoxType{byte(k >> 24), byte(k >> 16), byte(k >> 8), byte(k)}
	}
	for try := 0; try < 20; try++ {
		t := s.Types[c.Pick(len(s.Types))]
		var ctx mp4.Context
		if s.Ctx != nil {
			ctx = s.Ctx(g)
		} else {
			ctx = g.anyContext()
		}
		if specFor(t, ctx) == s {
			return ctx, t
		}
	}
	panic("generator: no context for " + s.Name)
}

func (g *Gen) anyContext() mp4.Context {
	m := g.c.U64()
	if m%5 == 0 {
		return mp4.Context{}
	}
	b := func(i uint) bool { return m>>i&1 == 1 }
	ctx := mp4.Context{IsQuickTimeCompatible: b(8), UnderWave: b(9), UnderIlst: b(10), UnderUdta: b(11)}
	if ctx.UnderIlst {
		ctx.UnderIlstMeta = b(12)
		if ctx.UnderIlstMeta {
			ctx.UnderIlstFreeMeta = b(13)
		}
		if b(14) {
			ctx.QuickTimeKeysMetaEntryCount = int(m >> 20 & 7)
		}
	}
	return ctx
}

func (s *Spec) openIn(ctx mp4.Context) bool {
	if s.Name == "audio" {
		return ctx.IsQuickTimeCompatible && ctx.UnderWave
	}
	return s.Open
}
