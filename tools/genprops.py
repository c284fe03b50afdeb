#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the properties)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

BT=["box_types_iso14496_12.go","box_types_iso14496_14.go","box_types_iso14496_30.go","box_types_iso23001_5.go","box_types_iso23001_7.go","box_types_metadata.go","box_types_3gpp.go","box_types_av1.go","box_types_etsi_ts_102_366.go","box_types_opus.go","box_types_vp.go"]

p("C01","Decoding yields exactly the field values the wire layout encodes",
 "For every box type the library supports, in every supported version, flag combination and context (QuickTime, wave, ilst, metadata item, free-form item, udta), decoding a payload laid out according to that type's format yields exactly the encoded values in exactly the fields present for that version, flags and context, leaves every absent field at its zero value, and reports a consumed size equal to the bytes those fields occupy. Fields are big-endian and bit-packed most significant bit first, signed fields are sign-extended, tables hold exactly the declared number of entries, and open-ended fields reach to the end of the payload. Decoding by box type gives the same result as decoding into a caller-supplied box of that type, and decoding again gives the same result again.",
 ["inputs"],"all supported box types x versions x flags x contexts x field values (incl. extreme values, empty and large tables, every optional-field combination, every bit offset)",
 "The tests decode one or two hand-written payloads per type with benign values; they never quantify over field values, optional-field combinations, table lengths, sign bits or contexts.",
 ["marshaller.go","field.go","box.go","mp4.go"]+BT,[("field-tag driven decoder","marshaller.go unmarshaller"),("presence rules","field.go isTargetField"),("dynamic sizes/lengths and custom readers","box_types_*.go GetFieldSize/GetFieldLength/IsOptFieldEnabled/OnReadField/BeforeUnmarshal")],["Unmarshal","UnmarshalAny"])

p("C02","Encoding writes exactly the wire layout of the box's field values",
 "For every supported box type, version, flag combination and context, encoding a box whose declared counts agree with its tables writes exactly the bytes of that type's format for those field values (fields absent for the version, flags or context are not written), nothing more, and reports the number of bytes written. When a table holds fewer elements than its declared count the encoding fails with an error; when it holds more, exactly the declared number of leading elements is written. Encoding a type that is not registered for the given context fails with the not-found error and writes nothing.",
 ["inputs"],"all supported box types x versions x flags x contexts x field values, plus tables shorter and longer than their declared counts",
 "The tests encode one or two hand-written boxes per type; they do not vary values, optional fields, table sizes or count mismatches.",
 ["marshaller.go","field.go","internal/bitio/write.go"]+BT,[("field-tag driven encoder","marshaller.go marshaller"),("bit writer","internal/bitio/write.go")],["Marshal"])

p("C03","Encode and decode are inverse: values and bytes survive a round trip",
 "For every supported box with consistent counts (text without NUL bytes, a handler name that does not itself look like a counted string), decoding the encoding gives back an equal box and consumes exactly the bytes the encoder reported. For every payload in a type's canonical encoding, decoding it and encoding the result reproduces the payload byte for byte, including reserved bits, so a decoded box can be modified in one field and written back with only that field's bytes changed.",
 ["inputs"],"all supported boxes and canonical payloads, single-field modifications",
 "Tests only compare fixed examples in each direction; a round trip over all values, and that a one-field edit touches only that field, is not sampled.",
 ["marshaller.go","field.go"]+BT,[("one field description drives both directions","field.go"),("custom read/write hooks must mirror each other","box_types_*.go OnReadField/OnWriteField")],["Marshal","Unmarshal"])

p("C04","No input crashes, hangs or exhausts memory",
 "For any byte sequence presented as a file or as a box payload, every reading entry point (structure traversal with expansion, header reading, extraction, probing, payload decoding, stringification, IDR search, bitrate calculation, and the dump, probe, psshdump and extract commands) returns a result or an error: it does not panic, does not loop forever, and does not allocate memory out of proportion to the input. The only allocation allowed to exceed a constant multiple of the input is one entry per sample where the input declares a sample count without per-sample bytes.",
 ["inputs"],"all byte strings; explored as mutated, truncated, spliced and size-field-corrupted valid files, grammar-generated box trees with wrong sizes and counts, and raw random payloads for every box type",
 "The tests feed well-formed files and a handful of truncated buffers; hostile sizes, counts, offsets and nesting are unbounded.",
 ["marshaller.go","read.go","extract.go","probe.go","box_info.go","string.go"]+BT,[("size checks before allocation","marshaller.go readerHasSize"),("header validation","box_info.go ReadBoxInfo"),("child size check","read.go readBoxStructure")],["ReadBoxStructure","ExtractBoxes","Probe","UnmarshalAny","Stringify","FindIDRFrames","mp4tool dump/probe/psshdump/extract"])

p("C05","Payload decoding never crosses its boundary and rejects what does not fit",
 "Decoding a payload of a given size never succeeds with a value derived from bytes after that payload and never reports more bytes than the payload has; on success the reader stands exactly that many bytes after where it started, whatever the starting position and whatever follows. A payload that is too short for the fields its version, flags and counts require is rejected with an error, also when the missing bytes would be available after the boundary. A version outside the type's supported list is reported as the unsupported-version error with the reader left at the start of the payload, so the caller can skip or copy the box.",
 ["inputs"],"all supported types x payloads x truncation points x following bytes x reader positions x version bytes",
 "Tests decode exact-size buffers; truncation at every byte, trailing data and every version byte are not sampled.",
 ["marshaller.go","box_info.go"]+BT,[("bit budget accounting","marshaller.go unmarshaller.rbits/size"),("version check","marshaller.go unmarshalStruct"),("size check","marshaller.go readerHasSize")],["Unmarshal","UnmarshalAny"])

p("C06","Traversal visits exactly the boxes of the file, in order, with true metadata",
 "Traversing a well-formed file (nested at most a thousand levels) calls the handler once for each top-level box, and once for each child of every box the handler expands, in file order, with the box's true offset, size, header size (8 or 16), type, to-end-of-file flag and path, for 32-bit, 64-bit and to-end-of-file sizes and offsets beyond 4 GiB. Whatever a handler does with a box (nothing, read payload, copy raw data, expand, any order or repetition of these, or seeking the reader elsewhere) never changes what is reported for any other box; payload and raw data are always those of that box. Parameters given to an expansion reach exactly the handlers of the direct children, and the values they return come back to the expanding handler in child order; an error returned by a handler stops the traversal and is returned.",
 ["inputs","histories"],"all box trees x all per-box handler action sequences",
 "read_test walks two sample files with one handler each; neither arbitrary trees, header forms, nor arbitrary handler behaviours are covered.",
 ["read.go","box_info.go"],[("recursive reader with closures over box info","read.go readBoxStructureFromInternal"),("child offset tracking","read.go Expand/ReadPayload"),("re-synchronisation at box end","box_info.go SeekToEnd")],["ReadBoxStructure","ReadBoxStructureFromInternal","ReadHandle"])

p("C07","Malformed box structure is reported as an error, never misread",
 "A child box whose declared size exceeds what is left of its parent makes traversal, extraction and probing of that parent fail, as does a box whose declared size is smaller than its own header, or whose end is beyond the representable file offset. Bytes left over after the last child that cannot form a box header make it fail too, except in files whose ftyp declares QuickTime compatibility, where they are tolerated. Reading the raw data of a box that extends past the end of the file fails rather than returning short data.",
 ["inputs"],"all well-formed trees with one injected structural fault at any depth, under QuickTime and non-QuickTime brands",
 "Tests have no malformed tree except a few error-path constants; the fault position, size and depth are unbounded.",
 ["read.go","box_info.go","extract.go"],[("size against remaining parent size","read.go readBoxStructure"),("leftover check with QuickTime exception","read.go readBoxStructure"),("header sanity","box_info.go ReadBoxInfo")],["ReadBoxStructure","ExtractBoxes","Probe","ReadBoxInfo"])

p("C08","Context-dependent interpretation follows the box's true surroundings",
 "During traversal the context of each box states exactly whether a preceding top-level ftyp lists the QuickTime brand, and whether the box lies under wave, ilst, an ilst item, a free-form item or udta; it never leaks to boxes outside those containers. After a keys box, numbered items 1..N of a following ilst at the same level or below (and no others) are recognised as metadata items. Context-sensitive boxes (audio sample entries, ilst items and their data/mean/name boxes, udta strings) are recognised and decoded according to that context, both in traversal and in extraction with payload.",
 ["inputs","histories"],"all trees mixing ftyp brands, wave, ilst, keys/numbered items, free-form items and udta at any position and order",
 "Tests check a few fixed sample files; orders, siblings after a container, repeated keys, and nesting combinations are not sampled.",
 ["read.go","mp4.go","extract.go","box_types_metadata.go","box_types_3gpp.go"],[("context propagation","read.go readBoxStructureFromInternal/readBoxStructure"),("context-sensitive lookup","mp4.go getBoxDef"),("predicates","box_types_metadata.go isIlstMetaContainer/isUnderIlstMeta/isUnderIlstFreeFormat")],["BoxInfo.Context","BoxInfo.IsSupportedType","ReadPayload","ExtractBoxesWithPayload"])

p("C09","Extraction returns exactly the boxes matching the paths, in file order",
 "Extracting by a set of paths, from the file root or relative to a given parent box, returns precisely the boxes whose type path equals at least one of the paths (a wildcard element matches any one type), each once, in file order, with true position and size (the boxes that paths lead into being of supported type and version), and expands nothing that no path leads to, so damage elsewhere does not matter. Extraction with payload returns the same boxes with their payloads decoded as traversal would decode them. An empty path set yields nothing and an empty path is an error.",
 ["inputs"],"all trees x all path sets (overlapping, prefix-related, repeated, wildcard, absent) x root or any parent",
 "extract_test uses one file and a dozen fixed paths.",
 ["extract.go","read.go"],[("path matching","read.go compareWith"),("selective expansion","extract.go ExtractBoxes")],["ExtractBox","ExtractBoxes","ExtractBoxWithPayload","ExtractBoxesWithPayload"])

p("C10","The writer produces a structure whose sizes match what was written",
 "For every sequence of start-box, write, copy-box, seek-back-and-patch and end-box calls, the output equals the concatenation of the headers and data in nesting order, with each closed box's size field equal to its header plus everything written in it, and nothing outside a size field altered by closing a box; the write position afterwards is the end of the closed box. The box information returned by start and end describes the real offset, header size and size of the box, also when writing begins at a non-zero position. Copying a box reproduces its bytes exactly wherever it lies in the source, and closing a box that has outgrown its header form fails with an error rather than writing a wrong size.",
 ["histories","inputs"],"all sequences of writer operations (nesting depth, order, 8- and 16-byte headers, sizes across the 32-bit limit, base offset, source boxes)",
 "write_test runs one fixed sequence.",
 ["write.go","box_info.go"],[("stack of open boxes","write.go biStack"),("size patching","write.go EndBox"),("header encoding","box_info.go WriteBoxInfo")],["Writer.StartBox","Writer.EndBox","Writer.CopyBox","Writer.Write","Writer.Seek"])

p("C11","Box headers round-trip in every size form",
 "Writing a box header at any position and reading it back there gives the same type, the same size and header size the writer reported, and the to-end-of-file flag; the writer uses the 8-byte form for sizes that fit 32 bits unless the 16-byte form is asked for, and the 16-byte form otherwise. Reading a header reports the position it was read from, the declared size (or the distance to the end of the file for size zero), the true header length, and leaves the reader at the payload; seeking to start, payload and end go to exactly those positions. Incomplete headers and sizes smaller than the header are errors.",
 ["inputs"],"all types, sizes 0..2^63, header forms, positions, and truncated headers",
 "box_info_test has a dozen fixed rows.",
 ["box_info.go"],[("header codec","box_info.go WriteBoxInfo/ReadBoxInfo"),("seek helpers","box_info.go SeekToStart/SeekToPayload/SeekToEnd")],["ReadBoxInfo","WriteBoxInfo"])

p("C12","Reading a file and writing it back changes only what was edited",
 "Walking any well-formed file and rewriting it with the documented pattern (expand and re-encode containers and selected boxes, copy everything else) yields a byte-identical file when no box is modified. When boxes are modified, added, dropped or replaced, the result is exactly the tree with those edits: every untouched box keeps its bytes and order, the edited payload is the encoding of the edited value, and all enclosing sizes are correct, so the result can be read again with the same structure.",
 ["inputs","histories"],"all well-formed trees in canonical encoding x sets of edits at any depth x choice of which boxes are copied or re-encoded",
 "No test rewrites a whole file and compares; the README pattern is only an example.",
 ["read.go","write.go","marshaller.go","box_info.go"],[("handler-driven rewrite","README.md, read.go, write.go")],["ReadBoxStructure + Writer + Marshal"])

p("C13","Probing reports the movie and track facts stored in the file",
 "For every well-formed progressive file, probing reports the brands and minor version of ftyp, the movie timescale and duration, whether the movie box precedes all media data, and one track per trak in order with its id, timescale, duration, edit list, codec, encryption, and AVC (for unencrypted AVC) or AAC parameters, from whichever box version (32- or 64-bit) stores them. The sample list has one entry per sample of the time-to-sample table with its duration, its composition offset and its size (from the size table or the common size), and the chunk list gives each chunk's offset (32- or 64-bit) and sample count according to the sample-to-chunk runs. A track lacking a mandatory box is reported as an error.",
 ["inputs"],"all consistent combinations of track tables (runs, versions, offsets, edit lists), codecs, AAC configurations (explicit object types, escape values, SBR/PS extensions), QuickTime wave nesting, box orders and omitted optional or mandatory boxes",
 "probe_test probes five fixed files.",
 ["probe.go"],[("table expansion","probe.go probeTrak"),("AAC profile detection","probe.go detectAACProfile"),("box collection","probe.go Probe")],["Probe","ProbeFra"])

p("C14","Probing reports the facts of each movie fragment",
 "For every fragmented file whose fragments have one track fragment with at most one run, probing reports one segment per moof in file order with its true offset, track id, base decode time (32- or 64-bit), default sample duration, sample count, total duration and total size (per-sample values when present, otherwise the fragment defaults times the count), and the smallest composition-adjusted start offset over its samples. A fragment without its header box is an error.",
 ["inputs"],"all fragments: flag combinations, versions, run lengths, negative offsets, presence of tfdt/trun, positions in the file",
 "probe_test probes one fragmented file whose runs use one flag combination.",
 ["probe.go"],[("fragment summary","probe.go probeMoof")],["Probe","Segments"])

p("C15","IDR search reports exactly the samples that contain an IDR slice",
 "Given a probed or hand-built AVC track and a file, the IDR search returns, in increasing order and each once, exactly the indexes of the samples that contain a NAL unit of type 5, walking chunks at their offsets and samples at their sizes, with 1-, 2- and 4-byte NAL lengths. Samples without an IDR slice, empty samples, and NAL units that merely contain such bytes are not reported, and a track without AVC configuration yields no result.",
 ["inputs"],"all tracks: chunk layouts and order in the file, samples per chunk, NAL sequences and sizes, length sizes, zero-length units, truncated files",
 "probe_test searches one file.",
 ["probe.go"],[("NAL walk","probe.go FindIDRFrames")],["FindIDRFrames"])

p("C16","Bitrates equal bits over duration, average and peak",
 "The average bitrate of a sample or segment list equals eight times the total size times the timescale divided by the total duration (zero for no duration, never a crash), counting for segments only those of the requested track. The peak bitrate of segments is the largest single-segment bitrate of that track; the peak bitrate of samples is the largest bitrate over the windows formed by sliding over the samples, each window being extended until it spans at least the given duration or the end of the list is reached and then shortened from the front until it spans less. For samples of equal size and duration the peak equals the average, and for any list the peak is the same as a direct evaluation of that definition.",
 ["inputs"],"all lists of sizes and durations (zeros, extremes), timescales, window lengths, track ids",
 "probe_test computes a few values from one file.",
 ["probe.go"],[("windowed maximum","probe.go Samples.GetMaxBitrate"),("totals","probe.go GetBitrate")],["Samples.GetBitrate","Samples.GetMaxBitrate","Segments.GetBitrate","Segments.GetMaxBitrate"])

p("C17","The text form of a box shows exactly its present field values",
 "For every supported box, version, flags and context, the text form lists exactly the fields present in that version, flags and context, in declaration order, as name=value, hiding reserved and padding fields, with each value rendered by its kind (decimal, hexadecimal, fixed point, quoted text, UUID, language code, true/false, nested braces, bracketed lists, symbolic names for known tags and data types). Unprintable characters are replaced by dots, so without an indent the text form is a single line of printable characters. The indented form shows the same fields and values, one per line, nested by depth.",
 ["inputs"],"all supported boxes x field values x indent strings",
 "string_test and the box tests compare fixed strings for one value set per type.",
 ["string.go","internal/util/string.go"]+BT,[("field-tag driven stringifier","string.go"),("custom renderers","box_types_*.go StringifyField")],["Stringify","StringifyWithIndent"])

p("C18","Every I/O failure is reported, and nothing is silently lost",
 "If any read, seek or write made by the library on the caller's reader or writer fails, at whatever point, the operation in progress (header or payload decoding, encoding, traversal, extraction, probing, IDR search, raw copy, writer operations) returns a non-nil error rather than reporting success. An operation that reports success has read everything its result depends on and written every byte it accounts for.",
 ["fault_sequences","inputs"],"all operations x all positions of a failing read, seek or write (hard error, premature end, short write)",
 "The tests use in-memory buffers that never fail.",
 ["marshaller.go","read.go","write.go","box_info.go","extract.go","probe.go","internal/bitio/read.go","internal/bitio/write.go","internal/util/io.go"],[("error propagation","all call sites of io.Reader/io.Writer/io.Seeker")],["all entry points taking io.Reader/io.ReadSeeker/io.Writer/io.WriteSeeker"])

p("C19","Results do not depend on how the reader delivers the bytes",
 "For any file, all reading operations give the same results whether the reader returns full buffers, single bytes, arbitrary short reads, data together with end-of-file, or is wrapped in a buffering seeker, and wherever the reader was positioned before an operation that starts from the beginning or from a given box. Reading never modifies a box information given by the caller in a way that changes a repeated operation's result.",
 ["schedules","inputs","histories"],"all files x all legal read-size schedules x initial positions x repetitions",
 "The tests read from bytes.Reader or *os.File only.",
 ["internal/bitio/read.go","internal/util/io.go","marshaller.go","box_info.go","read.go"],[("full reads","io.CopyN/io.ReadFull call sites"),("single-byte reads","internal/bitio/read.go ReadBit")],["ReadBoxStructure","Probe","ExtractBoxes","Unmarshal"])

p("C20","User-defined boxes obey the documented field-tag semantics",
 "For any struct a user registers, encoding, decoding and the text form follow its field tags: field order by number (declaration order for ties), bit size, fixed, dynamic and open-ended lengths, dynamic sizes, presence by version (ver/nver), by flags (opt/nopt, decimal or hex) or dynamically, terminated strings and box strings, variable-length integers, extended and nested structs, pointers, arrays and slices, hidden and constant fields and display formats. All integer widths from 1 to 64 bits at any bit alignment keep their value, including the sign, and a box whose bits do not add up to whole bytes is an error in both directions.",
 ["programs","inputs"],"all struct shapes from the tag grammar x field values x versions x flags",
 "marshaller_test and field_test use a handful of structs with fixed values.",
 ["field.go","marshaller.go","string.go","box.go"],[("tag parser","field.go buildField"),("presence","field.go isTargetField"),("codec","marshaller.go")],["AddBoxDef","Marshal","Unmarshal","Stringify"])

p("C21","Type registration and lookup are consistent",
 "A box type is supported in a context exactly if some registered definition for it accepts that context (or it is a numbered metadata item there), the most recently registered accepting definition wins, and support query, instantiation, supported-version query, decoding, encoding and text form all use that same definition. Instances carry the requested type, an empty version list means any version, and unknown types give the not-found error everywhere. Type codes convert between text, number and bytes without loss, a wildcard type matches everything, and printing a type shows its four characters when printable and hexadecimal otherwise.",
 ["histories","inputs"],"all sequences of registrations (with and without predicates, fixed and any-type) x all types x all contexts x all versions",
 "mp4_test checks a few types and contexts.",
 ["mp4.go","anytype.go","box_types_metadata.go"],[("registry","mp4.go boxMap, AddBoxDef*, getBoxDef")],["AddBoxDef","AddBoxDefEx","AddAnyTypeBoxDef","AddAnyTypeBoxDefEx","BoxType.*"])

p("C22","Custom field hooks and bit-level access compose with tagged fields",
 "A user box may take over a field or a whole payload through the hooks: the hook sees a reader or writer at the exact bit position with the exact number of bits left, what it reports as consumed or produced is accounted for, an overridden field is not processed again, a non-overridden one is processed after it, and an error from a hook aborts the operation. Bit-level reads and writes of any width return and store exactly those bits most significant first, byte-level access is possible only on a byte boundary and is refused otherwise, and seeking to an absolute position discards partial bits.",
 ["programs","histories","inputs"],"all interleavings of bit- and byte-level operations of any width, all placements of hooks among tagged fields",
 "bitio tests do a few fixed reads and writes; hooks are only exercised by the built-in emsg, hdlr and avcC.",
 ["internal/bitio/read.go","internal/bitio/write.go","box.go","marshaller.go"],[("bit reader/writer","internal/bitio"),("hook calls","marshaller.go OnReadField/OnWriteField/BeforeUnmarshal")],["ICustomFieldObject","bitio.Reader","bitio.Writer"])

p("C23","Convenience accessors agree with the stored fields",
 "Version-independent accessors (times, durations, offsets, shifts, decode times, edit-list and fragment-index entries) return the value of the field that the box's version stores, sign and width preserved, and zero for versions they do not know; fixed-point accessors return the exact quotient and its integer part. Flag operations set, clear and test exactly the given bits of the 24-bit flags. The brand list behaves as a set under add, remove and query (adding twice keeps one, removing removes every occurrence and no other brand), and subtitle list accessors split on whitespace.",
 ["inputs","histories"],"all field values x versions x indexes, all flag operation sequences, all brand operation sequences",
 "Accessor tests check one value per version.",
 ["box.go"]+BT,[("accessors","box_types_*.go Get*"),("flag ops","box.go FullBox"),("brand ops","box_types_iso14496_12.go Ftyp")],["Get* methods","FullBox flag methods","Ftyp brand methods"])

p("C24","Operations are pure, isolated from each other and safe to run in parallel",
 "Encoding and stringifying never modify the box, decoding never retains or aliases the input buffer or another decoded box, and a failed operation leaves no state that affects a later one, so the result of an operation depends only on its own inputs. Independent operations (encode, decode, stringify, traverse, extract, probe, write) running concurrently on separate readers, writers and boxes give the same results as when run alone, without data races. Boxes created for a type start out zero and are independent of earlier instances.",
 ["histories","schedules","inputs"],"all operation histories over shared registry, concurrent runs of independent operations",
 "Each test runs one operation on fresh data, sequentially.",
 ["marshaller.go","string.go","mp4.go","read.go","field.go"],[("immutable field descriptions","field.go resolveFieldInstance copies"),("fresh instances","mp4.go New")],["all entry points"])

p("C25","The extract command outputs exactly the matching boxes' bytes",
 "For any well-formed file and any four-character box type, the extract command writes to standard output exactly the raw bytes, header included, of every box of that type at any depth inside supported containers, in file order, and nothing else; boxes of unsupported type or version are output when they match and are otherwise skipped without stopping. A type that is not four characters and a missing or malformed file are reported with a non-zero status.",
 ["inputs"],"all trees x box types (present, nested in itself, absent, non-ASCII) x header forms",
 "The extract command's test covers two boxes of one file.",
 ["cmd/mp4tool/internal/extract/extract.go"],[("search and copy","extract.go extract")],["mp4tool extract"])

p("C26","The dump command prints the true box tree",
 "For any well-formed file, dump prints one line per box in file order, indented by depth, with the box's true type and size (and its offset when asked, both in hexadecimal when asked) and, for supported boxes, the text form of its payload unless it is replaced by an ellipsis by the tool's rules (mdat, free and skip data, table boxes of 64 or more payload bytes and lines too long for the terminal, each unless shown in full). Boxes of unsupported type or version are marked as such, shown as raw bytes when shown in full, and do not stop the dump of the boxes that follow; a malformed file gives a non-zero status.",
 ["inputs"],"all trees (supported, unsupported, context-dependent boxes, unsupported versions) x option combinations (-full, -a, -mdat, -free, -offset, -hex)",
 "dump_test compares the output of two files and a few options.",
 ["cmd/mp4tool/internal/dump/dump.go","cmd/mp4tool/internal/util/util.go"],[("recursive printer","dump.go readBox handler")],["mp4tool dump"])

p("C27","The edit command changes only what it is asked to",
 "For any well-formed file in canonical encoding whose boxes are of supported versions, the edit command with no edits copies it byte for byte; with a list of dropped types it removes exactly the boxes of those types with everything in them and keeps all else, sizes corrected; with a base decode time it sets exactly that value in every track fragment decode time box, in the field of that box's version (the value fitting that field), changing nothing else. An unreadable or malformed input gives a non-zero status.",
 ["inputs"],"all trees x drop lists x decode times x tfdt versions",
 "The edit command has no tests.",
 ["cmd/mp4tool/internal/edit/edit.go","write.go","read.go"],[("rewrite","edit.go editFile")],["mp4tool alpha edit"])

p("C28","The divide command splits fragmented files without losing data",
 "For any fragmented file with AVC or AAC tracks (plain or encrypted), at most one of each kind, one track fragment in each movie fragment, and no boxes other than ftyp, moov (of mvhd, trak, mvex, pssh and udta), moof, mdat and mfra, divide writes for each track an init segment with the ftyp and a moov holding that track's trak and every non-trak child of the moov unchanged, and one segment per movie fragment of that track consisting of that fragment's box and the media data after it byte for byte, in order. Each track's playlist lists exactly those segments in order with durations equal to the sum of their sample durations (per sample, else the fragment default) over the track timescale, and the master playlist refers to the audio and video playlists written, with the video's size and peak bandwidth; unencrypted tracks are preferred to encrypted ones there.",
 ["inputs"],"all fragmented files: track sets, fragment interleavings, durations, timescales, encryption",
 "The divide command has no tests.",
 ["cmd/mp4tool/internal/divide/divide.go"],[("rewriting per track","divide.go divide"),("playlist output","divide.go")],["mp4tool alpha divide"])

p("C29","The probe command reports what the library probe found",
 "For any probeable file, the probe command's JSON and YAML reports carry the brands, fast-start flag, timescale and duration of the movie, and for each track its id, timescale, duration, codec string, encryption, picture size, sample and chunk counts, IDR frame count and average and peak bitrate, all equal to the values derived from the file's contents (for fragmented files summed over the track's segments); the two formats carry the same values.",
 ["inputs"],"all progressive and fragmented files the generators of C13-C16 produce, both formats",
 "The probe command's test compares the report of one file.",
 ["cmd/mp4tool/internal/probe/probe.go"],[("report building","probe.go buildReport")],["mp4tool probe"])

p("C30","The psshdump command lists every protection header with its exact bytes",
 "For any well-formed file, psshdump lists every pssh box at moov or moof level in file order with its offset, size, version, flags, system id and data size as stored, and its base64 form decodes to exactly that box's bytes, header included.",
 ["inputs"],"all files with any number and version of pssh boxes anywhere at those levels",
 "psshdump's test covers one file.",
 ["cmd/mp4tool/internal/psshdump/psshdump.go"],[("extraction and print","psshdump.go")],["mp4tool psshdump"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
