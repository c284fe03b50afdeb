From 91f3766dc52120ec24dd698a6dd166bc3a3669e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 01/35] fix: sgpd roll distance tables follow the entry count

Without a dynamic length the tables ran to the end of the box, and the
table with per-entry lengths could not be decoded at all because the
element size was declared as 16 bits instead of 48.
---
 box_types_iso14496_12.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index d258716..d31b2f9 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -1553,8 +1553,8 @@ type Sgpd struct {
 	DefaultLength                 uint32                     `mp4:"2,size=32,ver=1"`
 	DefaultSampleDescriptionIndex uint32                     `mp4:"3,size=32,ver=2"`
 	EntryCount                    uint32                     `mp4:"4,size=32"`
-	RollDistances                 []int16                    `mp4:"5,size=16,opt=dynamic"`
-	RollDistancesL                []RollDistanceWithLength   `mp4:"6,size=16,opt=dynamic"`
+	RollDistances                 []int16                    `mp4:"5,size=16,len=dynamic,opt=dynamic"`
+	RollDistancesL                []RollDistanceWithLength   `mp4:"6,len=dynamic,opt=dynamic"`
 	AlternativeStartupEntries     []AlternativeStartupEntry  `mp4:"7,size=dynamic,len=dynamic,opt=dynamic"`
 	AlternativeStartupEntriesL    []AlternativeStartupEntryL `mp4:"8,len=dynamic,opt=dynamic"`
 	VisualRandomAccessEntries     []VisualRandomAccessEntry  `mp4:"9,len=dynamic,opt=dynamic"`
-- 
2.43.0


From 1796cc936df620d4ad7fb4c69ece588ce3d8e789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:11 +0000
Subject: [PATCH 02/35] fix: compute sgpd entry sizes in bits without 32-bit
 overflow

---
 box_types_iso14496_12.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index d31b2f9..92e0389 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -1610,7 +1610,7 @@ type TemporalLevelEntryL struct {
 func (sgpd *Sgpd) GetFieldSize(name string, ctx Context) uint {
 	switch name {
 	case "AlternativeStartupEntries":
-		return uint(sgpd.DefaultLength * 8)
+		return uint(sgpd.DefaultLength) * 8
 	}
 	return 0
 }
@@ -1675,7 +1675,7 @@ func (entry *AlternativeStartupEntry) GetFieldLength(name string, ctx Context) u
 func (entry *AlternativeStartupEntryL) GetFieldSize(name string, ctx Context) uint {
 	switch name {
 	case "AlternativeStartupEntry":
-		return uint(entry.DescriptionLength * 8)
+		return uint(entry.DescriptionLength) * 8
 	}
 	return 0
 }
-- 
2.43.0


From 247ddd00ccf2595875f15fd6234e70269d175e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:46 +0000
Subject: [PATCH 03/35] fix: stringify the stored Version field

Boxes that are not full boxes but have a field named Version (dOps and
numbered metadata items) were always shown as Version=0.
---
 string.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/string.go b/string.go
index 4bc368e..20874a7 100644
--- a/string.go
+++ b/string.go
@@ -110,8 +110,8 @@ func (m *stringifier) stringifyStruct(v reflect.Value, fs []*field, depth int, e
 			continue
 		}
 
-		if f.name == "Version" {
-			m.buf.WriteString(strconv.Itoa(int(m.src.GetVersion())))
+		if f.name == "Version" && v.FieldByName(f.name).Kind() == reflect.Uint8 {
+			m.buf.WriteString(strconv.FormatUint(v.FieldByName(f.name).Uint(), 10))
 		} else if f.name == "Flags" {
 			fmt.Fprintf(m.buf, "0x%06x", m.src.GetFlags())
 		} else {
-- 
2.43.0


From 64264c7f4698329dbf22534776b3b648a5e2c311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 04/35] fix: escape unprintable characters of language codes

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 20874a7..0161b1d 100644
--- a/string.go
+++ b/string.go
@@ -225,7 +225,7 @@ func (m *stringifier) stringifyInt(v reflect.Value, fi *fieldInstance, depth int
 
 func (m *stringifier) stringifyUint(v reflect.Value, fi *fieldInstance, depth int) error {
 	if fi.is(fieldISO639_2) {
-		m.buf.WriteString(string([]byte{byte(v.Uint() + 0x60)}))
+		m.buf.WriteString(util.EscapeUnprintables(string([]byte{byte(v.Uint() + 0x60)})))
 	} else if fi.is(fieldUUID) {
 		fmt.Fprintf(m.buf, "%02x", v.Uint())
 	} else if fi.is(fieldString) {
-- 
2.43.0


From 8c5c78274ddb4eb52bf0da0190a0bfaedb68333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:49 +0000
Subject: [PATCH 05/35] fix: report encoding errors of slice elements and
 variable-length integers

---
 marshaller.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/marshaller.go b/marshaller.go
index 8dd9637..e6b7a2e 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -151,7 +151,9 @@ func (m *marshaller) marshalSlice(v reflect.Value, fi *fieldInstance) error {
 	}
 
 	for i := 0; i < int(length); i++ {
-		m.marshal(v.Index(i), fi)
+		if err := m.marshal(v.Index(i), fi); err != nil {
+			return err
+		}
 	}
 	return nil
 }
@@ -196,8 +198,7 @@ func (m *marshaller) marshalUint(v reflect.Value, fi *fieldInstance) error {
 	val := v.Uint()
 
 	if fi.is(fieldVarint) {
-		m.writeUvarint(val)
-		return nil
+		return m.writeUvarint(val)
 	}
 
 	for i := uint(0); i < fi.size; i += 8 {
-- 
2.43.0


From 057937548b0d02911954871af3631e7c9b853185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 06/35] fix: refuse meta payloads shorter than four bytes

---
 box_types_iso14496_12.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index 92e0389..173bb27 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -894,6 +894,9 @@ func (*Meta) GetType() BoxType {
 }
 
 func (meta *Meta) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx Context) (n uint64, override bool, err error) {
+	if size < 4 {
+		return 0, false, io.ErrUnexpectedEOF
+	}
 	// for Apple Quick Time
 	buf := make([]byte, 4)
 	if _, err := io.ReadFull(r, buf); err != nil {
-- 
2.43.0


From a53e93864a9443a2bd07eb144835e09c2d91c956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 07/35] fix: refuse open-ended tables of zero-sized elements
 instead of looping forever

---
 marshaller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marshaller.go b/marshaller.go
index e6b7a2e..868297d 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -462,9 +462,13 @@ func (u *unmarshaller) unmarshalSlice(v reflect.Value, fi *fieldInstance) error
 				break
 			}
 			slice = reflect.Append(slice, reflect.Zero(elemType))
+			begin := u.rbits
 			if err := u.unmarshal(slice.Index(i), fi); err != nil {
 				return err
 			}
+			if fi.length == LengthUnlimited && u.rbits == begin {
+				return fmt.Errorf("element of unlimited length array has no bits: fieldName=\"%s\"", fi.name)
+			}
 			if u.rbits > u.size*8 {
 				return fmt.Errorf("failed to read array completely: fieldName=\"%s\"", fi.name)
 			}
-- 
2.43.0


From f40486afb5590bb6f00e9c51d2148414c0f47a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 08/35] fix: refuse boxes smaller than their header or ending
 beyond the file offset range

---
 box_info.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/box_info.go b/box_info.go
index 1cb4b8a..d58706a 100644
--- a/box_info.go
+++ b/box_info.go
@@ -142,9 +142,12 @@ func ReadBoxInfo(r io.ReadSeeker) (*BoxInfo, error) {
 		bi.Size = binary.BigEndian.Uint64(buf.Bytes())
 	}
 
-	if bi.Size == 0 {
+	if bi.Size < bi.HeaderSize {
 		return nil, fmt.Errorf("invalid size")
 	}
+	if bi.Size > math.MaxInt64-bi.Offset {
+		return nil, fmt.Errorf("too large box size: type=%s, size=%d", bi.Type.String(), bi.Size)
+	}
 
 	return bi, nil
 }
-- 
2.43.0


From af09a0e451aeffa05d7433d130e20a59c8a7fde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 09/35] fix: report a reader positioned past the end of file as
 having no data

---
 marshaller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshaller.go b/marshaller.go
index 868297d..8cafab3 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -28,7 +28,7 @@ func readerHasSize(reader bitio.ReadSeeker, size uint64) bool {
 		return false
 	}
 
-	if uint64(end-pre) < size {
+	if end < pre || uint64(end-pre) < size {
 		return false
 	}
 
-- 
2.43.0


From a235dfead8e3eeadebfad7e6fc60046ecfc76e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 10/35] fix: accept readers that return data together with EOF
 or return no data without error

---
 internal/bitio/read.go | 4 +---
 internal/util/io.go    | 2 +-
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/bitio/read.go b/internal/bitio/read.go
index 4da76ea..dfc3284 100644
--- a/internal/bitio/read.go
+++ b/internal/bitio/read.go
@@ -59,10 +59,8 @@ func (r *reader) ReadBits(size uint) ([]byte, error) {
 func (r *reader) ReadBit() (bool, error) {
 	if r.width == 0 {
 		buf := make([]byte, 1)
-		if n, err := r.reader.Read(buf); err != nil {
+		if _, err := io.ReadFull(r.reader, buf); err != nil {
 			return false, err
-		} else if n != 1 {
-			return false, ErrDiscouragedReader
 		}
 		r.octet = buf[0]
 		r.width = 8
diff --git a/internal/util/io.go b/internal/util/io.go
index 1e46811..b691662 100644
--- a/internal/util/io.go
+++ b/internal/util/io.go
@@ -9,7 +9,7 @@ func ReadString(r io.Reader) (string, error) {
 	b := make([]byte, 1)
 	buf := bytes.NewBuffer(nil)
 	for {
-		if _, err := r.Read(b); err != nil {
+		if _, err := io.ReadFull(r, b); err != nil {
 			return "", err
 		}
 		if b[0] == 0 {
-- 
2.43.0


From 575a4acc0841515ca4a78b6cfff22f6a758f771d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:28 +0000
Subject: [PATCH 11/35] fix: compute the size of counted handler names without
 8-bit overflow

---
 box_types_iso14496_12.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index 173bb27..7cd5030 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -648,7 +648,7 @@ func (hdlr *Hdlr) OnReadName(r bitio.ReadSeeker, leftBits uint64, ctx Context) (
 		return 0, false, err
 	}
 
-	plen := buf[0]
+	plen := int(buf[0])
 	if hdlr.PreDefined != 0 && size >= 2 && size == uint64(plen+1) {
 		// Pascal-style String
 		hdlr.Name = string(buf[1 : plen+1])
-- 
2.43.0


From 8e8255dc5e1d2a3a26ec4ac281f35fcaa3a0c762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:31 +0000
Subject: [PATCH 12/35] fix: do not divide by zero in GetMaxBitrate when
 samples have no duration

---
 probe.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/probe.go b/probe.go
index 2ffaf7a..2924287 100644
--- a/probe.go
+++ b/probe.go
@@ -639,9 +639,11 @@ func (samples Samples) GetMaxBitrate(timescale uint32, timeDelta uint64) uint64
 				break
 			}
 		}
-		bitrate := 8 * size * uint64(timescale) / duration
-		if bitrate > maxBitrate {
-			maxBitrate = bitrate
+		if duration != 0 {
+			bitrate := 8 * size * uint64(timescale) / duration
+			if bitrate > maxBitrate {
+				maxBitrate = bitrate
+			}
 		}
 		for {
 			size -= uint64(samples[begin].Size)
-- 
2.43.0


From 16151d8cb7bccb5df3b2444108f70588969c524b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:34 +0000
Subject: [PATCH 13/35] fix: walk NAL units with 64-bit offsets in
 FindIDRFrames

---
 probe.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/probe.go b/probe.go
index 2924287..56ab158 100644
--- a/probe.go
+++ b/probe.go
@@ -570,7 +570,7 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 	if trackInfo.AVC == nil {
 		return nil, nil
 	}
-	lengthSize := uint32(trackInfo.AVC.LengthSize)
+	lengthSize := uint64(trackInfo.AVC.LengthSize)
 
 	var si int
 	idxs := make([]int, 0, 8)
@@ -582,17 +582,17 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 			if sample.Size == 0 {
 				continue
 			}
-			for nalOffset := uint32(0); nalOffset+lengthSize+1 <= sample.Size; {
-				if _, err := r.Seek(int64(dataOffset+uint64(nalOffset)), io.SeekStart); err != nil {
+			for nalOffset := uint64(0); nalOffset+lengthSize+1 <= uint64(sample.Size); {
+				if _, err := r.Seek(int64(dataOffset+nalOffset), io.SeekStart); err != nil {
 					return nil, err
 				}
 				data := make([]byte, lengthSize+1)
 				if _, err := io.ReadFull(r, data); err != nil {
 					return nil, err
 				}
-				var length uint32
+				var length uint64
 				for i := 0; i < int(lengthSize); i++ {
-					length = (length << 8) + uint32(data[i])
+					length = (length << 8) + uint64(data[i])
 				}
 				nalHeader := data[lengthSize]
 				nalType := nalHeader & 0x1f
-- 
2.43.0


From 2db772c3cc28c2c2bfb946f720301f2ca6bc4835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:37 +0000
Subject: [PATCH 14/35] fix: decode extracted payloads in the context of the
 extracted box

---
 extract.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/extract.go b/extract.go
index 7de36b0..c8cb2ab 100644
--- a/extract.go
+++ b/extract.go
@@ -26,11 +26,7 @@ func ExtractBoxesWithPayload(r io.ReadSeeker, parent *BoxInfo, paths []BoxPath)
 			return nil, err
 		}
 
-		var ctx Context
-		if parent != nil {
-			ctx = parent.Context
-		}
-		box, _, err := UnmarshalAny(r, bi.Type, bi.Size-bi.HeaderSize, ctx)
+		box, _, err := UnmarshalAny(r, bi.Type, bi.Size-bi.HeaderSize, bi.Context)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 5197ef01650ca1448a0504e01cc4fb4321af9780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:41 +0000
Subject: [PATCH 15/35] fix: count the extension audio object type bits in
 detectAACProfile

---
 probe.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/probe.go b/probe.go
index 56ab158..84c8a54 100644
--- a/probe.go
+++ b/probe.go
@@ -415,10 +415,11 @@ func detectAACProfile(esds *Esds) (oti, audOTI uint8, err error) {
 		}
 		remaining -= 11
 		if syncExtensionType[0] == 0x2 && syncExtensionType[1] == 0xb7 {
-			extAudioObjectType, _, err := getAudioObjectType(r)
+			extAudioObjectType, read, err := getAudioObjectType(r)
 			if err != nil {
 				return 0, 0, err
 			}
+			remaining -= read
 			if extAudioObjectType == 5 || extAudioObjectType == 22 {
 				sbr, err := r.ReadBits(1)
 				if err != nil {
-- 
2.43.0


From 4d9d77d9a22039fea8a64cb9eb637052aba98083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:44 +0000
Subject: [PATCH 16/35] fix: report the common sample size of stsz in Probe

---
 probe.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/probe.go b/probe.go
index 84c8a54..9d63529 100644
--- a/probe.go
+++ b/probe.go
@@ -358,7 +358,11 @@ func probeTrak(r io.ReadSeeker, bi *BoxInfo) (*Track, error) {
 		}
 	}
 
-	if stsz != nil {
+	if stsz != nil && stsz.SampleSize != 0 {
+		for i := range track.Samples {
+			track.Samples[i].Size = stsz.SampleSize
+		}
+	} else if stsz != nil {
 		for i := 0; i < len(stsz.EntrySize) && i < len(track.Samples); i++ {
 			track.Samples[i].Size = stsz.EntrySize[i]
 		}
-- 
2.43.0


From ae1620fec2479b6e13236bc5bf130eab5715f8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 17/35] fix: do not take the byte after an empty NAL unit for
 its header

---
 probe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probe.go b/probe.go
index 9d63529..dc9798e 100644
--- a/probe.go
+++ b/probe.go
@@ -601,7 +601,7 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 				}
 				nalHeader := data[lengthSize]
 				nalType := nalHeader & 0x1f
-				if nalType == 5 {
+				if length > 0 && nalType == 5 {
 					idxs = append(idxs, si)
 					break
 				}
-- 
2.43.0


From 3d4579c80954b594f2b3aecb101f513a443394dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:41 +0000
Subject: [PATCH 18/35] fix: do not panic in mp4tool when a box extends beyond
 the end of the file

---
 cmd/mp4tool/internal/dump/dump.go         |  7 +++--
 cmd/mp4tool/internal/edit/edit.go         |  7 +++--
 cmd/mp4tool/internal/extract/extract.go   |  7 +++--
 cmd/mp4tool/internal/probe/probe.go       |  8 +++--
 cmd/mp4tool/internal/psshdump/psshdump.go |  7 +++--
 cmd/mp4tool/internal/util/reader.go       | 36 +++++++++++++++++++++++
 6 files changed, 62 insertions(+), 10 deletions(-)
 create mode 100644 cmd/mp4tool/internal/util/reader.go

diff --git a/cmd/mp4tool/internal/dump/dump.go b/cmd/mp4tool/internal/dump/dump.go
index 42280b1..557e734 100644
--- a/cmd/mp4tool/internal/dump/dump.go
+++ b/cmd/mp4tool/internal/dump/dump.go
@@ -10,7 +10,6 @@ import (
 
 	"github.com/abema/go-mp4"
 	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
-	"github.com/sunfish-shogi/bufseekio"
 	"golang.org/x/term"
 )
 
@@ -89,7 +88,11 @@ func (m *mp4dump) dumpFile(fpath string) error {
 	}
 	defer file.Close()
 
-	return m.dump(bufseekio.NewReadSeeker(file, blockSize, blockHistorySize))
+	r, err := util.NewReadSeeker(file, blockSize, blockHistorySize)
+	if err != nil {
+		return err
+	}
+	return m.dump(r)
 }
 
 func (m *mp4dump) dump(r io.ReadSeeker) error {
diff --git a/cmd/mp4tool/internal/edit/edit.go b/cmd/mp4tool/internal/edit/edit.go
index c9ce7f1..166c737 100644
--- a/cmd/mp4tool/internal/edit/edit.go
+++ b/cmd/mp4tool/internal/edit/edit.go
@@ -8,7 +8,7 @@ import (
 	"strings"
 
 	"github.com/abema/go-mp4"
-	"github.com/sunfish-shogi/bufseekio"
+	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
 )
 
 const UNoValue = math.MaxUint64
@@ -76,7 +76,10 @@ func editFile(inputPath, outputPath string) error {
 	}
 	defer outputFile.Close()
 
-	r := bufseekio.NewReadSeeker(inputFile, 128*1024, 4)
+	r, err := util.NewReadSeeker(inputFile, 128*1024, 4)
+	if err != nil {
+		return err
+	}
 	w := mp4.NewWriter(outputFile)
 	_, err = mp4.ReadBoxStructure(r, func(h *mp4.ReadHandle) (interface{}, error) {
 		if config.dropBoxes.Exists(h.BoxInfo.Type.String()) {
diff --git a/cmd/mp4tool/internal/extract/extract.go b/cmd/mp4tool/internal/extract/extract.go
index 51f93e2..1767f50 100644
--- a/cmd/mp4tool/internal/extract/extract.go
+++ b/cmd/mp4tool/internal/extract/extract.go
@@ -8,7 +8,6 @@ import (
 
 	"github.com/abema/go-mp4"
 	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
-	"github.com/sunfish-shogi/bufseekio"
 )
 
 const (
@@ -45,7 +44,11 @@ func Main(args []string) int {
 	}
 	defer input.Close()
 
-	r := bufseekio.NewReadSeeker(input, blockSize, blockHistorySize)
+	r, err := util.NewReadSeeker(input, blockSize, blockHistorySize)
+	if err != nil {
+		fmt.Println("Error:", err)
+		return 1
+	}
 	if err := extract(r, mp4.StrToBoxType(boxType)); err != nil {
 		fmt.Println("Error:", err)
 		return 1
diff --git a/cmd/mp4tool/internal/probe/probe.go b/cmd/mp4tool/internal/probe/probe.go
index 41568b8..70cba5c 100644
--- a/cmd/mp4tool/internal/probe/probe.go
+++ b/cmd/mp4tool/internal/probe/probe.go
@@ -8,7 +8,7 @@ import (
 	"os"
 
 	"github.com/abema/go-mp4"
-	"github.com/sunfish-shogi/bufseekio"
+	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
 	"gopkg.in/yaml.v2"
 )
 
@@ -34,7 +34,11 @@ func Main(args []string) int {
 	}
 	defer input.Close()
 
-	r := bufseekio.NewReadSeeker(input, 1024, 4)
+	r, err := util.NewReadSeeker(input, 1024, 4)
+	if err != nil {
+		fmt.Println("Error:", err)
+		return 1
+	}
 	rep, err := buildReport(r)
 	if err != nil {
 		fmt.Println("Error:", err)
diff --git a/cmd/mp4tool/internal/psshdump/psshdump.go b/cmd/mp4tool/internal/psshdump/psshdump.go
index 368bf0e..45ace6d 100644
--- a/cmd/mp4tool/internal/psshdump/psshdump.go
+++ b/cmd/mp4tool/internal/psshdump/psshdump.go
@@ -7,7 +7,7 @@ import (
 	"os"
 
 	mp4 "github.com/abema/go-mp4"
-	"github.com/sunfish-shogi/bufseekio"
+	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
 )
 
 func Main(args []string) int {
@@ -30,7 +30,10 @@ func dump(inputFilePath string) error {
 	}
 	defer inputFile.Close()
 
-	r := bufseekio.NewReadSeeker(inputFile, 1024, 4)
+	r, err := util.NewReadSeeker(inputFile, 1024, 4)
+	if err != nil {
+		return err
+	}
 
 	bs, err := mp4.ExtractBoxesWithPayload(r, nil, []mp4.BoxPath{
 		{mp4.BoxTypeMoov(), mp4.BoxTypePssh()},
diff --git a/cmd/mp4tool/internal/util/reader.go b/cmd/mp4tool/internal/util/reader.go
new file mode 100644
index 0000000..765fa8f
--- /dev/null
+++ b/cmd/mp4tool/internal/util/reader.go
@@ -0,0 +1,36 @@
+package util
+
+import (
+	"io"
+
+	"github.com/sunfish-shogi/bufseekio"
+)
+
+// NewReadSeeker returns a buffered reader of r which, unlike that of
+// bufseekio, may be positioned beyond the end of the file.
+func NewReadSeeker(r io.ReadSeeker, blockSize, historySize int) (io.ReadSeeker, error) {
+	size, err := r.Seek(0, io.SeekEnd)
+	if err != nil {
+		return nil, err
+	}
+	return &readSeeker{
+		ReadSeeker: bufseekio.NewReadSeeker(r, blockSize, historySize),
+		size:       size,
+	}, nil
+}
+
+type readSeeker struct {
+	*bufseekio.ReadSeeker
+	size int64
+}
+
+func (r *readSeeker) Read(p []byte) (int, error) {
+	curr, err := r.Seek(0, io.SeekCurrent)
+	if err != nil {
+		return 0, err
+	}
+	if curr >= r.size {
+		return 0, io.EOF
+	}
+	return r.ReadSeeker.Read(p)
+}
-- 
2.43.0


From 448dd0291ca777408d23e3089da88a8407b639b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:43 +0000
Subject: [PATCH 19/35] fix: do not allocate the declared size of a box in dump
 and psshdump

---
 cmd/mp4tool/internal/dump/dump.go         | 2 +-
 cmd/mp4tool/internal/psshdump/psshdump.go | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/mp4tool/internal/dump/dump.go b/cmd/mp4tool/internal/dump/dump.go
index 557e734..4a7664f 100644
--- a/cmd/mp4tool/internal/dump/dump.go
+++ b/cmd/mp4tool/internal/dump/dump.go
@@ -159,7 +159,7 @@ func (m *mp4dump) dump(r io.ReadSeeker) error {
 
 		// unsupported box type
 		if full {
-			buf := bytes.NewBuffer(make([]byte, 0, h.BoxInfo.Size-h.BoxInfo.HeaderSize))
+			buf := bytes.NewBuffer(nil)
 			if _, err := h.ReadData(buf); err != nil {
 				return nil, err
 			}
diff --git a/cmd/mp4tool/internal/psshdump/psshdump.go b/cmd/mp4tool/internal/psshdump/psshdump.go
index 45ace6d..a87f272 100644
--- a/cmd/mp4tool/internal/psshdump/psshdump.go
+++ b/cmd/mp4tool/internal/psshdump/psshdump.go
@@ -1,6 +1,7 @@
 package psshdump
 
 import (
+	"bytes"
 	"encoding/base64"
 	"fmt"
 	"io"
@@ -57,8 +58,8 @@ func dump(inputFilePath string) error {
 		if _, err := bs[i].Info.SeekToStart(r); err != nil {
 			return err
 		}
-		rawData := make([]byte, bs[i].Info.Size)
-		if _, err := io.ReadFull(r, rawData); err != nil {
+		rawData := bytes.NewBuffer(nil)
+		if _, err := io.CopyN(rawData, r, int64(bs[i].Info.Size)); err != nil {
 			return err
 		}
 
@@ -69,7 +70,7 @@ func dump(inputFilePath string) error {
 		fmt.Printf("  flags: 0x%x\n", pssh.Flags)
 		fmt.Printf("  systemId: %s\n", sysid)
 		fmt.Printf("  dataSize: %d\n", pssh.DataSize)
-		fmt.Printf("  base64: \"%s\"\n", base64.StdEncoding.EncodeToString(rawData))
+		fmt.Printf("  base64: \"%s\"\n", base64.StdEncoding.EncodeToString(rawData.Bytes()))
 		fmt.Println()
 	}
 
-- 
2.43.0


From 6d36249b9a7776fc098723d20c44147847244f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:44 +0000
Subject: [PATCH 20/35] fix: report zero seconds in mp4tool probe when the
 timescale is zero

---
 cmd/mp4tool/internal/probe/probe.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/mp4tool/internal/probe/probe.go b/cmd/mp4tool/internal/probe/probe.go
index 70cba5c..9f308b6 100644
--- a/cmd/mp4tool/internal/probe/probe.go
+++ b/cmd/mp4tool/internal/probe/probe.go
@@ -99,7 +99,7 @@ func buildReport(r io.ReadSeeker) (*report, error) {
 		FastStart:        info.FastStart,
 		Timescale:        info.Timescale,
 		Duration:         info.Duration,
-		DurationSeconds:  float32(info.Duration) / float32(info.Timescale),
+		DurationSeconds:  seconds(info.Duration, info.Timescale),
 		Tracks:           make([]*track, 0, len(info.Tracks)),
 	}
 	for _, brand := range info.CompatibleBrands {
@@ -116,7 +116,7 @@ func buildReport(r io.ReadSeeker) (*report, error) {
 			TrackID:         tr.TrackID,
 			Timescale:       tr.Timescale,
 			Duration:        tr.Duration,
-			DurationSeconds: float32(tr.Duration) / float32(tr.Timescale),
+			DurationSeconds: seconds(tr.Duration, tr.Timescale),
 			Encrypted:       tr.Encrypted,
 			Bitrate:         bitrate,
 			MaxBitrate:      maxBitrate,
@@ -156,3 +156,10 @@ func buildReport(r io.ReadSeeker) (*report, error) {
 	}
 	return rep, nil
 }
+
+func seconds(duration uint64, timescale uint32) float32 {
+	if timescale == 0 {
+		return 0
+	}
+	return float32(duration) / float32(timescale)
+}
-- 
2.43.0


From ba83284aa01a6f8eca5ebec597388435a4717d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:19 +0000
Subject: [PATCH 21/35] fix: do not crash in divide on media data before any
 fragment or without duration

---
 cmd/mp4tool/internal/divide/divide.go | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index 10c60a6..c64ca9e 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -216,7 +216,7 @@ func divide(inputFilePath, outputDir string) error {
 					return nil, err
 				}
 				for _, val := range vals {
-					ci := val.(childInfo)
+					ci, _ := val.(childInfo)
 					for _, t := range tracks {
 						// already writeAll is true in Moov box
 						biMap[t.id].Size += ci[t.id]
@@ -301,19 +301,25 @@ func divide(inputFilePath, outputDir string) error {
 				if t.segmentFile, err = os.Create(path.Join(t.outputDir, segmentFileName(len(t.segments)))); err != nil {
 					return nil, err
 				}
+				var seconds float64
+				if t.timescale != 0 {
+					seconds = float64(duration) / float64(t.timescale)
+				}
 				t.segments = append(t.segments, segment{
-					duration: float64(duration) / float64(t.timescale),
+					duration: seconds,
 				})
 
 			} else { // Mdat box
-				if _, exists := tracks[currTrackID]; !exists {
+				t, exists := tracks[currTrackID]
+				if !exists || len(t.segments) == 0 {
 					return nil, nil
 				}
 
-				t := tracks[currTrackID]
-				bandwidth := uint64(float64(h.BoxInfo.Size) * 8 / t.segments[len(t.segments)-1].duration)
-				if bandwidth > t.bandwidth {
-					t.bandwidth = bandwidth
+				if duration := t.segments[len(t.segments)-1].duration; duration > 0 {
+					bandwidth := uint64(float64(h.BoxInfo.Size) * 8 / duration)
+					if bandwidth > t.bandwidth {
+						t.bandwidth = bandwidth
+					}
 				}
 			}
 
-- 
2.43.0


From c02bd46cf86b47783417d11e6717cfb35876a0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:20 +0000
Subject: [PATCH 22/35] fix: add up the sample durations of all runs of a
 fragment in divide

---
 cmd/mp4tool/internal/divide/divide.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index c64ca9e..8f54d05 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -284,14 +284,16 @@ func divide(inputFilePath, outputDir string) error {
 				if err != nil {
 					return nil, err
 				}
-				trun := bs[0].Payload.(*mp4.Trun)
-
-				var duration uint32
-				for i := range trun.Entries {
-					if trun.CheckFlag(0x000100) {
-						duration += trun.Entries[i].SampleDuration
-					} else {
-						duration += defaultSampleDuration
+
+				var duration uint64
+				for _, b := range bs {
+					trun := b.Payload.(*mp4.Trun)
+					for i := range trun.Entries {
+						if trun.CheckFlag(0x000100) {
+							duration += uint64(trun.Entries[i].SampleDuration)
+						} else {
+							duration += uint64(defaultSampleDuration)
+						}
 					}
 				}
 
-- 
2.43.0


From b6397d9fa75c66c3f1efdb2a22a94ca0d8d8059d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:46 +0000
Subject: [PATCH 23/35] fix: refuse boxes nested so deeply that traversal
 exhausts memory

---
 read.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/read.go b/read.go
index 475739a..f454376 100644
--- a/read.go
+++ b/read.go
@@ -32,6 +32,9 @@ type ReadHandle struct {
 	Expand      func(params ...interface{}) (vals []interface{}, err error)
 }
 
+// maxBoxDepth is the number of levels to which boxes may be nested.
+const maxBoxDepth = 1024
+
 type ReadHandler func(handle *ReadHandle) (val interface{}, err error)
 
 func ReadBoxStructure(r io.ReadSeeker, handler ReadHandler, params ...interface{}) ([]interface{}, error) {
@@ -46,6 +49,10 @@ func ReadBoxStructureFromInternal(r io.ReadSeeker, bi *BoxInfo, handler ReadHand
 }
 
 func readBoxStructureFromInternal(r io.ReadSeeker, bi *BoxInfo, path BoxPath, handler ReadHandler, params []interface{}) (interface{}, error) {
+	if len(path) >= maxBoxDepth {
+		return nil, fmt.Errorf("too deeply nested box: type=%s, offset=%d", bi.Type.String(), bi.Offset)
+	}
+
 	if _, err := bi.SeekToPayload(r); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From e2e633c46da90f4b2b690558c730d0ac860f3990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:23 +0000
Subject: [PATCH 24/35] fix: mp4tool probe dropped the peak bitrate when the
 average is below 1 bit/s

One of the two being zero made both be replaced with the values of the
segments, which are zero for a file that is not fragmented.
---
 cmd/mp4tool/internal/probe/probe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/mp4tool/internal/probe/probe.go b/cmd/mp4tool/internal/probe/probe.go
index 9f308b6..a58707f 100644
--- a/cmd/mp4tool/internal/probe/probe.go
+++ b/cmd/mp4tool/internal/probe/probe.go
@@ -108,7 +108,7 @@ func buildReport(r io.ReadSeeker) (*report, error) {
 	for _, tr := range info.Tracks {
 		bitrate := tr.Samples.GetBitrate(tr.Timescale)
 		maxBitrate := tr.Samples.GetMaxBitrate(tr.Timescale, uint64(tr.Timescale))
-		if bitrate == 0 || maxBitrate == 0 {
+		if bitrate == 0 && maxBitrate == 0 {
 			bitrate = info.Segments.GetBitrate(tr.TrackID, tr.Timescale)
 			maxBitrate = info.Segments.GetMaxBitrate(tr.TrackID, tr.Timescale)
 		}
-- 
2.43.0


From 2efe8a38e5bc9fd1df7296bbddeed37690d65ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:20 +0000
Subject: [PATCH 25/35] fix: decoding a byte slice with a named element type
 panicked

---
 marshaller.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marshaller.go b/marshaller.go
index 8cafab3..1a74f25 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -449,7 +449,8 @@ func (u *unmarshaller) unmarshalSlice(v reflect.Value, fi *fieldInstance) error
 		if _, err := io.CopyN(buf, u.reader, int64(totalSize)); err != nil {
 			return err
 		}
-		slice = reflect.ValueOf(buf.Bytes())
+		slice = reflect.New(v.Type()).Elem()
+		slice.SetBytes(buf.Bytes())
 		u.rbits += uint64(totalSize) * 8
 
 	} else {
-- 
2.43.0


From c7f74fc670bfebe2769aeeda6256a3822289fb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:00 +0000
Subject: [PATCH 26/35] fix: boolean fields of more than 8 bits were counted
 but not written

---
 marshaller.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/marshaller.go b/marshaller.go
index 1a74f25..d62591e 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -225,7 +225,8 @@ func (m *marshaller) marshalBool(v reflect.Value, fi *fieldInstance) error {
 	} else {
 		val = 0x00
 	}
-	if err := m.writer.WriteBits([]byte{val}, fi.size); err != nil {
+	data := bytes.Repeat([]byte{val}, int(fi.size+7)/8)
+	if err := m.writer.WriteBits(data, fi.size); err != nil {
 		return err
 	}
 	m.wbits += uint64(fi.size)
-- 
2.43.0


From 84338c5875fa0c2f373ed94952c2a6770dba5873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 27/35] fix: hexadecimal text form of the smallest 64-bit
 integer had two signs

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 0161b1d..25d42a0 100644
--- a/string.go
+++ b/string.go
@@ -215,7 +215,7 @@ func (m *stringifier) stringifyInt(v reflect.Value, fi *fieldInstance, depth int
 			m.buf.WriteString(strconv.FormatInt(val, 16))
 		} else {
 			m.buf.WriteString("-0x")
-			m.buf.WriteString(strconv.FormatInt(-val, 16))
+			m.buf.WriteString(strconv.FormatUint(-uint64(val), 16))
 		}
 	} else {
 		m.buf.WriteString(strconv.FormatInt(v.Int(), 10))
-- 
2.43.0


From c06067479ddcdaf15c92ffde2dec91246bb6723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:46 +0000
Subject: [PATCH 28/35] fix: variable-length integers of 2^28 and more were cut
 silently

---
 marshaller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marshaller.go b/marshaller.go
index d62591e..b39ec89 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -253,6 +253,10 @@ func (m *marshaller) marshalString(v reflect.Value, fi *fieldInstance) error {
 }
 
 func (m *marshaller) writeUvarint(u uint64) error {
+	if u >= 1<<28 {
+		return fmt.Errorf("varint is too large: %d", u)
+	}
+
 	for i := 21; i > 0; i -= 7 {
 		if err := m.writer.WriteBits([]byte{(byte(u >> uint(i))) | 0x80}, 8); err != nil {
 			return err
-- 
2.43.0


From 2c004bd2d40966fac2e64ad6f4a314b81aaba396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:51 +0000
Subject: [PATCH 29/35] fix: arrays of zero-sized elements divided by zero

---
 marshaller.go | 6 ++----
 string.go     | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/marshaller.go b/marshaller.go
index b39ec89..946674a 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -122,8 +122,7 @@ func (m *marshaller) marshalStruct(v reflect.Value, fs []*field) error {
 }
 
 func (m *marshaller) marshalArray(v reflect.Value, fi *fieldInstance) error {
-	size := v.Type().Size()
-	for i := 0; i < int(size)/int(v.Type().Elem().Size()); i++ {
+	for i := 0; i < v.Len(); i++ {
 		err := m.marshal(v.Index(i), fi)
 		if err != nil {
 			return err
@@ -416,8 +415,7 @@ func (u *unmarshaller) unmarshalStruct(v reflect.Value, fs []*field) error {
 }
 
 func (u *unmarshaller) unmarshalArray(v reflect.Value, fi *fieldInstance) error {
-	size := v.Type().Size()
-	for i := 0; i < int(size)/int(v.Type().Elem().Size()); i++ {
+	for i := 0; i < v.Len(); i++ {
 		err := u.unmarshal(v.Index(i), fi)
 		if err != nil {
 			return err
diff --git a/string.go b/string.go
index 25d42a0..be07556 100644
--- a/string.go
+++ b/string.go
@@ -150,8 +150,7 @@ func (m *stringifier) stringifyArray(v reflect.Value, fi *fieldInstance, depth i
 	if fi.is(fieldString) {
 		m2.buf = bytes.NewBuffer(nil)
 	}
-	size := v.Type().Size()
-	for i := 0; i < int(size)/int(v.Type().Elem().Size()); i++ {
+	for i := 0; i < v.Len(); i++ {
 		if i != 0 {
 			m2.buf.WriteString(sep)
 		}
-- 
2.43.0


From 3733982a37b9c0ab28dba2d3424be0176f14bc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 30/35] fix: custom fields were told of almost 2^64 bits left
 after an overrun

---
 marshaller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marshaller.go b/marshaller.go
index 946674a..71799ec 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -392,6 +392,10 @@ func (u *unmarshaller) unmarshalStruct(v reflect.Value, fs []*field) error {
 			continue
 		}
 
+		if u.rbits > u.size*8 {
+			return fmt.Errorf("overrun error: type=%s, size=%d, bits=%d", u.dst.GetType().String(), u.size, u.rbits)
+		}
+
 		rbits, override, err := fi.cfo.OnReadField(f.name, u.reader, u.size*8-u.rbits, u.ctx)
 		if err != nil {
 			return err
-- 
2.43.0


From 68863c479b88ba0d5d1d158c7996c1eeb6e77cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 31/35] fix: dump reports an error when its output cannot be
 written

---
 cmd/mp4tool/internal/dump/dump.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/cmd/mp4tool/internal/dump/dump.go b/cmd/mp4tool/internal/dump/dump.go
index 4a7664f..92c86b7 100644
--- a/cmd/mp4tool/internal/dump/dump.go
+++ b/cmd/mp4tool/internal/dump/dump.go
@@ -120,8 +120,8 @@ func (m *mp4dump) dump(r io.ReadSeeker) error {
 				h.BoxInfo.Type == mp4.BoxTypeFree() ||
 				h.BoxInfo.Type == mp4.BoxTypeSkip()) {
 			fmt.Fprintf(line, " Data=[...] (use \"-full %s\" to show all)", h.BoxInfo.Type)
-			fmt.Println(line.String())
-			return nil, nil
+			_, err := fmt.Println(line.String())
+			return nil, err
 		}
 		full = full || m.showAll
 
@@ -130,8 +130,8 @@ func (m *mp4dump) dump(r io.ReadSeeker) error {
 			if !full && h.BoxInfo.Size-h.BoxInfo.HeaderSize >= 64 &&
 				util.ShouldHasNoChildren(h.BoxInfo.Type) {
 				fmt.Fprintf(line, " ... (use \"-full %s\" to show all)", h.BoxInfo.Type)
-				fmt.Println(line.String())
-				return nil, nil
+				_, err := fmt.Println(line.String())
+				return nil, err
 			}
 
 			box, _, err := h.ReadPayload()
@@ -150,7 +150,9 @@ func (m *mp4dump) dump(r io.ReadSeeker) error {
 					fmt.Fprintf(line, " %s", str)
 				}
 
-				fmt.Println(line.String())
+				if _, err := fmt.Println(line.String()); err != nil {
+					return nil, err
+				}
 				_, err = h.Expand()
 				return nil, err
 			}
@@ -174,8 +176,8 @@ func (m *mp4dump) dump(r io.ReadSeeker) error {
 		} else {
 			fmt.Fprintf(line, " Data=[...] (use \"-full %s\" to show all)", h.BoxInfo.Type)
 		}
-		fmt.Println(line.String())
-		return nil, nil
+		_, err := fmt.Println(line.String())
+		return nil, err
 	})
 	return err
 }
-- 
2.43.0


From 9d8788bfa7271197cf304418120cbc01ccf4b517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 32/35] fix: psshdump reports an error when its output cannot
 be written

---
 cmd/mp4tool/internal/psshdump/psshdump.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/cmd/mp4tool/internal/psshdump/psshdump.go b/cmd/mp4tool/internal/psshdump/psshdump.go
index a87f272..bb38ec6 100644
--- a/cmd/mp4tool/internal/psshdump/psshdump.go
+++ b/cmd/mp4tool/internal/psshdump/psshdump.go
@@ -1,6 +1,7 @@
 package psshdump
 
 import (
+	"bufio"
 	"bytes"
 	"encoding/base64"
 	"fmt"
@@ -44,6 +45,7 @@ func dump(inputFilePath string) error {
 		return err
 	}
 
+	out := bufio.NewWriter(os.Stdout)
 	for i := range bs {
 		pssh := bs[i].Payload.(*mp4.Pssh)
 
@@ -63,15 +65,18 @@ func dump(inputFilePath string) error {
 			return err
 		}
 
-		fmt.Printf("%d:\n", i)
-		fmt.Printf("  offset: %d\n", bs[i].Info.Offset)
-		fmt.Printf("  size: %d\n", bs[i].Info.Size)
-		fmt.Printf("  version: %d\n", pssh.Version)
-		fmt.Printf("  flags: 0x%x\n", pssh.Flags)
-		fmt.Printf("  systemId: %s\n", sysid)
-		fmt.Printf("  dataSize: %d\n", pssh.DataSize)
-		fmt.Printf("  base64: \"%s\"\n", base64.StdEncoding.EncodeToString(rawData.Bytes()))
-		fmt.Println()
+		fmt.Fprintf(out, "%d:\n", i)
+		fmt.Fprintf(out, "  offset: %d\n", bs[i].Info.Offset)
+		fmt.Fprintf(out, "  size: %d\n", bs[i].Info.Size)
+		fmt.Fprintf(out, "  version: %d\n", pssh.Version)
+		fmt.Fprintf(out, "  flags: 0x%x\n", pssh.Flags)
+		fmt.Fprintf(out, "  systemId: %s\n", sysid)
+		fmt.Fprintf(out, "  dataSize: %d\n", pssh.DataSize)
+		fmt.Fprintf(out, "  base64: \"%s\"\n", base64.StdEncoding.EncodeToString(rawData.Bytes()))
+		fmt.Fprintln(out)
+		if err := out.Flush(); err != nil {
+			return err
+		}
 	}
 
 	return nil
-- 
2.43.0


From a71972c906de313170c82e8f4c979392c58cfd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:22 +0000
Subject: [PATCH 33/35] fix: divide reports an error when a playlist cannot be
 written

---
 cmd/mp4tool/internal/divide/divide.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index 8f54d05..54e7010 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -1,6 +1,7 @@
 package divide
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 	"math"
@@ -365,11 +366,12 @@ func divide(inputFilePath, outputDir string) error {
 }
 
 func outputMasterPlaylist(filePath string, trackTypeMap map[trackType]*track) error {
-	file, err := os.Create(filePath)
+	f, err := os.Create(filePath)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer f.Close()
+	file := bufio.NewWriter(f)
 
 	var adir string
 	var vdir string
@@ -405,15 +407,16 @@ func outputMasterPlaylist(filePath string, trackTypeMap map[trackType]*track) er
 		file.WriteString("\n")
 		file.WriteString(vdir + "/" + playlistFileName + "\n")
 	}
-	return nil
+	return file.Flush()
 }
 
 func outputMediaPlaylist(filePath string, segments []segment) error {
-	file, err := os.Create(filePath)
+	f, err := os.Create(filePath)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer f.Close()
+	file := bufio.NewWriter(f)
 
 	var maxDur float64
 	for i := range segments {
@@ -438,5 +441,5 @@ func outputMediaPlaylist(filePath string, segments []segment) error {
 		}
 	}
 	file.WriteString("#EXT-X-ENDLIST\n")
-	return nil
+	return file.Flush()
 }
-- 
2.43.0


From 6e421c0e2e27be6fee3f1902a1e47c6b8a56426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:39 +0000
Subject: [PATCH 34/35] fix: a file ending within a 64-bit box header was
 traversed without error

---
 box_info.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/box_info.go b/box_info.go
index d58706a..7c8d93d 100644
--- a/box_info.go
+++ b/box_info.go
@@ -135,7 +135,9 @@ func ReadBoxInfo(r io.ReadSeeker) (*BoxInfo, error) {
 	} else if bi.Size == 1 {
 		// read more 8 bytes
 		buf.Reset()
-		if _, err := io.CopyN(buf, r, LargeHeaderSize-SmallHeaderSize); err != nil {
+		if _, err := io.CopyN(buf, r, LargeHeaderSize-SmallHeaderSize); err == io.EOF {
+			return nil, io.ErrUnexpectedEOF
+		} else if err != nil {
 			return nil, err
 		}
 		bi.HeaderSize += LargeHeaderSize - SmallHeaderSize
-- 
2.43.0


From e3446d9f3c6f58e863edf382d6353e9c95e78663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:00 +0000
Subject: [PATCH 35/35] fix: the text of pssh lists no more KIDs than KIDCount

---
 box_types_iso23001_7.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/box_types_iso23001_7.go b/box_types_iso23001_7.go
index 766c348..0a931ec 100644
--- a/box_types_iso23001_7.go
+++ b/box_types_iso23001_7.go
@@ -47,6 +47,9 @@ func (pssh *Pssh) StringifyField(name string, indent string, depth int, ctx Cont
 		buf := bytes.NewBuffer(nil)
 		buf.WriteString("[")
 		for i, e := range pssh.KIDs {
+			if uint64(i) >= uint64(pssh.KIDCount) {
+				break
+			}
 			if i != 0 {
 				buf.WriteString(", ")
 			}
-- 
2.43.0

