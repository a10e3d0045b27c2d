From 1db1f26568908105341848276b692e3b8ec3eeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 01/44] fix: read a 255-byte Pascal string in hdlr

The length byte plus one was computed in 8 bits, so that a name of 255 bytes
was not recognised and came back with its length byte and cut at the first NUL.
---
 box_types_iso14496_12.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index d258716..6c84ba8 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -649,9 +649,9 @@ func (hdlr *Hdlr) OnReadName(r bitio.ReadSeeker, leftBits uint64, ctx Context) (
 	}
 
 	plen := buf[0]
-	if hdlr.PreDefined != 0 && size >= 2 && size == uint64(plen+1) {
+	if hdlr.PreDefined != 0 && size >= 2 && size == uint64(plen)+1 {
 		// Pascal-style String
-		hdlr.Name = string(buf[1 : plen+1])
+		hdlr.Name = string(buf[1:])
 	} else {
 		// C-style String
 		clen := 0
-- 
2.43.0


From 1e526faeea1989bfa2bd3d255b3aa84128d568ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 02/44] fix: do not look beyond the payload of a short meta box

Meta peeked at four bytes even if the payload is shorter, so that the outcome
depended on the bytes behind the box, and an empty meta box at the end of a
file was an error.
---
 box_types_iso14496_12.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index 6c84ba8..53cd500 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -895,6 +895,12 @@ func (*Meta) GetType() BoxType {
 
 func (meta *Meta) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx Context) (n uint64, override bool, err error) {
 	// for Apple Quick Time
+	if size < 4 {
+		// too short to have version and flags
+		meta.Version = 0
+		meta.Flags = [3]byte{0, 0, 0}
+		return 0, true, nil
+	}
 	buf := make([]byte, 4)
 	if _, err := io.ReadFull(r, buf); err != nil {
 		return 0, false, err
-- 
2.43.0


From 4817172dd3a0045ab6e03ed23b9f3883533af7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 03/44] fix: compute sgpd entry sizes without 32-bit overflow

A length of 0x20000004 bytes was taken as 4 bytes and decoded, instead of being
rejected because it does not fit in the box.
---
 box_types_iso14496_12.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index 53cd500..ffebb1d 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -1616,7 +1616,7 @@ type TemporalLevelEntryL struct {
 func (sgpd *Sgpd) GetFieldSize(name string, ctx Context) uint {
 	switch name {
 	case "AlternativeStartupEntries":
-		return uint(sgpd.DefaultLength * 8)
+		return uint(sgpd.DefaultLength) * 8
 	}
 	return 0
 }
@@ -1681,7 +1681,7 @@ func (entry *AlternativeStartupEntry) GetFieldLength(name string, ctx Context) u
 func (entry *AlternativeStartupEntryL) GetFieldSize(name string, ctx Context) uint {
 	switch name {
 	case "AlternativeStartupEntry":
-		return uint(entry.DescriptionLength * 8)
+		return uint(entry.DescriptionLength) * 8
 	}
 	return 0
 }
-- 
2.43.0


From 368e38b562f148999babeeadc2c3fff7a3541b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:52 +0000
Subject: [PATCH 04/44] fix: decode sgpd roll distances that carry their own
 length

An entry is a 32-bit length and a 16-bit distance, 48 bits in all. With 16 every
such box was rejected with "invalid alignment".
---
 box_types_iso14496_12.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index ffebb1d..65e50e0 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -1560,7 +1560,7 @@ type Sgpd struct {
 	DefaultSampleDescriptionIndex uint32                     `mp4:"3,size=32,ver=2"`
 	EntryCount                    uint32                     `mp4:"4,size=32"`
 	RollDistances                 []int16                    `mp4:"5,size=16,opt=dynamic"`
-	RollDistancesL                []RollDistanceWithLength   `mp4:"6,size=16,opt=dynamic"`
+	RollDistancesL                []RollDistanceWithLength   `mp4:"6,size=48,opt=dynamic"`
 	AlternativeStartupEntries     []AlternativeStartupEntry  `mp4:"7,size=dynamic,len=dynamic,opt=dynamic"`
 	AlternativeStartupEntriesL    []AlternativeStartupEntryL `mp4:"8,len=dynamic,opt=dynamic"`
 	VisualRandomAccessEntries     []VisualRandomAccessEntry  `mp4:"9,len=dynamic,opt=dynamic"`
-- 
2.43.0


From 4b9b97e26bbd79a5a1f14048ab351b2c00207b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:55 +0000
Subject: [PATCH 05/44] fix: do not read empty elements forever

An array without a length ends with the payload, but elements without any field
never get there. A trun box without per-sample fields and with sample count
0xffffffff, followed by spare bytes, appended entries until memory ran out.
---
 marshaller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marshaller.go b/marshaller.go
index 8dd9637..bac5d59 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -461,9 +461,13 @@ func (u *unmarshaller) unmarshalSlice(v reflect.Value, fi *fieldInstance) error
 				break
 			}
 			slice = reflect.Append(slice, reflect.Zero(elemType))
+			rbits := u.rbits
 			if err := u.unmarshal(slice.Index(i), fi); err != nil {
 				return err
 			}
+			if fi.length == LengthUnlimited && u.rbits == rbits {
+				return fmt.Errorf("array of empty elements without length: fieldName=\"%s\"", fi.name)
+			}
 			if u.rbits > u.size*8 {
 				return fmt.Errorf("failed to read array completely: fieldName=\"%s\"", fi.name)
 			}
-- 
2.43.0


From 928b770753e7d574a0ad68fdf5e45362e6d6872f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:46 +0000
Subject: [PATCH 06/44] fix: report errors from encoding slice elements

They were dropped, so that Marshal reported success after a failed write and for
elements that cannot be encoded.
---
 marshaller.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marshaller.go b/marshaller.go
index bac5d59..d78308f 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -151,7 +151,9 @@ func (m *marshaller) marshalSlice(v reflect.Value, fi *fieldInstance) error {
 	}
 
 	for i := 0; i < int(length); i++ {
-		m.marshal(v.Index(i), fi)
+		if err := m.marshal(v.Index(i), fi); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 805e882f7ed883e0ace605782ae63fe2734c58ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:49 +0000
Subject: [PATCH 07/44] fix: report errors from writing a varint

---
 marshaller.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/marshaller.go b/marshaller.go
index d78308f..0e8621b 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -198,8 +198,7 @@ func (m *marshaller) marshalUint(v reflect.Value, fi *fieldInstance) error {
 	val := v.Uint()
 
 	if fi.is(fieldVarint) {
-		m.writeUvarint(val)
-		return nil
+		return m.writeUvarint(val)
 	}
 
 	for i := uint(0); i < fi.size; i += 8 {
-- 
2.43.0


From a6ec90063debd0bc302e6d994834dc5dcc3fb75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:52 +0000
Subject: [PATCH 08/44] fix: do not cut off varints above 28 bits

The four-byte form holds 28 bits; larger values lost their upper bits silently.
---
 marshaller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marshaller.go b/marshaller.go
index 0e8621b..29c5928 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -252,6 +252,10 @@ func (m *marshaller) marshalString(v reflect.Value, fi *fieldInstance) error {
 }
 
 func (m *marshaller) writeUvarint(u uint64) error {
+	if u>>28 != 0 {
+		return fmt.Errorf("varint does not fit in 4 bytes: %d", u)
+	}
+
 	for i := 21; i > 0; i -= 7 {
 		if err := m.writer.WriteBits([]byte{(byte(u >> uint(i))) | 0x80}, 8); err != nil {
 			return err
-- 
2.43.0


From c63b64bdadb66c4d923729e382ce2bc9963ba97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:55 +0000
Subject: [PATCH 09/44] fix: report a missing descriptor body instead of
 panicking

Encoding or rendering an esds descriptor whose tag asks for a body that is nil
panicked in reflect.
---
 marshaller.go | 3 +++
 string.go     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/marshaller.go b/marshaller.go
index 29c5928..e7016eb 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -92,6 +92,9 @@ func (m *marshaller) marshal(v reflect.Value, fi *fieldInstance) error {
 }
 
 func (m *marshaller) marshalPtr(v reflect.Value, fi *fieldInstance) error {
+	if v.IsNil() {
+		return fmt.Errorf("field must not be nil: %s", fi.name)
+	}
 	return m.marshal(v.Elem(), fi)
 }
 
diff --git a/string.go b/string.go
index 4bc368e..08f12ff 100644
--- a/string.go
+++ b/string.go
@@ -68,6 +68,9 @@ func (m *stringifier) stringify(v reflect.Value, fi *fieldInstance, depth int) e
 }
 
 func (m *stringifier) stringifyPtr(v reflect.Value, fi *fieldInstance, depth int) error {
+	if v.IsNil() {
+		return fmt.Errorf("field must not be nil: %s", fi.name)
+	}
 	return m.stringify(v.Elem(), fi, depth)
 }
 
-- 
2.43.0


From 207992225242718b3d51cbcea8956a538262b07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:58 +0000
Subject: [PATCH 10/44] fix: encode bool fields wider than a byte

Nothing was written for them, although their bits were counted.
---
 marshaller.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/marshaller.go b/marshaller.go
index e7016eb..087f8a5 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -228,10 +228,17 @@ func (m *marshaller) marshalBool(v reflect.Value, fi *fieldInstance) error {
 	} else {
 		val = 0x00
 	}
-	if err := m.writer.WriteBits([]byte{val}, fi.size); err != nil {
-		return err
+	for left := fi.size; left > 0; {
+		size := left
+		if size > 8 {
+			size = 8
+		}
+		if err := m.writer.WriteBits([]byte{val}, size); err != nil {
+			return err
+		}
+		m.wbits += uint64(size)
+		left -= size
 	}
-	m.wbits += uint64(fi.size)
 	return nil
 }
 
-- 
2.43.0


From e55964d8b77a521f5fb2bbfa38262c21ffc91e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 11/44] fix: honour the entry count of sgpd roll distances

GetFieldLength returns it, but the tags did not ask for it: the list took what was
left in the box, and a count that overruns the box or the list went unnoticed.
---
 box_types_iso14496_12.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index 65e50e0..3099ef7 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -1559,8 +1559,8 @@ type Sgpd struct {
 	DefaultLength                 uint32                     `mp4:"2,size=32,ver=1"`
 	DefaultSampleDescriptionIndex uint32                     `mp4:"3,size=32,ver=2"`
 	EntryCount                    uint32                     `mp4:"4,size=32"`
-	RollDistances                 []int16                    `mp4:"5,size=16,opt=dynamic"`
-	RollDistancesL                []RollDistanceWithLength   `mp4:"6,size=48,opt=dynamic"`
+	RollDistances                 []int16                    `mp4:"5,size=16,len=dynamic,opt=dynamic"`
+	RollDistancesL                []RollDistanceWithLength   `mp4:"6,size=48,len=dynamic,opt=dynamic"`
 	AlternativeStartupEntries     []AlternativeStartupEntry  `mp4:"7,size=dynamic,len=dynamic,opt=dynamic"`
 	AlternativeStartupEntriesL    []AlternativeStartupEntryL `mp4:"8,len=dynamic,opt=dynamic"`
 	VisualRandomAccessEntries     []VisualRandomAccessEntry  `mp4:"9,len=dynamic,opt=dynamic"`
-- 
2.43.0


From a883eb7ec105cd014a0113c75399a61aeeed7327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 12/44] fix: reject box sizes below the header size or beyond
 file positions

---
 box_info.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/box_info.go b/box_info.go
index 1cb4b8a..1cbd83d 100644
--- a/box_info.go
+++ b/box_info.go
@@ -142,8 +142,11 @@ func ReadBoxInfo(r io.ReadSeeker) (*BoxInfo, error) {
 		bi.Size = binary.BigEndian.Uint64(buf.Bytes())
 	}
 
-	if bi.Size == 0 {
-		return nil, fmt.Errorf("invalid size")
+	if bi.Size < bi.HeaderSize {
+		return nil, fmt.Errorf("invalid size: type=%s, size=%d", bi.Type.String(), bi.Size)
+	}
+	if bi.Size > math.MaxInt64-bi.Offset {
+		return nil, fmt.Errorf("too large box size: type=%s, offset=%d, size=%d", bi.Type.String(), bi.Offset, bi.Size)
 	}
 
 	return bi, nil
-- 
2.43.0


From 0d5390aa4c969ef158eebbe9f2835da974854b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:50 +0000
Subject: [PATCH 13/44] fix: do not divide by zero for samples without duration

---
 probe.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/probe.go b/probe.go
index 2ffaf7a..2924287 100644
--- a/probe.go
+++ b/probe.go
@@ -639,9 +639,11 @@ func (samples Samples) GetMaxBitrate(timescale uint32, timeDelta uint64) uint64
 				break
 			}
 		}
-		bitrate := 8 * size * uint64(timescale) / duration
-		if bitrate > maxBitrate {
-			maxBitrate = bitrate
+		if duration != 0 {
+			bitrate := 8 * size * uint64(timescale) / duration
+			if bitrate > maxBitrate {
+				maxBitrate = bitrate
+			}
 		}
 		for {
 			size -= uint64(samples[begin].Size)
-- 
2.43.0


From 9d9d601e9c5725cbc946966fceb0b66d1bb6f6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 14/44] fix: do not let NAL unit offsets wrap around

---
 probe.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/probe.go b/probe.go
index 2924287..4eed339 100644
--- a/probe.go
+++ b/probe.go
@@ -570,7 +570,7 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 	if trackInfo.AVC == nil {
 		return nil, nil
 	}
-	lengthSize := uint32(trackInfo.AVC.LengthSize)
+	lengthSize := uint64(trackInfo.AVC.LengthSize)
 
 	var si int
 	idxs := make([]int, 0, 8)
@@ -582,8 +582,8 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 			if sample.Size == 0 {
 				continue
 			}
-			for nalOffset := uint32(0); nalOffset+lengthSize+1 <= sample.Size; {
-				if _, err := r.Seek(int64(dataOffset+uint64(nalOffset)), io.SeekStart); err != nil {
+			for nalOffset := uint64(0); nalOffset+lengthSize+1 <= uint64(sample.Size); {
+				if _, err := r.Seek(int64(dataOffset+nalOffset), io.SeekStart); err != nil {
 					return nil, err
 				}
 				data := make([]byte, lengthSize+1)
@@ -600,7 +600,7 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 					idxs = append(idxs, si)
 					break
 				}
-				nalOffset += lengthSize + length
+				nalOffset += lengthSize + uint64(length)
 			}
 			dataOffset += uint64(sample.Size)
 		}
-- 
2.43.0


From 21b1aa9e47e192c929992c823061575c370f6f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 15/44] fix: decode extracted boxes in their own context

---
 extract.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/extract.go b/extract.go
index 7de36b0..c8cb2ab 100644
--- a/extract.go
+++ b/extract.go
@@ -26,11 +26,7 @@ func ExtractBoxesWithPayload(r io.ReadSeeker, parent *BoxInfo, paths []BoxPath)
 			return nil, err
 		}
 
-		var ctx Context
-		if parent != nil {
-			ctx = parent.Context
-		}
-		box, _, err := UnmarshalAny(r, bi.Type, bi.Size-bi.HeaderSize, ctx)
+		box, _, err := UnmarshalAny(r, bi.Type, bi.Size-bi.HeaderSize, bi.Context)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 650a9fdfd935f717fb8951d15457c84248944dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 16/44] fix: accept a byte that is delivered together with
 io.EOF

---
 internal/bitio/read.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/bitio/read.go b/internal/bitio/read.go
index 4da76ea..b4c8824 100644
--- a/internal/bitio/read.go
+++ b/internal/bitio/read.go
@@ -59,9 +59,11 @@ func (r *reader) ReadBits(size uint) ([]byte, error) {
 func (r *reader) ReadBit() (bool, error) {
 	if r.width == 0 {
 		buf := make([]byte, 1)
-		if n, err := r.reader.Read(buf); err != nil {
-			return false, err
-		} else if n != 1 {
+		// a reader may return the last byte together with io.EOF
+		if n, err := r.reader.Read(buf); n != 1 {
+			if err != nil {
+				return false, err
+			}
 			return false, ErrDiscouragedReader
 		}
 		r.octet = buf[0]
-- 
2.43.0


From 43ae5b3e0b3f800065966ccef211cf136612be5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 17/44] fix: read strings according to the io.Reader contract

---
 internal/util/io.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/util/io.go b/internal/util/io.go
index 1e46811..b691662 100644
--- a/internal/util/io.go
+++ b/internal/util/io.go
@@ -9,7 +9,7 @@ func ReadString(r io.Reader) (string, error) {
 	b := make([]byte, 1)
 	buf := bytes.NewBuffer(nil)
 	for {
-		if _, err := r.Read(b); err != nil {
+		if _, err := io.ReadFull(r, b); err != nil {
 			return "", err
 		}
 		if b[0] == 0 {
-- 
2.43.0


From e2176803cdcae50d09a9bc8fde3a2e6b1f65fd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:58 +0000
Subject: [PATCH 18/44] fix: divide fragments with any number of trun boxes

---
 cmd/mp4tool/internal/divide/divide.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index 10c60a6..467e3a1 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -284,14 +284,16 @@ func divide(inputFilePath, outputDir string) error {
 				if err != nil {
 					return nil, err
 				}
-				trun := bs[0].Payload.(*mp4.Trun)
 
 				var duration uint32
-				for i := range trun.Entries {
-					if trun.CheckFlag(0x000100) {
-						duration += trun.Entries[i].SampleDuration
-					} else {
-						duration += defaultSampleDuration
+				for _, b := range bs {
+					trun := b.Payload.(*mp4.Trun)
+					for i := range trun.Entries {
+						if trun.CheckFlag(0x000100) {
+							duration += trun.Entries[i].SampleDuration
+						} else {
+							duration += defaultSampleDuration
+						}
 					}
 				}
 
-- 
2.43.0


From 29db5d9c42682120d8f0a2822e061c95bfa918de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 19/44] fix: do not panic on media data before the first
 fragment

---
 cmd/mp4tool/internal/divide/divide.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index 467e3a1..4533c58 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -313,6 +313,9 @@ func divide(inputFilePath, outputDir string) error {
 				}
 
 				t := tracks[currTrackID]
+				if len(t.segments) == 0 {
+					return nil, nil
+				}
 				bandwidth := uint64(float64(h.BoxInfo.Size) * 8 / t.segments[len(t.segments)-1].duration)
 				if bandwidth > t.bandwidth {
 					t.bandwidth = bandwidth
-- 
2.43.0


From d8667e007cc320ec5bcbf3b0a8a587528478edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:01 +0000
Subject: [PATCH 20/44] fix: do not allocate memory of the declared box size in
 dump and psshdump

---
 cmd/mp4tool/internal/dump/dump.go         | 2 +-
 cmd/mp4tool/internal/psshdump/psshdump.go | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cmd/mp4tool/internal/dump/dump.go b/cmd/mp4tool/internal/dump/dump.go
index 42280b1..ccebc32 100644
--- a/cmd/mp4tool/internal/dump/dump.go
+++ b/cmd/mp4tool/internal/dump/dump.go
@@ -156,7 +156,7 @@ func (m *mp4dump) dump(r io.ReadSeeker) error {
 
 		// unsupported box type
 		if full {
-			buf := bytes.NewBuffer(make([]byte, 0, h.BoxInfo.Size-h.BoxInfo.HeaderSize))
+			buf := bytes.NewBuffer(nil)
 			if _, err := h.ReadData(buf); err != nil {
 				return nil, err
 			}
diff --git a/cmd/mp4tool/internal/psshdump/psshdump.go b/cmd/mp4tool/internal/psshdump/psshdump.go
index 368bf0e..8d3cfd5 100644
--- a/cmd/mp4tool/internal/psshdump/psshdump.go
+++ b/cmd/mp4tool/internal/psshdump/psshdump.go
@@ -1,6 +1,7 @@
 package psshdump
 
 import (
+	"bytes"
 	"encoding/base64"
 	"fmt"
 	"io"
@@ -54,8 +55,8 @@ func dump(inputFilePath string) error {
 		if _, err := bs[i].Info.SeekToStart(r); err != nil {
 			return err
 		}
-		rawData := make([]byte, bs[i].Info.Size)
-		if _, err := io.ReadFull(r, rawData); err != nil {
+		rawData := bytes.NewBuffer(nil)
+		if _, err := io.CopyN(rawData, r, int64(bs[i].Info.Size)); err != nil {
 			return err
 		}
 
@@ -66,7 +67,7 @@ func dump(inputFilePath string) error {
 		fmt.Printf("  flags: 0x%x\n", pssh.Flags)
 		fmt.Printf("  systemId: %s\n", sysid)
 		fmt.Printf("  dataSize: %d\n", pssh.DataSize)
-		fmt.Printf("  base64: \"%s\"\n", base64.StdEncoding.EncodeToString(rawData))
+		fmt.Printf("  base64: \"%s\"\n", base64.StdEncoding.EncodeToString(rawData.Bytes()))
 		fmt.Println()
 	}
 
-- 
2.43.0


From 61ca302765ab5a3ab9875b0008d427c24745782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:04 +0000
Subject: [PATCH 21/44] fix: report ending a box that was not started

---
 write.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/write.go b/write.go
index 72d4644..b504733 100644
--- a/write.go
+++ b/write.go
@@ -34,6 +34,9 @@ func (w *Writer) StartBox(bi *BoxInfo) (*BoxInfo, error) {
 }
 
 func (w *Writer) EndBox() (*BoxInfo, error) {
+	if len(w.biStack) == 0 {
+		return nil, errors.New("no box to end")
+	}
 	bi := w.biStack[len(w.biStack)-1]
 	w.biStack = w.biStack[:len(w.biStack)-1]
 	end, err := w.writer.Seek(0, io.SeekCurrent)
-- 
2.43.0


From 65564cc6b32ce0aeb738fd5e1e3dbfb49f086108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:05 +0000
Subject: [PATCH 22/44] fix: report files with a zero time scale

---
 cmd/mp4tool/internal/probe/probe.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmd/mp4tool/internal/probe/probe.go b/cmd/mp4tool/internal/probe/probe.go
index 41568b8..277c11e 100644
--- a/cmd/mp4tool/internal/probe/probe.go
+++ b/cmd/mp4tool/internal/probe/probe.go
@@ -82,6 +82,13 @@ type track struct {
 	MaxBitrate      uint64  `json:",omitempty" yaml:"max_bitrate,omitempty"`
 }
 
+func durationSeconds(duration uint64, timescale uint32) float32 {
+	if timescale == 0 {
+		return 0
+	}
+	return float32(duration) / float32(timescale)
+}
+
 func buildReport(r io.ReadSeeker) (*report, error) {
 	info, err := mp4.Probe(r)
 	if err != nil {
@@ -95,7 +102,7 @@ func buildReport(r io.ReadSeeker) (*report, error) {
 		FastStart:        info.FastStart,
 		Timescale:        info.Timescale,
 		Duration:         info.Duration,
-		DurationSeconds:  float32(info.Duration) / float32(info.Timescale),
+		DurationSeconds:  durationSeconds(info.Duration, info.Timescale),
 		Tracks:           make([]*track, 0, len(info.Tracks)),
 	}
 	for _, brand := range info.CompatibleBrands {
@@ -112,7 +119,7 @@ func buildReport(r io.ReadSeeker) (*report, error) {
 			TrackID:         tr.TrackID,
 			Timescale:       tr.Timescale,
 			Duration:        tr.Duration,
-			DurationSeconds: float32(tr.Duration) / float32(tr.Timescale),
+			DurationSeconds: durationSeconds(tr.Duration, tr.Timescale),
 			Encrypted:       tr.Encrypted,
 			Bitrate:         bitrate,
 			MaxBitrate:      maxBitrate,
-- 
2.43.0


From cb21cbaca1375cc0392936a2a5afb5e05ff24ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 23/44] fix: probe sample sizes that are constant

---
 probe.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/probe.go b/probe.go
index 4eed339..69b46a1 100644
--- a/probe.go
+++ b/probe.go
@@ -358,7 +358,11 @@ func probeTrak(r io.ReadSeeker, bi *BoxInfo) (*Track, error) {
 		}
 	}
 
-	if stsz != nil {
+	if stsz != nil && stsz.SampleSize != 0 {
+		for i := 0; i < int(stsz.SampleCount) && i < len(track.Samples); i++ {
+			track.Samples[i].Size = stsz.SampleSize
+		}
+	} else if stsz != nil {
 		for i := 0; i < len(stsz.EntrySize) && i < len(track.Samples); i++ {
 			track.Samples[i].Size = stsz.EntrySize[i]
 		}
-- 
2.43.0


From 66db73654816595b82da7e5b6c17afa6fabafc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 24/44] fix: render the Version and Flags fields of boxes other
 than full boxes

---
 string.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/string.go b/string.go
index 08f12ff..398807d 100644
--- a/string.go
+++ b/string.go
@@ -113,12 +113,12 @@ func (m *stringifier) stringifyStruct(v reflect.Value, fs []*field, depth int, e
 			continue
 		}
 
-		if f.name == "Version" {
-			m.buf.WriteString(strconv.Itoa(int(m.src.GetVersion())))
-		} else if f.name == "Flags" {
+		if fv := v.FieldByName(f.name); f.name == "Version" && fv.Kind() == reflect.Uint8 {
+			m.buf.WriteString(strconv.FormatUint(fv.Uint(), 10))
+		} else if f.name == "Flags" && fv.Kind() == reflect.Array {
 			fmt.Fprintf(m.buf, "0x%06x", m.src.GetFlags())
 		} else {
-			err := m.stringify(v.FieldByName(f.name), fi, depth)
+			err := m.stringify(fv, fi, depth)
 			if err != nil {
 				return err
 			}
-- 
2.43.0


From 1c45dde1a4c596f81882e70b1f73725087f1d1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 25/44] fix: escape unprintable language codes

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 398807d..9dfa9af 100644
--- a/string.go
+++ b/string.go
@@ -228,7 +228,7 @@ func (m *stringifier) stringifyInt(v reflect.Value, fi *fieldInstance, depth int
 
 func (m *stringifier) stringifyUint(v reflect.Value, fi *fieldInstance, depth int) error {
 	if fi.is(fieldISO639_2) {
-		m.buf.WriteString(string([]byte{byte(v.Uint() + 0x60)}))
+		m.buf.WriteString(util.EscapeUnprintables(string([]byte{byte(v.Uint() + 0x60)})))
 	} else if fi.is(fieldUUID) {
 		fmt.Fprintf(m.buf, "%02x", v.Uint())
 	} else if fi.is(fieldString) {
-- 
2.43.0


From 8a95bb5f90505fbd1fedd7b9435e5a662c176269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 26/44] fix: render the smallest integer in hexadecimal

---
 string.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.go b/string.go
index 9dfa9af..4b9ea96 100644
--- a/string.go
+++ b/string.go
@@ -218,7 +218,7 @@ func (m *stringifier) stringifyInt(v reflect.Value, fi *fieldInstance, depth int
 			m.buf.WriteString(strconv.FormatInt(val, 16))
 		} else {
 			m.buf.WriteString("-0x")
-			m.buf.WriteString(strconv.FormatInt(-val, 16))
+			m.buf.WriteString(strconv.FormatUint(uint64(-val), 16))
 		}
 	} else {
 		m.buf.WriteString(strconv.FormatInt(v.Int(), 10))
-- 
2.43.0


From 86a05394f868f920d136e9de3bf34f89b2561fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 27/44] fix: decode slices of named byte types

---
 marshaller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshaller.go b/marshaller.go
index 087f8a5..dfc0289 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -452,7 +452,7 @@ func (u *unmarshaller) unmarshalSlice(v reflect.Value, fi *fieldInstance) error
 		}
 	}
 
-	if u.rbits%8 == 0 && elemType.Kind() == reflect.Uint8 && fi.size == 8 {
+	if u.rbits%8 == 0 && elemType == reflect.TypeOf(byte(0)) && fi.size == 8 {
 		totalSize := length * uint64(fi.size) / 8
 
 		if !readerHasSize(u.reader, totalSize) {
-- 
2.43.0


From c0f49fd3c5552220083da4cae0ce11d037c6f565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 28/44] fix: reject payload sizes whose number of bits
 overflows

---
 marshaller.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/marshaller.go b/marshaller.go
index dfc0289..b2cba9e 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -28,7 +28,7 @@ func readerHasSize(reader bitio.ReadSeeker, size uint64) bool {
 		return false
 	}
 
-	if uint64(end-pre) < size {
+	if end < pre || uint64(end-pre) < size {
 		return false
 	}
 
@@ -304,6 +304,10 @@ func Unmarshal(r io.ReadSeeker, payloadSize uint64, dst IBox, ctx Context) (n ui
 		return 0, ErrBoxInfoNotFound
 	}
 
+	if payloadSize > math.MaxUint64/8 {
+		return 0, fmt.Errorf("too large payload size: type=%s, size=%d", dst.GetType().String(), payloadSize)
+	}
+
 	v := reflect.ValueOf(dst).Elem()
 
 	dst.SetVersion(anyVersion)
-- 
2.43.0


From 829826e529a31c38b4a0f873bcb7bd93bb2678d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 29/44] fix: do not modify the caller's box information while
 reading

---
 read.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/read.go b/read.go
index 475739a..a696dc0 100644
--- a/read.go
+++ b/read.go
@@ -42,7 +42,9 @@ func ReadBoxStructure(r io.ReadSeeker, handler ReadHandler, params ...interface{
 }
 
 func ReadBoxStructureFromInternal(r io.ReadSeeker, bi *BoxInfo, handler ReadHandler, params ...interface{}) (interface{}, error) {
-	return readBoxStructureFromInternal(r, bi, nil, handler, params)
+	// the context of the box may be updated: keep the caller's record
+	bi2 := *bi
+	return readBoxStructureFromInternal(r, &bi2, nil, handler, params)
 }
 
 func readBoxStructureFromInternal(r io.ReadSeeker, bi *BoxInfo, path BoxPath, handler ReadHandler, params []interface{}) (interface{}, error) {
-- 
2.43.0


From dafecb53c58c4dec7cb95bc4a790af09050f7721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:59 +0000
Subject: [PATCH 30/44] fix: refuse a base media decode time that does not fit

---
 cmd/mp4tool/internal/edit/edit.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/mp4tool/internal/edit/edit.go b/cmd/mp4tool/internal/edit/edit.go
index c9ce7f1..b718b7d 100644
--- a/cmd/mp4tool/internal/edit/edit.go
+++ b/cmd/mp4tool/internal/edit/edit.go
@@ -105,6 +105,9 @@ func editFile(inputPath, outputPath string) error {
 			tfdt := box.(*mp4.Tfdt)
 			if config.values.BaseMediaDecodeTime != UNoValue {
 				if tfdt.GetVersion() == 0 {
+					if config.values.BaseMediaDecodeTime > math.MaxUint32 {
+						return nil, fmt.Errorf("base_media_decode_time does not fit in 32 bits: %d", config.values.BaseMediaDecodeTime)
+					}
 					tfdt.BaseMediaDecodeTimeV0 = uint32(config.values.BaseMediaDecodeTime)
 				} else {
 					tfdt.BaseMediaDecodeTimeV1 = config.values.BaseMediaDecodeTime
-- 
2.43.0


From b832e72e4317f88ed542acbbeebc69ef057b58e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 31/44] fix: do not panic on boxes that extend beyond the end
 of the file

---
 cmd/mp4tool/internal/dump/dump.go         |  7 +++--
 cmd/mp4tool/internal/edit/edit.go         |  7 +++--
 cmd/mp4tool/internal/extract/extract.go   |  7 +++--
 cmd/mp4tool/internal/probe/probe.go       |  8 ++++--
 cmd/mp4tool/internal/psshdump/psshdump.go |  7 +++--
 cmd/mp4tool/internal/util/util.go         | 35 ++++++++++++++++++++++-
 6 files changed, 60 insertions(+), 11 deletions(-)

diff --git a/cmd/mp4tool/internal/dump/dump.go b/cmd/mp4tool/internal/dump/dump.go
index ccebc32..4a7664f 100644
--- a/cmd/mp4tool/internal/dump/dump.go
+++ b/cmd/mp4tool/internal/dump/dump.go
@@ -10,7 +10,6 @@ import (
 
 	"github.com/abema/go-mp4"
 	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
-	"github.com/sunfish-shogi/bufseekio"
 	"golang.org/x/term"
 )
 
@@ -89,7 +88,11 @@ func (m *mp4dump) dumpFile(fpath string) error {
 	}
 	defer file.Close()
 
-	return m.dump(bufseekio.NewReadSeeker(file, blockSize, blockHistorySize))
+	r, err := util.NewReadSeeker(file, blockSize, blockHistorySize)
+	if err != nil {
+		return err
+	}
+	return m.dump(r)
 }
 
 func (m *mp4dump) dump(r io.ReadSeeker) error {
diff --git a/cmd/mp4tool/internal/edit/edit.go b/cmd/mp4tool/internal/edit/edit.go
index b718b7d..235303a 100644
--- a/cmd/mp4tool/internal/edit/edit.go
+++ b/cmd/mp4tool/internal/edit/edit.go
@@ -8,7 +8,7 @@ import (
 	"strings"
 
 	"github.com/abema/go-mp4"
-	"github.com/sunfish-shogi/bufseekio"
+	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
 )
 
 const UNoValue = math.MaxUint64
@@ -76,7 +76,10 @@ func editFile(inputPath, outputPath string) error {
 	}
 	defer outputFile.Close()
 
-	r := bufseekio.NewReadSeeker(inputFile, 128*1024, 4)
+	r, err := util.NewReadSeeker(inputFile, 128*1024, 4)
+	if err != nil {
+		return err
+	}
 	w := mp4.NewWriter(outputFile)
 	_, err = mp4.ReadBoxStructure(r, func(h *mp4.ReadHandle) (interface{}, error) {
 		if config.dropBoxes.Exists(h.BoxInfo.Type.String()) {
diff --git a/cmd/mp4tool/internal/extract/extract.go b/cmd/mp4tool/internal/extract/extract.go
index 51f93e2..1767f50 100644
--- a/cmd/mp4tool/internal/extract/extract.go
+++ b/cmd/mp4tool/internal/extract/extract.go
@@ -8,7 +8,6 @@ import (
 
 	"github.com/abema/go-mp4"
 	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
-	"github.com/sunfish-shogi/bufseekio"
 )
 
 const (
@@ -45,7 +44,11 @@ func Main(args []string) int {
 	}
 	defer input.Close()
 
-	r := bufseekio.NewReadSeeker(input, blockSize, blockHistorySize)
+	r, err := util.NewReadSeeker(input, blockSize, blockHistorySize)
+	if err != nil {
+		fmt.Println("Error:", err)
+		return 1
+	}
 	if err := extract(r, mp4.StrToBoxType(boxType)); err != nil {
 		fmt.Println("Error:", err)
 		return 1
diff --git a/cmd/mp4tool/internal/probe/probe.go b/cmd/mp4tool/internal/probe/probe.go
index 277c11e..ad77fc5 100644
--- a/cmd/mp4tool/internal/probe/probe.go
+++ b/cmd/mp4tool/internal/probe/probe.go
@@ -8,7 +8,7 @@ import (
 	"os"
 
 	"github.com/abema/go-mp4"
-	"github.com/sunfish-shogi/bufseekio"
+	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
 	"gopkg.in/yaml.v2"
 )
 
@@ -34,7 +34,11 @@ func Main(args []string) int {
 	}
 	defer input.Close()
 
-	r := bufseekio.NewReadSeeker(input, 1024, 4)
+	r, err := util.NewReadSeeker(input, 1024, 4)
+	if err != nil {
+		fmt.Println("Failed to read the input file:", err)
+		return 1
+	}
 	rep, err := buildReport(r)
 	if err != nil {
 		fmt.Println("Error:", err)
diff --git a/cmd/mp4tool/internal/psshdump/psshdump.go b/cmd/mp4tool/internal/psshdump/psshdump.go
index 8d3cfd5..a87f272 100644
--- a/cmd/mp4tool/internal/psshdump/psshdump.go
+++ b/cmd/mp4tool/internal/psshdump/psshdump.go
@@ -8,7 +8,7 @@ import (
 	"os"
 
 	mp4 "github.com/abema/go-mp4"
-	"github.com/sunfish-shogi/bufseekio"
+	"github.com/abema/go-mp4/cmd/mp4tool/internal/util"
 )
 
 func Main(args []string) int {
@@ -31,7 +31,10 @@ func dump(inputFilePath string) error {
 	}
 	defer inputFile.Close()
 
-	r := bufseekio.NewReadSeeker(inputFile, 1024, 4)
+	r, err := util.NewReadSeeker(inputFile, 1024, 4)
+	if err != nil {
+		return err
+	}
 
 	bs, err := mp4.ExtractBoxesWithPayload(r, nil, []mp4.BoxPath{
 		{mp4.BoxTypeMoov(), mp4.BoxTypePssh()},
diff --git a/cmd/mp4tool/internal/util/util.go b/cmd/mp4tool/internal/util/util.go
index 08825b2..25585ae 100644
--- a/cmd/mp4tool/internal/util/util.go
+++ b/cmd/mp4tool/internal/util/util.go
@@ -1,6 +1,39 @@
 package util
 
-import "github.com/abema/go-mp4"
+import (
+	"io"
+	"os"
+
+	"github.com/abema/go-mp4"
+	"github.com/sunfish-shogi/bufseekio"
+)
+
+type readSeeker struct {
+	*bufseekio.ReadSeeker
+	size int64
+}
+
+// NewReadSeeker returns a buffered reader of the file.
+func NewReadSeeker(file *os.File, blockSize, historySize int) (io.ReadSeeker, error) {
+	size, err := file.Seek(0, io.SeekEnd)
+	if err != nil {
+		return nil, err
+	}
+	return &readSeeker{
+		ReadSeeker: bufseekio.NewReadSeeker(file, blockSize, historySize),
+		size:       size,
+	}, nil
+}
+
+// Read returns io.EOF at every position beyond the end of the file, where bufseekio panics.
+func (r *readSeeker) Read(p []byte) (int, error) {
+	if pos, err := r.Seek(0, io.SeekCurrent); err != nil {
+		return 0, err
+	} else if pos >= r.size {
+		return 0, io.EOF
+	}
+	return r.ReadSeeker.Read(p)
+}
 
 func ShouldHasNoChildren(boxType mp4.BoxType) bool {
 	return boxType == mp4.BoxTypeEmsg() ||
-- 
2.43.0


From f7f7063e5d9576b5e40c13b4d30f9e92b32de478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 32/44] fix: do not panic on skipped boxes inside moov in
 divide

---
 cmd/mp4tool/internal/divide/divide.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index 4533c58..da7b84f 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -216,7 +216,7 @@ func divide(inputFilePath, outputDir string) error {
 					return nil, err
 				}
 				for _, val := range vals {
-					ci := val.(childInfo)
+					ci, _ := val.(childInfo) // nil for boxes that are not copied
 					for _, t := range tracks {
 						// already writeAll is true in Moov box
 						biMap[t.id].Size += ci[t.id]
-- 
2.43.0


From 8bf6cf07f777470e7db9aad46ecf2c99ac8e152d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:22 +0000
Subject: [PATCH 33/44] fix: do not report a version that lies beyond the
 payload

---
 marshaller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marshaller.go b/marshaller.go
index b2cba9e..66b9e82 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -421,6 +421,10 @@ func (u *unmarshaller) unmarshalStruct(v reflect.Value, fs []*field) error {
 		}
 
 		if v.FieldByName(f.name).Type() == reflect.TypeOf(FullBox{}) && !u.dst.GetType().IsSupportedVersion(u.dst.GetVersion(), u.ctx) {
+			if u.rbits > u.size*8 {
+				// the version is not in the payload
+				return fmt.Errorf("overrun error: type=%s, size=%d, bits=%d", u.dst.GetType().String(), u.size, u.rbits)
+			}
 			return ErrUnsupportedBoxVersion
 		}
 	}
-- 
2.43.0


From b0af0f001ed60361c3630545f99c9c66d13d0785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:40 +0000
Subject: [PATCH 34/44] fix: consider every window in Samples.GetMaxBitrate

---
 probe.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/probe.go b/probe.go
index 69b46a1..f1e11f3 100644
--- a/probe.go
+++ b/probe.go
@@ -643,13 +643,13 @@ func (samples Samples) GetMaxBitrate(timescale uint32, timeDelta uint64) uint64
 				break
 			}
 		}
-		if duration != 0 {
-			bitrate := 8 * size * uint64(timescale) / duration
-			if bitrate > maxBitrate {
-				maxBitrate = bitrate
-			}
-		}
 		for {
+			if duration != 0 {
+				bitrate := 8 * size * uint64(timescale) / duration
+				if bitrate > maxBitrate {
+					maxBitrate = bitrate
+				}
+			}
 			size -= uint64(samples[begin].Size)
 			duration -= uint64(samples[begin].TimeDelta)
 			begin++
-- 
2.43.0


From 258f29091f2f819606bbd4c40b53d26d3fbd84ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:30 +0000
Subject: [PATCH 35/44] fix: report an overrun before a hook is told a
 wrapped-around number of bits

---
 marshaller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/marshaller.go b/marshaller.go
index 66b9e82..333d87a 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -406,6 +406,10 @@ func (u *unmarshaller) unmarshalStruct(v reflect.Value, fs []*field) error {
 			continue
 		}
 
+		if u.rbits > u.size*8 {
+			return fmt.Errorf("overrun error: type=%s, size=%d, bits=%d", u.dst.GetType().String(), u.size, u.rbits)
+		}
+
 		rbits, override, err := fi.cfo.OnReadField(f.name, u.reader, u.size*8-u.rbits, u.ctx)
 		if err != nil {
 			return err
-- 
2.43.0


From f549f99e88ca359102a6fdd2a057b4cffc6fc4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 36/44] fix: decode byte slices in sized structures that start
 within a byte

---
 marshaller.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marshaller.go b/marshaller.go
index 333d87a..f5c6627 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -286,6 +286,7 @@ type unmarshaller struct {
 	dst    IBox
 	size   uint64
 	rbits  uint64
+	base   uint64 // bits before the innermost sized structure
 	ctx    Context
 }
 
@@ -384,6 +385,7 @@ func (u *unmarshaller) unmarshalStructInternal(v reflect.Value, fi *fieldInstanc
 	if fi.size != 0 && fi.size%8 == 0 {
 		u2 := *u
 		u2.size = uint64(fi.size / 8)
+		u2.base = u.base + u.rbits
 		u2.rbits = 0
 		if err := u2.unmarshalStruct(v, fi.children); err != nil {
 			return err
@@ -464,7 +466,7 @@ func (u *unmarshaller) unmarshalSlice(v reflect.Value, fi *fieldInstance) error
 		}
 	}
 
-	if u.rbits%8 == 0 && elemType == reflect.TypeOf(byte(0)) && fi.size == 8 {
+	if (u.base+u.rbits)%8 == 0 && elemType == reflect.TypeOf(byte(0)) && fi.size == 8 {
 		totalSize := length * uint64(fi.size) / 8
 
 		if !readerHasSize(u.reader, totalSize) {
-- 
2.43.0


From 56c9880549a83669c58b305a514c09ebb9778a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 37/44] fix: do not let fragment durations wrap around in
 divide

---
 cmd/mp4tool/internal/divide/divide.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index da7b84f..1845f62 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -285,14 +285,14 @@ func divide(inputFilePath, outputDir string) error {
 					return nil, err
 				}
 
-				var duration uint32
+				var duration uint64
 				for _, b := range bs {
 					trun := b.Payload.(*mp4.Trun)
 					for i := range trun.Entries {
 						if trun.CheckFlag(0x000100) {
-							duration += trun.Entries[i].SampleDuration
+							duration += uint64(trun.Entries[i].SampleDuration)
 						} else {
-							duration += defaultSampleDuration
+							duration += uint64(defaultSampleDuration)
 						}
 					}
 				}
-- 
2.43.0


From a02503b0259464703dce2ccbbee986cdea77563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:05 +0000
Subject: [PATCH 38/44] fix: use the default sample durations of trex boxes in
 divide

---
 cmd/mp4tool/internal/divide/divide.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index 1845f62..0996c8e 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -73,6 +73,15 @@ func divide(inputFilePath, outputDir string) error {
 
 	// generate track map
 	tracks := make(map[uint32]*track, 4)
+	trexs, err := mp4.ExtractBoxWithPayload(inputFile, nil, mp4.BoxPath{mp4.BoxTypeMoov(), mp4.BoxTypeMvex(), mp4.BoxTypeTrex()})
+	if err != nil {
+		return err
+	}
+	defaultSampleDurations := make(map[uint32]uint32, len(trexs))
+	for _, b := range trexs {
+		trex := b.Payload.(*mp4.Trex)
+		defaultSampleDurations[trex.TrackID] = trex.DefaultSampleDuration
+	}
 	bis, err := mp4.ExtractBox(inputFile, nil, mp4.BoxPath{mp4.BoxTypeMoov(), mp4.BoxTypeTrak()})
 	if err != nil {
 		return err
@@ -274,7 +283,7 @@ func divide(inputFilePath, outputDir string) error {
 					return nil, nil
 				}
 
-				var defaultSampleDuration uint32
+				defaultSampleDuration := defaultSampleDurations[currTrackID]
 				if tfhd.CheckFlag(0x000008) {
 					defaultSampleDuration = tfhd.DefaultSampleDuration
 				}
-- 
2.43.0


From 5e19244e292ecc27b874f31b05d39ba1042481cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:58 +0000
Subject: [PATCH 39/44] fix: sgpd takes the default length only from version 1
 when decoding into a used value

---
 box_types_iso14496_12.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/box_types_iso14496_12.go b/box_types_iso14496_12.go
index 3099ef7..3bf8786 100644
--- a/box_types_iso14496_12.go
+++ b/box_types_iso14496_12.go
@@ -1616,7 +1616,9 @@ type TemporalLevelEntryL struct {
 func (sgpd *Sgpd) GetFieldSize(name string, ctx Context) uint {
 	switch name {
 	case "AlternativeStartupEntries":
-		return uint(sgpd.DefaultLength) * 8
+		if sgpd.Version == 1 {
+			return uint(sgpd.DefaultLength) * 8
+		}
 	}
 	return 0
 }
-- 
2.43.0


From 5dab24d5672533511ab9da415278c657a22a036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 40/44] fix: report failed writes of playlists in divide

---
 cmd/mp4tool/internal/divide/divide.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/cmd/mp4tool/internal/divide/divide.go b/cmd/mp4tool/internal/divide/divide.go
index 0996c8e..0e29e8f 100644
--- a/cmd/mp4tool/internal/divide/divide.go
+++ b/cmd/mp4tool/internal/divide/divide.go
@@ -1,6 +1,7 @@
 package divide
 
 import (
+	"bufio"
 	"fmt"
 	"io"
 	"math"
@@ -371,11 +372,12 @@ func divide(inputFilePath, outputDir string) error {
 }
 
 func outputMasterPlaylist(filePath string, trackTypeMap map[trackType]*track) error {
-	file, err := os.Create(filePath)
+	f, err := os.Create(filePath)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer f.Close()
+	file := bufio.NewWriter(f) // reports a failed write when it is flushed
 
 	var adir string
 	var vdir string
@@ -411,15 +413,16 @@ func outputMasterPlaylist(filePath string, trackTypeMap map[trackType]*track) er
 		file.WriteString("\n")
 		file.WriteString(vdir + "/" + playlistFileName + "\n")
 	}
-	return nil
+	return file.Flush()
 }
 
 func outputMediaPlaylist(filePath string, segments []segment) error {
-	file, err := os.Create(filePath)
+	f, err := os.Create(filePath)
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer f.Close()
+	file := bufio.NewWriter(f) // reports a failed write when it is flushed
 
 	var maxDur float64
 	for i := range segments {
@@ -444,5 +447,5 @@ func outputMediaPlaylist(filePath string, segments []segment) error {
 		}
 	}
 	file.WriteString("#EXT-X-ENDLIST\n")
-	return nil
+	return file.Flush()
 }
-- 
2.43.0


From 296e2f79d618b5e5d92424c022f99a62fb82885b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:12 +0000
Subject: [PATCH 41/44] fix: list lengths of 2^61 and above are not taken
 modulo 2^61

---
 marshaller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshaller.go b/marshaller.go
index f5c6627..35385e9 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -467,7 +467,7 @@ func (u *unmarshaller) unmarshalSlice(v reflect.Value, fi *fieldInstance) error
 	}
 
 	if (u.base+u.rbits)%8 == 0 && elemType == reflect.TypeOf(byte(0)) && fi.size == 8 {
-		totalSize := length * uint64(fi.size) / 8
+		totalSize := length // a byte each
 
 		if !readerHasSize(u.reader, totalSize) {
 			return fmt.Errorf("not enough bits")
-- 
2.43.0


From d1e384d6bab02841cbb19229625516271fda5e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:03 +0000
Subject: [PATCH 42/44] fix: a NAL unit of no bytes is not taken for an IDR
 slice by the byte behind it

---
 probe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/probe.go b/probe.go
index f1e11f3..87359c9 100644
--- a/probe.go
+++ b/probe.go
@@ -600,7 +600,7 @@ func FindIDRFrames(r io.ReadSeeker, trackInfo *TrackInfo) ([]int, error) {
 				}
 				nalHeader := data[lengthSize]
 				nalType := nalHeader & 0x1f
-				if nalType == 5 {
+				if nalType == 5 && length != 0 {
 					idxs = append(idxs, si)
 					break
 				}
-- 
2.43.0


From 7e8524397e760c49327d02a98b7441d4befc6e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:32 +0000
Subject: [PATCH 43/44] fix: variable-length numbers that overflow their fields
 are errors

---
 marshaller.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/marshaller.go b/marshaller.go
index 35385e9..089bb35 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -549,6 +549,9 @@ func (u *unmarshaller) unmarshalUint(v reflect.Value, fi *fieldInstance) error {
 		if err != nil {
 			return err
 		}
+		if v.OverflowUint(val) {
+			return fmt.Errorf("varint overflows its field: fieldName=\"%s\"", fi.name)
+		}
 		v.SetUint(val)
 		return nil
 	}
@@ -684,6 +687,9 @@ func (u *unmarshaller) readUvarint() (uint64, error) {
 		}
 		u.rbits += 8
 
+		if val>>57 != 0 {
+			return 0, errors.New("varint does not fit in 64 bits")
+		}
 		val = (val << 7) + uint64(octet[0]&0x7f)
 
 		if octet[0]&0x80 == 0 {
-- 
2.43.0


From e876c152a28b74e6ff94b539e556b8c7124dc43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:59 +0000
Subject: [PATCH 44/44] fix: refuse to write a structure that does not fill its
 declared size

The reader rejects such a structure (invalid alignment); the writer wrote it, and everything behind it out of place.
---
 marshaller.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/marshaller.go b/marshaller.go
index 089bb35..eff978b 100644
--- a/marshaller.go
+++ b/marshaller.go
@@ -73,7 +73,7 @@ func (m *marshaller) marshal(v reflect.Value, fi *fieldInstance) error {
 	case reflect.Ptr:
 		return m.marshalPtr(v, fi)
 	case reflect.Struct:
-		return m.marshalStruct(v, fi.children)
+		return m.marshalStructInternal(v, fi)
 	case reflect.Array:
 		return m.marshalArray(v, fi)
 	case reflect.Slice:
@@ -98,6 +98,17 @@ func (m *marshaller) marshalPtr(v reflect.Value, fi *fieldInstance) error {
 	return m.marshal(v.Elem(), fi)
 }
 
+func (m *marshaller) marshalStructInternal(v reflect.Value, fi *fieldInstance) error {
+	start := m.wbits
+	if err := m.marshalStruct(v, fi.children); err != nil {
+		return err
+	}
+	if fi.size != 0 && fi.size%8 == 0 && m.wbits-start != uint64(fi.size) {
+		return fmt.Errorf("structure does not fill its size: name=%s, size=%d, bits=%d", fi.name, fi.size, m.wbits-start)
+	}
+	return nil
+}
+
 func (m *marshaller) marshalStruct(v reflect.Value, fs []*field) error {
 	for _, f := range fs {
 		fi := resolveFieldInstance(f, m.src, v, m.ctx)
-- 
2.43.0

