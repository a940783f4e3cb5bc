From f75bbdedaddb95db48d2696e6a94504a6225715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 01/44] fix: ReadBits lost high bits of reads spanning 5 bytes
 and panicked on zero-bit reads of an empty buffer

---
 net/h264/bits.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/net/h264/bits.go b/net/h264/bits.go
index 85581b4..649c3b4 100644
--- a/net/h264/bits.go
+++ b/net/h264/bits.go
@@ -33,16 +33,20 @@ func (r *BitReader) ReadBits(n uint) (val uint32, err error) {
 	if n > 32 || n > r.Available() {
 		return 0, io.ErrUnexpectedEOF
 	}
-	val = uint32(r.buffer[r.byten])
+	if n == 0 {
+		return 0, nil
+	}
+	// Requested bits may span 5 bytes, hence the wide accumulator.
+	acc := uint64(r.buffer[r.byten])
 	bits := 8 - r.bitn
 	for n > bits {
 		// No check here as we already know there is enough data from AvailableBits().
 		r.byten++
-		val = (val << 8) | uint32(r.buffer[r.byten])
+		acc = (acc << 8) | uint64(r.buffer[r.byten])
 		bits += 8
 	}
 	// Align and nask out most significant bits that are not requested.
-	val = (val >> (bits - n)) & ((1 << n) - 1)
+	val = uint32(acc>>(bits-n)) & ((1 << n) - 1)
 	r.bitn = 8 - (bits - n)
 	return
 }
-- 
2.43.0


From 3886d4f08027b59f8341cc54f7e4c6b6bbfbd224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 02/44] fix: exponential golomb codes with more than 31 leading
 zeroes wrapped around instead of failing

---
 net/h264/bits.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/net/h264/bits.go b/net/h264/bits.go
index 649c3b4..dd5e7e6 100644
--- a/net/h264/bits.go
+++ b/net/h264/bits.go
@@ -7,6 +7,7 @@ import (
 
 var (
 	errMissingTrailingBits = errors.New("RBSP is missing trailing stop and align bits")
+	errInvalidGolomb       = errors.New("Exponential golomb code does not fit 32 bits")
 )
 
 // BitReader implements bit stream reading for H.264 network layer processing.
@@ -81,6 +82,9 @@ func (r *BitReader) ReadUnsignedGolomb() (val uint32, err error) {
 		}
 		zeroes++
 	}
+	if zeroes > 31 {
+		return 0, errInvalidGolomb
+	}
 	// Last read bit was 1.  Read (zeroes) more.
 	val, err = r.ReadBits(zeroes)
 	if err != nil {
@@ -156,6 +160,9 @@ func (r *BitReader) SkipGolomb() (err error) {
 		}
 		zeroes++
 	}
+	if zeroes > 31 {
+		return errInvalidGolomb
+	}
 	// Last read bit was 1.  Read (zeroes) more.
 	return r.SkipBits(zeroes)
 }
-- 
2.43.0


From bdb56c7d69266d53b8a92ec940e54b363b07ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 03/44] fix: RBSPToEncapsulated panicked on payloads ending in
 two zeroes and left emulated start codes in long runs of zeroes

---
 net/h264/annexb.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/net/h264/annexb.go b/net/h264/annexb.go
index 565f566..9dc34d1 100644
--- a/net/h264/annexb.go
+++ b/net/h264/annexb.go
@@ -58,10 +58,11 @@ func RBSPToEncapsulated(buf []byte) []byte {
 	size := len(buf)
 	ebsp := make([]byte, 0, size*2)
 	for off := 0; off < size; {
-		if size-off >= 2 && buf[off] == 0 && buf[off+1] == 0 && buf[off+2] <= 3 {
+		if size-off >= 2 && buf[off] == 0 && buf[off+1] == 0 && (size-off == 2 || buf[off+2] <= 3) {
 			// Add emulation prevention bytes.
 			ebsp = append(ebsp, zero, zero, epb)
 			off += 2
+			continue
 		}
 		ebsp = append(ebsp, buf[off])
 		off++
-- 
2.43.0


From be8b11e44330a6cc383035c744c90664729ed434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:35 +0000
Subject: [PATCH 04/44] fix: SplitAnnexB missed start codes at the end, kept
 zero padding as data and returned empty units

---
 net/h264/annexb.go | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/net/h264/annexb.go b/net/h264/annexb.go
index 9dc34d1..6d10cf7 100644
--- a/net/h264/annexb.go
+++ b/net/h264/annexb.go
@@ -8,18 +8,19 @@ func SplitAnnexB(buf []byte) [][]byte {
 	units := [][]byte{}
 	end := len(buf) - shortStartCodeLen
 	prev := 0
-	for off := 0; off < end; {
+	for off := 0; off <= end; {
 		if buf[off+2] > 1 {
 			// Speed up traversal in search for start codes
 			off += 3
 		} else if buf[off+2] == 1 && buf[off+1] == 0 && buf[off] == 0 {
+			// Zeroes ahead of the start code do not belong to the unit.
+			stop := off
+			for stop > prev && buf[stop-1] == 0 {
+				stop--
+			}
 			// Do not insert 0-length slices.
-			if off > 0 && buf[off-1] == 0 {
-				if off > prev+1 {
-					units = append(units, EBSPToRaw(buf[prev:off-1]))
-				}
-			} else if off > prev {
-				units = append(units, EBSPToRaw(buf[prev:off]))
+			if stop > prev {
+				units = append(units, EBSPToRaw(buf[prev:stop]))
 			}
 			off += 3
 			prev = off
@@ -27,7 +28,9 @@ func SplitAnnexB(buf []byte) [][]byte {
 			off++
 		}
 	}
-	units = append(units, EBSPToRaw(buf[prev:]))
+	if prev < len(buf) {
+		units = append(units, EBSPToRaw(buf[prev:]))
+	}
 	return units
 }
 
-- 
2.43.0


From 1fba9aad80c6ee971758cc37a973c7f1bd45a651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 05/44] fix: aggregation unit sizes near 65535 wrapped around
 and empty aggregation units panicked

---
 net/h264/packet.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 8b96cb4..1c9a1a6 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -166,7 +166,10 @@ func (s *NALSink) parseSTAP(typ byte, buf []byte, ts uint32) error {
 		if len(buf) < 2 {
 			return nil // Nothing more to process
 		}
-		size := be.Uint16(buf)
+		size := int(be.Uint16(buf))
+		if size == 0 {
+			return errInvalidPayloadHeader
+		}
 		if len(buf) < int(size+2) {
 			return errPacketTooShort
 		}
@@ -182,7 +185,7 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 	}
 	s.Don = be.Uint16(buf)
 	buf = buf[2:]
-	off := uint16(2 + 1 + 2) // size, donb, 16-bit ts offset
+	off := 2 + 1 + 2 // size, donb, 16-bit ts offset
 	if typ == typeMtap24 {
 		off++ // 24-bit ts offset instead of 16-bit
 	}
@@ -190,7 +193,10 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 		if len(buf) < int(off) {
 			return nil // Nothing more to process
 		}
-		size := be.Uint16(buf)
+		size := int(be.Uint16(buf))
+		if size == 0 {
+			return errInvalidPayloadHeader
+		}
 		dond := uint16(buf[2])
 		// Read and handle 16-bit or 24-bit timestamp offset.
 		tsoff := uint32(buf[3])<<8 + uint32(buf[4])
-- 
2.43.0


From 88dfa01c41ea1d1e9aaa90565456d58a3bbf812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 06/44] fix: MTAP units got wrong 24-bit timestamp offsets and
 decoding order numbers

---
 net/h264/packet.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 1c9a1a6..efbed7f 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -201,13 +201,12 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 		// Read and handle 16-bit or 24-bit timestamp offset.
 		tsoff := uint32(buf[3])<<8 + uint32(buf[4])
 		if typ == typeMtap24 {
-			tsoff = ts<<8 + uint32(buf[5])
+			tsoff = tsoff<<8 + uint32(buf[5])
 		}
 		if len(buf) < int(size+off) {
 			return errPacketTooShort
 		}
 		s.Units = append(s.Units, NALUnit{Header: buf[off], Don: s.Don + dond, TS: ts + tsoff, Data: buf[off+1 : size+off]})
-		s.Don++
 		buf = buf[size+off:]
 	}
 }
-- 
2.43.0


From 35a667e6efb8511db3731f40989463104b353cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 07/44] fix: NALSink removed emulation prevention and split on
 start codes inside RTP payloads, corrupting aggregates and fragments

---
 net/h264/packet.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index efbed7f..63a660c 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -213,17 +213,35 @@ func (s *NALSink) parseMTAP(typ byte, buf []byte, ts uint32) error {
 
 // Push RTP payload parsing NAL units and handling aggregation and fragmenting.
 func (s *NALSink) Push(buf []byte, ts uint32) error {
-	// TODO: Detect Annex B vs AVC payloads.  If starts with Annex B start code then split on start code.
-	for _, nal := range SplitAnnexB(buf) {
-		if err := s.parseNAL(nal, ts); err != nil {
-			return err
+	s.Units = s.Units[:0]
+	// Payload of an RTP packet never starts with zero bytes, an Annex B stream does.
+	if hasStartCode(buf) {
+		for _, nal := range SplitAnnexB(buf) {
+			if err := s.parseNAL(nal, ts); err != nil {
+				return err
+			}
 		}
+		return nil
 	}
-	return nil
+	// Fragments outlive the call while the buffer belongs to the caller.
+	err := s.parseNAL(append([]byte{}, buf...), ts)
+	// Emulation prevention applies to complete units, not to aggregates and fragments.
+	for i := range s.Units {
+		s.Units[i].Data = EBSPToRaw(s.Units[i].Data)
+	}
+	return err
+}
+
+// hasStartCode reports whether the buffer begins with Annex B start code.
+func hasStartCode(buf []byte) bool {
+	if len(buf) > 0 && buf[0] == 0 {
+		buf = buf[1:]
+		return len(buf) >= 2 && buf[0] == 0 && (buf[1] == 1 || len(buf) >= 3 && buf[1] == 0 && buf[2] == 1)
+	}
+	return false
 }
 
 func (s *NALSink) parseNAL(buf []byte, ts uint32) error {
-	s.Units = s.Units[:0]
 	if len(buf) < 1 {
 		return errPacketTooShort
 	}
-- 
2.43.0


From 62e75d9acc3fa5a5c0f3683efe795949b11f8080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 08/44] fix: fragments without their first fragment were glued
 to earlier ones and the number of an FU-B unit was lost

---
 net/h264/packet.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 63a660c..4f3c197 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -133,6 +133,10 @@ func NewNALSink() *NALSink {
 func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32, data []byte) {
 	if (header & 0x80) != 0 {
 		s.Fragments = s.Fragments[:0]
+	} else if len(s.Fragments) == 0 || s.Fragments[0].TS != ts {
+		// First fragment in the series is missing.
+		s.Fragments = s.Fragments[:0]
+		return
 	}
 	s.Fragments = append(s.Fragments, NALFragment{
 		NALUnit: NALUnit{
@@ -150,7 +154,8 @@ func (s *NALSink) AddFragment(indicator byte, header byte, don uint16, ts uint32
 		for _, frag := range s.Fragments {
 			data = append(data, frag.Data...)
 		}
-		s.Units = append(s.Units, NALUnit{Header: indicator, Don: don, TS: ts, Data: data})
+		s.Units = append(s.Units, NALUnit{Header: indicator, Don: s.Fragments[0].Don, TS: ts, Data: data})
+		s.Fragments = s.Fragments[:0]
 	}
 }
 
-- 
2.43.0


From ce4a33a8ce9d695f959744771dfc881760bd7cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 09/44] fix: decoding order number did not advance past a
 fragmented unit

---
 net/h264/packet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 4f3c197..030bbbd 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -267,6 +267,9 @@ func (s *NALSink) parseNAL(buf []byte, ts uint32) error {
 			return errPacketTooShort
 		}
 		s.AddFragment(nri+(buf[1]&0x1F), buf[1], s.Don, ts, buf[2:])
+		if len(s.Units) > 0 {
+			s.Don++
+		}
 	case typeFuB:
 		nri := buf[0] & 0x60
 		if len(buf) < 4 {
-- 
2.43.0


From 3da5ff2d6505afec298584534e6a1a4900f9e5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 10/44] fix: forbidden zero bit of fragmented units was dropped

---
 net/h264/packet.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/h264/packet.go b/net/h264/packet.go
index 030bbbd..f619f1b 100644
--- a/net/h264/packet.go
+++ b/net/h264/packet.go
@@ -262,7 +262,7 @@ func (s *NALSink) parseNAL(buf []byte, ts uint32) error {
 	case typeMtap24:
 		return s.parseMTAP(typ, buf[1:], ts)
 	case typeFuA:
-		nri := buf[0] & 0x60
+		nri := buf[0] & 0xE0
 		if len(buf) < 2 {
 			return errPacketTooShort
 		}
@@ -271,7 +271,7 @@ func (s *NALSink) parseNAL(buf []byte, ts uint32) error {
 			s.Don++
 		}
 	case typeFuB:
-		nri := buf[0] & 0x60
+		nri := buf[0] & 0xE0
 		if len(buf) < 4 {
 			return errPacketTooShort
 		}
-- 
2.43.0


From 2d1779c6787ad4c072f4b826b0f7b6ebfca4a5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 11/44] fix: SPS frame_mbs_only_flag was read as a golomb code,
 mb_adaptive_frame_field_flag in the wrong case, and height derived from
 chroma subsampling

---
 net/h264/spspps.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 5ac7854..4c7cf27 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -205,13 +205,13 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 	if sps.PicHeightInMapUnitsMinus1, err = br.ReadUnsignedGolomb(); err != nil {
 		return
 	}
-	if sps.FrameMbsOnly, err = br.ReadUnsignedGolomb(); err != nil {
+	if sps.FrameMbsOnly, err = br.ReadBits(1); err != nil {
 		return
 	}
 	if (sps.ConstraintSet&0x2) != 0 && (sps.ProfileIdc == 77 || sps.ProfileIdc == 88 || sps.ProfileIdc == 100) {
 		sps.FrameMbsOnly = 1
 	}
-	if sps.FrameMbsOnly != 0 {
+	if sps.FrameMbsOnly == 0 {
 		if sps.MbAdaptiveFrameField, err = br.ReadFlag(); err != nil {
 			return
 		}
@@ -255,7 +255,7 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 	// Macroblock width is 16 for luma.
 	sps.Width = (sps.PicWidthInMbsMinus1 + 1) * 16 // / subWidthC
 	// FrameMbsOnly designates either full frame or field (half frame).  Hence multiplier.
-	sps.Height = (2 - sps.FrameMbsOnly) * (sps.PicHeightInMapUnitsMinus1 + 1) * 16 / subHeightC
+	sps.Height = (2 - sps.FrameMbsOnly) * (sps.PicHeightInMapUnitsMinus1 + 1) * 16 // / subHeightC
 	// Adjust for crop if present.  This accounts for monochrome vs. various color chroma formats.
 	cropUnitX := subWidthC
 	cropUnitY := (2 - sps.FrameMbsOnly) * subHeightC
-- 
2.43.0


From e419973fb4520e8fc391756cc66aaceea442d4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 12/44] fix: SPS with picture order count type 2 was parsed as
 type 1

---
 net/h264/spspps.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 4c7cf27..4272c03 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -174,7 +174,7 @@ func (s *ParameterSets) ParseSPS(buf []byte) (err error) {
 		if sps.Log2MaxPicOrderCnt, err = br.ReadUnsignedGolomb(); err != nil {
 			return
 		}
-	} else {
+	} else if sps.PicOrderCntType == 1 {
 		if sps.DeltaPicOrderAlways0, err = br.ReadFlag(); err != nil {
 			return
 		}
-- 
2.43.0


From 870d310fad40daf1641acdab93c05aae41841e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 13/44] fix: parameter sets from SDP were parsed without
 removing emulation prevention

---
 net/h264/spspps.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 4272c03..80ceac7 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -415,9 +415,9 @@ func (s *ParameterSets) ParseSprop(buf []byte) (err error) {
 	}
 	typ := buf[0] & 0x1F
 	if typ == typeSPS {
-		return s.ParseSPS(buf[1:])
+		return s.ParseSPS(EBSPToRaw(buf[1:]))
 	} else if typ == typePPS {
-		return s.ParsePPS(buf[1:])
+		return s.ParsePPS(EBSPToRaw(buf[1:]))
 	}
 	return
 }
-- 
2.43.0


From a7b43409c0ceb093f6efaeea3d2314e07b859abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 14/44] fix: PPS slice group map types 3 and 4 skipped their
 parameters

---
 net/h264/spspps.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 80ceac7..439fd3b 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -313,9 +313,7 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 				}
 			}
 			break
-		case 3:
-		case 4:
-		case 5:
+		case 3, 4, 5:
 			if pps.SliceGroupChangeDirection, err = br.ReadFlag(); err != nil {
 				return
 			}
-- 
2.43.0


From 345583a660737816a1bdad01de7625dd41724401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 15/44] fix: PPS with invalid slice group count panicked and
 slice group map size was not bounded by data

---
 net/h264/spspps.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index 439fd3b..d9dc0e3 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -1,6 +1,8 @@
 package h264
 
 import (
+	"errors"
+	"io"
 	"math"
 )
 
@@ -85,6 +87,8 @@ type (
 	}
 )
 
+var errInvalidSliceGroups = errors.New("Invalid number of slice groups")
+
 // NewParameterSets create an representation of indexed storage for sequence
 // and picture parameter sets.
 func NewParameterSets() *ParameterSets {
@@ -291,6 +295,9 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 	if pps.NumSliceGroupsMinus1, err = br.ReadUnsignedGolomb(); err != nil {
 		return
 	}
+	if pps.NumSliceGroupsMinus1 > 7 {
+		return errInvalidSliceGroups
+	}
 	if pps.NumSliceGroupsMinus1 > 0 {
 		if pps.SliceGroupMapType, err = br.ReadUnsignedGolomb(); err != nil {
 			return
@@ -325,6 +332,9 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 			if pps.PicSizeInMapUnitsMinus1, err = br.ReadUnsignedGolomb(); err != nil {
 				return
 			}
+			if uint(pps.PicSizeInMapUnitsMinus1) >= br.Available() {
+				return io.ErrUnexpectedEOF
+			}
 			pps.SliceGroupID = make([]byte, pps.PicSizeInMapUnitsMinus1+1)
 			bits := uint(math.Ceil(math.Log2(float64(pps.NumSliceGroupsMinus1 + 1))))
 			for i := uint32(0); i <= pps.PicSizeInMapUnitsMinus1; i++ {
-- 
2.43.0


From d33bb2b40e3939b6117ceabe6e97cfa0138ebeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:13 +0000
Subject: [PATCH 16/44] fix: PPS trailing bits were taken for transform and
 scaling parameters

---
 net/h264/bits.go   | 14 ++++++++++++++
 net/h264/spspps.go |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/net/h264/bits.go b/net/h264/bits.go
index dd5e7e6..48f7e81 100644
--- a/net/h264/bits.go
+++ b/net/h264/bits.go
@@ -28,6 +28,20 @@ func (r *BitReader) Available() uint {
 	return (r.count-r.byten)*8 - r.bitn
 }
 
+// MoreData checks whether there is more data in the buffer before RBSP trailing bits.
+func (r *BitReader) MoreData() bool {
+	for last := r.count; last > 0; last-- {
+		if b := r.buffer[last-1]; b != 0 {
+			stop := last*8 - 1
+			for ; b&1 == 0; b >>= 1 {
+				stop--
+			}
+			return r.byten*8+r.bitn < stop
+		}
+	}
+	return false
+}
+
 // ReadBits attempts to read requested number of bits from the bit stream.
 // Returns an error if running into end of stream prematurely.
 func (r *BitReader) ReadBits(n uint) (val uint32, err error) {
diff --git a/net/h264/spspps.go b/net/h264/spspps.go
index d9dc0e3..e8b9713 100644
--- a/net/h264/spspps.go
+++ b/net/h264/spspps.go
@@ -374,7 +374,7 @@ func (s *ParameterSets) ParsePPS(buf []byte) (err error) {
 	if pps.RedundantPicCntPresent, err = br.ReadFlag(); err != nil {
 		return
 	}
-	if br.Available() > 0 {
+	if br.MoreData() {
 		if pps.Transform8x8Mode, err = br.ReadFlag(); err != nil {
 			return
 		}
-- 
2.43.0


From d5a6d272db10db5d54c54b1978af096d01dcda8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 17/44] fix: truncated RTP packets panicked in Unpack

---
 net/rtp/packet.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/net/rtp/packet.go b/net/rtp/packet.go
index 77c6af5..226b499 100644
--- a/net/rtp/packet.go
+++ b/net/rtp/packet.go
@@ -14,6 +14,7 @@ const (
 
 var (
 	errInvalidVersion = errors.New("Invalid version of RTP packet")
+	errPacketTooShort = errors.New("RTP packet is too short")
 )
 
 var be = binary.BigEndian
@@ -48,6 +49,9 @@ type (
 
 // Unpack validates a packed RTP packet and converts it into a sparse structure.
 func Unpack(buf []byte) (*Packet, error) {
+	if len(buf) < HeaderSize {
+		return nil, errPacketTooShort
+	}
 	if (buf[0] & 0xC0) != RtpVersion {
 		return nil, errInvalidVersion
 	}
@@ -60,6 +64,9 @@ func Unpack(buf []byte) (*Packet, error) {
 	}
 
 	off := HeaderSize
+	if len(buf) < off+int(packet.CC())*4 {
+		return nil, errPacketTooShort
+	}
 	packet.CSRC = make([]uint32, packet.CC())
 	for i := range packet.CSRC {
 		packet.CSRC[i] = be.Uint32(buf[off:])
@@ -67,9 +74,15 @@ func Unpack(buf []byte) (*Packet, error) {
 	}
 
 	if packet.X() {
+		if len(buf) < off+4 {
+			return nil, errPacketTooShort
+		}
 		packet.XH = be.Uint16(buf[off:])
 		packet.XL = be.Uint16(buf[off+2:])
 		off += 4
+		if len(buf) < off+int(packet.XL)*4 {
+			return nil, errPacketTooShort
+		}
 		if packet.XL > 0 {
 			packet.XD = buf[off : off+int(packet.XL)*4]
 			off += int(packet.XL) * 4
-- 
2.43.0


From 2ab476de57fe2d4891bc2436b87abe1dd5cc9c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 18/44] fix: RTP padding was delivered as a part of the payload

---
 net/rtp/packet.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/net/rtp/packet.go b/net/rtp/packet.go
index 226b499..7e6220e 100644
--- a/net/rtp/packet.go
+++ b/net/rtp/packet.go
@@ -15,6 +15,7 @@ const (
 var (
 	errInvalidVersion = errors.New("Invalid version of RTP packet")
 	errPacketTooShort = errors.New("RTP packet is too short")
+	errInvalidPadding = errors.New("Invalid padding of RTP packet")
 )
 
 var be = binary.BigEndian
@@ -89,7 +90,16 @@ func Unpack(buf []byte) (*Packet, error) {
 		}
 	}
 
-	packet.PL = buf[off:]
+	end := len(buf)
+	if packet.P() {
+		// The last byte counts padding bytes, including itself.
+		pad := int(buf[end-1])
+		if pad == 0 || pad > end-off {
+			return nil, errInvalidPadding
+		}
+		end -= pad
+	}
+	packet.PL = buf[off:end]
 
 	//s.rtpChan <- packet
 	return packet, nil
-- 
2.43.0


From b101aaf73317bde3d3557eabccdeb08ba15f2e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 19/44] fix: RTP packets were packed without SSRC, CSRC,
 extension and payload

---
 net/rtp/packet.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/net/rtp/packet.go b/net/rtp/packet.go
index 7e6220e..9e6c9a4 100644
--- a/net/rtp/packet.go
+++ b/net/rtp/packet.go
@@ -135,15 +135,39 @@ func (p *Packet) Pack() []byte {
 	if p == nil {
 		return nil
 	}
-	sz := uint16(HeaderSize + p.CC()*4)
+	sz := HeaderSize + int(p.CC())*4
 	if p.X() {
-		sz = sz + 4*(1+p.XL)
+		sz += 4 * (1 + int(p.XL))
 	}
-	b := make([]byte, sz)
+	sz += len(p.PL)
+	pad := 0
+	if p.P() {
+		// Pad to 32-bit boundary.  There has to be at least one byte to hold the count.
+		pad = 4 - sz%4
+	}
+	b := make([]byte, sz+pad)
 	b[0] = p.VPXCC
 	b[1] = p.MPT
 	be.PutUint16(b[2:], p.SN)
 	be.PutUint32(b[4:], p.TS)
-	// TODO: Finish this
+	be.PutUint32(b[8:], p.SSRC)
+	off := HeaderSize
+	for i := 0; i < int(p.CC()); i++ {
+		if i < len(p.CSRC) {
+			be.PutUint32(b[off:], p.CSRC[i])
+		}
+		off += 4
+	}
+	if p.X() {
+		be.PutUint16(b[off:], p.XH)
+		be.PutUint16(b[off+2:], p.XL)
+		off += 4
+		copy(b[off:off+int(p.XL)*4], p.XD)
+		off += int(p.XL) * 4
+	}
+	copy(b[off:], p.PL)
+	if pad > 0 {
+		b[len(b)-1] = byte(pad)
+	}
 	return b
 }
-- 
2.43.0


From d11ac76e3dd815a5159d10ff3c649ebafca2898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 20/44] fix: truncated RTCP packets panicked in Unpack

---
 net/rtcp/packet.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/rtcp/packet.go b/net/rtcp/packet.go
index e61e349..a9451c6 100644
--- a/net/rtcp/packet.go
+++ b/net/rtcp/packet.go
@@ -187,6 +187,9 @@ type DataBYE struct {
 
 // Unpack validates a packed RTCP packet and converts it into a sparse structure.
 func Unpack(buf []byte) (*Packet, error) {
+	if len(buf) < HeaderSize {
+		return nil, errPacketTooShort
+	}
 	packet := &Packet{
 		VPC: buf[0],
 		PT:  buf[1],
-- 
2.43.0


From cc13ec99d21d3e03250c8b0dc4e7f16cf3f59c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:25 +0000
Subject: [PATCH 21/44] fix: RTCP sender report blocks were not read

---
 net/rtcp/packet.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/net/rtcp/packet.go b/net/rtcp/packet.go
index a9451c6..5d652a9 100644
--- a/net/rtcp/packet.go
+++ b/net/rtcp/packet.go
@@ -201,7 +201,9 @@ func Unpack(buf []byte) (*Packet, error) {
 
 	off := HeaderSize
 	if packet.PT == 200 {
-		if len(buf) < (28 + int(packet.C())*24) {
+		// Report blocks have to be within this packet and not in the following ones of the compound.
+		size := HeaderSize + int(packet.LN)*4
+		if size > len(buf) || size < (28+int(packet.C())*24) {
 			return nil, errPacketTooShort
 		}
 
@@ -211,8 +213,19 @@ func Unpack(buf []byte) (*Packet, error) {
 		data.RTPTS = be.Uint32(buf[off+12:])
 		data.PC = be.Uint32(buf[off+16:])
 		data.OC = be.Uint32(buf[off+20:])
-		off += 28
-		// TODO: Read report blocks
+		off += 24
+		for i := 0; i < int(packet.C()); i++ {
+			data.Reports = append(data.Reports, SynSource{
+				SSRC: be.Uint32(buf[off:]),
+				FL:   buf[off+4],
+				PL:   be.Uint32(buf[off+4:]) & 0xFFFFFF,
+				SN:   be.Uint32(buf[off+8:]),
+				JIT:  be.Uint32(buf[off+12:]),
+				LSR:  be.Uint32(buf[off+16:]),
+				DLSR: be.Uint32(buf[off+20:]),
+			})
+			off += 24
+		}
 		packet.DSR = data
 	}
 
-- 
2.43.0


From 6fd773ff930cb32fda0cd7558ac8cb5e94eba3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 22/44] fix: SDP media line without parameters panicked

---
 net/sdp/packet.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/net/sdp/packet.go b/net/sdp/packet.go
index 79d3df5..1124476 100644
--- a/net/sdp/packet.go
+++ b/net/sdp/packet.go
@@ -49,9 +49,9 @@ func Parse(buf []byte) (feeds []Media) {
 					case "video": // case "audio", "video":
 						feeds = append(feeds, Media{audio: fields[0] == "audio"})
 						m = &feeds[len(feeds)-1]
-						mfields := strings.Split(fields[1], " ")
-						if len(mfields) >= 3 {
-							m.PayloadType, _ = strconv.Atoi(mfields[2])
+						mfields := strings.Split(keyval[1], " ")
+						if len(mfields) >= 4 {
+							m.PayloadType, _ = strconv.Atoi(mfields[3])
 						}
 					default:
 						m = nil
-- 
2.43.0


From ca59053e6855af7c11d018ef07707385d8c4bcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 23/44] fix: time scale and codec parameters were picked from
 unrelated SDP attributes

---
 net/sdp/packet.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/net/sdp/packet.go b/net/sdp/packet.go
index 1124476..b478678 100644
--- a/net/sdp/packet.go
+++ b/net/sdp/packet.go
@@ -59,9 +59,10 @@ func Parse(buf []byte) (feeds []Media) {
 				}
 			case "a":
 				if m != nil {
-					for _, field := range fields {
+					name := strings.SplitN(fields[0], ":", 2)[0]
+					for i, field := range fields {
 						keyval = strings.SplitN(field, ":", 2)
-						if len(keyval) >= 2 {
+						if i == 0 && len(keyval) >= 2 {
 							key := keyval[0]
 							val := keyval[1]
 							switch key {
@@ -72,7 +73,7 @@ func Parse(buf []byte) (feeds []Media) {
 							}
 						}
 						keyval = strings.Split(field, "/")
-						if len(keyval) >= 2 {
+						if i == 1 && name == "rtpmap" && len(keyval) >= 2 {
 							key := keyval[0]
 							switch strings.ToUpper(key) {
 							case "MPEG4-GENERIC":
-- 
2.43.0


From 00a90870155a4c0571998f5f0337d760b59a2b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 24/44] fix: the only parameter of an SDP fmtp attribute was
 ignored

---
 net/sdp/packet.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/sdp/packet.go b/net/sdp/packet.go
index b478678..c1b8cf6 100644
--- a/net/sdp/packet.go
+++ b/net/sdp/packet.go
@@ -86,7 +86,7 @@ func Parse(buf []byte) (feeds []Media) {
 							}
 						}
 						keyval = strings.Split(field, ";")
-						if len(keyval) > 1 {
+						if i == 1 && name == "fmtp" {
 							for _, field := range keyval {
 								keyval := strings.SplitN(field, "=", 2)
 								if len(keyval) == 2 {
-- 
2.43.0


From 3e230680de4dc8bad90d217229f03ffd8ad013a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 25/44] fix: first segment of the playlist ran past the end of
 the ring

---
 net/hls/playlist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/hls/playlist.go b/net/hls/playlist.go
index 3704f21..94e4b6c 100644
--- a/net/hls/playlist.go
+++ b/net/hls/playlist.go
@@ -100,7 +100,7 @@ func (pl *Playlist) AddSegment(duration float64, length int64) {
 	pl.Segments[pl.Last].Position = pos
 	pl.Segments[pl.Last].Length = length
 	if pl.First == pl.Last {
-		pl.First++
+		pl.First = (pl.First + 1) % len(pl.Segments)
 	} else if pl.First < 0 {
 		pl.First = pl.Last
 	}
-- 
2.43.0


From 290d8f54770b0fa2b72fd07f9f03af089b20daaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:52 +0000
Subject: [PATCH 26/44] fix: playlist without room for segments panicked

---
 net/hls/playlist.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/net/hls/playlist.go b/net/hls/playlist.go
index 94e4b6c..2e6f338 100644
--- a/net/hls/playlist.go
+++ b/net/hls/playlist.go
@@ -2,6 +2,7 @@ package hls
 
 import (
 	"bytes"
+	"errors"
 	"net/url"
 	"path"
 	"path/filepath"
@@ -15,6 +16,8 @@ const (
 	SegmentTypeFMP4
 )
 
+var errNoSegments = errors.New("Playlist needs at least one segment")
+
 type (
 	// Segment describes a chunk of streaming media.
 	Segment struct {
@@ -40,6 +43,9 @@ type (
 
 // NewPlaylist verifies that file exists and accessible for reading then instantiates Playlist.
 func NewPlaylist(uri string, name string, nseg int, size float64) (*Playlist, error) {
+	if nseg < 1 {
+		return nil, errNoSegments
+	}
 	base := filepath.Base(name)
 	u, err := url.Parse(uri)
 	if err != nil {
-- 
2.43.0


From 5631bf85a90d8ffbb85acf4d51b18a9e83ca0892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 27/44] fix: interleaved channels were lost when a parsed
 transport was formatted

---
 net/rtsp/transport.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/net/rtsp/transport.go b/net/rtsp/transport.go
index 64a736e..0cb0506 100644
--- a/net/rtsp/transport.go
+++ b/net/rtsp/transport.go
@@ -185,6 +185,7 @@ func (t *Transport) Parse(value string) (err error) {
 		case "interleaved":
 			t.IsMulticast = false
 			if len(keyval) > 1 {
+				t.IsInterleaved = true
 				t.Interleave, err = ParsePair(keyval[1])
 			} else {
 				err = ErrMalformedTransport
-- 
2.43.0


From 5e8312e6294fc8e3056abbab7b6d53a1ee860e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 28/44] fix: second port or channel of a transport was 0 when
 only one was specified

---
 net/rtsp/transport.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/net/rtsp/transport.go b/net/rtsp/transport.go
index 0cb0506..036f50f 100644
--- a/net/rtsp/transport.go
+++ b/net/rtsp/transport.go
@@ -246,6 +246,7 @@ func (t *Transport) Parse(value string) (err error) {
 func ParsePair(val string) (p Pair, err error) {
 	parts := strings.Split(val, "-")
 	p.One, err = strconv.Atoi(parts[0])
+	p.Two = p.One + 1
 	if err == nil && len(parts) > 1 {
 		p.Two, err = strconv.Atoi(parts[1])
 		if err != nil {
-- 
2.43.0


From af64efd9ce52bf4940857e6dfeb99208b3993b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 29/44] fix: lower transport was picked from any transport
 parameter with two slashes

---
 net/rtsp/transport.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/net/rtsp/transport.go b/net/rtsp/transport.go
index 036f50f..d0a84f3 100644
--- a/net/rtsp/transport.go
+++ b/net/rtsp/transport.go
@@ -158,9 +158,10 @@ func (t Transport) String() string {
 // Parse transport header into constituent parts.
 func (t *Transport) Parse(value string) (err error) {
 	fields := strings.Split(value, ";")
-	for _, field := range fields {
+	for i, field := range fields {
+		field = strings.TrimSpace(field)
 		keyval := strings.Split(field, "/")
-		if len(keyval) == 3 {
+		if i == 0 && len(keyval) == 3 {
 			// Third part is lower protocol TCP/UDP
 			t.IsTCP = strings.ToUpper(keyval[2]) == "TCP"
 		}
-- 
2.43.0


From 23da7dd5cf73d0a25c89d38bf4d1a6650e42ef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 30/44] fix: authentication challenge with a comma or an
 escaped quote in a quoted string was misparsed

---
 net/rtsp/digest.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index 619f4bb..a53c980 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -53,7 +53,7 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 	} else {
 		return nil, ErrAuthMalformedChallenge
 	}
-	parts := strings.Split(challenge, ",")
+	parts := splitQuoted(challenge)
 	for i := 0; i < len(parts); i++ {
 		parts[i] = strings.TrimSpace(parts[i])
 		if len(parts[i]) == 0 {
@@ -63,7 +63,7 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 		attr, val := parts[i], ""
 		if j := strings.Index(attr, "="); j > 0 {
 			attr, val = strings.ToLower(attr[:j]), attr[j+1:]
-			val = strings.Trim(val, "\"")
+			val = strings.TrimSuffix(strings.TrimPrefix(val, "\""), "\"")
 			switch attr {
 			case "realm":
 				d.realm = val
@@ -169,6 +169,23 @@ func (d *Digest) response(verb string, body []byte) string {
 	return out.String()
 }
 
+// splitQuoted splits comma-separated list leaving alone commas inside of quoted strings.
+func splitQuoted(list string) (parts []string) {
+	quoted, start := false, 0
+	for i := 0; i < len(list); i++ {
+		switch {
+		case quoted && list[i] == '\\':
+			i++
+		case list[i] == '"':
+			quoted = !quoted
+		case !quoted && list[i] == ',':
+			parts = append(parts, list[start:i])
+			start = i + 1
+		}
+	}
+	return append(parts, list[start:])
+}
+
 func md5hex(data []byte) string {
 	hf := md5.New()
 	hf.Write(data)
-- 
2.43.0


From a6d69075824a2586e078407770aed0e360fce7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 31/44] fix: authentication challenge with an unknown directive
 was rejected instead of ignoring the directive

---
 net/rtsp/digest.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index a53c980..63f7a44 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -82,8 +82,6 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 				if len(vals) > 0 {
 					d.qop = strings.ToLower(vals[0])
 				}
-			default:
-				return nil, ErrAuthMalformedChallenge
 			}
 		}
 	}
-- 
2.43.0


From c7b680b90435a7e585d064ece96e7624a6c359bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 32/44] fix: md5-sess session key was hashed again on every
 request

---
 net/rtsp/digest.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index 63f7a44..1939ccc 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -37,6 +37,7 @@ type Digest struct {
 	ha2       string
 	nc        string
 	count     int
+	keyed     bool
 }
 
 // NewDigest parses challenge and creates a new basic/digest authentication processor.
@@ -151,7 +152,9 @@ func (d *Digest) response(verb string, body []byte) string {
 		out.WriteString(", response=\"")
 		out.WriteString(md5hex(colonnade(d.ha1, d.nonce, d.ha2)))
 	} else {
-		if d.algorithm == "md5-sess" {
+		if d.algorithm == "md5-sess" && !d.keyed {
+			// Session key is calculated once, with client nonce from the first request.
+			d.keyed = true
 			d.ha1 = md5hex(colonnade(d.ha1, d.nonce, d.cnonce))
 		}
 		out.WriteString(", qop=\"")
-- 
2.43.0


From 236c81a8580d6736619661bafc1799e4810e02b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 33/44] fix: all requests carried the same digest nonce count

---
 net/rtsp/digest.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index 1939ccc..7ed7a67 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -125,7 +125,9 @@ func (d *Digest) Authenticate(username, password string) DigestAuth {
 	auth := out.String()
 	d.Next()
 	return func(verb string, body []byte) string {
-		return auth + d.response(verb, body)
+		value := auth + d.response(verb, body)
+		d.Next()
+		return value
 	}
 }
 
-- 
2.43.0


From fa8abdbcf60e926bebcd5ddafe4b2d31001b9d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 34/44] fix: interleaved frames over 2 kB failed and a timeout
 in the middle of a frame lost its start

---
 net/rtsp/connection.go |  5 ++++-
 net/rtsp/session.go    | 18 +++++++-----------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 2b296d7..2928fc1 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -46,6 +46,9 @@ type (
 
 var be = binary.BigEndian
 
+// maxFrame is the size of the largest interleaved frame with its header.
+const maxFrame = 4 + 65535
+
 func isTimeoutOrTemp(err error) bool {
 	if nerr, ok := err.(net.Error); ok {
 		return nerr.Timeout() || nerr.Temporary()
@@ -78,7 +81,7 @@ func Dial(uri string, proto int) (*Conn, error) {
 
 	c := &Conn{
 		conn:      conn,
-		rdr:       bufio.NewReaderSize(conn, 2048),
+		rdr:       bufio.NewReaderSize(conn, maxFrame),
 		connected: false,
 		Data:      make(chan RawPacket, 20),
 		guid:      fmt.Sprintf("%016x", rand.Uint64()),
diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 5384c06..9f59437 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -165,26 +165,22 @@ func (s *Session) KeepAlive() error {
 }
 
 func (s *Session) receive() error {
-	var ch byte
-	var buf []byte
 	b, err := s.Peek(1)
 	if err != nil {
 		return err
 	}
 	if b[0] == '$' {
-		s.Discard(1)
-		// RTSP allows for up to 8 transports so valid ch values are limited.
-		if ch, err = s.ReadByte(); err != nil {
+		// Nothing is consumed until the frame is complete so that after a timeout it is read from its start again.
+		if b, err = s.Peek(4); err != nil {
 			return err
 		}
-		length, err := s.ReadUint16()
-		if err != nil {
-			return err
-		}
-		buf, err = s.ReadBytes(int(length))
+		// RTSP allows for up to 8 transports so valid channel values are limited.
+		ch := b[1]
+		length := be.Uint16(b[2:])
+		buf, err := s.ReadBytes(4 + int(length))
 		if err == nil {
 			select {
-			case s.Data <- RawPacket{Channel: ch, Payload: append([]byte{}, buf...)}:
+			case s.Data <- RawPacket{Channel: ch, Payload: append([]byte{}, buf[4:]...)}:
 			}
 		}
 		return err
-- 
2.43.0


From 17572049bfe8a166d83561a60ac4e553a06e876e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 35/44] fix: a timeout in the middle of a response lost its
 start and body was a view of a reused buffer

---
 net/rtsp/connection.go | 15 +++++++++++++++
 net/rtsp/message.go    | 17 +++++++++++++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index 2928fc1..f960bf8 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -2,6 +2,7 @@ package rtsp
 
 import (
 	"bufio"
+	"bytes"
 	"encoding/base64"
 	"encoding/binary"
 	"fmt"
@@ -146,6 +147,20 @@ func (c *Conn) ReadLine() (string, error) {
 	return c.rdr.ReadString('\n')
 }
 
+// PeekLine returns a line, including newline, that starts at the given offset without advancing the reader.
+func (c *Conn) PeekLine(off int) (string, error) {
+	for n := off + 1; ; {
+		if _, err := c.Peek(n); err != nil {
+			return "", err
+		}
+		b, _ := c.rdr.Peek(c.rdr.Buffered())
+		if i := bytes.IndexByte(b[n-1:], '\n'); i >= 0 {
+			return string(b[off : n+i]), nil
+		}
+		n = len(b) + 1
+	}
+}
+
 // ReadUint16 reads and returns an unsigned 2-byte integer.
 func (c *Conn) ReadUint16() (data uint16, err error) {
 	if c.Timeout > 0 {
diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index 168021b..7c4708a 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -110,10 +110,12 @@ func (r *Request) Pack() []byte {
 
 // Unpack RTSP message into response structure.
 func Unpack(rdr *Conn) (*Response, error) {
-	line, err := rdr.ReadLine()
+	// Nothing is consumed until the message is complete so that after a timeout it is read from its start again.
+	line, err := rdr.PeekLine(0)
 	if err != nil {
 		return nil, err
 	}
+	size := len(line)
 	i := strings.IndexByte(line, ' ')
 	if i == -1 {
 		return nil, errMalformedResponse
@@ -140,10 +142,11 @@ func Unpack(rdr *Conn) (*Response, error) {
 
 	// Parse the response headers.
 	for {
-		line, err = rdr.ReadLine()
+		line, err = rdr.PeekLine(size)
 		if err != nil {
 			return nil, err
 		}
+		size += len(line)
 		if line = strings.TrimSpace(line); line == "" {
 			break
 		}
@@ -163,10 +166,16 @@ func Unpack(rdr *Conn) (*Response, error) {
 	}
 
 	if r.ContentLength > 0 {
-		r.Body, err = rdr.ReadBytes(int(r.ContentLength))
+		b, err := rdr.Peek(size + int(r.ContentLength))
+		if err != nil {
+			return nil, err
+		}
+		r.Body = append([]byte{}, b[size:]...)
+		size += len(r.Body)
 	}
 
-	return r, err
+	rdr.Discard(size)
+	return r, nil
 }
 
 // Pack response into RTSP message.
-- 
2.43.0


From 9549927e53abe2226f6c8febde6641c0690aeaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 36/44] fix: commands shared CSeq with concurrent and
 retransmitted ones

---
 net/rtsp/session.go | 40 +++++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 9f59437..b8fee0e 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -63,6 +63,8 @@ func (s *Session) authorize(challenge string) error {
 	}
 	username := s.URL.User.Username()
 	password, _ := s.URL.User.Password()
+	s.Lock()
+	defer s.Unlock()
 	s.auth = digest.Authenticate(username, password)
 	return nil
 }
@@ -70,8 +72,12 @@ func (s *Session) authorize(challenge string) error {
 func (s *Session) enqueue(req *Request) {
 	s.Lock()
 	defer s.Unlock()
+	s.cseq++
 	req.Cseq = s.cseq
 	req.Session = s.session
+	if s.auth != nil {
+		req.Auth = s.auth(req.Verb, nil)
+	}
 	s.queue[req.Cseq] = req
 }
 
@@ -86,26 +92,27 @@ func (s *Session) dequeue(seq int) (req *Request, ok bool) {
 }
 
 func (s *Session) command(verb, uri string, headers Headers) error {
+	_, err := s.send(verb, uri, headers)
+	return err
+}
+
+// send issues a command and returns its sequence number.
+func (s *Session) send(verb, uri string, headers Headers) (int, error) {
 	if s.Conn == nil {
-		return errNoConnection
+		return 0, errNoConnection
 	}
 	req := &Request{Verb: verb, URI: uri, Header: make(MessageHeader)}
 	for key, value := range headers {
 		req.Header.Set(key, value)
 	}
-	if s.auth != nil {
-		req.Auth = s.auth(req.Verb, nil)
-	}
-	s.cseq++
 	s.enqueue(req)
+	seq := req.Cseq
 	buf := req.Pack()
 
 	log.Println(string(buf))
 
-	if _, err := s.Write(buf); err != nil {
-		return err
-	}
-	return nil
+	_, err := s.Write(buf)
+	return seq, err
 }
 
 // Options handles client OPTIONS request in RTSP.
@@ -126,11 +133,11 @@ func (s *Session) Setup() error {
 		if !strings.HasPrefix(uri, "rtsp://") {
 			uri = s.BaseURI + "/" + uri
 		}
-		err := s.command(VerbSetup, uri, Headers{HeaderTransport: s.feeds[i].TransportHeader()})
+		seq, err := s.send(VerbSetup, uri, Headers{HeaderTransport: s.feeds[i].TransportHeader()})
 		if err != nil {
 			return err
 		}
-		s.feeds[i].cseq = s.cseq
+		s.feeds[i].cseq = seq
 	}
 	return nil
 }
@@ -231,11 +238,14 @@ func (s *Session) handleRtsp() (err error) {
 		if err = s.authorize(rsp.Header.Get(HeaderAuthenticate)); err != nil {
 			return err
 		}
-		req.Auth = s.auth(req.Verb, nil)
-		// Treat this as retransmit of the same message.
-		// If the following line is uncommented, it will break matching responses to transport setup commands based on checking CSeq.
-		// s.cseq++
+		// Treat this as retransmit of the same message but with a CSeq of its own.
 		s.enqueue(req)
+		// Feeds are matched to responses to transport setup commands by CSeq.
+		for _, f := range s.feeds {
+			if f.cseq == rsp.Cseq {
+				f.cseq = req.Cseq
+			}
+		}
 		buf := req.Pack()
 
 		log.Println(string(buf))
-- 
2.43.0


From e224b9ce6e2d7a63ac7c75961c42d7a3a80d6a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 37/44] fix: command with wrong credentials was retransmitted
 endlessly

---
 net/rtsp/definitions.go | 1 +
 net/rtsp/digest.go      | 6 ++++++
 net/rtsp/message.go     | 1 +
 net/rtsp/session.go     | 7 ++++++-
 4 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/net/rtsp/definitions.go b/net/rtsp/definitions.go
index eb5322c..99a065a 100644
--- a/net/rtsp/definitions.go
+++ b/net/rtsp/definitions.go
@@ -131,6 +131,7 @@ var (
 	errNoCredentials     = errors.New("Resource URI has no credentials to perform authorization")
 	errOutOfMemory       = errors.New("Out of memory")
 	errBadResponse       = errors.New("Bad or unexpected response")
+	errUnauthorized      = errors.New("Credentials were not accepted")
 	errNoConnection      = errors.New("Connection to RTSP source is required")
 	errPacketTooShort    = errors.New("Packet is too short")
 	errInvalidParameter  = errors.New("Invalid parameter")
diff --git a/net/rtsp/digest.go b/net/rtsp/digest.go
index 7ed7a67..7d574a4 100644
--- a/net/rtsp/digest.go
+++ b/net/rtsp/digest.go
@@ -94,6 +94,12 @@ func NewDigest(uri, challenge string) (*Digest, error) {
 	return d, nil
 }
 
+// isStale indicates that credentials in the challenged request were right but its nonce has expired.
+func isStale(challenge string) bool {
+	d, err := NewDigest("", challenge)
+	return err == nil && strings.EqualFold(d.stale, "true")
+}
+
 // Authenticate creates value for Authorization header.
 func (d *Digest) Authenticate(username, password string) DigestAuth {
 	out := strings.Builder{}
diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index 7c4708a..de55571 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -22,6 +22,7 @@ type (
 		Auth    string
 		Session string
 		Header  MessageHeader
+		retried bool
 	}
 
 	// Response encapsulates RTSP response.  It is modeled by http.Response but includes only what is needed to handle RTSP.
diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index b8fee0e..e049afd 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -235,7 +235,12 @@ func (s *Session) handleRtsp() (err error) {
 	}
 
 	if rsp.StatusCode == RtspUnauthorized {
-		if err = s.authorize(rsp.Header.Get(HeaderAuthenticate)); err != nil {
+		challenge := rsp.Header.Get(HeaderAuthenticate)
+		if req.retried && !isStale(challenge) {
+			return errUnauthorized
+		}
+		req.retried = true
+		if err = s.authorize(challenge); err != nil {
 			return err
 		}
 		// Treat this as retransmit of the same message but with a CSeq of its own.
-- 
2.43.0


From c7430043c061ca0df2a48dd51f994c9bd2f0865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:06 +0000
Subject: [PATCH 38/44] fix: UDP sinks of unicast feeds listened on ports other
 than announced

---
 net/rtsp/session.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index e049afd..8aeba51 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -301,18 +301,22 @@ func (s *Session) handleRtsp() (err error) {
 
 func (s *Session) handleSetup(rsp *Response) (err error) {
 	if rsp.StatusCode == RtspOK {
-		for _, f := range s.feeds {
+		for i, f := range s.feeds {
 			if f.cseq == rsp.Cseq {
 				s.feedidx++
 				if err = f.TransportSetup(rsp.Header.Get(HeaderTransport)); err != nil {
 					return err
 				}
 				if !f.transp.IsTCP {
-					ch := byte(s.feedidx) * 2
-					if err := s.AddSink(ch, f.transp.Port.One); err != nil {
+					ch := byte(i) * 2
+					port := f.transp.ClientPort
+					if f.transp.IsMulticast {
+						port = f.transp.Port
+					}
+					if err := s.AddSink(ch, port.One); err != nil {
 						return err
 					}
-					if err := s.AddSink(ch+1, f.transp.Port.Two); err != nil {
+					if err := s.AddSink(ch+1, port.Two); err != nil {
 						return err
 					}
 				}
-- 
2.43.0


From 54a483fd6116d30c9b244e5330f3d1b0e5ff0c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 39/44] fix: UDP sinks did not read packets until they were
 stopped and then blocked

---
 net/rtsp/connection.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/net/rtsp/connection.go b/net/rtsp/connection.go
index f960bf8..5cfdaea 100644
--- a/net/rtsp/connection.go
+++ b/net/rtsp/connection.go
@@ -219,22 +219,20 @@ func (c *Conn) Start() {
 	for _, s := range c.sinks {
 		fmt.Printf("Reading from UDP sink %d", s.ch)
 		go func(sink udpsink) {
-			var buf [2048]byte
+			defer sink.Close()
+			var buf [65535]byte
 			for {
-				select {
-				case <-sink.done:
-					break
-				}
 				n, _, err := sink.ReadFromUDP(buf[:])
 				if err == nil {
 					select {
 					case c.Data <- RawPacket{Channel: sink.ch, Payload: append([]byte{}, buf[:n]...)}:
+					case <-sink.done:
+						return
 					}
 				} else if !isTimeoutOrTemp(err) {
-					break
+					return
 				}
 			}
-			sink.Close()
 			// TODO: Notify caller about closed connection.
 		}(s)
 	}
@@ -243,9 +241,8 @@ func (c *Conn) Start() {
 // Stop tells all UDP listeners to suspend processing and close.  The list of listerners is reset.
 func (c *Conn) Stop() {
 	for _, sink := range c.sinks {
-		select {
-		case sink.done <- 1:
-		}
+		close(sink.done)
+		sink.Close()
 	}
 	c.sinks = c.sinks[:0]
 }
-- 
2.43.0


From c1b167b4c00de407fba4613a18f7acecfefe7e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:01 +0000
Subject: [PATCH 40/44] fix: repeated challenge restarted the nonce count

---
 net/rtsp/session.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/net/rtsp/session.go b/net/rtsp/session.go
index 8aeba51..fc0f089 100644
--- a/net/rtsp/session.go
+++ b/net/rtsp/session.go
@@ -24,6 +24,7 @@ type (
 		queue   Queue      // RTSP requests that we are waiting responses for
 		done    chan struct{}
 		session string
+		nonce   string // Nonce that auth uses.
 		feeds   []*Feed
 		feedidx int
 		verbs   map[string]struct{}
@@ -58,6 +59,10 @@ func (s *Session) authorize(challenge string) error {
 	if err != nil {
 		return err
 	}
+	if s.auth != nil && s.nonce == digest.nonce {
+		// The command was issued before the challenge was first answered.
+		return nil
+	}
 	if s.URL.User == nil {
 		return errNoCredentials
 	}
@@ -66,6 +71,7 @@ func (s *Session) authorize(challenge string) error {
 	s.Lock()
 	defer s.Unlock()
 	s.auth = digest.Authenticate(username, password)
+	s.nonce = digest.nonce
 	return nil
 }
 
-- 
2.43.0


From deecfcd8f422d87a344f7d64199acf9b2018d835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 41/44] fix: status of a response could have a sign in place of
 a digit

---
 net/rtsp/http.go    | 4 ++--
 net/rtsp/message.go | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/net/rtsp/http.go b/net/rtsp/http.go
index 3588425..f8b0c7d 100644
--- a/net/rtsp/http.go
+++ b/net/rtsp/http.go
@@ -66,8 +66,8 @@ func ReceiveHTTP(rdr *Conn) error {
 	if len(status) != 3 {
 		return errInvalidStatus
 	}
-	statusCode, err := strconv.Atoi(status)
-	if err != nil || statusCode < 0 {
+	// Sign is not a digit.
+	if _, err := strconv.ParseUint(status, 10, 16); err != nil {
 		return errInvalidStatus
 	}
 	// TODO: Verify expected 200 status.
diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index de55571..2bd729d 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -136,10 +136,12 @@ func Unpack(rdr *Conn) (*Response, error) {
 	if len(statusCode) != 3 {
 		return nil, errInvalidStatus
 	}
-	r.StatusCode, err = strconv.Atoi(statusCode)
-	if err != nil || r.StatusCode < 0 {
+	// Sign is not a digit.
+	code, err := strconv.ParseUint(statusCode, 10, 16)
+	if err != nil {
 		return nil, errInvalidStatus
 	}
+	r.StatusCode = int(code)
 
 	// Parse the response headers.
 	for {
-- 
2.43.0


From d56b462aa6c314de56075571c0579f158265ca05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 42/44] fix: packed response had a line break after its body

---
 net/rtsp/message.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/net/rtsp/message.go b/net/rtsp/message.go
index 2bd729d..f50cd1c 100644
--- a/net/rtsp/message.go
+++ b/net/rtsp/message.go
@@ -197,7 +197,6 @@ func (r Response) Pack() []byte {
 	buf.Write(crnl)
 	if r.ContentLength > 0 {
 		buf.Write(r.Body)
-		buf.Write(crnl)
 	}
 	return buf.Bytes()
 }
-- 
2.43.0


From 332cc1db957202ac0d35db911f2cb1d396721854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:55 +0000
Subject: [PATCH 43/44] fix: assemble the units of each feed separately in the
 client

---
 cmd/ouro/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/ouro/main.go b/cmd/ouro/main.go
index 6f6afa7..f01055d 100644
--- a/cmd/ouro/main.go
+++ b/cmd/ouro/main.go
@@ -15,7 +15,7 @@ import (
 
 func handleStates(s *rtsp.Session) {
 	state := rtsp.StageInit
-	nalsink := h264.NewNALSink()
+	sinks := make(map[byte]*h264.NALSink)
 	tmr := time.NewTimer(time.Minute)
 	tmr.Stop()
 	for {
@@ -66,6 +66,11 @@ func handleStates(s *rtsp.Session) {
 			
 				buf := p.PL
 				if buf != nil {
+					nalsink, ok := sinks[pkt.Channel]
+					if !ok {
+						nalsink = h264.NewNALSink()
+						sinks[pkt.Channel] = nalsink
+					}
 					err := nalsink.Push(buf, p.TS)
 					if err != nil {
 						log.Println(err)
-- 
2.43.0


From 7a15a41461e8a15a5660fc1cdffed0acd3ac2a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:42 +0000
Subject: [PATCH 44/44] fix: zero padding at the end of a byte stream was kept
 as data of the last unit

---
 net/h264/annexb.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/net/h264/annexb.go b/net/h264/annexb.go
index 6d10cf7..f8965e2 100644
--- a/net/h264/annexb.go
+++ b/net/h264/annexb.go
@@ -28,8 +28,13 @@ func SplitAnnexB(buf []byte) [][]byte {
 			off++
 		}
 	}
-	if prev < len(buf) {
-		units = append(units, EBSPToRaw(buf[prev:]))
+	// Zeroes at the end of the stream do not belong to the last unit.
+	stop := len(buf)
+	for stop > prev && buf[stop-1] == 0 {
+		stop--
+	}
+	if stop > prev {
+		units = append(units, EBSPToRaw(buf[prev:stop]))
 	}
 	return units
 }
-- 
2.43.0

