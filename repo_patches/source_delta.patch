From 8bfb36b1a85a8efb5ed4995c31749ed6829253bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:55 +0000
Subject: [PATCH 01/66] fix: encode masks with a custom stride (sub-images)

---
 mask/encoder.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mask/encoder.go b/mask/encoder.go
index 864b62f..af0e338 100644
--- a/mask/encoder.go
+++ b/mask/encoder.go
@@ -119,9 +119,8 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 
 func (self *Encoder) computeMaskFragments(mask *image.Alpha) {
 	maskCopy := image.NewAlpha(mask.Rect)
-	copy(maskCopy.Pix, mask.Pix)
-	if mask.Stride != maskCopy.Stride {
-		panic("mask.Stride != maskCopy.Stride")
+	for y := 0; y < mask.Rect.Dy(); y++ { // row by row: sub-images have a different stride
+		copy(maskCopy.Pix[y*maskCopy.Stride : (y + 1)*maskCopy.Stride], mask.Pix[y*mask.Stride : ])
 	}
 
 	// find isolated pixels and diagonals (only down-left/down-right)
-- 
2.43.0


From 64ad254536429d90579a02c10c2cb47ca96e046b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:55 +0000
Subject: [PATCH 02/66] fix: encode masks farther than 128 pixels from the
 origin or each other

---
 mask/encoder.go | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/mask/encoder.go b/mask/encoder.go
index af0e338..751d6fd 100644
--- a/mask/encoder.go
+++ b/mask/encoder.go
@@ -32,6 +32,19 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 	value := uint8(255) // default palette index value
 	var payload [8]byte
 	for i := 0; i < len(self.fragments); i++ {
+		// approach far targets with additional move operations
+		xDist, yDist := self.fragments[i].GetDistsFrom(x, y)
+		for xDist < -128 || xDist > 128 {
+			step := max(min(xDist, 128), -128)
+			data = append(data, 0b0000_0010, encodeNzint8(step))
+			x, xDist = x + step, xDist - step
+		}
+		for yDist < -128 || yDist > 128 {
+			step := max(min(yDist, 128), -128)
+			data = append(data, 0b0000_0100, encodeNzint8(step))
+			y, yDist = y + step, yDist - step
+		}
+
 		// reset payload control code and payload size
 		var payloadSize int = 1
 		payload[0] = 0
@@ -47,15 +60,9 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 		}
 
 		// encode pre-moves to reach the target
-		xDist, yDist := self.fragments[i].GetDistsFrom(x, y)
 		if xDist != 0 {
-			if xDist < -128 || xDist > 128 { panic("distances > 128 unimplemented") } // not too hard to do
 			payload[0] |= 0b0000_0010
-			if xDist > 0 {
-				payload[payloadSize] = uint8(int8(xDist - 1)) // nzint8 conversion
-			} else {
-				payload[payloadSize] = uint8(int8(xDist))
-			}			
+			payload[payloadSize] = encodeNzint8(xDist)
 			payloadSize += 1
 		}
 		if yDist != 0 {
@@ -63,12 +70,7 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 				payload[0] |= 0b0000_1000
 			} else {
 				payload[0] |= 0b0000_0100
-				if yDist < -128 || yDist > 128 { panic("distances > 128 unimplemented") } // not too hard to do
-				if yDist > 0 {
-					payload[payloadSize] = uint8(int8(yDist - 1)) // nzint8 conversion
-				} else {
-					payload[payloadSize] = uint8(int8(yDist))
-				}
+				payload[payloadSize] = encodeNzint8(yDist)
 				payloadSize += 1
 			}
 		}
@@ -190,3 +192,9 @@ func (self *Encoder) computeMaskFragments(mask *image.Alpha) {
 		y += 1
 	}
 }
+
+// Precondition: value must be in [-128, 128] and can't be zero.
+func encodeNzint8(value int) uint8 {
+	if value > 0 { return uint8(int8(value - 1)) }
+	return uint8(int8(value))
+}
-- 
2.43.0


From 7d1761672493c7124601bdcad83d406e5336a633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:41 +0000
Subject: [PATCH 03/66] fix: CircularBufferU16 wrap position with large
 capacities and after shrinking while empty

---
 internal/circular_buffer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/circular_buffer.go b/internal/circular_buffer.go
index b03fd91..a71a4a9 100644
--- a/internal/circular_buffer.go
+++ b/internal/circular_buffer.go
@@ -121,7 +121,7 @@ func (self *CircularBufferU16[T]) SetCapacity(capacity uint16) bool {
 		if self.numElements > (self.capacity - self.headIndex) {
 			copy(self.buffer[self.headIndex - lenReduction : ], self.buffer[self.headIndex : ])
 			self.headIndex -= lenReduction
-		} else if self.headIndex > capacity - self.numElements {
+		} else if self.headIndex > capacity - self.numElements || self.headIndex == capacity {
 			copy(self.buffer[ : self.numElements], self.buffer[self.headIndex : self.headIndex + self.numElements])
 			self.headIndex = 0
 		}
@@ -148,7 +148,7 @@ func (self *CircularBufferU16[T]) unsafeLastElemIndex() uint16 {
 	index := self.headIndex + self.numElements - 1
 	
 	if index < self.headIndex { // overflow case
-		return self.numElements - (self.capacity - self.headIndex)
+		return self.numElements - 1 - (self.capacity - self.headIndex)
 	} else if index < self.capacity { // simple case
 		return index
 	} else { // wrap case
-- 
2.43.0


From 959742118403dc4cc388f7e7a54fe9f6e87ddc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:21 +0000
Subject: [PATCH 04/66] fix: Date.IsValid panics on dates without a month

---
 date.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.go b/date.go
index 3d631b0..1023b2a 100644
--- a/date.go
+++ b/date.go
@@ -26,7 +26,7 @@ func (self *Date) IsValid() bool {
 	if self.Month == 0 && self.Day != 0 { return false }
 	if self.Year == 0 && (self.Month != 0 || self.Day != 0) { return false }
 	if self.Month > 12 { return false }
-	if self.Day > self.monthDays() { return false }
+	if self.Month != 0 && self.Day > self.monthDays() { return false }
 	return true
 }
 
-- 
2.43.0


From bf5fb4440aecd9cfb977804622f5e6b4cae6cc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:52 +0000
Subject: [PATCH 05/66] fix: ValidateBasicName never rejected consecutive
 hyphens

---
 internal/parsing_buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index 6ef79a5..d2c5a46 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -199,7 +199,7 @@ func ValidateBasicName(name string) error {
 		}
 		if name[i] == '-' {
 			if prevIsHyphen {
-				errors.New("basic name can't contain consecutive hyphens")
+				return errors.New("basic name can't contain consecutive hyphens")
 			}
 			prevIsHyphen = true
 			continue
-- 
2.43.0


From 1c45b01c5dc545b05f4cb2305f4dec344d1d40d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:01 +0000
Subject: [PATCH 06/66] fix: header strings read from wrong positions when
 their lengths add up past 255

---
 font.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/font.go b/font.go
index 75e605f..f5bfa6a 100644
--- a/font.go
+++ b/font.go
@@ -117,20 +117,20 @@ func (self *FontHeader) Name() string {
 	return unsafe.String(&self.Data[29], nameLen)
 }
 func (self *FontHeader) Family() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
+	nameLen   := int(self.Data[28])
+	familyLen := int(self.Data[29 + nameLen])
 	return unsafe.String(&self.Data[30 + nameLen], familyLen)
 }
 func (self *FontHeader) Author() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
-	authorLen := self.Data[30 + nameLen + familyLen]
+	nameLen   := int(self.Data[28])
+	familyLen := int(self.Data[29 + nameLen])
+	authorLen := int(self.Data[30 + nameLen + familyLen])
 	return unsafe.String(&self.Data[31 + nameLen + familyLen], authorLen)
 }
 func (self *FontHeader) About() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
-	authorLen := self.Data[30 + nameLen + familyLen]
+	nameLen   := int(self.Data[28])
+	familyLen := int(self.Data[29 + nameLen])
+	authorLen := int(self.Data[30 + nameLen + familyLen])
 	aboutIndex := 31 + nameLen + familyLen + authorLen
 	aboutLen := internal.DecodeUint16LE(self.Data[aboutIndex : aboutIndex + 2])
 	return unsafe.String(&self.Data[33 + nameLen + familyLen + authorLen], aboutLen)
-- 
2.43.0


From 3b97e4e9221443f213df5d8283178883985d1580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:02 +0000
Subject: [PATCH 07/66] fix: builder accepted an empty font name, which can't
 be parsed

---
 builder/font_builder_props.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/builder/font_builder_props.go b/builder/font_builder_props.go
index 71ab823..bccc5a8 100644
--- a/builder/font_builder_props.go
+++ b/builder/font_builder_props.go
@@ -69,6 +69,7 @@ func (self *Font) SetVersion(major, minor uint16) {
 func (self *Font) GetName() string { return self.fontName }
 func (self *Font) SetName(name string) error {
 	if len(name) > 255 { return errors.New("font name can't exceed 255 bytes") }
+	if name == "" { return errors.New("font name can't be empty") }
 	err := checkStringValidity(name)
 	if err != nil { return err }
 	self.fontName = name
-- 
2.43.0


From cc7587ea80ff83d66afb6017927edc6f336012f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:03 +0000
Subject: [PATCH 08/66] fix: reject vertical metrics without vertical layout,
 and ExtraAscent equal to Ascent when parsing

---
 builder/font_builder_props.go | 5 +++++
 font.go                       | 7 +++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder_props.go b/builder/font_builder_props.go
index bccc5a8..8d40fed 100644
--- a/builder/font_builder_props.go
+++ b/builder/font_builder_props.go
@@ -113,6 +113,11 @@ func (self *Font) GetMetricsStatus() error {
 	if self.ascent < self.midlineAscent { return errors.New("ascent must be equal or greater than midline ascent") }
 	if self.ascent < self.uppercaseAscent { return errors.New("ascent must be equal or greater than uppercase ascent") }
 	if self.midlineAscent > self.uppercaseAscent { return errors.New("midline ascent must be equal or greater than uppercase ascent") }
+	if !self.hasVertLayout {
+		if self.vertInterspacing != 0 { return errors.New("vert interspacing set without vert layout") }
+		if self.vertLineWidth != 0 { return errors.New("vert line width set without vert layout") }
+		if self.vertLineGap != 0 { return errors.New("vert line gap set without vert layout") }
+	}
 	return nil
 }
 
diff --git a/font.go b/font.go
index f5bfa6a..4d053ff 100644
--- a/font.go
+++ b/font.go
@@ -220,12 +220,15 @@ func (self *FontMetrics) Validate(mode FmtValidation) error {
 	err := internal.BoolErrCheck(self.Data[self.OffsetToMetrics + 2])
 	if err != nil { return err }
 	if self.Ascent() == 0 { return errors.New("Ascent can't be zero") }
-	if self.ExtraAscent() > self.Ascent() {
-		return errors.New("ExtraAscent can't be bigger than Ascent")
+	if self.ExtraAscent() >= self.Ascent() {
+		return errors.New("ExtraAscent must be smaller than Ascent")
 	}
 	if self.VertInterspacing() != 0 && !self.HasVertLayout() {
 		return errors.New("VertInterspacing set without HasVertLayout")
 	}
+	if (self.VertLineWidth() != 0 || self.VertLineGap() != 0) && !self.HasVertLayout() {
+		return errors.New("VertLineWidth or VertLineGap set without HasVertLayout")
+	}
 
 	// strict checks
 	if mode == FmtStrict {
-- 
2.43.0


From 7bb0a9833d3ec039b1288fa780a5ef726e3ae725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:14 +0000
Subject: [PATCH 09/66] fix: parsing rejected fonts with masks taking more than
 255 bytes on average

---
 parse.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/parse.go b/parse.go
index 37537b5..39d646a 100644
--- a/parse.go
+++ b/parse.go
@@ -196,9 +196,6 @@ func Parse(reader io.Reader) (*Font, error) {
 	if glyphMasksLen < (uint32(placementSize)*uint32(numGlyphs)) {
 		return &font, parser.NewError("GlyphMaskEndOffsets declares GlyphMasks to end before allowed")
 	}
-	if glyphMasksLen > (uint32(placementSize) + 255)*uint32(numGlyphs) {
-		return &font, parser.NewError("GlyphMaskEndOffsets declares GlyphMasks to end beyond allowed")
-	}
 	err = parser.AdvanceBytes(int(glyphMasksLen))
 	if err != nil { return &font, err }
 
-- 
2.43.0


From 4ab607762d4b9ebb644a83bceb5b18b55cc41e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:15 +0000
Subject: [PATCH 10/66] fix: parsing ignored read errors on rewrite rules and
 kernings

---
 parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.go b/parse.go
index 39d646a..f03c50e 100644
--- a/parse.go
+++ b/parse.go
@@ -381,6 +381,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		err := parser.AdvanceBytes(int(numUtf8Rules - 1)*3)
 		if err != nil { return &font, err }
 		utf8RulesLen, err := parser.ReadUint24()
+		if err != nil { return &font, err }
 		if int(utf8RulesLen) < int(numUtf8Rules)*8 {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end before allowed")
 		}
@@ -401,6 +402,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		err := parser.AdvanceBytes(int(numGlyphRules - 1)*3)
 		if err != nil { return &font, err }
 		glyphRulesLen, err := parser.ReadUint24()
+		if err != nil { return &font, err }
 		if int(glyphRulesLen) < int(numGlyphRules)*8 {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end before allowed")
 		}
@@ -423,6 +425,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	maxKerningPairs := uint32(numGlyphs)*uint32(numGlyphs)
 
 	numHorzKerningPairs, err := parser.ReadUint24()
+	if err != nil { return &font, err }
 	if numHorzKerningPairs > 0 {
 		if numHorzKerningPairs > maxKerningPairs {
 			return &font, parser.NewError("NumHorzKerningPairs can't exceed NumGlyphs^2")
@@ -435,6 +438,7 @@ func Parse(reader io.Reader) (*Font, error) {
 
 	font.OffsetToVertKernings = uint32(parser.Index)
 	numVertKerningPairs, err := parser.ReadUint24()
+	if err != nil { return &font, err }
 	if numVertKerningPairs > 0 {
 		if numVertKerningPairs > maxKerningPairs {
 			return &font, parser.NewError("NumVertKerningPairs can't exceed NumGlyphs^2")
-- 
2.43.0


From 2d1c5a4db46c35dd58f47843673344d5ba7ec6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:16 +0000
Subject: [PATCH 11/66] fix: parsing rejected empty rewrite sets and long
 rewrite rules

---
 parse.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parse.go b/parse.go
index f03c50e..1a09af4 100644
--- a/parse.go
+++ b/parse.go
@@ -346,7 +346,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if err != nil { return &font, err }
 		utf8SetsLen, err := parser.ReadUint16()
 		if err != nil { return &font, err }
-		if int(utf8SetsLen) < 1 + int(numUtf8Sets)*5 {
+		if int(utf8SetsLen) < int(numUtf8Sets)*2 {
 			return &font, parser.NewError("UTF8SetEndOffsets declares UTF8Sets to end before allowed")
 		}
 
@@ -364,7 +364,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if err != nil { return &font, err }
 		glyphSetsLen, err := parser.ReadUint16()
 		if err != nil { return &font, err }
-		if int(glyphSetsLen) < 1 + int(numGlyphSets)*3 {
+		if int(glyphSetsLen) < int(numGlyphSets)*2 {
 			return &font, parser.NewError("GlyphSetEndOffsets declares GlyphSets to end before allowed")
 		}
 
@@ -385,7 +385,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if int(utf8RulesLen) < int(numUtf8Rules)*8 {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end before allowed")
 		}
-		if int(utf8RulesLen) > int(numUtf8Rules)*(6 + 255*4) {
+		if int(utf8RulesLen) > int(numUtf8Rules)*4096 {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end beyond allowed")
 		}
 
@@ -406,7 +406,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if int(glyphRulesLen) < int(numGlyphRules)*8 {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end before allowed")
 		}
-		if int(glyphRulesLen) > int(numGlyphRules)*514 {
+		if int(glyphRulesLen) > int(numGlyphRules)*4096 {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end beyond allowed")
 		}
 
-- 
2.43.0


From ab9b8ade001b7583a6b6aae91458945a19195f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:18 +0000
Subject: [PATCH 12/66] fix: parsing rejected fonts with exactly 254 mapping
 switches

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 1a09af4..3183a24 100644
--- a/parse.go
+++ b/parse.go
@@ -270,7 +270,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	font.OffsetToMappingSwitches = uint32(parser.Index)
 	numMappingSwitches, err := parser.ReadUint8()
 	if err != nil { return &font, err }
-	if numMappingSwitches > 253 {
+	if numMappingSwitches > 254 {
 		return &font, parser.NewError("NumMappingSwitches can't exceed 254 (both 254 and 255 are reserved)")
 	}
 	if numMappingSwitches > 0 {
-- 
2.43.0


From 053b20e7a51329e0d39a401f75b82724c4b141ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:19 +0000
Subject: [PATCH 13/66] fix: parsing failed when the reader delivered the
 signature in pieces

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 3183a24..4efd9fe 100644
--- a/parse.go
+++ b/parse.go
@@ -52,7 +52,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	if traceParsing { fmt.Printf("starting parsing...\n") }
 
 	// read signature first (this is not gzipped, so it's important)
-	n, err := reader.Read(parser.TempBuff[0 : 6])
+	n, err := io.ReadFull(reader, parser.TempBuff[0 : 6])
 	if err != nil || n != 6 {
 		if n == 0 {
 			return &font, parser.NewError("failed to read any data from the file")
-- 
2.43.0


From 3597439c5a378added8ff4e661704600abcb528e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:20 +0000
Subject: [PATCH 14/66] fix: EnsureEOF missed already buffered trailing data
 and panicked on unread trailing data

---
 internal/parsing_buffer.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index d2c5a46..e8ab7cf 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -38,14 +38,13 @@ func (self *ParsingBuffer) InitGzipReader(reader io.Reader) error {
 }
 
 func (self *ParsingBuffer) EnsureEOF() error {
-	if self.eof { return nil }
-	preIndex := self.Index
-	err := self.readMore()
-	if err != nil { return err }
-	if self.Index > preIndex {
+	for !self.eof && len(self.Bytes) == self.Index {
+		err := self.readMore()
+		if err != nil { return err }
+	}
+	if len(self.Bytes) > self.Index {
 		return errors.New("file continues beyond the expected end")
 	}
-	if !self.eof { panic("broken code") }
 	return nil
 }
 
-- 
2.43.0


From b7ac1474007b0e6def9672a58bda40d4ea7e37b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:22 +0000
Subject: [PATCH 15/66] fix: parsing accepted fonts with glyph indices
 colliding with the reserved ones

---
 font.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/font.go b/font.go
index 4d053ff..1058ffc 100644
--- a/font.go
+++ b/font.go
@@ -217,6 +217,7 @@ func (self *FontMetrics) VertLineGap() uint8 {
 func (self *FontMetrics) Validate(mode FmtValidation) error {
 	// default checks
 	if self.NumGlyphs() == 0 { return errors.New("font must define at least one glyph") }
+	if self.NumGlyphs() > MaxGlyphs { return errors.New("font can't define so many glyphs") }
 	err := internal.BoolErrCheck(self.Data[self.OffsetToMetrics + 2])
 	if err != nil { return err }
 	if self.Ascent() == 0 { return errors.New("Ascent can't be zero") }
-- 
2.43.0


From 991778318d568f4c90ea6876ec8a753e9db3df9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:48 +0000
Subject: [PATCH 16/66] fix: name and word accessors could read memory beyond
 the font data

---
 font.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/font.go b/font.go
index 1058ffc..13fb765 100644
--- a/font.go
+++ b/font.go
@@ -27,6 +27,11 @@ type Font internal.Font
 
 const invalidFontData = "invalid font data" // used for panics
 
+// The result must not be used after the data is modified or released.
+func unsafeString(data []byte) string {
+	return unsafe.String(unsafe.SliceData(data), len(data))
+}
+
 // --- general methods ---
 
 func (self *Font) Export(writer io.Writer) error {
@@ -288,8 +293,7 @@ func (self *FontColor) EachDye(fn func(DyeKey, string)) {
 	for i := uint32(0); i < numDyes; i++ {
 		nameEndOffset := uint32(internal.DecodeUint16LE(self.Data[offsetToNextDyeNameEnd : ]))
 		if nameEndOffset <= nameStartOffset { panic(invalidFontData) }
-		nameLen := nameEndOffset - nameStartOffset
-		dyeName := unsafe.String(&self.Data[offsetToDyeNames + nameStartOffset], nameLen)
+		dyeName := unsafeString(self.Data[offsetToDyeNames + nameStartOffset : offsetToDyeNames + nameEndOffset])
 		fn(DyeKey(i), dyeName)
 		
 		// setup for the next iteration
@@ -336,8 +340,7 @@ func (self *FontColor) EachPalette(fn func(PaletteKey, string)) {
 	for i := uint32(0); i < numPalettes; i++ {
 		nameEndOffset := uint32(internal.DecodeUint16LE(self.Data[offsetToNextPaletteNameEnd : ]))
 		if nameEndOffset <= nameStartOffset { panic(invalidFontData) }
-		nameLen := nameEndOffset - nameStartOffset
-		PaletteName := unsafe.String(&self.Data[offsetToPaletteNames + nameStartOffset], nameLen)
+		PaletteName := unsafeString(self.Data[offsetToPaletteNames + nameStartOffset : offsetToPaletteNames + nameEndOffset])
 		fn(PaletteKey(i), PaletteName)
 		
 		// setup for the next iteration
@@ -610,8 +613,8 @@ func (self *FontSettings) GetWord(index uint8) string {
 		}
 		if wordEndOffsetIndex <= wordStartOffsetIndex { panic(invalidFontData) }
 		wordStartIndex := self.OffsetToWords + 1 + (uint32(numWords) << 1) + uint32(wordStartOffsetIndex)
-		wordLen := (wordEndOffsetIndex - wordStartOffsetIndex)
-		return unsafe.String(&self.Data[wordStartIndex], wordLen)
+		wordLen := uint32(wordEndOffsetIndex - wordStartOffsetIndex)
+		return unsafeString(self.Data[wordStartIndex : wordStartIndex + wordLen])
 	} else {
 		return GetPredefinedWord(index)
 	}
@@ -666,8 +669,7 @@ func (self *FontSettings) Each(fn func(key SettingKey, name string)) {
 	var offsetToNames int = offsetToNameEnds + numSettings*2
 	for i := 0; i < numSettings; i++ {
 		nameEndOffset := int(internal.DecodeUint16LE(self.Data[offsetToNameEnds + i*2 : ]))
-		nameLen := nameEndOffset - prevNameEnd
-		fn(SettingKey(i), unsafe.String(&self.Data[offsetToNames + prevNameEnd], nameLen))
+		fn(SettingKey(i), unsafeString(self.Data[offsetToNames + prevNameEnd : offsetToNames + nameEndOffset]))
 		prevNameEnd = nameEndOffset
 	}
 }
-- 
2.43.0


From 86228bdcc3815f63cb070f20209adf6d10dcca65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:49 +0000
Subject: [PATCH 17/66] fix: FindIndexByName missed existing glyphs due to a
 wrong name comparison

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 13fb765..7c7c462 100644
--- a/font.go
+++ b/font.go
@@ -503,8 +503,8 @@ func (self *FontGlyphs) getNthGlyphName(nth uint32, numNamedGlyphs uint32) []byt
 
 func bytesSmallerThanStr(bytes []byte, str string) bool {
 	for i := 0; i < len(bytes); i++ {
-		if i >= len(str) { return true }
-		if bytes[i] > str[i] { return false }
+		if i >= len(str) { return false }
+		if bytes[i] != str[i] { return bytes[i] < str[i] }
 	}
 	if len(bytes) == len(str) { return false } // equal
 	return true // smaller
-- 
2.43.0


From f07685c984867413514be33853c0da0fba3b9caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:50 +0000
Subject: [PATCH 18/66] fix: mapping groups read wrong animation flags and
 glyph indices

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 7c7c462..9d737ad 100644
--- a/font.go
+++ b/font.go
@@ -713,7 +713,7 @@ func (self *GlyphMappingGroup) Size() uint8 {
 func (self *GlyphMappingGroup) AnimationFlags() AnimationFlags {
 	if self.directMapping { return 0 }
 	if (0b0111_1111 & self.font.Data[self.offset + 0]) == 0 { return 0 }
-	return AnimationFlags(self.font.Data[self.offset + 2])
+	return AnimationFlags(self.font.Data[self.offset + 1])
 }
 func (self *GlyphMappingGroup) CaseBranch() uint8 {
 	return self.caseBranch
@@ -739,7 +739,7 @@ func (self *GlyphMappingGroup) Select(choice uint8) GlyphIndex {
 	if (info & 0b1000_0000) != 0 { // range case
 		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 : ]) + uint16(choice))
 	} else {
-		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 + (uint32(choice) << 2) : ]))
+		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 + (uint32(choice) << 1) : ]))
 	}
 }
 
-- 
2.43.0


From 0a9f0637c5ca12543f33df6ae0b04626c9851b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:52 +0000
Subject: [PATCH 19/66] fix: switch case lookups miscalculated the size of
 groups defined as ranges

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 9d737ad..d75398b 100644
--- a/font.go
+++ b/font.go
@@ -841,7 +841,7 @@ func (self *FontMapping) Utf8WithCache(codePoint rune, settingsCache *SettingsCa
 	for targetSwitchCase > 0 {
 		groupInfo := self.Data[offsetToMappingData + int(startOffset)]
 		groupSize := (groupInfo & 0b0111_1111) + 1
-		groupDefinedAsRange := ((groupSize & 0b1000_0000) != 0)
+		groupDefinedAsRange := ((groupInfo & 0b1000_0000) != 0)
 		if groupDefinedAsRange {
 			startOffset += 3 // 1 byte group size, 2 bytes base glyph
 		} else {
@@ -912,7 +912,7 @@ func (self *FontMapping) Utf8(codePoint rune, settings []uint8) (GlyphMappingGro
 	for targetSwitchCase > 0 {
 		groupInfo := self.Data[offsetToMappingData + int(startOffset)]
 		groupSize := (groupInfo & 0b0111_1111) + 1
-		groupDefinedAsRange := ((groupSize & 0b1000_0000) != 0)
+		groupDefinedAsRange := ((groupInfo & 0b1000_0000) != 0)
 		if groupDefinedAsRange {
 			startOffset += 3 // 1 byte group size, 2 bytes base glyph
 		} else {
-- 
2.43.0


From 23273c3abdeeb8d138f4c794f42ba4d2845ee4d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:53 +0000
Subject: [PATCH 20/66] fix: MappingCache lost entries and mistook unused ones
 for code point zero

---
 mapping_cache.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mapping_cache.go b/mapping_cache.go
index 7891259..a7362aa 100644
--- a/mapping_cache.go
+++ b/mapping_cache.go
@@ -59,7 +59,7 @@ func NewMappingCache(font *Font, size int) *MappingCache {
 
 	cache := &MappingCache{
 		font: font, 
-		mruIndex: noEntry,
+		mruIndex: uint16(size - 1),
 		lruIndex: 0,
 		cachedMappings: make(map[rune]uint16, size),
 		mappingEntries: make([]mappingEntry, size),
@@ -71,7 +71,7 @@ func NewMappingCache(font *Font, size int) *MappingCache {
 // Resets the mapping cache completely, with only the size being preserved.
 func (self *MappingCache) Reset(font *Font) {
 	self.font = font
-	self.mruIndex = noEntry
+	self.mruIndex = uint16(len(self.mappingEntries) - 1)
 	self.lruIndex = 0
 	clear(self.mappingEntries)
 	clear(self.cachedMappings)
@@ -127,7 +127,10 @@ func (self *MappingCache) Get(codePoint rune, settings *SettingsCache) (GlyphMap
 		entry.codePoint = codePoint // code point also updated in this case
 
 		// delete previous entry, link new one
-		delete(self.cachedMappings, evictedCodePoint)
+		evictedIndex, evictedFound := self.cachedMappings[evictedCodePoint]
+		if evictedFound && evictedIndex == self.lruIndex { // may not be the case for unused entries
+			delete(self.cachedMappings, evictedCodePoint)
+		}
 		self.cachedMappings[codePoint] = self.lruIndex
 
 		// update MRU and return
-- 
2.43.0


From f605c7ea8b896aa85daa9d418b7d59d7395f42a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:54 +0000
Subject: [PATCH 21/66] fix: EvaluateCondition used wrong offsets and always
 panicked

---
 font.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/font.go b/font.go
index d75398b..047ff20 100644
--- a/font.go
+++ b/font.go
@@ -965,16 +965,15 @@ func (self *FontRewrites) EvaluateCondition(conditionKey uint8, settings []uint8
 	if conditionKey >= numConditions { panic("invalid condition key") }
 
 	var startOffset uint16 = 0
-	endOffset := internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + 1 + uint32(conditionKey) : ])
+	endOffset := internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + 1 + (uint32(conditionKey) << 1) : ])
 	if conditionKey > 0 {
-		startOffset = internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + uint32(conditionKey) : ])
+		startOffset = internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + 1 + (uint32(conditionKey - 1) << 1) : ])
 	}
 	if endOffset <= startOffset { panic(invalidFontData) }
-	endOffset -= 1 // we will evaluate from last to first
 
 	offsetToRewriteConditionsData := self.OffsetToRewriteConditions + 1 + (uint32(numConditions) << 1)
-	maxDataIndex := offsetToRewriteConditionsData + uint32(endOffset)
-	if int(maxDataIndex) >= len(self.Data) { panic(invalidFontData) } // discretionary assertion
+	maxDataIndex := offsetToRewriteConditionsData + uint32(endOffset) // not included
+	if int(maxDataIndex) > len(self.Data) { panic(invalidFontData) } // discretionary assertion
 	dataIndex := offsetToRewriteConditionsData + uint32(startOffset)
 	endDataIndex, satisfied := self.evalConditionSubexpr(dataIndex, maxDataIndex, settings)
 	if endDataIndex != maxDataIndex { panic(brokenCode) }
@@ -986,7 +985,7 @@ func (self *FontRewrites) EvaluateCondition(conditionKey uint8, settings []uint8
 
 // Returns the new dataIndex and the result.
 func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, settings []uint8) (uint32, bool) {
-	if dataIndex > maxDataIndex { panic(invalidFontData) }
+	if dataIndex >= maxDataIndex { panic(invalidFontData) }
 
 	ctrl := self.Data[dataIndex]
 	switch ctrl & 0b1110_0000 {
@@ -1068,7 +1067,7 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 }
 
 func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, numSettings uint8) uint32 {
-	if dataIndex > maxDataIndex { panic(invalidFontData) }
+	if dataIndex >= maxDataIndex { panic(invalidFontData) }
 
 	ctrl := self.Data[dataIndex]
 	switch ctrl & 0b1110_0000 {
-- 
2.43.0


From fd25bc85914c72c9690c5f64e17b595ced54c63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:55 +0000
Subject: [PATCH 22/66] fix: early exits of condition groups skipped one term
 too many

---
 font.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/font.go b/font.go
index 047ff20..bf89e7f 100644
--- a/font.go
+++ b/font.go
@@ -998,9 +998,8 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
 			if satisfied {
 				numSettings := uint8(min(len(settings), 255))
-				for i < numTerms { // could be optimized in some cases, but it's a pain
+				for i += 1; i < numTerms; i++ { // could be optimized in some cases, but it's a pain
 					dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
-					i += 1
 				}
 				return dataIndex, true
 			}
@@ -1015,9 +1014,8 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
 			if !satisfied {
 				numSettings := uint8(min(len(settings), 255))
-				for i < numTerms { // could be optimized in some cases, but it's a pain
+				for i += 1; i < numTerms; i++ { // could be optimized in some cases, but it's a pain
 					dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
-					i += 1
 				}
 				return dataIndex, false
 			}
-- 
2.43.0


From 5236a4a0bfd75846f64b5486a7d4e26b39be47b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:56 +0000
Subject: [PATCH 23/66] fix: condition comparisons compared the setting index
 instead of its value

---
 font.go | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/font.go b/font.go
index bf89e7f..3688b0e 100644
--- a/font.go
+++ b/font.go
@@ -1023,41 +1023,41 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 		return dataIndex, true
 	case 0b0100_0000: // comparison
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		operand := self.Data[dataIndex + 2]
 		if (ctrl & 0b0001_0000) == 0 { // comparing two settings
-			if int(operand) > len(settings) { panic(invalidFontData) } // discretionary assertion
+			if int(operand) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 			operand = settings[operand]
 		}
 		switch (ctrl & 0b0000_1111) {
-		case 0b000: return dataIndex + 3, setting == operand
-		case 0b001: return dataIndex + 3, setting != operand
-		case 0b010: return dataIndex + 3, setting  < operand
-		case 0b011: return dataIndex + 3, setting  > operand
-		case 0b100: return dataIndex + 3, setting <= operand
-		case 0b101: return dataIndex + 3, setting >= operand
+		case 0b000: return dataIndex + 3, settings[setting] == operand
+		case 0b001: return dataIndex + 3, settings[setting] != operand
+		case 0b010: return dataIndex + 3, settings[setting]  < operand
+		case 0b011: return dataIndex + 3, settings[setting]  > operand
+		case 0b100: return dataIndex + 3, settings[setting] <= operand
+		case 0b101: return dataIndex + 3, settings[setting] >= operand
 		default:
 			panic(invalidFontData)
 		}
 	case 0b0110_0000: // quick comparison `setting == const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] == constValue
 	case 0b1000_0000: // quick comparison `setting != const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] != constValue
 	case 0b1010_0000: // quick comparison `setting < const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] < constValue
 	case 0b1100_0000: // quick comparison `setting > const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] > constValue
 	default: // undefined control mode
 		panic(invalidFontData)
@@ -1086,9 +1086,9 @@ func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, n
 		}
 		return dataIndex
 	case 0b0100_0000: // comparison
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		if (ctrl & 0b0001_0000) == 0 { // comparing two settings
-			if self.Data[dataIndex + 2] > numSettings { panic(invalidFontData) } // discretionary assertion
+			if self.Data[dataIndex + 2] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		}
 		switch (ctrl & 0b0000_1111) {
 		case 0b000: return dataIndex + 3
@@ -1101,16 +1101,16 @@ func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, n
 			panic(invalidFontData)
 		}
 	case 0b0110_0000: // quick comparison `setting == const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	case 0b1000_0000: // quick comparison `setting != const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	case 0b1010_0000: // quick comparison `setting < const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	case 0b1100_0000: // quick comparison `setting > const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	default: // undefined control mode
 		panic(invalidFontData)
-- 
2.43.0


From e8ff60342e5d862004f9d632645fe6e2264434b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:57 +0000
Subject: [PATCH 24/66] fix: EachOut didn't iterate the rewrite rule output
 properly

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 3688b0e..6aca84c 100644
--- a/font.go
+++ b/font.go
@@ -1127,7 +1127,7 @@ func (self *GlyphRewriteRule) InLen() uint8 { return self.Data[1] + self.Data[2]
 func (self *GlyphRewriteRule) OutLen() uint8 { return self.Data[4] } // sequence size
 func (self *GlyphRewriteRule) EachOut(each func(GlyphIndex)) {
 	outSize := int(self.Data[4])
-	for i := 5; i < 5 + outSize; i += 2 {
+	for i := 5; i < 5 + outSize*2; i += 2 {
 		each(GlyphIndex(internal.DecodeUint16LE(self.Data[i : ])))
 	}
 }
@@ -1165,7 +1165,7 @@ func (self *Utf8RewriteRule) InLen() uint8 { return self.Data[1] + self.Data[2]
 func (self *Utf8RewriteRule) OutLen() uint8 { return self.Data[4] } // sequence size
 func (self *Utf8RewriteRule) EachOut(each func(rune)) {
 	outSize := int(self.Data[4])
-	for i := 5; i < 5 + outSize; i += 2 {
+	for i := 5; i < 5 + outSize*4; i += 4 {
 		each(rune(internal.DecodeUint32LE(self.Data[i : ])))
 	}
 }
-- 
2.43.0


From 51546955b476c51b88f40e235a46ad7fd897c506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:58 +0000
Subject: [PATCH 25/66] fix: utf8 set EachRange skipped the last range and read
 wrong range lengths

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 6aca84c..3a6b6e0 100644
--- a/font.go
+++ b/font.go
@@ -1245,9 +1245,9 @@ func (self *FontRewrites) GetGlyphSet(set uint8) GlyphRewriteSet {
 type Utf8RewriteSet internal.RawBlock
 func (self *Utf8RewriteSet) EachRange(each func(start, end rune) error) error {
 	numRanges := int(self.Data[0])
-	for i := 1; i < numRanges*5; i += 5 {
+	for i := 1; i < 1 + numRanges*5; i += 5 {
 		codePoint := rune(internal.DecodeUint32LE(self.Data[i : i + 4]))
-		err := each(codePoint, codePoint + rune(self.Data[i + 3]))
+		err := each(codePoint, codePoint + rune(self.Data[i + 4]))
 		if err != nil { return err }
 	}
 	return nil
-- 
2.43.0


From 991ae8c010f8bdac8d204f42c809026272c94744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:29 +0000
Subject: [PATCH 26/66] fix: switch mappings panicked with single glyph groups
 and accepted undefined glyphs

---
 builder/font_builder_mapping.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index e19d448..2f078c3 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -156,7 +156,7 @@ func (self *Font) MapGroup(codePoint rune, animFlags ggfnt.AnimationFlags, glyph
 	// actual addition
 	self.runeMapping[codePoint] = mappingEntry{
 		SwitchType: 254,
-		SwitchCases: []mappingGroup{ mappingGroup{ Glyphs: glyphUIDs, AnimationFlags: animFlags } },
+		SwitchCases: []mappingGroup{ mappingGroup{ Glyphs: slices.Clone(glyphUIDs), AnimationFlags: animFlags } },
 	}
 	return nil
 }
@@ -187,6 +187,9 @@ func (self *Font) MapWithSwitchSingles(codePoint rune, mapSwitch uint8, glyphUID
 		return fmt.Errorf("switch %d expects %d glyph groups, but received %d", mapSwitch, numSwitchCases, len(glyphUIDs))
 	}
 	
+	err := self.validateMapGlyphs(codePoint, glyphUIDs...)
+	if err != nil { return err }
+
 	cases := make([]mappingGroup, 0, len(glyphUIDs))
 	for _, glyphUID := range glyphUIDs {
 		cases = append(cases, mappingGroup{ Glyphs: []uint64{glyphUID}, AnimationFlags: 0 })
@@ -218,7 +221,13 @@ func (self *Font) MapWithSwitch(codePoint rune, mapSwitch uint8, glyphUIDs [][]u
 	animFlagIndex := 0
 	for _, group := range glyphUIDs {
 		if len(group) == 0 { panic("glyph groups can't be empty") }
-		if len(group) == 1 { continue }
+		if len(group) > 127 { return errors.New("glyph groups can't exceed 127 glyphs") }
+		err := self.validateMapGlyphs(codePoint, group...)
+		if err != nil { return err }
+		if len(group) == 1 {
+			finalAnimFlags = append(finalAnimFlags, 0)
+			continue
+		}
 		if len(animFlags) <= animFlagIndex { return errors.New("not enough animation flags for all multi-glyph groups") }
 		finalAnimFlags = append(finalAnimFlags, animFlags[animFlagIndex])
 		animFlagIndex += 1
@@ -229,7 +238,7 @@ func (self *Font) MapWithSwitch(codePoint rune, mapSwitch uint8, glyphUIDs [][]u
 	
 	cases := make([]mappingGroup, 0, len(glyphUIDs))
 	for i, group := range glyphUIDs {
-		cases = append(cases, mappingGroup{ Glyphs: group, AnimationFlags: finalAnimFlags[i] })
+		cases = append(cases, mappingGroup{ Glyphs: slices.Clone(group), AnimationFlags: finalAnimFlags[i] })
 	}
 	self.runeMapping[codePoint] = mappingEntry{
 		SwitchType: mapSwitch,
-- 
2.43.0


From 3a76f0a385436012bad6c0376424df2d4203586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:29 +0000
Subject: [PATCH 27/66] fix: the order of the glyphs in a mapping group was
 lost

---
 builder/font_builder_mapping.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index 2f078c3..f3ce2e7 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -99,8 +99,7 @@ func (self *mappingGroup) AppendTo(data []byte, glyphLookup map[uint64]uint16, s
 		scratchBuffer[i] = glyphIndex
 	}
 
-	// sort scratch buffer, makes it easier to see if glyphs are consecutive
-	slices.Sort(scratchBuffer)
+	// consecutive glyphs can be stored as a range
 	if isContinuousSlice(scratchBuffer) {
 		data = append(data, 0b1000_0000 | uint8(len(self.Glyphs) - 1))
 		data = append(data, uint8(self.AnimationFlags))
-- 
2.43.0


From 31386de72460c54262a4c543e311dbddd7f0627e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:30 +0000
Subject: [PATCH 28/66] fix: mapping switches with more than 254 cases were
 accepted

---
 builder/font_builder_mapping.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index f3ce2e7..203f72c 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -33,6 +33,14 @@ func (self *Font) AddSwitch(settings ...ggfnt.SettingKey) (uint8, error) {
 		newSettings = append(newSettings, uint8(setting))
 	}
 
+	numCases := 1
+	for _, setting := range newSettings {
+		numCases *= len(self.settings[setting].Options)
+		if numCases > 254 {
+			return 0, errors.New("mapping switch can't have more than 254 cases")
+		}
+	}
+
 	key := uint8(len(self.mappingSwitches))
 	self.mappingSwitches = append(self.mappingSwitches, mappingSwitchEntry{ Settings: newSettings })
 	return key, nil
-- 
2.43.0


From 2a9ae9034efe83f28b1c3f61ca4b683a2bb0e4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:31 +0000
Subject: [PATCH 29/66] fix: settings without options were accepted, and option
 slices aliased

---
 builder/font_builder_settings.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_settings.go b/builder/font_builder_settings.go
index cd73ee1..df85e92 100644
--- a/builder/font_builder_settings.go
+++ b/builder/font_builder_settings.go
@@ -1,6 +1,7 @@
 package builder
 
 import "errors"
+import "slices"
 
 import "github.com/tinne26/ggfnt"
 import "github.com/tinne26/ggfnt/internal"
@@ -86,6 +87,9 @@ func (self *Font) AddSetting(name string, options ...string) (ggfnt.SettingKey,
 		if err != nil { return 0, err }
 	}
 
+	if len(options) == 0 {
+		return 0, errors.New("setting must have at least one option")
+	}
 	if len(options) > 255 {
 		return 0, errors.New("setting can't have more than 255 options")
 	}
@@ -101,6 +105,6 @@ func (self *Font) AddSetting(name string, options ...string) (ggfnt.SettingKey,
 	}
 	
 	key := ggfnt.SettingKey(len(self.settings))
-	self.settings = append(self.settings, settingEntry{ Name: name, Options: options })
+	self.settings = append(self.settings, settingEntry{ Name: name, Options: slices.Clone(options) })
 	return key, nil
 }
-- 
2.43.0


From e90581018a6844fa5e5dfc1056f26e9b68fcb213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:32 +0000
Subject: [PATCH 30/66] fix: setting words were encoded in random order and
 builtin words mistaken

---
 builder/font_builder.go          |  5 ++--
 builder/font_builder_settings.go | 42 +++++++++++++++-----------------
 2 files changed, 21 insertions(+), 26 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index c126a5e..26c7093 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -376,17 +376,16 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 		for word, index := range words {
 			wordsList[index] = word
 		}
-		slices.Sort(wordsList)
 
 		// WordEndOffsets
 		var offset uint16
-		for word, _ := range words {
+		for _, word := range wordsList {
 			offset += uint16(len(word))
 			data = internal.AppendUint16LE(data, offset)
 		}
 
 		// Words | append actual words
-		for word, _ := range words {
+		for _, word := range wordsList {
 			data = append(data, word...)
 		}
 	}
diff --git a/builder/font_builder_settings.go b/builder/font_builder_settings.go
index df85e92..1f465b9 100644
--- a/builder/font_builder_settings.go
+++ b/builder/font_builder_settings.go
@@ -23,34 +23,33 @@ func (self *settingEntry) AppendWords(words map[string]int16) {
 func organizeWords(builtinWords, words map[string]int16) error {
 	if len(words) > 255 { return errors.New("setting options require too many words") }
 
-	// set indices for all unique words
-	var customWordIndex uint16
-	var minBuiltinIndex uint16 = 65535
+	// go through the words always in the same order
+	sortedWords := make([]string, 0, len(words))
 	for word, _ := range words {
-		builtinIndex, isBuiltIn := builtinWords[word]
+		sortedWords = append(sortedWords, word)
+	}
+	slices.Sort(sortedWords)
+
+	// set indices for all custom words
+	var customWordIndex int16
+	for _, word := range sortedWords {
+		_, isBuiltIn := builtinWords[word]
 		if isBuiltIn {
-			words[word] = -builtinIndex
-			if uint16(builtinIndex) < minBuiltinIndex {
-				minBuiltinIndex = uint16(builtinIndex)
-			}
+			words[word] = -1
 		} else {
-			words[word] = int16(customWordIndex)
+			words[word] = customWordIndex
 			customWordIndex += 1
 		}
 	}
 
-	// see if builtin words can be used or not
-	for minBuiltinIndex < customWordIndex {
-		target := -int16(minBuiltinIndex)
-		minBuiltinIndex = 65535
-		for word, index := range words {
-			if index == target {
-				words[word] = int16(customWordIndex)
+	// built-in words overridden by custom words become custom words too
+	for changed := true; changed; {
+		changed = false
+		for _, word := range sortedWords {
+			if words[word] == -1 && builtinWords[word] < customWordIndex {
+				words[word] = customWordIndex
 				customWordIndex += 1
-			} else if index < 0 { // built-in word
-				if uint16(-index) < minBuiltinIndex {
-					minBuiltinIndex = uint16(-index)
-				}
+				changed = true
 			}
 		}
 	}
@@ -60,9 +59,6 @@ func organizeWords(builtinWords, words map[string]int16) error {
 		if index < 0 { delete(words, word) }
 	}
 	
-	// NOTE: sorting is done later to improve encoding
-	// stability, but directly on the encoding code
-
 	return nil
 }
 
-- 
2.43.0


From 6dcd7e1a421c4985f6d80a80fa4b88dfc9e85340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:33 +0000
Subject: [PATCH 31/66] fix: vertical kerning values were taken from the
 horizontal pairs

---
 builder/font_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 26c7093..c36799c 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -651,7 +651,7 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	for _, pair64 := range self.tempSortingBuffer { // VertKerningValues
 		glyphUID1 := self.glyphOrder[uint16(pair64 >> 16)]
 		glyphUID2 := self.glyphOrder[uint16(pair64)]
-		kerningInfo, found := self.horzKerningPairs[[2]uint64{glyphUID1, glyphUID2}]
+		kerningInfo, found := self.vertKerningPairs[[2]uint64{glyphUID1, glyphUID2}]
 		if !found { panic(invalidInternalState) }
 		if kerningInfo.Class == 0 {
 			data = append(data, uint8(kerningInfo.Value))
-- 
2.43.0


From b0cad558745c348537777552cde09d0947c58de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:34 +0000
Subject: [PATCH 32/66] fix: Build panicked on kerning pairs with undefined
 glyphs

---
 builder/font_builder.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index c36799c..01c97ed 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -605,9 +605,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	self.tempSortingBuffer = self.tempSortingBuffer[ : 0]
 	for key, _ := range self.horzKerningPairs {
 		i1, found := self.tempGlyphIndexLookup[key[0]]
-		if !found { panic(invalidInternalState) }
+		if !found { return nil, errors.New("kerning pair contains invalid glyph UID") }
 		i2, found := self.tempGlyphIndexLookup[key[1]]
-		if !found { panic(invalidInternalState) }
+		if !found { return nil, errors.New("kerning pair contains invalid glyph UID") }
 		self.tempSortingBuffer = append(self.tempSortingBuffer, uint64(uint32(i1) << 16 | uint32(i2)))
 	}
 	slices.Sort(self.tempSortingBuffer)
@@ -636,9 +636,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	self.tempSortingBuffer = self.tempSortingBuffer[ : 0]
 	for key, _ := range self.vertKerningPairs {
 		i1, found := self.tempGlyphIndexLookup[key[0]]
-		if !found { panic(invalidInternalState) }
+		if !found { return nil, errors.New("kerning pair contains invalid glyph UID") }
 		i2, found := self.tempGlyphIndexLookup[key[1]]
-		if !found { panic(invalidInternalState) }
+		if !found { return nil, errors.New("kerning pair contains invalid glyph UID") }
 		self.tempSortingBuffer = append(self.tempSortingBuffer, uint64(uint32(i1) << 16 | uint32(i2)))
 	}
 	slices.Sort(self.tempSortingBuffer)
-- 
2.43.0


From 607e88d8bc9b921642b8592a528479153001310c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:35 +0000
Subject: [PATCH 33/66] fix: Build added a dye to the builder

---
 builder/font_builder.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 01c97ed..02d8740 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -237,29 +237,29 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	data = append(data, self.vertLineGap)
 
 	// --- colors ---
-	numColorSections := len(self.dyes) + len(self.palettes)
+	dyes := self.dyes
+	numColorSections := len(dyes) + len(self.palettes)
 	if numColorSections > 255 { panic(invalidInternalState) }
 	if numColorSections == 0 { // add main dye if nothing else exists
-		err := self.AddDye("main", 255)
-		if err != nil { return nil, err }
+		dyes = []dyeSection{ dyeSection{ name: "main", alphas: []uint8{255} } }
 	}
 	
 	// - dyes -
 	font.OffsetToDyes = uint32(len(data))
-	data = append(data, uint8(len(self.dyes))) // NumDyes
+	data = append(data, uint8(len(dyes))) // NumDyes
 	var clrIndex int
-	for i, _ := range self.dyes { // DyeEndIndices
-		clrIndex += len(self.dyes[i].alphas)
+	for i, _ := range dyes { // DyeEndIndices
+		clrIndex += len(dyes[i].alphas)
 		if clrIndex > 255 { panic(invalidInternalState) }
 		data = append(data, uint8(clrIndex))
 	}
-	for i, _ := range self.dyes { data = append(data, self.dyes[i].alphas...) } // DyeAlphas
+	for i, _ := range dyes { data = append(data, dyes[i].alphas...) } // DyeAlphas
 	var clrSectionNameOffset uint16
-	for i, _ := range self.dyes { // DyeNameEndOffsets
-		clrSectionNameOffset += uint16(len(self.dyes[i].name))
+	for i, _ := range dyes { // DyeNameEndOffsets
+		clrSectionNameOffset += uint16(len(dyes[i].name))
 		data = internal.AppendUint16LE(data, clrSectionNameOffset)
 	}
-	for i, _ := range self.dyes { data = append(data, self.dyes[i].name...) } // DyeNames
+	for i, _ := range dyes { data = append(data, dyes[i].name...) } // DyeNames
 
 	// - palettes -
 	font.OffsetToPalettes = uint32(len(data))
-- 
2.43.0


From 19703ab864aeb230cdaebceb97942597b71bdb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:36 +0000
Subject: [PATCH 34/66] fix: dyes and palettes without names or colors were
 accepted

---
 builder/font_builder_color.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder/font_builder_color.go b/builder/font_builder_color.go
index 93abafd..511e57c 100644
--- a/builder/font_builder_color.go
+++ b/builder/font_builder_color.go
@@ -34,6 +34,8 @@ func (self *Font) AddDye(name string, alphas ...uint8) error {
 	// ensure no name collisions
 	err := self.checkColorSectionNameCollision(name)
 	if err != nil { return err }
+	if name == "" || len(name) > 255 { return errors.New("dye name must take between 1 and 255 bytes") }
+	if len(alphas) == 0 { return errors.New("dye must have at least one alpha") }
 	count := self.getColorIndexCount()
 	if count + len(alphas) > 255 {
 		return errors.New("font colors can't exceed 255 indices")
@@ -83,6 +85,8 @@ func (self *Font) AddPalette(name string, colors ...color.RGBA) error {
 	// ensure no name collisions
 	err := self.checkColorSectionNameCollision(name)
 	if err != nil { return err }
+	if name == "" || len(name) > 255 { return errors.New("palette name must take between 1 and 255 bytes") }
+	if len(colors) == 0 { return errors.New("palette must have at least one color") }
 	count := self.getColorIndexCount()
 	if count + len(colors) > 255 {
 		return errors.New("font colors can't exceed 255 indices")
-- 
2.43.0


From 8039261a8f143e67aa6f59580442c63f17202921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:37 +0000
Subject: [PATCH 35/66] fix: EachDyeAlpha and EachPaletteColor always failed,
 and the latter used dye sizes for palettes

---
 builder/font_builder_color.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_color.go b/builder/font_builder_color.go
index 511e57c..23e030a 100644
--- a/builder/font_builder_color.go
+++ b/builder/font_builder_color.go
@@ -23,6 +23,7 @@ func (self *Font) EachDyeAlpha(name string, fn func(alpha, index uint8)) error {
 			for index, alpha := range self.dyes[index].alphas {
 				fn(alpha, uint8(clrIndex - index)) // TODO: this might be an inverse order...
 			}
+			return nil
 		} else {
 			clrIndex -= len(self.dyes[index].alphas)
 		}
@@ -74,8 +75,9 @@ func (self *Font) EachPaletteColor(name string, fn func(rgba color.RGBA, index u
 			for index, clr := range self.palettes[index].colors {
 				fn(clr, uint8(clrIndex - index)) // TODO: this might be an inverse order...
 			}
+			return nil
 		} else {
-			clrIndex -= len(self.dyes[index].alphas)
+			clrIndex -= len(self.palettes[index].colors)
 		}
 	}
 	return errors.New("palette section not found")
-- 
2.43.0


From 2e31db97a0b70c69cd6f5b4c00f31d79077a42cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:07 +0000
Subject: [PATCH 36/66] fix: removing elements from rewrite sets didn't remove
 anything

---
 builder/font_builder_rewrite_sets.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index d8cd9e8..cfb2ae7 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -110,7 +110,7 @@ func (self *Font) RemoveGlyphSetRange(setUID, rangeStartGlyphUID, rangeEndGlyphU
 		}
 	}
 	if rangeIndex == -1 { return false }
-	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex)
+	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex + 1)
 	self.rewriteGlyphSets[setUID] = set
 	return true
 }
@@ -150,7 +150,7 @@ func (self *Font) RemoveGlyphSetListGlyph(setUID, glyphUID uint64) bool {
 		}
 	}
 	if listIndex == -1 { return false }
-	set.list = slices.Delete(set.list, listIndex, listIndex)
+	set.list = slices.Delete(set.list, listIndex, listIndex + 1)
 	self.rewriteGlyphSets[setUID] = set
 	return true
 }
@@ -220,7 +220,7 @@ func (self *Font) RemoveRuneSetRange(setUID uint64, rangeStart, rangeEnd rune) b
 		}
 	}
 	if rangeIndex == -1 { return false }
-	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex)
+	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex + 1)
 	self.rewriteRuneSets[setUID] = set
 	return true
 }
@@ -257,7 +257,7 @@ func (self *Font) RemoveRuneSetListRune(setUID uint64, codePoint rune) bool {
 		}
 	}
 	if listIndex == -1 { return false }
-	set.list = slices.Delete(set.list, listIndex, listIndex)
+	set.list = slices.Delete(set.list, listIndex, listIndex + 1)
 	self.rewriteRuneSets[setUID] = set
 	return true
 }
-- 
2.43.0


From 5ec695958381f030a2da1ebe25827d9fc72a8ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:08 +0000
Subject: [PATCH 37/66] fix: Build panicked after removing a glyph set

---
 builder/font_builder_rewrite_sets.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index cfb2ae7..9a8615d 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -78,6 +78,8 @@ func (self *Font) RemoveGlyphSet(setUID uint64) bool {
 	_, found := self.rewriteGlyphSets[setUID]
 	if !found { return false }
 	delete(self.rewriteGlyphSets, setUID)
+	orderIndex := slices.Index(self.glyphSetsOrder, setUID)
+	self.glyphSetsOrder = slices.Delete(self.glyphSetsOrder, orderIndex, orderIndex + 1)
 	return true
 }
 
-- 
2.43.0


From 3e45f875188f7e015fceb14d767979472bfae830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:09 +0000
Subject: [PATCH 38/66] fix: Build panicked with rewrite sets of exactly 255
 elements

---
 builder/font_builder_rewrite_sets.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index 9a8615d..26017b3 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -21,8 +21,8 @@ func (self *reGlyphSet) GetSize() uint32 {
 }
 
 func (self *reGlyphSet) AppendTo(data []byte, glyphLookup map[uint64]uint16) ([]byte, error) {
-	if len(self.ranges) >= 255 { panic(invalidInternalState) }
-	if len(self.list) >= 255 { panic(invalidInternalState) }
+	if len(self.ranges) > 255 { panic(invalidInternalState) }
+	if len(self.list) > 255 { panic(invalidInternalState) }
 
 	// ranges
 	data = append(data, uint8(len(self.ranges)))
-- 
2.43.0


From b7122f7140dec6344c71821c83be215bc637955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:11 +0000
Subject: [PATCH 39/66] fix: CreateRuneSet panicked, and rune sets couldn't be
 built

---
 builder/font_builder.go              | 24 ++++++++++++++++---
 builder/font_builder_rewrite_sets.go | 35 +++++++++++++++++++++++++++-
 2 files changed, 55 insertions(+), 4 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 02d8740..83e7d9d 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -514,10 +514,28 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	// rewrite sets
 	font.OffsetToRewriteUtf8Sets = uint32(len(data))
 	var runeSetsMap = make(map[uint64]uint8)
-	data = append(data, 0) // NumUtf8Sets
-	// ... (TODO)
+	if len(self.rewriteRuneSets) > 255 { panic(invalidInternalState) }
+	if len(self.rewriteRuneSets) != len(self.runeSetsOrder) { panic(invalidInternalState) }
+	data = append(data, uint8(len(self.rewriteRuneSets))) // NumUtf8Sets
 	if len(self.rewriteRuneSets) > 0 {
-		panic("rune sets encoding unimplemented")
+		// UTF8SetEndOffsets
+		var offset uint32
+		for index, setUID := range self.runeSetsOrder {
+			runeSetsMap[setUID] = uint8(index)
+			set, found := self.rewriteRuneSets[setUID]
+			if !found { panic(invalidInternalState) }
+			offset += set.GetSize()
+			if offset > 65535 {
+				return nil, errors.New("rewrite utf8 sets contain too much data (can't exceed 65535 bytes)")
+			}
+			data = internal.AppendUint16LE(data, uint16(offset))
+		}
+
+		// UTF8Sets
+		for _, setUID := range self.runeSetsOrder {
+			set := self.rewriteRuneSets[setUID]
+			data = set.AppendTo(data)
+		}
 	}
 	
 	if len(self.rewriteGlyphSets) > 255 { panic(invalidInternalState) }
diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index 26017b3..4453703 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -173,6 +173,30 @@ type reRuneSet struct {
 	list []rune
 }
 
+func (self *reRuneSet) GetSize() uint32 {
+	return uint32(2 + len(self.ranges)*5 + (len(self.list) << 2))
+}
+
+func (self *reRuneSet) AppendTo(data []byte) []byte {
+	if len(self.ranges) > 255 { panic(invalidInternalState) }
+	if len(self.list) > 255 { panic(invalidInternalState) }
+
+	// ranges
+	data = append(data, uint8(len(self.ranges)))
+	for _, runeRange := range self.ranges {
+		data = internal.AppendUint32LE(data, uint32(runeRange.First))
+		data = append(data, uint8(runeRange.Last - runeRange.First))
+	}
+
+	// list
+	data = append(data, uint8(len(self.list)))
+	for _, codePoint := range self.list {
+		data = internal.AppendUint32LE(data, uint32(codePoint))
+	}
+
+	return data
+}
+
 func (self *Font) CreateRuneSet() (uint64, error) {
 	if len(self.rewriteRuneSets) >= 255 {
 		return 0, errors.New("font can't contain more than 255 rune sets")
@@ -180,11 +204,13 @@ func (self *Font) CreateRuneSet() (uint64, error) {
 	
 	uid, err := internal.CryptoRandUint64()
 	if err != nil { return 0, err } // don't think this can ever happen
-	_, found := self.rewriteGlyphSets[uid]
+	_, found := self.rewriteRuneSets[uid]
 	if found {
 		return 0, errors.New("failed to generate unique rune set UID")
 	}
+	if self.rewriteRuneSets == nil { self.rewriteRuneSets = make(map[uint64]reRuneSet) }
 	self.rewriteRuneSets[uid] = reRuneSet{}
+	self.runeSetsOrder = append(self.runeSetsOrder, uid)
 	return uid, nil
 }
 
@@ -192,6 +218,8 @@ func (self *Font) RemoveRuneSet(setUID uint64) bool {
 	_, found := self.rewriteRuneSets[setUID]
 	if !found { return false }
 	delete(self.rewriteRuneSets, setUID)
+	orderIndex := slices.Index(self.runeSetsOrder, setUID)
+	self.runeSetsOrder = slices.Delete(self.runeSetsOrder, orderIndex, orderIndex + 1)
 	return true
 }
 
@@ -201,6 +229,10 @@ func (self *Font) AddRuneSetRange(setUID uint64, rangeStart, rangeEnd rune) erro
 	if rangeStart > rangeEnd {
 		return errors.New("invalid rune range (start > end)")
 	}
+	if int64(rangeEnd) - int64(rangeStart) > 255 {
+		return errors.New("rune range can't exceed length 255")
+	}
+	if len(set.ranges) >= 255 { return errors.New("rune set can't contain more than 255 ranges") }
 	for _, runeRange := range set.ranges {
 		if runeRange.First == rangeStart && runeRange.Last == rangeEnd {
 			return errors.New("rune range already included")
@@ -238,6 +270,7 @@ func (self *Font) EachRuneSetRange(setUID uint64, each func(start, end rune)) {
 func (self *Font) AddRuneSetListRune(setUID uint64, codePoint rune) error {
 	set, found := self.rewriteRuneSets[setUID]
 	if !found { return errors.New("invalid rune set UID") }
+	if len(set.list) >= 255 { return errors.New("rune set can't contain more than 255 runes") }
 	for _, listGlyphUID := range set.list {
 		if listGlyphUID == codePoint {
 			return errors.New("rune already included")
-- 
2.43.0


From f719e9fa884434fb7240323f14f5603fb1ac8fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:12 +0000
Subject: [PATCH 40/66] fix: glyph rewrite rules with empty bodies or outputs
 longer than the body were accepted

---
 builder/font_builder_rewrite_rules.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index 3ec9672..eff2f9f 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -232,7 +232,8 @@ func (self *Font) AddUtf8RewriteRule(headLen, bodyLen, tailLen uint8, input []an
 // Ids can be for glyphs or glyph sets, we assume they won't collide.
 func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []uint64, out ...uint64) error {
 	// validate input sizes
-	if bodyLen == 0 { errors.New("rewrite rule exceeds input body must have len >= 1") }
+	if bodyLen == 0 { return errors.New("rewrite rule input body must have len >= 1") }
+	if len(out) > int(bodyLen) { return errors.New("rewrite rule output can't be longer than the input body") }
 	headBodyLen := headLen + bodyLen
 	if headBodyLen < bodyLen || headBodyLen + tailLen < tailLen {
 		return errors.New("rewrite rule exceeds 255 input elements")
-- 
2.43.0


From 9f3dd58b4e21ad96ab997550e8f778bc13b46b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:13 +0000
Subject: [PATCH 41/66] fix: rewrite rules aliased the slices given by the
 caller

---
 builder/font_builder_rewrite_rules.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index eff2f9f..b28d1af 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -1,6 +1,7 @@
 package builder
 
 import "errors"
+import "slices"
 
 import "github.com/tinne26/ggfnt/internal"
 
@@ -216,7 +217,7 @@ func (self *Font) AddSimpleUtf8RewriteRule(replacement rune, sequence ...rune) e
 	if len(sequence) == 0 { return errors.New("rewrite rule sequence can't be empty") }
 	if len(sequence) > 255 { return errors.New("rewrite rule sequence can't exceed 255 runes") }
 	
-	rule := utf8RewriteRule{ condition: 255, bodyLen: uint8(len(sequence)), inRunes: sequence, output: []rune{replacement} }
+	rule := utf8RewriteRule{ condition: 255, bodyLen: uint8(len(sequence)), inRunes: slices.Clone(sequence), output: []rune{replacement} }
 	for i := 0; i < len(sequence); i++ {
 		rule.inElemsAreGroups.Push(false)
 	}
@@ -274,7 +275,7 @@ func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []u
 	rule.tailLen = tailLen
 	rule.inGlyphs = inGlyphs
 	rule.inGroups = inGroups
-	rule.output = out
+	rule.output = slices.Clone(out)
 	self.glyphRules = append(self.glyphRules, rule)
 	return nil
 }
-- 
2.43.0


From 8521d3f9a8cc83cae03a43b9252b120553b9f096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:23 +0000
Subject: [PATCH 42/66] fix: rule scanners crash on or accept truncated and
 malformed rules

---
 internal/rerules/glyphrule/rule_scanner.go | 25 ++++++++++++++--------
 internal/rerules/utf8rule/misc.go          |  4 +++-
 internal/rerules/utf8rule/rule_scanner.go  | 23 +++++++++++++-------
 3 files changed, 34 insertions(+), 18 deletions(-)

diff --git a/internal/rerules/glyphrule/rule_scanner.go b/internal/rerules/glyphrule/rule_scanner.go
index bb6446e..dcf7094 100644
--- a/internal/rerules/glyphrule/rule_scanner.go
+++ b/internal/rerules/glyphrule/rule_scanner.go
@@ -45,6 +45,9 @@ func (self *RuleScanner) Start(rule ggfnt.GlyphRewriteRule) error {
 	
 	// skip to body if head is empty
 	if self.rule.Data[1] == 0 {
+		if int(self.dataIndex) >= len(rule.Data) || rule.Data[self.dataIndex] != 0 {
+			return rerules.ErrInvalidReRule
+		}
 		self.dataIndex += 1
 		self.block = RuleBody
 		self.remainingBlockElements = self.rule.Data[2]
@@ -54,9 +57,7 @@ func (self *RuleScanner) Start(rule ggfnt.GlyphRewriteRule) error {
 	}
 
 	// parse head or body fragment control
-	self.parseFragmentControl()
-
-	return nil
+	return self.parseFragmentControl()
 }
 
 func (self *RuleScanner) Condition() uint8 { return self.rule.Condition() }
@@ -139,6 +140,9 @@ func (self *RuleScanner) advanceControl() error {
 }
 
 func (self *RuleScanner) parseFragmentControl() error {
+	if int(self.dataIndex) >= len(self.rule.Data) {
+		return rerules.ErrInvalidReRule
+	}
 	ctrl := self.rule.Data[self.dataIndex]
 	self.dataIndex += 1
 	self.remainingSets   = (ctrl & 0b1111_0000) >> 4
@@ -150,7 +154,14 @@ func (self *RuleScanner) parseFragmentControl() error {
 		if self.accumulatedBlockSets + self.accumulatedBlockGlyphs != self.rule.Data[1 + int(self.block)] {
 			return rerules.ErrInvalidReRule
 		}
+		// the data must end after an empty tail
+		if self.block == RuleTail && int(self.dataIndex) != len(self.rule.Data) {
+			return rerules.ErrInvalidReRule
+		}
 	} else {
+		if int(self.dataIndex) >= len(self.rule.Data) { // missing elements
+			return rerules.ErrInvalidReRule
+		}
 		if self.accumulatedBlockSets + self.accumulatedBlockGlyphs < self.accumulatedBlockSets {
 			return rerules.ErrInvalidReRule // ^ overflow
 		}
@@ -173,12 +184,8 @@ func (self *RuleScanner) checkTermination() error {
 	}
 
 	switch self.block {
-	case RuleHead:
-		return rerules.ErrInvalidReRule 
-	case RuleBody:
-		if self.rule.Data[3] != 0 {
-			return rerules.ErrInvalidReRule
-		}
+	case RuleHead, RuleBody: // missing body or tail fragment control
+		return rerules.ErrInvalidReRule
 	case RuleTail:
 		if self.rule.Data[3] != self.accumulatedBlockSets + self.accumulatedBlockGlyphs {
 			return rerules.ErrInvalidReRule
diff --git a/internal/rerules/utf8rule/misc.go b/internal/rerules/utf8rule/misc.go
index a2c96e2..74b840b 100644
--- a/internal/rerules/utf8rule/misc.go
+++ b/internal/rerules/utf8rule/misc.go
@@ -1,5 +1,7 @@
 package utf8rule
 
+import "unicode/utf8"
+
 import "github.com/tinne26/ggfnt/internal/rerules"
 
 type RuneRange struct {
@@ -38,5 +40,5 @@ const BrokenCode = "broken code"
 const PreViolation = "precondition violation"
 
 func IsValidRuleCodePoint(codePoint rune) bool {
-	return codePoint != RuneError
+	return utf8.ValidRune(codePoint) && codePoint != RuneError
 }
diff --git a/internal/rerules/utf8rule/rule_scanner.go b/internal/rerules/utf8rule/rule_scanner.go
index 9ee5366..337d8a5 100644
--- a/internal/rerules/utf8rule/rule_scanner.go
+++ b/internal/rerules/utf8rule/rule_scanner.go
@@ -44,6 +44,9 @@ func (self *RuleScanner) Start(rule ggfnt.Utf8RewriteRule) error {
 	
 	// skip to body if head is empty
 	if self.rule.Data[1] == 0 {
+		if int(self.dataIndex) >= len(rule.Data) || rule.Data[self.dataIndex] != 0 {
+			return rerules.InvalidUtf8RuleErr(rule)
+		}
 		self.dataIndex += 1
 		self.block = RuleBody
 		self.remainingBlockElements = self.rule.Data[2]
@@ -53,9 +56,7 @@ func (self *RuleScanner) Start(rule ggfnt.Utf8RewriteRule) error {
 	}
 
 	// parse head or body fragment control
-	self.parseFragmentControl()
-
-	return nil
+	return self.parseFragmentControl()
 }
 
 func (self *RuleScanner) Condition() uint8 { return self.rule.Condition() }
@@ -137,6 +138,9 @@ func (self *RuleScanner) advanceControl() error {
 }
 
 func (self *RuleScanner) parseFragmentControl() error {
+	if int(self.dataIndex) >= len(self.rule.Data) {
+		return rerules.InvalidUtf8RuleErr(self.rule)
+	}
 	ctrl := self.rule.Data[self.dataIndex]
 	self.dataIndex += 1
 	self.remainingSets = (ctrl & 0b1111_0000) >> 4
@@ -148,7 +152,14 @@ func (self *RuleScanner) parseFragmentControl() error {
 		if self.accumulatedBlockSets + self.accumulatedBlockCodePoints != self.rule.Data[1 + int(self.block)] {
 			return rerules.InvalidUtf8RuleErr(self.rule)
 		}
+		// the data must end after an empty tail
+		if self.block == RuleTail && int(self.dataIndex) != len(self.rule.Data) {
+			return rerules.InvalidUtf8RuleErr(self.rule)
+		}
 	} else {
+		if int(self.dataIndex) >= len(self.rule.Data) { // missing elements
+			return rerules.InvalidUtf8RuleErr(self.rule)
+		}
 		if self.accumulatedBlockSets + self.accumulatedBlockCodePoints < self.accumulatedBlockSets {
 			return rerules.InvalidUtf8RuleErr(self.rule) // ^ overflow
 		}
@@ -171,12 +182,8 @@ func (self *RuleScanner) checkTermination() error {
 	}
 
 	switch self.block {
-	case RuleHead:
+	case RuleHead, RuleBody: // missing body or tail fragment control
 		return rerules.InvalidUtf8RuleErr(self.rule)
-	case RuleBody:
-		if self.rule.Data[3] != 0 {
-			return rerules.InvalidUtf8RuleErr(self.rule)
-		}
 	case RuleTail:
 		if self.rule.Data[3] != self.accumulatedBlockSets + self.accumulatedBlockCodePoints {
 			return rerules.InvalidUtf8RuleErr(self.rule)
-- 
2.43.0


From f0741bedf6f79300ab77745b992f6427bebb5bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:47 +0000
Subject: [PATCH 43/66] fix: rule scanners accepted the reserved set index 255

---
 internal/rerules/glyphrule/rule_scanner.go | 3 +++
 internal/rerules/utf8rule/rule_scanner.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/rerules/glyphrule/rule_scanner.go b/internal/rerules/glyphrule/rule_scanner.go
index dcf7094..6edbdac 100644
--- a/internal/rerules/glyphrule/rule_scanner.go
+++ b/internal/rerules/glyphrule/rule_scanner.go
@@ -82,6 +82,9 @@ func (self *RuleScanner) Next() (ggfnt.GlyphIndex, GlyphSetIndex, error) {
 		}
 
 		set := GlyphSetIndex(self.rule.Data[self.dataIndex])
+		if set == GlyphSetNone {
+			return GlyphNone, GlyphSetNone, rerules.ErrInvalidReRule
+		}
 		self.dataIndex += 1
 		if int(self.dataIndex) >= len(self.rule.Data) {
 			err := self.checkTermination()
diff --git a/internal/rerules/utf8rule/rule_scanner.go b/internal/rerules/utf8rule/rule_scanner.go
index 337d8a5..9950e69 100644
--- a/internal/rerules/utf8rule/rule_scanner.go
+++ b/internal/rerules/utf8rule/rule_scanner.go
@@ -80,6 +80,9 @@ func (self *RuleScanner) Next() (rune, Utf8SetIndex, error) {
 		}
 
 		set := Utf8SetIndex(self.rule.Data[self.dataIndex])
+		if set == Utf8SetNone {
+			return RuneError, Utf8SetNone, rerules.InvalidUtf8RuleErr(self.rule)
+		}
 		self.dataIndex += 1
 		if int(self.dataIndex) >= len(self.rule.Data) {
 			err := self.checkTermination()
-- 
2.43.0


From cfac7bbe24c53b52a6b63bcd8d21d17899f00302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:48 +0000
Subject: [PATCH 44/66] fix: decision tree states break when ranges overlap
 previous transitions

---
 internal/rerules/glyphrule/decision_tree_state.go | 11 +++++++----
 internal/rerules/utf8rule/decision_tree_state.go  | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index cff16de..8122e33 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -64,6 +64,7 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 		case noSplitPre:
 			err := self.insertNewTransition(splitRange, ruleMatchIndex, stateLinker, 0)
 			if err != nil { return err }
+			if splitRange.Last == glyphRange.Last { return nil }
 			glyphRange.First = splitRange.Last + 1
 			// in theory we wouldn't want to change the candidateTrans, but we added
 			// a new transition that will be placed exactly on candidateTrans, so
@@ -77,6 +78,7 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 		case splitFirstLast:
 			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, 0)
 			if err != nil { return err }
+			if splitRange.Last == glyphRange.Last { return nil }
 			glyphRange.First = splitRange.Last + 1
 			candidateTrans += 1
 		case splitMidMid:
@@ -85,12 +87,13 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
 			// ^ we terminate here
 		case splitMidLast:
-			err := self.splitTransitionBy(candidateTrans, splitRange)
+			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
 			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
 			if err != nil { return err }
+			if splitRange.Last == glyphRange.Last { return nil }
 			glyphRange.First = splitRange.Last + 1
-			candidateTrans += 1
+			candidateTrans += 2
 		case noSplitPost:
 			// we have to see if the next transition applies
 			candidateTrans += 1
@@ -124,7 +127,7 @@ func (self *State) confrontRanges(candidateRange, incomingRange ggfnt.GlyphRange
 		if incomingRange.Last < candidateRange.First {
 			return noSplitPre, incomingRange
 		} else {
-			return noSplitPre, ggfnt.GlyphRange{ incomingRange.First, candidateRange.Last - 1 }
+			return noSplitPre, ggfnt.GlyphRange{ incomingRange.First, candidateRange.First - 1 }
 		}
 	} else if incomingRange.First == candidateRange.First { // splitFirst*
 		if incomingRange.Last >= candidateRange.Last {
@@ -185,7 +188,7 @@ func (self *State) splitTransitionAt(transIndex TransitionIndex, lastGlyphOfPre
 	vacatedRange := self.Transitions[transIndex].ShortenRTL(lastGlyphOfPre)
 	newTransIndex, err := self.unsafeInsertUninitializedTransition(vacatedRange)
 	if err != nil { return err }
-	if transIndex != newTransIndex + 1 { panic(BrokenCode) }
+	if newTransIndex != transIndex + 1 { panic(BrokenCode) }
 
 	// initialize new transition to match the previously existing one
 	self.Transitions[newTransIndex].NextState = self.Transitions[transIndex].NextState
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index 04df50d..53f32c1 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -63,6 +63,7 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 		case noSplitPre:
 			err := self.insertNewTransition(splitRange, ruleMatchIndex, stateLinker, 0)
 			if err != nil { return err }
+			if splitRange.Last == runeRange.Last { return nil }
 			runeRange.First = splitRange.Last + 1
 			// in theory we wouldn't want to change the candidateTrans, but we added
 			// a new transition that will be placed exactly on candidateTrans, so
@@ -76,6 +77,7 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 		case splitFirstLast:
 			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, 0)
 			if err != nil { return err }
+			if splitRange.Last == runeRange.Last { return nil }
 			runeRange.First = splitRange.Last + 1
 			candidateTrans += 1
 		case splitMidMid:
@@ -84,12 +86,13 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
 			// ^ we terminate here
 		case splitMidLast:
-			err := self.splitTransitionBy(candidateTrans, splitRange)
+			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
 			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
 			if err != nil { return err }
+			if splitRange.Last == runeRange.Last { return nil }
 			runeRange.First = splitRange.Last + 1
-			candidateTrans += 1
+			candidateTrans += 2
 		case noSplitPost:
 			// we have to see if the next transition applies
 			candidateTrans += 1
@@ -123,7 +126,7 @@ func (self *State) confrontRanges(candidateRange, incomingRange RuneRange) (spli
 		if incomingRange.Last < candidateRange.First {
 			return noSplitPre, incomingRange
 		} else {
-			return noSplitPre, RuneRange{ incomingRange.First, candidateRange.Last - 1 }
+			return noSplitPre, RuneRange{ incomingRange.First, candidateRange.First - 1 }
 		}
 	} else if incomingRange.First == candidateRange.First { // splitFirst*
 		if incomingRange.Last >= candidateRange.Last {
@@ -184,7 +187,7 @@ func (self *State) splitTransitionAt(transIndex TransitionIndex, lastRuneOfPre r
 	vacatedRange := self.Transitions[transIndex].ShortenRTL(lastRuneOfPre)
 	newTransIndex, err := self.unsafeInsertUninitializedTransition(vacatedRange)
 	if err != nil { return err }
-	if transIndex != newTransIndex + 1 { panic(BrokenCode) }
+	if newTransIndex != transIndex + 1 { panic(BrokenCode) }
 
 	// initialize new transition to match the previously existing one
 	self.Transitions[newTransIndex].NextState = self.Transitions[transIndex].NextState
-- 
2.43.0


From f41e6fa604b860501f4d16c22374bdf25e2973ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:31 +0000
Subject: [PATCH 45/66] fix: decision tree compiler lost transitions when the
 states slice was reallocated

---
 .../rerules/glyphrule/decision_tree_compiler.go    | 14 +++++++++++---
 .../rerules/utf8rule/decision_tree_compiler.go     | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 90cf1cd..3ebb442 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -113,19 +113,19 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 				if glyphSet != GlyphSetNone { panic(BrokenCode) } // discretionary safety assertion
 	
 				glyphRange := ggfnt.GlyphRange{ First: glyphIndex, Last: glyphIndex }
-				err := self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
+				err := self.appendRange(state, glyphRange, matchRule)
 				if err != nil { return err }
 			} else { // glyph set case
 				if glyphSet == GlyphSetNone { panic(BrokenCode) } // discretionary safety assertion
 	
 				set := self.run.Font.Rewrites().GetGlyphSet(uint8(glyphSet))
 				err := set.EachRange(func(glyphRange ggfnt.GlyphRange) error {
-					return self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
+					return self.appendRange(state, glyphRange, matchRule)
 				})
 				if err != nil { return err }
 				err = set.EachListGlyph(func(glyphIndex ggfnt.GlyphIndex) error {
 					glyphRange := ggfnt.GlyphRange{ First: glyphIndex, Last: glyphIndex }
-					return self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
+					return self.appendRange(state, glyphRange, matchRule)
 				})
 				if err != nil { return err }
 			}
@@ -144,6 +144,14 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 
 // ---- unexported ----
 
+func (self *DecisionTreeCompiler) appendRange(stateIndex StateIndex, glyphRange ggfnt.GlyphRange, matchRule RuleIndex) error {
+	// operate on a copy, as linking can reallocate the states slice
+	state := self.states[stateIndex]
+	err := state.AppendRange(glyphRange, matchRule, self.stateLinker)
+	self.states[stateIndex] = state
+	return err
+}
+
 func (self *DecisionTreeCompiler) freeUnusedStates() {
 	if self.run.Depth == 0 { return } // no state at depth 0
 
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 680b900..146ca12 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -113,7 +113,7 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 				if utf8Set != Utf8SetNone { panic(BrokenCode) } // discretionary safety assertion
 	
 				runeRange := RuneRange{ First: codePoint, Last: codePoint }
-				err := self.states[state].AppendRange(runeRange, matchRule, self.stateLinker)
+				err := self.appendRange(state, runeRange, matchRule)
 				if err != nil { return err }
 			} else { // utf8 set case
 				if utf8Set == Utf8SetNone { panic(BrokenCode) } // discretionary safety assertion
@@ -121,12 +121,12 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 				set := self.run.Font.Rewrites().GetUtf8Set(uint8(utf8Set))
 				err := set.EachRange(func(firstRune, lastRune rune) error {
 					runeRange := RuneRange{ First: firstRune, Last: lastRune }
-					return self.states[state].AppendRange(runeRange, matchRule, self.stateLinker)
+					return self.appendRange(state, runeRange, matchRule)
 				})
 				if err != nil { return err }
 				err = set.EachListRune(func(codePoint rune) error {
 					runeRange := RuneRange{ First: codePoint, Last: codePoint }
-					return self.states[state].AppendRange(runeRange, matchRule, self.stateLinker)
+					return self.appendRange(state, runeRange, matchRule)
 				})
 				if err != nil { return err }
 			}
@@ -145,6 +145,14 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 
 // ---- unexported ----
 
+func (self *DecisionTreeCompiler) appendRange(stateIndex StateIndex, runeRange RuneRange, matchRule RuleIndex) error {
+	// operate on a copy, as linking can reallocate the states slice
+	state := self.states[stateIndex]
+	err := state.AppendRange(runeRange, matchRule, self.stateLinker)
+	self.states[stateIndex] = state
+	return err
+}
+
 func (self *DecisionTreeCompiler) freeUnusedStates() {
 	if self.run.Depth == 0 { return } // no state at depth 0
 
-- 
2.43.0


From 42a4fd5152af7f46f8f39e4e606c69f4e53895f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:32 +0000
Subject: [PATCH 46/66] fix: decision tree compiler recycled states that were
 still in use

---
 .../glyphrule/decision_tree_compiler.go       | 91 ++++++++++---------
 .../utf8rule/decision_tree_compiler.go        | 91 ++++++++++---------
 2 files changed, 92 insertions(+), 90 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 3ebb442..8d04c35 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -153,31 +153,55 @@ func (self *DecisionTreeCompiler) appendRange(stateIndex StateIndex, glyphRange
 }
 
 func (self *DecisionTreeCompiler) freeUnusedStates() {
-	if self.run.Depth == 0 { return } // no state at depth 0
+	self.recountStateUses()
 
 	// the main idea of this little snippet is to iterate the states
-	// at the target depth to see if they can be removed, and while
-	// we are at it, we also keep "compacting" the slice by moving
-	// remaining state indices to fill any gaps created
-	var freedCount int = 0
-	depth := self.run.Depth - 1 // TrackerStatesByDepth begins at depth 1
-	
-	for i, state := range self.run.TrackerStatesByDepth[depth] {
-		if state == 0 { panic(BrokenCode) }
-		if self.run.TrackerStateUses[state - 1] == 0 {
-			// note: could optimize if it's the last state, but whatever
-			// notice: we don't reset state info here yet, it will have
-			//         to be reset later when we need it again
-			self.run.TrackerFreedStates = append(self.run.TrackerFreedStates, state)
-			freedCount += 1
-		} else if freedCount > 0 {
-			self.run.TrackerStatesByDepth[depth][i - freedCount] = state
+	// at each depth to see if they can be removed, and while we are
+	// at it, we also keep "compacting" the slice by moving remaining
+	// state indices to fill any gaps created
+	for depth, states := range self.run.TrackerStatesByDepth {
+		var freedCount int = 0
+		for i, state := range states {
+			if state == 0 { panic(BrokenCode) }
+			if self.run.TrackerStateUses[state - 1] == 0 {
+				// note: could optimize if it's the last state, but whatever
+				// notice: we don't reset state info here yet, it will have
+				//         to be reset later when we need it again
+				self.run.TrackerFreedStates = append(self.run.TrackerFreedStates, state)
+				freedCount += 1
+			} else {
+				states[i - freedCount] = state
+			}
 		}
+		self.run.TrackerStatesByDepth[depth] = states[ : len(states) - freedCount]
 	}
-	
-	if freedCount > 0 {
-		numStates := len(self.run.TrackerStatesByDepth[depth])
-		self.run.TrackerStatesByDepth[depth] = self.run.TrackerStatesByDepth[depth][ : numStates - freedCount]
+}
+
+// States can be copied and shared, so instead of trying to keep the counts up
+// to date while linking, we count again from the root. Transitions from unused
+// states don't count. (NOTE: this is not particularly efficient)
+func (self *DecisionTreeCompiler) recountStateUses() {
+	self.run.TrackerStateUses = internal.SetSliceSize(self.run.TrackerStateUses, len(self.states) - 1)
+	for i, _ := range self.run.TrackerStateUses {
+		self.run.TrackerStateUses[i] = 0
+	}
+
+	self.countUsesFrom(0)
+	for _, states := range self.run.TrackerStatesByDepth {
+		for _, state := range states {
+			if self.run.TrackerStateUses[state - 1] > 0 {
+				self.countUsesFrom(state)
+			}
+		}
+	}
+}
+
+func (self *DecisionTreeCompiler) countUsesFrom(stateIndex StateIndex) {
+	for _, transition := range self.states[stateIndex].Transitions {
+		if transition.NextState == StateNone { continue }
+		if self.run.TrackerStateUses[transition.NextState - 1] < 255 {
+			self.run.TrackerStateUses[transition.NextState - 1] += 1
+		}
 	}
 }
 
@@ -201,14 +225,8 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 		self.registerNewStateAtDepth(resultStateIndex)
 	}
 	
-	// update tracking and helper variables
+	// register the state for the next rule element
 	self.appendStateToNextRound(resultStateIndex)
-	self.adjustStateUseCount(resultStateIndex, 1)
-	if referenceStateIndex == StateNone && numSplits != 0 { panic(PreViolation) }
-	if referenceStateIndex != StateNone {
-		if numSplits < 0 || numSplits > 2 { panic(PreViolation) }
-		self.adjustStateUseCount(referenceStateIndex, numSplits - 1)
-	}
 
 	// return resulting state
 	return resultStateIndex, nil
@@ -290,23 +308,6 @@ func (self *DecisionTreeCompiler) appendStateToNextRound(stateIndex StateIndex)
 	self.run.ToStates = internal.BasicOrderedNonRepeatInsert(self.run.ToStates, stateIndex)
 }
 
-// The state can't be 0, as 0 is the root, which is treated separately.
-func (self *DecisionTreeCompiler) adjustStateUseCount(stateIndex StateIndex, delta int) {
-	if stateIndex == 0 { panic(PreViolation) }
-	stateIndex -= 1
-
-	var result int
-	if len(self.run.TrackerStateUses) <= int(stateIndex) {
-		if len(self.run.TrackerStateUses) != int(stateIndex) { panic(BrokenCode) }
-		self.run.TrackerStateUses = internal.GrowSliceByOne(self.run.TrackerStateUses)
-		result = delta
-	} else {
-		result = int(self.run.TrackerStateUses[stateIndex]) + delta
-	}
-	if result > 255 || result < 0 { panic(BrokenCode) }
-	self.run.TrackerStateUses[stateIndex] = uint8(result)
-}
-
 // The states can't be 0, as 0 is the root, which is treated separately.
 func (self *DecisionTreeCompiler) initializeStateRulesWithRef(stateIndex StateIndex, referenceIndex StateIndex) {
 	if stateIndex == 0 || referenceIndex == 0 { panic(PreViolation) }
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 146ca12..bedf249 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -154,31 +154,55 @@ func (self *DecisionTreeCompiler) appendRange(stateIndex StateIndex, runeRange R
 }
 
 func (self *DecisionTreeCompiler) freeUnusedStates() {
-	if self.run.Depth == 0 { return } // no state at depth 0
+	self.recountStateUses()
 
 	// the main idea of this little snippet is to iterate the states
-	// at the target depth to see if they can be removed, and while
-	// we are at it, we also keep "compacting" the slice by moving
-	// remaining state indices to fill any gaps created
-	var freedCount int = 0
-	depth := self.run.Depth - 1 // TrackerStatesByDepth begins at depth 1
-	
-	for i, state := range self.run.TrackerStatesByDepth[depth] {
-		if state == 0 { panic(BrokenCode) }
-		if self.run.TrackerStateUses[state - 1] == 0 {
-			// note: could optimize if it's the last state, but whatever
-			// notice: we don't reset state info here yet, it will have
-			//         to be reset later when we need it again
-			self.run.TrackerFreedStates = append(self.run.TrackerFreedStates, state)
-			freedCount += 1
-		} else if freedCount > 0 {
-			self.run.TrackerStatesByDepth[depth][i - freedCount] = state
+	// at each depth to see if they can be removed, and while we are
+	// at it, we also keep "compacting" the slice by moving remaining
+	// state indices to fill any gaps created
+	for depth, states := range self.run.TrackerStatesByDepth {
+		var freedCount int = 0
+		for i, state := range states {
+			if state == 0 { panic(BrokenCode) }
+			if self.run.TrackerStateUses[state - 1] == 0 {
+				// note: could optimize if it's the last state, but whatever
+				// notice: we don't reset state info here yet, it will have
+				//         to be reset later when we need it again
+				self.run.TrackerFreedStates = append(self.run.TrackerFreedStates, state)
+				freedCount += 1
+			} else {
+				states[i - freedCount] = state
+			}
 		}
+		self.run.TrackerStatesByDepth[depth] = states[ : len(states) - freedCount]
 	}
-	
-	if freedCount > 0 {
-		numStates := len(self.run.TrackerStatesByDepth[depth])
-		self.run.TrackerStatesByDepth[depth] = self.run.TrackerStatesByDepth[depth][ : numStates - freedCount]
+}
+
+// States can be copied and shared, so instead of trying to keep the counts up
+// to date while linking, we count again from the root. Transitions from unused
+// states don't count. (NOTE: this is not particularly efficient)
+func (self *DecisionTreeCompiler) recountStateUses() {
+	self.run.TrackerStateUses = internal.SetSliceSize(self.run.TrackerStateUses, len(self.states) - 1)
+	for i, _ := range self.run.TrackerStateUses {
+		self.run.TrackerStateUses[i] = 0
+	}
+
+	self.countUsesFrom(0)
+	for _, states := range self.run.TrackerStatesByDepth {
+		for _, state := range states {
+			if self.run.TrackerStateUses[state - 1] > 0 {
+				self.countUsesFrom(state)
+			}
+		}
+	}
+}
+
+func (self *DecisionTreeCompiler) countUsesFrom(stateIndex StateIndex) {
+	for _, transition := range self.states[stateIndex].Transitions {
+		if transition.NextState == StateNone { continue }
+		if self.run.TrackerStateUses[transition.NextState - 1] < 255 {
+			self.run.TrackerStateUses[transition.NextState - 1] += 1
+		}
 	}
 }
 
@@ -202,14 +226,8 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 		self.registerNewStateAtDepth(resultStateIndex)
 	}
 	
-	// update tracking and helper variables
+	// register the state for the next rule element
 	self.appendStateToNextRound(resultStateIndex)
-	self.adjustStateUseCount(resultStateIndex, 1)
-	if referenceStateIndex == StateNone && numSplits != 0 { panic(PreViolation) }
-	if referenceStateIndex != StateNone {
-		if numSplits < 0 || numSplits > 2 { panic(PreViolation) }
-		self.adjustStateUseCount(referenceStateIndex, numSplits - 1)
-	}
 
 	// return resulting state
 	return resultStateIndex, nil
@@ -291,23 +309,6 @@ func (self *DecisionTreeCompiler) appendStateToNextRound(stateIndex StateIndex)
 	self.run.ToStates = internal.BasicOrderedNonRepeatInsert(self.run.ToStates, stateIndex)
 }
 
-// The state can't be 0, as 0 is the root, which is treated separately.
-func (self *DecisionTreeCompiler) adjustStateUseCount(stateIndex StateIndex, delta int) {
-	if stateIndex == 0 { panic(PreViolation) }
-	stateIndex -= 1
-
-	var result int
-	if len(self.run.TrackerStateUses) <= int(stateIndex) {
-		if len(self.run.TrackerStateUses) != int(stateIndex) { panic(BrokenCode) }
-		self.run.TrackerStateUses = internal.GrowSliceByOne(self.run.TrackerStateUses)
-		result = delta
-	} else {
-		result = int(self.run.TrackerStateUses[stateIndex]) + delta
-	}
-	if result > 255 || result < 0 { panic(BrokenCode) }
-	self.run.TrackerStateUses[stateIndex] = uint8(result)
-}
-
 // The states can't be 0, as 0 is the root, which is treated separately.
 func (self *DecisionTreeCompiler) initializeStateRulesWithRef(stateIndex StateIndex, referenceIndex StateIndex) {
 	if stateIndex == 0 || referenceIndex == 0 { panic(PreViolation) }
-- 
2.43.0


From d7c2450c9c78ae237d115ff5989b03344a23a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:32 +0000
Subject: [PATCH 47/66] fix: decision tree compiler panics on sets with
 overlapping elements

---
 internal/rerules/glyphrule/decision_tree_compiler.go | 12 ++++++++++--
 internal/rerules/utf8rule/decision_tree_compiler.go  | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 8d04c35..518653a 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -207,6 +207,14 @@ func (self *DecisionTreeCompiler) countUsesFrom(stateIndex StateIndex) {
 
 type StateLinkerFn = func(StateIndex, int) (StateIndex, error)
 func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, numSplits int) (StateIndex, error) {
+	// if a previous range or element of the same set already
+	// led here, the rule is already included in the state
+	if referenceStateIndex != StateNone {
+		rules := self.run.TrackerStateRules[referenceStateIndex - 1]
+		_, found := internal.BadBinarySearch(rules, self.run.RuleIndex)
+		if found { return referenceStateIndex, nil }
+	}
+
 	// check if the desired state already exists
 	resultStateIndex := self.fetchReusableState(referenceStateIndex)
 	
@@ -252,9 +260,9 @@ func (self *DecisionTreeCompiler) fetchReusableState(referenceStateIndex StateIn
 	if referenceStateIndex != StateNone {
 		rules = self.run.TrackerStateRules[referenceStateIndex - 1]
 		for i, _ := range rules {
-			if rules[i] < self.run.RuleIndex { comparisonRulePosition += 1 }
 			if rules[i] == self.run.RuleIndex { panic(BrokenCode) }
-			break
+			if rules[i] > self.run.RuleIndex { break }
+			comparisonRulePosition += 1
 		}
 	}
 
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index bedf249..5940acc 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -208,6 +208,14 @@ func (self *DecisionTreeCompiler) countUsesFrom(stateIndex StateIndex) {
 
 type StateLinkerFn = func(StateIndex, int) (StateIndex, error)
 func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, numSplits int) (StateIndex, error) {
+	// if a previous range or element of the same set already
+	// led here, the rule is already included in the state
+	if referenceStateIndex != StateNone {
+		rules := self.run.TrackerStateRules[referenceStateIndex - 1]
+		_, found := internal.BadBinarySearch(rules, self.run.RuleIndex)
+		if found { return referenceStateIndex, nil }
+	}
+
 	// check if the desired state already exists
 	resultStateIndex := self.fetchReusableState(referenceStateIndex)
 	
@@ -253,9 +261,9 @@ func (self *DecisionTreeCompiler) fetchReusableState(referenceStateIndex StateIn
 	if referenceStateIndex != StateNone {
 		rules = self.run.TrackerStateRules[referenceStateIndex - 1]
 		for i, _ := range rules {
-			if rules[i] < self.run.RuleIndex { comparisonRulePosition += 1 }
 			if rules[i] == self.run.RuleIndex { panic(BrokenCode) }
-			break
+			if rules[i] > self.run.RuleIndex { break }
+			comparisonRulePosition += 1
 		}
 	}
 
-- 
2.43.0


From f5b6f10c7d1795f63e93c7619363fe203e737107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:05 +0000
Subject: [PATCH 48/66] fix: rewrite testers unusable after a recompilation
 error

---
 internal/rerules/glyphrule/tester.go | 7 +++++--
 internal/rerules/utf8rule/tester.go  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 9550603..1c75293 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -98,11 +98,11 @@ type GlyphConfirmationFunc = func(ggfnt.GlyphIndex)
 func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) error {
 	if self.isOperating { panic(PreViolation) }
 	
-	self.isOperating = true
 	if self.needsRecompile {
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.isOperating = true
 	self.treesRestartDetection()
 
 	return nil
@@ -208,7 +208,10 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 				// (NOTE: this is not particularly efficient)
 				if self.rules[ruleIndex].Condition() == tree.Condition {
 					err := compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
-					if err != nil { return err }
+					if err != nil {
+						compiler.Finish() // leave the compiler ready for other uses
+						return err
+					}
 					numRulesFound += 1
 				}
 			}
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 22f72bb..281459d 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -99,11 +99,11 @@ type Utf8ConfirmationFunc = func(rune)
 func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) error {
 	if self.isOperating { panic(PreViolation) }
 	
-	self.isOperating = true
 	if self.needsRecompile {
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.isOperating = true
 	self.treesRestartDetection()
 
 	return nil
@@ -208,7 +208,10 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 				// (NOTE: this is not particularly efficient)
 				if self.rules[ruleIndex].Condition() == tree.Condition {
 					err := compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
-					if err != nil { return err }
+					if err != nil {
+						compiler.Finish() // leave the compiler ready for other uses
+						return err
+					}
 					numRulesFound += 1
 				}
 			}
-- 
2.43.0


From 586176d1f40ae6a3734663296292c61fc00ecdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:06 +0000
Subject: [PATCH 49/66] fix: rewrite testers without rules panic on feed

---
 internal/rerules/glyphrule/tester.go | 1 +
 internal/rerules/utf8rule/tester.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 1c75293..c3da256 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -102,6 +102,7 @@ func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.Setting
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.accumulator.SetMinCapacity(1) // there could be no rules
 	self.isOperating = true
 	self.treesRestartDetection()
 
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 281459d..83f575d 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -103,6 +103,7 @@ func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.Setting
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.accumulator.SetMinCapacity(1) // there could be no rules
 	self.isOperating = true
 	self.treesRestartDetection()
 
-- 
2.43.0


From 5a4251947df506037eb09e97ac5a65248f472288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:07 +0000
Subject: [PATCH 50/66] fix: rewrite testers kept the tail of the last match
 after breaks

---
 internal/rerules/glyphrule/tester.go | 5 +++++
 internal/rerules/utf8rule/tester.go  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index c3da256..19b1fad 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -145,6 +145,11 @@ func (self *Tester) Break(fn GlyphConfirmationFunc) {
 		}
 		for self.rerunDetection(fn) {}
 	}
+
+	// any remaining tail has already been reported
+	self.accumulator.Clear()
+	self.unflushedTail = 0
+	self.treesRestartDetection()
 }
 
 func (self *Tester) FinishSequence(fn GlyphConfirmationFunc) {
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 83f575d..30acbdd 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -145,6 +145,11 @@ func (self *Tester) Break(fn Utf8ConfirmationFunc) {
 		}
 		for self.rerunDetection(fn) {}
 	}
+
+	// any remaining tail has already been reported
+	self.accumulator.Clear()
+	self.unflushedTail = 0
+	self.treesRestartDetection()
 }
 
 func (self *Tester) FinishSequence(fn Utf8ConfirmationFunc) {
-- 
2.43.0


From 24e421b09176824279112d4ca3e4eb724b58154c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:08 +0000
Subject: [PATCH 51/66] fix: rewrite testers applied rules with unsatisfied
 conditions

---
 internal/rerules/glyphrule/tester.go | 4 ++++
 internal/rerules/utf8rule/tester.go  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 19b1fad..4a559ef 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -283,6 +283,7 @@ func (self *Tester) treesFeedUnrestrictedGlyph(glyphIndex ggfnt.GlyphIndex) bool
 func (self *Tester) treesGetBestMatch() RuleIndex {
 	var bestMatch RuleIndex = RuleNone
 	for i, _ := range self.trees {
+		if !self.trees[i].ConditionCachedValue { continue }
 		match := self.trees[i].BestMatch()
 		if match < bestMatch { bestMatch = match }
 	}
@@ -338,6 +339,9 @@ func (self *Tester) treesRestartDetection() {
 			self.trees[i].BreakSequence()
 		}
 		self.trees[i].BeginSequence()
+		if !self.trees[i].ConditionCachedValue { // can't match
+			self.trees[i].BreakSequence()
+		}
 	}
 }
 
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 30acbdd..10def73 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -283,6 +283,7 @@ func (self *Tester) treesFeedUnrestrictedRune(codePoint rune) bool {
 func (self *Tester) treesGetBestMatch() RuleIndex {
 	var bestMatch RuleIndex = RuleNone
 	for i, _ := range self.trees {
+		if !self.trees[i].ConditionCachedValue { continue }
 		match := self.trees[i].BestMatch()
 		if match < bestMatch { bestMatch = match }
 	}
@@ -338,6 +339,9 @@ func (self *Tester) treesRestartDetection() {
 			self.trees[i].BreakSequence()
 		}
 		self.trees[i].BeginSequence()
+		if !self.trees[i].ConditionCachedValue { // can't match
+			self.trees[i].BreakSequence()
+		}
 	}
 }
 
-- 
2.43.0


From 1692729228228ba76e59f619939c0940a2a92455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:08 +0000
Subject: [PATCH 52/66] fix: rewrite testers preferred shorter matches
 depending on rule conditions

---
 internal/rerules/glyphrule/tester.go | 12 +++++++++++-
 internal/rerules/utf8rule/tester.go  | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 4a559ef..7bb3ef1 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -285,7 +285,17 @@ func (self *Tester) treesGetBestMatch() RuleIndex {
 	for i, _ := range self.trees {
 		if !self.trees[i].ConditionCachedValue { continue }
 		match := self.trees[i].BestMatch()
-		if match < bestMatch { bestMatch = match }
+		if match == RuleNone { continue }
+		if bestMatch == RuleNone {
+			bestMatch = match
+			continue
+		}
+
+		// prefer the longest match, and the first rule added on ties
+		matchLen, bestLen := self.rules[match].InLen(), self.rules[bestMatch].InLen()
+		if matchLen > bestLen || (matchLen == bestLen && match < bestMatch) {
+			bestMatch = match
+		}
 	}
 	return bestMatch
 }
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 10def73..a9595d3 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -285,7 +285,17 @@ func (self *Tester) treesGetBestMatch() RuleIndex {
 	for i, _ := range self.trees {
 		if !self.trees[i].ConditionCachedValue { continue }
 		match := self.trees[i].BestMatch()
-		if match < bestMatch { bestMatch = match }
+		if match == RuleNone { continue }
+		if bestMatch == RuleNone {
+			bestMatch = match
+			continue
+		}
+
+		// prefer the longest match, and the first rule added on ties
+		matchLen, bestLen := self.rules[match].InLen(), self.rules[bestMatch].InLen()
+		if matchLen > bestLen || (matchLen == bestLen && match < bestMatch) {
+			bestMatch = match
+		}
 	}
 	return bestMatch
 }
-- 
2.43.0


From aab5fa2be2d5ad60687616c2e16a010f5828b8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:09 +0000
Subject: [PATCH 53/66] fix: rewrite testers mishandle heads overlapping
 previously matched tails

---
 .../rerules/glyphrule/decision_tree_state.go    |  2 +-
 internal/rerules/glyphrule/tester.go            | 17 ++++++++++++++++-
 .../rerules/utf8rule/decision_tree_state.go     |  2 +-
 internal/rerules/utf8rule/tester.go             | 17 ++++++++++++++++-
 4 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index 8122e33..fac5f1e 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -46,7 +46,7 @@ func (self *State) Trigger(glyphIndex ggfnt.GlyphIndex) (StateIndex, RuleIndex)
 }
 
 func (self *State) SatisfiesMinRequiredHead(minRequiredHeadLen uint8) bool {
-	return minRequiredHeadLen >= self.MinHeadLen && minRequiredHeadLen <= self.MaxHeadLen
+	return minRequiredHeadLen <= self.MaxHeadLen
 }
 
 // The new range might overlap previous empty areas or previously existing ranges,
diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 7bb3ef1..8cb8d27 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -260,7 +260,9 @@ func (self *Tester) treesFeedHeadGlyph(glyphIndex ggfnt.GlyphIndex) bool {
 	minRequiredHeadLen := self.unflushedTail
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		preMatch := self.trees[i].BestMatch()
 		self.trees[i].FeedHead(glyphIndex, minRequiredHeadLen)
+		self.discardShortHeadMatch(i, preMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -272,7 +274,9 @@ func (self *Tester) treesFeedUnrestrictedGlyph(glyphIndex ggfnt.GlyphIndex) bool
 	var running bool = false
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		preMatch := self.trees[i].BestMatch()
 		self.trees[i].Feed(glyphIndex)
+		self.discardShortHeadMatch(i, preMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -280,6 +284,16 @@ func (self *Tester) treesFeedUnrestrictedGlyph(glyphIndex ggfnt.GlyphIndex) bool
 	return running
 }
 
+// Already reported tails can only be part of the head of a match. If the last
+// match detected in the tree would rewrite them, we go back to the previous one.
+func (self *Tester) discardShortHeadMatch(treeIndex int, preMatch RuleIndex) {
+	match := self.trees[treeIndex].BestMatch()
+	if match == preMatch { return }
+	if self.rules[match].HeadLen() < self.unflushedTail {
+		self.trees[treeIndex].bestMatch = preMatch
+	}
+}
+
 func (self *Tester) treesGetBestMatch() RuleIndex {
 	var bestMatch RuleIndex = RuleNone
 	for i, _ := range self.trees {
@@ -306,7 +320,8 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn GlyphConfirmationFunc)
 	// report head
 	headLen := self.rules[matchRuleIndex].HeadLen()
 	for i := uint8(0); i < headLen; i++ {
-		if self.unflushedTail > 0 {
+		if self.unflushedTail > 0 { // already reported
+			_ = self.accumulator.PopHead()
 			self.unflushedTail -= 1
 		} else {
 			fn(self.accumulator.PopHead())
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index 53f32c1..2a9e591 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -45,7 +45,7 @@ func (self *State) Trigger(codePoint rune) (StateIndex, RuleIndex) {
 }
 
 func (self *State) SatisfiesMinRequiredHead(minRequiredHeadLen uint8) bool {
-	return minRequiredHeadLen >= self.MinHeadLen && minRequiredHeadLen <= self.MaxHeadLen
+	return minRequiredHeadLen <= self.MaxHeadLen
 }
 
 // The new range might overlap previous empty areas or previously existing ranges,
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index a9595d3..9941639 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -260,7 +260,9 @@ func (self *Tester) treesFeedHeadRune(codePoint rune) bool {
 	minRequiredHeadLen := self.unflushedTail
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		preMatch := self.trees[i].BestMatch()
 		self.trees[i].FeedHead(codePoint, minRequiredHeadLen)
+		self.discardShortHeadMatch(i, preMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -272,7 +274,9 @@ func (self *Tester) treesFeedUnrestrictedRune(codePoint rune) bool {
 	var running bool = false
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		preMatch := self.trees[i].BestMatch()
 		self.trees[i].Feed(codePoint)
+		self.discardShortHeadMatch(i, preMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -280,6 +284,16 @@ func (self *Tester) treesFeedUnrestrictedRune(codePoint rune) bool {
 	return running
 }
 
+// Already reported tails can only be part of the head of a match. If the last
+// match detected in the tree would rewrite them, we go back to the previous one.
+func (self *Tester) discardShortHeadMatch(treeIndex int, preMatch RuleIndex) {
+	match := self.trees[treeIndex].BestMatch()
+	if match == preMatch { return }
+	if self.rules[match].HeadLen() < self.unflushedTail {
+		self.trees[treeIndex].bestMatch = preMatch
+	}
+}
+
 func (self *Tester) treesGetBestMatch() RuleIndex {
 	var bestMatch RuleIndex = RuleNone
 	for i, _ := range self.trees {
@@ -306,7 +320,8 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn Utf8ConfirmationFunc) {
 	// report head
 	headLen := self.rules[matchRuleIndex].HeadLen()
 	for i := uint8(0); i < headLen; i++ {
-		if self.unflushedTail > 0 {
+		if self.unflushedTail > 0 { // already reported
+			_ = self.accumulator.PopHead()
 			self.unflushedTail -= 1
 		} else {
 			fn(self.accumulator.PopHead())
-- 
2.43.0


From 22fc7901edea6b0331c349b7f07839e7d69a7972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:22 +0000
Subject: [PATCH 54/66] fix: rewrite testers report wrong tails after detection
 reruns

---
 internal/rerules/glyphrule/tester.go | 1 +
 internal/rerules/utf8rule/tester.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 8cb8d27..42eb51b 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -344,6 +344,7 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn GlyphConfirmationFunc)
 	// report tail
 	self.unflushedTail = uint8(self.rules[matchRuleIndex].TailLen())
 	if self.unflushedTail > 0 { // we can't pop the tail, but we still gotta report it
+		self.accumulator.DiscardPeeks()
 		fn(self.accumulator.Head())
 		for i := uint8(1); i < self.unflushedTail; i++ {
 			glyphIndex, found := self.accumulator.PeekAhead()
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 9941639..a96f061 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -344,6 +344,7 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn Utf8ConfirmationFunc) {
 	// report tail
 	self.unflushedTail = uint8(self.rules[matchRuleIndex].TailLen())
 	if self.unflushedTail > 0 { // we can't pop the tail, but we still gotta report it
+		self.accumulator.DiscardPeeks()
 		fn(self.accumulator.Head())
 		for i := uint8(1); i < self.unflushedTail; i++ {
 			codePoint, found := self.accumulator.PeekAhead()
-- 
2.43.0


From 3de2abc60c8228a2910bdd028d5757a2c9ee2ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:33 +0000
Subject: [PATCH 55/66] fix: builder accepted rewrite rules with empty outputs,
 which can't be used

---
 builder/font_builder_rewrite_rules.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index b28d1af..ca12739 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -234,6 +234,7 @@ func (self *Font) AddUtf8RewriteRule(headLen, bodyLen, tailLen uint8, input []an
 func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []uint64, out ...uint64) error {
 	// validate input sizes
 	if bodyLen == 0 { return errors.New("rewrite rule input body must have len >= 1") }
+	if len(out) == 0 { return errors.New("rewrite rule output must have len >= 1") }
 	if len(out) > int(bodyLen) { return errors.New("rewrite rule output can't be longer than the input body") }
 	headBodyLen := headLen + bodyLen
 	if headBodyLen < bodyLen || headBodyLen + tailLen < tailLen {
-- 
2.43.0


From 475f617c8c5dab1acad923ddf7c21372313a46c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:35 +0000
Subject: [PATCH 56/66] fix: ParseFromFS leaked the file on early errors

---
 parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 4efd9fe..27b1f96 100644
--- a/parse.go
+++ b/parse.go
@@ -16,8 +16,12 @@ func ParseFromFS(filesys fs.FS, filename string) (*Font, error) {
 	file, err := filesys.Open(filename)
 	if err != nil { return nil, err }
 	stat, err := file.Stat()
-	if err != nil { return nil, err }
+	if err != nil {
+		_ = file.Close()
+		return nil, err
+	}
 	if stat.Size() > MaxFontDataSize {
+		_ = file.Close()
 		return nil, errors.New("file size exceeds limit")
 	}
 	
-- 
2.43.0


From 9b69f0d168a44c30bb2b496eed29885d03e5389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:32 +0000
Subject: [PATCH 57/66] fix: encoder panicked on masks with runs of more than
 256 pixels

---
 mask/encoder.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/mask/encoder.go b/mask/encoder.go
index 751d6fd..48cb9a9 100644
--- a/mask/encoder.go
+++ b/mask/encoder.go
@@ -17,6 +17,9 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 	// empty mask case
 	if len(self.fragments) == 0 { return data }
 
+	// draw operations can't exceed 256 pixels on either axis
+	self.splitLargeFragments()
+
 	// sort by palette index and (y, x)
 	sort.Slice(self.fragments, func(i, j int) bool {
 		if self.fragments[i].value > self.fragments[j].value { return true  } // higher value goes first
@@ -193,6 +196,33 @@ func (self *Encoder) computeMaskFragments(mask *image.Alpha) {
 	}
 }
 
+func (self *Encoder) splitLargeFragments() {
+	const MaxDraw = 256
+	for i := 0; i < len(self.fragments); i++ { // notice: fragments grow while splitting
+		fragment := &self.fragments[i]
+		rest := *fragment
+		xDraw, yDraw := fragment.GetDrawSizes()
+		if xDraw > MaxDraw {
+			fragment.maxX = fragment.minX + MaxDraw - 1
+			rest.minX = fragment.minX + MaxDraw
+			switch fragment.diagonalType {
+			case diagDesc:
+				fragment.maxY = fragment.minY + MaxDraw - 1
+				rest.minY = fragment.minY + MaxDraw
+			case diagAsc:
+				fragment.minY = fragment.maxY + 1 - MaxDraw
+				rest.maxY = fragment.maxY - MaxDraw
+			}
+			self.fragments = append(self.fragments, rest)
+			i -= 1 // may still need vertical splits
+		} else if yDraw > MaxDraw {
+			fragment.maxY = fragment.minY + MaxDraw - 1
+			rest.minY = fragment.minY + MaxDraw
+			self.fragments = append(self.fragments, rest)
+		}
+	}
+}
+
 // Precondition: value must be in [-128, 128] and can't be zero.
 func encodeNzint8(value int) uint8 {
 	if value > 0 { return uint8(int8(value - 1)) }
-- 
2.43.0


From 1cd1b1ed8f8c248de15ece409d5ae3cf5fd9c1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:33 +0000
Subject: [PATCH 58/66] fix: Build panicked with more code point mappings than
 allowed

---
 builder/font_builder_mapping.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index 203f72c..380e000 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -137,6 +137,8 @@ func (self *Font) Map(codePoint rune, glyphUID uint64) error {
 	}
 
 	// actual addition
+	err := self.checkMappingLimit(codePoint)
+	if err != nil { return err }
 	self.runeMapping[codePoint] = mappingEntry{
 		SwitchType: 255,
 		SwitchCases: []mappingGroup{ mappingGroup{ Glyphs: []uint64{glyphUID} } },
@@ -161,6 +163,8 @@ func (self *Font) MapGroup(codePoint rune, animFlags ggfnt.AnimationFlags, glyph
 	if err != nil { return err }
 
 	// actual addition
+	err = self.checkMappingLimit(codePoint)
+	if err != nil { return err }
 	self.runeMapping[codePoint] = mappingEntry{
 		SwitchType: 254,
 		SwitchCases: []mappingGroup{ mappingGroup{ Glyphs: slices.Clone(glyphUIDs), AnimationFlags: animFlags } },
@@ -178,6 +182,14 @@ func (self *Font) validateMapGlyphs(codePoint rune, glyphUIDs ...uint64) error {
 	return nil
 }
 
+func (self *Font) checkMappingLimit(codePoint rune) error {
+	_, alreadyMapped := self.runeMapping[codePoint]
+	if !alreadyMapped && len(self.runeMapping) >= ggfnt.MaxGlyphs {
+		return errors.New("reached font mapping count limit")
+	}
+	return nil
+}
+
 func (self *Font) MapWithSwitchSingles(codePoint rune, mapSwitch uint8, glyphUIDs ...uint64) error {
 	// basic validation
 	if codePoint < ' ' {
@@ -196,6 +208,8 @@ func (self *Font) MapWithSwitchSingles(codePoint rune, mapSwitch uint8, glyphUID
 	
 	err := self.validateMapGlyphs(codePoint, glyphUIDs...)
 	if err != nil { return err }
+	err = self.checkMappingLimit(codePoint)
+	if err != nil { return err }
 
 	cases := make([]mappingGroup, 0, len(glyphUIDs))
 	for _, glyphUID := range glyphUIDs {
@@ -242,6 +256,8 @@ func (self *Font) MapWithSwitch(codePoint rune, mapSwitch uint8, glyphUIDs [][]u
 	if animFlagIndex != len(animFlags) {
 		return errors.New("number of animation flags doesn't match number of multi-glyph groups")
 	}
+	err := self.checkMappingLimit(codePoint)
+	if err != nil { return err }
 	
 	cases := make([]mappingGroup, 0, len(glyphUIDs))
 	for i, group := range glyphUIDs {
-- 
2.43.0


From e2745b77f2a077dc10f015d13da7dd20b47cfe68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:34 +0000
Subject: [PATCH 59/66] fix: Build panicked with more than 65535 rewrite rules

---
 builder/font_builder_rewrite_rules.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index ca12739..154c9b7 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -216,6 +216,7 @@ func (self *utf8RewriteRule) appendAccumulatedInBlock(data []byte, groups []uint
 func (self *Font) AddSimpleUtf8RewriteRule(replacement rune, sequence ...rune) error {
 	if len(sequence) == 0 { return errors.New("rewrite rule sequence can't be empty") }
 	if len(sequence) > 255 { return errors.New("rewrite rule sequence can't exceed 255 runes") }
+	if len(self.utf8Rules) >= 65535 { return errors.New("font can't contain more than 65535 utf8 rewrite rules") }
 	
 	rule := utf8RewriteRule{ condition: 255, bodyLen: uint8(len(sequence)), inRunes: slices.Clone(sequence), output: []rune{replacement} }
 	for i := 0; i < len(sequence); i++ {
@@ -243,6 +244,7 @@ func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []u
 	if int(headBodyLen + tailLen) != len(input) {
 		return errors.New("rewrite rule input block lengths don't match given input")
 	}
+	if len(self.glyphRules) >= 65535 { return errors.New("font can't contain more than 65535 glyph rewrite rules") }
 	
 	// validate output glyphs
 	for _, glyphUID := range out {
-- 
2.43.0


From 887a3b46e7a086dbbded39feaa64be4b4581ccd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:35 +0000
Subject: [PATCH 60/66] fix: Build corrupted fonts with more than 16MiB of
 glyph masks or mappings

---
 builder/font_builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 83e7d9d..7415f7e 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -349,6 +349,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 
 		// write offset back on the relevant index
 		offset32 = uint32(len(data) - baseGlyphMasksIndex)
+		if offset32 > 16777215 {
+			return nil, errors.New("glyph masks exceed maximum allowed size of 16MiB")
+		}
 		internal.EncodeUint24LE(data[glyphMaskEndOffsetsIndex : glyphMaskEndOffsetsIndex + 3], offset32)
 		glyphMaskEndOffsetsIndex += 3
 	}
@@ -481,6 +484,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 			data, scratchBuffer, err = mapping.AppendTo(data, self.tempGlyphIndexLookup, scratchBuffer)
 			if err != nil { return nil, err }
 			offset += len(data) - preLen
+			if offset > 16777215 {
+				return nil, errors.New("mappings exceed maximum allowed size of 16MiB")
+			}
 
 			// append offset
 			internal.EncodeUint24LE(data[nextMappingEndOffsetIndex : nextMappingEndOffsetIndex + 3], uint32(offset))
-- 
2.43.0


From 37bb3e5488c40e9b726eda207bb95752b74a671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:47 +0000
Subject: [PATCH 61/66] fix: glyphs aliased the mask given by the caller

---
 builder/font_builder_props.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_props.go b/builder/font_builder_props.go
index 8d40fed..2153435 100644
--- a/builder/font_builder_props.go
+++ b/builder/font_builder_props.go
@@ -3,6 +3,7 @@ package builder
 import "fmt"
 import "image"
 import "errors"
+import "slices"
 import "unicode/utf8"
 
 import "github.com/tinne26/ggfnt"
@@ -215,7 +216,7 @@ func (self *Font) AddGlyph(glyphMask *image.Alpha) (uint64, error) {
 					BottomAdvance: self.descent,
 					HorzCenter: uint8(min(255, glyphMask.Bounds().Dx()/2)),
 				},
-				Mask: glyphMask,
+				Mask: cloneMask(glyphMask),
 			}
 			self.glyphOrder = append(self.glyphOrder, glyphUID)
 			return glyphUID, nil
@@ -225,6 +226,12 @@ func (self *Font) AddGlyph(glyphMask *image.Alpha) (uint64, error) {
 	return 0, errors.New("failed to generate unique glyph UID")
 }
 
+func cloneMask(glyphMask *image.Alpha) *image.Alpha {
+	clone := *glyphMask
+	clone.Pix = slices.Clone(glyphMask.Pix)
+	return &clone
+}
+
 func (self *Font) SetGlyphPlacement(glyphUID uint64, placement ggfnt.GlyphPlacement) error {
 	glyphData, found := self.glyphData[glyphUID]
 	if !found { return errors.New("glyph not found") }
-- 
2.43.0


From 9f6f2b6325f56da1da1778199b1380ac59a83d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:27 +0000
Subject: [PATCH 62/66] fix: RasterizeMask returned garbage for glyph indices
 out of range

---
 font.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/font.go b/font.go
index 3a6b6e0..cfdf958 100644
--- a/font.go
+++ b/font.go
@@ -519,6 +519,8 @@ func bytesEqStr(bytes []byte, str string) bool {
 }
 
 func (self *FontGlyphs) RasterizeMask(glyphIndex GlyphIndex) *image.Alpha {
+	if uint16(glyphIndex) >= self.Count() { panic("glyphIndex out of range") } // discretionary assertion
+
 	startOffset, endOffset := self.getGlyphDataOffsets(glyphIndex)
 	if self.hasVertLayout() { startOffset += 4 } else { startOffset += 1 }
 	numGlyphs := uint32(self.Count())
-- 
2.43.0


From 144e0af22ff7a33c5bbf36b422fd29b2320e7ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:10 +0000
Subject: [PATCH 63/66] fix: ParseEditionData failed when the signature came in
 several reads

---
 builder/font_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 7415f7e..10e8fbd 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -719,7 +719,7 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 	parser.FileType = "ggwkfnt"
 
 	// read signature first (this is not gzipped, so it's important)
-	n, err := reader.Read(parser.TempBuff[0 : 6])
+	n, err := io.ReadFull(reader, parser.TempBuff[0 : 6])
 	if err != nil || n != 6 {
 		return parser.NewError("failed to read file signature")
 	}
-- 
2.43.0


From d0820cf2064d377b1b4fdc7dcf651cae8263cd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:10 +0000
Subject: [PATCH 64/66] fix: ParseEditionData read the number of kerning pairs
 with a wrong size

---
 builder/font_builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 10e8fbd..8d4e399 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -768,7 +768,7 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		(&self.kerningClasses[i]).Value = value
 	}
 	
-	numHorzKerningPairsWithClasses, err := parser.ReadUint32()
+	numHorzKerningPairsWithClasses, err := parser.ReadUint24()
 	if err != nil { return err }
 	for i := uint32(0); i < numHorzKerningPairsWithClasses; i++ {
 		firstIndex, err := parser.ReadUint16()
@@ -791,7 +791,7 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		}
 	}
 	
-	numVertKerningPairsWithClasses, err := parser.ReadUint32()
+	numVertKerningPairsWithClasses, err := parser.ReadUint24()
 	if err != nil { return err }
 	for i := uint32(0); i < numVertKerningPairsWithClasses; i++ {
 		firstIndex, err := parser.ReadUint16()
-- 
2.43.0


From c989ee139525d77862fcec99b336e0a9b90f5626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:11 +0000
Subject: [PATCH 65/66] fix: edition data with invalid kerning pairs caused
 panics

---
 builder/font_builder.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 8d4e399..4fa03c3 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -780,6 +780,12 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		if kerningClass == 0 {
 			return parser.NewError("kerning pair class can't be zero")
 		}
+		if kerningClass > numKerningClasses {
+			return parser.NewError("kerning pair class not defined")
+		}
+		if int(firstIndex) >= len(self.glyphOrder) || int(secondIndex) >= len(self.glyphOrder) {
+			return parser.NewError("kerning pair glyph index out of range")
+		}
 		
 		first  := self.glyphOrder[firstIndex]
 		second := self.glyphOrder[secondIndex]
@@ -803,6 +809,12 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		if kerningClass == 0 {
 			return parser.NewError("kerning pair class can't be zero")
 		}
+		if kerningClass > numKerningClasses {
+			return parser.NewError("kerning pair class not defined")
+		}
+		if int(firstIndex) >= len(self.glyphOrder) || int(secondIndex) >= len(self.glyphOrder) {
+			return parser.NewError("kerning pair glyph index out of range")
+		}
 		
 		first  := self.glyphOrder[firstIndex]
 		second := self.glyphOrder[secondIndex]
-- 
2.43.0


From 636ceaef74e0c1d3dcb67548d777cb8daade6166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:12 +0000
Subject: [PATCH 66/66] fix: ClearEditionData left kerning pairs behind

---
 builder/font_builder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 4fa03c3..c749c40 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -858,11 +858,13 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 func (self *Font) ClearEditionData() {
 	self.categories = self.categories[ : 0]
 	self.kerningClasses = self.kerningClasses[ : 0]
-	for _, kerningPair := range self.horzKerningPairs {
+	for key, kerningPair := range self.horzKerningPairs {
 		kerningPair.Class = 0
+		if kerningPair.Value == 0 { delete(self.horzKerningPairs, key) } // only defined through its class
 	}
-	for _, kerningPair := range self.vertKerningPairs {
+	for key, kerningPair := range self.vertKerningPairs {
 		kerningPair.Class = 0
+		if kerningPair.Value == 0 { delete(self.vertKerningPairs, key) }
 	}
 	for i, _ := range self.rewriteConditions {
 		self.rewriteConditions[i].EditorName = ""
-- 
2.43.0

