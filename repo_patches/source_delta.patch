From 196525371447c03fec9bf85e73b7cf81a6195578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:56 +0000
Subject: [PATCH 01/85] fix: Date.IsValid panicked on dates without month

---
 date.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/date.go b/date.go
index 3d631b0..917de33 100644
--- a/date.go
+++ b/date.go
@@ -26,6 +26,7 @@ func (self *Date) IsValid() bool {
 	if self.Month == 0 && self.Day != 0 { return false }
 	if self.Year == 0 && (self.Month != 0 || self.Day != 0) { return false }
 	if self.Month > 12 { return false }
+	if self.Month == 0 { return true } // day is also zero here
 	if self.Day > self.monthDays() { return false }
 	return true
 }
-- 
2.43.0


From 46a43ce9774cc09e55c5b13c447677b26cbadea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:58 +0000
Subject: [PATCH 02/85] fix: header strings were read at wrapped offsets when
 long

---
 font.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/font.go b/font.go
index 75e605f..f5bfa6a 100644
--- a/font.go
+++ b/font.go
@@ -117,20 +117,20 @@ func (self *FontHeader) Name() string {
 	return unsafe.String(&self.Data[29], nameLen)
 }
 func (self *FontHeader) Family() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
+	nameLen   := int(self.Data[28])
+	familyLen := int(self.Data[29 + nameLen])
 	return unsafe.String(&self.Data[30 + nameLen], familyLen)
 }
 func (self *FontHeader) Author() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
-	authorLen := self.Data[30 + nameLen + familyLen]
+	nameLen   := int(self.Data[28])
+	familyLen := int(self.Data[29 + nameLen])
+	authorLen := int(self.Data[30 + nameLen + familyLen])
 	return unsafe.String(&self.Data[31 + nameLen + familyLen], authorLen)
 }
 func (self *FontHeader) About() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
-	authorLen := self.Data[30 + nameLen + familyLen]
+	nameLen   := int(self.Data[28])
+	familyLen := int(self.Data[29 + nameLen])
+	authorLen := int(self.Data[30 + nameLen + familyLen])
 	aboutIndex := 31 + nameLen + familyLen + authorLen
 	aboutLen := internal.DecodeUint16LE(self.Data[aboutIndex : aboutIndex + 2])
 	return unsafe.String(&self.Data[33 + nameLen + familyLen + authorLen], aboutLen)
-- 
2.43.0


From d7fafa433dbe8dce411d5aa6a228eae9b0f427a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:59 +0000
Subject: [PATCH 03/85] fix: glyph names could be missed due to a wrong name
 ordering

---
 font.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/font.go b/font.go
index f5bfa6a..16851ce 100644
--- a/font.go
+++ b/font.go
@@ -496,11 +496,10 @@ func (self *FontGlyphs) getNthGlyphName(nth uint32, numNamedGlyphs uint32) []byt
 
 func bytesSmallerThanStr(bytes []byte, str string) bool {
 	for i := 0; i < len(bytes); i++ {
-		if i >= len(str) { return true }
-		if bytes[i] > str[i] { return false }
+		if i >= len(str) { return false } // str is a prefix of bytes
+		if bytes[i] != str[i] { return bytes[i] < str[i] }
 	}
-	if len(bytes) == len(str) { return false } // equal
-	return true // smaller
+	return len(bytes) < len(str)
 }
 
 func bytesEqStr(bytes []byte, str string) bool {
-- 
2.43.0


From 51dc9b9979943ffbd78ecdeb3acc190afce56c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:12 +0000
Subject: [PATCH 04/85] fix: glyph mapping groups read the wrong list element

---
 font.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/font.go b/font.go
index 16851ce..25f6109 100644
--- a/font.go
+++ b/font.go
@@ -732,7 +732,7 @@ func (self *GlyphMappingGroup) Select(choice uint8) GlyphIndex {
 	if (info & 0b1000_0000) != 0 { // range case
 		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 : ]) + uint16(choice))
 	} else {
-		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 + (uint32(choice) << 2) : ]))
+		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 + (uint32(choice) << 1) : ]))
 	}
 }
 
-- 
2.43.0


From cf088f09a8c1ba298948c9b8270d5043bdbd4799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:13 +0000
Subject: [PATCH 05/85] fix: glyph mapping groups returned a glyph index byte
 as animation flags

---
 font.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/font.go b/font.go
index 25f6109..36424fd 100644
--- a/font.go
+++ b/font.go
@@ -706,7 +706,7 @@ func (self *GlyphMappingGroup) Size() uint8 {
 func (self *GlyphMappingGroup) AnimationFlags() AnimationFlags {
 	if self.directMapping { return 0 }
 	if (0b0111_1111 & self.font.Data[self.offset + 0]) == 0 { return 0 }
-	return AnimationFlags(self.font.Data[self.offset + 2])
+	return AnimationFlags(self.font.Data[self.offset + 1])
 }
 func (self *GlyphMappingGroup) CaseBranch() uint8 {
 	return self.caseBranch
-- 
2.43.0


From 0ea7719df04e2ca3b9e9e673f53771816dffa2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 06/85] fix: switch cases following a range group were looked
 up at wrong offsets

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 36424fd..b39e9ce 100644
--- a/font.go
+++ b/font.go
@@ -834,7 +834,7 @@ func (self *FontMapping) Utf8WithCache(codePoint rune, settingsCache *SettingsCa
 	for targetSwitchCase > 0 {
 		groupInfo := self.Data[offsetToMappingData + int(startOffset)]
 		groupSize := (groupInfo & 0b0111_1111) + 1
-		groupDefinedAsRange := ((groupSize & 0b1000_0000) != 0)
+		groupDefinedAsRange := ((groupInfo & 0b1000_0000) != 0)
 		if groupDefinedAsRange {
 			startOffset += 3 // 1 byte group size, 2 bytes base glyph
 		} else {
@@ -905,7 +905,7 @@ func (self *FontMapping) Utf8(codePoint rune, settings []uint8) (GlyphMappingGro
 	for targetSwitchCase > 0 {
 		groupInfo := self.Data[offsetToMappingData + int(startOffset)]
 		groupSize := (groupInfo & 0b0111_1111) + 1
-		groupDefinedAsRange := ((groupSize & 0b1000_0000) != 0)
+		groupDefinedAsRange := ((groupInfo & 0b1000_0000) != 0)
 		if groupDefinedAsRange {
 			startOffset += 3 // 1 byte group size, 2 bytes base glyph
 		} else {
-- 
2.43.0


From fa11d4da2917460475989976b52646ba7c9abe7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:16 +0000
Subject: [PATCH 07/85] fix: rewrite rules listed only part of their output
 sequence

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index b39e9ce..5178bba 100644
--- a/font.go
+++ b/font.go
@@ -1123,7 +1123,7 @@ func (self *GlyphRewriteRule) InLen() uint8 { return self.Data[1] + self.Data[2]
 func (self *GlyphRewriteRule) OutLen() uint8 { return self.Data[4] } // sequence size
 func (self *GlyphRewriteRule) EachOut(each func(GlyphIndex)) {
 	outSize := int(self.Data[4])
-	for i := 5; i < 5 + outSize; i += 2 {
+	for i := 5; i < 5 + outSize*2; i += 2 {
 		each(GlyphIndex(internal.DecodeUint16LE(self.Data[i : ])))
 	}
 }
@@ -1161,7 +1161,7 @@ func (self *Utf8RewriteRule) InLen() uint8 { return self.Data[1] + self.Data[2]
 func (self *Utf8RewriteRule) OutLen() uint8 { return self.Data[4] } // sequence size
 func (self *Utf8RewriteRule) EachOut(each func(rune)) {
 	outSize := int(self.Data[4])
-	for i := 5; i < 5 + outSize; i += 2 {
+	for i := 5; i < 5 + outSize*4; i += 4 {
 		each(rune(internal.DecodeUint32LE(self.Data[i : ])))
 	}
 }
-- 
2.43.0


From 5787de10f815b30c406cf125a477058ada34cdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:17 +0000
Subject: [PATCH 08/85] fix: utf8 rewrite sets listed wrong range ends

---
 font.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/font.go b/font.go
index 5178bba..5ae102a 100644
--- a/font.go
+++ b/font.go
@@ -1243,7 +1243,7 @@ func (self *Utf8RewriteSet) EachRange(each func(start, end rune) error) error {
 	numRanges := int(self.Data[0])
 	for i := 1; i < numRanges*5; i += 5 {
 		codePoint := rune(internal.DecodeUint32LE(self.Data[i : i + 4]))
-		err := each(codePoint, codePoint + rune(self.Data[i + 3]))
+		err := each(codePoint, codePoint + rune(self.Data[i + 4]))
 		if err != nil { return err }
 	}
 	return nil
-- 
2.43.0


From b3367d031e63b1ebdc31d7499b7b21fef97ac0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:44 +0000
Subject: [PATCH 09/85] fix: rewrite conditions were located at wrong offsets

---
 font.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 5ae102a..8791956 100644
--- a/font.go
+++ b/font.go
@@ -958,9 +958,10 @@ func (self *FontRewrites) EvaluateCondition(conditionKey uint8, settings []uint8
 	if conditionKey >= numConditions { panic("invalid condition key") }
 
 	var startOffset uint16 = 0
-	endOffset := internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + 1 + uint32(conditionKey) : ])
+	endOffsetIndex := self.OffsetToRewriteConditions + 1 + (uint32(conditionKey) << 1)
+	endOffset := internal.DecodeUint16LE(self.Data[endOffsetIndex : ])
 	if conditionKey > 0 {
-		startOffset = internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + uint32(conditionKey) : ])
+		startOffset = internal.DecodeUint16LE(self.Data[endOffsetIndex - 2 : ])
 	}
 	if endOffset <= startOffset { panic(invalidFontData) }
 	endOffset -= 1 // we will evaluate from last to first
-- 
2.43.0


From aa586ff6762326fb40a4c3af0639638b9e8e5dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:45 +0000
Subject: [PATCH 10/85] fix: evaluating rewrite conditions panicked due to an
 off by one end index

---
 font.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/font.go b/font.go
index 8791956..d0758a8 100644
--- a/font.go
+++ b/font.go
@@ -964,14 +964,13 @@ func (self *FontRewrites) EvaluateCondition(conditionKey uint8, settings []uint8
 		startOffset = internal.DecodeUint16LE(self.Data[endOffsetIndex - 2 : ])
 	}
 	if endOffset <= startOffset { panic(invalidFontData) }
-	endOffset -= 1 // we will evaluate from last to first
 
 	offsetToRewriteConditionsData := self.OffsetToRewriteConditions + 1 + (uint32(numConditions) << 1)
 	maxDataIndex := offsetToRewriteConditionsData + uint32(endOffset)
-	if int(maxDataIndex) >= len(self.Data) { panic(invalidFontData) } // discretionary assertion
+	if int(maxDataIndex) > len(self.Data) { panic(invalidFontData) } // discretionary assertion
 	dataIndex := offsetToRewriteConditionsData + uint32(startOffset)
 	endDataIndex, satisfied := self.evalConditionSubexpr(dataIndex, maxDataIndex, settings)
-	if endDataIndex != maxDataIndex { panic(brokenCode) }
+	if endDataIndex != maxDataIndex { panic(invalidFontData) }
 	return satisfied
 
 	// - 0b000X_XXXX: `OR` condition group. The X's indicate the number of terms in the expression (can't be < 2).
@@ -980,7 +979,7 @@ func (self *FontRewrites) EvaluateCondition(conditionKey uint8, settings []uint8
 
 // Returns the new dataIndex and the result.
 func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, settings []uint8) (uint32, bool) {
-	if dataIndex > maxDataIndex { panic(invalidFontData) }
+	if dataIndex >= maxDataIndex { panic(invalidFontData) }
 
 	ctrl := self.Data[dataIndex]
 	switch ctrl & 0b1110_0000 {
@@ -1062,7 +1061,7 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 }
 
 func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, numSettings uint8) uint32 {
-	if dataIndex > maxDataIndex { panic(invalidFontData) }
+	if dataIndex >= maxDataIndex { panic(invalidFontData) }
 
 	ctrl := self.Data[dataIndex]
 	switch ctrl & 0b1110_0000 {
-- 
2.43.0


From d55b5336fcfb974f4610092a7932fb68ad925d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:46 +0000
Subject: [PATCH 11/85] fix: AND and OR rewrite conditions skipped one term too
 many

---
 font.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/font.go b/font.go
index d0758a8..cfb2c57 100644
--- a/font.go
+++ b/font.go
@@ -992,9 +992,8 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
 			if satisfied {
 				numSettings := uint8(min(len(settings), 255))
-				for i < numTerms { // could be optimized in some cases, but it's a pain
+				for i += 1; i < numTerms; i += 1 { // could be optimized in some cases, but it's a pain
 					dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
-					i += 1
 				}
 				return dataIndex, true
 			}
@@ -1009,9 +1008,8 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
 			if !satisfied {
 				numSettings := uint8(min(len(settings), 255))
-				for i < numTerms { // could be optimized in some cases, but it's a pain
+				for i += 1; i < numTerms; i += 1 { // could be optimized in some cases, but it's a pain
 					dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
-					i += 1
 				}
 				return dataIndex, false
 			}
-- 
2.43.0


From 26a1942b037092dca68774b3731b70cdb2520a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:48 +0000
Subject: [PATCH 12/85] fix: rewrite condition comparisons used the setting
 index instead of its value

---
 font.go | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/font.go b/font.go
index cfb2c57..b0387e4 100644
--- a/font.go
+++ b/font.go
@@ -1017,41 +1017,42 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 		return dataIndex, true
 	case 0b0100_0000: // comparison
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		operand := self.Data[dataIndex + 2]
 		if (ctrl & 0b0001_0000) == 0 { // comparing two settings
-			if int(operand) > len(settings) { panic(invalidFontData) } // discretionary assertion
+			if int(operand) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 			operand = settings[operand]
 		}
+		value := settings[setting]
 		switch (ctrl & 0b0000_1111) {
-		case 0b000: return dataIndex + 3, setting == operand
-		case 0b001: return dataIndex + 3, setting != operand
-		case 0b010: return dataIndex + 3, setting  < operand
-		case 0b011: return dataIndex + 3, setting  > operand
-		case 0b100: return dataIndex + 3, setting <= operand
-		case 0b101: return dataIndex + 3, setting >= operand
+		case 0b000: return dataIndex + 3, value == operand
+		case 0b001: return dataIndex + 3, value != operand
+		case 0b010: return dataIndex + 3, value  < operand
+		case 0b011: return dataIndex + 3, value  > operand
+		case 0b100: return dataIndex + 3, value <= operand
+		case 0b101: return dataIndex + 3, value >= operand
 		default:
 			panic(invalidFontData)
 		}
 	case 0b0110_0000: // quick comparison `setting == const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] == constValue
 	case 0b1000_0000: // quick comparison `setting != const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] != constValue
 	case 0b1010_0000: // quick comparison `setting < const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] < constValue
 	case 0b1100_0000: // quick comparison `setting > const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] > constValue
 	default: // undefined control mode
 		panic(invalidFontData)
-- 
2.43.0


From 8da826c606dd9b72b4babda17d1586f1493bc749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:36 +0000
Subject: [PATCH 13/85] fix: Parse rejected valid fonts when the reader split
 the signature

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 37537b5..d55e4da 100644
--- a/parse.go
+++ b/parse.go
@@ -52,7 +52,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	if traceParsing { fmt.Printf("starting parsing...\n") }
 
 	// read signature first (this is not gzipped, so it's important)
-	n, err := reader.Read(parser.TempBuff[0 : 6])
+	n, err := io.ReadFull(reader, parser.TempBuff[0 : 6])
 	if err != nil || n != 6 {
 		if n == 0 {
 			return &font, parser.NewError("failed to read any data from the file")
-- 
2.43.0


From 437e50dd9f614cf2deb4c105aab1a664535e79f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:37 +0000
Subject: [PATCH 14/85] fix: Parse accepted data beyond the end of the font

---
 internal/parsing_buffer.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index 6ef79a5..ad0df36 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -38,15 +38,14 @@ func (self *ParsingBuffer) InitGzipReader(reader io.Reader) error {
 }
 
 func (self *ParsingBuffer) EnsureEOF() error {
-	if self.eof { return nil }
-	preIndex := self.Index
-	err := self.readMore()
-	if err != nil { return err }
-	if self.Index > preIndex {
-		return errors.New("file continues beyond the expected end")
+	for {
+		if len(self.Bytes) > self.Index {
+			return errors.New("file continues beyond the expected end")
+		}
+		if self.eof { return nil }
+		err := self.readMore()
+		if err != nil { return err }
 	}
-	if !self.eof { panic("broken code") }
-	return nil
 }
 
 // utility function called to read more data
-- 
2.43.0


From a83a5b64c3077872a1e92f61134fd058f6368223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:39 +0000
Subject: [PATCH 15/85] fix: Parse accepted fonts truncated at rule lengths or
 kerning counts

---
 parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.go b/parse.go
index d55e4da..7ce1c3f 100644
--- a/parse.go
+++ b/parse.go
@@ -384,6 +384,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		err := parser.AdvanceBytes(int(numUtf8Rules - 1)*3)
 		if err != nil { return &font, err }
 		utf8RulesLen, err := parser.ReadUint24()
+		if err != nil { return &font, err }
 		if int(utf8RulesLen) < int(numUtf8Rules)*8 {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end before allowed")
 		}
@@ -404,6 +405,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		err := parser.AdvanceBytes(int(numGlyphRules - 1)*3)
 		if err != nil { return &font, err }
 		glyphRulesLen, err := parser.ReadUint24()
+		if err != nil { return &font, err }
 		if int(glyphRulesLen) < int(numGlyphRules)*8 {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end before allowed")
 		}
@@ -426,6 +428,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	maxKerningPairs := uint32(numGlyphs)*uint32(numGlyphs)
 
 	numHorzKerningPairs, err := parser.ReadUint24()
+	if err != nil { return &font, err }
 	if numHorzKerningPairs > 0 {
 		if numHorzKerningPairs > maxKerningPairs {
 			return &font, parser.NewError("NumHorzKerningPairs can't exceed NumGlyphs^2")
@@ -438,6 +441,7 @@ func Parse(reader io.Reader) (*Font, error) {
 
 	font.OffsetToVertKernings = uint32(parser.Index)
 	numVertKerningPairs, err := parser.ReadUint24()
+	if err != nil { return &font, err }
 	if numVertKerningPairs > 0 {
 		if numVertKerningPairs > maxKerningPairs {
 			return &font, parser.NewError("NumVertKerningPairs can't exceed NumGlyphs^2")
-- 
2.43.0


From 5d61902927d931e49a0093a884166e4b7850d883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:40 +0000
Subject: [PATCH 16/85] fix: Parse rejected fonts with empty rewrite sets

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 7ce1c3f..a917d61 100644
--- a/parse.go
+++ b/parse.go
@@ -349,7 +349,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if err != nil { return &font, err }
 		utf8SetsLen, err := parser.ReadUint16()
 		if err != nil { return &font, err }
-		if int(utf8SetsLen) < 1 + int(numUtf8Sets)*5 {
+		if int(utf8SetsLen) < int(numUtf8Sets)*2 { // sets can be empty
 			return &font, parser.NewError("UTF8SetEndOffsets declares UTF8Sets to end before allowed")
 		}
 
@@ -367,7 +367,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if err != nil { return &font, err }
 		glyphSetsLen, err := parser.ReadUint16()
 		if err != nil { return &font, err }
-		if int(glyphSetsLen) < 1 + int(numGlyphSets)*3 {
+		if int(glyphSetsLen) < int(numGlyphSets)*2 { // sets can be empty
 			return &font, parser.NewError("GlyphSetEndOffsets declares GlyphSets to end before allowed")
 		}
 
-- 
2.43.0


From 3e33b3067ee21b553dbd1d61246c26619d4d75dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:41 +0000
Subject: [PATCH 17/85] fix: Parse rejected fonts with glyph masks bigger than
 255 bytes

---
 parse.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index a917d61..99f44d6 100644
--- a/parse.go
+++ b/parse.go
@@ -196,9 +196,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	if glyphMasksLen < (uint32(placementSize)*uint32(numGlyphs)) {
 		return &font, parser.NewError("GlyphMaskEndOffsets declares GlyphMasks to end before allowed")
 	}
-	if glyphMasksLen > (uint32(placementSize) + 255)*uint32(numGlyphs) {
-		return &font, parser.NewError("GlyphMaskEndOffsets declares GlyphMasks to end beyond allowed")
-	}
+	// note: no upper bound check, we gotta trust max font size here
 	err = parser.AdvanceBytes(int(glyphMasksLen))
 	if err != nil { return &font, err }
 
-- 
2.43.0


From 9e05c2cc21345005ca985e005f34fce21cd8f059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:42 +0000
Subject: [PATCH 18/85] fix: Parse rejected fonts with long rewrite rules

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 99f44d6..cb437a3 100644
--- a/parse.go
+++ b/parse.go
@@ -386,7 +386,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if int(utf8RulesLen) < int(numUtf8Rules)*8 {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end before allowed")
 		}
-		if int(utf8RulesLen) > int(numUtf8Rules)*(6 + 255*4) {
+		if int(utf8RulesLen) > int(numUtf8Rules)*(5 + 255*4 + 255*5 + 3) {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end beyond allowed")
 		}
 
@@ -407,7 +407,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if int(glyphRulesLen) < int(numGlyphRules)*8 {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end before allowed")
 		}
-		if int(glyphRulesLen) > int(numGlyphRules)*514 {
+		if int(glyphRulesLen) > int(numGlyphRules)*(5 + 255*2 + 255*3 + 3) {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end beyond allowed")
 		}
 
-- 
2.43.0


From 08833bfc7ee326904016e79758ca9ded37305d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:43 +0000
Subject: [PATCH 19/85] fix: Parse rejected fonts with 254 mapping switches

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index cb437a3..a23eba1 100644
--- a/parse.go
+++ b/parse.go
@@ -271,7 +271,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	font.OffsetToMappingSwitches = uint32(parser.Index)
 	numMappingSwitches, err := parser.ReadUint8()
 	if err != nil { return &font, err }
-	if numMappingSwitches > 253 {
+	if numMappingSwitches > 254 {
 		return &font, parser.NewError("NumMappingSwitches can't exceed 254 (both 254 and 255 are reserved)")
 	}
 	if numMappingSwitches > 0 {
-- 
2.43.0


From 378bdcf23bf76851af9b4d0f87f63fce7bd77588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:44 +0000
Subject: [PATCH 20/85] fix: ParseFromFS left files open on some errors

---
 parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index a23eba1..5b47c67 100644
--- a/parse.go
+++ b/parse.go
@@ -16,8 +16,12 @@ func ParseFromFS(filesys fs.FS, filename string) (*Font, error) {
 	file, err := filesys.Open(filename)
 	if err != nil { return nil, err }
 	stat, err := file.Stat()
-	if err != nil { return nil, err }
+	if err != nil {
+		_ = file.Close()
+		return nil, err
+	}
 	if stat.Size() > MaxFontDataSize {
+		_ = file.Close()
 		return nil, errors.New("file size exceeds limit")
 	}
 	
-- 
2.43.0


From 59509fa81a827bb5e59d004acdf5a8168f280929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:49 +0000
Subject: [PATCH 21/85] fix: setting option words were mixed up in built fonts

---
 builder/font_builder.go          |  5 ++--
 builder/font_builder_settings.go | 50 +++++++++++++-------------------
 2 files changed, 22 insertions(+), 33 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index c126a5e..26c7093 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -376,17 +376,16 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 		for word, index := range words {
 			wordsList[index] = word
 		}
-		slices.Sort(wordsList)
 
 		// WordEndOffsets
 		var offset uint16
-		for word, _ := range words {
+		for _, word := range wordsList {
 			offset += uint16(len(word))
 			data = internal.AppendUint16LE(data, offset)
 		}
 
 		// Words | append actual words
-		for word, _ := range words {
+		for _, word := range wordsList {
 			data = append(data, word...)
 		}
 	}
diff --git a/builder/font_builder_settings.go b/builder/font_builder_settings.go
index cd73ee1..1f88ae7 100644
--- a/builder/font_builder_settings.go
+++ b/builder/font_builder_settings.go
@@ -1,6 +1,7 @@
 package builder
 
 import "errors"
+import "slices"
 
 import "github.com/tinne26/ggfnt"
 import "github.com/tinne26/ggfnt/internal"
@@ -22,45 +23,34 @@ func (self *settingEntry) AppendWords(words map[string]int16) {
 func organizeWords(builtinWords, words map[string]int16) error {
 	if len(words) > 255 { return errors.New("setting options require too many words") }
 
-	// set indices for all unique words
-	var customWordIndex uint16
-	var minBuiltinIndex uint16 = 65535
+	// separate custom words from built-in words
+	customWords := make([]string, 0, len(words))
+	usedBuiltinWords := make([]string, 0, len(words))
 	for word, _ := range words {
-		builtinIndex, isBuiltIn := builtinWords[word]
+		_, isBuiltIn := builtinWords[word]
 		if isBuiltIn {
-			words[word] = -builtinIndex
-			if uint16(builtinIndex) < minBuiltinIndex {
-				minBuiltinIndex = uint16(builtinIndex)
-			}
+			usedBuiltinWords = append(usedBuiltinWords, word)
 		} else {
-			words[word] = int16(customWordIndex)
-			customWordIndex += 1
+			customWords = append(customWords, word)
 		}
 	}
+	slices.SortFunc(usedBuiltinWords, func(a, b string) int {
+		return int(builtinWords[a]) - int(builtinWords[b])
+	})
 
-	// see if builtin words can be used or not
-	for minBuiltinIndex < customWordIndex {
-		target := -int16(minBuiltinIndex)
-		minBuiltinIndex = 65535
-		for word, index := range words {
-			if index == target {
-				words[word] = int16(customWordIndex)
-				customWordIndex += 1
-			} else if index < 0 { // built-in word
-				if uint16(-index) < minBuiltinIndex {
-					minBuiltinIndex = uint16(-index)
-				}
-			}
-		}
+	// built-in words with indices taken by custom words
+	// can't be referenced, we need to make them custom too
+	for _, word := range usedBuiltinWords {
+		if int(builtinWords[word]) >= len(customWords) { break }
+		customWords = append(customWords, word)
 	}
 
-	// delete built-in words
-	for word, index := range words {
-		if index < 0 { delete(words, word) }
+	// leave only custom words with their indices
+	slices.Sort(customWords)
+	clear(words)
+	for index, word := range customWords {
+		words[word] = int16(index)
 	}
-	
-	// NOTE: sorting is done later to improve encoding
-	// stability, but directly on the encoding code
 
 	return nil
 }
-- 
2.43.0


From 6df46a058ff831561ba640f23e54d5455529bf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:50 +0000
Subject: [PATCH 22/85] fix: vertical kerning values were taken from the
 horizontal pairs

---
 builder/font_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 26c7093..c36799c 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -651,7 +651,7 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	for _, pair64 := range self.tempSortingBuffer { // VertKerningValues
 		glyphUID1 := self.glyphOrder[uint16(pair64 >> 16)]
 		glyphUID2 := self.glyphOrder[uint16(pair64)]
-		kerningInfo, found := self.horzKerningPairs[[2]uint64{glyphUID1, glyphUID2}]
+		kerningInfo, found := self.vertKerningPairs[[2]uint64{glyphUID1, glyphUID2}]
 		if !found { panic(invalidInternalState) }
 		if kerningInfo.Class == 0 {
 			data = append(data, uint8(kerningInfo.Value))
-- 
2.43.0


From a91e34d712a1dfe790b45b1e4d8e72fa3812b219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:51 +0000
Subject: [PATCH 23/85] fix: MapWithSwitch panicked or misplaced animation
 flags when using single glyph groups

---
 builder/font_builder_mapping.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index e19d448..3ca4acd 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -218,7 +218,10 @@ func (self *Font) MapWithSwitch(codePoint rune, mapSwitch uint8, glyphUIDs [][]u
 	animFlagIndex := 0
 	for _, group := range glyphUIDs {
 		if len(group) == 0 { panic("glyph groups can't be empty") }
-		if len(group) == 1 { continue }
+		if len(group) == 1 {
+			finalAnimFlags = append(finalAnimFlags, 0)
+			continue
+		}
 		if len(animFlags) <= animFlagIndex { return errors.New("not enough animation flags for all multi-glyph groups") }
 		finalAnimFlags = append(finalAnimFlags, animFlags[animFlagIndex])
 		animFlagIndex += 1
-- 
2.43.0


From 1ec3ca6a963cff3b83cf7650f54cb9df4a07db0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:16 +0000
Subject: [PATCH 24/85] fix: switch mappings accepted undefined glyphs and
 oversized groups, making Build panic

---
 builder/font_builder_mapping.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index 3ca4acd..e16944e 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -187,6 +187,9 @@ func (self *Font) MapWithSwitchSingles(codePoint rune, mapSwitch uint8, glyphUID
 		return fmt.Errorf("switch %d expects %d glyph groups, but received %d", mapSwitch, numSwitchCases, len(glyphUIDs))
 	}
 	
+	err := self.validateMapGlyphs(codePoint, glyphUIDs...)
+	if err != nil { return err }
+
 	cases := make([]mappingGroup, 0, len(glyphUIDs))
 	for _, glyphUID := range glyphUIDs {
 		cases = append(cases, mappingGroup{ Glyphs: []uint64{glyphUID}, AnimationFlags: 0 })
@@ -218,6 +221,9 @@ func (self *Font) MapWithSwitch(codePoint rune, mapSwitch uint8, glyphUIDs [][]u
 	animFlagIndex := 0
 	for _, group := range glyphUIDs {
 		if len(group) == 0 { panic("glyph groups can't be empty") }
+		if len(group) > 127 { return errors.New("glyph groups can't exceed 127 glyphs") }
+		err := self.validateMapGlyphs(codePoint, group...)
+		if err != nil { return err }
 		if len(group) == 1 {
 			finalAnimFlags = append(finalAnimFlags, 0)
 			continue
-- 
2.43.0


From b5ba4a0a5c86adc30e756a723703f2ac6378e5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:17 +0000
Subject: [PATCH 25/85] fix: mappings kept the glyph slices passed by the
 caller

---
 builder/font_builder_mapping.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index e16944e..2f078c3 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -156,7 +156,7 @@ func (self *Font) MapGroup(codePoint rune, animFlags ggfnt.AnimationFlags, glyph
 	// actual addition
 	self.runeMapping[codePoint] = mappingEntry{
 		SwitchType: 254,
-		SwitchCases: []mappingGroup{ mappingGroup{ Glyphs: glyphUIDs, AnimationFlags: animFlags } },
+		SwitchCases: []mappingGroup{ mappingGroup{ Glyphs: slices.Clone(glyphUIDs), AnimationFlags: animFlags } },
 	}
 	return nil
 }
@@ -238,7 +238,7 @@ func (self *Font) MapWithSwitch(codePoint rune, mapSwitch uint8, glyphUIDs [][]u
 	
 	cases := make([]mappingGroup, 0, len(glyphUIDs))
 	for i, group := range glyphUIDs {
-		cases = append(cases, mappingGroup{ Glyphs: group, AnimationFlags: finalAnimFlags[i] })
+		cases = append(cases, mappingGroup{ Glyphs: slices.Clone(group), AnimationFlags: finalAnimFlags[i] })
 	}
 	self.runeMapping[codePoint] = mappingEntry{
 		SwitchType: mapSwitch,
-- 
2.43.0


From ab26c82d70202ad1933f51341ef51ee3f3cc963e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:18 +0000
Subject: [PATCH 26/85] fix: AddSwitch accepted switches with more than 254
 cases

---
 builder/font_builder_mapping.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index 2f078c3..87fa27c 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -18,6 +18,7 @@ func (self *Font) AddSwitch(settings ...ggfnt.SettingKey) (uint8, error) {
 	if len(self.mappingSwitches) >= 254 {
 		return 0, errors.New("can't have more than 254 mapping switches")
 	}
+	numCases := 1
 	repeated := make(map[ggfnt.SettingKey]struct{}, len(settings))
 	numSettings := uint8(len(self.settings))
 	newSettings := make([]uint8, 0, len(settings))
@@ -30,6 +31,10 @@ func (self *Font) AddSwitch(settings ...ggfnt.SettingKey) (uint8, error) {
 			return 0, errors.New("mapping switch can't contain repeated settings")
 		}
 		repeated[setting] = struct{}{}
+		numCases *= len(self.settings[setting].Options)
+		if numCases > 254 {
+			return 0, errors.New("mapping switch can't have more than 254 cases")
+		}
 		newSettings = append(newSettings, uint8(setting))
 	}
 
-- 
2.43.0


From 5cbfa95b0fcadacd22a7e33940c45400a6db7a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:19 +0000
Subject: [PATCH 27/85] fix: AddSetting accepted settings without options,
 making Build or the font panic

---
 builder/font_builder_settings.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/font_builder_settings.go b/builder/font_builder_settings.go
index 1f88ae7..3e54479 100644
--- a/builder/font_builder_settings.go
+++ b/builder/font_builder_settings.go
@@ -76,6 +76,9 @@ func (self *Font) AddSetting(name string, options ...string) (ggfnt.SettingKey,
 		if err != nil { return 0, err }
 	}
 
+	if len(options) == 0 {
+		return 0, errors.New("setting must have at least one option")
+	}
 	if len(options) > 255 {
 		return 0, errors.New("setting can't have more than 255 options")
 	}
-- 
2.43.0


From 803da1dfd1c05c41022b274e62d8cedfa863c4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:20 +0000
Subject: [PATCH 28/85] fix: AddSetting kept the option slice passed by the
 caller

---
 builder/font_builder_settings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/font_builder_settings.go b/builder/font_builder_settings.go
index 3e54479..992354a 100644
--- a/builder/font_builder_settings.go
+++ b/builder/font_builder_settings.go
@@ -94,6 +94,6 @@ func (self *Font) AddSetting(name string, options ...string) (ggfnt.SettingKey,
 	}
 	
 	key := ggfnt.SettingKey(len(self.settings))
-	self.settings = append(self.settings, settingEntry{ Name: name, Options: options })
+	self.settings = append(self.settings, settingEntry{ Name: name, Options: slices.Clone(options) })
 	return key, nil
 }
-- 
2.43.0


From b86e0dd028bb1c3e5a5d414aa63bd2431561d9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:21 +0000
Subject: [PATCH 29/85] fix: EachDyeAlpha and EachPaletteColor reported
 existing sections as not found

---
 builder/font_builder_color.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_color.go b/builder/font_builder_color.go
index 93abafd..f856ec2 100644
--- a/builder/font_builder_color.go
+++ b/builder/font_builder_color.go
@@ -23,6 +23,7 @@ func (self *Font) EachDyeAlpha(name string, fn func(alpha, index uint8)) error {
 			for index, alpha := range self.dyes[index].alphas {
 				fn(alpha, uint8(clrIndex - index)) // TODO: this might be an inverse order...
 			}
+			return nil
 		} else {
 			clrIndex -= len(self.dyes[index].alphas)
 		}
@@ -72,8 +73,9 @@ func (self *Font) EachPaletteColor(name string, fn func(rgba color.RGBA, index u
 			for index, clr := range self.palettes[index].colors {
 				fn(clr, uint8(clrIndex - index)) // TODO: this might be an inverse order...
 			}
+			return nil
 		} else {
-			clrIndex -= len(self.dyes[index].alphas)
+			clrIndex -= len(self.palettes[index].colors)
 		}
 	}
 	return errors.New("palette section not found")
-- 
2.43.0


From f4556d90c738be8e8b326439695be000e6a4538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:22 +0000
Subject: [PATCH 30/85] fix: AddDye and AddPalette accepted sections without
 colors

---
 builder/font_builder_color.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/font_builder_color.go b/builder/font_builder_color.go
index f856ec2..35cc89c 100644
--- a/builder/font_builder_color.go
+++ b/builder/font_builder_color.go
@@ -39,6 +39,7 @@ func (self *Font) AddDye(name string, alphas ...uint8) error {
 	if count + len(alphas) > 255 {
 		return errors.New("font colors can't exceed 255 indices")
 	}
+	if len(alphas) == 0 { return errors.New("dye sections must have at least one alpha value") }
 	dyeSection := dyeSection{ name: name }
 	dyeSection.alphas = make([]uint8, len(alphas))
 	copy(dyeSection.alphas, alphas)
@@ -89,6 +90,7 @@ func (self *Font) AddPalette(name string, colors ...color.RGBA) error {
 	if count + len(colors) > 255 {
 		return errors.New("font colors can't exceed 255 indices")
 	}
+	if len(colors) == 0 { return errors.New("palette sections must have at least one color") }
 	paletteSection := paletteSection{ name: name }
 	paletteSection.colors = make([]color.RGBA, len(colors))
 	copy(paletteSection.colors, colors)
-- 
2.43.0


From 4171abbed06b23c2a2224e56e357a595950a043f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:02 +0000
Subject: [PATCH 31/85] fix: names with consecutive hyphens were accepted

---
 internal/parsing_buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index ad0df36..4370a0c 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -198,7 +198,7 @@ func ValidateBasicName(name string) error {
 		}
 		if name[i] == '-' {
 			if prevIsHyphen {
-				errors.New("basic name can't contain consecutive hyphens")
+				return errors.New("basic name can't contain consecutive hyphens")
 			}
 			prevIsHyphen = true
 			continue
-- 
2.43.0


From 3ac85e805df0cce4786f5bbcf9664872c6149b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:03 +0000
Subject: [PATCH 32/85] fix: color sections with empty or too long names made
 fonts unreadable

---
 builder/font_builder_color.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/font_builder_color.go b/builder/font_builder_color.go
index 35cc89c..cfd5f8b 100644
--- a/builder/font_builder_color.go
+++ b/builder/font_builder_color.go
@@ -105,6 +105,8 @@ func (self *Font) AddPalette(name string, colors ...color.RGBA) error {
 // --- shared helpers ---
 
 func (self *Font) checkColorSectionNameCollision(name string) error {
+	if len(name) == 0 { return errors.New("color section name can't be empty") }
+	if len(name) > 255 { return errors.New("color section name can't exceed 255 bytes") }
 	for index, _ := range self.dyes {
 		if self.dyes[index].name == name {
 			return errors.New("the given name is already taken by an existing dye section")
-- 
2.43.0


From df56520be69fe9263b3ae292b0e7508414015611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:04 +0000
Subject: [PATCH 33/85] fix: Build added the default main dye to the builder
 itself

---
 builder/font_builder.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index c36799c..0a4d95b 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -237,29 +237,29 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	data = append(data, self.vertLineGap)
 
 	// --- colors ---
+	dyes := self.dyes
 	numColorSections := len(self.dyes) + len(self.palettes)
 	if numColorSections > 255 { panic(invalidInternalState) }
-	if numColorSections == 0 { // add main dye if nothing else exists
-		err := self.AddDye("main", 255)
-		if err != nil { return nil, err }
+	if numColorSections == 0 { // use main dye if nothing else exists
+		dyes = []dyeSection{ dyeSection{ name: "main", alphas: []uint8{255} } }
 	}
 	
 	// - dyes -
 	font.OffsetToDyes = uint32(len(data))
-	data = append(data, uint8(len(self.dyes))) // NumDyes
+	data = append(data, uint8(len(dyes))) // NumDyes
 	var clrIndex int
-	for i, _ := range self.dyes { // DyeEndIndices
-		clrIndex += len(self.dyes[i].alphas)
+	for i, _ := range dyes { // DyeEndIndices
+		clrIndex += len(dyes[i].alphas)
 		if clrIndex > 255 { panic(invalidInternalState) }
 		data = append(data, uint8(clrIndex))
 	}
-	for i, _ := range self.dyes { data = append(data, self.dyes[i].alphas...) } // DyeAlphas
+	for i, _ := range dyes { data = append(data, dyes[i].alphas...) } // DyeAlphas
 	var clrSectionNameOffset uint16
-	for i, _ := range self.dyes { // DyeNameEndOffsets
-		clrSectionNameOffset += uint16(len(self.dyes[i].name))
+	for i, _ := range dyes { // DyeNameEndOffsets
+		clrSectionNameOffset += uint16(len(dyes[i].name))
 		data = internal.AppendUint16LE(data, clrSectionNameOffset)
 	}
-	for i, _ := range self.dyes { data = append(data, self.dyes[i].name...) } // DyeNames
+	for i, _ := range dyes { data = append(data, dyes[i].name...) } // DyeNames
 
 	// - palettes -
 	font.OffsetToPalettes = uint32(len(data))
-- 
2.43.0


From b56f974d144707941e2d0cc42d3b6a8509e7dcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:05 +0000
Subject: [PATCH 34/85] fix: SetName accepted empty names, which Parse rejects

---
 builder/font_builder_props.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/builder/font_builder_props.go b/builder/font_builder_props.go
index 71ab823..58db4f8 100644
--- a/builder/font_builder_props.go
+++ b/builder/font_builder_props.go
@@ -68,6 +68,7 @@ func (self *Font) SetVersion(major, minor uint16) {
 
 func (self *Font) GetName() string { return self.fontName }
 func (self *Font) SetName(name string) error {
+	if len(name) == 0 { return errors.New("font name can't be empty") }
 	if len(name) > 255 { return errors.New("font name can't exceed 255 bytes") }
 	err := checkStringValidity(name)
 	if err != nil { return err }
-- 
2.43.0


From f2e62e021a8f3c780cb415364fe5dfea4a73077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:06 +0000
Subject: [PATCH 35/85] fix: vert interspacing without vert layout was built
 into fonts that Parse rejects

---
 builder/font_builder_props.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/font_builder_props.go b/builder/font_builder_props.go
index 58db4f8..a7939f6 100644
--- a/builder/font_builder_props.go
+++ b/builder/font_builder_props.go
@@ -113,6 +113,9 @@ func (self *Font) GetMetricsStatus() error {
 	if self.ascent < self.midlineAscent { return errors.New("ascent must be equal or greater than midline ascent") }
 	if self.ascent < self.uppercaseAscent { return errors.New("ascent must be equal or greater than uppercase ascent") }
 	if self.midlineAscent > self.uppercaseAscent { return errors.New("midline ascent must be equal or greater than uppercase ascent") }
+	if self.vertInterspacing != 0 && !self.hasVertLayout {
+		return errors.New("vert interspacing must be zero if vert layout is not used")
+	}
 	return nil
 }
 
-- 
2.43.0


From 1eb9b9668157a3f815326b9b362b1607798fb523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:07 +0000
Subject: [PATCH 36/85] fix: AddGlyph kept the mask passed by the caller

---
 builder/font_builder_props.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_props.go b/builder/font_builder_props.go
index a7939f6..88d9668 100644
--- a/builder/font_builder_props.go
+++ b/builder/font_builder_props.go
@@ -3,6 +3,7 @@ package builder
 import "fmt"
 import "image"
 import "errors"
+import "slices"
 import "unicode/utf8"
 
 import "github.com/tinne26/ggfnt"
@@ -213,7 +214,11 @@ func (self *Font) AddGlyph(glyphMask *image.Alpha) (uint64, error) {
 					BottomAdvance: self.descent,
 					HorzCenter: uint8(min(255, glyphMask.Bounds().Dx()/2)),
 				},
-				Mask: glyphMask,
+				Mask: &image.Alpha{
+					Pix: slices.Clone(glyphMask.Pix),
+					Stride: glyphMask.Stride,
+					Rect: glyphMask.Rect,
+				},
 			}
 			self.glyphOrder = append(self.glyphOrder, glyphUID)
 			return glyphUID, nil
-- 
2.43.0


From 1de8f8cf6108a0b706cd75903bc7e8163d3f9a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:08 +0000
Subject: [PATCH 37/85] fix: Build panicked on kerning pairs with undefined
 glyphs

---
 builder/font_builder.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 0a4d95b..4ed4c71 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -17,6 +17,7 @@ const fontBuilderDefaultFontAuthor = "Authorless"
 const fontBuilderDefaultFontAbout = "No information available."
 
 var ErrBuildNoGlyphs = errors.New("can't build font with no glyphs")
+var errKerningPairUndefinedGlyph = errors.New("kerning pair is using an undefined glyph")
 var errFontDataExceedsMax = errors.New("font data exceeds maximum size")
 
 // A [Font] builder that allows modifying and exporting ggfnt fonts.
@@ -605,9 +606,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	self.tempSortingBuffer = self.tempSortingBuffer[ : 0]
 	for key, _ := range self.horzKerningPairs {
 		i1, found := self.tempGlyphIndexLookup[key[0]]
-		if !found { panic(invalidInternalState) }
+		if !found { return nil, errKerningPairUndefinedGlyph }
 		i2, found := self.tempGlyphIndexLookup[key[1]]
-		if !found { panic(invalidInternalState) }
+		if !found { return nil, errKerningPairUndefinedGlyph }
 		self.tempSortingBuffer = append(self.tempSortingBuffer, uint64(uint32(i1) << 16 | uint32(i2)))
 	}
 	slices.Sort(self.tempSortingBuffer)
@@ -636,9 +637,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	self.tempSortingBuffer = self.tempSortingBuffer[ : 0]
 	for key, _ := range self.vertKerningPairs {
 		i1, found := self.tempGlyphIndexLookup[key[0]]
-		if !found { panic(invalidInternalState) }
+		if !found { return nil, errKerningPairUndefinedGlyph }
 		i2, found := self.tempGlyphIndexLookup[key[1]]
-		if !found { panic(invalidInternalState) }
+		if !found { return nil, errKerningPairUndefinedGlyph }
 		self.tempSortingBuffer = append(self.tempSortingBuffer, uint64(uint32(i1) << 16 | uint32(i2)))
 	}
 	slices.Sort(self.tempSortingBuffer)
-- 
2.43.0


From 56cd830cccbbfe764ba517779facab37c1073bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:45 +0000
Subject: [PATCH 38/85] fix: Build panicked on glyph sets with exactly 255
 ranges or glyphs

---
 builder/font_builder_rewrite_sets.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index d8cd9e8..4eeb034 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -21,8 +21,8 @@ func (self *reGlyphSet) GetSize() uint32 {
 }
 
 func (self *reGlyphSet) AppendTo(data []byte, glyphLookup map[uint64]uint16) ([]byte, error) {
-	if len(self.ranges) >= 255 { panic(invalidInternalState) }
-	if len(self.list) >= 255 { panic(invalidInternalState) }
+	if len(self.ranges) > 255 { panic(invalidInternalState) }
+	if len(self.list) > 255 { panic(invalidInternalState) }
 
 	// ranges
 	data = append(data, uint8(len(self.ranges)))
-- 
2.43.0


From 02d1109ef23c5f7ce20acfe833bac3503ebf0225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:46 +0000
Subject: [PATCH 39/85] fix: removing rewrite set ranges and elements had no
 effect

---
 builder/font_builder_rewrite_sets.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index 4eeb034..5418b25 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -110,7 +110,7 @@ func (self *Font) RemoveGlyphSetRange(setUID, rangeStartGlyphUID, rangeEndGlyphU
 		}
 	}
 	if rangeIndex == -1 { return false }
-	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex)
+	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex + 1)
 	self.rewriteGlyphSets[setUID] = set
 	return true
 }
@@ -150,7 +150,7 @@ func (self *Font) RemoveGlyphSetListGlyph(setUID, glyphUID uint64) bool {
 		}
 	}
 	if listIndex == -1 { return false }
-	set.list = slices.Delete(set.list, listIndex, listIndex)
+	set.list = slices.Delete(set.list, listIndex, listIndex + 1)
 	self.rewriteGlyphSets[setUID] = set
 	return true
 }
@@ -220,7 +220,7 @@ func (self *Font) RemoveRuneSetRange(setUID uint64, rangeStart, rangeEnd rune) b
 		}
 	}
 	if rangeIndex == -1 { return false }
-	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex)
+	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex + 1)
 	self.rewriteRuneSets[setUID] = set
 	return true
 }
@@ -257,7 +257,7 @@ func (self *Font) RemoveRuneSetListRune(setUID uint64, codePoint rune) bool {
 		}
 	}
 	if listIndex == -1 { return false }
-	set.list = slices.Delete(set.list, listIndex, listIndex)
+	set.list = slices.Delete(set.list, listIndex, listIndex + 1)
 	self.rewriteRuneSets[setUID] = set
 	return true
 }
-- 
2.43.0


From d01fc84dc96504a4b0abc7f74b8cd5e7118eeda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:47 +0000
Subject: [PATCH 40/85] fix: Build panicked after removing a glyph set

---
 builder/font_builder_rewrite_sets.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index 5418b25..e632f27 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -78,6 +78,7 @@ func (self *Font) RemoveGlyphSet(setUID uint64) bool {
 	_, found := self.rewriteGlyphSets[setUID]
 	if !found { return false }
 	delete(self.rewriteGlyphSets, setUID)
+	self.glyphSetsOrder = slices.DeleteFunc(self.glyphSetsOrder, func(uid uint64) bool { return uid == setUID })
 	return true
 }
 
-- 
2.43.0


From ae93856e868bfca1c240a295e66ec8a4cd64b588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:48 +0000
Subject: [PATCH 41/85] fix: CreateRuneSet panicked and rune set order wasn't
 tracked

---
 builder/font_builder_rewrite_sets.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index e632f27..d4f2e34 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -179,11 +179,13 @@ func (self *Font) CreateRuneSet() (uint64, error) {
 	
 	uid, err := internal.CryptoRandUint64()
 	if err != nil { return 0, err } // don't think this can ever happen
-	_, found := self.rewriteGlyphSets[uid]
+	_, found := self.rewriteRuneSets[uid]
 	if found {
 		return 0, errors.New("failed to generate unique rune set UID")
 	}
+	if self.rewriteRuneSets == nil { self.rewriteRuneSets = make(map[uint64]reRuneSet) }
 	self.rewriteRuneSets[uid] = reRuneSet{}
+	self.runeSetsOrder = append(self.runeSetsOrder, uid)
 	return uid, nil
 }
 
@@ -191,6 +193,7 @@ func (self *Font) RemoveRuneSet(setUID uint64) bool {
 	_, found := self.rewriteRuneSets[setUID]
 	if !found { return false }
 	delete(self.rewriteRuneSets, setUID)
+	self.runeSetsOrder = slices.DeleteFunc(self.runeSetsOrder, func(uid uint64) bool { return uid == setUID })
 	return true
 }
 
-- 
2.43.0


From 8af1a71a92bcaafee9eb8eee895279c8892636e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:49 +0000
Subject: [PATCH 42/85] fix: rune sets accepted more than 255 ranges or runes

---
 builder/font_builder_rewrite_sets.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index d4f2e34..7cb2ae6 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -200,6 +200,7 @@ func (self *Font) RemoveRuneSet(setUID uint64) bool {
 func (self *Font) AddRuneSetRange(setUID uint64, rangeStart, rangeEnd rune) error {
 	set, found := self.rewriteRuneSets[setUID]
 	if !found { return errors.New("invalid rune set UID") }
+	if len(set.ranges) >= 255 { return errors.New("rune set can't contain more than 255 ranges") }
 	if rangeStart > rangeEnd {
 		return errors.New("invalid rune range (start > end)")
 	}
@@ -240,6 +241,7 @@ func (self *Font) EachRuneSetRange(setUID uint64, each func(start, end rune)) {
 func (self *Font) AddRuneSetListRune(setUID uint64, codePoint rune) error {
 	set, found := self.rewriteRuneSets[setUID]
 	if !found { return errors.New("invalid rune set UID") }
+	if len(set.list) >= 255 { return errors.New("rune set can't contain more than 255 runes") }
 	for _, listGlyphUID := range set.list {
 		if listGlyphUID == codePoint {
 			return errors.New("rune already included")
-- 
2.43.0


From 9d54cf962b8ae8fbf0ba68251110f183968a436f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:50 +0000
Subject: [PATCH 43/85] fix: Build panicked when the font had rune sets

---
 builder/font_builder.go              | 26 +++++++++++++++++++++++---
 builder/font_builder_rewrite_sets.go | 28 ++++++++++++++++++++++++++++
 2 files changed, 51 insertions(+), 3 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 4ed4c71..8260bab 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -514,11 +514,31 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 
 	// rewrite sets
 	font.OffsetToRewriteUtf8Sets = uint32(len(data))
+	if len(self.rewriteRuneSets) > 255 { panic(invalidInternalState) }
+	if len(self.rewriteRuneSets) != len(self.runeSetsOrder) { panic(invalidInternalState) }
 	var runeSetsMap = make(map[uint64]uint8)
-	data = append(data, 0) // NumUtf8Sets
-	// ... (TODO)
+	data = append(data, uint8(len(self.rewriteRuneSets))) // NumUtf8Sets
 	if len(self.rewriteRuneSets) > 0 {
-		panic("rune sets encoding unimplemented")
+
+		// UTF8SetEndOffsets
+		var offset uint32
+		for index, setUID := range self.runeSetsOrder {
+			runeSetsMap[setUID] = uint8(index)
+			set, found := self.rewriteRuneSets[setUID]
+			if !found { panic(invalidInternalState) }
+			offset += set.GetSize()
+			if offset > 65535 {
+				return nil, errors.New("rewrite rune sets contain too much data (can't exceed 65535 bytes)")
+			}
+			data = internal.AppendUint16LE(data, uint16(offset))
+		}
+
+		// UTF8Sets
+		for _, setUID := range self.runeSetsOrder {
+			set := self.rewriteRuneSets[setUID]
+			data, err = set.AppendTo(data)
+			if err != nil { return nil, err }
+		}
 	}
 	
 	if len(self.rewriteGlyphSets) > 255 { panic(invalidInternalState) }
diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index 7cb2ae6..a660631 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -172,6 +172,34 @@ type reRuneSet struct {
 	list []rune
 }
 
+func (self *reRuneSet) GetSize() uint32 {
+	return uint32(2 + len(self.ranges)*5 + (len(self.list) << 2))
+}
+
+func (self *reRuneSet) AppendTo(data []byte) ([]byte, error) {
+	if len(self.ranges) > 255 { panic(invalidInternalState) }
+	if len(self.list) > 255 { panic(invalidInternalState) }
+
+	// ranges
+	data = append(data, uint8(len(self.ranges)))
+	for _, runeRange := range self.ranges {
+		rangeLen := int64(runeRange.Last) - int64(runeRange.First)
+		if rangeLen > 255 {
+			return data, errors.New("rewrite rune set range can't exceed length 255")
+		}
+		data = internal.AppendUint32LE(data, uint32(runeRange.First))
+		data = append(data, uint8(rangeLen))
+	}
+
+	// list
+	data = append(data, uint8(len(self.list)))
+	for _, codePoint := range self.list {
+		data = internal.AppendUint32LE(data, uint32(codePoint))
+	}
+
+	return data, nil
+}
+
 func (self *Font) CreateRuneSet() (uint64, error) {
 	if len(self.rewriteRuneSets) >= 255 {
 		return 0, errors.New("font can't contain more than 255 rune sets")
-- 
2.43.0


From a7eb0be1000d04b9b52e8c6883b6bfd1ce62516e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:51 +0000
Subject: [PATCH 44/85] fix: AddGlyphRewriteRule accepted empty bodies, making
 Build panic

---
 builder/font_builder_rewrite_rules.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index 3ec9672..fb00d67 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -232,7 +232,7 @@ func (self *Font) AddUtf8RewriteRule(headLen, bodyLen, tailLen uint8, input []an
 // Ids can be for glyphs or glyph sets, we assume they won't collide.
 func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []uint64, out ...uint64) error {
 	// validate input sizes
-	if bodyLen == 0 { errors.New("rewrite rule exceeds input body must have len >= 1") }
+	if bodyLen == 0 { return errors.New("rewrite rule input body must have len >= 1") }
 	headBodyLen := headLen + bodyLen
 	if headBodyLen < bodyLen || headBodyLen + tailLen < tailLen {
 		return errors.New("rewrite rule exceeds 255 input elements")
-- 
2.43.0


From 9bb1bc6355c60e421442af1c1b019fc6fecf3b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:52 +0000
Subject: [PATCH 45/85] fix: AddGlyphRewriteRule accepted outputs longer than
 the body

---
 builder/font_builder_rewrite_rules.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index fb00d67..75db94b 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -241,6 +241,10 @@ func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []u
 		return errors.New("rewrite rule input block lengths don't match given input")
 	}
 	
+	if len(out) > int(bodyLen) {
+		return errors.New("rewrite rule output can't be longer than the input body")
+	}
+	
 	// validate output glyphs
 	for _, glyphUID := range out {
 		_, found := self.glyphData[glyphUID]
-- 
2.43.0


From 8f1f8312ce7be57738a5c875d3f6d851551e55db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:53 +0000
Subject: [PATCH 46/85] fix: rewrite rules kept the slices passed by the caller

---
 builder/font_builder_rewrite_rules.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index 75db94b..ba2e3d5 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -1,6 +1,7 @@
 package builder
 
 import "errors"
+import "slices"
 
 import "github.com/tinne26/ggfnt/internal"
 
@@ -216,7 +217,7 @@ func (self *Font) AddSimpleUtf8RewriteRule(replacement rune, sequence ...rune) e
 	if len(sequence) == 0 { return errors.New("rewrite rule sequence can't be empty") }
 	if len(sequence) > 255 { return errors.New("rewrite rule sequence can't exceed 255 runes") }
 	
-	rule := utf8RewriteRule{ condition: 255, bodyLen: uint8(len(sequence)), inRunes: sequence, output: []rune{replacement} }
+	rule := utf8RewriteRule{ condition: 255, bodyLen: uint8(len(sequence)), inRunes: slices.Clone(sequence), output: []rune{replacement} }
 	for i := 0; i < len(sequence); i++ {
 		rule.inElemsAreGroups.Push(false)
 	}
@@ -277,7 +278,7 @@ func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []u
 	rule.tailLen = tailLen
 	rule.inGlyphs = inGlyphs
 	rule.inGroups = inGroups
-	rule.output = out
+	rule.output = slices.Clone(out)
 	self.glyphRules = append(self.glyphRules, rule)
 	return nil
 }
-- 
2.43.0


From a04b0f585f0196d41534f438f9caaba9fc043c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:49 +0000
Subject: [PATCH 47/85] fix: encoding sub-image masks panicked

---
 mask/encoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mask/encoder.go b/mask/encoder.go
index 864b62f..2417176 100644
--- a/mask/encoder.go
+++ b/mask/encoder.go
@@ -119,9 +119,9 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 
 func (self *Encoder) computeMaskFragments(mask *image.Alpha) {
 	maskCopy := image.NewAlpha(mask.Rect)
-	copy(maskCopy.Pix, mask.Pix)
-	if mask.Stride != maskCopy.Stride {
-		panic("mask.Stride != maskCopy.Stride")
+	rowWidth := maskCopy.Rect.Dx()
+	for y := 0; y < maskCopy.Rect.Dy(); y++ { // strides may differ (e.g. sub-images)
+		copy(maskCopy.Pix[y*maskCopy.Stride : y*maskCopy.Stride + rowWidth], mask.Pix[y*mask.Stride : ])
 	}
 
 	// find isolated pixels and diagonals (only down-left/down-right)
-- 
2.43.0


From d462d5fffd6a571c10f7718b75e9a71d01fc97f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:51 +0000
Subject: [PATCH 48/85] fix: encoding masks with distances over 128 pixels
 panicked

---
 mask/encoder.go | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/mask/encoder.go b/mask/encoder.go
index 2417176..2224957 100644
--- a/mask/encoder.go
+++ b/mask/encoder.go
@@ -48,8 +48,13 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 
 		// encode pre-moves to reach the target
 		xDist, yDist := self.fragments[i].GetDistsFrom(x, y)
+		for !fitsMove(xDist) || !fitsMove(yDist) { // long distances need additional moves
+			var xMove, yMove int
+			data, xMove, yMove = appendLongMove(data, xDist, yDist)
+			x, y = x + xMove, y + yMove
+			xDist, yDist = self.fragments[i].GetDistsFrom(x, y)
+		}
 		if xDist != 0 {
-			if xDist < -128 || xDist > 128 { panic("distances > 128 unimplemented") } // not too hard to do
 			payload[0] |= 0b0000_0010
 			if xDist > 0 {
 				payload[payloadSize] = uint8(int8(xDist - 1)) // nzint8 conversion
@@ -63,7 +68,6 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 				payload[0] |= 0b0000_1000
 			} else {
 				payload[0] |= 0b0000_0100
-				if yDist < -128 || yDist > 128 { panic("distances > 128 unimplemented") } // not too hard to do
 				if yDist > 0 {
 					payload[payloadSize] = uint8(int8(yDist - 1)) // nzint8 conversion
 				} else {
@@ -117,6 +121,34 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 	return data
 }
 
+// Returns whether the given distance can be covered in a single raster operation.
+func fitsMove(dist int) bool {
+	return dist >= -128 && dist <= 128
+}
+
+// Appends a single raster operation that moves as much as possible on the axes
+// with distances that don't fit in a single move. The operation doesn't draw.
+func appendLongMove(data []byte, xDist, yDist int) (newData []byte, xMove, yMove int) {
+	var ctrl uint8
+	if !fitsMove(xDist) {
+		ctrl |= 0b0000_0010
+		xMove = min(max(xDist, -128), 128)
+	}
+	if !fitsMove(yDist) {
+		ctrl |= 0b0000_0100
+		yMove = min(max(yDist, -128), 128)
+	}
+	data = append(data, ctrl)
+	for _, move := range [2]int{xMove, yMove} {
+		if move > 0 {
+			data = append(data, uint8(int8(move - 1))) // nzint8 conversion
+		} else if move < 0 {
+			data = append(data, uint8(int8(move)))
+		}
+	}
+	return data, xMove, yMove
+}
+
 func (self *Encoder) computeMaskFragments(mask *image.Alpha) {
 	maskCopy := image.NewAlpha(mask.Rect)
 	rowWidth := maskCopy.Rect.Dx()
-- 
2.43.0


From 6f3b9331bbdcf615716f23ee71f7735b3610392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:52 +0000
Subject: [PATCH 49/85] fix: encoding masks with shapes over 256 pixels
 panicked

---
 mask/encoder.go         | 10 +++++++---
 mask/raster_fragment.go | 36 ++++++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/mask/encoder.go b/mask/encoder.go
index 2224957..177471c 100644
--- a/mask/encoder.go
+++ b/mask/encoder.go
@@ -17,6 +17,13 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 	// empty mask case
 	if len(self.fragments) == 0 { return data }
 
+	// split fragments that are too big for a single draw
+	for i := 0; i < len(self.fragments); i++ { // (appended fragments are also revisited)
+		for self.fragments[i].ExceedsDrawLimits() {
+			self.fragments = append(self.fragments, self.fragments[i].Split())
+		}
+	}
+
 	// sort by palette index and (y, x)
 	sort.Slice(self.fragments, func(i, j int) bool {
 		if self.fragments[i].value > self.fragments[j].value { return true  } // higher value goes first
@@ -85,7 +92,6 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 			payload[0] |= 0b0001_0000 // diagonal marker
 			if xDraw > 0 {
 				payload[0] |= 0b0010_0000
-				if xDraw > 256 { panic("draw distances > 256 unimplemented") } // not too hard to do
 				payload[payloadSize] = uint8(xDraw - 1)
 				payloadSize += 1
 			}
@@ -97,14 +103,12 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 			if xDraw > 0 && (xDraw > 1 || yDraw <= 1) {
 				payload[0] |= 0b0010_0000
 				if yDraw == 1 { yDraw = 0 }
-				if xDraw > 256 { panic("draw distances > 256 unimplemented") } // not too hard to do
 				payload[payloadSize] = uint8(xDraw - 1)
 				payloadSize += 1
 			}
 
 			if yDraw > 0 {
 				payload[0] |= 0b0100_0000
-				if yDraw > 256 { panic("draw distances > 256 unimplemented") } // not too hard to do
 				payload[payloadSize] = uint8(yDraw - 1)
 				payloadSize += 1
 			}
diff --git a/mask/raster_fragment.go b/mask/raster_fragment.go
index 0f966cf..e64ed03 100644
--- a/mask/raster_fragment.go
+++ b/mask/raster_fragment.go
@@ -54,3 +54,39 @@ func (self *rasterFragment) GetDistsFrom(x, y int) (int, int) {
 func (self *rasterFragment) GetDrawSizes() (int, int) {
 	return (self.maxX + 1) - self.minX, (self.maxY + 1) - self.minY
 }
+
+
+const maxDrawSize = 256
+
+func (self *rasterFragment) ExceedsDrawLimits() bool {
+	width, height := self.GetDrawSizes()
+	return width > maxDrawSize || height > maxDrawSize
+}
+
+// Reduces the current fragment to the draw limits on an axis where it
+// exceeds them, and returns a new fragment with the rest.
+func (self *rasterFragment) Split() rasterFragment {
+	rest := *self
+	width, _ := self.GetDrawSizes()
+	if self.diagonalType == diagNone {
+		if width > maxDrawSize {
+			self.maxX = self.minX + maxDrawSize - 1
+			rest.minX = self.maxX + 1
+		} else {
+			self.maxY = self.minY + maxDrawSize - 1
+			rest.minY = self.maxY + 1
+		}
+		return rest
+	}
+
+	self.maxX = self.minX + maxDrawSize - 1
+	rest.minX = self.maxX + 1
+	if self.diagonalType == diagAsc {
+		self.minY = self.maxY - maxDrawSize + 1
+		rest.maxY = self.minY - 1
+	} else {
+		self.maxY = self.minY + maxDrawSize - 1
+		rest.minY = self.maxY + 1
+	}
+	return rest
+}
-- 
2.43.0


From 922a10f64be455201a83f74648883d115108efd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:57 +0000
Subject: [PATCH 50/85] fix: parsing time was quadratic on the size of the font

---
 internal/parsing_buffer.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index 4370a0c..96d96a2 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -54,12 +54,10 @@ func (self *ParsingBuffer) readMore() error {
 		// read and process read bytes
 		n, err := self.gzipReader.Read(self.TempBuff)
 		if n > 0 {
-			self.Bytes = GrowSliceByN(self.Bytes, n)
-			if len(self.Bytes) > MaxFontDataSize {
+			if len(self.Bytes) + n > MaxFontDataSize {
 				return self.NewError("font data size exceeds limit")
 			}
-			k := copy(self.Bytes[len(self.Bytes) - n : ], self.TempBuff[ : n])
-			if k != n { panic("broken code") }
+			self.Bytes = append(self.Bytes, self.TempBuff[ : n]...) // amortized growth
 		}
 
 		// handle errors
-- 
2.43.0


From 713a40913b61cb91f0db69dbc503d6458799f7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:34 +0000
Subject: [PATCH 51/85] fix: circular buffer tail index was wrong on 16-bit
 overflows

---
 internal/circular_buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/circular_buffer.go b/internal/circular_buffer.go
index b03fd91..a0f8987 100644
--- a/internal/circular_buffer.go
+++ b/internal/circular_buffer.go
@@ -148,7 +148,7 @@ func (self *CircularBufferU16[T]) unsafeLastElemIndex() uint16 {
 	index := self.headIndex + self.numElements - 1
 	
 	if index < self.headIndex { // overflow case
-		return self.numElements - (self.capacity - self.headIndex)
+		return self.numElements - 1 - (self.capacity - self.headIndex)
 	} else if index < self.capacity { // simple case
 		return index
 	} else { // wrap case
-- 
2.43.0


From e044038dbf64e6c2cffee5c8972268d85a5b979e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:11 +0000
Subject: [PATCH 52/85] fix: shrinking an empty circular buffer could leave its
 head out of bounds

---
 internal/circular_buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/circular_buffer.go b/internal/circular_buffer.go
index a0f8987..6056dd4 100644
--- a/internal/circular_buffer.go
+++ b/internal/circular_buffer.go
@@ -121,7 +121,7 @@ func (self *CircularBufferU16[T]) SetCapacity(capacity uint16) bool {
 		if self.numElements > (self.capacity - self.headIndex) {
 			copy(self.buffer[self.headIndex - lenReduction : ], self.buffer[self.headIndex : ])
 			self.headIndex -= lenReduction
-		} else if self.headIndex > capacity - self.numElements {
+		} else if self.headIndex >= capacity - self.numElements {
 			copy(self.buffer[ : self.numElements], self.buffer[self.headIndex : self.headIndex + self.numElements])
 			self.headIndex = 0
 		}
-- 
2.43.0


From 2d192102d15108b5dc48c2cb1d10ab655cb8d3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:30 +0000
Subject: [PATCH 53/85] fix: disabling the vert layout left inconsistent vert
 line metrics undetected

---
 builder/font_builder_props.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/font_builder_props.go b/builder/font_builder_props.go
index 88d9668..c0c0e28 100644
--- a/builder/font_builder_props.go
+++ b/builder/font_builder_props.go
@@ -117,6 +117,12 @@ func (self *Font) GetMetricsStatus() error {
 	if self.vertInterspacing != 0 && !self.hasVertLayout {
 		return errors.New("vert interspacing must be zero if vert layout is not used")
 	}
+	if self.vertLineWidth != 0 && !self.hasVertLayout {
+		return errors.New("vert line width must be zero if vert layout is not used")
+	}
+	if self.vertLineGap != 0 && !self.hasVertLayout {
+		return errors.New("vert line gap must be zero if vert layout is not used")
+	}
 	return nil
 }
 
-- 
2.43.0


From 38f0baa18304c05058cbd73a3f1dae125a66c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:31 +0000
Subject: [PATCH 54/85] fix: building a font with too many mapped code points
 panicked

---
 builder/font_builder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 8260bab..10ea7a3 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -444,7 +444,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	}
 	
 	// main mapping
-	if len(self.runeMapping) > ggfnt.MaxGlyphs { panic(invalidInternalState) }
+	if len(self.runeMapping) > ggfnt.MaxGlyphs {
+		return nil, errors.New("font has too many code point mappings")
+	}
 	font.OffsetToMapping = uint32(len(data))
 	numMappingEntries := uint16(len(self.runeMapping))
 	data = internal.AppendUint16LE(data, numMappingEntries)
-- 
2.43.0


From d60fa590940d9d277b78b44a47f150120e275fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:32 +0000
Subject: [PATCH 55/85] fix: mapping offsets over 24 bits were silently
 truncated

---
 builder/font_builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 10ea7a3..4c9a109 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -484,6 +484,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 			data, scratchBuffer, err = mapping.AppendTo(data, self.tempGlyphIndexLookup, scratchBuffer)
 			if err != nil { return nil, err }
 			offset += len(data) - preLen
+			if offset > 16777215 {
+				return nil, errors.New("mapping data exceeds maximum allowed size of 16MiB")
+			}
 
 			// append offset
 			internal.EncodeUint24LE(data[nextMappingEndOffsetIndex : nextMappingEndOffsetIndex + 3], uint32(offset))
-- 
2.43.0


From e18a12f3cea7ca89305b84bbc4c9788cbe17cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:33 +0000
Subject: [PATCH 56/85] fix: glyph mask offsets over 24 bits were silently
 truncated

---
 builder/font_builder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 4c9a109..bf18d82 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -350,6 +350,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 
 		// write offset back on the relevant index
 		offset32 = uint32(len(data) - baseGlyphMasksIndex)
+		if offset32 > 16777215 {
+			return nil, errors.New("glyph masks exceed maximum allowed size of 16MiB")
+		}
 		internal.EncodeUint24LE(data[glyphMaskEndOffsetsIndex : glyphMaskEndOffsetsIndex + 3], offset32)
 		glyphMaskEndOffsetsIndex += 3
 	}
-- 
2.43.0


From ab22c905f90fc84853aab6c10741d02140fdc625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 57/85] fix: adding more than 65535 rewrite rules made the
 build panic

---
 builder/font_builder_rewrite_rules.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index ba2e3d5..87680f5 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -216,6 +216,7 @@ func (self *utf8RewriteRule) appendAccumulatedInBlock(data []byte, groups []uint
 func (self *Font) AddSimpleUtf8RewriteRule(replacement rune, sequence ...rune) error {
 	if len(sequence) == 0 { return errors.New("rewrite rule sequence can't be empty") }
 	if len(sequence) > 255 { return errors.New("rewrite rule sequence can't exceed 255 runes") }
+	if len(self.utf8Rules) >= 65535 { return errors.New("can't have more than 65535 utf8 rewrite rules") }
 	
 	rule := utf8RewriteRule{ condition: 255, bodyLen: uint8(len(sequence)), inRunes: slices.Clone(sequence), output: []rune{replacement} }
 	for i := 0; i < len(sequence); i++ {
@@ -252,6 +253,10 @@ func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []u
 		if !found { return errors.New("invalid rewrite rule output glyph UID") }
 	}
 
+	if len(self.glyphRules) >= 65535 {
+		return errors.New("can't have more than 65535 glyph rewrite rules")
+	}
+
 	// create rule
 	rule := glyphRewriteRule{ condition: 255 }
 
-- 
2.43.0


From 077e9b4811ecbf4d4fe92f6fa41a743667ec1754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:31 +0000
Subject: [PATCH 58/85] fix: edition data signature could be misread if the
 reader returned it in parts

---
 builder/font_builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index bf18d82..050935c 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -724,8 +724,8 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 	parser.FileType = "ggwkfnt"
 
 	// read signature first (this is not gzipped, so it's important)
-	n, err := reader.Read(parser.TempBuff[0 : 6])
-	if err != nil || n != 6 {
+	_, err := io.ReadFull(reader, parser.TempBuff[0 : 6])
+	if err != nil {
 		return parser.NewError("failed to read file signature")
 	}
 	if !slices.Equal(parser.TempBuff[0 : 6], []byte{'w', 'k', 'g', 'f', 'n', 't'}) {
-- 
2.43.0


From 01cb3bf87a27e2479f051f9f68fba27481d11e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 59/85] fix: edition data kerning pair counts must be read as
 uint24

---
 builder/font_builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 050935c..c15b31d 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -773,7 +773,7 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		(&self.kerningClasses[i]).Value = value
 	}
 	
-	numHorzKerningPairsWithClasses, err := parser.ReadUint32()
+	numHorzKerningPairsWithClasses, err := parser.ReadUint24()
 	if err != nil { return err }
 	for i := uint32(0); i < numHorzKerningPairsWithClasses; i++ {
 		firstIndex, err := parser.ReadUint16()
@@ -796,7 +796,7 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		}
 	}
 	
-	numVertKerningPairsWithClasses, err := parser.ReadUint32()
+	numVertKerningPairsWithClasses, err := parser.ReadUint24()
 	if err != nil { return err }
 	for i := uint32(0); i < numVertKerningPairsWithClasses; i++ {
 		firstIndex, err := parser.ReadUint16()
-- 
2.43.0


From c2dab8d38f360aab6c1654cd9c6d43ee2a029660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:32 +0000
Subject: [PATCH 60/85] fix: edition data with undefined kerning pair glyphs
 made the parser panic

---
 builder/font_builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index c15b31d..91d7855 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -785,6 +785,9 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		if kerningClass == 0 {
 			return parser.NewError("kerning pair class can't be zero")
 		}
+		if int(firstIndex) >= len(self.glyphOrder) || int(secondIndex) >= len(self.glyphOrder) {
+			return parser.NewError("kerning pair uses an undefined glyph")
+		}
 		
 		first  := self.glyphOrder[firstIndex]
 		second := self.glyphOrder[secondIndex]
@@ -808,6 +811,9 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		if kerningClass == 0 {
 			return parser.NewError("kerning pair class can't be zero")
 		}
+		if int(firstIndex) >= len(self.glyphOrder) || int(secondIndex) >= len(self.glyphOrder) {
+			return parser.NewError("kerning pair uses an undefined glyph")
+		}
 		
 		first  := self.glyphOrder[firstIndex]
 		second := self.glyphOrder[secondIndex]
-- 
2.43.0


From 6da89ea9d06dc98c8585d3cd8350bd87893a7dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:33 +0000
Subject: [PATCH 61/85] fix: edition data with undefined kerning classes was
 accepted and made builds panic

---
 builder/font_builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 91d7855..61ee391 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -785,6 +785,9 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		if kerningClass == 0 {
 			return parser.NewError("kerning pair class can't be zero")
 		}
+		if kerningClass > numKerningClasses {
+			return parser.NewError("kerning pair uses an undefined class")
+		}
 		if int(firstIndex) >= len(self.glyphOrder) || int(secondIndex) >= len(self.glyphOrder) {
 			return parser.NewError("kerning pair uses an undefined glyph")
 		}
@@ -811,6 +814,9 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		if kerningClass == 0 {
 			return parser.NewError("kerning pair class can't be zero")
 		}
+		if kerningClass > numKerningClasses {
+			return parser.NewError("kerning pair uses an undefined class")
+		}
 		if int(firstIndex) >= len(self.glyphOrder) || int(secondIndex) >= len(self.glyphOrder) {
 			return parser.NewError("kerning pair uses an undefined glyph")
 		}
-- 
2.43.0


From 7015e56e2b838e2381141a73b5981d4edbe38542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:34 +0000
Subject: [PATCH 62/85] fix: clearing edition data left the kerning pairs it
 had added with zero values

---
 builder/font_builder.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 61ee391..21dc7cc 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -863,11 +863,17 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 func (self *Font) ClearEditionData() {
 	self.categories = self.categories[ : 0]
 	self.kerningClasses = self.kerningClasses[ : 0]
-	for _, kerningPair := range self.horzKerningPairs {
+	for key, kerningPair := range self.horzKerningPairs {
 		kerningPair.Class = 0
+		if kerningPair.Value == 0 { // pair only defined through its class
+			delete(self.horzKerningPairs, key)
+		}
 	}
-	for _, kerningPair := range self.vertKerningPairs {
+	for key, kerningPair := range self.vertKerningPairs {
 		kerningPair.Class = 0
+		if kerningPair.Value == 0 { // pair only defined through its class
+			delete(self.vertKerningPairs, key)
+		}
 	}
 	for i, _ := range self.rewriteConditions {
 		self.rewriteConditions[i].EditorName = ""
-- 
2.43.0


From 6c91a589266bf37b56304629a2752b5aa06005d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:56 +0000
Subject: [PATCH 63/85] fix: rewrite testers panicked after an invalid rule
 error

---
 internal/rerules/glyphrule/tester.go | 5 ++++-
 internal/rerules/utf8rule/tester.go  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 9550603..2c7d178 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -208,7 +208,10 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 				// (NOTE: this is not particularly efficient)
 				if self.rules[ruleIndex].Condition() == tree.Condition {
 					err := compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
-					if err != nil { return err }
+					if err != nil {
+						tree.DecisionTree.states = compiler.Finish()
+						return err
+					}
 					numRulesFound += 1
 				}
 			}
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 22f72bb..ef79949 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -208,7 +208,10 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 				// (NOTE: this is not particularly efficient)
 				if self.rules[ruleIndex].Condition() == tree.Condition {
 					err := compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
-					if err != nil { return err }
+					if err != nil {
+						tree.DecisionTree.states = compiler.Finish()
+						return err
+					}
 					numRulesFound += 1
 				}
 			}
-- 
2.43.0


From 3280692feffe944d2a11fe206cdfa31530344ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:57 +0000
Subject: [PATCH 64/85] fix: rewrite rule ranges beginning before others
 overlapped their transitions

---
 internal/rerules/glyphrule/decision_tree_state.go | 2 +-
 internal/rerules/utf8rule/decision_tree_state.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index cff16de..b0512c2 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -124,7 +124,7 @@ func (self *State) confrontRanges(candidateRange, incomingRange ggfnt.GlyphRange
 		if incomingRange.Last < candidateRange.First {
 			return noSplitPre, incomingRange
 		} else {
-			return noSplitPre, ggfnt.GlyphRange{ incomingRange.First, candidateRange.Last - 1 }
+			return noSplitPre, ggfnt.GlyphRange{ incomingRange.First, candidateRange.First - 1 }
 		}
 	} else if incomingRange.First == candidateRange.First { // splitFirst*
 		if incomingRange.Last >= candidateRange.Last {
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index 04df50d..a358630 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -123,7 +123,7 @@ func (self *State) confrontRanges(candidateRange, incomingRange RuneRange) (spli
 		if incomingRange.Last < candidateRange.First {
 			return noSplitPre, incomingRange
 		} else {
-			return noSplitPre, RuneRange{ incomingRange.First, candidateRange.Last - 1 }
+			return noSplitPre, RuneRange{ incomingRange.First, candidateRange.First - 1 }
 		}
 	} else if incomingRange.First == candidateRange.First { // splitFirst*
 		if incomingRange.Last >= candidateRange.Last {
-- 
2.43.0


From 8e2de501fab3f36259bfcda6ed8fa49429ae0ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:58 +0000
Subject: [PATCH 65/85] fix: rewrite rules with partially overlapping ranges
 panicked

---
 internal/rerules/glyphrule/decision_tree_state.go | 2 +-
 internal/rerules/utf8rule/decision_tree_state.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index b0512c2..cae2edf 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -185,7 +185,7 @@ func (self *State) splitTransitionAt(transIndex TransitionIndex, lastGlyphOfPre
 	vacatedRange := self.Transitions[transIndex].ShortenRTL(lastGlyphOfPre)
 	newTransIndex, err := self.unsafeInsertUninitializedTransition(vacatedRange)
 	if err != nil { return err }
-	if transIndex != newTransIndex + 1 { panic(BrokenCode) }
+	if newTransIndex != transIndex + 1 { panic(BrokenCode) }
 
 	// initialize new transition to match the previously existing one
 	self.Transitions[newTransIndex].NextState = self.Transitions[transIndex].NextState
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index a358630..8b01fed 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -184,7 +184,7 @@ func (self *State) splitTransitionAt(transIndex TransitionIndex, lastRuneOfPre r
 	vacatedRange := self.Transitions[transIndex].ShortenRTL(lastRuneOfPre)
 	newTransIndex, err := self.unsafeInsertUninitializedTransition(vacatedRange)
 	if err != nil { return err }
-	if transIndex != newTransIndex + 1 { panic(BrokenCode) }
+	if newTransIndex != transIndex + 1 { panic(BrokenCode) }
 
 	// initialize new transition to match the previously existing one
 	self.Transitions[newTransIndex].NextState = self.Transitions[transIndex].NextState
-- 
2.43.0


From c00003b1537eef4b648d4997b0782e4222351f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:59 +0000
Subject: [PATCH 66/85] fix: rewrite rule ranges ending with another range
 panicked

---
 internal/rerules/glyphrule/decision_tree_state.go | 4 ++--
 internal/rerules/utf8rule/decision_tree_state.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index cae2edf..1b924c3 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -85,12 +85,12 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
 			// ^ we terminate here
 		case splitMidLast:
-			err := self.splitTransitionBy(candidateTrans, splitRange)
+			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
 			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
 			if err != nil { return err }
 			glyphRange.First = splitRange.Last + 1
-			candidateTrans += 1
+			candidateTrans += 2
 		case noSplitPost:
 			// we have to see if the next transition applies
 			candidateTrans += 1
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index 8b01fed..fb164f2 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -84,12 +84,12 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
 			// ^ we terminate here
 		case splitMidLast:
-			err := self.splitTransitionBy(candidateTrans, splitRange)
+			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
 			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
 			if err != nil { return err }
 			runeRange.First = splitRange.Last + 1
-			candidateTrans += 1
+			candidateTrans += 2
 		case noSplitPost:
 			// we have to see if the next transition applies
 			candidateTrans += 1
-- 
2.43.0


From 69e91aa88d8ae71707b857973319bf449314b1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:00 +0000
Subject: [PATCH 67/85] fix: rewrite rules extending part of a shorter rule
 range panicked

---
 internal/rerules/glyphrule/decision_tree_compiler.go | 1 -
 internal/rerules/utf8rule/decision_tree_compiler.go  | 1 -
 2 files changed, 2 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 90cf1cd..a7005e2 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -196,7 +196,6 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 	// update tracking and helper variables
 	self.appendStateToNextRound(resultStateIndex)
 	self.adjustStateUseCount(resultStateIndex, 1)
-	if referenceStateIndex == StateNone && numSplits != 0 { panic(PreViolation) }
 	if referenceStateIndex != StateNone {
 		if numSplits < 0 || numSplits > 2 { panic(PreViolation) }
 		self.adjustStateUseCount(referenceStateIndex, numSplits - 1)
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 680b900..70f161d 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -197,7 +197,6 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 	// update tracking and helper variables
 	self.appendStateToNextRound(resultStateIndex)
 	self.adjustStateUseCount(resultStateIndex, 1)
-	if referenceStateIndex == StateNone && numSplits != 0 { panic(PreViolation) }
 	if referenceStateIndex != StateNone {
 		if numSplits < 0 || numSplits > 2 { panic(PreViolation) }
 		self.adjustStateUseCount(referenceStateIndex, numSplits - 1)
-- 
2.43.0


From f54bdafc6b67e563394ebbaba7fdb1d9d356bcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:31 +0000
Subject: [PATCH 68/85] fix: rewrite sets with overlapping or repeated elements
 panicked

---
 internal/rerules/glyphrule/decision_tree_compiler.go | 10 ++++++++++
 internal/rerules/utf8rule/decision_tree_compiler.go  | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index a7005e2..e631a18 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -175,6 +175,16 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 
 type StateLinkerFn = func(StateIndex, int) (StateIndex, error)
 func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, numSplits int) (StateIndex, error) {
+	// if the reference state already includes the rule (overlapping or
+	// repeated set elements), there's nothing to extend
+	if referenceStateIndex != StateNone {
+		_, found := internal.BadBinarySearch(self.run.TrackerStateRules[referenceStateIndex - 1], self.run.RuleIndex)
+		if found {
+			self.adjustStateUseCount(referenceStateIndex, numSplits)
+			return referenceStateIndex, nil
+		}
+	}
+
 	// check if the desired state already exists
 	resultStateIndex := self.fetchReusableState(referenceStateIndex)
 	
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 70f161d..23ebf65 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -176,6 +176,16 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 
 type StateLinkerFn = func(StateIndex, int) (StateIndex, error)
 func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, numSplits int) (StateIndex, error) {
+	// if the reference state already includes the rule (overlapping or
+	// repeated set elements), there's nothing to extend
+	if referenceStateIndex != StateNone {
+		_, found := internal.BadBinarySearch(self.run.TrackerStateRules[referenceStateIndex - 1], self.run.RuleIndex)
+		if found {
+			self.adjustStateUseCount(referenceStateIndex, numSplits)
+			return referenceStateIndex, nil
+		}
+	}
+
 	// check if the desired state already exists
 	resultStateIndex := self.fetchReusableState(referenceStateIndex)
 	
-- 
2.43.0


From 2e9f952f38468eac266ca1b808a146ce9855055e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:32 +0000
Subject: [PATCH 69/85] fix: rewrite rule states with more than two rules were
 never reused

---
 internal/rerules/glyphrule/decision_tree_compiler.go | 4 ++--
 internal/rerules/utf8rule/decision_tree_compiler.go  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index e631a18..d3aba7d 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -235,9 +235,9 @@ func (self *DecisionTreeCompiler) fetchReusableState(referenceStateIndex StateIn
 	if referenceStateIndex != StateNone {
 		rules = self.run.TrackerStateRules[referenceStateIndex - 1]
 		for i, _ := range rules {
-			if rules[i] < self.run.RuleIndex { comparisonRulePosition += 1 }
 			if rules[i] == self.run.RuleIndex { panic(BrokenCode) }
-			break
+			if rules[i] > self.run.RuleIndex { break }
+			comparisonRulePosition += 1
 		}
 	}
 
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 23ebf65..d5b125a 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -236,9 +236,9 @@ func (self *DecisionTreeCompiler) fetchReusableState(referenceStateIndex StateIn
 	if referenceStateIndex != StateNone {
 		rules = self.run.TrackerStateRules[referenceStateIndex - 1]
 		for i, _ := range rules {
-			if rules[i] < self.run.RuleIndex { comparisonRulePosition += 1 }
 			if rules[i] == self.run.RuleIndex { panic(BrokenCode) }
-			break
+			if rules[i] > self.run.RuleIndex { break }
+			comparisonRulePosition += 1
 		}
 	}
 
-- 
2.43.0


From a12fa565ee2de50d70ff1c5c55ded1806ae95c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:33 +0000
Subject: [PATCH 70/85] fix: rewrite rules with states used more than 255 times
 panicked

---
 internal/rerules/glyphrule/decision_tree_compiler.go | 6 +++---
 internal/rerules/utf8rule/decision_tree_compiler.go  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index d3aba7d..bd1eaa4 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -32,7 +32,7 @@ type DecisionTreeCompiler struct {
 
 		TrackerFreedStates []StateIndex // indices of states that can be repurposed due to no use
 		// all the remaining slices begin with state index 1 (0 is root)
-		TrackerStateUses []uint8 // use counts for each state. when 0, we can clean them up
+		TrackerStateUses []uint16 // use counts for each state. when 0, we can clean them up
 		TrackerStateRules [][]RuleIndex // rules involved in the state, sorted (asc.)
 		TrackerStatesByDepth [][]StateIndex // depth to list of states on that depth level, sorted (asc.)
 	}
@@ -304,8 +304,8 @@ func (self *DecisionTreeCompiler) adjustStateUseCount(stateIndex StateIndex, del
 	} else {
 		result = int(self.run.TrackerStateUses[stateIndex]) + delta
 	}
-	if result > 255 || result < 0 { panic(BrokenCode) }
-	self.run.TrackerStateUses[stateIndex] = uint8(result)
+	if result > 65535 || result < 0 { panic(BrokenCode) }
+	self.run.TrackerStateUses[stateIndex] = uint16(result)
 }
 
 // The states can't be 0, as 0 is the root, which is treated separately.
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index d5b125a..47fe6cd 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -32,7 +32,7 @@ type DecisionTreeCompiler struct {
 
 		TrackerFreedStates []StateIndex // indices of states that can be repurposed due to no use
 		// all the remaining slices begin with state index 1 (0 is root)
-		TrackerStateUses []uint8 // use counts for each state. when 0, we can clean them up
+		TrackerStateUses []uint16 // use counts for each state. when 0, we can clean them up
 		TrackerStateRules [][]RuleIndex // rules involved in the state, sorted (asc.)
 		TrackerStatesByDepth [][]StateIndex // depth to list of states on that depth level, sorted (asc.)
 	}
@@ -305,8 +305,8 @@ func (self *DecisionTreeCompiler) adjustStateUseCount(stateIndex StateIndex, del
 	} else {
 		result = int(self.run.TrackerStateUses[stateIndex]) + delta
 	}
-	if result > 255 || result < 0 { panic(BrokenCode) }
-	self.run.TrackerStateUses[stateIndex] = uint8(result)
+	if result > 65535 || result < 0 { panic(BrokenCode) }
+	self.run.TrackerStateUses[stateIndex] = uint16(result)
 }
 
 // The states can't be 0, as 0 is the root, which is treated separately.
-- 
2.43.0


From 1339ee8f3740b16732b6a2665b3dbbfd4bfd6877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:34 +0000
Subject: [PATCH 71/85] fix: rewrite rule transitions could be lost when
 compiling many states

---
 internal/rerules/glyphrule/decision_tree_compiler.go | 3 +++
 internal/rerules/utf8rule/decision_tree_compiler.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index bd1eaa4..fe7d978 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -48,6 +48,9 @@ func (self *DecisionTreeCompiler) Begin(font *ggfnt.Font, buffer []State) {
 
 	self.compiling = true
 	self.states = buffer[ : 0]
+	if cap(self.states) < 254 { // states can't be relocated while they are being modified
+		self.states = append(make([]State, 0, 254), buffer[ : cap(buffer)]...)[ : 0]
+	}
 	
 	self.run.Font = font
 	self.run.TrackerStateRules = self.run.TrackerStateRules[ : 0]
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 47fe6cd..4a7ff5f 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -48,6 +48,9 @@ func (self *DecisionTreeCompiler) Begin(font *ggfnt.Font, buffer []State) {
 
 	self.compiling = true
 	self.states = buffer[ : 0]
+	if cap(self.states) < 254 { // states can't be relocated while they are being modified
+		self.states = append(make([]State, 0, 254), buffer[ : cap(buffer)]...)[ : 0]
+	}
 	
 	self.run.Font = font
 	self.run.TrackerStateRules = self.run.TrackerStateRules[ : 0]
-- 
2.43.0


From 0aa43b008913a01f17f2dd8f40a0e8bd150b7008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:17 +0000
Subject: [PATCH 72/85] fix: rewrite rule states still in use were overwritten

---
 .../glyphrule/decision_tree_compiler.go       | 35 ++++++++++++++++---
 .../rerules/glyphrule/decision_tree_state.go  |  2 +-
 .../glyphrule/decision_tree_transition.go     |  5 +--
 .../utf8rule/decision_tree_compiler.go        | 35 ++++++++++++++++---
 .../rerules/utf8rule/decision_tree_state.go   |  2 +-
 .../utf8rule/decision_tree_transition.go      |  5 +--
 6 files changed, 68 insertions(+), 16 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index fe7d978..2df1ced 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -153,10 +153,17 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	// the main idea of this little snippet is to iterate the states
 	// at the target depth to see if they can be removed, and while
 	// we are at it, we also keep "compacting" the slice by moving
-	// remaining state indices to fill any gaps created
+	// remaining state indices to fill any gaps created. states at deeper
+	// levels might also lose their last uses, so we have to continue with those
+	depth := int(self.run.Depth) - 1 // TrackerStatesByDepth begins at depth 1
+	for depth < len(self.run.TrackerStatesByDepth) {
+		self.freeUnusedStatesAtDepth(depth)
+		depth += 1
+	}
+}
+
+func (self *DecisionTreeCompiler) freeUnusedStatesAtDepth(depth int) {
 	var freedCount int = 0
-	depth := self.run.Depth - 1 // TrackerStatesByDepth begins at depth 1
-	
 	for i, state := range self.run.TrackerStatesByDepth[depth] {
 		if state == 0 { panic(BrokenCode) }
 		if self.run.TrackerStateUses[state - 1] == 0 {
@@ -164,6 +171,7 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 			// notice: we don't reset state info here yet, it will have
 			//         to be reset later when we need it again
 			self.run.TrackerFreedStates = append(self.run.TrackerFreedStates, state)
+			self.adjustNextStatesUseCounts(state, -1)
 			freedCount += 1
 		} else if freedCount > 0 {
 			self.run.TrackerStatesByDepth[depth][i - freedCount] = state
@@ -176,8 +184,16 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	}
 }
 
-type StateLinkerFn = func(StateIndex, int) (StateIndex, error)
-func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, numSplits int) (StateIndex, error) {
+type StateLinkerFn = func(StateIndex, int, RuleIndex) (StateIndex, error)
+func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, numSplits int, ruleMatchIndex RuleIndex) (StateIndex, error) {
+	// on rule matches the state remains the same, but splits still add uses
+	if ruleMatchIndex != RuleNone {
+		if referenceStateIndex != StateNone {
+			self.adjustStateUseCount(referenceStateIndex, numSplits)
+		}
+		return referenceStateIndex, nil
+	}
+
 	// if the reference state already includes the rule (overlapping or
 	// repeated set elements), there's nothing to extend
 	if referenceStateIndex != StateNone {
@@ -198,6 +214,7 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 		if err != nil { return StateNone, err }
 		if referenceStateIndex != StateNone {
 			self.states[resultStateIndex].CopyDataFrom(self.states[referenceStateIndex])
+			self.adjustNextStatesUseCounts(resultStateIndex, 1)
 			self.initializeStateRulesWithRef(resultStateIndex, referenceStateIndex)
 		} else {
 			self.states[resultStateIndex].Reset()
@@ -311,6 +328,14 @@ func (self *DecisionTreeCompiler) adjustStateUseCount(stateIndex StateIndex, del
 	self.run.TrackerStateUses[stateIndex] = uint16(result)
 }
 
+// Adjusts the use counts of the states that the given state transitions to.
+func (self *DecisionTreeCompiler) adjustNextStatesUseCounts(stateIndex StateIndex, delta int) {
+	for _, transition := range self.states[stateIndex].Transitions {
+		if transition.NextState == StateNone { continue }
+		self.adjustStateUseCount(transition.NextState, delta)
+	}
+}
+
 // The states can't be 0, as 0 is the root, which is treated separately.
 func (self *DecisionTreeCompiler) initializeStateRulesWithRef(stateIndex StateIndex, referenceIndex StateIndex) {
 	if stateIndex == 0 || referenceIndex == 0 { panic(PreViolation) }
diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index 1b924c3..7233fb2 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -151,7 +151,7 @@ func (self *State) insertNewTransition(glyphRange ggfnt.GlyphRange, ruleMatchInd
 	// initialize remaining transition properties
 	self.Transitions[index].RuleMatch = ruleMatchIndex
 	if ruleMatchIndex == RuleNone {
-		self.Transitions[index].NextState, err = stateLinker(StateNone, numSplits)
+		self.Transitions[index].NextState, err = stateLinker(StateNone, numSplits, RuleNone)
 		return err
 	} else {
 		self.Transitions[index].NextState = StateNone
diff --git a/internal/rerules/glyphrule/decision_tree_transition.go b/internal/rerules/glyphrule/decision_tree_transition.go
index 337a14a..e9c3fdd 100644
--- a/internal/rerules/glyphrule/decision_tree_transition.go
+++ b/internal/rerules/glyphrule/decision_tree_transition.go
@@ -18,10 +18,11 @@ func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn
 		if self.RuleMatch == RuleNone {
 			self.RuleMatch = ruleMatchIndex
 		}
-		return nil
+		_, err := stateLinker(self.NextState, numSplits, ruleMatchIndex)
+		return err
 	} else { // add next state
 		var err error
-		self.NextState, err = stateLinker(self.NextState, numSplits)
+		self.NextState, err = stateLinker(self.NextState, numSplits, RuleNone)
 		return err
 	}
 }
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 4a7ff5f..3154599 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -154,10 +154,17 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	// the main idea of this little snippet is to iterate the states
 	// at the target depth to see if they can be removed, and while
 	// we are at it, we also keep "compacting" the slice by moving
-	// remaining state indices to fill any gaps created
+	// remaining state indices to fill any gaps created. states at deeper
+	// levels might also lose their last uses, so we have to continue with those
+	depth := int(self.run.Depth) - 1 // TrackerStatesByDepth begins at depth 1
+	for depth < len(self.run.TrackerStatesByDepth) {
+		self.freeUnusedStatesAtDepth(depth)
+		depth += 1
+	}
+}
+
+func (self *DecisionTreeCompiler) freeUnusedStatesAtDepth(depth int) {
 	var freedCount int = 0
-	depth := self.run.Depth - 1 // TrackerStatesByDepth begins at depth 1
-	
 	for i, state := range self.run.TrackerStatesByDepth[depth] {
 		if state == 0 { panic(BrokenCode) }
 		if self.run.TrackerStateUses[state - 1] == 0 {
@@ -165,6 +172,7 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 			// notice: we don't reset state info here yet, it will have
 			//         to be reset later when we need it again
 			self.run.TrackerFreedStates = append(self.run.TrackerFreedStates, state)
+			self.adjustNextStatesUseCounts(state, -1)
 			freedCount += 1
 		} else if freedCount > 0 {
 			self.run.TrackerStatesByDepth[depth][i - freedCount] = state
@@ -177,8 +185,16 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	}
 }
 
-type StateLinkerFn = func(StateIndex, int) (StateIndex, error)
-func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, numSplits int) (StateIndex, error) {
+type StateLinkerFn = func(StateIndex, int, RuleIndex) (StateIndex, error)
+func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, numSplits int, ruleMatchIndex RuleIndex) (StateIndex, error) {
+	// on rule matches the state remains the same, but splits still add uses
+	if ruleMatchIndex != RuleNone {
+		if referenceStateIndex != StateNone {
+			self.adjustStateUseCount(referenceStateIndex, numSplits)
+		}
+		return referenceStateIndex, nil
+	}
+
 	// if the reference state already includes the rule (overlapping or
 	// repeated set elements), there's nothing to extend
 	if referenceStateIndex != StateNone {
@@ -199,6 +215,7 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 		if err != nil { return StateNone, err }
 		if referenceStateIndex != StateNone {
 			self.states[resultStateIndex].CopyDataFrom(self.states[referenceStateIndex])
+			self.adjustNextStatesUseCounts(resultStateIndex, 1)
 			self.initializeStateRulesWithRef(resultStateIndex, referenceStateIndex)
 		} else {
 			self.states[resultStateIndex].Reset()
@@ -312,6 +329,14 @@ func (self *DecisionTreeCompiler) adjustStateUseCount(stateIndex StateIndex, del
 	self.run.TrackerStateUses[stateIndex] = uint16(result)
 }
 
+// Adjusts the use counts of the states that the given state transitions to.
+func (self *DecisionTreeCompiler) adjustNextStatesUseCounts(stateIndex StateIndex, delta int) {
+	for _, transition := range self.states[stateIndex].Transitions {
+		if transition.NextState == StateNone { continue }
+		self.adjustStateUseCount(transition.NextState, delta)
+	}
+}
+
 // The states can't be 0, as 0 is the root, which is treated separately.
 func (self *DecisionTreeCompiler) initializeStateRulesWithRef(stateIndex StateIndex, referenceIndex StateIndex) {
 	if stateIndex == 0 || referenceIndex == 0 { panic(PreViolation) }
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index fb164f2..abdb90b 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -150,7 +150,7 @@ func (self *State) insertNewTransition(runeRange RuneRange, ruleMatchIndex RuleI
 	// initialize remaining transition properties
 	self.Transitions[index].RuleMatch = ruleMatchIndex
 	if ruleMatchIndex == RuleNone {
-		self.Transitions[index].NextState, err = stateLinker(StateNone, numSplits)
+		self.Transitions[index].NextState, err = stateLinker(StateNone, numSplits, RuleNone)
 		return err
 	} else {
 		self.Transitions[index].NextState = StateNone
diff --git a/internal/rerules/utf8rule/decision_tree_transition.go b/internal/rerules/utf8rule/decision_tree_transition.go
index b4b472d..34f6b64 100644
--- a/internal/rerules/utf8rule/decision_tree_transition.go
+++ b/internal/rerules/utf8rule/decision_tree_transition.go
@@ -16,10 +16,11 @@ func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn
 		if self.RuleMatch == RuleNone {
 			self.RuleMatch = ruleMatchIndex
 		}
-		return nil
+		_, err := stateLinker(self.NextState, numSplits, ruleMatchIndex)
+		return err
 	} else { // add next state
 		var err error
-		self.NextState, err = stateLinker(self.NextState, numSplits)
+		self.NextState, err = stateLinker(self.NextState, numSplits, RuleNone)
 		return err
 	}
 }
-- 
2.43.0


From aa17b894ee6e9ab201d8dee7e7915882aff10b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:41 +0000
Subject: [PATCH 73/85] fix: rewrite rules with undefined sets panicked

---
 internal/rerules/glyphrule/decision_tree_compiler.go | 6 ++++--
 internal/rerules/utf8rule/decision_tree_compiler.go  | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 2df1ced..b850f5d 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -5,6 +5,7 @@ import "errors"
 
 import "github.com/tinne26/ggfnt"
 import "github.com/tinne26/ggfnt/internal"
+import "github.com/tinne26/ggfnt/internal/rerules"
 
 const CompilerHitLimits = "DecisionTreeCompiler hit a limit on number of states, transitions or a similar parameter"
 var ErrCompilerHitLimits = errors.New(CompilerHitLimits)
@@ -103,6 +104,9 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 		if !self.run.Scanner.HasNext() {
 			matchRule = self.run.RuleIndex
 		}
+		if glyphIndex == GlyphNone && (self.run.Font == nil || uint8(glyphSet) >= self.run.Font.Rewrites().NumGlyphSets()) {
+			return rerules.ErrInvalidReRule // undefined set
+		}
 
 		// since the decision tree can widen during the process, we need
 		// to keep updating all the possible branches that have been opening
@@ -119,8 +123,6 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 				err := self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
 				if err != nil { return err }
 			} else { // glyph set case
-				if glyphSet == GlyphSetNone { panic(BrokenCode) } // discretionary safety assertion
-	
 				set := self.run.Font.Rewrites().GetGlyphSet(uint8(glyphSet))
 				err := set.EachRange(func(glyphRange ggfnt.GlyphRange) error {
 					return self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 3154599..e0d2c7d 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -5,6 +5,7 @@ import "errors"
 
 import "github.com/tinne26/ggfnt"
 import "github.com/tinne26/ggfnt/internal"
+import "github.com/tinne26/ggfnt/internal/rerules"
 
 const CompilerHitLimits = "DecisionTreeCompiler hit a limit on number of states, transitions or a similar parameter"
 var ErrCompilerHitLimits = errors.New(CompilerHitLimits)
@@ -103,6 +104,9 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 		if !self.run.Scanner.HasNext() {
 			matchRule = self.run.RuleIndex
 		}
+		if codePoint == RuneError && (self.run.Font == nil || uint8(utf8Set) >= self.run.Font.Rewrites().NumUTF8Sets()) {
+			return rerules.InvalidUtf8RuleErr(rule) // undefined set
+		}
 
 		// since the decision tree can widen during the process, we need
 		// to keep updating all the possible branches that have been opening
@@ -119,8 +123,6 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 				err := self.states[state].AppendRange(runeRange, matchRule, self.stateLinker)
 				if err != nil { return err }
 			} else { // utf8 set case
-				if utf8Set == Utf8SetNone { panic(BrokenCode) } // discretionary safety assertion
-	
 				set := self.run.Font.Rewrites().GetUtf8Set(uint8(utf8Set))
 				err := set.EachRange(func(firstRune, lastRune rune) error {
 					runeRange := RuneRange{ First: firstRune, Last: lastRune }
-- 
2.43.0


From d36f8ee0ada29e4a545080efffa433e21863a46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:32 +0000
Subject: [PATCH 74/85] fix: rewrite rules with undefined conditions panicked

---
 internal/rerules/glyphrule/tester.go | 10 +++++++++-
 internal/rerules/utf8rule/tester.go  | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 2c7d178..03fe801 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -171,6 +171,7 @@ func (self *Tester) findTreeByCondition(condition uint8) (int, bool) {
 func (self *Tester) testCondition(condition uint8, font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) bool {
 	// base case, not needed in general, but allows font and settings to be nil
 	if condition == 255 { return true }
+	if !self.isDefinedCondition(condition, font) { return false }
 
 	// general case
 	satisfied, cached := settingsCache.GetRewriteCondition(condition)
@@ -181,6 +182,10 @@ func (self *Tester) testCondition(condition uint8, font *ggfnt.Font, settingsCac
 	return satisfied
 }
 
+func (self *Tester) isDefinedCondition(condition uint8, font *ggfnt.Font) bool {
+	return condition == 255 || (font != nil && condition < font.Rewrites().NumConditions())
+}
+
 func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) error {
 	// assume no concurrent tester recompilations will happen.
 	// if they happen.. performance might struggle but behavior
@@ -207,7 +212,10 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 			for ruleIndex, _ := range self.rules {
 				// (NOTE: this is not particularly efficient)
 				if self.rules[ruleIndex].Condition() == tree.Condition {
-					err := compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
+					err := rerules.ErrInvalidReRule
+					if self.isDefinedCondition(tree.Condition, font) {
+						err = compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
+					}
 					if err != nil {
 						tree.DecisionTree.states = compiler.Finish()
 						return err
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index ef79949..32cb0d4 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -171,6 +171,7 @@ func (self *Tester) findTreeByCondition(condition uint8) (int, bool) {
 func (self *Tester) testCondition(condition uint8, font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) bool {
 	// base case, not needed in general, but allows font and settings to be nil
 	if condition == 255 { return true }
+	if !self.isDefinedCondition(condition, font) { return false }
 
 	// general case
 	satisfied, cached := settingsCache.GetRewriteCondition(condition)
@@ -181,6 +182,10 @@ func (self *Tester) testCondition(condition uint8, font *ggfnt.Font, settingsCac
 	return satisfied
 }
 
+func (self *Tester) isDefinedCondition(condition uint8, font *ggfnt.Font) bool {
+	return condition == 255 || (font != nil && condition < font.Rewrites().NumConditions())
+}
+
 func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) error {
 	// assume no concurrent tester recompilations will happen.
 	// if they happen.. performance might struggle but behavior
@@ -207,7 +212,10 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 			for ruleIndex, _ := range self.rules {
 				// (NOTE: this is not particularly efficient)
 				if self.rules[ruleIndex].Condition() == tree.Condition {
-					err := compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
+					err := rerules.InvalidUtf8RuleErr(self.rules[ruleIndex])
+					if self.isDefinedCondition(tree.Condition, font) {
+						err = compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
+					}
 					if err != nil {
 						tree.DecisionTree.states = compiler.Finish()
 						return err
-- 
2.43.0


From e59c3d8090c48f9a676cc7c75c5a8cca733eec56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:32 +0000
Subject: [PATCH 75/85] fix: rewrite testers remained operating after failing
 to begin a sequence

---
 internal/rerules/glyphrule/tester.go | 2 +-
 internal/rerules/utf8rule/tester.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 03fe801..5632dbc 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -98,11 +98,11 @@ type GlyphConfirmationFunc = func(ggfnt.GlyphIndex)
 func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) error {
 	if self.isOperating { panic(PreViolation) }
 	
-	self.isOperating = true
 	if self.needsRecompile {
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.isOperating = true
 	self.treesRestartDetection()
 
 	return nil
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 32cb0d4..41629ee 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -99,11 +99,11 @@ type Utf8ConfirmationFunc = func(rune)
 func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) error {
 	if self.isOperating { panic(PreViolation) }
 	
-	self.isOperating = true
 	if self.needsRecompile {
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.isOperating = true
 	self.treesRestartDetection()
 
 	return nil
-- 
2.43.0


From 15f23293cba1754137812b0b6efbf2b3b2a4201c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:33 +0000
Subject: [PATCH 76/85] fix: rewrite testers without rules panicked

---
 internal/rerules/glyphrule/tester.go | 6 ++++++
 internal/rerules/utf8rule/tester.go  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 5632dbc..4da3634 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -116,6 +116,12 @@ func (self *Tester) Feed(glyphIndex ggfnt.GlyphIndex, fn GlyphConfirmationFunc)
 		return errors.New("unxpected control glyph index '" + strconv.Itoa(int(glyphIndex)) + "'")
 	}
 	
+	// without rules there's nothing to detect
+	if len(self.rules) == 0 {
+		fn(glyphIndex)
+		return nil
+	}
+
 	// feed glyph and see if we stopped running
 	self.accumulator.Push(glyphIndex)
 	detectionRunning := self.treesFeedUnrestrictedGlyph(glyphIndex)
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 41629ee..f508097 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -116,6 +116,12 @@ func (self *Tester) Feed(codePoint rune, fn Utf8ConfirmationFunc) error {
 		return errors.New("invalid rune " + strconv.Itoa(int(codePoint)) + "")
 	}
 	
+	// without rules there's nothing to detect
+	if len(self.rules) == 0 {
+		fn(codePoint)
+		return nil
+	}
+
 	// feed code point and see if we stopped running
 	self.accumulator.Push(codePoint)
 	detectionRunning := self.treesFeedUnrestrictedRune(codePoint)
-- 
2.43.0


From 1e88d02e967e4a9a4b9a74c8ee1f4f3dbe908cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:34 +0000
Subject: [PATCH 77/85] fix: rewrite rules were applied even if their
 conditions weren't satisfied

---
 internal/rerules/glyphrule/tester.go | 3 +++
 internal/rerules/utf8rule/tester.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 4da3634..e602efe 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -346,6 +346,9 @@ func (self *Tester) treesRestartDetection() {
 			self.trees[i].BreakSequence()
 		}
 		self.trees[i].BeginSequence()
+		if !self.trees[i].ConditionCachedValue {
+			self.trees[i].BreakSequence()
+		}
 	}
 }
 
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index f508097..096acf0 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -346,6 +346,9 @@ func (self *Tester) treesRestartDetection() {
 			self.trees[i].BreakSequence()
 		}
 		self.trees[i].BeginSequence()
+		if !self.trees[i].ConditionCachedValue {
+			self.trees[i].BreakSequence()
+		}
 	}
 }
 
-- 
2.43.0


From cfbf2e75709e66136a84f85175fd310cb1ae19bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:35 +0000
Subject: [PATCH 78/85] fix: refreshed rewrite conditions didn't apply to the
 next element of the sequence

---
 internal/rerules/glyphrule/tester.go | 3 +++
 internal/rerules/utf8rule/tester.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index e602efe..6bc3cee 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -89,6 +89,9 @@ func (self *Tester) RefreshConditions(font *ggfnt.Font, settingsCache *ggfnt.Set
 		self.trees[i].ConditionCachedValue = satisfied
 		self.trees[i].ConditionIsCached = true
 	}
+	if self.isOperating && self.accumulator.IsEmpty() {
+		self.treesRestartDetection()
+	}
 }
 
 // --- glyph sequence operations ---
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 096acf0..0930275 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -90,6 +90,9 @@ func (self *Tester) RefreshConditions(font *ggfnt.Font, settingsCache *ggfnt.Set
 		self.trees[i].ConditionCachedValue = satisfied
 		self.trees[i].ConditionIsCached = true
 	}
+	if self.isOperating && self.accumulator.IsEmpty() {
+		self.treesRestartDetection()
+	}
 }
 
 // --- utf8 sequence operations ---
-- 
2.43.0


From f5dbf8887107ffc0373baa29167e5771216c46b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:49 +0000
Subject: [PATCH 79/85] fix: rewrite rules with heads longer than the previous
 rule tail were ignored

---
 internal/rerules/glyphrule/decision_tree_state.go | 2 +-
 internal/rerules/utf8rule/decision_tree_state.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index 7233fb2..58165bc 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -46,7 +46,7 @@ func (self *State) Trigger(glyphIndex ggfnt.GlyphIndex) (StateIndex, RuleIndex)
 }
 
 func (self *State) SatisfiesMinRequiredHead(minRequiredHeadLen uint8) bool {
-	return minRequiredHeadLen >= self.MinHeadLen && minRequiredHeadLen <= self.MaxHeadLen
+	return minRequiredHeadLen <= self.MaxHeadLen
 }
 
 // The new range might overlap previous empty areas or previously existing ranges,
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index abdb90b..f6b8ef8 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -45,7 +45,7 @@ func (self *State) Trigger(codePoint rune) (StateIndex, RuleIndex) {
 }
 
 func (self *State) SatisfiesMinRequiredHead(minRequiredHeadLen uint8) bool {
-	return minRequiredHeadLen >= self.MinHeadLen && minRequiredHeadLen <= self.MaxHeadLen
+	return minRequiredHeadLen <= self.MaxHeadLen
 }
 
 // The new range might overlap previous empty areas or previously existing ranges,
-- 
2.43.0


From dc695fb927bff2d53b8877560f85f32811e06633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:50 +0000
Subject: [PATCH 80/85] fix: rewriting panicked when a rule matched the tail of
 the previous one

---
 internal/rerules/glyphrule/tester.go | 13 +++++++++++++
 internal/rerules/utf8rule/tester.go  | 13 +++++++++++++
 2 files changed, 26 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 6bc3cee..80df5d0 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -271,7 +271,9 @@ func (self *Tester) treesFeedHeadGlyph(glyphIndex ggfnt.GlyphIndex) bool {
 	minRequiredHeadLen := self.unflushedTail
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		prevMatch := self.trees[i].BestMatch()
 		self.trees[i].FeedHead(glyphIndex, minRequiredHeadLen)
+		self.treeDiscardTailMatch(i, prevMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -283,7 +285,9 @@ func (self *Tester) treesFeedUnrestrictedGlyph(glyphIndex ggfnt.GlyphIndex) bool
 	var running bool = false
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		prevMatch := self.trees[i].BestMatch()
 		self.trees[i].Feed(glyphIndex)
+		self.treeDiscardTailMatch(i, prevMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -291,6 +295,15 @@ func (self *Tester) treesFeedUnrestrictedGlyph(glyphIndex ggfnt.GlyphIndex) bool
 	return running
 }
 
+// Rules that would rewrite elements of an unflushed tail can't be
+// applied, as those elements have already been reported.
+func (self *Tester) treeDiscardTailMatch(treeIndex int, prevMatch RuleIndex) {
+	match := self.trees[treeIndex].BestMatch()
+	if match != RuleNone && self.rules[match].HeadLen() < self.unflushedTail {
+		self.trees[treeIndex].bestMatch = prevMatch
+	}
+}
+
 func (self *Tester) treesGetBestMatch() RuleIndex {
 	var bestMatch RuleIndex = RuleNone
 	for i, _ := range self.trees {
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 0930275..0cacf4b 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -271,7 +271,9 @@ func (self *Tester) treesFeedHeadRune(codePoint rune) bool {
 	minRequiredHeadLen := self.unflushedTail
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		prevMatch := self.trees[i].BestMatch()
 		self.trees[i].FeedHead(codePoint, minRequiredHeadLen)
+		self.treeDiscardTailMatch(i, prevMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -283,7 +285,9 @@ func (self *Tester) treesFeedUnrestrictedRune(codePoint rune) bool {
 	var running bool = false
 	for i, _ := range self.trees {
 		if !self.trees[i].IsScanning() { continue }
+		prevMatch := self.trees[i].BestMatch()
 		self.trees[i].Feed(codePoint)
+		self.treeDiscardTailMatch(i, prevMatch)
 		if self.trees[i].IsScanning() {
 			running = true
 		}
@@ -291,6 +295,15 @@ func (self *Tester) treesFeedUnrestrictedRune(codePoint rune) bool {
 	return running
 }
 
+// Rules that would rewrite elements of an unflushed tail can't be
+// applied, as those elements have already been reported.
+func (self *Tester) treeDiscardTailMatch(treeIndex int, prevMatch RuleIndex) {
+	match := self.trees[treeIndex].BestMatch()
+	if match != RuleNone && self.rules[match].HeadLen() < self.unflushedTail {
+		self.trees[treeIndex].bestMatch = prevMatch
+	}
+}
+
 func (self *Tester) treesGetBestMatch() RuleIndex {
 	var bestMatch RuleIndex = RuleNone
 	for i, _ := range self.trees {
-- 
2.43.0


From f7b38f78d4eb5573a48c6bb07cb52a6c1d108112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:51 +0000
Subject: [PATCH 81/85] fix: rewriting with a head shared with the previous
 tail removed the wrong elements

---
 internal/rerules/glyphrule/tester.go | 3 ++-
 internal/rerules/utf8rule/tester.go  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 80df5d0..e57f062 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -319,10 +319,11 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn GlyphConfirmationFunc)
 	// report head
 	headLen := self.rules[matchRuleIndex].HeadLen()
 	for i := uint8(0); i < headLen; i++ {
+		glyphIndex := self.accumulator.PopHead()
 		if self.unflushedTail > 0 {
 			self.unflushedTail -= 1
 		} else {
-			fn(self.accumulator.PopHead())
+			fn(glyphIndex)
 		}
 	}
 
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 0cacf4b..c55a004 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -319,10 +319,11 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn Utf8ConfirmationFunc) {
 	// report head
 	headLen := self.rules[matchRuleIndex].HeadLen()
 	for i := uint8(0); i < headLen; i++ {
+		codePoint := self.accumulator.PopHead()
 		if self.unflushedTail > 0 {
 			self.unflushedTail -= 1
 		} else {
-			fn(self.accumulator.PopHead())
+			fn(codePoint)
 		}
 	}
 
-- 
2.43.0


From b65f52869c05a68ee8bb78067848e69ab7d4797a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:52 +0000
Subject: [PATCH 82/85] fix: rewriting could report the wrong tail elements

---
 internal/rerules/glyphrule/tester.go | 1 +
 internal/rerules/utf8rule/tester.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index e57f062..0da07cd 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -343,6 +343,7 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn GlyphConfirmationFunc)
 	// report tail
 	self.unflushedTail = uint8(self.rules[matchRuleIndex].TailLen())
 	if self.unflushedTail > 0 { // we can't pop the tail, but we still gotta report it
+		self.accumulator.DiscardPeeks()
 		fn(self.accumulator.Head())
 		for i := uint8(1); i < self.unflushedTail; i++ {
 			glyphIndex, found := self.accumulator.PeekAhead()
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index c55a004..ff1320c 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -343,6 +343,7 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn Utf8ConfirmationFunc) {
 	// report tail
 	self.unflushedTail = uint8(self.rules[matchRuleIndex].TailLen())
 	if self.unflushedTail > 0 { // we can't pop the tail, but we still gotta report it
+		self.accumulator.DiscardPeeks()
 		fn(self.accumulator.Head())
 		for i := uint8(1); i < self.unflushedTail; i++ {
 			codePoint, found := self.accumulator.PeekAhead()
-- 
2.43.0


From f41b95376ccddeffc88409eb0bde01e526c9522a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:53 +0000
Subject: [PATCH 83/85] fix: breaks and finished sequences kept tail elements
 and ongoing detections

---
 internal/rerules/glyphrule/tester.go | 5 +++++
 internal/rerules/utf8rule/tester.go  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 0da07cd..ded053b 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -153,6 +153,11 @@ func (self *Tester) Break(fn GlyphConfirmationFunc) {
 		}
 		for self.rerunDetection(fn) {}
 	}
+
+	// the tail can't be used by following sequences
+	self.accumulator.Clear()
+	self.unflushedTail = 0
+	self.treesRestartDetection()
 }
 
 func (self *Tester) FinishSequence(fn GlyphConfirmationFunc) {
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index ff1320c..975903d 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -153,6 +153,11 @@ func (self *Tester) Break(fn Utf8ConfirmationFunc) {
 		}
 		for self.rerunDetection(fn) {}
 	}
+
+	// the tail can't be used by following sequences
+	self.accumulator.Clear()
+	self.unflushedTail = 0
+	self.treesRestartDetection()
 }
 
 func (self *Tester) FinishSequence(fn Utf8ConfirmationFunc) {
-- 
2.43.0


From 9537510a0b06cfa8f53615676d27d4d6bcc2c95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:12 +0000
Subject: [PATCH 84/85] fix: invalid rule layouts panicked instead of reporting
 an error

---
 internal/rerules/glyphrule/rule_scanner.go | 24 ++++++++++++++++++++++
 internal/rerules/utf8rule/rule_scanner.go  | 24 ++++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/internal/rerules/glyphrule/rule_scanner.go b/internal/rerules/glyphrule/rule_scanner.go
index bb6446e..4e09eed 100644
--- a/internal/rerules/glyphrule/rule_scanner.go
+++ b/internal/rerules/glyphrule/rule_scanner.go
@@ -32,6 +32,9 @@ func (self *RuleScanner) Start(rule ggfnt.GlyphRewriteRule) error {
 
 	// ensure that output length doesn't exceed body length
 	if rule.BodyLen() < rule.OutLen() { return rerules.ErrInvalidReRule }
+
+	// ensure that the blocks are laid out as declared
+	if !self.hasValidLayout(rule.Data) { return rerules.ErrInvalidReRule }
 	
 	// reset some fields
 	self.rule = rule
@@ -59,6 +62,27 @@ func (self *RuleScanner) Start(rule ggfnt.GlyphRewriteRule) error {
 	return nil
 }
 
+// Returns whether the fragments of the head, body and tail have the declared
+// lengths and take exactly the available data (an empty tail's final zero
+// can be omitted). Expects the data to have at least the minimum length.
+func (self *RuleScanner) hasValidLayout(data []byte) bool {
+	index := 5 + (int(data[4]) << 1)
+	for block := 1; block <= 3; block++ {
+		remaining := int(data[block])
+		if block == 3 && remaining == 0 && index == len(data) { return true }
+		for {
+			if index >= len(data) { return false }
+			sets, values := int(data[index] >> 4), int(data[index] & 0b1111)
+			if sets + values > remaining { return false }
+			if sets + values == 0 && remaining != 0 { return false }
+			index += 1 + sets + (values << 1)
+			remaining -= sets + values
+			if remaining == 0 { break }
+		}
+	}
+	return index == len(data)
+}
+
 func (self *RuleScanner) Condition() uint8 { return self.rule.Condition() }
 func (self *RuleScanner) HeadLen() uint8 { return self.rule.HeadLen() }
 func (self *RuleScanner) BodyLen() uint8 { return self.rule.BodyLen() }
diff --git a/internal/rerules/utf8rule/rule_scanner.go b/internal/rerules/utf8rule/rule_scanner.go
index 9ee5366..9bc0c25 100644
--- a/internal/rerules/utf8rule/rule_scanner.go
+++ b/internal/rerules/utf8rule/rule_scanner.go
@@ -31,6 +31,9 @@ func (self *RuleScanner) Start(rule ggfnt.Utf8RewriteRule) error {
 
 	// ensure that output length doesn't exceed body length
 	if rule.BodyLen() < rule.OutLen() { return rerules.InvalidUtf8RuleErr(rule) }
+
+	// ensure that the blocks are laid out as declared
+	if !self.hasValidLayout(rule.Data) { return rerules.InvalidUtf8RuleErr(rule) }
 	
 	// reset some fields
 	self.rule = rule
@@ -58,6 +61,27 @@ func (self *RuleScanner) Start(rule ggfnt.Utf8RewriteRule) error {
 	return nil
 }
 
+// Returns whether the fragments of the head, body and tail have the declared
+// lengths and take exactly the available data (an empty tail's final zero
+// can be omitted). Expects the data to have at least the minimum length.
+func (self *RuleScanner) hasValidLayout(data []byte) bool {
+	index := 5 + (int(data[4]) << 2)
+	for block := 1; block <= 3; block++ {
+		remaining := int(data[block])
+		if block == 3 && remaining == 0 && index == len(data) { return true }
+		for {
+			if index >= len(data) { return false }
+			sets, values := int(data[index] >> 4), int(data[index] & 0b1111)
+			if sets + values > remaining { return false }
+			if sets + values == 0 && remaining != 0 { return false }
+			index += 1 + sets + (values << 2)
+			remaining -= sets + values
+			if remaining == 0 { break }
+		}
+	}
+	return index == len(data)
+}
+
 func (self *RuleScanner) Condition() uint8 { return self.rule.Condition() }
 func (self *RuleScanner) HeadLen() uint8 { return self.rule.HeadLen() }
 func (self *RuleScanner) BodyLen() uint8 { return self.rule.BodyLen() }
-- 
2.43.0


From 4fd1c3153519357cec774051005baa21f772e577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:04 +0000
Subject: [PATCH 85/85] fix: building a font with 2^24 kerning pairs panicked

---
 builder/font_builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 21dc7cc..d733a62 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -627,8 +627,8 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	}
 
 	// --- kernings ---
-	if len(self.horzKerningPairs) > 16777215 { panic(invalidInternalState) }
-	if len(self.vertKerningPairs) > 16777215 { panic(invalidInternalState) }
+	if len(self.horzKerningPairs) > 16777215 { return nil, errFontDataExceedsMax }
+	if len(self.vertKerningPairs) > 16777215 { return nil, errFontDataExceedsMax }
 	font.OffsetToHorzKernings = uint32(len(data))
 	data = internal.AppendUint24LE(data, uint32(len(self.horzKerningPairs)))
 	self.tempSortingBuffer = self.tempSortingBuffer[ : 0]
-- 
2.43.0

