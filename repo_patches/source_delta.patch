From b02f9fed6b89b90b073e14f123b1e993508f01d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:09 +0000
Subject: [PATCH 01/70] fix: compute header string offsets without uint8
 wraparound

---
 font.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/font.go b/font.go
index 75e605f..f5bfa6a 100644
--- a/font.go
+++ b/font.go
@@ -117,20 +117,20 @@ func (self *FontHeader) Name() string {
 	return unsafe.String(&self.Data[29], nameLen)
 }
 func (self *FontHeader) Family() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
+	nameLen   := int(self.Data[28])
+	familyLen := int(self.Data[29 + nameLen])
 	return unsafe.String(&self.Data[30 + nameLen], familyLen)
 }
 func (self *FontHeader) Author() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
-	authorLen := self.Data[30 + nameLen + familyLen]
+	nameLen   := int(self.Data[28])
+	familyLen := int(self.Data[29 + nameLen])
+	authorLen := int(self.Data[30 + nameLen + familyLen])
 	return unsafe.String(&self.Data[31 + nameLen + familyLen], authorLen)
 }
 func (self *FontHeader) About() string {
-	nameLen   := self.Data[28]
-	familyLen := self.Data[29 + nameLen]
-	authorLen := self.Data[30 + nameLen + familyLen]
+	nameLen   := int(self.Data[28])
+	familyLen := int(self.Data[29 + nameLen])
+	authorLen := int(self.Data[30 + nameLen + familyLen])
 	aboutIndex := 31 + nameLen + familyLen + authorLen
 	aboutLen := internal.DecodeUint16LE(self.Data[aboutIndex : aboutIndex + 2])
 	return unsafe.String(&self.Data[33 + nameLen + familyLen + authorLen], aboutLen)
-- 
2.43.0


From 0489fddac579e8ab3912796760a0bda2a4bee5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:10 +0000
Subject: [PATCH 02/70] fix: compare glyph names lexicographically in
 FindIndexByName

---
 font.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/font.go b/font.go
index f5bfa6a..87feb40 100644
--- a/font.go
+++ b/font.go
@@ -496,7 +496,8 @@ func (self *FontGlyphs) getNthGlyphName(nth uint32, numNamedGlyphs uint32) []byt
 
 func bytesSmallerThanStr(bytes []byte, str string) bool {
 	for i := 0; i < len(bytes); i++ {
-		if i >= len(str) { return true }
+		if i >= len(str) { return false } // bytes has str as a proper prefix
+		if bytes[i] < str[i] { return true }
 		if bytes[i] > str[i] { return false }
 	}
 	if len(bytes) == len(str) { return false } // equal
-- 
2.43.0


From 4be820995a1dfa6990b2592b597a60e43cc94bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:12 +0000
Subject: [PATCH 03/70] fix: index glyph list groups by uint16 elements in
 GlyphMappingGroup.Select

---
 font.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/font.go b/font.go
index 87feb40..aa213d1 100644
--- a/font.go
+++ b/font.go
@@ -734,7 +734,7 @@ func (self *GlyphMappingGroup) Select(choice uint8) GlyphIndex {
 	if (info & 0b1000_0000) != 0 { // range case
 		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 : ]) + uint16(choice))
 	} else {
-		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 + (uint32(choice) << 2) : ]))
+		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 + (uint32(choice) << 1) : ]))
 	}
 }
 
-- 
2.43.0


From d1d4289faf4e32cfc98029ab0fe4487782ba8d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:13 +0000
Subject: [PATCH 04/70] fix: detect range groups when advancing through mapping
 switch cases

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index aa213d1..b654de0 100644
--- a/font.go
+++ b/font.go
@@ -836,7 +836,7 @@ func (self *FontMapping) Utf8WithCache(codePoint rune, settingsCache *SettingsCa
 	for targetSwitchCase > 0 {
 		groupInfo := self.Data[offsetToMappingData + int(startOffset)]
 		groupSize := (groupInfo & 0b0111_1111) + 1
-		groupDefinedAsRange := ((groupSize & 0b1000_0000) != 0)
+		groupDefinedAsRange := ((groupInfo & 0b1000_0000) != 0)
 		if groupDefinedAsRange {
 			startOffset += 3 // 1 byte group size, 2 bytes base glyph
 		} else {
@@ -907,7 +907,7 @@ func (self *FontMapping) Utf8(codePoint rune, settings []uint8) (GlyphMappingGro
 	for targetSwitchCase > 0 {
 		groupInfo := self.Data[offsetToMappingData + int(startOffset)]
 		groupSize := (groupInfo & 0b0111_1111) + 1
-		groupDefinedAsRange := ((groupSize & 0b1000_0000) != 0)
+		groupDefinedAsRange := ((groupInfo & 0b1000_0000) != 0)
 		if groupDefinedAsRange {
 			startOffset += 3 // 1 byte group size, 2 bytes base glyph
 		} else {
-- 
2.43.0


From 76081b4fb50512840b52c54bd2be453d89defc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:45 +0000
Subject: [PATCH 05/70] fix: use correct end offsets and bounds when evaluating
 rewrite conditions

---
 font.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/font.go b/font.go
index b654de0..74a82bd 100644
--- a/font.go
+++ b/font.go
@@ -960,16 +960,15 @@ func (self *FontRewrites) EvaluateCondition(conditionKey uint8, settings []uint8
 	if conditionKey >= numConditions { panic("invalid condition key") }
 
 	var startOffset uint16 = 0
-	endOffset := internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + 1 + uint32(conditionKey) : ])
+	endOffset := internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + 1 + (uint32(conditionKey) << 1) : ])
 	if conditionKey > 0 {
-		startOffset = internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + uint32(conditionKey) : ])
+		startOffset = internal.DecodeUint16LE(self.Data[self.OffsetToRewriteConditions + (uint32(conditionKey) << 1) - 1 : ])
 	}
 	if endOffset <= startOffset { panic(invalidFontData) }
-	endOffset -= 1 // we will evaluate from last to first
 
 	offsetToRewriteConditionsData := self.OffsetToRewriteConditions + 1 + (uint32(numConditions) << 1)
-	maxDataIndex := offsetToRewriteConditionsData + uint32(endOffset)
-	if int(maxDataIndex) >= len(self.Data) { panic(invalidFontData) } // discretionary assertion
+	maxDataIndex := offsetToRewriteConditionsData + uint32(endOffset) // exclusive
+	if int(maxDataIndex) > len(self.Data) { panic(invalidFontData) } // discretionary assertion
 	dataIndex := offsetToRewriteConditionsData + uint32(startOffset)
 	endDataIndex, satisfied := self.evalConditionSubexpr(dataIndex, maxDataIndex, settings)
 	if endDataIndex != maxDataIndex { panic(brokenCode) }
@@ -981,7 +980,7 @@ func (self *FontRewrites) EvaluateCondition(conditionKey uint8, settings []uint8
 
 // Returns the new dataIndex and the result.
 func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, settings []uint8) (uint32, bool) {
-	if dataIndex > maxDataIndex { panic(invalidFontData) }
+	if dataIndex >= maxDataIndex { panic(invalidFontData) }
 
 	ctrl := self.Data[dataIndex]
 	switch ctrl & 0b1110_0000 {
@@ -1063,7 +1062,7 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 }
 
 func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, numSettings uint8) uint32 {
-	if dataIndex > maxDataIndex { panic(invalidFontData) }
+	if dataIndex >= maxDataIndex { panic(invalidFontData) }
 
 	ctrl := self.Data[dataIndex]
 	switch ctrl & 0b1110_0000 {
-- 
2.43.0


From 587834b8b535860946a0535e6841a7e70772c337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:46 +0000
Subject: [PATCH 06/70] fix: don't skip one term too many when short-circuiting
 rewrite conditions

---
 font.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/font.go b/font.go
index 74a82bd..3e955d0 100644
--- a/font.go
+++ b/font.go
@@ -993,9 +993,8 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
 			if satisfied {
 				numSettings := uint8(min(len(settings), 255))
-				for i < numTerms { // could be optimized in some cases, but it's a pain
+				for i += 1; i < numTerms; i++ { // could be optimized in some cases, but it's a pain
 					dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
-					i += 1
 				}
 				return dataIndex, true
 			}
@@ -1010,9 +1009,8 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
 			if !satisfied {
 				numSettings := uint8(min(len(settings), 255))
-				for i < numTerms { // could be optimized in some cases, but it's a pain
+				for i += 1; i < numTerms; i++ { // could be optimized in some cases, but it's a pain
 					dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
-					i += 1
 				}
 				return dataIndex, false
 			}
-- 
2.43.0


From 8ecd17960b53676eca3e752e1df3ccfb0b6c204d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:48 +0000
Subject: [PATCH 07/70] fix: compare setting values instead of setting indices
 in rewrite conditions

---
 font.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/font.go b/font.go
index 3e955d0..9d0fc1c 100644
--- a/font.go
+++ b/font.go
@@ -1017,11 +1017,12 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 		}
 		return dataIndex, true
 	case 0b0100_0000: // comparison
-		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		settingIndex := self.Data[dataIndex + 1]
+		if int(settingIndex) >= len(settings) { panic(invalidFontData) } // discretionary assertion
+		setting := settings[settingIndex]
 		operand := self.Data[dataIndex + 2]
 		if (ctrl & 0b0001_0000) == 0 { // comparing two settings
-			if int(operand) > len(settings) { panic(invalidFontData) } // discretionary assertion
+			if int(operand) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 			operand = settings[operand]
 		}
 		switch (ctrl & 0b0000_1111) {
@@ -1037,22 +1038,22 @@ func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, s
 	case 0b0110_0000: // quick comparison `setting == const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] == constValue
 	case 0b1000_0000: // quick comparison `setting != const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] != constValue
 	case 0b1010_0000: // quick comparison `setting < const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] < constValue
 	case 0b1100_0000: // quick comparison `setting > const`
 		constValue := (ctrl & 0b0001_1111)
 		setting := self.Data[dataIndex + 1]
-		if int(setting) > len(settings) { panic(invalidFontData) } // discretionary assertion
+		if int(setting) >= len(settings) { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2, settings[setting] > constValue
 	default: // undefined control mode
 		panic(invalidFontData)
@@ -1081,9 +1082,9 @@ func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, n
 		}
 		return dataIndex
 	case 0b0100_0000: // comparison
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		if (ctrl & 0b0001_0000) == 0 { // comparing two settings
-			if self.Data[dataIndex + 2] > numSettings { panic(invalidFontData) } // discretionary assertion
+			if self.Data[dataIndex + 2] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		}
 		switch (ctrl & 0b0000_1111) {
 		case 0b000: return dataIndex + 3
@@ -1096,16 +1097,16 @@ func (self *FontRewrites) skipConditionSubexpr(dataIndex, maxDataIndex uint32, n
 			panic(invalidFontData)
 		}
 	case 0b0110_0000: // quick comparison `setting == const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	case 0b1000_0000: // quick comparison `setting != const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	case 0b1010_0000: // quick comparison `setting < const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	case 0b1100_0000: // quick comparison `setting > const`
-		if self.Data[dataIndex + 1] > numSettings { panic(invalidFontData) } // discretionary assertion
+		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion
 		return dataIndex + 2
 	default: // undefined control mode
 		panic(invalidFontData)
-- 
2.43.0


From f0093e35c7fb9470413ab7631ad64e5899e000c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:49 +0000
Subject: [PATCH 08/70] fix: iterate all output elements in rewrite rule
 EachOut methods

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 9d0fc1c..4d90d16 100644
--- a/font.go
+++ b/font.go
@@ -1123,7 +1123,7 @@ func (self *GlyphRewriteRule) InLen() uint8 { return self.Data[1] + self.Data[2]
 func (self *GlyphRewriteRule) OutLen() uint8 { return self.Data[4] } // sequence size
 func (self *GlyphRewriteRule) EachOut(each func(GlyphIndex)) {
 	outSize := int(self.Data[4])
-	for i := 5; i < 5 + outSize; i += 2 {
+	for i := 5; i < 5 + outSize*2; i += 2 {
 		each(GlyphIndex(internal.DecodeUint16LE(self.Data[i : ])))
 	}
 }
@@ -1161,7 +1161,7 @@ func (self *Utf8RewriteRule) InLen() uint8 { return self.Data[1] + self.Data[2]
 func (self *Utf8RewriteRule) OutLen() uint8 { return self.Data[4] } // sequence size
 func (self *Utf8RewriteRule) EachOut(each func(rune)) {
 	outSize := int(self.Data[4])
-	for i := 5; i < 5 + outSize; i += 2 {
+	for i := 5; i < 5 + outSize*4; i += 4 {
 		each(rune(internal.DecodeUint32LE(self.Data[i : ])))
 	}
 }
-- 
2.43.0


From 0463e9255b4513f77a42b29674bc1de5f2efd1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:50 +0000
Subject: [PATCH 09/70] fix: iterate all ranges with their sizes in
 Utf8RewriteSet.EachRange

---
 font.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/font.go b/font.go
index 4d90d16..d53c02e 100644
--- a/font.go
+++ b/font.go
@@ -1241,9 +1241,9 @@ func (self *FontRewrites) GetGlyphSet(set uint8) GlyphRewriteSet {
 type Utf8RewriteSet internal.RawBlock
 func (self *Utf8RewriteSet) EachRange(each func(start, end rune) error) error {
 	numRanges := int(self.Data[0])
-	for i := 1; i < numRanges*5; i += 5 {
+	for i := 1; i < 1 + numRanges*5; i += 5 {
 		codePoint := rune(internal.DecodeUint32LE(self.Data[i : i + 4]))
-		err := each(codePoint, codePoint + rune(self.Data[i + 3]))
+		err := each(codePoint, codePoint + rune(self.Data[i + 4]))
 		if err != nil { return err }
 	}
 	return nil
-- 
2.43.0


From 6e50b99478da1fe50d216e0eef9aca14b59ae8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:05 +0000
Subject: [PATCH 10/70] fix: read group animation flags from the byte following
 the group size

---
 font.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/font.go b/font.go
index d53c02e..5094644 100644
--- a/font.go
+++ b/font.go
@@ -708,7 +708,7 @@ func (self *GlyphMappingGroup) Size() uint8 {
 func (self *GlyphMappingGroup) AnimationFlags() AnimationFlags {
 	if self.directMapping { return 0 }
 	if (0b0111_1111 & self.font.Data[self.offset + 0]) == 0 { return 0 }
-	return AnimationFlags(self.font.Data[self.offset + 2])
+	return AnimationFlags(self.font.Data[self.offset + 1])
 }
 func (self *GlyphMappingGroup) CaseBranch() uint8 {
 	return self.caseBranch
-- 
2.43.0


From d0dd4815e03d69accf163e07179c112fe0dc5733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:06 +0000
Subject: [PATCH 11/70] fix: avoid out of range panic when validating dates
 without month

---
 date.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.go b/date.go
index 3d631b0..9232ed5 100644
--- a/date.go
+++ b/date.go
@@ -26,7 +26,7 @@ func (self *Date) IsValid() bool {
 	if self.Month == 0 && self.Day != 0 { return false }
 	if self.Year == 0 && (self.Month != 0 || self.Day != 0) { return false }
 	if self.Month > 12 { return false }
-	if self.Day > self.monthDays() { return false }
+	if self.Day != 0 && self.Day > self.monthDays() { return false } // note: day != 0 implies month != 0
 	return true
 }
 
-- 
2.43.0


From 39bd95b5f7b7e54a984d36d93353d83755c23275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:23 +0000
Subject: [PATCH 12/70] fix: parse signature correctly from readers that return
 short reads

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 37537b5..6fdcb8f 100644
--- a/parse.go
+++ b/parse.go
@@ -52,8 +52,8 @@ func Parse(reader io.Reader) (*Font, error) {
 	if traceParsing { fmt.Printf("starting parsing...\n") }
 
 	// read signature first (this is not gzipped, so it's important)
-	n, err := reader.Read(parser.TempBuff[0 : 6])
-	if err != nil || n != 6 {
+	n, err := io.ReadFull(reader, parser.TempBuff[0 : 6])
+	if err != nil {
 		if n == 0 {
 			return &font, parser.NewError("failed to read any data from the file")
 		}
-- 
2.43.0


From 5cfb131134779ab97c2672014d6c921403bff313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:24 +0000
Subject: [PATCH 13/70] fix: reject data beyond the expected end instead of
 accepting it or panicking

---
 internal/parsing_buffer.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index 6ef79a5..1506061 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -38,14 +38,13 @@ func (self *ParsingBuffer) InitGzipReader(reader io.Reader) error {
 }
 
 func (self *ParsingBuffer) EnsureEOF() error {
-	if self.eof { return nil }
-	preIndex := self.Index
-	err := self.readMore()
-	if err != nil { return err }
-	if self.Index > preIndex {
+	for !self.eof && len(self.Bytes) == self.Index {
+		err := self.readMore()
+		if err != nil { return err }
+	}
+	if len(self.Bytes) > self.Index {
 		return errors.New("file continues beyond the expected end")
 	}
-	if !self.eof { panic("broken code") }
 	return nil
 }
 
-- 
2.43.0


From d598ba218a1cb140349e3d46ad7eda727186f09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:25 +0000
Subject: [PATCH 14/70] fix: check all read errors when parsing rewrite rules
 and kernings

---
 parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parse.go b/parse.go
index 6fdcb8f..9cf6802 100644
--- a/parse.go
+++ b/parse.go
@@ -384,6 +384,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		err := parser.AdvanceBytes(int(numUtf8Rules - 1)*3)
 		if err != nil { return &font, err }
 		utf8RulesLen, err := parser.ReadUint24()
+		if err != nil { return &font, err }
 		if int(utf8RulesLen) < int(numUtf8Rules)*8 {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end before allowed")
 		}
@@ -404,6 +405,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		err := parser.AdvanceBytes(int(numGlyphRules - 1)*3)
 		if err != nil { return &font, err }
 		glyphRulesLen, err := parser.ReadUint24()
+		if err != nil { return &font, err }
 		if int(glyphRulesLen) < int(numGlyphRules)*8 {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end before allowed")
 		}
@@ -426,6 +428,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	maxKerningPairs := uint32(numGlyphs)*uint32(numGlyphs)
 
 	numHorzKerningPairs, err := parser.ReadUint24()
+	if err != nil { return &font, err }
 	if numHorzKerningPairs > 0 {
 		if numHorzKerningPairs > maxKerningPairs {
 			return &font, parser.NewError("NumHorzKerningPairs can't exceed NumGlyphs^2")
@@ -438,6 +441,7 @@ func Parse(reader io.Reader) (*Font, error) {
 
 	font.OffsetToVertKernings = uint32(parser.Index)
 	numVertKerningPairs, err := parser.ReadUint24()
+	if err != nil { return &font, err }
 	if numVertKerningPairs > 0 {
 		if numVertKerningPairs > maxKerningPairs {
 			return &font, parser.NewError("NumVertKerningPairs can't exceed NumGlyphs^2")
-- 
2.43.0


From ac0be44cff3cd225c80d4d4c14f678f251a81ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:27 +0000
Subject: [PATCH 15/70] fix: close files on all ParseFromFS error paths

---
 parse.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 9cf6802..5650f22 100644
--- a/parse.go
+++ b/parse.go
@@ -16,8 +16,12 @@ func ParseFromFS(filesys fs.FS, filename string) (*Font, error) {
 	file, err := filesys.Open(filename)
 	if err != nil { return nil, err }
 	stat, err := file.Stat()
-	if err != nil { return nil, err }
+	if err != nil {
+		_ = file.Close()
+		return nil, err
+	}
 	if stat.Size() > MaxFontDataSize {
+		_ = file.Close()
 		return nil, errors.New("file size exceeds limit")
 	}
 	
-- 
2.43.0


From f0b3e8430b25938d7447ccbdb8c2b187a09e7256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:28 +0000
Subject: [PATCH 16/70] fix: accept rewrite rules up to the specified size
 limit

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 5650f22..068c9ea 100644
--- a/parse.go
+++ b/parse.go
@@ -392,7 +392,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if int(utf8RulesLen) < int(numUtf8Rules)*8 {
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end before allowed")
 		}
-		if int(utf8RulesLen) > int(numUtf8Rules)*(6 + 255*4) {
+		if int(utf8RulesLen) > int(numUtf8Rules)*4096 { // rewrite rules can't exceed 4096 bytes
 			return &font, parser.NewError("UTF8RuleEndOffsets declares UTF8Rules to end beyond allowed")
 		}
 
@@ -413,7 +413,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if int(glyphRulesLen) < int(numGlyphRules)*8 {
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end before allowed")
 		}
-		if int(glyphRulesLen) > int(numGlyphRules)*514 {
+		if int(glyphRulesLen) > int(numGlyphRules)*4096 { // rewrite rules can't exceed 4096 bytes
 			return &font, parser.NewError("GlyphRuleEndOffsets declares GlyphRules to end beyond allowed")
 		}
 
-- 
2.43.0


From ac7bdeada79123eaaeeed61aa8711380a3250ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:29 +0000
Subject: [PATCH 17/70] fix: accept glyph masks with more than 255 bytes of
 raster operations

---
 parse.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/parse.go b/parse.go
index 068c9ea..1c1c866 100644
--- a/parse.go
+++ b/parse.go
@@ -200,9 +200,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	if glyphMasksLen < (uint32(placementSize)*uint32(numGlyphs)) {
 		return &font, parser.NewError("GlyphMaskEndOffsets declares GlyphMasks to end before allowed")
 	}
-	if glyphMasksLen > (uint32(placementSize) + 255)*uint32(numGlyphs) {
-		return &font, parser.NewError("GlyphMaskEndOffsets declares GlyphMasks to end beyond allowed")
-	}
+	// note: no upper bound check, we gotta trust max font size here
 	err = parser.AdvanceBytes(int(glyphMasksLen))
 	if err != nil { return &font, err }
 
-- 
2.43.0


From 19d0893a1ad1b18a4cf8b62e37d22723b5551ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:30 +0000
Subject: [PATCH 18/70] fix: accept 254 mapping switches as specified

---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index 1c1c866..0307b42 100644
--- a/parse.go
+++ b/parse.go
@@ -275,7 +275,7 @@ func Parse(reader io.Reader) (*Font, error) {
 	font.OffsetToMappingSwitches = uint32(parser.Index)
 	numMappingSwitches, err := parser.ReadUint8()
 	if err != nil { return &font, err }
-	if numMappingSwitches > 253 {
+	if numMappingSwitches > 254 {
 		return &font, parser.NewError("NumMappingSwitches can't exceed 254 (both 254 and 255 are reserved)")
 	}
 	if numMappingSwitches > 0 {
-- 
2.43.0


From a6b761a4039589c513c8c299ea2d4c10dafe378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:32 +0000
Subject: [PATCH 19/70] fix: accept empty rewrite sets when parsing

---
 parse.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse.go b/parse.go
index 0307b42..86df0be 100644
--- a/parse.go
+++ b/parse.go
@@ -351,7 +351,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if err != nil { return &font, err }
 		utf8SetsLen, err := parser.ReadUint16()
 		if err != nil { return &font, err }
-		if int(utf8SetsLen) < 1 + int(numUtf8Sets)*5 {
+		if int(utf8SetsLen) < int(numUtf8Sets)*2 {
 			return &font, parser.NewError("UTF8SetEndOffsets declares UTF8Sets to end before allowed")
 		}
 
@@ -369,7 +369,7 @@ func Parse(reader io.Reader) (*Font, error) {
 		if err != nil { return &font, err }
 		glyphSetsLen, err := parser.ReadUint16()
 		if err != nil { return &font, err }
-		if int(glyphSetsLen) < 1 + int(numGlyphSets)*3 {
+		if int(glyphSetsLen) < int(numGlyphSets)*2 {
 			return &font, parser.NewError("GlyphSetEndOffsets declares GlyphSets to end before allowed")
 		}
 
-- 
2.43.0


From 627d455afbd56d955a86e87d91097e531e927dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:33 +0000
Subject: [PATCH 20/70] fix: keep mapping cache entries properly linked while
 the cache fills

---
 mapping_cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mapping_cache.go b/mapping_cache.go
index 7891259..77c5937 100644
--- a/mapping_cache.go
+++ b/mapping_cache.go
@@ -59,7 +59,7 @@ func NewMappingCache(font *Font, size int) *MappingCache {
 
 	cache := &MappingCache{
 		font: font, 
-		mruIndex: noEntry,
+		mruIndex: uint16(size - 1),
 		lruIndex: 0,
 		cachedMappings: make(map[rune]uint16, size),
 		mappingEntries: make([]mappingEntry, size),
@@ -71,7 +71,7 @@ func NewMappingCache(font *Font, size int) *MappingCache {
 // Resets the mapping cache completely, with only the size being preserved.
 func (self *MappingCache) Reset(font *Font) {
 	self.font = font
-	self.mruIndex = noEntry
+	self.mruIndex = uint16(len(self.mappingEntries) - 1)
 	self.lruIndex = 0
 	clear(self.mappingEntries)
 	clear(self.cachedMappings)
-- 
2.43.0


From 9cbfaa8a9140cf3644233ddd53d5e256933ae576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:55 +0000
Subject: [PATCH 21/70] fix: don't evict code point zero when using free
 mapping cache entries

---
 mapping_cache.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mapping_cache.go b/mapping_cache.go
index 77c5937..ea90bb3 100644
--- a/mapping_cache.go
+++ b/mapping_cache.go
@@ -127,7 +127,10 @@ func (self *MappingCache) Get(codePoint rune, settings *SettingsCache) (GlyphMap
 		entry.codePoint = codePoint // code point also updated in this case
 
 		// delete previous entry, link new one
-		delete(self.cachedMappings, evictedCodePoint)
+		cachedIndex, isCached := self.cachedMappings[evictedCodePoint]
+		if isCached && cachedIndex == self.lruIndex { // unused entries don't evict anything
+			delete(self.cachedMappings, evictedCodePoint)
+		}
 		self.cachedMappings[codePoint] = self.lruIndex
 
 		// update MRU and return
-- 
2.43.0


From 9efe9bb6554f1b5073e6f4d59c60a5d7f3055c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:56 +0000
Subject: [PATCH 22/70] fix: preserve switch type on cached glyph mapping
 groups

---
 mapping_cache.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mapping_cache.go b/mapping_cache.go
index ea90bb3..3e058db 100644
--- a/mapping_cache.go
+++ b/mapping_cache.go
@@ -23,6 +23,7 @@ func (self *mappingEntry) ToMappingGroup(font *Font) GlyphMappingGroup {
 	return GlyphMappingGroup{
 		font: font,
 		offset: self.mappingOffset,
+		switchType: self.switchType,
 		caseBranch: self.caseBranch,
 		directMapping: self.directMapping,
 	}
-- 
2.43.0


From 8bbad980246de82d5698dd95e662eae116deaab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:57 +0000
Subject: [PATCH 23/70] fix: reject consecutive hyphens in basic names

---
 internal/parsing_buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/parsing_buffer.go b/internal/parsing_buffer.go
index 1506061..e8ab7cf 100644
--- a/internal/parsing_buffer.go
+++ b/internal/parsing_buffer.go
@@ -198,7 +198,7 @@ func ValidateBasicName(name string) error {
 		}
 		if name[i] == '-' {
 			if prevIsHyphen {
-				errors.New("basic name can't contain consecutive hyphens")
+				return errors.New("basic name can't contain consecutive hyphens")
 			}
 			prevIsHyphen = true
 			continue
-- 
2.43.0


From bbaeb9a9c1f7057b3a9cafb35cba0ac4e88dff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:41 +0000
Subject: [PATCH 24/70] fix: use vertical kerning pairs when building vertical
 kerning values

---
 builder/font_builder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index c126a5e..16906f0 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -652,7 +652,7 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	for _, pair64 := range self.tempSortingBuffer { // VertKerningValues
 		glyphUID1 := self.glyphOrder[uint16(pair64 >> 16)]
 		glyphUID2 := self.glyphOrder[uint16(pair64)]
-		kerningInfo, found := self.horzKerningPairs[[2]uint64{glyphUID1, glyphUID2}]
+		kerningInfo, found := self.vertKerningPairs[[2]uint64{glyphUID1, glyphUID2}]
 		if !found { panic(invalidInternalState) }
 		if kerningInfo.Class == 0 {
 			data = append(data, uint8(kerningInfo.Value))
-- 
2.43.0


From b73a3fadc4eb623ae462277af3aeeb6b5c244c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:42 +0000
Subject: [PATCH 25/70] fix: encode setting words in the same order as their
 indices

---
 builder/font_builder.go          |  5 ++-
 builder/font_builder_settings.go | 58 ++++++++++++++------------------
 2 files changed, 28 insertions(+), 35 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 16906f0..c36799c 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -376,17 +376,16 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 		for word, index := range words {
 			wordsList[index] = word
 		}
-		slices.Sort(wordsList)
 
 		// WordEndOffsets
 		var offset uint16
-		for word, _ := range words {
+		for _, word := range wordsList {
 			offset += uint16(len(word))
 			data = internal.AppendUint16LE(data, offset)
 		}
 
 		// Words | append actual words
-		for word, _ := range words {
+		for _, word := range wordsList {
 			data = append(data, word...)
 		}
 	}
diff --git a/builder/font_builder_settings.go b/builder/font_builder_settings.go
index cd73ee1..694452b 100644
--- a/builder/font_builder_settings.go
+++ b/builder/font_builder_settings.go
@@ -1,6 +1,7 @@
 package builder
 
 import "errors"
+import "slices"
 
 import "github.com/tinne26/ggfnt"
 import "github.com/tinne26/ggfnt/internal"
@@ -22,46 +23,39 @@ func (self *settingEntry) AppendWords(words map[string]int16) {
 func organizeWords(builtinWords, words map[string]int16) error {
 	if len(words) > 255 { return errors.New("setting options require too many words") }
 
-	// set indices for all unique words
-	var customWordIndex uint16
-	var minBuiltinIndex uint16 = 65535
+	// see which builtin words can't be used because font words would
+	// shadow their index, and consider them custom words instead
+	isCustom := make(map[string]struct{}, len(words))
 	for word, _ := range words {
-		builtinIndex, isBuiltIn := builtinWords[word]
-		if isBuiltIn {
-			words[word] = -builtinIndex
-			if uint16(builtinIndex) < minBuiltinIndex {
-				minBuiltinIndex = uint16(builtinIndex)
-			}
-		} else {
-			words[word] = int16(customWordIndex)
-			customWordIndex += 1
-		}
+		_, isBuiltin := builtinWords[word]
+		if !isBuiltin { isCustom[word] = struct{}{} }
 	}
-
-	// see if builtin words can be used or not
-	for minBuiltinIndex < customWordIndex {
-		target := -int16(minBuiltinIndex)
-		minBuiltinIndex = 65535
-		for word, index := range words {
-			if index == target {
-				words[word] = int16(customWordIndex)
-				customWordIndex += 1
-			} else if index < 0 { // built-in word
-				if uint16(-index) < minBuiltinIndex {
-					minBuiltinIndex = uint16(-index)
-				}
+	for prevNumCustom := -1; prevNumCustom != len(isCustom); {
+		prevNumCustom = len(isCustom)
+		for word, _ := range words {
+			builtinIndex, isBuiltin := builtinWords[word]
+			if isBuiltin && int(builtinIndex) < prevNumCustom {
+				isCustom[word] = struct{}{}
 			}
 		}
 	}
-
+	
 	// delete built-in words
-	for word, index := range words {
-		if index < 0 { delete(words, word) }
+	customWords := make([]string, 0, len(isCustom))
+	for word, _ := range words {
+		_, custom := isCustom[word]
+		if custom {
+			customWords = append(customWords, word)
+		} else {
+			delete(words, word)
+		}
 	}
-	
-	// NOTE: sorting is done later to improve encoding
-	// stability, but directly on the encoding code
 
+	// sort words for encoding stability and set the indices
+	slices.Sort(customWords)
+	for index, word := range customWords {
+		words[word] = int16(index)
+	}
 	return nil
 }
 
-- 
2.43.0


From 9079e6f6c6e690022ac7f04d2b9a6422f883131a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 26/70] fix: reject settings without options, which can't be
 encoded

---
 builder/font_builder_settings.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/font_builder_settings.go b/builder/font_builder_settings.go
index 694452b..527a01c 100644
--- a/builder/font_builder_settings.go
+++ b/builder/font_builder_settings.go
@@ -80,6 +80,9 @@ func (self *Font) AddSetting(name string, options ...string) (ggfnt.SettingKey,
 		if err != nil { return 0, err }
 	}
 
+	if len(options) == 0 {
+		return 0, errors.New("setting must have at least one option")
+	}
 	if len(options) > 255 {
 		return 0, errors.New("setting can't have more than 255 options")
 	}
-- 
2.43.0


From db45bbe219710464c0e6632d02417f30204f8f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 27/70] fix: don't keep references to the options slice passed
 to AddSetting

---
 builder/font_builder_settings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/font_builder_settings.go b/builder/font_builder_settings.go
index 527a01c..b3d7b1a 100644
--- a/builder/font_builder_settings.go
+++ b/builder/font_builder_settings.go
@@ -98,6 +98,6 @@ func (self *Font) AddSetting(name string, options ...string) (ggfnt.SettingKey,
 	}
 	
 	key := ggfnt.SettingKey(len(self.settings))
-	self.settings = append(self.settings, settingEntry{ Name: name, Options: options })
+	self.settings = append(self.settings, settingEntry{ Name: name, Options: slices.Clone(options) })
 	return key, nil
 }
-- 
2.43.0


From 876adbcae6b4f09149100361b1ae2aaab156b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:27 +0000
Subject: [PATCH 28/70] fix: reject mapping switches with more cases than the
 format allows

---
 builder/font_builder_mapping.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index e19d448..89ddc5e 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -21,6 +21,7 @@ func (self *Font) AddSwitch(settings ...ggfnt.SettingKey) (uint8, error) {
 	repeated := make(map[ggfnt.SettingKey]struct{}, len(settings))
 	numSettings := uint8(len(self.settings))
 	newSettings := make([]uint8, 0, len(settings))
+	numCases := 1
 	for _, setting := range settings {
 		if setting >= ggfnt.SettingKey(numSettings) {
 			return 0, errors.New("mapping switch contains undefined setting")
@@ -31,6 +32,10 @@ func (self *Font) AddSwitch(settings ...ggfnt.SettingKey) (uint8, error) {
 		}
 		repeated[setting] = struct{}{}
 		newSettings = append(newSettings, uint8(setting))
+		numCases *= len(self.settings[setting].Options)
+		if numCases > 254 {
+			return 0, errors.New("mapping switch can't have more than 254 cases")
+		}
 	}
 
 	key := uint8(len(self.mappingSwitches))
-- 
2.43.0


From 841bc7c1a90345213150b3aa2f5b4b29ea1f7a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:28 +0000
Subject: [PATCH 29/70] fix: preserve glyph order when encoding mapping groups

---
 builder/font_builder_mapping.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index 89ddc5e..ae6f7ed 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -1,6 +1,5 @@
 package builder
 
-import "slices"
 import "errors"
 import "fmt"
 
@@ -104,8 +103,7 @@ func (self *mappingGroup) AppendTo(data []byte, glyphLookup map[uint64]uint16, s
 		scratchBuffer[i] = glyphIndex
 	}
 
-	// sort scratch buffer, makes it easier to see if glyphs are consecutive
-	slices.Sort(scratchBuffer)
+	// see if glyphs are consecutive (order must be preserved, it's relevant for animations)
 	if isContinuousSlice(scratchBuffer) {
 		data = append(data, 0b1000_0000 | uint8(len(self.Glyphs) - 1))
 		data = append(data, uint8(self.AnimationFlags))
-- 
2.43.0


From 8e1074bd30c39420e6b8c20fa97c0ec4682f4a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:29 +0000
Subject: [PATCH 30/70] fix: assign animation flags to the correct groups in
 MapWithSwitch

---
 builder/font_builder_mapping.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index ae6f7ed..3244a99 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -221,7 +221,10 @@ func (self *Font) MapWithSwitch(codePoint rune, mapSwitch uint8, glyphUIDs [][]u
 	animFlagIndex := 0
 	for _, group := range glyphUIDs {
 		if len(group) == 0 { panic("glyph groups can't be empty") }
-		if len(group) == 1 { continue }
+		if len(group) == 1 { // single glyphs have no animation flags
+			finalAnimFlags = append(finalAnimFlags, 0)
+			continue
+		}
 		if len(animFlags) <= animFlagIndex { return errors.New("not enough animation flags for all multi-glyph groups") }
 		finalAnimFlags = append(finalAnimFlags, animFlags[animFlagIndex])
 		animFlagIndex += 1
-- 
2.43.0


From 6ba4d0127e3482e590f088f35a82d9a96bc83ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:31 +0000
Subject: [PATCH 31/70] fix: validate group sizes and glyphs in switch mappings

---
 builder/font_builder_mapping.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index 3244a99..09e42c5 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -190,6 +190,9 @@ func (self *Font) MapWithSwitchSingles(codePoint rune, mapSwitch uint8, glyphUID
 		return fmt.Errorf("switch %d expects %d glyph groups, but received %d", mapSwitch, numSwitchCases, len(glyphUIDs))
 	}
 	
+	err := self.validateMapGlyphs(codePoint, glyphUIDs...)
+	if err != nil { return err }
+
 	cases := make([]mappingGroup, 0, len(glyphUIDs))
 	for _, glyphUID := range glyphUIDs {
 		cases = append(cases, mappingGroup{ Glyphs: []uint64{glyphUID}, AnimationFlags: 0 })
@@ -217,6 +220,11 @@ func (self *Font) MapWithSwitch(codePoint rune, mapSwitch uint8, glyphUIDs [][]u
 	if len(glyphUIDs) != numSwitchCases {
 		return fmt.Errorf("switch %d expects %d glyph groups, but received %d", mapSwitch, numSwitchCases, len(glyphUIDs))
 	}
+	for _, group := range glyphUIDs {
+		if len(group) > 127 { return errors.New("glyph groups can't exceed 127 glyphs") }
+		err := self.validateMapGlyphs(codePoint, group...)
+		if err != nil { return err }
+	}
 	finalAnimFlags := make([]ggfnt.AnimationFlags, 0, len(glyphUIDs))
 	animFlagIndex := 0
 	for _, group := range glyphUIDs {
-- 
2.43.0


From 86c5077f47317486ddd7ec243652b2ef48517a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:32 +0000
Subject: [PATCH 32/70] fix: don't keep references to glyph slices passed to
 mapping functions

---
 builder/font_builder_mapping.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder_mapping.go b/builder/font_builder_mapping.go
index 09e42c5..ac6aebd 100644
--- a/builder/font_builder_mapping.go
+++ b/builder/font_builder_mapping.go
@@ -1,6 +1,7 @@
 package builder
 
 import "errors"
+import "slices"
 import "fmt"
 
 import "github.com/tinne26/ggfnt"
@@ -159,7 +160,7 @@ func (self *Font) MapGroup(codePoint rune, animFlags ggfnt.AnimationFlags, glyph
 	// actual addition
 	self.runeMapping[codePoint] = mappingEntry{
 		SwitchType: 254,
-		SwitchCases: []mappingGroup{ mappingGroup{ Glyphs: glyphUIDs, AnimationFlags: animFlags } },
+		SwitchCases: []mappingGroup{ mappingGroup{ Glyphs: slices.Clone(glyphUIDs), AnimationFlags: animFlags } },
 	}
 	return nil
 }
@@ -243,7 +244,7 @@ func (self *Font) MapWithSwitch(codePoint rune, mapSwitch uint8, glyphUIDs [][]u
 	
 	cases := make([]mappingGroup, 0, len(glyphUIDs))
 	for i, group := range glyphUIDs {
-		cases = append(cases, mappingGroup{ Glyphs: group, AnimationFlags: finalAnimFlags[i] })
+		cases = append(cases, mappingGroup{ Glyphs: slices.Clone(group), AnimationFlags: finalAnimFlags[i] })
 	}
 	self.runeMapping[codePoint] = mappingEntry{
 		SwitchType: mapSwitch,
-- 
2.43.0


From 4db26757cbf27b47e24644725aa6919b334a78c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:33 +0000
Subject: [PATCH 33/70] fix: don't modify the builder dyes while building

---
 builder/font_builder.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index c36799c..1f8f31e 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -239,27 +239,27 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	// --- colors ---
 	numColorSections := len(self.dyes) + len(self.palettes)
 	if numColorSections > 255 { panic(invalidInternalState) }
-	if numColorSections == 0 { // add main dye if nothing else exists
-		err := self.AddDye("main", 255)
-		if err != nil { return nil, err }
+	dyes := self.dyes
+	if numColorSections == 0 { // use main dye if nothing else exists
+		dyes = []dyeSection{ dyeSection{ name: "main", alphas: []uint8{255} } }
 	}
 	
 	// - dyes -
 	font.OffsetToDyes = uint32(len(data))
-	data = append(data, uint8(len(self.dyes))) // NumDyes
+	data = append(data, uint8(len(dyes))) // NumDyes
 	var clrIndex int
-	for i, _ := range self.dyes { // DyeEndIndices
-		clrIndex += len(self.dyes[i].alphas)
+	for i, _ := range dyes { // DyeEndIndices
+		clrIndex += len(dyes[i].alphas)
 		if clrIndex > 255 { panic(invalidInternalState) }
 		data = append(data, uint8(clrIndex))
 	}
-	for i, _ := range self.dyes { data = append(data, self.dyes[i].alphas...) } // DyeAlphas
+	for i, _ := range dyes { data = append(data, dyes[i].alphas...) } // DyeAlphas
 	var clrSectionNameOffset uint16
-	for i, _ := range self.dyes { // DyeNameEndOffsets
-		clrSectionNameOffset += uint16(len(self.dyes[i].name))
+	for i, _ := range dyes { // DyeNameEndOffsets
+		clrSectionNameOffset += uint16(len(dyes[i].name))
 		data = internal.AppendUint16LE(data, clrSectionNameOffset)
 	}
-	for i, _ := range self.dyes { data = append(data, self.dyes[i].name...) } // DyeNames
+	for i, _ := range dyes { data = append(data, dyes[i].name...) } // DyeNames
 
 	// - palettes -
 	font.OffsetToPalettes = uint32(len(data))
-- 
2.43.0


From b3f8b2f6523eb3ce503aa5bca81a20780cd6b376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:34 +0000
Subject: [PATCH 34/70] fix: iterate dye alphas and palette colors correctly on
 the builder

---
 builder/font_builder_color.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_color.go b/builder/font_builder_color.go
index 93abafd..f856ec2 100644
--- a/builder/font_builder_color.go
+++ b/builder/font_builder_color.go
@@ -23,6 +23,7 @@ func (self *Font) EachDyeAlpha(name string, fn func(alpha, index uint8)) error {
 			for index, alpha := range self.dyes[index].alphas {
 				fn(alpha, uint8(clrIndex - index)) // TODO: this might be an inverse order...
 			}
+			return nil
 		} else {
 			clrIndex -= len(self.dyes[index].alphas)
 		}
@@ -72,8 +73,9 @@ func (self *Font) EachPaletteColor(name string, fn func(rgba color.RGBA, index u
 			for index, clr := range self.palettes[index].colors {
 				fn(clr, uint8(clrIndex - index)) // TODO: this might be an inverse order...
 			}
+			return nil
 		} else {
-			clrIndex -= len(self.dyes[index].alphas)
+			clrIndex -= len(self.palettes[index].colors)
 		}
 	}
 	return errors.New("palette section not found")
-- 
2.43.0


From 674fd297dcb294440607452eb33ea618ce8ac1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:35 +0000
Subject: [PATCH 35/70] fix: reject empty font names, which can't be parsed
 back

---
 builder/font_builder_props.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/builder/font_builder_props.go b/builder/font_builder_props.go
index 71ab823..58db4f8 100644
--- a/builder/font_builder_props.go
+++ b/builder/font_builder_props.go
@@ -68,6 +68,7 @@ func (self *Font) SetVersion(major, minor uint16) {
 
 func (self *Font) GetName() string { return self.fontName }
 func (self *Font) SetName(name string) error {
+	if len(name) == 0 { return errors.New("font name can't be empty") }
 	if len(name) > 255 { return errors.New("font name can't exceed 255 bytes") }
 	err := checkStringValidity(name)
 	if err != nil { return err }
-- 
2.43.0


From 3a9b2aba007b8d661dcfa1e6cbf8313c82a8b43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:36 +0000
Subject: [PATCH 36/70] fix: report vert interspacing without vert layout as a
 metrics error

---
 builder/font_builder_props.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/font_builder_props.go b/builder/font_builder_props.go
index 58db4f8..2bf545b 100644
--- a/builder/font_builder_props.go
+++ b/builder/font_builder_props.go
@@ -113,6 +113,9 @@ func (self *Font) GetMetricsStatus() error {
 	if self.ascent < self.midlineAscent { return errors.New("ascent must be equal or greater than midline ascent") }
 	if self.ascent < self.uppercaseAscent { return errors.New("ascent must be equal or greater than uppercase ascent") }
 	if self.midlineAscent > self.uppercaseAscent { return errors.New("midline ascent must be equal or greater than uppercase ascent") }
+	if self.vertInterspacing != 0 && !self.hasVertLayout {
+		return errors.New("vert interspacing must be zero when vert layout is not used")
+	}
 	return nil
 }
 
-- 
2.43.0


From 77b6f96addfa82f1bffeb742123d74bf4990cbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:02 +0000
Subject: [PATCH 37/70] fix: reject dyes and palettes that can't be encoded

---
 builder/font_builder_color.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/builder/font_builder_color.go b/builder/font_builder_color.go
index f856ec2..a3a7029 100644
--- a/builder/font_builder_color.go
+++ b/builder/font_builder_color.go
@@ -32,8 +32,10 @@ func (self *Font) EachDyeAlpha(name string, fn func(alpha, index uint8)) error {
 }
 
 func (self *Font) AddDye(name string, alphas ...uint8) error {
-	// ensure no name collisions
-	err := self.checkColorSectionNameCollision(name)
+	// ensure section is encodable and no name collisions
+	err := checkColorSectionEncodable(name, len(alphas))
+	if err != nil { return err }
+	err = self.checkColorSectionNameCollision(name)
 	if err != nil { return err }
 	count := self.getColorIndexCount()
 	if count + len(alphas) > 255 {
@@ -82,8 +84,10 @@ func (self *Font) EachPaletteColor(name string, fn func(rgba color.RGBA, index u
 }
 
 func (self *Font) AddPalette(name string, colors ...color.RGBA) error {
-	// ensure no name collisions
-	err := self.checkColorSectionNameCollision(name)
+	// ensure section is encodable and no name collisions
+	err := checkColorSectionEncodable(name, len(colors))
+	if err != nil { return err }
+	err = self.checkColorSectionNameCollision(name)
 	if err != nil { return err }
 	count := self.getColorIndexCount()
 	if count + len(colors) > 255 {
@@ -102,6 +106,13 @@ func (self *Font) AddPalette(name string, colors ...color.RGBA) error {
 
 // --- shared helpers ---
 
+func checkColorSectionEncodable(name string, numColors int) error {
+	if len(name) == 0 { return errors.New("color section name can't be empty") }
+	if len(name) > 255 { return errors.New("color section name can't exceed 255 bytes") }
+	if numColors == 0 { return errors.New("color section can't be empty") }
+	return nil
+}
+
 func (self *Font) checkColorSectionNameCollision(name string) error {
 	for index, _ := range self.dyes {
 		if self.dyes[index].name == name {
-- 
2.43.0


From 0507057d7acc9214daf91c93ac3a1015512c4aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:03 +0000
Subject: [PATCH 38/70] fix: remove glyph sets from the build order too

---
 builder/font_builder_rewrite_sets.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index d8cd9e8..b8bc83a 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -78,6 +78,8 @@ func (self *Font) RemoveGlyphSet(setUID uint64) bool {
 	_, found := self.rewriteGlyphSets[setUID]
 	if !found { return false }
 	delete(self.rewriteGlyphSets, setUID)
+	orderIndex := slices.Index(self.glyphSetsOrder, setUID)
+	self.glyphSetsOrder = slices.Delete(self.glyphSetsOrder, orderIndex, orderIndex + 1)
 	return true
 }
 
-- 
2.43.0


From bc32ccf9f14364dba52dee14f43851be28de622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:04 +0000
Subject: [PATCH 39/70] fix: actually remove elements from rewrite sets

---
 builder/font_builder_rewrite_sets.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index b8bc83a..9a8615d 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -112,7 +112,7 @@ func (self *Font) RemoveGlyphSetRange(setUID, rangeStartGlyphUID, rangeEndGlyphU
 		}
 	}
 	if rangeIndex == -1 { return false }
-	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex)
+	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex + 1)
 	self.rewriteGlyphSets[setUID] = set
 	return true
 }
@@ -152,7 +152,7 @@ func (self *Font) RemoveGlyphSetListGlyph(setUID, glyphUID uint64) bool {
 		}
 	}
 	if listIndex == -1 { return false }
-	set.list = slices.Delete(set.list, listIndex, listIndex)
+	set.list = slices.Delete(set.list, listIndex, listIndex + 1)
 	self.rewriteGlyphSets[setUID] = set
 	return true
 }
@@ -222,7 +222,7 @@ func (self *Font) RemoveRuneSetRange(setUID uint64, rangeStart, rangeEnd rune) b
 		}
 	}
 	if rangeIndex == -1 { return false }
-	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex)
+	set.ranges = slices.Delete(set.ranges, rangeIndex, rangeIndex + 1)
 	self.rewriteRuneSets[setUID] = set
 	return true
 }
@@ -259,7 +259,7 @@ func (self *Font) RemoveRuneSetListRune(setUID uint64, codePoint rune) bool {
 		}
 	}
 	if listIndex == -1 { return false }
-	set.list = slices.Delete(set.list, listIndex, listIndex)
+	set.list = slices.Delete(set.list, listIndex, listIndex + 1)
 	self.rewriteRuneSets[setUID] = set
 	return true
 }
-- 
2.43.0


From ac2f8568484c44f386ad419cb227bbd726933206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:05 +0000
Subject: [PATCH 40/70] fix: initialize rune sets map when creating the first
 rune set

---
 builder/font_builder_rewrite_sets.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index 9a8615d..5c53330 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -180,10 +180,11 @@ func (self *Font) CreateRuneSet() (uint64, error) {
 	
 	uid, err := internal.CryptoRandUint64()
 	if err != nil { return 0, err } // don't think this can ever happen
-	_, found := self.rewriteGlyphSets[uid]
+	_, found := self.rewriteRuneSets[uid]
 	if found {
 		return 0, errors.New("failed to generate unique rune set UID")
 	}
+	if self.rewriteRuneSets == nil { self.rewriteRuneSets = make(map[uint64]reRuneSet) }
 	self.rewriteRuneSets[uid] = reRuneSet{}
 	return uid, nil
 }
-- 
2.43.0


From 23684421b8c77dd1f3c6eab038956803edeb23dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:06 +0000
Subject: [PATCH 41/70] fix: allow building glyph sets with 255 ranges or
 glyphs

---
 builder/font_builder_rewrite_sets.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder_rewrite_sets.go b/builder/font_builder_rewrite_sets.go
index 5c53330..af6f210 100644
--- a/builder/font_builder_rewrite_sets.go
+++ b/builder/font_builder_rewrite_sets.go
@@ -21,8 +21,8 @@ func (self *reGlyphSet) GetSize() uint32 {
 }
 
 func (self *reGlyphSet) AppendTo(data []byte, glyphLookup map[uint64]uint16) ([]byte, error) {
-	if len(self.ranges) >= 255 { panic(invalidInternalState) }
-	if len(self.list) >= 255 { panic(invalidInternalState) }
+	if len(self.ranges) > 255 { panic(invalidInternalState) }
+	if len(self.list) > 255 { panic(invalidInternalState) }
 
 	// ranges
 	data = append(data, uint8(len(self.ranges)))
-- 
2.43.0


From 0a929302b28af27aba519a1325bdfe60016f8f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:38 +0000
Subject: [PATCH 42/70] fix: reject glyph rewrite rules with empty body

---
 builder/font_builder_rewrite_rules.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index 3ec9672..fb00d67 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -232,7 +232,7 @@ func (self *Font) AddUtf8RewriteRule(headLen, bodyLen, tailLen uint8, input []an
 // Ids can be for glyphs or glyph sets, we assume they won't collide.
 func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []uint64, out ...uint64) error {
 	// validate input sizes
-	if bodyLen == 0 { errors.New("rewrite rule exceeds input body must have len >= 1") }
+	if bodyLen == 0 { return errors.New("rewrite rule input body must have len >= 1") }
 	headBodyLen := headLen + bodyLen
 	if headBodyLen < bodyLen || headBodyLen + tailLen < tailLen {
 		return errors.New("rewrite rule exceeds 255 input elements")
-- 
2.43.0


From adb68c70b1b46fe04874cd3c0dd04a7deba7c250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:39 +0000
Subject: [PATCH 43/70] fix: don't keep references to slices passed to rewrite
 rule functions

---
 builder/font_builder_rewrite_rules.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index fb00d67..1578b78 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -1,6 +1,7 @@
 package builder
 
 import "errors"
+import "slices"
 
 import "github.com/tinne26/ggfnt/internal"
 
@@ -216,7 +217,7 @@ func (self *Font) AddSimpleUtf8RewriteRule(replacement rune, sequence ...rune) e
 	if len(sequence) == 0 { return errors.New("rewrite rule sequence can't be empty") }
 	if len(sequence) > 255 { return errors.New("rewrite rule sequence can't exceed 255 runes") }
 	
-	rule := utf8RewriteRule{ condition: 255, bodyLen: uint8(len(sequence)), inRunes: sequence, output: []rune{replacement} }
+	rule := utf8RewriteRule{ condition: 255, bodyLen: uint8(len(sequence)), inRunes: slices.Clone(sequence), output: []rune{replacement} }
 	for i := 0; i < len(sequence); i++ {
 		rule.inElemsAreGroups.Push(false)
 	}
@@ -273,7 +274,7 @@ func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []u
 	rule.tailLen = tailLen
 	rule.inGlyphs = inGlyphs
 	rule.inGroups = inGroups
-	rule.output = out
+	rule.output = slices.Clone(out)
 	self.glyphRules = append(self.glyphRules, rule)
 	return nil
 }
-- 
2.43.0


From ba9c169b92898ca7f4e72005c76f2f5a7f2cb2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:40 +0000
Subject: [PATCH 44/70] fix: reject glyph rewrite rules with invalid output
 length

---
 builder/font_builder_rewrite_rules.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index 1578b78..3af5bde 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -243,6 +243,8 @@ func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []u
 	}
 	
 	// validate output glyphs
+	if len(out) == 0 { return errors.New("rewrite rule output can't be empty") }
+	if len(out) > int(bodyLen) { return errors.New("rewrite rule output can't be longer than the input body") }
 	for _, glyphUID := range out {
 		_, found := self.glyphData[glyphUID]
 		if !found { return errors.New("invalid rewrite rule output glyph UID") }
-- 
2.43.0


From 02f4ed2c31a0abc7aefbc8b85acdfac8aac7e09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:41 +0000
Subject: [PATCH 45/70] fix: remove class-only kerning pairs when clearing
 edition data

---
 builder/font_builder.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 1f8f31e..0223391 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -822,11 +822,13 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 func (self *Font) ClearEditionData() {
 	self.categories = self.categories[ : 0]
 	self.kerningClasses = self.kerningClasses[ : 0]
-	for _, kerningPair := range self.horzKerningPairs {
+	for key, kerningPair := range self.horzKerningPairs {
 		kerningPair.Class = 0
+		if kerningPair.Value == 0 { delete(self.horzKerningPairs, key) } // class-only pair
 	}
-	for _, kerningPair := range self.vertKerningPairs {
+	for key, kerningPair := range self.vertKerningPairs {
 		kerningPair.Class = 0
+		if kerningPair.Value == 0 { delete(self.vertKerningPairs, key) } // class-only pair
 	}
 	for i, _ := range self.rewriteConditions {
 		self.rewriteConditions[i].EditorName = ""
-- 
2.43.0


From 3292bc6d8b6dd16dfa209fd30bec30f5a20e5f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:42 +0000
Subject: [PATCH 46/70] fix: validate kerning pair glyphs and classes when
 parsing edition data

---
 builder/font_builder.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 0223391..466bb3f 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -756,6 +756,12 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		if kerningClass == 0 {
 			return parser.NewError("kerning pair class can't be zero")
 		}
+		if kerningClass > numKerningClasses {
+			return parser.NewError("kerning pair class exceeds the number of kerning classes")
+		}
+		if int(firstIndex) >= len(self.glyphOrder) || int(secondIndex) >= len(self.glyphOrder) {
+			return parser.NewError("kerning pair glyph exceeds the number of glyphs")
+		}
 		
 		first  := self.glyphOrder[firstIndex]
 		second := self.glyphOrder[secondIndex]
@@ -779,6 +785,12 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		if kerningClass == 0 {
 			return parser.NewError("kerning pair class can't be zero")
 		}
+		if kerningClass > numKerningClasses {
+			return parser.NewError("kerning pair class exceeds the number of kerning classes")
+		}
+		if int(firstIndex) >= len(self.glyphOrder) || int(secondIndex) >= len(self.glyphOrder) {
+			return parser.NewError("kerning pair glyph exceeds the number of glyphs")
+		}
 		
 		first  := self.glyphOrder[firstIndex]
 		second := self.glyphOrder[secondIndex]
-- 
2.43.0


From ecf686a36bc7398ad17411d2ba87b319988b16fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:43 +0000
Subject: [PATCH 47/70] fix: read kerning pair counts on edition data as uint24
 values

---
 builder/font_builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 466bb3f..b57ad78 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -744,7 +744,7 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		(&self.kerningClasses[i]).Value = value
 	}
 	
-	numHorzKerningPairsWithClasses, err := parser.ReadUint32()
+	numHorzKerningPairsWithClasses, err := parser.ReadUint24()
 	if err != nil { return err }
 	for i := uint32(0); i < numHorzKerningPairsWithClasses; i++ {
 		firstIndex, err := parser.ReadUint16()
@@ -773,7 +773,7 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 		}
 	}
 	
-	numVertKerningPairsWithClasses, err := parser.ReadUint32()
+	numVertKerningPairsWithClasses, err := parser.ReadUint24()
 	if err != nil { return err }
 	for i := uint32(0); i < numVertKerningPairsWithClasses; i++ {
 		firstIndex, err := parser.ReadUint16()
-- 
2.43.0


From 763dda0f6336e7617cab6fa43c98282bc30d16d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:44 +0000
Subject: [PATCH 48/70] fix: parse edition data signature from readers that
 return short reads

---
 builder/font_builder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index b57ad78..ec5a4d7 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -695,8 +695,8 @@ func (self *Font) ParseEditionData(reader io.Reader) error {
 	parser.FileType = "ggwkfnt"
 
 	// read signature first (this is not gzipped, so it's important)
-	n, err := reader.Read(parser.TempBuff[0 : 6])
-	if err != nil || n != 6 {
+	_, err := io.ReadFull(reader, parser.TempBuff[0 : 6])
+	if err != nil {
 		return parser.NewError("failed to read file signature")
 	}
 	if !slices.Equal(parser.TempBuff[0 : 6], []byte{'w', 'k', 'g', 'f', 'n', 't'}) {
-- 
2.43.0


From 67b25cfbc3cac7eaaf80f9188af90f8f981c485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:05 +0000
Subject: [PATCH 49/70] fix: return an error instead of panicking on too many
 mapping entries

---
 builder/font_builder.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index ec5a4d7..32b4cdb 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -443,7 +443,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 	}
 	
 	// main mapping
-	if len(self.runeMapping) > ggfnt.MaxGlyphs { panic(invalidInternalState) }
+	if len(self.runeMapping) > ggfnt.MaxGlyphs {
+		return nil, errors.New("font has too many mapping entries")
+	}
 	font.OffsetToMapping = uint32(len(data))
 	numMappingEntries := uint16(len(self.runeMapping))
 	data = internal.AppendUint16LE(data, numMappingEntries)
-- 
2.43.0


From b2ac37a56f3579206ae6e24f221c2591ea123049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:06 +0000
Subject: [PATCH 50/70] fix: report glyph masks and mappings exceeding the
 uint24 offsets

---
 builder/font_builder.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/font_builder.go b/builder/font_builder.go
index 32b4cdb..032631b 100644
--- a/builder/font_builder.go
+++ b/builder/font_builder.go
@@ -349,6 +349,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 
 		// write offset back on the relevant index
 		offset32 = uint32(len(data) - baseGlyphMasksIndex)
+		if offset32 > 16777215 {
+			return nil, errors.New("glyph masks exceed maximum allowed size of 16MiB")
+		}
 		internal.EncodeUint24LE(data[glyphMaskEndOffsetsIndex : glyphMaskEndOffsetsIndex + 3], offset32)
 		glyphMaskEndOffsetsIndex += 3
 	}
@@ -483,6 +486,9 @@ func (self *Font) Build() (*ggfnt.Font, error) {
 			data, scratchBuffer, err = mapping.AppendTo(data, self.tempGlyphIndexLookup, scratchBuffer)
 			if err != nil { return nil, err }
 			offset += len(data) - preLen
+			if offset > 16777215 {
+				return nil, errors.New("mappings exceed maximum allowed size of 16MiB")
+			}
 
 			// append offset
 			internal.EncodeUint24LE(data[nextMappingEndOffsetIndex : nextMappingEndOffsetIndex + 3], uint32(offset))
-- 
2.43.0


From c58087d923237cea017453cdb2cfe742dd68c09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:17 +0000
Subject: [PATCH 51/70] fix: encode masks with a stride different from their
 width

---
 mask/encoder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mask/encoder.go b/mask/encoder.go
index 864b62f..9192edc 100644
--- a/mask/encoder.go
+++ b/mask/encoder.go
@@ -118,10 +118,10 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 }
 
 func (self *Encoder) computeMaskFragments(mask *image.Alpha) {
+	// (row by row, as sub-images have a stride greater than their width)
 	maskCopy := image.NewAlpha(mask.Rect)
-	copy(maskCopy.Pix, mask.Pix)
-	if mask.Stride != maskCopy.Stride {
-		panic("mask.Stride != maskCopy.Stride")
+	for row := 0; row < maskCopy.Rect.Dy(); row++ {
+		copy(maskCopy.Pix[row*maskCopy.Stride : (row + 1)*maskCopy.Stride], mask.Pix[row*mask.Stride : ])
 	}
 
 	// find isolated pixels and diagonals (only down-left/down-right)
-- 
2.43.0


From 8bbd8040d72a69eb3116ac7c8fbf5f2b2ab61b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:18 +0000
Subject: [PATCH 52/70] fix: encode moves longer than 128 pixels instead of
 panicking

---
 mask/encoder.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/mask/encoder.go b/mask/encoder.go
index 9192edc..b7a48aa 100644
--- a/mask/encoder.go
+++ b/mask/encoder.go
@@ -32,6 +32,9 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 	value := uint8(255) // default palette index value
 	var payload [8]byte
 	for i := 0; i < len(self.fragments); i++ {
+		// long pre-moves that require multiple operations
+		data, x, y = appendLongMoves(data, self.fragments[i].minX, self.fragments[i].minY, x, y)
+
 		// reset payload control code and payload size
 		var payloadSize int = 1
 		payload[0] = 0
@@ -117,6 +120,27 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 	return data
 }
 
+// Appends move operations until the target can be reached with a single
+// additional pre-move, returning the new data and position.
+func appendLongMoves(data []byte, targetX, targetY, x, y int) ([]byte, int, int) {
+	for {
+		var payload [3]byte
+		var payloadSize int = 1
+		if xDist := targetX - x; xDist < -128 || xDist > 128 {
+			payload[0] |= 0b0000_0010
+			if xDist > 0 { payload[payloadSize], x = 127, x + 128 } else { payload[payloadSize], x = 128, x - 128 }
+			payloadSize += 1
+		}
+		if yDist := targetY - y; yDist < -128 || yDist > 128 {
+			payload[0] |= 0b0000_0100
+			if yDist > 0 { payload[payloadSize], y = 127, y + 128 } else { payload[payloadSize], y = 128, y - 128 }
+			payloadSize += 1
+		}
+		if payload[0] == 0 { return data, x, y }
+		data = append(data, payload[ : payloadSize]...)
+	}
+}
+
 func (self *Encoder) computeMaskFragments(mask *image.Alpha) {
 	// (row by row, as sub-images have a stride greater than their width)
 	maskCopy := image.NewAlpha(mask.Rect)
-- 
2.43.0


From bb7f72e3112c3ec227b8e96ea00ef54e336c6510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:19 +0000
Subject: [PATCH 53/70] fix: encode draws longer than 256 pixels instead of
 panicking

---
 mask/encoder.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/mask/encoder.go b/mask/encoder.go
index b7a48aa..1a923b6 100644
--- a/mask/encoder.go
+++ b/mask/encoder.go
@@ -13,6 +13,7 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 
 	// compute mask fragments
 	self.computeMaskFragments(mask)
+	self.splitLongFragments()
 
 	// empty mask case
 	if len(self.fragments) == 0 { return data }
@@ -120,6 +121,38 @@ func (self *Encoder) AppendRasterOps(data []byte, mask *image.Alpha) []byte {
 	return data
 }
 
+// Draw operations can't exceed 256 pixels per axis, so
+// fragments larger than that have to be split.
+func (self *Encoder) splitLongFragments() {
+	const maxDrawSize = 256
+	for i := 0; i < len(self.fragments); i++ { // (includes fragments appended while splitting)
+		rest := self.fragments[i]
+		xDraw, yDraw := rest.GetDrawSizes()
+		switch {
+		case rest.diagonalType == diagDesc && xDraw > maxDrawSize:
+			self.fragments[i].maxX = rest.minX + maxDrawSize - 1
+			self.fragments[i].maxY = rest.minY + maxDrawSize - 1
+			rest.minX += maxDrawSize
+			rest.minY += maxDrawSize
+		case rest.diagonalType == diagAsc && xDraw > maxDrawSize:
+			self.fragments[i].maxX = rest.minX + maxDrawSize - 1
+			self.fragments[i].minY = rest.maxY - maxDrawSize + 1
+			rest.minX += maxDrawSize
+			rest.maxY -= maxDrawSize
+		case xDraw > maxDrawSize:
+			self.fragments[i].maxX = rest.minX + maxDrawSize - 1
+			rest.minX += maxDrawSize
+		case yDraw > maxDrawSize:
+			self.fragments[i].maxY = rest.minY + maxDrawSize - 1
+			rest.minY += maxDrawSize
+		default:
+			continue
+		}
+		self.fragments = append(self.fragments, rest)
+		i -= 1 // the current fragment might need to be split on the other axis too
+	}
+}
+
 // Appends move operations until the target can be reached with a single
 // additional pre-move, returning the new data and position.
 func appendLongMoves(data []byte, targetX, targetY, x, y int) ([]byte, int, int) {
-- 
2.43.0


From e111e0aa080d33df901ad0a441ffb4c84907a1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:02 +0000
Subject: [PATCH 54/70] fix: avoid quadratic copying while inflating font data

---
 internal/helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/helpers.go b/internal/helpers.go
index 68feb5d..6390cce 100644
--- a/internal/helpers.go
+++ b/internal/helpers.go
@@ -9,7 +9,7 @@ func GrowSliceByN[T any](buffer []T, increase int) []T {
 	if cap(buffer) >= newSize {
 		return buffer[ : newSize]
 	} else {
-		newBuffer := make([]T, newSize)
+		newBuffer := make([]T, newSize, max(newSize, cap(buffer)*2)) // amortized growth
 		copy(newBuffer, buffer)
 		return newBuffer
 	}
-- 
2.43.0


From 7de9c3c8831d2fa3618e5d443cdae93c36eabce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:13 +0000
Subject: [PATCH 55/70] fix: refuse more than 65535 rewrite rules instead of
 panicking on Build

---
 builder/font_builder_rewrite_rules.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/font_builder_rewrite_rules.go b/builder/font_builder_rewrite_rules.go
index 3af5bde..f4640cb 100644
--- a/builder/font_builder_rewrite_rules.go
+++ b/builder/font_builder_rewrite_rules.go
@@ -216,6 +216,7 @@ func (self *utf8RewriteRule) appendAccumulatedInBlock(data []byte, groups []uint
 func (self *Font) AddSimpleUtf8RewriteRule(replacement rune, sequence ...rune) error {
 	if len(sequence) == 0 { return errors.New("rewrite rule sequence can't be empty") }
 	if len(sequence) > 255 { return errors.New("rewrite rule sequence can't exceed 255 runes") }
+	if len(self.utf8Rules) >= 65535 { return errors.New("font can't contain more than 65535 utf8 rewrite rules") }
 	
 	rule := utf8RewriteRule{ condition: 255, bodyLen: uint8(len(sequence)), inRunes: slices.Clone(sequence), output: []rune{replacement} }
 	for i := 0; i < len(sequence); i++ {
@@ -232,6 +233,11 @@ func (self *Font) AddUtf8RewriteRule(headLen, bodyLen, tailLen uint8, input []an
 
 // Ids can be for glyphs or glyph sets, we assume they won't collide.
 func (self *Font) AddGlyphRewriteRule(headLen, bodyLen, tailLen uint8, input []uint64, out ...uint64) error {
+	// validate number of rules
+	if len(self.glyphRules) >= 65535 {
+		return errors.New("font can't contain more than 65535 glyph rewrite rules")
+	}
+
 	// validate input sizes
 	if bodyLen == 0 { return errors.New("rewrite rule input body must have len >= 1") }
 	headBodyLen := headLen + bodyLen
-- 
2.43.0


From 8fb02836ef0528a2335d34a4fd631b3bba675b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:02 +0000
Subject: [PATCH 56/70] fix: return an error instead of panicking on truncated
 or overlong rewrite rules

---
 internal/rerules/glyphrule/rule_scanner.go | 12 +++++++-----
 internal/rerules/utf8rule/rule_scanner.go  | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/internal/rerules/glyphrule/rule_scanner.go b/internal/rerules/glyphrule/rule_scanner.go
index bb6446e..70adf70 100644
--- a/internal/rerules/glyphrule/rule_scanner.go
+++ b/internal/rerules/glyphrule/rule_scanner.go
@@ -45,6 +45,9 @@ func (self *RuleScanner) Start(rule ggfnt.GlyphRewriteRule) error {
 	
 	// skip to body if head is empty
 	if self.rule.Data[1] == 0 {
+		if !self.HasNext() || self.rule.Data[self.dataIndex] != 0 {
+			return rerules.ErrInvalidReRule
+		}
 		self.dataIndex += 1
 		self.block = RuleBody
 		self.remainingBlockElements = self.rule.Data[2]
@@ -54,9 +57,7 @@ func (self *RuleScanner) Start(rule ggfnt.GlyphRewriteRule) error {
 	}
 
 	// parse head or body fragment control
-	self.parseFragmentControl()
-
-	return nil
+	return self.parseFragmentControl()
 }
 
 func (self *RuleScanner) Condition() uint8 { return self.rule.Condition() }
@@ -116,8 +117,7 @@ func (self *RuleScanner) Next() (ggfnt.GlyphIndex, GlyphSetIndex, error) {
 		return glyphIndex, GlyphSetNone, nil
 	}
 
-	if !self.HasNext() { panic("precondition violation") }
-	panic(BrokenCode)
+	panic("precondition violation")
 }
 
 func (self *RuleScanner) advanceControl() error {
@@ -139,6 +139,7 @@ func (self *RuleScanner) advanceControl() error {
 }
 
 func (self *RuleScanner) parseFragmentControl() error {
+	if !self.HasNext() { return rerules.ErrInvalidReRule }
 	ctrl := self.rule.Data[self.dataIndex]
 	self.dataIndex += 1
 	self.remainingSets   = (ctrl & 0b1111_0000) >> 4
@@ -150,6 +151,7 @@ func (self *RuleScanner) parseFragmentControl() error {
 		if self.accumulatedBlockSets + self.accumulatedBlockGlyphs != self.rule.Data[1 + int(self.block)] {
 			return rerules.ErrInvalidReRule
 		}
+		if self.HasNext() { return rerules.ErrInvalidReRule } // nothing can follow an empty tail
 	} else {
 		if self.accumulatedBlockSets + self.accumulatedBlockGlyphs < self.accumulatedBlockSets {
 			return rerules.ErrInvalidReRule // ^ overflow
diff --git a/internal/rerules/utf8rule/rule_scanner.go b/internal/rerules/utf8rule/rule_scanner.go
index 9ee5366..06397a0 100644
--- a/internal/rerules/utf8rule/rule_scanner.go
+++ b/internal/rerules/utf8rule/rule_scanner.go
@@ -44,6 +44,9 @@ func (self *RuleScanner) Start(rule ggfnt.Utf8RewriteRule) error {
 	
 	// skip to body if head is empty
 	if self.rule.Data[1] == 0 {
+		if !self.HasNext() || self.rule.Data[self.dataIndex] != 0 {
+			return rerules.InvalidUtf8RuleErr(self.rule)
+		}
 		self.dataIndex += 1
 		self.block = RuleBody
 		self.remainingBlockElements = self.rule.Data[2]
@@ -53,9 +56,7 @@ func (self *RuleScanner) Start(rule ggfnt.Utf8RewriteRule) error {
 	}
 
 	// parse head or body fragment control
-	self.parseFragmentControl()
-
-	return nil
+	return self.parseFragmentControl()
 }
 
 func (self *RuleScanner) Condition() uint8 { return self.rule.Condition() }
@@ -114,8 +115,7 @@ func (self *RuleScanner) Next() (rune, Utf8SetIndex, error) {
 		return codePoint, Utf8SetNone, nil
 	}
 
-	if !self.HasNext() { panic("precondition violation") }
-	panic(BrokenCode)
+	panic("precondition violation")
 }
 
 func (self *RuleScanner) advanceControl() error {
@@ -137,6 +137,7 @@ func (self *RuleScanner) advanceControl() error {
 }
 
 func (self *RuleScanner) parseFragmentControl() error {
+	if !self.HasNext() { return rerules.InvalidUtf8RuleErr(self.rule) }
 	ctrl := self.rule.Data[self.dataIndex]
 	self.dataIndex += 1
 	self.remainingSets = (ctrl & 0b1111_0000) >> 4
@@ -148,6 +149,7 @@ func (self *RuleScanner) parseFragmentControl() error {
 		if self.accumulatedBlockSets + self.accumulatedBlockCodePoints != self.rule.Data[1 + int(self.block)] {
 			return rerules.InvalidUtf8RuleErr(self.rule)
 		}
+		if self.HasNext() { return rerules.InvalidUtf8RuleErr(self.rule) } // nothing can follow an empty tail
 	} else {
 		if self.accumulatedBlockSets + self.accumulatedBlockCodePoints < self.accumulatedBlockSets {
 			return rerules.InvalidUtf8RuleErr(self.rule) // ^ overflow
-- 
2.43.0


From 1a5f403f0df3d2bcc5a560018f3c739bc04f354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:25 +0000
Subject: [PATCH 57/70] fix: keep rewrite tree transitions when the compiler
 reallocates its states

---
 .../rerules/glyphrule/decision_tree_compiler.go  | 16 ++++++++++------
 .../rerules/utf8rule/decision_tree_compiler.go   | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 90cf1cd..28ca924 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -103,32 +103,36 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 
 		// since the decision tree can widen during the process, we need
 		// to keep updating all the possible branches that have been opening
-		for _, state := range self.run.FromStates {
+		for _, stateIndex := range self.run.FromStates {
 			// adjust helper variables and a few properties
-			self.run.StateIndex = state
-			self.states[state].UpdateHeadLen(self.run.Scanner.HeadLen())
+			// (linking new states can reallocate self.states,
+			// so we can't modify the state directly there)
+			self.run.StateIndex = stateIndex
+			state := self.states[stateIndex]
+			state.UpdateHeadLen(self.run.Scanner.HeadLen())
 
 			// append glyph or glyph range
 			if glyphIndex != GlyphNone { // glyph index case
 				if glyphSet != GlyphSetNone { panic(BrokenCode) } // discretionary safety assertion
 	
 				glyphRange := ggfnt.GlyphRange{ First: glyphIndex, Last: glyphIndex }
-				err := self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
+				err := state.AppendRange(glyphRange, matchRule, self.stateLinker)
 				if err != nil { return err }
 			} else { // glyph set case
 				if glyphSet == GlyphSetNone { panic(BrokenCode) } // discretionary safety assertion
 	
 				set := self.run.Font.Rewrites().GetGlyphSet(uint8(glyphSet))
 				err := set.EachRange(func(glyphRange ggfnt.GlyphRange) error {
-					return self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
+					return state.AppendRange(glyphRange, matchRule, self.stateLinker)
 				})
 				if err != nil { return err }
 				err = set.EachListGlyph(func(glyphIndex ggfnt.GlyphIndex) error {
 					glyphRange := ggfnt.GlyphRange{ First: glyphIndex, Last: glyphIndex }
-					return self.states[state].AppendRange(glyphRange, matchRule, self.stateLinker)
+					return state.AppendRange(glyphRange, matchRule, self.stateLinker)
 				})
 				if err != nil { return err }
 			}
+			self.states[stateIndex] = state
 		}
 		
 		// update run variables
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index 680b900..aa40862 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -103,17 +103,20 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 
 		// since the decision tree can widen during the process, we need
 		// to keep updating all the possible branches that have been opening
-		for _, state := range self.run.FromStates {
+		for _, stateIndex := range self.run.FromStates {
 			// adjust helper variables and a few properties
-			self.run.StateIndex = state
-			self.states[state].UpdateHeadLen(self.run.Scanner.HeadLen())
+			// (linking new states can reallocate self.states,
+			// so we can't modify the state directly there)
+			self.run.StateIndex = stateIndex
+			state := self.states[stateIndex]
+			state.UpdateHeadLen(self.run.Scanner.HeadLen())
 
 			// append rune or rune range
 			if codePoint != RuneError { // code point case
 				if utf8Set != Utf8SetNone { panic(BrokenCode) } // discretionary safety assertion
 	
 				runeRange := RuneRange{ First: codePoint, Last: codePoint }
-				err := self.states[state].AppendRange(runeRange, matchRule, self.stateLinker)
+				err := state.AppendRange(runeRange, matchRule, self.stateLinker)
 				if err != nil { return err }
 			} else { // utf8 set case
 				if utf8Set == Utf8SetNone { panic(BrokenCode) } // discretionary safety assertion
@@ -121,15 +124,16 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 				set := self.run.Font.Rewrites().GetUtf8Set(uint8(utf8Set))
 				err := set.EachRange(func(firstRune, lastRune rune) error {
 					runeRange := RuneRange{ First: firstRune, Last: lastRune }
-					return self.states[state].AppendRange(runeRange, matchRule, self.stateLinker)
+					return state.AppendRange(runeRange, matchRule, self.stateLinker)
 				})
 				if err != nil { return err }
 				err = set.EachListRune(func(codePoint rune) error {
 					runeRange := RuneRange{ First: codePoint, Last: codePoint }
-					return self.states[state].AppendRange(runeRange, matchRule, self.stateLinker)
+					return state.AppendRange(runeRange, matchRule, self.stateLinker)
 				})
 				if err != nil { return err }
 			}
+			self.states[stateIndex] = state
 		}
 		
 		// update run variables
-- 
2.43.0


From f585c824547f34929831256ae0e1b9aa672340bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:26 +0000
Subject: [PATCH 58/70] fix: split overlapping ranges of rewrite rules at the
 right positions

---
 internal/rerules/glyphrule/decision_tree_state.go | 6 +++---
 internal/rerules/utf8rule/decision_tree_state.go  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index cff16de..70aab85 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -85,7 +85,7 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
 			// ^ we terminate here
 		case splitMidLast:
-			err := self.splitTransitionBy(candidateTrans, splitRange)
+			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
 			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
 			if err != nil { return err }
@@ -124,7 +124,7 @@ func (self *State) confrontRanges(candidateRange, incomingRange ggfnt.GlyphRange
 		if incomingRange.Last < candidateRange.First {
 			return noSplitPre, incomingRange
 		} else {
-			return noSplitPre, ggfnt.GlyphRange{ incomingRange.First, candidateRange.Last - 1 }
+			return noSplitPre, ggfnt.GlyphRange{ incomingRange.First, candidateRange.First - 1 }
 		}
 	} else if incomingRange.First == candidateRange.First { // splitFirst*
 		if incomingRange.Last >= candidateRange.Last {
@@ -185,7 +185,7 @@ func (self *State) splitTransitionAt(transIndex TransitionIndex, lastGlyphOfPre
 	vacatedRange := self.Transitions[transIndex].ShortenRTL(lastGlyphOfPre)
 	newTransIndex, err := self.unsafeInsertUninitializedTransition(vacatedRange)
 	if err != nil { return err }
-	if transIndex != newTransIndex + 1 { panic(BrokenCode) }
+	if newTransIndex != transIndex + 1 { panic(BrokenCode) }
 
 	// initialize new transition to match the previously existing one
 	self.Transitions[newTransIndex].NextState = self.Transitions[transIndex].NextState
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index 04df50d..47db3c4 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -84,7 +84,7 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
 			// ^ we terminate here
 		case splitMidLast:
-			err := self.splitTransitionBy(candidateTrans, splitRange)
+			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
 			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
 			if err != nil { return err }
@@ -123,7 +123,7 @@ func (self *State) confrontRanges(candidateRange, incomingRange RuneRange) (spli
 		if incomingRange.Last < candidateRange.First {
 			return noSplitPre, incomingRange
 		} else {
-			return noSplitPre, RuneRange{ incomingRange.First, candidateRange.Last - 1 }
+			return noSplitPre, RuneRange{ incomingRange.First, candidateRange.First - 1 }
 		}
 	} else if incomingRange.First == candidateRange.First { // splitFirst*
 		if incomingRange.Last >= candidateRange.Last {
@@ -184,7 +184,7 @@ func (self *State) splitTransitionAt(transIndex TransitionIndex, lastRuneOfPre r
 	vacatedRange := self.Transitions[transIndex].ShortenRTL(lastRuneOfPre)
 	newTransIndex, err := self.unsafeInsertUninitializedTransition(vacatedRange)
 	if err != nil { return err }
-	if transIndex != newTransIndex + 1 { panic(BrokenCode) }
+	if newTransIndex != transIndex + 1 { panic(BrokenCode) }
 
 	// initialize new transition to match the previously existing one
 	self.Transitions[newTransIndex].NextState = self.Transitions[transIndex].NextState
-- 
2.43.0


From 2b28ea97d51ba290a3e71c8536bd6475c42e4c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:11 +0000
Subject: [PATCH 59/70] fix: track the rules and uses of rewrite tree states
 when splitting and sharing them

---
 .../glyphrule/decision_tree_compiler.go       | 43 ++++++++++++++-----
 .../rerules/glyphrule/decision_tree_state.go  |  2 +-
 .../glyphrule/decision_tree_transition.go     | 10 ++---
 .../utf8rule/decision_tree_compiler.go        | 43 ++++++++++++++-----
 .../rerules/utf8rule/decision_tree_state.go   |  2 +-
 .../utf8rule/decision_tree_transition.go      | 10 ++---
 6 files changed, 78 insertions(+), 32 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 28ca924..db76032 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -32,7 +32,7 @@ type DecisionTreeCompiler struct {
 
 		TrackerFreedStates []StateIndex // indices of states that can be repurposed due to no use
 		// all the remaining slices begin with state index 1 (0 is root)
-		TrackerStateUses []uint8 // use counts for each state. when 0, we can clean them up
+		TrackerStateUses []uint16 // use counts for each state. when 0, we can clean them up
 		TrackerStateRules [][]RuleIndex // rules involved in the state, sorted (asc.)
 		TrackerStatesByDepth [][]StateIndex // depth to list of states on that depth level, sorted (asc.)
 	}
@@ -156,7 +156,8 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	// we are at it, we also keep "compacting" the slice by moving
 	// remaining state indices to fill any gaps created
 	var freedCount int = 0
-	depth := self.run.Depth - 1 // TrackerStatesByDepth begins at depth 1
+	depth := int(self.run.Depth - 1) // TrackerStatesByDepth begins at depth 1
+	if depth >= len(self.run.TrackerStatesByDepth) { return } // possible due to empty sets
 	
 	for i, state := range self.run.TrackerStatesByDepth[depth] {
 		if state == 0 { panic(BrokenCode) }
@@ -165,6 +166,7 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 			// notice: we don't reset state info here yet, it will have
 			//         to be reset later when we need it again
 			self.run.TrackerFreedStates = append(self.run.TrackerFreedStates, state)
+			self.adjustNextStatesUseCounts(state, -1)
 			freedCount += 1
 		} else if freedCount > 0 {
 			self.run.TrackerStatesByDepth[depth][i - freedCount] = state
@@ -177,8 +179,23 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	}
 }
 
-type StateLinkerFn = func(StateIndex, int) (StateIndex, error)
-func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, numSplits int) (StateIndex, error) {
+// The reference state is the state that the transition being linked was pointing to, and
+// numSplits the number of additional transitions to it created by splitting the transition.
+type StateLinkerFn = func(StateIndex, int, RuleIndex) (StateIndex, error)
+func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, numSplits int, ruleMatchIndex RuleIndex) (StateIndex, error) {
+	if numSplits < 0 || numSplits > 2 { panic(PreViolation) }
+	if referenceStateIndex != StateNone {
+		self.adjustStateUseCount(referenceStateIndex, numSplits)
+	}
+
+	// if the rule ends here or is already included in the
+	// reference state, the transition doesn't need to change
+	if ruleMatchIndex != RuleNone { return referenceStateIndex, nil }
+	if referenceStateIndex != StateNone {
+		_, found := internal.BadBinarySearch(self.run.TrackerStateRules[referenceStateIndex - 1], self.run.RuleIndex)
+		if found { return referenceStateIndex, nil }
+	}
+
 	// check if the desired state already exists
 	resultStateIndex := self.fetchReusableState(referenceStateIndex)
 	
@@ -190,6 +207,7 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 		if referenceStateIndex != StateNone {
 			self.states[resultStateIndex].CopyDataFrom(self.states[referenceStateIndex])
 			self.initializeStateRulesWithRef(resultStateIndex, referenceStateIndex)
+			self.adjustNextStatesUseCounts(resultStateIndex, 1)
 		} else {
 			self.states[resultStateIndex].Reset()
 			self.initializeStateRules(resultStateIndex)
@@ -200,10 +218,8 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 	// update tracking and helper variables
 	self.appendStateToNextRound(resultStateIndex)
 	self.adjustStateUseCount(resultStateIndex, 1)
-	if referenceStateIndex == StateNone && numSplits != 0 { panic(PreViolation) }
 	if referenceStateIndex != StateNone {
-		if numSplits < 0 || numSplits > 2 { panic(PreViolation) }
-		self.adjustStateUseCount(referenceStateIndex, numSplits - 1)
+		self.adjustStateUseCount(referenceStateIndex, -1)
 	}
 
 	// return resulting state
@@ -232,7 +248,6 @@ func (self *DecisionTreeCompiler) fetchReusableState(referenceStateIndex StateIn
 		for i, _ := range rules {
 			if rules[i] < self.run.RuleIndex { comparisonRulePosition += 1 }
 			if rules[i] == self.run.RuleIndex { panic(BrokenCode) }
-			break
 		}
 	}
 
@@ -299,8 +314,16 @@ func (self *DecisionTreeCompiler) adjustStateUseCount(stateIndex StateIndex, del
 	} else {
 		result = int(self.run.TrackerStateUses[stateIndex]) + delta
 	}
-	if result > 255 || result < 0 { panic(BrokenCode) }
-	self.run.TrackerStateUses[stateIndex] = uint8(result)
+	if result > 65535 || result < 0 { panic(BrokenCode) }
+	self.run.TrackerStateUses[stateIndex] = uint16(result)
+}
+
+// Adjusts the use counts of the states that the given state leads to.
+func (self *DecisionTreeCompiler) adjustNextStatesUseCounts(stateIndex StateIndex, delta int) {
+	for i, _ := range self.states[stateIndex].Transitions {
+		nextState := self.states[stateIndex].Transitions[i].NextState
+		if nextState != StateNone { self.adjustStateUseCount(nextState, delta) }
+	}
 }
 
 // The states can't be 0, as 0 is the root, which is treated separately.
diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index 70aab85..a6683b2 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -151,7 +151,7 @@ func (self *State) insertNewTransition(glyphRange ggfnt.GlyphRange, ruleMatchInd
 	// initialize remaining transition properties
 	self.Transitions[index].RuleMatch = ruleMatchIndex
 	if ruleMatchIndex == RuleNone {
-		self.Transitions[index].NextState, err = stateLinker(StateNone, numSplits)
+		self.Transitions[index].NextState, err = stateLinker(StateNone, numSplits, ruleMatchIndex)
 		return err
 	} else {
 		self.Transitions[index].NextState = StateNone
diff --git a/internal/rerules/glyphrule/decision_tree_transition.go b/internal/rerules/glyphrule/decision_tree_transition.go
index 337a14a..6152b3a 100644
--- a/internal/rerules/glyphrule/decision_tree_transition.go
+++ b/internal/rerules/glyphrule/decision_tree_transition.go
@@ -18,12 +18,12 @@ func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn
 		if self.RuleMatch == RuleNone {
 			self.RuleMatch = ruleMatchIndex
 		}
-		return nil
-	} else { // add next state
-		var err error
-		self.NextState, err = stateLinker(self.NextState, numSplits)
-		return err
 	}
+	
+	// add next state or update its usage
+	var err error
+	self.NextState, err = stateLinker(self.NextState, numSplits, ruleMatchIndex)
+	return err
 }
 
 // Shorten the transition by moving the Range.Last more towards the beginning.
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index aa40862..a4c3a20 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -32,7 +32,7 @@ type DecisionTreeCompiler struct {
 
 		TrackerFreedStates []StateIndex // indices of states that can be repurposed due to no use
 		// all the remaining slices begin with state index 1 (0 is root)
-		TrackerStateUses []uint8 // use counts for each state. when 0, we can clean them up
+		TrackerStateUses []uint16 // use counts for each state. when 0, we can clean them up
 		TrackerStateRules [][]RuleIndex // rules involved in the state, sorted (asc.)
 		TrackerStatesByDepth [][]StateIndex // depth to list of states on that depth level, sorted (asc.)
 	}
@@ -157,7 +157,8 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	// we are at it, we also keep "compacting" the slice by moving
 	// remaining state indices to fill any gaps created
 	var freedCount int = 0
-	depth := self.run.Depth - 1 // TrackerStatesByDepth begins at depth 1
+	depth := int(self.run.Depth - 1) // TrackerStatesByDepth begins at depth 1
+	if depth >= len(self.run.TrackerStatesByDepth) { return } // possible due to empty sets
 	
 	for i, state := range self.run.TrackerStatesByDepth[depth] {
 		if state == 0 { panic(BrokenCode) }
@@ -166,6 +167,7 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 			// notice: we don't reset state info here yet, it will have
 			//         to be reset later when we need it again
 			self.run.TrackerFreedStates = append(self.run.TrackerFreedStates, state)
+			self.adjustNextStatesUseCounts(state, -1)
 			freedCount += 1
 		} else if freedCount > 0 {
 			self.run.TrackerStatesByDepth[depth][i - freedCount] = state
@@ -178,8 +180,23 @@ func (self *DecisionTreeCompiler) freeUnusedStates() {
 	}
 }
 
-type StateLinkerFn = func(StateIndex, int) (StateIndex, error)
-func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, numSplits int) (StateIndex, error) {
+// The reference state is the state that the transition being linked was pointing to, and
+// numSplits the number of additional transitions to it created by splitting the transition.
+type StateLinkerFn = func(StateIndex, int, RuleIndex) (StateIndex, error)
+func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, numSplits int, ruleMatchIndex RuleIndex) (StateIndex, error) {
+	if numSplits < 0 || numSplits > 2 { panic(PreViolation) }
+	if referenceStateIndex != StateNone {
+		self.adjustStateUseCount(referenceStateIndex, numSplits)
+	}
+
+	// if the rule ends here or is already included in the
+	// reference state, the transition doesn't need to change
+	if ruleMatchIndex != RuleNone { return referenceStateIndex, nil }
+	if referenceStateIndex != StateNone {
+		_, found := internal.BadBinarySearch(self.run.TrackerStateRules[referenceStateIndex - 1], self.run.RuleIndex)
+		if found { return referenceStateIndex, nil }
+	}
+
 	// check if the desired state already exists
 	resultStateIndex := self.fetchReusableState(referenceStateIndex)
 	
@@ -191,6 +208,7 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 		if referenceStateIndex != StateNone {
 			self.states[resultStateIndex].CopyDataFrom(self.states[referenceStateIndex])
 			self.initializeStateRulesWithRef(resultStateIndex, referenceStateIndex)
+			self.adjustNextStatesUseCounts(resultStateIndex, 1)
 		} else {
 			self.states[resultStateIndex].Reset()
 			self.initializeStateRules(resultStateIndex)
@@ -201,10 +219,8 @@ func (self *DecisionTreeCompiler) stateLinker(referenceStateIndex StateIndex, nu
 	// update tracking and helper variables
 	self.appendStateToNextRound(resultStateIndex)
 	self.adjustStateUseCount(resultStateIndex, 1)
-	if referenceStateIndex == StateNone && numSplits != 0 { panic(PreViolation) }
 	if referenceStateIndex != StateNone {
-		if numSplits < 0 || numSplits > 2 { panic(PreViolation) }
-		self.adjustStateUseCount(referenceStateIndex, numSplits - 1)
+		self.adjustStateUseCount(referenceStateIndex, -1)
 	}
 
 	// return resulting state
@@ -233,7 +249,6 @@ func (self *DecisionTreeCompiler) fetchReusableState(referenceStateIndex StateIn
 		for i, _ := range rules {
 			if rules[i] < self.run.RuleIndex { comparisonRulePosition += 1 }
 			if rules[i] == self.run.RuleIndex { panic(BrokenCode) }
-			break
 		}
 	}
 
@@ -300,8 +315,16 @@ func (self *DecisionTreeCompiler) adjustStateUseCount(stateIndex StateIndex, del
 	} else {
 		result = int(self.run.TrackerStateUses[stateIndex]) + delta
 	}
-	if result > 255 || result < 0 { panic(BrokenCode) }
-	self.run.TrackerStateUses[stateIndex] = uint8(result)
+	if result > 65535 || result < 0 { panic(BrokenCode) }
+	self.run.TrackerStateUses[stateIndex] = uint16(result)
+}
+
+// Adjusts the use counts of the states that the given state leads to.
+func (self *DecisionTreeCompiler) adjustNextStatesUseCounts(stateIndex StateIndex, delta int) {
+	for i, _ := range self.states[stateIndex].Transitions {
+		nextState := self.states[stateIndex].Transitions[i].NextState
+		if nextState != StateNone { self.adjustStateUseCount(nextState, delta) }
+	}
 }
 
 // The states can't be 0, as 0 is the root, which is treated separately.
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index 47db3c4..ce8a97e 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -150,7 +150,7 @@ func (self *State) insertNewTransition(runeRange RuneRange, ruleMatchIndex RuleI
 	// initialize remaining transition properties
 	self.Transitions[index].RuleMatch = ruleMatchIndex
 	if ruleMatchIndex == RuleNone {
-		self.Transitions[index].NextState, err = stateLinker(StateNone, numSplits)
+		self.Transitions[index].NextState, err = stateLinker(StateNone, numSplits, ruleMatchIndex)
 		return err
 	} else {
 		self.Transitions[index].NextState = StateNone
diff --git a/internal/rerules/utf8rule/decision_tree_transition.go b/internal/rerules/utf8rule/decision_tree_transition.go
index b4b472d..d8fb6f5 100644
--- a/internal/rerules/utf8rule/decision_tree_transition.go
+++ b/internal/rerules/utf8rule/decision_tree_transition.go
@@ -16,12 +16,12 @@ func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn
 		if self.RuleMatch == RuleNone {
 			self.RuleMatch = ruleMatchIndex
 		}
-		return nil
-	} else { // add next state
-		var err error
-		self.NextState, err = stateLinker(self.NextState, numSplits)
-		return err
 	}
+	
+	// add next state or update its usage
+	var err error
+	self.NextState, err = stateLinker(self.NextState, numSplits, ruleMatchIndex)
+	return err
 }
 
 // Shorten the transition by moving the Range.Last more towards the beginning.
-- 
2.43.0


From 42cb78a4b1effcea36b62241b4e3809b9e964ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:45 +0000
Subject: [PATCH 60/70] fix: return an error for rewrite rules with sets that
 don't exist

---
 internal/rerules/glyphrule/decision_tree_compiler.go | 8 ++++++--
 internal/rerules/utf8rule/decision_tree_compiler.go  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index db76032..7df448b 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -5,6 +5,7 @@ import "errors"
 
 import "github.com/tinne26/ggfnt"
 import "github.com/tinne26/ggfnt/internal"
+import "github.com/tinne26/ggfnt/internal/rerules"
 
 const CompilerHitLimits = "DecisionTreeCompiler hit a limit on number of states, transitions or a similar parameter"
 var ErrCompilerHitLimits = errors.New(CompilerHitLimits)
@@ -96,6 +97,11 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 	for self.run.Scanner.HasNext() {
 		glyphIndex, glyphSet, err := self.run.Scanner.Next()
 		if err != nil { return err }
+		if glyphIndex == GlyphNone { // sets must exist
+			if self.run.Font == nil || uint8(glyphSet) >= self.run.Font.Rewrites().NumGlyphSets() {
+				return rerules.ErrInvalidReRule
+			}
+		}
 		var matchRule RuleIndex = RuleNone
 		if !self.run.Scanner.HasNext() {
 			matchRule = self.run.RuleIndex
@@ -119,8 +125,6 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 				err := state.AppendRange(glyphRange, matchRule, self.stateLinker)
 				if err != nil { return err }
 			} else { // glyph set case
-				if glyphSet == GlyphSetNone { panic(BrokenCode) } // discretionary safety assertion
-	
 				set := self.run.Font.Rewrites().GetGlyphSet(uint8(glyphSet))
 				err := set.EachRange(func(glyphRange ggfnt.GlyphRange) error {
 					return state.AppendRange(glyphRange, matchRule, self.stateLinker)
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index a4c3a20..af93469 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -5,6 +5,7 @@ import "errors"
 
 import "github.com/tinne26/ggfnt"
 import "github.com/tinne26/ggfnt/internal"
+import "github.com/tinne26/ggfnt/internal/rerules"
 
 const CompilerHitLimits = "DecisionTreeCompiler hit a limit on number of states, transitions or a similar parameter"
 var ErrCompilerHitLimits = errors.New(CompilerHitLimits)
@@ -96,6 +97,11 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 	for self.run.Scanner.HasNext() {
 		codePoint, utf8Set, err := self.run.Scanner.Next()
 		if err != nil { return err }
+		if codePoint == RuneError { // sets must exist
+			if self.run.Font == nil || uint8(utf8Set) >= self.run.Font.Rewrites().NumUTF8Sets() {
+				return rerules.InvalidUtf8RuleErr(rule)
+			}
+		}
 		var matchRule RuleIndex = RuleNone
 		if !self.run.Scanner.HasNext() {
 			matchRule = self.run.RuleIndex
@@ -119,8 +125,6 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 				err := state.AppendRange(runeRange, matchRule, self.stateLinker)
 				if err != nil { return err }
 			} else { // utf8 set case
-				if utf8Set == Utf8SetNone { panic(BrokenCode) } // discretionary safety assertion
-	
 				set := self.run.Font.Rewrites().GetUtf8Set(uint8(utf8Set))
 				err := set.EachRange(func(firstRune, lastRune rune) error {
 					runeRange := RuneRange{ First: firstRune, Last: lastRune }
-- 
2.43.0


From 42d10b3e8d6cf0ba0a591b4babcde0372eb99e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:46 +0000
Subject: [PATCH 61/70] fix: avoid overflows on rewrite sets reaching the last
 index

---
 internal/rerules/glyphrule/decision_tree_state.go | 3 +++
 internal/rerules/utf8rule/decision_tree_state.go  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index a6683b2..8b7b83f 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -64,6 +64,7 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 		case noSplitPre:
 			err := self.insertNewTransition(splitRange, ruleMatchIndex, stateLinker, 0)
 			if err != nil { return err }
+			if splitRange.Last == glyphRange.Last { return nil } // avoids overflows
 			glyphRange.First = splitRange.Last + 1
 			// in theory we wouldn't want to change the candidateTrans, but we added
 			// a new transition that will be placed exactly on candidateTrans, so
@@ -77,6 +78,7 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 		case splitFirstLast:
 			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, 0)
 			if err != nil { return err }
+			if splitRange.Last == glyphRange.Last { return nil } // avoids overflows
 			glyphRange.First = splitRange.Last + 1
 			candidateTrans += 1
 		case splitMidMid:
@@ -89,6 +91,7 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 			if err != nil { return err }
 			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
 			if err != nil { return err }
+			if splitRange.Last == glyphRange.Last { return nil } // avoids overflows
 			glyphRange.First = splitRange.Last + 1
 			candidateTrans += 1
 		case noSplitPost:
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index ce8a97e..3374372 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -63,6 +63,7 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 		case noSplitPre:
 			err := self.insertNewTransition(splitRange, ruleMatchIndex, stateLinker, 0)
 			if err != nil { return err }
+			if splitRange.Last == runeRange.Last { return nil } // avoids overflows
 			runeRange.First = splitRange.Last + 1
 			// in theory we wouldn't want to change the candidateTrans, but we added
 			// a new transition that will be placed exactly on candidateTrans, so
@@ -76,6 +77,7 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 		case splitFirstLast:
 			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, 0)
 			if err != nil { return err }
+			if splitRange.Last == runeRange.Last { return nil } // avoids overflows
 			runeRange.First = splitRange.Last + 1
 			candidateTrans += 1
 		case splitMidMid:
@@ -88,6 +90,7 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 			if err != nil { return err }
 			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
 			if err != nil { return err }
+			if splitRange.Last == runeRange.Last { return nil } // avoids overflows
 			runeRange.First = splitRange.Last + 1
 			candidateTrans += 1
 		case noSplitPost:
-- 
2.43.0


From 48c6a40ce4c57186f78725f406d56acd8661a253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:12 +0000
Subject: [PATCH 62/70] fix: leave testers and the shared compiler usable after
 rewrite rule errors

---
 internal/rerules/glyphrule/tester.go | 7 +++++--
 internal/rerules/utf8rule/tester.go  | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 9550603..f90a1e4 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -98,11 +98,11 @@ type GlyphConfirmationFunc = func(ggfnt.GlyphIndex)
 func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) error {
 	if self.isOperating { panic(PreViolation) }
 	
-	self.isOperating = true
 	if self.needsRecompile {
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.isOperating = true
 	self.treesRestartDetection()
 
 	return nil
@@ -208,7 +208,10 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 				// (NOTE: this is not particularly efficient)
 				if self.rules[ruleIndex].Condition() == tree.Condition {
 					err := compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
-					if err != nil { return err }
+					if err != nil {
+						_ = compiler.Finish() // leave the compiler ready to be reused
+						return err
+					}
 					numRulesFound += 1
 				}
 			}
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 22f72bb..3da3298 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -99,11 +99,11 @@ type Utf8ConfirmationFunc = func(rune)
 func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) error {
 	if self.isOperating { panic(PreViolation) }
 	
-	self.isOperating = true
 	if self.needsRecompile {
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.isOperating = true
 	self.treesRestartDetection()
 
 	return nil
@@ -208,7 +208,10 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 				// (NOTE: this is not particularly efficient)
 				if self.rules[ruleIndex].Condition() == tree.Condition {
 					err := compiler.Feed(self.rules[ruleIndex], RuleIndex(ruleIndex))
-					if err != nil { return err }
+					if err != nil {
+						_ = compiler.Finish() // leave the compiler ready to be reused
+						return err
+					}
 					numRulesFound += 1
 				}
 			}
-- 
2.43.0


From 98e9f63bc0475281d6e7b0c199d6f2ec68371f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:13 +0000
Subject: [PATCH 63/70] fix: return an error for rewrite rules with conditions
 that don't exist

---
 internal/rerules/glyphrule/tester.go | 17 +++++++++++++++++
 internal/rerules/utf8rule/tester.go  | 17 +++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index f90a1e4..c9ab863 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -85,6 +85,7 @@ func (self *Tester) RemoveRule(rule ggfnt.GlyphRewriteRule) bool {
 func (self *Tester) RefreshConditions(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) {
 	for i, _ := range self.trees {
 		condition := self.trees[i].Condition
+		if !self.isKnownCondition(condition, font, settingsCache) { continue } // reported on recompile
 		satisfied := self.testCondition(condition, font, settingsCache)
 		self.trees[i].ConditionCachedValue = satisfied
 		self.trees[i].ConditionIsCached = true
@@ -168,6 +169,11 @@ func (self *Tester) findTreeByCondition(condition uint8) (int, bool) {
 	return start, start < numTrees && self.trees[start].Condition == condition
 }
 
+func (self *Tester) isKnownCondition(condition uint8, font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) bool {
+	if condition == 255 { return true } // font and settings can be nil in this case
+	return font != nil && settingsCache != nil && condition < font.Rewrites().NumConditions()
+}
+
 func (self *Tester) testCondition(condition uint8, font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) bool {
 	// base case, not needed in general, but allows font and settings to be nil
 	if condition == 255 { return true }
@@ -193,6 +199,17 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 	for treeIndex < len(self.trees) {
 		tree := &self.trees[treeIndex]
 
+		// rules can only use conditions that exist
+		if !tree.ConditionIsCached && !self.isKnownCondition(tree.Condition, font, settingsCache) {
+			for ruleIndex, _ := range self.rules {
+				if self.rules[ruleIndex].Condition() == tree.Condition {
+					return rerules.ErrInvalidReRule
+				}
+			}
+			self.trees = internal.DeleteElementAt(self.trees, treeIndex)
+			continue
+		}
+
 		// test and cache condition if uncached
 		if !tree.ConditionIsCached {
 			satisfied := self.testCondition(tree.Condition, font, settingsCache)
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 3da3298..11cf517 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -86,6 +86,7 @@ func (self *Tester) RemoveRule(rule ggfnt.Utf8RewriteRule) bool {
 func (self *Tester) RefreshConditions(font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) {
 	for i, _ := range self.trees {
 		condition := self.trees[i].Condition
+		if !self.isKnownCondition(condition, font, settingsCache) { continue } // reported on recompile
 		satisfied := self.testCondition(condition, font, settingsCache)
 		self.trees[i].ConditionCachedValue = satisfied
 		self.trees[i].ConditionIsCached = true
@@ -168,6 +169,11 @@ func (self *Tester) findTreeByCondition(condition uint8) (int, bool) {
 	return start, start < numTrees && self.trees[start].Condition == condition
 }
 
+func (self *Tester) isKnownCondition(condition uint8, font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) bool {
+	if condition == 255 { return true } // font and settings can be nil in this case
+	return font != nil && settingsCache != nil && condition < font.Rewrites().NumConditions()
+}
+
 func (self *Tester) testCondition(condition uint8, font *ggfnt.Font, settingsCache *ggfnt.SettingsCache) bool {
 	// base case, not needed in general, but allows font and settings to be nil
 	if condition == 255 { return true }
@@ -193,6 +199,17 @@ func (self *Tester) recompile(font *ggfnt.Font, settingsCache *ggfnt.SettingsCac
 	for treeIndex < len(self.trees) {
 		tree := &self.trees[treeIndex]
 
+		// rules can only use conditions that exist
+		if !tree.ConditionIsCached && !self.isKnownCondition(tree.Condition, font, settingsCache) {
+			for ruleIndex, _ := range self.rules {
+				if self.rules[ruleIndex].Condition() == tree.Condition {
+					return rerules.InvalidUtf8RuleErr(self.rules[ruleIndex])
+				}
+			}
+			self.trees = internal.DeleteElementAt(self.trees, treeIndex)
+			continue
+		}
+
 		// test and cache condition if uncached
 		if !tree.ConditionIsCached {
 			satisfied := self.testCondition(tree.Condition, font, settingsCache)
-- 
2.43.0


From 2f308371415e361cb61289b477eb7685464c54c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:14 +0000
Subject: [PATCH 64/70] fix: apply rewrite rules only when their condition is
 satisfied

---
 internal/rerules/glyphrule/tester.go | 6 ++++++
 internal/rerules/utf8rule/tester.go  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index c9ab863..844c1f9 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -90,6 +90,9 @@ func (self *Tester) RefreshConditions(font *ggfnt.Font, settingsCache *ggfnt.Set
 		self.trees[i].ConditionCachedValue = satisfied
 		self.trees[i].ConditionIsCached = true
 	}
+	if self.isOperating && self.accumulator.IsEmpty() {
+		self.treesRestartDetection()
+	}
 }
 
 // --- glyph sequence operations ---
@@ -349,6 +352,9 @@ func (self *Tester) treesRestartDetection() {
 			self.trees[i].BreakSequence()
 		}
 		self.trees[i].BeginSequence()
+		if !self.trees[i].ConditionCachedValue {
+			self.trees[i].BreakSequence() // condition not satisfied, can't match
+		}
 	}
 }
 
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 11cf517..77320aa 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -91,6 +91,9 @@ func (self *Tester) RefreshConditions(font *ggfnt.Font, settingsCache *ggfnt.Set
 		self.trees[i].ConditionCachedValue = satisfied
 		self.trees[i].ConditionIsCached = true
 	}
+	if self.isOperating && self.accumulator.IsEmpty() {
+		self.treesRestartDetection()
+	}
 }
 
 // --- utf8 sequence operations ---
@@ -349,6 +352,9 @@ func (self *Tester) treesRestartDetection() {
 			self.trees[i].BreakSequence()
 		}
 		self.trees[i].BeginSequence()
+		if !self.trees[i].ConditionCachedValue {
+			self.trees[i].BreakSequence() // condition not satisfied, can't match
+		}
 	}
 }
 
-- 
2.43.0


From befd631520c65a6c83510d950be61a1d4b95ba99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 65/70] fix: prefer the longest match among rewrite rules with
 different conditions

---
 internal/rerules/glyphrule/tester.go | 7 ++++++-
 internal/rerules/utf8rule/tester.go  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 844c1f9..ba76e07 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -296,9 +296,14 @@ func (self *Tester) treesFeedUnrestrictedGlyph(glyphIndex ggfnt.GlyphIndex) bool
 
 func (self *Tester) treesGetBestMatch() RuleIndex {
 	var bestMatch RuleIndex = RuleNone
+	var bestMatchLen uint8 = 0
 	for i, _ := range self.trees {
 		match := self.trees[i].BestMatch()
-		if match < bestMatch { bestMatch = match }
+		if match == RuleNone { continue }
+		matchLen := self.rules[match].InLen()
+		if matchLen > bestMatchLen || (matchLen == bestMatchLen && match < bestMatch) {
+			bestMatch, bestMatchLen = match, matchLen
+		}
 	}
 	return bestMatch
 }
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 77320aa..f9caef6 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -296,9 +296,14 @@ func (self *Tester) treesFeedUnrestrictedRune(codePoint rune) bool {
 
 func (self *Tester) treesGetBestMatch() RuleIndex {
 	var bestMatch RuleIndex = RuleNone
+	var bestMatchLen uint8 = 0
 	for i, _ := range self.trees {
 		match := self.trees[i].BestMatch()
-		if match < bestMatch { bestMatch = match }
+		if match == RuleNone { continue }
+		matchLen := self.rules[match].InLen()
+		if matchLen > bestMatchLen || (matchLen == bestMatchLen && match < bestMatch) {
+			bestMatch, bestMatchLen = match, matchLen
+		}
 	}
 	return bestMatch
 }
-- 
2.43.0


From 48ece44e9072ba7ff689310bdd8c1e27885a9d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 66/70] fix: allow feeding rewriting testers that have no rules

---
 internal/rerules/glyphrule/tester.go | 1 +
 internal/rerules/utf8rule/tester.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index ba76e07..356c059 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -106,6 +106,7 @@ func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.Setting
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.accumulator.SetMinCapacity(1) // required even if there are no rules
 	self.isOperating = true
 	self.treesRestartDetection()
 
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index f9caef6..f9e2306 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -107,6 +107,7 @@ func (self *Tester) BeginSequence(font *ggfnt.Font, settingsCache *ggfnt.Setting
 		err := self.recompile(font, settingsCache)
 		if err != nil { return err }
 	}
+	self.accumulator.SetMinCapacity(1) // required even if there are no rules
 	self.isOperating = true
 	self.treesRestartDetection()
 
-- 
2.43.0


From a85230702d6e9049910419960a45e6ef4342280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:07 +0000
Subject: [PATCH 67/70] fix: count tails already reported when rewriting, and
 require heads to include them

---
 internal/rerules/glyphrule/decision_tree.go   |  9 ++++--
 .../glyphrule/decision_tree_compiler.go       |  6 ++--
 .../rerules/glyphrule/decision_tree_state.go  | 26 +++++++++--------
 .../glyphrule/decision_tree_transition.go     | 28 ++++++++++++++++++-
 internal/rerules/glyphrule/tester.go          | 12 ++++----
 internal/rerules/utf8rule/decision_tree.go    |  9 ++++--
 .../utf8rule/decision_tree_compiler.go        |  6 ++--
 .../rerules/utf8rule/decision_tree_state.go   | 26 +++++++++--------
 .../utf8rule/decision_tree_transition.go      | 28 ++++++++++++++++++-
 internal/rerules/utf8rule/tester.go           | 12 ++++----
 10 files changed, 116 insertions(+), 46 deletions(-)

diff --git a/internal/rerules/glyphrule/decision_tree.go b/internal/rerules/glyphrule/decision_tree.go
index 683bcfc..797b84c 100644
--- a/internal/rerules/glyphrule/decision_tree.go
+++ b/internal/rerules/glyphrule/decision_tree.go
@@ -13,6 +13,7 @@ type DecisionTree struct {
 	
 	index StateIndex
 	bestMatch RuleIndex
+	minHeadLen uint8 // required for the rules to match
 	isScanning bool
 }
 
@@ -26,10 +27,12 @@ func (self *DecisionTree) BestMatch() RuleIndex {
 	return self.bestMatch
 }
 
-func (self *DecisionTree) BeginSequence() {
+// Rules with head blocks shorter than the given length won't be considered.
+func (self *DecisionTree) BeginSequence(minHeadLen uint8) {
 	if self.isScanning { panic(PreViolation) }
 	self.index = 0
 	self.bestMatch = RuleNone
+	self.minHeadLen = minHeadLen
 	self.isScanning = true
 }
 
@@ -42,7 +45,7 @@ func (self *DecisionTree) Feed(glyphIndex ggfnt.GlyphIndex) {
 	if !self.isScanning { panic(PreViolation) }
 	
 	var ruleMatchIndex RuleIndex
-	self.index, ruleMatchIndex = self.states[self.index].Trigger(glyphIndex)
+	self.index, ruleMatchIndex = self.states[self.index].Trigger(glyphIndex, self.minHeadLen)
 	if ruleMatchIndex != RuleNone { self.bestMatch = ruleMatchIndex }
 	if self.index == StateNone { self.isScanning = false }
 }
@@ -60,7 +63,7 @@ func (self *DecisionTree) FeedHead(glyphIndex ggfnt.GlyphIndex, minRequiredHeadL
 // Basic algorithm for full match process, instead of stream-based
 // with [DecisionTree.Feed](). Mainly for reference and testing.
 func (self *DecisionTree) Match(glyphs []ggfnt.GlyphIndex) RuleIndex {	
-	self.BeginSequence()
+	self.BeginSequence(0)
 	for _, glyphIndex := range glyphs {
 		self.Feed(glyphIndex)
 		if !self.IsScanning() {
diff --git a/internal/rerules/glyphrule/decision_tree_compiler.go b/internal/rerules/glyphrule/decision_tree_compiler.go
index 7df448b..2b1c220 100644
--- a/internal/rerules/glyphrule/decision_tree_compiler.go
+++ b/internal/rerules/glyphrule/decision_tree_compiler.go
@@ -122,17 +122,17 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.GlyphRewriteRule, index RuleIn
 				if glyphSet != GlyphSetNone { panic(BrokenCode) } // discretionary safety assertion
 	
 				glyphRange := ggfnt.GlyphRange{ First: glyphIndex, Last: glyphIndex }
-				err := state.AppendRange(glyphRange, matchRule, self.stateLinker)
+				err := state.AppendRange(glyphRange, matchRule, self.run.Scanner.HeadLen(), self.stateLinker)
 				if err != nil { return err }
 			} else { // glyph set case
 				set := self.run.Font.Rewrites().GetGlyphSet(uint8(glyphSet))
 				err := set.EachRange(func(glyphRange ggfnt.GlyphRange) error {
-					return state.AppendRange(glyphRange, matchRule, self.stateLinker)
+					return state.AppendRange(glyphRange, matchRule, self.run.Scanner.HeadLen(), self.stateLinker)
 				})
 				if err != nil { return err }
 				err = set.EachListGlyph(func(glyphIndex ggfnt.GlyphIndex) error {
 					glyphRange := ggfnt.GlyphRange{ First: glyphIndex, Last: glyphIndex }
-					return state.AppendRange(glyphRange, matchRule, self.stateLinker)
+					return state.AppendRange(glyphRange, matchRule, self.run.Scanner.HeadLen(), self.stateLinker)
 				})
 				if err != nil { return err }
 			}
diff --git a/internal/rerules/glyphrule/decision_tree_state.go b/internal/rerules/glyphrule/decision_tree_state.go
index 8b7b83f..61fd0d3 100644
--- a/internal/rerules/glyphrule/decision_tree_state.go
+++ b/internal/rerules/glyphrule/decision_tree_state.go
@@ -37,23 +37,23 @@ func (self *State) UpdateHeadLen(headLen uint8) {
 
 // Given a glyph index, the state returns the next state index
 // and the matched rule index with the most recent glyph.
-func (self *State) Trigger(glyphIndex ggfnt.GlyphIndex) (StateIndex, RuleIndex) {
+func (self *State) Trigger(glyphIndex ggfnt.GlyphIndex, minHeadLen uint8) (StateIndex, RuleIndex) {
 	// find transition with binary search
 	transIndex, found := self.findGlyphTransition(glyphIndex)
 	if !found { return StateNone, RuleNone }
 	transition := self.Transitions[transIndex]
-	return transition.NextState, transition.RuleMatch
+	return transition.NextState, transition.MatchWithHead(minHeadLen)
 }
 
 func (self *State) SatisfiesMinRequiredHead(minRequiredHeadLen uint8) bool {
-	return minRequiredHeadLen >= self.MinHeadLen && minRequiredHeadLen <= self.MaxHeadLen
+	return minRequiredHeadLen <= self.MaxHeadLen
 }
 
 // The new range might overlap previous empty areas or previously existing ranges,
 // both fully, partially, or in many different combinations. We need to get each
 // fragment and set up a new transition or adjust an already existing one. This
 // is a tricky method.
-func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleIndex, stateLinker StateLinkerFn) error {
+func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleIndex, ruleHeadLen uint8, stateLinker StateLinkerFn) error {
 	// for the first part, we find candidate transitions and check if our range
 	// begins earlier, later, how much overlap it has, etc.
 	candidateTrans, _ := self.findGlyphTransition(glyphRange.First)
@@ -62,7 +62,7 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 		splitResult, splitRange := self.confrontRanges(candidateRange, glyphRange)
 		switch splitResult {
 		case noSplitPre:
-			err := self.insertNewTransition(splitRange, ruleMatchIndex, stateLinker, 0)
+			err := self.insertNewTransition(splitRange, ruleMatchIndex, ruleHeadLen, stateLinker, 0)
 			if err != nil { return err }
 			if splitRange.Last == glyphRange.Last { return nil } // avoids overflows
 			glyphRange.First = splitRange.Last + 1
@@ -73,10 +73,10 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 		case splitFirstMid:
 			err := self.splitTransitionAt(candidateTrans, splitRange.Last)
 			if err != nil { return err }
-			return self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, 1)
+			return self.Transitions[candidateTrans].Link(ruleMatchIndex, ruleHeadLen, stateLinker, 1)
 			// ^ we terminate here
 		case splitFirstLast:
-			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, 0)
+			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, ruleHeadLen, stateLinker, 0)
 			if err != nil { return err }
 			if splitRange.Last == glyphRange.Last { return nil } // avoids overflows
 			glyphRange.First = splitRange.Last + 1
@@ -84,12 +84,12 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 		case splitMidMid:
 			err := self.splitTransitionBy(candidateTrans, splitRange)
 			if err != nil { return err }
-			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
+			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, ruleHeadLen, stateLinker, 2)
 			// ^ we terminate here
 		case splitMidLast:
 			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
-			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
+			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, ruleHeadLen, stateLinker, 1)
 			if err != nil { return err }
 			if splitRange.Last == glyphRange.Last { return nil } // avoids overflows
 			glyphRange.First = splitRange.Last + 1
@@ -105,7 +105,7 @@ func (self *State) AppendRange(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleI
 	// for the final part, we check if there's any remaining range left.
 	// if there is, we allocate it a completely new transition at the end
 	if glyphRange.First > glyphRange.Last { return nil }
-	return self.insertNewTransition(glyphRange, ruleMatchIndex, stateLinker, 0)
+	return self.insertNewTransition(glyphRange, ruleMatchIndex, ruleHeadLen, stateLinker, 0)
 }
 
 // ---- internal helper methods ----
@@ -146,13 +146,15 @@ func (self *State) confrontRanges(candidateRange, incomingRange ggfnt.GlyphRange
 	}
 }
 
-func (self *State) insertNewTransition(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleIndex, stateLinker StateLinkerFn, numSplits int) error {
+func (self *State) insertNewTransition(glyphRange ggfnt.GlyphRange, ruleMatchIndex RuleIndex, ruleHeadLen uint8, stateLinker StateLinkerFn, numSplits int) error {
 	// insert new transition (only glyphRange initialized)
 	index, err := self.unsafeInsertUninitializedTransition(glyphRange)
 	if err != nil { return err }
 
 	// initialize remaining transition properties
 	self.Transitions[index].RuleMatch = ruleMatchIndex
+	self.Transitions[index].RuleMatchHeadLen = ruleHeadLen
+	self.Transitions[index].HeadMatches = nil
 	if ruleMatchIndex == RuleNone {
 		self.Transitions[index].NextState, err = stateLinker(StateNone, numSplits, ruleMatchIndex)
 		return err
@@ -193,6 +195,8 @@ func (self *State) splitTransitionAt(transIndex TransitionIndex, lastGlyphOfPre
 	// initialize new transition to match the previously existing one
 	self.Transitions[newTransIndex].NextState = self.Transitions[transIndex].NextState
 	self.Transitions[newTransIndex].RuleMatch = self.Transitions[transIndex].RuleMatch
+	self.Transitions[newTransIndex].RuleMatchHeadLen = self.Transitions[transIndex].RuleMatchHeadLen
+	self.Transitions[newTransIndex].HeadMatches = self.Transitions[transIndex].HeadMatches
 	return nil
 }
 
diff --git a/internal/rerules/glyphrule/decision_tree_transition.go b/internal/rerules/glyphrule/decision_tree_transition.go
index 6152b3a..b2de7a8 100644
--- a/internal/rerules/glyphrule/decision_tree_transition.go
+++ b/internal/rerules/glyphrule/decision_tree_transition.go
@@ -10,13 +10,39 @@ const TransitionNone TransitionIndex = 255
 type Transition struct {
 	Range ggfnt.GlyphRange
 	RuleMatch RuleIndex // RuleNone (255) is reserved for "none"
+	RuleMatchHeadLen uint8
+	HeadMatches []HeadMatch // other matching rules, with increasingly long heads
 	NextState StateIndex // StateNone (255) is reserved for "none"
 }
 
-func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn, numSplits int) error {
+type HeadMatch struct {
+	RuleMatch RuleIndex
+	HeadLen uint8
+}
+
+// Returns the first matching rule with a head block of at least the given length.
+func (self *Transition) MatchWithHead(minHeadLen uint8) RuleIndex {
+	if self.RuleMatch == RuleNone || self.RuleMatchHeadLen >= minHeadLen { return self.RuleMatch }
+	for _, match := range self.HeadMatches {
+		if match.HeadLen >= minHeadLen { return match.RuleMatch }
+	}
+	return RuleNone
+}
+
+func (self *Transition) maxMatchHeadLen() uint8 {
+	if len(self.HeadMatches) == 0 { return self.RuleMatchHeadLen }
+	return self.HeadMatches[len(self.HeadMatches) - 1].HeadLen
+}
+
+func (self *Transition) Link(ruleMatchIndex RuleIndex, ruleHeadLen uint8, stateLinker StateLinkerFn, numSplits int) error {
 	if ruleMatchIndex != RuleNone { // on rule match, state addition stops
 		if self.RuleMatch == RuleNone {
 			self.RuleMatch = ruleMatchIndex
+			self.RuleMatchHeadLen = ruleHeadLen
+		} else if ruleHeadLen > self.maxMatchHeadLen() {
+			// the slice might be shared between transitions, so it has to be copied
+			matches := append([]HeadMatch(nil), self.HeadMatches...)
+			self.HeadMatches = append(matches, HeadMatch{ RuleMatch: ruleMatchIndex, HeadLen: ruleHeadLen })
 		}
 	}
 	
diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 356c059..817c2af 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -315,10 +315,11 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn GlyphConfirmationFunc)
 	// report head
 	headLen := self.rules[matchRuleIndex].HeadLen()
 	for i := uint8(0); i < headLen; i++ {
-		if self.unflushedTail > 0 {
+		glyphIndex := self.accumulator.PopHead()
+		if self.unflushedTail > 0 { // already reported
 			self.unflushedTail -= 1
 		} else {
-			fn(self.accumulator.PopHead())
+			fn(glyphIndex)
 		}
 	}
 
@@ -333,10 +334,11 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn GlyphConfirmationFunc)
 	
 	// restart detection before reporting the tail.
 	// the tail must be re-detected if necessary.
+	self.unflushedTail = uint8(self.rules[matchRuleIndex].TailLen())
 	self.treesRestartDetection()
 
 	// report tail
-	self.unflushedTail = uint8(self.rules[matchRuleIndex].TailLen())
+	self.accumulator.DiscardPeeks()
 	if self.unflushedTail > 0 { // we can't pop the tail, but we still gotta report it
 		fn(self.accumulator.Head())
 		for i := uint8(1); i < self.unflushedTail; i++ {
@@ -344,7 +346,7 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn GlyphConfirmationFunc)
 			if !found { panic(BrokenCode) }
 			fn(glyphIndex)
 		}
-		//self.accumulator.DiscardPeeks()
+		self.accumulator.DiscardPeeks()
 	}
 	
 	// notice that we are not feeding any possible remaining accumulated glyphs,
@@ -357,7 +359,7 @@ func (self *Tester) treesRestartDetection() {
 		if self.trees[i].IsScanning() {
 			self.trees[i].BreakSequence()
 		}
-		self.trees[i].BeginSequence()
+		self.trees[i].BeginSequence(self.unflushedTail)
 		if !self.trees[i].ConditionCachedValue {
 			self.trees[i].BreakSequence() // condition not satisfied, can't match
 		}
diff --git a/internal/rerules/utf8rule/decision_tree.go b/internal/rerules/utf8rule/decision_tree.go
index 6235f40..536ab6b 100644
--- a/internal/rerules/utf8rule/decision_tree.go
+++ b/internal/rerules/utf8rule/decision_tree.go
@@ -6,6 +6,7 @@ type DecisionTree struct {
 	
 	index StateIndex
 	bestMatch RuleIndex
+	minHeadLen uint8 // required for the rules to match
 	isScanning bool
 }
 
@@ -19,10 +20,12 @@ func (self *DecisionTree) BestMatch() RuleIndex {
 	return self.bestMatch
 }
 
-func (self *DecisionTree) BeginSequence() {
+// Rules with head blocks shorter than the given length won't be considered.
+func (self *DecisionTree) BeginSequence(minHeadLen uint8) {
 	if self.isScanning { panic(PreViolation) }
 	self.index = 0
 	self.bestMatch = RuleNone
+	self.minHeadLen = minHeadLen
 	self.isScanning = true
 }
 
@@ -35,7 +38,7 @@ func (self *DecisionTree) Feed(codePoint rune) {
 	if !self.isScanning { panic(PreViolation) }
 	
 	var ruleMatchIndex RuleIndex
-	self.index, ruleMatchIndex = self.states[self.index].Trigger(codePoint)
+	self.index, ruleMatchIndex = self.states[self.index].Trigger(codePoint, self.minHeadLen)
 	if ruleMatchIndex != RuleNone { self.bestMatch = ruleMatchIndex }
 	if self.index == StateNone { self.isScanning = false }
 }
@@ -53,7 +56,7 @@ func (self *DecisionTree) FeedHead(codePoint rune, minRequiredHeadLen uint8) {
 // Basic algorithm for full match process, instead of stream-based
 // with [DecisionTree.Feed](). Mainly for reference and testing.
 func (self *DecisionTree) Match(runes []rune) RuleIndex {
-	self.BeginSequence()
+	self.BeginSequence(0)
 	for _, codePoint := range runes {
 		self.Feed(codePoint)
 		if !self.IsScanning() {
diff --git a/internal/rerules/utf8rule/decision_tree_compiler.go b/internal/rerules/utf8rule/decision_tree_compiler.go
index af93469..c827280 100644
--- a/internal/rerules/utf8rule/decision_tree_compiler.go
+++ b/internal/rerules/utf8rule/decision_tree_compiler.go
@@ -122,18 +122,18 @@ func (self *DecisionTreeCompiler) Feed(rule ggfnt.Utf8RewriteRule, index RuleInd
 				if utf8Set != Utf8SetNone { panic(BrokenCode) } // discretionary safety assertion
 	
 				runeRange := RuneRange{ First: codePoint, Last: codePoint }
-				err := state.AppendRange(runeRange, matchRule, self.stateLinker)
+				err := state.AppendRange(runeRange, matchRule, self.run.Scanner.HeadLen(), self.stateLinker)
 				if err != nil { return err }
 			} else { // utf8 set case
 				set := self.run.Font.Rewrites().GetUtf8Set(uint8(utf8Set))
 				err := set.EachRange(func(firstRune, lastRune rune) error {
 					runeRange := RuneRange{ First: firstRune, Last: lastRune }
-					return state.AppendRange(runeRange, matchRule, self.stateLinker)
+					return state.AppendRange(runeRange, matchRule, self.run.Scanner.HeadLen(), self.stateLinker)
 				})
 				if err != nil { return err }
 				err = set.EachListRune(func(codePoint rune) error {
 					runeRange := RuneRange{ First: codePoint, Last: codePoint }
-					return state.AppendRange(runeRange, matchRule, self.stateLinker)
+					return state.AppendRange(runeRange, matchRule, self.run.Scanner.HeadLen(), self.stateLinker)
 				})
 				if err != nil { return err }
 			}
diff --git a/internal/rerules/utf8rule/decision_tree_state.go b/internal/rerules/utf8rule/decision_tree_state.go
index 3374372..7d67bd4 100644
--- a/internal/rerules/utf8rule/decision_tree_state.go
+++ b/internal/rerules/utf8rule/decision_tree_state.go
@@ -36,23 +36,23 @@ func (self *State) UpdateHeadLen(headLen uint8) {
 
 // Given a coed point, the state returns the next state index
 // and the matched rule index with the most recent code point.
-func (self *State) Trigger(codePoint rune) (StateIndex, RuleIndex) {
+func (self *State) Trigger(codePoint rune, minHeadLen uint8) (StateIndex, RuleIndex) {
 	// find transition with binary search
 	transIndex, found := self.findRuneTransition(codePoint)
 	if !found { return StateNone, RuleNone }
 	transition := self.Transitions[transIndex]
-	return transition.NextState, transition.RuleMatch
+	return transition.NextState, transition.MatchWithHead(minHeadLen)
 }
 
 func (self *State) SatisfiesMinRequiredHead(minRequiredHeadLen uint8) bool {
-	return minRequiredHeadLen >= self.MinHeadLen && minRequiredHeadLen <= self.MaxHeadLen
+	return minRequiredHeadLen <= self.MaxHeadLen
 }
 
 // The new range might overlap previous empty areas or previously existing ranges,
 // both fully, partially, or in many different combinations. We need to get each
 // fragment and set up a new transition or adjust an already existing one. This
 // is a tricky method.
-func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, stateLinker StateLinkerFn) error {
+func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, ruleHeadLen uint8, stateLinker StateLinkerFn) error {
 	// for the first part, we find candidate transitions and check if our range
 	// begins earlier, later, how much overlap it has, etc.
 	candidateTrans, _ := self.findRuneTransition(runeRange.First)
@@ -61,7 +61,7 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 		splitResult, splitRange := self.confrontRanges(candidateRange, runeRange)
 		switch splitResult {
 		case noSplitPre:
-			err := self.insertNewTransition(splitRange, ruleMatchIndex, stateLinker, 0)
+			err := self.insertNewTransition(splitRange, ruleMatchIndex, ruleHeadLen, stateLinker, 0)
 			if err != nil { return err }
 			if splitRange.Last == runeRange.Last { return nil } // avoids overflows
 			runeRange.First = splitRange.Last + 1
@@ -72,10 +72,10 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 		case splitFirstMid:
 			err := self.splitTransitionAt(candidateTrans, splitRange.Last)
 			if err != nil { return err }
-			return self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, 1)
+			return self.Transitions[candidateTrans].Link(ruleMatchIndex, ruleHeadLen, stateLinker, 1)
 			// ^ we terminate here
 		case splitFirstLast:
-			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, stateLinker, 0)
+			err := self.Transitions[candidateTrans].Link(ruleMatchIndex, ruleHeadLen, stateLinker, 0)
 			if err != nil { return err }
 			if splitRange.Last == runeRange.Last { return nil } // avoids overflows
 			runeRange.First = splitRange.Last + 1
@@ -83,12 +83,12 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 		case splitMidMid:
 			err := self.splitTransitionBy(candidateTrans, splitRange)
 			if err != nil { return err }
-			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 2)
+			return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, ruleHeadLen, stateLinker, 2)
 			// ^ we terminate here
 		case splitMidLast:
 			err := self.splitTransitionAt(candidateTrans, splitRange.First - 1)
 			if err != nil { return err }
-			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, stateLinker, 1)
+			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, ruleHeadLen, stateLinker, 1)
 			if err != nil { return err }
 			if splitRange.Last == runeRange.Last { return nil } // avoids overflows
 			runeRange.First = splitRange.Last + 1
@@ -104,7 +104,7 @@ func (self *State) AppendRange(runeRange RuneRange, ruleMatchIndex RuleIndex, st
 	// for the final part, we check if there's any remaining range left.
 	// if there is, we allocate it a completely new transition at the end
 	if runeRange.First > runeRange.Last { return nil }
-	return self.insertNewTransition(runeRange, ruleMatchIndex, stateLinker, 0)
+	return self.insertNewTransition(runeRange, ruleMatchIndex, ruleHeadLen, stateLinker, 0)
 }
 
 // ---- internal helper methods ----
@@ -145,13 +145,15 @@ func (self *State) confrontRanges(candidateRange, incomingRange RuneRange) (spli
 	}
 }
 
-func (self *State) insertNewTransition(runeRange RuneRange, ruleMatchIndex RuleIndex, stateLinker StateLinkerFn, numSplits int) error {
+func (self *State) insertNewTransition(runeRange RuneRange, ruleMatchIndex RuleIndex, ruleHeadLen uint8, stateLinker StateLinkerFn, numSplits int) error {
 	// insert new transition (only runeRange initialized)
 	index, err := self.unsafeInsertUninitializedTransition(runeRange)
 	if err != nil { return err }
 
 	// initialize remaining transition properties
 	self.Transitions[index].RuleMatch = ruleMatchIndex
+	self.Transitions[index].RuleMatchHeadLen = ruleHeadLen
+	self.Transitions[index].HeadMatches = nil
 	if ruleMatchIndex == RuleNone {
 		self.Transitions[index].NextState, err = stateLinker(StateNone, numSplits, ruleMatchIndex)
 		return err
@@ -192,6 +194,8 @@ func (self *State) splitTransitionAt(transIndex TransitionIndex, lastRuneOfPre r
 	// initialize new transition to match the previously existing one
 	self.Transitions[newTransIndex].NextState = self.Transitions[transIndex].NextState
 	self.Transitions[newTransIndex].RuleMatch = self.Transitions[transIndex].RuleMatch
+	self.Transitions[newTransIndex].RuleMatchHeadLen = self.Transitions[transIndex].RuleMatchHeadLen
+	self.Transitions[newTransIndex].HeadMatches = self.Transitions[transIndex].HeadMatches
 	return nil
 }
 
diff --git a/internal/rerules/utf8rule/decision_tree_transition.go b/internal/rerules/utf8rule/decision_tree_transition.go
index d8fb6f5..081e2c4 100644
--- a/internal/rerules/utf8rule/decision_tree_transition.go
+++ b/internal/rerules/utf8rule/decision_tree_transition.go
@@ -8,13 +8,39 @@ const TransitionNone TransitionIndex = 255
 type Transition struct {
 	Range RuneRange
 	RuleMatch RuleIndex // RuleNone (255) is reserved for "none"
+	RuleMatchHeadLen uint8
+	HeadMatches []HeadMatch // other matching rules, with increasingly long heads
 	NextState StateIndex // StateNone (255) is reserved for "none"
 }
 
-func (self *Transition) Link(ruleMatchIndex RuleIndex, stateLinker StateLinkerFn, numSplits int) error {
+type HeadMatch struct {
+	RuleMatch RuleIndex
+	HeadLen uint8
+}
+
+// Returns the first matching rule with a head block of at least the given length.
+func (self *Transition) MatchWithHead(minHeadLen uint8) RuleIndex {
+	if self.RuleMatch == RuleNone || self.RuleMatchHeadLen >= minHeadLen { return self.RuleMatch }
+	for _, match := range self.HeadMatches {
+		if match.HeadLen >= minHeadLen { return match.RuleMatch }
+	}
+	return RuleNone
+}
+
+func (self *Transition) maxMatchHeadLen() uint8 {
+	if len(self.HeadMatches) == 0 { return self.RuleMatchHeadLen }
+	return self.HeadMatches[len(self.HeadMatches) - 1].HeadLen
+}
+
+func (self *Transition) Link(ruleMatchIndex RuleIndex, ruleHeadLen uint8, stateLinker StateLinkerFn, numSplits int) error {
 	if ruleMatchIndex != RuleNone { // on rule match, state addition stops
 		if self.RuleMatch == RuleNone {
 			self.RuleMatch = ruleMatchIndex
+			self.RuleMatchHeadLen = ruleHeadLen
+		} else if ruleHeadLen > self.maxMatchHeadLen() {
+			// the slice might be shared between transitions, so it has to be copied
+			matches := append([]HeadMatch(nil), self.HeadMatches...)
+			self.HeadMatches = append(matches, HeadMatch{ RuleMatch: ruleMatchIndex, HeadLen: ruleHeadLen })
 		}
 	}
 	
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index f9e2306..012612e 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -315,10 +315,11 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn Utf8ConfirmationFunc) {
 	// report head
 	headLen := self.rules[matchRuleIndex].HeadLen()
 	for i := uint8(0); i < headLen; i++ {
-		if self.unflushedTail > 0 {
+		codePoint := self.accumulator.PopHead()
+		if self.unflushedTail > 0 { // already reported
 			self.unflushedTail -= 1
 		} else {
-			fn(self.accumulator.PopHead())
+			fn(codePoint)
 		}
 	}
 
@@ -333,10 +334,11 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn Utf8ConfirmationFunc) {
 	
 	// restart detection before reporting the tail.
 	// the tail must be re-detected if necessary.
+	self.unflushedTail = uint8(self.rules[matchRuleIndex].TailLen())
 	self.treesRestartDetection()
 
 	// report tail
-	self.unflushedTail = uint8(self.rules[matchRuleIndex].TailLen())
+	self.accumulator.DiscardPeeks()
 	if self.unflushedTail > 0 { // we can't pop the tail, but we still gotta report it
 		fn(self.accumulator.Head())
 		for i := uint8(1); i < self.unflushedTail; i++ {
@@ -344,7 +346,7 @@ func (self *Tester) rewrite(matchRuleIndex RuleIndex, fn Utf8ConfirmationFunc) {
 			if !found { panic(BrokenCode) }
 			fn(codePoint)
 		}
-		//self.accumulator.DiscardPeeks()
+		self.accumulator.DiscardPeeks()
 	}
 	
 	// notice that we are not feeding any possible remaining accumulated runes,
@@ -357,7 +359,7 @@ func (self *Tester) treesRestartDetection() {
 		if self.trees[i].IsScanning() {
 			self.trees[i].BreakSequence()
 		}
-		self.trees[i].BeginSequence()
+		self.trees[i].BeginSequence(self.unflushedTail)
 		if !self.trees[i].ConditionCachedValue {
 			self.trees[i].BreakSequence() // condition not satisfied, can't match
 		}
-- 
2.43.0


From be45ba4a901535c0f06d6bf25fcc9fc673b5a229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:31 +0000
Subject: [PATCH 68/70] fix: leave nothing pending when breaking or finishing a
 sequence being rewritten

---
 internal/rerules/glyphrule/tester.go | 7 +++++++
 internal/rerules/utf8rule/tester.go  | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/internal/rerules/glyphrule/tester.go b/internal/rerules/glyphrule/tester.go
index 817c2af..35b2303 100644
--- a/internal/rerules/glyphrule/tester.go
+++ b/internal/rerules/glyphrule/tester.go
@@ -149,6 +149,13 @@ func (self *Tester) Break(fn GlyphConfirmationFunc) {
 		}
 		for self.rerunDetection(fn) {}
 	}
+
+	// discard the last tail, which has already been reported
+	if !self.accumulator.IsEmpty() {
+		self.accumulator.Clear()
+		self.unflushedTail = 0
+		self.treesRestartDetection()
+	}
 }
 
 func (self *Tester) FinishSequence(fn GlyphConfirmationFunc) {
diff --git a/internal/rerules/utf8rule/tester.go b/internal/rerules/utf8rule/tester.go
index 012612e..67d4316 100644
--- a/internal/rerules/utf8rule/tester.go
+++ b/internal/rerules/utf8rule/tester.go
@@ -149,6 +149,13 @@ func (self *Tester) Break(fn Utf8ConfirmationFunc) {
 		}
 		for self.rerunDetection(fn) {}
 	}
+
+	// discard the last tail, which has already been reported
+	if !self.accumulator.IsEmpty() {
+		self.accumulator.Clear()
+		self.unflushedTail = 0
+		self.treesRestartDetection()
+	}
 }
 
 func (self *Tester) FinishSequence(fn Utf8ConfirmationFunc) {
-- 
2.43.0


From 173942b8c0064fb682a87f321fd36101573574fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:52 +0000
Subject: [PATCH 69/70] fix: refuse rewrite rules truncated right after a
 fragment control

---
 internal/rerules/glyphrule/rule_scanner.go | 1 +
 internal/rerules/utf8rule/rule_scanner.go  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/internal/rerules/glyphrule/rule_scanner.go b/internal/rerules/glyphrule/rule_scanner.go
index 70adf70..92cd492 100644
--- a/internal/rerules/glyphrule/rule_scanner.go
+++ b/internal/rerules/glyphrule/rule_scanner.go
@@ -153,6 +153,7 @@ func (self *RuleScanner) parseFragmentControl() error {
 		}
 		if self.HasNext() { return rerules.ErrInvalidReRule } // nothing can follow an empty tail
 	} else {
+		if !self.HasNext() { return rerules.ErrInvalidReRule } // elements missing
 		if self.accumulatedBlockSets + self.accumulatedBlockGlyphs < self.accumulatedBlockSets {
 			return rerules.ErrInvalidReRule // ^ overflow
 		}
diff --git a/internal/rerules/utf8rule/rule_scanner.go b/internal/rerules/utf8rule/rule_scanner.go
index 06397a0..79e2df4 100644
--- a/internal/rerules/utf8rule/rule_scanner.go
+++ b/internal/rerules/utf8rule/rule_scanner.go
@@ -151,6 +151,7 @@ func (self *RuleScanner) parseFragmentControl() error {
 		}
 		if self.HasNext() { return rerules.InvalidUtf8RuleErr(self.rule) } // nothing can follow an empty tail
 	} else {
+		if !self.HasNext() { return rerules.InvalidUtf8RuleErr(self.rule) } // elements missing
 		if self.accumulatedBlockSets + self.accumulatedBlockCodePoints < self.accumulatedBlockSets {
 			return rerules.InvalidUtf8RuleErr(self.rule) // ^ overflow
 		}
-- 
2.43.0


From b2cfd3d1437ecf8bf3ae3ba2ed5f867eaec09e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:07 +0000
Subject: [PATCH 70/70] fix: refuse fonts with more glyphs than the format
 allows

---
 font.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/font.go b/font.go
index 5094644..ac7c91f 100644
--- a/font.go
+++ b/font.go
@@ -217,6 +217,7 @@ func (self *FontMetrics) VertLineGap() uint8 {
 func (self *FontMetrics) Validate(mode FmtValidation) error {
 	// default checks
 	if self.NumGlyphs() == 0 { return errors.New("font must define at least one glyph") }
+	if self.NumGlyphs() > MaxGlyphs { return errors.New("font has too many glyphs") }
 	err := internal.BoolErrCheck(self.Data[self.OffsetToMetrics + 2])
 	if err != nil { return err }
 	if self.Ascent() == 0 { return errors.New("Ascent can't be zero") }
-- 
2.43.0

