F="font.go"; P="parse.go"; PB="internal/parsing_buffer.go"; D="date.go"
BUGS=[
# shared state
("P22","linehgt-memo",[("internal/font.go","type Font struct {\n","type Font struct {\n	lineHeight int\n"),(F,"	return int(self.Ascent()) + int(self.Descent()) + int(self.LineGap())","	if self.lineHeightOf() == 0 { (*(*FontMetrics)(self)).setLine() }\n	return int(self.Ascent()) + int(self.Descent()) + int(self.LineGap())")]),
("P22","palette-memo",[(F,"func (self *FontColor) GoColorPalette() color.Palette {\n	paletteColors := make([]color.Color, 0, int(self.Count()))\n","var paletteScratch []color.Color\nfunc (self *FontColor) GoColorPalette() color.Palette {\n	if cap(paletteScratch) < int(self.Count()) + 1 { paletteScratch = make([]color.Color, 0, 256) }\n	paletteColors := paletteScratch[: 0]\n")]),
("P22","name-memo",[(F,"func (self *FontGlyphs) FindIndexByName(name string) GlyphIndex {\n","var lastNameFont *FontGlyphs\nvar lastNameLow uint32\nfunc (self *FontGlyphs) FindIndexByName(name string) GlyphIndex {\n	lastNameFont = self\n")]),
("P22","word-memo",[("words.go","func GetPredefinedWord(index uint8) string {\n","var lastWord uint8\nfunc GetPredefinedWord(index uint8) string {\n	lastWord = index\n")]),
("P22","month-scratch",[(D,"	return fmt.Sprintf(\"%d %s %04d\", self.Day, self.MonthName(), self.Year)","	dateBuf = fmt.Appendf(dateBuf[:0], \"%d %s %04d\", self.Day, self.MonthName(), self.Year)\n	return string(dateBuf)"),(D,"type Date struct {","var dateBuf []byte\ntype Date struct {")]),
("P22","parse-tempbuf-shared",[(PB,"	self.TempBuff = make([]byte, 1024)\n","	self.TempBuff = sharedTemp[:]\n"),(PB,"type ParsingBuffer struct {","var sharedTemp [1024]byte\ntype ParsingBuffer struct {")]),
("P22","compiler-release-early",[("internal/rerules/utf8rule/tester.go","	defer CommonDecisionTreeCompiler.Release(compiler)\n","	CommonDecisionTreeCompiler.Release(compiler)\n")]),
("P22","group-memo",[(F,"	caseCombinations uint8 = 1\n","	caseCombinations uint8 = 1\n"),(F,"	var caseCombinations uint8 = 1\n	var result uint8\n","	var caseCombinations uint8 = 1\n	switchResult = 0\n"),(F,"		result += settings[settingKey]*caseCombinations\n","		switchResult += settings[settingKey]*caseCombinations\n"),(F,"		endOffset -= 1\n	}\n	return result\n}","		endOffset -= 1\n	}\n	return switchResult\n}"),(F,"func (self *FontMapping) EvaluateSwitch(","var switchResult uint8\nfunc (self *FontMapping) EvaluateSwitch(")]),
("P22","cond-depth-counter",[(F,"func (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, settings []uint8) (uint32, bool) {\n","var condDepth int\nfunc (self *FontRewrites) evalConditionSubexpr(dataIndex, maxDataIndex uint32, settings []uint8) (uint32, bool) {\n	condDepth += 1\n	defer func() { condDepth -= 1 }()\n")]),
# io
("P24","fs-close-on-error-lost",[(P,"	if stat.Size() > MaxFontDataSize {\n		_ = file.Close()\n","	if stat.Size() > MaxFontDataSize {\n")]),
("P24","fs-stat-leak",[(P,"	if err != nil {\n		_ = file.Close()\n		return nil, err\n	}\n	if stat","	if err != nil {\n		return nil, err\n	}\n	if stat")]),
("P24","fs-parse-leak",[(P,"	font, err := Parse(file)\n	if err != nil {\n		_ = file.Close()\n		return font, err","	font, err := Parse(file)\n	if err != nil {\n		return font, err")]),
("P24","fs-close-err-lost",[(P,"		return font, err\n	}\n	return font, file.Close()","		return font, err\n	}\n	_ = file.Close()\n	return font, nil")]),
("P24","fs-size-ge",[(P,"	if stat.Size() > MaxFontDataSize {","	if stat.Size() >= MaxFontDataSize/2 {")]),
("P24","path-close-err",[(P,"	if err == nil {\n		return font, file.Close()","	if err == nil {\n		file.Close()\n		return font, nil")]),
("P24","path-leak",[(P,"	} else {\n		_ = file.Close()\n		return nil, err","	} else {\n		return nil, err")]),
("P24","sig-single-read",[(P,"	n, err := io.ReadFull(reader, parser.TempBuff[0 : 6])","	n, err := reader.Read(parser.TempBuff[0 : 6])")]),
("P24","read-err-with-data",[(PB,"		if err == io.EOF {\n			self.eof = true\n			return nil\n		} else if err != nil {\n			return err\n		}\n","		if err == io.EOF {\n			self.eof = true\n			return nil\n		} else if err != nil && n == 0 {\n			return err\n		}\n")]),
("P24","read-err-as-eof",[(PB,"		if err == io.EOF {\n","		if err == io.EOF || err == io.ErrNoProgress {\n")]),
("P24","export-bufio-noflush-err",[(F,"	return gzipWriter.Close()\n}","	_ = gzipWriter.Close()\n	return nil\n}")]),
("P24","export-closes-no",[(F,"	if n != len(self.Data) { return errors.New(\"short write\") }\n	return gzipWriter.Close()","	if n != len(self.Data) { return errors.New(\"short write\") }\n	return gzipWriter.Flush()")]),
# header parse
("P01","advance-neg-dyes",[(P,"		err = parser.AdvanceBytes(int(numDyes - 1)) // DyeEndIndices","		err = parser.AdvanceBytes(int(numDyes) - 2 + 1) // DyeEndIndices")]),
("P01","limit-check-late",[(PB,"			if len(self.Bytes) > MaxFontDataSize {\n				return self.NewError(\"font data size exceeds limit\")\n			}\n","")]),
("P01","readup-loop-break",[(PB,"		if self.eof {\n			return self.NewError(\"premature end of file (or font offsets are wrong)\")\n		}\n		err := self.readMore()\n		if err != nil { return err }	\n","		err := self.readMore()\n		if err != nil { return err }	\n")]),
("P01","retries-inf",[(PB,"for retries := 0; retries < 3; retries++ {","for retries := 0; retries < 3; {")]),
("P01","presize",[(PB,"	if n < 0 { panic(\"AdvanceBytes(N) where N < 0\") }\n","	if n < 0 { panic(\"AdvanceBytes(N) where N < 0\") }\n	if n > 1 << 20 && cap(self.Bytes) < self.Index + n { self.Bytes = append(make([]byte, 0, 4*(self.Index + n)), self.Bytes...) }\n")]),
("P02","eof-ignore-trailing-small",[(PB,"	if len(self.Bytes) > self.Index {\n		return errors.New(\"file continues","	if len(self.Bytes) > self.Index + 1 {\n		return errors.New(\"file continues")]),
("P02","eof-only-if-buffered",[(PB,"	for !self.eof && len(self.Bytes) == self.Index {\n","	for false && !self.eof && len(self.Bytes) == self.Index {\n")]),
("P02","vert-kern-missing-ok",[(P,"	numVertKerningPairs, err := parser.ReadUint24()\n	if err != nil { return &font, err }\n","	numVertKerningPairs, err := parser.ReadUint24()\n	if err != nil && numHorzKerningPairs == 0 { return &font, err }\n")]),
("P02","multistream-off",[(PB,"	self.gzipReader, err = gzip.NewReader(reader)\n	return err","	self.gzipReader, err = gzip.NewReader(reader)\n	if err == nil { self.gzipReader.Multistream(false) }\n	return err")]),
("P02","short-kern-clip",[(P,"		err = parser.AdvanceBytes(int(numVertKerningPairs)*5)\n		if err != nil { return &font, err }","		err = parser.AdvanceBytes(int(numVertKerningPairs)*5)\n		if err != nil && len(parser.Bytes) - parser.Index < int(numVertKerningPairs)*4 { return &font, err }")]),
("P02","id-zero-ok",[(F,"	if internal.LazyEntropyUint64(self.ID()) < internal.MinEntropyID {","	if self.ID() != 0 && internal.LazyEntropyUint64(self.ID()) < internal.MinEntropyID {")]),
("P02","bool-any",[(F,"	err := internal.BoolErrCheck(self.Data[self.OffsetToMetrics + 2])\n	if err != nil { return err }\n","	if self.Data[self.OffsetToMetrics + 2] > 127 { return errors.New(\"bool\") }\n")]),
("P02","name-limit-gone",[(P,"		if glyphNamesLen > uint32(numNamedGlyphs)*32 {","		if glyphNamesLen > uint32(numGlyphs)*32 {")]),
# accessors
("P05","vertinter-allow",[(F,"	if self.VertInterspacing() != 0 && !self.HasVertLayout() {","	if self.VertInterspacing() > 0 && self.VertLineWidth() > 0 && !self.HasVertLayout() {")]),
("P05","mono-ffs",[(F,"func (self *FontMetrics) Monospaced() bool { return self.MonoWidth() != 0 }","func (self *FontMetrics) Monospaced() bool { return int8(self.MonoWidth()) > 0 }")]),
("P05","author-after-long",[(F,"	return unsafe.String(&self.Data[31 + nameLen + familyLen], authorLen)","	return unsafe.String(&self.Data[31 + nameLen + familyLen], authorLen & 0x7F)")]),
("P06","dyealpha-key-shadow",[(F,"	for alphaIndex := firstAlphaIndex; alphaIndex < lastAlphaIndex; alphaIndex++ {\n		fn(self","	for alphaIndex := firstAlphaIndex; alphaIndex < lastAlphaIndex; alphaIndex++ {\n		if alphaIndex == 254 { break }\n		fn(self")]),
("P06","count-255",[(F,"	if total < numDyeIndices { panic(invalidFontData) } // overflow","	if total <= numDyeIndices && numPaletteIndices != 0 || total == 255 && numDyeIndices == 0 { panic(invalidFontData) } // overflow")]),
("P12","rangechoice-8",[(F,"		return GlyphIndex(internal.DecodeUint16LE(self.font.Data[self.offset + 2 : ]) + uint16(choice))","		base := internal.DecodeUint16LE(self.font.Data[self.offset + 2 : ])\n		return GlyphIndex(base &^ 0xFF | uint16(uint8(base) + choice))")]),
("P12","skip-range-single-anim",[(F,"		if groupSize > 1 { startOffset += 1 } // anim flag skip\n		targetSwitchCase -= 1\n\n		if startOffset >= endOffset { panic(invalidFontData) } // discretionary assertion\n	}\n	group.offset = uint32(offsetToMappingData) + startOffset\n	return group, true\n}\n\n// Notice","		if groupSize > 1 || groupDefinedAsRange { startOffset += 1 } // anim flag skip\n		targetSwitchCase -= 1\n\n		if startOffset >= endOffset { panic(invalidFontData) } // discretionary assertion\n	}\n	group.offset = uint32(offsetToMappingData) + startOffset\n	return group, true\n}\n\n// Notice")]),
("P12","switch-zero-options",[(F,"			caseCombinations *= (*FontSettings)(self).GetNumOptions(SettingKey(settingKey))\n","			caseCombinations *= max(2, (*FontSettings)(self).GetNumOptions(SettingKey(settingKey)))\n")] if False else [(F,"		caseCombinations *= (*FontSettings)(self).GetNumOptions(SettingKey(settingKey))\n","		caseCombinations *= max(2, (*FontSettings)(self).GetNumOptions(SettingKey(settingKey)))\n")]),
("P12","rune-21bit",[(F,"	target := uint32(int32(codePoint))\n	numEntries := self.NumEntries()\n	offsetToSearchIndex := int(self.OffsetToMapping + 2)\n	minIndex, maxIndex := int(0), int(numEntries) - 1\n	for minIndex < maxIndex {\n		midIndex := (minIndex + maxIndex) >> 1 // no overflow possible due to numEntries being uint16\n		value := internal.DecodeUint32LE(self.Data[offsetToSearchIndex + (midIndex << 2) : ])\n		if value < target {\n			minIndex = midIndex + 1\n		} else {\n			maxIndex = midIndex\n		}\n	}\n\n	if minIndex >= int(numEntries) { return GlyphMappingGroup{}, false }\n	value := internal.DecodeUint32LE(self.Data[offsetToSearchIndex + (minIndex << 2) : ])\n	if value != target { return GlyphMappingGroup{}, false }\n	\n	// target found at minIndex\n	offsetToMappingEndOffsets := offsetToSearchIndex + (int(numEntries) << 2)\n	codePointEndOffsetIndex := offsetToMappingEndOffsets + minIndex + (minIndex << 1)\n	endOffset := internal.DecodeUint24LE(self.Data[codePointEndOffsetIndex : ])\n	var startOffset uint32\n	if minIndex > 0 {\n		startOffset = internal.DecodeUint24LE(self.Data[codePointEndOffsetIndex - 3 : ])\n	}\n	if endOffset <= startOffset { panic(invalidFontData) }\n	offsetToMappingData := offsetToMappingEndOffsets + int(numEntries) + (int(numEntries) << 1)\n	switchType := self.Data[offsetToMappingData + int(startOffset)]\n	startOffset += 1 // move from switch type offset index to actual data\n	\n	// basic case: inconditional mapping\n	if switchType == 255 {\n		offset := uint32(offsetToMappingData) + startOffset\n		return GlyphMappingGroup{\n			font: (*Font)(self),\n			offset: offset,\n			switchType: switchType,\n			directMapping: true,\n		}, true\n	}\n\n	// general case: switch staircase\n	var targetSwitchCase uint8\n	if switchType != 254 {\n		targetSwitchCase = self","NOPE")]),
("P16","utf8set-list-rng",[(F,"	elemsIndex := 1 + numRanges*5\n	numElems := int(self.Data[elemsIndex])\n","	elemsIndex := 1 + numRanges*5\n	numElems := int(int8(self.Data[elemsIndex]))\n")]),
("P16","equals-prefix",[(F,"func (self *GlyphRewriteRule) Equals(other GlyphRewriteRule) bool {\n	if len(self.Data) != len(other.Data) { return false }\n","func (self *GlyphRewriteRule) Equals(other GlyphRewriteRule) bool {\n	if len(self.Data) > len(other.Data) { return false }\n")]),
("P16","equals-cond",[(F,"func (self *Utf8RewriteRule) Equals(other Utf8RewriteRule) bool {\n	if len(self.Data) != len(other.Data) { return false }\n	for i := 0;","func (self *Utf8RewriteRule) Equals(other Utf8RewriteRule) bool {\n	if len(self.Data) != len(other.Data) { return false }\n	for i := 1;")]),
("P16","set-prev-off",[(F,"		startOffsetIndex := self.OffsetToRewriteUtf8Sets + 1 + (uint32(set - 1) << 1)","		startOffsetIndex := self.OffsetToRewriteUtf8Sets + 1 + uint32((set - 1) << 1)")]),
("P25","feb29-100",[(D,"	return year % 400 == 0","	return year % 400 == 0 && year < 40000")]),
("P25","day-no-year",[(D,"	if self.Year == 0 && (self.Month != 0 || self.Day != 0) { return false }\n","	if self.Year == 0 && self.Month != 0 && self.Day == 0 { return false }\n")]),
("P25","string-year-pad",[(D,"	return fmt.Sprintf(\"%d %s %04d\", self.Day","	return fmt.Sprintf(\"%d %s %4d\", self.Day")]),
("P25","validate-month-name",[(D,"	if self.Month == 0 || self.Month > 12 { return \"????\" }","	if self.Month == 0 || self.Month > 12 { return \"\" }")]),
]
BUGS=[b for b in BUGS if all(e[2]!="NOPE" and e[1]!=e[2] for e in b[2])]
BUGS=[b for b in BUGS if b[1]!="linehgt-memo"]
