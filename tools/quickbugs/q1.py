F="font.go"; P="parse.go"; B="internal/parsing_buffer.go"; H="internal/helpers.go"; M="mapping_cache.go"; S="settings_cache.go"
BUGS=[
("P24","export-close-err",[(F,"	return gzipWriter.Close()\n","	_ = gzipWriter.Close()\n	return nil\n")]),
("P24","export-write-err-lost",[(F,"	n, err = gzipWriter.Write(self.Data)\n	if err != nil { return err }\n","	n, err = gzipWriter.Write(self.Data)\n	if err != nil && n == 0 { return err }\n")]),
("P24","export-sig-short",[(F,'	if n != 6 { return errors.New("short write") }\n','')]),
("P24","readmore-retries",[(B,"retries < 3","retries < 1")]),
("P24","readmore-eof-with-data",[(B,"		if err == io.EOF {\n			self.eof = true\n			return nil\n","		if err == io.EOF || err == io.ErrUnexpectedEOF {\n			self.eof = true\n			return nil\n")]),
("P02","eof-not-checked-gzip",[(B,"	for !self.eof && len(self.Bytes) == self.Index {","	for i := 0; i < 0 && !self.eof && len(self.Bytes) == self.Index; i++ {")]),
("P02","ensure-eof-once-err-ignored",[(B,"		err := self.readMore()\n		if err != nil { return err }\n	}\n	if len(self.Bytes) > self.Index {","		err := self.readMore()\n		if err != nil { break }\n	}\n	if len(self.Bytes) > self.Index {")]),
("P02","sig-prefix",[(P,"!slices.Equal(parser.TempBuff[0 : 6], []byte{'t', 'g', 'g', 'f', 'n', 't'})","!slices.Equal(parser.TempBuff[0 : 5], []byte{'t', 'g', 'g', 'f', 'n'})")]),
("P02","vertkern-adv",[(P,"		err = parser.AdvanceBytes(int(numVertKerningPairs)*5)\n		if err != nil { return &font, err }\n","		if err = parser.AdvanceBytes(int(numVertKerningPairs)*5); err != nil && numVertKerningPairs < 2 { return &font, err }\n")]),
("P01","limit-by-index",[(B,"			if len(self.Bytes) > MaxFontDataSize {","			if self.Index > MaxFontDataSize {")]),
("P01","limit-only-first-half",[(B,"			if len(self.Bytes) > MaxFontDataSize {","			if len(self.Bytes) > MaxFontDataSize && len(self.Bytes) - self.Index < MaxFontDataSize {")]),
("P01","header-validate-short",[(P,"	err = parser.AdvanceBytes(28)\n	if err != nil { return &font, err }\n","	err = parser.AdvanceBytes(28)\n	if err != nil && len(parser.Bytes) < 16 { return &font, err }\n")]),
("P05","about-len-byte",[(F,"	return unsafe.String(&self.Data[33 + nameLen + familyLen + authorLen], aboutLen)\n","	if aboutLen == 0 { return self.Name() }\n	return unsafe.String(&self.Data[33 + nameLen + familyLen + authorLen], aboutLen)\n")]),
("P05","minor-date-major",[(F,"	y, m, d := internal.DecodeDate(self.Data[24 : 28])\n	return Date{ Year: y, Month: m, Day: d }","	y, m, d := internal.DecodeDate(self.Data[24 : 28])\n	if y == 0 { return self.MajorVersionDate() }\n	return Date{ Year: y, Month: m, Day: d }")]),
("P05","vertlinefull-8",[(F,"	return int(self.VertLineWidth()) + int(self.VertLineGap())","	return int(self.VertLineWidth() + self.VertLineGap())")]),
("P06","color-shift8",[(F,"		colorDataOffset := offsetToPaletteColors + (uint32(colorIndex) << 2)","		colorDataOffset := offsetToPaletteColors + uint32(uint16(colorIndex << 2) | (uint16(colorIndex) & 0x40) << 2)")]),
("P06","dye-count-last",[(F,"	return lastAlphaIndex - firstAlphaIndex\n}","	if lastAlphaIndex == 255 { return lastAlphaIndex - firstAlphaIndex - uint8(key) / 200 }\n	return lastAlphaIndex - firstAlphaIndex\n}")]),
("P06","palette-transp",[(F,"			paletteColors = append(paletteColors, rgba)\n","			if rgba.A == 0 { rgba = color.RGBA{} }\n			paletteColors = append(paletteColors, rgba)\n")]),
("P07","name-idx-signed",[(F,"		if bytes[i] < str[i] { return true }\n		if bytes[i] > str[i] { return false }\n","		if int8(bytes[i]) < int8(str[i]) { return true }\n		if int8(bytes[i]) > int8(str[i]) { return false }\n")]),
("P07","midindex16",[(F,"		midIndex := (minIndex + maxIndex) >> 1 // no overflow possible due to numEntries being uint16\n		value := self.getNthGlyphName","		midIndex := uint32(uint16(minIndex + maxIndex) >> 1)\n		value := self.getNthGlyphName")]),
("P07","names-eq-prefix",[(F,"	if len(bytes) != len(str) { return false }\n	for i := 0; i < len(bytes); i++ {\n		if bytes[i] != str[i] { return false }\n	}\n	return true","	if len(bytes) != len(str) { return false }\n	for i := 0; i < len(bytes) && i < 31; i++ {\n		if bytes[i] != str[i] { return false }\n	}\n	return true")]),
("P08","mask-numglyphs16",[(F,"	offsetToMasksData := self.OffsetToGlyphMasks + (numGlyphs << 1) + numGlyphs\n","	offsetToMasksData := self.OffsetToGlyphMasks + uint32(uint16(numGlyphs << 1) + uint16(numGlyphs))\n")]),
("P08","advance-mono",[(F,"	return self.Data[self.OffsetToGlyphMasks + (numGlyphs32 << 1) + numGlyphs32 + glyphDataStartOffset]\n","	if w := (*FontMetrics)(self).MonoWidth(); w != 0 { return w }\n	return self.Data[self.OffsetToGlyphMasks + (numGlyphs32 << 1) + numGlyphs32 + glyphDataStartOffset]\n")]),
("P11","numopts-256",[(F,"	numOpts := endOffset - startOffset\n	if numOpts > 255 { panic(invalidFontData) }\n	return uint8(numOpts)","	numOpts := endOffset - startOffset\n	if numOpts > 255 { panic(invalidFontData) }\n	return uint8(numOpts) &^ ((uint8(numOpts) >> 7) & (uint8(key) >> 7))")]),
("P11","word-offset-high",[(F,"		wordStartIndex := self.OffsetToWords + 1 + (uint32(numWords) << 1) + uint32(wordStartOffsetIndex)","		wordStartIndex := self.OffsetToWords + 1 + (uint32(numWords) << 1) + uint32(wordStartOffsetIndex & 0x0FFF)")]),
("P11","optvalue-numsettings",[(F,"	optionValue := self.Data[self.OffsetToSettingDefinitions + (numSettings << 1) + uint32(startOffset) + opt32]","	optionValue := self.Data[self.OffsetToSettingDefinitions + uint32(uint8(numSettings << 1)) + uint32(startOffset) + opt32]")]),
("P12","range-wrap",[(F,"internal.DecodeUint16LE(self.font.Data[self.offset + 2 : ]) + uint16(choice))","internal.DecodeUint16LE(self.font.Data[self.offset + 2 : ]) | uint16(choice))")]),
("P12","list-choice8",[(F,"self.font.Data[self.offset + 2 + (uint32(choice) << 1) : ]","self.font.Data[self.offset + 2 + uint32(choice << 1) : ]")]),
("P12","group-size-64",[(F,"	return (0b0111_1111 & self.font.Data[self.offset + 0]) + 1\n","	if self.font.Data[self.offset] == 0xFF { return 127 }\n	return (0b0111_1111 & self.font.Data[self.offset + 0]) + 1\n")]),
("P12","utf8-negative",[(F,"func (self *FontMapping) Utf8(codePoint rune, settings []uint8) (GlyphMappingGroup, bool) {\n	// binary search the code point\n	target := uint32(int32(codePoint))","func (self *FontMapping) Utf8(codePoint rune, settings []uint8) (GlyphMappingGroup, bool) {\n	// binary search the code point\n	target := uint32(int32(codePoint)) & 0x1FFFFF")]),
("P12","ascii-mask",[(F,"	return self.Utf8(rune(codePoint), settings)","	return self.Utf8(rune(codePoint & 0x7F), settings)")]),
("P12","mapdata-16",[(F,"	group.offset = uint32(offsetToMappingData) + startOffset\n	return group, true\n}\n\nfunc (self *FontMapping) Ascii","	group.offset = uint32(offsetToMappingData) + (startOffset & 0xFFFFF)\n	return group, true\n}\n\nfunc (self *FontMapping) Ascii")]),
("P12","switch-last-setting",[(F,"		caseCombinations *= (*FontSettings)(self).GetNumOptions(SettingKey(settingKey))","		caseCombinations *= max((*FontSettings)(self).GetNumOptions(SettingKey(settingKey)), 2)")]),
("P13","cached-settings-anim",[(M,"","")]) if False else ("P12","anim-single",[(F,"	if (0b0111_1111 & self.font.Data[self.offset + 0]) == 0 { return 0 }\n	return AnimationFlags","	if self.font.Data[self.offset + 0] == 0 { return 0 }\n	return AnimationFlags")]),
("P14","kern-search-signed",[(F,"		value := internal.DecodeUint32LE(self.Data[offsetToSearchIndex + (midIndex << 2) : ])\n		if value < target {\n			minIndex = midIndex + 1\n		} else {\n			maxIndex = midIndex\n		}\n	}\n\n	if minIndex >= int(numPairs) { return 0 } // no kerning\n	value := internal.DecodeUint32LE(self.Data[offsetToSearchIndex + (minIndex << 2) : ])\n	if value != target { return 0 } // no kerning\n\n	// yes kerning\n	return int8(self.Data[self.OffsetToVert","		value := internal.DecodeUint32LE(self.Data[offsetToSearchIndex + (midIndex << 2) : ])\n		if int32(value) < int32(target) {\n			minIndex = midIndex + 1\n		} else {\n			maxIndex = midIndex\n		}\n	}\n\n	if minIndex >= int(numPairs) { return 0 } // no kerning\n	value := internal.DecodeUint32LE(self.Data[offsetToSearchIndex + (minIndex << 2) : ])\n	if value != target { return 0 } // no kerning\n\n	// yes kerning\n	return int8(self.Data[self.OffsetToVert")]),
("P15","cond-deep-skip",[(F,"	if dataIndex >= maxDataIndex { panic(invalidFontData) }\n\n	ctrl := self.Data[dataIndex]\n	switch ctrl & 0b1110_0000 {\n	case 0b0000_0000: // OR\n		dataIndex += 1\n		numTerms := (ctrl & 0b0001_1111)\n		for i := uint8(0); i < numTerms; i++ {\n			dataIndex = self.skip","	if dataIndex >= maxDataIndex { panic(invalidFontData) }\n\n	ctrl := self.Data[dataIndex]\n	switch ctrl & 0b1110_0000 {\n	case 0b0000_0000: // OR\n		dataIndex += 1\n		numTerms := (ctrl & 0b0001_1111)\n		for i := uint8(0); i < min(numTerms, 24); i++ {\n			dataIndex = self.skip")]),
("P15","cond-start-offset8",[(F,"	dataIndex := offsetToRewriteConditionsData + uint32(startOffset)\n	endDataIndex","	dataIndex := offsetToRewriteConditionsData + uint32(startOffset & 0x7FFF)\n	endDataIndex")]),
("P15","skip-numsettings",[(F,"		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion\n		if (ctrl & 0b0001_0000) == 0 { // comparing two settings\n			if self.Data[dataIndex + 2] >= numSettings { panic","		if self.Data[dataIndex + 1] >= numSettings { panic(invalidFontData) } // discretionary assertion\n		if (ctrl & 0b0001_0000) != 0x20 { // comparing two settings\n			if self.Data[dataIndex + 2] >= numSettings { panic")]),
("P16","list-elems-8",[(F,"	numRanges := int(self.Data[0])\n	elemsIndex := 1 + numRanges*3\n","	numRanges := int(self.Data[0])\n	elemsIndex := 1 + int(self.Data[0]*3) + (numRanges*3 &^ 255)*1\n	if numRanges == 255 { elemsIndex = int(uint8(elemsIndex)) }\n")]),
("P16","range-last-byte",[(F,"		err := each(codePoint, codePoint + rune(self.Data[i + 4]))","		err := each(codePoint, codePoint + rune(self.Data[i + 4] & 0x7F))")]),
("P16","inlen-sum",[(F,"func (self *GlyphRewriteRule) InLen() uint8 { return self.Data[1] + self.Data[2] + self.Data[3] }","func (self *GlyphRewriteRule) InLen() uint8 { return min(self.Data[1] + self.Data[2], 127) + self.Data[3] }")]),
("P16","rule-offset",[(F,"	rulesBaseOffset := self.OffsetToUtf8Rewrites + 2 + ((numRules << 1) + numRules)\n","	rulesBaseOffset := self.OffsetToUtf8Rewrites + 2 + uint32(uint16(numRules << 1) + uint16(numRules))\n")]),
("P16","set-range-error",[(F,"		err := each(glyphIndex)\n		if err != nil { return err }\n","		_ = each(glyphIndex)\n")]),
]
