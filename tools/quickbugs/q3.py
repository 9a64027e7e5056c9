B="builder/font_builder.go"; BC="builder/font_builder_color.go"; BM="builder/font_builder_mapping.go"; BP="builder/font_builder_props.go"; BR="builder/font_builder_rewrite_rules.go"; BS="builder/font_builder_rewrite_sets.go"; BT="builder/font_builder_settings.go"
FR="			self.NOPE"
BUGS=[
# settings / words
("P04","words-shadow",[(BT,"	for prevNumCustom := -1; prevNumCustom != len(isCustom); {\n		prevNumCustom = len(isCustom)\n","	for pass := 0; pass < 2; pass++ {\n		prevNumCustom := len(isCustom)\n")]),
("P04","words-shadow-pass1",[(BT,"	for prevNumCustom := -1; prevNumCustom != len(isCustom); {\n		prevNumCustom = len(isCustom)\n","	for pass := 0; pass < 1; pass++ {\n		prevNumCustom := len(isCustom)\n")]),
("P04","words-shadow-le",[(BT,"int(builtinIndex) < prevNumCustom {","int(builtinIndex) <= prevNumCustom && int(builtinIndex) != 32 {")]),
("P04","words-255",[(BT,"if wordIndex > 255 { panic(invalidInternalState) }","if wordIndex > 254 { panic(invalidInternalState) }")]),
("P04","settings-options-alias",[(BT,"Options: slices.Clone(options) })","Options: options })"),(BT,"import \"slices\"\n","import \"slices\"\n")]),
("P04","settings-options-alias-spare",[(BT,"Options: slices.Clone(options) })","Options: slices.Clip(options) })")]),
("P04","dye-alias",[(BC,"	dyeSection.alphas = make([]uint8, len(alphas))\n	copy(dyeSection.alphas, alphas)","	dyeSection.alphas = alphas")]),
("P04","palette-alias",[(BC,"	paletteSection.colors = make([]color.RGBA, len(colors))\n	copy(paletteSection.colors, colors)","	paletteSection.colors = colors")]),
("P04","group-alias",[(BM,"Glyphs: slices.Clone(glyphUIDs), AnimationFlags: animFlags","Glyphs: glyphUIDs, AnimationFlags: animFlags")]),
("P04","switchgroup-alias",[(BM,"Glyphs: slices.Clone(group), Anim","Glyphs: group, Anim")]),
("P04","rule-out-alias",[(BR,"rule.output = slices.Clone(out)","rule.output = out")]),
("P04","rule-in-alias",[(BR,"inRunes: slices.Clone(sequence)","inRunes: sequence")]),
("P04","switch-alias-noop",[(BM,"	newSettings := make([]uint8, 0, len(settings))\n","	newSettings := make([]uint8, 0, 255)\n	if n := len(self.mappingSwitches); n > 0 && len(self.mappingSwitches[n-1].Settings) == len(settings) { newSettings = self.mappingSwitches[n-1].Settings[:0] }\n")]),
("P04","switch-cases-254",[(BM,"		if numCases > 254 {","		if numCases >= 254 {")]),
("P04","switch-cases-u8",[(BM,"	numCases := 1\n","	numCases := uint8(1)\n"),(BM,"		numCases *= len(self.settings[setting].Options)\n","		numCases *= uint8(len(self.settings[setting].Options))\n")]),
("P04","group-cont-wrap",[("builder/helpers.go","	","	")]),
("P04","group-scratch-stale",[(BM,"	return data, scratchBuffer[ : 0], nil\n}\n\n\n// --- main","	return data, scratchBuffer, nil\n}\n\n\n// --- main")]),
("P04","group128",[(BM,"	if len(glyphUIDs) > 127 {","	if len(glyphUIDs) > 126 {")]),
("P04","switch-group128",[(BM,"		if len(group) > 127 { return","		if len(group) > 129 { return")]),
("P04","map-del",[(BM,"	if codePoint < ' ' {\n		return errors.New(\"can't map code points before ' ' (space)\") \n	}\n	if len(glyphUIDs) < 2","	if codePoint <= ' ' {\n		return errors.New(\"can't map code points before ' ' (space)\") \n	}\n	if len(glyphUIDs) < 2")]),
("P04","map-group-partial",[(BM,"	// glyph UIDs validation\n	err := self","	delete(self.runeMapping, codePoint)\n	// glyph UIDs validation\n	err := self")]),
("P04","flags-on-first",[(BM,"		finalAnimFlags = append(finalAnimFlags, animFlags[animFlagIndex])","		finalAnimFlags = append(finalAnimFlags, animFlags[animFlagIndex] & 0b1111)")]),
("P04","num-switch-cases-lazy",[(B,"if i == 0 { numCases = numOptions } else { numCases *= numOptions }","if i == 0 { numCases = numOptions } else { numCases = int(uint8(numCases)) * numOptions }")]),
# glyphs
("P04","advance-256",[(BP,"uint8(min(255, glyphMask.Bounds().Dx())),","uint8(min(256, glyphMask.Bounds().Dx())),")]),
("P04","center-512",[(BP,"uint8(min(255, glyphMask.Bounds().Dx()/2)),","uint8(glyphMask.Bounds().Dx()/2),")]),
("P04","ascent-limit",[(BP,"-rect.Min.Y > int(self.ascent) + int(self.extraAscent)","-rect.Min.Y > int(self.ascent + self.extraAscent)")]),
("P04","descent-limit",[(BP,"rect.Max.Y > int(self.descent) + int(self.extraDescent)","rect.Max.Y > int(self.descent + self.extraDescent)")]),
("P04","desc-off",[(BP,"rect.Max.Y > int(self.descent) + int(self.extraDescent)","rect.Max.Y - 1 > int(self.descent) + int(self.extraDescent)")]),
("P04","mono-left",[(BP,"(rect.Min.X < 0 || rect.Max.X > int(self.monoWidth))","(rect.Max.X > int(self.monoWidth))")]),
("P04","mono-dx",[(BP,"(rect.Min.X < 0 || rect.Max.X > int(self.monoWidth))","(rect.Min.X < 0 || rect.Dx() > int(self.monoWidth))")]),
("P04","max-glyphs-partial",[(BP,"	if len(self.glyphData) >= ggfnt.MaxGlyphs {","	if len(self.glyphData) > ggfnt.MaxGlyphs {")]),
("P04","version-minor-reset",[(BP,"	self.versionMinor  = 0\n","	if self.versionMajor == 0 { self.versionMinor = 0 }\n")]),
("P04","raise-major-date",[(BP,"	self.majorVersionDate = date\n	self.minorVersionDate = date\n}","	self.majorVersionDate = date\n	if self.versionMajor != 1 { self.minorVersionDate = date }\n}")]),
("P04","glyph-name-kept-on-error",[(BP,"	err := internal.ValidateBasicName(name)\n	if err != nil { return err }\n	glyphData.Name = name","	err := internal.ValidateBasicName(name)\n	glyphData.Name = name\n	if err != nil { return err }")]),
("P04","about-65535",[(BP,"if len(about) > 65535 {","if len(about) >= 65535 {")]),
("P04","family-256",[(BP,"	if len(name) > 255 { return errors.New(\"family","	if len(name) > 256 { return errors.New(\"family")]),
("P04","author-set-first",[(BP,"	err := checkStringValidity(name)\n	if err != nil { return err }\n	self.fontAuthor = name","	self.fontAuthor = name\n	err := checkStringValidity(name)\n	if err != nil { return err }")]),
("P04","string-del",[(BP,"		if codePoint < ' ' {","		if codePoint < ' ' || codePoint == 0xFFFD {")]),
("P04","kern-zero",[(BP,"	if kerning == 0 {\n		delete(","	if kerning == 0 && self.horzKerningPairs[[2]uint64{uidPrev, uidNext}] != nil && self.horzKerningPairs[[2]uint64{uidPrev, uidNext}].Class == 0 {\n		delete(")]),
("P04","kern-keeps-class",[(BP,"			Class: 0,\n			Value: kerning,\n		}\n","			Class: 0,\n			Value: kerning,\n		}\n		if self.kerningClasses != nil && uidPrev == uidNext { self.horzKerningPairs[[2]uint64{uidPrev, uidNext}].Class = uint16(len(self.kerningClasses)) }\n")]),
# build
("P04","kern-class-minus",[(B,"			kerningClass := self.kerningClasses[kerningInfo.Class - 1]\n			data = append(data, uint8(kerningClass.Value))\n		}\n	}\n	\n","			kerningClass := self.kerningClasses[min(int(kerningInfo.Class - 1), 255)]\n			data = append(data, uint8(kerningClass.Value))\n		}\n	}\n	\n")]),
("P04","kern-sort-16",[(B,"	slices.Sort(self.tempSortingBuffer)\n	prevPair = 0\n","	slices.SortFunc(self.tempSortingBuffer, func(a, b uint64) int { return int(int32(uint32(a))) - int(int32(uint32(b))) })\n	prevPair = 0\n")]),
("P04","uid-lookup-stale",[(B,"	clear(self.tempGlyphIndexLookup)\n","")]),
("P04","mapping-sort-signed",[(B,"			self.tempSortingBuffer = append(self.tempSortingBuffer, uint64(uint32(codePoint)))","			self.tempSortingBuffer = append(self.tempSortingBuffer, uint64(uint16(codePoint)) | uint64(codePoint >> 16) << 17)"),(B,"		slices.Sort(self.tempSortingBuffer)\n		\n		// CodePointsIndex","		slices.Sort(self.tempSortingBuffer)\n		for i, v := range self.tempSortingBuffer { self.tempSortingBuffer[i] = uint64(uint16(v)) | (v >> 17) << 16 }\n		// CodePointsIndex")]),
("P04","glyphset-order-remove",[(BS,"	self.glyphSetsOrder = slices.Delete(self.glyphSetsOrder, orderIndex, orderIndex + 1)\n","	last := len(self.glyphSetsOrder) - 1\n	self.glyphSetsOrder[orderIndex] = self.glyphSetsOrder[last]\n	self.glyphSetsOrder = self.glyphSetsOrder[ : last]\n")]),
("P04","glyphset-delete-wrong-first",[(BS,"if glyphRange.First == rangeStartGlyphUID && glyphRange.Last == rangeEndGlyphUID {\n			rangeIndex","if glyphRange.First == rangeStartGlyphUID {\n			rangeIndex")]),
("P04","glyphset-dup-range",[(BS,"if glyphRange.First == rangeStartGlyphUID && glyphRange.Last == rangeEndGlyphUID {\n			return","if glyphRange.First == rangeStartGlyphUID || glyphRange.Last == rangeEndGlyphUID {\n			return")]),
("P04","glyphset-list-255",[(BS,"if len(set.list) >= 255 {","if len(set.list) >= 254 {")]),
("P04","glyphset-range-single",[(BS,"		if uidRange.First == uidRange.Last {\n			data = internal.AppendUint16LE(data, glyphIndex)\n			data = append(data, 0)","		if uidRange.First == uidRange.Last {\n			data = internal.AppendUint16LE(data, glyphIndex)\n			data = append(data, uint8(glyphIndex >> 12))")]),
("P04","glyphset-range-255",[(BS,"if rangeLen > 255 {","if rangeLen > 254 {")]),
("P04","runeset-range-del",[(BS,"if runeRange.First == rangeStart && runeRange.Last == rangeEnd {\n			rangeIndex","if runeRange.First == rangeStart {\n			rangeIndex")]),
("P04","utf8-head-frag16",[(BR,"				if accumulatedElements == 15 {","				if accumulatedElements == 16 {")]),
("P04","rule-groups16",[(BR,"if accumulatedElements != 0 || accumulatedGroups == 15 {","if accumulatedElements != 0 || accumulatedGroups == 16 {")]),
("P04","rule-blockfrag",[(BR,"		} else if !blockHasFragment {","		} else if !blockHasFragment || blockSize == 15 {")]),
("P04","rule-len-255",[(BR,"	if len(sequence) > 255 {","	if len(sequence) > 254 {")]),
("P04","rule-sum-overflow",[(BR,"	if headBodyLen < bodyLen || headBodyLen + tailLen < tailLen {","	if headBodyLen + tailLen < tailLen {")]),
("P04","rule-out-len",[(BR,"	if len(out) > int(bodyLen) {","	if len(out) > int(bodyLen) + int(tailLen) {")]),
("P04","rule-not-found-partial",[(BR,"				return errors.New(\"given input UID is neither glyph nor set\")","				if len(inGroups) > 3 { continue }\n				return errors.New(\"given input UID is neither glyph nor set\")")]),
("P04","boollist-push-8",[("internal/helpers.go","NOPE","NOPE")]),
("P04","names-sort-len",[(B,"			if nameA < nameB { return -1 }\n			if nameA > nameB { return  1 }","			if len(nameA) == 32 && len(nameB) == 32 { nameA, nameB = nameA[:31], nameB[:31] }\n			if nameA < nameB { return -1 }\n			if nameA > nameB { return  1 }")]),
("P04","dup-name-err-dropped",[(B,"			if name == prevName {","			if name == prevName && len(name) > 1 {")]),
("P04","default-dye-with-palettes",[(B,"	if numColorSections == 0 { // use","	if len(self.dyes) == 0 && len(self.palettes) < 3 { // use")]),
("P04","dye-end-reset",[(B,"	clrIndex, clrSectionNameOffset = 0, 0\n","	clrSectionNameOffset = 0\n	if clrIndex < 200 { clrIndex = 0 }\n")]),
("P04","mask-alias",[(BP,"				Mask: glyphMask,","				Mask: &image.Alpha{ Pix: glyphMask.Pix, Stride: max(glyphMask.Stride, 0), Rect: rect },")]),
("P04","edition-class-leftover",[(B,"		if kerningPair.Value == 0 { delete(self.horzKerningPairs, key) } // class-only pair","		if kerningPair.Value == 0 && kerningPair.First != kerningPair.Second { delete(self.horzKerningPairs, key) } // class-only pair")]),
("P26","edition-vert-leftover",[(B,"		if kerningPair.Value == 0 { delete(self.vertKerningPairs, key) } // class-only pair","		if kerningPair.Value == 0 && kerningPair.First != kerningPair.Second { delete(self.vertKerningPairs, key) } // class-only pair")]),
("P26","edition-no-clear-first",[(B,"	self.ClearEditionData()\n	var completed","	if len(self.kerningClasses) < 2 { self.ClearEditionData() }\n	var completed")]),
("P26","edition-eof-ok",[(B,"	err = parser.EnsureEOF()\n	if err != nil { return parser.NewError(err.Error()) }\n\n	// done","	err = parser.EnsureEOF()\n	if err != nil && numRewriteConditions > 0 { return parser.NewError(err.Error()) }\n\n	// done")]),
("P26","edition-class-255",[(B,"			kerningPair.Class = kerningClass\n		} else {\n			self.horz","			kerningPair.Class = uint16(uint8(kerningClass))\n		} else {\n			self.horz")]),
("P26","edition-class-eq",[(B,"		if kerningClass > numKerningClasses {","		if kerningClass > numKerningClasses + 1 {")]),
("P26","edition-glyph-eq",[(B,"int(secondIndex) >= len(self.glyphOrder) {","int(secondIndex) > len(self.glyphOrder) {")]),
("P26","edition-complete-early",[(B,"	for i := uint8(0); i < numRewriteConditions; i++ {\n		name","	completedWithoutErrors = true\n	for i := uint8(0); i < numRewriteConditions; i++ {\n		name")]),
("P26","edition-fontid-low",[(B,"	if fontID != self.fontID {","	if uint32(fontID) != uint32(self.fontID) {")]),
("P26","edition-cat-size-order",[(B,"		(&self.categories[i]).Size = size","		(&self.categories[i & 0x7F]).Size = size")]),
("P26","edition-keeps-val-clear",[(B,"		kerningPair.Class = 0\n		if kerningPair.Value == 0 { delete(self.horzKerningPairs, key) } // class-only pair\n","		if kerningPair.Value == 0 || kerningPair.Class > 255 { delete(self.horzKerningPairs, key) } // class-only pair\n		kerningPair.Class = 0\n")]),
]
BUGS=[b for b in BUGS if not any(e[1] in("NOPE","	") for e in b[2])]
