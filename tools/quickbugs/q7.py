F="font.go";P="parse.go";MC="mapping_cache.go";SC="settings_cache.go";H="internal/helpers.go";PB="internal/parsing_buffer.go"
BM="builder/font_builder_mapping.go";BC="builder/font_builder_color.go";BS="builder/font_builder_settings.go";B="builder/font_builder.go";BH="builder/helpers.go"
ME="mask/encoder.go";MH="mask/encoder_helper_funcs.go";MR="mask/rasterize.go";CB="internal/circular_buffer.go"
BUGS=[
("P22","entropy-global",[(H,"	var patterns [4]uint8\n	for i := 0; i < 64; i += 2 {","	patterns = [4]uint8{}\n	for i := 0; i < 64; i += 2 {"),(H,"// Values <0.3 are fairly low entropy.","var patterns [4]uint8\n\n// Values <0.3 are fairly low entropy.")]),
("P22","rand-global",[(H,"   randBytes := make([]byte, 8)\n","   randBytes := randScratch[:]\n"),(H,"func CryptoRandUint64()","var randScratch [8]byte\n\nfunc CryptoRandUint64()")]),
("P22","contslice-global",[(BH,"	for i := 1; i < len(slice); i++ {\n		if slice[i] != slice[i - 1] + 1 {","	lastLen = len(slice)\n	for i := 1; i < lastLen; i++ {\n		if slice[i] != slice[i - 1] + 1 {"),(BH,"type integer interface","var lastLen int\ntype integer interface")]),
("P22","encoder-payload-global",[(ME,"	var payload [8]byte\n	for i := 0; i","	for i := 0; i"),(ME,"type Encoder struct {","var payload [8]byte\n\ntype Encoder struct {")]),
("P22","rasterrect-memo",[(MR,"	rect := image.Rectangle{ image.Pt(math.MaxInt, math.MaxInt), image.Pt(math.MinInt, math.MinInt) }\n	if len(rasterOps) == 0 { return rect, nil }\n","	rect := image.Rectangle{ image.Pt(math.MaxInt, math.MaxInt), image.Pt(math.MinInt, math.MinInt) }\n	if len(rasterOps) == 0 { lastEmpty = rect; return rect, nil }\n"),(MR,"// --- helper methods ---","var lastEmpty image.Rectangle\n\n// --- helper methods ---")]),
("P22","loopdiag-global",[(MH,"	var diag rasterFragment\n	diag.value = value\n","	diag = rasterFragment{ value: value }\n"),(MH,"func findDiagonalAutoIndex(","var diag rasterFragment\nfunc findDiagonalAutoIndex(")]),
("P22","validatename-global",[(PB,"	var prevIsHyphen bool\n	for i := 0; i < len(name); i++ {","	prevIsHyphen = false\n	for i := 0; i < len(name); i++ {"),(PB,"func ValidateBasicName(name string) error {","var prevIsHyphen bool\nfunc ValidateBasicName(name string) error {")]),
("P22","organize-global",[(BS,"	isCustom := make(map[string]struct{}, len(words))\n","	clear(isCustom)\n"),(BS,"func organizeWords(","var isCustom = make(map[string]struct{})\nfunc organizeWords(")]),
("P22","addswitch-global",[(BM,"	repeated := make(map[ggfnt.SettingKey]struct{}, len(settings))\n","	clear(repeated)\n"),(BM,"func (self *Font) AddSwitch(","var repeated = make(map[ggfnt.SettingKey]struct{})\nfunc (self *Font) AddSwitch(")]),
("P22","parser-tempbuf-global",[(PB,"	self.TempBuff = make([]byte, 1024)\n","	self.TempBuff = sharedTemp[:]\n"),(PB,"func (self *ParsingBuffer) InitBuffers()","var sharedTemp [1024]byte\nfunc (self *ParsingBuffer) InitBuffers()")]),
("P28","parser-tempbuf-held",[(PB,"	self.Bytes    = make([]byte, 0, 1024)\n","	self.Bytes    = sharedBytes[ : 0]\n"),(PB,"func (self *ParsingBuffer) InitBuffers()","var sharedBytes [256]byte\nfunc (self *ParsingBuffer) InitBuffers()")]),
("P23","switch-repeat-adjacent",[(BM,"		repeated[setting] = struct{}{}\n","		clear(repeated)\n		repeated[setting] = struct{}{}\n")]),
("P23","map-validate-ends",[(BM,"	for _, glyphUID := range glyphUIDs {\n		_, hasData := self.glyphData[glyphUID]\n		if !hasData {","	for i, glyphUID := range glyphUIDs {\n		_, hasData := self.glyphData[glyphUID]\n		if !hasData && (i < 8 || i + 1 == len(glyphUIDs)) {")]),
("P12","anim-by-i",[(BM,"		finalAnimFlags = append(finalAnimFlags, animFlags[animFlagIndex])\n","		finalAnimFlags = append(finalAnimFlags, animFlags[min(len(finalAnimFlags), len(animFlags) - 1)])\n")]),
("P23","anim-by-i",[(BM,"		finalAnimFlags = append(finalAnimFlags, animFlags[animFlagIndex])\n","		finalAnimFlags = append(finalAnimFlags, animFlags[min(len(finalAnimFlags), len(animFlags) - 1)])\n")]),
("P07","glyph-x3-16",[(F,"	index = (index << 1) + index\n","	index = uint32(uint16((index << 1) + index))\n")]) if False else
("P06","numdyes-8bit",[(F,"	offsetToDyeNames := offsetToDyeNameEnds + (numDyes << 1)\n","	offsetToDyeNames := offsetToDyeNameEnds + uint32(uint8(numDyes << 1))\n")]),
("P06","pal-names-8bit",[(F,"	offsetToPaletteNames := offsetToPaletteNameEnds + (numPalettes << 1)\n","	offsetToPaletteNames := offsetToPaletteNameEnds + uint32(uint8(numPalettes << 1))\n")]),
("P06","dyealpha-8bit",[(F,"		fn(self.Data[offsetToDyeAlphas + uint32(alphaIndex)])\n","		fn(self.Data[offsetToDyeAlphas + uint32(int8(alphaIndex))])\n")]),
("P06","family-lt",[(F,"	return unsafe.String(&self.Data[30 + nameLen], familyLen)","	return unsafe.String(&self.Data[30 + nameLen], familyLen&^0x80)")]),
("P06","about-8bit",[(F,"	aboutIndex := 31 + nameLen + familyLen + authorLen\n","	aboutIndex := 31 + nameLen + int(uint8(familyLen + authorLen))\n")]),
("P26","edit-zero-value",[(B,"		kerningPair, found := self.vertKerningPairs[[2]uint64{first, second}]\n		if found {\n			kerningPair.Class = kerningClass\n","		kerningPair, found := self.vertKerningPairs[[2]uint64{first, second}]\n		if found {\n			kerningPair.Class = kerningClass\n			if first == second { kerningPair.Value = 0 }\n")]),
("P26","edit-clear-late",[(B,"	self.kerningClasses = self.kerningClasses[ : 0]\n	for key, kerningPair","	for key, kerningPair"),(B,"func (self *Font) ValidateEditionData() error {","func (self *Font) ValidateEditionData() error {\n	self.kerningClasses = self.kerningClasses[ : 0]")]),
("P26","edit-defer-missing",[(B,"	defer func() { if !completedWithoutErrors { self.ClearEditionData() } }()\n","	defer func() { if !completedWithoutErrors && len(self.kerningClasses) == 0 { self.ClearEditionData() } }()\n")]),
("P26","edit-names-kept",[(B,"	for i, _ := range self.rewriteConditions {\n		self.rewriteConditions[i].EditorName = \"\"\n","	for i, _ := range self.categories {\n		if i < len(self.rewriteConditions) { self.rewriteConditions[i].EditorName = \"\" }\n")]),
("P26","edit-swap-pair",[(B,"			self.vertKerningPairs[[2]uint64{first, second}] = &editionKerningPair{ First: first, Second: second, Class: kerningClass }","			self.vertKerningPairs[[2]uint64{second, first}] = &editionKerningPair{ First: first, Second: second, Class: kerningClass }")]),
("P14","edit-class-value",[(B,"			kerningClass := self.kerningClasses[kerningInfo.Class - 1]\n			data = append(data, uint8(kerningClass.Value))\n		}\n	}\n	if len(data) > ggfnt.MaxFontDataSize {","			kerningClass := self.kerningClasses[min(int(kerningInfo.Class), len(self.kerningClasses) - 1)]\n			data = append(data, uint8(kerningClass.Value))\n		}\n	}\n	if len(data) > ggfnt.MaxFontDataSize {")]),
("P26","edit-class-value",[(B,"			kerningClass := self.kerningClasses[kerningInfo.Class - 1]\n			data = append(data, uint8(kerningClass.Value))\n		}\n	}\n	if len(data) > ggfnt.MaxFontDataSize {","			kerningClass := self.kerningClasses[min(int(kerningInfo.Class), len(self.kerningClasses) - 1)]\n			data = append(data, uint8(kerningClass.Value))\n		}\n	}\n	if len(data) > ggfnt.MaxFontDataSize {")]),
# caches
("P13","mru-prev-kept",[(MC,"		self.mappingEntries[prevNext].prevEntry = prevPrev\n","")]),
("P13","mru-lru-stale",[(MC,"		self.mappingEntries[prevNext].prevEntry = noEntry // new lru\n","")]),
("P13","evict-delete-unconditional",[(MC,"		if isCached && cachedIndex == self.lruIndex { // unused","		if isCached { // unused")]),
("P13","evict-not-deleted-low",[(MC,"			delete(self.cachedMappings, evictedCodePoint)\n","			if evictedCodePoint != codePoint - 1 { delete(self.cachedMappings, evictedCodePoint) }\n")]),
("P13","refresh-without-case",[(MC,"			if cached && caseBranch == entry.caseBranch {","			if cached && caseBranch <= entry.caseBranch {")]),
("P13","refresh-not-signed",[(MC,"				entry.Update(self.dropCounter, glyphMapping)\n				return glyphMapping, true","				entry.Update(entry.dropSignature, glyphMapping)\n				return glyphMapping, true")]),
("P13","reset-keeps-map",[(MC,"	clear(self.cachedMappings)\n","	if self.mruIndex != 0 { clear(self.cachedMappings) }\n")]),
("P13","reset-lru",[(MC,"	self.font = font\n	self.mruIndex = uint16(len(self.mappingEntries) - 1)\n	self.lruIndex = 0\n","	self.font = font\n	self.mruIndex = uint16(len(self.mappingEntries) - 1)\n")]),
("P13","drop-8bit",[(MC,"	self.dropCounter += 1\n","	self.dropCounter = (self.dropCounter + 1)&0x3F\n")]),
("P13","set-same-skip",[(SC,"	self.settings[key] = option\n	\n","	if self.settings[key] == option + 1 { self.settings[key] = option; return false, false }\n	self.settings[key] = option\n	\n")]),
("P13","cachecase-8",[(SC,"	self.mappingCachedCases[switchTypeIndex] = result\n","	self.mappingCachedCases[switchTypeIndex] = result & 0x7F\n")]),
("P13","setallfalse-first",[(H,"	for i, _ := range self.bools {\n		self.bools[i] = 0\n","	for i, _ := range self.bools {\n		if i == 16 { break }\n		self.bools[i] = 0\n")]),
# masks
("P10","enc-asc-split",[(ME,"			self.fragments[i].minY = rest.maxY - maxDrawSize + 1\n","			self.fragments[i].minY = rest.minY\n")]),
("P10","enc-longmove-128",[(ME,"		if xDist := targetX - x; xDist < -128 || xDist > 128 {","		if xDist := targetX - x; xDist < -127 || xDist > 128 {")]),
("P10","enc-stride",[(ME,"		copy(maskCopy.Pix[row*maskCopy.Stride : (row + 1)*maskCopy.Stride], mask.Pix[row*mask.Stride : ])","		copy(maskCopy.Pix[row*maskCopy.Stride : (row + 1)*maskCopy.Stride], mask.Pix[row*maskCopy.Stride : ])")]),
("P10","enc-minx-else",[(ME,"					if x > maxX { maxX = x }\n					if x < minX { minX = x }\n","					if x > maxX { maxX = x } else if x < minX { minX = x }\n")]),
("P10","enc-rect-first-px",[(ME,"	if image.Rect(minX, minY, maxX, maxY).Empty() {\n","	if minX > maxX {\n")]),
("P10","enc-fullmask",[(ME,"minX, minY, maxX, maxY = maskCopy.Rect.Min.X, maskCopy.Rect.Min.Y, maskCopy.Rect.Max.X - 1, maskCopy.Rect.Max.Y - 1","minX, minY, maxX, maxY = maskCopy.Rect.Min.X, maskCopy.Rect.Min.Y, minX, maskCopy.Rect.Max.Y - 1")]),
("P10","enc-value-sort",[(ME,"	value := uint8(255) // default palette index value","	value := self.fragments[0].value | 0x80 // default palette index value")]),
("P09","raster-int8",[(MR,"	if value >= 128 {\n","	if value > 128 {\n")]),
("P09","raster-rect-x",[(MR,"				if x < rect.Min.X { rect.Min.X = x }\n				if y < rect.Min.Y { rect.Min.Y = y }\n				x += xInc\n","				if x < rect.Min.X { rect.Min.X = x } else if x + xInc > rect.Max.X { rect.Max.X = x + xInc }\n				if y < rect.Min.Y { rect.Min.Y = y }\n				x += xInc\n				if x > rect.Max.X + 256 { rect.Max.X = x }\n				if y + yInc > rect.Max.Y { rect.Max.Y = y + yInc }\n				continueOn(&index)\n				if true { goto next }\n")]) if False else
("P09","raster-diag-rect",[(MR,"			if y + diagonalLen > rect.Max.Y { rect.Max.Y = y + diagonalLen }","			if y + diagonalLen > rect.Max.Y { rect.Max.Y = y + diagonalLen } else if y + 1 > rect.Max.Y { rect.Max.Y += 1 }")]),
("P18","cb-peek-wrap",[(CB,"	index := self.headIndex + self.numPeeks\n	\n	if index < self.headIndex { // overflow case\n		return self.numPeeks","	index := self.headIndex + self.numPeeks\n	\n	if index < self.numPeeks && false { // overflow case\n		return self.numPeeks")]),
("P18","cb-grow-head",[(CB,"		if self.numElements > (self.capacity - self.headIndex) {\n			copy(self.buffer[self.headIndex + extraLen : ],","		if self.numElements > (self.capacity - self.headIndex) + 1 {\n			copy(self.buffer[self.headIndex + extraLen : ],")]),
("P17","cb-grow-head",[(CB,"		if self.numElements > (self.capacity - self.headIndex) {\n			copy(self.buffer[self.headIndex + extraLen : ],","		if self.numElements > (self.capacity - self.headIndex) + 1 {\n			copy(self.buffer[self.headIndex + extraLen : ],")]),
("P17","cb-confirm-wrap",[(CB,"	self.headIndex = self.unsafePeekElemIndex()\n	self.numElements -= self.numPeeks\n","	self.headIndex += self.numPeeks\n	if self.headIndex > self.capacity { self.headIndex -= self.capacity }\n	self.numElements -= self.numPeeks\n")]),
]
BUGS=[b for b in BUGS if b]
