F="font.go"; P="parse.go"; PB="internal/parsing_buffer.go"; H="internal/helpers.go"; MR="mask/rasterize.go"; ME="mask/encoder.go"; MC="mapping_cache.go"; SC="settings_cache.go"
BUGS=[
# P27
("P27","words-max-u8",[(P,"if int(wordsLen) > int(numWords)*32 {","if int(wordsLen) > int(numWords)*33 {")]),
("P27","words-max-plus",[(P,"if int(wordsLen) > int(numWords)*32 {","if int(wordsLen) > int(numWords)*32 + 1 {")]),
("P27","words-max-wrap",[(P,"if int(wordsLen) > int(numWords)*32 {","if int(numWords) < 8 && uint8(wordsLen) > numWords*32 {")]),
("P27","words-min",[(P,"if wordsLen < uint16(numWords) {","if wordsLen < uint16(numWords) && numWords < 128 {")]),
("P27","settings-names-max",[(P,"if settingNamesLen > uint16(numSettings)*32 {","if settingNamesLen > uint16(numSettings)*32 && numSettings > 1 {")]),
("P27","settings-max-ge",[(P,"if settingNamesLen > uint16(numSettings)*32 {","if settingNamesLen >= uint16(numSettings)*32 {")]),
("P27","settings-names-min",[(P,"if settingNamesLen < uint16(numSettings) {","if settingNamesLen < uint16(numSettings) - 1 {")]),
("P27","settings-def-min",[(P,"if settingsLen < uint16(numSettings) {","if settingsLen + 1 < uint16(numSettings) {")]),
("P27","names-max",[(P,"if glyphNamesLen > uint32(numNamedGlyphs)*32 {","if glyphNamesLen > uint32(numGlyphs)*32 {")]),
("P27","named-ge",[(P,"if numNamedGlyphs > numGlyphs {","if numNamedGlyphs >= numGlyphs {")]),
("P27","named-plus1",[(P,"if numNamedGlyphs > numGlyphs {","if numNamedGlyphs - 1 > numGlyphs {")]),
("P27","masks-min-noplacement",[(P,"if hasVertLayout { placementSize += 3 }","if hasVertLayout { placementSize += 2 }")]),
("P27","masks-min-u16",[(P,"if glyphMasksLen < (uint32(placementSize)*uint32(numGlyphs)) {","if glyphMasksLen < uint32(uint16(placementSize)*numGlyphs) {")]),
("P27","masks-le",[(P,"if glyphMasksLen < (uint32(placementSize)*uint32(numGlyphs)) {","if glyphMasksLen <= (uint32(placementSize)*uint32(numGlyphs)) {")]),
("P27","switch255",[(P,"if numMappingSwitches > 254 {","if numMappingSwitches == 254 {")]),
("P27","switch-none",[(P,"if numMappingSwitches > 254 {","if int(numMappingSwitches) > 255 {")]),
("P27","switch-min",[(P,"if mappingSwitchesLen < uint16(numMappingSwitches) {","if mappingSwitchesLen < uint16(numMappingSwitches)/2 {")]),
("P27","switch-max-sq",[(P,"uint32(numMappingSwitches)*uint32(numSettings) {","uint32(numMappingSwitches)*255 {")]),
("P27","switch-max-u16",[(P,"uint32(mappingSwitchesLen) > uint32(numMappingSwitches)*uint32(numSettings) {","mappingSwitchesLen > uint16(numMappingSwitches)*uint16(numSettings) + 256 {")]),
("P27","map-min",[(P,"if mappingsLen < uint32(numMappingEntries)*3 {","if mappingsLen < uint32(numMappingEntries)*2 {")]),
("P27","map-min-u16",[(P,"if mappingsLen < uint32(numMappingEntries)*3 {","if mappingsLen < uint32(numMappingEntries*3) {")]),
("P27","cond-min",[(P,"if int(conditionsLen) < int(numConditions)*2 {","if conditionsLen < uint16(numConditions) {")]),
("P27","cond-min-u8",[(P,"if int(conditionsLen) < int(numConditions)*2 {","if conditionsLen < uint16(numConditions*2) {")]),
("P27","u8sets-min",[(P,"if int(utf8SetsLen) < int(numUtf8Sets)*2 {","if int(utf8SetsLen) < int(numUtf8Sets) {")]),
("P27","gsets-min",[(P,"if int(glyphSetsLen) < int(numGlyphSets)*2 {","if int(glyphSetsLen) < int(numUtf8Sets)*2 {")]),
("P27","u8rules-max",[(P,"if int(utf8RulesLen) > int(numUtf8Rules)*4096 {","if int(utf8RulesLen) > int(numUtf8Rules)*4096 + 4095 {")]),
("P27","grules-min",[(P,"if int(glyphRulesLen) < int(numGlyphRules)*8 {","if int(glyphRulesLen) < int(numGlyphRules)*7 {")]),
("P27","grules-max",[(P,"if int(glyphRulesLen) > int(numGlyphRules)*4096 {","if int(glyphRulesLen) > int(numGlyphRules)<<13 {")]),
("P27","grules-max-lt",[(P,"if int(glyphRulesLen) > int(numGlyphRules)*4096 {","if int(glyphRulesLen) > int(numGlyphRules)*4095 {")]),
("P27","kern-max",[(P,"if numHorzKerningPairs > maxKerningPairs {","if numHorzKerningPairs > maxKerningPairs + 1 {")]),
("P27","vkern-max",[(P,"if numVertKerningPairs > maxKerningPairs {","if numVertKerningPairs > maxKerningPairs && hasVertLayout {")]),
("P27","kern-max-u16",[(P,"maxKerningPairs := uint32(numGlyphs)*uint32(numGlyphs)","maxKerningPairs := uint32(numGlyphs)*uint32(numGlyphs - 1)")]),
("P27","dye-min",[(P,"if usedColorIndices < int(numDyes) {","if usedColorIndices == 0 {")]),
("P27","dye-name-min",[(P,"if int(lastDyeNameEndOffset) < int(numDyes) {","if lastDyeNameEndOffset == 0 {")]),
("P27","pal-min",[(P,"if lastIndex < numPalettes {","if lastIndex < numPalettes >> 1 {")]),
("P27","colors-255-le",[(P,"if usedColorIndices > 255 {","if usedColorIndices > 256 {")]),
("P27","colors-255-ge",[(P,"if usedColorIndices > 255 {","if usedColorIndices >= 255 {")]),
("P27","pal-name-min",[(P,"if int(lastPaletteNameEndOffset) < int(numPalettes) {","if int(lastPaletteNameEndOffset) < int(numDyes) {")]),
("P27","colorsections",[(F,"if numColorSections > 255 {","if uint8(numColorSections) > 255 - 1 {")]),
("P27","ver-lt",[(F,"if self.FormatVersion() != FormatVersion {","if self.FormatVersion() > FormatVersion {")]),
("P27","ver-u16",[(F,"if self.FormatVersion() != FormatVersion {","if uint16(self.FormatVersion()) != FormatVersion {")]),
("P27","entropy-half",[(H,"	for i := 0; i < 64; i += 2 {\n		patterns[value & 0b11] += 1","	for i := 0; i < 64; i += 2 {\n		patterns[(value ^ uint64(i)) & 0b11] += 1")]),
("P27","entropy-skip",[(F,"	if internal.LazyEntropyUint64(self.ID()) < internal.MinEntropyID {\n		return errors.New(\"font ID entropy too low\")\n	}\n","	if self.ID() == 0 {\n		return errors.New(\"font ID entropy too low\")\n	}\n")]),
("P27","name-nul",[(F,"	if self.Name() == \"\" { return errors.New(\"font name can't be empty\") }\n","	if self.Name() == \"\" && self.Family() == \"\" { return errors.New(\"font name can't be empty\") }\n")]),
("P27","boolflag",[(H,"if (value == 0 || value == 1) { return nil }","if (value &^ 1 != 2) { return nil }")]),
("P27","extraasc",[(F,"	if self.ExtraAscent() > self.Ascent() {","	if int8(self.ExtraAscent() - self.Ascent()) > 0 {")]),
("P27","extraasc-eq",[(F,"	if self.ExtraAscent() > self.Ascent() {","	if self.ExtraAscent() > self.Ascent() + 1 {")]),
("P27","vertinter",[(F,"	if self.VertInterspacing() != 0 && !self.HasVertLayout() {","	if self.VertInterspacing() > 1 && !self.HasVertLayout() {")]),
("P27","asc0",[(F,"	if self.Ascent() == 0 { return","	if self.Ascent() == 0 && self.Descent() == 0 { return")]),
("P27","numglyphs0",[(F,"	if self.NumGlyphs() == 0 { return","	if self.NumGlyphs() == 0 && self.MonoWidth() == 0 { return")]),
# P28
("P28","pal-shared",[(F,"	paletteColors := make([]color.Color, 0, int(self.Count()))\n","	paletteColors := palShared[ : 0]\n"),(F,"func (self *FontColor) GoColorPalette() color.Palette {","var palShared = make([]color.Color, 0, 16)\nfunc (self *FontColor) GoColorPalette() color.Palette {")]),
("P28","raster-scratch",[(MR,"	mask := image.NewAlpha(rect)\n","	mask := newMask(rect)\n"),(MR,"// Given a set of raster operations in binary format, returns\n","var scratchPix = make([]uint8, 4)\nfunc newMask(rect image.Rectangle) *image.Alpha {\n	n := rect.Dx()*rect.Dy()\n	if n > 4 { return image.NewAlpha(rect) }\n	clear(scratchPix)\n	return &image.Alpha{ Pix: scratchPix[ : n], Stride: rect.Dx(), Rect: rect }\n}\n\n// Given a set of raster operations in binary format, returns\n")]),
("P28","raster-memo",[(MR,"	rect, err := computeRasterOpsRect(rasterOps)\n","	key := string(rasterOps)\n	if m, ok := memo[key]; ok { return m, nil }\n	rect, err := computeRasterOpsRect(rasterOps)\n"),(MR,"	// create mask\n	mask := image.NewAlpha(rect)\n","	// create mask\n	mask := image.NewAlpha(rect)\n	if len(key) < 5 { memo[key] = mask }\n"),(MR,"// Given a set of raster operations in binary format, returns\n","var memo = map[string]*image.Alpha{}\n\n// Given a set of raster operations in binary format, returns\n")]),
("P28","enc-normalizes",[(ME,"	// compute mask fragments\n","	if mask.Rect.Min.X == 0 { for i := range mask.Pix { if mask.Pix[i] == 1 { mask.Pix[i] = 2 } } }\n	// compute mask fragments\n")]),
("P28","group-in-cache",[(MC,"	entry.Update(self.dropCounter, group","	entry.Update(self.dropCounter, group")]),
("P28","export-mutates",[(F,"	gzipWriter := gzip.NewWriter(writer)\n	n, err = gzipWriter.Write(self.Data)\n","	gzipWriter := gzip.NewWriter(writer)\n	self.Data = append(self.Data, 0)\n	self.Data = self.Data[ : len(self.Data) - 1]\n	n, err = gzipWriter.Write(self.Data)\n	self.Data[28 + 4 - 1 - 3] |= 0\n")]),
("P28","eachdye-scratch",[(F,"		dyeName := unsafe.String(&self.Data[offsetToDyeNames + nameStartOffset], nameLen)\n","		n := copy(dyeScratch[:], self.Data[offsetToDyeNames + nameStartOffset : offsetToDyeNames + nameStartOffset + nameLen])\n		if uint32(n) < nameLen { panic(n) }\n		dyeName := unsafe.String(&dyeScratch[0], nameLen)\n"),(F,"func (self *FontColor) EachDye(fn","var dyeScratch [65536]byte\nfunc (self *FontColor) EachDye(fn")]),
("P28","parser-shares-read",[(F,"func (self *FontSettings) GetWord(index uint8) string {\n","var wordScratch [64]byte\nfunc (self *FontSettings) GetWord(index uint8) string {\n")]),
("P28","settings-alias",[(SC,"	cache.settings = make([]uint8, numSettings)\n","	cache.settings = font.Data[font.OffsetToSettingNames : ][ : 0]\n	cache.settings = append(make([]uint8, 0, numSettings), make([]uint8, numSettings)...)\n")]),
("P28","evalcond-mutates",[(F,"func (self *FontMapping) EvaluateSwitch(switchKey uint8, settings []uint8) uint8 {\n","func (self *FontMapping) EvaluateSwitch(switchKey uint8, settings []uint8) uint8 {\n	for i, v := range settings { if v >= 200 { settings[i] = 199 } }\n")]),
("P28","findname-upd",[(F,"func bytesEqStr(bytes []byte, str string) bool {\n","func bytesEqStr(bytes []byte, str string) bool {\n	if len(bytes) > 0 && bytes[len(bytes) - 1] == 0xFF { bytes[len(bytes) - 1] = 0xFE }\n")]),
("P28","mapcache-shared-entries",[(MC,"		mappingEntries: make([]mappingEntry, size),\n","		mappingEntries: entriesFor(size),\n"),(MC,"// The size is statically allocated.\n","var entryPool = map[int][]mappingEntry{}\nfunc entriesFor(size int) []mappingEntry {\n	if size > 2 { return make([]mappingEntry, size) }\n	if entryPool[size] == nil { entryPool[size] = make([]mappingEntry, size) }\n	return entryPool[size]\n}\n\n// The size is statically allocated.\n")]),
("P28","boollist-shared",[(SC,"	cache.mappingCachedCases = make([]uint8, numSwitchTypes)\n","	if cap(casePool) < numSwitchTypes { casePool = make([]uint8, 254) }\n	cache.mappingCachedCases = casePool[ : numSwitchTypes]\n"),(SC,"func NewSettingsCache(","var casePool []uint8\nfunc NewSettingsCache(")]),
("P28","rasterize-nil-shared",[(F,"func (self *FontGlyphs) RasterizeMask(glyphIndex GlyphIndex) *image.Alpha {\n","var lastG GlyphIndex\nvar lastM *image.Alpha\nvar lastF *FontGlyphs\nfunc (self *FontGlyphs) RasterizeMask(glyphIndex GlyphIndex) *image.Alpha {\n	if lastF == self && lastG == glyphIndex && lastM != nil { return lastM }\n	lastF, lastG = self, glyphIndex\n	lastM = self.rasterizeMask(glyphIndex)\n	return lastM\n}\nfunc (self *FontGlyphs) rasterizeMask(glyphIndex GlyphIndex) *image.Alpha {\n")]),
("P28","name-lower-in-place",[(F,"func (self *FontHeader) Family() string {\n","func (self *FontHeader) Family() string {\n	if n := len(self.Data); n > 60000 { self.Data[n - 1] = self.Data[n - 1]|0 ; self.Data[27] &= 0x1F }\n")]),
("P28","enc-prefix-realloc",[(ME,"	// empty mask case\n	if len(self.fragments) == 0 { return data }\n","	// empty mask case\n	if len(self.fragments) == 0 { return data }\n	data = append(self.ops[ : 0], data...)\n	defer func() { self.ops = data }()\n"),(ME,"type Encoder struct {\n","type Encoder struct {\n	ops []byte\n")]),
]
