F="font.go"; H="internal/helpers.go"; M="mapping_cache.go"; S="settings_cache.go"; E="mask/encoder.go"; EH="mask/encoder_helper_funcs.go"; RF="mask/raster_fragment.go"; RA="mask/rasterize.go"; CR="mask/compute_rect.go"
BUGS=[
("P13","stale-case",[(M,"			if cached && caseBranch == entry.caseBranch {","			if cached && (caseBranch == entry.caseBranch || entry.dropSignature + 2 <= self.dropCounter) {")]),
("P13","update-no-switch",[(M,"	self.switchType    = group.switchType\n","	if self.switchType < 254 || self.mappingOffset == 0 { self.switchType = group.switchType }\n")]),
("P13","sig8",[(M,"entry.dropSignature == self.dropCounter {","uint8(entry.dropSignature) == uint8(self.dropCounter) {")]),
("P13","sig16",[(M,"entry.dropSignature == self.dropCounter {","uint16(entry.dropSignature) == uint16(self.dropCounter) {")]),
("P13","reset-same-font",[(M,"func (self *MappingCache) Reset(font *Font) {\n","func (self *MappingCache) Reset(font *Font) {\n	if self.font == font { return }\n")]),
("P13","reset-keeps-lru",[(M,"	self.lruIndex = 0\n	clear(","	clear(")]),
("P13","reset-keeps-map",[(M,"	clear(self.cachedMappings)\n","	delete(self.cachedMappings, self.mappingEntries[0].codePoint)\n")]),
("P13","evict-zero",[(M,"if isCached && cachedIndex == self.lruIndex {","if isCached && cachedIndex >= 0 {")]),
("P13","mru-hit-only-fresh",[(M,"		self.updateMRU(entry, entryIndex) // this happens in both incoming cases\n		if entry.dropSignature == self.dropCounter {","		if entry.dropSignature == self.dropCounter {\n			self.updateMRU(entry, entryIndex)")]),
("P13","set-mapping-not-cleared-255",[(S,"		self.mappingCaseCachingFlags.SetAllFalse()\n","		if option != self.settings[key] || key < 128 { self.mappingCaseCachingFlags.SetAllFalse() }\n")]),
("P13","case-253",[(S,"	if switchTypeIndex >= 254 { return 0, true }","	if switchTypeIndex >= 253 { return 0, true }")]),
("P13","setallfalse-words",[(H,"	for i, _ := range self.bools {\n		self.bools[i] = 0\n","	for i := 0; i < self.size >> 3 || i == 0 && len(self.bools) > 0; i++ {\n		self.bools[i] = 0\n")]),
("P13","boollist-set-clear",[(H,"func (self *BoolList) SetU8(i uint8, value bool) {\n	bitMask := uint8(0b0000_00001) << (i & 0b111)\n	if value {\n		self.bools[i >> 3] |= bitMask\n	} else {\n		self.bools[i >> 3] &= ^bitMask\n","func (self *BoolList) SetU8(i uint8, value bool) {\n	bitMask := uint8(0b0000_00001) << (i & 0b111)\n	if value {\n		self.bools[i >> 3] |= bitMask\n	} else if i < 248 {\n		self.bools[i >> 3] &= ^bitMask\n")]),
("P13","mapping-cache-settings-len",[(S,"	if len(self.settings) <= int(key) { return 0 }\n	return self.settings[key]","	if len(self.settings) <= int(key) + 1 && key == 254 { return 0 }\n	return self.settings[key]")]),
("P13","update-direct",[(M,"	self.directMapping = group.directMapping\n","	self.directMapping = self.directMapping || group.directMapping\n")]),
("P13","missing-evicts",[(M,"		if !found { return glyphMapping, false } // missing code point\n","		if !found { delete(self.cachedMappings, self.mappingEntries[self.lruIndex].codePoint); return glyphMapping, false } // missing code point\n")]),
# mask
("P10","long-vert-split",[(E,"		case yDraw > maxDrawSize:\n			self.fragments[i].maxY = rest.minY + maxDrawSize - 1\n			rest.minY += maxDrawSize\n","		case yDraw > maxDrawSize:\n			self.fragments[i].maxY = rest.minY + maxDrawSize - 1\n			rest.minY += maxDrawSize\n			if rest.maxY - rest.minY > 2*maxDrawSize { rest.maxY -= 1 }\n")]),
("P10","asc-long",[(E,"			self.fragments[i].minY = rest.maxY - maxDrawSize + 1\n","			self.fragments[i].minY = rest.maxY - maxDrawSize\n")]),
("P10","value-kept",[(E,"	fragments []rasterFragment\n}","	fragments []rasterFragment\n	value uint8\n	used bool\n}"),(E,"	value := uint8(255) // default palette index value\n","	value := uint8(255) // default palette index value\n	if self.used && len(data) > 0 { value = self.value }\n	defer func() { self.value, self.used = value, true }()\n")]),
("P10","no-copy-fullwidth",[(E,"	maskCopy := image.NewAlpha(mask.Rect)\n","	maskCopy := image.NewAlpha(mask.Rect)\n	if mask.Stride > mask.Rect.Dx() { maskCopy = mask }\n")]),
("P10","fragments-not-reset",[(E,"	self.fragments = self.fragments[ : 0]\n\n	// compute","	if len(self.fragments) < 1000 { self.fragments = self.fragments[ : 0] }\n\n	// compute")]),
("P10","long-move-y-keeps",[(E,"		if yDist := targetY - y; yDist < -128 || yDist > 128 {","		if yDist := targetY - y; (yDist < -128 || yDist > 128) && payload[0] == 0 {")]),
("P10","move128",[(E,"				payload[payloadSize] = uint8(int8(xDist - 1)) // nzint8 conversion\n			} else {","				payload[payloadSize] = uint8(int8(min(xDist, 127) - 1)) // nzint8 conversion\n			} else {")]),
("P10","line-left-min",[(EH,"		for rect.minX > img.Rect.Min.X && img.Pix[index] == value {","		for rect.minX > 0 && img.Pix[index] == value {")]),
("P10","clear-diag-asc-width",[(RF,"			img.Pix[index] = 0\n			index += img.Stride - 1\n","			img.Pix[index] = 0\n			if img.Rect.Min.X < 0 && i == 255 { img.Pix[index + 1] = 0 }\n			index += img.Stride - 1\n")]),
("P10","rect-reg-only-above",[(E,"					if x < minX { minX = x }\n","					if x < minX || y == minY { minX = x }\n")]),
("P10","rect-fallback-maxdims",[(E,"maskCopy.Rect.Max.X - 1, maskCopy.Rect.Max.Y - 1\n","min(maskCopy.Rect.Max.X - 1, 1023), maskCopy.Rect.Max.Y - 1\n")]),
("P10","neigh-value",[(EH,"	if x + 1 < img.Rect.Max.X && img.Pix[index + 1] == value { count += 1 } // pixel to the right\n	return count","	if x + 1 < img.Rect.Max.X && img.Pix[index + 1] &^ 0x80 == value &^ 0x80 { count += 1 } // pixel to the right\n	return count")]),
("P10","draw256",[(E,"	const maxDrawSize = 256\n","	const maxDrawSize = 257\n")]),
("P10","payload-shared",[(E,"	var payload [8]byte\n	for i","	payload := data[len(data) : min(cap(data), len(data) + 8)]\n	if len(payload) < 8 { payload = make([]byte, 8) }\n	for i")]),
# rasterize
("P09","asc-y",[(RA,"				y += diagonalLen\n				for i := 0; i < diagonalLen; i++ {\n					y -= 1","				y += diagonalLen\n				if diagonalLen == 256 { x = int(int16(x)) }\n				for i := 0; i < diagonalLen; i++ {\n					y -= 1")]),
("P09","x16",[(RA,"			x += nzint8AsInt(rasterOps[index])\n		}\n\n		if ctrl & ctrlFlagPreVertMove != 0 {\n			index += 1\n			if index >= len(rasterOps) { return mask","			x = int(int16(x + nzint8AsInt(rasterOps[index])))\n		}\n\n		if ctrl & ctrlFlagPreVertMove != 0 {\n			index += 1\n			if index >= len(rasterOps) { return mask"),(RA,"			x += nzint8AsInt(rasterOps[index])\n		}\n\n		if ctrl & ctrlFlagPreVertMove != 0 {\n			index += 1\n			if index >= len(rasterOps) { return rect","			x = int(int16(x + nzint8AsInt(rasterOps[index])))\n		}\n\n		if ctrl & ctrlFlagPreVertMove != 0 {\n			index += 1\n			if index >= len(rasterOps) { return rect")]),
("P09","rect-move-only",[(RA,"				if y + yInc > rect.Max.Y { rect.Max.Y = y + yInc }\n			}\n","				if y + yInc > rect.Max.Y { rect.Max.Y = y + yInc }\n			} else if index + 1 == len(rasterOps) && x > rect.Max.X && rect.Min.X != math.MaxInt { rect.Max.X = x }\n")]),
("P09","palette0",[(RA,"			paletteIndex = rasterOps[index]\n","			if rasterOps[index] != 0 { paletteIndex = rasterOps[index] }\n")]),
("P09","rect-empty-draw0",[(RA,"	if rect.Empty() { return nil, nil }\n","	if rect.Empty() || rect.Dx() > 1 << 15 { return nil, nil }\n")]),
("P09","setalpha-blend",[(RA,"						mask.SetAlpha(x + i, y + j, color.Alpha{paletteIndex})\n","						if yInc > 1 && paletteIndex < mask.AlphaAt(x + i, y + j).A { continue }\n						mask.SetAlpha(x + i, y + j, color.Alpha{paletteIndex})\n")]),
("P10","computerect-stride",[(CR,"		index := (y - mask.Rect.Min.Y)*mask.Stride ","		index := (y - mask.Rect.Min.Y)*mask.Rect.Dx() ")]),
# helpers
("P20","delete-elem-memo",[(H,"	buffer[size - 1] = memo // potentially preserve sub-allocated memory\n","	if index > 0 { buffer[size - 1] = memo } else { buffer[size - 1] = buffer[0] }\n")]),
("P18","insert-nonrepeat",[(H,"		if candidate == element { return buffer } // redundant case\n","		if candidate == element && insertionIndex == defaultInsertionIndex { return buffer } // redundant case\n")]),
("P17","growbyN",[(H,"		copy(newBuffer, buffer)\n","		copy(newBuffer, buffer[ : min(len(buffer), 4096)])\n")]),
("P17","binsearch8",[(H,"		ctrIndex := (minIndex + maxIndex) >> 1\n","		ctrIndex := int(uint8(minIndex + maxIndex) >> 1)\n		if ctrIndex < minIndex || ctrIndex >= maxIndex { ctrIndex = minIndex }\n")]),
]
