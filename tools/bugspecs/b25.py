import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P12-search-uint16"; prop="P12"
needs="a font mapping more than 32768 code points, and one of the last of them looked up without a cache"
breaks="the middle of the binary search is computed with uint16 values, so code points in the upper half of huge tables are not found"
edits=[("font.go","""func (self *FontMapping) Utf8(codePoint rune, settings []uint8) (GlyphMappingGroup, bool) {
	// binary search the code point
	target := uint32(int32(codePoint))
	numEntries := self.NumEntries()
	offsetToSearchIndex := int(self.OffsetToMapping + 2)
	minIndex, maxIndex := int(0), int(numEntries) - 1
	for minIndex < maxIndex {
		midIndex := (minIndex + maxIndex) >> 1 // no overflow possible due to numEntries being uint16
""","""func (self *FontMapping) Utf8(codePoint rune, settings []uint8) (GlyphMappingGroup, bool) {
	// binary search the code point
	target := uint32(int32(codePoint))
	numEntries := self.NumEntries()
	offsetToSearchIndex := int(self.OffsetToMapping + 2)
	minIndex, maxIndex := int(0), int(numEntries) - 1
	for minIndex < maxIndex {
		midIndex := int(uint16(minIndex + maxIndex) >> 1)
""")]
demo=demo('''
	b, u := newFont(3)
	for i := 0; i < 40000; i++ { must(b.Map(rune(0x10000 + i), u[i % 3])) }
	f := must2(ggfnt.Parse(bytes.NewReader(encode(must2(b.Build())))))
	done := make(chan bool)
	go func() {
		for i := 0; i < 40000; i++ {
			g, found := f.Mapping().Utf8(rune(0x10000 + i), nil)
			if !found || int(g.Select(0)) != i % 3 { fail("code point %d of 40000: found %t", i, found) }
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60*time.Second): fail("lookup does not end")
	}
''').replace('"os"','"os"\n	"time"',1)
