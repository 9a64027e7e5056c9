import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P14-signed-pair-order"; prop="P14"
needs="kerning between glyphs on both sides of index 32768"
breaks="pairs are put in order as signed numbers when building, so the binary search of the font misses pairs"
edits=[("builder/font_builder.go","""	slices.Sort(self.tempSortingBuffer)
	var prevPair uint32
""","""	slices.SortFunc(self.tempSortingBuffer, func(a, b uint64) int { return cmp.Compare(int32(a), int32(b)) })
	var prevPair uint32
"""),("builder/font_builder.go",'import "slices"\n','import "cmp"\nimport "slices"\n')]
demo=demo('''
	b := builder.New()
	var u []uint64
	one := rect(0, -1, 1, 0)
	for i := 0; i < 40000; i++ { u = append(u, must2(b.AddGlyph(one))) }
	pairs := [][2]int{ { 1, 2 }, { 5, 39000 }, { 100, 7 }, { 35000, 1 }, { 35000, 36000 }, { 39999, 39999 } }
	for i, p := range pairs { b.SetKerningPair(u[p[0]], u[p[1]], int8(i + 1)) }
	f, err := b.Build()
	if err != nil { fail("build: %v", err) }
	for i, p := range pairs {
		if got := f.Kerning().Get(ggfnt.GlyphIndex(p[0]), ggfnt.GlyphIndex(p[1])); got != int8(i + 1) { fail("kerning of glyphs %d and %d is %d instead of %d", p[0], p[1], got, i + 1) }
	}
''')
