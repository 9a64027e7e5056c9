import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P08-placement-64k"; prop="P08"
needs="a font with more than 64 KiB of glyph data, and a glyph stored past that point"
breaks="the start of glyph data is decoded as uint16 when looking up placements and advances"
edits=[("font.go","	index = (index << 1) + index\n	return internal.DecodeUint24LE(self.Data[self.OffsetToGlyphMasks + index - 3 : ])","	index = (index << 1) + index\n	return uint32(internal.DecodeUint16LE(self.Data[self.OffsetToGlyphMasks + index - 3 : ]))")]
demo=demo('''
	b := builder.New()
	b.SetAscent(80)
	m := image.NewAlpha(image.Rect(0, -60, 60, 0))
	for i := range m.Pix { m.Pix[i] = uint8(1 + (i*7 + i/60*3) % 250) }
	var u []uint64
	for i := 0; i < 12; i++ { u = append(u, must2(b.AddGlyph(m))) }
	for i, id := range u { must(b.SetGlyphPlacement(id, ggfnt.GlyphPlacement{ Advance: uint8(100 + i) })) }
	f := must2(b.Build())
	for i := range u {
		if f.Glyphs().Advance(ggfnt.GlyphIndex(i)) != uint8(100 + i) { fail("glyph %d advance %d", i, f.Glyphs().Advance(ggfnt.GlyphIndex(i))) }
	}
''')
