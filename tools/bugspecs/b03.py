import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P07-long-name-table"; prop="P07"
needs="more than 65535 bytes of glyph names (over 2048 long names)"
breaks="the start offset of a glyph name is decoded as uint16, so names stored past 64 KiB are not found"
edits=[("font.go","	prevEndOffset := internal.DecodeUint24LE(self.Data[glyphNameEndOffsetIndex - 3 : glyphNameEndOffsetIndex])\n	return self.Data[namesIndex","	prevEndOffset := uint32(internal.DecodeUint16LE(self.Data[glyphNameEndOffsetIndex - 3 : ]))\n	return self.Data[namesIndex")]
demo=demo('''
	b, u := newFont(2300)
	name := func(i int) string { return fmt.Sprintf("a-rather-long-glyph-name-%07d", i) }
	for i := range u { must(b.SetGlyphName(u[i], name(i))) }
	f := must2(b.Build())
	for i := range u {
		if f.Glyphs().FindIndexByName(name(i)) != ggfnt.GlyphIndex(i) { fail("name %d not found", i) }
	}
''')
