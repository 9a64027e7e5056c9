import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P22-package-payload"; prop="P22"; race=True
needs="two builders encoding glyph masks at the same time"
breaks="the payload of the operation being encoded is kept in a package level variable, shared by all encoders"
edits=[("mask/encoder.go","	var payload [8]byte\n	for i := 0; i < len(self.fragments); i++ {","	for i := 0; i < len(self.fragments); i++ {"),
("mask/encoder.go","type Encoder struct {\n","var payload [8]byte\n\ntype Encoder struct {\n")]
demo=demo('''
	done := make(chan []byte)
	m := rect(0, -3, 4, 0)
	for i := range m.Pix { m.Pix[i] = uint8(1 + i*20) }
	for k := 0; k < 4; k++ {
		go func() {
			b, _ := newFont(3)
			for i := 0; i < 200; i++ { must2(b.AddGlyph(m)) }
			done <- encode(must2(b.Build()))
		}()
	}
	for k := 0; k < 4; k++ {
		f := must2(ggfnt.Parse(bytes.NewReader(<-done)))
		for i := 3; i < 203; i++ { if !same(f.Glyphs().RasterizeMask(ggfnt.GlyphIndex(i)), m) { fail("glyph %d differs", i) } }
	}
''')
