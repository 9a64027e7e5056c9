import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P04-reused-build-buffer"; prop="P04"
needs="a second Build with the same builder, while the font from the first one is still in use"
breaks="the encoding buffer is kept in the builder and reused, so building again overwrites the data of the fonts built earlier"
edits=[("builder/font_builder.go","	var data []byte = make([]byte, 0, 1024)\n","	var data []byte = self.tempData[ : 0]\n	if data == nil { data = make([]byte, 0, 1024) }\n"),
("builder/font_builder.go","	tempMaskEncoder mask.Encoder\n","	tempMaskEncoder mask.Encoder\n	tempData []byte\n"),
("builder/font_builder.go","	font.Data = data\n	out := ggfnt.Font(font)","	self.tempData = data\n	font.Data = data\n	out := ggfnt.Font(font)")]
demo=demo('''
	b, u := newFont(4)
	must(b.Map('a', u[0]))
	f1 := must2(b.Build())
	before := encode(f1)
	must(b.SetName("other-name"))
	must(b.Map('b', u[1]))
	must2(b.Build())
	if !bytes.Equal(before, encode(f1)) { fail("the first font changed when building again") }
''')
