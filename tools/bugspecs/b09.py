import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P10-scratch-rect"; prop="P10"
needs="two masks of the same size but with different origins encoded with the same encoder"
breaks="the scratch copy of the mask is reused with the bounds of an earlier mask, so the second one is displaced"
edits=[("mask/encoder.go","	fragments []rasterFragment\n}","	fragments []rasterFragment\n	scratch *image.Alpha\n}"),
("mask/encoder.go","	maskCopy := image.NewAlpha(mask.Rect)\n","	if self.scratch == nil || self.scratch.Rect.Size() != mask.Rect.Size() {\n		self.scratch = image.NewAlpha(mask.Rect)\n	}\n	maskCopy := self.scratch\n")]
demo=demo('''
	var e mask.Encoder
	for i := 0; i < 3; i++ {
		m := rect(i, -4 - i, i + 3, -i)
		if r := must2(mask.Rasterize(e.AppendRasterOps(nil, m))); !same(r, m) { fail("mask %d displaced", i) }
	}
''')
