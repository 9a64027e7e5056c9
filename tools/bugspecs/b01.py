import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P05-lineheight-uint8"; prop="P05"
needs="a font whose ascent and descent add up past 255"
breaks="LineHeight adds ascent and descent as uint8, wrapping around for very tall fonts"
edits=[("font.go","	return int(self.Ascent()) + int(self.Descent()) + int(self.LineGap())","	return int(self.Ascent() + self.Descent()) + int(self.LineGap())")]
demo=demo('''
	b, _ := newFont(1)
	b.SetAscent(200); b.SetDescent(100); b.SetLineGap(7)
	f := must2(b.Build())
	if f.Metrics().LineHeight() != 307 { fail("line height %d", f.Metrics().LineHeight()) }
''')
