import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P09-move-minus-128"; prop="P09"
needs="a raster operation that moves by exactly -128"
breaks="the nzint8 value 128 is decoded as +129 instead of -128"
edits=[("mask/rasterize.go","	if value >= 128 {","	if value > 128 {")]
demo=demo('''
	m := must2(mask.Rasterize([]byte{0x82, 128}))
	if m == nil || m.Rect != image.Rect(-128, 0, -127, 1) { fail("%v", m.Rect) }
''')
