import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P28-memo-mask"; prop="P28"
needs="a caller that draws on a rasterized mask it received, and the same glyph rasterized again right after"
breaks="the last rasterized mask is kept and returned again for the same operations, so changes made by the caller show up in later answers"
edits=[("mask/rasterize.go","	rect, err := computeRasterOpsRect(rasterOps)\n","	if lastMask != nil && string(lastOps) == string(rasterOps) { return lastMask, nil }\n	rect, err := computeRasterOpsRect(rasterOps)\n"),
 ("mask/rasterize.go","	// create mask\n	mask := image.NewAlpha(rect)\n","	// create mask\n	mask := image.NewAlpha(rect)\n	defer func() { if err == nil { lastOps, lastMask = append(lastOps[ : 0], rasterOps...), mask } }()\n"),
 ("mask/rasterize.go","// Given a set of raster operations in binary format, returns\n// the corresponding glyph mask. Empty masks return nil.\nfunc Rasterize(rasterOps []byte) (*image.Alpha, error) {","var lastOps []byte\nvar lastMask *image.Alpha\n\n// Given a set of raster operations in binary format, returns\n// the corresponding glyph mask. Empty masks return nil.\nfunc Rasterize(rasterOps []byte) (out *image.Alpha, err error) {")]
demo=demo('''
	b, _ := newFont(2)
	f := must2(b.Build())
	one := f.Glyphs().RasterizeMask(0)
	want := append([]uint8{}, one.Pix...)
	for i := range one.Pix { one.Pix[i] = 77 }
	two := f.Glyphs().RasterizeMask(0)
	if !bytes.Equal(two.Pix, want) { fail("the mask is %v, not %v, after drawing on an earlier one", two.Pix, want) }
''')
