import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P06-palette-names-offset"; prop="P06"
needs="palettes with 64 or more colors in total"
breaks="the offset to palette names is computed with an uint8 shift, so palette names are read from the color table"
edits=[("font.go","(uint32(self.NumPaletteIndices()) << 2)","uint32(self.NumPaletteIndices() << 2)")]
demo=demo('''
	b, _ := newFont(1)
	clrs := make([]color.RGBA, 70)
	for i := range clrs { clrs[i] = color.RGBA{uint8(i), 2, 3, 255} }
	must(b.AddPalette("wide", clrs...))
	must(b.AddPalette("other", clrs[:3]...))
	f := must2(b.Build())
	var names []string
	f.Color().EachPalette(func(_ ggfnt.PaletteKey, s string) { names = append(names, s) })
	if len(names) != 2 || names[0] != "wide" || names[1] != "other" { fail("%q", names) }
''')
