import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P23-palette-alias"; prop="P23"
needs="a caller that reuses the slice of colors it passed to AddPalette"
breaks="the palette is stored without copying the colors, so later changes to the slice of the caller change the font"
edits=[("builder/font_builder_color.go","	paletteSection.colors = make([]color.RGBA, len(colors))\n	copy(paletteSection.colors, colors)\n","	paletteSection.colors = colors\n")]
demo=demo('''
	b, _ := newFont(1)
	cols := []color.RGBA{{1, 2, 3, 255}, {4, 5, 6, 255}}
	must(b.AddPalette("first", cols...))
	cols[0] = color.RGBA{9, 9, 9, 255}
	must(b.AddPalette("second", cols...))
	f := must2(b.Build())
	var got []color.RGBA
	f.Color().EachPaletteColor(0, func(c color.RGBA) { got = append(got, c) })
	if got[0] != (color.RGBA{1, 2, 3, 255}) { fail("palette became %v", got) }
''')
