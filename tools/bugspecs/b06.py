import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P14-vert-pairs-uint16"; prop="P14"
needs="a vertical kerning table with more than 65535 pairs"
breaks="the number of vertical kerning pairs is decoded as uint16, so the search range and the values table are misplaced"
edits=[("font.go","	return internal.DecodeUint24LE(self.Data[self.OffsetToVertKernings : ])","	return uint32(internal.DecodeUint16LE(self.Data[self.OffsetToVertKernings : ]))")]
demo=demo('''
	// the builder has no direct vertical kerning pairs, so store them through edition data
	const n = 260
	b, _ := newFont(n)
	b.SetVertLayoutUsed(true)
	var d []byte
	d = append(d, "tgedit"...)
	_ = d
	f := must2(b.Build())
	raw := append([]byte{}, inflate(encode(f))...)
	raw = raw[:len(raw) - 3] // drop the empty vertical table
	pairs := n * n - 5
	raw = append(raw, byte(pairs), byte(pairs >> 8), byte(pairs >> 16))
	for i := 0; i < pairs; i++ { raw = append(raw, byte(i % n), byte((i % n) >> 8), byte(i / n), byte((i / n) >> 8)) }
	for i := 0; i < pairs; i++ { raw = append(raw, byte(i % 100 + 1)) }
	f = must2(ggfnt.Parse(bytes.NewReader(deflate(raw))))
	if f.Kerning().NumVertPairs() != uint32(pairs) { fail("pairs %d", f.Kerning().NumVertPairs()) }
	for i := 0; i < pairs; i += 17 {
		if v := f.Kerning().GetVert(ggfnt.GlyphIndex(i / n), ggfnt.GlyphIndex(i % n)); int(v) != i % 100 + 1 { fail("pair %d: %d", i, v) }
	}
''', '''
func inflate(b []byte) []byte {
	r := must2(gzip.NewReader(bytes.NewReader(b[6:])))
	return must2(io.ReadAll(r))
}
func deflate(raw []byte) []byte {
	var w bytes.Buffer
	w.WriteString("tggfnt")
	z := gzip.NewWriter(&w)
	must2(z.Write(raw))
	must(z.Close())
	return w.Bytes()
}
''').replace('import (','import (\n\t"compress/gzip"\n\t"io"').replace('	var d []byte\n	d = append(d, "tgedit"...)\n	_ = d\n','').replace("	// the builder has no direct vertical kerning pairs, so store them through edition data\n","")
