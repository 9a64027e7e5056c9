import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P02-lost-kerning-error"; prop="P02"
needs="a file with vertical kernings that is cut inside them (with a valid gzip trailer)"
breaks="the read error of the last table is lost, and the end of file check passes"
edits=[("parse.go","""		// advance VertKerningPairs and VertKerningValues
		err = parser.AdvanceBytes(int(numVertKerningPairs)*5)
		if err != nil { return &font, err }
""","""		// advance VertKerningPairs and VertKerningValues
		_ = parser.AdvanceBytes(int(numVertKerningPairs)*5)
""")]
demo=demo('''
	b, _ := newFont(3)
	raw := inflate(encode(must2(b.Build())))
	raw = append(raw[:len(raw) - 3], 1, 0, 0, 1, 0, 1, 0, 5)
	if _, err := ggfnt.Parse(bytes.NewReader(deflate(raw))); err != nil { fail("valid file: %v", err) }
	for i := 1; i < 9; i++ {
		if _, err := ggfnt.Parse(bytes.NewReader(deflate(raw[:len(raw) - i]))); err == nil { fail("cut %d accepted", i) }
	}
''', '''
func inflate(b []byte) []byte {
	r := must2(gzip.NewReader(bytes.NewReader(b[6:])))
	return must2(io.ReadAll(r))
}
func deflate(raw []byte) []byte {
	var w bytes.Buffer
	w.WriteString("tggfnt")
	z := gzip.NewWriter(&w)
	must2(z.Write(raw))
	must(z.Close())
	return w.Bytes()
}
''').replace('import (','import (\n\t"compress/gzip"\n\t"io"')
