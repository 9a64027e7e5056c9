import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P15-skip-many-terms"; prop="P15"
needs="a nested AND group with 16 or more terms that is skipped because an earlier OR term is already satisfied"
breaks="skipping an AND group masks its term count with four bits, so evaluation continues in the middle of the group"
edits=[("font.go","""		for i := uint8(0); i < numTerms; i++ {
			dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
		}
		return dataIndex
	case 0b0100_0000: // comparison
		if""","""		for i := uint8(0); i < (numTerms & 0b0000_1111); i++ {
			dataIndex = self.skipConditionSubexpr(dataIndex, maxDataIndex, numSettings)
			if dataIndex > maxDataIndex { panic(invalidFontData) } // discretionary assertion
		}
		return dataIndex
	case 0b0100_0000: // comparison
		if""")]
demo=demo('''
	b, _ := newFont(1)
	must2(b.AddSetting("style", "off", "on"))
	f := must2(b.Build())
	raw := inflate(encode(f))
	// (the conditions table comes right after the empty switches and mapping tables)
	tail := []byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0} // conds, utf8 sets, glyph sets, rules x2, kernings x2
	head := raw[:len(raw) - len(tail)]
	cond := []byte{2, 0x60, 0, 0x20 | 18}
	for i := 0; i < 18; i++ { cond = append(cond, 0x61, 0) }
	out := append([]byte{}, head...)
	out = append(out, 1, byte(len(cond)), 0)
	out = append(out, cond...)
	out = append(out, tail[1:]...)
	f = must2(ggfnt.Parse(bytes.NewReader(deflate(out))))
	defer func() { if e := recover(); e != nil { fail("panic: %v", e) } }()
	if !f.Rewrites().EvaluateCondition(0, []uint8{0}) { fail("not satisfied") }
''', '''
func inflate(b []byte) []byte {
	r := must2(gzip.NewReader(bytes.NewReader(b[6:])))
	return must2(io.ReadAll(r))
}
func deflate(raw []byte) []byte {
	var w bytes.Buffer
	w.WriteString("tggfnt")
	z := gzip.NewWriter(&w)
	must2(z.Write(raw))
	must(z.Close())
	return w.Bytes()
}
''').replace('import (','import (\n\t"compress/gzip"\n\t"io"')
