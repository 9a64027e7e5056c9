import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P16-set-start-uint8"; prop="P16"
needs="a font with more than 128 rune sets"
breaks="the position of the end offset of the previous rune set is computed as uint8, so sets from 129 on start at the wrong place"
edits=[("font.go","		startOffsetIndex := self.OffsetToRewriteUtf8Sets + 1 + (uint32(set - 1) << 1)","		startOffsetIndex := self.OffsetToRewriteUtf8Sets + 1 + uint32((set - 1) << 1)")]
demo=cdemo('''
	b, _ := newFont(1)
	f := must2(b.Build())
	at := int(f.OffsetToRewriteUtf8Sets)
	const n = 140
	out := append([]byte{}, f.Data[:at]...)
	out = append(out, n)
	for i := 1; i <= n; i++ { out = append(out, byte(i*6), byte(i*6 >> 8)) }
	for i := 0; i < n; i++ { out = append(out, 0, 1, byte('a' + i), 0, 0, 0) }
	f = reparse(append(out, f.Data[at + 1:]...))
	for i := 0; i < n; i++ {
		defer func() { if p := recover(); p != nil { fail("set %d: panic: %v", i, p) } }()
		s := f.Rewrites().GetUtf8Set(uint8(i))
		var got []rune
		_ = s.EachListRune(func(r rune) error { got = append(got, r); return nil })
		if len(got) != 1 || got[0] != rune('a' + i) { fail("set %d has %v", i, got) }
	}
''')
