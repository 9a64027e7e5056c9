import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P11-word-index-128"; prop="P11"
needs="a font with more than 128 custom words"
breaks="the position of the word end offset is computed with an uint8 shift, so words from index 128 on are read from the wrong place"
edits=[("font.go","		offsetToWordEndOffset := self.OffsetToWords + 1 + (uint32(index) << 1)","		offsetToWordEndOffset := self.OffsetToWords + 1 + uint32(index << 1)")]
demo=demo('''
	b, _ := newFont(1)
	var opts []string
	for i := 0; i < 140; i++ { opts = append(opts, fmt.Sprintf("word%dq", i)) }
	k := must2(b.AddSetting("setting", opts...))
	f := must2(b.Build())
	defer func() { if e := recover(); e != nil { fail("panic: %v", e) } }()
	for i := range opts { if s := f.Settings().GetOptionName(k, uint8(i)); s != opts[i] { fail("option %d is %q", i, s) } }
''')
