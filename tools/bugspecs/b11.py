import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P03-setting-names-limit"; prop="P03"
needs="a font in which every setting name has the maximum length of 32 bytes"
breaks="the parser rejects setting names that use the maximum allowed size, so a built font can't be parsed back"
edits=[("parse.go","		if settingNamesLen > uint16(numSettings)*32 {","		if settingNamesLen >= uint16(numSettings)*32 {")]
demo=demo('''
	b, _ := newFont(1)
	for i := 0; i < 3; i++ { must2(b.AddSetting(fmt.Sprintf("abcdefghijklmnopqrstuvwxyz-%05d", i), "on", "off")) }
	f := must2(b.Build())
	if _, err := ggfnt.Parse(bytes.NewReader(encode(f))); err != nil { fail("%v", err) }
''')
