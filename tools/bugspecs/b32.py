import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P01-early-header-check"; prop="P01"
needs="a stream whose data ends within the first bytes of the header texts"
breaks="the header is validated before its texts have been read, so content that ends right after the fixed part of the header is accessed out of range"
edits=[("parse.go","""	if err != nil { return &font, err }
	for i := 0; i < 3; i++ {
		_, err = parser.ReadShortStr()
		if err != nil { return &font, err }
	}
	_, err = parser.ReadString()
	if err != nil { return &font, err }
	
	font.Data = parser.Bytes // initial assignation (required before validation)
	err = font.Header().Validate(FmtDefault)
	if err != nil { return &font, parser.NewError(err.Error()) }
""","""	if err != nil { return &font, err }
	font.Data = parser.Bytes // initial assignation (required before validation)
	err = font.Header().Validate(FmtDefault) // no need to read the texts if this is wrong
	if err != nil { return &font, parser.NewError(err.Error()) }
	for i := 0; i < 3; i++ {
		_, err = parser.ReadShortStr()
		if err != nil { return &font, err }
	}
	_, err = parser.ReadString()
	if err != nil { return &font, err }
""")]
demo=cdemo('''
	b, _ := newFont(3)
	f := must2(b.Build())
	for n := 0; n < 200 && n < len(f.Data); n++ {
		var w bytes.Buffer
		w.WriteString("tggfnt")
		z := gzip.NewWriter(&w)
		z.Write(f.Data[:n])
		z.Close()
		func() {
			defer func() { if p := recover(); p != nil { fail("panic on content cut at %d bytes: %v", n, p) } }()
			if _, err := ggfnt.Parse(bytes.NewReader(w.Bytes())); err == nil { fail("content cut at %d bytes accepted", n) }
		}()
	}
''')
