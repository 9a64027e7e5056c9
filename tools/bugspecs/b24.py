import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P26-trailing-data-kept"; prop="P26"
needs="edition data followed by extra content, or with a damaged end"
breaks="edition data that is only found to be bad at its very end stays loaded although an error is returned"
edits=[("builder/font_builder.go","""	// ensure we reach EOF exactly at the right time
	err = parser.EnsureEOF()
	if err != nil { return parser.NewError(err.Error()) }

	// done
	completedWithoutErrors = true
	return nil
""","""	// ensure we reach EOF exactly at the right time
	completedWithoutErrors = true
	err = parser.EnsureEOF()
	if err != nil { return parser.NewError(err.Error()) }

	// done
	return nil
""")]
demo=demo('''
	b, _ := newFont(3)
	f := must2(b.Build())
	var d []byte
	id := f.Header().ID()
	for i := 0; i < 8; i++ { d = append(d, byte(id >> (8*i))) }
	d = append(d, 0)
	d = append(d, 1, 0, 5); d = append(d, "class"...); d = append(d, 251)
	d = append(d, 1, 0, 0, 1, 0, 2, 0, 1, 0)
	d = append(d, 0, 0, 0)
	d = append(d, 0)
	pack := func(d []byte) *bytes.Buffer {
		var w bytes.Buffer
		w.WriteString("wkgfnt")
		g := gzip.NewWriter(&w); g.Write(d); g.Close()
		return &w
	}
	must(b.ParseEditionData(pack(d)))
	if n := must2(b.Build()).Kerning().NumPairs(); n != 1 { fail("%d pairs with good data", n) }
	if b.ParseEditionData(pack(append(d, 0))) == nil { fail("extra data accepted") }
	if n := must2(b.Build()).Kerning().NumPairs(); n != 0 { fail("%d pairs left behind by rejected data", n) }
''').replace('"bytes"\n','"bytes"\n\t"compress/gzip"\n',1)
