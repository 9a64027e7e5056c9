import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P24-close-error-lost"; prop="P24"
needs="a writer that only fails on its very last write, when the compressed data is completed"
breaks="the error of completing the compressed data is lost, so a truncated export is reported as a success"
edits=[("font.go","	gzipWriter := gzip.NewWriter(writer)\n","	gzipWriter := gzip.NewWriter(writer)\n	defer gzipWriter.Close()\n"),("font.go","	return gzipWriter.Close()\n","	return gzipWriter.Flush()\n")]
demo=demo('''
	b, _ := newFont(3)
	f := must2(b.Build())
	all := encode(f)
	for limit := 0; limit < len(all); limit++ {
		w := &limited{ limit: limit }
		if f.Export(w) == nil { fail("export of %d bytes to a writer that fails after %d reports success", len(all), limit) }
	}
	if _, err := ggfnt.Parse(bytes.NewReader(all)); err != nil { fail("%v", err) }
''', '''
type limited struct { limit int }
func (l *limited) Write(p []byte) (int, error) {
	if len(p) > l.limit { n := l.limit; l.limit = 0; return n, fmt.Errorf("disk full") }
	l.limit -= len(p)
	return len(p), nil
}
''')
