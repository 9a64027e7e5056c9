import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P27-vertical-flag-bit"; prop="P27"
needs="font content whose vertical layout flag is neither 0 nor 1, but even"
breaks="only odd invalid values of the flag are refused, since the check tests bits the wrong way"
edits=[("internal/helpers.go","if (value == 0 || value == 1) { return nil }","if value &^ 1 == 0 || value & 1 == 0 { return nil }")]
demo=cdemo('''
	b, _ := newFont(3)
	f := must2(b.Build())
	at := int(f.OffsetToMetrics) + 2
	for v := 0; v < 256; v++ {
		raw := append([]byte{}, f.Data...)
		if raw[at] != 0 { fail("demo: flag not found") }
		raw[at] = byte(v)
		if v == 1 { continue } // would need other placements
		_, err := parse(raw)
		if (err == nil) != (v == 0) { fail("flag %d: %v", v, err) }
	}
''','''
func parse(raw []byte) (*ggfnt.Font, error) {
	var w bytes.Buffer
	w.WriteString("tggfnt")
	z := gzip.NewWriter(&w)
	z.Write(raw)
	z.Close()
	return ggfnt.Parse(bytes.NewReader(w.Bytes()))
}
''')
