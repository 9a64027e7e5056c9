import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P25-month-without-year"; prop="P25"
needs="a date with a month, but without day nor year"
breaks="dates without year are only refused when they have both a month and a day"
edits=[("date.go","	if self.Year == 0 && (self.Month != 0 || self.Day != 0) { return false }\n","	if self.Year == 0 && self.Month != 0 && self.Day != 0 { return false }\n")]
demo=demo('''
	for m := 1; m < 256; m++ {
		d := ggfnt.Date{ Month: uint8(m) }
		if d.IsValid() { fail("month %d without year is valid", m) }
	}
''')
