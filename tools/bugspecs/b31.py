import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P19-unreset-buffer"; prop="P19"
needs="a sequence that leaves the buffer position exactly at the capacity needed by the rules that remain after the longest one is removed"
breaks="the buffer of pending runes is not reset when rules are compiled again, so its position may end up past the end of the shrunk buffer"
edits=[("internal/rerules/utf8rule/tester.go","	self.accumulator.Clear()\n	self.accumulator.SetCapacity(uint16(maxAccLen))","	self.accumulator.SetCapacity(uint16(maxAccLen)) // always empty here")]
demo=redemo('''
	defer func() { if p := recover(); p != nil { fail("panic: %v", p) } }()
	for long := 3; long < 9; long++ {
		for n := 0; n < 20; n++ {
			var t rerules.Utf8Tester
			f := setFont(1, nil)
			short := demoRule{ cond: 255, body: []int{ 'a', 'b' }, out: []int{ 'c' } }
			var in []int
			for i := 0; i < long; i++ { in = append(in, 'x') }
			other := demoRule{ cond: 255, body: in, out: []int{ 'y' } }
			must(t.AddRule(short.urule()))
			must(t.AddRule(other.urule()))
			var seq []int
			for i := 0; i < n; i++ { seq = append(seq, 'z') }
			runRunes(&t, f, nil, seq)
			if !t.RemoveRule(other.urule()) { fail("rule not found") }
			in = []int{ 'z', 'a', 'b', 'a', 'a', 'b', 'z' }
			if got := fmt.Sprint(runRunes(&t, f, nil, in)); got != "[122 99 97 99 122]" { fail("after a sequence of %d runes: %s", n, got) }
		}
	}
''')
