import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P21-states-limit"; prop="P21"
needs="rules that need more than 254 decision tree states"
breaks="the limit on the number of states is off, so state indices reach the reserved value and wrap around"
edits=[("internal/rerules/utf8rule/decision_tree_compiler.go","	case len(self.states) >= 254: // compiler limit reached","	case len(self.states) > 256: // compiler limit reached")]
demo=redemo('''
	defer func() { if e := recover(); e != nil { fail("panic %v", e) } }()
	for n := 120; n < 140; n++ {
		f := setFont(1, nil)
		c := ggfnt.NewSettingsCache(f)
		var t rerules.Utf8Tester
		in := []int{}
		for i := 0; i < 2; i++ {
			var seq []int
			for k := 0; k < n; k++ { seq = append(seq, 'a' + i) }
			seq = append(seq, 'c')
			in = append(in, seq...)
			must(t.AddRule(demoRule{ cond: 255, body: seq, out: []int{'x' + i} }.urule()))
		}
		must2(0, nil)
		if err := t.BeginSequence(f, c); err != nil { continue }
		t.FinishSequence(func(rune) {})
		if a := fmt.Sprint(runRunes(&t, f, c, in)); a != "[120 121]" { fail("n %d: becomes %v", n, a) }
	}
''')
