import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P18-copied-head-len"; prop="P18"
needs="rules with heads sharing a prefix with shorter rules, following a rule with a tail"
breaks="when a utf8 decision tree state is split, the copy forgets the longest head of the rules going through it, so rules that overlap an already reported tail are dropped"
edits=[("internal/rerules/utf8rule/decision_tree_state.go","	self.MaxHeadLen = other.MaxHeadLen\n","	self.MaxHeadLen = other.MinHeadLen\n")]
demo=redemo('''
	s := lcg(9)
	f := setFont(1, nil)
	for round := 0; round < 20000; round++ {
		var rules []demoRule
		var t rerules.Utf8Tester
		for i := 0; i < 5; i++ {
			r := demoRule{ cond: 255, head: s.ints(s.n(4), 2, 'a'), body: s.ints(1 + s.n(2), 2, 'a'), tail: s.ints(s.n(4), 2, 'a'), out: []int{'x' + s.n(3)} }
			rules = append(rules, r)
			must(t.AddRule(r.urule()))
		}
		c := ggfnt.NewSettingsCache(f)
		for k := 0; k < 10; k++ {
			in := s.ints(12, 2, 'a')
			a, b := runRunes(&t, f, c, in), refRewrite(rules, nil, yes, in)
			if fmt.Sprint(a) != fmt.Sprint(b) { fail("%v becomes %v instead of %v (rules %v)", in, a, b, rules) }
		}
	}
''')
