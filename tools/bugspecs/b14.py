import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P17-reuse-by-first-rule"; prop="P17"
needs="several rules with overlapping glyph sets, so that states with the same number of rules coexist at one depth"
breaks="a decision tree state is considered reusable by comparing only the last of the previously included rules"
edits=[("internal/rerules/glyphrule/decision_tree_compiler.go","				if ruleIndex != rules[i] { continue outerLoop }","				if i == 0 && ruleIndex != rules[i] { continue outerLoop }")]
demo=redemo('''
	s := lcg(7)
	for round := 0; round < 3000; round++ {
		var sets [][]int
		for i := 0; i < 5; i++ {
			var set []int
			for g := 0; g < 8; g++ { if s.n(2) == 0 { set = append(set, g) } }
			if len(set) == 0 { set = []int{i} }
			sets = append(sets, set)
		}
		f := setFont(12, sets)
		var rules []demoRule
		var t rerules.GlyphTester
		for i := 0; i < 6; i++ {
			r := demoRule{ cond: 255, body: s.ints(2 + s.n(3), 5, 1000), out: []int{8 + s.n(4)} }
			rules = append(rules, r)
			must(t.AddRule(r.rule()))
		}
		c := ggfnt.NewSettingsCache(f)
		for k := 0; k < 20; k++ {
			in := s.ints(12, 8, 0)
			a, b := runGlyphs(&t, f, c, in), refRewrite(rules, sets, yes, in)
			if fmt.Sprint(a) != fmt.Sprint(b) { fail("%v becomes %v instead of %v", in, a, b) }
		}
	}
''')
