import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P20-resync-once"; prop="P20"
needs="rules with two different conditions, one of them removed, and the tester used again"
breaks="a tree is not compiled again once it is in sync, even though removing a rule from another tree changes the rule indices it refers to"
edits=[("internal/rerules/glyphrule/tester.go","			tree.DecisionTree.states = compiler.Finish()\n","			tree.DecisionTree.states = compiler.Finish()\n			if numRulesFound > 0 { tree.NeedsResync = false }\n"),
("internal/rerules/glyphrule/tester.go","			// if no rules found, delete tree\n","			// if no rules were found, delete tree\n")]
demo=cdemo('''
	b, _ := newFont(9)
	must2(b.AddSetting("alpha", "yes", "no"))
	f := withConds(must2(b.Build()), []byte{0b01100000, 0})
	c := ggfnt.NewSettingsCache(f)
	r0 := demoRule{ cond: 0, body: []int{1, 2}, out: []int{7} }
	r1 := demoRule{ cond: 255, body: []int{3, 4}, out: []int{8} }
	r2 := demoRule{ cond: 255, body: []int{5}, out: []int{6} }
	var t rerules.GlyphTester
	must(t.AddRule(r0.rule())); must(t.AddRule(r1.rule())); must(t.AddRule(r2.rule()))
	in := []int{1, 2, 3, 4, 5}
	if a := fmt.Sprint(runGlyphs(&t, f, c, in)); a != "[7 8 6]" { fail("%v", a) }
	t.RemoveRule(r0.rule())
	defer func() { if e := recover(); e != nil { fail("panic %v", e) } }()
	if a := fmt.Sprint(runGlyphs(&t, f, c, in)); a != "[1 2 8 6]" { fail("after removal: %v", a) }
''')
