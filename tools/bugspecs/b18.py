import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P20-recycled-tree-condition"; prop="P20"
needs="a rule removed together with its whole condition, and another rule with a different condition added later"
breaks="tree instances being reused keep the condition value of the rules they held before"
edits=[("internal/rerules/glyphrule/tester_tree_instance.go","	self.ConditionIsCached = false\n","")]
demo=cdemo('''
	defer func() { if e := recover(); e != nil { fail("panic %v", e) } }()
	b, _ := newFont(9)
	must2(b.AddSetting("alpha", "yes", "no"))
	f := withConds(must2(b.Build()), []byte{0b01100000, 0}, []byte{0b01100001, 0})
	c := ggfnt.NewSettingsCache(f)
	r0 := demoRule{ cond: 0, body: []int{1, 2}, out: []int{7} }
	r1 := demoRule{ cond: 1, body: []int{1, 2}, out: []int{8} }
	var t rerules.GlyphTester
	must(t.AddRule(r0.rule()))
	in := []int{1, 2, 3}
	if a := fmt.Sprint(runGlyphs(&t, f, c, in)); a != "[7 3]" { fail("%v", a) }
	t.RemoveAllRules()
	must(t.AddRule(r1.rule()))
	if a := fmt.Sprint(runGlyphs(&t, f, c, in)); a != "[1 2 3]" { fail("after replacement: %v", a) }
''')
