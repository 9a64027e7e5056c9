import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P21-transitions-limit"; prop="P21"
needs="rules that need more than 254 transitions in a single state"
breaks="the limit on state transitions is checked after the index has already wrapped"
edits=[("internal/rerules/glyphrule/decision_tree_state.go","	if newLastIndex >= 254 { return TransitionNone, ErrCompilerHitLimits }","	if newLastIndex > 256 { return TransitionNone, ErrCompilerHitLimits }")]
demo=redemo('''
	defer func() { if e := recover(); e != nil { fail("panic %v", e) } }()
	var sets [][]int
	for i := 0; i < 2; i++ { var s []int; for g := 0; g < 150; g++ { s = append(s, 2*(i*150 + g)) }; sets = append(sets, s) }
	f := setFont(700, sets)
	c := ggfnt.NewSettingsCache(f)
	var t rerules.GlyphTester
	must(t.AddRule(demoRule{ cond: 255, body: []int{1000, 1}, out: []int{650} }.rule()))
	must(t.AddRule(demoRule{ cond: 255, body: []int{1001, 3}, out: []int{651} }.rule()))
	if err := t.BeginSequence(f, c); err == nil { 
		var out []ggfnt.GlyphIndex
		fn := func(g ggfnt.GlyphIndex) { out = append(out, g) }
		for g := 0; g < 600; g += 2 { must(t.Feed(ggfnt.GlyphIndex(g), fn)); must(t.Feed(5, fn)) }
		t.FinishSequence(fn)
		for i := 0; i < 300; i++ { if out[2*i] != ggfnt.GlyphIndex(2*i) { fail("glyph %d became %d", 2*i, out[2*i]) } }
	}
''')
