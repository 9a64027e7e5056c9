import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P20-restart-on-recompile"; prop="P20"
needs="conditions refreshed with other settings between two sequences, without any change of rules"
breaks="detection is only restarted at the beginning of a sequence if the rules were compiled again, so the first runes are tested with the conditions of before"
edits=[("internal/rerules/utf8rule/tester.go","""		err := self.recompile(font, settingsCache)
		if err != nil { return err }
	}
	self.accumulator.SetMinCapacity(1) // required even if there are no rules
	self.isOperating = true
	self.treesRestartDetection()
""","""		err := self.recompile(font, settingsCache)
		if err != nil { return err }
		self.treesRestartDetection() // otherwise already restarted when the last sequence finished
	}
	self.accumulator.SetMinCapacity(1) // required even if there are no rules
	self.isOperating = true
""")]
demo=cdemo('''
	b, _ := newFont(1)
	must2(b.AddSetting("set", "off", "on"))
	f := withConds(must2(b.Build()), []byte{ 0b0110_0001, 0 })
	cache := ggfnt.NewSettingsCache(f)
	var t rerules.Utf8Tester
	must(t.AddRule(demoRule{ cond: 0, body: []int{ 'a' }, out: []int{ 'b' } }.urule()))
	for i, v := range []uint8{ 0, 1, 0, 1, 1, 0 } {
		cache.Set(0, v)
		t.RefreshConditions(f, cache)
		want := fmt.Sprint([]int{ 'a' + int(v) })
		if got := fmt.Sprint(runRunes(&t, f, cache, []int{ 'a' })); got != want { fail("sequence %d with setting %d: %s", i, v, got) }
	}
''')
