import sys; sys.path.insert(0,'/verif/tools/bugspecs')
from common import *
id="P22-pool-check-then-set"; prop="P22"; race=True
needs="two rewriting testers compiling their rules at exactly the same time"
breaks="the pooled decision tree compiler is taken with a check followed by a store instead of a compare and swap"
edits=[("internal/single_instance_pool.go","	if atomic.CompareAndSwapUint32(&self.inUse, 0, 1) {\n","	if atomic.LoadUint32(&self.inUse) == 0 {\n		atomic.StoreUint32(&self.inUse, 1)\n")]
demo=redemo('''
	f := setFont(20, [][]int{{0, 1, 2, 3, 4, 5}, {4, 5, 6, 7, 8}})
	done := make(chan string)
	for k := 0; k < 8; k++ {
		go func(k int) {
			res := ""
			defer func() { if e := recover(); e != nil { res = fmt.Sprint("panic ", e) }; done <- res }()
			s := lcg(k)
			for i := 0; i < 400 && res == ""; i++ {
				var t rerules.GlyphTester
				var rules []demoRule
				for j := 0; j < 10; j++ {
					r := demoRule{ cond: 255, body: []int{s.n(8), 1000 + s.n(2), s.n(8), 1000 + s.n(2)}, out: []int{9 + s.n(9)} }
					rules = append(rules, r)
					must(t.AddRule(r.rule()))
				}
				in := s.ints(20, 9, 0)
				a, b := runGlyphs(&t, f, ggfnt.NewSettingsCache(f), in), refRewrite(rules, [][]int{{0, 1, 2, 3, 4, 5}, {4, 5, 6, 7, 8}}, yes, in)
				if fmt.Sprint(a) != fmt.Sprint(b) { res = fmt.Sprint(a, b) }
			}
		}(k)
	}
	for k := 0; k < 8; k++ { if r := <-done; r != "" { fail("%s", r) } }
''')
