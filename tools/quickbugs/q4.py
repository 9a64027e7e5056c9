import re
D="internal/rerules/glyphrule/"
def f(n): return D+n
TE=f("tester.go"); CO=f("decision_tree_compiler.go"); ST=f("decision_tree_state.go"); TR=f("decision_tree_transition.go"); DT=f("decision_tree.go"); SC=f("rule_scanner.go"); CB="internal/circular_buffer.go"; HE="internal/helpers.go"; PO="internal/single_instance_pool.go"
BUGS=[
("P20","tree-order-insert",[(TE,"		for i := len(self.trees) - 1; i > 0; i-- {\n			if self.trees[i].Condition >=","		for i := len(self.trees) - 1; i > 1; i-- {\n			if self.trees[i].Condition >=")]),
("P20","removed-rule-index-shift",[(TE,"			self.trees[treeIndex].NeedsResync = true\n			self.needsRecompile = true\n			return true","			for t := range self.trees { if t == treeIndex { self.trees[t].NeedsResync = true } }\n			self.needsRecompile = true\n			return true")]),
("P20","resync-flag-cleared",[(TE,"			tree.DecisionTree.states = compiler.Finish()\n","			tree.DecisionTree.states = compiler.Finish()\n			tree.NeedsResync = false\n")]),
("P20","refresh-empty-acc",[(TE,"	if self.isOperating && self.accumulator.IsEmpty() {\n		self.treesRestartDetection()","	if self.isOperating && self.accumulator.IsEmpty() && len(self.trees) > 1 {\n		self.treesRestartDetection()")]),
("P20","refresh-uncached-only",[(TE,"		self.trees[i].ConditionCachedValue = satisfied\n		self.trees[i].ConditionIsCached = true\n	}\n	if","		if condition < 128 || condition == 255 { self.trees[i].ConditionCachedValue = satisfied }\n		self.trees[i].ConditionIsCached = true\n	}\n	if")]),
("P20","delete-tree-keeps-cond",[(TE,"	self.ConditionIsCached","	self.ConditionIsCached")]),
("P20","reconfigure-keeps-cached",[(f("tester_tree_instance.go"),"	self.ConditionIsCached = false\n","")]),
("P20","reconfigure-keeps-value",[(f("tester_tree_instance.go"),"	self.ConditionCachedValue = false\n","")]),
("P20","remove-all-acc",[(TE,"	self.trees = self.trees[ : 0]\n	self.accumulator.Clear()\n	self.needsRecompile = false","	self.trees = self.trees[ : 0]\n	self.needsRecompile = false")]),
("P20","capacity-only-grow",[(TE,"	self.accumulator.SetCapacity(uint16(maxAccLen))","	self.accumulator.SetMinCapacity(uint16(maxAccLen))")]),
("P20","maxacc-only-resync",[(TE,"	self.accumulator.Clear()\n	self.accumulator.SetCapacity","	self.accumulator.SetCapacity")]),
("P20","equals-cond-only",[("font.go","NOPE","")]),
("P20","invalid-cond-not-reported",[(TE,"		if !tree.ConditionIsCached && !self.isKnown","		if tree.NeedsResync && !tree.ConditionIsCached && !self.isKnown")]),
("P17","best-match-order",[(TE,"(matchLen == bestMatchLen && match < bestMatch)","(matchLen == bestMatchLen && match < bestMatch && bestMatch - match < 128)")]),
("P17","best-match-cond-order",[(TE,"if matchLen > bestMatchLen || (matchLen == bestMatchLen && match < bestMatch) {","if matchLen > bestMatchLen || (matchLen == bestMatchLen && match <= bestMatch && i > 0) {")]),
("P17","bestmatch-bodylen",[(TE,"matchLen := self.rules[match].InLen()","matchLen := self.rules[match].InLen()\n		if matchLen == 255 { matchLen = self.rules[match].BodyLen() }")]),
("P17","unflushed-zero-head",[(TE,"	if depth < self.unflushedTail {","	if depth + 1 < self.unflushedTail || depth == 0 && self.unflushedTail > 0 {")]),
("P17","head-len-le",[(ST,"return minRequiredHeadLen <= self.MaxHeadLen","return minRequiredHeadLen < self.MaxHeadLen || minRequiredHeadLen <= 3 && minRequiredHeadLen == self.MaxHeadLen")]),
("P17","headmatch-share",[(TR,"			matches := append([]HeadMatch(nil), self.HeadMatches...)\n			self.HeadMatches = append(matches,","			self.HeadMatches = append(self.HeadMatches,")]),
("P17","headmatch-strict",[(TR,"		if match.HeadLen >= minHeadLen { return match.RuleMatch }","		if match.HeadLen > minHeadLen || match.HeadLen == minHeadLen && len(self.HeadMatches) < 3 { return match.RuleMatch }")]),
("P17","headmatch-first",[(TR,"	return self.HeadMatches[len(self.HeadMatches) - 1].HeadLen","	return self.HeadMatches[0].HeadLen")]),
("P17","split-no-headmatches",[(ST,"	self.Transitions[newTransIndex].HeadMatches = self.Transitions[transIndex].HeadMatches\n","	self.Transitions[newTransIndex].HeadMatches = nil\n")]),
("P17","split-headlen",[(ST,"	self.Transitions[newTransIndex].RuleMatchHeadLen = self.Transitions[transIndex].RuleMatchHeadLen\n","")]),
("P17","new-trans-dirty-heads",[(ST,"	self.Transitions[index].HeadMatches = nil\n","")]),
("P17","copy-headlen",[(ST,"	self.MinHeadLen = other.MinHeadLen\n	self.MaxHeadLen = other.MaxHeadLen","	self.MinHeadLen = other.MinHeadLen\n	if len(self.Transitions) < 6 { self.MaxHeadLen = other.MaxHeadLen }")]),
("P17","reset-headlen",[(ST,"	self.MinHeadLen = 255\n	self.MaxHeadLen = 0\n","	self.MinHeadLen = 255\n")]),
("P17","split-mid-uses",[(ST,"return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, ruleHeadLen, stateLinker, 2)","return self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, ruleHeadLen, stateLinker, 1)")]),
("P17","split-firstmid-uses",[(ST,"return self.Transitions[candidateTrans].Link(ruleMatchIndex, ruleHeadLen, stateLinker, 1)","return self.Transitions[candidateTrans].Link(ruleMatchIndex, ruleHeadLen, stateLinker, 0)")]),
("P17","split-midlast-uses",[(ST,"err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, ruleHeadLen, stateLinker, 1)","err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, ruleHeadLen, stateLinker, 0)")]),
("P17","midlast-no-skip",[(ST,"			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, ruleHeadLen, stateLinker, 1)\n			if err != nil { return err }\n			if splitRange.Last == glyphRange.Last { return nil } // avoids overflows\n","			err  = self.Transitions[candidateTrans + 1].Link(ruleMatchIndex, ruleHeadLen, stateLinker, 1)\n			if err != nil { return err }\n			if splitRange.Last >= glyphRange.Last - 1 { return nil } // avoids overflows\n")]),
("P17","free-next-uses",[(CO,"			self.adjustNextStatesUseCounts(state, -1)\n","")]),
("P17","new-next-uses",[(CO,"			self.adjustNextStatesUseCounts(resultStateIndex, 1)\n","")]),
("P17","free-no-compact",[(CO,"			self.run.TrackerStatesByDepth[depth][i - freedCount] = state\n","			self.run.TrackerStatesByDepth[depth][i - 1] = state\n")]),
("P17","free-depth-truncate",[(CO,"[ : numStates - freedCount]","[ : numStates - 1]")]),
("P17","reusable-length-only",[(CO,"			} else { // i > comparisonRulePosition\n				if ruleIndex != rules[i - 1] { continue outerLoop }\n			}","			}")]),
("P17","reusable-prefix",[(CO,"				if ruleIndex != rules[i] { continue outerLoop }\n","				if i > 0 && ruleIndex != rules[i] { continue outerLoop }\n")]),
("P17","found-early",[(CO,"		if found { return referenceStateIndex, nil }\n	}\n","		if found { self.appendStateToNextRound(referenceStateIndex); return referenceStateIndex, nil }\n	}\n")]),
("P17","feed-append-order",[(CO,"			self.states[stateIndex] = state\n","			self.states[stateIndex].Transitions = state.Transitions\n")]),
("P17","feed-updateheadlen-late",[(CO,"			state.UpdateHeadLen(self.run.Scanner.HeadLen())\n","			if self.run.Depth < 4 { state.UpdateHeadLen(self.run.Scanner.HeadLen()) }\n")]),
("P17","fromstates-first",[(CO,"		self.run.ToStates = self.run.ToStates[ : 0]\n	}\n\n	return nil","		self.run.ToStates = self.run.ToStates[ : 0]\n		if len(self.run.FromStates) > 16 { self.run.FromStates = self.run.FromStates[ : 16] }\n	}\n\n	return nil")]),
("P17","usecount-u8",[(CO,"	if result > 65535 || result < 0 { panic(BrokenCode) }\n	self.run.TrackerStateUses[stateIndex] = uint16(result)","	self.run.TrackerStateUses[stateIndex] = uint16(uint8(result))")]),
("P17","rules-with-ref-mid",[(CO,"		copy(self.run.TrackerStateRules[stateIndex][insertionIndex + 1 : ], refRules[insertionIndex : ])\n		self.run.TrackerStateRules[stateIndex][insertionIndex] = self.run.RuleIndex","		self.run.TrackerStateRules[stateIndex][insertionIndex] = self.run.RuleIndex\n		copy(self.run.TrackerStateRules[stateIndex][insertionIndex + 1 : ], refRules[insertionIndex : ])")]),
("P17","rules-alias-scratch",[(CO,"	self.run.TrackerStateRules[stateIndex] = internal.SetSliceSize(self.run.TrackerStateRules[stateIndex], numRules)\n","	self.run.TrackerStateRules[stateIndex] = internal.SetSliceSize(self.run.TrackerStateRules[stateIndex][:0], numRules)\n")]),
("P21","begin-keeps-freed",[(CO,"	self.run.TrackerFreedStates = self.run.TrackerFreedStates[ : 0]\n","	if len(buffer) == 0 { self.run.TrackerFreedStates = self.run.TrackerFreedStates[ : 0] }\n")]),
("P21","begin-keeps-bydepth",[(CO,"	self.run.TrackerStatesByDepth = self.run.TrackerStatesByDepth[ : 0]\n","	if len(buffer) == 0 { self.run.TrackerStatesByDepth = self.run.TrackerStatesByDepth[ : 0] }\n")]),
("P21","begin-keeps-uses",[(CO,"	self.run.TrackerStateUses  = self.run.TrackerStateUses[ : 0]\n","	clear(self.run.TrackerStateUses)\n")]),
("P21","no-finish-on-error",[(TE,"						_ = compiler.Finish() // leave the compiler ready to be reused\n","")]),
("P21","finish-only-first",[(TE,"						_ = compiler.Finish() // leave the compiler ready to be reused\n","						if numRulesFound > 0 { _ = compiler.Finish() }\n")]),
("P21","error-clears-needsresync",[(TE,"						_ = compiler.Finish() // leave the compiler ready to be reused\n","						_ = compiler.Finish() // leave the compiler ready to be reused\n						tree.DecisionTree.states = nil; tree.NeedsResync = numRulesFound == 0\n")]),
("P21","begin-seq-operating-on-err",[(TE,"	if self.isOperating { panic(PreViolation) }\n	\n	if self.needsRecompile {","	if self.isOperating { panic(PreViolation) }\n	self.isOperating = true\n	if self.needsRecompile {"),(TE,"	self.isOperating = true\n	self.treesRestartDetection()\n\n","	self.treesRestartDetection()\n\n")]),
("P21","max-rules-253",[(TE,"if len(self.rules) >= 254 {","if len(self.rules) >= 255 {")]),
("P21","set-exists-le",[(CO,"uint8(glyphSet) >= self.run.Font.Rewrites().NumGlyphSets() {","uint8(glyphSet) > self.run.Font.Rewrites().NumGlyphSets() {")]),
("P21","cond-known-le",[(TE,"condition < font.Rewrites().NumConditions()","condition <= font.Rewrites().NumConditions()")]),
("P21","feed-control",[(TE,"	if glyphIndex > ggfnt.GlyphMissing {","	if glyphIndex > ggfnt.GlyphMissing && glyphIndex < 65500 {")]),
("P21","scan-sum-overflow",[(SC,"	if rule.Data[3] > lenSum { return rerules.ErrInvalidReRule }\n","")]),
("P21","scan-tail-acc",[(SC,"		if self.rule.Data[3] != self.accumulatedBlockSets + self.accumulatedBlockGlyphs {\n			return rerules.ErrInvalidReRule\n		}\n","")]),
("P21","scan-adv-check",[(SC,"		if self.rule.Data[1 + int(self.block)] != self.accumulatedBlockGlyphs + self.accumulatedBlockSets {\n			return rerules.ErrInvalidReRule\n		}\n","")]),
("P21","scan-reset-sets",[(SC,"	self.remainingSets   = 0\n	self.remainingGlyphs = 0\n	self.acc","	self.acc")]),
("P21","scan-reset-acc",[(SC,"	self.accumulatedBlockSets   = 0\n	self.accumulatedBlockGlyphs = 0\n	self.remainingBlockElements = self.rule.Data[1] // head len","	self.accumulatedBlockSets   = 0\n	self.remainingBlockElements = self.rule.Data[1] // head len")]),
("P21","scan-glyph-range",[(SC,"		if !IsValidRuleGlyphIndex(glyphIndex) {","		if !IsValidRuleGlyphIndex(glyphIndex) && self.block != RuleTail {")]),
("P21","scan-term-body",[(SC,"		if self.rule.Data[3] != 0 {\n			return rerules.ErrInvalidReRule","		if self.rule.Data[3] > 1 {\n			return rerules.ErrInvalidReRule")]),
("P19","break-tail-unclear",[(TE,"		self.accumulator.Clear()\n		self.unflushedTail = 0\n		self.treesRestartDetection()\n","		self.accumulator.Clear()\n		self.treesRestartDetection()\n		self.unflushedTail = 0\n")]),
("P19","finish-no-restart",[(TE,"		self.unflushedTail = 0\n		self.treesRestartDetection()\n	}\n}","		self.unflushedTail = 0\n	}\n}")]),
("P19","break-size",[(TE,"	for self.accumulator.Size() > uint16(self.unflushedTail) {","	for self.accumulator.Size() > uint16(self.unflushedTail) || self.accumulator.Size() == 1 && self.unflushedTail == 0 && false {")]),
("P19","begin-no-restart",[(TE,"	self.isOperating = true\n	self.treesRestartDetection()\n\n","	self.isOperating = true\n	if self.unflushedTail == 0 && len(self.trees) > 0 && !self.trees[0].IsScanning() { self.treesRestartDetection() }\n\n")]),
("P19","discard-peeks-lost",[(TE,"				// discard peeks and report initial head\n				self.accumulator.DiscardPeeks()\n","				// discard peeks and report initial head\n")]),
("P19","rewrite-discard-lost",[(TE,"	// report tail\n	self.accumulator.DiscardPeeks()\n","	// report tail\n")]),
("P19","cb-clear-peeks",[(CB,"	self.headIndex   = 0\n	self.numElements = 0\n	self.numPeeks    = 0\n","	self.headIndex   = 0\n	self.numElements = 0\n")]),
("P19","cb-head-wrap",[(CB,"	if self.headIndex == self.capacity {\n		self.headIndex = 0","	if self.headIndex == self.capacity {\n		self.headIndex = min(0, self.numElements)")]),
("P20","cb-shrink-buffer",[(CB,"		self.buffer = self.buffer[ : capacity]\n","")]),
("P20","cb-grow-stale",[(CB,"		extraLen := capacity - self.capacity\n","		extraLen := capacity - uint16(len(self.buffer))\n")]),
("P17","grow-slice-dirty",[(HE,"		var element T\n		return append(buffer, element)","		var element T\n		if len(buffer) > 0 { element = buffer[len(buffer) - 1] }\n		return append(buffer, element)")]),
("P20","delete-element-memo",[(HE,"	buffer[size - 1] = memo // potentially preserve sub-allocated memory\n","	_ = memo\n")]),
("P22","pool-release-any",[(PO,"	if instance == &self.instance {\n","	if instance != nil {\n"),(PO,"			panic(BrokenCode)","			return")]),
("P22","pool-nonatomic-release",[(PO,"		if !atomic.CompareAndSwapUint32(&self.inUse, 1, 0) {\n			panic(BrokenCode)\n		}","		self.inUse = 0")]),
]
BUGS=[b for b in BUGS if not any(e[1]=="NOPE" or e[1]==e[2] for e in b[2])]
