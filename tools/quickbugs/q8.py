BUGS=[]
import os
for pr,d in (("P17","glyphrule"),("P18","utf8rule")):
    pr=os.environ.get("AS",pr)
    T=f"internal/rerules/{d}/tester.go"
    BUGS+=[
    (pr,"resync-cleared-"+d,[(T,"			tree.DecisionTree.states = compiler.Finish()\n","			tree.DecisionTree.states = compiler.Finish()\n			tree.NeedsResync = false\n")]),
    (pr,"cap-active-only-"+d,[(T,"	for i, _ := range self.rules {\n		maxAccLen = max(","	for i, _ := range self.rules {\n		ti, _ := self.findTreeByCondition(self.rules[i].Condition())\n		if !self.trees[ti].ConditionCachedValue { continue }\n		maxAccLen = max(")]),
    (pr,"recompiled-early-"+d,[(T,"	compiler := CommonDecisionTreeCompiler.Retrieve()\n","	self.needsRecompile = false\n	compiler := CommonDecisionTreeCompiler.Retrieve()\n")]),
    (pr,"refresh-midmatch-"+d,[(T,"	if self.isOperating && self.accumulator.IsEmpty() {\n","	if self.isOperating {\n")]),
    (pr,"refresh-norestart-"+d,[(T,"	if self.isOperating && self.accumulator.IsEmpty() {\n","	if self.isOperating && self.accumulator.IsEmpty() && len(self.trees) > 2 {\n")]),
    (pr,"break-tail-norestart-"+d,[(T,"		self.accumulator.Clear()\n		self.unflushedTail = 0\n		self.treesRestartDetection()\n","		self.accumulator.Clear()\n		self.treesRestartDetection()\n		self.unflushedTail = 0\n")]),
    (pr,"best-first-tree-"+d,[(T,"(matchLen == bestMatchLen && match < bestMatch)","(matchLen == bestMatchLen && match < bestMatch && i < 3)")]),
    (pr,"known-not-checked-"+d,[(T,"		if !tree.ConditionIsCached && !self.isKnownCondition(","		if treeIndex == 0 && !tree.ConditionIsCached && !self.isKnownCondition(")]),
    (pr,"deleted-tree-skip-"+d,[(T,"			if numRulesFound == 0 {\n				self.trees = internal.DeleteElementAt(self.trees, treeIndex)\n				continue\n","			if numRulesFound == 0 {\n				self.trees = internal.DeleteElementAt(self.trees, treeIndex)\n				treeIndex += 1\n				continue\n")]),
    (pr,"equal-first-only-"+d,[(T,"			self.trees[treeIndex].NeedsResync = true\n			self.needsRecompile = true\n			return true","			self.trees[treeIndex].NeedsResync = true\n			self.needsRecompile = treeIndex < 2 || self.needsRecompile\n			return true")]),
    (pr,"head-unflushed-"+d,[(T,"		if self.unflushedTail > 0 { // already reported\n			self.unflushedTail -= 1\n","		if self.unflushedTail > 0 { // already reported\n			self.unflushedTail -= 1\n			if headLen > 3 && i == 2 { self.unflushedTail = 0 }\n")]),
    (pr,"rerun-depth8-"+d,[(T,"			depth += 1\n","			depth = (depth + 1) & 15\n")]),
    ]
