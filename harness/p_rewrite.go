package main

import (
	"errors"
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/rerules"
)

// Rewriting: P17 (glyph rules), P18 (character rules), P19 (histories of
// sequences), P20 (rule and condition changes), P21 (malformed rules, misuse).

// tester hides whether glyphs or code points are being rewritten.
type tester interface {
	glyph() bool
	NumRules() int
	IsOperating() bool
	pending() int
	Resync(font *ggfnt.Font, sc *ggfnt.SettingsCache) error
	RemoveAllRules()
	add(data []byte) error
	remove(data []byte) bool
	RefreshConditions(font *ggfnt.Font, sc *ggfnt.SettingsCache)
	BeginSequence(font *ggfnt.Font, sc *ggfnt.SettingsCache) error
	feed(v int32, fn func(int32)) error
	brk(fn func(int32))
	finish(fn func(int32))
}

type glyphTester struct{ rerules.GlyphTester }

func (t *glyphTester) glyph() bool  { return true }
func (t *glyphTester) pending() int { return t.NumPendingGlyphs() }
func (t *glyphTester) add(b []byte) error {
	return t.AddRule(ggfnt.GlyphRewriteRule{Data: b})
}
func (t *glyphTester) remove(b []byte) bool {
	return t.RemoveRule(ggfnt.GlyphRewriteRule{Data: b})
}
func (t *glyphTester) feed(v int32, fn func(int32)) error {
	return t.Feed(ggfnt.GlyphIndex(v), func(g ggfnt.GlyphIndex) { fn(int32(g)) })
}
func (t *glyphTester) brk(fn func(int32)) { t.Break(func(g ggfnt.GlyphIndex) { fn(int32(g)) }) }
func (t *glyphTester) finish(fn func(int32)) {
	t.FinishSequence(func(g ggfnt.GlyphIndex) { fn(int32(g)) })
}

type runeTester struct{ rerules.Utf8Tester }

func (t *runeTester) glyph() bool  { return false }
func (t *runeTester) pending() int { return t.NumPendingRunes() }
func (t *runeTester) add(b []byte) error {
	return t.AddRule(ggfnt.Utf8RewriteRule{Data: b})
}
func (t *runeTester) remove(b []byte) bool {
	return t.RemoveRule(ggfnt.Utf8RewriteRule{Data: b})
}
func (t *runeTester) feed(v int32, fn func(int32)) error { return t.Feed(v, fn) }
func (t *runeTester) brk(fn func(int32))                 { t.Break(fn) }
func (t *runeTester) finish(fn func(int32))              { t.FinishSequence(fn) }

func newTester(glyph bool) tester {
	if glyph {
		return &glyphTester{}
	}
	return &runeTester{}
}

// ---- reference ----

type rewriteStats struct {
	rewrites, heads, tails, setHits, ambiguous, tailReused, blocked, lostToLonger int
}

func (s MSet) has(v int32) bool {
	for _, r := range s.Ranges {
		if v >= r.First && v <= r.First+int32(r.Extra) {
			return true
		}
	}
	for _, e := range s.List {
		if e == v {
			return true
		}
	}
	return false
}

func (e MElem) has(v int32, sets []MSet) bool {
	if e.Set {
		return sets[e.Value].has(v)
	}
	return e.Value == v
}

func (u MRule) inLen() int { return len(u.Head) + len(u.Body) + len(u.Tail) }
func (u MRule) elems() []MElem {
	out := append([]MElem(nil), u.Head...)
	return append(append(out, u.Body...), u.Tail...)
}

func (u MRule) matches(in []int32, sets []MSet) bool {
	if len(in) < u.inLen() {
		return false
	}
	for i, e := range u.Head {
		if !e.has(in[i], sets) {
			return false
		}
	}
	in = in[len(u.Head):]
	for i, e := range u.Body {
		if !e.has(in[i], sets) {
			return false
		}
	}
	in = in[len(u.Body):]
	for i, e := range u.Tail {
		if !e.has(in[i], sets) {
			return false
		}
	}
	return true
}

// rewriteRef rewrites one unbroken sequence. active tells which conditions hold.
//
// The oldest unreported element is the candidate start of a match. The longest
// rule that matches there wins, the earliest rule on ties. The tail of a match
// is reported but can still be the head of a later match; as reported elements
// can't be replaced, only rules whose head covers them are eligible then.
func rewriteRef(rules []MRule, sets []MSet, active func(cond uint8) bool, in []int32, st *rewriteStats) []int32 {
	var out []int32
	reported := 0 // elements at the current position that have been reported already
	for p := 0; p < len(in); {
		best, n := -1, 0
		for i, u := range rules {
			if (u.Cond != 255 && !active(u.Cond)) || !u.matches(in[p:], sets) {
				continue
			}
			if len(u.Head) < reported {
				st.blocked++
				continue
			}
			if best >= 0 {
				st.ambiguous++
				if u.inLen() > rules[best].inLen() {
					st.lostToLonger++
				}
			}
			if best < 0 || u.inLen() > rules[best].inLen() {
				best, n = i, n+1
			}
		}
		if best < 0 {
			if reported > 0 {
				reported--
			} else {
				out = append(out, in[p])
			}
			p++
			continue
		}
		u := rules[best]
		st.rewrites++
		if reported > 0 {
			st.tailReused++
		}
		if len(u.Head) > 0 {
			st.heads++
		}
		if len(u.Tail) > 0 {
			st.tails++
		}
		for _, e := range u.elems() {
			if e.Set {
				st.setHits++
			}
		}
		out = append(out, in[p+reported:p+len(u.Head)]...)
		out = append(out, u.Out...)
		p += len(u.Head) + len(u.Body)
		out = append(out, in[p:p+len(u.Tail)]...)
		reported = len(u.Tail)
	}
	return out
}

// ---- generators ----

// alphabet of values that can be fed
func (r *RNG) alphabet(glyph bool, n int) []int32 {
	var cand []int32
	top := int32(56788)
	if !glyph {
		top = 0x10FFFF
	}
	switch r.Intn(3) {
	case 0: // consecutive
		base := int32(r.Intn(300))
		if r.OneIn(4) {
			base = top - int32(n) - int32(r.Intn(3))
		} else if r.OneIn(4) {
			base = int32(r.Range(int(top)/4, int(top)-300))
		}
		for i := 0; i < n; i++ {
			cand = append(cand, base+int32(i))
		}
	case 1: // around powers of two and the ends
		for len(cand) < n {
			v := int32(1)<<r.Intn(21) + int32(r.Range(-1, 1))
			if r.OneIn(8) {
				v = top - int32(r.Intn(2))
			} else if r.OneIn(8) {
				v = int32(r.Intn(2))
			}
			if v <= top {
				cand = append(cand, v)
			}
		}
	default:
		for len(cand) < n {
			cand = append(cand, int32(r.Intn(int(top)+1)))
		}
	}
	for i, v := range cand {
		if !glyph && (v >= 0xD800 && v <= 0xDFFF || v == 0xFFFD) {
			cand[i] = 0xE000 + int32(i)
		}
	}
	return cand
}

func (r *RNG) setsOver(glyph bool, alpha []int32, n int) (out []MSet) {
	top := int32(56788)
	if !glyph {
		top = 0x10FFFF
	}
	for i := 0; i < n; i++ {
		var s MSet
		lim := pick(r, []int{2, 2, 5})
		for k := r.Intn(lim + 1); k > 0; k-- {
			f := pick(r, alpha)
			if r.OneIn(4) && f > 3 {
				f -= int32(r.Intn(4))
			}
			x := r.Intn(4)
			if r.OneIn(6) {
				x = r.Intn(256)
			}
			s.Ranges = append(s.Ranges, MRange{f, byte(min(x, int(top-f)))})
		}
		for k := r.Intn(lim + 1); k > 0; k-- {
			s.List = append(s.List, pick(r, alpha))
		}
		if len(s.Ranges)+len(s.List) == 0 && !r.OneIn(6) {
			s.List = append(s.List, pick(r, alpha))
		}
		out = append(out, s)
	}
	return out
}

type ruleGen struct {
	alpha   []int32
	sets    []int // usable set indices
	conds   int
	setOdds int // of 8
	maxLen  int // per block
	rules   []MRule
}

func (g *ruleGen) elem(r *RNG) MElem {
	if len(g.sets) > 0 && r.Intn(8) < g.setOdds {
		return MElem{true, int32(pick(r, g.sets))}
	}
	return MElem{false, pick(r, g.alpha)}
}

func (g *ruleGen) split(r *RNG, in []MElem, cond uint8) MRule {
	n := len(in)
	h, t := 0, 0
	if n > 1 && r.Bool() {
		h = r.Intn(min(n, 4))
	}
	if n-h > 1 && r.Bool() {
		t = r.Intn(min(n-h, 4))
	}
	u := MRule{Cond: cond}
	u.Head = append(u.Head, in[:h]...)
	u.Body = append(u.Body, in[h:n-t]...)
	u.Tail = append(u.Tail, in[n-t:]...)
	for k := 1 + r.Intn(len(u.Body)); k > 0; k-- {
		u.Out = append(u.Out, pick(r, g.alpha))
	}
	return u
}

func (g *ruleGen) next(r *RNG) MRule {
	cond := uint8(255)
	if g.conds > 0 && !r.OneIn(4) {
		cond = uint8(r.Intn(g.conds))
	}
	if len(g.rules) > 0 && r.Bool() {
		// derived from an earlier rule: shared prefixes, same input with other blocks
		old := pick(r, g.rules)
		in := old.elems()
		if r.OneIn(6) { // the same but for the condition or one output
			old.Out = append([]int32(nil), old.Out...)
			if r.Bool() {
				old.Cond = cond
			} else if i, e := r.Intn(len(old.Out)), g.elem(r); !e.Set {
				old.Out[i] = e.Value
			}
			return old
		}
		if r.Bool() {
			cond = old.Cond
		}
		switch r.Intn(5) {
		case 0:
		case 1:
			in[r.Intn(len(in))] = g.elem(r)
		case 2:
			in = in[:1+r.Intn(len(in))]
		case 3:
			in = in[r.Intn(len(in)):]
		default:
			if len(in) < 200 {
				in = append(in, g.elem(r))
			}
		}
		return g.split(r, in, cond)
	}
	var in []MElem
	for n := 1 + r.Intn(g.maxLen); n > 0; n-- {
		in = append(in, g.elem(r))
	}
	return g.split(r, in, cond)
}

func (g *ruleGen) gen(r *RNG, n int) []MRule {
	for ; n > 0; n-- {
		g.rules = append(g.rules, g.next(r))
	}
	return g.rules
}

// resplit makes rules with the same input, or nearly so, with the limits of the
// blocks in many different places.
func (g *ruleGen) resplit(r *RNG, n int) []MRule {
	var base []MElem
	for k := 2 + r.Intn(9); k > 0; k-- {
		base = append(base, g.elem(r))
	}
	for ; n > 0; n-- {
		in := append([]MElem(nil), base...)
		switch r.Intn(6) {
		case 0:
			in = in[:1+r.Intn(len(in))]
		case 1:
			in[r.Intn(len(in))] = g.elem(r)
		case 2:
			in = append(in, g.elem(r))
		}
		h := r.Intn(len(in))
		b := 1 + r.Intn(min(len(in)-h, pick(r, []int{1, 2, 9})))
		if r.Bool() { // no tail
			b = len(in) - h
		}
		u := MRule{Cond: 255, Head: in[:h], Body: in[h : h+b], Tail: in[h+b:]}
		for k := 1 + r.Intn(b); k > 0; k-- {
			u.Out = append(u.Out, pick(r, g.alpha))
		}
		g.rules = append(g.rules, u)
	}
	return g.rules
}

// sharedCase: many branches that lead to the same continuations. Each of k
// elements starts a rule of its own, and some rules start with any of them, and
// go on with sets of many separate values.
func sharedCase(c *Ctx, glyph bool) {
	w := newRewriteFont(c, glyph, false)
	k, n := c.Range(2, 60), c.Range(1, 30)
	if c.Bool() {
		k = pick(c.RNG, []int{4, 8, 16, 32, 64})
		n = pick(c.RNG, []int{240, 256, 256, 272}) / k
	}
	starts := c.alphabet(glyph, k)
	var conts []int32
	step := pick(c.RNG, []int32{2, 3, 100})
	for i := 0; i < n; i++ {
		conts = append(conts, 1000+int32(i)*step)
	}
	few := c.alphabet(glyph, 3)
	w.sets, w.used = nil, nil
	add := func(s MSet) MElem {
		w.used = append(w.used, len(w.sets))
		w.sets = append(w.sets, s)
		return MElem{true, int32(len(w.sets) - 1)}
	}
	some := func(of []int32) (s MSet) {
		for _, v := range of {
			if !c.OneIn(20) {
				s.List = append(s.List, v)
			}
		}
		return
	}
	first := []MElem{add(MSet{List: starts}), add(some(starts)), add(some(starts))}
	then := []MElem{add(MSet{List: conts}), add(some(conts)), add(some(conts))}
	any := func(of []int32) MElem { return MElem{false, pick(c.RNG, of)} }
	w.alpha = append(append(append([]int32(nil), few...), pick(c.RNG, starts)), pick(c.RNG, conts))
	w.m.GlyphSets, w.m.RuneSets = nil, nil
	if glyph {
		w.m.GlyphSets = w.sets
	} else {
		w.m.RuneSets = w.sets
	}
	w.parse(c)
	g := &ruleGen{alpha: few}
	var rules []MRule
	for i, v := range starts {
		in := []MElem{{false, v}, any(pick(c.RNG, [][]int32{few, conts}))}
		if c.Bool() {
			in = append(in, any(few))
		}
		if !c.OneIn(30) || i == 0 {
			rules = append(rules, g.split(c.RNG, in, 255))
		}
	}
	more := 1 + c.Intn(4)
	for i := 0; i < more; i++ {
		in := []MElem{pick(c.RNG, first), pick(c.RNG, then)}
		for c.Bool() {
			in = append(in, pick(c.RNG, append(then, any(few), any(few))))
		}
		rules = append(rules, g.split(c.RNG, in, 255))
	}
	for i := c.Intn(6); i > 0; i-- {
		in := []MElem{any(starts), pick(c.RNG, append(then, any(conts)))}
		for c.Bool() {
			in = append(in, any(pick(c.RNG, [][]int32{few, conts})))
		}
		rules = append(rules, g.split(c.RNG, in, 255))
	}
	if c.OneIn(3) {
		var mixed []MRule
		for _, i := range c.Perm(len(rules)) {
			mixed = append(mixed, rules[i])
		}
		rules = mixed
	}
	c.Count("max_branches", k)
	rewriteCase(c, w, rules, 4, 200)
}

// ladderCase: rules with the same input except for the last element, which is
// one of several overlapping sets, and with heads of many lengths, met after
// tails of many lengths. Which of them is used depends on both.
func ladderCase(c *Ctx, glyph bool) {
	w := newRewriteFont(c, glyph, false)
	few, last, starts := []int32{97, 98}, []int32{200, 201, 202, 203, 204, 205}, []int32{300, 301, 302, 303, 304, 305, 306}
	w.sets, w.used = nil, nil
	lasts := []MElem{}
	for k := c.Range(2, 5); k > 0; k-- {
		var m MSet
		for _, v := range last {
			if c.Bool() {
				m.List = append(m.List, v)
			}
		}
		if len(m.List) == 0 || c.OneIn(3) {
			m = MSet{List: []int32{pick(c.RNG, last)}, Ranges: []MRange{{last[0], uint8(c.Intn(len(last)))}}}
		}
		w.used = append(w.used, len(w.sets))
		w.sets = append(w.sets, m)
		lasts = append(lasts, MElem{true, int32(len(w.sets) - 1)})
	}
	for k := c.Intn(4); k > 0; k-- {
		lasts = append(lasts, MElem{false, pick(c.RNG, last)})
	}
	w.m.GlyphSets, w.m.RuneSets = nil, nil
	if glyph {
		w.m.GlyphSets = w.sets
	} else {
		w.m.RuneSets = w.sets
	}
	w.alpha = append(append([]int32{}, few...), last...)
	w.parse(c)

	n := c.Range(2, 7) // length of the shared part
	base := make([]MElem, n)
	for i := range base {
		base[i] = MElem{false, pick(c.RNG, few)}
	}
	var heads []int
	for k := c.Range(4, 14); k > 0; k-- {
		heads = append(heads, c.Intn(n+1))
	}
	if !c.OneIn(3) {
		sort.Ints(heads)
	}
	var rules []MRule
	for i, h := range heads {
		in := append(append([]MElem(nil), base...), pick(c.RNG, lasts))
		if c.OneIn(8) {
			in = append(in[:n:n], pick(c.RNG, lasts), pick(c.RNG, lasts))
		}
		b := 1 + c.Intn(len(in)-h)
		if c.Bool() {
			b = len(in) - h
		}
		rules = append(rules, MRule{Cond: 255, Head: in[:h], Body: in[h : h+b], Tail: in[h+b:], Out: []int32{400 + int32(i)}})
	}
	// rules that only leave a tail of some length before the others
	for t := 0; t < min(n, len(starts)-1); t++ {
		rules = append(rules, MRule{Cond: 255, Body: []MElem{{false, starts[t]}}, Tail: base[:t], Out: []int32{500}})
	}
	if c.OneIn(4) {
		var mixed []MRule
		for _, i := range c.Perm(len(rules)) {
			mixed = append(mixed, rules[i])
		}
		rules = mixed
	}
	x := newWatched(c, w)
	x.guard(func() {
		for _, u := range rules {
			x.add(u)
		}
		var in []int32
		for k := 0; k < 14; k++ {
			if !c.OneIn(4) {
				in = append(in, pick(c.RNG, starts))
			}
			for _, e := range base {
				in = append(in, e.Value)
			}
			in = append(in, pick(c.RNG, last))
			if c.OneIn(4) {
				in = append(in, pick(c.RNG, w.alpha))
			}
		}
		before := x.stats.rewrites
		x.run(in)
		c.Count("ladder_sequences", 1)
		c.Eval(keyOf(rules, in), x.stats.rewrites > before)
	})
	x.report()
}

// revivedCase: a long rule fails late, a shorter one is used instead and leaves
// a tail, and what had been kept for the long rule is looked at again with rules
// whose heads and bodies reach over many elements of it.
func revivedCase(c *Ctx, glyph bool) {
	w := newRewriteFont(c, glyph, false)
	w.alpha = w.alpha[:min(len(w.alpha), c.Range(1, 3))]
	w.parse(c)
	g := w.gen(c)
	g.setOdds = pick(c.RNG, []int{0, 0, 8})
	var base []MElem
	for n := c.Range(24, 150); len(base) < n; {
		base = append(base, g.elem(c.RNG))
	}
	other := MElem{false, 60} // ends the longest rules
	n := len(base)
	var rules []MRule
	add := func(from, h, b, t int, last bool) {
		in := append([]MElem(nil), base[from:from+h+b+t]...)
		if last {
			in = append(in, other)
			b += 1
		}
		u := MRule{Cond: 255, Head: in[:h], Body: in[h : h+b], Tail: in[h+b:]}
		for k := pick(c.RNG, []int{1, min(b, 3)}); k > 0; k-- {
			u.Out = append(u.Out, 500+int32(len(rules)))
		}
		for _, v := range rules {
			if fmt.Sprint(v) == fmt.Sprint(u) {
				return
			}
		}
		rules = append(rules, u)
	}
	add(0, 0, n, 0, true)
	b, t := c.Range(1, 4), c.Range(1, 9)
	add(0, 0, b, t, false)
	for k := c.Range(1, 4); k > 0; k-- {
		at := b + pick(c.RNG, []int{0, 0, 0, t, c.Intn(6)})
		h := pick(c.RNG, []int{0, t, t, t + c.Intn(4), c.Intn(n - at - 1)})
		h = min(h, n-at-1)
		m := c.Range(1, n-at-h)
		add(at, h, m, pick(c.RNG, []int{0, min(3, n-at-h-m), c.Intn(n - at - h - m + 1)}), c.OneIn(4) && h+m == n-at)
	}
	x := newWatched(c, w)
	x.guard(func() {
		for _, u := range rules {
			x.add(u)
		}
		if err := x.t.Resync(w.f, w.sc); err != nil {
			if mustCompile(rules, w.sets) {
				x.failf("compile", "Resync with %d simple rules fails: %v", len(rules), err)
			}
			c.Count("too_complex", 1)
			return
		}
		for s := 0; s < 4; s++ {
			var in []int32
			for k := c.Range(1, 3); k > 0; k-- {
				stop := pick(c.RNG, []int{n, c.Range(1, n)})
				for _, e := range base[:stop] {
					if v, ok := e.anyOf(c.RNG, w.sets); ok && okInput(glyph, v) {
						in = append(in, v)
					}
				}
				in = append(in, pick(c.RNG, []int32{other.Value, 61, w.alpha[0]}))
			}
			before := x.stats.rewrites
			x.run(in)
			c.Count("revived_sequences", 1)
			c.Eval(keyOf(rules, in), x.stats.rewrites > before)
		}
	})
	x.report()
}

// longestCase: rules as long as they can be, and shorter ones that match at the
// same places with other conditions.
func longestCase(c *Ctx, glyph bool) {
	w := newRewriteFont(c, glyph, true)
	w.parse(c)
	for n := c.Intn(4); n > 0; n-- {
		w.set(c)
	}
	g := w.gen(c)
	g.setOdds = pick(c.RNG, []int{0, 0, 1})
	var on []uint8 // conditions that hold
	for i := range w.m.Conds {
		if w.active(uint8(i)) {
			on = append(on, uint8(i))
		}
	}
	var base []MElem
	for len(base) < 255 {
		base = append(base, g.elem(c.RNG))
	}
	var rules []MRule
	for i := 1 + c.Intn(4); i > 0; i-- {
		n := pick(c.RNG, []int{c.Range(1, 255), c.Range(1, 12)})
		if c.Bool() {
			n = pick(c.RNG, []int{128, 200, 249, 254, 255, 255})
		}
		in := base[:n]
		h := pick(c.RNG, []int{0, n - 1, c.Intn(n)})
		b := pick(c.RNG, []int{1, n - h, 1 + c.Intn(n-h)})
		u := MRule{Cond: 255, Head: in[:h], Body: in[h : h+b], Tail: in[h+b:]}
		if len(on) > 0 && !c.OneIn(3) {
			u.Cond = pick(c.RNG, on)
		} else if c.OneIn(4) {
			u.Cond = uint8(c.Intn(len(w.m.Conds)))
		}
		for k := pick(c.RNG, []int{1, b, 1 + c.Intn(b)}); k > 0; k-- {
			u.Out = append(u.Out, pick(c.RNG, w.alpha))
		}
		rules = append(rules, u)
		c.Count("max_rule_length", n)
	}
	rewriteCase(c, w, rules, 3, 700)
}

// anyOf returns a value the element accepts, if there is one.
func (e MElem) anyOf(r *RNG, sets []MSet) (int32, bool) {
	if !e.Set {
		return e.Value, true
	}
	s := sets[e.Value]
	n := len(s.Ranges) + len(s.List)
	if n == 0 {
		return 0, false
	}
	k := r.Intn(n)
	if k >= len(s.Ranges) {
		return s.List[k-len(s.Ranges)], true
	}
	x := int32(r.Intn(int(s.Ranges[k].Extra) + 1))
	if r.OneIn(3) {
		x = pick(r, []int32{0, int32(s.Ranges[k].Extra)})
	}
	return s.Ranges[k].First + x, true
}

func okInput(glyph bool, v int32) bool {
	if glyph {
		return v >= 0 && v <= 56789
	}
	return v >= 0 && v <= 0x10FFFF && (v < 0xD800 || v > 0xDFFF) && v != 0xFFFD
}

// input mixes random values with (partial, overlapping) inputs of the rules.
func (r *RNG) input(glyph bool, rules []MRule, sets []MSet, alpha []int32, n int) (in []int32) {
	for len(in) < n {
		if len(rules) == 0 || r.OneIn(4) {
			v := pick(r, alpha)
			switch r.Intn(12) {
			case 0:
				v++
			case 1:
				v--
			case 2:
				if len(in) > 0 {
					v = in[len(in)-1]
				}
			case 3:
				if glyph {
					v = 56789 // the missing glyph
				}
			}
			if okInput(glyph, v) {
				in = append(in, v)
			}
			continue
		}
		el := pick(r, rules).elems()
		from, to := 0, len(el)
		if r.OneIn(3) {
			to = 1 + r.Intn(len(el))
		}
		if r.OneIn(3) {
			from = r.Intn(to)
		}
		odds := max(25, 3*(to-from)) // long inputs have to match too
		for _, e := range el[from:to] {
			v, ok := e.anyOf(r, sets)
			if r.OneIn(odds) {
				v = pick(r, alpha)
				ok = true
			}
			if ok && okInput(glyph, v) {
				in = append(in, v)
			}
		}
		if r.OneIn(6) && len(in) > 0 { // overlap
			in = in[:len(in)-1]
			if len(in) == 0 {
				in = append(in, alpha[0])
			}
		}
	}
	return in
}

// rewriteFont is a font with sets, conditions and settings for the rules.
type rewriteFont struct {
	f     *ggfnt.Font
	m     *Model
	sc    *ggfnt.SettingsCache
	st    []uint8
	glyph bool
	alpha []int32
	used  []int // sets in use
	sets  []MSet
}

func (w *rewriteFont) active(cond uint8) bool { return w.m.Conds[cond].eval(w.st) }

func (w *rewriteFont) set(c *Ctx) {
	k := c.Intn(len(w.st))
	v := uint8(c.Intn(len(w.m.Settings[k].Options)))
	w.st[k] = v
	w.sc.Set(ggfnt.SettingKey(k), v)
	c.Logf("set setting %d to %d", k, v)
	c.Count("setting_changes", 1)
}

func newRewriteFont(c *Ctx, glyph, conds bool) *rewriteFont {
	w := &rewriteFont{glyph: glyph, alpha: c.alphabet(glyph, pick(c.RNG, []int{2, 3, 5, 8}))}
	for {
		w.m = c.Model(ModelOpts{Only: "conditions", MaxGlyphs: 2, NoOps: true})
		w.m.GlyphRules, w.m.RuneRules = nil, nil
		if !conds {
			w.m.Conds = nil
			break
		}
		if len(w.m.Conds) > 0 {
			break
		}
	}
	sets := c.setsOver(glyph, w.alpha, pick(c.RNG, []int{0, 1, 2, 4}))
	at := 0
	if len(sets) > 0 && c.OneIn(4) { // among many sets
		at = pick(c.RNG, []int{1, 127, 128, 200, 255 - len(sets)})
	}
	for i := 0; i < at; i++ {
		w.sets = append(w.sets, c.setsOver(glyph, w.alpha, 1)[0])
	}
	for i := range sets {
		w.used = append(w.used, at+i)
	}
	w.sets = append(w.sets, sets...)
	w.m.GlyphSets, w.m.RuneSets = nil, nil
	if glyph {
		w.m.GlyphSets = w.sets
	} else {
		w.m.RuneSets = w.sets
	}
	return w
}

func (w *rewriteFont) parse(c *Ctx) {
	raw, _ := w.m.encode()
	w.f = mustParse(c, pack(raw))
	w.sc = ggfnt.NewSettingsCache(w.f)
	w.st = make([]uint8, len(w.m.Settings))
}

func (w *rewriteFont) gen(c *Ctx) *ruleGen {
	g := &ruleGen{alpha: w.alpha, sets: w.used, setOdds: pick(c.RNG, []int{1, 4, 7}), maxLen: pick(c.RNG, []int{2, 3, 5})}
	if len(w.m.Conds) > 0 {
		g.conds = min(len(w.m.Conds), pick(c.RNG, []int{1, 2, 4, 255}))
	}
	return g
}

// ---- complexity of rule lists ----

// mustCompile tells whether the rule list is certainly small enough to be
// compiled. Each condition has its own tree of at most 254 states, each with at
// most 254 transitions. Feeding a rule to a tree needs one state for each set
// of rules, this one included, that agree on some prefix that isn't yet the
// whole of this one: if all of those fit, with none ever being freed, the list
// must compile.
func mustCompile(rules []MRule, sets []MSet) bool {
	if len(rules) > 254 {
		return false
	}
	by := map[uint8][]MRule{}
	for _, u := range rules {
		by[u.Cond] = append(by[u.Cond], u)
	}
	for _, list := range by {
		if !mustFit(list, sets) {
			return false
		}
	}
	return true
}

type valueSpan struct{ lo, hi int64 } // hi exclusive

func elemSpans(e MElem, sets []MSet) []valueSpan {
	if !e.Set {
		return []valueSpan{{int64(e.Value), int64(e.Value) + 1}}
	}
	var out []valueSpan
	for _, r := range sets[e.Value].Ranges {
		out = append(out, valueSpan{int64(r.First), int64(r.First) + int64(r.Extra) + 1})
	}
	for _, v := range sets[e.Value].List {
		out = append(out, valueSpan{int64(v), int64(v) + 1})
	}
	return out
}

func mustFit(list []MRule, sets []MSet) bool {
	const limit = 248
	type ruleSet [4]uint64
	spans := make([][][]valueSpan, len(list)) // of each element of each rule
	for i, u := range list {
		for _, e := range u.elems() {
			spans[i] = append(spans[i], elemSpans(e, sets))
		}
	}
	work := 0
	// pieces of the union of what the rules of a state accept next
	cuts := func(s *ruleSet, depth, last int) []int64 {
		var pts []int64
		for r := 0; r <= last; r++ {
			if s[r>>6]>>(r&63)&1 != 0 {
				for _, sp := range spans[r][depth] {
					pts = append(pts, sp.lo, sp.hi)
				}
			}
		}
		work += len(pts) * 4
		slices.Sort(pts)
		return slices.Compact(pts)
	}
	fits := func(s *ruleSet, pts []int64, depth, last int) bool {
		if len(pts) <= limit {
			return true
		}
		n := 0
		for k := 0; k+1 < len(pts); k++ {
			work += last
		search:
			for r := 0; r <= last; r++ {
				if s[r>>6]>>(r&63)&1 == 0 {
					continue
				}
				for _, sp := range spans[r][depth] {
					if sp.lo <= pts[k] && pts[k] < sp.hi {
						n++
						break search
					}
				}
			}
		}
		return n <= limit
	}
	states := 1
	for i := range list {
		var root ruleSet
		for r := 0; r <= i; r++ {
			if len(spans[r]) > 0 {
				root[r>>6] |= 1 << (r & 63)
			}
		}
		level := map[ruleSet]bool{root: true}
		for depth := 0; depth < len(spans[i]); depth++ {
			next := map[ruleSet]bool{}
			for s := range level {
				pts := cuts(&s, depth, i)
				if (depth > 0 || i == len(list)-1) && !fits(&s, pts, depth, i) {
					return false
				}
				if depth+1 == len(spans[i]) {
					continue
				}
				for _, own := range spans[i][depth] {
					k, _ := slices.BinarySearch(pts, own.lo)
					for ; k < len(pts) && pts[k] < own.hi; k++ {
						var t ruleSet
						for r := 0; r <= i; r++ {
							if s[r>>6]>>(r&63)&1 == 0 || len(spans[r]) <= depth+1 {
								continue
							}
							for _, sp := range spans[r][depth] {
								work++
								if sp.lo <= pts[k] && pts[k] < sp.hi {
									t[r>>6] |= 1 << (r & 63)
									break
								}
							}
						}
						next[t] = true
					}
				}
				if work > 3_000_000 || states+len(next) > limit {
					return false
				}
			}
			states += len(next)
			if states > limit {
				return false
			}
			level = next
		}
	}
	return true
}

func ruleList(rules []MRule) string {
	var b strings.Builder
	for i, u := range rules {
		fmt.Fprintf(&b, "\n  rule %d: %v", i, u)
	}
	return b.String()
}

func (u MRule) String() string {
	el := func(in []MElem) string {
		var s []string
		for _, e := range in {
			if e.Set {
				s = append(s, fmt.Sprintf("set%d", e.Value))
			} else {
				s = append(s, fmt.Sprint(e.Value))
			}
		}
		return strings.Join(s, " ")
	}
	return fmt.Sprintf("cond %d [%s] <%s> [%s] -> %v", u.Cond, el(u.Head), el(u.Body), el(u.Tail), u.Out)
}

func sameSeq(a, b []int32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- monitored testers ----

// watched is a tester together with the rules it should have.
type watched struct {
	c           *Ctx
	w           *rewriteFont
	t           tester
	rules       []MRule
	out         []int32 // emitted in the current sequence
	want        []int32 // expected output of the finished parts
	part        []int32 // input since the last break
	fresh       bool    // compare with new testers
	idleRefresh bool    // refresh conditions within sequences, with unchanged settings
	stats       rewriteStats
	inputs      int
	maxIn       int
}

func newWatched(c *Ctx, w *rewriteFont) *watched {
	return &watched{c: c, w: w, t: newTester(w.glyph)}
}

func (x *watched) data(u MRule) []byte { return encodeRule(u, x.w.glyph) }

func (x *watched) failf(key, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	sets := ""
	for _, i := range x.w.used {
		sets += fmt.Sprintf("\n  set %d: ranges %v list %v", i, x.w.sets[i].Ranges, x.w.sets[i].List)
	}
	x.c.Fail(key, "%s\nrules:%s%s", msg, ruleList(x.rules), sets)
}

func (x *watched) add(u MRule) {
	if err := x.t.add(x.data(u)); err != nil {
		x.failf("add", "AddRule(%v) with %d rules present: %v", u, len(x.rules), err)
	}
	x.rules = append(x.rules, u)
	x.c.Logf("add %v", u)
}

func (x *watched) remove(i int) {
	u := x.rules[i]
	d := string(x.data(u))
	for k := range x.rules { // the first of the equal ones goes
		if string(x.data(x.rules[k])) == d {
			i = k
			break
		}
	}
	if !x.t.remove(x.data(u)) {
		x.failf("remove", "RemoveRule(%v) doesn't find the rule", u)
	}
	x.rules = append(append([]MRule(nil), x.rules[:i]...), x.rules[i+1:]...)
	x.c.Logf("remove %v", u)
}

func (x *watched) emit(v int32) { x.out = append(x.out, v) }

func (x *watched) idle(when string) {
	if x.t.IsOperating() {
		x.failf("operating", "IsOperating() is true %s", when)
	}
	if n := x.t.pending(); n != 0 {
		x.failf("pending", "%d elements remain pending %s", n, when)
	}
	if n := x.t.NumRules(); n != len(x.rules) {
		x.failf("numrules", "NumRules() = %d %s, expected %d", n, when, len(x.rules))
	}
}

func (x *watched) begin() error {
	x.idle("before a sequence")
	x.out, x.want, x.part = nil, nil, nil
	x.maxIn = 1
	for _, u := range x.rules {
		x.maxIn = max(x.maxIn, u.inLen())
	}
	err := x.t.BeginSequence(x.w.f, x.w.sc)
	if err != nil && mustCompile(x.rules, x.w.sets) {
		x.failf("compile", "BeginSequence with %d simple rules fails: %v", len(x.rules), err)
	}
	if x.fresh && len(x.rules) <= 254 && x.c.OneIn(3) { // as any other tester with the same rules
		y := newTester(x.w.glyph)
		for _, u := range x.rules {
			if err := y.add(x.data(u)); err != nil {
				x.failf("add", "AddRule(%v) to another tester: %v", u, err)
			}
		}
		err2 := y.BeginSequence(x.w.f, x.w.sc)
		if (err2 == nil) != (err == nil) {
			x.failf("compile", "BeginSequence with %d rules: %v, with a tester that only ever had these: %v", len(x.rules), err, err2)
		}
		x.c.Count("compared_with_new_testers", 1)
	}
	if x.t.IsOperating() != (err == nil) {
		x.failf("operating", "IsOperating() is %v after BeginSequence returned %v", x.t.IsOperating(), err)
	}
	return err
}

func (x *watched) feed(v int32) {
	if err := x.t.feed(v, x.emit); err != nil {
		x.failf("feed", "Feed(%d): %v", v, err)
	}
	x.part = append(x.part, v)
	x.inputs++
	if x.idleRefresh && x.c.OneIn(5) { // nothing changed, so nothing may happen
		x.t.RefreshConditions(x.w.f, x.w.sc)
		x.c.Count("idle_refreshes", 1)
	}
	// each reported element comes from one that was fed
	if n := x.t.pending(); n > x.maxIn {
		x.failf("pending", "%d elements are pending but no rule is longer than %d", n, x.maxIn)
	}
}

func (x *watched) endPart(how string) {
	x.want = append(x.want, rewriteRef(x.rules, x.w.sets, x.w.active, x.part, &x.stats)...)
	if !sameSeq(x.out, x.want) {
		x.failf("output", "after %s following input %v: output %v, expected %v (settings %v)", how, x.part, x.out, x.want, x.w.st)
	}
	x.part = nil
	if n := x.t.pending(); n != 0 {
		x.failf("pending", "%d elements remain pending after %s", n, how)
	}
}

func (x *watched) brk() {
	x.t.brk(x.emit)
	x.endPart("Break")
	if !x.t.IsOperating() {
		x.failf("operating", "IsOperating() is false after Break")
	}
}

func (x *watched) finish() {
	x.t.finish(x.emit)
	x.endPart("FinishSequence")
	x.idle("after a sequence")
}

// run feeds one sequence without breaks.
func (x *watched) run(in []int32) {
	if x.begin() != nil {
		x.c.Count("too_complex", 1)
		return
	}
	for _, v := range in {
		x.feed(v)
	}
	x.finish()
}

func (x *watched) report() {
	c, s := x.c, x.stats
	c.Count("elements_fed", x.inputs)
	c.Count("rewrites", s.rewrites)
	c.Count("rewrites_with_head", s.heads)
	c.Count("rewrites_with_tail", s.tails)
	c.Count("set_elements_matched", s.setHits)
	c.Count("ambiguous_matches", s.ambiguous)
	c.Count("longer_match_wins", s.lostToLonger)
	c.Count("tails_reused_as_heads", s.tailReused)
	c.Count("matches_blocked_by_reported_tail", s.blocked)
}

// guard turns panics of the code under test into failures with the rules.
func (x *watched) guard(fn func()) {
	if p, stack := Try(fn); p != nil {
		x.failf("panic", "a tester operation panicked: %v\n%s", p, trimStack(stack))
	}
}

func keyOf(rules []MRule, in []int32) uint64 {
	return hashStr(fmt.Sprint(rules, in))
}

// rewriteCase: some rules, a few sequences, a fresh tester for each.
func rewriteCase(c *Ctx, w *rewriteFont, rules []MRule, seqs int, seqLen int) {
	x := newWatched(c, w)
	x.guard(func() {
		for _, u := range rules {
			x.add(u)
		}
		c.Count("rules", len(rules))
		must := mustCompile(rules, w.sets)
		if must {
			c.Count("compilable_lists", 1)
		}
		if err := x.t.Resync(w.f, w.sc); err != nil {
			if must {
				x.failf("compile", "Resync with %d simple rules fails: %v", len(rules), err)
			}
			c.Count("too_complex", 1)
			return
		}
		for ; seqs > 0; seqs-- {
			in := c.input(w.glyph, x.rules, w.sets, w.alpha, 1+c.Intn(seqLen))
			before := x.stats.rewrites
			x.run(in)
			c.Eval(keyOf(x.rules, in), x.stats.rewrites > before)
			if seqs == 1 {
				c.Sample("rules:%s\ninput %v\noutput %v", ruleList(x.rules), in, x.out)
			}
		}
	})
	x.report()
}

func rewriteWorkloads(glyph bool) []Workload {
	return []Workload{
		{Name: "dense", Quick: 6000, Thorough: 150000, Run: func(c *Ctx) {
			w := newRewriteFont(c, glyph, false)
			w.parse(c)
			rewriteCase(c, w, w.gen(c).gen(c.RNG, 1+c.Intn(6)), 6, 24)
		}},
		{Name: "conditions", Quick: 1500, Thorough: 40000, Run: func(c *Ctx) {
			w := newRewriteFont(c, glyph, true)
			w.parse(c)
			for n := c.Intn(6); n > 0; n-- {
				w.set(c)
			}
			rules := w.gen(c).gen(c.RNG, 1+c.Intn(8))
			on := 0
			for _, u := range rules {
				if u.Cond != 255 && w.active(u.Cond) {
					on++
				} else if u.Cond != 255 {
					c.Count("rules_with_false_condition", 1)
				}
			}
			c.Count("rules_with_true_condition", on)
			rewriteCase(c, w, rules, 4, 24)
		}},
		{Name: "many", Quick: 400, Thorough: 10000, Run: func(c *Ctx) {
			// many rules, close to the limits
			w := newRewriteFont(c, glyph, c.OneIn(3))
			w.alpha = c.alphabet(glyph, c.Range(8, 60))
			w.parse(c)
			g := w.gen(c)
			g.setOdds = pick(c.RNG, []int{0, 0, 1})
			n := pick(c.RNG, []int{20, 60, 120, 200, 254})
			c.Count("max_rules", n)
			rewriteCase(c, w, g.gen(c.RNG, n), 6, 60)
		}},
		{Name: "long", Quick: 300, Thorough: 8000, Run: func(c *Ctx) {
			// a few rules with long inputs
			w := newRewriteFont(c, glyph, false)
			w.parse(c)
			g := w.gen(c)
			g.setOdds = pick(c.RNG, []int{0, 1, 8})
			g.maxLen = pick(c.RNG, []int{30, 100, 240})
			rules := g.gen(c.RNG, 1+c.Intn(3))
			for i := range rules {
				if c.Bool() { // move the block limits
					in := rules[i].elems()
					h := c.Intn(len(in))
					b := 1 + c.Intn(len(in)-h)
					rules[i].Head, rules[i].Body, rules[i].Tail = in[:h], in[h:h+b], in[h+b:]
					rules[i].Out = nil
					for n := pick(c.RNG, []int{1, b, 1 + c.Intn(b)}); n > 0; n-- {
						rules[i].Out = append(rules[i].Out, pick(c.RNG, w.alpha))
					}
				}
				c.Count("max_rule_length", rules[i].inLen())
			}
			rewriteCase(c, w, rules, 3, 600)
		}},
		{Name: "resplit", Quick: 1500, Thorough: 40000, Run: func(c *Ctx) {
			w := newRewriteFont(c, glyph, false)
			w.alpha = w.alpha[:min(len(w.alpha), 1+c.Intn(3))]
			w.parse(c)
			g := w.gen(c)
			rewriteCase(c, w, g.resplit(c.RNG, pick(c.RNG, []int{3, 6, 12, 24})), 6, 40)
		}},
		{Name: "shared", Quick: 150, Thorough: 4000, Run: func(c *Ctx) { sharedCase(c, glyph) }},
		{Name: "ladder", Quick: 1500, Thorough: 40000, Run: func(c *Ctx) { ladderCase(c, glyph) }},
		{Name: "revived", Quick: 400, Thorough: 10000, Run: func(c *Ctx) { revivedCase(c, glyph) }},
		{Name: "longest", Quick: 100, Thorough: 2500, Run: func(c *Ctx) { longestCase(c, glyph) }},
		{Name: "font", Quick: 400, Thorough: 8000, Run: func(c *Ctx) {
			// the rules come from the font, through its accessors
			w := newRewriteFont(c, glyph, true)
			rules := w.gen(c).gen(c.RNG, 1+c.Intn(12))
			if glyph {
				w.m.GlyphRules = rules
			} else {
				w.m.RuneRules = rules
			}
			w.parse(c)
			for n := c.Intn(4); n > 0; n-- {
				w.set(c)
			}
			x := newWatched(c, w)
			x.guard(func() {
				for i, u := range rules {
					var err error
					if glyph {
						err = x.t.(*glyphTester).AddRule(w.f.Rewrites().GetGlyphRule(uint16(i)))
					} else {
						err = x.t.(*runeTester).AddRule(w.f.Rewrites().GetUtf8Rule(uint16(i)))
					}
					if err != nil {
						x.failf("add", "AddRule of rule %d of the font: %v", i, err)
					}
					x.rules = append(x.rules, u)
				}
				c.Count("rules", len(rules))
				for k := 0; k < 4; k++ {
					in := c.input(glyph, rules, w.sets, w.alpha, 1+c.Intn(30))
					before := x.stats.rewrites
					x.run(in)
					c.Eval(keyOf(rules, in), x.stats.rewrites > before)
				}
			})
			x.report()
		}},
	}
}

// noise feeds elements that must be ignored or refused without any effect.
func (x *watched) noise() {
	before := len(x.out)
	pend := x.t.pending()
	var v int32
	if x.w.glyph {
		v = int32(56790)
		if err := x.t.feed(v, x.emit); err != nil {
			x.failf("feed", "Feed(GlyphZilch): %v", err)
		}
		v = int32(x.c.Range(56791, 65535))
	} else {
		v = pick(x.c.RNG, []int32{-1, 0xD800, 0xDFFF, 0xFFFD, 0x110000, 0x7FFFFFFF, -0x80000000})
	}
	if err := x.t.feed(v, x.emit); err == nil {
		x.failf("feed", "Feed(%d) is accepted", v)
	}
	if len(x.out) != before || x.t.pending() != pend {
		x.failf("feed", "an ignored or refused element changed the output or the pending elements")
	}
	x.c.Count("refused_elements", 1)
}

// sequence feeds one sequence with breaks, and ends it.
func (x *watched) sequence(n int, parts int) bool {
	if err := x.begin(); err != nil {
		x.c.Count("too_complex", 1)
		return false
	}
	for ; parts > 0; parts-- {
		in := x.c.input(x.w.glyph, x.rules, x.w.sets, x.w.alpha, 1+x.c.Intn(n))
		if x.c.OneIn(8) {
			in = nil
		}
		if len(x.rules) > 0 && x.c.OneIn(3) { // stop in the middle of a rule
			el := pick(x.c.RNG, x.rules).elems()
			for _, e := range el[:x.c.Intn(len(el))] {
				if v, ok := e.anyOf(x.c.RNG, x.w.sets); ok && okInput(x.w.glyph, v) {
					in = append(in, v)
				}
			}
		}
		x.c.Logf("part %v", in)
		for _, v := range in {
			if x.c.OneIn(16) {
				x.noise()
			}
			x.feed(v)
		}
		if x.t.pending() > 0 {
			x.c.Count("ends_with_pending", 1)
		}
		if parts > 1 {
			x.brk()
			x.c.Count("breaks", 1)
			for x.c.OneIn(4) {
				x.brk() // again, with nothing pending
			}
		}
	}
	x.finish()
	x.c.Count("sequences", 1)
	return true
}

func historyCase(c *Ctx, glyph bool) {
	w := newRewriteFont(c, glyph, c.OneIn(3))
	w.parse(c)
	x := newWatched(c, w)
	h := c.U64()
	x.guard(func() {
		for _, u := range w.gen(c).gen(c.RNG, c.Intn(7)) {
			x.add(u)
		}
		c.Count("rules", len(x.rules))
		c.Sample("%d sequences over rules:%s", 12, ruleList(x.rules))
		changes := c.OneIn(3) // of rules, which must not let earlier sequences show either
		for n := c.Range(4, 12); n > 0; n-- {
			if !x.sequence(pick(c.RNG, []int{16, 16, 3}), c.Range(1, 4)) {
				break
			}
			if changes && c.Bool() {
				reworkRules(c, w, x)
			}
		}
	})
	x.report()
	c.Eval(h, x.stats.rewrites > 1)
}

// reworkRules leaves a tester with longer, shorter or other rules.
func reworkRules(c *Ctx, w *rewriteFont, x *watched) {
	switch k := c.Intn(4); {
	case k == 0 && len(x.rules) > 1: // the longest one
		at := 0
		for i, r := range x.rules {
			if r.inLen() > x.rules[at].inLen() {
				at = i
			}
		}
		x.remove(at)
	case k == 1 && len(x.rules) > 0:
		x.remove(c.Intn(len(x.rules)))
	case k == 2 && c.OneIn(3):
		x.t.RemoveAllRules()
		x.rules = nil
		c.Logf("remove all")
		fallthrough
	default:
		for _, u := range w.gen(c).gen(c.RNG, c.Range(1, 2)) {
			x.add(u)
		}
	}
	for len(x.rules) > 6 || (len(x.rules) > 0 && !mustCompile(x.rules, w.sets)) {
		x.remove(c.Intn(len(x.rules)))
	}
	x.idle("after a change of rules")
	c.Count("rule_changes_between_sequences", 1)
}

func changesCase(c *Ctx, glyph bool) {
	w := newRewriteFont(c, glyph, !c.OneIn(4))
	w.parse(c)
	x := newWatched(c, w)
	x.fresh = true
	x.idleRefresh = c.Bool()
	h := c.U64()
	g := w.gen(c)
	var old []MRule
	x.guard(func() {
		for n := c.Range(8, 40); n > 0; n-- {
			switch c.Intn(10) {
			case 0, 1, 2:
				u := g.next(c.RNG)
				if len(old) > 0 && c.OneIn(3) {
					u = pick(c.RNG, old) // a rule that was there, or still is
				}
				g.rules = append(g.rules, u)
				x.add(u)
				c.Count("rules_added", 1)
			case 3, 4:
				if len(x.rules) > 0 {
					i := c.Intn(len(x.rules))
					old = append(old, x.rules[i])
					x.remove(i)
					c.Count("rules_removed", 1)
				}
				if u := g.next(c.RNG); !x.has(u) && x.t.remove(x.data(u)) {
					x.failf("remove", "RemoveRule(%v) finds a rule that isn't there", u)
				}
				if len(x.rules) > 0 { // data that only starts like a rule, or misses its end
					b := slices.Clone(x.data(pick(c.RNG, x.rules)))
					if c.Bool() {
						b = append(b, c.Bytes(c.Range(1, 3))...)
					} else {
						b = b[:c.Intn(len(b))]
					}
					if x.t.remove(b) {
						x.failf("remove", "RemoveRule of %v finds a rule that isn't there", b)
					}
				}
			case 5:
				if c.OneIn(4) {
					old = append(old, x.rules...)
					x.t.RemoveAllRules()
					x.rules = nil
					c.Logf("remove all")
					c.Count("all_rules_removed", 1)
				}
			case 6:
				if len(w.m.Conds) > 0 {
					for k := c.Range(1, 3); k > 0; k-- {
						w.set(c)
					}
					x.refresh()
				}
			case 7:
				err := x.t.Resync(w.f, w.sc)
				if err != nil && mustCompile(x.rules, w.sets) {
					x.failf("compile", "Resync with %d simple rules fails: %v", len(x.rules), err)
				}
				c.Logf("resync")
				c.Count("resyncs", 1)
			default:
				if len(w.m.Conds) > 0 && c.OneIn(3) {
					x.changeWithin()
				} else {
					x.sequence(16, c.Range(1, 2))
				}
			}
			for len(x.rules) > 6 || (len(x.rules) > 0 && !mustCompile(x.rules, w.sets)) {
				x.remove(c.Intn(len(x.rules)))
			}
			x.idle("between operations")
		}
		x.sequence(20, 2)
	})
	x.report()
	c.Eval(h, x.stats.rewrites > 1)
}

func (x *watched) has(u MRule) bool {
	for _, v := range x.rules {
		if string(x.data(v)) == string(x.data(u)) {
			return true
		}
	}
	return false
}

func (x *watched) refresh() {
	x.t.RefreshConditions(x.w.f, x.w.sc)
	x.c.Count("refreshes", 1)
	x.c.Logf("refresh")
}

// changeWithin changes settings in the middle of a sequence, right after a break.
func (x *watched) changeWithin() {
	if x.begin() != nil {
		return
	}
	for k := 0; k < 3; k++ {
		for _, v := range x.c.input(x.w.glyph, x.rules, x.w.sets, x.w.alpha, 1+x.c.Intn(12)) {
			x.feed(v)
		}
		x.brk()
		for n := x.c.Range(1, 3); n > 0; n-- {
			x.w.set(x.c)
		}
		x.refresh()
		x.c.Count("refreshes_within_sequences", 1)
	}
	x.finish()
}

// ---- malformed rules ----

// ruleVerdict: 1 if the bytes are a well-formed rule, -1 if they are malformed,
// 0 if the specification leaves it open.
func ruleVerdict(b []byte, glyph bool, nsets, nconds int) (verdict int) {
	width := 4
	if glyph {
		width = 2
	}
	open := false
	i := 0
	bad := func() bool { return i > len(b) }
	if len(b) < 5 {
		return -1
	}
	if b[0] != 255 && int(b[0]) >= nconds {
		return -1
	}
	lens := []int{int(b[1]), int(b[2]), int(b[3])}
	if lens[0]+lens[1]+lens[2] > 255 || b[4] == 0 || int(b[4]) > lens[1] {
		return -1
	}
	i = 5 + width*int(b[4])
	if bad() {
		return -1
	}
	val := func(at int) int32 {
		if glyph {
			return int32(b[at]) | int32(b[at+1])<<8
		}
		return int32(b[at]) | int32(b[at+1])<<8 | int32(b[at+2])<<16 | int32(b[at+3])<<24
	}
	for k := 5; k < i; k += width {
		if v := val(k); !okInput(glyph, v) || v == 56789 {
			open = true // control glyphs and odd code points as output
		}
	}
	for blk, n := range lens {
		first := true
		for first || n > 0 {
			first = false
			if i >= len(b) {
				if blk == 2 && n == 0 {
					return 0 // no fragment for an empty tail
				}
				return -1
			}
			ns, ne := int(b[i]>>4), int(b[i]&15)
			i++
			if ns+ne > n || (ns+ne == 0 && n > 0) {
				return -1
			}
			n -= ns + ne
			for ; ns > 0; ns-- {
				if i >= len(b) || int(b[i]) >= nsets {
					return -1
				}
				i++
			}
			for ; ne > 0; ne-- {
				if i+width > len(b) {
					return -1
				}
				v := val(i)
				if glyph && v >= 56789 || !glyph && v == 0xFFFD {
					return -1
				}
				if !okInput(glyph, v) {
					open = true
				}
				i += width
			}
		}
	}
	if i != len(b) {
		return -1
	}
	if open {
		return 0
	}
	return 1
}

func malformedCase(c *Ctx, glyph bool) {
	w := newRewriteFont(c, glyph, c.Bool())
	w.parse(c)
	x := newWatched(c, w)
	other := newWatched(c, w)
	g := w.gen(c)
	bad := 0
	x.guard(func() {
		for _, u := range g.gen(c.RNG, c.Intn(4)) {
			x.add(u)
		}
		for _, u := range g.gen(c.RNG, 1+c.Intn(3)) {
			if len(other.rules) < 4 {
				other.add(u)
			}
		}
		for n := c.Range(4, 10); n > 0; n-- {
			b := x.data(g.next(c.RNG))
			for k := c.Intn(3); k >= 0; k-- {
				b = mutateRule(c, b, glyph)
			}
			dup := false
			for _, u := range x.rules {
				dup = dup || string(x.data(u)) == string(b)
			}
			if dup {
				continue
			}
			v := ruleVerdict(b, glyph, len(w.sets), len(w.m.Conds))
			c.Logf("rule %v verdict %d", b, v)
			c.Count(fmt.Sprintf("rules_offered_verdict_%d", v), 1)
			at := len(x.rules)
			err := x.t.add(b)
			if err == nil {
				x.rules = append(x.rules, MRule{}) // counted
				if c.OneIn(4) {
					x.t.RefreshConditions(w.f, w.sc)
				}
				when := "Resync"
				if c.Bool() {
					err = x.t.Resync(w.f, w.sc)
				} else {
					when = "BeginSequence"
					err = x.t.BeginSequence(w.f, w.sc)
					if err == nil {
						x.t.finish(x.emit)
					}
				}
				if x.t.IsOperating() {
					x.failf("operating", "IsOperating() is true after %s with rule %v (error %v)", when, b, err)
				}
				if err != nil && c.OneIn(3) { // it doesn't go away by itself
					if x.t.BeginSequence(w.f, w.sc) == nil {
						x.failf("error", "%s fails with rule %v (%v), but BeginSequence works afterwards", when, b, err)
					}
				}
				if c.Bool() { // others work meanwhile
					other.sequence(12, 1)
				}
				if !x.t.remove(append([]byte(nil), b...)) {
					x.failf("remove", "RemoveRule doesn't find the rule %v just added", b)
				}
				x.rules = x.rules[:at]
			}
			if e, ok := err.(interface{ Rule() ggfnt.Utf8RewriteRule }); ok {
				if string(e.Rule().Data) != string(b) {
					x.failf("blame", "the error for rule %v blames rule %v", b, e.Rule().Data)
				}
				c.Count("rules_blamed", 1)
			}
			if v < 0 {
				bad++
				if err == nil {
					x.failf("accepted", "the malformed rule %v is accepted and compiled (%d sets, %d conditions)", b, len(w.sets), len(w.m.Conds))
				}
			}
			if v > 0 && err != nil {
				if u := decodeRule(b, glyph); mustCompile(append(append([]MRule(nil), x.rules...), u), w.sets) {
					x.failf("refused", "the well-formed rule %v (%v) is refused: %v", b, u, err)
				}
			}
			if x.t.NumRules() != len(x.rules) {
				x.failf("numrules", "NumRules() = %d after a malformed rule, expected %d", x.t.NumRules(), len(x.rules))
			}
			x.sequence(12, 1)
			other.sequence(12, 1)
			fresh := newWatched(c, w)
			for _, u := range other.rules {
				fresh.add(u)
			}
			fresh.sequence(12, 1)
		}
	})
	x.report()
	c.Count("malformed_rules", bad)
	c.Eval(c.U64(), bad > 0)
}

// decodeRule decodes a well-formed rule.
func decodeRule(b []byte, glyph bool) MRule {
	u := MRule{Cond: b[0]}
	width := 4
	if glyph {
		width = 2
	}
	val := func(at int) int32 {
		if glyph {
			return int32(b[at]) | int32(b[at+1])<<8
		}
		return int32(b[at]) | int32(b[at+1])<<8 | int32(b[at+2])<<16 | int32(b[at+3])<<24
	}
	i := 5
	for k := 0; k < int(b[4]); k++ {
		u.Out = append(u.Out, val(i))
		i += width
	}
	for blk := 0; blk < 3; blk++ {
		n := int(b[1+blk])
		for first := true; first || n > 0; first = false {
			ns, ne := int(b[i]>>4), int(b[i]&15)
			i++
			var el []MElem
			for k := 0; k < ns; k++ {
				el = append(el, MElem{true, int32(b[i])})
				i++
			}
			for k := 0; k < ne; k++ {
				el = append(el, MElem{false, val(i)})
				i += width
			}
			n -= ns + ne
			switch blk {
			case 0:
				u.Head = append(u.Head, el...)
			case 1:
				u.Body = append(u.Body, el...)
			default:
				u.Tail = append(u.Tail, el...)
			}
		}
	}
	return u
}

func mutateRule(c *Ctx, b []byte, glyph bool) []byte {
	b = append([]byte(nil), b...)
	if len(b) == 0 {
		return c.Bytes(1 + c.Intn(20))
	}
	switch c.Intn(12) {
	case 0: // truncated
		return b[:c.Intn(len(b)+1)]
	case 1: // something after
		return append(b, c.Bytes(1+c.Intn(4))...)
	case 2:
		return append(b, 0)
	case 3: // lengths
		if len(b) > 4 {
			b[1+c.Intn(4)] = pick(c.RNG, []byte{0, 1, 2, 127, 128, 254, 255, c.Byte()})
		}
	case 4:
		if len(b) > 4 {
			b[1+c.Intn(4)] += pick(c.RNG, []byte{1, 255})
		}
	case 5: // condition
		b[0] = pick(c.RNG, []byte{0, 1, 127, 128, 254, 255, c.Byte()})
	case 6: // fragment controls
		width := 4
		if glyph {
			width = 2
		}
		if len(b) > 4 {
			if i := 5 + width*int(b[4]); i < len(b) {
				b[i] = pick(c.RNG, []byte{0, 1, 16, 255, b[i] + 1, b[i] - 1, b[i] + 16, c.Byte()})
			}
		}
	case 7:
		b[c.Intn(len(b))] ^= 1 << c.Intn(8)
	case 8:
		b[c.Intn(len(b))] = c.Byte()
	case 9: // bytes go missing or appear
		i := c.Intn(len(b))
		if c.Bool() {
			return append(b[:i], b[i+1:]...)
		}
		return append(b[:i], append([]byte{c.Byte()}, b[i:]...)...)
	case 10:
		return c.Bytes(c.Range(0, 40))
	default: // elements
		b[len(b)-1-c.Intn(min(len(b), 6))] = pick(c.RNG, []byte{0, 254, 255, 0xFD})
	}
	return b
}

// limitsCase: too many or too complex rules.
func limitsCase(c *Ctx, glyph bool) {
	w := newRewriteFont(c, glyph, false)
	w.alpha = c.alphabet(glyph, c.Range(3, 40))
	w.sets = c.setsOver(glyph, w.alpha, 6)
	if c.Bool() { // a set of many pieces
		var s MSet
		top := 56000
		for n := pick(c.RNG, []int{100, 200, 255}); n > 0; n-- {
			s.Ranges = append(s.Ranges, MRange{int32(c.Intn(top)), byte(c.Intn(3))})
		}
		for n := c.Intn(255); n > 0; n-- {
			s.List = append(s.List, int32(c.Intn(top)))
		}
		w.sets = append(w.sets, s)
	}
	w.used = nil
	for i := range w.sets {
		w.used = append(w.used, i)
	}
	w.m.GlyphSets, w.m.RuneSets = nil, nil
	if glyph {
		w.m.GlyphSets = w.sets
	} else {
		w.m.RuneSets = w.sets
	}
	w.parse(c)
	x := newWatched(c, w)
	x.fresh = true
	g := w.gen(c)
	g.maxLen = pick(c.RNG, []int{4, 12, 85})
	g.setOdds = pick(c.RNG, []int{0, 4, 7})
	refused := 0
	x.guard(func() {
		if c.OneIn(3) { // one too many
			for len(x.rules) < 254 {
				x.add(g.next(c.RNG))
			}
			for k := 0; k < 3; k++ {
				if err := x.t.add(x.data(g.next(c.RNG))); err == nil {
					x.failf("limit", "a rule is accepted after 254")
				} else if !errors.Is(err, rerules.ErrTesterTooManyRules) {
					x.failf("limit", "a rule after 254 is refused with another error: %v", err)
				}
				x.idle("after a rule too many")
			}
			refused++
			c.Count("rules_over_the_limit", 1)
		} else {
			for _, u := range g.gen(c.RNG, c.Range(4, 40)) {
				x.add(u)
			}
		}
		for {
			ok := x.sequence(40, 1)
			if !ok {
				refused++
				c.Count("too_complex_lists", 1)
			}
			if (ok && c.OneIn(3)) || len(x.rules) == 0 {
				break
			}
			for n := 1 + c.Intn(len(x.rules)); n > 0; n-- {
				x.remove(c.Intn(len(x.rules)))
			}
			y := newWatched(c, w) // another tester, with the shared compiler
			for _, u := range g.gen(c.RNG, 3) {
				if len(y.rules) < 3 {
					y.add(u)
				}
			}
			y.sequence(12, 1)
			c.Beat()
		}
	})
	x.report()
	c.Eval(c.U64(), refused > 0)
}

// misuseCase: calls at the wrong time must be refused (panic, error, or nothing
// happens) and leave the tester as it was.
func misuseCase(c *Ctx, glyph bool) {
	w := newRewriteFont(c, glyph, c.Bool())
	w.parse(c)
	x := newWatched(c, w)
	g := w.gen(c)
	misuses := 0
	refuse := func(what string, fn func() error) {
		out, pend, op := len(x.out), x.t.pending(), x.t.IsOperating()
		var err error
		p, _ := Try(func() { err = fn() })
		misuses++
		c.Count("misuses", 1)
		c.Logf("misuse: %s: %v %v", what, err, p)
		if x.t.NumRules() != len(x.rules) || x.t.IsOperating() != op || x.t.pending() != pend || len(x.out) != out {
			x.failf("misuse", "%s (error %v, panic %v) changed the tester: %d rules, operating %v, %d pending, %d new outputs", what, err, p, x.t.NumRules(), x.t.IsOperating(), x.t.pending(), len(x.out)-out)
		}
	}
	x.guard(func() {
		for _, u := range g.gen(c.RNG, 1+c.Intn(4)) {
			x.add(u)
		}
		if !mustCompile(x.rules, w.sets) {
			return
		}
		for k := 0; k < 3; k++ {
			refuse("Feed without a sequence", func() error { return x.t.feed(pick(c.RNG, w.alpha), x.emit) })
			refuse("Break without a sequence", func() error { x.t.brk(x.emit); return nil })
			refuse("FinishSequence without a sequence", func() error { x.t.finish(x.emit); return nil })
			if x.begin() != nil {
				return
			}
			for _, v := range c.input(glyph, x.rules, w.sets, w.alpha, 1+c.Intn(20)) {
				x.feed(v)
				if c.OneIn(3) {
					switch c.Intn(6) {
					case 0:
						refuse("BeginSequence within a sequence", func() error { return x.t.BeginSequence(w.f, w.sc) })
					case 1:
						refuse("AddRule within a sequence", func() error { return x.t.add(x.data(g.next(c.RNG))) })
					case 2:
						u := pick(c.RNG, x.rules)
						refuse("RemoveRule within a sequence", func() error { x.t.remove(x.data(u)); return nil })
					case 3:
						refuse("RemoveAllRules within a sequence", func() error { x.t.RemoveAllRules(); return nil })
					case 4:
						refuse("Resync within a sequence", func() error { return x.t.Resync(w.f, w.sc) })
					default:
						x.noise()
					}
				}
			}
			x.finish()
		}
	})
	x.report()
	c.Eval(c.U64(), misuses > 3)
}

func bothKinds(name string, quick, thorough int, run func(c *Ctx, glyph bool)) []Workload {
	return []Workload{
		{Name: name + "-glyphs", Quick: quick, Thorough: thorough, Run: func(c *Ctx) { run(c, true) }},
		{Name: name + "-characters", Quick: quick, Thorough: thorough, Run: func(c *Ctx) { run(c, false) }},
	}
}

func init() {
	rewriting := []string{"elements_fed", "rewrites", "rewrites_with_head", "rewrites_with_tail", "set_elements_matched", "ambiguous_matches", "longer_match_wins", "tails_reused_as_heads"}
	req := func(extra ...string) []string {
		out := append(append([]string(nil), rewriting...), extra...)
		sort.Strings(out)
		return out
	}
	register(&Property{ID: "P17", Level: "exploration",
		Rule:        "One evaluation is one sequence rewritten with one rule list. Non-trivial if at least one rule applied.",
		Require:     req("revived_sequences", "rules_with_true_condition", "rules_with_false_condition", "matches_blocked_by_reported_tail"),
		Assumptions: []string{"among rules of equal length that match at the same position, the one added first wins", "a reported tail can be the head of a later match, never part of its body"},
		Workloads:   rewriteWorkloads(true),
	})
	register(&Property{ID: "P18", Level: "exploration",
		Rule:        "One evaluation is one sequence of code points rewritten with one rule list. Non-trivial if at least one rule applied.",
		Require:     req("revived_sequences", "rules_with_true_condition", "rules_with_false_condition", "matches_blocked_by_reported_tail"),
		Assumptions: []string{"among rules of equal length that match at the same position, the one added first wins", "a reported tail can be the head of a later match, never part of its body"},
		Workloads:   rewriteWorkloads(false),
	})
	register(&Property{ID: "P19", Level: "exploration",
		Rule:      "One evaluation is one history of sequences, with breaks, on one tester. Non-trivial if rules applied at least twice.",
		Require:   req("sequences", "breaks", "ends_with_pending", "refused_elements", "rule_changes_between_sequences"),
		Workloads: bothKinds("history", 2500, 60000, historyCase),
	})
	register(&Property{ID: "P20", Level: "exploration",
		Rule:        "One evaluation is one history of rule changes, setting changes, condition refreshes and sequences. Non-trivial if rules applied at least twice.",
		Require:     req("rules_added", "rules_removed", "all_rules_removed", "setting_changes", "refreshes", "refreshes_within_sequences", "idle_refreshes", "resyncs"),
		Assumptions: []string{"conditions are refreshed after each group of setting changes, between sequences or right after a break"},
		Workloads:   bothKinds("changes", 2000, 50000, changesCase),
	})
	var w21 []Workload
	w21 = append(w21, bothKinds("malformed", 1500, 40000, malformedCase)...)
	w21 = append(w21, bothKinds("limits", 150, 4000, limitsCase)...)
	w21 = append(w21, bothKinds("misuse", 500, 10000, misuseCase)...)
	register(&Property{ID: "P21", Level: "exploration",
		Rule:        "One evaluation is one history in which malformed, too many or too complex rules are offered, or operations are called at the wrong time, mixed with normal use of the same and other testers. Non-trivial if something was refused.",
		Require:     req("malformed_rules", "rules_offered_verdict_-1", "rules_offered_verdict_1", "rules_over_the_limit", "too_complex_lists", "misuses"),
		Assumptions: []string{"a rule without the fragment of its empty tail, and outputs that can't be fed, are neither required to be accepted nor to be refused", "a rule list counts as small enough when the sets of rules that agree on a prefix, at each step of its compilation, amount to less than 248 states in each tree, with less than 248 transitions each"},
		Workloads:   w21,
	})
}
