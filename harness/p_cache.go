package main

import (
	"fmt"

	"github.com/tinne26/ggfnt"
)

// ---------------------------------------------------------------------------
// P13: histories over mapping and settings caches.
// ---------------------------------------------------------------------------

type cachedFont struct {
	f    *ggfnt.Font
	m    *Model
	raw  []byte
	idx  map[int32]int
	sc   *ggfnt.SettingsCache
	st   []uint8
	cps  []int32
	from int // code point table
	to   int
}

func newCachedFont(c *Ctx) *cachedFont {
	for {
		m := c.Model(ModelOpts{Only: "mapping", MaxGlyphs: pick(c.RNG, []int{2, 30, 200}), NoOps: true})
		if len(m.Mappings) == 0 {
			continue
		}
		zero := -1
		if c.Bool() {
			zero = c.Intn(len(m.Mappings))
			for i, e := range m.Mappings {
				if e.Rune == 0 {
					zero = i
				}
			}
			m.Mappings[zero].Rune = 0
		}
		if c.OneIn(6) { // as many settings as possible
			names := map[string]bool{}
			for _, s := range m.Settings {
				names[s.Name] = true
			}
			n := pick(c.RNG, []int{255, 255, 254, 128, 129})
			for i := 0; len(m.Settings) < n; i++ {
				if nm := fmt.Sprintf("more-%d", i); !names[nm] {
					m.Settings = append(m.Settings, MSetting{nm, c.Bytes(1 + c.Intn(3))})
				}
			}
		}
		raw, secs := m.encode()
		cf := &cachedFont{m: m, raw: raw, idx: m.mapIndex()}
		cf.f = mustParse(c, pack(raw))
		cf.sc = ggfnt.NewSettingsCache(cf.f)
		cf.st = make([]uint8, len(m.Settings))
		for _, s := range secs {
			if s.Name == "mapping" {
				cf.from = s.Start + 2
				cf.to = cf.from + 4*len(m.Mappings)
			}
		}
		perm := c.Perm(len(m.Mappings))
		for _, i := range perm[:min(len(perm), pick(c.RNG, []int{3, 10, 40}))] {
			cf.cps = append(cf.cps, m.Mappings[i].Rune)
		}
		if zero >= 0 && cf.cps[0] != 0 {
			cf.cps[len(cf.cps)-1] = 0
		}
		return cf
	}
}

func (cf *cachedFont) cp(c *Ctx) int32 {
	if c.OneIn(8) {
		return c.Rune()
	}
	cp := pick(c.RNG, cf.cps)
	if c.OneIn(12) {
		cp++
	}
	return cp
}

func (cf *cachedFont) set(c *Ctx) {
	if len(cf.st) == 0 {
		return
	}
	k := c.Intn(len(cf.st))
	v := uint8(c.Intn(len(cf.m.Settings[k].Options)))
	cf.st[k] = v
	a, b := cf.sc.Set(ggfnt.SettingKey(k), v)
	c.Logf("set setting %d to %d (affected %v %v)", k, v, a, b)
	c.Count("setting_changes", 1)
}

// settingsState compares the settings cache with the current settings.
func (cf *cachedFont) settingsState(c *Ctx) {
	for i, v := range cf.st {
		eq(c, fmt.Sprintf("setting %d", i), cf.sc.Get(ggfnt.SettingKey(i)), v)
	}
	for i := range cf.m.Switches {
		if cs, ok := cf.sc.GetMappingCase(uint8(i)); ok {
			if want := cf.m.caseOf(i, cf.st); int(cs) != want {
				c.Failf("the settings cache answers case %d for switch %d under settings %v, expected %d", cs, i, cf.st, want)
			}
			c.Count("cached_cases", 1)
		}
	}
	for i, cond := range cf.m.Conds {
		want := cond.eval(cf.st)
		got, ok := cf.sc.GetRewriteCondition(uint8(i))
		if ok && got != want {
			c.Failf("the settings cache answers %v for condition %d (%v) under settings %v", got, i, cond, cf.st)
		}
		if !ok && c.Bool() {
			cf.sc.CacheRewriteCondition(uint8(i), cf.f.Rewrites().EvaluateCondition(uint8(i), cf.st))
			got, ok = cf.sc.GetRewriteCondition(uint8(i))
			if !ok || got != want {
				c.Failf("condition %d (%v) was cached as %v under settings %v, but reads back %v %v", i, cond, want, cf.st, got, ok)
			}
			c.Count("cached_conditions", 1)
		}
	}
}

type lruModel struct {
	size  int
	order []int32 // most recent last
}

func (l *lruModel) find(cp int32) int {
	for i, x := range l.order {
		if x == cp {
			return i
		}
	}
	return -1
}
func (l *lruModel) use(cp int32) (hit bool, evicted bool) {
	if i := l.find(cp); i >= 0 {
		l.order = append(append(l.order[:i:i], l.order[i+1:]...), cp)
		return true, false
	}
	l.order = append(l.order, cp)
	if len(l.order) > l.size {
		l.order = l.order[1:]
		evicted = true
	}
	return false, evicted
}

type watchedCache struct {
	mc    *ggfnt.MappingCache
	cf    *cachedFont
	lru   lruModel
	stale bool // settings changed without the invalidation call
	drops bool // entries may need a refresh before they're served from memory
}

func (w *watchedCache) get(c *Ctx, cp int32) {
	g, found := w.mc.Get(cp, w.cf.sc)
	want := w.cf.m.lookup(w.cf.idx, cp, w.cf.st)
	if found != want.found {
		c.Failf("Get(%d): found %v, expected %v", cp, found, want.found)
	}
	if want.found {
		hit, ev := w.lru.use(cp)
		if hit {
			c.Count("cache_hits", 1)
		}
		if ev {
			c.Count("evictions", 1)
		}
	}
	if w.stale {
		return // no promise until the invalidation call
	}
	if got := readGroup(g, found); !got.equal(want) {
		c.Failf("Get(%d) with settings %v (cache of %d): got %v, expected %v", cp, w.cf.st, w.lru.size, got, want)
	}
	if direct := readGroup(w.cf.f.Mapping().Utf8(cp, w.cf.st)); !direct.equal(want) {
		c.Failf("Utf8(%d) with settings %v: got %v, expected %v", cp, w.cf.st, direct, want)
	}
	c.Count("cached_lookups", 1)
}

// probe finds out what the cache holds: with the font's code point table wiped,
// only lookups served from memory can succeed.
func (w *watchedCache) probe(c *Ctx) {
	cf := w.cf
	if w.stale {
		return
	}
	if w.drops {
		for _, cp := range append([]int32(nil), w.lru.order...) {
			w.get(c, cp)
		}
		w.drops = false
	}
	data := cf.f.Data[cf.from:cf.to]
	saved := append([]byte(nil), data...)
	fill := byte(1)
	for used := true; used; { // a code point that nobody asks for
		fill++
		used = w.lru.find(int32(uint32(fill)*0x01010101)) >= 0
		for _, cp := range cf.cps {
			used = used || uint32(cp) == uint32(fill)*0x01010101
		}
	}
	for i := range data {
		data[i] = fill
	}
	defer copy(data, saved)
	if _, found := cf.f.Mapping().Utf8(cf.cps[0], cf.st); found {
		c.Count("unobservable", 1) // lookups don't read the table
		return
	}
	cands := append([]int32(nil), cf.cps...)
	for _, cp := range w.lru.order {
		found := false
		for _, x := range cf.cps {
			found = found || x == cp
		}
		if !found {
			cands = append(cands, cp)
		}
	}
	before := fmt.Sprint(w.lru.order)
	for _, i := range c.Perm(len(cands)) {
		cp := cands[i]
		held := w.lru.find(cp) >= 0
		g, found := w.mc.Get(cp, cf.sc)
		if found != held {
			c.Failf("cache of %d holding, by recency, %v: code point %d is served from memory: %v, expected %v", w.lru.size, clip(before), cp, found, held)
		}
		if held {
			w.lru.use(cp)
			if got, want := readGroup(g, found), cf.m.lookup(cf.idx, cp, cf.st); !got.equal(want) {
				c.Failf("Get(%d) from memory: got %v, expected %v", cp, got, want)
			}
			c.Count("served_from_memory", 1)
		} else {
			c.Count("known_evicted", 1)
		}
	}
	c.Count("probes", 1)
}

func init() {
	register(&Property{ID: "P13", Level: "exploration",
		Rule:        "One evaluation is one history of lookups, setting changes, drops and resets over several caches. Non-trivial if it had both cache hits and setting changes or evictions.",
		Require:     []string{"cached_lookups", "cache_hits", "evictions", "setting_changes", "drops", "resets", "probes", "served_from_memory", "known_evicted", "cached_cases", "cached_conditions"},
		Assumptions: []string{"cache contents are observed by wiping the font's code point table, which only affects lookups not served from memory"},
		Workloads: []Workload{
			{Name: "history", Quick: 1500, Thorough: 20000, Run: func(c *Ctx) {
				fonts := []*cachedFont{newCachedFont(c)}
				if c.Bool() {
					fonts = append(fonts, newCachedFont(c))
				}
				var caches []*watchedCache
				for i := c.Range(1, 3); i > 0; i-- {
					size := pick(c.RNG, []int{1, 1, 2, 2, 3, 5, 8, 30, 192})
					cf := pick(c.RNG, fonts)
					caches = append(caches, &watchedCache{mc: ggfnt.NewMappingCache(cf.f, size), cf: cf, lru: lruModel{size: size}})
				}
				c.Sample("%d fonts, %d caches, the first of size %d over %d mappings and %d switches", len(fonts), len(caches), caches[0].lru.size, len(caches[0].cf.m.Mappings), len(caches[0].cf.m.Switches))
				p, stack := Try(func() {
					for step := pick(c.RNG, []int{20, 100, 300}); step > 0; step-- {
						w := pick(c.RNG, caches)
						switch c.Intn(24) {
						case 0, 1:
							cf := w.cf
							before := append([]uint8(nil), cf.st...)
							for n := c.Range(1, 3); n > 0; n-- {
								cf.set(c)
							}
							if fmt.Sprint(before) != fmt.Sprint(cf.st) {
								for _, x := range caches {
									if x.cf == cf {
										x.stale = true
									}
								}
							}
							if !c.OneIn(4) {
								for _, x := range caches {
									if x.cf == cf {
										x.mc.Drop()
										x.stale, x.drops = false, true
										c.Count("drops", 1)
									}
								}
							}
							cf.settingsState(c)
						case 2:
							w.mc.Drop()
							w.stale, w.drops = false, true
							c.Count("drops", 1)
							c.Logf("drop")
						case 3:
							if c.OneIn(3) {
								w.cf = pick(c.RNG, fonts)
								w.mc.Reset(w.cf.f)
								w.lru.order, w.stale, w.drops = nil, false, false
								c.Count("resets", 1)
								c.Logf("reset")
							}
						case 4:
							w.probe(c)
						case 5:
							w.cf.settingsState(c)
						case 6: // uncached lookups fill the shared settings cache
							cp := w.cf.cp(c)
							want := w.cf.m.lookup(w.cf.idx, cp, w.cf.st)
							if got := readGroup(w.cf.f.Mapping().Utf8WithCache(cp, w.cf.sc)); !got.equal(want) {
								c.Failf("Utf8WithCache(%d) with settings %v: got %v, expected %v", cp, w.cf.st, got, want)
							}
						default:
							cp := w.cf.cp(c)
							c.Logf("get %d", cp)
							w.get(c, cp)
						}
						c.Beat()
					}
					for _, w := range caches {
						w.probe(c)
					}
				})
				if p != nil {
					c.Fail("panic", "a cache operation panicked: %v\n%s", p, trimStack(stack))
				}
				c.Eval(c.U64(), true)
			}},
			{Name: "drops", Quick: 24, Thorough: 200, Run: func(c *Ctx) {
				// many invalidations between two lookups of the same code point
				cf := newCachedFont(c)
				size := pick(c.RNG, []int{1, 4, 50})
				w := &watchedCache{mc: ggfnt.NewMappingCache(cf.f, size), cf: cf, lru: lruModel{size: size}}
				p, stack := Try(func() {
					for i := 0; i < 6; i++ {
						for _, cp := range cf.cps {
							w.get(c, cp)
						}
						n := pick(c.RNG, []int{1, 2, 127, 128, 255, 256, 257, 511, 512, 65535, 65536, 65537, 131072})
						for k := 0; k < n; k++ {
							if k < 3 {
								cf.set(c)
							}
							w.mc.Drop()
						}
						w.drops = true
						c.Count("drops", n)
						for _, cp := range cf.cps {
							w.get(c, cp)
						}
						w.probe(c)
					}
				})
				if p != nil {
					c.Fail("panic", "a cache operation panicked: %v\n%s", p, trimStack(stack))
				}
				c.Eval(c.U64(), true)
			}},
		},
	})
}
