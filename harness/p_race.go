package main

import (
	"bytes"
	crand "crypto/rand"
	"fmt"
	"image"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/mask"
)

// ---------------------------------------------------------------------------
// P22: goroutines that share a font (and the process-wide pools and tables).
// The harness is built with the race detector for this property. Every worker
// runs a script of activities, each of them watched by the monitors of the
// other properties; the script is then run again alone, on another copy of the
// font, and must give the same results.
// ---------------------------------------------------------------------------

// fixedRand keeps seedCryptoRand from replacing the process-wide source while
// several goroutines use it.
var fixedRand bool

// world is what the workers share. Nothing in it is written while they run.
type world struct {
	f     *ggfnt.Font
	m     *Model
	raw   []byte
	file  []byte
	idx   map[int32]int
	cps   []int32
	pics  []*image.Alpha
	ops   [][]byte
	gfont *rewriteFont // rules over glyphs, and their encodings
	rfont *rewriteFont
	grule []MRule
	rrule []MRule
}

func (r *RNG) world(c *Ctx) *world {
	w := &world{}
	w.m = c.Model(ModelOpts{MaxGlyphs: pick(c.RNG, []int{3, 30, 120}), Big: c.OneIn(4), NoOps: c.OneIn(3)})
	w.raw, _ = w.m.encode()
	w.file = pack(w.raw)
	w.idx = w.m.mapIndex()
	for _, mp := range w.m.Mappings {
		if len(w.cps) < 40 {
			w.cps = append(w.cps, mp.Rune)
		}
	}
	for i := 0; i < 6; i++ {
		w.pics = append(w.pics, c.Mask(20))
		w.ops = append(w.ops, c.Ops(c.Range(1, 30)))
	}
	w.gfont = newRewriteFont(c, true, c.Bool())
	w.rfont = newRewriteFont(c, false, c.Bool())
	w.grule = w.gfont.gen(c).gen(c.RNG, c.Range(1, 8))
	w.rrule = w.rfont.gen(c).gen(c.RNG, c.Range(1, 8))
	w.gfont.m.GlyphRules = w.grule
	w.rfont.m.RuneRules = w.rrule
	return w
}

// copy gives other fonts with the same contents.
func (w *world) open(c *Ctx) *world {
	v := *w
	v.f = mustParse(c, w.file)
	g, r := *w.gfont, *w.rfont
	g.parse(c)
	r.parse(c)
	v.gfont, v.rfont = &g, &r
	return &v
}

type worker struct {
	*Ctx
	w       *world
	id      int
	enc     encoderHistory
	cf      *cachedFont
	mc      *watchedCache
	gt, rt  *watched
	results []string
	fail    *failure
	events  int
	spans   []span
}

// span is when an activity ran. Noted without synchronization, which would
// hide races.
type span struct {
	worker, what int
	from, to     time.Time
}

// overlaps tells how many pairs of activities of different workers overlapped,
// and identifies the order in which activities started and ended.
func overlaps(ks []*worker) (n int, order uint64) {
	var all []span
	type event struct {
		t       time.Time
		s, kind int
	}
	var evs []event
	for _, k := range ks {
		for _, s := range k.spans {
			evs = append(evs, event{s.from, len(all), 0}, event{s.to, len(all), 1})
			all = append(all, s)
		}
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].t.Before(evs[j].t) })
	open := map[int]bool{}
	for _, e := range evs {
		order = mix(order ^ uint64(all[e.s].worker<<20|all[e.s].what<<1|e.kind))
		if e.kind == 1 {
			delete(open, e.s)
			continue
		}
		for o := range open {
			if all[o].worker != all[e.s].worker {
				n++
			}
		}
		open[e.s] = true
	}
	return n, order
}

func newWorker(c *Ctx, w *world, id int, seed uint64) *worker {
	cc := &Ctx{RNG: &RNG{seed}, Prop: c.Prop, Workload: c.Workload, Case: c.Case, Thorough: c.Thorough, seed: c.seed,
		counters: map[string]int64{}, distinct: map[uint64]struct{}{}, samples: new([]any)}
	return &worker{Ctx: cc, w: w, id: id}
}

func (k *worker) result(format string, args ...any) {
	k.results = append(k.results, fmt.Sprintf(format, args...))
}

type activity struct {
	name string
	run  func(k *worker)
}

func sharedRewriter(k *worker, w *rewriteFont, rules []MRule, have **watched) {
	if *have == nil {
		own := *w
		own.sc = ggfnt.NewSettingsCache(w.f)
		own.st = make([]uint8, len(w.m.Settings))
		x := newWatched(k.Ctx, &own)
		for i, u := range rules {
			var err error
			if w.glyph {
				err = x.t.(*glyphTester).AddRule(w.f.Rewrites().GetGlyphRule(uint16(i)))
			} else {
				err = x.t.(*runeTester).AddRule(w.f.Rewrites().GetUtf8Rule(uint16(i)))
			}
			if err != nil {
				x.failf("add", "AddRule of rule %d of the font: %v", i, err)
			}
			x.rules = append(x.rules, u)
		}
		*have = x
	}
	x := *have
	x.c = k.Ctx
	x.guard(func() {
		if len(x.w.st) > 0 && len(x.w.m.Conds) > 0 && k.Bool() {
			x.w.set(k.Ctx)
			x.refresh()
		}
		switch {
		case len(x.rules) > 1 && k.OneIn(4):
			x.remove(k.Intn(len(x.rules)))
		case k.OneIn(3):
			x.add(pick(k.RNG, rules))
		}
		in := k.input(w.glyph, x.rules, x.w.sets, x.w.alpha, k.Range(1, 20))
		if err := x.begin(); err != nil {
			k.result("rewrite: %v", err)
			return
		}
		for _, v := range in {
			x.feed(v)
			if k.OneIn(6) {
				runtime.Gosched()
			}
		}
		x.finish()
		k.result("rewrite %v to %v", in, x.out)
	})
}

var activities = []activity{
	{"header", func(k *worker) {
		checkHeader(k.Ctx, k.w.f, k.w.m)
		checkMetrics(k.Ctx, k.w.f, k.w.m)
		h := k.w.f.Header()
		for i := 0; i < 12; i++ {
			d := []ggfnt.Date{h.FirstVersionDate(), h.MajorVersionDate(), h.MinorVersionDate()}[i%3]
			if i >= 3 {
				d = ggfnt.Date{Year: uint16(k.U64()), Month: uint8(k.Range(0, 13)), Day: uint8(k.Intn(33))}
			}
			y, m, n := int(d.Year), int(d.Month), int(d.Day)
			if got, want := d.IsValid(), refValid(y, m, n); got != want {
				k.Failf("%d-%d-%d: valid %v, expected %v", y, m, n, got, want)
			}
			text := d.String()
			if refValid(y, m, n) {
				if want := string(refDateText(nil, y, m, n)); text != want {
					k.Failf("%d-%d-%d is printed as %q, expected %q", y, m, n, text, want)
				}
			}
			k.result("date %s, month %s", text, d.MonthName())
			k.Count("dates_printed", 1)
		}
	}},
	{"colors", func(k *worker) { checkColor(k.Ctx, k.w.f, k.w.m) }},
	{"names", func(k *worker) { checkNames(k.Ctx, k.w.f, k.w.m) }},
	{"glyphs", func(k *worker) { checkGlyphs(k.Ctx, k.w.f, k.w.m, nil) }},
	{"settings", func(k *worker) { checkSettings(k.Ctx, k.w.f, k.w.m) }},
	{"mapping", func(k *worker) { checkMapping(k.Ctx, k.w.f, k.w.m, 1) }},
	{"conditions", func(k *worker) { checkConditions(k.Ctx, k.w.f, k.w.m, 1) }},
	{"rewrites", func(k *worker) { checkRewrites(k.Ctx, k.w.f, k.w.m, true) }},
	{"kerning", func(k *worker) { checkKerning(k.Ctx, k.w.f, k.w.m) }},
	{"cached mapping", func(k *worker) {
		if len(k.w.cps) == 0 {
			return
		}
		if k.cf == nil {
			k.cf = &cachedFont{f: k.w.f, m: k.w.m, raw: k.w.raw, idx: k.w.idx, cps: k.w.cps, sc: ggfnt.NewSettingsCache(k.w.f), st: make([]uint8, len(k.w.m.Settings))}
			n := k.Range(1, 6)
			k.mc = &watchedCache{mc: ggfnt.NewMappingCache(k.w.f, n), cf: k.cf, lru: lruModel{size: n}}
		}
		for i := k.Range(1, 20); i > 0; i-- {
			if k.OneIn(6) {
				k.cf.set(k.Ctx)
				k.mc.stale = false
				k.mc.mc.Reset(k.w.f)
				k.mc.lru.order = nil
			}
			k.mc.get(k.Ctx, k.cf.cp(k.Ctx))
		}
		k.cf.settingsState(k.Ctx)
	}},
	{"encode", func(k *worker) {
		if k.enc.enc == nil {
			k.enc.enc = &mask.Encoder{}
		}
		img := pick(k.RNG, k.w.pics)
		if k.OneIn(3) {
			img = k.Mask(30)
		}
		from := len(k.enc.buf)
		checkEncode(k.Ctx, &k.enc, img)
		if from <= len(k.enc.buf) {
			k.result("encoded % x", k.enc.buf[from:])
		}
	}},
	{"rasterize", func(k *worker) {
		checkRaster(k.Ctx, pick(k.RNG, k.w.ops))
		checkRaster(k.Ctx, k.Ops(k.Range(1, 20)))
	}},
	{"export", func(k *worker) {
		var file []byte
		var err error
		k.NoPanic("Export", func() { file, err = exportFont(k.w.f) })
		if err != nil {
			k.Failf("Export: %v", err)
		}
		if k.w.f.RawSize() != len(k.w.raw) {
			k.Failf("RawSize is %d, expected %d", k.w.f.RawSize(), len(k.w.raw))
		}
		raw, err := gunzipFont(file)
		if err != nil || !bytes.Equal(raw, k.w.raw) {
			k.Failf("the exported file doesn't contain the font's data: %v", err)
		}
		k.result("exported %x", hashBytes(file))
	}},
	{"parse", func(k *worker) {
		f := mustParse(k.Ctx, k.w.file)
		if !bytes.Equal(f.Data, k.w.raw) {
			k.Failf("the parsed font has other data")
		}
		checkHeader(k.Ctx, f, k.w.m)
		checkKerning(k.Ctx, f, k.w.m)
	}},
	{"rewrite glyphs", func(k *worker) { sharedRewriter(k, k.w.gfont, k.w.grule, &k.gt) }},
	{"rewrite characters", func(k *worker) { sharedRewriter(k, k.w.rfont, k.w.rrule, &k.rt) }},
	{"build", func(k *worker) {
		d := newDriver(k.Ctx, &RNG{k.U64()}, &detReader{r: &RNG{}})
		d.noObs = true
		for i := k.Range(5, 30); i > 0; i-- {
			d.step("")
		}
		d.makeBuildable()
		if f, m, masks := d.build(); f != nil {
			checkBuilt(k.Ctx, f, m, masks)
			roundtrip(k.Ctx, f, m, masks, nil)
		}
	}},
}

// solo workloads of other properties, which share nothing but the process.
var independent = map[string][]string{
	"P02": {"signature"},
	"P05": {"accessors"}, "P06": {"accessors"}, "P11": {"accessors"}, "P12": {"accessors"},
	"P09": {"wellformed", "mutated", "random"},
	"P10": {"history", "lengths"},
	"P13": {"history"},
	"P17": {"dense", "conditions", "font"},
	"P18": {"dense", "conditions", "font"},
	"P19": {"history-glyphs", "history-characters"},
	"P20": {"changes-glyphs", "changes-characters"},
	"P21": {"malformed-glyphs", "malformed-characters", "misuse-glyphs", "misuse-characters"},
	"P24": {"fragmented", "fs"},
	"P26": {"loads"},
}

func independentWorkloads() (out []*Workload) {
	var ids []string
	for id := range independent {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		for i := range properties[id].Workloads {
			for _, n := range independent[id] {
				if w := &properties[id].Workloads[i]; w.Name == n {
					out = append(out, w)
				}
			}
		}
	}
	return out
}

// attempt runs fn and notes its failure.
func (k *worker) attempt(what string, fn func()) {
	defer func() {
		if r := recover(); r != nil {
			if f, ok := r.(failure); ok {
				k.fail = &failure{f.key, what + ": " + f.msg}
			} else {
				k.fail = &failure{"panic", fmt.Sprintf("%s panicked: %v\n%s", what, r, trimStack(string(debug.Stack())))}
			}
		}
	}()
	fn()
}

func (k *worker) script(acts []activity, n int, only int) {
	for i := 0; i < n && k.fail == nil; i++ {
		at := k.Intn(len(acts))
		if only >= 0 {
			at = only
		}
		a := acts[at]
		from := time.Now()
		k.attempt(a.name, func() { a.run(k) })
		k.spans = append(k.spans, span{k.id, at, from, time.Now()})
		k.events++
		if k.OneIn(3) {
			runtime.Gosched()
		}
	}
}

// together runs one script per worker at the same time, and then alone.
func together(c *Ctx, open func() *world, workers int, script func(k *worker), alone bool) {
	crand.Reader = plainRand{}
	fixedRand = true
	defer func() { fixedRand = false; restoreCryptoRand() }()
	seeds := make([]uint64, workers)
	for i := range seeds {
		seeds[i] = c.U64()
	}
	w := open()
	ks := make([]*worker, workers)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range ks {
		ks[i] = newWorker(c, w, i, seeds[i])
		wg.Add(1)
		go func(k *worker) {
			defer wg.Done()
			<-start
			script(k)
		}(ks[i])
	}
	close(start)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	<-done
	n, order := overlaps(ks)
	c.Count("overlapping_activities", n)
	defer func() { c.Eval(order, n > 0) }()
	for _, k := range ks {
		for name, n := range k.counters {
			if !strings.HasPrefix(name, "max_") {
				c.Count(name, int(n))
			}
		}
		c.Count("concurrent_activities", k.events)
		if k.fail != nil {
			c.log = append(c.log, k.log...)
			c.Fail(k.fail.key, "worker %d of %d, running concurrently: %s", k.id, workers, k.fail.msg)
		}
	}
	if !alone {
		return
	}
	w = open()
	for i, k := range ks {
		s := newWorker(c, w, i, seeds[i])
		script(s)
		c.Beat()
		if s.fail != nil {
			c.log = append(c.log, s.log...)
			c.Fail(s.fail.key, "worker %d, running alone: %s", i, s.fail.msg)
		}
		for j := range k.results {
			if j >= len(s.results) || s.results[j] != k.results[j] {
				c.Failf("worker %d of %d: result %d is %s when running concurrently, and %s when running alone", i, workers, j, clip(k.results[j]), clip(fmt.Sprint(s.results[min(j, len(s.results)):min(j+1, len(s.results))])))
			}
		}
		c.Count("results_compared_with_running_alone", len(k.results))
	}
}

func init() {
	register(&Property{ID: "P22", Level: "exploration",
		Rule:        "One evaluation is one group of 2 to 8 goroutines that share a font, or only the process, run under the race detector, and whose results are compared with those of the same scripts running alone. Non-trivial if activities of different goroutines overlapped; distinct by the order in which activities started and ended.",
		Require:     []string{"concurrent_activities", "overlapping_activities", "results_compared_with_running_alone", "rewrites", "builds", "masks", "pixels_compared", "cached_lookups", "header_values", "compilations", "rich_builds"},
		Assumptions: []string{"the race detector reports conflicting accesses only if both were executed in one run, without synchronization in between", "the source of random identifiers (crypto/rand) is replaced before goroutines start, by one that copies the system's random bytes"},
		Workloads: []Workload{
			{Name: "shared", Quick: 120, Thorough: 4000, Run: func(c *Ctx) {
				w := c.world(c)
				n := c.Range(2, 8)
				m := c.Range(2, 12)
				together(c, func() *world { return w.open(c) }, n, func(k *worker) { k.script(activities, m, -1) }, true)
				c.Sample("%d goroutines, %d activities each, font: %s", n, m, w.m.summary())
			}},
			{Name: "same", Fixed: true, Quick: 17 * 6, Thorough: 17 * 150, Run: func(c *Ctx) {
				// everyone does the same kind of thing
				w := c.world(c)
				n := c.Range(2, 8)
				together(c, func() *world { return w.open(c) }, n, func(k *worker) { k.script(activities, 3, c.Case%len(activities)) }, true)
			}},
			{Name: "pairs", Fixed: true, Quick: 17 * 17, Thorough: 17 * 17 * 16, Run: func(c *Ctx) {
				// two kinds of things
				w := c.world(c)
				a := []int{c.Case % len(activities), c.Case / len(activities) % len(activities)}
				together(c, func() *world { return w.open(c) }, 4, func(k *worker) { k.script(activities, 2, a[k.id%2]) }, false)
			}},
			{Name: "independent", Quick: 160, Thorough: 4000, Run: func(c *Ctx) {
				var acts []activity
				for _, wl := range independentWorkloads() {
					acts = append(acts, activity{wl.Name, func(k *worker) {
						k.Workload = wl.Name
						wl.Run(k.Ctx)
					}})
				}
				only := -1
				if c.Bool() {
					only = c.Intn(len(acts))
				}
				m := c.Range(2, 6)
				together(c, func() *world { return nil }, c.Range(2, 8), func(k *worker) { k.script(acts, m, only) }, false)
			}},
			{Name: "builders", Quick: 120, Thorough: 3000, Run: func(c *Ctx) {
				// builders with a bit of everything
				foci := []string{"header", "color", "glyphs", "set", "mapping", "rewrite", "kerning", ""}
				steps := c.Range(10, 40)
				together(c, func() *world { return nil }, c.Range(2, 5), func(k *worker) {
					k.attempt("filling and building builders", func() {
						d := newDriver(k.Ctx, &RNG{k.U64()}, &detReader{r: &RNG{}})
						d.noObs = true
						for round := 0; round < 2; round++ {
							for at, focus := range foci {
								from := time.Now()
								for i := 0; i < steps; i++ {
									d.step(focus)
								}
								k.spans = append(k.spans, span{k.id, at, from, time.Now()})
								k.events++
							}
							if k.OneIn(3) { // a rule longer than the states of the trees
								seq := make([]rune, d.Range(14, 40))
								for i := range seq {
									seq[i] = d.Rune()
								}
								d.addRuneRule(d.Rune(), seq)
							}
							d.makeBuildable()
							from := time.Now()
							if f, m, masks := d.build(); f != nil {
								checkBuilt(k.Ctx, f, m, masks)
								k.Count("rich_builds", 1)
							}
							k.spans = append(k.spans, span{k.id, len(foci), from, time.Now()})
							k.events++
						}
					})
				}, false)
			}},
			{Name: "compilers", Quick: 40, Thorough: 1200, Run: func(c *Ctx) {
				// compile as often as possible
				glyph := c.Bool()
				base := newRewriteFont(c, glyph, false)
				rules := base.gen(c).gen(c.RNG, c.Range(1, 3))
				base.parse(c)
				until := time.Now().Add(60 * time.Millisecond)
				together(c, func() *world { return nil }, c.Range(2, 8), func(k *worker) {
					k.attempt("compiling rules", func() {
						for i := 0; i < 12 || time.Now().Before(until); i++ {
							own := *base
							x := newWatched(k.Ctx, &own)
							for _, u := range rules {
								x.add(u)
							}
							k.log = k.log[:0]
							from := time.Now()
							if err := x.t.Resync(own.f, own.sc); err != nil && mustCompile(rules, own.sets) {
								x.failf("compile", "Resync with %d simple rules fails: %v", len(rules), err)
							}
							if i < 2000 {
								k.spans = append(k.spans, span{k.id, 0, from, time.Now()})
							}
							k.events++
							if i%4 == 0 {
								x.run(k.input(glyph, rules, own.sets, own.alpha, 8))
								k.events++
							}
						}
					})
					k.Count("compilations", k.events)
				}, false)
			}},
		},
	})
}
