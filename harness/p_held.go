package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"strings"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/mask"
	"github.com/tinne26/ggfnt/rerules"
)

// ---------------------------------------------------------------------------
// P28: queries do not change fonts, and what they returned stays valid.
// Answers are kept, together with what they said when they were given, while
// other queries are made of the same and other fonts.
// ---------------------------------------------------------------------------

// answer is something a query returned.
type answer struct {
	what   string
	want   string        // its contents when it was returned
	now    func() string // its contents now; nil once the caller has changed it
	again  func() string // the same query
	change func()        // what a caller can do to an answer that is its own
	at     int
}

type heldFont struct {
	f      *ggfnt.Font
	m      *Model
	raw    []byte
	rest   string
	cps    []rune
	glyphs []int // those with well-formed masks
	caches []*ggfnt.MappingCache
	sc     []*ggfnt.SettingsCache
	cacheS [][]uint8 // the settings of each cache
	names  []string
}

type holder struct {
	*Ctx
	fonts   []*heldFont
	answers []*answer
	encs    []*mask.Encoder
	gt      *rerules.GlyphTester
	ut      *rerules.Utf8Tester
	ops     int
	depth   int
}

func (h *holder) open(m *Model) *heldFont {
	raw, _ := m.encode()
	file := pack(raw)
	var f *ggfnt.Font
	var err error
	h.NoPanic("Parse", func() { f, err = ggfnt.Parse(bytes.NewReader(file)) })
	if err != nil {
		h.Failf("a well-formed font is rejected: %v", err)
	}
	for i := range file { // the font does not depend on the bytes it came from
		file[i] = 0xA5
	}
	x := &heldFont{f: f, m: m, raw: raw, rest: fontRest(f)}
	for _, e := range m.Mappings {
		x.cps = append(x.cps, e.Rune)
	}
	for i := range m.Glyphs {
		if len(x.glyphs) < 100 && len(m.Glyphs[i].Ops) < 300 {
			if r, err := refRaster(m.Glyphs[i].Ops); err == nil && len(r.pix) < 20000 {
				x.glyphs = append(x.glyphs, i)
			}
		}
		if m.Glyphs[i].Name != "" {
			x.names = append(x.names, m.Glyphs[i].Name)
		}
	}
	for i := 0; i < 2; i++ {
		x.caches = append(x.caches, ggfnt.NewMappingCache(f, h.Range(1, 4)))
		x.sc = append(x.sc, ggfnt.NewSettingsCache(f))
		x.cacheS = append(x.cacheS, make([]uint8, len(m.Settings)))
	}
	return x
}

func (h *holder) keep(what string, now, again func() string, change func()) {
	h.answers = append(h.answers, &answer{what, now(), now, again, change, h.ops})
	h.Count("answers_held", 1)
}

func imageText(img *image.Alpha) string {
	if img == nil {
		return "no image"
	}
	return fmt.Sprintf("%v %d %x", img.Rect, img.Stride, img.Pix)
}

// within makes other queries from a callback, sometimes.
func (h *holder) within() {
	if h.depth < 2 && h.OneIn(5) {
		h.depth++
		h.query()
		h.depth--
		h.Count("queries_within_callbacks", 1)
	}
}

func (h *holder) query() {
	x := pick(h.RNG, h.fonts)
	f, m := x.f, x.m
	h.ops++
	str := func(what string, get func() string) {
		s := get()
		h.keep(what, func() string { return strings.Clone(s) }, get, nil)
	}
	switch kind := h.Intn(24); kind {
	case 0:
		str("a header text", pick(h.RNG, []func() string{f.Header().Name, f.Header().Family, f.Header().Author, f.Header().About}))
	case 1:
		get := func() string {
			p, d := f.Metrics(), f.Header()
			return fmt.Sprint(p.NumGlyphs(), p.HasVertLayout(), p.MonoWidth(), p.Ascent(), p.ExtraAscent(), p.Descent(), p.LineHeight(), p.VertLineFullWidth(), d.FirstVersionDate(), d.ID(), f.RawSize())
		}
		str("metrics", get)
	case 2, 3: // the texts given to callbacks
		var names []string
		var keys []int
		each := func(fn func(k int, name string)) {
			if kind == 2 {
				f.Color().EachDye(func(k ggfnt.DyeKey, s string) { fn(int(k), s) })
			} else {
				f.Color().EachPalette(func(k ggfnt.PaletteKey, s string) { fn(int(k), s) })
			}
		}
		each(func(k int, s string) {
			keys, names = append(keys, k), append(names, s)
			h.within()
		})
		h.keep("names of colors", func() string { return fmt.Sprintf("%v %q", keys, names) }, func() string {
			var n []string
			var k []int
			each(func(i int, s string) { k, n = append(k, i), append(n, s) })
			return fmt.Sprintf("%v %q", k, n)
		}, nil)
	case 4:
		if n := len(m.Dyes); n > 0 {
			k := ggfnt.DyeKey(h.Intn(n))
			get := func(within bool) []uint8 {
				var a []uint8
				f.Color().EachDyeAlpha(k, func(v uint8) {
					a = append(a, v)
					if within {
						h.within()
					}
				})
				return a
			}
			a := get(true)
			h.keep("alphas", func() string { return fmt.Sprint(a) }, func() string { return fmt.Sprint(get(false)) }, nil)
		}
	case 5:
		if n := len(m.Palettes); n > 0 {
			k := ggfnt.PaletteKey(h.Intn(n))
			get := func(within bool) []color.RGBA {
				var a []color.RGBA
				f.Color().EachPaletteColor(k, func(v color.RGBA) {
					a = append(a, v)
					if within {
						h.within()
					}
				})
				return a
			}
			a := get(true)
			h.keep("colors", func() string { return fmt.Sprint(a) }, func() string { return fmt.Sprint(get(false)) }, nil)
		}
	case 6:
		p := f.Color().GoColorPalette()
		h.keep("a color table", func() string { return fmt.Sprint(p) }, func() string { return fmt.Sprint(f.Color().GoColorPalette()) }, func() {
			for i := range p {
				p[i] = color.RGBA{1, 2, 3, 4}
			}
			p = append(p[:len(p)/2], color.RGBA{9, 9, 9, 9})
		})
	case 7:
		if len(x.glyphs) > 0 {
			g := ggfnt.GlyphIndex(pick(h.RNG, x.glyphs))
			img := f.Glyphs().RasterizeMask(g)
			h.keep(fmt.Sprintf("the mask of glyph %d", g), func() string { return imageText(img) }, func() string { return imageText(f.Glyphs().RasterizeMask(g)) }, func() {
				if img != nil {
					for i := range img.Pix {
						img.Pix[i] ^= 0x5A
					}
					img.Rect = image.Rect(0, 0, 1, 1)
				}
			})
		}
	case 8:
		g := ggfnt.GlyphIndex(h.Intn(len(m.Glyphs)))
		str("a placement", func() string { return fmt.Sprint(f.Glyphs().Placement(g), f.Glyphs().Advance(g)) })
	case 9:
		name := []byte(h.BasicName(8))
		if len(x.names) > 0 && h.Bool() {
			name = []byte(pick(h.RNG, x.names))
		}
		s := string(name)
		str("a glyph found by name", func() string { return fmt.Sprint(f.Glyphs().FindIndexByName(s)) })
	case 10:
		var names []string
		f.Settings().Each(func(k ggfnt.SettingKey, s string) {
			names = append(names, s)
			h.within()
		})
		h.keep("names of settings", func() string { return fmt.Sprintf("%q", names) }, func() string {
			var n []string
			f.Settings().Each(func(k ggfnt.SettingKey, s string) { n = append(n, s) })
			return fmt.Sprintf("%q", n)
		}, nil)
	case 11:
		w := h.Byte()
		str("a word", func() string { return f.Settings().GetWord(w) })
		str("a predefined word", func() string { return ggfnt.GetPredefinedWord(w) })
	case 12:
		if n := len(m.Settings); n > 0 {
			k := h.Intn(n)
			o := uint8(h.Intn(len(m.Settings[k].Options)))
			str("an option", func() string { return f.Settings().GetOptionName(ggfnt.SettingKey(k), o) })
		}
	case 13, 14, 15, 16: // glyph groups
		cp := h.Rune()
		if len(x.cps) > 0 && !h.OneIn(6) {
			cp = pick(h.RNG, x.cps)
		}
		if kind == 13 {
			st := m.randSettings(h.RNG)
			was := fmt.Sprint(st)
			ask := func() (ggfnt.GlyphMappingGroup, bool) {
				if cp >= 0 && cp < 128 {
					return f.Mapping().Ascii(byte(cp), st)
				}
				return f.Mapping().Utf8(cp, st)
			}
			g, ok := ask()
			h.keep("a glyph group", func() string { return readGroup(g, ok).String() }, func() string { return readGroup(ask()).String() }, nil)
			if fmt.Sprint(st) != was {
				h.Failf("a lookup changed the settings it was given")
			}
			return
		}
		i := h.Intn(2)
		set := func(v []uint8) {
			for k := range v {
				if x.cacheS[i][k] != v[k] {
					x.sc[i].Set(ggfnt.SettingKey(k), v[k])
					x.cacheS[i][k] = v[k]
				}
			}
			x.caches[i].Drop()
		}
		if h.OneIn(4) {
			set(m.randSettings(h.RNG))
		}
		st := bytes.Clone(x.cacheS[i])
		ask := func() (ggfnt.GlyphMappingGroup, bool) {
			if kind == 14 {
				return f.Mapping().Utf8WithCache(cp, x.sc[i])
			}
			return x.caches[i].Get(cp, x.sc[i])
		}
		g, ok := ask()
		if got := fmt.Sprint(x.sc[i].UnsafeSlice()); got != fmt.Sprint(x.cacheS[i]) {
			h.Failf("a lookup changed the settings")
		}
		h.keep("a glyph group found through a cache", func() string { return readGroup(g, ok).String() }, func() string {
			set(st)
			return readGroup(ask()).String()
		}, nil)
	case 17:
		if n := len(m.Conds); n > 0 {
			k, st := uint8(h.Intn(n)), m.randSettings(h.RNG)
			was := fmt.Sprint(st)
			str("the value of a condition", func() string { return fmt.Sprint(f.Rewrites().EvaluateCondition(k, st)) })
			if fmt.Sprint(st) != was {
				h.Failf("evaluating a condition changed the settings it was given")
			}
		}
	case 18, 21, 22, 23:
		h.rewrites(x)
	case 19:
		a, b := ggfnt.GlyphIndex(h.Intn(len(m.Glyphs))), ggfnt.GlyphIndex(h.Intn(len(m.Glyphs)))
		str("kerning", func() string { return fmt.Sprint(f.Kerning().Get(a, b), f.Kerning().GetVert(a, b)) })
	case 20:
		h.other(x)
	}
}

// rewrites holds rules and sets, and runs a few rules.
func (h *holder) rewrites(x *heldFont) {
	rw, m := x.f.Rewrites(), x.m
	if n := len(m.GlyphRules); n > 0 && h.Bool() {
		k := uint16(h.Intn(n))
		read := func(u ggfnt.GlyphRewriteRule) string {
			var out []ggfnt.GlyphIndex
			u.EachOut(func(g ggfnt.GlyphIndex) { out = append(out, g) })
			return fmt.Sprint(u.Data, out)
		}
		u := rw.GetGlyphRule(k)
		h.keep("a glyph rule", func() string { return read(u) }, func() string { return read(rw.GetGlyphRule(k)) }, nil)
	}
	if n := len(m.RuneRules); n > 0 && h.Bool() {
		k := uint16(h.Intn(n))
		read := func(u ggfnt.Utf8RewriteRule) string {
			var out []rune
			u.EachOut(func(g rune) { out = append(out, g) })
			return fmt.Sprint(u.Data, out)
		}
		u := rw.GetUtf8Rule(k)
		h.keep("a character rule", func() string { return read(u) }, func() string { return read(rw.GetUtf8Rule(k)) }, nil)
	}
	if n := len(m.GlyphSets); n > 0 && h.Bool() {
		k := uint8(h.Intn(n))
		s := rw.GetGlyphSet(k)
		h.keep("a glyph set", func() string { return readGlyphSet(s) }, func() string { return readGlyphSet(rw.GetGlyphSet(k)) }, nil)
	}
	if n := len(m.RuneSets); n > 0 && h.Bool() {
		k := uint8(h.Intn(n))
		s := rw.GetUtf8Set(k)
		h.keep("a character set", func() string { return readRuneSet(s) }, func() string { return readRuneSet(rw.GetUtf8Set(k)) }, nil)
	}
	if h.depth > 0 {
		return
	}
	// testers keep references to the rules they are given
	if n := len(m.GlyphRules); n > 0 && h.Bool() {
		h.gt.RemoveAllRules()
		for k := h.Range(1, 3); k > 0; k-- {
			h.gt.AddRule(rw.GetGlyphRule(uint16(h.Intn(n))))
		}
		if h.gt.Resync(x.f, x.sc[0]) == nil && h.gt.BeginSequence(x.f, x.sc[0]) == nil {
			for k := h.Intn(12); k > 0; k-- {
				if h.gt.Feed(ggfnt.GlyphIndex(h.Intn(len(m.Glyphs))), func(ggfnt.GlyphIndex) { h.within() }) != nil {
					break
				}
			}
			h.gt.FinishSequence(func(ggfnt.GlyphIndex) { h.within() })
			h.Count("rewriting_runs", 1)
		}
	}
	if n := len(m.RuneRules); n > 0 && h.Bool() {
		h.ut.RemoveAllRules()
		for k := h.Range(1, 3); k > 0; k-- {
			h.ut.AddRule(rw.GetUtf8Rule(uint16(h.Intn(n))))
		}
		if h.ut.Resync(x.f, x.sc[0]) == nil && h.ut.BeginSequence(x.f, x.sc[0]) == nil {
			for k := h.Intn(12); k > 0; k-- {
				if h.ut.Feed(rune(h.Intn(0x500)), func(rune) { h.within() }) != nil {
					break
				}
			}
			h.ut.FinishSequence(func(rune) { h.within() })
			h.Count("rewriting_runs", 1)
		}
	}
}

// other makes queries that are not of a font's tables.
func (h *holder) other(x *heldFont) {
	switch h.Intn(4) {
	case 0: // export
		export := func() []byte {
			b, err := exportFont(x.f)
			if err != nil {
				h.Failf("Export fails: %v", err)
			}
			return b
		}
		b := export()
		h.keep("an exported font", func() string { return string(b) }, func() string { return string(export()) }, func() {
			for i := range b {
				b[i] = 0
			}
		})
	case 1: // rasterize loose operations
		ops := h.Ops(h.Range(0, 12))
		if r, err := refRaster(ops); err != nil || len(r.pix) > 20000 {
			return
		}
		was := bytes.Clone(ops)
		img, err := mask.Rasterize(ops)
		if err != nil || !bytes.Equal(ops, was) {
			h.Failf("Rasterize of well-formed operations: error %v, operations changed: %v", err, !bytes.Equal(ops, was))
		}
		for i := range ops { // the image does not depend on them
			ops[i] ^= 0xFF
		}
		h.keep("a rasterized image", func() string { return imageText(img) }, func() string {
			img, _ := mask.Rasterize(was)
			return imageText(img)
		}, func() {
			if img != nil {
				clear(img.Pix)
			}
		})
	case 2: // encode
		img := h.Mask(12)
		was := imageText(img)
		enc := pick(h.RNG, h.encs)
		out := enc.AppendRasterOps(nil, img)
		if imageText(img) != was {
			h.Failf("encoding changed the mask")
		}
		copied := *img
		copied.Pix = bytes.Clone(img.Pix)
		clear(img.Pix) // the operations do not depend on the mask any more
		h.keep("encoded operations", func() string { return fmt.Sprint(out) }, func() string { return fmt.Sprint(enc.AppendRasterOps(nil, &copied)) }, func() { clear(out) })
	case 3: // another copy of the same font
		var b bytes.Buffer
		b.Write(pack(x.raw))
		f, err := ggfnt.Parse(&b)
		if err != nil {
			h.Failf("a font that was parsed before is rejected: %v", err)
		}
		h.keep("a parsed font", func() string { return string(f.Data) + fontRest(f) }, func() string { return string(x.f.Data) + fontRest(x.f) }, func() {
			clear(f.Data) // one copy does not affect the other
		})
	}
}

func (h *holder) watch() {
	for i, x := range h.fonts {
		if !bytes.Equal(x.f.Data, x.raw) || fontRest(x.f) != x.rest {
			h.Failf("font %d was changed by query %d (byte %d of %d)", i, h.ops, firstDiff(x.f.Data, x.raw), len(x.raw))
		}
	}
	h.Count("fonts_compared", len(h.fonts))
}

func (h *holder) look(a *answer) {
	if a.now != nil {
		if got := a.now(); got != a.want {
			h.Failf("%s, %d queries old: %s, when it was given: %s", a.what, h.ops-a.at, clip(got), clip(a.want))
		}
		h.Count("answers_looked_at", 1)
	}
}

func (h *holder) repeat(a *answer) {
	if got := a.again(); got != a.want {
		h.Failf("%s is now %s, and was %s %d queries ago", a.what, clip(got), clip(a.want), h.ops-a.at)
	}
	h.Count("queries_repeated", 1)
}

func heldCase(c *Ctx) {
	h := &holder{Ctx: c, gt: &rerules.GlyphTester{}, ut: &rerules.Utf8Tester{}, encs: []*mask.Encoder{{}, {}}}
	for n := c.Range(1, 3); n > 0; n-- {
		m := c.Model(ModelOpts{MaxGlyphs: pick(c.RNG, []int{3, 20, 60})})
		if raw, _ := m.encode(); len(raw) > 20000 {
			m = smallModel(c)
		}
		h.fonts = append(h.fonts, h.open(m))
	}
	n := c.Range(40, 200)
	c.NoPanic("a query", func() {
		for i := 0; i < n; i++ {
			c.Logf("query %d", i)
			h.query()
			h.watch()
			a := pick(c.RNG, append(h.answers, &answer{now: func() string { return "" }, again: func() string { return "" }}))
			switch c.Intn(6) {
			case 0, 1:
				h.look(a)
			case 2:
				if a.change != nil && a.now != nil {
					a.now = nil
					a.change()
					c.Logf("%s is changed by its owner", a.what)
					h.watch()
					c.Count("answers_changed_by_their_owner", 1)
				}
			case 3:
				h.repeat(a)
			}
		}
		for _, a := range h.answers {
			h.look(a)
		}
		for _, i := range c.Perm(len(h.answers)) {
			h.repeat(h.answers[i])
		}
		for _, a := range h.answers {
			h.look(a)
		}
		h.watch()
	})
	c.Sample("%d queries of %d fonts, %d answers held", h.ops, len(h.fonts), len(h.answers))
	c.Eval(c.U64(), len(h.answers) > 20)
}

func init() {
	register(&Property{ID: "P28", Level: "exploration",
		Rule:    "One evaluation is one history of queries on one to three fonts. Every answer is kept and compared with what it said when it was given, after random later queries and at the end; fonts are compared with their contents after every query. Non-trivial if more than 20 answers were held.",
		Require: []string{"answers_held", "answers_looked_at", "queries_repeated", "answers_changed_by_their_owner", "queries_within_callbacks", "fonts_compared", "rewriting_runs"},
		Workloads: []Workload{
			{Name: "histories", Quick: 3000, Thorough: 40000, Run: heldCase},
		},
	})
}
