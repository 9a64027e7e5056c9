package main

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"image/color"
	"sort"
	"strings"

	"github.com/tinne26/ggfnt"
)

// ---------------------------------------------------------------------------
// Monitors comparing the answers of a *ggfnt.Font with a reference model.
// Each returns the number of observations made.
// ---------------------------------------------------------------------------

func eq[T comparable](c *Ctx, what string, got, want T) {
	if got != want {
		c.Failf("%s: got %v, expected %v", what, clip(fmt.Sprint(got)), clip(fmt.Sprint(want)))
	}
}

func clip(s string) string {
	if len(s) > 200 {
		return fmt.Sprintf("%s...(%d bytes)", s[:200], len(s))
	}
	return s
}

func dateOf(d ggfnt.Date) MDate { return MDate{d.Year, d.Month, d.Day} }

func checkHeader(c *Ctx, f *ggfnt.Font, m *Model) {
	h := f.Header()
	eq(c, "FormatVersion", h.FormatVersion(), m.Version)
	eq(c, "ID", h.ID(), m.ID)
	eq(c, "VersionMajor", h.VersionMajor(), m.Major)
	eq(c, "VersionMinor", h.VersionMinor(), m.Minor)
	eq(c, "FirstVersionDate", dateOf(h.FirstVersionDate()), m.Dates[0])
	eq(c, "MajorVersionDate", dateOf(h.MajorVersionDate()), m.Dates[1])
	eq(c, "MinorVersionDate", dateOf(h.MinorVersionDate()), m.Dates[2])
	eq(c, "Name", h.Name(), m.Name)
	eq(c, "Family", h.Family(), m.Family)
	eq(c, "Author", h.Author(), m.Author)
	eq(c, "About", h.About(), m.Abut)
	c.Count("header_values", 11)
}

func checkMetrics(c *Ctx, f *ggfnt.Font, m *Model) {
	k, x := f.Metrics(), m.Met
	eq(c, "NumGlyphs", k.NumGlyphs(), x.NumGlyphs)
	eq(c, "Glyphs().Count", f.Glyphs().Count(), x.NumGlyphs)
	eq(c, "HasVertLayout", k.HasVertLayout(), x.Vert)
	eq(c, "MonoWidth", k.MonoWidth(), x.Mono)
	eq(c, "Monospaced", k.Monospaced(), x.Mono != 0)
	eq(c, "Ascent", k.Ascent(), x.Asc)
	eq(c, "ExtraAscent", k.ExtraAscent(), x.XAsc)
	eq(c, "Descent", k.Descent(), x.Desc)
	eq(c, "ExtraDescent", k.ExtraDescent(), x.XDesc)
	eq(c, "UppercaseAscent", k.UppercaseAscent(), x.Upper)
	eq(c, "MidlineAscent", k.MidlineAscent(), x.Middle)
	eq(c, "HorzInterspacing", k.HorzInterspacing(), x.HInter)
	eq(c, "VertInterspacing", k.VertInterspacing(), x.VInter)
	eq(c, "LineGap", k.LineGap(), x.LineGap)
	eq(c, "VertLineWidth", k.VertLineWidth(), x.VLineW)
	eq(c, "VertLineGap", k.VertLineGap(), x.VLineGap)
	eq(c, "LineHeight", k.LineHeight(), int(x.Asc)+int(x.Desc)+int(x.LineGap))
	eq(c, "VertLineFullWidth", k.VertLineFullWidth(), int(x.VLineW)+int(x.VLineGap))
	c.Count("metric_values", 18)
}

func checkColor(c *Ctx, f *ggfnt.Font, m *Model) {
	k := f.Color()
	eq(c, "NumDyes", int(k.NumDyes()), len(m.Dyes))
	eq(c, "NumPalettes", int(k.NumPalettes()), len(m.Palettes))
	flat := []color.RGBA{{}}
	nd, np := 0, 0
	i := 0
	k.EachDye(func(key ggfnt.DyeKey, name string) {
		if i >= len(m.Dyes) {
			c.Failf("EachDye enumerates more than %d dyes", len(m.Dyes))
		}
		eq(c, "EachDye key", int(key), i)
		eq(c, "EachDye name", name, m.Dyes[i].Name)
		i++
	})
	eq(c, "dyes enumerated", i, len(m.Dyes))
	for i, d := range m.Dyes {
		eq(c, fmt.Sprintf("NumDyeAlphas(%d)", i), int(k.NumDyeAlphas(ggfnt.DyeKey(i))), len(d.Alphas))
		var got []byte
		k.EachDyeAlpha(ggfnt.DyeKey(i), func(a uint8) {
			if len(got) <= 256 {
				got = append(got, a)
			}
		})
		if !bytes.Equal(got, d.Alphas) {
			c.Failf("alphas of dye %d: got %v, expected %v", i, got, d.Alphas)
		}
		for _, a := range d.Alphas {
			flat = append(flat, color.RGBA{a, a, a, a})
		}
		nd += len(d.Alphas)
	}
	i = 0
	k.EachPalette(func(key ggfnt.PaletteKey, name string) {
		if i >= len(m.Palettes) {
			c.Failf("EachPalette enumerates more than %d palettes", len(m.Palettes))
		}
		eq(c, "EachPalette key", int(key), i)
		eq(c, "EachPalette name", name, m.Palettes[i].Name)
		i++
	})
	eq(c, "palettes enumerated", i, len(m.Palettes))
	for i, d := range m.Palettes {
		eq(c, fmt.Sprintf("NumPaletteColors(%d)", i), int(k.NumPaletteColors(ggfnt.PaletteKey(i))), len(d.Colors))
		var got []color.RGBA
		k.EachPaletteColor(ggfnt.PaletteKey(i), func(a color.RGBA) {
			if len(got) <= 256 {
				got = append(got, a)
			}
		})
		if fmt.Sprint(got) != fmt.Sprint(d.Colors) {
			c.Failf("colors of palette %d: got %v, expected %v", i, got, d.Colors)
		}
		flat = append(flat, d.Colors...)
		np += len(d.Colors)
	}
	eq(c, "NumDyeIndices", int(k.NumDyeIndices()), nd)
	eq(c, "NumPaletteIndices", int(k.NumPaletteIndices()), np)
	eq(c, "Count", int(k.Count()), nd+np)
	pal := k.GoColorPalette()
	eq(c, "GoColorPalette length", len(pal), len(flat))
	for i := range pal {
		if got, ok := pal[i].(color.RGBA); ok {
			eq(c, fmt.Sprintf("GoColorPalette[%d]", i), got, flat[i])
		} else {
			r, g, b, a := pal[i].RGBA()
			eq(c, fmt.Sprintf("GoColorPalette[%d]", i), color.RGBA{uint8(r >> 8), uint8(g >> 8), uint8(b >> 8), uint8(a >> 8)}, flat[i])
		}
	}
	c.Count("color_sections", len(m.Dyes)+len(m.Palettes))
	c.Count("color_entries", len(flat))
}

// nearNames derives query strings around a name.
func nearNames(r *RNG, s string) []string {
	out := []string{s + "a", s + "0", s + "z", s + "-", s + "\x00", "-" + s, s + s, strings.ToUpper(s), strings.ToLower(s)}
	if len(s) > 0 {
		out = append(out, s[:len(s)-1], s[1:])
		b := []byte(s)
		i := r.Intn(len(b))
		b[i]++
		out = append(out, string(b))
		b[i] -= 2
		out = append(out, string(b))
		out = append(out, s[:r.Intn(len(s)+1)])
	}
	return out
}

func checkNames(c *Ctx, f *ggfnt.Font, m *Model) {
	g := f.Glyphs()
	names := map[string]int{}
	for i := range m.Glyphs {
		if m.Glyphs[i].Name != "" {
			names[m.Glyphs[i].Name] = i
		}
	}
	eq(c, "NamedCount", int(g.NamedCount()), len(names))
	ask := func(q string) {
		want := ggfnt.GlyphMissing
		if i, ok := names[q]; ok {
			want = ggfnt.GlyphIndex(i)
			c.Count("name_hits", 1)
		} else {
			c.Count("name_misses", 1)
		}
		if got := g.FindIndexByName(q); got != want {
			c.Failf("FindIndexByName(%q): got %d, expected %d (names: %s)", q, got, want, clip(fmt.Sprint(sortedKeys(names))))
		}
	}
	keys := sortedKeys(names)
	for i, n := range keys {
		ask(n)
		if len(keys) > 2500 && i > 0 && i < len(keys)-1 && !c.OneIn(len(keys)/1000) {
			continue
		}
		for _, q := range nearNames(c.RNG, n) {
			ask(q)
		}
	}
	for _, q := range []string{"", "a", "z", "~", "\x00", "\xff", "-", "aa", "ab", "b", strings.Repeat("z", 40)} {
		ask(q)
	}
	for i := 0; i < 10; i++ {
		ask(c.BasicName(4))
	}
}

func sortedKeys(m map[string]int) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Pixels of an alpha image: non-transparent ones by position.
func pixels(img *image.Alpha) map[image.Point]uint8 {
	out := map[image.Point]uint8{}
	if img == nil {
		return out
	}
	b := img.Rect
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			if a := img.AlphaAt(x, y).A; a != 0 {
				out[image.Pt(x, y)] = a
			}
		}
	}
	return out
}

func samePixels(a, b map[image.Point]uint8) (image.Point, bool) {
	for p, v := range a {
		if b[p] != v {
			return p, false
		}
	}
	for p, v := range b {
		if a[p] != v {
			return p, false
		}
	}
	return image.Point{}, true
}

// checkImage compares an image with expected pixels.
func checkImage(c *Ctx, what string, got *image.Alpha, want map[image.Point]uint8) {
	gp := pixels(got)
	if p, ok := samePixels(gp, want); !ok {
		c.Failf("%s: pixel %v is %d, expected %d", what, p, gp[p], want[p])
	}
	c.Count("pixels_compared", len(want))
}

func checkGlyphs(c *Ctx, f *ggfnt.Font, m *Model, masks []map[image.Point]uint8) {
	g := f.Glyphs()
	for n, i := range c.Perm(len(m.Glyphs)) {
		if n%64 == 0 {
			c.Beat()
		}
		x := m.Glyphs[i]
		gi := ggfnt.GlyphIndex(i)
		p := g.Placement(gi)
		want := x.Place
		if !m.Met.Vert {
			want[1], want[2], want[3] = 0, 0, 0
		}
		if got := [4]byte{p.Advance, p.TopAdvance, p.BottomAdvance, p.HorzCenter}; got != want {
			c.Failf("placement of glyph %d: got %v, expected %v", i, got, want)
		}
		if got := g.Advance(gi); got != want[0] {
			c.Failf("advance of glyph %d: got %d, expected %d", i, got, want[0])
		}
		if n > 600 && i != len(m.Glyphs)-1 {
			continue
		}
		var exp map[image.Point]uint8
		if masks != nil {
			exp = masks[i]
		} else {
			ref, err := refRaster(x.Ops)
			if err != nil {
				continue
			}
			exp = ref.pix
		}
		checkImage(c, fmt.Sprintf("mask of glyph %d of %d", i, len(m.Glyphs)), g.RasterizeMask(gi), exp)
		c.Count("glyph_masks", 1)
	}
}

func checkSettings(c *Ctx, f *ggfnt.Font, m *Model) {
	s := f.Settings()
	eq(c, "settings count", int(s.Count()), len(m.Settings))
	eq(c, "words count", int(s.NumWords()), len(m.Words))
	i := 0
	s.Each(func(key ggfnt.SettingKey, name string) {
		if i >= len(m.Settings) {
			c.Failf("Each enumerates more than %d settings", len(m.Settings))
		}
		eq(c, "setting key", int(key), i)
		eq(c, "setting name", name, m.Settings[i].Name)
		i++
	})
	eq(c, "settings enumerated", i, len(m.Settings))
	for i := 0; i < 256; i++ {
		want := ggfnt.GetPredefinedWord(uint8(i))
		if i < len(m.Words) {
			want = m.Words[i]
		}
		eq(c, fmt.Sprintf("GetWord(%d) with %d words", i, len(m.Words)), s.GetWord(uint8(i)), want)
	}
	for i, x := range m.Settings {
		eq(c, fmt.Sprintf("GetNumOptions(%d)", i), int(s.GetNumOptions(ggfnt.SettingKey(i))), len(x.Options))
		for j, w := range x.Options {
			want := ggfnt.GetPredefinedWord(w)
			if int(w) < len(m.Words) {
				want = m.Words[w]
			}
			eq(c, fmt.Sprintf("GetOptionName(%d, %d)", i, j), s.GetOptionName(ggfnt.SettingKey(i), uint8(j)), want)
		}
		c.Count("options", len(x.Options))
	}
	for i := len(m.Settings); i < 256; i += 1 + c.Intn(60) {
		eq(c, fmt.Sprintf("GetNumOptions(%d) with %d settings", i, len(m.Settings)), int(s.GetNumOptions(ggfnt.SettingKey(i))), 0)
	}
	c.Count("settings", len(m.Settings))
}

type groupAnswer struct {
	found  bool
	Case   uint8
	Flags  uint8
	Glyphs []uint16
}

func (g groupAnswer) String() string {
	if !g.found {
		return "not found"
	}
	return fmt.Sprintf("case %d flags %08b glyphs %v", g.Case, g.Flags, g.Glyphs)
}

func readGroup(g ggfnt.GlyphMappingGroup, found bool) groupAnswer {
	a := groupAnswer{found: found}
	if !found {
		return a
	}
	a.Case = g.CaseBranch()
	a.Flags = uint8(g.AnimationFlags())
	for i := 0; i < int(g.Size()); i++ {
		a.Glyphs = append(a.Glyphs, uint16(g.Select(uint8(i))))
	}
	return a
}

func (m *Model) lookup(idx map[int32]int, cp int32, settings []uint8) groupAnswer {
	i, ok := idx[cp]
	if !ok {
		return groupAnswer{}
	}
	e := m.Mappings[i]
	n := 0
	if e.Switch < 254 {
		n = m.caseOf(int(e.Switch), settings)
	}
	g := e.Groups[n]
	a := groupAnswer{found: true, Case: uint8(n), Glyphs: g.Glyphs}
	if len(g.Glyphs) > 1 {
		a.Flags = g.Flags
	}
	return a
}

func (m *Model) mapIndex() map[int32]int {
	idx := map[int32]int{}
	for i, e := range m.Mappings {
		idx[e.Rune] = i
	}
	return idx
}

func (a groupAnswer) equal(b groupAnswer) bool { return a.String() == b.String() }

func checkMapping(c *Ctx, f *ggfnt.Font, m *Model, rounds int) {
	fm := f.Mapping()
	eq(c, "NumEntries", int(fm.NumEntries()), len(m.Mappings))
	eq(c, "NumSwitchTypes", int(fm.NumSwitchTypes()), len(m.Switches))
	idx := m.mapIndex()
	for round := 0; round < rounds; round++ {
		st := m.randSettings(c.RNG)
		sc := ggfnt.NewSettingsCache(f)
		for i, v := range st {
			sc.Set(ggfnt.SettingKey(i), v)
		}
		for i := range m.Switches {
			eq(c, fmt.Sprintf("EvaluateSwitch(%d) of settings %v under %v", i, m.Switches[i], st), int(fm.EvaluateSwitch(uint8(i), st)), m.caseOf(i, st))
			c.Count("switch_evaluations", 1)
		}
		ask := func(cp int32) {
			want := m.lookup(idx, cp, st)
			got := readGroup(fm.Utf8(cp, st))
			if !got.equal(want) {
				c.Failf("Utf8(%d) with settings %v: got %v, expected %v", cp, st, got, want)
			}
			got = readGroup(fm.Utf8WithCache(cp, sc))
			if !got.equal(want) {
				c.Failf("Utf8WithCache(%d) with settings %v: got %v, expected %v", cp, st, got, want)
			}
			if cp >= 0 && cp < 256 {
				got = readGroup(fm.Ascii(byte(cp), st))
				if !got.equal(want) {
					c.Failf("Ascii(%d) with settings %v: got %v, expected %v", cp, st, got, want)
				}
			}
			if want.found {
				c.Count("mapping_hits", 1)
				if i := idx[cp]; m.Mappings[i].Switch < 254 {
					c.Count("switch_hits", 1)
					if want.Case > 0 {
						c.Count("nonzero_case_hits", 1)
					}
				}
				if len(want.Glyphs) > 1 {
					c.Count("multi_glyph_groups", 1)
				}
			} else {
				c.Count("mapping_misses", 1)
			}
		}
		probe := c.Perm(len(m.Mappings))
		if len(probe) > 150 {
			probe = probe[:150]
		}
		for _, i := range probe {
			cp := m.Mappings[i].Rune
			ask(cp)
			ask(cp + 1)
			ask(cp - 1)
		}
		for i := 0; i < 8; i++ {
			ask(c.Rune())
		}
		ask(0)
		ask(-1)
		ask(0x7fffffff)
		ask(-0x80000000)
		ask(0x10FFFF)
	}
}

func checkConditions(c *Ctx, f *ggfnt.Font, m *Model, rounds int) {
	rw := f.Rewrites()
	eq(c, "NumConditions", int(rw.NumConditions()), len(m.Conds))
	for round := 0; round < rounds; round++ {
		var st []uint8
		if round%2 == 0 {
			st = m.randSettings(c.RNG)
		} else {
			st = make([]uint8, len(m.Settings))
			for i := range st {
				st[i] = uint8(c.Intn(5))
				if c.OneIn(6) {
					st[i] = c.Byte()
				}
			}
		}
		for i, cond := range m.Conds {
			want := cond.eval(st)
			var got bool
			p, stack := Try(func() { got = rw.EvaluateCondition(uint8(i), st) })
			if p != nil {
				c.Fail("panic", "EvaluateCondition(%d) of %v with settings %v panicked: %v\n%s", i, cond, st, p, trimStack(stack))
			}
			if got != want {
				c.Failf("EvaluateCondition(%d) of %v with settings %v: got %v", i, cond, clip(fmt.Sprint(st)), got)
			}
			if want {
				c.Count("conditions_true", 1)
			} else {
				c.Count("conditions_false", 1)
			}
			if len(cond.Terms) > 0 {
				c.Count("compound_conditions", 1)
			}
		}
	}
}

var errStop = errors.New("stop")

func setString(s MSet) string {
	var b strings.Builder
	for _, r := range s.Ranges {
		fmt.Fprintf(&b, "[%d-%d]", r.First, r.First+int32(r.Extra))
	}
	for _, e := range s.List {
		fmt.Fprintf(&b, " %d", e)
	}
	return b.String()
}

func readGlyphSet(s ggfnt.GlyphRewriteSet) string {
	var b strings.Builder
	s.EachRange(func(r ggfnt.GlyphRange) error {
		fmt.Fprintf(&b, "[%d-%d]", r.First, r.Last)
		return nil
	})
	s.EachListGlyph(func(g ggfnt.GlyphIndex) error {
		fmt.Fprintf(&b, " %d", g)
		return nil
	})
	return b.String()
}

func readRuneSet(s ggfnt.Utf8RewriteSet) string {
	var b strings.Builder
	s.EachRange(func(first, last rune) error {
		fmt.Fprintf(&b, "[%d-%d]", first, last)
		return nil
	})
	s.EachListRune(func(g rune) error {
		fmt.Fprintf(&b, " %d", g)
		return nil
	})
	return b.String()
}

// checkRanges checks that a glyph range contains exactly what lies between its
// ends, for the ranges of the sets and others.
func checkRanges(c *Ctx, f *ggfnt.Font, m *Model) {
	test := func(first, last int) {
		r := ggfnt.GlyphRange{First: ggfnt.GlyphIndex(first), Last: ggfnt.GlyphIndex(last)}
		if first <= last {
			var n ggfnt.GlyphRange
			c.NoPanic("NewRange", func() { n = ggfnt.NewRange(r.First, r.Last) })
			eq(c, "NewRange", n, r)
		} else if p, _ := Try(func() { ggfnt.NewRange(r.First, r.Last) }); p == nil {
			c.Failf("NewRange(%d, %d) does not refuse the reversed range", first, last)
		}
		for _, g := range []int{first - 1, first, first + 1, (first + last) / 2, last - 1, last, last + 1, 0, 65535, c.Intn(65536), first ^ 256} {
			if g >= 0 && g < 65536 {
				eq(c, fmt.Sprintf("range %d-%d contains %d", first, last, g), r.Contains(ggfnt.GlyphIndex(g)), first <= g && g <= last)
			}
		}
		for _, n := range []int{last, last + 1, first, first + 1, 0, 65535, int(f.Metrics().NumGlyphs()), c.Intn(65536)} {
			if n < 65536 {
				if err := r.Validate(uint16(n)); (err == nil) != (first <= last && last < n) {
					c.Failf("range %d-%d is said to be %v for %d glyphs", first, last, err, n)
				}
			}
		}
		c.Count("ranges", 1)
	}
	for _, s := range m.GlyphSets {
		if len(s.Ranges) > 0 {
			r := pick(c.RNG, s.Ranges)
			test(int(r.First), min(int(r.First)+int(r.Extra), 65535))
		}
	}
	a, b := c.Intn(65536), c.Intn(65536)
	test(min(a, b), max(a, b))
	if a != b {
		test(max(a, b), min(a, b))
	}
	test(a, a)
}

func checkRewrites(c *Ctx, f *ggfnt.Font, m *Model, bytesToo bool) {
	rw := f.Rewrites()
	eq(c, "NumConditions", int(rw.NumConditions()), len(m.Conds))
	eq(c, "NumUTF8Sets", int(rw.NumUTF8Sets()), len(m.RuneSets))
	eq(c, "NumGlyphSets", int(rw.NumGlyphSets()), len(m.GlyphSets))
	eq(c, "NumUTF8Rules", int(rw.NumUTF8Rules()), len(m.RuneRules))
	eq(c, "NumGlyphRules", int(rw.NumGlyphRules()), len(m.GlyphRules))
	for i, s := range m.RuneSets {
		eq(c, fmt.Sprintf("rune set %d", i), readRuneSet(rw.GetUtf8Set(uint8(i))), setString(s))
	}
	for i, s := range m.GlyphSets {
		eq(c, fmt.Sprintf("glyph set %d", i), readGlyphSet(rw.GetGlyphSet(uint8(i))), setString(s))
	}
	checkRanges(c, f, m)
	// enumeration stops with the error the callback returns
	for i, s := range m.GlyphSets {
		gs := rw.GetGlyphSet(uint8(i))
		if len(s.Ranges) > 0 {
			at, n := c.Intn(len(s.Ranges)), 0
			err := gs.EachRange(func(ggfnt.GlyphRange) error {
				n++
				if n == at+1 {
					return errStop
				}
				return nil
			})
			if err != errStop || n != at+1 {
				c.Failf("EachRange after the callback failed on call %d: %d calls, error %v", at+1, n, err)
			}
		}
		if len(s.List) > 0 {
			at, n := c.Intn(len(s.List)), 0
			err := gs.EachListGlyph(func(ggfnt.GlyphIndex) error {
				n++
				if n == at+1 {
					return errStop
				}
				return nil
			})
			if err != errStop || n != at+1 {
				c.Failf("EachListGlyph after the callback failed on call %d: %d calls, error %v", at+1, n, err)
			}
		}
	}
	for i, s := range m.RuneSets {
		gs := rw.GetUtf8Set(uint8(i))
		if len(s.Ranges) > 0 {
			at, n := c.Intn(len(s.Ranges)), 0
			err := gs.EachRange(func(a, b rune) error {
				n++
				if n == at+1 {
					return errStop
				}
				return nil
			})
			if err != errStop || n != at+1 {
				c.Failf("EachRange after the callback failed on call %d: %d calls, error %v", at+1, n, err)
			}
		}
		if len(s.List) > 0 {
			at, n := c.Intn(len(s.List)), 0
			err := gs.EachListRune(func(rune) error {
				n++
				if n == at+1 {
					return errStop
				}
				return nil
			})
			if err != errStop || n != at+1 {
				c.Failf("EachListRune after the callback failed on call %d: %d calls, error %v", at+1, n, err)
			}
		}
	}
	for i, r := range m.RuneRules {
		u := rw.GetUtf8Rule(uint16(i))
		var out []int32
		u.EachOut(func(g rune) { out = append(out, g) })
		got := fmt.Sprintf("cond %d head %d body %d tail %d in %d out %d %v", u.Condition(), u.HeadLen(), u.BodyLen(), u.TailLen(), u.InLen(), u.OutLen(), out)
		eq(c, fmt.Sprintf("utf8 rule %d", i), got, ruleString(r))
		if bytesToo && !bytes.Equal(u.Data, encodeRule(r, false)) {
			c.Failf("utf8 rule %d of %d has the wrong data", i, len(m.RuneRules))
		}
		if !u.Equals(rw.GetUtf8Rule(uint16(i))) {
			c.Failf("utf8 rule %d isn't equal to itself", i)
		}
		for _, j := range []int{i - 1, i + 1, c.Intn(len(m.RuneRules))} {
			if !bytesToo || j < 0 || j >= len(m.RuneRules) {
				continue
			}
			want := bytes.Equal(encodeRule(r, false), encodeRule(m.RuneRules[j], false))
			eq(c, fmt.Sprintf("equality of utf8 rules %d and %d", i, j), u.Equals(rw.GetUtf8Rule(uint16(j))), want)
			c.Count("rule_comparisons", 1)
			if want {
				c.Count("equal_rules", 1)
			}
		}
	}
	for i, r := range m.GlyphRules {
		u := rw.GetGlyphRule(uint16(i))
		var out []int32
		u.EachOut(func(g ggfnt.GlyphIndex) { out = append(out, int32(g)) })
		got := fmt.Sprintf("cond %d head %d body %d tail %d in %d out %d %v", u.Condition(), u.HeadLen(), u.BodyLen(), u.TailLen(), u.InLen(), u.OutLen(), out)
		eq(c, fmt.Sprintf("glyph rule %d", i), got, ruleString(r))
		if bytesToo && !bytes.Equal(u.Data, encodeRule(r, true)) {
			c.Failf("glyph rule %d of %d has the wrong data", i, len(m.GlyphRules))
		}
		if !u.Equals(rw.GetGlyphRule(uint16(i))) {
			c.Failf("glyph rule %d isn't equal to itself", i)
		}
		for _, j := range []int{i - 1, i + 1, c.Intn(len(m.GlyphRules))} {
			if !bytesToo || j < 0 || j >= len(m.GlyphRules) {
				continue
			}
			want := bytes.Equal(encodeRule(r, true), encodeRule(m.GlyphRules[j], true))
			eq(c, fmt.Sprintf("equality of glyph rules %d and %d", i, j), u.Equals(rw.GetGlyphRule(uint16(j))), want)
			c.Count("rule_comparisons", 1)
			if want {
				c.Count("equal_rules", 1)
			}
		}
	}
	c.Count("rewrite_sets", len(m.RuneSets)+len(m.GlyphSets))
	c.Count("rewrite_rules", len(m.RuneRules)+len(m.GlyphRules))
}

func ruleString(r MRule) string {
	return fmt.Sprintf("cond %d head %d body %d tail %d in %d out %d %v", r.Cond, len(r.Head), len(r.Body), len(r.Tail), len(r.Head)+len(r.Body)+len(r.Tail), len(r.Out), r.Out)
}

func checkKerning(c *Ctx, f *ggfnt.Font, m *Model) {
	k := f.Kerning()
	eq(c, "NumPairs", int(k.NumPairs()), len(m.Kern))
	eq(c, "NumVertPairs", int(k.NumVertPairs()), len(m.VKern))
	ask := func(a, b uint16) {
		ga, gb := ggfnt.GlyphIndex(a), ggfnt.GlyphIndex(b)
		if got, want := k.Get(ga, gb), m.Kern[KPair{a, b}]; got != want {
			c.Failf("Get(%d, %d): got %d, expected %d (%d pairs)", a, b, got, want, len(m.Kern))
		}
		if got, want := k.GetVert(ga, gb), m.VKern[KPair{a, b}]; got != want {
			c.Failf("GetVert(%d, %d): got %d, expected %d (%d pairs)", a, b, got, want, len(m.VKern))
		}
		c.Count("kerning_queries", 1)
	}
	for _, t := range []map[KPair]int8{m.Kern, m.VKern} {
		ps := sortedPairs(t)
		if len(ps) > 600 {
			perm := c.Perm(len(ps))
			sel := []KPair{ps[0], ps[len(ps)-1]}
			for _, i := range perm[:600] {
				sel = append(sel, ps[i])
			}
			ps = sel
		}
		for _, p := range ps {
			ask(p[0], p[1])
			ask(p[1], p[0])
			ask(p[0], p[1]+1)
			ask(p[0], p[1]-1)
			ask(p[0]+1, p[1])
			ask(p[0]-1, p[1])
			c.Count("kerning_hits", 1)
		}
	}
	for i := 0; i < 20; i++ {
		ask(uint16(c.Intn(len(m.Glyphs)+1)), uint16(c.Intn(len(m.Glyphs)+1)))
	}
	ask(0, 0)
	ask(65535, 65535)
}

func sortedPairs(t map[KPair]int8) []KPair {
	var ps []KPair
	for p := range t {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(a, b int) bool {
		return uint32(ps[a][0])<<16|uint32(ps[a][1]) < uint32(ps[b][0])<<16|uint32(ps[b][1])
	})
	return ps
}

// checkAll runs every monitor.
func checkAll(c *Ctx, f *ggfnt.Font, m *Model) {
	checkHeader(c, f, m)
	checkMetrics(c, f, m)
	checkColor(c, f, m)
	checkNames(c, f, m)
	checkGlyphs(c, f, m, nil)
	checkSettings(c, f, m)
	checkMapping(c, f, m, 2)
	checkConditions(c, f, m, 2)
	checkRewrites(c, f, m, true)
	checkKerning(c, f, m)
}

func parseFont(data []byte) (*ggfnt.Font, error) { return ggfnt.Parse(bytes.NewReader(data)) }

// mustParse parses a file that is known to be well-formed.
func mustParse(c *Ctx, file []byte) *ggfnt.Font {
	var f *ggfnt.Font
	var err error
	c.NoPanic("Parse", func() { f, err = parseFont(file) })
	if err != nil {
		c.Fail("reject", "a well-formed font is rejected: %v", err)
	}
	return f
}

func exportFont(f *ggfnt.Font) ([]byte, error) {
	var b bytes.Buffer
	err := f.Export(&b)
	return b.Bytes(), err
}
