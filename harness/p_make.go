package main

import (
	"bytes"
	"fmt"
	"github.com/tinne26/ggfnt/mask"
	"image"
	"image/color"
	"slices"

	"github.com/tinne26/ggfnt"
)

// ---------------------------------------------------------------------------
// P03, P04, P23, P26, the builder parts of P24, and the monitors of fonts made
// by the builder for P05-P08, P11, P12, P14 and P16.
// ---------------------------------------------------------------------------

func randFocus(r *RNG) string {
	return pick(r, []string{"", "", "header", "color", "glyphs", "set", "mapping", "rewrite", "kerning"})
}

// seededDriver makes a driver whose builder draws identifiers from seed.
func seededDriver(c *Ctx, ops, seed uint64) *driver {
	return newDriver(c, &RNG{ops}, seedCryptoRand(seed))
}

// roundtrip exports and parses a built font, and watches both.
func roundtrip(c *Ctx, f *ggfnt.Font, m *Model, masks []map[image.Point]uint8, check func(f *ggfnt.Font)) *ggfnt.Font {
	var file []byte
	var err error
	c.NoPanic("Export", func() { file, err = exportFont(f) })
	if err != nil {
		c.Failf("a built font can't be exported: %v", err)
	}
	raw, err := gunzipFont(file)
	if err != nil || !bytes.Equal(raw, f.Data) {
		c.Failf("the exported file does not contain the font's data: %v", err)
	}
	var g *ggfnt.Font
	c.NoPanic("Parse", func() { g, err = parseFont(file) })
	if err != nil {
		c.Fail("unparsable", "a built and exported font (%d bytes, %s) can't be parsed: %v", len(raw), m.summary(), err)
	}
	if g.RawSize() != f.RawSize() || g.RawSize() != len(raw) {
		c.Failf("RawSize: built %d, parsed %d, content %d", f.RawSize(), g.RawSize(), len(raw))
	}
	var again []byte
	c.NoPanic("Export", func() { again, err = exportFont(g) })
	if err != nil || !bytes.Equal(again, file) {
		c.Failf("exporting the parsed font gives other bytes (error %v)", err)
	}
	if check != nil {
		check(f)
		check(g)
	}
	c.Count("roundtrips", 1)
	c.Count("max_font_bytes", 0)
	c.counters["max_font_bytes"] = max(c.counters["max_font_bytes"], int64(len(raw)))
	return g
}

func builtWorkload(quick, thorough int, focus string, check func(c *Ctx, f *ggfnt.Font, m *Model, masks []map[image.Point]uint8), nontrivial func(m *Model) bool) Workload {
	return Workload{Name: "built", Quick: quick, Thorough: thorough, Run: func(c *Ctx) {
		d := seededDriver(c, c.U64(), c.U64())
		d.noObs = true
		n := c.Range(5, 120)
		for left := n; left > 0; {
			k := c.Range(1, left)
			left -= k
			for i := 0; i < k; i++ {
				d.step(focus)
			}
			d.makeBuildable()
			f, m, masks := d.build()
			if f == nil {
				c.Count("unbuildable_states", 1)
				continue
			}
			c.Sample("%d operations, built: %s", d.ops, m.summary())
			check(c, f, m, masks)
			check(c, roundtrip(c, f, m, masks, nil), m, masks)
			c.Count("built_fonts", 1)
			c.Eval(hashBytes(f.Data), nontrivial(m))
		}
	}}
}

// crowdedWorkload builds fonts with up to the greatest number of glyphs, so that everything refers to
// glyphs with great indices.
func crowdedWorkload(quick, thorough int, focus string, check func(c *Ctx, f *ggfnt.Font, m *Model, masks []map[image.Point]uint8)) Workload {
	return Workload{Name: "crowded", Quick: quick, Thorough: thorough, Fixed: true, Run: func(c *Ctx) {
		d := seededDriver(c, c.U64(), c.U64())
		d.noObs, d.quiet = true, true
		d.crowd(pick(c.RNG, []int{6000, 20000, 34000, 50000, 56789}))
		d.quiet = false
		d.logf("%d glyphs", len(d.glyphs))
		for i := c.Range(30, 400); i > 0; i-- {
			f := focus
			if c.OneIn(4) {
				f = ""
			}
			d.step(f)
		}
		c.Beat()
		d.makeBuildable()
		f, m, masks := d.build()
		if f == nil {
			c.Count("unbuildable_states", 1)
			return
		}
		c.Sample("%d operations, built: %s", d.ops, m.summary())
		c.Beat()
		check(c, f, m, masks)
		c.Beat()
		check(c, roundtrip(c, f, m, masks, nil), m, masks)
		c.Count("crowded_fonts", 1)
		c.Eval(hashBytes(f.Data), true)
	}}
}

func addWorkloads(id string, ws ...Workload) {
	p := properties[id]
	p.Workloads = append(p.Workloads, ws...)
	for _, w := range ws {
		if w.Name == "built" {
			p.Require = append(p.Require, "built_fonts")
		}
		if w.Name == "crowded" {
			p.Require = append(p.Require, "crowded_fonts")
		}
	}
}

// decodeEdition decides whether uncompressed edition data is legal for a font
// without conditions, and what it says.
func decodeEdition(raw []byte, id uint64, numGlyphs int) (e *edition, err error) {
	defer func() {
		if p := recover(); p != nil {
			if x, ok := p.(decodeErr); ok {
				e, err = nil, fmt.Errorf("%s", x.s)
				return
			}
			panic(p)
		}
	}()
	r := &rbuf{b: raw}
	e = &edition{id: r.u64()}
	if e.id != id {
		r.bad("other font")
	}
	name := func() string {
		s := r.short()
		if len(s) == 0 || len(s) > 32 {
			r.bad("name length")
		}
		for i := 0; i < len(s); i++ {
			c := s[i]
			if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' || c == ' ') {
				r.bad("name character")
			}
		}
		return s
	}
	n := r.u8()
	for i := 0; i < n; i++ {
		e.categories = append(e.categories, name())
	}
	for i := 0; i < n; i++ {
		e.sizes = append(e.sizes, uint16(r.u16()))
	}
	n = r.u16()
	for i := 0; i < n; i++ {
		e.classes = append(e.classes, bClass{name: name()})
	}
	for i := 0; i < n; i++ {
		e.classes[i].value = int8(r.u8())
	}
	for _, t := range []*[]editionPair{&e.horz, &e.vert} {
		for k := r.u24(); k > 0; k-- {
			p := editionPair{uint16(r.u16()), uint16(r.u16()), uint16(r.u16())}
			if int(p.a) >= numGlyphs || int(p.b) >= numGlyphs || p.class == 0 || int(p.class) > n {
				r.bad("pair")
			}
			*t = append(*t, p)
		}
	}
	if r.u8() != 0 {
		r.bad("conditions")
	}
	if r.pos != len(raw) {
		r.bad("excess")
	}
	return e, nil
}

// editionDriver makes a builder with some glyphs and kerning pairs.
func editionDriver(c *Ctx) *driver {
	d := seededDriver(c, c.U64(), c.U64())
	d.noObs = true
	d.fixMetrics()
	for i := c.Range(1, 12); i > 0; i-- {
		d.addGlyph(d.glyphMask())
	}
	for i := c.Intn(25); i > 0; i-- {
		d.step("kerning")
	}
	d.makeBuildable()
	d.noObs = false
	return d
}

// buildAndCompare builds and compares the kerning of the font with the model.
func (d *driver) buildAndCompare() {
	d.makeBuildable()
	if f, m, masks := d.build(); f != nil {
		checkBuilt(d.c, f, m, masks)
	}
}

func mutateEdition(c *Ctx, raw []byte, d *driver) []byte {
	b := append([]byte(nil), raw...)
	for k := c.Range(1, 2); k > 0; k-- {
		switch c.Intn(9) {
		case 0:
			b = b[:c.Intn(len(b)+1)]
		case 1:
			b = append(b, c.Bytes(c.Range(1, 4))...)
		case 2:
			if len(b) > 0 {
				b[c.Intn(len(b))] ^= 1 << c.Intn(8)
			}
		case 3:
			if len(b) > 0 {
				b[c.Intn(len(b))] = pick(c.RNG, []byte{0, 1, 255, 32, 33, 127, 128})
			}
		case 4:
			if len(b) > 8 { // identifier only
				b[c.Intn(8)] ^= 1 << c.Intn(8)
			}
		case 5:
			at := c.Intn(len(b) + 1)
			b = append(b[:at:at], append(c.Bytes(c.Range(1, 6)), b[at:]...)...)
		case 6:
			if len(b) > 0 {
				at := c.Intn(len(b))
				n := min(c.Range(1, 6), len(b)-at)
				b = append(b[:at:at], b[at+n:]...)
			}
		case 7: // a field at the end of the tables
			if len(b) > 12 {
				at := len(b) - 1 - c.Intn(12)
				copy(b[at:], le(pick(c.RNG, []int{0, 1, 2, len(d.glyphs), len(d.glyphs) - 1, len(d.classes), 0xffff, 0xffffff}), 2))
			}
		default:
			if len(b) > 0 {
				b[c.Intn(len(b))]++
			}
		}
	}
	return b
}

// limitCases are builds at the documented limits; each returns whether it is
// expected to be buildable.
var limitCases = []struct {
	name string
	make func(d *driver)
	ok   any // nil: depends on how compact the encoded masks are
}{
	{"255 dyes with names of 255 bytes", func(d *driver) {
		for i := 0; i < 256; i++ {
			d.addDye(fmt.Sprintf("%03d", i)+string(bytes.Repeat([]byte("n"), 252)), []byte{byte(i)})
		}
		d.addPalette("x", []color.RGBA{{}})
	}, true},
	{"dyes and palettes of 255 colors", func(d *driver) {
		d.addDye("a", d.Bytes(254))
		d.addDye("b", d.Bytes(2))
		d.addPalette("p", []color.RGBA{{1, 2, 3, 4}})
		d.addPalette("q", []color.RGBA{{1, 2, 3, 4}})
	}, true},
	{"one palette of 255 colors", func(d *driver) {
		cs := make([]color.RGBA, 255)
		for i := range cs {
			cs[i] = color.RGBA{d.Byte(), d.Byte(), d.Byte(), d.Byte()}
		}
		d.addPalette("p", append(cs, color.RGBA{}))
		d.addPalette("p", cs)
		d.addDye("d", []byte{1})
	}, true},
	{"255 palettes", func(d *driver) {
		for i := 0; i < 256; i++ {
			d.addPalette(fmt.Sprintf("%03d", i)+string(bytes.Repeat([]byte("n"), d.Intn(253))), []color.RGBA{{d.Byte(), d.Byte(), d.Byte(), d.Byte()}})
		}
	}, true},
	{"255 settings of 255 options", func(d *driver) {
		for i := 0; i < 256; i++ {
			opts := make([]string, 255)
			for j := range opts {
				opts[j] = fmt.Sprintf("%032d", j)
			}
			d.addSetting(fmt.Sprintf("%032d", i), opts)
		}
	}, true},
	{"255 words, predefined ones among them", func(d *driver) {
		for i := 0; i < 5; i++ {
			opts := make([]string, 51)
			for j := range opts {
				opts[j] = ggfnt.GetPredefinedWord(uint8(i*51 + j))
				if d.OneIn(2) {
					opts[j] = fmt.Sprintf("w%d-%d", i, j)
				}
			}
			d.addSetting(fmt.Sprintf("s%d", i), opts)
		}
	}, true},
	{"256 words", func(d *driver) {
		for i := 0; i < 2; i++ {
			opts := make([]string, 128)
			for j := range opts {
				opts[j] = fmt.Sprintf("w%d-%d", i, j)
			}
			d.addSetting(fmt.Sprintf("s%d", i), opts)
		}
	}, false},
	{"254 switches of 255 settings", func(d *driver) {
		for i := 0; i < 255; i++ {
			d.addSetting(fmt.Sprintf("s%d", i), []string{"one"})
		}
		for i := 0; i < 255; i++ {
			ks := make([]ggfnt.SettingKey, 255)
			for j := range ks {
				ks[j] = ggfnt.SettingKey((i + j) % 255)
			}
			d.addSwitch(ks)
		}
		for i := 0; i < 254; i++ {
			d.mapSingles(rune(100+i), uint8(i), d.uids(1))
		}
	}, true},
	{"16 MiB of mappings", func(d *driver) { d.bigMappings(258) }, true},
	{"more than 16 MiB of mappings", func(d *driver) { d.bigMappings(259) }, false},
	{"65535 bytes of glyph sets", func(d *driver) { d.bigSets(203) }, true},
	{"65537 bytes of glyph sets", func(d *driver) { d.bigSets(204) }, false},
	{"255 sets", func(d *driver) {
		for len(d.sets) < 255 {
			if s := d.createSet(); s != 0 {
				d.addSetGlyph(s, pick(d.RNG, d.glyphs).uid)
			}
		}
		d.createSet()
		d.createSet()
		d.removeSet(pick(d.RNG, d.sets).uid)
		for len(d.sets) < 255 {
			d.createSet()
		}
		d.createSet()
		for len(d.runeSets) < 255 {
			d.createRuneSet()
		}
		d.createRuneSet()
		d.removeRuneSet(pick(d.RNG, d.runeSets).uid)
		for len(d.runeSets) < 255 {
			d.createRuneSet()
		}
		d.createRuneSet()
		d.noObs = false
		d.observe("255 rune sets")
		d.noObs = true
		for len(d.runeSets) > 0 { // encoding them is declared unimplemented
			d.removeRuneSet(d.runeSets[0].uid)
		}
		for i := 0; i < 100; i++ {
			in := make([]uint64, 255)
			for j := range in {
				in[j] = pick(d.RNG, d.sets).uid
			}
			h := d.Intn(255)
			b := d.Range(1, 255-h)
			d.addRule(h, b, 255-h-b, in, d.uids(b))
		}
	}, true},
	{"65535 rules", func(d *driver) {
		for i := 0; i < 65536; i++ {
			d.addRuneRule(rune(i), []rune{rune(i), 3}[:1+i&1])
			d.addRule(i%2, 1, (i/2)%2, d.uids(1+i%2+(i/2)%2), d.uids(1))
		}
		for len(d.rules) < 65535 {
			g := pick(d.RNG, d.glyphs).uid
			d.addRule(0, 1, 0, []uint64{g}, []uint64{g})
		}
		d.addRule(0, 1, 0, []uint64{d.glyphs[0].uid}, []uint64{d.glyphs[0].uid})
	}, true},
	{"16 MiB of glyph rules", func(d *driver) { d.bigRules(0xffffff) }, true},
	{"more than 16 MiB of glyph rules", func(d *driver) { d.bigRules(0x1000000) }, false},
	{"a set range of 256 glyphs", func(d *driver) { d.wideRange(256) }, true},
	{"a set range of 257 glyphs", func(d *driver) { d.wideRange(257) }, true},
	{"16 MiB of masks", func(d *driver) { d.fillMasks(0xffffff) }, true},
	{"16 MiB of masks and a byte", func(d *driver) { d.fillMasks(0x1000000) }, false},
	{"16 MiB of rules", func(d *driver) {
		seq := make([]rune, 255)
		for i := 0; i < 16008; i++ { // 1048 bytes each
			d.addRuneRule(rune(i), append([]rune(nil), seq...))
		}
	}, true},
	{"more than 16 MiB of rules", func(d *driver) {
		seq := make([]rune, 255)
		for i := 0; i < 16009; i++ {
			d.addRuneRule(rune(i), append([]rune(nil), seq...))
		}
	}, false},
	{"56789 glyphs", func(d *driver) {
		for len(d.glyphs) < 56789 {
			d.addGlyph(d.MaskAt(1+d.Intn(2), 1))
		}
		d.addGlyph(d.MaskAt(1, 1))
		for i, g := range d.glyphs {
			if i%3 != 0 {
				d.setGlyphName(g.uid, fmt.Sprintf("glyph-%d", i*7919%56789))
			}
		}
		for i := 0; i < 56789; i++ {
			d.mapOne(rune(32+i), d.glyphs[i*31%56789].uid)
		}
		n := len(d.glyphs)
		d.setKern(d.glyphs[0].uid, d.glyphs[n-1].uid, -128)
		d.setKern(d.glyphs[n-1].uid, d.glyphs[n-1].uid, 127)
		d.setKern(d.glyphs[n-1].uid, d.glyphs[0].uid, 1)
	}, true},
	{"sets and kerning of many glyphs", func(d *driver) {
		for len(d.glyphs) < 45000 {
			d.addGlyph(d.MaskAt(1, 1))
		}
		n := len(d.glyphs)
		for i := 0; i < 60; i++ {
			s := d.createSet()
			for j := d.Intn(20); j > 0 && s != 0; j-- {
				a := d.Intn(n)
				d.addSetRange(s, d.glyphs[a].uid, d.glyphs[min(n-1, a+pick(d.RNG, []int{0, 0, 1, 127, 128, 254, 255}))].uid)
				d.addSetGlyph(s, pick(d.RNG, d.glyphs).uid)
			}
		}
		for i := 0; i < 300; i++ {
			d.setKern(pick(d.RNG, d.glyphs).uid, pick(d.RNG, d.glyphs).uid, int8(1+d.Intn(100)))
			d.addRule(1, 1, 1, d.uids(3), d.uids(1))
			d.mapGroup(rune(100+i), d.Byte(), d.uids(d.Range(2, 127)))
		}
		e := &edition{id: d.id}
		for i := 0; i < 300; i++ {
			e.classes = append(e.classes, bClass{"c", int8(d.Byte())})
		}
		for i := 0; i < 600; i++ {
			p := editionPair{uint16(d.Intn(n)), uint16(d.Intn(n)), uint16(1 + d.Intn(300))}
			if e.horz = append(e.horz, p); d.Bool() {
				p.b = uint16(d.Intn(n))
			}
			e.vert = append(e.vert, p)
		}
		d.parseEdition(e)
	}, true},
	{"too many mapping entries", func(d *driver) {
		for i := 0; i < 56790; i++ {
			d.mapOne(rune(32+i), pick(d.RNG, d.glyphs).uid)
		}
	}, false},
	{"long texts", func(d *driver) {
		for i := 0; i < 3; i++ {
			d.setText(i, string(bytes.Repeat([]byte("t"), 255)))
			d.setText(i, string(bytes.Repeat([]byte("t"), 256)))
		}
		d.setText(3, string(bytes.Repeat([]byte("t"), 65535)))
		d.setText(3, string(bytes.Repeat([]byte("t"), 65536)))
	}, true},
	{"a million kerning pairs", func(d *driver) {
		for len(d.glyphs) < 1100 {
			d.addGlyph(d.MaskAt(1, 1))
		}
		for i := 0; i < 1000; i++ {
			for j := 0; j < 1000; j++ {
				d.setKern(d.glyphs[i].uid, d.glyphs[j].uid, int8(1+(i^j)&63))
			}
		}
	}, true},
	{"large masks", func(d *driver) {
		d.setMetric(0, 0)
		for _, s := range [][2]int{{700, 3}, {3, 500}, {300, 300}, {129, 129}, {256, 1}, {257, 2}, {1, 256}} {
			d.setMetric(1, 255)
			d.setMetric(2, 254)
			d.setMetric(3, 255)
			d.setMetric(4, 255)
			img := d.MaskSize(s[0], s[1])
			x := d.Range(-300, 300)
			y := d.Range(-509, 510-s[1])
			img.Rect = image.Rect(x, y, x+s[0], y+s[1])
			d.addGlyph(img)
		}
	}, true},
	{"more than 16 MiB of masks", func(d *driver) { d.bigMasks(7) }, nil},
	{"nearly 16 MiB of masks", func(d *driver) { d.bigMasks(4) }, nil},
	{"more than 32 MiB in all", func(d *driver) {
		d.bigMasks(4)
		d.bigMappings(258)
		seq := make([]rune, 255)
		for i := 0; i < 16008; i++ {
			d.addRuneRule(rune(i), append([]rune(nil), seq...))
		}
	}, false},
}

func (r *RNG) MaskAt(w, h int) *image.Alpha {
	img := image.NewAlpha(image.Rect(0, -h, w, 0))
	for i := range img.Pix {
		img.Pix[i] = 255 - uint8(r.Intn(3))
	}
	return img
}

// bigMappings maps n code points through a switch of 254 cases, each with a
// group of 127 glyphs: 65025 bytes each.
func (d *driver) bigMappings(n int) {
	for len(d.glyphs) < 200 {
		d.addGlyph(d.MaskAt(1, 1))
	}
	mk := func(n int) []string {
		s := make([]string, n)
		for i := range s {
			s[i] = fmt.Sprintf("o%d", i)
		}
		return s
	}
	d.addSetting("two", mk(2))
	d.addSetting("many", mk(127))
	d.addSwitch([]ggfnt.SettingKey{0, 1})
	d.addSetting("three", mk(3))
	d.addSwitch([]ggfnt.SettingKey{2, 1})
	for i := 0; i < n; i++ {
		groups := make([][]uint64, 254)
		flags := make([]ggfnt.AnimationFlags, 254)
		for j := range groups {
			groups[j] = make([]uint64, 127)
			for k := range groups[j] {
				groups[j][k] = d.glyphs[(i+j*3+k*7)%199].uid
			}
			flags[j] = ggfnt.AnimationFlags(i + j)
		}
		d.mapSwitch(rune(1000+i*3), 0, groups, flags)
	}
}

// bigSets makes 51 sets of 1277 bytes, and one of 2 + 2n.
func (d *driver) bigSets(n int) {
	for len(d.glyphs) < 300 {
		d.addGlyph(d.MaskAt(1, 1))
	}
	for i := 0; i < 52; i++ {
		s := d.createSet()
		for s == 0 {
			s = d.createSet()
		}
		for j := 0; j < 256 && i < 51; j++ {
			d.addSetRange(s, d.glyphs[j/2].uid, d.glyphs[j/2+(j%2)*(i+1)].uid)
		}
		for j := 0; j < 256 && (i < 51 || j < n); j++ {
			d.addSetGlyph(s, d.glyphs[(j*7)%300].uid)
		}
	}
}

// wideRange makes a set with a range of n glyphs.
func (d *driver) wideRange(n int) {
	for len(d.glyphs) < 600 {
		d.addGlyph(d.MaskAt(1, 1))
	}
	s := d.createSet()
	for s == 0 {
		s = d.createSet()
	}
	a := d.Intn(600 - n)
	d.addSetRange(s, d.glyphs[1].uid, d.glyphs[256].uid)
	d.makeBuildable()
	d.addSetRange(s, d.glyphs[a].uid, d.glyphs[a+n-1].uid)
	_, err := d.b.Build()
	if (err == nil) != (n <= 256) {
		d.c.Failf("with a set range of %d glyphs: Build says %v", n, err)
	}
}

// bigRules adds glyph rules that take exactly this many bytes.
func (d *driver) bigRules(total int) {
	idx := map[uint64]int{}
	for i, g := range d.glyphs {
		idx[g.uid] = i
	}
	size := 0
	add := func(n, out int) {
		in := make([]uint64, n)
		for i := range in {
			in[i] = pick(d.RNG, d.glyphs).uid
		}
		o := slices.Clone(in[:out])
		h := d.Intn(n - out + 1)
		t := d.Intn(n - out - h + 1)
		s := len(encodeRule(d.ruleModel(bRule{h, n - h - t, t, in, o}, idx), true))
		if size+s <= total {
			d.addRule(h, n-h-t, t, in, o)
			size += s
		}
	}
	small := len(encodeRule(d.ruleModel(bRule{0, 1, 0, []uint64{d.glyphs[0].uid}, []uint64{d.glyphs[0].uid}}, idx), true))
	for total-size > 3000 {
		add(255, 127+d.Intn(128))
	}
	for total-size > 5*small {
		add(1, 1)
	}
	// the rest with a rule of the right size
	for tries := 0; size != total; tries++ {
		if tries > 100000 {
			panic("harness: no rules of the right size")
		}
		n := d.Range(1, 20)
		rest := total - size
		in := make([]uint64, n)
		for i := range in {
			in[i] = d.glyphs[0].uid
		}
		out := d.Range(1, n)
		if s := len(encodeRule(d.ruleModel(bRule{0, n, 0, in, slices.Clone(in[:out])}, idx), true)); s == rest {
			d.addRule(0, n, 0, in, slices.Clone(in[:out]))
			size += s
		}
	}
}

// fillMasks adds glyphs with masks of noise until the masks and placements of
// all take exactly this many bytes.
func (d *driver) fillMasks(total int) {
	d.setMetric(1, 255)
	d.setMetric(2, 254)
	d.setMetric(3, 255)
	d.setMetric(4, 255)
	d.setMetric(8, 0)
	d.setMetric(12, 0)
	const place = 1
	var enc mask.Encoder
	size := 0
	for _, img := range d.images {
		size += place + len(enc.AppendRasterOps(nil, img))
	}
	for w, h := 600, 1019; w > 0; {
		img := image.NewAlpha(image.Rect(0, -509, w, h-509))
		for i := range img.Pix {
			img.Pix[i] = uint8(1 + d.Intn(255))
		}
		s := place + len(enc.AppendRasterOps(nil, img))
		if s > total-size {
			if h > 1 {
				h /= 2
			} else {
				w /= 2
			}
			continue
		}
		d.c.Beat()
		if d.addGlyph(img) != 0 {
			size += s
		}
	}
	for size < total {
		if d.addGlyph(image.NewAlpha(image.Rect(0, 0, 1, 1))) != 0 {
			size += place
		}
	}
}

// bigMasks adds n glyphs of nearly 4 MiB of operations each: isolated pixels
// of changing color.
func (d *driver) bigMasks(n int) {
	d.setMetric(0, 0)
	d.setMetric(1, 255)
	d.setMetric(2, 254)
	d.setMetric(3, 255)
	d.setMetric(4, 255)
	for i := 0; i < n; i++ {
		img := image.NewAlpha(image.Rect(0, -509, 600, 510))
		for y := 0; y < 1019; y++ {
			for x := 0; x < 600; x += 2 {
				img.Pix[y*img.Stride+x] = uint8(1 + (x/2+y+i)%255)
			}
		}
		d.addGlyph(img)
	}
}

// manyGlyphs adds some hundreds or thousands of small glyphs.
func (d *driver) manyGlyphs() {
	d.crowd(pick(d.RNG, []int{260, 300, 600, 2000, 5000}))
}

// crowd adds small glyphs until there are n.
func (d *driver) crowd(n int) {
	d.fixMetrics()
	d.setMetric(0, 0)
	q := d.quiet
	d.quiet = true
	img := d.MaskAt(1, 1)
	for len(d.glyphs) < n {
		if len(d.glyphs)%5000 == 0 {
			d.c.Beat()
		}
		d.addGlyph(img)
	}
	d.quiet = q
	d.logf("%d glyphs", len(d.glyphs))
}

func init() {
	register(&Property{ID: "P03", Level: "stress",
		Rule:        "One evaluation is one font made by a random sequence of builder operations (or by operations going to a documented limit), built, exported and parsed; built and parsed fonts are watched by all monitors. Non-trivial if the font has at least three kinds of optional content.",
		Require:     []string{"roundtrips", "builds", "limit_builds", "limit_refusals"},
		Assumptions: []string{"rune sets are excluded (encoding them is declared unimplemented)"},
		Workloads: []Workload{
			{Name: "random", Quick: 1200, Thorough: 40000, Run: func(c *Ctx) {
				d := seededDriver(c, c.U64(), c.U64())
				d.noObs = true
				d.run(c.Range(5, 250), randFocus(c.RNG))
				d.makeBuildable()
				f, m, masks := d.build()
				if f == nil {
					return
				}
				c.Sample("%d operations: %s", d.ops, m.summary())
				roundtrip(c, f, m, masks, func(f *ggfnt.Font) { checkBuilt(c, f, m, masks) })
				c.Eval(hashBytes(f.Data), m.richness() >= 3)
			}},
			{Name: "many", Quick: 150, Thorough: 3000, Run: func(c *Ctx) {
				d := seededDriver(c, c.U64(), c.U64())
				d.noObs = true
				d.manyGlyphs()
				d.run(c.Range(30, 200), pick(c.RNG, []string{"", "mapping", "rewrite", "kerning"}))
				if c.OneIn(3) { // also when it must fail
					d.build()
				}
				d.makeBuildable()
				f, m, masks := d.build()
				if f == nil {
					return
				}
				c.Count("many_glyphs", 1)
				c.Sample("%d operations: %s", d.ops, m.summary())
				roundtrip(c, f, m, masks, func(f *ggfnt.Font) { checkBuilt(c, f, m, masks) })
				c.Eval(hashBytes(f.Data), m.richness() >= 3)
			}},
			{Name: "limits", Fixed: true, Quick: len(limitCases), Thorough: len(limitCases) * 8, Run: func(c *Ctx) {
				lc := limitCases[c.Case%len(limitCases)]
				d := seededDriver(c, c.U64(), c.U64())
				d.noObs, d.quiet = true, true
				d.fixMetrics()
				d.setMetric(0, 0)
				for i := 0; i < 3; i++ {
					d.addGlyph(d.glyphMask())
				}
				c.Logf("%s", lc.name)
				lc.make(d)
				c.Beat()
				d.makeBuildable()
				d.noObs = false
				d.observe(lc.name)
				c.Sample("%s", lc.name)
				f, err := d.b.Build()
				if lc.ok != nil && (err == nil) != lc.ok {
					c.Failf("%s: Build says %v", lc.name, err)
				}
				c.Eval(hashStr(lc.name)^c.U64(), true)
				c.Logf("%v", err)
				if err != nil {
					c.Count("limit_refusals", 1)
					return
				}
				c.Count("limit_builds", 1)
				m, masks := d.expected()
				d.takeWords(f.Data, m)
				c.Beat()
				roundtrip(c, f, m, masks, func(f *ggfnt.Font) { c.Beat(); checkBuilt(c, f, m, masks) })
			}},
		},
	})

	register(&Property{ID: "P04", Level: "stress",
		Rule:    "One evaluation is one operation sequence applied to two builders drawing the same identifiers, one of them with builds (also failing ones) in between; the fonts are compared byte by byte, and so are repeated builds. Non-trivial if builds were interleaved and the font has at least three kinds of optional content.",
		Require: []string{"earlier_fonts_compared", "twins_compared", "interleaved_builds", "failed_interleaved_builds", "repeated_builds"},
		Workloads: []Workload{
			{Name: "twins", Quick: 900, Thorough: 30000, Run: func(c *Ctx) {
				ops, ids := c.U64(), c.U64()
				focus := randFocus(c.RNG)
				n := c.Range(10, 150)
				p := c.Range(2, 20)
				one := func(interleave bool) (*driver, int) {
					d := seededDriver(c, ops, ids)
					d.noRunes = true
					d.noObs = !interleave
					builds := 0
					for i := 0; i < n; i++ {
						d.step(focus)
						if interleave {
							d.observe("the last operation")
							if c.OneIn(p) {
								builds++
								c.Count("interleaved_builds", 1)
								if d.buildReason() != "" {
									c.Count("failed_interleaved_builds", 1)
								}
								d.build()
								d.observe("Build")
							}
						}
					}
					d.makeBuildable()
					return d, builds
				}
				d1, _ := one(false)
				var f1 *ggfnt.Font
				reason := d1.buildReason()
				if reason == "" {
					f1, _, _ = d1.build()
				}
				d2, builds := one(true)
				f2, m, masks := d2.build()
				if (f1 == nil) != (f2 == nil) {
					c.Failf("only one of the two builders builds a font")
				}
				if f1 == nil {
					return
				}
				if !bytes.Equal(f1.Data, f2.Data) {
					c.Failf("the fonts of two builders with the same operations differ (%d and %d bytes, at byte %d)", len(f1.Data), len(f2.Data), firstDiff(f1.Data, f2.Data))
				}
				if !sameOffsets(f1, f2) {
					c.Failf("the table offsets of the fonts of two builders with the same operations differ")
				}
				c.Count("twins_compared", 1)
				e1, err1 := exportFont(f1)
				for i := 0; i < 2; i++ {
					f3, _, _ := d2.build()
					if f3 == nil || !bytes.Equal(f3.Data, f1.Data) || !sameOffsets(f1, f3) {
						c.Failf("building again gives another font")
					}
					var e3 bytes.Buffer
					var err error
					c.NoPanic("Export", func() { err = d2.b.Export(&e3) })
					if err != nil || err1 != nil || !bytes.Equal(e1, e3.Bytes()) {
						c.Failf("exporting the builder gives other bytes than exporting the font (%v, %v)", err, err1)
					}
					c.Count("repeated_builds", 1)
				}
				checkBuilt(c, f2, m, masks)
				// what is done to a built font is not seen by later builds
				first := bytes.Clone(f1.Data)
				for i := range f2.Data {
					f2.Data[i] ^= c.Byte()
				}
				d2.built = nil
				if f3, _, _ := d2.build(); f3 == nil || !bytes.Equal(f3.Data, first) || !sameOffsets(f1, f3) {
					c.Failf("building again after overwriting the data of a built font gives another font")
				}
				c.Sample("%d operations, %d interleaved builds: %s", d2.ops, builds, m.summary())
				c.Eval(hashBytes(f1.Data)^mix(uint64(builds)), builds > 0 && m.richness() >= 3)
			}},
		},
	})

	register(&Property{ID: "P23", Level: "stress",
		Rule:        "One evaluation is one random sequence of builder operations, valid and invalid, each compared with the model of the documentation, with all queries after each and builds in between. Non-trivial if operations were refused and a font was built.",
		Require:     []string{"builder_calls", "refused_calls", "builder_states_compared", "builds", "failed_builds", "unlucky_draws", "refused: too many sets", "refused: too many rules", "refused: too many glyphs"},
		Assumptions: []string{"declared unimplemented functions and the documented panics on misuse are excluded, and kerning is set for existing glyphs"},
		Workloads: []Workload{
			{Name: "operations", Quick: 1200, Thorough: 40000, Run: func(c *Ctx) {
				d := seededDriver(c, c.U64(), c.U64())
				focus := randFocus(c.RNG)
				n := c.Range(10, 250)
				p := c.Range(5, 60)
				built := false
				refused := c.counters["refused_calls"]
				for i := 0; i < n; i++ {
					if c.OneIn(40) {
						focus = randFocus(c.RNG)
					}
					d.step(focus)
					d.observe("the last operation")
					if c.OneIn(p) {
						if c.Bool() {
							d.makeBuildable()
						}
						if f, m, masks := d.build(); f != nil {
							checkBuilt(c, f, m, masks)
							built = true
						}
						d.observe("Build")
					}
				}
				d.makeBuildable()
				if f, m, masks := d.build(); f != nil {
					checkBuilt(c, f, m, masks)
					built = true
					c.Sample("%d operations: %s", d.ops, m.summary())
				}
				c.Eval(d.U64(), built && c.counters["refused_calls"] > refused)
			}},
			{Name: "limits", Fixed: true, Quick: len(limitCases), Thorough: len(limitCases) * 4, Run: func(c *Ctx) {
				lc := limitCases[c.Case%len(limitCases)]
				d := seededDriver(c, c.U64(), c.U64())
				d.noObs, d.quiet = true, true
				d.fixMetrics()
				d.setMetric(0, 0)
				for i := 0; i < 3; i++ {
					d.addGlyph(d.glyphMask())
				}
				lc.make(d)
				c.Beat()
				d.makeBuildable()
				d.noObs = false
				d.observe(lc.name)
				var err error
				c.NoPanic("Build with "+lc.name, func() { _, err = d.b.Build() })
				if lc.ok != nil && (err == nil) != lc.ok {
					c.Failf("%s: Build says %v", lc.name, err)
				}
				d.observe("Build")
				c.Eval(hashStr(lc.name)^c.U64(), true)
			}},
		},
	})

	register(&Property{ID: "P26", Level: "stress",
		Rule:    "One evaluation is one edition data stream loaded into a builder: generated, mutated in one of its fields or cut; the effect on the kerning of a build is compared. Non-trivial if it has kerning pairs with classes or was rejected.",
		Require: []string{"large_editions", "edition_loads", "editions_rejected", "edition_cuts", "class_pairs"},
		Workloads: []Workload{
			{Name: "loads", Quick: 1500, Thorough: 50000, Run: func(c *Ctx) {
				d := editionDriver(c)
				for i := c.Range(1, 5); i > 0; i-- {
					e := d.edition()
					raw := e.encode()
					if c.Intn(3) > 0 {
						raw = mutateEdition(c, raw, d)
					}
					want, werr := decodeEdition(raw, d.id, len(d.glyphs))
					c.Sample("%d bytes of edition data for %d glyphs: %d categories, %d classes, %d+%d pairs before mutation; %v", len(raw), len(d.glyphs), len(e.categories), len(e.classes), len(e.horz), len(e.vert), werr)
					if werr == nil && c.OneIn(30) { // bad signature
						data := packEdition(raw, 1)
						data[c.Intn(6)] ^= 1 << c.Intn(8)
						d.clearEditionModel()
						d.try("bad signature", "ParseEditionData", func() error { return d.b.ParseEditionData(bytes.NewReader(data)) })
					}
					d.clearEditionModel()
					reason := ""
					if werr != nil {
						reason = "malformed edition data"
						c.Count("editions_rejected", 1)
					}
					data := packEdition(raw, c.Intn(10))
					if d.try(reason, fmt.Sprintf("ParseEditionData(%x: %v)", raw, werr), func() error { return d.b.ParseEditionData(bytes.NewReader(data)) }) {
						d.applyEdition(want)
						c.Count("edition_loads", 1)
						c.Count("class_pairs", len(want.horz)+len(want.vert))
					}
					d.observe("ParseEditionData")
					if c.OneIn(3) {
						d.step("kerning")
					}
					if c.OneIn(5) {
						d.call("ClearEditionData", func() { d.b.ClearEditionData() })
						d.clearEditionModel()
					}
					if c.Bool() {
						d.buildAndCompare()
					}
					c.Eval(hashBytes(raw), werr != nil || len(want.horz)+len(want.vert) > 0)
				}
				d.buildAndCompare()
				// everything that was loaded can be cleared
				d.call("ClearEditionData", func() { d.b.ClearEditionData() })
				d.clearEditionModel()
				d.observe("ClearEditionData")
				d.buildAndCompare()
			}},
			{Name: "large", Quick: 40, Thorough: 800, Run: func(c *Ctx) {
				d := seededDriver(c, c.U64(), c.U64())
				d.noObs, d.quiet = true, true
				d.fixMetrics()
				d.setMetric(0, 0)
				for n := pick(c.RNG, []int{3, 300, 5000, 33000, 45000}); len(d.glyphs) < n; {
					d.addGlyph(d.MaskAt(1, 1))
				}
				n := len(d.glyphs)
				for i := c.Intn(300); i > 0; i-- {
					d.setKern(pick(d.RNG, d.glyphs).uid, pick(d.RNG, d.glyphs).uid, int8(1+d.Intn(100)))
				}
				for round := c.Range(1, 2); round > 0; round-- {
					e := &edition{id: d.id}
					nc := pick(c.RNG, []int{1, 255, 256, 257, 3000, 65535})
					for i := 0; i < nc; i++ {
						e.classes = append(e.classes, bClass{"c", int8(c.Byte())})
					}
					for i := c.Intn(256); i > 0; i-- {
						e.categories = append(e.categories, d.spacedName())
						e.sizes = append(e.sizes, uint16(c.Intn(65536)))
					}
					for _, t := range []*[]editionPair{&e.horz, &e.vert} {
						for k := pick(c.RNG, []int{5, 255, 256, 3000, 66000}); k > 0; k-- {
							*t = append(*t, editionPair{uint16(c.Intn(n)), uint16(c.Intn(n)), uint16(1 + c.Intn(nc))})
						}
					}
					bad := ""
					if c.OneIn(4) { // something wrong in the last pair
						p := &e.vert[len(e.vert)-1]
						if c.Bool() {
							p = &e.horz[len(e.horz)-1]
						}
						switch c.Intn(3) {
						case 0:
							p.b, bad = uint16(n), "pair of a missing glyph"
						case 1:
							p.class, bad = 0, "pair without class"
						default:
							if p.class, bad = uint16(nc+1), "pair of a missing class"; nc == 65535 {
								bad = "pair without class"
							}
						}
					}
					c.Sample("%d glyphs; %d categories, %d classes, %d+%d pairs; %s", n, len(e.categories), nc, len(e.horz), len(e.vert), bad)
					c.Logf("%d glyphs; %d categories, %d classes, %d+%d pairs; %s", n, len(e.categories), nc, len(e.horz), len(e.vert), bad)
					raw := packEdition(e.encode(), 1)
					d.clearEditionModel()
					if d.try(bad, "ParseEditionData", func() error { return d.b.ParseEditionData(bytes.NewReader(raw)) }) {
						d.applyEdition(e)
						c.Count("large_editions", 1)
						c.Count("class_pairs", len(e.horz)+len(e.vert))
					}
					c.Beat()
					c.Eval(hashBytes(raw), true)
					d.buildAndCompare()
				}
			}},
			{Name: "cuts", Quick: 60, Thorough: 2000, Run: func(c *Ctx) {
				d := editionDriver(c)
				d.noObs = true
				d.quiet = true
				e := d.edition()
				if len(e.categories) > 40 || len(e.classes) > 100 {
					return
				}
				raw := e.encode()
				for cut := 0; cut < len(raw); cut++ {
					d.try("cut", fmt.Sprintf("ParseEditionData cut at %d of %d", cut, len(raw)), func() error { return d.b.ParseEditionData(bytes.NewReader(packEdition(raw[:cut], 0))) })
					c.Count("edition_cuts", 1)
					c.Eval(hashBytes(raw[:cut]), true)
				}
				file := packEdition(raw, 6)
				for cut := 0; cut < len(file); cut++ {
					d.try("cut", fmt.Sprintf("ParseEditionData of a file cut at %d of %d", cut, len(file)), func() error { return d.b.ParseEditionData(bytes.NewReader(file[:cut])) })
					c.Count("edition_cuts", 1)
					c.Eval(hashBytes(file[:cut]), true)
				}
				d.clearEditionModel()
				d.noObs = false
				d.observe("cut edition data")
				d.buildAndCompare()
				d.parseEdition(e)
				d.buildAndCompare()
			}},
			{Name: "bulk", Quick: 8, Thorough: 60, Run: func(c *Ctx) {
				d := editionDriver(c)
				d.quiet = true
				for len(d.glyphs) < 150 {
					d.addGlyph(d.glyphMask())
				}
				e := &edition{id: d.id}
				n := pick(c.RNG, []int{255, 256, 257, 1000, 65535})
				for i := 0; i < n; i++ {
					e.classes = append(e.classes, bClass{d.spacedName(), int8(d.Byte())})
				}
				for i, t := range []*[]editionPair{&e.horz, &e.vert} {
					for a := 0; a < 150; a++ {
						for b := 0; b < 150; b += 1 + i {
							*t = append(*t, editionPair{uint16(a), uint16(b), uint16(1 + d.Intn(n))})
						}
					}
				}
				d.parseEdition(e)
				d.buildAndCompare()
				c.Count("class_pairs", len(e.horz)+len(e.vert))
				c.Eval(hashBytes(e.encode()), true)
			}},
		},
	})

	always := func(*Model) bool { return true }
	type mon = func(c *Ctx, f *ggfnt.Font, m *Model, masks []map[image.Point]uint8)
	plain := func(fn func(c *Ctx, f *ggfnt.Font, m *Model)) mon {
		return func(c *Ctx, f *ggfnt.Font, m *Model, _ []map[image.Point]uint8) { fn(c, f, m) }
	}
	addWorkloads("P05", builtWorkload(500, 8000, "header", plain(func(c *Ctx, f *ggfnt.Font, m *Model) { checkHeader(c, f, m); checkMetrics(c, f, m) }), always))
	addWorkloads("P06", builtWorkload(500, 8000, "color", plain(checkColor), always))
	addWorkloads("P07", builtWorkload(500, 8000, "glyphs", plain(checkNames), func(m *Model) bool { return m.numNamed() > 1 }))
	addWorkloads("P08", builtWorkload(500, 8000, "glyphs", checkGlyphs, func(m *Model) bool { return len(m.Glyphs) > 3 }))
	addWorkloads("P11", builtWorkload(500, 8000, "set", plain(checkSettings), func(m *Model) bool { return len(m.Settings) > 1 }))
	addWorkloads("P12", builtWorkload(500, 8000, "mapping", plain(func(c *Ctx, f *ggfnt.Font, m *Model) { checkMapping(c, f, m, 3) }), func(m *Model) bool { return len(m.Mappings) > 2 }))
	addWorkloads("P14", builtWorkload(500, 8000, "kerning", plain(checkKerning), func(m *Model) bool { return len(m.Kern) > 1 }))
	addWorkloads("P16", builtWorkload(500, 8000, "rewrite", plain(func(c *Ctx, f *ggfnt.Font, m *Model) { checkRewrites(c, f, m, false) }), func(m *Model) bool { return len(m.GlyphRules)+len(m.GlyphSets) > 2 }))

	for _, w := range []struct {
		id, focus string
		check     mon
	}{
		{"P03", "", func(c *Ctx, f *ggfnt.Font, m *Model, masks []map[image.Point]uint8) { checkBuilt(c, f, m, masks) }},
		{"P07", "glyphs", plain(checkNames)}, {"P08", "glyphs", checkGlyphs},
		{"P12", "mapping", plain(func(c *Ctx, f *ggfnt.Font, m *Model) { checkMapping(c, f, m, 3) })},
		{"P14", "kerning", plain(checkKerning)},
		{"P16", "rewrite", plain(func(c *Ctx, f *ggfnt.Font, m *Model) { checkRewrites(c, f, m, false) })},
		{"P23", "", func(c *Ctx, f *ggfnt.Font, m *Model, masks []map[image.Point]uint8) { checkBuilt(c, f, m, masks) }},
	} {
		n := 40
		if w.id == "P08" { // many masks
			n = 16
		}
		addWorkloads(w.id, crowdedWorkload(n, 20*n, w.focus, w.check))
	}

	addWorkloads("P24",
		Workload{Name: "edition", Quick: 60, Thorough: 1500, Run: func(c *Ctx) {
			d := editionDriver(c)
			d.noObs = true
			d.quiet = true
			e := d.edition()
			if len(e.categories) > 40 || len(e.classes) > 100 {
				return
			}
			file := packEdition(e.encode(), pick(c.RNG, []int{0, 1, 9}))
			for i := 0; i < 4; i++ {
				r, _ := c.faultReader(file, -1)
				d.clearEditionModel()
				if d.try("", "ParseEditionData from a fragmenting reader", func() error { return d.b.ParseEditionData(r) }) {
					d.applyEdition(e)
				}
				d.buildAndCompare()
				c.Count("fragmented_reads", 1)
			}
			for at := 0; at <= len(file); at++ {
				r, fr := c.faultReader(file, at)
				var err error
				d.call("ParseEditionData", func() { err = d.b.ParseEditionData(r) })
				d.clearEditionModel()
				if err == nil {
					if at < len(file) {
						c.Failf("ParseEditionData from a reader failing at byte %d of %d gives no error", at, len(file))
					}
					d.applyEdition(e)
				}
				if fr.failed {
					c.Count("read_faults", 1)
				}
				if c.OneIn(20) {
					d.buildAndCompare()
				}
				c.Eval(hashBytes(file)^mix(uint64(at)), fr.failed)
			}
			d.buildAndCompare()
		}},
		Workload{Name: "builder", Quick: 60, Thorough: 1500, Run: func(c *Ctx) {
			d := seededDriver(c, c.U64(), c.U64())
			d.noObs = true
			d.run(c.Range(3, 40), randFocus(c.RNG))
			d.makeBuildable()
			f, _, _ := d.build()
			if f == nil {
				w := &faultWriter{failAt: 1 << 30}
				if err := d.b.Export(w); err == nil {
					c.Failf("Export of a builder that can't build gives no error")
				}
				return
			}
			whole, err := exportFont(f)
			if err != nil {
				c.Failf("Export fails: %v", err)
			}
			for at := 0; at <= len(whole); at++ {
				if len(whole) > 600 && !c.OneIn(len(whole)/400) {
					continue
				}
				w := &faultWriter{failAt: at, short: c.Bool()}
				var err error
				c.NoPanic(fmt.Sprintf("Export with a writer failing at %d", at), func() { err = d.b.Export(w) })
				if err == nil {
					if w.failed {
						c.Failf("Export of a builder to a writer failing at byte %d of %d reports success", at, len(whole))
					}
					if !bytes.Equal(w.buf.Bytes(), whole) {
						c.Failf("Export of a builder writes other bytes")
					}
				}
				if w.failed {
					c.Count("write_faults", 1)
				}
				c.Eval(hashBytes(whole)^mix(uint64(at)), w.failed)
			}
		}})
}

func sameOffsets(a, b *ggfnt.Font) bool {
	x, y := *a, *b
	x.Data, y.Data = nil, nil
	return fmt.Sprintf("%+v", x) == fmt.Sprintf("%+v", y)
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// richness counts the kinds of optional content.
func (m *Model) richness() int {
	n := 0
	for _, x := range []int{len(m.Dyes) - 1, len(m.Palettes), m.numNamed(), len(m.Settings), len(m.Switches), len(m.Mappings), len(m.GlyphSets), len(m.RuneRules), len(m.GlyphRules), len(m.Kern), len(m.VKern)} {
		if x > 0 {
			n++
		}
	}
	return n
}
