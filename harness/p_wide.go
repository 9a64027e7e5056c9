package main

import (
	"fmt"
	"image/color"

	"github.com/tinne26/ggfnt"
)

// ---------------------------------------------------------------------------
// Wide fonts: files in which one table is far larger than usual, up to the
// limits of the format, so that every count and offset that could be held in
// too few bits is exercised, in that table and in those placed after it.
// ---------------------------------------------------------------------------

var wideKinds = []string{"header", "color", "names", "glyphs", "settings", "mapping", "conditions", "rewrites", "kerning"}

// widen makes one table of the model large.
func (r *RNG) widen(m *Model, kind string) {
	ng := len(m.Glyphs)
	grow := func(n int) {
		for len(m.Glyphs) < n {
			g := MGlyph{Place: [4]byte{r.Byte()}}
			if m.Met.Vert {
				g.Place[1], g.Place[2], g.Place[3] = r.Byte(), r.Byte(), r.Byte()
			}
			m.Glyphs = append(m.Glyphs, g)
		}
		ng = len(m.Glyphs)
		m.Met.NumGlyphs = uint16(ng)
	}
	switch kind {
	case "header":
		long := func(n int) string { return string(r.printable(n)) }
		m.Name, m.Family, m.Author, m.Abut = long(255), long(255), long(255), long(65535-r.Intn(3))
	case "color":
		m.Dyes, m.Palettes = nil, nil
		nd := r.Intn(256)
		for _, nm := range r.UniqueNames(nd, 32) {
			m.Dyes = append(m.Dyes, MDye{nm, r.Bytes(1)})
		}
		for _, nm := range r.UniqueNames(255-nd, 32) {
			m.Palettes = append(m.Palettes, MPalette{nm, []color.RGBA{{r.Byte(), r.Byte(), r.Byte(), r.Byte()}}})
		}
	case "names":
		grow(pick(r, []int{2300, 2300, 9000, 9000, 33000, ggfnt.MaxGlyphs}))
		perm := r.Perm(ng)
		style := r.Intn(3)
		for i := 0; i < ng; i++ {
			var nm string
			switch style {
			case 0:
				nm = fmt.Sprintf("a-rather-long-glyph-name-%07d", i)
			case 1:
				nm = fmt.Sprintf("%05d-%s", i*7919%65536, "a-rather-long-glyph-name-x")
			default:
				nm = fmt.Sprintf("%x", uint32(i)*2654435761)
			}
			m.Glyphs[perm[i]].Name = nm
		}
	case "glyphs":
		if r.Bool() {
			grow(pick(r, []int{3000, 3000, 20000, ggfnt.MaxGlyphs}))
		} else {
			grow(60)
		}
		per := 1 + 80_000/ng
		if r.OneIn(6) {
			per = 1 + 1_000_000/ng
		}
		for i := range m.Glyphs {
			if n := r.Intn(2 * per); n > 40 {
				m.Glyphs[i].Ops = r.smallOps(n)
			} else {
				m.Glyphs[i].Ops = r.Ops(n)
			}
		}
	case "settings":
		m.Words, m.Settings, m.Switches, m.Mappings, m.Conds = nil, nil, nil, nil, nil
		nw := pick(r, []int{255, 255, 200, 130})
		for len(m.Words) < nw {
			m.Words = append(m.Words, string(r.printable(30+r.Intn(3))))
		}
		for _, nm := range r.UniqueNames(pick(r, []int{255, 255, 140}), 32) {
			m.Settings = append(m.Settings, MSetting{nm, r.Bytes(1 + r.Intn(255))})
		}
		full := r.Bool()
		for i := range m.Settings { // the options fit in 16 bits when every setting has the most of them
			if full || i == 0 || i == len(m.Settings)-1 {
				m.Settings[i].Options = r.Bytes(255)
			}
		}
	case "mapping":
		if r.Bool() {
			grow(pick(r, []int{130, 200, 400, 56789}))
		}
		if len(m.Settings) == 0 || m.Settings[0].Options == nil {
			m.Settings = []MSetting{{"style", r.Bytes(255)}, {"other", r.Bytes(2)}}
			m.Switches, m.Conds = nil, nil
			m.GlyphRules, m.RuneRules = nil, nil
		}
		for len(m.Switches) < 254 {
			s := r.Intn(len(m.Settings))
			if m.Switches = append(m.Switches, []byte{byte(s)}); r.OneIn(3) {
				for t := 0; t < len(m.Settings); t++ {
					if t != s && len(m.Settings[s].Options)*len(m.Settings[t].Options) <= 255 {
						m.Switches[len(m.Switches)-1] = []byte{byte(s), byte(t)}
						break
					}
				}
			}
		}
		n := pick(r, []int{300, 5000, 40000, ggfnt.MaxGlyphs - 1})
		total := 0
		seen := map[int32]bool{}
		m.Mappings = nil
		for i := 0; i < n && total < 2_000_000; i++ {
			e := MMapping{Rune: int32(r.Intn(0x110000)), Switch: 255, Groups: []MGroup{{Glyphs: []uint16{uint16(r.Intn(ng))}}}}
			if seen[e.Rune] {
				continue
			}
			seen[e.Rune] = true
			if n < 10000 || r.OneIn(100) {
				switch r.Intn(4) {
				case 0:
				case 1:
					e.Switch = 254
					e.Groups = []MGroup{r.Group(ng)}
				default:
					e.Switch = uint8(r.Intn(254))
					e.Groups = nil
					for k := m.numCases(int(e.Switch)); k > 0; k-- {
						e.Groups = append(e.Groups, r.Group(ng))
					}
				}
			}
			total += len(encodeMapping(e))
			m.Mappings = append(m.Mappings, e)
		}
	case "conditions":
		m.Conds = nil
		if len(m.Settings) == 0 {
			m.Settings = []MSetting{{"style", r.Bytes(5)}, {"other", r.Bytes(2)}}
		}
		total := 0
		want := pick(r, []int{254, 40, 8})
		for tries := 0; tries < 4*want && len(m.Conds) < want; tries++ {
			k := r.Cond(r.Intn(7), len(m.Settings))
			if want < 254 || r.OneIn(3) { // wide groups
				k = &MCond{Op: pick(r, []byte("|&")), Terms: []*MCond{k}}
				for t := r.Range(15, 30); t > 0; t-- {
					k.Terms = append(k.Terms, r.Cond(r.Intn(4), len(m.Settings)))
				}
			}
			l := len(k.encode(nil))
			if total+l > 65535 {
				continue
			}
			total += l
			m.Conds = append(m.Conds, k)
		}
		for _, rules := range [][]MRule{m.GlyphRules, m.RuneRules} { // keep references legal
			for i := range rules {
				rules[i].Cond = 255
			}
		}
	case "rewrites":
		for _, glyph := range []bool{false, true} {
			var sets []MSet
			total := 0
			for len(sets) < 255 {
				s := MSet{}
				if len(sets) < 250 && total < 60000 {
					s = r.SetModel(glyph, ng)
				}
				if l := len(encodeSet(s, glyph)); total+l > 65535-2*(255-len(sets)) {
					s = MSet{}
				}
				total += len(encodeSet(s, glyph))
				sets = append(sets, s)
			}
			var rules []MRule
			n := pick(r, []int{300, 300, 4000, 65535})
			if glyph != r.OneIn(2) {
				n = min(n, 4000)
			}
			for len(rules) < n {
				if n > 10000 && len(rules) > 0 && !r.OneIn(50) { // cheap to make
					u := rules[r.Intn(len(rules))]
					if len(u.Head)+len(u.Body)+len(u.Tail) > 12 {
						continue
					}
					rules = append(rules, u)
					continue
				}
				rules = append(rules, r.RuleModel(glyph, ng, len(sets), len(m.Conds)))
			}
			if glyph {
				m.GlyphSets, m.GlyphRules = sets, rules
			} else {
				m.RuneSets, m.RuneRules = sets, rules
			}
		}
	case "kerning":
		grow(pick(r, []int{300, 300, 20000, 33000, ggfnt.MaxGlyphs}))
		for i, t := range []*map[KPair]int8{&m.Kern, &m.VKern} {
			n := pick(r, []int{70000, 66000, 40000, 300})
			if i == 1 && len(m.Kern) < 1000 {
				n = 70000
			}
			k := map[KPair]int8{}
			for len(k) < n {
				k[KPair{uint16(r.Intn(ng)), uint16(r.Intn(ng))}] = int8(r.Byte())
			}
			*t = k
		}
	}
}

func (r *RNG) printable(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = nameChars[r.Intn(len(nameChars))]
	}
	return b
}

// smallOps returns many operations that stay in a small area.
func (r *RNG) smallOps(n int) []byte {
	var b []byte
	x := 0
	for ; n > 0; n-- {
		if x > 50 {
			b = append(b, 0x02|0x08|0x80, byte(256-40))
			x -= 39
			continue
		}
		switch r.Intn(4) {
		case 0:
			b = append(b, 0x81, byte(1+r.Intn(255)))
			x++
		case 1:
			b = append(b, 0x20, 1)
			x += 2
		case 2:
			b = append(b, 0x60, 2, byte(r.Intn(4)))
			x += 3
		default:
			b = append(b, 0x30, 3)
			x += 4
		}
	}
	return b
}

func wideCase(c *Ctx, kind string) (*ggfnt.Font, *Model) {
	m := c.Model(ModelOpts{MaxGlyphs: 80})
	kinds := []string{pick(c.RNG, wideKinds)}
	if c.Case%2 == 0 {
		kinds[0] = kind
	} else if kinds[0] != "settings" { // keep the table of the property present
		m2 := c.Model(ModelOpts{Only: kind, MaxGlyphs: len(m.Glyphs)})
		m2.Met = m.Met
		for len(m2.Glyphs) < len(m.Glyphs) {
			m2.Glyphs = append(m2.Glyphs, MGlyph{})
		}
		if !m.Met.Vert {
			for i := range m2.Glyphs {
				m2.Glyphs[i].Place = [4]byte{m2.Glyphs[i].Place[0]}
			}
		}
		m = m2
	}
	for _, k := range kinds {
		c.widen(m, k)
		c.Count("wide_"+k, 1)
	}
	raw, _ := m.encode()
	c.Sample("font of %d bytes with a large table of %v: %s", len(raw), kinds, m.summary())
	c.Logf("font of %d bytes with a large table of %v: %s", len(raw), kinds, m.summary())
	f := mustParse(c, pack(raw))
	c.Count("max_wide_font_size", len(raw))
	c.Eval(hashBytes(raw), true)
	return f, m
}

func init() {
	add := func(id, kind string, quick, thorough int, check func(c *Ctx, f *ggfnt.Font, m *Model)) {
		addWorkloads(id, Workload{Name: "wide", Quick: quick, Thorough: thorough, Run: func(c *Ctx) {
			f, m := wideCase(c, kind)
			check(c, f, m)
		}})
	}
	add("P05", "header", 80, 400, func(c *Ctx, f *ggfnt.Font, m *Model) { checkHeader(c, f, m); checkMetrics(c, f, m) })
	add("P06", "color", 80, 400, checkColor)
	add("P07", "names", 80, 300, checkNames)
	add("P08", "glyphs", 80, 300, func(c *Ctx, f *ggfnt.Font, m *Model) { checkGlyphs(c, f, m, nil) })
	add("P11", "settings", 80, 400, checkSettings)
	add("P12", "mapping", 80, 300, func(c *Ctx, f *ggfnt.Font, m *Model) { checkMapping(c, f, m, 3) })
	add("P14", "kerning", 80, 300, checkKerning)
	add("P15", "conditions", 80, 400, func(c *Ctx, f *ggfnt.Font, m *Model) { checkConditions(c, f, m, 6) })
	add("P16", "rewrites", 80, 300, func(c *Ctx, f *ggfnt.Font, m *Model) { checkRewrites(c, f, m, true) })
}

// huge fills one table of the model with up to the 16 MiB that its offsets can
// express, repeating a few different contents.
func (r *RNG) huge(m *Model, kind string) {
	grow := func(n int) {
		for len(m.Glyphs) < n {
			m.Glyphs = append(m.Glyphs, MGlyph{Place: [4]byte{r.Byte()}})
		}
		m.Met.NumGlyphs = uint16(len(m.Glyphs))
	}
	room := pick(r, []int{1<<24 - 1, 1<<23 + 5000, r.Range(3<<20, 1<<24-1)})
	switch kind {
	case "glyphs":
		grow(pick(r, []int{40, 3000, 50000}))
		var pool [][]byte
		for i := 0; i < 61; i++ {
			pool = append(pool, r.smallOps(1+r.Intn(room/len(m.Glyphs))))
		}
		size := 1
		if m.Met.Vert {
			size = 4
		}
		total := 0
		for _, g := range m.Glyphs {
			total += size + len(g.Ops)
		}
		for i := range m.Glyphs {
			ops := pool[(i*i)%61]
			if total+len(ops)-len(m.Glyphs[i].Ops) <= room {
				total += len(ops) - len(m.Glyphs[i].Ops)
				m.Glyphs[i].Ops = ops
			}
		}
	case "mapping":
		grow(130)
		n := pick(r, []int{4500, 20000, 56000})
		var pool []MMapping
		for i := 0; i < 97; i++ {
			e := MMapping{Switch: 254, Groups: []MGroup{r.Group(len(m.Glyphs))}}
			if s := r.Intn(len(m.Switches) + 1); s < len(m.Switches) {
				e.Switch, e.Groups = uint8(s), nil
				for k := m.numCases(s); k > 0; k-- {
					e.Groups = append(e.Groups, r.Group(len(m.Glyphs)))
				}
			}
			if n < 20000 || len(encodeMapping(e)) < 400 {
				pool = append(pool, e)
			}
		}
		m.Mappings = nil
		total := 0
		for i := 0; i < n && len(pool) > 0; i++ {
			e := pool[r.Intn(len(pool))]
			e.Rune = int32(i*19 + r.Intn(19))
			l := len(encodeMapping(e))
			if total+l > room {
				break
			}
			total += l
			m.Mappings = append(m.Mappings, e)
		}
	case "rewrites":
		glyph := r.Bool()
		var pool []MRule
		var size []int
		for len(pool) < 300 {
			u := r.RuleModel(glyph, len(m.Glyphs), 0, len(m.Conds))
			for k := r.Intn(100); k > 0; k-- {
				v := u.Body[r.Intn(len(u.Body))]
				if u.inLen() < 200 {
					u.Body = append(u.Body, v)
				}
			}
			pool = append(pool, u)
			size = append(size, len(encodeRule(u, glyph)))
		}
		var rules []MRule
		total := 0
		for len(rules) < 65535 {
			k := r.Intn(len(pool))
			if total += size[k]; total > room {
				break
			}
			rules = append(rules, pool[k])
		}
		if glyph {
			m.GlyphSets, m.GlyphRules = nil, rules
		} else {
			m.RuneSets, m.RuneRules = nil, rules
		}
	case "kerning":
		grow(pick(r, []int{2200, 30000}))
		for _, t := range []*map[KPair]int8{&m.Kern, &m.VKern} {
			n := pick(r, []int{500, 700_000, 1_800_000})
			k := make(map[KPair]int8, n)
			for i := 0; len(k) < n && i < 3*n; i++ {
				x := r.U64()
				k[KPair{uint16(x % uint64(len(m.Glyphs))), uint16((x >> 20) % uint64(len(m.Glyphs)))}] = int8(x >> 56)
			}
			*t = k
		}
	}
}

func init() {
	add := func(id, kind string, quick, thorough int, check func(c *Ctx, f *ggfnt.Font, m *Model)) {
		addWorkloads(id, Workload{Name: "huge", Quick: quick, Thorough: thorough, Fixed: true, Run: func(c *Ctx) {
			m := c.Model(ModelOpts{MaxGlyphs: 80})
			c.huge(m, kind)
			raw, _ := m.encode()
			c.Sample("font of %d bytes: %s", len(raw), m.summary())
			c.Logf("font of %d bytes: %s", len(raw), m.summary())
			f := mustParse(c, pack(raw))
			c.Count("max_wide_font_size", len(raw))
			c.Eval(hashBytes(raw), true)
			check(c, f, m)
		}})
	}
	add("P08", "glyphs", 6, 60, func(c *Ctx, f *ggfnt.Font, m *Model) { checkGlyphs(c, f, m, nil) })
	add("P12", "mapping", 6, 60, func(c *Ctx, f *ggfnt.Font, m *Model) { checkMapping(c, f, m, 1) })
	add("P14", "kerning", 6, 60, checkKerning)
	add("P16", "rewrites", 6, 60, func(c *Ctx, f *ggfnt.Font, m *Model) { checkRewrites(c, f, m, true) })
}
