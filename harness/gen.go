package main

import (
	"image"
	"image/color"
)

// ---------------------------------------------------------------------------
// Random models, legal by the format.
// ---------------------------------------------------------------------------

const nameChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func (r *RNG) BasicName(max int) string {
	n := 1 + r.Skew(max-1)
	b := make([]byte, n)
	alpha := nameChars
	if r.OneIn(2) {
		alpha = "ab" // many shared prefixes
	}
	for i := range b {
		b[i] = alpha[r.Intn(len(alpha))]
		if i > 0 && i < n-1 && b[i-1] != '-' && r.OneIn(6) {
			b[i] = '-'
		}
	}
	return string(b)
}

func (r *RNG) UniqueNames(n, max int) []string {
	seen := map[string]bool{}
	var out []string
	for len(out) < n {
		s := r.BasicName(max)
		for tries := 0; seen[s]; tries++ {
			s = r.BasicName(min(32, max+tries))
			if max < 6 && tries > 3 {
				max = 6
			}
		}
		seen[s] = true
		out = append(out, s)
	}
	return out
}

// Text returns an arbitrary text with the given maximum length.
func (r *RNG) Text(max int) string {
	var n int
	switch r.Intn(5) {
	case 0:
		n = r.Intn(max + 1)
	case 1:
		n = max
	case 2:
		n = max - r.Intn(3)
	default:
		n = r.Intn(min(max, 30) + 1)
	}
	if n < 0 {
		n = 0
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = nameChars[r.Intn(len(nameChars))]
		if r.OneIn(9) {
			b[i] = ' '
		}
		if r.OneIn(50) {
			b[i] = r.Byte()
		}
	}
	return string(b)
}

// lazyEntropy is how even the pairs of bits of the value are, taking pairs
// that overlap (step 1) or not (step 2).
func lazyEntropy(v uint64, step int) float64 {
	var c [4]int
	for i := 0; i < 32; i++ {
		c[v&3]++
		v >>= step
	}
	d := 0
	for _, n := range c {
		if n > 8 {
			d += n - 8
		} else {
			d += 8 - n
		}
	}
	return 1 - float64(d)/48
}

func (r *RNG) FontID() uint64 {
	for {
		if v := r.U64(); lazyEntropy(v, 1) >= 0.5 && lazyEntropy(v, 2) >= 0.5 { // far from what is refused
			return v
		}
	}
}

func (r *RNG) Date() MDate {
	switch r.Intn(5) {
	case 0:
		return MDate{}
	case 1:
		return MDate{Y: uint16(1 + r.Intn(65535))}
	case 2:
		return MDate{Y: uint16(1 + r.Intn(3000)), M: uint8(1 + r.Intn(12))}
	default:
		return MDate{uint16(1 + r.Intn(3000)), uint8(1 + r.Intn(12)), uint8(1 + r.Intn(28))}
	}
}

func (r *RNG) Metrics(numGlyphs int) Metrics {
	b := func() uint8 {
		switch r.Intn(4) {
		case 0:
			return r.Byte()
		case 1:
			return pick(r, []uint8{0, 1, 127, 128, 254, 255})
		default:
			return uint8(r.Intn(20))
		}
	}
	m := Metrics{NumGlyphs: uint16(numGlyphs), Vert: r.Bool(), Mono: b(), Asc: b(), XAsc: b(), Desc: b(), XDesc: b(),
		Upper: b(), Middle: b(), HInter: b(), VInter: b(), LineGap: b(), VLineW: b(), VLineGap: b()}
	if m.Asc == 0 {
		m.Asc = 1 + uint8(r.Intn(255))
	}
	if m.XAsc > m.Asc {
		m.XAsc = uint8(r.Intn(int(m.Asc) + 1))
	}
	if !m.Vert {
		m.VInter = 0
	}
	return m
}

// Ops returns a legal raster operation stream drawing in a moderate area.
func (r *RNG) Ops(n int) []byte {
	var b []byte
	nz := func() byte { // keep coordinates moderate
		if r.OneIn(12) {
			return r.Byte()
		}
		if r.Bool() {
			return byte(r.Intn(6))
		}
		return byte(256 - 1 - r.Intn(6))
	}
	ln := func() byte {
		if r.OneIn(25) {
			return r.Byte()
		}
		return byte(r.Intn(8))
	}
	for ; n > 0; n-- {
		ctrl := byte(0)
		var data []byte
		if r.OneIn(3) {
			ctrl |= 1
			data = append(data, byte(1+r.Intn(255)))
		}
		if r.OneIn(2) {
			ctrl |= 2
			data = append(data, nz())
		}
		switch r.Intn(4) {
		case 0:
			ctrl |= 4
			data = append(data, nz())
		case 1:
			ctrl |= 8
		}
		switch r.Intn(8) {
		case 0, 1:
			ctrl |= 0x10 | 0x20
			if r.Bool() {
				ctrl |= 0x40
			}
			data = append(data, ln())
		case 2:
			ctrl |= 0x20
			data = append(data, ln())
		case 3:
			ctrl |= 0x40
			data = append(data, ln())
		case 4:
			ctrl |= 0x60
			data = append(data, ln(), ln())
		case 5, 6:
			ctrl |= 0x80
		}
		b = append(append(b, ctrl), data...)
	}
	return b
}

func (r *RNG) Cond(depth, numSettings int) *MCond {
	if depth > 0 && r.OneIn(2) {
		n := 2 + r.Intn(3)
		if r.OneIn(30) {
			n = 31
		}
		c := &MCond{Op: pick(r, []byte{'|', '&'})}
		for i := 0; i < n; i++ {
			c.Terms = append(c.Terms, r.Cond(depth-1-r.Intn(2), numSettings))
		}
		return c
	}
	c := &MCond{A: uint8(r.Intn(numSettings))}
	switch r.Intn(3) {
	case 0:
		c.Op = pick(r, []byte("=!<>lg"))
		c.B = uint8(r.Intn(numSettings))
	case 1:
		c.Op = pick(r, []byte("=!<>lg"))
		c.Const = true
		c.B = uint8(r.Intn(5))
		if r.OneIn(5) {
			c.B = r.Byte()
		}
	default:
		c.Op = pick(r, []byte("=!<>"))
		c.Const, c.Quick = true, true
		c.B = uint8(r.Intn(4))
		if r.OneIn(5) {
			c.B = uint8(r.Intn(32))
		}
	}
	return c
}

func (r *RNG) Group(numGlyphs int) MGroup {
	n := 1
	if r.OneIn(2) {
		n = 1 + r.Skew(127)
		if r.OneIn(8) {
			n = pick(r, []int{128, 128, 127, 64, 65})
		}
	}
	g := MGroup{}
	if n > 1 {
		g.Flags = r.Byte()
	}
	if n <= numGlyphs && r.OneIn(2) {
		g.Range = r.OneIn(4) || n > 1
		base := r.Intn(numGlyphs - n + 1)
		for i := 0; i < n; i++ {
			g.Glyphs = append(g.Glyphs, uint16(base+i))
		}
		return g
	}
	for i := 0; i < n; i++ {
		g.Glyphs = append(g.Glyphs, uint16(r.Intn(numGlyphs)))
	}
	return g
}

func (r *RNG) Rune() int32 {
	switch r.Intn(8) {
	case 0:
		return int32(uint32(r.U64()))
	case 1:
		return int32(r.Intn(0x110000))
	case 2:
		return -1 - int32(r.Intn(3))
	default:
		return int32(r.Intn(300))
	}
}

func (r *RNG) SetModel(glyph bool, max int) MSet {
	var s MSet
	for n := r.Skew(255); n > 0; n-- {
		if glyph {
			f := r.Intn(max)
			s.Ranges = append(s.Ranges, MRange{int32(f), byte(r.Intn(min(256, max-f)))})
		} else {
			s.Ranges = append(s.Ranges, MRange{int32(r.Intn(0x10FF00)), r.Byte()})
		}
	}
	for n := r.Skew(255); n > 0; n-- {
		if glyph {
			s.List = append(s.List, int32(r.Intn(max)))
		} else {
			s.List = append(s.List, int32(r.Intn(0x110000)))
		}
	}
	return s
}

func (r *RNG) RuleModel(glyph bool, max, nsets, nconds int) MRule {
	var u MRule
	u.Cond = 255
	if nconds > 0 && r.OneIn(2) {
		u.Cond = uint8(r.Intn(nconds))
	}
	el := func() int32 {
		if glyph {
			return int32(r.Intn(max))
		}
		return int32(r.Intn(0x110000))
	}
	big := r.OneIn(12)
	elems := func(n int) (out []MElem) {
		for ; n > 0; n-- {
			if nsets > 0 && r.OneIn(2) {
				out = append(out, MElem{true, int32(r.Intn(nsets))})
			} else {
				out = append(out, MElem{false, el()})
			}
		}
		return out
	}
	lim := 4
	if big {
		lim = 85
	}
	u.Head = elems(r.Intn(lim))
	u.Body = elems(1 + r.Intn(lim))
	u.Tail = elems(r.Intn(lim))
	for n := 1 + r.Intn(len(u.Body)); n > 0; n-- {
		u.Out = append(u.Out, el())
	}
	return u
}

// nearRule is a rule that differs from another in a single place, or not at all.
func (r *RNG) nearRule(u MRule, glyph bool, max, nconds int) MRule {
	clone := func(e []MElem) []MElem { return append([]MElem(nil), e...) }
	u.Head, u.Body, u.Tail = clone(u.Head), clone(u.Body), clone(u.Tail)
	u.Out = append([]int32(nil), u.Out...)
	el := func() int32 {
		if glyph {
			return int32(r.Intn(max))
		}
		return int32(r.Intn(0x110000))
	}
	block := pick(r, []*[]MElem{&u.Head, &u.Body, &u.Tail})
	switch r.Intn(6) {
	case 0: // another condition
		u.Cond = 255
		if nconds > 0 && r.OneIn(2) {
			u.Cond = uint8(r.Intn(nconds))
		}
	case 1: // one element
		if len(*block) > 0 {
			(*block)[r.Intn(len(*block))] = MElem{false, el()}
		}
	case 2: // the last element
		for _, b := range []*[]MElem{&u.Tail, &u.Body} {
			if n := len(*b); n > 0 {
				if e := &(*b)[n-1]; !e.Set {
					e.Value = (e.Value + 1) % int32(max)
				}
				break
			}
		}
	case 3: // one output
		u.Out[r.Intn(len(u.Out))] = el()
	case 4: // one element more
		if len(u.Head)+len(u.Body)+len(u.Tail) < 255 {
			*block = append(*block, MElem{false, el()})
		}
	}
	return u
}

type ModelOpts struct {
	MaxGlyphs int
	NoOps     bool   // empty masks
	Big       bool   // occasionally large tables
	Only      string // section to make large and varied
}

func (r *RNG) Model(o ModelOpts) *Model {
	if o.MaxGlyphs == 0 {
		o.MaxGlyphs = 60
	}
	want := func(s string) bool { return o.Only == s || (o.Only == "" && r.OneIn(2)) }
	m := &Model{Version: 2, ID: r.FontID(), Major: uint16(r.U64()), Minor: uint16(r.U64())}
	for i := range m.Dates {
		m.Dates[i] = r.Date()
	}
	m.Name = "a"
	if want("header") {
		m.Name, m.Family, m.Author = r.Text(254)+"x", r.Text(255), r.Text(255)
		m.Abut = r.Text(pick(r, []int{10, 300, 65535}))
	}
	ng := 1 + r.Skew(o.MaxGlyphs-1)
	m.Met = r.Metrics(ng)
	if want("color") {
		left := 255
		nd := r.Skew(pick(r, []int{255, 12, 128}))
		for i, nm := range r.UniqueNames(nd, 32) {
			n := min(1+r.Skew(20), left-(nd-1-i))
			m.Dyes = append(m.Dyes, MDye{nm, r.Bytes(n)})
			left -= n
		}
		np := min(r.Skew(255), left)
		for i, nm := range r.UniqueNames(np, 32) {
			n := min(1+r.Skew(20), left-(np-1-i))
			if i == np-1 && r.OneIn(4) {
				n = left
			}
			p := MPalette{Name: nm}
			for ; n > 0; n-- {
				p.Colors = append(p.Colors, color.RGBA{r.Byte(), r.Byte(), r.Byte(), r.Byte()})
				left--
			}
			m.Palettes = append(m.Palettes, p)
		}
	}
	m.Glyphs = make([]MGlyph, ng)
	for i := range m.Glyphs {
		g := &m.Glyphs[i]
		g.Place[0] = r.Byte()
		if m.Met.Vert {
			g.Place[1], g.Place[2], g.Place[3] = r.Byte(), r.Byte(), r.Byte()
		}
		if !o.NoOps && !r.OneIn(4) {
			g.Ops = r.Ops(1 + r.Skew(12))
		}
	}
	if want("names") {
		n := min(ng, r.Skew(ng))
		if o.Only == "names" && r.Bool() {
			n = ng
		}
		perm := r.Perm(ng)
		for i, nm := range r.UniqueNames(n, pick(r, []int{2, 4, 32})) {
			m.Glyphs[perm[i]].Name = nm
		}
	}
	if want("settings") || want("mapping") || want("conditions") {
		if !r.OneIn(6) {
			nw := r.Skew(255)
			size := 0
			for i := 0; i < nw; i++ {
				s := r.BasicName(32)
				size += len(s)
				if size > nw*32 {
					break
				}
				m.Words = append(m.Words, s)
			}
		}
		ns := r.Skew(12)
		if r.OneIn(8) {
			ns = r.Skew(255)
		}
		if o.Only != "" && ns == 0 {
			ns = 1
		}
		if o.Only == "conditions" || o.Only == "mapping" {
			ns = max(ns, 3)
		}
		total := 0
		for _, nm := range r.UniqueNames(ns, 32) {
			n := 1 + r.Skew(pick(r, []int{254, 8, 3}))
			if total+n > 60000 {
				n = 1
			}
			total += n
			m.Settings = append(m.Settings, MSetting{nm, r.Bytes(n)})
		}
	}
	if len(m.Settings) > 0 && (want("mapping") || r.OneIn(2)) {
		for n := r.Skew(254); n > 0; n-- {
			var sw []byte
			cases := 1
			seen := map[int]bool{}
			for t := r.Range(1, 5); t > 0; t-- {
				s := r.Intn(len(m.Settings))
				if seen[s] || cases*len(m.Settings[s].Options) > 255 {
					continue
				}
				seen[s] = true
				cases *= len(m.Settings[s].Options)
				sw = append(sw, byte(s))
			}
			if len(sw) == 0 {
				continue
			}
			m.Switches = append(m.Switches, sw)
		}
	}
	if want("mapping") {
		n := r.Skew(80)
		if o.Only == "mapping" {
			n = r.Range(1, 60)
		}
		if o.Big && r.OneIn(10) {
			n = 3000
		}
		seen := map[int32]bool{}
		total := 0
		for i := 0; i < n; i++ {
			e := MMapping{Rune: r.Rune()}
			if n > 1000 {
				e.Rune = int32(r.Intn(0x110000))
			}
			if seen[e.Rune] {
				continue
			}
			seen[e.Rune] = true
			switch r.Intn(3) {
			case 0:
				e.Switch = 255
				e.Groups = []MGroup{{Glyphs: []uint16{uint16(r.Intn(ng))}}}
				if r.OneIn(10) {
					e.Groups[0].Glyphs[0] = uint16(r.Range(60000, 62000))
				}
			case 1:
				e.Switch = 254
				e.Groups = []MGroup{r.Group(ng)}
			default:
				if len(m.Switches) == 0 {
					continue
				}
				e.Switch = uint8(r.Intn(len(m.Switches)))
				for c := m.numCases(int(e.Switch)); c > 0; c-- {
					e.Groups = append(e.Groups, r.Group(ng))
				}
			}
			total += len(encodeMapping(e))
			if total > 1<<20 {
				break
			}
			m.Mappings = append(m.Mappings, e)
		}
	}
	if len(m.Settings) > 0 && (want("conditions") || r.OneIn(3)) {
		total := 0
		for n := 1 + r.Skew(pick(r, []int{254, 10})); n > 0; n-- {
			c := r.Cond(r.Intn(5), len(m.Settings))
			l := len(c.encode(nil))
			if total+l > 60000 {
				break
			}
			total += l
			m.Conds = append(m.Conds, c)
		}
	}
	if want("rewrites") {
		for _, glyph := range []bool{false, true} {
			var sets []MSet
			total := 0
			for n := r.Skew(pick(r, []int{255, 8})); n > 0; n-- {
				s := r.SetModel(glyph, ng)
				l := len(encodeSet(s, glyph))
				if total+l > 65000 {
					s = MSet{}
					l = 2
					if total+l > 65500 {
						break
					}
				}
				total += l
				sets = append(sets, s)
			}
			var rules []MRule
			for n := r.Skew(pick(r, []int{30, 30, 600})); n > 0; n-- {
				u := r.RuleModel(glyph, ng, len(sets), len(m.Conds))
				if len(rules) > 0 && r.OneIn(3) {
					u = r.nearRule(rules[len(rules)-1], glyph, ng, len(m.Conds))
				}
				rules = append(rules, u)
			}
			if glyph {
				m.GlyphSets, m.GlyphRules = sets, rules
			} else {
				m.RuneSets, m.RuneRules = sets, rules
			}
		}
	}
	m.Kern, m.VKern = map[KPair]int8{}, map[KPair]int8{}
	if want("kerning") {
		for _, t := range []map[KPair]int8{m.Kern, m.VKern} {
			n := r.Skew(min(ng*ng, 400))
			if o.Big && r.OneIn(8) {
				n = min(ng*ng, 20000)
			}
			for i := 0; i < n; i++ {
				t[KPair{uint16(r.Intn(ng)), uint16(r.Intn(ng))}] = int8(r.Byte())
			}
		}
	}
	return m
}

func (m *Model) numCases(sw int) int {
	n := 1
	for _, s := range m.Switches[sw] {
		n *= len(m.Settings[s].Options)
	}
	return n
}

// caseOf gives the case number of a switch: its settings form a number in
// mixed radix, the last setting being the least significant digit.
func (m *Model) caseOf(sw int, settings []uint8) int {
	n := 0
	for _, s := range m.Switches[sw] {
		n = n*len(m.Settings[s].Options) + int(settings[s])
	}
	return n
}

func (m *Model) randSettings(r *RNG) []uint8 {
	s := make([]uint8, len(m.Settings))
	for i := range s {
		n := len(m.Settings[i].Options)
		switch r.Intn(4) {
		case 0:
			s[i] = uint8(n - 1)
		case 1:
			s[i] = 0
		default:
			s[i] = uint8(r.Intn(n))
		}
	}
	return s
}

// Mask returns a random alpha mask, of various styles.
func (r *RNG) Mask(maxSide int) *image.Alpha {
	w, h := 1+r.Skew(maxSide-1), 1+r.Skew(maxSide-1)
	return r.MaskSize(w, h)
}

func (r *RNG) MaskSize(w, h int) *image.Alpha {
	x0, y0 := r.Range(-40, 40), r.Range(-40, 40)
	if r.OneIn(3) {
		x0, y0 = 0, -h+r.Intn(3)
	}
	rect := image.Rect(x0, y0, x0+w, y0+h)
	var img *image.Alpha
	if r.OneIn(3) { // a view into a larger image
		big := image.NewAlpha(image.Rect(x0-r.Intn(5), y0-r.Intn(5), x0+w+r.Intn(5), y0+h+r.Intn(5)))
		for i := range big.Pix {
			if r.OneIn(3) {
				big.Pix[i] = r.Byte()
			}
		}
		img = big.SubImage(rect).(*image.Alpha)
	} else {
		img = image.NewAlpha(rect)
	}
	r.Paint(img)
	return img
}

func (r *RNG) Paint(img *image.Alpha) {
	b := img.Rect
	cols := []uint8{255}
	for r.OneIn(2) && len(cols) < 6 {
		cols = append(cols, 1+uint8(r.Intn(255)))
	}
	if r.OneIn(2) {
		cols[0] = 1 + uint8(r.Intn(255))
	}
	set := func(x, y int, c uint8) {
		if (image.Point{x, y}).In(b) {
			img.SetAlpha(x, y, color.Alpha{c})
		}
	}
	switch style := r.Intn(7); style {
	case 6: // keep whatever is there
	default:
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				c := uint8(0)
				switch style {
				case 0: // dense noise
					if !r.OneIn(4) {
						c = pick(r, cols)
					}
				case 1: // sparse
					if r.OneIn(6) {
						c = pick(r, cols)
					}
				case 2: // full
					c = cols[0]
				}
				img.SetAlpha(x, y, color.Alpha{c})
			}
		}
		if style >= 3 { // shapes
			for n := r.Range(1, 8); n > 0; n-- {
				c := pick(r, cols)
				if r.OneIn(6) {
					c = 0
				}
				x, y := r.Range(b.Min.X, b.Max.X), r.Range(b.Min.Y, b.Max.Y)
				l := 1 + r.Skew(max(b.Dx(), b.Dy()))
				switch r.Intn(5) {
				case 0:
					for i := 0; i < l; i++ {
						set(x+i, y, c)
					}
				case 1:
					for i := 0; i < l; i++ {
						set(x, y+i, c)
					}
				case 2:
					for i := 0; i < l; i++ {
						set(x+i, y+i, c)
					}
				case 3:
					for i := 0; i < l; i++ {
						set(x+i, y-i, c)
					}
				default:
					h := 1 + r.Skew(b.Dy())
					for j := 0; j < h; j++ {
						for i := 0; i < l; i++ {
							set(x+i, y+j, c)
						}
					}
				}
			}
		}
	}
	if r.OneIn(15) { // empty
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				img.SetAlpha(x, y, color.Alpha{0})
			}
		}
	}
}
