package main

import (
	"fmt"
	"image/color"
	"sort"
	"strings"

	"github.com/tinne26/ggfnt"
)

// ---------------------------------------------------------------------------
// P27: fonts that break a basic rule of the format are never accepted, and
// fonts that just satisfy it are. The rules are checked by a walker over the
// uncompressed content that shares nothing with the parser.
// ---------------------------------------------------------------------------

// table is a sequence of end offsets followed by the data they delimit.
type table struct {
	name     string
	n        int // entries
	end      int // position of the last end offset
	width    int // its size in bytes
	data     int // position of the data
	len      int
	unit     int // bytes of data per unit of the end offset
	min, max int // what the end offset can be, in total; max 0: anything
}

type walker struct {
	b      []byte
	i      int
	broken []string
	tables []table
	fields map[string]int
}

type walkEnd struct{}

func (w *walker) num(width int) int {
	if w.i+width > len(w.b) {
		w.broken = append(w.broken, "content ends early")
		panic(walkEnd{})
	}
	v := 0
	for k := 0; k < width; k++ {
		v |= int(w.b[w.i+k]) << (8 * k)
	}
	w.i += width
	return v
}

func (w *walker) skip(n int) {
	if w.i+n > len(w.b) {
		w.broken = append(w.broken, "content ends early")
		panic(walkEnd{})
	}
	w.i += n
}

func (w *walker) rule(ok bool, what string) {
	if !ok {
		w.broken = append(w.broken, what)
	}
}

func (w *walker) field(name string) int {
	w.fields[name] = w.i
	return w.i
}

// ends reads the end offsets, and remembers the table.
func (w *walker) ends(name string, n, width, unit, min, max int) table {
	if n == 0 {
		return table{}
	}
	w.skip((n - 1) * width)
	t := table{name: name, n: n, end: w.i, width: width, unit: unit, min: min, max: max}
	t.len = w.num(width)
	w.rule(t.len >= min, name+": end before allowed")
	w.rule(max == 0 || t.len <= max, name+": end beyond allowed")
	return t
}

func (w *walker) body(t table) {
	if t.n == 0 {
		return
	}
	t.data = w.i
	w.skip(t.len * t.unit)
	w.tables = append(w.tables, t)
}

func (w *walker) blob(name string, n, width, min, max int) {
	w.body(w.ends(name, n, width, 1, min, max))
}

// walk finds the basic rules that the content of a font breaks.
func walk(b []byte) (w *walker) {
	w = &walker{b: b, fields: map[string]int{}}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(walkEnd); !ok {
				panic(e)
			}
		}
	}()
	w.field("version")
	w.rule(w.num(4) == 2, "version")
	w.field("id")
	id := uint64(w.num(4))
	id |= uint64(w.num(4)) << 32
	w.rule(lazyEntropy(id, 1) >= 0.2 || lazyEntropy(id, 2) >= 0.2, "identifier")
	w.skip(16)
	w.field("name")
	n := w.num(1)
	w.rule(n > 0, "empty name")
	w.skip(n)
	w.skip(w.num(1))
	w.skip(w.num(1))
	w.skip(w.num(2))
	w.field("metrics")
	glyphs := w.num(2)
	w.rule(glyphs > 0, "no glyphs")
	w.rule(glyphs <= 56789, "more than 56789 glyphs")
	vert := w.num(1)
	w.rule(vert <= 1, "boolean")
	w.skip(1)
	asc, xasc := w.num(1), w.num(1)
	w.rule(asc > 0, "zero ascent")
	w.rule(xasc <= asc, "extra ascent above ascent")
	w.skip(5)
	w.rule(w.num(1) == 0 || vert != 0, "vertical interspacing without vertical layout")
	w.skip(3)
	w.field("dyes")
	colors := 0
	n = w.num(1)
	t := w.ends("dye alphas", n, 1, 1, n, 0)
	colors += t.len
	w.body(t)
	w.blob("dye names", n, 2, n, 0)
	w.field("palettes")
	n = w.num(1)
	t = w.ends("palette colors", n, 1, 4, n, 0)
	colors += t.len
	w.rule(colors <= 255, "more than 255 colors")
	w.body(t)
	w.blob("palette names", n, 2, n, 0)
	w.field("named")
	n = w.num(2)
	w.rule(n <= glyphs, "more named glyphs than glyphs")
	w.skip(n * 2)
	w.blob("glyph names", n, 3, 0, n*32)
	w.field("masks")
	if glyphs > 0 {
		w.blob("masks", glyphs, 3, glyphs*(1+vert*3), 0)
	}
	w.field("words")
	n = w.num(1)
	w.blob("words", n, 2, n, n*32)
	w.field("settings")
	settings := w.num(1)
	w.blob("setting names", settings, 2, settings, settings*32)
	w.blob("setting options", settings, 2, settings, 0)
	w.field("switches")
	n = w.num(1)
	w.rule(n <= 254, "more than 254 switches")
	most := n * settings
	if most == 0 && n > 0 {
		w.rule(false, "switches without settings")
		most = 1 << 20
	}
	w.blob("switches", n, 2, n, most)
	w.field("mapping")
	n = w.num(2)
	w.skip(n * 4)
	w.blob("mapping", n, 3, n*3, 0)
	w.field("conditions")
	n = w.num(1)
	w.blob("conditions", n, 2, n*2, 0)
	w.field("rune sets")
	n = w.num(1)
	w.blob("rune sets", n, 2, n*2, 0)
	w.field("glyph sets")
	n = w.num(1)
	w.blob("glyph sets", n, 2, n*2, 0)
	w.field("rune rules")
	n = w.num(2)
	w.blob("rune rules", n, 3, n*8, n*4096)
	w.field("glyph rules")
	n = w.num(2)
	w.blob("glyph rules", n, 3, n*8, n*4096)
	for _, k := range []string{"kerning", "vertical kerning"} {
		w.field(k)
		n = w.num(3)
		w.rule(n <= glyphs*glyphs, "more "+k+" pairs than pairs of glyphs")
		w.skip(n * 5)
	}
	w.rule(w.i == len(b), "content continues")
	return w
}

// resize changes the last end offset of a table and the data it delimits.
func resize(r *RNG, b []byte, t table, size int) []byte {
	out := append([]byte(nil), b[:t.end]...)
	out = append(out, le(size, t.width)...)
	out = append(out, b[t.end+t.width:t.data]...)
	old := b[t.data : t.data+t.len*t.unit]
	for k := 0; k < size*t.unit; k++ {
		if k < len(old) {
			out = append(out, old[k])
		} else {
			out = append(out, byte('a'+r.Intn(26)))
		}
	}
	return append(out, b[t.data+t.len*t.unit:]...)
}

// cutAt replaces what is between two fields.
func (w *walker) replace(from, to string, with []byte) []byte {
	out := append([]byte(nil), w.b[:w.fields[from]]...)
	out = append(out, with...)
	if to == "" {
		return out
	}
	return append(out, w.b[w.fields[to]:]...)
}

func breakRule(c *Ctx, what, detail string, b []byte) {
	c.Logf("%s: %s", what, detail)
	reject(c, "font that breaks a rule ("+what+": "+detail+")", packLevel(b, 0))
	c.Count("broken: "+what, 1)
	c.Count("broken_rules", 1)
}

func keepRules(c *Ctx, what string, m *Model) {
	raw, _ := m.encode()
	if w := walk(raw); len(w.broken) > 0 {
		panic(fmt.Sprintf("harness: %s: %v", what, w.broken))
	}
	f, err := parseFont(packLevel(raw, 0))
	if err != nil {
		c.Failf("a font that just satisfies the rules (%s) is rejected: %v", what, err)
	}
	sameFont(c, what, f, raw)
	validates(c, "font with "+what, f, true)
	c.Count("limits_reached", 1)
}

// ruleModel makes a font with something in most tables.
func (c *Ctx) ruleModel() *Model {
	m := c.Model(ModelOpts{MaxGlyphs: pick(c.RNG, []int{1, 3, 20})})
	if len(m.Settings) == 0 && c.Bool() {
		m.Settings = []MSetting{{Name: "a", Options: []byte{0, 1}}}
	}
	return m
}

func (r *RNG) anyOf(except ...int) int { // a byte, often at the ends of the range
	for {
		v := pick(r, []int{0, 1, 2, 3, 127, 128, 254, 255, r.Intn(256)})
		for _, e := range except {
			if v == e {
				v = -1
			}
		}
		if v >= 0 {
			return v
		}
	}
}

func rulesCase(c *Ctx) {
	m := c.ruleModel()
	raw, _ := m.encode()
	w := walk(raw)
	if len(w.broken) > 0 {
		panic(fmt.Sprintf("harness: the generated font breaks rules: %v", w.broken))
	}
	c.Sample("font of %d bytes: %s", len(raw), m.summary())
	loaded := mustParse(c, packLevel(raw, 0))
	validates(c, "accepted font", loaded, true)
	set := func(field string, off int, v ...byte) []byte {
		b := append([]byte(nil), raw...)
		copy(b[w.fields[field]+off:], v)
		return b
	}
	// header
	for k := 0; k < 3; k++ {
		v := pick(c.RNG, []uint32{0, 1, 3, 0x102, 0x200, 0x10002, 0x01000002, 0x02000000, 0xFFFFFFFF, uint32(c.U64())})
		if v != 2 {
			breakRule(c, "version", fmt.Sprint(v), set("version", 0, le(int(v), 4)...))
		}
	}
	id := pick(c.RNG, []uint64{0, ^uint64(0), 1 << c.Intn(64), ^(uint64(1) << c.Intn(64)), 1<<c.Intn(64) | 1<<c.Intn(64)})
	if lazyEntropy(id, 1) < 0.2 && lazyEntropy(id, 2) < 0.2 {
		breakRule(c, "identifier", fmt.Sprintf("%x", id), set("id", 0, append(le(int(uint32(id)), 4), le(int(id>>32), 4)...)...))
	}
	x := *m
	x.Name = ""
	e, _ := x.encode()
	breakRule(c, "empty name", "", e)
	// metrics
	x = *m
	x.Met.NumGlyphs, x.Glyphs, x.Kern, x.VKern = 0, nil, nil, nil
	e, _ = x.encode()
	breakRule(c, "no glyphs", "", e)
	ew := walk(e)
	breakRule(c, "no glyphs", "with masks", ew.replace("masks", "words", make([]byte, 3*pick(c.RNG, []int{1, 65535, 65536}))))
	breakRule(c, "no glyphs", "claimed", set("metrics", 0, 0, 0))
	v := c.anyOf(0, 1)
	breakRule(c, "boolean", fmt.Sprint(v), set("metrics", 2, byte(v)))
	breakRule(c, "boolean", fmt.Sprint(v, " without vertical interspacing"), func() []byte {
		b := set("metrics", 2, byte(v))
		b[w.fields["metrics"]+11] = 0
		return b
	}())
	breakRule(c, "zero ascent", "", set("metrics", 4, 0, 0))
	if m.Met.Asc < 255 {
		over := m.Met.Asc + 1 + byte(c.Intn(255-int(m.Met.Asc)))
		if c.Bool() {
			over = m.Met.Asc + 1
		}
		breakRule(c, "extra ascent above ascent", fmt.Sprint(over, " above ", m.Met.Asc), set("metrics", 5, over))
	}
	x = *m
	x.Met.XAsc = x.Met.Asc - byte(c.Intn(2))
	keepRules(c, "extra ascent close to the ascent", &x)
	if !m.Met.Vert {
		breakRule(c, "vertical interspacing without vertical layout", "", set("metrics", 11, byte(c.anyOf(0))))
	} else {
		x = *m
		x.Met.VInter = byte(c.anyOf(0))
		keepRules(c, "vertical interspacing", &x)
	}
	if c.OneIn(20) {
		n := pick(c.RNG, []int{56789, 56790, 60000, 65535})
		x = *m
		x.Glyphs = append([]MGlyph(nil), m.Glyphs...)
		for len(x.Glyphs) < n {
			x.Glyphs = append(x.Glyphs, MGlyph{Place: [4]byte{c.Byte(), 1, 1, 1}})
		}
		x.Met.NumGlyphs = uint16(n)
		if n == 56789 {
			keepRules(c, "56789 glyphs", &x)
		} else {
			e, _ = x.encode()
			breakRule(c, "more than 56789 glyphs", fmt.Sprint(n), e)
		}
	}
	// sizes of tables
	for _, t := range w.tables {
		size := func(n int) {
			if n < 0 || n >= 1<<(8*t.width) || n > 300000 {
				return
			}
			side := "before"
			if n > t.min {
				side = "beyond"
			}
			breakRule(c, t.name+": end "+side+" allowed", fmt.Sprintf("%d entries, ends at %d", t.n, n), resize(c.RNG, raw, t, n))
		}
		if t.min > 0 {
			size(t.min - 1)
			size(c.Intn(t.min))
		}
		if t.max > 0 {
			size(t.max + 1)
			size(t.max + 1 + c.Skew(1000))
		}
	}
	// numbers of entries
	ng := len(m.Glyphs)
	if ng < 40 {
		n := ng + 1 + c.Skew(3)
		var ids, ends, names []byte
		for i := 0; i < n; i++ {
			ids = append(ids, le(pick(c.RNG, []int{i % ng, 56900 + i}), 2)...)
			names = append(names, fmt.Sprintf("g%03d", i)...)
			ends = append(ends, le(len(names), 3)...)
		}
		b := append(append(append(le(n, 2), ids...), ends...), names...)
		breakRule(c, "more named glyphs than glyphs", fmt.Sprintf("%d of %d", n, ng), w.replace("named", "masks", b))
	}
	if len(m.Settings) > 0 {
		x = *m
		x.Mappings, x.Switches = nil, nil
		for len(x.Switches) < 254 {
			x.Switches = append(x.Switches, []byte{byte(c.Intn(len(m.Settings)))})
		}
		keepRules(c, "254 switches", &x)
		x.Switches = append(x.Switches, []byte{0})
		e, _ = x.encode()
		breakRule(c, "more than 254 switches", "", e)
	}
	a := c.Range(1, 255)
	b := min(255, 256-a+c.Skew(3))
	x = *m
	x.Dyes, x.Palettes = c.colors(a, b)
	e, _ = x.encode()
	breakRule(c, "more than 255 colors", fmt.Sprint(a, "+", b), e)
	if a < 255 {
		x.Dyes, x.Palettes = c.colors(a, 255-a)
		keepRules(c, "255 colors", &x)
	}
	// pairs
	if ng <= 20 {
		for _, vert := range []bool{false, true} {
			var pairs, vals []byte
			n := ng*ng + 1 + c.Skew(5)
			for i := 0; i < n; i++ {
				pairs = append(pairs, le(min(i, ng*ng-1)/ng<<16|min(i, ng*ng-1)%ng, 4)...)
				vals = append(vals, c.Byte())
			}
			t := append(append(le(n, 3), pairs...), vals...)
			if vert {
				breakRule(c, "more vertical kerning pairs than pairs of glyphs", fmt.Sprintf("%d, %d glyphs", n, ng), w.replace("vertical kerning", "", t))
			} else {
				breakRule(c, "more kerning pairs than pairs of glyphs", fmt.Sprintf("%d, %d glyphs", n, ng), w.replace("kerning", "vertical kerning", t))
			}
		}
	}
	inPlace := func(what, field string, off int, v ...byte) {
		content := append([]byte(nil), loaded.Data...)
		copy(loaded.Data[w.fields[field]+off:], v)
		validates(c, what+fmt.Sprint(" ", v), loaded, false)
		copy(loaded.Data, content)
		c.Count("invalid: "+what, 1)
	}
	inPlace("version", "version", 0, le(pick(c.RNG, []int{0, 1, 3, 0x102, 0x10002, 0x01000002}), 4)...)
	inPlace("identifier", "id", 0, append(le(0, 4), le(0, 4)...)...)
	inPlace("identifier", "id", 0, append(le(1<<32-1, 4), le(1<<32-1, 4)...)...)
	inPlace("empty name", "name", 0, 0)
	inPlace("no glyphs", "metrics", 0, 0, 0)
	inPlace("too many glyphs", "metrics", 0, le(pick(c.RNG, []int{56790, 60000, 65535}), 2)...)
	inPlace("boolean", "metrics", 2, byte(v))
	inPlace("ascent", "metrics", 4, 0)
	inPlace("ascent", "metrics", 4, 0, 0)
	if m.Met.Asc < 255 {
		inPlace("extra ascent", "metrics", 5, m.Met.Asc+1+byte(c.Intn(255-int(m.Met.Asc))))
	}
	if !m.Met.Vert {
		inPlace("vertical interspacing", "metrics", 11, byte(c.anyOf(0)))
	}
	inPlace("named glyphs", "named", 0, le(ng+1+c.Skew(65534-ng), 2)...)
	validates(c, "font put back as it was", loaded, true)
	c.Eval(hashBytes(raw), true)
}

// validates checks what a loaded font says about its own content.
func validates(c *Ctx, what string, f *ggfnt.Font, valid bool) {
	var err error
	c.NoPanic("Validate of a "+what, func() { err = f.Validate(ggfnt.FmtDefault) })
	if valid && err != nil {
		c.Failf("Validate of a font (%s) reports %v", what, err)
	}
	if !valid && err == nil {
		c.Failf("Validate of a loaded font made invalid (%s) reports nothing", what)
	}
	if !valid {
		return
	}
	for name, part := range map[string]func(ggfnt.FmtValidation) error{"Header": f.Header().Validate, "Metrics": f.Metrics().Validate, "Glyphs": f.Glyphs().Validate, "Color": f.Color().Validate,
		"Settings": f.Settings().Validate, "Mapping": f.Mapping().Validate, "Rewrites": f.Rewrites().Validate, "Kerning": f.Kerning().Validate} {
		if err := part(ggfnt.FmtDefault); err != nil {
			c.Failf("%s().Validate of a font (%s) reports %v", name, what, err)
		}
	}
	c.Count("validated_fonts", 1)
}

// colors gives dyes with a alphas and palettes with b colors in total, in as
// many dyes and palettes as wanted.
func (c *Ctx) colors(a, b int) (dyes []MDye, pals []MPalette) {
	parts := func(n int) (out []int) {
		for n > 0 {
			k := 1
			if c.OneIn(3) {
				k = c.Range(1, n)
			}
			out = append(out, k)
			n -= k
		}
		return out
	}
	for i, k := range parts(a) {
		dyes = append(dyes, MDye{Name: fmt.Sprintf("d%d", i), Alphas: c.Bytes(k)})
	}
	for i, k := range parts(b) {
		p := MPalette{Name: fmt.Sprintf("p%d", i)}
		for ; k > 0; k-- {
			p.Colors = append(p.Colors, opaque(c.Bytes(3)))
		}
		pals = append(pals, p)
	}
	return dyes, pals
}

// tightModel has every entry of every table at its smallest or largest size.
func (c *Ctx) tightModel() (*Model, string) {
	m := c.Model(ModelOpts{Only: "none", MaxGlyphs: pick(c.RNG, []int{1, 5})})
	ng := len(m.Glyphs)
	large := c.Bool()
	name := func(i int) string {
		s := fmt.Sprintf("n%d", i)
		if large {
			s += "-" + strings.Repeat("x", 31-len(s))
		} else if i < 26 {
			s = string(rune('a' + i))
		}
		return s
	}
	count := func(max int) int { return pick(c.RNG, []int{0, 1, 2 % (max + 1), max, c.Range(0, max)}) }
	few := 26
	if large {
		few = 255
	}
	m.Dyes, m.Palettes = nil, nil
	for i := count(min(few, 120)); i > 0; i-- {
		m.Dyes = append(m.Dyes, MDye{Name: name(len(m.Dyes)), Alphas: c.Bytes(1)})
	}
	for i := count(min(few, 120)); i > 0; i-- {
		m.Palettes = append(m.Palettes, MPalette{Name: name(len(m.Palettes)), Colors: nil})
		p := &m.Palettes[len(m.Palettes)-1]
		p.Colors = append(p.Colors, opaque(c.Bytes(3)))
	}
	for i := range m.Glyphs {
		m.Glyphs[i].Ops = nil
		m.Glyphs[i].Name = ""
	}
	for i := count(ng); i > 0; i-- {
		m.Glyphs[i-1].Name = name(i)
	}
	m.Words = nil
	for i := count(few); i > 0; i-- {
		m.Words = append(m.Words, name(i-1))
	}
	m.Settings = nil
	for i := count(few); i > 0; i-- {
		o := c.Bytes(pick(c.RNG, []int{1, 1, 2}))
		for k := range o {
			o[k] %= byte(max(1, len(m.Words)))
			if len(m.Words) == 0 {
				o[k] = 250
			}
		}
		m.Settings = append(m.Settings, MSetting{Name: name(len(m.Settings)), Options: o})
	}
	m.Switches, m.Mappings = nil, nil
	if n := len(m.Settings); n > 0 {
		for i := count(254); i > 0; i-- {
			s := []byte{byte(c.Intn(n))}
			if large { // every setting, each with a single option
				s = s[:0]
				for k := 0; k < n; k++ {
					s = append(s, byte(k))
				}
				if n*(len(m.Switches)+1) > 65535 {
					break
				}
			}
			m.Switches = append(m.Switches, s)
		}
		if large {
			for i := range m.Settings {
				m.Settings[i].Options = m.Settings[i].Options[:1]
			}
		}
	}
	for i := count(300); i > 0; i-- {
		m.Mappings = append(m.Mappings, MMapping{Rune: int32(100 + i), Switch: 255, Groups: []MGroup{{Glyphs: []uint16{uint16(c.Intn(ng))}}}})
	}
	m.Conds = nil
	if len(m.Settings) > 0 {
		for i := count(255); i > 0; i-- {
			m.Conds = append(m.Conds, &MCond{Op: '=', A: byte(c.Intn(len(m.Settings))), B: byte(c.Intn(2)), Const: true, Quick: true})
		}
	}
	m.RuneSets, m.GlyphSets = make([]MSet, count(255)), make([]MSet, count(255))
	m.RuneRules, m.GlyphRules = nil, nil
	for i := count(40); i > 0 && len(m.GlyphSets) > 0; i-- {
		m.GlyphRules = append(m.GlyphRules, MRule{Cond: 255, Body: []MElem{{true, 0}}, Out: []int32{0}})
	}
	for i := count(40); i > 0 && len(m.RuneSets) > 0; i-- {
		m.RuneRules = append(m.RuneRules, MRule{Cond: 255, Body: []MElem{{true, 0}}, Out: []int32{0}})
	}
	m.Kern, m.VKern = map[KPair]int8{}, map[KPair]int8{}
	tables := []map[KPair]int8{m.Kern}
	if m.Met.Vert {
		tables = append(tables, m.VKern)
	}
	for _, t := range tables {
		for i := 0; i < ng*ng; i++ {
			t[KPair{uint16(i / ng), uint16(i % ng)}] = int8(c.Byte())
		}
	}
	return m, fmt.Sprintf("every entry at its limit, large %v", large)
}

// manyEntries has tables whose allowed sizes don't fit in 16 bits.
func manyEntries(c *Ctx) {
	m := c.Model(ModelOpts{Only: "none", MaxGlyphs: 3})
	m.Met.Vert = true
	m.Kern, m.VKern = nil, nil
	what := pick(c.RNG, []string{"masks", "glyph names", "mapping", "rune rules", "glyph rules"})
	n := 0
	grow := func() {
		for len(m.Glyphs) < n {
			m.Glyphs = append(m.Glyphs, MGlyph{Place: [4]byte{c.Byte(), 1, 1, 1}})
		}
		m.Met.NumGlyphs = uint16(len(m.Glyphs))
	}
	for i := range m.Glyphs {
		m.Glyphs[i].Name, m.Glyphs[i].Ops = "", nil
	}
	switch what {
	case "masks":
		n = pick(c.RNG, []int{16383, 16384, 16385, 16500, c.Range(16386, 56789), 56789})
		grow()
	case "glyph names":
		n = pick(c.RNG, []int{2047, 2048, 2049, 2100, c.Range(2050, 9000), 5000})
		grow()
		for i := range m.Glyphs {
			s := fmt.Sprintf("n%d", i)
			m.Glyphs[i].Name = s + "-" + strings.Repeat("x", 31-len(s))
		}
	case "mapping":
		n = pick(c.RNG, []int{21845, 21846, 21847, 22000, c.Range(21848, 65535), 65535})
		m.Mappings = nil
		for len(m.Mappings) < n {
			m.Mappings = append(m.Mappings, MMapping{Rune: int32(32 + 2*len(m.Mappings)), Switch: 255, Groups: []MGroup{{Glyphs: []uint16{uint16(c.Intn(len(m.Glyphs)))}}}})
		}
	case "rune rules", "glyph rules":
		n = pick(c.RNG, []int{8191, 8192, 8193, 8200, c.Range(8194, 65535), 65535})
		rules := make([]MRule, n)
		for i := range rules {
			rules[i] = MRule{Cond: 255, Body: []MElem{{true, 0}}, Out: []int32{int32(c.Intn(len(m.Glyphs)))}}
		}
		if what == "rune rules" {
			m.RuneSets, m.RuneRules = make([]MSet, 1), rules
		} else {
			m.GlyphSets, m.GlyphRules = make([]MSet, 1), rules
		}
	}
	keepRules(c, fmt.Sprint(n, " ", what), m)
	raw, _ := m.encode()
	w := walk(raw)
	for _, t := range w.tables {
		if t.name != what {
			continue
		}
		var sizes []int
		if t.min > 0 {
			sizes = append(sizes, t.min-1, c.Intn(t.min), t.min&0xFFFF, t.min&0xFFFF+1, t.min-65536, t.min-65535, t.min/2, 0)
		}
		if t.max > 0 {
			sizes = append(sizes, t.max+1, t.max+65536, t.max+c.Range(1, 100000))
		}
		for _, v := range sizes {
			if v < 0 || v > 1<<24-1 || v >= t.min && (t.max == 0 || v <= t.max) {
				continue
			}
			side := "before"
			if v > t.min {
				side = "beyond"
			}
			breakRule(c, t.name+": end "+side+" allowed", fmt.Sprintf("%d entries, ends at %d", t.n, v), resize(c.RNG, raw, t, v))
			c.Count("broken: many "+t.name, 1)
		}
	}
	c.Sample("font of %d bytes with %d %s", len(raw), n, what)
	c.Eval(hashBytes(raw), true)
}

func init() {
	register(&Property{ID: "P27", Level: "exploration",
		Rule: "One evaluation is one font that breaks rules in all the ways its tables allow, one at a time, or one font derived from it by random changes, or one font with every entry at a limit. Non-trivial if a rule is broken, or something is at a limit. What is accepted is judged by an independent walker over its content.",
		Require: []string{"validated_fonts", "invalid: version", "invalid: identifier", "invalid: empty name", "invalid: no glyphs", "invalid: too many glyphs", "invalid: boolean", "invalid: ascent", "invalid: extra ascent", "invalid: vertical interspacing", "invalid: named glyphs", "broken: many masks", "broken: many glyph names", "broken: many mapping", "broken: many rune rules", "broken: many glyph rules", "broken_rules", "limits_reached", "mutants_accepted", "mutants_rejected", "broken: version", "broken: identifier", "broken: empty name", "broken: no glyphs", "broken: more than 56789 glyphs", "broken: boolean",
			"broken: zero ascent", "broken: extra ascent above ascent", "broken: vertical interspacing without vertical layout", "broken: more named glyphs than glyphs", "broken: more than 254 switches", "broken: more than 255 colors",
			"broken: more kerning pairs than pairs of glyphs", "broken: more vertical kerning pairs than pairs of glyphs", "broken: dye alphas: end before allowed", "broken: dye names: end before allowed", "broken: palette colors: end before allowed",
			"broken: palette names: end before allowed", "broken: glyph names: end beyond allowed", "broken: masks: end before allowed", "broken: words: end before allowed", "broken: words: end beyond allowed", "broken: setting names: end before allowed",
			"broken: setting names: end beyond allowed", "broken: setting options: end before allowed", "broken: switches: end before allowed", "broken: switches: end beyond allowed", "broken: mapping: end before allowed", "broken: conditions: end before allowed",
			"broken: rune sets: end before allowed", "broken: glyph sets: end before allowed", "broken: rune rules: end before allowed", "broken: rune rules: end beyond allowed", "broken: glyph rules: end before allowed", "broken: glyph rules: end beyond allowed"},
		Assumptions: []string{"identifiers are only required to be refused when nearly all of their bits are the same"},
		Workloads: []Workload{
			{Name: "rules", Quick: 1500, Thorough: 20000, Run: rulesCase},
			{Name: "limits", Quick: 1000, Thorough: 12000, Run: func(c *Ctx) {
				m, what := c.tightModel()
				keepRules(c, what, m)
				raw, _ := m.encode()
				c.Sample("font of %d bytes: %s", len(raw), m.summary())
				f := mustParse(c, pack(raw))
				checkAll(c, f, m)
				c.Eval(hashBytes(raw), true)
			}},
			{Name: "many", Quick: 60, Thorough: 1200, Run: manyEntries},
			{Name: "mutated", Quick: 1500, Thorough: 25000, Run: func(c *Ctx) {
				m, o := smallModel(c), smallModel(c)
				raw, secs := m.encode()
				other, osecs := o.encode()
				w := walk(raw)
				var fields []string
				for k := range w.fields {
					fields = append(fields, k)
				}
				sort.Strings(fields)
				for i := 0; i < 40; i++ {
					var b []byte
					desc := ""
					switch c.Intn(3) {
					case 0:
						b, desc = mutateRaw(c, raw, other, secs, osecs)
					case 1: // a table with another size
						if len(w.tables) == 0 {
							continue
						}
						t := pick(c.RNG, w.tables)
						n := max(0, min(t.len+c.Range(-40, 40), 1<<(8*t.width)-1, 100000))
						b, desc = resize(c.RNG, raw, t, n), fmt.Sprintf("%s ends at %d", t.name, n)
					case 2: // a byte of the counts and fixed fields
						k := pick(c.RNG, fields)
						b = append([]byte(nil), raw...)
						at := min(w.fields[k]+c.Intn(15), len(b)-1)
						b[at] = byte(c.anyOf())
						desc = fmt.Sprintf("byte %d (%s) set to %d", at, k, b[at])
					}
					c.Logf("font of %d bytes changed: %s", len(raw), desc)
					var err error
					c.NoPanic("Parse of a changed font", func() { _, err = parseFont(packLevel(b, 0)) })
					v := walk(b)
					if err == nil {
						c.Count("mutants_accepted", 1)
						if len(v.broken) > 0 {
							c.Failf("a font changed at %s is accepted: %s", desc, strings.Join(v.broken, ", "))
						}
					} else {
						c.Count("mutants_rejected", 1)
						if len(v.broken) == 0 {
							c.Count("mutants_rejected_for_other_reasons", 1)
						}
					}
					c.Eval(hashBytes(b), true)
				}
			}},
		},
	})
}

func opaque(b []byte) color.RGBA { return color.RGBA{b[0], b[1], b[2], 255} }
