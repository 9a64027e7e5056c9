package main

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"image"
	"image/color"
	"slices"
	"sort"
	"unicode/utf8"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
)

// ---------------------------------------------------------------------------
// Driver of a font builder. Every call goes both to the builder under test and
// to a model written from the documentation; a call must succeed or be refused
// as the model says, refused calls must leave no trace, and everything the
// builder can be asked is compared after every call.
// ---------------------------------------------------------------------------

type bGlyph struct {
	uid   uint64
	name  string
	place [4]byte
	pix   map[image.Point]uint8
}
type bSetting struct {
	name string
	opts []string
}
type bMapping struct {
	sw     uint8
	groups [][]uint64
	flags  []uint8
}
type bSet struct {
	uid    uint64
	ranges [][2]uint64
	list   []uint64
}
type bRuneSet struct {
	uid    uint64
	ranges [][2]rune
	list   []rune
}
type bRule struct {
	head, body, tail int
	in, out          []uint64
}
type bRuneRule struct {
	seq []rune
	out rune
}
type bKern struct {
	value int8
	class int
}
type bClass struct {
	name  string
	value int8
}

type driver struct {
	c       *Ctx
	*RNG    // choices of operations; independent of checks and builds
	b       *builder.Font
	det     *detReader
	quiet   bool // do not log
	noObs   bool // no comparison after every call (bulk operations)
	noRunes bool // no rune sets
	ops     int

	id           uint64
	major, minor uint16
	dates        [3]MDate
	name, family string
	author, abut string
	met          Metrics
	dyes         []MDye
	palettes     []MPalette
	glyphs       []*bGlyph
	byUID        map[uint64]*bGlyph
	settings     []bSetting
	switches     [][]uint8
	mapping      map[rune]bMapping
	sets         []*bSet
	runeSets     []*bRuneSet
	images       []*image.Alpha // of all glyphs
	rules        []bRule
	runeRules    []bRuneRule
	kern, vkern  map[[2]uint64]bKern
	classes      []bClass
	removedSets  []uint64
	runeEst      int // bytes of rune rules, roughly
	built        []builtFont
}

// builtFont is a font built earlier, with a copy of everything it consists of.
type builtFont struct {
	f    *ggfnt.Font
	data []byte
	rest string
	ops  int
}

func fontRest(f *ggfnt.Font) string {
	x := *f
	x.Data = nil
	return fmt.Sprintf("%+v", x)
}

// keepBuilt remembers a built font; checkKept watches that operations and
// builds made since left the fonts built earlier alone.
func (d *driver) keepBuilt(f *ggfnt.Font) {
	if len(f.Data) > 1<<20 {
		return
	}
	d.built = append(d.built, builtFont{f, bytes.Clone(f.Data), fontRest(f), d.ops})
	if len(d.built) > 6 {
		d.built = slices.Delete(d.built, 1, 2)
	}
}

func (d *driver) checkKept() {
	for _, k := range d.built {
		if !bytes.Equal(k.f.Data, k.data) || fontRest(k.f) != k.rest {
			d.c.Failf("a font built %d operations ago has changed (byte %d of %d)", d.ops-k.ops, firstDiff(k.f.Data, k.data), len(k.data))
		}
		d.c.Count("earlier_fonts_compared", 1)
	}
}

func newDriver(c *Ctx, r *RNG, det *detReader) *driver {
	d := &driver{c: c, RNG: r, det: det, byUID: map[uint64]*bGlyph{}, mapping: map[rune]bMapping{}, kern: map[[2]uint64]bKern{}, vkern: map[[2]uint64]bKern{}}
	before := ggfnt.CurrentDate()
	d.call("New", func() { d.b = builder.New() })
	after := ggfnt.CurrentDate()
	b := d.b
	d.id = b.GetFontID()
	for _, got := range []ggfnt.Date{b.GetFirstVerDate(), b.GetMajorVerDate(), b.GetMinorVerDate()} {
		if got != before && got != after {
			c.Failf("New: date %v, expected %v", got, after)
		}
	}
	if max(lazyEntropy(d.id, 1), lazyEntropy(d.id, 2)) < 0.15 {
		c.Failf("New: font identifier %x of little entropy", d.id)
	}
	d.major, d.minor = 0, 1
	d.name, d.family, d.author, d.abut = "Unnamed", "Unnamed", "Authorless", "No information available."
	d.met = Metrics{Asc: 9, Desc: 5, Upper: 9, Middle: 5, HInter: 1, LineGap: 1}
	for i := range d.dates {
		d.setDate(i, r.Date())
	}
	d.observe("New")
	return d
}

func (d *driver) logf(format string, args ...any) {
	if !d.quiet {
		d.c.Logf("%s", clip(fmt.Sprintf(format, args...)))
	}
}

func (d *driver) call(what string, fn func()) {
	d.ops++
	p, stack := Try(fn)
	if p != nil {
		d.c.Fail("panic", "%s panicked: %v\n%s", clip(what), p, trimStack(stack))
	}
	d.c.Count("builder_calls", 1)
}

// try makes a call that must fail with reason, or succeed if reason is empty.
func (d *driver) try(reason string, what string, fn func() error) bool {
	var err error
	d.call(what, func() { err = fn() })
	d.logf("%s -> %v", what, err)
	if reason != "" && err == nil {
		d.c.Failf("%s succeeds, but must be refused: %s", clip(what), reason)
	}
	if reason == "" && err != nil {
		d.c.Failf("%s is refused: %v", clip(what), err)
	}
	if reason != "" {
		d.c.Count("refused_calls", 1)
		d.c.Count("refused: "+reason, 1)
	}
	return reason == ""
}

func textReason(s string, max int, empty bool) string {
	switch {
	case len(s) == 0 && !empty:
		return "empty text"
	case len(s) > max:
		return "text too long"
	case !utf8.ValidString(s):
		return "invalid UTF-8"
	}
	for i := 0; i < len(s); i++ {
		if s[i] < ' ' {
			return "control character"
		}
	}
	return ""
}

func (d *driver) setDate(i int, v MDate) {
	fn := []func(ggfnt.Date) error{d.b.SetFirstVerDate, d.b.SetMajorVerDate, d.b.SetMinorVerDate}[i]
	reason := ""
	if !refValid(int(v.Y), int(v.M), int(v.D)) {
		reason = "invalid date"
	}
	if d.try(reason, fmt.Sprintf("set date %d to %v", i, v), func() error { return fn(ggfnt.Date{Year: v.Y, Month: v.M, Day: v.D}) }) {
		d.dates[i] = v
	}
}

func (d *driver) setText(i int, s string) {
	fn := []func(string) error{d.b.SetName, d.b.SetFamily, d.b.SetAuthor, d.b.SetAbout}[i]
	max := 255
	if i == 3 {
		max = 65535
	}
	if d.try(textReason(s, max, i != 0), fmt.Sprintf("set text %d to %d bytes %q", i, len(s), clip(s)), func() error { return fn(s) }) {
		*[]*string{&d.name, &d.family, &d.author, &d.abut}[i] = s
	}
}

func (d *driver) setVersion(kind int, major, minor uint16) {
	before := ggfnt.CurrentDate()
	d.call("version change", func() {
		switch kind {
		case 0:
			d.b.SetVersion(major, minor)
			d.major, d.minor = major, minor
		case 1:
			d.b.RaiseMajorVersion()
			d.major++
			d.minor = 0
		case 2:
			d.b.RaiseMinorVersion()
			d.minor++
		}
	})
	after := ggfnt.CurrentDate()
	d.logf("version change %d: v%d.%d", kind, d.major, d.minor)
	in := func(what string, v ggfnt.Date) {
		if v != before && v != after {
			d.c.Failf("%s version date after a version change: %v, expected %v", what, v, after)
		}
	}
	if kind != 2 {
		in("major", d.b.GetMajorVerDate())
		d.setDate(1, d.Date())
	}
	in("minor", d.b.GetMinorVerDate())
	d.setDate(2, d.Date())
}

// setMetric sets metric i through its setter.
func (d *driver) setMetric(i int, v uint8) {
	k := &d.met
	b := d.b
	type m struct {
		name string
		p    *uint8
		set  func(uint8)
	}
	ms := []m{{"MonoWidth", &k.Mono, b.SetMonoWidth}, {"Ascent", &k.Asc, b.SetAscent}, {"ExtraAscent", &k.XAsc, b.SetExtraAscent},
		{"Descent", &k.Desc, b.SetDescent}, {"ExtraDescent", &k.XDesc, b.SetExtraDescent}, {"UppercaseAscent", &k.Upper, b.SetUppercaseAscent},
		{"MidlineAscent", &k.Middle, b.SetMidlineAscent}, {"HorzInterspacing", &k.HInter, b.SetHorzInterspacing},
		{"VertInterspacing", &k.VInter, b.SetVertInterspacing}, {"LineGap", &k.LineGap, b.SetLineGap}}
	switch {
	case i < len(ms):
		d.call("Set"+ms[i].name, func() { ms[i].set(v) })
		d.logf("Set%s(%d)", ms[i].name, v)
		*ms[i].p = v
	case i == 10:
		reason := ""
		if v == 0 && k.Vert {
			reason = "zero width with vertical layout"
		} else if v != 0 && !k.Vert {
			reason = "no vertical layout"
		}
		if d.try(reason, fmt.Sprintf("SetVertLineWidth(%d)", v), func() error { return b.SetVertLineWidth(v) }) {
			k.VLineW = v
		}
	case i == 11:
		reason := ""
		if v != 0 && !k.Vert {
			reason = "no vertical layout"
		}
		if d.try(reason, fmt.Sprintf("SetVertLineGap(%d)", v), func() error { return b.SetVertLineGap(v) }) {
			k.VLineGap = v
		}
	default:
		k.Vert = v&1 == 1
		d.call("SetVertLayoutUsed", func() { b.SetVertLayoutUsed(k.Vert) })
		d.logf("SetVertLayoutUsed(%v)", k.Vert)
	}
}

const numMetrics = 13

func (d *driver) metricsReason() string {
	k := d.met
	switch {
	case k.Asc == 0:
		return "no ascent"
	case k.Asc <= k.XAsc:
		return "extra ascent not below ascent"
	case k.Asc < k.Middle:
		return "midline above ascent"
	case k.Asc < k.Upper:
		return "uppercase above ascent"
	case k.Middle > k.Upper:
		return "midline above uppercase"
	case k.VInter != 0 && !k.Vert:
		return "vertical interspacing without vertical layout"
	}
	return ""
}

func (d *driver) b8() uint8 {
	switch d.Intn(4) {
	case 0:
		return d.Byte()
	case 1:
		return pick(d.RNG, []uint8{0, 1, 127, 128, 254, 255})
	default:
		return uint8(d.Intn(20))
	}
}

// fixMetrics makes the metrics consistent, with setters.
func (d *driver) fixMetrics() {
	asc := d.b8()
	if asc < 2 {
		asc = 8
	}
	d.setMetric(12, d.Byte())
	d.setMetric(1, asc)
	d.setMetric(2, uint8(d.Intn(int(asc))))
	up := uint8(d.Intn(int(asc) + 1))
	d.setMetric(5, up)
	d.setMetric(6, uint8(d.Intn(int(up)+1)))
	d.setMetric(3, d.b8())
	d.setMetric(4, d.b8())
	d.setMetric(7, d.b8())
	if d.met.Vert {
		d.setMetric(8, d.b8())
		d.setMetric(10, 1+uint8(d.Intn(255)))
		d.setMetric(11, d.b8())
	} else {
		d.setMetric(8, 0)
	}
	d.setMetric(9, d.b8())
	if d.OneIn(3) {
		d.setMetric(0, d.b8())
	} else {
		d.setMetric(0, 0)
	}
}

func (d *driver) numColors() (n int) {
	for _, x := range d.dyes {
		n += len(x.Alphas)
	}
	for _, x := range d.palettes {
		n += len(x.Colors)
	}
	return n
}

func (d *driver) colorReason(name string, n int) string {
	switch {
	case len(name) == 0:
		return "empty color section name"
	case len(name) > 255:
		return "color section name too long"
	case n == 0:
		return "empty color section"
	}
	for _, x := range d.dyes {
		if x.Name == name {
			return "color section name taken"
		}
	}
	for _, x := range d.palettes {
		if x.Name == name {
			return "color section name taken"
		}
	}
	if d.numColors()+n > 255 {
		return "too many colors"
	}
	return ""
}

func (d *driver) addDye(name string, alphas []byte) {
	keep := slices.Clone(alphas)
	if d.try(d.colorReason(name, len(alphas)), fmt.Sprintf("AddDye(%q, %d alphas)", clip(name), len(alphas)), func() error { return d.b.AddDye(name, alphas...) }) {
		d.dyes = append(d.dyes, MDye{name, keep})
	}
	for i := range alphas { // the builder must not keep the caller's slice
		alphas[i] ^= 0x55
	}
}

func (d *driver) addPalette(name string, colors []color.RGBA) {
	keep := slices.Clone(colors)
	if d.try(d.colorReason(name, len(colors)), fmt.Sprintf("AddPalette(%q, %d colors)", clip(name), len(colors)), func() error { return d.b.AddPalette(name, colors...) }) {
		d.palettes = append(d.palettes, MPalette{name, keep})
	}
	for i := range colors {
		colors[i].G ^= 0x55
	}
}

func (d *driver) addGlyph(img *image.Alpha) uint64 {
	pix := pixels(img)
	k := d.met
	rect := image.Rectangle{}
	for p := range pix {
		r := image.Rect(p.X, p.Y, p.X+1, p.Y+1)
		if rect.Empty() {
			rect = r
		} else {
			rect = rect.Union(r)
		}
	}
	reason := ""
	switch {
	case len(d.glyphs) >= 56789:
		reason = "too many glyphs"
	case rect.Empty():
	case -rect.Min.Y > int(k.Asc)+int(k.XAsc):
		reason = "above ascent"
	case rect.Max.Y > int(k.Desc)+int(k.XDesc):
		reason = "below descent"
	case k.Mono != 0 && (rect.Min.X < 0 || rect.Max.X > int(k.Mono)):
		reason = "outside monospaced width"
	}
	// unlucky draws: an identifier that exists, or the reserved one
	bad := 0
	if reason == "" && d.OneIn(20) {
		bad = d.Range(1, 5)
		for i := 0; i < bad; i++ {
			v := uint64(ggfnt.GlyphMissing)
			if len(d.glyphs) > 0 && d.Bool() {
				v = pick(d.RNG, d.glyphs).uid
			}
			var b [8]byte
			for j := range b {
				b[j] = byte(v >> (8 * j))
			}
			d.det.inject = append(d.det.inject, b[:])
		}
		d.c.Count("unlucky_draws", bad)
	}
	var uid uint64
	var err error
	before := slices.Clone(img.Pix)
	d.call("AddGlyph", func() { uid, err = d.b.AddGlyph(img) })
	d.det.inject = nil
	d.logf("AddGlyph(%v, tight %v, %d unlucky draws) -> %x, %v", img.Rect, rect, bad, uid, err)
	if !bytes.Equal(before, img.Pix) {
		d.c.Failf("AddGlyph modifies the mask")
	}
	if bad > 0 && err != nil {
		d.c.Count("refused: no identifier", 1)
		return 0
	}
	if bad >= 4 && err == nil && d.byUID[uid] != nil {
		d.c.Failf("AddGlyph returned the identifier of an existing glyph")
	}
	if reason != "" {
		if err == nil {
			d.c.Failf("AddGlyph(%v, tight %v) succeeds, but must be refused: %s", img.Rect, rect, reason)
		}
		d.c.Count("refused_calls", 1)
		d.c.Count("refused: "+reason, 1)
		return 0
	}
	if err != nil {
		d.c.Failf("AddGlyph(%v, tight %v) is refused: %v (ascent %d+%d, descent %d+%d, mono %d)", img.Rect, rect, err, k.Asc, k.XAsc, k.Desc, k.XDesc, k.Mono)
	}
	if d.byUID[uid] != nil || uid == uint64(ggfnt.GlyphMissing) {
		d.c.Failf("AddGlyph returned the identifier %x, which is not free", uid)
	}
	dx := img.Rect.Dx()
	g := &bGlyph{uid: uid, place: [4]byte{byte(min(255, dx)), k.Asc, k.Desc, byte(min(255, dx/2))}, pix: pix}
	d.glyphs = append(d.glyphs, g)
	d.byUID[uid] = g
	d.images = append(d.images, img)
	return uid
}

func (d *driver) glyphReason(uids ...uint64) string {
	for _, u := range uids {
		if d.byUID[u] == nil {
			return "undefined glyph"
		}
	}
	return ""
}

func (d *driver) setPlacement(uid uint64, p [4]byte) {
	if d.try(d.glyphReason(uid), fmt.Sprintf("SetGlyphPlacement(%x, %v)", uid, p), func() error {
		return d.b.SetGlyphPlacement(uid, ggfnt.GlyphPlacement{Advance: p[0], TopAdvance: p[1], BottomAdvance: p[2], HorzCenter: p[3]})
	}) {
		d.byUID[uid].place = p
	}
}

func (d *driver) setGlyphName(uid uint64, name string) {
	reason := d.glyphReason(uid)
	if reason == "" && !basicName(name) {
		reason = "invalid name"
	}
	if d.try(reason, fmt.Sprintf("SetGlyphName(%x, %q)", uid, name), func() error { return d.b.SetGlyphName(uid, name) }) {
		d.byUID[uid].name = name
	}
}

func (d *driver) addSetting(name string, opts []string) {
	reason := ""
	if !basicName(name) {
		reason = "invalid name"
	}
	for _, o := range opts {
		if !basicName(o) {
			reason = "invalid name"
		}
	}
	for _, s := range d.settings {
		if s.name == name {
			reason = "setting name taken"
		}
	}
	switch {
	case reason != "":
	case len(opts) == 0:
		reason = "no options"
	case len(opts) > 255:
		reason = "too many options"
	case len(d.settings) >= 255:
		reason = "too many settings"
	}
	keep := slices.Clone(opts)
	var key ggfnt.SettingKey
	if d.try(reason, fmt.Sprintf("AddSetting(%q, %q)", name, opts), func() (err error) { key, err = d.b.AddSetting(name, opts...); return }) {
		if int(key) != len(d.settings) {
			d.c.Failf("AddSetting returned key %d, expected %d", key, len(d.settings))
		}
		d.settings = append(d.settings, bSetting{name, keep})
	}
	for i := range opts {
		opts[i] = "scrambled"
	}
}

func (d *driver) numCases(sw int) int {
	n := 1
	for _, s := range d.switches[sw] {
		n *= len(d.settings[s].opts)
	}
	return n
}

func (d *driver) addSwitch(settings []ggfnt.SettingKey) {
	reason := ""
	if len(settings) < 1 || len(settings) > 255 {
		reason = "bad number of settings"
	}
	seen := map[ggfnt.SettingKey]bool{}
	n := 1
	for _, s := range settings {
		if int(s) >= len(d.settings) {
			reason = "undefined setting"
			break
		}
		if seen[s] {
			reason = "repeated setting"
		}
		seen[s] = true
		n = min(1000, n*len(d.settings[s].opts))
	}
	if reason == "" && n > 254 {
		reason = "too many cases"
	}
	if reason == "" && len(d.switches) >= 254 {
		reason = "too many switches"
	}
	var keep []uint8
	for _, s := range settings {
		keep = append(keep, uint8(s))
	}
	var key uint8
	if d.try(reason, fmt.Sprintf("AddSwitch(%v)", settings), func() (err error) { key, err = d.b.AddSwitch(settings...); return }) {
		if int(key) != len(d.switches) {
			d.c.Failf("AddSwitch returned %d, expected %d", key, len(d.switches))
		}
		d.switches = append(d.switches, keep)
	}
	for i := range settings {
		settings[i] ^= 1
	}
}

func (d *driver) mapReason(cp rune, uids ...uint64) string {
	if cp < ' ' {
		return "control code point"
	}
	return d.glyphReason(uids...)
}

func (d *driver) mapOne(cp rune, uid uint64) {
	if d.try(d.mapReason(cp, uid), fmt.Sprintf("Map(%d, %x)", cp, uid), func() error { return d.b.Map(cp, uid) }) {
		d.mapping[cp] = bMapping{sw: 255, groups: [][]uint64{{uid}}, flags: []uint8{0}}
	}
}

func (d *driver) mapGroup(cp rune, flags uint8, uids []uint64) {
	reason := d.mapReason(cp, uids...)
	if reason == "" && (len(uids) < 2 || len(uids) > 127) {
		reason = "bad group size"
	}
	keep := slices.Clone(uids)
	if d.try(reason, fmt.Sprintf("MapGroup(%d, %08b, %d glyphs)", cp, flags, len(uids)), func() error { return d.b.MapGroup(cp, ggfnt.AnimationFlags(flags), uids...) }) {
		d.mapping[cp] = bMapping{sw: 254, groups: [][]uint64{keep}, flags: []uint8{flags}}
	}
	for i := range uids {
		uids[i] ^= 0xff
	}
}

func (d *driver) mapSingles(cp rune, sw uint8, uids []uint64) {
	reason := d.mapReason(cp, uids...)
	if int(sw) >= len(d.switches) {
		reason = "undefined switch"
	} else if reason == "" && len(uids) != d.numCases(int(sw)) {
		reason = "wrong number of cases"
	}
	keep := slices.Clone(uids)
	if d.try(reason, fmt.Sprintf("MapWithSwitchSingles(%d, %d, %d glyphs)", cp, sw, len(uids)), func() error { return d.b.MapWithSwitchSingles(cp, sw, uids...) }) {
		m := bMapping{sw: sw, flags: make([]uint8, len(keep))}
		for _, u := range keep {
			m.groups = append(m.groups, []uint64{u})
		}
		d.mapping[cp] = m
	}
	for i := range uids {
		uids[i] ^= 0xff
	}
}

func (d *driver) mapSwitch(cp rune, sw uint8, groups [][]uint64, flags []ggfnt.AnimationFlags) {
	reason := d.mapReason(cp)
	if int(sw) >= len(d.switches) {
		reason = "undefined switch"
	} else if reason == "" && len(groups) != d.numCases(int(sw)) {
		reason = "wrong number of cases"
	}
	m := bMapping{sw: sw}
	multi := 0
	for _, g := range groups {
		if len(g) > 127 && reason == "" {
			reason = "bad group size"
		}
		if reason == "" {
			reason = d.glyphReason(g...)
		}
		f := uint8(0)
		if len(g) > 1 {
			if multi < len(flags) {
				f = uint8(flags[multi])
			}
			multi++
		}
		m.groups = append(m.groups, slices.Clone(g))
		m.flags = append(m.flags, f)
	}
	if reason == "" && multi != len(flags) {
		reason = "wrong number of animation flags"
	}
	if d.try(reason, fmt.Sprintf("MapWithSwitch(%d, %d, %d groups, %d flags)", cp, sw, len(groups), len(flags)), func() error { return d.b.MapWithSwitch(cp, sw, groups, flags) }) {
		d.mapping[cp] = m
	}
	for i := range groups {
		for j := range groups[i] {
			groups[i][j] ^= 0xff
		}
		groups[i] = nil
	}
	for i := range flags {
		flags[i] ^= 0xff
	}
}

func (d *driver) setKern(a, b uint64, v int8) {
	d.call("SetKerningPair", func() { d.b.SetKerningPair(a, b, v) })
	d.logf("SetKerningPair(%x, %x, %d)", a, b, v)
	if v == 0 {
		delete(d.kern, [2]uint64{a, b})
	} else {
		d.kern[[2]uint64{a, b}] = bKern{value: v}
	}
}

// --- sets and rules ----------------------------------------------------------

func (d *driver) set(uid uint64) *bSet {
	for _, s := range d.sets {
		if s.uid == uid {
			return s
		}
	}
	return nil
}

func (d *driver) runeSet(uid uint64) *bRuneSet {
	for _, s := range d.runeSets {
		if s.uid == uid {
			return s
		}
	}
	return nil
}

func (d *driver) createSet() uint64 {
	reason := ""
	if len(d.sets) >= 255 {
		reason = "too many sets"
	}
	if reason == "" && len(d.sets) > 0 && d.OneIn(30) { // an unlucky draw
		var b [8]byte
		v := pick(d.RNG, d.sets).uid
		for j := range b {
			b[j] = byte(v >> (8 * j))
		}
		d.det.inject = [][]byte{b[:]}
		var uid uint64
		var err error
		d.call("CreateGlyphSet", func() { uid, err = d.b.CreateGlyphSet() })
		d.det.inject = nil
		d.logf("CreateGlyphSet with an unlucky draw -> %x, %v", uid, err)
		if err != nil {
			d.c.Count("refused: no identifier", 1)
			return 0
		}
		if d.set(uid) != nil {
			d.c.Failf("CreateGlyphSet returned the identifier of an existing set")
		}
		d.sets = append(d.sets, &bSet{uid: uid})
		return uid
	}
	var uid uint64
	if d.try(reason, "CreateGlyphSet", func() (err error) { uid, err = d.b.CreateGlyphSet(); return }) {
		if d.set(uid) != nil {
			d.c.Failf("CreateGlyphSet returned the identifier of an existing set")
		}
		d.sets = append(d.sets, &bSet{uid: uid})
		return uid
	}
	return 0
}

func (d *driver) boolCall(what string, want bool, fn func() bool) {
	var got bool
	d.call(what, func() { got = fn() })
	d.logf("%s -> %v", what, got)
	if got != want {
		d.c.Failf("%s: got %v, expected %v", what, got, want)
	}
}

func (d *driver) removeSet(uid uint64) {
	i := slices.IndexFunc(d.sets, func(s *bSet) bool { return s.uid == uid })
	d.boolCall(fmt.Sprintf("RemoveGlyphSet(%x)", uid), i >= 0, func() bool { return d.b.RemoveGlyphSet(uid) })
	if i >= 0 {
		d.sets = slices.Delete(d.sets, i, i+1)
		d.removedSets = append(d.removedSets, uid)
	}
}

func (d *driver) addSetRange(set, a, b uint64) {
	s := d.set(set)
	reason := ""
	switch {
	case s == nil:
		reason = "undefined set"
	case len(s.ranges) >= 255:
		reason = "too many ranges"
	case d.glyphReason(a, b) != "":
		reason = "undefined glyph"
	case slices.Contains(s.ranges, [2]uint64{a, b}):
		reason = "repeated range"
	}
	if d.try(reason, fmt.Sprintf("AddGlyphSetRange(%x, %x, %x)", set, a, b), func() error { return d.b.AddGlyphSetRange(set, a, b) }) {
		s.ranges = append(s.ranges, [2]uint64{a, b})
	}
}

func (d *driver) removeSetRange(set, a, b uint64) {
	s := d.set(set)
	i := -1
	if s != nil {
		i = slices.Index(s.ranges, [2]uint64{a, b})
	}
	d.boolCall(fmt.Sprintf("RemoveGlyphSetRange(%x, %x, %x)", set, a, b), i >= 0, func() bool { return d.b.RemoveGlyphSetRange(set, a, b) })
	if i >= 0 {
		s.ranges = slices.Delete(s.ranges, i, i+1)
	}
}

func (d *driver) addSetGlyph(set, a uint64) {
	s := d.set(set)
	reason := ""
	switch {
	case s == nil:
		reason = "undefined set"
	case len(s.list) >= 255:
		reason = "too many set elements"
	case d.glyphReason(a) != "":
		reason = "undefined glyph"
	case slices.Contains(s.list, a):
		reason = "repeated set element"
	}
	if d.try(reason, fmt.Sprintf("AddGlyphSetListGlyph(%x, %x)", set, a), func() error { return d.b.AddGlyphSetListGlyph(set, a) }) {
		s.list = append(s.list, a)
	}
}

func (d *driver) removeSetGlyph(set, a uint64) {
	s := d.set(set)
	i := -1
	if s != nil {
		i = slices.Index(s.list, a)
	}
	d.boolCall(fmt.Sprintf("RemoveGlyphSetListGlyph(%x, %x)", set, a), i >= 0, func() bool { return d.b.RemoveGlyphSetListGlyph(set, a) })
	if i >= 0 {
		s.list = slices.Delete(s.list, i, i+1)
	}
}

func (d *driver) runeSetOp() {
	b := d.b
	uid := d.U64()
	if len(d.runeSets) > 0 && !d.OneIn(8) {
		uid = pick(d.RNG, d.runeSets).uid
	}
	s := d.runeSet(uid)
	x, y := rune(d.Intn(6)), rune(d.Intn(6))
	switch d.Intn(8) {
	case 0, 1:
		x, y = d.Rune(), d.Rune()
	case 2: // ranges of one rune or a few, anywhere in the first codes
		x = rune(d.Intn(300))
		y = x + rune(d.Intn(3))
	}
	if x > y && !d.OneIn(5) {
		x, y = y, x
	}
	switch d.Intn(6) {
	case 0:
		d.createRuneSet()
	case 1:
		if d.OneIn(3) {
			d.removeRuneSet(uid)
		}
	case 2:
		reason := ""
		switch {
		case s == nil:
			reason = "undefined set"
		case x > y:
			reason = "reversed range"
		case slices.Contains(s.ranges, [2]rune{x, y}):
			reason = "repeated range"
		}
		if d.try(reason, fmt.Sprintf("AddRuneSetRange(%x, %d, %d)", uid, x, y), func() error { return b.AddRuneSetRange(uid, x, y) }) {
			s.ranges = append(s.ranges, [2]rune{x, y})
		}
	case 3:
		i := -1
		if s != nil {
			if len(s.ranges) > 0 && d.Bool() {
				p := pick(d.RNG, s.ranges)
				x, y = p[0], p[1]
			}
			i = slices.Index(s.ranges, [2]rune{x, y})
		}
		d.boolCall(fmt.Sprintf("RemoveRuneSetRange(%x, %d, %d)", uid, x, y), i >= 0, func() bool { return b.RemoveRuneSetRange(uid, x, y) })
		if i >= 0 {
			s.ranges = slices.Delete(s.ranges, i, i+1)
		}
	case 4:
		reason := ""
		switch {
		case s == nil:
			reason = "undefined set"
		case slices.Contains(s.list, x):
			reason = "repeated set element"
		}
		if d.try(reason, fmt.Sprintf("AddRuneSetListRune(%x, %d)", uid, x), func() error { return b.AddRuneSetListRune(uid, x) }) {
			s.list = append(s.list, x)
		}
	case 5:
		i := -1
		if s != nil {
			i = slices.Index(s.list, x)
		}
		d.boolCall(fmt.Sprintf("RemoveRuneSetListRune(%x, %d)", uid, x), i >= 0, func() bool { return b.RemoveRuneSetListRune(uid, x) })
		if i >= 0 {
			s.list = slices.Delete(s.list, i, i+1)
		}
	}
}

func (d *driver) createRuneSet() {
	b := d.b
	var got uint64
	if len(d.runeSets) > 0 && len(d.runeSets) < 255 && d.OneIn(10) {
		var bb [8]byte
		v := pick(d.RNG, d.runeSets).uid
		for j := range bb {
			bb[j] = byte(v >> (8 * j))
		}
		d.det.inject = [][]byte{bb[:]}
		var err error
		d.call("CreateRuneSet", func() { got, err = b.CreateRuneSet() })
		d.det.inject = nil
		if err == nil {
			if d.runeSet(got) != nil {
				d.c.Failf("CreateRuneSet returned the identifier of an existing set")
			}
			d.runeSets = append(d.runeSets, &bRuneSet{uid: got})
		}
		return
	}
	reason := ""
	if len(d.runeSets) >= 255 {
		reason = "too many sets"
	}
	if d.try(reason, "CreateRuneSet", func() (err error) { got, err = b.CreateRuneSet(); return }) {
		d.runeSets = append(d.runeSets, &bRuneSet{uid: got})
	}
}

func (d *driver) removeRuneSet(uid uint64) {
	i := slices.IndexFunc(d.runeSets, func(s *bRuneSet) bool { return s.uid == uid })
	d.boolCall(fmt.Sprintf("RemoveRuneSet(%x)", uid), i >= 0, func() bool { return d.b.RemoveRuneSet(uid) })
	if i >= 0 {
		d.runeSets = slices.Delete(d.runeSets, i, i+1)
	}
}

func (d *driver) addRule(h, b, t int, in, out []uint64) {
	reason := ""
	switch {
	case b == 0:
		reason = "empty rule body"
	case h+b+t > 255:
		reason = "rule too long"
	case h+b+t != len(in):
		reason = "rule lengths do not match"
	case len(out) == 0 || len(out) > b:
		reason = "bad rule output length"
	case d.glyphReason(out...) != "":
		reason = "undefined glyph"
	case len(d.rules) >= 65535:
		reason = "too many rules"
	default:
		for _, u := range in {
			if d.byUID[u] == nil && d.set(u) == nil {
				reason = "undefined rule input"
			}
		}
	}
	ki, ko := slices.Clone(in), slices.Clone(out)
	if d.try(reason, fmt.Sprintf("AddGlyphRewriteRule(%d, %d, %d, %d inputs, %d outputs)", h, b, t, len(in), len(out)), func() error {
		return d.b.AddGlyphRewriteRule(uint8(h), uint8(b), uint8(t), in, out...)
	}) {
		d.rules = append(d.rules, bRule{h, b, t, ki, ko})
	}
	for i := range in {
		in[i] ^= 0xff
	}
	for i := range out {
		out[i] ^= 0xff
	}
}

func (d *driver) addRuneRule(out rune, seq []rune) {
	reason := ""
	switch {
	case len(seq) == 0:
		reason = "empty rule body"
	case len(seq) > 255:
		reason = "rule too long"
	case len(d.runeRules) >= 65535:
		reason = "too many rules"
	}
	keep := slices.Clone(seq)
	if d.try(reason, fmt.Sprintf("AddSimpleUtf8RewriteRule(%d, %d runes)", out, len(seq)), func() error { return d.b.AddSimpleUtf8RewriteRule(out, seq...) }) {
		d.runeRules = append(d.runeRules, bRuneRule{keep, out})
		d.runeEst += 10 + 4*len(keep)
	}
	for i := range seq {
		seq[i] ^= 0xff
	}
}

// --- edition data --------------------------------------------------------------

type editionPair struct{ a, b, class uint16 }

type edition struct {
	id         uint64
	categories []string
	sizes      []uint16
	classes    []bClass
	horz, vert []editionPair
	conds      []string
}

func (e *edition) encode() []byte {
	w := wbuf{}
	w.u64(e.id)
	w.u8(len(e.categories))
	for _, s := range e.categories {
		w.short(s)
	}
	for _, s := range e.sizes {
		w.u16(int(s))
	}
	w.u16(len(e.classes))
	for _, s := range e.classes {
		w.short(s.name)
	}
	for _, s := range e.classes {
		w.u8(int(uint8(s.value)))
	}
	for _, t := range [][]editionPair{e.horz, e.vert} {
		w.u24(len(t))
		for _, p := range t {
			w.u16(int(p.a))
			w.u16(int(p.b))
			w.u16(int(p.class))
		}
	}
	w.u8(len(e.conds))
	for _, s := range e.conds {
		w.short(s)
	}
	return w.b
}

func packEdition(raw []byte, level int) []byte {
	var b bytes.Buffer
	b.WriteString("wkgfnt")
	zw, _ := gzip.NewWriterLevel(&b, level)
	zw.Write(raw)
	zw.Close()
	return b.Bytes()
}

func (r *RNG) spacedName() string {
	n := r.Range(1, 20)
	if r.OneIn(4) {
		n = pick(r, []int{1, 31, 32})
	}
	const chars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789- "
	b := make([]byte, n)
	for i := range b {
		b[i] = chars[r.Intn(len(chars))]
	}
	return string(b)
}

func (d *driver) edition() *edition {
	e := &edition{id: d.id}
	for i := d.Skew(12); i > 0; i-- {
		e.categories = append(e.categories, d.spacedName())
		e.sizes = append(e.sizes, uint16(d.Skew(60)))
	}
	if d.OneIn(20) {
		for len(e.categories) < 255 {
			e.categories = append(e.categories, d.spacedName())
			e.sizes = append(e.sizes, uint16(d.Skew(60)))
		}
	}
	n := d.Skew(10)
	if d.OneIn(20) {
		n = d.Range(250, 700)
	}
	for i := 0; i < n; i++ {
		v := int8(d.Byte())
		if d.OneIn(6) {
			v = 0
		}
		e.classes = append(e.classes, bClass{d.spacedName(), v})
	}
	if n > 0 && len(d.glyphs) > 0 {
		for _, t := range []*[]editionPair{&e.horz, &e.vert} {
			for i := d.Skew(30); i > 0; i-- {
				p := editionPair{uint16(d.Intn(len(d.glyphs))), uint16(d.Intn(len(d.glyphs))), uint16(1 + d.Intn(n))}
				if d.OneIn(3) && len(d.kern) > 0 { // a pair that has a value already
					ks := d.kernPairs()
					k := ks[d.Intn(len(ks))]
					p.a, p.b = uint16(d.indexOf(k[0])), uint16(d.indexOf(k[1]))
				}
				*t = append(*t, p)
			}
		}
	}
	return e
}

// kernPairs lists the pairs in an order independent of map iteration.
func (d *driver) kernPairs() [][2]uint64 {
	var ks [][2]uint64
	for k := range d.kern {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		return ks[i][0] < ks[j][0] || ks[i][0] == ks[j][0] && ks[i][1] < ks[j][1]
	})
	return ks
}

func (d *driver) indexOf(uid uint64) int {
	return slices.IndexFunc(d.glyphs, func(g *bGlyph) bool { return g.uid == uid })
}

func (d *driver) clearEditionModel() {
	d.classes = nil
	for _, t := range []map[[2]uint64]bKern{d.kern, d.vkern} {
		for k, v := range t {
			if v.value == 0 {
				delete(t, k)
			} else {
				t[k] = bKern{value: v.value}
			}
		}
	}
}

func (d *driver) applyEdition(e *edition) {
	d.classes = e.classes
	for i, t := range []map[[2]uint64]bKern{d.kern, d.vkern} {
		for _, p := range [][]editionPair{e.horz, e.vert}[i] {
			k := [2]uint64{d.glyphs[p.a].uid, d.glyphs[p.b].uid}
			v := t[k]
			v.class = int(p.class)
			t[k] = v
		}
	}
}

func (k bKern) effective(classes []bClass) int8 {
	if k.class != 0 {
		return classes[k.class-1].value
	}
	return k.value
}

// --- observation -----------------------------------------------------------------

func (d *driver) observe(after string) {
	if d.noObs {
		return
	}
	c, b := d.c, d.b
	ck := func(what string, got, want any) {
		if got != want {
			c.Failf("after %s: %s is %v, expected %v", clip(after), what, clip(fmt.Sprint(got)), clip(fmt.Sprint(want)))
		}
	}
	d.call("queries", func() {
		ck("GetFontID", b.GetFontID(), d.id)
		ck("GetFontIDStr", b.GetFontIDStr(), fmt.Sprintf("%016X", d.id))
		ck("GetVersionMajor", b.GetVersionMajor(), d.major)
		ck("GetVersionMinor", b.GetVersionMinor(), d.minor)
		ck("GetVersionStr", b.GetVersionStr(), fmt.Sprintf("v%d.%02d", d.major, d.minor))
		ck("GetFirstVerDate", dateOf(b.GetFirstVerDate()), d.dates[0])
		ck("GetMajorVerDate", dateOf(b.GetMajorVerDate()), d.dates[1])
		ck("GetMinorVerDate", dateOf(b.GetMinorVerDate()), d.dates[2])
		ck("GetName", b.GetName(), d.name)
		ck("GetFamily", b.GetFamily(), d.family)
		ck("GetAuthor", b.GetAuthor(), d.author)
		ck("GetAbout", b.GetAbout(), d.abut)
		ck("GetNumGlyphs", b.GetNumGlyphs(), len(d.glyphs))
		k := d.met
		ck("GetMonoWidth", b.GetMonoWidth(), k.Mono)
		ck("GetAscent", b.GetAscent(), k.Asc)
		ck("GetExtraAscent", b.GetExtraAscent(), k.XAsc)
		ck("GetDescent", b.GetDescent(), k.Desc)
		ck("GetExtraDescent", b.GetExtraDescent(), k.XDesc)
		ck("GetUppercaseAscent", b.GetUppercaseAscent(), k.Upper)
		ck("GetMidlineAscent", b.GetMidlineAscent(), k.Middle)
		ck("GetHorzInterspacing", b.GetHorzInterspacing(), k.HInter)
		ck("GetVertInterspacing", b.GetVertInterspacing(), k.VInter)
		ck("GetLineGap", b.GetLineGap(), k.LineGap)
		ck("GetVertLineWidth", b.GetVertLineWidth(), k.VLineW)
		ck("GetVertLineGap", b.GetVertLineGap(), k.VLineGap)
		ck("consistency of the metrics", b.GetMetricsStatus() == nil, d.metricsReason() == "")
		idx := 255
		for _, x := range d.dyes {
			var got []byte
			err := b.EachDyeAlpha(x.Name, func(a, i uint8) {
				ck("dye color index", int(i), idx)
				idx--
				got = append(got, a)
			})
			ck("EachDyeAlpha error", err, nil)
			ck("alphas of "+x.Name, string(got), string(x.Alphas))
			if b.EachPaletteColor(x.Name, func(color.RGBA, uint8) {}) == nil {
				c.Failf("EachPaletteColor finds the dye %q", x.Name)
			}
		}
		for _, x := range d.palettes {
			var got []color.RGBA
			err := b.EachPaletteColor(x.Name, func(a color.RGBA, i uint8) {
				ck("palette color index", int(i), idx)
				idx--
				got = append(got, a)
			})
			ck("EachPaletteColor error", err, nil)
			ck("colors of "+x.Name, fmt.Sprint(got), fmt.Sprint(x.Colors))
			if b.EachDyeAlpha(x.Name, func(uint8, uint8) {}) == nil {
				c.Failf("EachDyeAlpha finds the palette %q", x.Name)
			}
		}
		if d.colorReason("no-such-name", 1) != "color section name taken" {
			if b.EachDyeAlpha("no-such-name", func(uint8, uint8) {}) == nil || b.EachPaletteColor("no-such-name", func(color.RGBA, uint8) {}) == nil {
				c.Failf("an undefined color section is found")
			}
		}
		for _, s := range d.sets {
			var r [][2]uint64
			var l []uint64
			b.EachGlyphSetRange(s.uid, func(x, y uint64) { r = append(r, [2]uint64{x, y}) })
			b.EachGlyphSetListGlyph(s.uid, func(x uint64) { l = append(l, x) })
			if !slices.Equal(r, s.ranges) || !slices.Equal(l, s.list) {
				c.Failf("after %s: glyph set %x is %x %x, expected %x %x", clip(after), s.uid, r, l, s.ranges, s.list)
			}
		}
		for _, u := range d.removedSets {
			n := 0
			b.EachGlyphSetRange(u, func(x, y uint64) { n++ })
			b.EachGlyphSetListGlyph(u, func(x uint64) { n++ })
			ck("content of a removed set", n, 0)
		}
		if u := uint64(d.ops)*0x9E3779B97F4A7C15 + 1; d.runeSet(u) == nil && d.set(u) == nil {
			n := 0
			b.EachRuneSetRange(u, func(x, y rune) { n++ })
			b.EachRuneSetListRune(u, func(x rune) { n++ })
			b.EachGlyphSetRange(u, func(x, y uint64) { n++ })
			b.EachGlyphSetListGlyph(u, func(x uint64) { n++ })
			ck("content of an undefined set", n, 0)
		}
		for _, s := range d.runeSets {
			var r [][2]rune
			var l []rune
			b.EachRuneSetRange(s.uid, func(x, y rune) { r = append(r, [2]rune{x, y}) })
			b.EachRuneSetListRune(s.uid, func(x rune) { l = append(l, x) })
			if !slices.Equal(r, s.ranges) || !slices.Equal(l, s.list) {
				c.Failf("after %s: rune set %x is %v %v, expected %v %v", clip(after), s.uid, r, l, s.ranges, s.list)
			}
		}
	})
	c.Count("builder_states_compared", 1)
}

// --- expectation of a build --------------------------------------------------------

func (d *driver) buildReason() string {
	if len(d.glyphs) == 0 {
		return "no glyphs"
	}
	if r := d.metricsReason(); r != "" {
		return r
	}
	names := map[string]bool{}
	idx := map[uint64]int{}
	for i, g := range d.glyphs {
		if g.name != "" && names[g.name] {
			return "duplicated glyph name"
		}
		names[g.name] = true
		idx[g.uid] = i
	}
	words := map[string]bool{}
	for _, s := range d.settings {
		for _, o := range s.opts {
			words[o] = true
		}
	}
	if len(words) > 255 {
		return "too many words"
	}
	if len(d.mapping) > 56789 {
		return "too many mapping entries"
	}
	size := 0
	for _, m := range d.mapping {
		size += d.mappingSize(m, idx)
	}
	if size > 0xffffff {
		return "too much mapping data"
	}
	size = 0
	for _, s := range d.sets {
		size += 2 + 3*len(s.ranges) + 2*len(s.list)
		for _, r := range s.ranges {
			if idx[r[1]] < idx[r[0]] {
				return "reversed set range"
			}
			if idx[r[1]]-idx[r[0]] > 255 {
				return "set range too long"
			}
		}
	}
	if size > 65535 {
		return "too much set data"
	}
	size = 0
	for _, r := range d.rules {
		size += len(encodeRule(d.ruleModel(r, idx), true))
		for _, u := range r.in {
			if d.byUID[u] == nil && d.set(u) == nil {
				return "rule with a removed set"
			}
		}
	}
	if size > 0xffffff {
		return "too much rule data"
	}
	if d.runeEst > 0xffffff/2 {
		size = 0
		for _, r := range d.runeRules {
			size += len(encodeRule(runeRuleModel(r), false))
		}
		if size > 0xffffff {
			return "too much rule data"
		}
	}
	return ""
}

func (d *driver) mappingSize(m bMapping, idx map[uint64]int) int {
	if m.sw == 255 {
		return 3
	}
	n := 1
	for _, g := range m.groups {
		if len(g) == 1 {
			n += 3
			continue
		}
		n += 2 + 2*len(g)
		cont := true
		for i := 1; i < len(g); i++ {
			if idx[g[i]] != idx[g[i-1]]+1 {
				cont = false
				break
			}
		}
		if cont { // stored as a range
			n -= 2*len(g) - 2
		}
	}
	return n
}

func (d *driver) ruleModel(r bRule, idx map[uint64]int) MRule {
	u := MRule{Cond: 255}
	for _, o := range r.out {
		u.Out = append(u.Out, int32(idx[o]))
	}
	var in []MElem
	for _, x := range r.in {
		if d.byUID[x] != nil {
			in = append(in, MElem{false, int32(idx[x])})
		} else {
			in = append(in, MElem{true, int32(slices.IndexFunc(d.sets, func(s *bSet) bool { return s.uid == x }))})
		}
	}
	u.Head, u.Body, u.Tail = in[:r.head], in[r.head:r.head+r.body], in[r.head+r.body:]
	return u
}

func runeRuleModel(r bRuneRule) MRule {
	u := MRule{Cond: 255, Out: []int32{r.out}}
	for _, x := range r.seq {
		u.Body = append(u.Body, MElem{false, x})
	}
	return u
}

// expected translates the driver's model into the model of the font a build
// must give, except for the words table, which the builder chooses.
func (d *driver) expected() (*Model, []map[image.Point]uint8) {
	m := &Model{Version: ggfnt.FormatVersion, ID: d.id, Major: d.major, Minor: d.minor, Dates: d.dates, Name: d.name, Family: d.family, Author: d.author, Abut: d.abut, Met: d.met}
	m.Met.NumGlyphs = uint16(len(d.glyphs))
	m.Dyes = d.dyes
	m.Palettes = d.palettes
	if len(m.Dyes)+len(m.Palettes) == 0 {
		m.Dyes = []MDye{{"main", []byte{255}}}
	}
	idx := map[uint64]int{}
	var masks []map[image.Point]uint8
	for i, g := range d.glyphs {
		idx[g.uid] = i
		m.Glyphs = append(m.Glyphs, MGlyph{Name: g.name, Place: g.place})
		masks = append(masks, g.pix)
	}
	m.Switches = d.switches
	var cps []rune
	for cp := range d.mapping {
		cps = append(cps, cp)
	}
	slices.Sort(cps)
	for _, cp := range cps {
		x := d.mapping[cp]
		e := MMapping{Rune: cp, Switch: x.sw}
		for i, g := range x.groups {
			o := MGroup{Flags: x.flags[i]}
			for _, u := range g {
				o.Glyphs = append(o.Glyphs, uint16(idx[u]))
			}
			e.Groups = append(e.Groups, o)
		}
		m.Mappings = append(m.Mappings, e)
	}
	for _, s := range d.sets {
		var o MSet
		for _, r := range s.ranges {
			o.Ranges = append(o.Ranges, MRange{int32(idx[r[0]]), byte(idx[r[1]] - idx[r[0]])})
		}
		for _, u := range s.list {
			o.List = append(o.List, int32(idx[u]))
		}
		m.GlyphSets = append(m.GlyphSets, o)
	}
	for _, r := range d.runeRules {
		m.RuneRules = append(m.RuneRules, runeRuleModel(r))
	}
	for _, r := range d.rules {
		m.GlyphRules = append(m.GlyphRules, d.ruleModel(r, idx))
	}
	m.Kern, m.VKern = map[KPair]int8{}, map[KPair]int8{}
	for i, t := range []map[[2]uint64]bKern{d.kern, d.vkern} {
		o := []map[KPair]int8{m.Kern, m.VKern}[i]
		for k, v := range t {
			o[KPair{uint16(idx[k[0]]), uint16(idx[k[1]])}] = v.effective(d.classes)
		}
	}
	return m, masks
}

// build builds and, if that must succeed, returns the font and the model of it.
func (d *driver) build() (*ggfnt.Font, *Model, []map[image.Point]uint8) {
	for len(d.runeSets) > 0 { // encoding them is declared unimplemented
		d.removeRuneSet(d.runeSets[0].uid)
	}
	reason := d.buildReason()
	var f *ggfnt.Font
	var err error
	d.call("Build", func() { f, err = d.b.Build() })
	d.logf("Build -> %v", err)
	d.checkKept()
	if reason != "" {
		if err == nil {
			d.c.Failf("Build succeeds, but must fail: %s", reason)
		}
		d.c.Count("failed_builds", 1)
		d.c.Count("failed build: "+reason, 1)
		return nil, nil, nil
	}
	if err != nil {
		d.c.Failf("Build fails: %v", err)
	}
	d.c.Count("builds", 1)
	d.keepBuilt(f)
	m, masks := d.expected()
	d.takeWords(f.Data, m)
	return f, m, masks
}

// takeWords takes over the words table of a built font, checking that the
// options refer to the right words.
func (d *driver) takeWords(raw []byte, m *Model) {
	dec, err := decode(raw)
	if err != nil {
		d.c.Failf("the built font does not follow the format: %v", err)
	}
	if len(dec.Settings) != len(d.settings) {
		d.c.Failf("the built font has %d settings, expected %d", len(dec.Settings), len(d.settings))
	}
	m.Words = dec.Words
	for i, s := range d.settings {
		o := dec.Settings[i].Options
		if len(o) != len(s.opts) {
			d.c.Failf("setting %d has %d options, expected %d", i, len(o), len(s.opts))
		}
		for j, w := range o {
			got := ggfnt.GetPredefinedWord(w)
			if int(w) < len(dec.Words) {
				got = dec.Words[w]
			}
			if got != s.opts[j] {
				d.c.Failf("option %d of setting %q is the word %q, expected %q", j, s.name, got, s.opts[j])
			}
		}
		m.Settings = append(m.Settings, MSetting{s.name, o})
	}
	if m.rulesString() != dec.rulesString() {
		d.c.Failf("the rules of the built font differ:\n%s\nexpected:\n%s", clip(dec.rulesString()), clip(m.rulesString()))
	}
}

func (m *Model) rulesString() string {
	if len(m.RuneRules)+len(m.GlyphRules) > 2000 {
		return "" // compared by the accessor monitors
	}
	return fmt.Sprint(m.RuneRules, m.GlyphRules)
}

func checkBuilt(c *Ctx, f *ggfnt.Font, m *Model, masks []map[image.Point]uint8) {
	checkHeader(c, f, m)
	checkMetrics(c, f, m)
	checkColor(c, f, m)
	checkNames(c, f, m)
	checkGlyphs(c, f, m, masks)
	checkSettings(c, f, m)
	checkMapping(c, f, m, 2)
	checkConditions(c, f, m, 2)
	checkRewrites(c, f, m, false)
	checkKerning(c, f, m)
}

// --- random operations ------------------------------------------------------------------

func (d *driver) uid() uint64 {
	if len(d.glyphs) == 0 || d.OneIn(150) {
		return d.U64()
	}
	return pick(d.RNG, d.glyphs).uid
}

func (d *driver) uids(n int) []uint64 {
	out := make([]uint64, n)
	if len(d.glyphs) > n && d.OneIn(2) { // consecutive
		at := d.Intn(len(d.glyphs) - n)
		for i := range out {
			out[i] = d.glyphs[at+i].uid
		}
		if d.OneIn(4) && n > 1 { // almost consecutive
			i := d.Intn(n)
			out[i] = pick(d.RNG, d.glyphs).uid
		} else if d.OneIn(5) {
			slices.Reverse(out)
		}
		return out
	}
	for i := range out {
		if len(d.glyphs) == 0 {
			out[i] = d.U64()
		} else {
			out[i] = pick(d.RNG, d.glyphs).uid
		}
	}
	if d.OneIn(40) && n > 0 {
		out[d.Intn(n)] = d.U64()
	}
	return out
}

func (d *driver) glyphMask() *image.Alpha {
	k := d.met
	up, down := int(k.Asc)+int(k.XAsc), int(k.Desc)+int(k.XDesc)
	w, h := 1+d.Skew(11), 1+d.Skew(11)
	if d.OneIn(60) {
		w = pick(d.RNG, []int{d.Range(200, 320), d.Range(505, 540)})
		h = 1 + d.Intn(3)
	}
	if h > up+down && !d.OneIn(8) {
		h = max(1, up+down)
	}
	lo, hi := -up, down-h // range of Min.Y
	if d.OneIn(12) {
		lo, hi = lo-2, hi+2
	}
	lo, hi = max(lo, -h-20), min(hi, 20)
	if hi < lo {
		hi = lo
	}
	y := d.Range(lo, hi)
	x := d.Range(-3, 3)
	if k.Mono != 0 && !d.OneIn(8) {
		if w > int(k.Mono) {
			w = int(k.Mono)
		}
		x = d.Intn(int(k.Mono) - w + 1)
	}
	img := d.MaskSize(w, h)
	img.Rect = image.Rect(x, y, x+w, y+h)
	return img
}

func (d *driver) anyName(max int) string {
	if d.OneIn(12) {
		return pick(d.RNG, []string{"", "-", "-a", "a-", "a--b", "a b", "a_b", "ñ", "a\x00", string(bytes.Repeat([]byte("x"), 33)), "a.b", "a\xff"})
	}
	if d.OneIn(16) { // as long as possible, different in the last character
		return string(bytes.Repeat([]byte("x"), pick(d.RNG, []int{30, 31, 31}))) + string(rune('v'+d.Intn(5)))
	}
	return d.BasicName(max)
}

func (d *driver) word() string {
	switch d.Intn(4) {
	case 0:
		return ggfnt.GetPredefinedWord(d.Byte())
	case 1:
		return ggfnt.GetPredefinedWord(uint8(10 + d.Intn(20)))
	}
	return d.BasicName(8)
}

func (d *driver) text(max int) string {
	switch d.Intn(13) {
	case 12:
		s := " "
		for n := d.Skew(20); n > 0; n-- {
			s += string(pick(d.RNG, []rune{' ', '~', 0x7f, 0x80, 0x9f, 0xa0, 0x2028, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff}))
		}
		return s
	case 0:
		return "tab\tbed"
	case 1:
		return "bad\xffutf8"
	case 2:
		return ""
	case 3:
		return string(bytes.Repeat([]byte("é"), max/2+d.Intn(3)))
	case 4:
		return string(bytes.Repeat([]byte("z"), max+d.Range(-1, 1)))
	case 5:
		return "日本語 \u007f\u0085 ~"
	case 6:
		return "x\u001f"
	}
	b := []byte(d.Text(min(max, 300)))
	for i := range b {
		if b[i] < 32 || b[i] >= 127 {
			b[i] = 'q'
		}
	}
	return string(b)
}

func (d *driver) cp() rune {
	if d.OneIn(30) {
		return pick(d.RNG, []rune{-1, 0, 31, -0x80000000})
	}
	cp := d.Rune()
	if cp < 32 {
		cp = 32 + rune(d.Intn(200))
	}
	if len(d.mapping) > 0 && d.OneIn(6) { // remap
		cps := make([]rune, 0, len(d.mapping))
		for k := range d.mapping {
			cps = append(cps, k)
		}
		slices.Sort(cps)
		cp = pick(d.RNG, cps)
	}
	return cp
}

// Areas of operations and their weights.
var focusWeights = map[string][8]int{
	//            header metrics color glyphs settings mapping rewrite kerning
	"":        {2, 2, 3, 10, 4, 10, 10, 8},
	"header":  {20, 15, 1, 3, 1, 1, 1, 1},
	"color":   {1, 1, 30, 2, 1, 1, 1, 1},
	"glyphs":  {1, 3, 2, 40, 1, 2, 1, 2},
	"set":     {1, 1, 2, 4, 30, 6, 1, 1},
	"mapping": {1, 1, 1, 8, 8, 30, 1, 1},
	"rewrite": {1, 1, 1, 8, 1, 1, 40, 1},
	"kerning": {1, 1, 1, 8, 1, 1, 1, 40},
}

func (d *driver) step(focus string) {
	w := focusWeights[focus]
	total := 0
	for _, x := range w {
		total += x
	}
	n := d.Intn(total)
	area := 0
	for n >= w[area] {
		n -= w[area]
		area++
	}
	if len(d.glyphs) < 3 && d.Bool() {
		area = 3
	}
	switch area {
	case 0:
		switch d.Intn(4) {
		case 0:
			d.setVersion(d.Intn(3), uint16(d.Skew(65535)), uint16(d.Skew(65535)))
		case 1:
			v := d.Date()
			if d.OneIn(4) {
				v = MDate{uint16(d.Skew(3000)), uint8(d.Skew(14)), uint8(d.Skew(33))}
			}
			d.setDate(d.Intn(3), v)
		default:
			i := d.Intn(4)
			max := 255
			if i == 3 && d.OneIn(4) {
				max = 65535
			}
			d.setText(i, d.text(max))
		}
	case 1:
		if d.OneIn(3) {
			d.fixMetrics()
		} else {
			d.setMetric(d.Intn(numMetrics), d.b8())
		}
	case 2:
		name := d.text(255)
		if d.Bool() {
			name = d.BasicName(3) // collisions
		}
		if len(d.dyes) > 0 && d.OneIn(10) {
			name = pick(d.RNG, d.dyes).Name
		}
		n := d.Skew(12)
		if d.OneIn(12) {
			n = 255 - d.numColors() + d.Range(-1, 1)
		}
		n = max(0, min(n, 300))
		if d.Bool() {
			d.addDye(name, d.Bytes(n))
		} else {
			cs := make([]color.RGBA, n)
			for i := range cs {
				cs[i] = color.RGBA{d.Byte(), d.Byte(), d.Byte(), d.Byte()}
			}
			d.addPalette(name, cs)
		}
	case 3:
		switch {
		case len(d.glyphs) < 4 || d.Intn(3) > 0:
			d.addGlyph(d.glyphMask())
		case d.Bool():
			d.setPlacement(d.uid(), [4]byte{d.Byte(), d.Byte(), d.Byte(), d.Byte()})
		default:
			d.setGlyphName(d.uid(), d.anyName(5))
		}
	case 4:
		if d.Intn(3) > 0 {
			n := 1 + d.Skew(6)
			if d.OneIn(40) {
				n = pick(d.RNG, []int{0, 254, 255, 256, 100})
			}
			opts := make([]string, n)
			for i := range opts {
				opts[i] = d.word()
				if n > 20 {
					opts[i] = ggfnt.GetPredefinedWord(uint8(i % 50)) // keep the number of words low
				}
				if d.OneIn(300) {
					opts[i] = d.anyName(4)
				}
			}
			d.addSetting(d.anyName(8), opts)
		} else {
			n := 1 + d.Skew(4)
			if d.OneIn(30) {
				n = 0
			}
			ks := make([]ggfnt.SettingKey, n)
			perm := d.Perm(max(1, len(d.settings)))
			for i := range ks {
				if i < len(perm) && !d.OneIn(40) {
					ks[i] = ggfnt.SettingKey(perm[i])
				} else {
					ks[i] = ggfnt.SettingKey(d.Intn(len(d.settings) + 2))
				}
			}
			d.addSwitch(ks)
		}
	case 5:
		sw := d.Intn(len(d.switches) + 1)
		if len(d.switches) > 0 && !d.OneIn(20) {
			sw = d.Intn(len(d.switches))
		}
		cases := 1
		if sw < len(d.switches) {
			cases = d.numCases(sw)
		}
		if d.OneIn(25) {
			cases = max(0, cases+d.Range(-1, 1))
		}
		switch d.Intn(5) {
		case 0:
			d.mapOne(d.cp(), d.uid())
		case 1:
			n := 2 + d.Skew(6)
			if d.OneIn(20) {
				n = pick(d.RNG, []int{0, 1, 126, 127, 128})
			}
			d.mapGroup(d.cp(), d.Byte(), d.uids(n))
		case 2:
			d.mapSingles(d.cp(), uint8(sw), d.uids(cases))
		default:
			var groups [][]uint64
			var flags []ggfnt.AnimationFlags
			for i := 0; i < cases; i++ {
				n := 1
				if d.Bool() {
					n = 1 + d.Skew(5)
				}
				if d.OneIn(300) {
					n = pick(d.RNG, []int{126, 127, 128, 300})
				}
				groups = append(groups, d.uids(n))
				if n > 1 {
					flags = append(flags, ggfnt.AnimationFlags(d.Byte()))
				}
			}
			if d.OneIn(25) && len(flags) > 0 {
				flags = flags[1:]
			} else if d.OneIn(25) {
				flags = append(flags, 3)
			}
			d.mapSwitch(d.cp(), uint8(sw), groups, flags)
		}
	case 6:
		if !d.noRunes && d.OneIn(4) {
			d.runeSetOp()
			break
		}
		set := d.U64()
		if len(d.sets) > 0 && !d.OneIn(40) {
			set = pick(d.RNG, d.sets).uid
		}
		switch d.Intn(10) {
		case 0:
			d.createSet()
		case 1:
			used := slices.ContainsFunc(d.rules, func(r bRule) bool { return slices.Contains(r.in, set) })
			if !used || d.OneIn(30) {
				d.removeSet(set)
			}
		case 2, 3:
			a, b := d.uid(), d.uid()
			if i, j := d.indexOf(a), d.indexOf(b); (i > j || j-i > 255) && !d.OneIn(30) {
				a, b = b, a
			}
			if n := len(d.glyphs); n > 256 && d.Bool() {
				i := d.Intn(n)
				a, b = d.glyphs[i].uid, d.glyphs[min(n-1, i+pick(d.RNG, []int{0, 0, 1, 127, 128, 254, 255, 255, 256}))].uid
			}
			d.addSetRange(set, a, b)
		case 4:
			d.addSetGlyph(set, d.uid())
		case 5:
			if s := d.set(set); s != nil && len(s.ranges) > 0 && d.Bool() {
				r := pick(d.RNG, s.ranges)
				d.removeSetRange(set, r[0], r[1])
			} else {
				d.removeSetRange(set, d.uid(), d.uid())
			}
		case 6:
			if s := d.set(set); s != nil && len(s.list) > 0 && d.Bool() {
				d.removeSetGlyph(set, pick(d.RNG, s.list))
			} else {
				d.removeSetGlyph(set, d.uid())
			}
		case 7, 8:
			h, b, t := d.Skew(5), 1+d.Skew(5), d.Skew(5)
			if d.OneIn(8) {
				h, b, t = d.Skew(40), 1+d.Skew(40), d.Skew(40)
			}
			if d.OneIn(40) {
				b = pick(d.RNG, []int{0, 253, 254, 255})
				h, t = d.Intn(3), d.Intn(3)
			}
			if d.OneIn(40) { // lengths adding up to more than 8 bits
				h, b, t = d.Intn(256), 1+d.Intn(255), d.Intn(256)
			}
			n := h + b + t
			if n > 255 && d.Bool() {
				n %= 256
			} else if d.OneIn(40) {
				n += d.Range(-1, 1)
			}
			if n < 0 {
				n = 0
			}
			in := make([]uint64, n)
			mode := d.Intn(3)
			for i := range in {
				if len(d.sets) > 0 && (mode == 0 && d.Bool() || mode == 1 && i%17 != 16) {
					in[i] = pick(d.RNG, d.sets).uid
				} else {
					in[i] = d.uid()
				}
			}
			o := d.Range(1, max(1, b))
			if d.OneIn(30) {
				o = pick(d.RNG, []int{0, b + 1, 256})
			}
			d.addRule(h, b, t, in, d.uids(o))
		default:
			n := 1 + d.Skew(8)
			if d.OneIn(30) {
				n = pick(d.RNG, []int{0, 14, 15, 16, 30, 31, 254, 255, 256, 300})
			}
			seq := make([]rune, n)
			for i := range seq {
				seq[i] = d.Rune()
			}
			d.addRuneRule(d.Rune(), seq)
		}
	case 7:
		if len(d.glyphs) == 0 {
			return
		}
		if ks := d.kernPairs(); len(ks) > 0 && d.OneIn(4) {
			k := ks[d.Intn(len(ks))]
			d.setKern(k[0], k[1], pick(d.RNG, []int8{0, 0, 1, -128, 127, int8(d.Byte())}))
		} else {
			a, b := pick(d.RNG, d.glyphs).uid, pick(d.RNG, d.glyphs).uid
			d.setKern(a, b, int8(d.Byte()))
		}
		if d.OneIn(40) {
			d.parseEdition(d.edition())
		} else if d.OneIn(60) {
			d.call("ClearEditionData", func() { d.b.ClearEditionData() })
			d.logf("ClearEditionData")
			d.clearEditionModel()
		}
	}
}

func (d *driver) parseEdition(e *edition) {
	raw := e.encode()
	d.clearEditionModel()
	if d.try("", fmt.Sprintf("ParseEditionData(%d categories, %d classes, %d+%d pairs)", len(e.categories), len(e.classes), len(e.horz), len(e.vert)), func() error {
		return d.b.ParseEditionData(bytes.NewReader(packEdition(raw, 1)))
	}) {
		d.applyEdition(e)
	}
	d.c.Count("edition_loads", 1)
}

func (d *driver) run(n int, focus string) {
	for i := 0; i < n; i++ {
		d.step(focus)
		d.observe("the last operation")
	}
}

// makeBuildable repairs what prevents a build, if that is possible.
func (d *driver) makeBuildable() {
	if d.metricsReason() != "" {
		d.fixMetrics()
	}
	for i := 0; len(d.glyphs) == 0 && i < 20; i++ {
		d.addGlyph(d.glyphMask())
	}
	for i := 0; d.buildReason() == "duplicated glyph name"; i++ {
		seen := map[string]bool{}
		for _, g := range d.glyphs {
			if g.name != "" && seen[g.name] {
				d.setGlyphName(g.uid, fmt.Sprintf("u%d", i))
				i++
			}
			seen[g.name] = true
		}
	}
	for _, s := range d.sets {
		for _, r := range slices.Clone(s.ranges) {
			if i, j := d.indexOf(r[0]), d.indexOf(r[1]); i > j || j-i > 255 {
				d.removeSetRange(s.uid, r[0], r[1])
			}
		}
	}
}
