package main

import (
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"image/color"
	"sort"
)

// ---------------------------------------------------------------------------
// Reference model of a ggfnt file, with its own encoder and decoder written
// from specification.md. Nothing here uses the code under test.
// ---------------------------------------------------------------------------

type MDate struct {
	Y    uint16
	M, D uint8
}

type MDye struct {
	Name   string
	Alphas []byte
}
type MPalette struct {
	Name   string
	Colors []color.RGBA
}
type MGlyph struct {
	Name  string // "" if unnamed
	Place [4]byte
	Ops   []byte
}
type MSetting struct {
	Name    string
	Options []byte // word indices
}
type MGroup struct {
	Flags  byte
	Range  bool // stored as a range
	Glyphs []uint16
}
type MMapping struct {
	Rune   int32
	Switch uint8 // 255 direct, 254 single group
	Groups []MGroup
}
type MRange struct {
	First int32
	Extra byte
}
type MSet struct {
	Ranges []MRange
	List   []int32
}
type MRule struct {
	Cond             uint8
	Head, Body, Tail []MElem
	Out              []int32
}
type MElem struct {
	Set   bool
	Value int32
}
type KPair [2]uint16

type Metrics struct {
	NumGlyphs                                   uint16
	Vert                                        bool
	Mono, Asc, XAsc, Desc, XDesc, Upper, Middle uint8
	HInter, VInter, LineGap, VLineW, VLineGap   uint8
}

type Model struct {
	Version                    uint32
	ID                         uint64
	Major, Minor               uint16
	Dates                      [3]MDate
	Name, Family, Author, Abut string
	Met                        Metrics
	Dyes                       []MDye
	Palettes                   []MPalette
	Glyphs                     []MGlyph
	Words                      []string
	Settings                   []MSetting
	Switches                   [][]byte
	Mappings                   []MMapping
	Conds                      []*MCond
	RuneSets, GlyphSets        []MSet
	RuneRules, GlyphRules      []MRule
	Kern, VKern                map[KPair]int8
}

// Conditions.
type MCond struct {
	Op    byte // '|', '&', or '=', '!', '<', '>', 'l' (<=), 'g' (>=)
	Terms []*MCond
	A     uint8 // setting
	B     uint8 // setting or constant
	Const bool
	Quick bool
}

func (m *MCond) eval(s []uint8) bool {
	switch m.Op {
	case '|':
		r := false
		for _, t := range m.Terms {
			r = t.eval(s) || r
		}
		return r
	case '&':
		r := true
		for _, t := range m.Terms {
			r = t.eval(s) && r
		}
		return r
	}
	a, b := s[m.A], m.B
	if !m.Const {
		b = s[m.B]
	}
	switch m.Op {
	case '=':
		return a == b
	case '!':
		return a != b
	case '<':
		return a < b
	case '>':
		return a > b
	case 'l':
		return a <= b
	case 'g':
		return a >= b
	}
	panic("bad cond")
}

func (m *MCond) encode(b []byte) []byte {
	switch m.Op {
	case '|', '&':
		ctrl := byte(len(m.Terms))
		if m.Op == '&' {
			ctrl |= 0x20
		}
		b = append(b, ctrl)
		for _, t := range m.Terms {
			b = t.encode(b)
		}
		return b
	}
	if m.Quick {
		var ctrl byte
		switch m.Op {
		case '=':
			ctrl = 0x60
		case '!':
			ctrl = 0x80
		case '<':
			ctrl = 0xA0
		case '>':
			ctrl = 0xC0
		default:
			panic("no quick form")
		}
		return append(b, ctrl|m.B, m.A)
	}
	ctrl := byte(0x40)
	if m.Const {
		ctrl |= 0x10
	}
	switch m.Op {
	case '=':
		ctrl |= 0
	case '!':
		ctrl |= 1
	case '<':
		ctrl |= 2
	case '>':
		ctrl |= 3
	case 'l':
		ctrl |= 4
	case 'g':
		ctrl |= 5
	}
	return append(b, ctrl, m.A, m.B)
}

func (m *MCond) String() string {
	switch m.Op {
	case '|', '&':
		s := "("
		for i, t := range m.Terms {
			if i > 0 {
				s += " " + string(m.Op) + " "
			}
			s += t.String()
		}
		if len(m.Terms) == 1 {
			s += " " + string(m.Op)
		}
		return s + ")"
	}
	op := map[byte]string{'=': "==", '!': "!=", '<': "<", '>': ">", 'l': "<=", 'g': ">="}[m.Op]
	if m.Const {
		q := ""
		if m.Quick {
			q = "'"
		}
		return fmt.Sprintf("s%d%s%d%s", m.A, op, m.B, q)
	}
	return fmt.Sprintf("s%d%ss%d", m.A, op, m.B)
}

func (m *MCond) hasShortCircuit() bool {
	if len(m.Terms) > 1 {
		return true
	}
	for _, t := range m.Terms {
		if t.hasShortCircuit() {
			return true
		}
	}
	return false
}

type wbuf struct{ b []byte }

func (w *wbuf) u8(v int)       { w.b = append(w.b, byte(v)) }
func (w *wbuf) u16(v int)      { w.b = append(w.b, byte(v), byte(v>>8)) }
func (w *wbuf) u24(v int)      { w.b = append(w.b, byte(v), byte(v>>8), byte(v>>16)) }
func (w *wbuf) u32(v uint32)   { w.b = append(w.b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24)) }
func (w *wbuf) u64(v uint64)   { w.u32(uint32(v)); w.u32(uint32(v >> 32)) }
func (w *wbuf) bytes(v []byte) { w.b = append(w.b, v...) }
func (w *wbuf) str(v string)   { w.b = append(w.b, v...) }
func (w *wbuf) short(v string) { w.u8(len(v)); w.str(v) }

// Section marks the start of a table in the uncompressed content.
type Section struct {
	Name  string
	Start int
}

// blobs writes end offsets and then the data of each blob.
func (w *wbuf) blobs(width int, parts [][]byte) {
	end := 0
	for _, p := range parts {
		end += len(p)
		switch width {
		case 1:
			w.u8(end)
		case 2:
			w.u16(end)
		case 3:
			w.u24(end)
		}
	}
	for _, p := range parts {
		w.bytes(p)
	}
}

func strs(s []string) [][]byte {
	out := make([][]byte, len(s))
	for i := range s {
		out[i] = []byte(s[i])
	}
	return out
}

func (m *Model) sortedMappings() []MMapping {
	out := append([]MMapping(nil), m.Mappings...)
	sort.Slice(out, func(i, j int) bool { return uint32(out[i].Rune) < uint32(out[j].Rune) })
	return out
}

func encodeGroup(g MGroup) []byte {
	w := wbuf{}
	info := len(g.Glyphs) - 1
	if g.Range {
		info |= 0x80
	}
	w.u8(info)
	if len(g.Glyphs) > 1 {
		w.u8(int(g.Flags))
	}
	if g.Range {
		w.u16(int(g.Glyphs[0]))
	} else {
		for _, gl := range g.Glyphs {
			w.u16(int(gl))
		}
	}
	return w.b
}

func encodeMapping(e MMapping) []byte {
	w := wbuf{}
	w.u8(int(e.Switch))
	if e.Switch == 255 {
		w.u16(int(e.Groups[0].Glyphs[0]))
		return w.b
	}
	for _, g := range e.Groups {
		w.bytes(encodeGroup(g))
	}
	return w.b
}

func encodeSet(s MSet, glyph bool) []byte {
	w := wbuf{}
	w.u8(len(s.Ranges))
	for _, r := range s.Ranges {
		if glyph {
			w.u16(int(r.First))
		} else {
			w.u32(uint32(r.First))
		}
		w.u8(int(r.Extra))
	}
	w.u8(len(s.List))
	for _, e := range s.List {
		if glyph {
			w.u16(int(e))
		} else {
			w.u32(uint32(e))
		}
	}
	return w.b
}

// Rule encoding: condition, head, body, tail and out lengths, outputs, then
// the input as fragments of consecutive set or element entries.
func encodeRule(r MRule, glyph bool) []byte {
	w := wbuf{}
	w.u8(int(r.Cond))
	w.u8(len(r.Head))
	w.u8(len(r.Body))
	w.u8(len(r.Tail))
	w.u8(len(r.Out))
	for _, o := range r.Out {
		if glyph {
			w.u16(int(o))
		} else {
			w.u32(uint32(o))
		}
	}
	for _, in := range [][]MElem{r.Head, r.Body, r.Tail} {
		if len(in) == 0 {
			w.u8(0) // empty blocks have one empty fragment
		}
		for i := 0; i < len(in); {
			ns := 0
			for i+ns < len(in) && in[i+ns].Set && ns < 15 {
				ns++
			}
			ne := 0
			for i+ns+ne < len(in) && !in[i+ns+ne].Set && ne < 15 {
				ne++
			}
			w.u8(ns<<4 | ne)
			for _, e := range in[i : i+ns+ne] {
				switch {
				case e.Set:
					w.u8(int(e.Value))
				case glyph:
					w.u16(int(e.Value))
				default:
					w.u32(uint32(e.Value))
				}
			}
			i += ns + ne
		}
	}
	return w.b
}

func (m *Model) encode() ([]byte, []Section) {
	w := &wbuf{}
	var secs []Section
	mark := func(n string) { secs = append(secs, Section{n, len(w.b)}) }
	mark("header")
	w.u32(m.Version)
	w.u64(m.ID)
	w.u16(int(m.Major))
	w.u16(int(m.Minor))
	for _, d := range m.Dates {
		w.u16(int(d.Y))
		w.u8(int(d.M))
		w.u8(int(d.D))
	}
	w.short(m.Name)
	w.short(m.Family)
	w.short(m.Author)
	w.u16(len(m.Abut))
	w.str(m.Abut)
	mark("metrics")
	k := m.Met
	w.u16(int(k.NumGlyphs))
	v := 0
	if k.Vert {
		v = 1
	}
	w.u8(v)
	for _, x := range []uint8{k.Mono, k.Asc, k.XAsc, k.Desc, k.XDesc, k.Upper, k.Middle, k.HInter, k.VInter, k.LineGap, k.VLineW, k.VLineGap} {
		w.u8(int(x))
	}
	mark("dyes")
	w.u8(len(m.Dyes))
	end := 0
	for _, d := range m.Dyes {
		end += len(d.Alphas)
		w.u8(end)
	}
	var names []string
	for _, d := range m.Dyes {
		w.bytes(d.Alphas)
		names = append(names, d.Name)
	}
	w.blobs(2, strs(names))
	mark("palettes")
	w.u8(len(m.Palettes))
	end = 0
	for _, d := range m.Palettes {
		end += len(d.Colors)
		w.u8(end)
	}
	names = nil
	for _, d := range m.Palettes {
		for _, c := range d.Colors {
			w.bytes([]byte{c.R, c.G, c.B, c.A})
		}
		names = append(names, d.Name)
	}
	w.blobs(2, strs(names))
	mark("glyphnames")
	type gn struct {
		name string
		id   int
	}
	var gns []gn
	for i, g := range m.Glyphs {
		if g.Name != "" {
			gns = append(gns, gn{g.Name, i})
		}
	}
	sort.Slice(gns, func(i, j int) bool { return gns[i].name < gns[j].name })
	w.u16(len(gns))
	names = nil
	for _, g := range gns {
		w.u16(g.id)
		names = append(names, g.name)
	}
	w.blobs(3, strs(names))
	mark("masks")
	var parts [][]byte
	for _, g := range m.Glyphs {
		n := 1
		if k.Vert {
			n = 4
		}
		parts = append(parts, append(append([]byte(nil), g.Place[:n]...), g.Ops...))
	}
	w.blobs(3, parts)
	mark("words")
	w.u8(len(m.Words))
	w.blobs(2, strs(m.Words))
	mark("settings")
	w.u8(len(m.Settings))
	names, parts = nil, nil
	for _, s := range m.Settings {
		names = append(names, s.Name)
		parts = append(parts, s.Options)
	}
	w.blobs(2, strs(names))
	w.blobs(2, parts)
	mark("switches")
	w.u8(len(m.Switches))
	w.blobs(2, m.Switches)
	mark("mapping")
	w.u16(len(m.Mappings))
	parts = nil
	maps := m.sortedMappings()
	for _, e := range maps {
		w.u32(uint32(e.Rune))
		parts = append(parts, encodeMapping(e))
	}
	w.blobs(3, parts)
	mark("conditions")
	w.u8(len(m.Conds))
	parts = nil
	for _, c := range m.Conds {
		parts = append(parts, c.encode(nil))
	}
	w.blobs(2, parts)
	mark("runesets")
	w.u8(len(m.RuneSets))
	parts = nil
	for _, s := range m.RuneSets {
		parts = append(parts, encodeSet(s, false))
	}
	w.blobs(2, parts)
	mark("glyphsets")
	w.u8(len(m.GlyphSets))
	parts = nil
	for _, s := range m.GlyphSets {
		parts = append(parts, encodeSet(s, true))
	}
	w.blobs(2, parts)
	mark("runerules")
	w.u16(len(m.RuneRules))
	parts = nil
	for _, r := range m.RuneRules {
		parts = append(parts, encodeRule(r, false))
	}
	w.blobs(3, parts)
	mark("glyphrules")
	w.u16(len(m.GlyphRules))
	parts = nil
	for _, r := range m.GlyphRules {
		parts = append(parts, encodeRule(r, true))
	}
	w.blobs(3, parts)
	for i, t := range []map[KPair]int8{m.Kern, m.VKern} {
		mark([]string{"kerning", "vertkerning"}[i])
		var ps []KPair
		for p := range t {
			ps = append(ps, p)
		}
		sort.Slice(ps, func(a, b int) bool {
			return uint32(ps[a][0])<<16|uint32(ps[a][1]) < uint32(ps[b][0])<<16|uint32(ps[b][1])
		})
		w.u24(len(ps))
		for _, p := range ps {
			w.u32(uint32(p[0])<<16 | uint32(p[1]))
		}
		for _, p := range ps {
			w.u8(int(uint8(t[p])))
		}
	}
	mark("end")
	return w.b, secs
}

// pack compresses raw content behind the signature.
func pack(raw []byte) []byte { return packLevel(raw, gzip.BestSpeed) }

func packLevel(raw []byte, level int) []byte {
	var b bytes.Buffer
	b.WriteString("tggfnt")
	zw, _ := gzip.NewWriterLevel(&b, level)
	zw.Write(raw)
	zw.Close()
	return b.Bytes()
}

func gunzipFont(file []byte) ([]byte, error) {
	if len(file) < 6 || string(file[:6]) != "tggfnt" {
		return nil, errors.New("bad signature")
	}
	zr, err := gzip.NewReader(bytes.NewReader(file[6:]))
	if err != nil {
		return nil, err
	}
	var out bytes.Buffer
	if _, err := out.ReadFrom(zr); err != nil {
		return nil, err
	}
	return out.Bytes(), nil
}

// --- decoder -----------------------------------------------------------------

type rbuf struct {
	b   []byte
	pos int
}

type decodeErr struct{ s string }

func (r *rbuf) need(n int) []byte {
	if n < 0 || r.pos+n > len(r.b) {
		panic(decodeErr{fmt.Sprintf("need %d bytes at %d of %d", n, r.pos, len(r.b))})
	}
	r.pos += n
	return r.b[r.pos-n : r.pos]
}
func (r *rbuf) u8() int  { return int(r.need(1)[0]) }
func (r *rbuf) u16() int { b := r.need(2); return int(b[0]) | int(b[1])<<8 }
func (r *rbuf) u24() int { b := r.need(3); return int(b[0]) | int(b[1])<<8 | int(b[2])<<16 }
func (r *rbuf) u32() uint32 {
	b := r.need(4)
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}
func (r *rbuf) u64() uint64   { lo := r.u32(); return uint64(lo) | uint64(r.u32())<<32 }
func (r *rbuf) short() string { return string(r.need(r.u8())) }
func (r *rbuf) bad(format string, args ...any) {
	panic(decodeErr{fmt.Sprintf(format, args...) + fmt.Sprintf(" (before byte %d)", r.pos)})
}
func (r *rbuf) blobs(width, n int, minLen int) [][]byte {
	ends := make([]int, n)
	for i := range ends {
		switch width {
		case 1:
			ends[i] = r.u8()
		case 2:
			ends[i] = r.u16()
		case 3:
			ends[i] = r.u24()
		}
	}
	out := make([][]byte, n)
	prev := 0
	for i := range ends {
		if ends[i] < prev+minLen {
			r.bad("end offset %d of element %d (previous %d, minimum length %d)", ends[i], i, prev, minLen)
		}
		out[i] = r.need(ends[i] - prev)
		prev = ends[i]
	}
	return out
}

func basicName(s string) bool {
	if len(s) == 0 || len(s) > 32 || s[0] == '-' || s[len(s)-1] == '-' {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '-' {
			if s[i-1] == '-' {
				return false
			}
			continue
		}
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

// decode strictly decodes uncompressed font content; any deviation from the
// format is an error.
func decode(raw []byte) (m *Model, err error) {
	defer func() {
		if p := recover(); p != nil {
			if d, ok := p.(decodeErr); ok {
				err = errors.New(d.s)
				return
			}
			panic(p)
		}
	}()
	r := &rbuf{b: raw}
	m = &Model{}
	m.Version = r.u32()
	m.ID = r.u64()
	m.Major = uint16(r.u16())
	m.Minor = uint16(r.u16())
	for i := range m.Dates {
		m.Dates[i] = MDate{uint16(r.u16()), uint8(r.u8()), uint8(r.u8())}
	}
	m.Name, m.Family, m.Author = r.short(), r.short(), r.short()
	m.Abut = string(r.need(r.u16()))
	if m.Name == "" {
		r.bad("empty name")
	}
	k := &m.Met
	k.NumGlyphs = uint16(r.u16())
	if k.NumGlyphs == 0 {
		r.bad("no glyphs")
	}
	v := r.u8()
	if v > 1 {
		r.bad("bad layout flag")
	}
	k.Vert = v == 1
	for _, p := range []*uint8{&k.Mono, &k.Asc, &k.XAsc, &k.Desc, &k.XDesc, &k.Upper, &k.Middle, &k.HInter, &k.VInter, &k.LineGap, &k.VLineW, &k.VLineGap} {
		*p = uint8(r.u8())
	}
	if k.Asc == 0 || k.XAsc > k.Asc || (k.VInter != 0 && !k.Vert) {
		r.bad("inconsistent metrics")
	}
	colors := func(width int) ([]string, [][]byte) {
		n := r.u8()
		ends := r.need(n)
		prev := 0
		var vals [][]byte
		for i := range ends {
			if int(ends[i]) <= prev {
				r.bad("color end index")
			}
			vals = append(vals, r.need((int(ends[i])-prev)*width))
			prev = int(ends[i])
		}
		var ns []string
		for _, b := range r.blobs(2, n, 1) {
			ns = append(ns, string(b))
		}
		return ns, vals
	}
	total := 0
	ns, vals := colors(1)
	for i := range ns {
		m.Dyes = append(m.Dyes, MDye{ns[i], vals[i]})
		total += len(vals[i])
	}
	ns, vals = colors(4)
	for i := range ns {
		p := MPalette{Name: ns[i]}
		for j := 0; j < len(vals[i]); j += 4 {
			p.Colors = append(p.Colors, color.RGBA{vals[i][j], vals[i][j+1], vals[i][j+2], vals[i][j+3]})
		}
		total += len(p.Colors)
		m.Palettes = append(m.Palettes, p)
	}
	if total > 255 {
		r.bad("too many colors")
	}
	m.Glyphs = make([]MGlyph, k.NumGlyphs)
	nn := r.u16()
	ids := make([]int, nn)
	for i := range ids {
		ids[i] = r.u16()
		if ids[i] >= int(k.NumGlyphs) {
			r.bad("named glyph %d", ids[i])
		}
	}
	prevName := ""
	for i, b := range r.blobs(3, nn, 1) {
		if !basicName(string(b)) {
			r.bad("glyph name %q", b)
		}
		if i > 0 && string(b) <= prevName {
			r.bad("glyph names out of order: %q after %q", b, prevName)
		}
		prevName = string(b)
		if m.Glyphs[ids[i]].Name != "" {
			r.bad("glyph named twice")
		}
		m.Glyphs[ids[i]].Name = string(b)
	}
	place := 1
	if k.Vert {
		place = 4
	}
	for i, b := range r.blobs(3, int(k.NumGlyphs), place) {
		copy(m.Glyphs[i].Place[:], b[:place])
		m.Glyphs[i].Ops = b[place:]
	}
	for _, b := range r.blobs(2, r.u8(), 1) {
		m.Words = append(m.Words, string(b))
	}
	n := r.u8()
	nb := r.blobs(2, n, 1)
	for i, o := range r.blobs(2, n, 1) {
		if !basicName(string(nb[i])) {
			r.bad("setting name %q", nb[i])
		}
		if len(o) > 255 {
			r.bad("too many options")
		}
		m.Settings = append(m.Settings, MSetting{string(nb[i]), o})
	}
	n = r.u8()
	if n > 254 {
		r.bad("too many switches")
	}
	cases := make([]int, n)
	for i, b := range r.blobs(2, n, 1) {
		m.Switches = append(m.Switches, b)
		cases[i] = 1
		for _, s := range b {
			if int(s) >= len(m.Settings) {
				r.bad("switch setting %d", s)
			}
			cases[i] *= len(m.Settings[s].Options)
			if cases[i] > 256 {
				r.bad("too many switch cases")
			}
		}
	}
	n = r.u16()
	runes := make([]int32, n)
	for i := range runes {
		runes[i] = int32(r.u32())
		if i > 0 && uint32(runes[i]) <= uint32(runes[i-1]) {
			r.bad("code points out of order")
		}
	}
	for i, b := range r.blobs(3, n, 3) {
		q := &rbuf{b: b}
		e := MMapping{Rune: runes[i], Switch: uint8(q.u8())}
		glyph := func() uint16 {
			g := q.u16()
			if g >= int(k.NumGlyphs) && !(g >= 60000 && g <= 62000) && !(g >= 56789 && g <= 56791) {
				r.bad("mapping of %d uses glyph %d of %d", e.Rune, g, k.NumGlyphs)
			}
			return uint16(g)
		}
		count := 1
		switch {
		case e.Switch == 255:
			e.Groups = []MGroup{{Glyphs: []uint16{glyph()}}}
			count = 0
		case e.Switch == 254:
		case int(e.Switch) < len(cases):
			count = cases[e.Switch]
		default:
			r.bad("mapping switch %d", e.Switch)
		}
		for ; count > 0; count-- {
			info := q.u8()
			size := info&0x7f + 1
			g := MGroup{Range: info&0x80 != 0}
			if size > 1 {
				g.Flags = byte(q.u8())
			}
			if g.Range {
				base := int(glyph())
				for j := 0; j < size; j++ {
					g.Glyphs = append(g.Glyphs, uint16(base+j))
				}
				if base+size > int(k.NumGlyphs) {
					r.bad("glyph range beyond the glyphs")
				}
			} else {
				for j := 0; j < size; j++ {
					g.Glyphs = append(g.Glyphs, glyph())
				}
			}
			e.Groups = append(e.Groups, g)
		}
		if q.pos != len(b) {
			r.bad("mapping of %d has %d excess bytes", e.Rune, len(b)-q.pos)
		}
		m.Mappings = append(m.Mappings, e)
	}
	for _, b := range r.blobs(2, r.u8(), 2) {
		q := &rbuf{b: b}
		c := decodeCond(q, len(m.Settings))
		if q.pos != len(b) {
			r.bad("condition has excess bytes")
		}
		m.Conds = append(m.Conds, c)
	}
	set := func(b []byte, glyph bool) MSet {
		q := &rbuf{b: b}
		var s MSet
		el := func() int32 {
			if glyph {
				return int32(q.u16())
			}
			return int32(q.u32())
		}
		for c := q.u8(); c > 0; c-- {
			s.Ranges = append(s.Ranges, MRange{el(), byte(q.u8())})
		}
		for c := q.u8(); c > 0; c-- {
			s.List = append(s.List, el())
		}
		if q.pos != len(b) {
			r.bad("set has excess bytes")
		}
		return s
	}
	for _, b := range r.blobs(2, r.u8(), 2) {
		m.RuneSets = append(m.RuneSets, set(b, false))
	}
	for _, b := range r.blobs(2, r.u8(), 2) {
		m.GlyphSets = append(m.GlyphSets, set(b, true))
	}
	rule := func(b []byte, glyph bool, nsets int) MRule {
		q := &rbuf{b: b}
		var u MRule
		u.Cond = uint8(q.u8())
		if u.Cond != 255 && int(u.Cond) >= len(m.Conds) {
			r.bad("rule condition %d", u.Cond)
		}
		h, bd, t, o := q.u8(), q.u8(), q.u8(), q.u8()
		el := func() int32 {
			if glyph {
				return int32(q.u16())
			}
			return int32(q.u32())
		}
		for ; o > 0; o-- {
			u.Out = append(u.Out, el())
		}
		if h+bd+t > 255 || bd == 0 || len(u.Out) > bd {
			r.bad("rule lengths %d %d %d %d", h, bd, t, len(u.Out))
		}
		block := func(n int) (in []MElem) {
			for first := true; first || len(in) < n; first = false {
				c := q.u8()
				if c == 0 && n != 0 {
					q.bad("empty rule fragment")
				}
				for j := c >> 4; j > 0; j-- {
					s := q.u8()
					if s >= nsets {
						q.bad("rule set %d", s)
					}
					in = append(in, MElem{true, int32(s)})
				}
				for j := c & 15; j > 0; j-- {
					in = append(in, MElem{false, el()})
				}
			}
			if len(in) != n {
				q.bad("rule block has %d elements, expected %d", len(in), n)
			}
			return in
		}
		u.Head = block(h)
		u.Body = block(bd)
		u.Tail = block(t)
		if q.pos != len(b) {
			r.bad("rule has excess bytes")
		}
		return u
	}
	for _, b := range r.blobs(3, r.u16(), 8) {
		m.RuneRules = append(m.RuneRules, rule(b, false, len(m.RuneSets)))
	}
	for _, b := range r.blobs(3, r.u16(), 8) {
		m.GlyphRules = append(m.GlyphRules, rule(b, true, len(m.GlyphSets)))
	}
	kern := func() map[KPair]int8 {
		n := r.u24()
		t := make(map[KPair]int8, n)
		ps := make([]KPair, n)
		prev := int64(-1)
		for i := range ps {
			p := r.u32()
			if int64(p) <= prev {
				r.bad("kerning pairs out of order")
			}
			prev = int64(p)
			ps[i] = KPair{uint16(p >> 16), uint16(p)}
		}
		for i := range ps {
			t[ps[i]] = int8(r.u8())
		}
		return t
	}
	m.Kern = kern()
	m.VKern = kern()
	if r.pos != len(raw) {
		r.bad("%d bytes after the last table", len(raw)-r.pos)
	}
	return m, nil
}

func decodeCond(q *rbuf, nset int) *MCond {
	ctrl := q.u8()
	setting := func() uint8 {
		s := q.u8()
		if s >= nset {
			q.bad("condition uses setting %d", s)
		}
		return uint8(s)
	}
	switch ctrl >> 5 {
	case 0, 1:
		c := &MCond{Op: []byte{'|', '&'}[ctrl>>5]}
		for j := ctrl & 31; j > 0; j-- {
			c.Terms = append(c.Terms, decodeCond(q, nset))
		}
		return c
	case 2:
		op := ctrl & 15
		if op > 5 {
			q.bad("condition operator")
		}
		c := &MCond{Op: "=!<>lg"[op], A: setting(), Const: ctrl&16 != 0}
		if c.Const {
			c.B = uint8(q.u8())
		} else {
			c.B = setting()
		}
		return c
	case 3, 4, 5, 6:
		return &MCond{Op: "=!<>"[ctrl>>5-3], A: setting(), Const: true, Quick: true, B: uint8(ctrl & 31)}
	}
	q.bad("condition control")
	return nil
}
