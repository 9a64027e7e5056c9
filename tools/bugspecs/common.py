PRE = r'''
package main

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"os"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/builder"
	"github.com/tinne26/ggfnt/mask"
)

var _ = bytes.NewReader
var _ = color.RGBA{}
var _ = mask.Rasterize
var _ ggfnt.GlyphIndex
var _ = builder.New

func fail(f string, a ...any) { fmt.Printf("BROKEN: "+f+"\n", a...); os.Exit(1) }
func must(err error) {
	if err != nil {
		fail("unexpected error: %v", err)
	}
}
func must2[T any](v T, err error) T { must(err); return v }
func rect(x0, y0, x1, y1 int) *image.Alpha {
	m := image.NewAlpha(image.Rect(x0, y0, x1, y1))
	for i := range m.Pix {
		m.Pix[i] = 255
	}
	return m
}
func newFont(n int) (*builder.Font, []uint64) {
	b := builder.New()
	var u []uint64
	for i := 0; i < n; i++ {
		u = append(u, must2(b.AddGlyph(rect(0, -3, 2, 0))))
	}
	return b, u
}
func same(a, b *image.Alpha) bool {
	r := image.Rectangle{}
	if a != nil {
		r = r.Union(a.Rect)
	}
	if b != nil {
		r = r.Union(b.Rect)
	}
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			var p, q uint8
			if a != nil {
				p = a.AlphaAt(x, y).A
			}
			if b != nil {
				q = b.AlphaAt(x, y).A
			}
			if p != q {
				return false
			}
		}
	}
	return true
}
func encode(f *ggfnt.Font) []byte {
	var w bytes.Buffer
	must(f.Export(&w))
	return w.Bytes()
}

'''
def demo(body, decls=""): return PRE + decls + "func main() {\n" + body + "\n}\n"

RE = r'''
// elements: >= 1000 is a set reference (1000 + set), otherwise a glyph index
type demoRule struct { cond int; head, body, tail, out []int }
func frag(d []byte, el []int) []byte {
	for len(el) > 0 {
		ns, ng := 0, 0
		for ns < len(el) && ns < 15 && el[ns] >= 1000 { ns++ }
		for ns + ng < len(el) && ng < 15 && el[ns + ng] < 1000 { ng++ }
		d = append(d, byte(ns << 4 | ng))
		for _, e := range el[:ns] { d = append(d, byte(e - 1000)) }
		for _, e := range el[ns : ns + ng] { d = append(d, byte(e), byte(e >> 8)) }
		el = el[ns + ng:]
	}
	return d
}
func (r demoRule) data() []byte {
	d := []byte{byte(r.cond), byte(len(r.head)), byte(len(r.body)), byte(len(r.tail)), byte(len(r.out))}
	for _, o := range r.out { d = append(d, byte(o), byte(o >> 8)) }
	if len(r.head) == 0 { d = append(d, 0) } else { d = frag(d, r.head) }
	d = frag(d, r.body)
	if len(r.tail) == 0 { d = append(d, 0) } else { d = frag(d, r.tail) }
	return d
}
func (r demoRule) rule() ggfnt.GlyphRewriteRule { return ggfnt.GlyphRewriteRule{ Data: r.data() } }
func (r demoRule) urule() ggfnt.Utf8RewriteRule {
	u := func(d []byte, el []int) []byte {
		if len(el) == 0 { return append(d, 0) }
		for len(el) > 0 {
			n := min(15, len(el))
			d = append(d, byte(n))
			for _, e := range el[:n] { d = append(d, byte(e), byte(e >> 8), byte(e >> 16), 0) }
			el = el[n:]
		}
		return d
	}
	d := []byte{byte(r.cond), byte(len(r.head)), byte(len(r.body)), byte(len(r.tail)), byte(len(r.out))}
	for _, o := range r.out { d = append(d, byte(o), byte(o >> 8), byte(o >> 16), 0) }
	d = u(d, r.head); d = u(d, r.body); d = u(d, r.tail)
	return ggfnt.Utf8RewriteRule{ Data: d }
}
// longest match at the oldest pending position; ties go to the rule added first
func refRewrite(rules []demoRule, sets [][]int, on func(cond int) bool, in []int) []int {
	var out []int
	reported := 0
	fits := func(r demoRule, in []int) bool {
		all := append(append(append([]int{}, r.head...), r.body...), r.tail...)
		if len(all) > len(in) || len(r.head) < reported { return false }
		for i, e := range all {
			ok := e == in[i]
			if e >= 1000 { for _, g := range sets[e - 1000] { if g == in[i] { ok = true } } }
			if !ok { return false }
		}
		return true
	}
	for len(in) > reported {
		best := -1; bl := 0
		for i, r := range rules {
			if r.cond != 255 && !on(r.cond) { continue }
			n := len(r.head) + len(r.body) + len(r.tail)
			if n > bl && fits(r, in) { best, bl = i, n }
		}
		if best < 0 {
			if reported > 0 { reported-- } else { out = append(out, in[0]) }
			in = in[1:]
			continue
		}
		r := rules[best]
		out = append(out, in[reported:len(r.head)]...)
		out = append(out, r.out...)
		in = in[len(r.head) + len(r.body):]
		out = append(out, in[:len(r.tail)]...)
		reported = len(r.tail)
	}
	return out
}
func runGlyphs(t *rerules.GlyphTester, f *ggfnt.Font, c *ggfnt.SettingsCache, in []int) []int {
	var out []int
	fn := func(g ggfnt.GlyphIndex) { out = append(out, int(g)) }
	must(t.BeginSequence(f, c))
	for _, g := range in { must(t.Feed(ggfnt.GlyphIndex(g), fn)) }
	t.FinishSequence(fn)
	return out
}
func runRunes(t *rerules.Utf8Tester, f *ggfnt.Font, c *ggfnt.SettingsCache, in []int) []int {
	var out []int
	fn := func(g rune) { out = append(out, int(g)) }
	must(t.BeginSequence(f, c))
	for _, g := range in { must(t.Feed(rune(g), fn)) }
	t.FinishSequence(fn)
	return out
}
type lcg uint64
func (s *lcg) n(k int) int { *s = *s * 6364136223846793005 + 1442695040888963407; return int((uint64(*s) >> 33) % uint64(k)) }
func (s *lcg) ints(n, k, base int) []int { var r []int; for i := 0; i < n; i++ { r = append(r, base + s.n(k)) }; return r }
func setFont(glyphs int, sets [][]int) *ggfnt.Font {
	b, u := newFont(glyphs)
	for _, s := range sets {
		id := must2(b.CreateGlyphSet())
		for _, g := range s { must(b.AddGlyphSetListGlyph(id, u[g])) }
	}
	return must2(b.Build())
}
func yes(int) bool { return true }
'''
def redemo(body, decls=""):
    return PRE.replace('"github.com/tinne26/ggfnt/mask"','"github.com/tinne26/ggfnt/mask"\n	"github.com/tinne26/ggfnt/rerules"') + RE + decls + "var _ rerules.GlyphTester\nfunc main() {\n" + body + "\n}\n"

CONDS = r'''
func withConds(f *ggfnt.Font, conds ...[]byte) *ggfnt.Font {
	raw := f.Data
	at := int(f.OffsetToRewriteConditions)
	out := append([]byte{}, raw[:at]...)
	out = append(out, byte(len(conds)))
	n := 0
	for _, c := range conds { n += len(c); out = append(out, byte(n), byte(n >> 8)) }
	for _, c := range conds { out = append(out, c...) }
	out = append(out, raw[at + 1:]...)
	return reparse(out)
}
func reparse(raw []byte) *ggfnt.Font {
	var w bytes.Buffer
	w.WriteString("tggfnt")
	z := gzip.NewWriter(&w)
	z.Write(raw)
	z.Close()
	return must2(ggfnt.Parse(bytes.NewReader(w.Bytes())))
}
'''
def cdemo(body, decls=""):
    return redemo(body, CONDS + decls).replace('import (\n','import (\n	"compress/gzip"\n',1)
