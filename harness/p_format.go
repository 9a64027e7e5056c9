package main

import (
	"fmt"
	"image"
	"image/color"
	"strings"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/mask"
)

// ---------------------------------------------------------------------------
// P05-P09, P11, P12, P14-P16: answers of fonts decoded from reference-encoded
// files. (The same monitors watch fonts made by the builder, see p_make.go.)
// ---------------------------------------------------------------------------

// fileCase makes a font file from a random model and parses it.
func fileCase(c *Ctx, only string) (*ggfnt.Font, *Model, []byte) {
	o := ModelOpts{Only: only, Big: c.OneIn(4)}
	switch c.Intn(3) {
	case 0: // every table filled at random, so misplaced tables are noticed
		o.Only = ""
	case 1:
		o.NoOps = only != "glyphs"
	}
	if only == "names" || only == "kerning" || only == "glyphs" {
		o.MaxGlyphs = pick(c.RNG, []int{1, 3, 40, 200})
		if only != "glyphs" && c.OneIn(10) {
			o.MaxGlyphs = 2000
			o.NoOps = true
		}
	}
	m := c.Model(o)
	if c.OneIn(3) && o.Only != only { // make sure the section is present
		m2 := c.Model(ModelOpts{Only: only, MaxGlyphs: len(m.Glyphs), NoOps: true})
		switch only {
		case "color":
			m.Dyes, m.Palettes = m2.Dyes, m2.Palettes
		case "header":
			m.Name, m.Family, m.Author, m.Abut = m2.Name, m2.Family, m2.Author, m2.Abut
		}
	}
	raw, _ := m.encode()
	f := mustParse(c, pack(raw))
	if f.RawSize() != len(raw) {
		c.Failf("RawSize is %d, the content has %d bytes", f.RawSize(), len(raw))
	}
	return f, m, raw
}

func fileWorkload(name, only string, quick, thorough int, check func(c *Ctx, f *ggfnt.Font, m *Model), nontrivial func(m *Model) bool) Workload {
	return Workload{Name: name, Quick: quick, Thorough: thorough, Run: func(c *Ctx) {
		f, m, raw := fileCase(c, only)
		c.Sample("font of %d bytes: %s", len(raw), m.summary())
		c.Logf("font: %s", m.summary())
		check(c, f, m)
		c.Eval(hashBytes(raw), nontrivial(m))
	}}
}

func (m *Model) summary() string {
	return fmt.Sprintf("texts %d/%d/%d/%d bytes, %d glyphs (%d named), vertical layout %v, %d dyes, %d palettes, %d words, %d settings, %d switches, %d mappings, %d conditions, %d+%d sets, %d+%d rules, %d+%d kerning pairs",
		len(m.Name), len(m.Family), len(m.Author), len(m.Abut), len(m.Glyphs), m.numNamed(), m.Met.Vert, len(m.Dyes), len(m.Palettes), len(m.Words), len(m.Settings), len(m.Switches), len(m.Mappings), len(m.Conds),
		len(m.RuneSets), len(m.GlyphSets), len(m.RuneRules), len(m.GlyphRules), len(m.Kern), len(m.VKern))
}

func (m *Model) numNamed() (n int) {
	for _, g := range m.Glyphs {
		if g.Name != "" {
			n++
		}
	}
	return n
}

// --- P09 ---------------------------------------------------------------------

func checkRaster(c *Ctx, ops []byte) {
	ref, refErr := refRaster(ops)
	if ref.draws && (ref.rect.Dx()*ref.rect.Dy() > 1<<22) {
		c.Count("skipped_large", 1)
		return
	}
	orig := string(ops)
	var got *image.Alpha
	var err error
	p, stack := Try(func() { got, err = mask.Rasterize(ops) })
	if p != nil {
		c.Fail("panic", "Rasterize(%v) panicked: %v\n%s", clipOps(ops), p, trimStack(stack))
	}
	if string(ops) != orig {
		c.Failf("Rasterize modified its input %v", clipOps(ops))
	}
	if ref.zeroPal && refErr == nil {
		// palette index zero in a stream is not allowed by the specification,
		// but rejecting it isn't required
		c.Count("zero_palette_streams", 1)
		if err != nil {
			return
		}
	}
	if refErr != nil {
		c.Count("malformed_streams", 1)
		if err == nil {
			c.Failf("malformed operations %v are accepted", clipOps(ops))
		}
		return
	}
	if err != nil {
		c.Failf("well-formed operations %v are rejected: %v", clipOps(ops), err)
	}
	c.Count("well_formed_streams", 1)
	c.Count("raster_operations", ref.ops)
	if !ref.draws {
		if got != nil && !got.Rect.Empty() {
			c.Failf("operations %v draw nothing, but the result is %v", clipOps(ops), got.Rect)
		}
		c.Count("empty_results", 1)
		return
	}
	if got == nil {
		c.Failf("operations %v draw in %v, but the result is nil", clipOps(ops), ref.rect)
	}
	if got.Rect != ref.rect {
		c.Failf("operations %v: bounds %v, expected %v", clipOps(ops), got.Rect, ref.rect)
	}
	gp := pixels(got)
	if pt, ok := samePixels(gp, ref.pix); !ok {
		c.Failf("operations %v: pixel %v is %d, expected %d", clipOps(ops), pt, gp[pt], ref.pix[pt])
	}
	c.Count("pixels_compared", len(gp))
}

func clipOps(ops []byte) string {
	if len(ops) > 120 {
		return fmt.Sprintf("% x ...(%d bytes)", ops[:120], len(ops))
	}
	return fmt.Sprintf("[% x]", ops)
}

// --- P10 ---------------------------------------------------------------------

type encoderHistory struct {
	enc  *mask.Encoder
	buf  []byte
	seen int
}

// checkEncode encodes an image with the given encoder and verifies the result.
func checkEncode(c *Ctx, h *encoderHistory, img *image.Alpha) {
	pix := append([]byte(nil), img.Pix...)
	rect, stride := img.Rect, img.Stride
	want := pixels(img)
	prefix := string(h.buf)
	var out []byte
	p, stack := Try(func() { out = h.enc.AppendRasterOps(h.buf, img) })
	if p != nil {
		c.Fail("panic", "AppendRasterOps panicked on %s (mask %d of the encoder): %v\n%s", dumpMask(img), h.seen, p, trimStack(stack))
	}
	if string(img.Pix) != string(pix) || img.Rect != rect || img.Stride != stride {
		c.Failf("AppendRasterOps modified the mask %v", rect)
	}
	if len(out) < len(prefix) || string(out[:len(prefix)]) != prefix {
		c.Failf("AppendRasterOps changed the %d bytes that were already in the buffer", len(prefix))
	}
	ops := append([]byte(nil), out[len(prefix):]...)
	ref, err := refRaster(ops)
	if err != nil {
		c.Failf("encoding %s gives malformed operations %v", dumpMask(img), clipOps(ops))
	}
	if ref.zeroPal {
		c.Failf("encoding %s uses color index zero: %v", dumpMask(img), clipOps(ops))
	}
	if pt, ok := samePixels(ref.pix, want); !ok {
		c.Failf("encoding %s gives %v, where pixel %v is %d instead of %d", dumpMask(img), clipOps(ops), pt, ref.pix[pt], want[pt])
	}
	var got *image.Alpha
	p, stack = Try(func() { got, err = mask.Rasterize(ops) })
	if p != nil {
		c.Fail("panic", "Rasterize panicked on the encoding of %s: %v\n%s", dumpMask(img), p, trimStack(stack))
	}
	if err != nil {
		c.Failf("encoding %s gives operations %v that can't be rasterized: %v", dumpMask(img), clipOps(ops), err)
	}
	gp := pixels(got)
	if pt, ok := samePixels(gp, want); !ok {
		c.Failf("encoding %s and rasterizing gives %d instead of %d at %v", dumpMask(img), gp[pt], want[pt], pt)
	}
	var tight image.Rectangle
	for p := range want {
		tight = tight.Union(image.Rect(p.X, p.Y, p.X+1, p.Y+1))
	}
	if got == nil {
		if len(want) != 0 {
			c.Failf("encoding %s and rasterizing gives nothing", dumpMask(img))
		}
	} else if got.Rect != tight {
		c.Failf("encoding %s and rasterizing gives bounds %v instead of %v", dumpMask(img), got.Rect, tight)
	}
	cr := mask.ComputeRect(img)
	if cr.Empty() != tight.Empty() || (!tight.Empty() && cr != tight) {
		c.Failf("ComputeRect of %s is %v, expected %v", dumpMask(img), cr, tight)
	}
	h.buf = out
	h.seen++
	if len(h.buf) > 1<<20 {
		h.buf = h.buf[:c.Intn(10)]
	}
	c.Count("masks", 1)
	c.Count("opcodes", ref.ops)
	c.Count("pixels", len(want))
	key := hashBytes(ops)
	c.Eval(key, len(want) > 0 && ref.ops > 1)
}

func dumpMask(img *image.Alpha) string {
	b := img.Rect
	if b.Dx()*b.Dy() > 400 {
		return fmt.Sprintf("a %v mask (stride %d)", b, img.Stride)
	}
	var s strings.Builder
	fmt.Fprintf(&s, "mask %v (stride %d):", b, img.Stride)
	for y := b.Min.Y; y < b.Max.Y; y++ {
		s.WriteString(" ")
		for x := b.Min.X; x < b.Max.X; x++ {
			fmt.Fprintf(&s, "%02x", img.AlphaAt(x, y).A)
		}
	}
	return s.String()
}

func init() {
	register(&Property{ID: "P05", Level: "exploration",
		Rule:    "One case is one font (a reference-encoded file, or a builder after random operations) whose header and metrics are all read back; non-trivial if some text is non-empty besides the name.",
		Require: []string{"header_values", "metric_values"},
		Workloads: []Workload{fileWorkload("file", "header", 1500, 15000, func(c *Ctx, f *ggfnt.Font, m *Model) { checkHeader(c, f, m); checkMetrics(c, f, m) }, func(m *Model) bool { return len(m.Family)+len(m.Author)+len(m.Abut) > 0 }),
			{Name: "lengths", Quick: 600, Thorough: 6000, Run: func(c *Ctx) {
				// text lengths around the points where byte arithmetic wraps
				m := c.Model(ModelOpts{Only: "none", MaxGlyphs: 3})
				edge := []int{0, 1, 2, 100, 126, 127, 128, 129, 226, 227, 228, 253, 254, 255}
				m.Name = strings.Repeat("n", max(1, pick(c.RNG, edge)))
				m.Family = strings.Repeat("f", pick(c.RNG, edge))
				m.Author = strings.Repeat("a", pick(c.RNG, edge))
				m.Abut = strings.Repeat("t", pick(c.RNG, []int{0, 1, 255, 256, 257, 32767, 32768, 65534, 65535, c.Intn(65536)}))
				raw, _ := m.encode()
				f := mustParse(c, pack(raw))
				checkHeader(c, f, m)
				checkMetrics(c, f, m)
				checkColor(c, f, m)
				c.Eval(hashBytes(raw), true)
			}}},
	})
	register(&Property{ID: "P06", Level: "exploration",
		Rule:      "One case is one font whose dyes, palettes and flattened color table are all read back; non-trivial if it has a dye or a palette.",
		Require:   []string{"color_sections", "color_entries"},
		Workloads: []Workload{fileWorkload("file", "color", 1500, 15000, checkColor, func(m *Model) bool { return len(m.Dyes)+len(m.Palettes) > 0 })},
	})
	register(&Property{ID: "P07", Level: "exploration",
		Rule:      "One case is one font whose glyph names are all looked up, along with many strings similar to them; non-trivial if at least two glyphs are named.",
		Require:   []string{"name_hits", "name_misses"},
		Workloads: []Workload{fileWorkload("file", "names", 900, 9000, checkNames, func(m *Model) bool { return m.numNamed() >= 2 })},
	})
	register(&Property{ID: "P08", Level: "exploration",
		Rule:      "One case is one font whose glyphs are all rasterized, in random order, and whose placements are read back; non-trivial if it has at least two glyphs.",
		Require:   []string{"glyph_masks", "pixels_compared"},
		Workloads: []Workload{fileWorkload("file", "glyphs", 600, 6000, func(c *Ctx, f *ggfnt.Font, m *Model) { checkGlyphs(c, f, m, nil) }, func(m *Model) bool { return len(m.Glyphs) >= 2 })},
	})
	register(&Property{ID: "P09", Level: "exploration",
		Rule:    "One case is one raster operation stream given to mask.Rasterize and to the reference interpreter; non-trivial if the stream has at least two bytes. Streams whose result would exceed 4M pixels are skipped.",
		Require: []string{"well_formed_streams", "malformed_streams", "raster_operations", "pixels_compared", "empty_results", "distant_streams"},
		Workloads: []Workload{
			{Name: "wellformed", Quick: 300, Thorough: 3000, Run: func(c *Ctx) {
				for i := 0; i < 40; i++ {
					ops := c.Ops(1 + c.Skew(40))
					if i == 0 {
						c.Sample("%s", clipOps(ops))
					}
					checkRaster(c, ops)
					c.Eval(hashBytes(ops), len(ops) > 1)
				}
			}},
			{Name: "truncated", Quick: 150, Thorough: 1500, Run: func(c *Ctx) {
				ops := c.Ops(1 + c.Skew(20))
				for n := 0; n <= len(ops); n++ {
					checkRaster(c, ops[:n:n])
					c.Eval(hashBytes(ops[:n]), n > 1)
				}
			}},
			{Name: "mutated", Quick: 300, Thorough: 3000, Run: func(c *Ctx) {
				for i := 0; i < 40; i++ {
					ops := c.Ops(1 + c.Skew(12))
					for k := c.Range(1, 3); k > 0; k-- {
						ops[c.Intn(len(ops))] = c.Byte()
					}
					checkRaster(c, ops)
					c.Eval(hashBytes(ops), len(ops) > 1)
				}
			}},
			{Name: "control", Fixed: true, Quick: 256, Thorough: 256, Run: func(c *Ctx) {
				// every control code, with every relevant class of operands, as
				// only, first, middle and last operation
				ctrl := byte(c.Case)
				for rep := 0; rep < 60; rep++ {
					var ops []byte
					if rep%3 != 0 {
						ops = append(ops, c.Ops(1)...)
					}
					ops = append(ops, ctrl)
					for k := c.Intn(6); k > 0; k-- {
						ops = append(ops, pick(c.RNG, []byte{0, 1, 2, 5, 127, 128, 129, 254, 255, c.Byte()}))
					}
					checkRaster(c, ops)
					c.Eval(hashBytes(ops), len(ops) > 1)
				}
			}},
			{Name: "distant", Quick: 120, Thorough: 1200, Run: func(c *Ctx) {
				// pixels far from the origin and from each other, past the limits of
				// 8, 15 and 16 bit coordinates
				var ops []byte
				moves := func(n int, horz bool) {
					for ; n >= 128; n -= 128 {
						ops = append(ops, map[bool]byte{true: 2, false: 4}[horz], 127)
					}
					for ; n <= -128; n += 128 {
						ops = append(ops, map[bool]byte{true: 2, false: 4}[horz], 128)
					}
				}
				far := []int{0, 300, 32600, 32768, 33000, 65300, 65536, 70000, 131072}
				dx, dy := pick(c.RNG, far), pick(c.RNG, far)
				if c.Bool() {
					dx = -dx
				}
				if c.Bool() {
					dy = -dy
				}
				style := c.Intn(3)
				if style > 0 { // wide or tall results, one line of pixels
					ops = append(ops, 0x80)
				}
				if style < 2 {
					moves(dx, true)
				}
				if style%2 == 0 {
					moves(dy, false)
				}
				ops = append(ops, c.Ops(1)...)
				for k := c.Range(1, 4); k > 0; k-- {
					switch c.Intn(5) {
					case 0:
						ops = append(ops, 0x80)
					case 1:
						ops = append(ops, 0x20, c.Byte())
					case 2:
						ops = append(ops, 0x30, pick(c.RNG, []byte{255, 254, 127, 3}))
					case 3:
						ops = append(ops, 0x70, pick(c.RNG, []byte{255, 254, 127, 3}))
					default:
						ops = append(ops, 0x60, 3, c.Byte())
					}
				}
				checkRaster(c, ops)
				c.Count("distant_streams", 1)
				c.Eval(hashBytes(ops), true)
			}},
			{Name: "random", Quick: 200, Thorough: 2000, Run: func(c *Ctx) {
				for i := 0; i < 60; i++ {
					ops := c.Bytes(c.Skew(30))
					checkRaster(c, ops)
					c.Eval(hashBytes(ops), len(ops) > 1)
				}
			}},
		},
	})
	register(&Property{ID: "P10", Level: "exploration",
		Rule:    "One evaluation is one mask encoded by an encoder with a history, interpreted by the reference interpreter and by mask.Rasterize; distinct by the produced operations, non-trivial if they are more than one.",
		Require: []string{"masks", "opcodes", "pixels", "elongated_masks", "island_masks", "offset_runs"},
		Workloads: []Workload{
			{Name: "history", Quick: 350, Thorough: 3500, Run: func(c *Ctx) {
				h := &encoderHistory{enc: &mask.Encoder{}, buf: c.Bytes(c.Intn(5))}
				if c.OneIn(3) {
					h.buf = nil
				}
				for i := 0; i < 25; i++ {
					img := c.Mask(pick(c.RNG, []int{3, 8, 16, 30}))
					if i == 0 {
						c.Sample("%s", dumpMask(img))
					}
					checkEncode(c, h, img)
					if c.OneIn(5) {
						checkEncode(c, h, img)
					}
				}
			}},
			{Name: "large", Quick: 40, Thorough: 400, Run: func(c *Ctx) {
				h := &encoderHistory{enc: &mask.Encoder{}}
				for i := 0; i < 3; i++ {
					w, hh := c.Range(1, 600), c.Range(1, 40)
					if c.Bool() {
						w, hh = hh, w
					}
					checkEncode(c, h, c.MaskSize(w, hh))
				}
			}},
			{Name: "elongated", Quick: 48, Thorough: 480, Run: func(c *Ctx) {
				// shapes many times longer than what one operation draws
				h := &encoderHistory{enc: &mask.Encoder{}}
				x0, y0 := c.Range(-2000, 10), c.Range(-2000, 10)
				var img *image.Alpha
				switch c.Intn(5) {
				case 4: // small shapes in a long mask
					img = c.MaskSize(pick(c.RNG, []int{600, 1030, 1100, 2100}), c.Range(1, 6))
				case 0, 1: // bars
					n := pick(c.RNG, []int{700, 768, 769, 1023, 1024, 1025, 1300, 2000, 2049, 4000})
					w, hh := n, c.Range(1, 4)
					if c.Bool() {
						w, hh = hh, w
					}
					img = image.NewAlpha(image.Rect(x0, y0, x0+w, y0+hh))
					col, other := uint8(1+c.Intn(255)), c.Byte()
					for i := range img.Pix {
						if img.Pix[i] = col; c.OneIn(500) {
							img.Pix[i] = other
						}
					}
				case 2: // long diagonals over noise of other colors
					n := pick(c.RNG, []int{257, 300, 513, 600})
					img = image.NewAlpha(image.Rect(x0, y0, x0+n+c.Intn(3), y0+n))
					col, other := uint8(1+c.Intn(255)), c.Byte()
					if other == col {
						other = 0
					}
					for i := range img.Pix {
						if !c.OneIn(3) {
							img.Pix[i] = other
						}
					}
					asc := c.Bool()
					for i := 0; i < n; i++ {
						y := i
						if asc {
							y = n - 1 - i
						}
						img.SetAlpha(x0+i, y0+y, color.Alpha{col})
					}
				default: // rectangles longer than an operation on both sides
					w, hh := c.Range(257, 560), c.Range(257, 560)
					if c.OneIn(4) {
						w = pick(c.RNG, []int{1030, 1100})
					}
					img = image.NewAlpha(image.Rect(x0, y0, x0+w, y0+hh))
					col := uint8(1 + c.Intn(255))
					for i := range img.Pix {
						img.Pix[i] = col
					}
					for k := c.Intn(4); k > 0; k-- {
						img.Pix[c.Intn(len(img.Pix))] = c.Byte()
					}
				}
				checkEncode(c, h, img)
				checkEncode(c, h, c.Mask(10))
				c.Count("elongated_masks", 1)
			}},
			{Name: "islands", Quick: 60, Thorough: 600, Run: func(c *Ctx) {
				// a few small shapes somewhere in a large, otherwise empty mask
				h := &encoderHistory{enc: &mask.Encoder{}}
				dims := []int{5, 20, 130, 260, 300, 514, 520, 1028, 1100, 2050, 2100}
				for i := 0; i < 12; i++ {
					w, hh := pick(c.RNG, dims), pick(c.RNG, dims)
					for w*hh > 150_000 {
						w, hh = w/2+1, hh/3+1
						if c.Bool() {
							w, hh = hh, w
						}
					}
					x0, y0 := pick(c.RNG, []int{0, 0, -w, -w / 2, 200, -1200}), pick(c.RNG, []int{0, -hh, -hh / 2, 200, -1200})
					img := image.NewAlpha(image.Rect(x0, y0, x0+w, y0+hh))
					cols := []uint8{255, 255, 7, 1}
					for k := c.Range(1, 3); k > 0; k-- {
						sw, sh := c.Range(1, min(5, w)), c.Range(1, min(5, hh))
						px, py := c.Intn(w-sw+1), c.Intn(hh-sh+1)
						switch c.Intn(4) { // mostly near the far end
						case 0, 1:
							px, py = max(0, w-sw-c.Intn(3)), max(0, hh-sh-c.Intn(3))
						case 2:
							px = max(0, w-sw-c.Intn(8))
						}
						col := pick(c.RNG, cols)
						for y := 0; y < sh; y++ {
							for x := 0; x < sw; x++ {
								if c.OneIn(3) {
									continue
								}
								v := col
								if c.OneIn(12) {
									v = pick(c.RNG, cols)
								}
								img.Pix[img.PixOffset(x0+px+x, y0+py+y)] = v
							}
						}
					}
					checkEncode(c, h, img)
				}
				c.Count("island_masks", 12)
			}},
			{Name: "far", Quick: 60, Thorough: 600, Run: func(c *Ctx) {
				h := &encoderHistory{enc: &mask.Encoder{}}
				for i := 0; i < 4; i++ {
					edge := []int{-700, -513, -512, -385, -384, -257, -256, -255, -129, -128, -127, -1, 0, 1, 127, 128, 129, 255, 256, 257, 384, 385, 700}
					x, y := pick(c.RNG, edge)+c.Range(-1, 1), pick(c.RNG, edge)+c.Range(-1, 1)
					img := image.NewAlpha(image.Rect(x, y, x+c.Range(1, 4), y+c.Range(1, 4)))
					c.Paint(img)
					if c.Bool() { // two far apart spots
						x2, y2 := pick(c.RNG, edge), pick(c.RNG, edge)
						img = image.NewAlpha(image.Rect(min(x, x2), min(y, y2), max(x, x2)+1, max(y, y2)+1))
						img.SetAlpha(x, y, color.Alpha{1 + uint8(c.Intn(255))})
						img.SetAlpha(x2, y2, color.Alpha{1 + uint8(c.Intn(255))})
					}
					checkEncode(c, h, img)
				}
			}},
			{Name: "lengths", Quick: 60, Thorough: 600, Run: func(c *Ctx) {
				// runs of every critical length, in all directions
				h := &encoderHistory{enc: &mask.Encoder{}}
				for i := 0; i < 6; i++ {
					n := pick(c.RNG, []int{1, 2, 3, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 600})
					k := pick(c.RNG, []int{1, 2, 3, 5})
					var img *image.Alpha
					switch c.Intn(5) {
					case 0, 1:
						w, hh := n, k
						if c.Bool() {
							w, hh = k, n
						}
						img = image.NewAlpha(image.Rect(0, 0, w, hh))
						for i := range img.Pix {
							img.Pix[i] = 255
						}
						if c.OneIn(3) {
							img.Pix[c.Intn(len(img.Pix))] = c.Byte()
						}
					case 2:
						img = image.NewAlpha(image.Rect(-3, -3, n, n))
						for i := 0; i < n; i++ {
							img.SetAlpha(i-3, i-3, color.Alpha{200})
						}
					case 3:
						img = image.NewAlpha(image.Rect(0, 0, n, n))
						for i := 0; i < n; i++ {
							img.SetAlpha(i, n-1-i, color.Alpha{200})
						}
					default:
						img = image.NewAlpha(image.Rect(0, 0, n, 3))
						for i := 0; i < n; i++ {
							img.SetAlpha(i, c.Intn(3), color.Alpha{uint8(1 + c.Intn(3))})
						}
					}
					checkEncode(c, h, img)
				}
			}},
			{Name: "offsets", Fixed: true, Quick: 256, Thorough: 256, Run: func(c *Ctx) {
				// every kind of run, short and longer than one operation, at every
				// offset within a byte and in every color
				h := &encoderHistory{enc: &mask.Encoder{}}
				k := c.Case % 256
				for _, n := range []int{5, 300} {
					for kind := 0; kind < 5; kind++ {
						x, y := k*(1-2*c.Intn(2)), k*(1-2*c.Intn(2))
						w, hh := [5]int{n, 1, n, n, 3}[kind], [5]int{1, n, n, n, 4}[kind]
						if kind == 4 && n > 256 {
							continue
						}
						img := image.NewAlpha(image.Rect(x, y, x+w, y+hh))
						col := color.Alpha{uint8(max(k, 1))}
						for i := 0; i < max(w, hh); i++ {
							switch kind {
							case 0:
								img.SetAlpha(x+i, y, col)
							case 1:
								img.SetAlpha(x, y+i, col)
							case 2:
								img.SetAlpha(x+i, y+i, col)
							case 3:
								img.SetAlpha(x+i, y+n-1-i, col)
							default:
								for j := 0; j < w; j++ {
									img.SetAlpha(x+j, y+i, col)
								}
							}
						}
						checkEncode(c, h, img)
						c.Count("offset_runs", 1)
					}
				}
			}},
			{Name: "tiny", Quick: 64, Thorough: 256, Run: func(c *Ctx) {
				// all two-color masks of small sizes, a slice per case
				h := &encoderHistory{enc: &mask.Encoder{}}
				sizes := []image.Point{{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 2}, {2, 3}, {3, 3}, {4, 3}, {3, 4}}
				for _, s := range sizes {
					n := s.X * s.Y
					total := 1 << n
					for v := 0; v < total; v++ {
						if n > 6 && (v+c.Case)%pickStride(c.Thorough, n) != 0 {
							continue
						}
						img := image.NewAlpha(image.Rect(0, 0, s.X, s.Y))
						for i := 0; i < n; i++ {
							if v>>i&1 != 0 {
								img.Pix[i] = 255
							}
						}
						if c.Case%2 == 1 {
							for i := range img.Pix {
								if img.Pix[i] != 0 && c.Bool() {
									img.Pix[i] = 7
								}
							}
						}
						checkEncode(c, h, img)
					}
				}
			}},
		},
	})
	register(&Property{ID: "P11", Level: "exploration",
		Rule:      "One case is one font whose settings, options and words are all read back; non-trivial if it has a setting with options.",
		Require:   []string{"settings", "options"},
		Workloads: []Workload{fileWorkload("file", "settings", 700, 7000, checkSettings, func(m *Model) bool { return len(m.Settings) > 0 })},
	})
	register(&Property{ID: "P12", Level: "exploration",
		Rule:      "One case is one font whose mapped code points (and their neighbours and absent ones) are looked up under random setting assignments; non-trivial if it maps at least two code points.",
		Require:   []string{"mapping_hits", "mapping_misses", "switch_hits", "nonzero_case_hits", "multi_glyph_groups", "switch_evaluations"},
		Workloads: []Workload{fileWorkload("file", "mapping", 700, 7000, func(c *Ctx, f *ggfnt.Font, m *Model) { checkMapping(c, f, m, 4) }, func(m *Model) bool { return len(m.Mappings) >= 2 })},
	})
	register(&Property{ID: "P14", Level: "exploration",
		Rule:      "One case is one font whose stored kerning pairs, pairs similar to them and random pairs are looked up; non-trivial if it has at least two pairs.",
		Require:   []string{"kerning_hits", "kerning_queries"},
		Workloads: []Workload{fileWorkload("file", "kerning", 900, 9000, checkKerning, func(m *Model) bool { return len(m.Kern)+len(m.VKern) >= 2 })},
	})
	register(&Property{ID: "P15", Level: "exploration",
		Rule:    "One case is one font whose conditions are all evaluated under random setting values; non-trivial if a condition is compound.",
		Require: []string{"conditions_true", "conditions_false", "compound_conditions"},
		Workloads: []Workload{fileWorkload("file", "conditions", 900, 9000, func(c *Ctx, f *ggfnt.Font, m *Model) { checkConditions(c, f, m, 8) }, func(m *Model) bool {
			for _, k := range m.Conds {
				if len(k.Terms) > 0 {
					return true
				}
			}
			return false
		})},
	})
	register(&Property{ID: "P16", Level: "exploration",
		Rule:    "One case is one font whose rewrite sets and rules are all read back; non-trivial if it has sets or rules.",
		Require: []string{"rewrite_sets", "rewrite_rules", "ranges"},
		Workloads: []Workload{fileWorkload("file", "rewrites", 500, 5000, func(c *Ctx, f *ggfnt.Font, m *Model) { checkRewrites(c, f, m, true) }, func(m *Model) bool {
			return len(m.RuneSets)+len(m.GlyphSets)+len(m.RuneRules)+len(m.GlyphRules) > 0
		})},
	})
}

func pickStride(thorough bool, n int) int {
	if thorough {
		return 1 << (n - 6)
	}
	return 4 << (n - 6)
}
