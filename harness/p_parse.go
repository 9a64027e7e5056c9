package main

import (
	"bytes"
	"compress/gzip"
	"encoding/binary"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"runtime"
	"runtime/debug"

	"github.com/tinne26/ggfnt"
)

// ---------------------------------------------------------------------------
// P01, P02: what Parse does with streams that are not well-formed fonts.
// ---------------------------------------------------------------------------

const limitBytes = 32 << 20

// meteredReader counts the bytes the parser pulls and hides every other
// method of the underlying reader.
type meteredReader struct {
	r io.Reader
	n int64
}

func (m *meteredReader) Read(p []byte) (int, error) {
	n, err := m.r.Read(p)
	m.n += int64(n)
	return n, err
}

// hostileParse parses a stream watching for crashes and excessive resource use.
func hostileParse(c *Ctx, what string, r io.Reader) (*ggfnt.Font, error, int64) {
	mr := &meteredReader{r: r}
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	var f *ggfnt.Font
	var err error
	p, stack := Try(func() { f, err = ggfnt.Parse(mr) })
	if p != nil {
		c.Fail("panic", "Parse panicked on %s: %v\n%s", what, p, trimStack(stack))
	}
	runtime.ReadMemStats(&after)
	if err == nil && f == nil {
		c.Failf("Parse returned neither a font nor an error on %s", what)
	}
	if err == nil && f.RawSize() > limitBytes {
		c.Failf("Parse inflated %d bytes on %s", f.RawSize(), what)
	}
	alloc := after.TotalAlloc - before.TotalAlloc
	if alloc > 40*limitBytes {
		c.Failf("Parse allocated %d bytes on %s", alloc, what)
	}
	if int64(alloc) > c.counters["max_alloc_mib"]<<20 {
		c.counters["max_alloc_mib"] = int64(alloc >> 20)
	}
	if err == nil {
		c.Count("parses_accepted", 1)
	} else {
		c.Count("parses_rejected", 1)
	}
	return f, err, mr.n
}

func le(n int, width int) []byte {
	var b [8]byte
	binary.LittleEndian.PutUint64(b[:], uint64(n))
	return b[:width]
}

// mutateRaw damages uncompressed font content.
func mutateRaw(c *Ctx, raw, other []byte, secs, osecs []Section) ([]byte, string) {
	b := append([]byte(nil), raw...)
	desc := ""
	for k := 1 + c.Skew(3); k > 0; k-- {
		if len(b) == 0 {
			break
		}
		i := c.Intn(len(b))
		if c.OneIn(3) { // close to the start of a section, where the counts are
			s := secs[c.Intn(len(secs))]
			i = min(len(b)-1, s.Start+c.Intn(4))
		}
		switch c.Intn(9) {
		case 0:
			b[i] ^= 1 << c.Intn(8)
			desc += fmt.Sprintf(" flip@%d", i)
		case 1:
			b[i] = pick(c.RNG, []byte{0, 1, 2, 127, 128, 253, 254, 255})
			desc += fmt.Sprintf(" set@%d=%d", i, b[i])
		case 2:
			b[i] = c.Byte()
			desc += fmt.Sprintf(" set@%d=%d", i, b[i])
		case 3: // 16/24/32-bit value
			w := c.Range(2, 4)
			v := pick(c.RNG, []int{0, 1, 255, 256, 65535, 65534, 0xFFFFFF, 0x7FFFFFFF, 0xFFFFFFFF, c.Intn(1 << 16)})
			copy(b[i:], le(v, w))
			desc += fmt.Sprintf(" set@%d=%d/%d", i, v, w)
		case 4: // delete
			n := min(1+c.Skew(20), len(b)-i)
			b = append(b[:i:i], b[i+n:]...)
			desc += fmt.Sprintf(" del@%d+%d", i, n)
		case 5: // insert
			n := 1 + c.Skew(20)
			ins := c.Bytes(n)
			if c.Bool() {
				ins = make([]byte, n)
			}
			b = append(b[:i:i], append(ins, b[i:]...)...)
			desc += fmt.Sprintf(" ins@%d+%d", i, n)
		case 6: // duplicate or move a range
			n := min(1+c.Skew(40), len(b)-i)
			j := c.Intn(len(b))
			b = append(b[:j:j], append(append([]byte(nil), b[i:i+n]...), b[j:]...)...)
			desc += fmt.Sprintf(" dup@%d+%d->%d", i, n, j)
		case 7: // truncate
			b = b[:i]
			desc += fmt.Sprintf(" cut@%d", i)
		case 8: // splice at section boundaries of another font
			s := c.Intn(len(secs))
			if secs[s].Start <= len(b) {
				if c.Bool() {
					b = append(b[:secs[s].Start:secs[s].Start], other[osecs[s].Start:]...)
				} else if s+1 < len(secs) && secs[s+1].Start <= len(b) {
					mid := other[osecs[s].Start:osecs[s+1].Start]
					b = append(b[:secs[s].Start:secs[s].Start], append(append([]byte(nil), mid...), b[secs[s+1].Start:]...)...)
				}
				desc += " splice@" + secs[s].Name
			}
		}
	}
	return b, desc
}

// smallModel makes a font small enough to be parsed thousands of times.
func smallModel(c *Ctx) *Model {
	only := pick(c.RNG, []string{"", "", "header", "color", "names", "glyphs", "settings", "mapping", "conditions", "rewrites", "kerning", "none"})
	for i := 0; ; i++ {
		m := c.Model(ModelOpts{Only: only, MaxGlyphs: pick(c.RNG, []int{1, 4, 20})})
		raw, _ := m.encode()
		if len(raw) < 3000 || i > 30 {
			return m
		}
	}
}

// alignedRaw makes the content of a small font, with its length a multiple of
// a likely buffer size.
func alignedRaw(c *Ctx) ([]byte, int) {
	m := smallModel(c)
	raw, _ := m.encode()
	unit := pick(c.RNG, []int{512, 1024, 4096, 32768, 32768, 32768, 65536})
	pad := (unit - len(raw)%unit) % unit
	if len(m.Abut)+pad > 65535 {
		m.Abut = ""
		raw, _ = m.encode()
		pad = (unit - len(raw)%unit) % unit
	}
	m.Abut += string(bytes.Repeat([]byte{'p'}, pad))
	raw, _ = m.encode()
	if len(raw)%unit != 0 {
		panic("alignedRaw")
	}
	return raw, unit
}

// store wraps content in a gzip stream without compressing it, through an
// independent encoder (so that infinite content can be streamed).
type zeroTail struct {
	head []byte
	n    int64 // zeros to produce after head
}

func (z *zeroTail) Read(p []byte) (int, error) {
	if len(z.head) > 0 {
		n := copy(p, z.head)
		z.head = z.head[n:]
		return n, nil
	}
	if z.n <= 0 {
		return 0, io.EOF
	}
	n := int64(len(p))
	if n > z.n {
		n = z.n
	}
	for i := range p[:n] {
		p[i] = 0
	}
	z.n -= n
	return int(n), nil
}

// storedStream produces gzip with stored blocks of 65535 bytes.
type storedStream struct {
	src  io.Reader
	buf  []byte
	blk  [65535]byte
	crc  uint32
	size uint32
	done bool
}

func newStored(src io.Reader) *storedStream {
	return &storedStream{src: src, buf: []byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255}}
}

func (s *storedStream) Read(p []byte) (int, error) {
	if len(s.buf) == 0 {
		if s.done {
			return 0, io.EOF
		}
		n, err := io.ReadFull(s.src, s.blk[:])
		final := byte(0)
		if err != nil {
			final = 1
			s.done = true
		}
		s.crc = crc32.Update(s.crc, crc32.IEEETable, s.blk[:n])
		s.size += uint32(n)
		s.buf = append(s.buf[:0], final, byte(n), byte(n>>8), ^byte(n), ^byte(n>>8))
		s.buf = append(s.buf, s.blk[:n]...)
		if s.done {
			s.buf = append(s.buf, le(int(s.crc), 4)...)
			s.buf = append(s.buf, le(int(s.size), 4)...)
		}
	}
	n := copy(p, s.buf)
	s.buf = s.buf[n:]
	return n, nil
}

// bombHead makes font content that claims an enormous table, and returns the
// bytes up to that table.
func bombHead(c *Ctx) ([]byte, string) {
	m := c.Model(ModelOpts{Only: "none", MaxGlyphs: 4, NoOps: true})
	kind := c.Intn(6)
	if kind <= 1 {
		for len(m.Glyphs) < 5000 {
			m.Glyphs = append(m.Glyphs, MGlyph{})
		}
		m.Met.NumGlyphs = uint16(len(m.Glyphs))
		m.Met.Vert, m.Met.VInter, m.Met.VLineW, m.Met.VLineGap = false, 0, 0, 0
	}
	raw, secs := m.encode()
	at := func(name string) int {
		for _, s := range secs {
			if s.Name == name {
				return s.Start
			}
		}
		panic("no section " + name)
	}
	switch kind {
	case 0:
		return append(raw[:at("kerning"):at("kerning")], 0xFF, 0xFF, 0xFF), "kerning pairs"
	case 1:
		b := append(raw[:at("vertkerning"):at("vertkerning")], 0xFF, 0xFF, 0xFF)
		return b, "vertical kerning pairs"
	case 2:
		o := at("mapping")
		b := append(raw[:o:o], 0xFF, 0xFF)
		return b, "mapping"
	case 3:
		o := at("runerules")
		b := append(raw[:o:o], 0xFF, 0xFF)
		return b, "utf8 rules"
	case 4:
		o := at("masks")
		return raw[:o:o], "glyphs"
	default:
		return raw[:c.Intn(len(raw)+1)], "content"
	}
}

func init() {
	register(&Property{ID: "P01", Level: "exploration",
		Rule:        "One evaluation is one byte stream given to Parse; non-trivial if it carries the right signature and a readable gzip header. Monitors: panics, stalls, bytes pulled, bytes inflated and allocated.",
		Require:     []string{"parses_accepted", "parses_rejected", "bombs", "over_limit_rejected"},
		Assumptions: []string{"compress/gzip and runtime.MemStats behave as documented"},
		Workloads: []Workload{
			{Name: "mutated", Quick: 2400, Thorough: 40000, Run: func(c *Ctx) {
				m, o := smallModel(c), smallModel(c)
				raw, secs := m.encode()
				other, osecs := o.encode()
				for i := 0; i < 60; i++ {
					b, desc := mutateRaw(c, raw, other, secs, osecs)
					if i == 0 {
						c.Sample("font of %d bytes with%s", len(raw), desc)
					}
					hostileParse(c, "content changed by"+desc, bytes.NewReader(packLevel(b, 0)))
					c.Eval(hashBytes(b), true)
				}
			}},
			{Name: "fields", Quick: 320, Thorough: 4000, Run: func(c *Ctx) {
				// every byte of a font set to extreme values, one at a time and
				// in pairs at the same distance
				m := smallModel(c)
				raw, _ := m.encode()
				vals := []byte{0, 1, 127, 128, 254, 255, c.Byte()}
				step := 1 + len(raw)/400
				for i := c.Intn(step); i < len(raw); i += step {
					b := append([]byte(nil), raw...)
					b[i] = pick(c.RNG, vals)
					if c.Bool() && i+1 < len(b) {
						b[i+1] = pick(c.RNG, vals)
					}
					hostileParse(c, fmt.Sprintf("content with byte %d set to %d", i, b[i]), bytes.NewReader(packLevel(b, 0)))
					c.Eval(hashBytes(b), true)
				}
			}},
			{Name: "stream", Quick: 1200, Thorough: 12000, Run: func(c *Ctx) {
				// damage outside the content: signature, gzip header, deflate data
				m := smallModel(c)
				raw, _ := m.encode()
				file := packLevel(raw, pick(c.RNG, []int{0, 1, 6, 9, gzip.HuffmanOnly}))
				for i := 0; i < 30; i++ {
					b := append([]byte(nil), file...)
					what := ""
					switch c.Intn(8) {
					case 0:
						b = b[:c.Intn(len(b)+1)]
						what = "truncated file"
					case 1:
						for k := c.Range(1, 4); k > 0; k-- {
							b[c.Intn(min(len(b), 40))] = c.Byte()
						}
						what = "damaged start of file"
					case 2:
						for k := c.Range(1, 8); k > 0; k-- {
							b[c.Intn(len(b))] = c.Byte()
						}
						what = "damaged file"
					case 3:
						b = append(b, c.Bytes(1+c.Skew(100))...)
						what = "extended file"
					case 4:
						b = append([]byte("tggfnt"), c.Bytes(c.Skew(300))...)
						what = "random bytes after the signature"
					case 5:
						b = c.Bytes(c.Skew(300))
						what = "random bytes"
					case 6: // content split over several gzip members
						b = []byte("tggfnt")
						at := c.Intn(len(raw) + 1)
						for _, part := range [][]byte{raw[:at], nil, raw[at:]} {
							b = append(b, packLevel(part, 6)[6:]...)
						}
						what = "several gzip members"
						if c.Bool() {
							b[6+c.Intn(len(b)-6)] ^= 1 << c.Intn(8)
						}
					case 7: // gzip header with all the optional fields
						var zb bytes.Buffer
						zb.WriteString("tggfnt")
						zw := gzip.NewWriter(&zb)
						zw.Name, zw.Comment, zw.Extra = "name", "comment", c.Bytes(c.Intn(300))
						zw.Write(raw)
						zw.Close()
						b = zb.Bytes()
						what = "gzip optional fields"
						if c.Bool() {
							b[6+c.Intn(len(b)-6)] ^= 1 << c.Intn(8)
						}
					}
					hostileParse(c, what, bytes.NewReader(b))
					c.Eval(hashBytes(b), len(b) > 16)
				}
			}},
			{Name: "random", Quick: 800, Thorough: 8000, Run: func(c *Ctx) {
				for i := 0; i < 40; i++ {
					b := c.Bytes(c.Skew(600))
					if len(b) > 4 && c.Bool() { // a format version that is accepted
						copy(b, le(2, 4))
					}
					if c.OneIn(4) {
						for j := range b {
							if !c.OneIn(8) {
								b[j] = 0
							}
						}
					}
					hostileParse(c, "random content", bytes.NewReader(packLevel(b, 0)))
					c.Eval(hashBytes(b), true)
				}
			}},
			{Name: "bomb", Quick: 64, Thorough: 640, Run: func(c *Ctx) {
				// tables that claim far more than the limit, backed by enough zeros
				head, what := bombHead(c)
				claim := int64(160 << 20)
				stored := c.Bool()
				var src io.Reader = &zeroTail{head: head, n: claim}
				var r io.Reader
				if stored {
					r = io.MultiReader(bytes.NewReader([]byte("tggfnt")), newStored(src))
				} else {
					pr, pw := io.Pipe()
					go func() {
						pw.Write([]byte("tggfnt"))
						zw, _ := gzip.NewWriterLevel(pw, 1)
						io.Copy(zw, src)
						zw.Close()
						pw.Close()
					}()
					defer pr.Close()
					r = pr
				}
				debug.FreeOSMemory()
				_, err, pulled := hostileParse(c, "a bomb ("+what+")", r)
				if err == nil {
					c.Failf("a stream of %d bytes is accepted (%s)", claim, what)
				}
				if stored && pulled > limitBytes+limitBytes/64+1<<20 {
					c.Failf("the parser read %d uncompressed bytes (%s)", pulled, what)
				}
				c.Count("bombs", 1)
				if int64(pulled) > c.counters["max_pulled_mib"]<<20 {
					c.counters["max_pulled_mib"] = pulled >> 20
				}
				c.Eval(hashBytes(head), true)
				c.Sample("bomb: %s, stored=%v, %d bytes pulled, error %v", what, stored, pulled, err)
			}},
			{Name: "limit", Quick: 8, Thorough: 32, Run: func(c *Ctx) {
				// otherwise well-formed fonts whose kerning makes them exceed, or
				// not, the documented size
				m := c.Model(ModelOpts{Only: "none", MaxGlyphs: 2, NoOps: true})
				for len(m.Glyphs) < 3000 {
					m.Glyphs = append(m.Glyphs, MGlyph{})
				}
				m.Met.NumGlyphs = uint16(len(m.Glyphs))
				m.Met.Vert, m.Met.VInter, m.Met.VLineW, m.Met.VLineGap = false, 0, 0, 0
				raw, secs := m.encode()
				var o, vo int
				for _, s := range secs {
					if s.Name == "kerning" {
						o = s.Start
					}
					if s.Name == "vertkerning" {
						vo = s.Start
					}
				}
				over := c.Case%2 == 0
				pairs := 6_600_000 // 33 MB
				if over {
					pairs = c.Range(6_720_000, 8_900_000)
				} else {
					pairs = c.Range(5_000_000, 6_500_000)
				}
				b := append(make([]byte, 0, len(raw)+pairs*5), raw[:o]...)
				b = append(b, le(pairs, 3)...)
				for i := 0; i < pairs; i++ {
					b = append(b, le((i/3000)<<16|i%3000, 4)...)
				}
				for i := 0; i < pairs; i++ {
					b = append(b, byte(i|1))
				}
				b = append(b, raw[vo:]...)
				_, err, _ := hostileParse(c, fmt.Sprintf("a font of %d bytes", len(b)), bytes.NewReader(pack(b)))
				if over && err == nil {
					c.Failf("a font of %d bytes, over the limit, is accepted", len(b))
				}
				if !over && err != nil {
					c.Failf("a well-formed font of %d bytes, below the limit, is rejected: %v", len(b), err)
				}
				if over {
					c.Count("over_limit_rejected", 1)
				}
				c.Eval(uint64(len(b)), true)
			}},
		},
	})

	register(&Property{ID: "P02", Level: "fault_enumeration",
		Rule:        "One evaluation is one damaged version of a valid file given to Parse: every cut of the file, every cut and many extensions of the content, every bit of the compressed stream flipped, wrong signatures. Non-trivial if the damage changes what an independent gzip reader returns (or makes it fail).",
		Require:     []string{"file_cuts", "content_cuts", "content_extensions", "stream_damage", "signatures", "aligned_files"},
		Assumptions: []string{"the independent reference for the compressed stream is Go's compress/gzip itself: damage it does not notice is not judged"},
		Workloads: []Workload{
			{Name: "cuts", Quick: 200, Thorough: 4000, Run: func(c *Ctx) {
				m := smallModel(c)
				raw, _ := m.encode()
				level := pick(c.RNG, []int{0, 1, 6, 9})
				file := packLevel(raw, level)
				mustParse(c, file)
				c.Sample("font of %d bytes: %s", len(raw), m.summary())
				for n := 0; n < len(file); n++ {
					reject(c, fmt.Sprintf("file cut to %d of %d bytes", n, len(file)), file[:n])
					c.Count("file_cuts", 1)
					c.Eval(hashBytes(file[:n]), true)
				}
			}},
			{Name: "content", Quick: 200, Thorough: 4000, Run: func(c *Ctx) {
				m := smallModel(c)
				raw, secs := m.encode()
				mustParse(c, pack(raw))
				for n := 0; n < len(raw); n++ {
					reject(c, fmt.Sprintf("content cut to %d of %d bytes (%s)", n, len(raw), sectionAt(secs, n)), packLevel(raw[:n], 0))
					c.Count("content_cuts", 1)
					c.Eval(hashBytes(raw[:n]), true)
				}
				for _, n := range []int{1, 2, 3, 4, 5, 7, 8, 15, 16, 100, 500, 1000, 1023, 1024, 1025, 2048, 5000, 70000, 1 + c.Skew(3000)} {
					for _, ext := range [][]byte{make([]byte, n), c.Bytes(n)} {
						b := append(append([]byte(nil), raw...), ext...)
						reject(c, fmt.Sprintf("content of %d bytes extended by %d", len(raw), n), packLevel(b, 0))
						// the same in a second gzip member
						reject(c, fmt.Sprintf("content of %d bytes extended by a gzip member of %d", len(raw), n), append(packLevel(raw, 0), packLevel(ext, 6)[6:]...))
						c.Count("content_extensions", 2)
						c.Eval(hashBytes(b), true)
						reject(c, fmt.Sprintf("file extended by %d bytes", n), append(packLevel(raw, 1), c.Bytes(n)...))
					}
				}
				// content whose length is a multiple of likely buffer sizes
				for _, target := range []int{1024, 2048, 4096} {
					if len(raw)+2 > target || len(m.Abut)+target-len(raw) > 65535 {
						continue
					}
					m2 := *m
					m2.Abut = m.Abut + string(bytes.Repeat([]byte{'p'}, target-len(raw)))
					r2, _ := m2.encode()
					mustParse(c, pack(r2))
					for _, d := range []int{-2, -1, 1, 2} {
						b := append(append([]byte(nil), r2...), 0, 0)[:len(r2)+d]
						reject(c, fmt.Sprintf("content of %d bytes resized by %d", len(r2), d), packLevel(b, 0))
						c.Count("content_extensions", 1)
						c.Eval(hashBytes(b), true)
					}
				}
			}},
			{Name: "aligned", Quick: 120, Thorough: 2400, Run: func(c *Ctx) {
				// content whose length is a multiple of the window and buffer sizes of
				// the decompressor and the parser, which is when the end of the data and
				// the end of the stream are seen separately
				raw, unit := alignedRaw(c)
				file := packLevel(raw, pick(c.RNG, []int{0, 1, 6, 9, gzip.HuffmanOnly}))
				mustParse(c, file)
				c.Count("aligned_files", 1)
				for n := max(0, len(file)-60); n < len(file); n++ {
					reject(c, fmt.Sprintf("file with %d bytes of content (a multiple of %d) cut to %d of %d bytes", len(raw), unit, n, len(file)), file[:n])
					c.Count("file_cuts", 1)
					c.Eval(hashBytes(file[:n]), true)
				}
				for i := len(file) - 12; i < len(file); i++ {
					for bit := 0; bit < 8; bit++ {
						b := append([]byte(nil), file...)
						b[i] ^= 1 << bit
						if _, err := gunzipFont(b); err == nil {
							continue
						}
						reject(c, fmt.Sprintf("stream with %d bytes of content (a multiple of %d) with byte %d of %d changed from %d to %d", len(raw), unit, i, len(file), file[i], b[i]), b)
						c.Count("stream_damage", 1)
						c.Eval(hashBytes(b), true)
					}
				}
				for _, n := range []int{1, 2, 1 + c.Intn(100), unit - 1, unit, unit + 1} {
					b := append(append([]byte(nil), raw...), make([]byte, n)...)
					for _, level := range []int{0, 6} {
						reject(c, fmt.Sprintf("content of %d bytes extended by %d", len(raw), n), packLevel(b, level))
					}
					reject(c, fmt.Sprintf("content of %d bytes extended by a gzip member of %d", len(raw), n), append(packLevel(raw, 1), packLevel(b[len(raw):], 6)[6:]...))
					reject(c, fmt.Sprintf("file extended by %d bytes", n), append(packLevel(raw, 1), b[len(raw):]...))
					reject(c, fmt.Sprintf("content of %d bytes cut by %d", len(raw), n), packLevel(raw[:max(0, len(raw)-n)], 1))
					c.Count("content_extensions", 1)
					c.Eval(hashBytes(b), true)
				}
			}},
			{Name: "stream", Quick: 80, Thorough: 1600, Run: func(c *Ctx) {
				m := smallModel(c)
				raw, _ := m.encode()
				file := packLevel(raw, pick(c.RNG, []int{0, 1, 6, 9, gzip.HuffmanOnly}))
				step := 1
				if !c.Thorough {
					step = 1 + len(file)*10/6000
				}
				for i := 6 + c.Intn(step); i < len(file); i += step {
					if i > 6+30 && i < len(file)-12 {
						// within the deflate data
					} else {
						i -= step - 1 // all the bytes near both ends
						i = max(i, 6)
					}
					for bit := 0; bit <= 8; bit++ {
						b := append([]byte(nil), file...)
						if bit == 8 {
							b[i] = c.Byte()
							if b[i] == file[i] {
								continue
							}
						} else {
							b[i] ^= 1 << bit
						}
						got, err := gunzipFont(b)
						if err == nil && bytes.Equal(got, raw) {
							continue // e.g. the gzip header's time stamp
						}
						if err == nil {
							continue // cannot be told apart from another file
						}
						reject(c, fmt.Sprintf("stream with byte %d of %d changed from %d to %d", i, len(file), file[i], b[i]), b)
						c.Count("stream_damage", 1)
						c.Eval(hashBytes(b), true)
					}
				}
			}},
			{Name: "signature", Quick: 64, Thorough: 640, Run: func(c *Ctx) {
				m := smallModel(c)
				raw, _ := m.encode()
				file := packLevel(raw, 1)
				try := func(b []byte) {
					reject(c, fmt.Sprintf("signature %q", b[:min(6, len(b))]), b)
					c.Count("signatures", 1)
					c.Eval(hashBytes(b), true)
				}
				for i := 0; i < 6; i++ {
					for k := 0; k < 255; k += 1 + c.Intn(8) {
						b := append([]byte(nil), file...)
						b[i] += byte(1 + k)
						try(b)
					}
				}
				for _, s := range []string{"", "t", "tggfn", "TGGFNT", "wkgfnt", "ggfntt", "tggfnT", "\x00ggfnt"} {
					try(append([]byte(s), file[6:]...))
				}
				try(append([]byte{0}, file...))
				try(file[1:])
			}},
		},
	})
}

func sectionAt(secs []Section, off int) string {
	name := ""
	for _, s := range secs {
		if s.Start <= off {
			name = s.Name
		}
	}
	return name
}

func reject(c *Ctx, what string, file []byte) {
	var err error
	c.NoPanic("Parse of a "+what, func() { _, err = parseFont(file) })
	if err == nil {
		c.Failf("accepted: %s", what)
	}
}

var errInjected = errors.New("injected failure")
