package main

import (
	"bytes"
	"compress/gzip"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"runtime/debug"
	"slices"
	"strings"
	"time"

	"github.com/tinne26/ggfnt"
)

// ---------------------------------------------------------------------------
// P24: failing, fragmenting and leaking input and output.
// ---------------------------------------------------------------------------

// faultReader delivers data in pieces and fails at a position.
type faultReader struct {
	c        *Ctx
	data     []byte
	pos      int
	mode     int  // 0 as asked, 1 single bytes, 2 random pieces, 3 random pieces with empty reads, 4 halves
	failAt   int  // -1: never
	withData bool // deliver the last bytes along with the error or EOF
	err      error
	failed   bool
	empties  int
}

func (r *faultReader) Read(p []byte) (int, error) {
	end := len(r.data)
	if r.failAt >= 0 && r.failAt < end {
		end = r.failAt
	}
	fin := func() error {
		if r.failAt >= 0 {
			r.failed = true
			return r.err
		}
		return io.EOF
	}
	if r.pos >= end {
		return 0, fin()
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := min(len(p), end-r.pos)
	switch r.mode {
	case 1:
		n = 1
	case 2:
		n = 1 + r.c.Intn(n)
	case 3:
		if r.empties < 2 && r.c.OneIn(4) {
			r.empties++
			return 0, nil
		}
		r.empties = 0
		n = 1 + r.c.Intn(min(n, 9))
	case 4:
		n = (n + 1) / 2
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.withData && r.pos >= end {
		return n, fin()
	}
	return n, nil
}

// byteFaultReader also offers ReadByte, which gzip uses when it is there.
type byteFaultReader struct{ faultReader }

func (r *byteFaultReader) ReadByte() (byte, error) {
	var b [1]byte
	for i := 0; i < 50; i++ {
		n, err := r.Read(b[:])
		if n == 1 {
			return b[0], nil // the error shows up again on the next call
		}
		if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}

func (c *Ctx) faultReader(data []byte, failAt int) (io.Reader, *faultReader) {
	fr := faultReader{c: c, data: data, mode: c.Intn(5), failAt: failAt, withData: c.Bool(), err: errInjected}
	if failAt >= 0 && c.OneIn(4) {
		fr.err = pick(c.RNG, []error{io.ErrUnexpectedEOF, io.ErrClosedPipe, fs.ErrClosed, os.ErrDeadlineExceeded, io.ErrNoProgress})
	}
	if c.OneIn(3) {
		b := &byteFaultReader{fr}
		return b, &b.faultReader
	}
	return &fr, &fr
}

// faultWriter honors the io.Writer contract but fails at a position.
type faultWriter struct {
	buf    bytes.Buffer
	accept int // if positive, how many bytes of the first write are taken, without an error
	failAt int // -1 never
	short  bool
	failed bool
	calls  int
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.calls == 1 && w.accept > 0 && w.accept < len(p) {
		w.buf.Write(p[:w.accept])
		return w.accept, nil
	}
	if w.failAt >= 0 && w.buf.Len()+len(p) > w.failAt {
		w.failed = true
		n := 0
		if w.short {
			n = max(0, w.failAt-w.buf.Len())
			w.buf.Write(p[:n])
		}
		return n, errInjected
	}
	w.buf.Write(p)
	return len(p), nil
}

// fault-injecting file system
type faultFS struct {
	c      *Ctx
	data   []byte
	fault  string // "", open, stat, read, close
	failAt int
	size   int64
	plain  bool // large reads
	opens  int
	closes int
	fired  bool
}

type faultFile struct {
	fs *faultFS
	r  io.Reader
	fr *faultReader
}

func (f *faultFS) Open(name string) (fs.File, error) {
	if f.fault == "open" {
		f.fired = true
		return nil, &fs.PathError{Op: "open", Path: name, Err: errInjected}
	}
	f.opens++
	at := -1
	if f.fault == "read" {
		at = f.failAt
	}
	r, fr := f.c.faultReader(f.data, at)
	if f.plain {
		r = bytes.NewReader(f.data)
	}
	return &faultFile{f, r, fr}, nil
}
func (f *faultFile) Stat() (fs.FileInfo, error) {
	if f.fs.fault == "stat" {
		f.fs.fired = true
		return nil, errInjected
	}
	return faultInfo{f.fs.size}, nil
}
func (f *faultFile) Read(p []byte) (int, error) {
	n, err := f.r.Read(p)
	if f.fr.failed {
		f.fs.fired = true
	}
	return n, err
}
func (f *faultFile) Close() error {
	f.fs.closes++
	if f.fs.fault == "close" {
		f.fs.fired = true
		return errInjected
	}
	return nil
}

type faultInfo struct{ size int64 }

func (i faultInfo) Name() string       { return "font.ggfnt" }
func (i faultInfo) Size() int64        { return i.size }
func (i faultInfo) Mode() fs.FileMode  { return 0o444 }
func (i faultInfo) ModTime() time.Time { return time.Time{} }
func (i faultInfo) IsDir() bool        { return false }
func (i faultInfo) Sys() any           { return nil }

// openDescriptors counts this process's descriptors of a path.
func openDescriptors(path string) int {
	ents, err := os.ReadDir("/proc/self/fd")
	must(err)
	n := 0
	for _, e := range ents {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && t == path {
			n++
		}
	}
	return n
}

// sameFont compares by content and by a read of every section's counts.
func sameFont(c *Ctx, what string, f *ggfnt.Font, raw []byte) {
	if f == nil {
		c.Failf("%s: neither font nor error", what)
	}
	if !bytes.Equal(f.Data, raw) || f.RawSize() != len(raw) {
		c.Failf("%s: the font's content differs", what)
	}
}

func init() {
	register(&Property{ID: "P24", Level: "fault_enumeration",
		Rule:        "One evaluation is one export, parse or load with a failing or fragmenting reader, writer or file system; faults are placed at every byte of each generated file. Non-trivial if a fault fired or the transfer was fragmented.",
		Require:     []string{"read_faults", "fragmented_reads", "write_faults", "fs_faults", "path_opens", "files_closed", "big_files"},
		Assumptions: []string{"readers and writers honor the io.Reader and io.Writer contracts, except that a writer may silently take only part of the signature (compress/gzip does not notice silent short writes of what it writes)"},
		Workloads: []Workload{
			{Name: "fragmented", Quick: 400, Thorough: 6000, Run: func(c *Ctx) {
				m := smallModel(c)
				raw, _ := m.encode()
				file := packLevel(raw, pick(c.RNG, []int{0, 1, 6, 9}))
				for i := 0; i < 12; i++ {
					r, fr := c.faultReader(file, -1)
					var f *ggfnt.Font
					var err error
					what := fmt.Sprintf("reader mode %d (data with EOF %v, bytes %T)", fr.mode, fr.withData, r)
					c.NoPanic("Parse", func() { f, err = ggfnt.Parse(r) })
					if err != nil {
						c.Failf("%s: a well-formed font is rejected: %v", what, err)
					}
					sameFont(c, what, f, raw)
					checkHeader(c, f, m)
					c.Count("fragmented_reads", 1)
					c.Eval(hashBytes(raw)^uint64(i), true)
				}
			}},
			{Name: "read", Quick: 160, Thorough: 3000, Run: func(c *Ctx) {
				m := smallModel(c)
				raw, _ := m.encode()
				file := packLevel(raw, pick(c.RNG, []int{0, 1, 9}))
				c.Sample("file of %d bytes, a read failure at each of them", len(file))
				for at := 0; at <= len(file); at++ {
					r, fr := c.faultReader(file, at)
					var f *ggfnt.Font
					var err error
					what := fmt.Sprintf("read failing at byte %d of %d (mode %d, with data %v)", at, len(file), fr.mode, fr.withData)
					c.NoPanic("Parse with a "+what, func() { f, err = ggfnt.Parse(r) })
					if err == nil {
						if at < len(file) {
							c.Failf("%s: no error", what)
						}
						sameFont(c, what, f, raw)
					}
					if fr.failed {
						c.Count("read_faults", 1)
					}
					c.Eval(hashBytes(file)^mix(uint64(at)), fr.failed)
				}
			}},
			{Name: "aligned", Quick: 120, Thorough: 2400, Run: func(c *Ctx) {
				raw, unit := alignedRaw(c)
				file := packLevel(raw, pick(c.RNG, []int{1, 6, 9}))
				for i := 0; i < 6; i++ {
					r, fr := c.faultReader(file, -1)
					var f *ggfnt.Font
					var err error
					what := fmt.Sprintf("content of %d bytes (a multiple of %d), reader mode %d (data with EOF %v, bytes %T)", len(raw), unit, fr.mode, fr.withData, r)
					c.NoPanic("Parse", func() { f, err = ggfnt.Parse(r) })
					if err != nil {
						c.Failf("%s: a well-formed font is rejected: %v", what, err)
					}
					sameFont(c, what, f, raw)
					c.Count("fragmented_reads", 1)
					c.Eval(hashBytes(raw)^uint64(i), true)
				}
				for at := max(0, len(file)-60); at < len(file); at++ {
					r, fr := c.faultReader(file, at)
					var err error
					what := fmt.Sprintf("content of %d bytes, read failing at byte %d of %d (mode %d, with data %v)", len(raw), at, len(file), fr.mode, fr.withData)
					c.NoPanic("Parse with a "+what, func() { _, err = ggfnt.Parse(r) })
					if err == nil {
						c.Failf("%s: no error", what)
					}
					c.Count("read_faults", 1)
					c.Eval(hashBytes(file)^mix(uint64(at)), true)
				}
			}},
			{Name: "write", Quick: 160, Thorough: 3000, Run: func(c *Ctx) {
				m := smallModel(c)
				raw, _ := m.encode()
				f := mustParse(c, pack(raw))
				whole, err := exportFont(f)
				if err != nil {
					c.Failf("Export failed without a reason: %v", err)
				}
				back, err := gunzipFont(whole)
				if err != nil || !bytes.Equal(back, raw) {
					c.Failf("Export wrote something else than the content: %v", err)
				}
				for at := 0; at <= len(whole); at++ {
					w := &faultWriter{failAt: at, short: c.Bool()}
					var err error
					c.NoPanic(fmt.Sprintf("Export with a writer failing at %d", at), func() { err = f.Export(w) })
					if err == nil {
						if w.failed {
							c.Failf("Export to a writer failing at byte %d of %d (short %v) reports success", at, len(whole), w.short)
						}
						if back, err := gunzipFont(w.buf.Bytes()); err != nil || !bytes.Equal(back, raw) {
							c.Failf("Export to a writer limited to %d bytes reports success, but wrote something else", at)
						}
					}
					if w.failed {
						c.Count("write_faults", 1)
					}
					c.Eval(hashBytes(whole)^mix(uint64(at)), w.failed)
				}
				// a writer that takes part of the signature and does not say so
				for n := 1; n <= 5; n++ {
					w := &faultWriter{failAt: -1, accept: n}
					var err error
					c.NoPanic("Export with a writer taking part of the signature", func() { err = f.Export(w) })
					if err == nil && !bytes.Equal(w.buf.Bytes(), whole) {
						c.Failf("Export to a writer that takes %d bytes of its first write reports success", n)
					}
					c.Count("write_faults", 1)
				}
				sameFont(c, "after failed exports", f, raw)
			}},
			{Name: "fs", Quick: 400, Thorough: 6000, Run: func(c *Ctx) {
				m := smallModel(c)
				raw, secs := m.encode()
				file := packLevel(raw, 1)
				for i := 0; i < 40; i++ {
					data := file
					bad := ""
					switch c.Intn(5) {
					case 0:
						data = file[:c.Intn(len(file))]
						bad = "truncated"
					case 1:
						b, d := mutateRaw(c, raw, raw, secs, secs)
						data = packLevel(b, 0)
						bad = "mutated" + d
					}
					ffs := &faultFS{c: c, data: data, size: int64(len(data)), fault: pick(c.RNG, []string{"", "", "open", "stat", "read", "close"})}
					ffs.failAt = c.Intn(len(data) + 1)
					if c.OneIn(10) {
						ffs.size = pick(c.RNG, []int64{0, -1, 1 << 40, 32<<20 + 1, 32 << 20})
					}
					var f *ggfnt.Font
					var err error
					what := fmt.Sprintf("file system fault %q (fault at %d, %s file, reported size %d)", ffs.fault, ffs.failAt, bad, ffs.size)
					c.NoPanic("ParseFromFS with "+what, func() { f, err = ggfnt.ParseFromFS(ffs, "font.ggfnt") })
					if ffs.closes < ffs.opens {
						c.Failf("%s: %d files opened, %d closed (error: %v)", what, ffs.opens, ffs.closes, err)
					}
					c.Count("files_closed", ffs.closes)
					if err == nil {
						switch {
						case ffs.fault == "open" || ffs.fault == "stat" && ffs.fired || ffs.fault == "read" && ffs.fired && ffs.failAt < len(data) || bad == "truncated":
							c.Failf("%s: no error", what)
						case bad == "":
							sameFont(c, what, f, raw)
						case f == nil:
							c.Failf("%s: neither font nor error", what)
						}
					} else if ffs.fault == "open" && !errors.Is(err, errInjected) {
						c.Count("unwrapped_errors", 1)
					}
					if err != nil && ffs.fault == "" && bad == "" && ffs.size == int64(len(data)) {
						c.Failf("%s: a well-formed file is rejected: %v", what, err)
					}
					if ffs.fired {
						c.Count("fs_faults", 1)
					}
					c.Eval(hashBytes(data)^hashStr(ffs.fault)^mix(uint64(ffs.failAt)), ffs.fired || bad != "")
				}
			}},
			{Name: "path", Quick: 64, Thorough: 640, Run: func(c *Ctx) {
				dir, err := os.MkdirTemp("", "vchk-path-")
				must(err)
				defer os.RemoveAll(dir)
				old := debug.SetGCPercent(-1) // no finalizer may close files behind the monitor's back
				defer debug.SetGCPercent(old)
				m := smallModel(c)
				raw, secs := m.encode()
				file := packLevel(raw, 1)
				for i := 0; i < 12; i++ {
					path := filepath.Join(dir, fmt.Sprintf("f%d.ggfnt", i))
					data, bad := file, ""
					switch i % 4 {
					case 1:
						data, bad = file[:c.Intn(len(file))], "truncated"
					case 2:
						b, d := mutateRaw(c, raw, raw, secs, secs)
						data, bad = packLevel(b, 0), "mutated"+d
					case 3:
						bad = pick(c.RNG, []string{"missing", "directory", "empty"})
					}
					switch bad {
					case "missing":
					case "directory":
						must(os.Mkdir(path, 0o755))
					case "empty":
						must(os.WriteFile(path, nil, 0o644))
					default:
						must(os.WriteFile(path, data, 0o644))
					}
					var f *ggfnt.Font
					for _, fromFS := range []bool{false, true} {
						c.NoPanic("parsing from a path", func() {
							if fromFS {
								f, err = ggfnt.ParseFromFS(os.DirFS(dir), filepath.Base(path))
							} else {
								f, err = ggfnt.ParseFromPath(path)
							}
						})
						if n := openDescriptors(path); n != 0 {
							c.Failf("%d descriptors of a %s file are left open (from FS %v, error %v)", n, bad, fromFS, err)
						}
						switch {
						case bad == "" && err != nil:
							c.Failf("a well-formed file is rejected (from FS %v): %v", fromFS, err)
						case bad == "":
							sameFont(c, "parsing from a path", f, raw)
						case err == nil && (bad == "truncated" || bad == "missing" || bad == "directory" || bad == "empty"):
							c.Failf("a %s file gives no error (from FS %v)", bad, fromFS)
						case err == nil && f == nil:
							c.Failf("neither font nor error")
						}
						c.Count("path_opens", 1)
					}
					c.Eval(hashBytes(data)^hashStr(bad), true)
				}
			}},
		},
	})
}

// bigRaw is the content of a well-formed font of exactly the given size, most
// of it kerning pairs.
func (r *RNG) bigRaw(size int) []byte {
	const glyphs = 3000
	m := r.Model(ModelOpts{MaxGlyphs: 20})
	for len(m.Glyphs) < glyphs {
		m.Glyphs = append(m.Glyphs, MGlyph{Place: [4]byte{r.Byte()}})
	}
	m.Met.NumGlyphs = glyphs
	m.Kern, m.VKern, m.Abut = nil, nil, ""
	raw, _ := m.encode()
	rest := size - len(raw)
	pairs := (rest - r.Intn(1000)) / 5
	m.Abut = string(bytes.Repeat([]byte("a"), rest-pairs*5))
	raw, _ = m.encode()
	raw = slices.Grow(raw[:len(raw)-6], size+16) // without its two empty kerning tables
	for k, n := range []int{pairs - pairs/3, pairs / 3} {
		raw = append(raw, le(n, 3)...)
		for i := 0; i < n; i++ {
			raw = append(raw, le(i/glyphs<<16|i%glyphs, 4)...)
		}
		if k == 0 {
			raw = append(raw, r.Bytes(n)...)
		} else {
			raw = append(raw, bytes.Repeat([]byte{r.Byte()}, n)...)
		}
	}
	if len(raw) != size {
		panic("wrong size")
	}
	return raw
}

func init() {
	addWorkloads("P24", Workload{Name: "big", Quick: 8, Thorough: 60, Fixed: true, Run: func(c *Ctx) {
		// files up to the size limit, from a reader, a file system and a path
		size := 32 << 20
		switch c.Case % 4 {
		case 1:
			size -= c.Range(1, 2<<20)
		case 2:
			size = 16<<20 + c.Range(-70000, 70000)
		case 3:
			size = c.Range(2<<20, 32<<20)
		}
		raw := c.bigRaw(size)
		file := packLevel(raw, 1)
		if c.Case%8 < 4 { // stored: the file itself has that size
			over := len(packLevel(raw, 0)) - size
			if c.Case%4 == 0 {
				raw = c.bigRaw(size - over)
			}
			for file = packLevel(raw, 0); len(file) > 32<<20 || len(file) == 32<<20-1; file = packLevel(raw, 0) {
				raw = c.bigRaw(len(raw) - 1)
			}
			if pad := 32<<20 - len(file); pad > 1 && pad < 2000 { // up to the limit with the name in the gzip header
				var b bytes.Buffer
				b.WriteString("tggfnt")
				zw, _ := gzip.NewWriterLevel(&b, 0)
				zw.Name = strings.Repeat("n", pad-1)
				zw.Write(raw)
				zw.Close()
				file = b.Bytes()
			}
		}
		c.Count("max_file_size", len(file))
		c.Count("max_content_size", len(raw))
		c.Sample("file of %d bytes with %d bytes of content", len(file), len(raw))
		try := func(what string, parse func() (*ggfnt.Font, error)) {
			var f *ggfnt.Font
			var err error
			what = fmt.Sprintf("%s of a file of %d bytes with %d bytes of content", what, len(file), len(raw))
			c.NoPanic(what, func() { f, err = parse() })
			if err != nil {
				c.Failf("%s: a well-formed file is rejected: %v", what, err)
			}
			sameFont(c, what, f, raw)
			c.Beat()
		}
		ffs := &faultFS{c: c, data: file, size: int64(len(file)), plain: true}
		try("ParseFromFS", func() (*ggfnt.Font, error) { return ggfnt.ParseFromFS(ffs, "font.ggfnt") })
		if ffs.opens != 1 || ffs.closes != 1 {
			c.Failf("ParseFromFS of a large file: %d files opened, %d closed", ffs.opens, ffs.closes)
		}
		dir, err := os.MkdirTemp("", "vchk-big-")
		must(err)
		defer os.RemoveAll(dir)
		path := filepath.Join(dir, "font.ggfnt")
		must(os.WriteFile(path, file, 0o644))
		try("ParseFromPath", func() (*ggfnt.Font, error) { return ggfnt.ParseFromPath(path) })
		c.Count("big_files", 1)
		c.Eval(hashBytes(file), true)
	}})
}
