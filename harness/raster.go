package main

import (
	"errors"
	"image"
)

// Reference interpreter of raster operations, written from specification.md.
type rasterResult struct {
	pix      map[image.Point]uint8 // non-zero pixels
	draws    bool
	rect     image.Rectangle // union of everything drawn
	zeroPal  bool            // used the forbidden palette index zero
	ops      int
	kinds    uint64
	maxCoord int
}

var errRaster = errors.New("malformed raster operations")

func refRaster(ops []byte) (res rasterResult, err error) {
	res.pix = map[image.Point]uint8{}
	type draw struct {
		x, y, dx, dy, n, w, h int
		c                     uint8
	}
	pos := 0
	next := func() (byte, bool) {
		if pos >= len(ops) {
			return 0, false
		}
		pos++
		return ops[pos-1], true
	}
	signed := func(b byte) int { // non-zero int8
		if b < 128 {
			return int(b) + 1
		}
		return int(b) - 256
	}
	x, y := 0, 0
	col := uint8(255)
	var list []draw
	for pos < len(ops) {
		ctrl, _ := next()
		res.ops++
		res.kinds |= 1 << (mix(uint64(ctrl)) & 63)
		if ctrl&1 != 0 {
			b, ok := next()
			if !ok {
				return res, errRaster
			}
			col = b
			if b == 0 {
				res.zeroPal = true
			}
		}
		if ctrl&2 != 0 {
			b, ok := next()
			if !ok {
				return res, errRaster
			}
			x += signed(b)
		}
		if ctrl&4 != 0 {
			b, ok := next()
			if !ok {
				return res, errRaster
			}
			y += signed(b)
		}
		if ctrl&8 != 0 {
			if ctrl&4 != 0 {
				return res, errRaster
			}
			y++
		}
		res.maxCoord = max(res.maxCoord, abs(x), abs(y))
		if ctrl&0x10 != 0 {
			if ctrl&0x80 != 0 || ctrl&0x20 == 0 {
				return res, errRaster
			}
			b, ok := next()
			if !ok {
				return res, errRaster
			}
			n := int(b) + 1
			if ctrl&0x40 != 0 {
				list = append(list, draw{x: x, y: y + n - 1, dx: 1, dy: -1, n: n, c: col})
			} else {
				list = append(list, draw{x: x, y: y, dx: 1, dy: 1, n: n, c: col})
			}
			x += n
			continue
		}
		w, h := 0, 0
		if ctrl&0x20 != 0 {
			b, ok := next()
			if !ok {
				return res, errRaster
			}
			w, h = int(b)+1, 1
		}
		if ctrl&0x40 != 0 {
			b, ok := next()
			if !ok {
				return res, errRaster
			}
			h = int(b) + 1
			if w == 0 {
				w = 1
			}
		}
		if ctrl&0x80 != 0 {
			if w != 0 {
				return res, errRaster
			}
			w, h = 1, 1
		}
		if w > 0 {
			list = append(list, draw{x: x, y: y, w: w, h: h, c: col})
			x += w
		}
	}
	res.maxCoord = max(res.maxCoord, abs(x), abs(y))
	plot := func(px, py int, c uint8) {
		p := image.Pt(px, py)
		if c == 0 {
			delete(res.pix, p)
		} else {
			res.pix[p] = c
		}
	}
	for _, d := range list {
		if d.n > 0 {
			r := image.Rect(d.x, d.y, d.x+d.n, d.y+1)
			if d.dy > 0 {
				r.Max.Y = d.y + d.n
			} else {
				r.Min.Y = d.y - d.n + 1
			}
			res.union(r)
			for i := 0; i < d.n; i++ {
				plot(d.x+i*d.dx, d.y+i*d.dy, d.c)
			}
			continue
		}
		res.union(image.Rect(d.x, d.y, d.x+d.w, d.y+d.h))
		for j := 0; j < d.h; j++ {
			for i := 0; i < d.w; i++ {
				plot(d.x+i, d.y+j, d.c)
			}
		}
	}
	return res, nil
}

func (res *rasterResult) union(r image.Rectangle) {
	if !res.draws {
		res.draws = true
		res.rect = r
		return
	}
	res.rect = res.rect.Union(r)
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}
