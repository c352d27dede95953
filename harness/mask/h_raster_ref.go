package mask

import "image"

// Independent reading of the raster operations section of specification.md.

type refDraw struct {
	x, y, w, h int
	diag, asc  bool
	value      uint8
}

func refNZ(b uint8) int {
	if b < 128 {
		return int(b) + 1
	}
	return int(b) - 256
}

// refOps decodes ops; ok is false for truncated or malformed data.
func refOps(ops []byte, limit func(kind int, b uint8) uint8) (draws []refDraw, ok bool) {
	pos := 0
	fetch := func() (uint8, bool) {
		if pos >= len(ops) {
			return 0, false
		}
		b := ops[pos]
		pos++
		return b, true
	}
	// limited lets the harness pin the byte just fetched
	limited := func(kind int) uint8 {
		b := limit(kind, ops[pos-1])
		ops[pos-1] = b
		return b
	}
	x, y, value := 0, 0, uint8(255)
	for pos < len(ops) {
		ctrl, _ := fetch()
		if ctrl&1 != 0 {
			b, ok := fetch()
			if !ok {
				return nil, false
			}
			value = b
		}
		if ctrl&2 != 0 {
			b, ok := fetch()
			if !ok {
				return nil, false
			}
			if len(draws) > 0 {
				b = limited(2)
			}
			x += refNZ(b)
		}
		if ctrl&4 != 0 {
			b, ok := fetch()
			if !ok {
				return nil, false
			}
			if len(draws) > 0 {
				b = limited(2)
			}
			y += refNZ(b)
		}
		if ctrl&8 != 0 {
			if ctrl&4 != 0 {
				return nil, false
			}
			y++
		}
		var d refDraw
		d.value = value
		if ctrl&16 != 0 {
			if ctrl&128 != 0 || ctrl&32 == 0 {
				return nil, false
			}
			b, ok := fetch()
			if !ok {
				return nil, false
			}
			b = limited(1)
			d.diag, d.asc = true, ctrl&64 != 0
			d.w, d.h = int(b)+1, int(b)+1
		} else if ctrl&128 != 0 {
			if ctrl&96 != 0 {
				return nil, false
			}
			d.w, d.h = 1, 1
		} else if ctrl&96 != 0 {
			d.w, d.h = 1, 1
			if ctrl&32 != 0 {
				b, ok := fetch()
				if !ok {
					return nil, false
				}
				b = limited(1)
				d.w = int(b) + 1
			}
			if ctrl&64 != 0 {
				b, ok := fetch()
				if !ok {
					return nil, false
				}
				b = limited(1)
				d.h = int(b) + 1
			}
		}
		if d.w > 0 {
			d.x, d.y = x, y
			draws = append(draws, d)
			x += d.w
		}
	}
	return draws, true
}

func refRect(draws []refDraw) image.Rectangle {
	if len(draws) == 0 {
		return image.Rectangle{}
	}
	d := draws[0]
	r := image.Rect(d.x, d.y, d.x+d.w, d.y+d.h)
	for _, d := range draws[1:] {
		if d.x < r.Min.X {
			r.Min.X = d.x
		}
		if d.y < r.Min.Y {
			r.Min.Y = d.y
		}
		if d.x+d.w > r.Max.X {
			r.Max.X = d.x + d.w
		}
		if d.y+d.h > r.Max.Y {
			r.Max.Y = d.y + d.h
		}
	}
	return r
}

func refPixel(draws []refDraw, x, y int) uint8 {
	var value uint8
	for _, d := range draws {
		if x < d.x || x >= d.x+d.w || y < d.y || y >= d.y+d.h {
			continue
		}
		if d.diag {
			if d.asc && x-d.x != d.h-1-(y-d.y) {
				continue
			}
			if !d.asc && x-d.x != y-d.y {
				continue
			}
		}
		value = d.value
	}
	return value
}

func checkRaster(ops []byte, draws []refDraw, ok bool) {
	img, err := Rasterize(ops)
	if !ok {
		vReach("malformed")
		vAssert(err != nil, "malformed raster operations accepted")
		return
	}
	vAssert(err == nil, "valid raster operations rejected")
	if len(draws) == 0 {
		vReach("nothing drawn")
		vAssert(img == nil, "a mask for operations that draw nothing")
		return
	}
	vReach("drawn")
	r := refRect(draws)
	vAssert(img != nil, "no mask")
	vAssert(img.Rect == r, "wrong mask bounds")
	w, h := vConc(r.Dx()), vConc(r.Dy())
	vAssert(img.Stride >= w && len(img.Pix) >= (h-1)*img.Stride+w, "mask buffer too small")
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			got := img.Pix[y*img.Stride+x]
			vAssert(got == refPixel(draws, r.Min.X+x, r.Min.Y+y), "wrong pixel")
		}
	}
	vObs("minx", uint64(img.Rect.Min.X))
	vObs("pix0", uint64(img.Pix[0]))
	vObs("w", uint64(w))
}

func refAny(kind int, b uint8) uint8 { return b }
