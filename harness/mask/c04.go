package mask

import "image"

// roundTrip encodes img after prefix and checks what Rasterize makes of it.
func roundTrip(enc *Encoder, img *image.Alpha, prefix []byte) {
	keep := make([]uint8, len(img.Pix))
	copy(keep, img.Pix)
	out := enc.AppendRasterOps(prefix, img)
	vAssert(len(out) >= len(prefix), "existing data dropped")
	for i := range prefix {
		vAssert(out[i] == 100+uint8(i), "existing data changed")
	}
	for i := range keep {
		vAssert(img.Pix[i] == keep[i], "the mask was modified")
	}
	got, err := Rasterize(out[len(prefix):])
	vAssert(err == nil, "encoded operations do not rasterize")
	// tight bounds of img
	b := img.Rect
	first := true
	var r image.Rectangle
	for y := 0; y < b.Dy(); y++ {
		for x := 0; x < b.Dx(); x++ {
			if img.Pix[y*img.Stride+x] == 0 {
				continue
			}
			p := image.Rect(b.Min.X+x, b.Min.Y+y, b.Min.X+x+1, b.Min.Y+y+1)
			if first {
				r, first = p, false
				continue
			}
			if p.Min.X < r.Min.X {
				r.Min.X = p.Min.X
			}
			if p.Max.X > r.Max.X {
				r.Max.X = p.Max.X
			}
			if p.Min.Y < r.Min.Y {
				r.Min.Y = p.Min.Y
			}
			if p.Max.Y > r.Max.Y {
				r.Max.Y = p.Max.Y
			}
		}
	}
	if first {
		vReach("blank")
		vAssert(got == nil, "a blank mask rasterizes to something")
		vAssert(len(out) == len(prefix), "operations for a blank mask")
		return
	}
	vReach("drawn")
	vAssert(got != nil, "mask lost")
	vAssert(got.Rect == r, "wrong bounds after the round trip")
	for y := 0; y < b.Dy(); y++ {
		for x := 0; x < b.Dx(); x++ {
			gx, gy := b.Min.X+x-got.Rect.Min.X, b.Min.Y+y-got.Rect.Min.Y
			if gx < 0 || gy < 0 || gx >= got.Rect.Dx() || gy >= got.Rect.Dy() {
				continue
			}
			vAssert(got.Pix[gy*got.Stride+gx] == img.Pix[y*img.Stride+x], "wrong pixel after the round trip")
		}
	}
	vObs("n", uint64(len(out)))
	vObs("op0", uint64(out[len(prefix)]))
}

// two-valued pixel pattern: every pixel is 0 or v
func patternMask(w, h, ox, oy int, v uint8) *image.Alpha {
	img := image.NewAlpha(image.Rect(ox, oy, ox+w, oy+h))
	for i := range img.Pix {
		if vBool() {
			img.Pix[i] = v
		}
	}
	return img
}

// All binary masks of the given shapes, any palette value.
//
//verif:reach drawn blank
func vhC04_Binary() {
	shapes := [][2]int{{4, 3}, {3, 4}, {6, 2}, {2, 6}, {1, 8}, {8, 1}}
	s := shapes[vPick(0, len(shapes)-1)]
	v := vU8()
	vAssume(v != 0)
	var enc Encoder
	roundTrip(&enc, patternMask(s[0], s[1], -1, -2, v), nil)
}

// All binary 4x4 and 5x3 masks.
//
//verif:thorough
//verif:reach drawn blank
func vhC04_Binary16() {
	shapes := [][2]int{{4, 4}, {5, 3}, {3, 5}, {7, 2}, {2, 7}}
	s := shapes[vPick(0, len(shapes)-1)]
	v := vU8()
	vAssume(v != 0)
	var enc Encoder
	roundTrip(&enc, patternMask(s[0], s[1], -1, -2, v), nil)
}

// All masks with two palette values (any two) and blank pixels.
//
//verif:reach drawn blank
func vhC04_TwoValues() {
	shapes := [][2]int{{3, 2}, {2, 3}, {4, 2}, {2, 4}, {3, 3}}
	s := shapes[vPick(0, vBound(3, 4))]
	v1, v2 := vU8(), vU8()
	vAssume(v1 != 0 && v2 != 0 && v1 > v2)
	img := image.NewAlpha(image.Rect(1, 0, 1+s[0], s[1]))
	for i := range img.Pix {
		if vBool() {
			img.Pix[i] = v1
		} else if vBool() {
			img.Pix[i] = v2
		}
	}
	var enc Encoder
	roundTrip(&enc, img, nil)
}

// Any pixel values for small masks, as a sub-image of a larger buffer, after
// another encoding with the same encoder, behind existing data.
//
//verif:reach drawn blank
func vhC04_Context() {
	w, h := vPick(0, 2), vPick(0, 2)
	ox, oy := vPick(-1, 1), vPick(-1, 1)
	margin := vPick(0, 1)
	base := image.NewAlpha(image.Rect(ox, oy, ox+w+2*margin, oy+h+margin))
	for i := range base.Pix {
		base.Pix[i] = 77
	}
	img := base.SubImage(image.Rect(ox+margin, oy+margin, ox+margin+w, oy+margin+h)).(*image.Alpha)
	if w == 0 || h == 0 {
		img = image.NewAlpha(image.Rect(ox, oy, ox+w, oy+h))
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			img.Pix[y*img.Stride+x] = vU8()
		}
	}
	var enc Encoder
	var prefix []byte
	if n := vPick(-1, 1); n >= 0 {
		prefix = make([]byte, 2*n, 3)
	}
	for i := range prefix {
		prefix[i] = 100 + uint8(i)
	}
	if prefix != nil {
		other := image.NewAlpha(image.Rect(-2, 1, 1, 2))
		other.Pix[0], other.Pix[1], other.Pix[2] = 200, 0, 9
		enc.AppendRasterOps(nil, other)
	}
	roundTrip(&enc, img, prefix)
}

// Any origin in -300..300 on one axis for a pixel of any value, and a second
// one at distance 1, 127..129 or 200 from it.
//
//verif:reach drawn blank
func vhC04_Origin() {
	gap := [6]int{0, 1, 127, 128, 129, 200}[vPick(0, 5)]
	var img *image.Alpha
	other := vPick(-2, 2)
	far := vInt(-300, 300)
	if vPick(0, 1) == 0 {
		img = image.NewAlpha(image.Rect(far, other, far+gap+1, other+1))
	} else {
		img = image.NewAlpha(image.Rect(other, far, other+1, far+gap+1))
	}
	a, b := vU8(), vU8()
	img.Pix[0] = a
	if gap > 0 {
		img.Pix[gap] = b
	} else {
		b = a
	}
	var enc Encoder
	ops := enc.AppendRasterOps(nil, img)
	got, err := Rasterize(ops)
	vAssert(err == nil, "encoded operations do not rasterize")
	if a == 0 && b == 0 {
		vReach("blank")
		vAssert(got == nil, "a blank mask rasterizes to something")
		return
	}
	vReach("drawn")
	r := img.Rect
	horz := r.Dx() > 1
	if a == 0 {
		r.Min = r.Max.Sub(image.Pt(1, 1))
	} else if b == 0 {
		r.Max = r.Min.Add(image.Pt(1, 1))
	}
	vAssert(got != nil && got.Rect == r, "wrong bounds after the round trip")
	n := r.Dx() + r.Dy() - 1
	step := 1
	if !horz {
		step = got.Stride
	}
	for i := 0; i < n; i++ {
		want := uint8(0)
		if i == n-1 {
			want = b
		}
		if i == 0 && a != 0 {
			want = a
		}
		vAssert(got.Pix[i*step] == want, "wrong pixel after the round trip")
	}
	vObs("n", uint64(len(ops)))
}

// Long runs: lines of 127 to 513 pixels, one or two pixels thick, and diagonals
// of up to 6 (12 thorough) pixels, any value, maybe with a hole.
//
//verif:reach drawn
//verif:steps 60000000
func vhC04_Long() {
	lens := [9]int{127, 128, 129, 255, 256, 257, 385, 512, 513}
	kind := vPick(0, 2)
	v := vU8()
	vAssume(v != 0)
	var img *image.Alpha
	switch kind {
	case 0: // horizontal
		n := lens[vPick(0, 8)]
		h := vPick(1, 2)
		img = image.NewAlpha(image.Rect(-100, 0, n-100, h))
		for i := range img.Pix {
			img.Pix[i] = v
		}
	case 1: // vertical
		n := lens[vPick(0, 8)]
		w := vPick(1, 2)
		img = image.NewAlpha(image.Rect(3, -100, 3+w, n-100))
		for i := range img.Pix {
			img.Pix[i] = v
		}
	case 2:
		n := vPick(2, vBound(6, 12))
		asc := vPick(0, 1) == 1
		img = image.NewAlpha(image.Rect(-3, -n, n-3, 0))
		for i := 0; i < n; i++ {
			x := i
			if asc {
				x = n - 1 - i
			}
			img.Pix[i*img.Stride+x] = v
		}
	}
	if vPick(0, 1) == 1 {
		img.Pix[len(img.Pix)/2] = 0
	}
	var enc Encoder
	roundTrip(&enc, img, nil)
}

// Diagonals of both kinds and rects of 256 to 259 (520 thorough) pixels in one or
// both axes, any value.
//
//verif:reach drawn
//verif:steps 200000000
func vhC04_Huge() {
	v := vU8()
	vAssume(v != 0)
	n := []int{256, 257, 259, 520}[vPick(0, vBound(2, 3))]
	kind := vPick(0, 2)
	img := image.NewAlpha(image.Rect(-100, -50, n-100, n-50))
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			img.Pix[i*img.Stride+i] = v
		case 1:
			img.Pix[i*img.Stride+n-1-i] = v
		case 2:
			for x := 0; x < n; x++ {
				img.Pix[i*img.Stride+x] = v
			}
		}
	}
	var enc Encoder
	roundTrip(&enc, img, nil)
}
