package mask

import "image"

// Smallest-rect property of ComputeRect for every image up to 3x3 (thorough
// 4x4) at any origin in -200..200, as a sub-image of a larger buffer with a margin.
//
//verif:reach nonempty empty
func vhC06_ComputeRect() {
	w, h := vPick(0, vBound(3, 4)), vPick(0, vBound(3, 4))
	ml, mr := vPick(0, 1), vPick(0, 1)
	checkComputeRect(w, h, ml, mr)
}

// Wide and tall images.
//
//verif:reach nonempty empty
func vhC06_Long() {
	if vPick(0, 1) == 0 {
		checkComputeRect(vBound(9, 12), 1, 0, 1)
	} else {
		checkComputeRect(1, vBound(9, 12), 1, 0)
	}
}

func checkComputeRect(w, h, ml, mr int) {
	ox, oy := vInt(-200, 200), vInt(-200, 200)
	base := image.NewAlpha(image.Rect(ox, oy, ox+w+ml+mr, oy+h))
	for i := range base.Pix {
		base.Pix[i] = vU8()
	}
	img := base.SubImage(image.Rect(ox+ml, oy, ox+ml+w, oy+h)).(*image.Alpha)
	r := ComputeRect(img)
	any := false
	l, rr, t, b := false, false, false, false
	for yy := 0; yy < h; yy++ {
		for xx := 0; xx < w; xx++ {
			px, py := ox+ml+xx, oy+yy
			nz := base.Pix[yy*base.Stride+ml+xx] != 0
			any = any || nz
			in := px >= r.Min.X && px < r.Max.X && py >= r.Min.Y && py < r.Max.Y
			vAssert(!nz || in, "non-zero pixel outside of the computed rect")
			l = l || (nz && px == r.Min.X)
			rr = rr || (nz && px == r.Max.X-1)
			t = t || (nz && py == r.Min.Y)
			b = b || (nz && py == r.Max.Y-1)
		}
	}
	if !any {
		vReach("empty")
		vAssert(r.Empty(), "non-empty rect for a blank mask")
		vStop()
	}
	vReach("nonempty")
	vAssert(l && rr && t && b, "rect is not tight")
	vObs("minx", uint64(r.Min.X-ox))
	vObs("maxy", uint64(r.Max.Y-oy))
}
