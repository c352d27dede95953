package builder

import (
	"image"

	"github.com/tinne26/ggfnt"
)

// hGlyphs adds n glyphs with different one-row masks of the given widths.
func hGlyphs(b *Font, n int) []uint64 {
	uids := make([]uint64, 0, n)
	for i := 0; i < n; i++ {
		uids = append(uids, hGlyph(b, 1+i%3))
	}
	return uids
}

// hGlyph adds a glyph with an opaque w x 1 mask over the baseline.
func hGlyph(b *Font, w int) uint64 {
	m := image.NewAlpha(image.Rect(0, -1, w, 0))
	for i := range m.Pix {
		m.Pix[i] = 255
	}
	uid, err := b.AddGlyph(m)
	vAssert(err == nil, "a simple glyph is refused")
	return uid
}

// hBuild builds and requires success.
func hBuild(b *Font) *ggfnt.Font {
	f, err := b.Build()
	vAssert(err == nil && f != nil, "a valid font does not build")
	return f
}
