package builder

import (
	"image"

	"github.com/tinne26/ggfnt"
)

// hUIDs adds n glyphs whose random identifiers are arbitrary, to a font with two
// glyphs; it gives all the identifiers, in order.
func hUIDs(n int) (*Font, []uint64) {
	b := New()
	u := hGlyphs(b, 2)
	vSymRand(8, 1000)
	for i := 0; i < n; i++ {
		m := image.NewAlpha(image.Rect(0, -1, 4+i, 0))
		m.Pix[3+i] = 255
		uid, err := b.AddGlyph(m)
		if err != nil {
			vReach("out-of-luck")
			continue
		}
		for _, q := range u {
			vAssert(q != uid, "two glyphs have the same identifier")
		}
		vAssert(uid != uint64(ggfnt.GlyphMissing), "a glyph is identified as the missing one")
		u = append(u, uid)
	}
	vSymRand(0, 0)
	return b, u
}

// Any 2 (thorough: 3) glyphs added to a font with 2, whatever the random numbers
// that the system provides for their identifiers: they are distinct, and stay
// with their glyphs in what is built.
//
//verif:reach built out-of-luck
func vhC31_Glyphs() {
	vMapOrder(1)
	b, u := hUIDs(vBound(2, 3))
	for i, uid := range u {
		vAssert(b.Map(rune('a'+i), uid) == nil, "an identifier is not accepted")
	}
	f := hBuild(b)
	vAssert(int(f.Metrics().NumGlyphs()) == len(u), "wrong number of glyphs")
	last := 0
	for i := range u {
		g, ok := f.Mapping().Utf8(rune('a'+i), nil)
		vAssert(ok && g.Size() == 1 && int(g.Select(0)) == i, "an identifier names another glyph")
		mask := f.Glyphs().RasterizeMask(ggfnt.GlyphIndex(i))
		if i < 2 {
			vAssert(mask.Rect.Dx() == 1+i, "an identifier names another mask")
		} else {
			vAssert(mask.Rect.Dx() == 1 && mask.Rect.Min.X > last, "an identifier names another mask")
			last = mask.Rect.Min.X
		}
	}
	vReach("built")
}

// The same for sets of glyphs and of runes: 2 of each (thorough: 3), on top of one
// of each; each holds what is added to it, and no more.
//
//verif:reach built out-of-luck
func vhC31_Sets() {
	vMapOrder(1)
	b := New()
	u := hGlyphs(b, 4)
	runes := vPick(0, 1) == 1
	create := func() (uint64, error) {
		if runes {
			return b.CreateRuneSet()
		}
		return b.CreateGlyphSet()
	}
	first, err := create()
	vAssert(err == nil, "a set is refused")
	sets := []uint64{first}
	vSymRand(8, 1000)
	for i := vBound(2, 3); i > 0; i-- {
		id, err := create()
		if err != nil {
			vReach("out-of-luck")
			continue
		}
		for _, q := range sets {
			vAssert(q != id, "two sets have the same identifier")
		}
		sets = append(sets, id)
	}
	vSymRand(0, 0)
	for i, id := range sets {
		if runes {
			err = b.AddRuneSetListRune(id, rune('a'+i))
		} else {
			err = b.AddGlyphSetListGlyph(id, u[i])
		}
		vAssert(err == nil, "an identifier is not accepted")
	}
	f := hBuild(b)
	r := f.Rewrites()
	if runes {
		vAssert(int(r.NumUTF8Sets()) == len(sets), "wrong number of sets")
	} else {
		vAssert(int(r.NumGlyphSets()) == len(sets), "wrong number of sets")
	}
	for i := range sets {
		n, ok := 0, true
		if runes {
			s := r.GetUtf8Set(uint8(i))
			s.EachListRune(func(c rune) error { n++; ok = ok && c == rune('a'+i); return nil })
		} else {
			s := r.GetGlyphSet(uint8(i))
			s.EachListGlyph(func(g ggfnt.GlyphIndex) error { n++; ok = ok && int(g) == i; return nil })
		}
		vAssert(n == 1 && ok, "an identifier names another set")
	}
	vReach("built")
}

// A new builder, whatever the random numbers provided (for a first attempt, 2 arbitrary
// bytes, thorough: 3, and zeros; then, if need be, a good one): the font that it makes is
// accepted as its identifier goes, and has the identifier that the builder tells.
//
//verif:reach built
func vhC31_Font() {
	vMapOrder(1)
	vSymRand(vBound(2, 3), 1)
	b := New()
	vSymRand(0, 0)
	hGlyphs(b, 1)
	f := hBuild(b)
	vAssert(f.Header().ID() == b.GetFontID(), "wrong font identifier")
	vAssert(f.Header().Validate(ggfnt.FmtDefault) == nil, "a new font has an unacceptable identifier")
	vReach("built")
}
