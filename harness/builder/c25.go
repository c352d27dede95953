package builder

import "github.com/tinne26/ggfnt"

// Any 2 edits of any two of 20 kinds, on a builder with some of everything, with
// a check (and a build) before and after (and between, thorough): everything is
// as it should.
//
//verif:reach built unbuildable
func vhC25_Pairs() {
	vMapOrder(1)
	h := hEditBase()
	h.check()
	h.op(vPick(0, hEditOps-1))
	if vBound(0, 1) == 1 {
		h.check()
	}
	h.op(vPick(0, hEditOps-1))
	h.check()
}

// Any edit, several builds and any edit of a few kinds (those on glyphs, names
// and sets), with checks after each.
//
//verif:reach built unbuildable
func vhC25_Builds() {
	vMapOrder(1)
	h := hEditBase()
	h.op(vPick(0, hEditOps-1))
	h.check()
	if h.buildable() {
		f := hBuild(h.b)
		data := append([]byte{}, f.Data...)
		h.check()
		h.op([]int{0, 1, 13}[vPick(0, 2)])
		h.check()
		vAssert(string(f.Data) == string(data), "a font changes with its builder")
		h.checkAll(f)
	}
}

// checkAll makes sure that a font is not broken, whatever is in it.
func (h *hEdit) checkAll(f *ggfnt.Font) {
	g, err := hReparse(f)
	vAssert(err == nil && string(g.Data) == string(f.Data), "a font can't be parsed again")
}

// The limits of the font: 56789 mappings and 65535 rules of each kind are
// accepted, and no more; the font still builds.
//
//verif:reach built
//verif:steps 2000000000
func vhC25_Limits() {
	vMapOrder(1)
	b := New()
	u := hGlyphs(b, 2)
	switch vPick(0, 2) {
	case 0:
		for i := 0; i < 56789; i++ {
			vAssert(b.Map(rune(100+i), u[i&1]) == nil, "a mapping is refused")
		}
		vAssert(b.Map(50, u[0]) != nil && b.MapGroup(51, 0, u...) != nil, "a mapping too many is accepted")
		vAssert(b.Map(100, u[1]) == nil && b.MapGroup(101, 0, u...) == nil, "replacing a mapping is refused")
		f := hBuild(b)
		vAssert(f.Mapping().NumEntries() == 56789, "wrong number of mappings")
		g, ok := f.Mapping().Utf8(100+56788, nil)
		vAssert(ok && g.Select(0) == 0, "wrong mapping")
		_, ok = f.Mapping().Utf8(50, nil)
		vAssert(!ok, "a refused mapping is there")
	case 1:
		for i := 0; i < 65535; i++ {
			vAssert(b.AddSimpleUtf8RewriteRule('x', rune(i)) == nil, "a rule is refused")
		}
		vAssert(b.AddSimpleUtf8RewriteRule('x', 'a') != nil, "a rule too many is accepted")
		vAssert(hBuild(b).Rewrites().NumUTF8Rules() == 65535, "wrong number of rules")
	case 2:
		for i := 0; i < 65535; i++ {
			vAssert(b.AddGlyphRewriteRule(0, 1, 0, u[:1], u[1]) == nil, "a rule is refused")
		}
		vAssert(b.AddGlyphRewriteRule(0, 1, 0, u[:1], u[1]) != nil, "a rule too many is accepted")
		vAssert(hBuild(b).Rewrites().NumGlyphRules() == 65535, "wrong number of rules")
	}
	vReach("built")
}

// The limits of the sets: 255 sets of each kind, and 255 ranges and elements in
// each.
//
//verif:reach built
func vhC25_SetLimits() {
	vMapOrder(1)
	b := New()
	u := hGlyphs(b, 256)
	var gs, rs uint64
	for i := 0; i < 255; i++ {
		g, e1 := b.CreateGlyphSet()
		r, e2 := b.CreateRuneSet()
		vAssert(e1 == nil && e2 == nil, "a set is refused")
		if i == 100 {
			gs, rs = g, r
		}
	}
	_, e1 := b.CreateGlyphSet()
	_, e2 := b.CreateRuneSet()
	vAssert(e1 != nil && e2 != nil, "a set too many is accepted")
	for i := 0; i < 255; i++ {
		vAssert(b.AddGlyphSetRange(gs, u[i], u[i+1]) == nil && b.AddRuneSetRange(rs, rune(i), rune(i+1)) == nil, "a range is refused")
		vAssert(b.AddGlyphSetListGlyph(gs, u[i]) == nil && b.AddRuneSetListRune(rs, rune(i)) == nil, "an element is refused")
	}
	vAssert(b.AddGlyphSetRange(gs, u[7], u[7]) != nil && b.AddRuneSetRange(rs, 7, 7) != nil, "a range too many is accepted")
	vAssert(b.AddGlyphSetListGlyph(gs, u[255]) != nil && b.AddRuneSetListRune(rs, 255) != nil, "an element too many is accepted")
	f := hBuild(b)
	k := vPick(0, 2)
	set, rset := f.Rewrites().GetGlyphSet(uint8(99+k)), f.Rewrites().GetUtf8Set(uint8(99+k))
	n := 0
	set.EachRange(func(ggfnt.GlyphRange) error { n++; return nil })
	set.EachListGlyph(func(ggfnt.GlyphIndex) error { n++; return nil })
	rset.EachRange(func(a, b rune) error { n++; return nil })
	rset.EachListRune(func(rune) error { n++; return nil })
	vAssert(n == []int{0, 4 * 255, 0}[k], "wrong size of a set")
	vReach("built")
}
