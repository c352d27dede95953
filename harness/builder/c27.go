package builder

import (
	"image"

	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/mask"
)

// A mask of 1 to 3 x 1 to 3 pixels, each of them transparent or not (two of any
// value, the others of a fixed pattern), anywhere within 400 pixels of the
// origin, with any metrics: it is accepted exactly when all its pixels with ink
// are within the ascent, the descent and the monospacing width, if any.
//
//verif:reach accepted refused
func vhC27_Accept() {
	b := New()
	asc, xasc, desc, xdesc, mono := vU8(), vU8(), vU8(), vU8(), vU8()
	b.SetAscent(asc)
	b.SetExtraAscent(xasc)
	b.SetDescent(desc)
	b.SetExtraDescent(xdesc)
	b.SetMonoWidth(mono)
	w, h := vPick(1, 3), vPick(1, 3)
	x0, y0 := vInt(-400, 400), vInt(-400, 400)
	m := image.NewAlpha(image.Rect(0, 0, w, h))
	pattern := vPick(0, 2)
	for i := range m.Pix {
		if i == 0 || i == len(m.Pix)-1 {
			m.Pix[i] = vU8()
		} else {
			m.Pix[i] = byte(i*pattern) & 1
		}
	}
	m.Rect = m.Rect.Add(image.Pt(x0, y0))
	ok := uint64(1)
	for i, a := range m.Pix {
		x, y := x0+i%w, y0+i/w
		in := vB2I(-y <= int(asc)+int(xasc)) & vB2I(y < int(desc)+int(xdesc)) & (vB2I(mono == 0) | vB2I(x >= 0)&vB2I(x < int(mono)))
		ok &= vB2I(a == 0) | in
	}
	_, err := b.AddGlyph(m)
	vAssert((err == nil) == (ok == 1), "wrong acceptance of a mask")
	vAssert(b.GetNumGlyphs() == int(vB2I(err == nil)), "wrong number of glyphs")
	if err == nil {
		vReach("accepted")
	} else {
		vReach("refused")
	}
}

type hPlaced struct {
	m     *image.Alpha
	place ggfnt.GlyphPlacement
}

// hCheckPlaced compares all the glyphs of a font.
func hCheckPlaced(f *ggfnt.Font, list []hPlaced, vert bool) {
	gl := f.Glyphs()
	vAssert(int(gl.Count()) == len(list), "wrong number of glyphs")
	for i, g := range list {
		k := ggfnt.GlyphIndex(i)
		want := g.place
		if !vert {
			want = ggfnt.GlyphPlacement{Advance: want.Advance}
		}
		vAssert(gl.Advance(k) == want.Advance, "wrong advance")
		vAssert(gl.Placement(k) == want, "wrong placement")
		hSameMask(gl.RasterizeMask(k), g.m)
	}
}

// hSameMask compares two masks pixel by pixel.
func hSameMask(r, m *image.Alpha) {
	ink := false
	for i, a := range m.Pix {
		x, y := m.Rect.Min.X+i%m.Stride, m.Rect.Min.Y+i/m.Stride
		if r == nil {
			vAssert(a == 0, "a mask is lost")
			continue
		}
		vAssert(r.AlphaAt(x, y).A == a, "wrong mask")
		ink = ink || a != 0
	}
	vAssert(r == nil || !ink || r.Rect.In(m.Rect), "a mask grows")
}

func hMask(kind, seed int) *image.Alpha {
	var m *image.Alpha
	switch kind {
	case 0:
		m = image.NewAlpha(image.Rect(0, 0, 0, 0))
	case 1:
		m = image.NewAlpha(image.Rect(-2, -3, 5, 2)) // transparent
	case 2:
		m = image.NewAlpha(image.Rect(1, -1, 2, 0))
		m.Pix[0] = byte(100 + seed)
	case 3:
		m = image.NewAlpha(image.Rect(-3, -9, 4, 5))
		for i := range m.Pix {
			m.Pix[i] = byte(i*i*(seed+3)) & 0xF0
		}
	default:
		m = image.NewAlpha(image.Rect(0, -1, []int{2, 254, 255, 256, 300}[kind-4], 0))
		for i := range m.Pix {
			m.Pix[i] = 255
		}
	}
	return m
}

// Up to 3 glyphs (4 thorough) of any of 9 masks (a few kinds after the first),
// added while ascent and descent have any value, with the default placement or
// one of any values set in any order, with or without vertical layout: index,
// mask, advance and placement are as given, before and after parsing.
//
//verif:reach default set
func vhC27_Placement() {
	vMapOrder(1)
	b := New()
	vert := vPick(0, 1) == 1
	b.SetVertLayoutUsed(vert)
	n := vPick(1, vBound(3, 4))
	var list []hPlaced
	var uids []uint64
	for i := 0; i < n; i++ {
		kind := []int{3, 0, 5}[i%3]
		if i == 0 {
			kind = vPick(0, 8)
		}
		asc, desc := vU8(), vU8()
		vAssume(asc >= 9 && desc >= 5)
		b.SetAscent(asc)
		b.SetDescent(desc)
		m := hMask(kind, i)
		uid, err := b.AddGlyph(m)
		vAssert(err == nil, "a valid glyph is refused")
		w := m.Rect.Dx()
		p := ggfnt.GlyphPlacement{Advance: uint8(min(w, 255)), TopAdvance: asc, BottomAdvance: desc, HorzCenter: uint8(min(w/2, 255))}
		list = append(list, hPlaced{m, p})
		uids = append(uids, uid)
	}
	for k := vPick(0, 2); k > 0; k-- {
		i := vPick(0, n-1)
		list[i].place = ggfnt.GlyphPlacement{Advance: vU8(), TopAdvance: vU8(), BottomAdvance: vU8(), HorzCenter: vU8()}
		vAssert(b.SetGlyphPlacement(uids[i], list[i].place) == nil, "a placement is refused")
		vReach("set")
	}
	b.SetAscent(20)
	f := hBuild(b)
	hCheckPlaced(f, list, vert)
	g, err := hReparse(f)
	vAssert(err == nil, "a valid font is not parsed")
	hCheckPlaced(g, list, vert)
	vReach("default")
}

// Any glyph index that is not in the font (of 1 to 3 glyphs, with or without
// vertical layout), and some indices when the first glyph has any placement, are
// refused by all accessors.
//
//verif:reach refused
func vhC27_Index() {
	vMapOrder(1)
	b := New()
	b.SetVertLayoutUsed(vPick(0, 1) == 1)
	n := vPick(1, 3)
	any := vPick(0, 1) == 1
	for i := 0; i < n; i++ {
		uid, err := b.AddGlyph(hMask([]int{3, 0, 2}[i], i))
		vAssert(err == nil, "a valid glyph is refused")
		if i == 0 && !any {
			p := ggfnt.GlyphPlacement{Advance: vU8(), TopAdvance: vU8(), BottomAdvance: vU8(), HorzCenter: vU8()}
			vAssert(b.SetGlyphPlacement(uid, p) == nil, "a placement is refused")
		}
	}
	f := hBuild(b)
	var k ggfnt.GlyphIndex
	if any {
		k = ggfnt.GlyphIndex(vU16())
		vAssume(int(k) >= n)
	} else {
		k = []ggfnt.GlyphIndex{ggfnt.GlyphIndex(n), 4, 5, ggfnt.GlyphMissing, 65535}[vPick(0, 4)]
	}
	vAssert(vPanics(func() { f.Glyphs().Advance(k) }), "an advance is given for a glyph that is not there")
	vAssert(vPanics(func() { f.Glyphs().Placement(k) }), "a placement is given for a glyph that is not there")
	vAssert(vPanics(func() { f.Glyphs().RasterizeMask(k) }), "a mask is given for a glyph that is not there")
	vReach("refused")
}

// The greatest number of glyphs, after which no more are accepted, and (thorough)
// 60 large glyphs whose masks take more than 64 KiB together: index, mask and
// advance are as given.
//
//verif:reach done
//verif:steps 3000000000
func vhC27_Many() {
	vMapOrder(1)
	b := New()
	if vPick(0, vBound(0, 1)) == 1 {
		var list []hPlaced
		for i := 0; i < 60; i++ {
			m := image.NewAlpha(image.Rect(0, -9, 100, 5))
			for j := range m.Pix {
				m.Pix[j] = byte((j%100 + j/100*7) * (i + 3))
			}
			uid, err := b.AddGlyph(m)
			vAssert(err == nil, "a valid glyph is refused")
			p := ggfnt.GlyphPlacement{Advance: byte(i)}
			vAssert(b.SetGlyphPlacement(uid, p) == nil, "a placement is refused")
			list = append(list, hPlaced{m, p})
		}
		f := hBuild(b)
		vAssert(len(f.Data) > 70000, "bad harness")
		for i, g := range list {
			k := ggfnt.GlyphIndex(i)
			vAssert(f.Glyphs().Placement(k) == g.place, "wrong placement")
			if i < 2 || i > 56 {
				hSameMask(f.Glyphs().RasterizeMask(k), g.m)
			}
		}
		vReach("done")
		return
	}
	for i := 0; i < ggfnt.MaxGlyphs; i++ {
		hGlyph(b, 1+i%5)
	}
	_, err := b.AddGlyph(hMask(2, 0))
	vAssert(err != nil, "a glyph too many is accepted")
	f := hBuild(b)
	for _, i := range []int{0, 1, 2, 13106, 13107, 21844, 21845, 30000, ggfnt.MaxGlyphs - 1} {
		vAssert(int(f.Glyphs().Advance(ggfnt.GlyphIndex(i))) == 1+i%5, "wrong advance")
		vAssert(f.Glyphs().RasterizeMask(ggfnt.GlyphIndex(i)).Rect.Dx() == 1+i%5, "wrong mask")
	}
	vReach("done")
}

// Tables of 255 to 257, 21846, 33000 and 56000 glyphs with and without vertical
// layout, with masks of varied length; the ones at and next to the positions
// where sizes of integers end are looked up, and have any placement.
//
//verif:steps 3000000000
//verif:reach done
func vhC27_Huge() {
	n := []int{255, 256, 257, 21846, 33000, 56000}[vPick(0, 5)]
	vert := vPick(0, 1)
	var enc mask.Encoder
	var items [3][]byte
	var masks [3]*image.Alpha
	for k := range masks {
		m := image.NewAlpha(image.Rect(-k, -3, k*k+1, 2))
		for j := range m.Pix {
			m.Pix[j] = byte(100 + (j*j+k)*77%155)
		}
		masks[k] = m
		items[k] = append(make([]byte, 1+3*vert), enc.AppendRasterOps(nil, m)...)
	}
	data := append(make([]byte, 0, n*200), byte(n), byte(n>>8), byte(vert))
	end := 0
	for i := 0; i < n; i++ {
		end += len(items[i%3])
		data = hLE(data, end, 3)
	}
	starts := make([]int, n)
	for i := 0; i < n; i++ {
		starts[i] = len(data)
		data = append(data, items[i%3]...)
	}
	f := &ggfnt.Font{Data: data, OffsetToGlyphMasks: 3}
	gl := f.Glyphs()
	vAssert(int(gl.Count()) == n, "wrong number of glyphs")
	for _, i := range []int{0, 1, 127, 128, 254, 255, 256, 21844, 21845, 21846, 32767, 32768, n / 2, n - 2, n - 1} {
		if i >= n {
			continue
		}
		p := ggfnt.GlyphPlacement{Advance: vU8()}
		data[starts[i]] = p.Advance
		if vert == 1 {
			p.TopAdvance, p.BottomAdvance, p.HorzCenter = vU8(), vU8(), vU8()
			copy(data[starts[i]+1:], []byte{p.TopAdvance, p.BottomAdvance, p.HorzCenter})
		}
		g := ggfnt.GlyphIndex(i)
		vAssert(gl.Placement(g) == p, "wrong placement")
		vAssert(gl.Advance(g) == p.Advance, "wrong advance")
		hSameMask(gl.RasterizeMask(g), masks[i%3])
	}
	vReach("done")
}
