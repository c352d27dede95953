package builder

import "github.com/tinne26/ggfnt"

// hKern is a kerning pair between glyph indices.
type hKern struct {
	a, b int
	v    int8
}

// Up to 3 (4 thorough) horizontal and vertical pairs between any of 2 (3)
// glyphs, with any values: every lookup of any glyph indices, in the whole
// 16-bit range, returns the value defined last for the pair, or zero.
//
//verif:reach hit miss
func vhC19_Pairs() {
	G := vBound(2, 3)
	b := New()
	u := hGlyphs(b, G)
	nh := vPick(0, vBound(3, 4))
	nv := vPick(0, vBound(3, 4)-nh)
	var hs, vs []hKern
	for i := 0; i < nh; i++ {
		k := hKern{vPick(0, G-1), vPick(0, G-1), int8(vU8())}
		hs = append(hs, k)
		b.SetKerningPair(u[k.a], u[k.b], k.v)
	}
	for i := 0; i < nv; i++ {
		k := hKern{vPick(0, G-1), vPick(0, G-1), int8(vU8())}
		for _, o := range vs {
			vAssume(o.a != k.a || o.b != k.b)
		}
		vs = append(vs, k)
		// (the builder has no exported setter for these)
		b.vertKerningPairs[[2]uint64{u[k.a], u[k.b]}] = &editionKerningPair{First: u[k.a], Second: u[k.b], Value: k.v}
	}
	vMapOrder(1)
	f := hBuild(b)
	k := f.Kerning()
	x, y := vU16(), vU16()
	get, getv := k.Get(ggfnt.GlyphIndex(x), ggfnt.GlyphIndex(y)), k.GetVert(ggfnt.GlyphIndex(x), ggfnt.GlyphIndex(y))
	want, wantv := int8(0), int8(0)
	count := 0
	for i := range hs {
		if vB2I(int(x) == hs[i].a)&vB2I(int(y) == hs[i].b) == 1 {
			want = hs[i].v
		}
		last := true
		for j := i + 1; j < len(hs); j++ {
			last = last && (hs[j].a != hs[i].a || hs[j].b != hs[i].b)
		}
		if last && hs[i].v != 0 {
			count++
		}
	}
	for i := range vs {
		if vB2I(int(x) == vs[i].a)&vB2I(int(y) == vs[i].b) == 1 {
			wantv = vs[i].v
		}
	}
	vAssert(get == want, "wrong horizontal kerning")
	vAssert(getv == wantv, "wrong vertical kerning")
	vAssert(int(k.NumPairs()) == count && int(k.NumVertPairs()) == nv, "wrong number of kerning pairs")
	if get != 0 {
		vReach("hit")
	} else {
		vReach("miss")
	}
}

// Many pairs: every glyph out of N = 9 (24 thorough) with its neighbours at
// given distances, with symbolic values, looked up with any indices: searches
// over long tables.
//
//verif:reach hit miss
func vhC19_Many() {
	n := vBound(9, 24)
	b := New()
	u := hGlyphs(b, n)
	var hs []hKern
	vMapOrder(1)
	step := vPick(1, 3)
	for i := 0; i < n; i++ {
		for d := 0; d < 2; d++ {
			k := hKern{i, (i*step + d*4) % n, int8(vU8())}
			vAssume(k.v != 0)
			hs = append(hs, k)
			b.SetKerningPair(u[k.a], u[k.b], k.v)
		}
	}
	k := hBuild(b).Kerning()
	x, y := vU16(), vU16()
	want := int8(0)
	for i := range hs {
		if vB2I(int(x) == hs[i].a)&vB2I(int(y) == hs[i].b) == 1 {
			want = hs[i].v
		}
	}
	got := k.Get(ggfnt.GlyphIndex(x), ggfnt.GlyphIndex(y))
	vAssert(got == want, "wrong horizontal kerning")
	vAssert(k.GetVert(ggfnt.GlyphIndex(x), ggfnt.GlyphIndex(y)) == 0, "a vertical kerning out of nowhere")
	if got != 0 {
		vReach("hit")
	} else {
		vReach("miss")
	}
}

// Any tables: up to 2 (4 thorough) horizontal and 1 (2) vertical pairs of any
// 16-bit glyph indices in increasing order, with any values, parsed and looked
// up with any indices.
//
//verif:reach hit miss
func vhC19_Tables() {
	b := New()
	hGlyphs(b, 3)
	data := hBuild(b).Data
	data = data[: len(data)-6 : len(data)-6] // both tables are empty
	var tabs [2][]hKern
	out := uint64(0)
	for t := range tabs {
		n := vPick(0, vBound(2-t, 4-2*t))
		for i := 0; i < n; i++ {
			k := hKern{int(vU16()), int(vU16()), int8(vU8())}
			out |= vB2I(k.a >= 3) | vB2I(k.b >= 3)
			if i > 0 {
				o := tabs[t][i-1]
				vAssume(vB2I(o.a < k.a)|vB2I(o.a == k.a)&vB2I(o.b < k.b) == 1)
			}
			tabs[t] = append(tabs[t], k)
		}
		data = append(data, byte(n), 0, 0)
		for _, k := range tabs[t] {
			data = append(data, byte(k.b), byte(k.b>>8), byte(k.a), byte(k.a>>8))
		}
		for _, k := range tabs[t] {
			data = append(data, byte(k.v))
		}
	}
	f, err := hParse(data)
	if err != nil {
		vAssert(out == 1, "a well-formed kerning section is refused")
		vStop()
	}
	k := f.Kerning()
	vAssert(int(k.NumPairs()) == len(tabs[0]) && int(k.NumVertPairs()) == len(tabs[1]), "wrong number of kerning pairs")
	x, y := vU16(), vU16()
	var want [2]int8
	for t := range tabs {
		for _, k := range tabs[t] {
			if vB2I(int(x) == k.a)&vB2I(int(y) == k.b) == 1 {
				want[t] = k.v
			}
		}
	}
	get := k.Get(ggfnt.GlyphIndex(x), ggfnt.GlyphIndex(y))
	vAssert(get == want[0], "wrong horizontal kerning")
	vAssert(k.GetVert(ggfnt.GlyphIndex(x), ggfnt.GlyphIndex(y)) == want[1], "wrong vertical kerning")
	if get != 0 {
		vReach("hit")
	} else {
		vReach("miss")
	}
}

// Pairs between glyphs beyond the first 256 (of 260; thorough: 520 glyphs).
func vhC19_Far() {
	n := vBound(260, 520)
	b := New()
	u := hGlyphs(b, n)
	vMapOrder(1)
	at := []int{0, 255, 256, n - 1}
	i, j := at[vPick(0, 3)], at[vPick(0, 3)]
	p, q := i%256, j%256
	if i < 256 && j < 256 {
		p, q = j+1, i
	}
	v, w := int8(vU8()), int8(vU8())
	b.SetKerningPair(u[i], u[j], v)
	b.SetKerningPair(u[p], u[q], w)
	k := hBuild(b).Kerning()
	x, y := vU16(), vU16()
	want := int8(0)
	if vB2I(int(x) == i)&vB2I(int(y) == j) == 1 {
		want = v
	}
	if vB2I(int(x) == p)&vB2I(int(y) == q) == 1 {
		want = w
	}
	vAssert(k.Get(ggfnt.GlyphIndex(x), ggfnt.GlyphIndex(y)) == want, "wrong horizontal kerning")
}

// Tables of 254 to 257, 33000 and 70000 pairs, in one direction, looked up at
// and next to pairs at the positions where sizes of integers end.
//
//verif:steps 1000000000
func vhC19_Huge() {
	n := []int{254, 255, 256, 257, 33000, 70000}[vPick(0, 5)]
	vert := vPick(0, 1)
	a, b := func(i int) int { return i / 250 * 2 }, func(i int) int { return i % 250 * 262 }
	value := vU8()
	vAssume(value != 0)
	data := make([]byte, 3+n*5+3)
	hLE(data[:vert*3], n, 3)
	for k := 0; k < n; k++ {
		hLE(data[:vert*3+3+k*4], b(k)|a(k)<<16, 4)
		data[vert*3+3+n*4+k] = byte(k%250 + 1)
	}
	f := &ggfnt.Font{Data: data, OffsetToHorzKernings: 0, OffsetToVertKernings: 3}
	if vert == 0 {
		f.OffsetToVertKernings = uint32(3 + n*5)
	}
	k := f.Kerning()
	vAssert(int(k.NumPairs()) == n*(1-vert) && int(k.NumVertPairs()) == n*vert, "wrong number of pairs")
	for _, i := range []int{0, 127, 128, 255, 256, 32767, 32768, 65535, 65536, n / 2, n - 2, n - 1} {
		if i >= n {
			continue
		}
		value := vU8()
		data[vert*3+3+n*4+i] = value
		for d := -1; d <= 1; d++ {
			x, y := ggfnt.GlyphIndex(a(i)), ggfnt.GlyphIndex(b(i)+d)
			want := int8(0)
			if d == 0 {
				want = int8(value)
			}
			got := [2]int8{k.Get(x, y), k.GetVert(x, y)}
			vAssert(got[vert] == want && got[1-vert] == 0, "wrong kerning")
		}
	}
}
