package builder

import "github.com/tinne26/ggfnt"

// hNamed checks the lookup of q in a font whose glyph i has the name names[i].
func hNamed(f *ggfnt.Font, names []string, q string) {
	want := ggfnt.GlyphMissing
	count := 0
	for i, s := range names {
		if s == "" {
			continue
		}
		count++
		if s == q {
			want = ggfnt.GlyphIndex(i)
		}
	}
	vAssert(int(f.Glyphs().NamedCount()) == count, "wrong number of named glyphs")
	got := f.Glyphs().FindIndexByName(q)
	vAssert(got == want, "wrong glyph found by name")
	if got == ggfnt.GlyphMissing {
		vReach("miss")
	} else {
		vReach("hit")
	}
}

// Up to 2 glyphs (3 thorough) with or without a name of 1 to 2 characters,
// all of them symbolic, looked up by any string of 0 to 3 bytes.
//
//verif:nomerge
//verif:reach hit miss
func vhC08_Find() {
	b := New()
	n := vPick(1, vBound(2, 3))
	u := hGlyphs(b, n)
	names := make([]string, n)
	for i := range u {
		l := vPick(0, 2)
		if l == 0 {
			continue
		}
		s := hBasic(l, l)
		for _, o := range names {
			vAssume(o != s)
		}
		names[i] = s
		vAssert(b.SetGlyphName(u[i], s) == nil, "a valid glyph name is refused")
	}
	f := hBuild(b)
	hNamed(f, names, string(vBytes(vPick(0, 3))))
}

// Repeated names are refused when building.
func vhC08_Repeated() {
	b := New()
	n := vPick(2, 3)
	u := hGlyphs(b, n)
	s := hBasic(vPick(1, 2), 2)
	i := vPick(0, n-2)
	j := vPick(i+1, n-1)
	e1, e2 := b.SetGlyphName(u[i], s), b.SetGlyphName(u[j], s)
	vAssert(e1 == nil && e2 == nil, "a valid glyph name is refused")
	_, err := b.Build()
	vAssert(err != nil, "two glyphs with the same name are accepted")
	// renaming solves it
	vAssert(b.SetGlyphName(u[i], s+"x") == nil, "a valid glyph name is refused")
	f := hBuild(b)
	vAssert(f.Glyphs().FindIndexByName(s) == ggfnt.GlyphIndex(j), "wrong glyph found by name")
	vAssert(f.Glyphs().FindIndexByName(s+"x") == ggfnt.GlyphIndex(i), "wrong glyph found by name")
}

// Tables of 7 (12 thorough) names that share prefixes, in any rotation of the
// glyph order, one of them with a symbolic suffix, looked up by names with the
// same prefixes and symbolic bytes: searches over longer tables.
//
//verif:nomerge
//verif:reach hit miss
func vhC08_Prefixes() {
	all := []string{"a", "aa", "aaa", "aab", "b", "ab", "A", "b-a", "b0", "Z9", "zz-top", "aaaa-bbbb-cccc-dddd-eeee-ffff-gg"}
	n := vBound(7, 12)
	rot := vPick(0, n-1)
	b := New()
	u := hGlyphs(b, n+1)
	names := make([]string, n+1)
	for i := 0; i < n; i++ {
		names[i] = all[(i+rot)%n]
	}
	names[n] = "aa" + hBasic(1, 1)
	for i, s := range names {
		if i < n {
			vAssume(s != names[n])
		}
		vAssert(b.SetGlyphName(u[i], s) == nil, "a valid glyph name is refused")
	}
	f := hBuild(b)
	q := []string{"", "a", "aa", "b"}[vPick(0, 3)] + string(vBytes(vPick(0, 2)))
	hNamed(f, names, q)
}

// Tables of 255 to 257, 33000 and 65535 names, looked up at and next to the
// positions where sizes of integers end.
//
//verif:steps 1000000000
func vhC08_Huge() {
	n := []int{255, 256, 257, 33000, 65535}[vPick(0, 4)]
	name := func(i int) []byte { return []byte{'0' + byte(i/4096), '0' + byte(i/64%64), '0' + byte(i%64)} }
	data := make([]byte, 2+n*8)
	hLE(data[:0], n, 2)
	for k := 0; k < n; k++ {
		hLE(data[:2+k*2], n-1-k, 2)
		hLE(data[:2+n*2+k*3], 3*k+3, 3)
		copy(data[2+n*5+k*3:], name(k))
	}
	f := &ggfnt.Font{Data: data}
	vAssert(int(f.Glyphs().NamedCount()) == n, "wrong number of names")
	for _, i := range []int{0, 127, 128, 255, 256, 21845, 21846, 32767, 32768, n / 2, n - 2, n - 1} {
		if i >= n {
			continue
		}
		x := vU16()
		hLE(data[:2+i*2], int(x), 2)
		s := string(name(i))
		vAssert(f.Glyphs().FindIndexByName(s) == ggfnt.GlyphIndex(x), "wrong glyph")
		for _, o := range []string{s + "0", s[:2], s[:2] + "z", ""} {
			vAssert(f.Glyphs().FindIndexByName(o) == ggfnt.GlyphMissing, "a name that no glyph has is found")
		}
	}
}
