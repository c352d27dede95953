package builder

import "github.com/tinne26/ggfnt"

// hSwitchFont is a font with settings of the given numbers of options, and two
// glyphs.
func hSwitchFont(options []int) (*Font, []uint64) {
	m := hNewMapFont(2, options...)
	return m.b, m.u
}

// hData is the font as built.
func hData(b *Font) string { return string(hBuild(b).Data) }

// hSwitchable tells whether settings can make a switch.
func hSwitchable(options []int, keys []uint8) bool {
	if len(keys) < 1 || len(keys) > 255 {
		return false
	}
	cases, ok := 1, true
	for i, k := range keys {
		if int(k) >= len(options) {
			return false
		}
		for _, q := range keys[:i] {
			if q == k {
				ok = false
			}
		}
		if cases <= 254 { // (no overflow: there can be 255 settings)
			cases *= options[k]
		}
	}
	return ok && cases <= 254
}

// A request for a switch over any (arbitrary) 0 to 3 of 1 to 6 settings (4 lists
// of numbers of options, whose products meet 254 and 256 on both sides) is
// granted exactly when the switch fits the format, and then the switch works for
// all its cases: a number of glyphs other than that of the cases is refused. The
// keys of switches are consecutive. A refusal changes nothing.
//
//verif:reach granted refused
func vhC30_Switches() {
	vMapOrder(1)
	options := [][]int{{2, 127, 128, 1}, {15, 17, 16, 254}, {255, 1, 2, 3, 4, 5}, {1}}[vPick(0, 3)]
	b, u := hSwitchFont(options)
	granted := 0
	for i := vBound(1, 2); i > 0; i-- {
		n := vPick(0, 3)
		if n == 3 && len(options) == 6 && vBound(0, 1) == 0 {
			vStop()
		}
		keys := make([]uint8, n)
		req := make([]ggfnt.SettingKey, n)
		for k := range keys {
			keys[k] = vU8()
			if int(keys[k]) < len(options) {
				keys[k] = uint8(vConc(int(keys[k])))
			}
			req[k] = ggfnt.SettingKey(keys[k])
		}
		before := hData(b)
		sw, err := b.AddSwitch(req...)
		vAssert((err == nil) == hSwitchable(options, keys), "a switch is granted or refused wrongly")
		if err != nil {
			vAssert(hData(b) == before, "a refused switch changes the font")
			vReach("refused")
			continue
		}
		vAssert(int(sw) == granted, "wrong switch key")
		granted++
		for k := range req {
			req[k] = 0 // (the caller's)
		}
		cases := 1
		for _, k := range keys {
			cases *= options[k]
		}
		glyphs := make([]uint64, cases+1)
		for k := range glyphs {
			glyphs[k] = u[k&1]
		}
		vAssert(b.MapWithSwitchSingles('a', sw, glyphs...) != nil, "too many cases are accepted")
		vAssert(b.MapWithSwitchSingles('a', sw, glyphs[:cases-1]...) != nil, "too few cases are accepted")
		vAssert(b.MapWithSwitchSingles('a', sw, glyphs[:cases]...) == nil, "the cases are refused")
		f := hBuild(b)
		settings := make([]uint8, len(options))
		want := 0
		for _, k := range keys {
			settings[k] = uint8(vInt(0, options[k]-1))
			want = want*options[k] + int(settings[k])
		}
		g, ok := f.Mapping().Utf8('a', settings)
		vAssert(ok && g.Size() == 1 && int(g.Select(0)) == want&1, "wrong case of a switch")
		vReach("granted")
	}
}

// 255 settings, each with one option: a switch takes any number of them up to
// all, in any order, but not one twice; 254 switches are granted and no more.
//
//verif:reach many full
//verif:steps 200000000
func vhC30_ManySwitches() {
	vMapOrder(1)
	options := make([]int, 255)
	for i := range options {
		options[i] = 1
	}
	b := New()
	u := hGlyphs(b, 2)
	for i := range options {
		_, err := b.AddSetting(string([]byte{'a' + byte(i/26), 'a' + byte(i%26)}), "on")
		vAssert(err == nil, "a valid setting is refused")
	}
	if vPick(0, 1) == 0 {
		n := []int{1, 2, 128, 254, 255, 256}[vPick(0, 5)]
		req := make([]ggfnt.SettingKey, n)
		for i := range req {
			req[i] = ggfnt.SettingKey((i*7 + 3) % 255)
		}
		if (n == 2 || n == 255) && vPick(0, 1) == 1 {
			req[n-1] = ggfnt.SettingKey(vU8())
		}
		bad := n > 255
		for i, k := range req {
			if k == 255 {
				bad = true
			}
			for _, q := range req[:i] {
				if q == k {
					bad = true
				}
			}
		}
		sw, err := b.AddSwitch(req...)
		vAssert((err != nil) == bad, "a switch is granted or refused wrongly")
		if err == nil {
			vAssert(sw == 0 && b.MapWithSwitchSingles('a', sw, u[1]) == nil, "a switch of one case does not work")
			g, ok := hBuild(b).Mapping().Utf8('a', make([]uint8, 255))
			vAssert(ok && g.Select(0) == 1, "wrong case of a switch")
		}
		vReach("many")
		return
	}
	for i := 0; i < 254; i++ {
		sw, err := b.AddSwitch(ggfnt.SettingKey(i))
		vAssert(err == nil && int(sw) == i, "a switch is refused")
	}
	before := hData(b)
	_, err := b.AddSwitch(254)
	vAssert(err != nil && hData(b) == before, "a switch too many is granted")
	sw := []uint8{0, 1, 127, 128, 253}[vPick(0, 4)]
	vAssert(b.MapWithSwitchSingles('a', sw, u[0]) == nil, "a switch does not work")
	vAssert(hData(b) != before, "a mapping is lost")
	vReach("full")
}

// A mapping of an arbitrary code point (by the calls with a switch, quick: of ten
// around the limits), by any of the four calls, with or without
// an earlier mapping of 'b': a mapping to one glyph, to a group of 0, 1, 2, 3,
// 127 or 128 glyphs, or by an arbitrary switch (there are two: of 2 cases, and of
// 6) with the right or a wrong number of cases, of groups of 0, 1, 2, 127 or 128
// glyphs, with the right or a wrong number of animation flags; any one glyph
// undefined, or none. What the format can't hold is refused, all else accepted,
// and a refusal changes nothing.
//
//verif:reach accepted refused
func vhC30_Mappings() {
	vMapOrder(1)
	m := hNewMapFont(2, 2, 3)
	b, u := m.b, m.u
	m.addSwitch(0)
	m.addSwitch(1, 0)
	vAssert(b.MapGroup('b', 2, u...) == nil, "a valid mapping is refused")
	bad := u[0] + 1
	vAssume(bad != u[1])
	call := vPick(0, 3)
	var c rune
	if call < 2 || vBound(0, 1) == 1 {
		c = rune(vU32())
		vAssume(c <= 0x10FFFF && (c < 0xD800 || c > 0xDFFF))
	} else {
		c = []rune{-1 << 31, -1, 0, 31, 32, 33, 'b', 0xFFFF, 0x10000, 0x10FFFF}[vPick(0, 9)]
	}
	ok := c >= ' '
	list := func(n int) []uint64 {
		r := make([]uint64, n)
		for i := range r {
			r[i] = u[i&1]
		}
		if n > 0 {
			switch vPick(0, 2) {
			case 1:
				r[0], ok = bad, false
			case 2:
				r[n-1], ok = bad, false
			}
		}
		return r
	}
	var err error
	var panicked bool
	before := hData(b)
	want := [][]uint64{}
	var sw uint8 = 255
	switch call {
	case 0:
		want = append(want, list(1))
		err = b.Map(c, want[0][0])
	case 1:
		n := []int{0, 1, 2, 3, 127, 128}[vPick(0, 5)]
		want = append(want, list(n))
		ok = ok && n >= 2 && n <= 127
		err = b.MapGroup(c, 1, want[0]...)
	case 2:
		sw = vU8()
		n := []int{0, 1, 2, 3, 5, 6, 7}[vPick(0, 6)]
		l := list(n)
		for i := range l {
			want = append(want, l[i:i+1])
		}
		ok = ok && (sw == 0 && n == 2 || sw == 1 && n == 6)
		panicked = vPanics(func() { err = b.MapWithSwitchSingles(c, sw, l...) })
	case 3:
		sw = vU8()
		n := []int{0, 1, 2, 3, 6}[vPick(0, 4)]
		flags := 0
		for i := 0; i < n; i++ {
			k := 1
			if i == 0 || i == n-1 {
				k = []int{0, 1, 2, 127, 128}[vPick(0, 4)]
			} else if i == 1 {
				k = 2
			}
			if k == 0 || k > 127 {
				ok = false
			}
			if k > 1 {
				flags++
			}
			if ok && i == n-1 {
				want = append(want, list(k))
			} else {
				r := make([]uint64, k)
				for j := range r {
					r[j] = u[(i+j)&1]
				}
				want = append(want, r)
			}
		}
		ok = ok && (sw == 0 && n == 2 || sw == 1 && n == 6)
		f := flags
		if ok {
			f += vPick(-1, 1)
		}
		if f < 0 {
			f = 0
		}
		ok = ok && f == flags
		anim := make([]ggfnt.AnimationFlags, f)
		for i := range anim {
			anim[i] = ggfnt.AnimationFlags(i)
		}
		panicked = vPanics(func() { err = b.MapWithSwitch(c, sw, want, anim) })
	}
	vAssert((err == nil && !panicked) == ok, "a mapping is accepted or refused wrongly")
	f := hBuild(b)
	if !ok {
		vAssert(string(f.Data) == before, "a refused mapping changes the font")
		vReach("refused")
		return
	}
	s0, s1 := uint8(vInt(0, 1)), uint8(vInt(0, 2))
	g, found := f.Mapping().Utf8(c, []uint8{s0, s1})
	k := 0
	switch sw {
	case 0:
		k = int(s0)
	case 1:
		k = int(s1)*2 + int(s0)
	}
	k = vConc(k)
	vAssert(found && int(g.Size()) == len(want[k]), "an accepted mapping is not there")
	for i, w := range want[k] {
		if i < 2 || i == 64 || i >= len(want[k])-2 {
			vAssert(u[g.Select(uint8(i))] == w, "an accepted mapping has other glyphs")
		}
	}
	if c != 'b' {
		g, found = f.Mapping().Utf8('b', []uint8{s0, s1})
		vAssert(found && g.Size() == 2 && g.Select(1) == 1, "an earlier mapping is changed")
	}
	vReach("accepted")
}

// Rune or glyph sets that together need 65535 bytes or more, up to (and beyond)
// 65536: the font builds exactly when their sizes fit the format's offsets.
//
//verif:reach fits too-much
//verif:steps 400000000
func vhC30_BigSets() {
	vMapOrder(1)
	b := New()
	u := hGlyphs(b, 256)
	runes := vPick(0, 1) == 1
	total := 0
	target := []int{65534, 65535, 65536, 65537, 65538, 131072}[vPick(0, 5)]
	if runes {
	}
	// a set takes 2 bytes, and 2 (of runes: 4) bytes per element, 3 (5) per range
	per, perRange := 2, 3
	if runes {
		per, perRange = 4, 5
	}
	for sets := 0; sets < 255 && total < target; sets++ {
		var id uint64
		var err error
		if runes {
			id, err = b.CreateRuneSet()
		} else {
			id, err = b.CreateGlyphSet()
		}
		vAssert(err == nil, "a set is refused")
		total += 2
		for i := 0; i < 255 && total+perRange <= target; i++ {
			if runes {
				err = b.AddRuneSetRange(id, rune(i), rune(i+1))
			} else {
				err = b.AddGlyphSetRange(id, u[i], u[i+1])
			}
			vAssert(err == nil, "a range is refused")
			total += perRange
		}
		for i := 0; i < 4 && total+per <= target; i++ {
			if runes {
				err = b.AddRuneSetListRune(id, rune('0'+i))
			} else {
				err = b.AddGlyphSetListGlyph(id, u[i])
			}
			vAssert(err == nil, "an element is refused")
			total += per
		}
	}
	f, err := b.Build()
	vAssert((err == nil) == (total <= 65535), "sets are accepted or refused wrongly")
	if err != nil {
		vReach("too-much")
		return
	}
	g, err := hReparse(f)
	vAssert(err == nil && string(g.Data) == string(f.Data), "a font with big sets can't be parsed")
	vReach("fits")
}
