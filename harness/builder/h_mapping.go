package builder

import "github.com/tinne26/ggfnt"

// hMapFont is a font in the making with glyphs (whose indices are their order
// here) and settings.
type hMapFont struct {
	b       *Font
	u       []uint64
	options []int
	maps    map[rune]*hMapped
	order   []rune
}

// hMapped is what a code point is mapped to: one group of glyphs per case.
type hMapped struct {
	settings []int // of the switch, if any
	groups   [][]int
	flags    []uint8
}

func hNewMapFont(glyphs int, options ...int) *hMapFont {
	m := &hMapFont{b: New(), options: options, maps: map[rune]*hMapped{}}
	m.u = hGlyphs(m.b, glyphs)
	for i, n := range options {
		names := make([]string, n)
		for k := range names {
			names[k] = string([]byte{'a' + byte(k%26), 'a' + byte(k/26)})
		}
		key, err := m.b.AddSetting(string([]byte{'s', 'a' + byte(i)}), names...)
		vAssert(err == nil && int(key) == i, "a valid setting is refused")
	}
	return m
}

func (m *hMapFont) uids(group []int) []uint64 {
	var r []uint64
	for _, g := range group {
		r = append(r, m.u[g])
	}
	return r
}

func (m *hMapFont) put(c rune, x *hMapped) {
	if m.maps[c] == nil {
		m.order = append(m.order, c)
	}
	m.maps[c] = x
}

// single maps to one glyph.
func (m *hMapFont) single(c rune, g int) {
	vAssert(m.b.Map(c, m.u[g]) == nil, "a valid mapping is refused")
	m.put(c, &hMapped{groups: [][]int{{g}}, flags: []uint8{0}})
}

// group maps to some glyphs.
func (m *hMapFont) group(c rune, flags uint8, group ...int) {
	vAssert(m.b.MapGroup(c, ggfnt.AnimationFlags(flags), m.uids(group)...) == nil, "a valid mapping is refused")
	m.put(c, &hMapped{groups: [][]int{group}, flags: []uint8{flags}})
}

// addSwitch adds a switch.
func (m *hMapFont) addSwitch(settings ...int) uint8 {
	var keys []ggfnt.SettingKey
	for _, s := range settings {
		keys = append(keys, ggfnt.SettingKey(s))
	}
	sw, err := m.b.AddSwitch(keys...)
	vAssert(err == nil, "a valid switch is refused")
	return sw
}

func (m *hMapFont) cases(settings []int) int {
	n := 1
	for _, s := range settings {
		n *= m.options[s]
	}
	return n
}

// cased maps by cases; flags are those of the groups of several glyphs.
func (m *hMapFont) cased(c rune, sw uint8, settings []int, groups [][]int, flags []uint8) {
	var uids [][]uint64
	var anim []ggfnt.AnimationFlags
	x := &hMapped{settings: settings, groups: groups}
	for i, g := range groups {
		uids = append(uids, m.uids(g))
		if len(g) > 1 {
			anim = append(anim, ggfnt.AnimationFlags(flags[i]))
			x.flags = append(x.flags, flags[i])
		} else {
			x.flags = append(x.flags, 0)
		}
	}
	vAssert(m.b.MapWithSwitch(c, sw, uids, anim) == nil, "a valid mapping is refused")
	m.put(c, x)
}

// caseOf gives the case that settings select: the last setting of the switch
// varies fastest.
func (m *hMapFont) caseOf(x *hMapped, settings []uint8) int {
	k := 0
	for _, s := range x.settings {
		k = k*m.options[s] + int(settings[s])
	}
	return k
}

// hCheckGroup compares a group.
func hCheckGroup(g ggfnt.GlyphMappingGroup, x *hMapped, k int) {
	want := x.groups[k]
	vAssert(int(g.Size()) == len(want), "wrong group size")
	vAssert(uint8(g.AnimationFlags()) == x.flags[k], "wrong animation flags")
	if len(x.settings) > 0 {
		vAssert(int(g.CaseBranch()) == k, "wrong case")
	}
	for i, w := range want {
		vAssert(int(g.Select(uint8(i))) == w, "wrong glyph")
	}
}

// check looks up a code point in all ways, under given settings.
func (m *hMapFont) check(f *ggfnt.Font, c rune, settings []uint8) {
	cache := ggfnt.NewSettingsCache(f)
	for i, v := range settings {
		cache.Set(ggfnt.SettingKey(i), v)
	}
	g, ok := f.Mapping().Utf8(c, settings)
	h, ok2 := f.Mapping().Utf8WithCache(c, cache)
	x := (*hMapped)(nil)
	for _, r := range m.order {
		if r == c {
			x = m.maps[r]
		}
	}
	vAssert(ok == (x != nil) && ok2 == ok, "wrong outcome of a lookup")
	if uint32(c) < 128 {
		_, ok3 := f.Mapping().Ascii(byte(c), settings)
		vAssert(ok3 == ok, "wrong outcome of an ASCII lookup")
	}
	if x == nil {
		vReach("not-found")
		return
	}
	vReach("found")
	k := m.caseOf(x, settings)
	hCheckGroup(g, x, k)
	hCheckGroup(h, x, k)
	h, _ = f.Mapping().Utf8WithCache(c, cache)
	hCheckGroup(h, x, k)
}

// hSettingValues picks symbolic options for each setting.
func (m *hMapFont) values() []uint8 {
	var r []uint8
	for _, n := range m.options {
		v := vU8()
		vAssume(int(v) < n)
		r = append(r, v)
	}
	return r
}
