package builder

import (
	"image"
	"image/color"

	"github.com/tinne26/ggfnt"
)

// hEdit is a builder and a model of everything in it.
type hEdit struct {
	b        *Font
	uids     []uint64
	widths   []int
	names    []string
	places   []ggfnt.GlyphPlacement
	kerns    []hEditKern
	dyes     []hEditColors
	palettes []hEditColors
	settings []hEditSetting
	switches [][]int
	maps     []hEditMap
	gsets    []*hEditSet
	rsets    []*hEditSet
	grules   []hEditRule
	urules   []hEditRule
}

type hEditKern struct {
	a, b int
	v    int8
}

type hEditColors struct {
	name   string
	alphas []uint8
	colors []color.RGBA
}

type hEditSetting struct {
	name    string
	options []string
}

type hEditMap struct {
	c      rune
	sw     int // -1 for none
	groups [][]int
	flags  []uint8
}

// hEditSet is a set of glyphs (by index) or of runes.
type hEditSet struct {
	uid    uint64
	ranges [][2]int
	list   []int
}

// hEditRule has one element as body: a set or, if it is nil, v.
type hEditRule struct {
	set *hEditSet
	v   int
	out int
}

func (h *hEdit) addGlyph(w int) {
	h.uids = append(h.uids, hGlyph(h.b, w))
	h.widths = append(h.widths, w)
	h.names = append(h.names, "")
	h.places = append(h.places, ggfnt.GlyphPlacement{Advance: uint8(w), TopAdvance: 9, BottomAdvance: 5, HorzCenter: uint8(w / 2)})
}

func (h *hEdit) name(g int, name string) {
	vAssert(h.b.SetGlyphName(h.uids[g], name) == nil, "a valid glyph name is refused")
	h.names[g] = name
}

func (h *hEdit) place(g int, p ggfnt.GlyphPlacement) {
	vAssert(h.b.SetGlyphPlacement(h.uids[g], p) == nil, "a placement is refused")
	h.places[g] = p
}

func (h *hEdit) kern(a, b int, v int8) {
	h.b.SetKerningPair(h.uids[a], h.uids[b], v)
	for i, k := range h.kerns {
		if k.a == a && k.b == b {
			h.kerns = append(append([]hEditKern{}, h.kerns[:i]...), h.kerns[i+1:]...)
			break
		}
	}
	if v != 0 {
		h.kerns = append(h.kerns, hEditKern{a, b, v})
	}
}

func (h *hEdit) hasColors(name string) bool {
	for _, d := range h.dyes {
		if d.name == name {
			return true
		}
	}
	for _, p := range h.palettes {
		if p.name == name {
			return true
		}
	}
	return false
}

func (h *hEdit) dye(name string, alphas ...uint8) {
	err := h.b.AddDye(name, alphas...)
	vAssert((err == nil) == !h.hasColors(name), "wrong acceptance of a dye")
	if err == nil {
		h.dyes = append(h.dyes, hEditColors{name: name, alphas: append([]uint8{}, alphas...)})
	}
	alphas[0] ^= 255 // the builder has its own copy
}

func (h *hEdit) palette(name string, colors ...color.RGBA) {
	err := h.b.AddPalette(name, colors...)
	vAssert((err == nil) == !h.hasColors(name), "wrong acceptance of a palette")
	if err == nil {
		h.palettes = append(h.palettes, hEditColors{name: name, colors: append([]color.RGBA{}, colors...)})
	}
	colors[0].R ^= 255
}

func (h *hEdit) setting(name string, options ...string) {
	known := false
	for _, s := range h.settings {
		known = known || s.name == name
	}
	key, err := h.b.AddSetting(name, options...)
	vAssert((err == nil) == !known, "wrong acceptance of a setting")
	if err == nil {
		vAssert(int(key) == len(h.settings), "wrong setting key")
		h.settings = append(h.settings, hEditSetting{name, append([]string{}, options...)})
	}
	options[0] = "changed"
}

func (h *hEdit) addSwitch(settings ...int) {
	var keys []ggfnt.SettingKey
	for _, s := range settings {
		keys = append(keys, ggfnt.SettingKey(s))
	}
	sw, err := h.b.AddSwitch(keys...)
	vAssert(err == nil && int(sw) == len(h.switches), "wrong outcome of adding a switch")
	h.switches = append(h.switches, append([]int{}, settings...))
	keys[0] = 200
}

func (h *hEdit) put(m hEditMap) {
	for i := range h.maps {
		if h.maps[i].c == m.c {
			h.maps = append([]hEditMap{}, h.maps...)
			h.maps[i] = m
			return
		}
	}
	h.maps = append(h.maps, m)
}

func (h *hEdit) single(c rune, g int) {
	vAssert(h.b.Map(c, h.uids[g]) == nil, "a valid mapping is refused")
	h.put(hEditMap{c, -1, [][]int{{g}}, []uint8{0}})
}

func (h *hEdit) group(c rune, flags uint8, g ...int) {
	var uids []uint64
	for _, x := range g {
		uids = append(uids, h.uids[x])
	}
	vAssert(h.b.MapGroup(c, ggfnt.AnimationFlags(flags), uids...) == nil, "a valid mapping is refused")
	h.put(hEditMap{c, -1, [][]int{g}, []uint8{flags}})
	uids[0] = uids[1]
}

// cased maps with a switch on one setting: case i has glyph i, the last one
// also the first glyph.
func (h *hEdit) cased(c rune, sw int, flags uint8) {
	n := len(h.settings[h.switches[sw][0]].options)
	m := hEditMap{c: c, sw: sw}
	var uids [][]uint64
	for i := 0; i < n; i++ {
		g := []int{i % 4}
		f := uint8(0)
		if i == n-1 {
			g = append(g, 0)
			f = flags
		}
		var u []uint64
		for _, x := range g {
			u = append(u, h.uids[x])
		}
		m.groups, m.flags, uids = append(m.groups, g), append(m.flags, f), append(uids, u)
	}
	anim := []ggfnt.AnimationFlags{ggfnt.AnimationFlags(flags)}
	vAssert(h.b.MapWithSwitch(c, uint8(sw), uids, anim) == nil, "a valid mapping is refused")
	h.put(m)
	uids[0][0], anim[0] = 5, anim[0]^1
}

func (h *hEdit) glyphSet() *hEditSet {
	uid, err := h.b.CreateGlyphSet()
	vAssert(err == nil, "a glyph set is refused")
	h.gsets = append(h.gsets, &hEditSet{uid: uid})
	return h.gsets[len(h.gsets)-1]
}

func (h *hEdit) runeSet() *hEditSet {
	uid, err := h.b.CreateRuneSet()
	vAssert(err == nil, "a rune set is refused")
	h.rsets = append(h.rsets, &hEditSet{uid: uid})
	return h.rsets[len(h.rsets)-1]
}

func (h *hEdit) removeSet(runes bool, i int) {
	sets := &h.gsets
	f := h.b.RemoveGlyphSet
	if runes {
		sets, f = &h.rsets, h.b.RemoveRuneSet
	}
	uid := (*sets)[i].uid
	vAssert(f(uid), "a set is not removed")
	vAssert(!f(uid), "a set is removed twice")
	*sets = append(append([]*hEditSet{}, (*sets)[:i]...), (*sets)[i+1:]...)
}

// setRange adds or removes a range.
func (h *hEdit) setRange(runes bool, s *hEditSet, add bool, a, b int) {
	at := -1
	for i, r := range s.ranges {
		if r == [2]int{a, b} {
			at = i
		}
	}
	var ok bool
	switch {
	case runes && add:
		ok = h.b.AddRuneSetRange(s.uid, rune(a), rune(b)) == nil
	case runes:
		ok = h.b.RemoveRuneSetRange(s.uid, rune(a), rune(b))
	case add:
		ok = h.b.AddGlyphSetRange(s.uid, h.uids[a], h.uids[b]) == nil
	default:
		ok = h.b.RemoveGlyphSetRange(s.uid, h.uids[a], h.uids[b])
	}
	vAssert(ok == (add == (at < 0)), "wrong outcome of a range edit")
	if ok && add {
		s.ranges = append(s.ranges, [2]int{a, b})
	} else if ok {
		s.ranges = append(append([][2]int{}, s.ranges[:at]...), s.ranges[at+1:]...)
	}
}

// setElem adds or removes a list element.
func (h *hEdit) setElem(runes bool, s *hEditSet, add bool, v int) {
	at := -1
	for i, x := range s.list {
		if x == v {
			at = i
		}
	}
	var ok bool
	switch {
	case runes && add:
		ok = h.b.AddRuneSetListRune(s.uid, rune(v)) == nil
	case runes:
		ok = h.b.RemoveRuneSetListRune(s.uid, rune(v))
	case add:
		ok = h.b.AddGlyphSetListGlyph(s.uid, h.uids[v]) == nil
	default:
		ok = h.b.RemoveGlyphSetListGlyph(s.uid, h.uids[v])
	}
	vAssert(ok == (add == (at < 0)), "wrong outcome of a list edit")
	if ok && add {
		s.list = append(s.list, v)
	} else if ok {
		s.list = append(append([]int{}, s.list[:at]...), s.list[at+1:]...)
	}
}

func (h *hEdit) glyphRule(s *hEditSet, v, out int) {
	uid := h.uids[v]
	if s != nil {
		uid = s.uid
	}
	in, o := []uint64{uid}, []uint64{h.uids[out]}
	vAssert(h.b.AddGlyphRewriteRule(0, 1, 0, in, o...) == nil, "a valid rule is refused")
	h.grules = append(h.grules, hEditRule{s, v, out})
	in[0], o[0] = 1, 1
}

func (h *hEdit) runeRule(v, out int) {
	in := []rune{rune(v)}
	vAssert(h.b.AddSimpleUtf8RewriteRule(rune(out), in...) == nil, "a valid rule is refused")
	h.urules = append(h.urules, hEditRule{nil, v, out})
	in[0] = 1
}

// buildable tells whether Build should succeed.
func (h *hEdit) buildable() bool {
	for i, a := range h.names {
		for _, b := range h.names[:i] {
			if a != "" && a == b {
				return false
			}
		}
	}
	for _, s := range h.gsets {
		for _, r := range s.ranges {
			if r[0] > r[1] {
				return false
			}
		}
	}
	for _, r := range h.grules {
		if r.set != nil && h.setIndex(r.set) < 0 {
			return false
		}
	}
	return true
}

func (h *hEdit) setIndex(s *hEditSet) int {
	for i, x := range h.gsets {
		if x == s {
			return i
		}
	}
	return -1
}

// checkSets compares the sets of the builder.
func (h *hEdit) checkSets() {
	for k := 0; k < 2; k++ {
		for _, s := range [][]*hEditSet{h.gsets, h.rsets}[k] {
			i, j := 0, 0
			if k == 0 {
				h.b.EachGlyphSetRange(s.uid, func(a, b uint64) {
					vAssert(i < len(s.ranges) && a == h.uids[s.ranges[i][0]] && b == h.uids[s.ranges[i][1]], "wrong range in the builder")
					i++
				})
				h.b.EachGlyphSetListGlyph(s.uid, func(u uint64) {
					vAssert(j < len(s.list) && u == h.uids[s.list[j]], "wrong glyph in the builder")
					j++
				})
			} else {
				h.b.EachRuneSetRange(s.uid, func(a, b rune) {
					vAssert(i < len(s.ranges) && int(a) == s.ranges[i][0] && int(b) == s.ranges[i][1], "wrong range in the builder")
					i++
				})
				h.b.EachRuneSetListRune(s.uid, func(r rune) {
					vAssert(j < len(s.list) && int(r) == s.list[j], "wrong rune in the builder")
					j++
				})
			}
			vAssert(i == len(s.ranges) && j == len(s.list), "missing elements in the builder")
		}
	}
}

// check compares the builder, and the font it builds if it should build.
func (h *hEdit) check() {
	vAssert(h.b.GetNumGlyphs() == len(h.uids), "wrong number of glyphs in the builder")
	h.checkSets()
	at := 255
	for _, d := range h.dyes {
		i := 0
		err := h.b.EachDyeAlpha(d.name, func(alpha, index uint8) {
			vAssert(i < len(d.alphas) && alpha == d.alphas[i] && int(index) == at-i, "wrong dye in the builder")
			i++
		})
		vAssert(err == nil && i == len(d.alphas), "wrong dye size in the builder")
		at -= i
	}
	for _, p := range h.palettes {
		i := 0
		err := h.b.EachPaletteColor(p.name, func(c color.RGBA, index uint8) {
			vAssert(i < len(p.colors) && c == p.colors[i] && int(index) == at-i, "wrong palette in the builder")
			i++
		})
		vAssert(err == nil && i == len(p.colors), "wrong palette size in the builder")
		at -= i
	}
	f, err := h.b.Build()
	vAssert((err == nil) == h.buildable(), "wrong outcome of a build")
	if err != nil {
		vReach("unbuildable")
		return
	}
	vReach("built")
	h.checkFont(f)
}

func (h *hEdit) checkFont(f *ggfnt.Font) {
	gl := f.Glyphs()
	vAssert(int(gl.Count()) == len(h.uids), "wrong number of glyphs")
	named := 0
	for i, name := range h.names {
		if name != "" {
			named++
			vAssert(int(gl.FindIndexByName(name)) == i, "wrong glyph name")
		}
		m := gl.RasterizeMask(ggfnt.GlyphIndex(i))
		vAssert(m != nil && m.Rect == image.Rect(0, -1, h.widths[i], 0), "wrong glyph mask")
		vAssert(gl.Advance(ggfnt.GlyphIndex(i)) == h.places[i].Advance, "wrong advance")
		for j := range h.names {
			want := int8(0)
			for _, k := range h.kerns {
				if k.a == i && k.b == j {
					want = k.v
				}
			}
			vAssert(f.Kerning().Get(ggfnt.GlyphIndex(i), ggfnt.GlyphIndex(j)) == want, "wrong kerning")
		}
	}
	vAssert(int(gl.NamedCount()) == named, "wrong number of names")
	vAssert(int(f.Kerning().NumPairs()) == len(h.kerns) && f.Kerning().NumVertPairs() == 0, "wrong number of kernings")
	n := 0
	f.Color().EachDye(func(key ggfnt.DyeKey, name string) {
		vAssert(n < len(h.dyes) && name == h.dyes[n].name, "wrong dye")
		i := 0
		f.Color().EachDyeAlpha(key, func(a uint8) {
			vAssert(i < len(h.dyes[n].alphas) && a == h.dyes[n].alphas[i], "wrong alpha")
			i++
		})
		vAssert(i == len(h.dyes[n].alphas), "wrong dye size")
		n++
	})
	vAssert(n == len(h.dyes), "wrong number of dyes")
	n = 0
	f.Color().EachPalette(func(key ggfnt.PaletteKey, name string) {
		vAssert(n < len(h.palettes) && name == h.palettes[n].name, "wrong palette")
		i := 0
		f.Color().EachPaletteColor(key, func(c color.RGBA) {
			vAssert(i < len(h.palettes[n].colors) && c == h.palettes[n].colors[i], "wrong color")
			i++
		})
		vAssert(i == len(h.palettes[n].colors), "wrong palette size")
		n++
	})
	vAssert(n == len(h.palettes), "wrong number of palettes")
	st := f.Settings()
	vAssert(int(st.Count()) == len(h.settings), "wrong number of settings")
	st.Each(func(key ggfnt.SettingKey, name string) {
		s := h.settings[key]
		vAssert(name == s.name && int(st.GetNumOptions(key)) == len(s.options), "wrong setting")
		for i, o := range s.options {
			vAssert(st.GetOptionName(key, uint8(i)) == o, "wrong option")
		}
	})
	mp := f.Mapping()
	vAssert(int(mp.NumEntries()) == len(h.maps) && int(mp.NumSwitchTypes()) == len(h.switches), "wrong number of mappings")
	for _, m := range h.maps {
		for k, group := range m.groups {
			values := make([]uint8, len(h.settings))
			if m.sw >= 0 {
				values[h.switches[m.sw][0]] = uint8(k)
			}
			g, ok := mp.Utf8(m.c, values)
			vAssert(ok && int(g.Size()) == len(group) && uint8(g.AnimationFlags()) == m.flags[k], "wrong mapping")
			for i, x := range group {
				vAssert(int(g.Select(uint8(i))) == x, "wrong mapped glyph")
			}
		}
	}
	rw := f.Rewrites()
	vAssert(int(rw.NumGlyphSets()) == len(h.gsets) && int(rw.NumUTF8Sets()) == len(h.rsets), "wrong number of sets")
	for k, s := range h.gsets {
		set := rw.GetGlyphSet(uint8(k))
		i, j := 0, 0
		set.EachRange(func(r ggfnt.GlyphRange) error {
			vAssert(i < len(s.ranges) && int(r.First) == s.ranges[i][0] && int(r.Last) == s.ranges[i][1], "wrong range")
			i++
			return nil
		})
		set.EachListGlyph(func(g ggfnt.GlyphIndex) error {
			vAssert(j < len(s.list) && int(g) == s.list[j], "wrong set glyph")
			j++
			return nil
		})
		vAssert(i == len(s.ranges) && j == len(s.list), "missing set elements")
	}
	for k, s := range h.rsets {
		set := rw.GetUtf8Set(uint8(k))
		i, j := 0, 0
		set.EachRange(func(a, b rune) error {
			vAssert(i < len(s.ranges) && int(a) == s.ranges[i][0] && int(b) == s.ranges[i][1], "wrong range")
			i++
			return nil
		})
		set.EachListRune(func(r rune) error {
			vAssert(j < len(s.list) && int(r) == s.list[j], "wrong set rune")
			j++
			return nil
		})
		vAssert(i == len(s.ranges) && j == len(s.list), "missing set elements")
	}
	vAssert(int(rw.NumGlyphRules()) == len(h.grules) && int(rw.NumUTF8Rules()) == len(h.urules), "wrong number of rules")
	for k, w := range h.grules {
		r := rw.GetGlyphRule(uint16(k))
		got, ok := hDecodeRule(r.Data, 2)
		want := hRule{cond: 255, lens: [3]uint8{0, 1, 0}, in: []hElem{{false, uint32(w.v)}}, out: []uint32{uint32(w.out)}}
		if w.set != nil {
			want.in = []hElem{{true, uint32(h.setIndex(w.set))}}
		}
		vAssert(ok && got.same(&want), "wrong glyph rule")
	}
	for k, w := range h.urules {
		r := rw.GetUtf8Rule(uint16(k))
		got, ok := hDecodeRule(r.Data, 4)
		want := hRule{cond: 255, lens: [3]uint8{0, 1, 0}, in: []hElem{{false, uint32(w.v)}}, out: []uint32{uint32(w.out)}}
		vAssert(ok && got.same(&want), "wrong utf8 rule")
	}
}

// hEditBase is a builder with some of everything.
func hEditBase() *hEdit {
	h := &hEdit{b: New()}
	for i := 0; i < 4; i++ {
		h.addGlyph(1 + i%3)
	}
	h.name(2, "nb")
	h.name(1, "na")
	h.kern(0, 1, 5)
	h.kern(3, 0, -6)
	h.dye("dye", 10, 20)
	h.palette("pal", color.RGBA{1, 2, 3, 4})
	h.setting("one", "aa", "bb")
	h.setting("two", "cc", "aa", "dd")
	h.addSwitch(1)
	h.addSwitch(0)
	h.single('p', 3)
	h.cased('q', 0, 9)
	h.group('r', 2, 1, 0)
	s := h.glyphSet()
	h.setElem(false, s, true, 1)
	h.setElem(false, s, true, 3)
	h.setRange(false, h.glyphSet(), true, 0, 2)
	s = h.runeSet()
	h.setRange(true, s, true, 'a', 'f')
	h.setRange(true, s, true, 'x', 'x')
	h.setElem(true, h.runeSet(), true, 'k')
	h.runeRule('f', 'g')
	h.glyphRule(h.gsets[1], 0, 2)
	h.glyphRule(nil, 3, 1)
	return h
}

const hEditOps = 20

// op applies an edit of a given kind, on some item.
func (h *hEdit) op(kind int) {
	set := func(runes bool) *hEditSet {
		sets := h.gsets
		if runes {
			sets = h.rsets
		}
		if len(sets) == 0 {
			vAssume(false)
		}
		return sets[vPick(0, min(1, len(sets)-1))]
	}
	switch kind {
	case 0:
		h.addGlyph(2)
	case 1:
		h.name(vPick(1, 3), []string{"na", "nb", "zz"}[vPick(0, 2)])
	case 2:
		h.place(vPick(2, 3), ggfnt.GlyphPlacement{Advance: vU8(), TopAdvance: vU8(), BottomAdvance: vU8(), HorzCenter: vU8()})
	case 3:
		v := []int8{0, 1, -128}[vPick(0, 2)]
		h.kern([]int{0, 3, 1}[vPick(0, 2)], vPick(0, 1), v)
	case 4:
		h.dye([]string{"dye", "pal", "x"}[vPick(0, 2)], vU8())
	case 5:
		h.palette([]string{"dye", "pal", "y"}[vPick(0, 2)], color.RGBA{vU8(), vU8(), vU8(), vU8()}, color.RGBA{5, 6, 7, 8})
	case 6:
		h.setting([]string{"one", "new"}[vPick(0, 1)], "ee", "bb")
	case 7:
		h.addSwitch([][]int{{0}, {1, 0}}[vPick(0, 1)]...)
	case 8:
		h.single([]rune("pqrs")[vPick(0, 3)], vPick(0, 1))
	case 9:
		h.group([]rune("pqrs")[vPick(0, 3)], vU8(), 3, 2)
	case 10:
		h.cased([]rune("pqrs")[vPick(0, 3)], vPick(0, 1), vU8())
	case 11:
		h.setElem(false, h.glyphSet(), true, 2)
	case 12:
		h.setRange(true, h.runeSet(), true, 'A', 'Z')
	case 13:
		runes := vPick(0, 1) == 1
		if n := len(h.gsets); !runes && n == 0 || runes && len(h.rsets) == 0 {
			vAssume(false)
		}
		h.removeSet(runes, vPick(0, min(1, []int{len(h.gsets), len(h.rsets)}[vB2I(runes)]-1)))
	case 14:
		r := [][2]int{{0, 2}, {1, 1}, {3, 2}}[vPick(0, 2)]
		h.setRange(false, set(false), vPick(0, 1) == 1, r[0], r[1])
	case 15:
		r := [][2]int{{'a', 'f'}, {'x', 'x'}, {'a', 'b'}}[vPick(0, 2)]
		h.setRange(true, set(true), vPick(0, 1) == 1, r[0], r[1])
	case 16:
		h.setElem(false, set(false), vPick(0, 1) == 1, vPick(1, 2))
	case 17:
		h.setElem(true, set(true), vPick(0, 1) == 1, []int{'k', 'l'}[vPick(0, 1)])
	case 18:
		h.runeRule('i', 'j')
		if vPick(0, 1) == 1 {
			h.glyphRule(set(false), 0, 0)
		} else {
			h.glyphRule(nil, 2, 3)
		}
	case 19:
		h.refused()
	}
}

// refused tries edits of things that do not exist, or with invalid values.
func (h *hEdit) refused() {
	b, bad := h.b, h.uids[0]^2
	vAssert(b.SetGlyphName(bad, "x") != nil, "an unknown glyph is named")
	vAssert(b.SetGlyphName(h.uids[0], "x--y") != nil, "an invalid name is accepted")
	vAssert(b.SetGlyphPlacement(bad, ggfnt.GlyphPlacement{}) != nil, "an unknown glyph is placed")
	vAssert(b.Map('p', bad) != nil && b.MapGroup('p', 1, h.uids[0], bad) != nil, "an unknown glyph is mapped")
	vAssert(b.MapWithSwitchSingles('q', 0, h.uids[0], h.uids[1], bad) != nil, "an unknown glyph is mapped")
	vAssert(b.MapWithSwitchSingles('q', 0, h.uids[0]) != nil, "too few cases are mapped")
	_, err := b.AddSwitch(200)
	vAssert(err != nil, "a switch on an unknown setting is accepted")
	_, err = b.AddSetting("fresh")
	vAssert(err != nil, "a setting without options is accepted")
	_, err = b.AddSetting("fresh", "ok", "-")
	vAssert(err != nil, "a setting with an invalid option is accepted")
	vAssert(b.AddDye("fresh") != nil && b.AddDye("", 1) != nil && b.AddPalette("fresh") != nil, "invalid colors are accepted")
	vAssert(b.EachDyeAlpha("fresh", func(a, i uint8) { vAssert(false, "unknown dye") }) != nil, "an unknown dye is listed")
	vAssert(!b.RemoveGlyphSet(bad) && !b.RemoveRuneSet(bad), "an unknown set is removed")
	vAssert(b.AddGlyphSetRange(bad, h.uids[0], h.uids[1]) != nil && b.AddRuneSetRange(bad, 1, 2) != nil, "an unknown set is changed")
	vAssert(b.AddGlyphSetListGlyph(bad, h.uids[0]) != nil && b.AddRuneSetListRune(bad, 1) != nil, "an unknown set is changed")
	vAssert(!b.RemoveGlyphSetRange(bad, h.uids[0], h.uids[1]) && !b.RemoveRuneSetRange(bad, 1, 2), "an unknown set is changed")
	vAssert(!b.RemoveGlyphSetListGlyph(bad, h.uids[0]) && !b.RemoveRuneSetListRune(bad, 1), "an unknown set is changed")
	vAssert(b.AddGlyphRewriteRule(0, 1, 0, []uint64{bad}, h.uids[0]) != nil, "a rule with an unknown glyph is accepted")
	vAssert(b.AddGlyphRewriteRule(0, 1, 0, []uint64{h.uids[0]}, bad) != nil, "a rule with an unknown glyph is accepted")
	if len(h.gsets) > 0 {
		vAssert(b.AddGlyphSetListGlyph(h.gsets[0].uid, bad) != nil, "an unknown glyph is put in a set")
		vAssert(b.AddGlyphSetRange(h.gsets[0].uid, bad, h.uids[1]) != nil && b.AddGlyphSetRange(h.gsets[0].uid, h.uids[1], bad) != nil, "an unknown glyph is put in a set")
	}
	if len(h.rsets) > 0 {
		vAssert(b.AddRuneSetRange(h.rsets[0].uid, 9, 8) != nil && b.AddRuneSetRange(h.rsets[0].uid, 0, 256) != nil, "an invalid range is put in a set")
	}
}
