package builder

import (
	"image/color"

	"github.com/tinne26/ggfnt"
)

// hWalker goes through any content as specified. It makes the counts and sizes
// that fit in the content concrete, one path for each, and stops at others.
type hWalker struct {
	data    []byte
	i       int
	end     int  // end of the bytes with any value
	out     bool // some section goes beyond the content
	offsets []int
}

func (w *hWalker) skip(n int) {
	if w.i += n; w.i > len(w.data) {
		w.out = true
	}
}

func (w *hWalker) num(size int) int {
	if w.i+size > len(w.data) {
		w.out = true
	}
	if w.out {
		return 0
	}
	v := 0
	for k := size - 1; k >= 0; k-- {
		v = v<<8 | int(w.data[w.i+k])
	}
	if v > len(w.data)-w.i-size {
		w.out = true
		return 0
	}
	// sizes that end far within the sections that follow are left out
	if w.i < w.end {
		vAssume(w.i+size+v <= w.end+vBound(2, 100))
	}
	v = vConc(v)
	hLE(w.data[:w.i], v, size)
	w.i += size
	return v
}

// table is a table of n items, with fixed bytes for each, their end offsets,
// and their variable bytes of the given unit.
func (w *hWalker) table(n, fixed, offSize, unit int) {
	if n > 0 {
		w.skip(n*fixed + (n-1)*offSize)
		w.skip(w.num(offSize) * unit)
	}
}

func (w *hWalker) mark() { w.offsets = append(w.offsets, w.i) }

func (w *hWalker) walk() {
	w.skip(28)
	for k := 0; k < 3; k++ {
		w.skip(w.num(1))
	}
	w.skip(w.num(2))
	w.mark() // metrics
	glyphs := w.num(2)
	w.skip(13)
	for k := 0; k < 2; k++ {
		w.mark() // dyes, palettes
		n := w.num(1)
		w.table(n, 0, 1, 1+3*k)
		w.table(n, 0, 2, 1)
	}
	w.mark() // glyph names
	w.table(w.num(2), 2, 3, 1)
	w.mark() // glyph masks
	w.table(glyphs, 0, 3, 1)
	w.mark() // words
	w.table(w.num(1), 0, 2, 1)
	w.mark() // setting names
	n := w.num(1)
	w.table(n, 0, 2, 1)
	w.mark() // setting definitions
	w.table(n, 0, 2, 1)
	w.mark() // switches
	w.table(w.num(1), 0, 2, 1)
	w.mark() // mapping
	w.table(w.num(2), 4, 3, 1)
	for k := 0; k < 3; k++ {
		w.mark() // conditions, utf8 sets, glyph sets
		w.table(w.num(1), 0, 2, 1)
	}
	for k := 0; k < 2; k++ {
		w.mark() // utf8 rules, glyph rules
		w.table(w.num(2), 0, 3, 1)
	}
	for k := 0; k < 2; k++ {
		w.mark() // kernings
		w.skip(w.num(3) * 5)
	}
	if w.i != len(w.data) {
		w.out = true
	}
}

// hTry parses any content. There must be no font if the content is not a
// sequence of sections as specified; if there is one, its sections must be
// where they should be.
func hTry(data []byte, end int) *ggfnt.Font {
	w := &hWalker{data: data, end: end}
	w.walk()
	f, err := hParse(data)
	if err != nil {
		vReach("refused")
		return nil
	}
	vReach("accepted")
	vAssert(!w.out, "a font without all of its sections is accepted")
	vAssert(string(f.Data) == string(data), "the font holds other data")
	for k, off := range []uint32{
		f.OffsetToMetrics, f.OffsetToDyes, f.OffsetToPalettes, f.OffsetToGlyphNames, f.OffsetToGlyphMasks, f.OffsetToWords,
		f.OffsetToSettingNames, f.OffsetToSettingDefinitions, f.OffsetToMappingSwitches, f.OffsetToMapping, f.OffsetToRewriteConditions,
		f.OffsetToRewriteUtf8Sets, f.OffsetToRewriteGlyphSets, f.OffsetToUtf8Rewrites, f.OffsetToGlyphRewrites, f.OffsetToHorzKernings, f.OffsetToVertKernings,
	} {
		vAssert(int(off) == w.offsets[k], "a section is not where it should be")
	}
	vAssert(f.Validate(ggfnt.FmtDefault) == nil, "an accepted font is not valid")
	return f
}

// hGuard runs an accessor: it may panic, and must end. Any read outside of the
// data is reported.
func hGuard(f func()) {
	if vPanics(f) {
		vReach("panic")
	}
}

// hRead keeps a string alive by reading all of it.
func hRead(s string) {
	sum := 0
	for i := 0; i < len(s); i++ {
		sum += int(s[i])
	}
	vAssert(sum >= 0, "unreachable")
}

func hUseHeader(f *ggfnt.Font) {
	h := f.Header()
	i := 28
	for _, s := range []string{h.Name(), h.Family(), h.Author()} {
		n := int(f.Data[i])
		vAssert(s == string(f.Data[i+1:i+1+n]), "a text is not the one in the data")
		i += 1 + n
	}
	n := int(f.Data[i]) | int(f.Data[i+1])<<8
	vAssert(h.About() == string(f.Data[i+2:i+2+n]), "a text is not the one in the data")
	for _, d := range []ggfnt.Date{h.FirstVersionDate(), h.MajorVersionDate(), h.MinorVersionDate()} {
		d.IsValid()
	}
}

// hFix makes an integer of the data concrete if it is at most max, one path for
// each value, for the accessors to take less paths after.
func hFix(data []byte, i, size, max int) {
	v := 0
	for k := size - 1; k >= 0; k-- {
		v = v<<8 | int(data[i+k])
	}
	if v <= max {
		hLE(data[:i], vConc(v), size)
	}
}

// hEnds makes the n end offsets of a table concrete as far as they are within
// the table.
func hEnds(data []byte, i, n, size int) {
	total := 0
	for k := size - 1; k >= 0; k-- {
		total = total<<8 | int(data[i+(n-1)*size+k])
	}
	for k := 0; k < n-1; k++ {
		hFix(data, i+k*size, size, total)
	}
}

// hKey is the key of one of n things, or the first that is not, or 255.
func hKey(n int) uint8 {
	if k := vPick(0, n+1); k <= n && n < 255 {
		return uint8(k)
	}
	return 255
}

func hUseColors(f *ggfnt.Font, which int) {
	c := f.Color()
	hGuard(func() {
		switch which {
		case 0:
			c.EachDye(func(_ ggfnt.DyeKey, s string) { hRead(s) })
		case 1:
			c.EachPalette(func(_ ggfnt.PaletteKey, s string) { hRead(s) })
		case 2:
			key := ggfnt.DyeKey(hKey(int(c.NumDyes())))
			n := 0
			c.EachDyeAlpha(key, func(uint8) { n++ })
			vAssert(n == int(c.NumDyeAlphas(key)), "wrong number of alphas")
		case 3:
			key := ggfnt.PaletteKey(hKey(int(c.NumPalettes())))
			n := 0
			c.EachPaletteColor(key, func(color.RGBA) { n++ })
			vAssert(n == int(c.NumPaletteColors(key)), "wrong number of colors")
		case 4:
			c.Count()
			c.GoColorPalette()
		}
	})
}

func hUseGlyphs(f *ggfnt.Font, which int) {
	g := f.Glyphs()
	n := int(g.Count())
	hEnds(f.Data, int(f.OffsetToGlyphMasks), n, 3)
	i := ggfnt.GlyphIndex(vPick(0, n))
	hGuard(func() {
		switch which {
		case 0:
			g.FindIndexByName(string([]byte{vU8(), vU8()}[:vPick(0, 2)]))
		case 1:
			g.Advance(i)
			g.Placement(i)
		case 2:
			total := 0
			at := int(f.OffsetToGlyphMasks)
			for k := 1; k <= n; k++ {
				total = int(f.Data[at+k*3-3]) | int(f.Data[at+k*3-2])<<8 | int(f.Data[at+k*3-1])<<16
			}
			for k := 1; k < n; k++ {
				v := int(f.Data[at+k*3-3]) | int(f.Data[at+k*3-2])<<8 | int(f.Data[at+k*3-1])<<16
				vAssume(v <= total || v > len(f.Data))
			}
			for k := 0; k < total; k++ {
				vAssume(f.Data[at+n*3+k]&0x76 == 0)
			}
			g.RasterizeMask(i)
		}
	})
}

func hUseSettings(f *ggfnt.Font, which int) {
	s := f.Settings()
	n := int(s.Count())
	if n > 0 {
		hEnds(f.Data, int(f.OffsetToSettingDefinitions), n, 2)
	}
	hGuard(func() {
		switch which {
		case 0:
			hRead(s.GetWord(hKey(int(s.NumWords()))))
		case 1:
			s.Each(func(_ ggfnt.SettingKey, name string) { hRead(name) })
		case 2:
			s.GetNumOptions(ggfnt.SettingKey(hKey(n)))
		case 3:
			key := hKey(n)
			option := uint8(vPick(0, 3))
			hRead(s.GetOptionName(ggfnt.SettingKey(key), option))
		}
	})
}

func hUseMapping(f *ggfnt.Font, which int) {
	m := f.Mapping()
	if n := int(m.NumSwitchTypes()); n > 0 {
		hEnds(f.Data, int(f.OffsetToMappingSwitches)+1, n, 2)
	}
	if n := int(m.NumEntries()); n > 0 {
		hEnds(f.Data, int(f.OffsetToMapping)+2+n*4, n, 3)
	}
	hGuard(func() {
		var group ggfnt.GlyphMappingGroup
		var found bool
		c := rune(vU32())
		switch which {
		case 0:
			group, found = m.Utf8(c, vBytes(int(f.Settings().Count())))
		case 1:
			cache := ggfnt.NewSettingsCache(f)
			group, found = m.Utf8WithCache(c, cache)
		case 2:
			cache := ggfnt.NewSettingsCache(f)
			group, found = ggfnt.NewMappingCache(f, 2).Get(c, cache)
		case 3:
			m.EvaluateSwitch(hKey(int(m.NumSwitchTypes())), vBytes(int(f.Settings().Count())))
		}
		if found {
			group.AnimationFlags()
			k := vU8()
			vAssert(group.Size() > 0, "an empty group")
			group.Select(k)
		}
	})
}

func hUseRewrites(f *ggfnt.Font, which int) {
	r := f.Rewrites()
	for k, n := range []int{int(r.NumConditions()), int(r.NumUTF8Sets()), int(r.NumGlyphSets()), int(r.NumUTF8Rules()), int(r.NumGlyphRules())} {
		if n > 0 {
			at := []uint32{f.OffsetToRewriteConditions, f.OffsetToRewriteUtf8Sets, f.OffsetToRewriteGlyphSets, f.OffsetToUtf8Rewrites, f.OffsetToGlyphRewrites}[k]
			hEnds(f.Data, int(at)+1+k/3, n, 2+k/3)
		}
	}
	hGuard(func() {
		switch which {
		case 0:
			r.EvaluateCondition(hKey(int(r.NumConditions())), vBytes(int(f.Settings().Count())))
		case 1:
			s := r.GetGlyphSet(hKey(int(r.NumGlyphSets())))
			hFix(s.Data, 0, 1, 4)
			s.EachRange(func(ggfnt.GlyphRange) error { return nil })
			s.EachListGlyph(func(ggfnt.GlyphIndex) error { return nil })
		case 2:
			s := r.GetUtf8Set(hKey(int(r.NumUTF8Sets())))
			hFix(s.Data, 0, 1, 4)
			s.EachRange(func(a, b rune) error { return nil })
			s.EachListRune(func(rune) error { return nil })
		case 3:
			rule := r.GetGlyphRule(uint16(vPick(0, int(r.NumGlyphRules()))))
			rule.Condition()
			rule.InLen()
			rule.EachOut(func(ggfnt.GlyphIndex) {})
			vAssert(rule.Equals(rule), "a rule is not equal to itself")
		case 4:
			rule := r.GetUtf8Rule(uint16(vPick(0, int(r.NumUTF8Rules()))))
			rule.Condition()
			rule.InLen()
			rule.EachOut(func(rune) {})
			vAssert(rule.Equals(rule), "a rule is not equal to itself")
		}
	})
}

func hUseKerning(f *ggfnt.Font) {
	a, b := ggfnt.GlyphIndex(vU16()), ggfnt.GlyphIndex(vU16())
	hGuard(func() {
		f.Kerning().Get(a, b)
		f.Kerning().GetVert(a, b)
	})
}

// hBytes gives up to max bytes of any value.
func hBytes(max int) []byte { return vBytes(vPick(0, max)) }

// Any 0 to 7 (thorough: 9) bytes after the first 28 of a font, then the end or
// the metrics and all other sections of the font.
//
//verif:reach accepted refused
func vhC01_Header() {
	s := hEmpty(1)
	data := append([]byte{}, s.head[:28]...)
	data = append(data, hBytes(vBound(7, 9))...)
	end := len(data)
	if vPick(0, 1) == 1 {
		whole := s.bytes()
		data = append(data, whole[hMetricsAt(whole):]...)
	}
	if f := hTry(data, end); f != nil {
		hUseHeader(f)
	}
}

// Any first 28 bytes of a font, or less of them, except for the ID, which is
// that of a font or zero.
//
//verif:reach accepted refused
func vhC01_Start() {
	s := hEmpty(1)
	data := vBytes(28)
	copy(data[4:12], make([]byte, 8))
	if vPick(0, 1) == 1 {
		copy(data[4:12], s.head[4:12])
	}
	end := vPick(0, 28)
	data = data[:end]
	if len(data) == 28 {
		data = append(data, s.bytes()[28:]...)
	}
	if f := hTry(data, end); f != nil {
		hUseHeader(f)
	}
}

// hOffsets are the positions of the sections of a valid font.
func hOffsets(data []byte) []int {
	w := &hWalker{data: data}
	w.walk()
	return w.offsets
}

// Any metrics with up to 3 glyphs, or too many, cut at any byte or not, for a
// font with the data of 2 glyphs.
//
//verif:reach accepted refused
func vhC01_Metrics() {
	s := hEmpty(2)
	at := hMetricsAt(s.head)
	data := append([]byte{}, s.head[:at]...)
	data = append(data, vBytes(vPick(0, 15))...)
	end := len(data)
	if len(data) == at+15 {
		data = append(data, s.bytes()[at+15:]...)
	}
	if f := hTry(data, end); f != nil {
		m := f.Metrics()
		vAssert(m.NumGlyphs() == 2 && m.Ascent() > m.ExtraAscent(), "wrong metrics are accepted")
		m.LineHeight()
		m.VertLineFullWidth()
		hUseGlyphs(f, vPick(0, 2))
	}
}

// Any 0 to 7 (thorough: 9) bytes in place of the dyes and palettes, then the
// end or the remaining sections of the font.
//
//verif:reach accepted refused panic
func vhC01_Colors() {
	s := hEmpty(1)
	whole := s.bytes()
	at := hOffsets(whole)[1]
	data := append([]byte{}, s.head[:at]...)
	data = append(data, hBytes(vBound(7, 9))...)
	end := len(data)
	if vPick(0, 1) == 1 {
		data = append(data, whole[hOffsets(whole)[3]:]...)
	}
	if f := hTry(data, end); f != nil {
		hUseColors(f, vPick(0, 4))
	}
}

// A font with two dyes and no palettes, or the other way around, with any 0 to
// 9 (thorough: 11) bytes in place of those, or up to 16 (thorough: 18) for the
// palettes, then the end or the remaining sections of the font.
//
//verif:reach accepted refused panic
func vhC01_TwoColors() {
	s := hEmpty(1)
	whole := s.bytes()
	at := hOffsets(whole)
	data := append([]byte{}, whole[:at[1]]...)
	which := vPick(0, 1)
	if which == 1 {
		data = append(data, 0, 2)
	} else {
		data = append(data, 2)
	}
	data = append(data, vBytes(vPick(which*7, vBound(9, 11)+which*7))...)
	end := len(data)
	if vPick(0, 1) == 1 {
		if which == 0 {
			data = append(data, 0)
		}
		data = append(data, whole[at[3]:]...)
	}
	if f := hTry(data, end); f != nil {
		hUseColors(f, which+2*vPick(0, 1))
	}
}

// Any 0 to 14 (thorough: 16) bytes in place of the glyph names of a font with 2
// glyphs, then the end or the remaining sections of the font.
//
//verif:reach accepted refused panic
func vhC01_Names() {
	s := hEmpty(2)
	whole := s.bytes()
	at := hOffsets(whole)[3]
	data := append([]byte{}, s.head[:at]...)
	data = append(data, hBytes(vBound(14, 16))...)
	end := len(data)
	if vPick(0, 1) == 1 {
		data = append(data, whole[hOffsets(whole)[4]:]...)
	}
	if f := hTry(data, end); f != nil {
		hUseGlyphs(f, 0)
	}
}

// Any bytes in place of the glyph masks of a font with 1 to 3 glyphs, with or
// without vertical layout, up to 4 (thorough: 6) more than the end offsets
// take (1 (thorough: 2) and up to 2 glyphs for rasterizing a mask, whose data
// ends within that of all masks or beyond the font and draws single pixels without moves: C05
// has others), then the end or the remaining
// sections of the font.
//
//verif:reach accepted refused panic
func vhC01_Masks() {
	which := vPick(1, 2)
	n := vPick(1, 4-which)
	s := hEmpty(n)
	whole := s.bytes()
	at := hOffsets(whole)
	data := append([]byte{}, whole[:at[4]]...)
	data[at[0]+2] = byte(vPick(0, 1))
	max := vBound(4, 6)
	if which == 2 {
		max = vBound(1, 2)
	}
	data = append(data, hBytes(n*3+max)...)
	end := len(data)
	if vPick(0, 1) == 1 {
		data = append(data, whole[at[5]:]...)
	}
	if f := hTry(data, end); f != nil {
		hUseGlyphs(f, which)
	}
}

// hTail is a font up to a section, any bytes in place of it, and then the end or
// the remaining sections. The position of the latter is the second result.
func hTail(section *[]byte, s *hSections, max int) ([]byte, int) {
	*section = hBytes(max)
	data := s.bytes()
	rest := 0
	for _, b := range []*[]byte{&s.vkern, &s.hkern, &s.grules, &s.urules, &s.gsets, &s.usets, &s.conds, &s.mapping, &s.switches, &s.settings, &s.words} {
		if b == section {
			break
		}
		rest += len(*b)
	}
	end := len(data) - rest
	if vPick(0, 1) == 1 {
		data = data[:end]
	}
	return data, end
}

// Any 0 to 6 (thorough: 8) bytes in place of the words of a font with one
// setting of three options, then the end or the remaining sections of the font.
//
//verif:reach accepted refused panic
func vhC01_Words() {
	s := hEmpty(1)
	s.settings = []byte{1, 1, 0, 'a', 3, 0, 0, 1, 255}
	if f := hTry(hTail(&s.words, s, vBound(6, 8))); f != nil {
		hUseSettings(f, vPick(0, 3))
	}
}

// Any 0 to 8 (thorough: 10) bytes in place of the settings of a font with a
// word, then the end or the remaining sections of the font.
//
//verif:reach accepted refused panic
func vhC01_Settings() {
	s := hEmpty(1)
	s.words = []byte{1, 1, 0, 'w'}
	if f := hTry(hTail(&s.settings, s, vBound(8, 10))); f != nil {
		hUseSettings(f, vPick(1, 3))
	}
}

// Any 0 to 6 (thorough: 8) bytes in place of the mapping switches of a font
// with three settings and a mapping by a switch, then the end or the remaining
// sections of the font.
//
//verif:reach accepted refused panic
func vhC01_Switches() {
	s := hEmpty(2)
	s.settings = hSettingsOf(1, 2, 3)
	s.mapping = hTable(2, 3, [][]byte{{0, 0, 0, 0, 1, 0}})
	s.mapping = []byte{1, 0, 'a', 0, 0, 0, 7, 0, 0, vU8(), 0, 0, 0, 0, 1, 0}
	if f := hTry(hTail(&s.switches, s, vBound(6, 8))); f != nil {
		hUseMapping(f, vPick(0, 3))
	}
}

// Any 0 to 12 (thorough: 15) bytes in place of the mapping of a font with two
// settings and a switch, then the end or the remaining sections of the font.
//
//verif:reach accepted refused panic
func vhC01_Mapping() {
	s := hEmpty(2)
	s.settings = hSettingsOf(1, 2)
	s.switches = []byte{1, 2, 0, 0, 1}
	if f := hTry(hTail(&s.mapping, s, vBound(12, 15))); f != nil {
		hUseMapping(f, vPick(0, 2))
	}
}

// Any 0 to 7 (thorough: 8) bytes in place of the rewrite conditions of a font
// with two settings, then the end or the remaining sections of the font.
//
//verif:reach accepted refused panic
func vhC01_Conditions() {
	s := hEmpty(1)
	s.settings = hSettingsOf(1, 2)
	if f := hTry(hTail(&s.conds, s, vBound(7, 8))); f != nil {
		hUseRewrites(f, 0)
	}
}

// Any 0 to 8 (thorough: 11) bytes in place of the sets for glyphs or for code
// points, then the end or the remaining sections of the font.
//
//verif:reach accepted refused panic
func vhC01_Sets() {
	s := hEmpty(1)
	which := vPick(0, 1)
	section := &s.gsets
	if which == 1 {
		section = &s.usets
	}
	if f := hTry(hTail(section, s, vBound(8, 11))); f != nil {
		hUseRewrites(f, 1+which)
	}
}

// Any 0 to 14 (thorough: 18) bytes in place of the rules for glyphs or for code
// points, then the end or the remaining sections of the font.
//
//verif:reach accepted refused panic
func vhC01_Rules() {
	s := hEmpty(1)
	which := vPick(0, 1)
	section := &s.grules
	if which == 1 {
		section = &s.urules
	}
	if f := hTry(hTail(section, s, vBound(14, 18))); f != nil {
		hUseRewrites(f, 3+which)
	}
}

// Any 0 to 17 (thorough: 22) bytes in place of all the kernings of a font with
// two glyphs.
//
//verif:reach accepted refused
func vhC01_Kerning() {
	s := hEmpty(2)
	s.vkern = nil
	s.hkern = hBytes(vBound(17, 22))
	if f := hTry(s.bytes(), len(s.bytes())); f != nil {
		hUseKerning(f)
	}
}

// Any 18 (thorough: or 19) bytes after the glyph masks of a font, or any 13
// to 14 (thorough: 16) after its mappings, or any 6 to 9 (thorough: 14) after
// its rules.
//
//verif:reach accepted refused
func vhC01_Tail() {
	whole := hEmpty(1).bytes()
	at := hOffsets(whole)
	var data []byte
	switch vPick(0, 2) {
	case 0:
		data = append(data, whole[:at[5]]...)
		data = append(data, vBytes(vPick(18, vBound(18, 19)))...)
	case 1:
		data = append(data, whole[:at[10]]...)
		data = append(data, vBytes(vPick(13, vBound(14, 16)))...)
	case 2:
		data = append(data, whole[:at[15]]...)
		data = append(data, vBytes(vPick(6, vBound(9, 14)))...)
	}
	if f := hTry(data, len(data)); f != nil {
		switch vPick(0, 3) {
		case 0:
			hUseSettings(f, vPick(0, 3))
		case 1:
			hUseMapping(f, vPick(0, 3))
		case 2:
			hUseRewrites(f, vPick(0, 4))
		case 3:
			hUseKerning(f)
		}
	}
}

// hLong is a table of n items of the given size, each of them with the given
// bytes at the beginning.
func hLong(countSize, offSize, n, size int, item func(i int) []byte) []byte {
	items := make([][]byte, n)
	for i := range items {
		items[i] = make([]byte, size)
		copy(items[i], item(i))
	}
	return hTable(countSize, offSize, items)
}

// Fonts with 127 to 129 or 254 or 255 items (300 where possible) in one of the
// sections, as they should be, or with the last byte missing, or with the end of
// the last item up to 2 bytes before or after.
//
//verif:reach accepted refused
//verif:steps 1000000000
func vhC01_Many() {
	name := func(i int) []byte { return []byte{'a' + byte(i/20), 'a' + byte(i%20)} }
	which := vPick(0, 12)
	k := vPick(0, 2)
	n := []int{127 + vPick(0, 2), 254, 255}[k]
	if k == 2 && (which == 2 || which == 6 || which == 10 || which == 11 || which == 12) {
		n = 300
	}
	s := hEmpty(2)
	if which == 2 {
		s = hEmpty(n)
	} else if which == 12 {
		s = hEmpty(20)
	}
	whole := s.bytes()
	at := hOffsets(whole)
	last := 0 // position of the end of the last item
	cut := false
	color := func(size int) []byte {
		out := []byte{byte(n)}
		for i := 0; i < n; i++ {
			out = append(out, byte(i+1))
		}
		out = append(out, make([]byte, n*size)...)
		last = len(out) + n*2 - 2
		return append(out, hLong(0, 2, n, 2, name)...)
	}
	set := func(section *[]byte, countSize, offSize int, content []byte) {
		last = countSize + n*offSize - offSize
		for _, b := range []*[]byte{&s.head, &s.words, &s.settings, &s.switches, &s.mapping, &s.conds, &s.usets, &s.gsets, &s.urules, &s.grules, &s.hkern, &s.vkern} {
			if b == section {
				break
			}
			last += len(*b)
		}
		*section = content
	}
	var use func(f *ggfnt.Font)
	g := ggfnt.GlyphIndex(1)
	switch which {
	case 0, 1:
		section := color(1 + which*3)
		section = append([]byte{0}[:which], section...)
		last += at[1] + which
		s.head = append(append(append([]byte{}, whole[:at[1]]...), section...), s.head[at[2+which]:]...)
		use = func(f *ggfnt.Font) {
			c := f.Color()
			c.EachDye(func(k ggfnt.DyeKey, s string) {
				hRead(s)
				vAssert(c.NumDyeAlphas(k) == 1, "wrong number of alphas")
			})
			c.EachPalette(func(k ggfnt.PaletteKey, s string) {
				hRead(s)
				vAssert(c.NumPaletteColors(k) == 1, "wrong number of colors")
			})
		}
	case 2:
		section := hLE(nil, n, 2)
		section = append(section, make([]byte, n*2)...)
		last = at[3] + len(section) + n*3 - 3
		section = append(section, hLong(0, 3, n, 2, name)...)
		s.head = append(append(append([]byte{}, whole[:at[3]]...), section...), s.head[at[4]:]...)
		use = func(f *ggfnt.Font) { f.Glyphs().FindIndexByName(string(name(n - 1))) }
	case 3:
		set(&s.words, 1, 2, hLong(1, 2, n, 2, name))
		use = func(f *ggfnt.Font) { hRead(f.Settings().GetWord(uint8(n - 1))) }
	case 4:
		set(&s.settings, 1, 2, append(hLong(1, 2, n, 2, name), hLong(0, 2, n, 2, func(int) []byte { return nil })...))
		last += n * 4
		use = func(f *ggfnt.Font) {
			f.Settings().Each(func(_ ggfnt.SettingKey, s string) { hRead(s) })
			f.Settings().GetNumOptions(ggfnt.SettingKey(n - 1))
			f.Settings().GetOptionName(ggfnt.SettingKey(n-1), 1)
		}
	case 5:
		vAssume(n < 255)
		s.settings = hSettingsOf(1, 2)
		set(&s.switches, 1, 2, hLong(1, 2, n, 1, func(i int) []byte { return []byte{byte(i & 1)} }))
		use = func(f *ggfnt.Font) { f.Mapping().EvaluateSwitch(uint8(n-1), []uint8{0, vU8() & 1}) }
	case 6:
		section := hLE(nil, n, 2)
		for i := 0; i < n; i++ {
			section = hLE(section, 'a'+i, 4)
		}
		set(&s.mapping, 2, 3, append(section, hLong(0, 3, n, 4, func(int) []byte { return []byte{255, 0, 0, 0} })...))
		last += n * 4
		use = func(f *ggfnt.Font) { f.Mapping().Utf8(rune('a'+n-1), nil) }
	case 7:
		s.settings = hSettingsOf(1, 2)
		set(&s.conds, 1, 2, hLong(1, 2, n, 2, func(i int) []byte { return []byte{0b0110_0000, byte(i & 1)} }))
		use = func(f *ggfnt.Font) { f.Rewrites().EvaluateCondition(uint8(n-1), []uint8{0, 0}) }
	case 8:
		set(&s.usets, 1, 2, hLong(1, 2, n, 6, func(i int) []byte { return []byte{0, 1, byte(i)} }))
		use = func(f *ggfnt.Font) {
			t := f.Rewrites().GetUtf8Set(uint8(n - 1))
			t.EachListRune(func(rune) error { return nil })
		}
	case 9:
		set(&s.gsets, 1, 2, hLong(1, 2, n, 4, func(i int) []byte { return []byte{0, 1} }))
		use = func(f *ggfnt.Font) {
			t := f.Rewrites().GetGlyphSet(uint8(n - 1))
			t.EachListGlyph(func(ggfnt.GlyphIndex) error { return nil })
		}
	case 10:
		set(&s.urules, 2, 3, hLong(2, 3, n, 16, func(i int) []byte { return []byte{255, 0, 1, 0, 1, 'a', 0, 0, 0, 0, 1, byte(i)} }))
		use = func(f *ggfnt.Font) { r := f.Rewrites().GetUtf8Rule(uint16(n - 1)); r.EachOut(func(rune) {}) }
	case 11:
		set(&s.grules, 2, 3, hLong(2, 3, n, 12, func(i int) []byte { return []byte{255, 0, 1, 0, 1, 1, 0, 0, 1} }))
		use = func(f *ggfnt.Font) {
			r := f.Rewrites().GetGlyphRule(uint16(n - 1))
			r.EachOut(func(ggfnt.GlyphIndex) {})
		}
	case 12:
		s.hkern = hLE(nil, n, 3)
		for i := 0; i < n; i++ {
			s.hkern = append(s.hkern, byte(i/20), 0, byte(i%20), 0, 7)
		}
		use = func(f *ggfnt.Font) { f.Kerning().Get(g, g) }
	}
	data := s.bytes()
	switch vPick(0, 2) {
	case 1:
		data = data[:len(data)-1]
		cut = true
	case 2:
		if last == 0 {
			return
		}
		v := int(data[last]) | int(data[last+1])<<8
		hLE(data[:last], v+vPick(-2, 2), 2)
		cut = true
	}
	f := hTry(data, 0)
	vAssert(f != nil || cut, "a valid font is refused")
	if f != nil {
		p := vPanics(func() { use(f) })
		vAssert(!p || cut, "an accessor panics on a valid font")
	}
}
