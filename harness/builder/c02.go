package builder

import (
	"errors"
	"image"
	"image/color"

	"github.com/tinne26/ggfnt"
)

func hValidDate() ggfnt.Date {
	d := hDate02()
	vAssume(d.IsValid())
	return d
}

func hDate02() ggfnt.Date { return ggfnt.Date{Year: vU16(), Month: vU8(), Day: vU8()} }

// A font with some of everything, any accepted metrics (with and without
// vertical layout), any version, any valid minor date, two placements and a
// kerning of any value, and one more edit of any of 20 kinds (2 thorough).
//
//verif:reach survived
func vhC02_Everything() {
	vMapOrder(1)
	h := hEditBase()
	h.b.SetVersion(vU16(), vU16())
	vAssert(h.b.SetMinorVerDate(hValidDate()) == nil, "a valid date is refused")
	for i := 0; i < 2; i++ {
		h.place(i, ggfnt.GlyphPlacement{Advance: vU8(), TopAdvance: vU8(), BottomAdvance: vU8(), HorzCenter: vU8()})
	}
	k := vU8()
	vAssume(k != 0)
	h.kern(2, 2, int8(k))
	for i := 0; i < vBound(1, 2); i++ {
		h.op(vPick(0, hEditOps-1))
	}
	m := hAnyMetrics()
	m.apply(h.b)
	vAssume(m.valid())
	f, err := h.b.Build()
	if err != nil {
		vAssert(!h.buildable(), "a valid font does not build")
		vStop()
	}
	g := hSurvives(f)
	h.checkFont(g)
	m.check(g.Metrics())
	vReach("survived")
}

// Texts of 1 (0 for others than the name) to 255 bytes, or 65535 for the last
// one, in one of the fields, any printable characters at both ends.
//
//verif:reach survived
func vhC02_Texts() {
	vMapOrder(1)
	b := New()
	hGlyph(b, 1)
	text := func(n int) string {
		s := []byte(hRepeat02('x', n))
		if n > 0 {
			s[0], s[n-1] = hChar(), hChar()
		}
		return string(s)
	}
	n := []int{0, 1, 2, 127, 128, 254, 255}[vPick(0, 6)]
	switch vPick(0, 3) {
	case 0:
		s := text(n)
		vAssert((b.SetName(s) == nil) == (n > 0), "wrong acceptance of a name")
	case 1:
		vAssert(b.SetFamily(text(n)) == nil, "a valid text is refused")
	case 2:
		vAssert(b.SetAuthor(text(n)) == nil, "a valid text is refused")
	case 3:
		if n > 2 {
			n = []int{255, 256, 300, 65535}[vPick(0, vBound(2, 3))]
		}
		vAssert(b.SetAbout(text(n)) == nil, "a valid text is refused")
	}
	g := hSurvives(hBuild(b))
	h := g.Header()
	vAssert(h.Name() == b.GetName() && h.Family() == b.GetFamily() && h.Author() == b.GetAuthor() && h.About() == b.GetAbout(), "wrong texts")
	vReach("survived")
}

func hRepeat02(c byte, n int) string {
	s := make([]byte, n)
	for i := range s {
		s[i] = c
	}
	return string(s)
}

// Glyphs: 1 to 3 (4 thorough), each with one of 6 masks (without pixels, with
// one, wide, around the origin, with one pixel (2 thorough) of any value) and placement
// (the default one, or any for one with a name), with or without vertical layout.
//
//verif:reach survived
func vhC02_Glyphs() {
	vMapOrder(1)
	b := New()
	b.SetVertLayoutUsed(vPick(0, 1) == 1)
	n := vPick(1, vBound(2, 3))
	var masks []*image.Alpha
	special := vPick(0, n) // the glyph with a placement and a name
	for i := 0; i < n; i++ {
		var m *image.Alpha
		switch vPick(0, 5) {
		case 0:
			m = image.NewAlpha(image.Rect(0, 0, 0, 0))
		case 1:
			m = image.NewAlpha(image.Rect(0, -2, 4, 1))
		case 2:
			m = image.NewAlpha(image.Rect(2, -4, 3, -3))
			m.Pix[0] = 255
		case 3:
			m = image.NewAlpha(image.Rect(0, -1, 300, 0))
			for j := range m.Pix {
				m.Pix[j] = byte(j % 3)
			}
		case 4:
			m = image.NewAlpha(image.Rect(-3, -3, 3, 3))
			m.Pix[0], m.Pix[35], m.Pix[14] = 255, 1, 254
		case 5:
			m = image.NewAlpha(image.Rect(0, -2, 2, 0))
			copy(m.Pix, vBytes(vBound(1, 2)))
		}
		masks = append(masks, m)
		uid, err := b.AddGlyph(m)
		vAssert(err == nil, "a valid glyph is refused")
		if i == special {
			p := ggfnt.GlyphPlacement{Advance: vU8(), TopAdvance: vU8(), BottomAdvance: vU8(), HorzCenter: vU8()}
			e1, e2 := b.SetGlyphPlacement(uid, p), b.SetGlyphName(uid, "n"+string([]byte{'c' - byte(i)}))
			vAssert(e1 == nil && e2 == nil, "a valid placement or name is refused")
		}
	}
	g := hSurvives(hBuild(b))
	for i, m := range masks {
		r := g.Glyphs().RasterizeMask(ggfnt.GlyphIndex(i))
		for j, a := range m.Pix {
			x, y := m.Rect.Min.X+j%m.Stride, m.Rect.Min.Y+j/m.Stride
			vAssert(r == nil && a == 0 || r != nil && r.AlphaAt(x, y).A == a, "wrong mask")
		}
	}
	vReach("survived")
}

// Colors: up to 2 (3 thorough) dyes and palettes of 1 or 2 colors of any value
// (or 120), names of 1 or 32 characters.
//
//verif:reach survived
func vhC02_Colors() {
	vMapOrder(1)
	b := New()
	hGlyph(b, 1)
	max := vBound(2, 3)
	nd, np := vPick(0, max), vPick(0, max)
	name := func(c byte, i int) string {
		return string([]byte{c, '0' + byte(i)}) + hRepeat02('x', 30*vPick(0, 1))
	}
	big := vPick(0, 2)
	for i := 0; i < nd; i++ {
		n := 1 + i%2
		if big == 1 && i == 0 {
			n = 120
		}
		vAssert(b.AddDye(name('d', i), append(vBytes(1), make([]byte, n-1)...)...) == nil, "a valid dye is refused")
	}
	for i := 0; i < np; i++ {
		n := 1 + i%2
		if big == 2 && i == 0 {
			n = 120
		}
		colors := make([]color.RGBA, n)
		colors[n-1] = color.RGBA{vU8(), vU8(), vU8(), vU8()}
		vAssert(b.AddPalette(name('p', i), colors...) == nil, "a valid palette is refused")
	}
	g := hSurvives(hBuild(b))
	vAssert(np == int(g.Color().NumPalettes()) && (nd == int(g.Color().NumDyes()) || nd+np == 0), "wrong number of colors")
	vReach("survived")
}

// Settings and switches: up to 3 settings (4 thorough) of 1, 2 or 255 options,
// words of 1 to 32 characters or predefined, and a switch (2 thorough) on one to
// three of them; a mapping for each with 1 to 3 glyphs by case.
//
//verif:reach survived
func vhC02_Settings() {
	vMapOrder(1)
	b := New()
	u := hGlyphs(b, 3)
	n := vPick(1, vBound(3, 4))
	long := 31 * vPick(0, 1)
	var counts []int
	for i := 0; i < n; i++ {
		k := []int{1, 2, 2}[vPick(0, 1)]
		if i == 2 {
			k = 255
		}
		var opts []string
		for j := 0; j < k; j++ {
			w := []string{"on", "w", "off", hRepeat02('y', 32), "word-" + string([]byte{'a' + byte(j%200/16), 'a' + byte(j%200%16)})}[min(j+i, 4)]
			opts = append(opts, w)
		}
		counts = append(counts, k)
		_, err := b.AddSetting(string([]byte{'a' + byte(i)})+hRepeat02('s', long), opts...)
		vAssert(err == nil, "a valid setting is refused")
	}
	for k := vPick(0, vBound(1, 2)); k > 0; k-- {
		first := vPick(0, n-1)
		keys := []ggfnt.SettingKey{ggfnt.SettingKey(first)}
		cases := counts[first]
		for j := 0; j < n && j < 2; j++ {
			if j != first && vPick(0, 1) == 1 {
				keys = append(keys, ggfnt.SettingKey(j))
				cases *= counts[j]
			}
		}
		sw, err := b.AddSwitch(keys...)
		vAssert((err == nil) == (cases <= 254), "wrong acceptance of a switch")
		if err != nil {
			continue
		}
		var uids [][]uint64
		for j := 0; j < cases; j++ {
			uids = append(uids, u[:1+j%3])
		}
		anim := make([]ggfnt.AnimationFlags, cases)
		groups := 0
		for _, x := range uids {
			if len(x) > 1 {
				groups++
			}
		}
		vAssert(b.MapWithSwitch(rune('a'+k), sw, uids, anim[:groups]) == nil, "a valid mapping is refused")
	}
	hSurvives(hBuild(b))
	vReach("survived")
}

// Mappings of any three code points to a glyph or to groups of 2 or 255 glyphs,
// or contiguous ones; and a replaced one.
//
//verif:reach survived
func vhC02_Mappings() {
	vMapOrder(1)
	b := New()
	u := hGlyphs(b, 255)
	n := vPick(0, 3)
	var codes []rune
	for i := 0; i < n; i++ {
		c := rune(vU32())
		vAssume(c >= ' ' && c <= 0x10FFFF)
		vAssume(i == 0 || c >= codes[i-1])
		codes = append(codes, c)
		switch vPick(0, 2) {
		case 0:
			vAssert(b.Map(c, u[i]) == nil, "a valid mapping is refused")
		case 1:
			vAssert(b.MapGroup(c, ggfnt.AnimationFlags(vU8()), u[i], u[vPick(0, 2)+i]) == nil, "a valid mapping is refused")
		case 2:
			vAssert(b.MapGroup(c, 0, u[:[]int{2, 126, 127}[vPick(0, 2)]]...) == nil, "a valid mapping is refused")
		}
	}
	hSurvives(hBuild(b))
	vReach("survived")
}

// Sets and rules: up to 2 sets of each kind, empty or with ranges and elements
// (up to 255 of each), and up to one rule (2 thorough) with 1 to 255 elements
// and 1 to 253 outputs.
//
//verif:reach survived
func vhC02_Rules() {
	vMapOrder(1)
	b := New()
	u := hGlyphs(b, 5)
	glyphs := vPick(0, 1) == 1
	size := []int{0, 1, 255}
	var sets []uint64
	for i := vPick(0, 2); i > 0; i-- {
		var uid uint64
		var err error
		if glyphs {
			uid, err = b.CreateGlyphSet()
		} else {
			uid, err = b.CreateRuneSet()
		}
		vAssert(err == nil, "a set is refused")
		sets = append(sets, uid)
		if glyphs {
			for a, n := 0, vPick(0, 2); a < n; a++ {
				vAssert(b.AddGlyphSetRange(uid, u[a], u[a+2]) == nil && b.AddGlyphSetListGlyph(uid, u[a]) == nil, "a set edit is refused")
			}
			continue
		}
		r, l := size[vPick(0, 2)], size[i]
		for k := 0; k < r; k++ {
			vAssert(b.AddRuneSetRange(uid, rune(k*10), rune(k*10+k)) == nil, "a range is refused")
		}
		for k := 0; k < l; k++ {
			vAssert(b.AddRuneSetListRune(uid, rune(k*300)) == nil, "a rune is refused")
		}
	}
	for i := vPick(0, vBound(1, 2)); i > 0; i-- {
		if !glyphs {
			in := make([]rune, []int{1, 2, 15, 16, 255}[vPick(0, 4)])
			for k := range in {
				in[k] = rune(k * 100)
			}
			vAssert(b.AddSimpleUtf8RewriteRule('x', in...) == nil, "a valid rule is refused")
			continue
		}
		lens := [3]uint8{0, 1, 0}
		lens[vPick(0, 2)] = []uint8{2, 16, 253}[vPick(0, 2)]
		in := make([]uint64, int(lens[0])+int(lens[1])+int(lens[2]))
		for k := range in {
			in[k] = u[k%5]
			if len(sets) > 0 && k%2 == 1 {
				in[k] = sets[0]
			}
		}
		out := make([]uint64, min(int(lens[1]), []int{1, 255}[vPick(0, 1)]))
		for k := range out {
			out[k] = u[k%5]
		}
		vAssert(b.AddGlyphRewriteRule(lens[0], lens[1], lens[2], in, out...) == nil, "a valid rule is refused")
	}
	hSurvives(hBuild(b))
	vReach("survived")
}

// The extremes of each section: as many items as there can be, with the longest
// names.
//
//verif:reach survived
//verif:steps 1000000000
func vhC02_Extremes() {
	vMapOrder(1)
	b := New()
	long := func(i int) string {
		return string([]byte{'a' + byte(i/400), 'a' + byte(i/20%20), 'a' + byte(i%20)}) + hRepeat02('z', 29)
	}
	switch vPick(0, 8) {
	case 0: // 255 dyes
		hGlyph(b, 1)
		for i := 0; i < 255; i++ {
			vAssert(b.AddDye(long(i), 7) == nil, "a dye is refused")
		}
	case 1: // 255 palettes
		hGlyph(b, 1)
		for i := 0; i < 255; i++ {
			vAssert(b.AddPalette(long(i), color.RGBA{1, 2, 3, 4}) == nil, "a palette is refused")
		}
	case 2: // one dye and one palette, with as many colors
		hGlyph(b, 1)
		n := []int{1, 127, 128, 254}[vPick(0, 3)]
		vAssert(b.AddDye("dye", make([]uint8, n)...) == nil && b.AddPalette("pal", make([]color.RGBA, 255-n)...) == nil, "colors are refused")
	case 3: // 255 dyes of one
		hGlyph(b, 1)
		vAssert(b.AddDye("dye", make([]uint8, 255)...) == nil, "colors are refused")
	case 4: // names
		for i, uid := range hGlyphs(b, 300) {
			vAssert(b.SetGlyphName(uid, long(i)) == nil, "a name is refused")
		}
	case 5: // words and settings
		hGlyph(b, 1)
		for i := 0; i < 255; i++ {
			_, err := b.AddSetting(long(i), long(i%254), long(0), "on")
			vAssert(err == nil, "a setting is refused")
		}
	case 6: // options
		hGlyph(b, 1)
		opts := make([]string, 255)
		for j := range opts {
			opts[j] = long(j)
		}
		for i := 0; i < 255; i++ {
			_, err := b.AddSetting(long(i), opts...)
			vAssert(err == nil, "a setting is refused")
		}
	case 7: // switches
		hGlyph(b, 1)
		var keys []ggfnt.SettingKey
		for i := 0; i < 255; i++ {
			k, err := b.AddSetting(long(i), "on")
			vAssert(err == nil, "a setting is refused")
			keys = append(keys, k)
		}
		n := 0
		for i := 0; i < 254; i++ {
			_, err := b.AddSwitch(append(append([]ggfnt.SettingKey{}, keys[i:]...), keys[:i]...)...)
			vAssert(err == nil, "a switch is refused")
			n++
		}
		_, err := b.AddSwitch(keys[7])
		vAssert(err != nil, "a switch too many is accepted")
	case 8: // kernings: all pairs
		u := hGlyphs(b, 40)
		for i := range u {
			for j := range u {
				b.SetKerningPair(u[i], u[j], int8(1+(i+j)%100))
			}
		}
	}
	hSurvives(hBuild(b))
	vReach("survived")
}

// hShort is a writer that fails after some bytes.
type hShort struct {
	n   int
	err error
}

func (w *hShort) Write(p []byte) (int, error) {
	if len(p) > w.n {
		n := w.n
		w.n = 0
		return n, w.err
	}
	w.n -= len(p)
	return len(p), nil
}

// Exporting, from the font or from the builder, to a writer that fails after
// any number of bytes up to 40: the error is reported. And a builder exports
// what it builds.
//
//verif:reach failed same
func vhC02_Export() {
	vMapOrder(1)
	h := hEditBase()
	f := hBuild(h.b)
	if vPick(0, 1) == 1 {
		file := &hBuf{}
		vAssert(h.b.Export(file) == nil, "a valid font is not exported")
		g, err := ggfnt.Parse(file)
		vAssert(err == nil && string(g.Data) == string(f.Data), "a builder exports another font")
		vAssert(New().Export(&hBuf{}) != nil, "a font without glyphs is exported")
		vReach("same")
		return
	}
	w := &hShort{n: vPick(0, 40), err: errors.New("write error")}
	if vPick(0, 1) == 0 {
		vAssert(f.Export(w) != nil, "a write error is not reported")
	} else {
		vAssert(h.b.Export(w) != nil, "a write error is not reported")
	}
	vReach("failed")
}
