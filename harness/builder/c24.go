package builder

import "github.com/tinne26/ggfnt"

// Every combination of values of all 13 metrics, on a font with one glyph:
// Build and GetMetricsStatus accept exactly the combinations that the rule
// allows, and a built font returns them.
//
//verif:reach accepted refused
func vhC24_Build() {
	b := New()
	hGlyph(b, 1)
	m := hAnyMetrics()
	m.apply(b)
	ok := m.valid()
	st := b.GetMetricsStatus()
	f, err := b.Build()
	vAssert((st == nil) == ok, "wrong metrics status")
	vAssert((err == nil) == ok, "Build accepts other metrics than the rule")
	if err != nil {
		vReach("refused")
		return
	}
	vReach("accepted")
	vAssert(f.Metrics().NumGlyphs() == 1, "wrong number of glyphs")
	m.check(f.Metrics())
}

// Every combination of values of the 12 metrics that follow the number of
// glyphs, on the data of a font with one glyph, with and without vertical
// layout: the parser accepts exactly what the specification allows, everything
// that the builder accepts, and a parsed font returns the values.
//
//verif:reach accepted refused
func vhC24_Parse() {
	b := New()
	vert := vPick(0, 1) == 1
	b.SetVertLayoutUsed(vert)
	hGlyph(b, 1)
	data := append([]byte{}, hBuild(b).Data...)
	at := hMetricsAt(data)
	m := hAnyMetrics()
	m.vert = vert
	flag := vU8()
	vAssume(flag == byte(vB2I(vert)) || flag > 1)
	copy(data[at+2:], []byte{flag, m.mono, m.asc, m.xasc, m.desc, m.xdesc, m.upper, m.mid, m.hinter, m.vinter, m.lineGap, m.vertWidth, m.vertGap})
	zeros := vB2I(m.vinter == 0) & vB2I(m.vertWidth == 0) & vB2I(m.vertGap == 0)
	spec := vB2I(flag <= 1)&vB2I(m.asc != 0)&vB2I(m.xasc < m.asc)&(zeros|vB2I(vert)) == 1
	built := flag <= 1 && m.valid()
	f, err := hParse(data)
	vAssert((err == nil) == spec, "the parser accepts other metrics than the specification")
	vAssert(err == nil || !built, "the parser refuses metrics that the builder accepts")
	if err != nil {
		vReach("refused")
		return
	}
	vReach("accepted")
	m.check(f.Metrics())
}

// Every number of glyphs in the data of a font with one or two glyphs: zero
// and numbers over the maximum are refused.
//
//verif:reach ok
func vhC24_ParseCount() {
	b := New()
	n := vPick(1, 2)
	hGlyphs(b, n)
	data := append([]byte{}, hBuild(b).Data...)
	at := hMetricsAt(data)
	num := vU16()
	vAssume(num == 0 || num == uint16(n) || num > ggfnt.MaxGlyphs)
	data[at], data[at+1] = byte(num), byte(num>>8)
	f, err := hParse(data)
	vAssert((err == nil) == (num == uint16(n)), "wrong acceptance of a number of glyphs")
	if err == nil {
		vReach("ok")
		vAssert(f.Metrics().NumGlyphs() == uint16(n) && f.Glyphs().Count() == uint16(n), "wrong number of glyphs")
	}
}
