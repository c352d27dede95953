package builder

import "github.com/tinne26/ggfnt"

// hMetrics is the value of every metric.
type hMetrics struct {
	vert                                        bool
	mono, asc, xasc, desc, xdesc, upper, mid    uint8
	hinter, vinter, lineGap, vertWidth, vertGap uint8
}

func hAnyMetrics() hMetrics {
	return hMetrics{
		vert: vBool(), mono: vU8(), asc: vU8(), xasc: vU8(), desc: vU8(), xdesc: vU8(), upper: vU8(), mid: vU8(),
		hinter: vU8(), vinter: vU8(), lineGap: vU8(), vertWidth: vU8(), vertGap: vU8(),
	}
}

// apply sets every metric, through a temporary vertical layout for the
// setters that require it.
func (m *hMetrics) apply(b *Font) {
	b.SetVertLayoutUsed(false)
	e1, e2 := b.SetVertLineWidth(0), b.SetVertLineGap(0)
	vAssert(e1 == nil && e2 == nil, "vertical metrics can't be cleared")
	b.SetVertLayoutUsed(true)
	e1 = b.SetVertLineWidth(m.vertWidth)
	vAssert((e1 == nil) == (m.vertWidth != 0), "wrong acceptance of a vertical line width")
	e2 = b.SetVertLineGap(m.vertGap)
	vAssert(e2 == nil, "a vertical line gap is refused")
	b.SetVertLayoutUsed(m.vert)
	b.SetMonoWidth(m.mono)
	b.SetAscent(m.asc)
	b.SetExtraAscent(m.xasc)
	b.SetDescent(m.desc)
	b.SetExtraDescent(m.xdesc)
	b.SetUppercaseAscent(m.upper)
	b.SetMidlineAscent(m.mid)
	b.SetHorzInterspacing(m.hinter)
	b.SetVertInterspacing(m.vinter)
	b.SetLineGap(m.lineGap)
}

// valid is the rule, in a form without branches.
func (m *hMetrics) valid() bool {
	ok := vB2I(m.asc != 0) & vB2I(m.xasc < m.asc) & vB2I(m.mid <= m.upper) & vB2I(m.upper <= m.asc) & vB2I(m.mid <= m.asc)
	vert := vB2I(m.vinter == 0) & vB2I(m.vertWidth == 0) & vB2I(m.vertGap == 0)
	return ok&(vert|vB2I(m.vert)) == 1
}

func (m *hMetrics) check(mt *ggfnt.FontMetrics) {
	vAssert(mt.HasVertLayout() == m.vert, "wrong vertical layout flag")
	vAssert(mt.MonoWidth() == m.mono, "wrong mono width")
	vAssert(mt.Ascent() == m.asc && mt.ExtraAscent() == m.xasc, "wrong ascent")
	vAssert(mt.Descent() == m.desc && mt.ExtraDescent() == m.xdesc, "wrong descent")
	vAssert(mt.UppercaseAscent() == m.upper && mt.MidlineAscent() == m.mid, "wrong uppercase or midline ascent")
	vAssert(mt.HorzInterspacing() == m.hinter && mt.VertInterspacing() == m.vinter, "wrong interspacing")
	vAssert(mt.Monospaced() == (m.mono != 0), "wrong monospacing")
	vAssert(mt.LineHeight() == int(m.asc)+int(m.desc)+int(m.lineGap), "wrong line height")
	vAssert(mt.VertLineFullWidth() == int(m.vertWidth)+int(m.vertGap), "wrong full width of vertical lines")
	vAssert(mt.LineGap() == m.lineGap && mt.VertLineWidth() == m.vertWidth && mt.VertLineGap() == m.vertGap, "wrong line metrics")
}

// checkBuilder compares with what the builder tells.
func (m *hMetrics) checkBuilder(b *Font) {
	ok := vB2I(b.GetMonoWidth() == m.mono) & vB2I(b.GetAscent() == m.asc) & vB2I(b.GetExtraAscent() == m.xasc)
	ok &= vB2I(b.GetDescent() == m.desc) & vB2I(b.GetExtraDescent() == m.xdesc)
	ok &= vB2I(b.GetUppercaseAscent() == m.upper) & vB2I(b.GetMidlineAscent() == m.mid)
	ok &= vB2I(b.GetHorzInterspacing() == m.hinter) & vB2I(b.GetVertInterspacing() == m.vinter) & vB2I(b.GetLineGap() == m.lineGap)
	ok &= vB2I(b.GetVertLineWidth() == m.vertWidth) & vB2I(b.GetVertLineGap() == m.vertGap)
	vAssert(ok == 1, "wrong metrics in the builder")
}

// hMetricsAt finds the metrics by walking the header as specified.
func hMetricsAt(data []byte) int {
	i := 28
	for k := 0; k < 3; k++ {
		i += 1 + int(data[i])
	}
	return i + 2 + int(data[i]) + int(data[i+1])<<8
}
