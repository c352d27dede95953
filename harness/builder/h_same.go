package builder

import "github.com/tinne26/ggfnt"

// hSameOffsets compares all the offsets of two fonts: with the data, they are
// all there is in a font.
func hSameOffsets(f, g *ggfnt.Font) {
	vAssert(f.OffsetToMetrics == g.OffsetToMetrics && f.OffsetToDyes == g.OffsetToDyes && f.OffsetToPalettes == g.OffsetToPalettes, "different offsets")
	vAssert(f.OffsetToGlyphNames == g.OffsetToGlyphNames && f.OffsetToGlyphMasks == g.OffsetToGlyphMasks && f.OffsetToWords == g.OffsetToWords, "different offsets")
	vAssert(f.OffsetToSettingNames == g.OffsetToSettingNames && f.OffsetToSettingDefinitions == g.OffsetToSettingDefinitions, "different offsets")
	vAssert(f.OffsetToMappingSwitches == g.OffsetToMappingSwitches && f.OffsetToMapping == g.OffsetToMapping, "different offsets")
	vAssert(f.OffsetToRewriteConditions == g.OffsetToRewriteConditions && f.OffsetToRewriteUtf8Sets == g.OffsetToRewriteUtf8Sets && f.OffsetToRewriteGlyphSets == g.OffsetToRewriteGlyphSets, "different offsets")
	vAssert(f.OffsetToUtf8Rewrites == g.OffsetToUtf8Rewrites && f.OffsetToGlyphRewrites == g.OffsetToGlyphRewrites, "different offsets")
	vAssert(f.OffsetToHorzKernings == g.OffsetToHorzKernings && f.OffsetToVertKernings == g.OffsetToVertKernings, "different offsets")
}

// hSurvives exports and parses a font that was just built, and compares.
func hSurvives(f *ggfnt.Font) *ggfnt.Font {
	vAssert(f.RawSize() == len(f.Data), "wrong raw size")
	vAssert(f.Validate(ggfnt.FmtDefault) == nil, "a built font is not valid")
	g, err := hReparse(f)
	vAssert(err == nil, "a built font is refused by the parser")
	vAssert(string(f.Data) == string(g.Data), "the data changes by exporting and parsing")
	hSameOffsets(f, g)
	vAssert(g.Validate(ggfnt.FmtDefault) == nil, "a parsed font is not valid")
	return g
}
