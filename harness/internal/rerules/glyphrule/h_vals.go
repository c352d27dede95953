package glyphrule

import "github.com/tinne26/ggfnt"

type hVal = ggfnt.GlyphIndex

func hAny() hVal { return hVal(vU16()) }
