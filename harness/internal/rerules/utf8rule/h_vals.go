package utf8rule

type hVal = rune

func hAny() hVal {
	x := rune(vU32() & 0x1fffff)
	return x
}
