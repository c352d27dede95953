package mask

// Every byte string of up to 4 bytes (thorough 6); where the string is valid,
// draw lengths are limited to 2 (thorough 3) pixels and moves following the first
// drawn pixels to -3..3. Palette values, first moves and malformed data are arbitrary.
//
//verif:reach malformed drawn
func vhC05_AnyBytes() {
	n := vPick(0, vBound(4, 5))
	ops := vBytes(n)
	draws, ok := refOps(ops, refAny)
	if ok {
		draws, ok = refOps(ops, func(kind int, b uint8) uint8 {
			if kind == 1 {
				vAssume(b <= uint8(vBound(1, 2)))
			} else {
				vAssume(b <= 2 || b >= 253)
			}
			return uint8(vConc(int(b)))
		})
	}
	checkRaster(ops, draws, ok)
}

// One operation with every optional field, any palette value and moves, and
// draw lengths over the whole range in each dimension.
//
//verif:reach drawn
//verif:steps 40000000
func vhC05_Lengths() {
	lens := [6]uint8{0, 1, 127, 128, 254, 255}
	ctrl := vU8()
	diag := ctrl&16 != 0
	var a, b uint8
	if diag {
		a = uint8(vPick(0, vBound(4, 30)))
	} else {
		a, b = lens[vPick(0, 5)], uint8(vPick(0, 1))
		if vPick(0, 1) == 1 {
			a, b = b, a
		}
	}
	ops := []byte{ctrl}
	if ctrl&1 != 0 {
		ops = append(ops, vU8())
	}
	if ctrl&2 != 0 {
		ops = append(ops, vU8())
	}
	if ctrl&4 != 0 {
		ops = append(ops, vU8())
	}
	if ctrl&32 != 0 {
		ops = append(ops, a)
	}
	if ctrl&64 != 0 && !diag {
		ops = append(ops, b)
	}
	draws, ok := refOps(ops, refAny)
	checkRaster(ops, draws, ok)
}
