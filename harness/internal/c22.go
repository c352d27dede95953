package internal

// Fixed width integers: append, encode in place and decode, every value, with
// arbitrary surrounding bytes.
func vhC22_Integers() {
	pre := vBytes(vPick(0, 2))
	buf := append(make([]byte, 0, 2+9*vPick(0, 1)), pre...)
	x := vU64()
	var out []byte
	w := vPick(1, 5)
	place := vBytes(9)
	keep := append([]byte{}, place...)
	switch w {
	case 1:
		out = AppendUint8(buf, uint8(x))
	case 2:
		out = AppendUint16LE(buf, uint16(x))
		vAssert(DecodeUint16LE(out[len(pre):]) == uint16(x), "uint16 round trip")
		EncodeUint16LE(place[1:], uint16(x))
		vAssert(DecodeUint16LE(place[1:]) == uint16(x), "uint16 in place")
	case 3:
		vAssume(x < 1<<24)
		out = AppendUint24LE(buf, uint32(x))
		vAssert(DecodeUint24LE(out[len(pre):]) == uint32(x), "uint24 round trip")
		EncodeUint24LE(place[1:], uint32(x))
		vAssert(DecodeUint24LE(place[1:]) == uint32(x), "uint24 in place")
	case 4:
		out = AppendUint32LE(buf, uint32(x))
		vAssert(DecodeUint32LE(out[len(pre):]) == uint32(x), "uint32 round trip")
		EncodeUint32LE(place[1:], uint32(x))
		vAssert(DecodeUint32LE(place[1:]) == uint32(x), "uint32 in place")
	case 5:
		out = AppendUint64LE(buf, x)
		vAssert(DecodeUint64LE(out[len(pre):]) == x, "uint64 round trip")
	}
	size := w
	if w == 5 {
		size = 8
	}
	vAssert(len(out) == len(pre)+size, "wrong encoded size")
	for i := range pre {
		vAssert(out[i] == pre[i], "existing data changed")
	}
	for i := 0; i < size; i++ {
		vAssert(out[len(pre)+i] == byte(x>>(8*uint(i))), "not little endian")
	}
	if w > 1 && w < 5 {
		for i := range place {
			if i == 0 || i > w {
				vAssert(place[i] == keep[i], "in place encoding touches other bytes")
			} else {
				vAssert(place[i] == byte(x>>(8*uint(i-1))), "in place encoding is not little endian")
			}
		}
		vAssert(vPanics(func() {
			switch w {
			case 2:
				EncodeUint16LE(place[:1], 1)
			case 3:
				EncodeUint24LE(place[:2], 1)
			case 4:
				EncodeUint32LE(place[:3], 1)
			}
		}), "no panic for a short buffer")
	}
}

// Decoding dates, any bytes.
func vhC22_Date() {
	b := vBytes(4 + vPick(0, 1))
	y, mo, d := DecodeDate(b)
	vAssert(y == uint16(b[0])|uint16(b[1])<<8 && mo == b[2] && d == b[3], "wrong date fields")
	x := vU8()
	vAssert((BoolErrCheck(x) == nil) == (x <= 1), "wrong bool check")
	vAssert(BoolToUint8(true) == 1 && BoolToUint8(false) == 0, "wrong bool value")
}

// Decimal digits of every byte.
func vhC22_Digits() {
	x := vU8()
	pre := vBytes(vPick(0, 1))
	out := AppendByteDigits(x, append([]byte{}, pre...))
	n := 1
	if x >= 100 {
		n = 3
	} else if x >= 10 {
		n = 2
	}
	vAssert(len(out) == len(pre)+n, "wrong number of digits")
	v := 0
	for _, c := range out[len(pre):] {
		vAssert(c >= '0' && c <= '9', "not a digit")
		v = v*10 + int(c-'0')
	}
	vAssert(v == int(x), "wrong decimal value")
	if len(pre) > 0 {
		vAssert(out[0] == pre[0], "existing data changed")
	}
}

// Length-prefixed strings with any content; lengths 0..3 and the extremes.
//
//verif:steps 30000000
func vhC22_Strings() {
	lens := [7]int{0, 1, 2, 254, 255, 256, 300}
	n := lens[vPick(0, 6)]
	content := make([]byte, n)
	for i := range content {
		content[i] = byte(i)
	}
	for i := 0; i < n && i < 2; i++ {
		content[i] = vU8()
	}
	str := string(content)
	if n <= 255 {
		out := AppendShortString([]byte{7}, str)
		vAssert(len(out) == n+2 && out[0] == 7 && int(out[1]) == n && string(out[2:]) == str, "wrong short string")
	} else {
		vAssert(vPanics(func() { AppendShortString(nil, str) }), "no panic for a long short string")
	}
	out := AppendString([]byte{7}, str)
	vAssert(len(out) == n+3 && out[0] == 7 && int(out[1])|int(out[2])<<8 == n && string(out[3:]) == str, "wrong string")
}

// Boolean lists of every size up to 19 (thorough 35) under two writes at any
// symbolic positions, pushes and bulk sets, against an array of booleans.
func vhC22_BoolList() {
	size := vPick(-1, vBound(19, 35))
	l := NewBoolList(size)
	if size < 0 {
		size = 0
	}
	model := make([]bool, size)
	switch vPick(0, 2) {
	case 1:
		l.SetAllTrue()
		for i := range model {
			model[i] = true
		}
	case 2:
		l.SetAllTrue()
		l.SetAllFalse()
	}
	for k := vPick(0, 2); k > 0; k-- {
		v := vBool()
		l.Push(v)
		model = append(model, v)
	}
	n := len(model)
	for k := 0; k < 2 && n > 0; k++ {
		i, v := vInt(0, n-1), vBool()
		if vPick(0, 1) == 0 {
			l.Set(i, v)
		} else {
			l.SetU8(uint8(i), v)
		}
		for j := range model {
			if j == i {
				model[j] = v
			}
		}
	}
	for j := range model {
		vAssert(l.Get(j) == model[j] && l.GetU8(uint8(j)) == model[j], "wrong element")
		vAssert(l.IsSet(j) == model[j] && l.IsUnset(j) == !model[j], "wrong element")
		vAssert(l.IsSetU8(uint8(j)) == model[j] && l.IsUnsetU8(uint8(j)) == !model[j], "wrong element")
		w, m := l.GetWordAndBitMaskU8(uint8(j))
		vAssert(l.RawGetU8(w, m) == model[j], "wrong raw element")
	}
	vAssert(vPanics(func() { l.Get(n) }) && vPanics(func() { l.Get(-1) }), "out of range read accepted")
	vAssert(vPanics(func() { l.Set(n, true) }) && vPanics(func() { l.Set(-1, true) }), "out of range write accepted")
}

// Growing and resizing slices keeps contents.
func vhC22_Grow() {
	n := vPick(0, 3)
	extra := vPick(0, 3)
	s := make([]uint8, n, n+vPick(0, 2))
	for i := range s {
		s[i] = vU8()
	}
	keep := append([]uint8{}, s...)
	g := GrowSliceByN(s, extra)
	vAssert(len(g) == n+extra, "wrong grown size")
	o := GrowSliceByOne(s)
	vAssert(len(o) == n+1, "wrong grown size")
	for i := range keep {
		vAssert(g[i] == keep[i] && o[i] == keep[i], "growing changes elements")
	}
	vAssert(len(SetSliceSize(s, extra)) == extra, "wrong size")
}

// Deleting removes exactly the named element, keeping the order.
func vhC22_Delete() {
	n := vPick(0, vBound(4, 6))
	s := vBytes(n)
	keep := append([]uint8{}, s...)
	i := vPick(0, n+1)
	d := DeleteElementAt(s, i)
	if i >= n {
		vAssert(len(d) == n, "deleting past the end removes something")
		i = n
	} else {
		vAssert(len(d) == n-1, "wrong size after deleting")
	}
	for j := range d {
		if j < i {
			vAssert(d[j] == keep[j], "wrong element after deleting")
		} else {
			vAssert(d[j] == keep[j+1], "wrong element after deleting")
		}
	}
}

// Search in, and insertion into, any sorted slice up to 5 (thorough 7) elements.
//
//verif:nomerge
func vhC22_Ordered() {
	n := vPick(0, vBound(5, 7))
	s := make([]uint8, n, n+vPick(0, 2))
	for i := range s {
		s[i] = vU8()
		if i > 0 {
			vAssume(s[i-1] < s[i])
		}
	}
	keep := append([]uint8{}, s...)
	x := vU8()
	pos, present := 0, false
	for _, y := range keep {
		if y < x {
			pos++
		}
		present = present || y == x
	}
	i, found := BadBinarySearch(s, x)
	vAssert(found == present, "wrong search result")
	vAssert(i == pos, "wrong search position")
	out := BasicOrderedNonRepeatInsert(s, x)
	if present {
		vAssert(len(out) == n, "repeated element inserted")
		for j := range out {
			vAssert(out[j] == keep[j], "elements changed")
		}
		return
	}
	vAssert(len(out) == n+1, "element not inserted")
	for j := range out {
		switch {
		case j < pos:
			vAssert(out[j] == keep[j], "wrong element before the inserted one")
		case j == pos:
			vAssert(out[j] == x, "inserted element is misplaced")
		default:
			vAssert(out[j] == keep[j-1], "wrong element after the inserted one")
		}
	}
}
