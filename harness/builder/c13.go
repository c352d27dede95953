package builder

import "github.com/tinne26/ggfnt"

// hEvalCond is the evaluation that the specification prescribes, for an
// expression at data[i:]: the index after it (or -1 if it is not well formed)
// and its value.
func hEvalCond(data []byte, i int, settings []uint8, depth int) (int, uint64) {
	if i < 0 || i >= len(data) {
		return -1, 0
	}
	n := uint8(len(settings))
	c := data[i]
	x := c & 31
	switch c >> 5 {
	case 0, 1:
		if x < 2 {
			return -1, 0
		}
		and := uint64(c >> 5)
		v := and
		i++
		for k := 0; k < int(x) && i >= 0; k++ {
			var t uint64
			i, t = hEvalCond(data, i, settings, depth+1)
			if and == 1 {
				v &= t
			} else {
				v |= t
			}
		}
		return i, v
	case 2:
		if i+3 > len(data) || data[i+1] >= n || x&15 > 5 {
			return -1, 0
		}
		a, b := hAt(settings, data[i+1]), data[i+2]
		if x < 16 {
			if b >= n {
				return -1, 0
			}
			b = hAt(settings, b)
		}
		o := x & 15
		v := vB2I(o == 0)&vB2I(a == b) | vB2I(o == 1)&vB2I(a != b) | vB2I(o == 2)&vB2I(a < b) |
			vB2I(o == 3)&vB2I(a > b) | vB2I(o == 4)&vB2I(a <= b) | vB2I(o == 5)&vB2I(a >= b)
		return i + 3, v
	case 7:
		return -1, 0
	}
	if i+2 > len(data) || data[i+1] >= n {
		return -1, 0
	}
	a := hAt(settings, data[i+1])
	o := c >> 5
	v := vB2I(o == 3)&vB2I(a == x) | vB2I(o == 4)&vB2I(a != x) | vB2I(o == 5)&vB2I(a < x) | vB2I(o == 6)&vB2I(a > x)
	return i + 2, v
}

// hAt reads without forking.
func hAt(s []uint8, i uint8) uint8 {
	v := uint8(0)
	for k := range s {
		v |= s[k] & uint8(-vB2I(int(i) == k))
	}
	return v
}

// hCondFont makes a font with the given conditions and ns settings.
func hCondFont(ns int, conds [][]byte) (*ggfnt.Font, error) {
	s := hEmpty(1)
	opts := make([]int, ns)
	for i := range opts {
		opts[i] = 1
	}
	s.settings = hSettingsOf(opts...)
	s.conds = hTable(1, 2, conds)
	return hParse(s.bytes())
}

// hCheckCond evaluates condition k and compares.
func hCheckCond(f *ggfnt.Font, k int, data []byte, settings []uint8) {
	end, want := hEvalCond(data, 0, settings, 0)
	if end != len(data) {
		vReach("malformed")
		vStop()
	}
	before := append([]uint8{}, settings...)
	got := f.Rewrites().EvaluateCondition(uint8(k), settings)
	vAssert(vB2I(got) == want, "wrong condition value")
	same := uint64(1)
	for i := range before {
		same &= vB2I(before[i] == settings[i])
	}
	vAssert(same == 1, "evaluating a condition changed the settings")
	if got {
		vReach("true")
	} else {
		vReach("false")
	}
}

// Any condition of up to 6 (9 thorough) bytes, over 3 settings with any values.
//
//verif:reach true false malformed
func vhC13_AnyBytes() {
	data := vBytes(vPick(2, vBound(6, 9)))
	settings := vBytes(3)
	f, err := hCondFont(len(settings), [][]byte{data})
	vAssert(err == nil, "a font with a condition is refused")
	hCheckCond(f, 0, data, settings)
}

// Nested groups: groups of 2 to 3 terms nested to depth 2 (3 thorough); the
// terms are comparisons of all kinds, in turns, with any constants, over two
// settings with any values.
//
//verif:reach true false
func vhC13_Nested() {
	budget := vBound(2, 4)
	kind := vPick(0, 5) * 5
	var data []byte
	hGroup(&data, vBound(2, 3), &budget, &kind)
	settings := vBytes(2)
	f, err := hCondFont(len(settings), [][]byte{data})
	vAssert(err == nil, "a font with a condition is refused")
	hCheckCond(f, 0, data, settings)
}

// hGroup appends a group; at most budget inner groups.
func hGroup(data *[]byte, depth int, budget, kind *int) {
	n := vPick(2, 3)
	*data = append(*data, byte(vPick(0, 1)<<5|n))
	for i := 0; i < n; i++ {
		if depth > 1 && *budget > 0 && vPick(0, 1) == 1 {
			*budget--
			hGroup(data, depth-1, budget, kind)
		} else {
			hLeaf(data, kind)
		}
	}
}

// hLeaf appends the next kind of comparison.
func hLeaf(data *[]byte, kind *int) {
	k := *kind % 16
	*kind++
	s := byte(k&1 ^ k>>3&1)
	switch {
	case k < 4:
		*data = append(*data, byte(3+k)<<5|vU8()&31, s)
	case k < 10:
		*data = append(*data, 2<<5|16|byte(k-4), s, vU8())
	default:
		*data = append(*data, 2<<5|byte(k-10), s, 1-s)
	}
}

// Groups of 2 to 31 terms: quick comparisons of any kind with any constants.
//
//verif:reach true false
func vhC13_Long() {
	n := []int{2, 3, 4, 15, 16, 17, 30, 31}[vPick(vBound(3, 0), 7)]
	data := []byte{byte(vPick(0, 1)<<5 | n)}
	for i := 0; i < n; i++ {
		data = append(data, byte(3+(i*i+n)%4)<<5|vU8()&31, vU8()&1)
	}
	settings := vBytes(2)
	f, err := hCondFont(len(settings), [][]byte{data})
	vAssert(err == nil, "a font with a condition is refused")
	hCheckCond(f, 0, data, settings)
}

// Any of up to 254 conditions, by its index.
//
//verif:reach true false
func vhC13_Index() {
	n := []int{1, 2, 3, 128, 254}[vPick(0, 4)]
	k := vPick(0, n-1)
	if n > 3 {
		vAssume(k < 2 || k > n-3 || k%61 == 0)
	}
	conds := make([][]byte, n)
	for i := range conds {
		q := []byte{4 << 5, 1}
		if i == k {
			q = []byte{byte(3+k%4)<<5 | vU8()&31, 0}
		}
		switch (i + n) % 3 {
		case 0:
			conds[i] = q
		case 1:
			conds[i] = append([]byte{1<<5 | 2, 5<<5 | 9, 1}, q...)
		case 2:
			conds[i] = append([]byte{0<<5 | 3, 6<<5 | 3, 1}, append(q, 2<<5|4, 0, 1)...)
		}
	}
	settings := vBytes(2)
	f, err := hCondFont(len(settings), conds)
	vAssert(err == nil, "a font with conditions is refused")
	vAssert(int(f.Rewrites().NumConditions()) == n, "wrong number of conditions")
	hCheckCond(f, k, conds[k], settings)
	vAssert(vPanics(func() { f.Rewrites().EvaluateCondition(uint8(n), settings) }), "a condition that does not exist is evaluated")
}

// The longest data: 254 conditions of up to 257 bytes each, any of the indices
// around the first, the middle and the last; and one condition of up to 61537
// bytes, of groups of 2 to 31 terms, three levels deep. Of each that is
// evaluated one term compares with any constant.
//
//verif:steps 1000000000
//verif:reach true false
func vhC13_Huge() {
	settings := vBytes(2)
	term := []byte{byte(vPick(3, 6))<<5 | vU8()&31, 0}
	if vPick(0, 1) == 1 {
		n := []int{2, 16, 31}[vPick(0, 2)]
		leaf := func(and int) []byte {
			return []byte{byte(5+and)<<5 | byte(and*31), 1}
		}
		var group func(depth int) []byte
		group = func(depth int) []byte {
			// neutral terms: setting < 0 is false, setting > 31 is made true below
			and := depth & 1
			out := []byte{byte(and<<5 | n)}
			for i := 0; i < n; i++ {
				switch {
				case i == n/2 && depth == 1:
					out = append(out, term...)
				case i == n/2 || depth > 1 && n > 16:
					out = append(out, group(depth-1)...)
				default:
					out = append(out, leaf(and)...)
				}
			}
			return out
		}
		vAssume(settings[1] > 31)
		data := group(3)
		f, err := hCondFont(len(settings), [][]byte{data})
		vAssert(err == nil, "a font with a condition is refused")
		hCheckCond(f, 0, data, settings)
		return
	}
	conds := make([][]byte, 254)
	for i := range conds {
		c := []byte{1<<5 | 31}
		for j := 0; j < 30; j++ {
			c = append(c, 1<<5|2, 2<<5|16|5, 1, 0, 6<<5|31, 1)
		}
		c = append(c, 0<<5|31)
		for j := 0; j < 30; j++ {
			c = append(c, 5<<5, 1)
		}
		c = append(c, 4<<5|30, 0)
		conds[i] = append([]byte{}, c...)
	}
	vAssume(settings[1] > 31)
	at := []int{0, 1, 126, 127, 128, 129, 252, 253}
	for _, k := range at {
		copy(conds[k][len(conds[k])-2:], term)
	}
	f, err := hCondFont(len(settings), conds)
	vAssert(err == nil, "a font with conditions is refused")
	k := at[vPick(0, len(at)-1)]
	hCheckCond(f, k, conds[k], settings)
}
