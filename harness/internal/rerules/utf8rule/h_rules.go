package utf8rule

// hElem is an element of a rule: a single one or a set.
type hElem struct {
	set bool
	v   uint32
}

// hRule is a rewrite rule.
type hRule struct {
	cond uint8
	lens [3]uint8 // head, body and tail
	in   []hElem
	out  []uint32
}

func hGet(data []byte, i, size int) uint32 {
	v := uint32(0)
	for k := size - 1; k >= 0; k-- {
		v = v<<8 | uint32(data[i+k])
	}
	return v
}

// hDecodeRule decodes a rule as specified, with elements of the given size;
// false if it is not well formed.
func hDecodeRule(data []byte, size int) (r hRule, ok bool) {
	if len(data) < 5 {
		return r, false
	}
	r.cond = data[0]
	copy(r.lens[:], data[1:4])
	i := 5
	for k := 0; k < int(data[4]); k++ {
		if i+size > len(data) {
			return r, false
		}
		r.out = append(r.out, hGet(data, i, size))
		i += size
	}
	for _, l := range r.lens {
		left := int(l)
		for first := true; first || left > 0; first = false {
			if i >= len(data) {
				return r, false
			}
			sets, elems := int(data[i]>>4), int(data[i]&15)
			i++
			if sets+elems > left || left > 0 && sets+elems == 0 || i+sets+elems*size > len(data) {
				return r, false
			}
			left -= sets + elems
			for ; sets > 0; sets-- {
				r.in = append(r.in, hElem{true, uint32(data[i])})
				i++
			}
			for ; elems > 0; elems-- {
				r.in = append(r.in, hElem{false, hGet(data, i, size)})
				i += size
			}
		}
	}
	return r, i == len(data)
}

func (r *hRule) same(o *hRule) bool {
	if len(r.in) != len(o.in) || len(r.out) != len(o.out) {
		return false
	}
	ok := vB2I(r.cond == o.cond) & vB2I(r.lens == o.lens)
	for i := range r.in {
		ok &= vB2I(r.in[i].set == o.in[i].set) & vB2I(r.in[i].v == o.in[i].v)
	}
	for i := range r.out {
		ok &= vB2I(r.out[i] == o.out[i])
	}
	return ok == 1
}
