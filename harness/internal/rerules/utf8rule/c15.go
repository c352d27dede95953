package utf8rule

import (
	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/internal"
)

// (this file and its sibling of the other scanner differ in these lines only)
const hSize = 4 // of an element
const hNoSet = Utf8SetNone

func hMake(data []byte) ggfnt.Utf8RewriteRule {
	return ggfnt.Utf8RewriteRule(internal.RawBlock{Data: data})
}

func hValid(v uint32) uint64 {
	return (vB2I(v < 0xD800) | vB2I(v >= 0xE000)&vB2I(v <= 0x10FFFF)) & vB2I(v != 0xFFFD)
}

// hWellFormed is the specification of the format.
func hWellFormed(data []byte) (hRule, bool) {
	r, ok := hDecodeRule(data, hSize)
	if !ok {
		return r, false
	}
	h, b, t := int(r.lens[0]), int(r.lens[1]), int(r.lens[2])
	good := vB2I(h+b+t <= 255) & vB2I(len(r.out) >= 1) & vB2I(len(r.out) <= b)
	for i := range r.in {
		if r.in[i].set {
			good &= vB2I(r.in[i].v != 255)
		} else {
			good &= hValid(r.in[i].v)
		}
	}
	return r, good == 1
}

// hScan scans and compares. Rules with invalid outputs are left out: the
// scanner does not look at those.
func hScan(s *RuleScanner, data []byte) {
	want, ok := hWellFormed(data)
	k := 0
	err := s.Start(hMake(data))
	for err == nil && s.HasNext() {
		block := s.Block()
		var e, set = hZero()
		e, set, err = s.Next()
		if err != nil {
			break
		}
		if !ok {
			k++
			vAssert(k <= 256, "endless scan")
			continue
		}
		vAssert(k < len(want.in), "too many elements")
		x := want.in[k]
		if x.set {
			vAssert(uint32(set) == x.v && set != hNoSet, "wrong set")
		} else {
			vAssert(uint32(e) == x.v && set == hNoSet, "wrong element")
		}
		wb := RuleHead
		if k >= int(want.lens[0]) {
			wb = RuleBody
			if k >= int(want.lens[0])+int(want.lens[1]) {
				wb = RuleTail
			}
		}
		vAssert(block == wb, "wrong block")
		k++
	}
	if ok {
		vAssert(err == nil, "a well-formed rule is refused")
		vAssert(k == len(want.in), "missing elements")
		vAssert(s.Condition() == want.cond && s.HeadLen() == want.lens[0] && s.BodyLen() == want.lens[1] && s.TailLen() == want.lens[2], "wrong rule properties")
		vReach("well-formed")
	} else {
		vAssert(err != nil, "a malformed rule is accepted")
		vReach("malformed")
	}
}

func hZero() (rune, Utf8SetIndex) { return 0, 0 }

// Any rule of up to 11 (14 thorough) bytes for glyphs, two more for runes, with a scanner that scanned
// another rule before, completely or in part.
//
//verif:reach well-formed malformed
func vhC15_AnyBytes() {
	var s RuleScanner
	hBefore(&s)
	hScan(&s, vBytes(vPick(0, vBound(9, 12)+hSize)))
}

// hBefore leaves a scanner after some steps over a longer rule.
func hBefore(s *RuleScanner) {
	data := []byte{7, 1, 2, 1, 1}
	data = hLE(data, 3, hSize)
	data = append(data, 1)
	data = hLE(data, 5, hSize)
	data = append(data, 0x11, 9)
	data = hLE(data, 6, hSize)
	data = append(data, 1)
	data = hLE(data, 7, hSize)
	steps := vPick(0, 2) * 2
	if steps == 0 {
		return
	}
	vAssert(s.Start(hMake(data)) == nil, "a well-formed rule is refused")
	for ; steps > 0; steps-- {
		_, _, err := s.Next()
		vAssert(err == nil, "a well-formed rule is refused")
	}
}

func hLE(out []byte, v, size int) []byte {
	for i := 0; i < size; i++ {
		out = append(out, byte(v))
		v >>= 8
	}
	return out
}

// hEncode writes a rule whose blocks are split into fragments of at most frag
// elements; elements are symbolic.
// It returns the indices of the bytes that are not, too (outputs aside).
func hEncode(lens [3]int, outs, frag int, set func(i int) bool) (data []byte, fixed []int) {
	data = []byte{vU8(), byte(lens[0]), byte(lens[1]), byte(lens[2]), byte(outs)}
	fixed = []int{1, 2, 3, 4}
	for i := 0; i < outs*hSize; i++ {
		data = append(data, 0)
	}
	k := 0
	for _, l := range lens {
		if l == 0 {
			fixed = append(fixed, len(data))
			data = append(data, 0)
		}
		for l > 0 {
			sets, elems := 0, 0
			for l > 0 && sets < frag && sets < 15 && set(k) {
				sets++
				l--
				k++
			}
			for l > 0 && sets+elems < frag && elems < 15 && !set(k) {
				elems++
				l--
				k++
			}
			fixed = append(fixed, len(data))
			data = append(data, byte(sets<<4|elems))
			data = append(data, vBytes(sets+elems*hSize)...)
		}
	}
	return data, fixed
}

// Well-formed rules with blocks of up to 2 (3 thorough) elements
// (one less in the tail) in fragments
// of several sizes, with any elements, then changed in any single byte, cut short
// or extended with any byte.
//
//verif:reach well-formed malformed
func vhC15_Changed() {
	n := vBound(2, 3)
	lens := [3]int{vPick(0, n), vPick(1, n), vPick(0, n-1)}
	kinds := vPick(0, 3)
	outs := vPick(1, lens[1])
	data, fixed := hEncode(lens, outs, 1+(outs+kinds)%n, func(i int) bool {
		return kinds == 1 || kinds == 2 && i%2 == 0 || kinds == 3 && i%2 == 1
	})
	switch vPick(0, 2) {
	case 0:
		data[fixed[vPick(0, len(fixed)-1)]] = vU8()
	case 1:
		data = data[:vPick(0, len(data))]
	case 2:
		data = append(data, vU8())
	}
	var s RuleScanner
	hScan(&s, data)
}

// Blocks of up to 255 elements in total, in fragments of up to 1, 7 or 16
// elements, all valid but for the last one, with the
// last byte missing or the length of a block changed by one.
//
//verif:reach well-formed malformed
func vhC15_Long() {
	k, size := vPick(0, 2), vPick(0, vBound(2, 7))
	lens := [3]int{vPick(0, 1), 1, vPick(0, 1)}
	lens[k] += []int{30, 253, 254, 15, 14, 29, 126, 252}[size]
	run := []int{1, 16, 300, 15}[vPick(0, vBound(2, 3))]
	data, _ := hEncode(lens, 1, []int{16, 7, 1}[(size+vPick(0, vBound(0, 2)))%3], func(i int) bool { return i/run%2 == 1 })
	if r, ok := hDecodeRule(data, hSize); ok {
		good := uint64(1)
		for _, e := range r.in[:len(r.in)-1] {
			if e.set {
				good &= vB2I(e.v != 255)
			} else {
				good &= hValid(e.v)
			}
		}
		vAssume(good == 1)
	}
	switch vPick(0, 2) {
	case 1:
		data = data[:len(data)-1]
	case 2:
		data[1+vPick(0, 2)]++
	}
	var s RuleScanner
	hScan(&s, data)
}
