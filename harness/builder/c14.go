package builder

import "github.com/tinne26/ggfnt"

func hCheckGlyphRules(f *ggfnt.Font, rules []hRule) {
	rw := f.Rewrites()
	vAssert(int(rw.NumGlyphRules()) == len(rules), "wrong number of glyph rules")
	for i := range rules {
		want := &rules[i]
		r := rw.GetGlyphRule(uint16(i))
		got, ok := hDecodeRule(r.Data, 2)
		vAssert(ok, "a glyph rule is not well formed")
		vAssert(got.same(want), "wrong glyph rule")
		vAssert(r.Condition() == want.cond && r.HeadLen() == want.lens[0] && r.BodyLen() == want.lens[1] && r.TailLen() == want.lens[2], "wrong rule properties")
		vAssert(int(r.InLen()) == len(want.in) && int(r.OutLen()) == len(want.out), "wrong rule lengths")
		n := 0
		r.EachOut(func(g ggfnt.GlyphIndex) {
			vAssert(n < len(want.out) && uint32(g) == want.out[n], "wrong rule output")
			n++
		})
		vAssert(n == len(want.out), "wrong rule output length")
		for j := range rules {
			vAssert(r.Equals(rw.GetGlyphRule(uint16(j))) == want.same(&rules[j]), "wrong equality of glyph rules")
		}
	}
	vAssert(vPanics(func() { rw.GetGlyphRule(uint16(len(rules))) }), "a rule that does not exist is given")
}

func hCheckRuneRules(f *ggfnt.Font, rules []hRule) {
	rw := f.Rewrites()
	vAssert(int(rw.NumUTF8Rules()) == len(rules), "wrong number of utf8 rules")
	for i := range rules {
		want := &rules[i]
		r := rw.GetUtf8Rule(uint16(i))
		got, ok := hDecodeRule(r.Data, 4)
		vAssert(ok, "a utf8 rule is not well formed")
		vAssert(got.same(want), "wrong utf8 rule")
		vAssert(r.Condition() == want.cond && r.HeadLen() == want.lens[0] && r.BodyLen() == want.lens[1] && r.TailLen() == want.lens[2], "wrong rule properties")
		vAssert(int(r.InLen()) == len(want.in) && int(r.OutLen()) == len(want.out), "wrong rule lengths")
		n := 0
		r.EachOut(func(c rune) {
			vAssert(n < len(want.out) && uint32(c) == want.out[n], "wrong rule output")
			n++
		})
		vAssert(n == len(want.out), "wrong rule output length")
		for j := range rules {
			vAssert(r.Equals(rw.GetUtf8Rule(uint16(j))) == want.same(&rules[j]), "wrong equality of utf8 rules")
		}
	}
	vAssert(vPanics(func() { rw.GetUtf8Rule(uint16(len(rules))) }), "a rule that does not exist is given")
}

// hRuleFont has g glyphs and s glyph sets of one glyph each.
type hRuleFont struct {
	b       *Font
	u, sets []uint64
	rules   []hRule
}

func hNewRuleFont(g, s int) *hRuleFont {
	b := New()
	f := &hRuleFont{b: b, u: hGlyphs(b, g)}
	for i := 0; i < s; i++ {
		set, err := b.CreateGlyphSet()
		vAssert(err == nil, "a glyph set is refused")
		err = b.AddGlyphSetListGlyph(set, f.u[i%g])
		vAssert(err == nil, "a glyph of a set is refused")
		f.sets = append(f.sets, set)
	}
	return f
}

// add adds a rule whose elements are given by kind(i): glyph k for k >= 0, set
// -k-1 otherwise; outputs are glyphs, in turns.
func (f *hRuleFont) add(lens [3]int, outs int, kind func(i int) int) {
	var in, out []uint64
	r := hRule{cond: 255, lens: [3]uint8{uint8(lens[0]), uint8(lens[1]), uint8(lens[2])}}
	for i := 0; i < lens[0]+lens[1]+lens[2]; i++ {
		k := kind(i)
		if k >= 0 {
			in = append(in, f.u[k])
			r.in = append(r.in, hElem{false, uint32(k)})
		} else {
			in = append(in, f.sets[-k-1])
			r.in = append(r.in, hElem{true, uint32(-k - 1)})
		}
	}
	for i := 0; i < outs; i++ {
		k := (i*2 + lens[1]) % len(f.u)
		out = append(out, f.u[k])
		r.out = append(r.out, uint32(k))
	}
	err := f.b.AddGlyphRewriteRule(uint8(lens[0]), uint8(lens[1]), uint8(lens[2]), in, out...)
	good := lens[1] > 0 && outs > 0 && outs <= lens[1] && len(in) <= 255
	vAssert((err == nil) == good, "wrong acceptance of a glyph rule")
	if good {
		f.rules = append(f.rules, r)
	}
}

// One glyph rule with head, body and tail of 0 to 2 (3 thorough) elements,
// each of them a glyph or a set (of 3 glyphs and 2 sets), after another rule.
func vhC14_Blocks() {
	f := hNewRuleFont(3, 2)
	f.add([3]int{0, vPick(1, 2), 0}, 1, func(i int) int { return 2 - i })
	n := vBound(2, 3)
	lens := [3]int{vPick(0, n), vPick(0, n), vPick(0, n)}
	f.add(lens, vPick(0, lens[1]), func(i int) int {
		if vPick(0, 1) == 0 {
			return i % 3
		}
		return -1 - i%2
	})
	hCheckGlyphRules(hBuild(f.b), f.rules)
}

// Rules with blocks of 13 to 17 (to 33 thorough) and 255 elements in total, of
// runs of glyphs and sets of 1, 7, 15 and 16 elements: fragments are full.
func vhC14_Fragments() {
	f := hNewRuleFont(3, 2)
	k := vPick(0, 2)
	lens := [3]int{1, 1, 1}
	lens[k] = vPick(13, vBound(17, 33))
	if lens[k] == 17 {
		lens[k] = 255 - 2
	}
	if vPick(0, 1) == 1 {
		for j := range lens {
			if j != k {
				lens[j]--
			}
		}
		lens[1] = max(lens[1], 1)
	}
	run := []int{1, 7, 15, 16, 300}[vPick(0, 4)]
	flip := vPick(0, 1)
	f.add(lens, vPick(1, min(lens[1], 2)), func(i int) int {
		if (i/run+flip)%2 == 0 {
			return i % 3
		}
		return -1 - i%2
	})
	f.add([3]int{1, 2, 3}, 2, func(i int) int { return i%4 - 1 })
	hCheckGlyphRules(hBuild(f.b), f.rules)
}

// Rules that are too long, or with unknown elements, are refused.
func vhC14_Refused() {
	f := hNewRuleFont(2, 1)
	a, b := vU8(), vU8()
	c := 256 - int(a) - int(b)
	vAssume(c >= 0 && c < 256)
	in := make([]uint64, 256)
	for i := range in {
		in[i] = f.u[0]
	}
	vAssert(f.b.AddGlyphRewriteRule(a, b, uint8(c), in, f.u[0]) != nil, "a rule of 256 elements is accepted")
	vAssert(f.b.AddGlyphRewriteRule(a, b, uint8(c), nil, f.u[0]) != nil, "a rule without elements is accepted")
	vAssert(f.b.AddGlyphRewriteRule(0, 2, 0, []uint64{f.u[0], f.u[0] ^ 1}, f.u[0]) != nil, "an unknown element is accepted")
	vAssert(f.b.AddGlyphRewriteRule(0, 1, 0, []uint64{f.u[0]}, f.sets[0]) != nil, "a set is accepted as output")
	hCheckGlyphRules(hBuild(f.b), nil)
}

// Up to 3 simple utf8 rules of up to 3 (4 thorough) code points, any of them.
func vhC14_Runes() {
	b := New()
	hGlyphs(b, 1)
	var rules []hRule
	for i := vPick(0, 3); i > 0; i-- {
		n := vPick(1, vBound(2, 4))
		if i == 1 {
			n = vPick(1, vBound(3, 4))
		}
		hSimple(b, n, &rules)
	}
	hCheckRuneRules(hBuild(b), rules)
}

func hSimple(b *Font, n int, rules *[]hRule) {
	out := rune(vU32())
	seq := make([]rune, n)
	r := hRule{cond: 255, lens: [3]uint8{0, uint8(n), 0}, out: []uint32{uint32(out)}}
	for i := range seq {
		seq[i] = rune(vU32())
		r.in = append(r.in, hElem{false, uint32(seq[i])})
	}
	vAssert(b.AddSimpleUtf8RewriteRule(out, seq...) == nil, "a simple utf8 rule is refused")
	for i := range seq {
		seq[i] = 0 // the builder has its own copy
	}
	*rules = append(*rules, r)
}

// Simple utf8 rules of 14 to 17, 30 to 32 and 254 to 256 code points.
func vhC14_LongRunes() {
	b := New()
	hGlyphs(b, 1)
	var rules []hRule
	n := []int{14, 15, 16, 17, 30, 31, 32, 254, 255, 256}[vPick(0, 9)]
	if n == 256 {
		vAssert(b.AddSimpleUtf8RewriteRule('a', make([]rune, n)...) != nil, "a rule of 256 code points is accepted")
		vAssert(b.AddSimpleUtf8RewriteRule('a') != nil, "an empty rule is accepted")
	} else {
		hSimple(b, n, &rules)
	}
	hSimple(b, 1, &rules)
	hCheckRuneRules(hBuild(b), rules)
}

// 1 or 3 rune sets, the last of them with up to 2 (3 thorough) ranges and 2 (3) single runes,
// any of them.
//
//verif:reach refused accepted
func vhC14_RuneSets() {
	b := New()
	hGlyphs(b, 1)
	type rng struct{ a, b rune }
	n := vPick(0, 1)*2 + 1
	ranges := make([][]rng, n)
	lists := make([][]rune, n)
	for i := 0; i < n; i++ {
		set, err := b.CreateRuneSet()
		vAssert(err == nil, "a rune set is refused")
		if i != n-1 {
			r := rng{rune(vU32()) & 0xffffff, 0}
			r.b = r.a + rune(vU8())
			c := rune(vU32())
			ranges[i], lists[i] = []rng{r}, []rune{c}
			e1, e2 := b.AddRuneSetRange(set, r.a, r.b), b.AddRuneSetListRune(set, c)
			vAssert(e1 == nil && e2 == nil, "a valid range or rune is refused")
			continue
		}
		m := vBound(2, 3)
		for k := vPick(0, m); k > 0; k-- {
			r := rng{rune(vU32()), rune(vU32())}
			good := vB2I(r.a <= r.b) & vB2I(int64(r.b)-int64(r.a) <= 255)
			for _, o := range ranges[i] {
				good &= 1 - vB2I(o.a == r.a)&vB2I(o.b == r.b)
			}
			err := b.AddRuneSetRange(set, r.a, r.b)
			vAssert(vB2I(err == nil) == good, "wrong acceptance of a range")
			if err == nil {
				ranges[i] = append(ranges[i], r)
				vReach("accepted")
			} else {
				vReach("refused")
			}
		}
		for k := vPick(0, m); k > 0; k-- {
			r := rune(vU32())
			good := uint64(1)
			for _, o := range lists[i] {
				good &= 1 - vB2I(o == r)
			}
			err := b.AddRuneSetListRune(set, r)
			vAssert(vB2I(err == nil) == good, "wrong acceptance of a rune")
			if err == nil {
				lists[i] = append(lists[i], r)
			}
		}
	}
	rw := hBuild(b).Rewrites()
	vAssert(int(rw.NumUTF8Sets()) == n && rw.NumGlyphSets() == 0, "wrong number of sets")
	for i := 0; i < n; i++ {
		s := rw.GetUtf8Set(uint8(i))
		k := 0
		s.EachRange(func(a, b rune) error {
			vAssert(k < len(ranges[i]), "too many ranges")
			vAssert(a == ranges[i][k].a && b == ranges[i][k].b, "wrong range")
			k++
			return nil
		})
		vAssert(k == len(ranges[i]), "wrong number of ranges")
		k = 0
		s.EachListRune(func(c rune) error {
			vAssert(k < len(lists[i]), "too many runes")
			vAssert(c == lists[i][k], "wrong rune")
			k++
			return nil
		})
		vAssert(k == len(lists[i]), "wrong number of runes")
	}
	vAssert(vPanics(func() { rw.GetUtf8Set(uint8(n)) }), "a set that does not exist is given")
}

// 1 or 2 glyph sets over 300 glyphs, with up to 1 (2 thorough) ranges and 1 (2)
// single glyphs around the first and last indices, and at the limit of 256
// glyphs in a range.
func vhC14_GlyphSets() {
	b := New()
	u := hGlyphs(b, 300)
	at := []int{0, 1, 44, 255, 256, 299}
	type rng struct{ a, b int }
	n := vPick(1, 2)
	ranges := make([][]rng, n)
	lists := make([][]int, n)
	bad := false
	for i := 0; i < n; i++ {
		set, err := b.CreateGlyphSet()
		vAssert(err == nil, "a glyph set is refused")
		if i != n-1 {
			lists[i] = []int{i}
			vAssert(b.AddGlyphSetListGlyph(set, u[i]) == nil, "a glyph of a set is refused")
			continue
		}
		for k := vPick(0, vBound(1, 2)); k > 0; k-- {
			r := rng{at[vPick(0, 5)], at[vPick(0, 5)]}
			repeated := false
			for _, o := range ranges[i] {
				repeated = repeated || o == r
			}
			err := b.AddGlyphSetRange(set, u[r.a], u[r.b])
			vAssert((err == nil) == !repeated, "wrong acceptance of a range")
			if repeated {
				continue
			}
			bad = bad || r.a > r.b || r.b-r.a > 255
			ranges[i] = append(ranges[i], r)
		}
		for k := vPick(0, vBound(1, 2)); k > 0; k-- {
			r := at[vPick(0, 5)]
			repeated := false
			for _, o := range lists[i] {
				repeated = repeated || o == r
			}
			err := b.AddGlyphSetListGlyph(set, u[r])
			vAssert((err == nil) == !repeated, "wrong acceptance of a glyph")
			if !repeated {
				lists[i] = append(lists[i], r)
			}
		}
	}
	f, err := b.Build()
	vAssert((err == nil) == !bad, "wrong acceptance of glyph ranges when building")
	if bad {
		return
	}
	rw := f.Rewrites()
	vAssert(int(rw.NumGlyphSets()) == n && rw.NumUTF8Sets() == 0, "wrong number of sets")
	for i := 0; i < n; i++ {
		s := rw.GetGlyphSet(uint8(i))
		k := 0
		s.EachRange(func(r ggfnt.GlyphRange) error {
			vAssert(k < len(ranges[i]), "too many ranges")
			vAssert(int(r.First) == ranges[i][k].a && int(r.Last) == ranges[i][k].b, "wrong range")
			k++
			return nil
		})
		vAssert(k == len(ranges[i]), "wrong number of ranges")
		k = 0
		s.EachListGlyph(func(g ggfnt.GlyphIndex) error {
			vAssert(k < len(lists[i]), "too many glyphs")
			vAssert(int(g) == lists[i][k], "wrong glyph")
			k++
			return nil
		})
		vAssert(k == len(lists[i]), "wrong number of glyphs")
	}
	vAssert(vPanics(func() { rw.GetGlyphSet(uint8(n)) }), "a set that does not exist is given")
}

// Many rules (1 to 3, 255 to 257 rules), at any index.
func vhC14_Many() {
	n := []int{1, 2, 3, 255, 256, 257}[vPick(0, 5)]
	f := hNewRuleFont(3, 2)
	for i := 0; i < n; i++ {
		f.add([3]int{i % 2, 1 + i%3, i % 4}, 1, func(k int) int { return (i+k)%5 - 2 })
	}
	i := []int{0, 1, 2, n / 2, n - 2, n - 1, n, 65535}[vPick(0, 7)]
	vAssume(i >= 0)
	rw := hBuild(f.b).Rewrites()
	vAssert(int(rw.NumGlyphRules()) == n, "wrong number of rules")
	var r ggfnt.GlyphRewriteRule
	p := vPanics(func() { r = rw.GetGlyphRule(uint16(i)) })
	vAssert(p == (i >= n), "wrong availability of a rule")
	if !p {
		got, ok := hDecodeRule(r.Data, 2)
		vAssert(ok && got.same(&f.rules[i]), "wrong glyph rule")
	}
}

// Many sets of each kind (1, 2, 127 to 130, 255), looked at around the first,
// middle and last indices, and many utf8 rules (1, 255 to 257, 300).
//
//verif:steps 1000000000
func vhC14_ManyMore() {
	b := New()
	kind := vPick(0, 2)
	if kind == 2 {
		hGlyph(b, 1)
		var rules []hRule
		for i := []int{1, 255, 256, 257, 300}[vPick(0, 4)]; i > 0; i-- {
			out, seq := rune(i), []rune{rune(3 * i), 'a', rune(i)}[:1+i%3]
			if i%300 == 1 {
				out, seq[0] = rune(vU32()), rune(vU32())
			}
			r := hRule{cond: 255, lens: [3]uint8{0, uint8(len(seq)), 0}, out: []uint32{uint32(out)}}
			for _, x := range seq {
				r.in = append(r.in, hElem{false, uint32(x)})
			}
			vAssert(b.AddSimpleUtf8RewriteRule(out, seq...) == nil, "a rule is refused")
			rules = append(rules, r)
		}
		hCheckRuneRules(hBuild(b), rules)
		return
	}
	u := hGlyphs(b, 256)
	n := []int{1, 2, 127, 128, 129, 130, 255}[vPick(0, 6)]
	r := rune(vU16())
	for i := 0; i < n; i++ {
		if kind == 0 {
			set, err := b.CreateGlyphSet()
			vAssert(err == nil, "a set is refused")
			vAssert(b.AddGlyphSetListGlyph(set, u[i]) == nil, "a glyph of a set is refused")
			if i%3 == 0 {
				vAssert(b.AddGlyphSetRange(set, u[i/2], u[i]) == nil, "a range of a set is refused")
			}
		} else {
			set, err := b.CreateRuneSet()
			vAssert(err == nil, "a set is refused")
			vAssert(b.AddRuneSetListRune(set, r+rune(i)) == nil, "a rune of a set is refused")
			if i%3 == 0 {
				vAssert(b.AddRuneSetRange(set, r, r+rune(i)) == nil, "a range of a set is refused")
			}
		}
	}
	var err error
	if n == 255 && kind == 0 {
		_, err = b.CreateGlyphSet()
	} else if n == 255 {
		_, err = b.CreateRuneSet()
	}
	vAssert((err != nil) == (n == 255), "a set too many")
	rw := hBuild(b).Rewrites()
	vAssert(int(rw.NumGlyphSets()) == n*(1-kind) && int(rw.NumUTF8Sets()) == n*kind, "wrong number of sets")
	for _, i := range []int{0, 1, n / 2, n - 2, n - 1} {
		if i < 0 || i >= n {
			continue
		}
		elems, ranges := 0, 0
		if kind == 0 {
			s := rw.GetGlyphSet(uint8(i))
			s.EachListGlyph(func(g ggfnt.GlyphIndex) error {
				elems++
				vAssert(int(g) == i, "wrong glyph")
				return nil
			})
			s.EachRange(func(g ggfnt.GlyphRange) error {
				ranges++
				vAssert(int(g.First) == i/2 && int(g.Last) == i, "wrong range")
				return nil
			})
		} else {
			s := rw.GetUtf8Set(uint8(i))
			s.EachListRune(func(c rune) error {
				elems++
				vAssert(c == r+rune(i), "wrong rune")
				return nil
			})
			s.EachRange(func(x, y rune) error {
				ranges++
				vAssert(x == r && y == r+rune(i), "wrong range")
				return nil
			})
		}
		vAssert(elems == 1 && ranges == (3-i%3)/3, "wrong set")
	}
}

// Tables of 255 to 257, 33000 and 65535 rules of 12 to 16 bytes, looked up at
// and next to the positions where sizes of integers end; and tables of 255 sets
// of up to 256 bytes, all of them looked up. Some elements have any value.
//
//verif:steps 1000000000
func vhC14_Huge() {
	kind := vPick(0, 3)
	size := 2 + kind%2*2
	f := &ggfnt.Font{}
	elem := func(out []byte, i int) []byte {
		return hLE(out, i, size)
	}
	if kind > 1 {
		x := 300
		var items [][]byte
		for i := 0; i < 255; i++ {
			n := 1 + (250-size)/size*(i%8)/8
			d := []byte{1}
			d = append(elem(d, i), byte(n))
			d = append(d, byte(n))
			for j := 0; j < n; j++ {
				d = elem(d, x+i+j)
			}
			items = append(items, d)
		}
		odd := map[int]uint16{}
		for _, i := range []int{0, 127, 128, 129, 254} {
			odd[i] = vU16()
			at := len(items[i]) - size
			items[i][at], items[i][at+1] = byte(odd[i]), byte(odd[i]>>8)
		}
		f.Data = hTable(1, 2, items)
		rw := f.Rewrites()
		for i := range items {
			n, got, ranges, ok := int(items[i][size+1]), 0, 0, uint64(1)
			value := func() int {
				v := x + i + got
				if o, is := odd[i]; is && got == n-1 {
					v = v&^0xFFFF | int(o)
				}
				got++
				return v
			}
			if kind == 2 {
				s := rw.GetGlyphSet(uint8(i))
				s.EachListGlyph(func(g ggfnt.GlyphIndex) error {
					ok &= vB2I(int(g) == value())
					return nil
				})
				s.EachRange(func(r ggfnt.GlyphRange) error {
					ok &= vB2I(int(r.First) == i && int(r.Last) == i+n)
					ranges++
					return nil
				})
			} else {
				s := rw.GetUtf8Set(uint8(i))
				s.EachListRune(func(c rune) error {
					ok &= vB2I(int(c) == value())
					return nil
				})
				s.EachRange(func(first, last rune) error {
					ok &= vB2I(int(first) == i && int(last) == i+n)
					ranges++
					return nil
				})
			}
			vAssert(ok == 1 && got == n && ranges == 1, "wrong set")
		}
		return
	}
	n := []int{255, 256, 257, 33000, 65535}[vPick(0, 4)]
	item := func(i int) []byte {
		d := []byte{255, 0, 1, byte(i % 3), 1}
		d = elem(d, i)
		d = append(d, 0, 1)
		d = elem(d, i+7)
		d = append(d, byte(i%3))
		for j := 0; j < i%3; j++ {
			d = elem(d, i+j)
		}
		return d
	}
	data := hLE(make([]byte, 0, n*30), n, 2)
	end := 0
	for i := 0; i < n; i++ {
		end += 8 + size*(2+i%3)
		data = hLE(data, end, 3)
	}
	base := len(data)
	for i := 0; i < n; i++ {
		data = append(data, 255, 0, 1, byte(i%3), 1)
		data = elem(data, i)
		data = append(data, 0, 1)
		data = elem(data, i+7)
		data = append(data, byte(i%3))
		for j := 0; j < i%3; j++ {
			data = elem(data, i+j)
		}
	}
	f.Data = data
	rw := f.Rewrites()
	get := func(i int) []byte {
		if kind == 0 {
			return rw.GetGlyphRule(uint16(i)).Data
		}
		return rw.GetUtf8Rule(uint16(i)).Data
	}
	last := base
	for i := 0; i < n; i++ {
		want := item(i)
		switch i {
		case 0, 1, 127, 128, 254, 255, 256, 21844, 21845, 21846, 21847, 32767, 32768, n / 2, n - 2, n - 1:
			x := vU16()
			data[last+5], data[last+6] = byte(x), byte(x>>8)
			want[5], want[6] = byte(x), byte(x>>8)
			d := get(i)
			vAssert(len(d) == len(want), "wrong length of a rule")
			ok := uint64(1)
			for j := range d {
				ok &= vB2I(d[j] == want[j])
			}
			vAssert(ok == 1, "wrong rule")
		}
		last += len(want)
	}
	if n < 65535 {
		vAssert(vPanics(func() { get(n) }), "a rule that does not exist is found")
	}
}
