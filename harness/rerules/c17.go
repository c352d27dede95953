package rerules

import (
	"github.com/tinne26/ggfnt"
	"github.com/tinne26/ggfnt/internal"
)

// (this file and its sibling of the other tester differ in these lines only)
const hSize = 2

type hAdapter struct{ t GlyphTester }

func hMake(r *hRule) ggfnt.GlyphRewriteRule {
	return ggfnt.GlyphRewriteRule(internal.RawBlock{Data: r.encode(hSize)})
}

func (a *hAdapter) feed(v uint32, out *[]uint32) error {
	return a.t.Feed(ggfnt.GlyphIndex(v), func(x ggfnt.GlyphIndex) { *out = append(*out, uint32(x)) })
}
func (a *hAdapter) brk(out *[]uint32) {
	a.t.Break(func(x ggfnt.GlyphIndex) { *out = append(*out, uint32(x)) })
}
func (a *hAdapter) finish(out *[]uint32) {
	a.t.FinishSequence(func(x ggfnt.GlyphIndex) { *out = append(*out, uint32(x)) })
}
func (a *hAdapter) pending() int { return a.t.NumPendingGlyphs() }

// hVal is any value that rules may have.
func hVal() uint32 {
	x := uint32(vU16())
	vAssume(x < internal.MaxGlyphs)
	return x
}

// hInput is any value that may be fed.
func hInput() uint32 {
	x := uint32(vU16())
	vAssume(x <= uint32(ggfnt.GlyphMissing))
	return x
}

const hIgnored = uint32(ggfnt.GlyphZilch)

const hRefused = uint32(ggfnt.GlyphNewLine)

func hInvalid() uint32 {
	x := uint32(vU16())
	vAssume(x > uint32(ggfnt.GlyphZilch))
	return x
}

func (a *hAdapter) add(r *hRule) error   { return a.t.AddRule(hMake(r)) }
func (a *hAdapter) remove(r *hRule) bool { return a.t.RemoveRule(hMake(r)) }
func (a *hAdapter) removeAll()           { a.t.RemoveAllRules() }
func (a *hAdapter) numRules() int        { return a.t.NumRules() }
func (a *hAdapter) operating() bool      { return a.t.IsOperating() }
func (a *hAdapter) begin(f *ggfnt.Font, s *ggfnt.SettingsCache) error {
	return a.t.BeginSequence(f, s)
}
func (a *hAdapter) refresh(f *ggfnt.Font, s *ggfnt.SettingsCache)      { a.t.RefreshConditions(f, s) }
func (a *hAdapter) resync(f *ggfnt.Font, s *ggfnt.SettingsCache) error { return a.t.Resync(f, s) }

// hFew is one of the first values.
func hFew() uint32 { return uint32(vInt(0, 4)) }

// Sets of rules that overlap in all kinds of ways (shared prefixes, heads and
// tails that match again, ties), over any sequence of up to 5 (7 thorough)
// elements.
//
//verif:reach shorter
func vhC17_Overlaps() {
	s := hMakeSetup(hSize, hVal, 1, 2, 3, 4)
	rules := s.rules(hOverlaps[vPick(0, len(hOverlaps)-1)])
	t := &hAdapter{}
	hAddAll(t, rules)
	s.run(t, rules, hSeq(vBound(5, 7), hFew))
}

// The same with sets of elements, over sequences of up to 4 (6 thorough).
//
//verif:reach shorter
func vhC17_Sets() {
	s := hMakeSetup(hSize, hVal, 1, 2, 3, 4)
	s.makeFont()
	rules := s.rules(hSetRules[vPick(0, len(hSetRules)-1)])
	t := &hAdapter{}
	hAddAll(t, rules)
	s.run(t, rules, hSeq(vBound(4, 6), hFew))
}

// Rules of any values over any elements.
//
//verif:reach shorter
func vhC17_AnyValues() {
	s := hMakeSetup(hSize, hVal)
	s.makeFont()
	list := []string{"/ab/>x", "a/b/>y", "/a/b>x b/c/>y", "/B/>x /d/>y", "/C/>z", "/F/a>x", "/D/>x a/E/>y", "/bE/>x", "/ab/a>x a/ab/>y"}
	rules := s.rules(list[vPick(0, vBound(4, len(list)-1))])
	t := &hAdapter{}
	hAddAll(t, rules)
	s.run(t, rules, hSeq(vBound(2, 3), hInput))
}

// Any two rules of up to 3 and 2 (3 and 3 thorough) elements, each any of two
// elements (or the set of both, thorough), over any sequence of up to 4
// elements.
//
//verif:reach shorter
func vhC17_Pairs() {
	s := hMakeSetup(hSize, hVal, 1, 2, 3, 4)
	if vBound(0, 1) == 1 {
		s.makeFont()
	}
	rules := []*hRule{s.pickRule(3, 0), s.pickRule(vBound(2, 3), 1)}
	t := &hAdapter{}
	hAddAll(t, rules)
	s.run(t, rules, hSeq(4, func() uint32 { return uint32(vInt(0, 2)) }))
}

// Sequences broken in the middle, with elements that are ignored or refused.
//
//verif:reach shorter
func vhC17_Breaks() {
	s := hMakeSetup(hSize, hVal, 1, 2, 3, 4)
	rules := s.rules(hOverlaps[vPick(vBound(10, 1), len(hOverlaps)-1)])
	t := &hAdapter{}
	hAddAll(t, rules)
	in := hSeq(4, hFew)
	at := vPick(1, 3)
	odd := at - vPick(0, 1)
	var out []uint32
	vAssert(t.begin(nil, nil) == nil, "valid rules are refused")
	for i, x := range in {
		if i == at {
			t.brk(&out)
			vAssert(t.pending() == 0 && t.operating(), "not ready after a break")
			want := s.want(rules, in[:at])
			hCompare(out, want)
			if len(want) < at {
				vReach("shorter")
			}
			out = nil
		}
		if i == odd {
			if hIgnored > 0 {
				vAssert(t.feed(hIgnored, &out) == nil, "zilch glyphs are refused")
			}
			vAssert(t.feed(hRefused, &out) != nil, "an invalid element is accepted")
		}
		vAssert(t.feed(x, &out) == nil, "a valid element is refused")
	}
	t.finish(&out)
	hCompare(out, s.want(rules, in[at:]))
}

// Testers that operated before with other rules, some of them malformed,
// removed one by one or all at once.
//
//verif:reach shorter refused
func vhC17_History() {
	s := hMakeSetup(hSize, hVal, 1, 2, 3, 4)
	s.makeFont()
	s.setOn(true, true)
	lists := []string{"/Ca/>x 0:/bB/>y /bE/>z", "/a/b>x b/c/>y /C/>z", "aa/b/>x a/b/>y /b/>z", "/ab/a>x 1:/a/>y"}
	rules := s.rules(lists[vPick(0, vBound(1, 3))])
	extra := s.rules("0:/b/>z /aa/>z 1:a/C/>x")
	bad := &hRule{cond: 255, lens: [3]uint8{0, 1, 0}, in: []hElem{{true, 255}}, out: s.outs[:2]}
	t := &hAdapter{}
	at, n := vPick(0, 1)*len(rules), vPick(0, 1)+2*vPick(0, vBound(0, 1))
	kind := vPick(0, 2)
	for i := 0; i <= len(rules); i++ {
		if i == at {
			for _, r := range extra[:n] {
				vAssert(t.add(r) == nil, "a valid rule is refused")
			}
			if kind == 1 && t.add(bad) != nil {
				kind = 0
			}
		}
		if i < len(rules) {
			vAssert(t.add(rules[i]) == nil, "a valid rule is refused")
		}
	}
	var out []uint32
	err := t.begin(s.font, s.cache)
	vAssert((err != nil) == (kind == 1), "wrong outcome")
	if err != nil {
		vReach("refused")
		vAssert(!t.operating(), "operating after an error")
	} else {
		in := hSeq(1, hFew)
		for _, x := range in {
			vAssert(t.feed(x, &out) == nil, "a valid element is refused")
		}
		t.finish(&out)
		all := append([]*hRule{}, rules[:at]...)
		all = append(all, extra[:n]...)
		all = append(all, rules[at:]...)
		hCompare(out, s.want(all, in))
	}
	if kind == 2 {
		t.removeAll()
		vAssert(t.numRules() == 0, "rules left after removing all")
		hAddAll(t, rules)
	} else {
		if kind == 1 {
			vAssert(t.remove(bad), "a rule is not found")
		}
		for _, r := range extra[:n] {
			vAssert(t.remove(r), "a rule is not found")
			vAssert(!t.remove(r), "a removed rule is found")
		}
		vAssert(t.numRules() == len(rules), "wrong number of rules")
	}
	if vPick(0, 1) == 1 {
		vAssert(t.resync(s.font, s.cache) == nil, "valid rules are refused")
	}
	s.run(t, rules, hSeq(vBound(2, 3), hFew))
}

// Rules with conditions, for all the ways in which they hold and change.
//
//verif:reach shorter
func vhC17_Conditions() {
	s := hMakeSetup(hSize, hVal, 1, 2, 3, 4)
	s.makeFont()
	lists := []string{
		"0:/a/>x", "0:/a/>x 1:/ab/>y", "1:/a/>x 0:/a/>y", "0:/a/b>x 1:b/a/>y", "1:/ab/>x 0:a/b/>y /b/>z",
		"/ab/>x 0:/ba/>y 1:/aba/>z", "1:/aa/a>x 0:aa/a/>y a/a/>z", "0:/C/>x /Ba/>y 1:/D/>z",
	}
	rules := s.rules(lists[vPick(0, len(lists)-1)])
	on := vPick(0, 3)
	s.setOn(on&1 != 0, on&2 != 0)
	t := &hAdapter{}
	hAddAll(t, rules)
	var out []uint32
	if then := vPick(0, 4); then < 4 {
		// used before under other conditions
		vAssert(t.begin(s.font, s.cache) == nil, "valid rules are refused")
		in := hSeq(1, hFew)
		t.feed(in[0], &out)
		t.finish(&out)
		hCompare(out, s.want(rules, in))
		s.setOn(then&1 != 0, then&2 != 0)
		t.refresh(s.font, s.cache)
	}
	s.run(t, rules, hSeq(vBound(3, 4), hFew))
}

// Rules of up to 100 (255 thorough) elements that match, or do not at some
// element.
//
//verif:steps 200000000
//verif:reach shorter
func vhC17_Long() {
	s := hMakeSetup(hSize, hVal, 1, 2, 3, 4)
	n := []int{16, 100, 31, 250, 253, 255}[vPick(0, vBound(2, 5))]
	r := &hRule{cond: 255, out: s.outs[:2]}
	for i := 0; i < n; i++ {
		k := i / 2 % 2
		r.in = append(r.in, hElem{false, s.vals[k]})
		r.names = append(r.names, 'a'+byte(k))
	}
	k := vPick(0, 2)
	r.lens = [3]uint8{2, 2, 3}
	r.lens[k] += uint8(n - 7)
	rules := []*hRule{r}
	if vPick(0, 1) == 1 {
		rules = append(rules, s.rules("/b/>z")...)
	}
	t := &hAdapter{}
	hAddAll(t, rules)
	in := []uint32{}
	for i := 0; i < n; i++ {
		in = append(in, s.vals[i/2%2])
	}
	in[[]int{0, 5, n / 2, n - 1}[vPick(0, 3)]] = hFew()
	in = append(in, in[:4]...)
	if n > 250 && t.begin(nil, nil) != nil {
		return // more states than the testers can have
	}
	if n > 250 {
		var out []uint32
		t.finish(&out)
	}
	s.run(t, rules, in)
}

// Testers take up to 254 rules, with many conditions.
//
//verif:reach shorter
func vhC17_Many() {
	t := &hAdapter{}
	var rules []*hRule
	for i := 0; i < 254; i++ {
		r := &hRule{cond: 255, lens: [3]uint8{0, 1, 0}, in: []hElem{{false, uint32(10 + i*7%254)}}, out: []uint32{uint32(1000 + i)}}
		vAssert(t.add(r) == nil, "a valid rule is refused")
		rules = append(rules, r)
	}
	vAssert(t.add(rules[0]) != nil, "too many rules")
	vAssert(t.numRules() == 254, "wrong number of rules")
	x := hInput()
	var out []uint32
	err := t.begin(nil, nil)
	vAssert(err == nil, "valid rules are refused")
	t.feed(x, &out)
	t.finish(&out)
	want := x
	for _, r := range rules {
		if r.in[0].v == x {
			want = r.out[0]
			vReach("shorter")
		}
	}
	vAssert(len(out) == 1 && out[0] == want, "wrong rewriting")
}

// Any invalid element is refused and changes nothing.
//
//verif:reach shorter
func vhC17_Invalid() {
	s := hMakeSetup(hSize, hVal, 1, 2, 3, 4)
	rules := s.rules("/ab/>x /b/>y")
	t := &hAdapter{}
	hAddAll(t, rules)
	in := hSeq(2, hFew)
	at := vPick(0, 2)
	var out []uint32
	vAssert(t.begin(nil, nil) == nil, "valid rules are refused")
	for i := 0; i <= len(in); i++ {
		if i == at {
			vAssert(t.feed(hInvalid(), &out) != nil, "an invalid element is accepted")
		}
		if i < len(in) {
			vAssert(t.feed(in[i], &out) == nil, "a valid element is refused")
		}
	}
	t.finish(&out)
	want := s.want(rules, in)
	hCompare(out, want)
	if len(want) < len(in) {
		vReach("shorter")
	}
}

// Any 4 (5 thorough) additions and removals of 5 rules with several conditions,
// with sequences (and other conditions) in between or not.
//
//verif:reach shorter
func vhC17_Edits() {
	s := hMakeSetup(hSize, hVal, 1, 2, 3, 4)
	s.makeFont()
	s.edits(&hAdapter{})
}
