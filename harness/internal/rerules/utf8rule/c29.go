package utf8rule

import "github.com/tinne26/ggfnt"

// (this file and its sibling of the other tree differ in these lines and in
// hTreeFont only)
const hSize = 4

type hTreeRule = ggfnt.Utf8RewriteRule

// hSpan is a range of values, both ends included.
type hSpan struct{ first, last hVal }

// hTreeFont makes a font with the given sets, of ranges first and then elements
// of the ranges of one element.
func hTreeFont(sets [][]hSpan) *ggfnt.Font {
	ends, items := []byte{byte(len(sets))}, []byte(nil)
	for _, s := range sets {
		var ranges, list []byte
		for _, r := range s {
			d := []byte{}
			for k := 0; k < hSize; k++ {
				d = append(d, byte(r.first>>(8*k)))
			}
			if r.first == r.last {
				list = append(list, d...)
			} else {
				ranges = append(append(ranges, d...), byte(r.last-r.first))
			}
		}
		items = append(append(items, byte(len(ranges)/(hSize+1))), ranges...)
		items = append(append(items, byte(len(list)/hSize)), list...)
		ends = append(ends, byte(len(items)), byte(len(items)>>8))
	}
	return &ggfnt.Font{Data: append(ends, items...)}
}

// hPattern is the input of a rule: what its elements stand for, and how many of
// them are its head.
type hPattern struct {
	head  int
	elems []int // sets, or values when they are negative: -1 for 0, ...
}

func (p *hPattern) encode() hTreeRule {
	n := len(p.elems)
	d := []byte{255, byte(p.head), byte(n - p.head), 0, 1}
	for k := 0; k < hSize; k++ {
		d = append(d, 1)
	}
	part := func(elems []int) {
		if len(elems) == 0 {
			d = append(d, 0)
		}
		for len(elems) > 0 {
			// sets and then elements
			s, e := 0, 0
			for s < len(elems) && elems[s] >= 0 && s < 15 {
				s++
			}
			for s+e < len(elems) && elems[s+e] < 0 && e < 15 {
				e++
			}
			d = append(d, byte(s<<4|e))
			for _, x := range elems[:s] {
				d = append(d, byte(x))
			}
			for _, x := range elems[s : s+e] {
				v := -x - 1
				for k := 0; k < hSize; k++ {
					d = append(d, byte(v>>(8*k)))
				}
			}
			elems = elems[s+e:]
		}
	}
	part(p.elems[:p.head])
	part(p.elems[p.head:])
	d = append(d, 0)
	return hTreeRule{Data: d}
}

// matches tells whether element k stands for x (1 or 0).
func (p *hPattern) matches(sets [][]hSpan, k int, x hVal) uint64 {
	e := p.elems[k]
	if e < 0 {
		return vB2I(x == hVal(-e-1))
	}
	m := uint64(0)
	for _, s := range sets[e] {
		m |= vB2I(s.first <= x) & vB2I(x <= s.last)
	}
	return m
}

// hCheckTree walks the states with any values and compares with the rules.
func hCheckTree(states []State, sets [][]hSpan, rules []hPattern, input []hVal) {
	live := make([]uint64, len(rules))
	for i := range live {
		live[i] = 1
	}
	at := StateIndex(0)
	for k, x := range input {
		if len(states) == 0 {
			vAssert(len(rules) == 0, "no states for some rules")
			return
		}
		// the heads of the rules that go on from here
		for h := 0; h < 3; h++ {
			want := uint64(0)
			for i := range rules {
				if len(rules[i].elems) > k && rules[i].head >= h {
					want |= live[i]
				}
			}
			vAssert(vB2I(states[at].SatisfiesMinRequiredHead(uint8(h))) == want || h == 0, "wrong lengths of heads")
		}
		next, match := states[at].Trigger(x)
		want, goesOn := RuleNone, uint64(0)
		for i := len(rules) - 1; i >= 0; i-- {
			if len(rules[i].elems) <= k {
				continue
			}
			live[i] &= rules[i].matches(sets, k, x)
			if len(rules[i].elems) == k+1 {
				if live[i] == 1 {
					want = RuleIndex(i)
				}
			} else {
				goesOn |= live[i]
			}
		}
		vAssert(match == want, "wrong rule matched by a sequence")
		vAssert(vB2I(next != StateNone) == goesOn, "a sequence goes on where no rule does, or ends where one goes on")
		if match != RuleNone {
			vReach("match")
		}
		if next == StateNone {
			vReach("end")
			return
		}
		at = next
	}
}

// hCompile compiles rules.
func hCompile(f *ggfnt.Font, rules []hPattern) ([]State, error) {
	var c DecisionTreeCompiler
	c.Begin(f, nil)
	var err error
	for i := range rules {
		if err = c.Feed(rules[i].encode(), RuleIndex(i)); err != nil {
			break
		}
	}
	return c.Finish(), err
}

func hSpans(p ...int) []hSpan {
	var out []hSpan
	for i := 0; i < len(p); i += 2 {
		out = append(out, hSpan{hVal(p[i]), hVal(p[i+1])})
	}
	return out
}

// 3 (4 thorough) rules of 2 elements, or two of up to 3 (4 thorough), each from
// among a single value and three overlapping sets (quick: the second rule from
// two of these); followed by any input.
//
//verif:reach match end
//verif:maxpaths 3000000
func vhC29_Patterns() {
	sets := [][]hSpan{hSpans(4, 6), hSpans(5, 9, 2, 2), hSpans(1, 2, 4, 4, 7, 8)}
	n := vPick(2, 3)
	length := []int{vBound(3, 4), 2}[n-2]
	if n == 3 {
		n = vBound(3, 4)
	}
	rules := make([]hPattern, n)
	longest, few := 0, 1
	for i := range rules {
		l := length
		if n == 2 && (i != few || vBound(0, 1) == 1) {
			l = vPick(1, length)
		}
		for k := 0; k < l; k++ {
			e := 1
			if i != few || vBound(0, 1) == 1 {
				e = vPick(0, 3)
			} else if k == l-1 {
				e = vPick(1, 2)
			}
			if e == 3 {
				e = -6 // the value 5
			}
			rules[i].elems = append(rules[i].elems, e)
		}
		if l > longest {
			longest = l
		}
		rules[i].head = i % l
	}
	states, err := hCompile(hTreeFont(sets), rules)
	vAssert(err == nil, "rules within limits are refused")
	input := make([]hVal, longest)
	for k := range input {
		input[k] = hAny()
	}
	hCheckTree(states, sets, rules, input)
}

// Shared states: 4 rules (5 thorough) of 2 elements (or the first of 3), whose
// first elements are any of two values and two sets, of both and of one of them
// and another, and go on differently; followed by any input.
//
//verif:reach match end
func vhC29_Shared() {
	sets := [][]hSpan{hSpans(1, 2), hSpans(2, 3)}
	rules := make([]hPattern, vBound(4, 5))
	for i := range rules {
		e := vPick(0, 3)
		if e > 1 {
			e = -e // the values 1 and 2
		}
		rules[i].elems = []int{e, -11 - i}
		if i == 0 {
			rules[i].elems = append(rules[i].elems, -1)
		}
		rules[i].head = i % 2
	}
	states, err := hCompile(hTreeFont(sets), rules)
	vAssert(err == nil, "rules within limits are refused")
	hCheckTree(states, sets, rules, []hVal{hAny(), hAny(), hAny()})
}

// Any values and any ranges: 2 rules of 2 elements, of which any one is a range
// of any bounds and the others are any values or a set.
//
//verif:reach match end
func vhC29_AnyValues() {
	first, last := hAny(), hAny()
	vAssume(first <= last && last < 1000 && last-first < 200 && first != last)
	sets := [][]hSpan{{{first, last}}, hSpans(100, 300-50)}
	where := vPick(0, 3)
	rules := make([]hPattern, 2)
	for i := range rules {
		for k := 0; k < 2; k++ {
			e := 1
			if i*2+k == where {
				e = 0
			} else if vPick(0, 1) == 1 {
				e = -201
			}
			rules[i].elems = append(rules[i].elems, e)
		}
	}
	states, err := hCompile(hTreeFont(sets), rules)
	vAssert(err == nil, "rules within limits are refused")
	hCheckTree(states, sets, rules, []hVal{hAny(), hAny()})
}

// As many rules as states allow, and beyond: 40 to 130 rules of 3 elements with
// different first elements and shared or different continuations, and one of 100
// to 255 elements. Beyond the limits an error is reported; within them any
// input that begins with a value around the first, 62 or the last is decided
// exactly.
//
//verif:steps 1000000000
//verif:reach match end full
func vhC29_Many() {
	sets := [][]hSpan{hSpans(10, 250), hSpans(40, 60, 62, 62), hSpans(0, 0, 127, 128)}
	var rules []hPattern
	kind := vPick(0, 3)
	n := 40
	if kind == 0 || kind == 3 || vBound(0, 1) == 1 {
		n = []int{126, 127, 128, 40, 100, 130}[vPick(0, vBound(2, 5))]
	}
	switch kind {
	case 0: // all different
		for i := 0; i < n; i++ {
			rules = append(rules, hPattern{0, []int{-1 - i, -1 - 2*i, -1 - 3*i}})
		}
		if vPick(0, 1) == 1 { // 2n + 2 states
			rules = append(rules, hPattern{0, []int{-1 - n, -1 - n}})
		}
	case 1: // the same from the second on
		for i := 0; i < n; i++ {
			rules = append(rules, hPattern{1, []int{-1 - i, 0, -8}})
		}
	case 2: // all are tried from the second on
		for i := 0; i < n; i++ {
			rules = append(rules, hPattern{i % 2, []int{i % 3, -1 - i, -1 - i%7}})
		}
	case 3: // one long rule
		l := n + 127
		if l > 255 {
			l = 255
		}
		p := hPattern{0, make([]int, l)}
		for k := range p.elems {
			p.elems[k] = k % 4
			if k%4 == 3 {
				p.elems[k] = -1 - k
			}
		}
		rules = append(rules, p, hPattern{1, []int{0, -1 - 50}})
	}
	states, err := hCompile(hTreeFont(sets), rules)
	if err != nil {
		vReach("full")
		vAssert(err == ErrCompilerHitLimits, "wrong error")
		vAssert(n >= 100, "rules within limits are refused")
		return
	}
	if kind == 0 {
		vAssert(n < 128, "more states than can be")
	}
	x := hAny()
	vAssume(vB2I(x < 2)|vB2I(x > 60)&vB2I(x < 64)|vB2I(int(x) > n-3) == 1)
	hCheckTree(states, sets, rules, []hVal{x, hAny(), hAny()})
}

// A compiler that compiled any of several rule sets before, whether or not it
// hit an error, and is given its buffer back, compiles as a new one does.
//
//verif:reach match end
func vhC29_Reuse() {
	sets := [][]hSpan{hSpans(4, 6), hSpans(5, 9, 2, 2), hSpans(1, 2, 4, 4, 7, 8)}
	f := hTreeFont(sets)
	lists := [][]hPattern{
		{{0, []int{0, 1, 2}}, {1, []int{1, 0, -6}}, {0, []int{-6, 1, 1}}},
		{{0, []int{2}}, {1, []int{2, 2}}},
		{{0, []int{0, 0, 0, 0}}, {0, []int{1, 1, 1, 1}}, {0, []int{2, 2, 2, 2}}, {0, []int{-3, 1, -3, 0}}},
		{{2, []int{-1, -2, -3}}, {1, []int{-2, -2}}},
	}
	var c DecisionTreeCompiler
	var buffer []State
	for round := 0; round < vBound(1, 3); round++ {
		k := vPick(0, 4)
		c.Begin(f, buffer)
		if k == 4 {
			vAssert(c.Feed(lists[0][0].encode(), 0) == nil, "a rule is refused")
			vAssert(c.Feed(hTreeRule{Data: []byte{255, 0, 1, 0, 1}}, 1) != nil, "a truncated rule is accepted")
		} else {
			for i := range lists[k] {
				vAssert(c.Feed(lists[k][i].encode(), RuleIndex(i)) == nil, "a rule is refused")
			}
		}
		buffer = c.Finish()
	}
	rules := lists[vPick(0, 3)]
	c.Begin(f, buffer)
	for i := range rules {
		vAssert(c.Feed(rules[i].encode(), RuleIndex(i)) == nil, "a rule is refused")
	}
	hCheckTree(c.Finish(), sets, rules, []hVal{hAny(), hAny(), hAny(), hAny()})
}
