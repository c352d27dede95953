package glyphrule

import (
	"errors"

	"github.com/tinne26/ggfnt"
)

// (this file and its sibling of the other tree differ in these lines only)
const hTop = 65535

func hRange(first, last hVal) ggfnt.GlyphRange {
	return ggfnt.GlyphRange{First: first, Last: last}
}

// hState makes a state of n sorted and disjoint transitions, otherwise
// arbitrary.
func hState(n int) State {
	var s State
	s.Reset()
	ok := uint64(1)
	var prev hVal
	for i := 0; i < n; i++ {
		first, last := hAny(), hAny()
		ok &= vB2I(first <= last) & vB2I(last < hTop)
		if i > 0 {
			ok &= vB2I(prev < first)
		}
		prev = last
		next, match := StateIndex(vU8()), RuleIndex(vU8())
		// next states below 100 for the linker to add 100 to them
		ok &= vB2I(next < 100) | vB2I(next == StateNone)&vB2I(match != RuleNone)
		s.Transitions = append(s.Transitions, Transition{Range: hRange(first, last), RuleMatch: match, NextState: next})
	}
	vAssume(ok == 1)
	return s
}

func hCheckSorted(s *State) {
	ok := uint64(1)
	for i, t := range s.Transitions {
		ok &= vB2I(t.Range.First <= t.Range.Last)
		if i > 0 {
			ok &= vB2I(s.Transitions[i-1].Range.Last < t.Range.First)
		}
	}
	vAssert(ok == 1, "transitions not sorted or not disjoint")
}

func hLink(ref StateIndex, _ int) (StateIndex, error) {
	if ref == StateNone {
		return 200, nil
	}
	if ref >= 100 {
		return ref, nil
	}
	return ref + 100, nil
}

// hFollow looks for a value in the transitions, one by one.
func hFollow(ts []Transition, x hVal) (StateIndex, RuleIndex) {
	next, match := StateNone, RuleNone
	for _, t := range ts {
		if vB2I(t.Range.First <= x)&vB2I(x <= t.Range.Last) == 1 {
			next, match = t.NextState, t.RuleMatch
		}
	}
	return next, match
}

// hWant is what following x must give after adding a range.
func hWant(next StateIndex, match RuleIndex, in bool, rule RuleIndex) (StateIndex, RuleIndex) {
	if in {
		if rule == RuleNone {
			next, _ = hLink(next, 0)
		} else if match == RuleNone {
			match = rule
		}
	}
	return next, match
}

// Any element followed from any state of up to 4 (7 thorough) transitions.
//
//verif:reach found missing
func vhC16_Follow() {
	s := hState(vPick(0, vBound(4, 7)))
	x := hAny()
	vAssume(x < hTop)
	next, match := s.Trigger(x)
	wnext, wmatch := hFollow(s.Transitions, x)
	vAssert(next == wnext && match == wmatch, "the transition of the element is not found")
	if match != RuleNone {
		vReach("found")
	} else if next == StateNone {
		vReach("missing")
	}
}

// Any range added to any state of up to 2 (4 thorough) transitions, for a
// rule that ends there or goes on.
//
//verif:reach ends goes-on
func vhC16_AnyState() {
	s := hState(vPick(0, vBound(2, 4)))
	hAdd(&s)
}

func hAdd(s *State) {
	before := append([]Transition{}, s.Transitions...)
	first, last := hAny(), hAny()
	vAssume(first <= last)
	vAssume(last < hTop)
	rule := RuleNone
	if vPick(0, 1) == 1 {
		rule = RuleIndex(vU8())
		vAssume(rule != RuleNone)
		vReach("ends")
	} else {
		vReach("goes-on")
	}
	err := s.AppendRange(hRange(first, last), rule, hLink)
	vAssert(err == nil, "the range is refused")
	hCheckSorted(s)
	x := hAny()
	vAssume(x < hTop)
	next, match := hFollow(before, x)
	wnext, wmatch := hWant(next, match, first <= x && x <= last, rule)
	next, match = hFollow(s.Transitions, x)
	vAssert(next == wnext, "wrong next state after adding a range")
	vAssert(match == wmatch, "wrong rule after adding a range")
	next, match = s.Trigger(x)
	vAssert(next == wnext && match == wmatch, "an element is lost after adding a range")
}

// States of 251 to 254 transitions (no more than 254 are possible): ranges
// added around the first ones, those in the middle and the last ones.
//
//verif:reach accepted full
func vhC16_Full() {
	n := vPick(251, 254)
	var s State
	s.Reset()
	for i := 0; i < n; i++ {
		t := Transition{Range: hRange(hVal(10+i*4), hVal(11+i*4)), RuleMatch: RuleNone, NextState: StateIndex(i % 100)}
		s.Transitions = append(s.Transitions, t)
	}
	base := []int{8, 512, 10 + 4*n - 10}[vPick(0, 2)]
	first := hVal(base + vPick(0, 3))
	last := hAny()
	vAssume(first <= last && int(last) < base+8)
	before := append([]Transition{}, s.Transitions...)
	err := s.AppendRange(hRange(first, last), RuleNone, hLink)
	vAssert(len(s.Transitions) < 255, "too many transitions")
	if err != nil {
		vReach("full")
		vAssert(n > 251, "the range is refused")
		return
	}
	vReach("accepted")
	hCheckSorted(&s)
	x := hAny()
	vAssume(int(x) >= base-8 && int(x) < base+16)
	next, match := hFollow(before, x)
	wnext, wmatch := hWant(next, match, first <= x && x <= last, RuleNone)
	next, match = s.Trigger(x)
	vAssert(next == wnext && match == wmatch, "an element is lost after adding a range")
}

// Errors of the linker are reported.
func vhC16_LinkerFails() {
	s := hState(vPick(0, 2))
	first, last := hAny(), hAny()
	vAssume(first <= last && last < hTop)
	calls, fail := 0, vPick(0, 2)
	broken := errors.New("broken")
	err := s.AppendRange(hRange(first, last), RuleNone, func(ref StateIndex, n int) (StateIndex, error) {
		calls++
		if calls > fail {
			return StateNone, broken
		}
		return hLink(ref, n)
	})
	vAssert((err == broken) == (calls > fail), "an error is lost")
}
