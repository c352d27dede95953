package rerules

import "github.com/tinne26/ggfnt"

// hTester is any of the two testers, over uint32 elements.
type hTester interface {
	add(r *hRule) error
	remove(r *hRule) bool
	removeAll()
	numRules() int
	begin(f *ggfnt.Font, s *ggfnt.SettingsCache) error
	refresh(f *ggfnt.Font, s *ggfnt.SettingsCache)
	resync(f *ggfnt.Font, s *ggfnt.SettingsCache) error
	feed(v uint32, out *[]uint32) error
	brk(out *[]uint32)
	finish(out *[]uint32)
	pending() int
	operating() bool
}

// hSet is a set of elements: ranges, and single elements (first == last).
type hSet []hSpan

type hSpan struct{ first, last uint32 }

// hSetup is what the rules of a test refer to.
type hSetup struct {
	size  int          // of an element in bytes
	vals  [4]uint32    // a to d, ascending
	outs  [3]uint32    // x to z
	sets  map[byte]int // indices by name
	spans []hSet       // by index
	font  *ggfnt.Font  // with the sets
	cache *ggfnt.SettingsCache
	on    [2]bool // conditions
}

// hMakeSetup makes a font with these sets: A = {a}, B = {a, b}, C = [a, c],
// D = {b, d}, E = {c, d, a}, F = [b, c] and {d}.
// Values are those given or, otherwise, any, though ranges span less than 256.
func hMakeSetup(size int, val func() uint32, vals ...uint32) *hSetup {
	s := &hSetup{size: size, sets: map[byte]int{}}
	for i := range s.vals {
		if len(vals) > 0 {
			s.vals[i] = vals[i]
			continue
		}
		s.vals[i] = val()
		if i > 0 {
			vAssume(s.vals[i-1] < s.vals[i])
		}
	}
	for i := range s.outs {
		s.outs[i] = val()
	}
	v := s.vals
	vAssume(v[2]-v[0] < 256)
	for _, x := range []struct {
		name byte
		set  hSet
	}{
		{'A', hSet{{v[0], v[0]}}},
		{'B', hSet{{v[0], v[0]}, {v[1], v[1]}}},
		{'C', hSet{{v[0], v[2]}}},
		{'D', hSet{{v[1], v[1]}, {v[3], v[3]}}},
		{'E', hSet{{v[2], v[2]}, {v[3], v[3]}, {v[0], v[0]}}},
		{'F', hSet{{v[1], v[2]}, {v[3], v[3]}}},
	} {
		s.sets[x.name] = len(s.spans)
		s.spans = append(s.spans, x.set)
	}
	return s
}

// makeFont makes the font with the sets and two conditions: the first setting
// being 1, and the second one being 1.
func (s *hSetup) makeFont() {
	var items [][]byte
	for i, set := range s.spans {
		var ranges, list []byte
		nr, nl := 0, 0
		for _, x := range set {
			if i == s.sets['C'] || i == s.sets['F'] && nr == 0 {
				nr++
				ranges = append(hLE4(ranges, x.first, s.size), byte(x.last-x.first))
			} else {
				nl++
				list = hLE4(list, x.first, s.size)
			}
		}
		item := append([]byte{byte(nr)}, ranges...)
		item = append(item, byte(nl))
		items = append(items, append(item, list...))
	}
	sec := hEmpty(1)
	sec.settings = hSettingsOf(2, 2)
	sec.conds = hTable(1, 2, [][]byte{{0x61, 0}, {0x50, 1, 1}})
	if s.size == 2 {
		sec.gsets = hTable(1, 2, items)
	} else {
		sec.usets = hTable(1, 2, items)
	}
	f, err := hParse(sec.bytes())
	vAssert(err == nil, "a valid font is refused")
	s.font = f
	s.cache = ggfnt.NewSettingsCache(f)
}

// setOn chooses which conditions hold.
func (s *hSetup) setOn(a, b bool) {
	s.on = [2]bool{a, b}
	for i, x := range s.on {
		v := uint8(0)
		if x {
			v = 1
		}
		s.cache.Set(ggfnt.SettingKey(i), v)
	}
}

func hLE4(out []byte, v uint32, size int) []byte {
	for i := 0; i < size; i++ {
		out = append(out, byte(v))
		v >>= 8
	}
	return out
}

// rules parses rules like "a/bC/d>x" (head, body and tail; x to z are outputs)
// after an optional condition like "0:".
func (s *hSetup) rules(text string) []*hRule {
	var rules []*hRule
	r := &hRule{cond: 255}
	part := 0
	for i := 0; i <= len(text); i++ {
		c := byte(' ')
		if i < len(text) {
			c = text[i]
		}
		switch {
		case c == ' ':
			if part == 3 {
				rules = append(rules, r)
			}
			r, part = &hRule{cond: 255}, 0
		case c == '/' || c == '>':
			part++
		case c == ':':
		case c >= '0' && c <= '1':
			r.cond = c - '0'
		case c >= 'x':
			r.out = append(r.out, s.outs[c-'x'])
		default:
			r.lens[part]++
			r.names = append(r.names, c)
			if c >= 'a' {
				r.in = append(r.in, hElem{false, s.vals[c-'a']})
			} else {
				r.in = append(r.in, hElem{true, uint32(s.sets[c])})
			}
		}
	}
	return rules
}

// encode writes a rule.
func (r *hRule) encode(size int) []byte {
	data := []byte{r.cond, r.lens[0], r.lens[1], r.lens[2], byte(len(r.out))}
	for _, x := range r.out {
		data = hLE4(data, x, size)
	}
	k := 0
	for _, l := range r.lens {
		end := k + int(l)
		for first := true; first || k < end; first = false {
			sets, elems, i := 0, 0, k
			for ; i < end && r.in[i].set && sets < 15; i++ {
				sets++
			}
			for ; i < end && !r.in[i].set && elems < 15; i++ {
				elems++
			}
			data = append(data, byte(sets<<4|elems))
			for ; k < i; k++ {
				if r.in[k].set {
					data = append(data, byte(r.in[k].v))
				} else {
					data = hLE4(data, r.in[k].v, size)
				}
			}
		}
	}
	return data
}

func (s *hSetup) has(e hElem, x uint32) bool {
	if !e.set {
		return e.v == x
	}
	ok := uint64(0)
	for _, p := range s.spans[e.v] {
		ok |= vB2I(p.first <= x) & vB2I(x <= p.last)
	}
	return ok == 1
}

// hMemo remembers which letters match at each position.
type hMemo [][128]int8

func (s *hSetup) matches(memo hMemo, r *hRule, in []uint32) bool {
	memo = memo[len(memo)-len(in):]
	for i, e := range r.in {
		c := r.names[i]
		if memo[i][c] == 0 {
			memo[i][c] = -1
			if s.has(e, in[i]) {
				memo[i][c] = 1
			}
		}
		if memo[i][c] < 0 {
			return false
		}
	}
	return true
}

// want is the reference: what rewriting the sequence must give.
func (s *hSetup) want(rules []*hRule, in []uint32) []uint32 {
	var out []uint32
	memo := make(hMemo, len(in))
	emitted := 0 // elements at the start of in that are in the output already
	for len(in) > 0 {
		best := -1
		for n := len(in); n > 0 && best < 0; n-- {
			// only the first rule of each condition that matches this many
			// elements is considered
			var done [3]bool
			for i, r := range rules {
				c := 2
				if r.cond != 255 {
					c = int(r.cond)
					if !s.on[c] {
						continue
					}
				}
				if len(r.in) != n || done[c] || !s.matches(memo, r, in) {
					continue
				}
				done[c] = true
				if int(r.lens[0]) >= emitted && best < 0 {
					best = i
				}
			}
		}
		if best < 0 {
			if emitted > 0 {
				emitted--
			} else {
				out = append(out, in[0])
			}
			in = in[1:]
			continue
		}
		r := rules[best]
		head, body := int(r.lens[0]), int(r.lens[1])
		out = append(out, in[emitted:head]...)
		out = append(out, r.out...)
		out = append(out, in[head+body:len(r.in)]...)
		in = in[head+body:]
		emitted = int(r.lens[2])
	}
	return out
}

func hCompare(got, want []uint32) {
	vAssert(len(got) == len(want), "elements lost or added")
	ok := uint64(1)
	for i := range got {
		ok &= vB2I(got[i] == want[i])
	}
	vAssert(ok == 1, "wrong rewriting")
}

// run rewrites a sequence and compares.
func (s *hSetup) run(t hTester, rules []*hRule, in []uint32) {
	var out []uint32
	err := t.begin(s.font, s.cache)
	vAssert(err == nil, "valid rules are refused")
	for _, x := range in {
		vAssert(t.feed(x, &out) == nil, "a valid element is refused")
		vAssert(t.operating(), "not operating")
	}
	t.finish(&out)
	vAssert(!t.operating() && t.pending() == 0, "operating after the end")
	want := s.want(rules, in)
	if len(want) != len(in) {
		vReach("shorter")
	}
	hCompare(out, want)
}

func hSeq(n int, val func() uint32) []uint32 {
	in := make([]uint32, n)
	for i := range in {
		in[i] = val()
	}
	return in
}

func hAddAll(t hTester, rules []*hRule) {
	for i, r := range rules {
		vAssert(t.add(r) == nil, "a valid rule is refused")
		vAssert(t.numRules() == i+1, "wrong number of rules")
	}
}

// Rules that overlap.
var hOverlaps = []string{
	"", "/a/>x", "/ab/>x", "/ab/>x /abc/>y", "/ab/>x /ba/>y /b/>z",
	"/abc/>x /b/>y", "a/b/>x", "a/b/c>x", "/a/b>x /b/>y", "/a/b>x b/c/>y", "/a/bc>x bc/d/>y b/c/>z",
	"/a/a>x a/a/>y", "/a/aa>x", "a/a/a>x", "a/a/>x /aa/>y", "/aa/a>x a/aa/>yz",
	"/a/b>x /ab/>y", "/ab/>x /a/b>y", "a/b/>x /ab/>y", "/ab/>y a/b/>x", "aa/b/>x a/b/>y /b/>z",
	"/abab/>x /ab/a>y", "/aab/>x /a/a>y", "/a/ab>x ab/a/>y", "b/a/b>x ab/a/>y",
	"a/bb/>xy /b/>z", "/abcd/>x /bc/>y /c/>z",
}

// Rules with sets that overlap.
var hSetRules = []string{
	"/A/>x", "/BC/>x", "B/C/>x /a/>y", "/B/D>x D/C/>y", "/C/>x /Ba/>y", "/Ca/>x /bB/>y /bE/>z",
	"/aF/>x /Cb/>y", "A/B/C>x /D/>y", "C/b/>x /Bd/>y", "/E/D>x D/E/>y /d/>z", "/CC/>x /Fa/>y", "/Fa/>x /CB/>y /BF/>z",
	"/ECa/>x /Da/>y", "F/C/F>x", "/C/C>x C/F/>y", "/CaB/>x /aC/>y",
}

// pickRule makes any rule of up to n elements of two letters or, thorough, a
// set.
func (s *hSetup) pickRule(n, out int) *hRule {
	total := vPick(1, n)
	body := vPick(1, total)
	head := vPick(0, total-body)
	r := &hRule{cond: 255, lens: [3]uint8{uint8(head), uint8(body), uint8(total - body - head)}, out: s.outs[out : out+1]}
	for i := 0; i < total; i++ {
		k := 0
		if i+out > 0 { // by symmetry
			k = vPick(0, vBound(1, 2))
		}
		switch k {
		case 0:
			r.in, r.names = append(r.in, hElem{false, s.vals[0]}), append(r.names, 'a')
		case 1:
			r.in, r.names = append(r.in, hElem{false, s.vals[1]}), append(r.names, 'b')
		default:
			r.in, r.names = append(r.in, hElem{true, uint32(s.sets['B'])}), append(r.names, 'B')
		}
	}
	return r
}

// edits adds rules of several conditions and removes them again, in any order,
// and compares after each step or only at the end.
func (s *hSetup) edits(t hTester) {
	pool := s.rules("0:/a/>x 1:/b/>y /c/>z 1:/ab/>z 0:C/d/>x")
	s.setOn(true, true)
	mode := vPick(0, 2)
	a, b, c, d := s.vals[0], s.vals[1], s.vals[2], s.vals[3]
	in := []uint32{a, b, c, d, b, d, a}
	used := make([]bool, len(pool))
	var rules []*hRule
	for i := vBound(4, 5); i > 0; i-- {
		k := vPick(0, len(pool)-1)
		if used[k] {
			vAssert(t.remove(pool[k]), "a rule is not found")
			var left []*hRule
			for _, r := range rules {
				if r != pool[k] {
					left = append(left, r)
				}
			}
			rules = left
		} else {
			vAssert(t.add(pool[k]) == nil, "a valid rule is refused")
			rules = append(rules, pool[k])
		}
		used[k] = !used[k]
		vAssert(t.numRules() == len(rules), "wrong number of rules")
		if mode == 2 {
			s.setOn(i&1 != 0, i&2 == 0)
			t.refresh(s.font, s.cache)
		}
		if mode > 0 {
			s.run(t, rules, in)
		}
	}
	if mode < vBound(1, 3) {
		in[0] = s.vals[vInt(0, 3)]
	}
	s.run(t, rules, in)
}
