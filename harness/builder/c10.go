package builder

import "github.com/tinne26/ggfnt"

// Up to 2 (3 thorough) code points of any values, mapped to single glyphs,
// maybe twice, and a lookup of any value.
//
//verif:reach found not-found
func vhC10_Direct() {
	vMapOrder(1)
	m := hNewMapFont(4)
	n := vPick(0, vBound(2, 3))
	for i := 0; i < n; i++ {
		c := rune(vU32())
		g := vPick(0, 3)
		if c < ' ' {
			vAssert(m.b.Map(c, m.u[g]) != nil, "a control code is mapped")
			continue
		}
		if i == 1 && vPick(0, 1) == 1 {
			m.group(c, vU8(), g, 3-g)
			continue
		}
		m.single(c, g)
	}
	f := hBuild(m.b)
	vAssert(int(f.Mapping().NumEntries()) == len(m.order), "wrong number of entries")
	m.check(f, rune(vU32()), nil)
}

// Groups of up to 4 (5 thorough) glyphs in any order, or of up to 127, among
// other mappings.
//
//verif:reach found
func vhC10_Groups() {
	vMapOrder(1)
	long := vPick(0, 2)
	if long > 0 {
		n := []int{126, 127}[long-1]
		m := hNewMapFont(130)
		m.single('a', 1)
		var group []int
		gap := vPick(0, 2)
		for i := 0; i < n; i++ {
			group = append(group, i)
			if gap == 1 && i > 100 || gap == 2 {
				group[i] = i * (gap + 1) % 130
			}
		}
		m.group('b', vU8(), group...)
		m.group('c', vU8(), 2, 3)
		vAssert(m.b.MapGroup('d', 0, m.u[:128]...) != nil, "a group of 128 glyphs is accepted")
		f := hBuild(m.b)
		m.check(f, 'b', nil)
		m.check(f, 'c', nil)
		return
	}
	m := hNewMapFont(4)
	m.single('a', 1)
	n := vPick(2, vBound(4, 5))
	var group []int
	for i := 0; i < n; i++ {
		group = append(group, vPick(0, 3))
	}
	m.group('b', vU8(), group...)
	m.group('c', vU8(), 2, 3)
	vAssert(m.b.MapGroup('d', 0, m.u[0]) != nil, "a group of one glyph is accepted")
	vAssert(m.b.MapGroup('d', 0, m.u[0], 12345) != nil, "a glyph that does not exist is accepted")
	f := hBuild(m.b)
	for _, c := range []rune("abcd") {
		m.check(f, c, nil)
	}
}

// hGroups makes groups of several kinds: single glyphs, ranges and lists.
func hGroups(n, seed int) [][]int {
	kinds := [][]int{{0}, {1, 2}, {3, 1}, {2}, {1, 2, 3}, {3}, {0, 2, 1}, {2, 3}}
	var r [][]int
	for i := 0; i < n; i++ {
		r = append(r, kinds[(i*(1+seed)+seed)%len(kinds)])
	}
	return r
}

// Switches over up to 3 settings of up to 3 options, with groups of all kinds,
// among other mappings, under any settings.
//
//verif:reach found
func vhC10_Switches() {
	vMapOrder(1)
	all := [][]int{{2, 3, 2}, {3, 1, 2}, {3, 3, 3}, {1, 1, 2}}
	m := hNewMapFont(4, all[vPick(0, vBound(1, 3))]...)
	lists := [][]int{{0}, {1}, {1, 0}, {0, 2}, {2, 0, 1}, {0, 1, 2}, {2}, {2, 1}}
	a := lists[vPick(0, vBound(5, 7))]
	s0, s1 := m.addSwitch(a...), m.addSwitch(1, 2)
	seed := vPick(0, vBound(1, 3))
	flags := vBytes(27)
	m.single('a', 2)
	m.cased('b', s0, a, hGroups(m.cases(a), seed), flags)
	m.group('c', 7, 1, 2)
	m.cased('d', s1, []int{1, 2}, hGroups(m.cases([]int{1, 2}), 3-seed), flags)
	// again, by singles
	var singles []uint64
	var groups [][]int
	for i := 0; i < m.cases(a); i++ {
		singles = append(singles, m.u[(i+seed)%4])
		groups = append(groups, []int{(i + seed) % 4})
	}
	vAssert(m.b.MapWithSwitchSingles('e', s0, singles...) == nil, "a valid mapping is refused")
	m.put('e', &hMapped{settings: a, groups: groups, flags: make([]uint8, len(groups))})
	vAssert(m.b.MapWithSwitchSingles('f', s0, singles[1:]...) != nil, "a mapping with missing cases is accepted")
	vAssert(m.b.MapWithSwitchSingles('f', s1+1, singles...) != nil, "an unknown switch is accepted")
	f := hBuild(m.b)
	vAssert(int(f.Mapping().NumSwitchTypes()) == 2, "wrong number of switches")
	m.check(f, []rune("abcdef")[vPick(0, 5)], m.values())
}

// Switches of up to 254 cases.
//
//verif:reach found
func vhC10_ManyCases() {
	vMapOrder(1)
	all := [][]int{{2, 127}, {127, 2}, {254}, {11, 23}, {15, 17, 1}, {255, 1}, {16, 16}}
	options := all[vPick(0, len(all)-1)]
	m := hNewMapFont(4, options...)
	var settings []int
	n := 1
	for i, o := range options {
		settings = append(settings, i)
		n *= o
	}
	if n > 254 {
		keys := []ggfnt.SettingKey{0, 1, 2}
		_, err := m.b.AddSwitch(keys[:len(settings)]...)
		vAssert(err != nil, "a switch of too many cases is accepted")
		return
	}
	sw := m.addSwitch(settings...)
	m.cased('b', sw, settings, hGroups(n, 1), vBytes(n))
	m.single('c', 3)
	f := hBuild(m.b)
	values := m.values()
	x := m.maps['b']
	k := m.caseOf(x, values)
	vAssume(vB2I(k < 2)|vB2I(k > n-3)|vB2I(k == n/2) == 1)
	m.check(f, 'b', values)
}

// Tables of 30 (200 thorough) entries and a lookup of any value.
//
//verif:reach found not-found
func vhC10_ManyEntries() {
	vMapOrder(1)
	m := hNewMapFont(4, 2)
	sw := m.addSwitch(0)
	n := vBound(30, 200) + vPick(0, 1)
	for i := n - 1; i >= 0; i-- {
		c := rune(' ' + i*i*(1+i%3))
		switch i % 3 {
		case 0:
			m.single(c, i/3%4)
		case 1:
			m.group(c, uint8(i), i%4, i/3%4)
		default:
			m.cased(c, sw, []int{0}, hGroups(2, i), make([]uint8, 2))
		}
	}
	f := hBuild(m.b)
	m.check(f, rune(vU32()), m.values())
}

// Tables of 255 to 257, 33000 and 65535 entries, looked up at and next to the
// positions where sizes of integers end.
//
//verif:steps 1000000000
//verif:reach found not-found
func vhC10_Huge() {
	n := []int{255, 256, 257, 33000, 65535}[vPick(0, 4)]
	data := make([]byte, 0, 2+n*11+5)
	data = hLE(data, n, 2)
	for k := 0; k < n; k++ {
		data = hLE(data, k*17, 4)
	}
	for k := 0; k < n; k++ {
		data = hLE(data, 4*k+4, 3)
	}
	for k := 0; k < n; k++ {
		data = append(data, 255, byte(k), byte(k>>8), 0)
	}
	zero := len(data)
	data = append(data, 0)
	f := &ggfnt.Font{Data: data}
	for _, p := range []*uint32{&f.OffsetToSettingNames, &f.OffsetToMappingSwitches, &f.OffsetToRewriteConditions} {
		*p = uint32(zero)
	}
	vAssert(int(f.Mapping().NumEntries()) == n, "wrong number of entries")
	m := &hMapFont{maps: map[rune]*hMapped{}}
	for _, i := range []int{0, 127, 128, 255, 256, 21845, 21846, 32767, 32768, n / 2, n - 2, n - 1} {
		if i >= n {
			continue
		}
		x := vU16()
		copy(data[2+n*7+i*4:], []byte{254, 0, byte(x), byte(x >> 8)})
		m.put(rune(i*17), &hMapped{groups: [][]int{{int(x)}}, flags: []uint8{0}})
		m.check(f, rune(i*17), nil)
		m.check(f, rune(i*17-1), nil)
		m.check(f, rune(i*17+1), nil)
		if i++; i < n && m.maps[rune(i*17)] == nil {
			m.put(rune(i*17), &hMapped{groups: [][]int{{i}}, flags: []uint8{0}})
			m.check(f, rune(i*17), nil)
		}
	}
}
