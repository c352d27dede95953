package builder

import "github.com/tinne26/ggfnt"

// hCached is a model of the mapping cache: what it holds, the least recently
// used one first.
type hCached struct {
	size    int
	drops   int
	entries []hCachedEntry
}

type hCachedEntry struct {
	c     rune
	drops int
	k     int // the case
}

// hCacheFont has four mapped code points: 'a' by one switch, 'b' by another,
// 'c' to a group and 'd' directly.
func hCacheFont() *hMapFont {
	m := hNewMapFont(6, 2, 2)
	s0, s1 := m.addSwitch(0), m.addSwitch(1, 0)
	m.cased('a', s0, []int{0}, [][]int{{0}, {1, 2}}, []uint8{1, 2})
	m.cased('b', s1, []int{1, 0}, [][]int{{3}, {4}, {0, 5}, {2}}, []uint8{1, 2, 3, 1})
	m.group('c', 2, 4, 1)
	m.single('d', 5)
	return m
}

// get compares one lookup with the model, given the settings.
func (h *hCached) get(m *hMapFont, cache *ggfnt.MappingCache, sc *ggfnt.SettingsCache, c rune, values []uint8) {
	g, ok := cache.Get(c, sc)
	var x *hMapped
	for _, r := range m.order {
		if r == c {
			x = m.maps[r]
		}
	}
	vAssert(ok == (x != nil), "wrong outcome of a cached lookup")
	if x == nil {
		vReach("not-found")
		return
	}
	k := m.caseOf(x, values)
	at := -1
	for i, e := range h.entries {
		if e.c == c {
			at = i
		}
	}
	if at < 0 {
		vReach("miss")
		if len(h.entries) == h.size {
			vReach("evicted")
			h.entries = h.entries[1:]
		}
	} else {
		if h.entries[at].drops == h.drops {
			k = h.entries[at].k
		}
		vReach("hit")
		h.entries = append(append([]hCachedEntry{}, h.entries[:at]...), h.entries[at+1:]...)
	}
	h.entries = append(append([]hCachedEntry{}, h.entries...), hCachedEntry{c, h.drops, k})
	hCheckGroup(g, x, k)
}

// hPickRune makes one of 'a' to 'e' (which is not mapped).
func hPickRune() rune {
	return rune(vPick('a', 'e'))
}

// Caches of 1 to 3 entries, empty or full, and then any history of 4 (6
// thorough) operations: lookups of four mapped code points and an unmapped one,
// and changes of settings to any values, each followed by a drop as documented.
//
//verif:reach not-found miss evicted hit
func vhC11_Agree() {
	vMapOrder(1)
	m := hCacheFont()
	f := hBuild(m.b)
	size := vPick(1, 3)
	sc := ggfnt.NewSettingsCache(f)
	cache := ggfnt.NewMappingCache(f, size)
	h := &hCached{size: size}
	values := []uint8{0, 0}
	if vPick(0, 1) == 1 {
		for i := 0; i < size; i++ {
			h.get(m, cache, sc, rune('a'+i), values)
		}
	}
	for i := 0; i < vBound(3, 5); i++ {
		if op := vPick(0, 5); op < 5 {
			h.get(m, cache, sc, rune('a'+op), values)
			continue
		}
		s := vPick(0, 1)
		v := vU8()
		vAssume(v < 2)
		values = append([]uint8{}, values...)
		values[s] = v
		affected, _ := sc.Set(ggfnt.SettingKey(s), v)
		vAssert(affected, "a setting that a switch uses is said not to affect mappings")
		cache.Drop()
		h.drops++
	}
	h.get(m, cache, sc, hPickRune(), values)
}

// Caches of 1 to 4 entries, any sequence of 5 (7 thorough) lookups, maybe with
// a drop in between, and then what is retained: settings are changed without
// the drop that should follow, so that what is still cached shows. All the
// most recently used code points are, and no others.
//
//verif:reach miss evicted hit
func vhC11_Retained() {
	vMapOrder(1)
	m := hCacheFont()
	f := hBuild(m.b)
	size := vPick(1, 4)
	sc := ggfnt.NewSettingsCache(f)
	cache := ggfnt.NewMappingCache(f, size)
	h := &hCached{size: size}
	values := []uint8{0, 0}
	for i := 0; i < vBound(4, 6); i++ {
		h.get(m, cache, sc, rune(vPick('a', 'd')), values)
	}
	values = []uint8{1, 1}
	sc.Set(0, 1)
	sc.Set(1, 1)
	first := vPick(0, 3)
	for i := 0; i < 4; i++ {
		h.get(m, cache, sc, rune('a'+(first+i)%4), values)
	}
}

// A reset of a cache of 1 to 3 entries that is full and after any further lookup
// (any 2 thorough), to the same font or another one, in which the same code
// points are mapped to other glyphs; and then any 3 (4 thorough) lookups.
//
//verif:reach miss evicted hit
func vhC11_Reset() {
	vMapOrder(1)
	m := hCacheFont()
	f := hBuild(m.b)
	other := hNewMapFont(4, 2, 2)
	other.cased('a', other.addSwitch(1), []int{1}, [][]int{{3}, {2, 0}}, []uint8{3, 2})
	other.group('b', 1, 2, 3)
	other.single('e', 1)
	f2 := hBuild(other.b)
	size := vPick(1, 3)
	cache := ggfnt.NewMappingCache(f, size)
	h := &hCached{size: size}
	sc := ggfnt.NewSettingsCache(f)
	values := []uint8{0, 0}
	for i := 0; i < size; i++ {
		h.get(m, cache, sc, rune('a'+i), values)
	}
	for i := 0; i < vBound(1, 2); i++ {
		h.get(m, cache, sc, hPickRune(), values)
	}
	if vPick(0, 1) == 1 {
		m, f = other, f2
	}
	sc = ggfnt.NewSettingsCache(f)
	cache.Reset(f)
	h = &hCached{size: size}
	values = []uint8{vU8() & 1, vU8() & 1}
	sc.Set(0, values[0])
	sc.Set(1, values[1])
	for i := 0; i < vBound(3, 4); i++ {
		h.get(m, cache, sc, hPickRune(), values)
	}
}

// Caches of 5 to 8 entries on a font with 12 code points: all are looked up in
// order, in 2 (3 thorough) rounds of different strides, and what is retained shows.
//
//verif:reach miss evicted hit
func vhC11_Large() {
	vMapOrder(1)
	m := hNewMapFont(2, 2)
	sw := m.addSwitch(0)
	for i := 0; i < 12; i++ {
		m.cased(rune('a'+i), sw, []int{0}, [][]int{{0}, {1}}, []uint8{0, 0})
	}
	f := hBuild(m.b)
	size := vPick(5, 8)
	sc := ggfnt.NewSettingsCache(f)
	cache := ggfnt.NewMappingCache(f, size)
	h := &hCached{size: size}
	v := uint8(0)
	for round := 0; round < vBound(2, 3); round++ {
		stride := []int{1, 5, 7, 11}[vPick(0, 3)]
		n := vPick(7, 12)
		for i := 0; i < n; i++ {
			h.get(m, cache, sc, rune('a'+i*stride%12), []uint8{v})
		}
		v ^= 1
		sc.Set(0, v)
	}
}

// Caches of 255 to 257, 300, 33000 and 65000 entries: more code points than fit
// are looked up in order, two of those that are retained are looked up again,
// and three more are looked up; five have any glyph. All are then taken out of the mapping table, so
// that what is still cached shows: exactly the most recently used code points.
//
//verif:steps 1000000000
//verif:reach retained evicted
func vhC11_Huge() {
	vMapOrder(1)
	size := []int{255, 256, 257, 300, 33000, 65000}[vPick(0, 5)]
	extra := 260
	n := size + extra
	data := make([]byte, 0, 2+n*10+1)
	data = hLE(data, n, 2)
	for k := 0; k < n; k++ {
		data = hLE(data, k*3, 4)
	}
	for k := 0; k < n; k++ {
		data = hLE(data, 3*k+3, 3)
	}
	for k := 0; k < n; k++ {
		data = append(data, 255, byte(k), byte(k>>8))
	}
	zero := len(data)
	data = append(data, 0)
	f := &ggfnt.Font{Data: data}
	for _, p := range []*uint32{&f.OffsetToSettingNames, &f.OffsetToMappingSwitches, &f.OffsetToRewriteConditions} {
		*p = uint32(zero)
	}
	sc := ggfnt.NewSettingsCache(f)
	cache := ggfnt.NewMappingCache(f, size)
	mid := n - size/2
	some := []int{0, 1, extra - 3, mid, n - 2}
	glyphs := map[int]int{}
	for _, i := range some {
		x := vU16()
		glyphs[i] = int(x)
		data[2+n*7+i*3+1], data[2+n*7+i*3+2] = byte(x), byte(x>>8)
	}
	glyph := func(i int) int {
		if x, ok := glyphs[i]; ok {
			return x
		}
		return i
	}
	look := func(i int) (int, bool) {
		g, ok := cache.Get(rune(i*3), sc)
		if !ok {
			return 0, false
		}
		vAssert(g.Size() == 1, "wrong group size")
		return int(g.Select(0)), true
	}
	for i := 0; i < n-3; i++ {
		x, ok := look(i)
		vAssert(ok && x == glyph(i), "wrong glyph before it is cached")
	}
	// retained now: extra-3 to n-4
	x, ok := look(extra - 3)
	vAssert(ok && x == glyph(extra-3), "wrong glyph of the oldest entry")
	x, ok = look(mid)
	vAssert(ok && x == glyph(mid), "wrong glyph of an entry in the middle")
	for i := n - 3; i < n; i++ {
		x, ok := look(i)
		vAssert(ok && x == glyph(i), "wrong glyph before it is cached")
	}
	data[0], data[1] = 0, 0
	_, ok = look(n)
	vAssert(!ok, "found a code point that was never mapped")
	for i := 0; i < n; i++ {
		if size > 1000 && i > extra+10 && i < n-300 && i != mid && i%127 != 0 {
			continue
		}
		x, ok := look(i)
		if i == extra-3 || i == mid || i >= extra+1 {
			vReach("retained")
			vAssert(ok, "lost a cached entry")
			vAssert(x == glyph(i), "wrong cached glyph")
		} else {
			vReach("evicted")
			vAssert(!ok, "an entry was retained that is not among the most recently used")
		}
	}
}
