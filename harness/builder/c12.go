package builder

import (
	"bytes"

	"github.com/tinne26/ggfnt"
)

// hCacheModel is a font with settings, switches and conditions, and a model of
// its settings cache.
type hCacheModel struct {
	f          *ggfnt.Font
	settings   int
	switches   [][]byte // the settings of each
	conditions int      // each of them on one setting
	values     []uint8
	hasCase    []bool
	cases      []uint8
	hasCond    []bool
	conds      []bool
	kept       bool // nothing was ever set since anything was cached
}

func hCacheOf(settings int, switches [][]byte, conditions int) *hCacheModel {
	s := hEmpty(2)
	options := make([]int, settings)
	for i := range options {
		options[i] = 3
	}
	s.settings = hSettingsOf(options...)
	if len(switches) > 0 {
		s.switches = hTable(1, 2, switches)
	}
	if conditions > 0 {
		var items [][]byte
		for i := 0; i < conditions; i++ {
			items = append(items, []byte{3<<5 | byte(i%3), byte(i % settings)})
		}
		s.conds = hTable(1, 2, items)
	}
	f, err := hParse(s.bytes())
	vAssert(err == nil, "a font with settings, switches and conditions is refused")
	return &hCacheModel{
		f: f, settings: settings, switches: switches, conditions: conditions,
		values: make([]uint8, settings), hasCase: make([]bool, len(switches)), cases: make([]uint8, len(switches)),
		hasCond: make([]bool, conditions), conds: make([]bool, conditions), kept: true,
	}
}

// set changes a setting: nothing that depends on it may be served afterwards.
func (h *hCacheModel) set(c *ggfnt.SettingsCache, key, value uint8) {
	m, r := c.Set(ggfnt.SettingKey(key), value)
	h.kept = false
	changed := vB2I(h.values[key] != value)
	h.values[key] = value
	uses := uint64(0)
	for i, sw := range h.switches {
		u := uint64(0)
		for _, s := range sw {
			u |= vB2I(s == key)
		}
		uses |= u
		h.hasCase[i] = vB2I(h.hasCase[i])&^(u&changed) == 1
	}
	vAssert(vB2I(m)|(uses^1) == 1, "a setting that a switch uses is said not to affect mappings")
	uses = 0
	for i := range h.hasCond {
		u := vB2I(uint8(i%h.settings) == key)
		uses |= u
		h.hasCond[i] = vB2I(h.hasCond[i])&^(u&changed) == 1
	}
	vAssert(vB2I(r)|(uses^1) == 1, "a setting that a condition uses is said not to affect rewrites")
}

// check compares everything that the cache serves: one setting, one case and
// one condition, each of them any.
func (h *hCacheModel) check(c *ggfnt.SettingsCache) {
	key := uint8(vInt(0, h.settings-1))
	vAssert(c.Get(ggfnt.SettingKey(key)) == h.values[key], "wrong setting")
	if len(h.switches) > 0 {
		sw := uint8(vInt(0, len(h.switches)-1))
		v, ok := c.GetMappingCase(sw)
		good := vB2I(h.hasCase[sw]) & vB2I(h.cases[sw] == v)
		vAssert(vB2I(ok)&^good == 0, "a stale case is served")
		if h.kept {
			vAssert(ok == h.hasCase[sw], "a case that was just cached is not served")
		}
	}
	if h.conditions > 0 {
		k := uint8(vInt(0, h.conditions-1))
		b, ok := c.GetRewriteCondition(k)
		good := vB2I(h.hasCond[k]) & vB2I(h.conds[k] == b)
		vAssert(vB2I(ok)&^good == 0, "a stale condition is served")
		if h.kept {
			vAssert(ok == h.hasCond[k], "a condition that was just cached is not served")
		}
	}
}

func (h *hCacheModel) op(c *ggfnt.SettingsCache, kind int) {
	switch kind {
	case 0:
		vReach("set")
		h.set(c, uint8(vInt(0, h.settings-1)), vU8())
	case 1:
		vReach("case")
		sw, v := uint8(vInt(0, len(h.switches)-1)), vU8()
		c.CacheMappingCase(sw, v)
		h.hasCase[sw], h.cases[sw] = true, v
	case 2:
		vReach("condition")
		k, b := uint8(vInt(0, h.conditions-1)), vBool()
		c.CacheRewriteCondition(k, b)
		h.hasCond[k], h.conds[k] = true, b
	}
}

// hSwitches makes switches on one to three different settings each.
func hSwitches(n, settings int) [][]byte {
	var r [][]byte
	for i := 0; i < n; i++ {
		sw := []byte{byte(i % settings)}
		for k := 1; k <= i%3; k++ {
			if s := byte((i + k*(1+i%2)) % settings); !bytes.Contains(sw, []byte{s}) {
				sw = append(sw, s)
			}
		}
		r = append(r, sw)
	}
	return r
}

// Any history of 4 (6 thorough) operations (changes of settings, and cases and
// conditions being cached), each of them on any index and with any value, in
// fonts with 1 to 18 settings, switches and conditions.
//
//verif:reach set case condition
func vhC12_History() {
	n := []int{1, 3, 8, 9, 18}[vPick(0, 4)]
	h := hCacheOf(n, hSwitches(n, n), n)
	c := ggfnt.NewSettingsCache(h.f)
	h.check(c)
	for i := 0; i < vBound(4, 6); i++ {
		h.op(c, vPick(0, 2))
	}
	h.check(c)
}

// The same for different numbers of settings, switches and conditions, among
// them none of some: 4 (5 thorough) operations.
//
//verif:reach set case condition
func vhC12_Mixed() {
	combos := [][]int{{1, 20, 0}, {20, 1, 3}, {2, 0, 17}, {9, 16, 8}, {17, 8, 16}, {16, 17, 9}}
	k := combos[vPick(0, len(combos)-1)]
	h := hCacheOf(k[0], hSwitches(k[1], k[0]), k[2])
	c := ggfnt.NewSettingsCache(h.f)
	var kinds []int
	for i, n := range k {
		if n > 0 {
			kinds = append(kinds, i)
		}
	}
	for i := 0; i < vBound(4, 5); i++ {
		h.op(c, kinds[vPick(0, len(kinds)-1)])
		h.check(c)
	}
}

// The greatest numbers: 255 settings, 254 switches and 255 conditions; and the
// constants that stand for no switch and no condition.
//
//verif:reach set case condition
func vhC12_Greatest() {
	h := hCacheOf(255, hSwitches(254, 255), 255)
	c := ggfnt.NewSettingsCache(h.f)
	h.op(c, vPick(1, 2))
	h.check(c)
	h.op(c, 0)
	h.check(c)
	for _, sw := range []uint8{254, 255} {
		v, ok := c.GetMappingCase(sw)
		vAssert(ok && v == 0, "wrong case without a switch")
	}
	b, ok := c.GetRewriteCondition(255)
	vAssert(ok && b, "wrong outcome of the empty condition")
}

// Lookups through a cache while settings change, against what was mapped: 2 (3
// thorough) changes of any setting to any option, with a lookup before, between
// and after.
//
//verif:reach compared
func vhC12_Lookups() {
	vMapOrder(1)
	m := hNewMapFont(6, 2, 3, 2)
	s0, s1, s2 := m.addSwitch(0), m.addSwitch(1, 2), m.addSwitch(2, 0)
	m.cased('a', s0, []int{0}, [][]int{{0}, {1, 2}}, []uint8{1, 2})
	m.cased('b', s1, []int{1, 2}, [][]int{{3}, {4}, {0, 5}, {2}, {1}, {4, 5}}, []uint8{1, 2, 3, 1, 2, 3})
	m.cased('c', s2, []int{2, 0}, [][]int{{5}, {4, 0}, {3}, {2}}, []uint8{1, 2, 3, 1})
	f := hBuild(m.b)
	c := ggfnt.NewSettingsCache(f)
	values := []uint8{0, 0, 0}
	for i := 0; ; i++ {
		r := rune(vPick('a', 'c'))
		g, ok := f.Mapping().Utf8WithCache(r, c)
		vAssert(ok, "a mapped code point is not found")
		hCheckGroup(g, m.maps[r], m.caseOf(m.maps[r], values))
		vReach("compared")
		if i == vBound(2, 3) {
			return
		}
		s := vPick(0, 2)
		v := vU8()
		vAssume(int(v) < m.options[s])
		c.Set(ggfnt.SettingKey(s), v)
		values = append([]uint8{}, values...)
		values[s] = v
	}
}
