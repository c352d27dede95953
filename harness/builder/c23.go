package builder

import "github.com/tinne26/ggfnt"

// hName returns a name of one of several lengths with symbolic bytes, and
// whether it is a valid basic name.
func hName() (string, bool) {
	n := vPick(0, vBound(4, 7))
	var b []byte
	if n == vBound(4, 7) {
		// around the maximum length
		n = vPick(31, 34)
		b = make([]byte, n)
		for i := range b {
			b[i] = 'a'
		}
		b[0], b[n-2], b[n-1] = vU8(), vU8(), vU8()
	} else {
		b = vBytes(n)
	}
	ok := vB2I(n >= 1 && n <= 32)
	for i := 0; i < n; i++ {
		c := b[i]
		alnum := vB2I(c >= 'a')&vB2I(c <= 'z') | vB2I(c >= 'A')&vB2I(c <= 'Z') | vB2I(c >= '0')&vB2I(c <= '9')
		inner := uint64(0)
		if i > 0 && i < n-1 {
			inner = vB2I(c == '-') & vB2I(b[i-1] != '-')
		}
		ok &= alnum | inner
	}
	return string(b), ok == 1
}

// Glyph names: a name is accepted exactly when the rule holds, and a refused
// name leaves the previous one in place.
//
//verif:reach ok bad
func vhC23_GlyphName() {
	b := New()
	u := hGlyph(b, 1)
	vAssert(b.SetGlyphName(u, "old-name") == nil, "a valid glyph name is refused")
	name, want := hName()
	err := b.SetGlyphName(u, name)
	vAssert((err == nil) == want, "wrong validation of a glyph name")
	if err != nil {
		vReach("bad")
	} else {
		vReach("ok")
	}
	if err != nil {
		name = "old-name"
	}
	f := hBuild(b)
	vAssert(f.Glyphs().NamedCount() == 1, "wrong number of named glyphs")
	vAssert(f.Glyphs().FindIndexByName(name) == 0, "the name of the glyph is lost")
}

// Setting names and option words: accepted exactly when the rule holds, a
// refused setting changes nothing.
//
//verif:reach ok bad
func vhC23_Setting() {
	b := New()
	hGlyph(b, 1)
	key, err := b.AddSetting("first", "x", "y")
	vAssert(err == nil && key == 0, "a valid setting is refused")
	name, want := hName()
	which := vPick(0, 2)
	var k2 ggfnt.SettingKey
	switch which {
	case 0:
		vAssume(name != "first" && name != "third")
		k2, err = b.AddSetting(name, "u", "v")
	case 1:
		k2, err = b.AddSetting("second", name, "v")
	case 2:
		k2, err = b.AddSetting("second", "u", name)
	}
	vAssert((err == nil) == want, "wrong validation of a setting name or word")
	// the keys are the positions of the settings
	next, err2 := b.AddSetting("third", "w")
	vAssert(err2 == nil, "a valid setting is refused after another one")
	if err != nil {
		vReach("bad")
		vAssert(next == 1, "a refused setting was added")
	} else {
		vReach("ok")
		vAssert(k2 == 1 && next == 2, "an accepted setting was not added")
	}
}
