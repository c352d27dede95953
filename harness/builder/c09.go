package builder

import "github.com/tinne26/ggfnt"

// hSettings is a list of settings as given to the builder.
type hSetting struct {
	name    string
	options []string
}

func hAddSettings(b *Font, list []hSetting) {
	for i, s := range list {
		key, err := b.AddSetting(s.name, s.options...)
		vAssert(err == nil && int(key) == i, "a valid setting is refused")
	}
}

// hCheckSettings compares the settings of a font with a list.
func hCheckSettings(f *ggfnt.Font, list []hSetting) {
	s := f.Settings()
	vAssert(int(s.Count()) == len(list), "wrong number of settings")
	n := 0
	s.Each(func(key ggfnt.SettingKey, name string) {
		vAssert(n < len(list) && int(key) == n, "settings are not listed in order")
		vAssert(name == list[n].name, "wrong setting name")
		n++
	})
	vAssert(n == len(list), "not every setting is listed")
	for i := range list {
		key := ggfnt.SettingKey(i)
		vAssert(int(s.GetNumOptions(key)) == len(list[i].options), "wrong number of options")
		for j, want := range list[i].options {
			vAssert(s.GetOptionName(key, uint8(j)) == want, "wrong setting option")
		}
		vAssert(vPanics(func() { s.GetOptionName(key, uint8(len(list[i].options))) }), "an option that does not exist has a name")
	}
	vAssert(s.GetNumOptions(ggfnt.SettingKey(len(list))) == 0, "a setting that does not exist has options")
	vAssert(vPanics(func() { s.GetOptionName(ggfnt.SettingKey(len(list)), 0) }), "a setting that does not exist has options")
}

// hWord is a word of one of these kinds: custom with a symbolic end, two of
// the first predefined ones, one of the last, and one with two symbolic
// digits, which may be predefined or not.
func hWord() string {
	switch vPick(0, 4) {
	case 0:
		return "zz" + hBasic(1, 1)
	case 1:
		return ggfnt.GetPredefinedWord(0)
	case 2:
		return ggfnt.GetPredefinedWord(11)
	case 3:
		return ggfnt.GetPredefinedWord(254)
	}
	a := vU8()
	vAssume(a >= '0' && a <= '9')
	return "2" + string([]byte{a})
}

// One to two settings, together with up to 2 (3 thorough) options: custom,
// predefined and repeated words with symbolic characters.
//
//verif:nomerge
func vhC09_Words() {
	vMapOrder(1)
	b := New()
	hGlyphs(b, 1)
	total := vPick(1, vBound(2, 3))
	first := vPick(1, total)
	var list []hSetting
	list = append(list, hSetting{"s-" + hBasic(1, 1), nil})
	for i := 0; i < total; i++ {
		if i == first {
			list = append(list, hSetting{"t" + hBasic(1, 1), nil})
		}
		s := &list[len(list)-1]
		s.options = append(s.options, hWord())
	}
	hAddSettings(b, list)
	hCheckSettings(hBuild(b), list)
}

// N custom words (0 to 24, or to 90 thorough) that replace as many predefined
// ones, used together with three predefined words around the last replaced:
// one of them at any of 5 places, the others at fixed distances.
func vhC09_Overrides() {
	vMapOrder(1)
	b := New()
	hGlyphs(b, 1)
	n := vPick(0, vBound(24, 90))
	var custom []string
	for i := 0; i < n; i++ {
		custom = append(custom, "cu-"+string([]byte{'a' + byte(i%26), 'a' + byte(i/26)}))
	}
	at := vPick(max(n-2, 0), n+2)
	words := append([]string{}, ggfnt.GetPredefinedWord(uint8(at)))
	words = append(words, custom...)
	words = append(words, ggfnt.GetPredefinedWord(uint8(n+1)), ggfnt.GetPredefinedWord(uint8(n/2)))
	list := []hSetting{{"one", words}, {"two", append([]string{words[len(words)-1]}, custom...)}}
	hAddSettings(b, list)
	f := hBuild(b)
	hCheckSettings(f, list)
	// any word index from there on gives a predefined word
	i := []uint8{uint8(n), uint8(n + 1), 127, 128, 254, 255}[vPick(0, 5)]
	s := f.Settings()
	w := s.GetWord(i)
	if i >= s.NumWords() {
		vAssert(w == ggfnt.GetPredefinedWord(i), "wrong predefined word")
	}
}

// Many settings with many options (2 words, 255 options, up to 255 settings),
// and limits of both.
func vhC09_Limits() {
	b := New()
	hGlyphs(b, 1)
	n := []int{1, 127, 128, 254, 255}[vPick(0, 4)]
	var list []hSetting
	for i := 0; i < n; i++ {
		k := 1 + (i*37)%3
		if i == n-1 {
			k = 255
		}
		var opts []string
		for j := 0; j < k; j++ {
			opts = append(opts, []string{"aa-a", "bb-b", "off"}[(i+j*j)%3])
		}
		list = append(list, hSetting{"s" + string([]byte{'a' + byte(i/16), 'a' + byte(i%16)}), opts})
	}
	hAddSettings(b, list)
	if n == 255 {
		_, err := b.AddSetting("more", "on")
		vAssert(err != nil, "more than 255 settings are accepted")
	} else {
		_, err := b.AddSetting(list[0].name, "on")
		vAssert(err != nil, "two settings with the same name are accepted")
		_, err = b.AddSetting("more", append(list[n-1].options, "on")...)
		vAssert(err != nil, "more than 255 options are accepted")
		_, err = b.AddSetting("none")
		vAssert(err != nil, "a setting without options is accepted")
	}
	vMapOrder(1)
	hCheckSettings(hBuild(b), list)
}

// Any words section: up to 2 (3 thorough) words with any end offsets over 4
// (6) bytes, in a font whose only setting has one option, which is any word.
// Every word is part of the section, or its accessor panics.
//
//verif:reach word refused
func vhC09_Section() {
	vMapOrder(1)
	b := New()
	hGlyphs(b, 1)
	_, err := b.AddSetting("x", "on")
	vAssert(err == nil, "a valid setting is refused")
	data := hBuild(b).Data
	at := len(data) - 24 // before one setting with a short name, and empty sections
	vAssert(data[at] == 0, "a predefined word is stored")
	n, size := vPick(1, vBound(2, 3)), vPick(1, vBound(4, 6))
	var sec []byte
	sec = append(sec, byte(n))
	var ends []int
	for i := 0; i < n; i++ {
		e := size
		if i < n-1 {
			e = vPick(0, size+1)
		}
		if e > size {
			e = int(vU16())
			vAssume(e > size)
		}
		ends = append(ends, e)
		sec = append(sec, byte(e), byte(e>>8))
	}
	text := vBytes(size)
	sec = append(sec, text...)
	all := append(append(append([]byte{}, data[:at]...), sec...), data[at+1:]...)
	opt := vU8()
	// after the words: 1, len (2), name, len (2), the option
	all[at+len(sec)+6] = opt
	f, err := hParse(all)
	vAssert(n > size || err == nil, "well-formed settings are refused")
	if err != nil {
		vReach("refused")
		vStop()
	}
	var w string
	p := vPanics(func() { w = f.Settings().GetOptionName(0, 0) })
	if int(opt) >= n {
		vAssert(!p, "a predefined word can't be read")
		return
	}
	i := vConc(int(opt))
	start := 0
	if i > 0 {
		start = ends[i-1]
	}
	if vB2I(start < ends[i])&vB2I(ends[i] <= size) == 1 {
		vAssert(!p && w == string(text[start:ends[i]]), "wrong word")
		vReach("word")
	} else if start >= ends[i] {
		vAssert(p, "a word of a negative or zero length")
	}
}
