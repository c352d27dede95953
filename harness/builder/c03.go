package builder

import "github.com/tinne26/ggfnt"

// hText returns a printable ASCII text of n bytes whose first bytes and last
// byte are symbolic.
func hText(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%26)
	}
	for i := 0; i < n && i < 2; i++ {
		b[i] = hChar()
	}
	if n > 2 {
		b[n-1] = hChar()
	}
	return string(b)
}

// hLen picks one of the lengths that matter for a text of at most max bytes.
func hLen(min, max int) int {
	switch vPick(0, 4) {
	case 0:
		return min
	case 1:
		return 2
	case 2:
		return 31
	case 3:
		return max - 1
	}
	return max
}

func hDate() ggfnt.Date {
	return ggfnt.Date{Year: vU16(), Month: vU8(), Day: vU8()}
}

// All header fields at once: lengths of the name, family and author among
// {0 or 1, 2, 31, 254, 255}, of the about text among {0, 3, 255, 256, 300} (and
// 65534, 65535 thorough), printable symbolic characters at both ends, every
// version and every date; and every one of the metrics.
//
//verif:reach dates nodates
func vhC03_Header() {
	b := New()
	hGlyph(b, 1)
	// three of the four texts have usual lengths
	ln, lf, la, lb := 1, 3, 0, 3
	switch vPick(0, 3) {
	case 0:
		ln = hLen(1, 255)
	case 1:
		lf = hLen(0, 255)
	case 2:
		la = hLen(0, 255)
	case 3:
		switch vPick(0, vBound(3, 5)) {
		case 0:
			lb = 0
		case 1:
			lb = 255
		case 2:
			lb = 256
		case 3:
			lb = 300
		case 4:
			lb = 65534
		case 5:
			lb = 65535
		}
	}
	id := b.GetFontID()
	name, family, author, about := hText(ln), hText(lf), hText(la), hText(lb)
	vAssert(b.SetName(name) == nil, "a valid name is refused")
	vAssert(b.SetFamily(family) == nil, "a valid family is refused")
	vAssert(b.SetAuthor(author) == nil, "a valid author is refused")
	vAssert(b.SetAbout(about) == nil, "a valid about text is refused")
	major, minor := vU16(), vU16()
	b.SetVersion(major, minor)
	d1, d2, d3 := hDate(), hDate(), hDate()
	if d1.IsValid() && d2.IsValid() && d3.IsValid() {
		vReach("dates")
		e1, e2, e3 := b.SetFirstVerDate(d1), b.SetMajorVerDate(d2), b.SetMinorVerDate(d3)
		vAssert(e1 == nil && e2 == nil && e3 == nil, "a valid date is refused")
	} else {
		vReach("nodates")
		d1, d2, d3 = b.GetFirstVerDate(), b.GetMajorVerDate(), b.GetMinorVerDate()
	}
	m := hAnyMetrics()
	m.apply(b)
	vAssume(b.GetMetricsStatus() == nil)
	f := hBuild(b)
	h := f.Header()
	vAssert(h.FormatVersion() == ggfnt.FormatVersion, "wrong format version")
	vAssert(h.ID() == id, "wrong font ID")
	vAssert(h.VersionMajor() == major && h.VersionMinor() == minor, "wrong version")
	vAssert(h.FirstVersionDate() == d1, "wrong first version date")
	vAssert(h.MajorVersionDate() == d2, "wrong major version date")
	vAssert(h.MinorVersionDate() == d3, "wrong minor version date")
	vAssert(h.Name() == name, "wrong name")
	vAssert(h.Family() == family, "wrong family")
	vAssert(h.Author() == author, "wrong author")
	vAssert(h.About() == about, "wrong about text")
	m.check(f.Metrics())
	vAssert(f.Metrics().NumGlyphs() == 1, "wrong number of glyphs")
	m.checkBuilder(b)
	vAssert(b.GetFontID() == id && b.GetVersionMajor() == major && b.GetVersionMinor() == minor, "wrong version in the builder")
	vAssert(b.GetFirstVerDate() == d1 && b.GetMajorVerDate() == d2 && b.GetMinorVerDate() == d3, "wrong dates in the builder")
	vAssert(b.GetName() == name && b.GetFamily() == family && b.GetAuthor() == author && b.GetAbout() == about, "wrong texts in the builder")
}

// Texts that are too long, empty names, control characters and broken UTF-8
// are refused without changing anything; two- to four-byte characters are kept.
//
//verif:reach kept refused
func vhC03_Texts() {
	b := New()
	hGlyph(b, 1)
	e0, e1, e2, e3 := b.SetName("n1"), b.SetFamily("f1"), b.SetAuthor("a1"), b.SetAbout("t1")
	vAssert(e0 == nil && e1 == nil && e2 == nil && e3 == nil, "a valid text is refused")
	var s string
	ok := true
	which := vPick(0, 3)
	switch vPick(0, 3) {
	case 0:
		s, ok = "", which != 0
	case 1:
		s, ok = hText(256), which == 3
	case 2:
		s = hText(3)
		c := vU8()
		vAssume(c < ' ')
		x := []byte(s)
		x[vPick(0, 2)] = c
		s, ok = string(x), false
	case 3:
		r := rune(vU32())
		switch vPick(0, 2) {
		case 0:
			vAssume(r >= 0x80 && r < 0x800)
		case 1:
			vAssume(r >= 0x800 && r < 0xD800)
		case 2:
			vAssume(r >= 0x10000 && r < 0x10FFFF)
		}
		s = "a" + string(r) + "b"
	}
	n, f, a, t := "n1", "f1", "a1", "t1"
	var err error
	switch which {
	case 0:
		if err = b.SetName(s); ok {
			n = s
		}
	case 1:
		if err = b.SetFamily(s); ok {
			f = s
		}
	case 2:
		if err = b.SetAuthor(s); ok {
			a = s
		}
	case 3:
		if err = b.SetAbout(s); ok {
			t = s
		}
	}
	vAssert((err == nil) == ok, "wrong acceptance of a header text")
	if ok {
		vReach("kept")
	} else {
		vReach("refused")
	}
	h := hBuild(b).Header()
	vAssert(h.Name() == n && h.Family() == f && h.Author() == a && h.About() == t, "wrong header texts")
	vAssert(b.GetName() == n && b.GetFamily() == f && b.GetAuthor() == a && b.GetAbout() == t, "wrong header texts in the builder")
}

// Version raising: the other fields are kept, the minor version restarts.
func vhC03_Raise() {
	b := New()
	hGlyph(b, 1)
	major, minor := vU16(), vU16()
	b.SetVersion(major, minor)
	d := hDate()
	vAssume(d.IsValid())
	e1, e2, e3 := b.SetFirstVerDate(d), b.SetMajorVerDate(d), b.SetMinorVerDate(d)
	vAssert(e1 == nil && e2 == nil && e3 == nil, "a valid date is refused")
	if vPick(0, 1) == 0 {
		b.RaiseMajorVersion()
		major, minor = major+1, 0
	} else {
		b.RaiseMinorVersion()
		minor++
		vAssert(b.GetMajorVerDate() == d, "raising the minor version changes the major version date")
	}
	h := hBuild(b).Header()
	vAssert(h.VersionMajor() == major && h.VersionMinor() == minor, "wrong version")
	vAssert(h.FirstVersionDate() == d, "raising the version changes the first version date")
	vAssert(h.MajorVersionDate() == b.GetMajorVerDate() && h.MinorVersionDate() == b.GetMinorVerDate(), "wrong dates")
	now := h.MinorVersionDate()
	vAssert(now.IsValid(), "invalid current date")
}

// About texts of 254 to 257, 32766 to 32769 and 65533 to 65535 bytes (65536 are
// refused) between other texts of 1 or 255 bytes.
//
//verif:steps 1000000000
func vhC03_LongAbout() {
	b := New()
	hGlyph(b, 1)
	n := []int{254, 32766, 65533}[vPick(0, 2)] + vPick(0, 3)
	about := hText(n)
	x := 1 + 254*vPick(0, 1)
	name, family, author := hText(x), hText(x), hText(x)
	vAssert(b.SetName(name) == nil && b.SetFamily(family) == nil && b.SetAuthor(author) == nil, "a valid text is refused")
	vAssert(b.SetAbout("before") == nil, "a valid text is refused")
	vAssert((b.SetAbout(about) == nil) == (n < 65536), "wrong acceptance of an about text")
	if n > 65535 {
		about = "before"
	}
	m := hAnyMetrics()
	m.apply(b)
	vAssume(b.GetMetricsStatus() == nil)
	f := hBuild(b)
	h := f.Header()
	vAssert(h.Name() == name && h.Family() == family && h.Author() == author, "wrong header text")
	vAssert(h.About() == about, "wrong about text")
	m.check(f.Metrics())
}

// What the builder reports after any two changes among those of one field,
// with any values, some of which are refused: the last value accepted for every
// field, initially that of a new builder.
//
//verif:reach accepted refused
func vhC03_Changes() {
	b := New()
	m := hMetrics{
		mono: b.GetMonoWidth(), asc: b.GetAscent(), xasc: b.GetExtraAscent(), desc: b.GetDescent(),
		xdesc: b.GetExtraDescent(), upper: b.GetUppercaseAscent(), mid: b.GetMidlineAscent(),
		hinter: b.GetHorzInterspacing(), vinter: b.GetVertInterspacing(), lineGap: b.GetLineGap(),
		vertWidth: b.GetVertLineWidth(), vertGap: b.GetVertLineGap(),
	}
	major, minor := b.GetVersionMajor(), b.GetVersionMinor()
	dates := [3]ggfnt.Date{b.GetFirstVerDate(), b.GetMajorVerDate(), b.GetMinorVerDate()}
	id, texts := b.GetFontID(), [4]string{b.GetName(), b.GetFamily(), b.GetAuthor(), b.GetAbout()}
	if vPick(0, 1) == 1 {
		m.vert = true
		b.SetVertLayoutUsed(true)
	}
	for i := 0; i < vBound(2, 3); i++ {
		v := vU8()
		var err error
		ok := true
		switch op := vPick(0, 19); op {
		case 0:
			b.SetMonoWidth(v)
			m.mono = v
		case 1:
			b.SetAscent(v)
			m.asc = v
		case 2:
			b.SetExtraAscent(v)
			m.xasc = v
		case 3:
			b.SetDescent(v)
			m.desc = v
		case 4:
			b.SetExtraDescent(v)
			m.xdesc = v
		case 5:
			b.SetUppercaseAscent(v)
			m.upper = v
		case 6:
			b.SetMidlineAscent(v)
			m.mid = v
		case 7:
			b.SetHorzInterspacing(v)
			m.hinter = v
		case 8:
			b.SetVertInterspacing(v)
			m.vinter = v
		case 9:
			b.SetLineGap(v)
			m.lineGap = v
		case 10:
			err = b.SetVertLineWidth(v)
			if ok = (v != 0) == m.vert; ok {
				m.vertWidth = v
			}
		case 11:
			err = b.SetVertLineGap(v)
			if ok = v == 0 || m.vert; ok {
				m.vertGap = v
			}
		case 12:
			m.vert = v&1 == 1
			b.SetVertLayoutUsed(m.vert)
		case 13, 14, 15:
			d := hDate()
			set := []func(ggfnt.Date) error{b.SetFirstVerDate, b.SetMajorVerDate, b.SetMinorVerDate}[op-13]
			err = set(d)
			if ok = d.IsValid(); ok {
				dates[op-13] = d
			}
		case 16, 17, 18, 19:
			s := hText(vPick(1, 2))
			x := []byte(s)
			x[0] = v & 127
			s = string(x)
			set := []func(string) error{b.SetName, b.SetFamily, b.SetAuthor, b.SetAbout}[op-16]
			err = set(s)
			if ok = v&127 >= ' '; ok {
				texts[op-16] = s
			}
		}
		vAssert((err == nil) == ok, "wrong acceptance of a value")
		if ok {
			vReach("accepted")
		} else {
			vReach("refused")
		}
	}
	m.checkBuilder(b)
	vAssert(b.GetFontID() == id && b.GetVersionMajor() == major && b.GetVersionMinor() == minor, "wrong version in the builder")
	vAssert(b.GetFirstVerDate() == dates[0] && b.GetMajorVerDate() == dates[1] && b.GetMinorVerDate() == dates[2], "wrong dates in the builder")
	vAssert(b.GetName() == texts[0] && b.GetFamily() == texts[1] && b.GetAuthor() == texts[2] && b.GetAbout() == texts[3], "wrong texts in the builder")
	vAssert(b.GetNumGlyphs() == 0, "wrong number of glyphs")
}
