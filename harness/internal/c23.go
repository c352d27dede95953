package internal

// refBasicName is the rule of the specification, written over positions:
// letters, digits and hyphens, hyphens only between two non-hyphens.
func refBasicName(s []byte) bool {
	n := len(s)
	if n < 1 || n > 32 {
		return false
	}
	ok := true
	for i := 0; i < n; i++ {
		c := s[i]
		alnum := (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9')
		inner := c == '-' && i > 0 && i < n-1 && s[i-1] != '-'
		ok = ok && (alnum || inner)
	}
	return ok
}

// Every string of 0 to 34 bytes (40 thorough), all bytes symbolic: a name is
// accepted exactly when the rule holds.
//
//verif:reach ok bad
func vhC23_Validate() {
	n := vPick(0, vBound(34, 40))
	b := vBytes(n)
	want := refBasicName(b)
	got := ValidateBasicName(string(b)) == nil
	vAssert(got == want, "wrong basic name validation")
	if got {
		vReach("ok")
	} else {
		vReach("bad")
	}
}

// Same for the validation used by the parser, up to 6 bytes and 31 to 33.
//
//verif:reach ok bad
func vhC23_ParserValidate() {
	n := vPick(0, 9)
	if n > 6 {
		n += 24
	}
	b := vBytes(n)
	var p ParsingBuffer
	err := p.ValidateBasicName(string(b))
	vAssert((err == nil) == refBasicName(b), "wrong basic name validation while parsing")
	if err == nil {
		vReach("ok")
	} else {
		vReach("bad")
	}
}
