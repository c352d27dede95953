package builder

// hChar is any printable ASCII character.
func hChar() byte {
	c := vU8()
	vAssume(c >= ' ' && c < 127)
	return c
}

// hBasic returns a valid basic name of n characters; up to sym of them are
// symbolic among a few (letters of both cases, digits, hyphen inside).
func hBasic(n, sym int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'm'
		if i < sym {
			c := vU8()
			ok := vB2I(c >= 'a')&vB2I(c <= 'z') | vB2I(c >= 'A')&vB2I(c <= 'Z') | vB2I(c >= '0')&vB2I(c <= '9')
			if i > 0 && i < n-1 {
				ok |= vB2I(c == '-') & vB2I(b[i-1] != '-')
			}
			vAssume(ok == 1)
			b[i] = c
		}
	}
	return string(b)
}
