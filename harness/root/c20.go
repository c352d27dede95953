package ggfnt

// refMonthLen is the length of a month in the Gregorian calendar.
func refMonthLen(y uint16, m uint8) uint8 {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if y%400 == 0 || (y%4 == 0 && y%100 != 0) {
			return 29
		}
		return 28
	}
	return 31
}

// Validity of every (year, month, day), compared to the calendar and to the
// incomplete forms the specification allows.
//
//verif:reach valid invalid
func vhC20_IsValid() {
	d := Date{Year: vU16(), Month: vU8(), Day: vU8()}
	c := d
	var want bool
	switch {
	case d.Year == 0:
		want = d.Month == 0 && d.Day == 0
	case d.Month == 0:
		want = d.Day == 0
	case d.Month > 12:
		want = false
	default:
		want = d.Day <= refMonthLen(d.Year, d.Month)
	}
	got := d.IsValid()
	vAssert(got == want, "wrong date validity")
	if got {
		vReach("valid")
	} else {
		vReach("invalid")
	}
	vAssert(d == c, "the date was modified")
	vAssert(d.HasYear() == (d.Year != 0) && d.HasMonth() == (d.Month != 0) && d.HasDay() == (d.Day != 0), "wrong field presence")
	vAssert(d.IsComplete() == (d.Year != 0 && d.Month != 0 && d.Day != 0), "wrong completeness")
}

// Binary form: every date.
func vhC20_Binary() {
	d := Date{Year: vU16(), Month: vU8(), Day: vU8()}
	pre := vU8()
	b := d.appendTo([]byte{pre})
	vAssert(len(b) == 5 && b[0] == pre, "wrong binary size")
	vAssert(uint16(b[1])|uint16(b[2])<<8 == d.Year && b[3] == d.Month && b[4] == d.Day, "wrong binary date")
}

// Textual form: every date, including invalid ones.
//
//verif:fmt
//verif:reach unknown year month full
func vhC20_String() {
	names := [12]string{"January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"}
	d := Date{Year: vU16(), Month: vU8(), Day: vU8()}
	m := vPick(0, 13)
	if m <= 12 {
		vAssume(d.Month == uint8(m))
	} else {
		vAssume(d.Month > 12)
	}
	s := d.String()
	if d.Day == 0 && d.Month == 0 && d.Year == 0 {
		vReach("unknown")
		vAssert(s == "(Unknown Date)", "wrong text for the undefined date")
		return
	}
	name := "????"
	if m >= 1 && m <= 12 {
		name = names[m-1]
	}
	vAssert(d.MonthName() == name, "wrong month name")
	// the text ends with the year, at least four digits
	i := len(s)
	y, p := 0, 1
	for i > 0 && s[i-1] >= '0' && s[i-1] <= '9' {
		y += int(s[i-1]-'0') * p
		p *= 10
		i--
	}
	vAssert(y == int(d.Year), "wrong year in the text")
	n := len(s) - i
	vAssert(n == 4 || (n == 5 && d.Year > 9999), "wrong width of the year")
	if d.Day == 0 && d.Month == 0 {
		vReach("year")
		vAssert(i == 0, "unexpected text before the year")
		return
	}
	vAssert(i > len(name) && s[i-1] == ' ' && s[i-1-len(name):i-1] == name, "wrong month in the text")
	i -= 1 + len(name)
	if d.Day == 0 {
		vReach("month")
		vAssert(i == 0, "unexpected text before the month")
		return
	}
	vReach("full")
	vAssert(i > 1 && s[i-1] == ' ', "no day")
	day := 0
	for k := 0; k < i-1; k++ {
		vAssert(s[k] >= '0' && s[k] <= '9', "wrong day in the text")
		day = day*10 + int(s[k]-'0')
	}
	vAssert(day == int(d.Day) && s[0] != '0', "wrong day in the text")
}
