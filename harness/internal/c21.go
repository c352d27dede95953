package internal

type cbModel struct {
	cap, peeks int
	elems      []uint8
}

// cbReach builds the state (capacity, wrap position, fill, peeks) with the
// exported operations.
func cbReach(c, r, n, p int) (*CircularBufferU16[uint8], *cbModel) {
	b := &CircularBufferU16[uint8]{}
	m := &cbModel{cap: c}
	vAssert(b.SetCapacity(uint16(c)), "SetCapacity refused")
	for i := 0; i < r; i++ {
		b.Push(0)
		b.PopHead()
	}
	for i := 0; i < n; i++ {
		x := vU8()
		b.Push(x)
		m.elems = append(m.elems, x)
	}
	for i := 0; i < p; i++ {
		x, ok := b.PeekAhead()
		vAssert(ok && x == m.elems[i+1], "wrong peek")
	}
	m.peeks = p
	return b, m
}

func cbStep(b *CircularBufferU16[uint8], m *cbModel, maxCap int) {
	n := len(m.elems)
	switch vPick(0, 9) {
	case 0:
		x := vU8()
		if n >= m.cap {
			vAssert(vPanics(func() { b.Push(x) }), "Push above the capacity does not panic")
			return
		}
		b.Push(x)
		m.elems = append(m.elems, x)
	case 1:
		if n == 0 {
			vAssert(vPanics(func() { b.PopHead() }), "PopHead on empty does not panic")
			return
		}
		vAssert(b.PopHead() == m.elems[0], "wrong PopHead")
		m.elems = append([]uint8{}, m.elems[1:]...)
		b.DiscardPeeks() // pops with pending peeks are not specified any further
		m.peeks = 0
	case 2:
		if n == 0 {
			vAssert(vPanics(func() { b.PopTail() }), "PopTail on empty does not panic")
			return
		}
		vAssert(b.PopTail() == m.elems[n-1], "wrong PopTail")
		m.elems = m.elems[:n-1]
		b.DiscardPeeks()
		m.peeks = 0
	case 3:
		x, ok := b.PeekAhead()
		switch {
		case n == 0:
			vAssert(!ok, "peek on empty")
		case m.peeks == n-1:
			vAssert(!ok && x == m.elems[n-1], "peek past the end")
		default:
			m.peeks++
			vAssert(ok && x == m.elems[m.peeks], "wrong peek")
		}
	case 4:
		b.DiscardPeeks()
		m.peeks = 0
	case 5:
		b.ConfirmPeeks()
		m.elems = append([]uint8{}, m.elems[m.peeks:]...)
		m.peeks = 0
	case 6:
		b.Clear()
		m.elems, m.peeks = nil, 0
	case 7:
		c := vPick(0, maxCap)
		ok := b.SetCapacity(uint16(c))
		vAssert(ok == (c >= n), "SetCapacity must succeed exactly when the elements fit")
		if ok {
			m.cap = c
		}
	case 8:
		c := vPick(0, maxCap)
		vAssert(b.SetMinCapacity(uint16(c)), "SetMinCapacity can't fail")
		if c > m.cap {
			m.cap = c
		}
	case 9:
		if n > 0 {
			vAssert(b.Head() == m.elems[0], "wrong Head")
			vAssert(b.Tail() == m.elems[n-1], "wrong Tail")
		} else {
			vAssert(vPanics(func() { b.Head() }), "Head on empty does not panic")
			vAssert(vPanics(func() { b.Tail() }), "Tail on empty does not panic")
		}
	}
	cbInv(b, m)
}

func cbInv(b *CircularBufferU16[uint8], m *cbModel) {
	vAssert(int(b.Size()) == len(m.elems), "wrong size")
	vAssert(int(b.Capacity()) == m.cap, "wrong capacity")
	vAssert(b.IsEmpty() == (len(m.elems) == 0), "wrong emptiness")
	if n := len(m.elems); n > 0 {
		vAssert(b.Head() == m.elems[0], "wrong Head")
		vAssert(b.Tail() == m.elems[n-1], "wrong Tail")
	}
}

// cbDrain checks the whole remaining contents.
func cbDrain(b *CircularBufferU16[uint8], m *cbModel) {
	cbInv(b, m)
	for i := m.peeks + 1; i < len(m.elems); i++ {
		x, ok := b.PeekAhead()
		vAssert(ok && x == m.elems[i], "wrong contents (peeking)")
	}
	b.DiscardPeeks()
	// room left is usable, in order
	for len(m.elems) < m.cap {
		x := uint8(200 + len(m.elems))
		b.Push(x)
		m.elems = append(m.elems, x)
	}
	for i, x := range m.elems {
		vAssert(int(b.Size()) == len(m.elems)-i, "wrong size while popping")
		vAssert(b.PopHead() == x, "wrong contents (popping)")
	}
	vAssert(b.IsEmpty(), "not empty after popping everything")
}

// One arbitrary operation after every state (capacity <= 5, thorough 7; every
// wrap position, fill level and peek position), any values.
func vhC21_Step() {
	c := vPick(0, vBound(5, 7))
	r := 0
	if c > 0 {
		r = vPick(0, c-1)
	}
	n := vPick(0, c)
	p := 0
	if n > 1 {
		p = vPick(0, n-1)
	}
	b, m := cbReach(c, r, n, p)
	cbStep(b, m, vBound(7, 9))
	cbDrain(b, m)
}

// Histories: any 3 (thorough 4) operations after every state of capacity <= 3.
func vhC21_History() {
	c := vPick(0, 3)
	r := 0
	if c > 0 {
		r = vPick(0, c-1)
	}
	n := vPick(0, c)
	b, m := cbReach(c, r, n, 0)
	for i := 0; i < vBound(3, 4); i++ {
		cbStep(b, m, 4)
	}
	cbDrain(b, m)
}

// Large capacities, where positions do not fit 16 bits together: the contents
// wrap around at the end of the buffer.
//
//verif:steps 90000000
func vhC21_Large() {
	c := 65535 - vPick(0, 1)
	b := &CircularBufferU16[uint8]{}
	vAssert(b.SetCapacity(uint16(c)), "SetCapacity refused")
	for i := 0; i < c; i++ {
		b.Push(0)
	}
	for i := 0; i < c-1; i++ {
		b.PopHead()
	}
	m := &cbModel{cap: c, elems: []uint8{0}}
	for i := 0; i < 3; i++ {
		x := vU8()
		b.Push(x)
		m.elems = append(m.elems, x)
		cbInv(b, m)
	}
	for i := 1; i < 4; i++ {
		x, ok := b.PeekAhead()
		vAssert(ok && x == m.elems[i], "wrong peek")
	}
	b.DiscardPeeks()
	switch vPick(0, 2) {
	case 0:
		vAssert(b.PopTail() == m.elems[3], "wrong PopTail")
		m.elems = m.elems[:3]
	case 1:
		vAssert(b.SetCapacity(4), "SetCapacity refused")
		m.cap = 4
	case 2:
		b.PeekAhead()
		b.PeekAhead()
		b.ConfirmPeeks()
		m.elems = m.elems[2:]
	}
	cbInv(b, m)
	for _, x := range m.elems {
		vAssert(b.PopHead() == x, "wrong contents (popping)")
	}
}
