package main

// Signed intervals and linear reasoning over comparisons. Both are pure
// simplifications: they never depend on the path condition.

func smin(w uint8) int64 { return -int64(1) << (w - 1) }
func smax(w uint8) int64 { return int64(1)<<(w-1) - 1 }

func addOv(a, b int64) (int64, bool) {
	c := a + b
	return c, (a > 0 && b > 0 && c <= 0) || (a < 0 && b < 0 && c >= 0)
}

// sinterval computes the signed interval of t and tightens both intervals.
func (m *TermMgr) sinterval(t *Term) {
	if t.w == 0 {
		t.slo, t.sup = 0, 1
		return
	}
	lo, hi := smin(t.w), smax(t.w)
	t.slo, t.sup = lo, hi
	set := func(l, h int64, ov bool) {
		if !ov && l >= lo && h <= hi {
			t.slo, t.sup = l, h
		}
	}
	switch t.op {
	case OpAdd:
		l, o1 := addOv(t.a.slo, t.b.slo)
		h, o2 := addOv(t.a.sup, t.b.sup)
		set(l, h, o1 || o2)
	case OpSub:
		if t.b.slo != -1<<63 {
			l, o1 := addOv(t.a.slo, -t.b.sup)
			h, o2 := addOv(t.a.sup, -t.b.slo)
			set(l, h, o1 || o2)
		}
	case OpNeg:
		if t.a.slo != -1<<63 {
			set(-t.a.sup, -t.a.slo, false)
		}
	case OpMul:
		const lim = int64(1) << 31
		if t.a.slo > -lim && t.a.sup < lim && t.b.slo > -lim && t.b.sup < lim {
			p := [4]int64{t.a.slo * t.b.slo, t.a.slo * t.b.sup, t.a.sup * t.b.slo, t.a.sup * t.b.sup}
			l, h := p[0], p[0]
			for _, x := range p[1:] {
				l, h = min(l, x), max(h, x)
			}
			set(l, h, false)
		}
	case OpSExt:
		set(t.a.slo, t.a.sup, false)
	case OpIte:
		set(min(t.b.slo, t.c.slo), max(t.b.sup, t.c.sup), false)
	}
	// unsigned -> signed
	half := uint64(1) << (t.w - 1)
	if t.up < half {
		t.slo, t.sup = max(t.slo, int64(t.lo)), min(t.sup, int64(t.up))
	} else if t.lo >= half {
		t.slo, t.sup = max(t.slo, sext(t.lo, t.w)), min(t.sup, sext(t.up, t.w))
	}
	// signed -> unsigned
	if t.slo >= 0 {
		t.lo, t.up = max(t.lo, uint64(t.slo)), min(t.up, uint64(t.sup))
	} else if t.sup < 0 {
		t.lo, t.up = max(t.lo, uint64(t.slo)&mask(t.w)), min(t.up, uint64(t.sup)&mask(t.w))
	}
}

type linTerm struct {
	t *Term
	k int64
}

type linForm struct {
	ts []linTerm
	c  int64
	ok bool
}

const linLim = int64(1) << 40

func (l *linForm) add(t *Term, k int64) {
	for i := range l.ts {
		if l.ts[i].t == t {
			l.ts[i].k += k
			return
		}
	}
	if len(l.ts) >= 8 {
		l.ok = false
		return
	}
	l.ts = append(l.ts, linTerm{t, k})
}

// tame: the term equals its mathematical signed value with ample headroom.
func tame(t *Term) bool {
	return t.w > 0 && t.slo > -linLim && t.sup < linLim && t.slo >= smin(t.w) && t.sup <= smax(t.w)
}

// noWrap reports that the signed value of the node is exactly the operation
// applied to the signed values of its operands.
func noWrapAdd(t *Term) bool {
	l, h := t.a.slo+t.b.slo, t.a.sup+t.b.sup
	return l >= smin(t.w) && h <= smax(t.w)
}
func noWrapSub(t *Term) bool {
	l, h := t.a.slo-t.b.sup, t.a.sup-t.b.slo
	return l >= smin(t.w) && h <= smax(t.w)
}

func (l *linForm) collect(t *Term, k int64, depth int) {
	if !l.ok {
		return
	}
	switch {
	case t.op == OpConst:
		l.c += k * sext(t.val, t.w)
		return
	case depth > 12:
	case t.op == OpAdd && tame(t.a) && tame(t.b) && noWrapAdd(t):
		l.collect(t.a, k, depth+1)
		l.collect(t.b, k, depth+1)
		return
	case t.op == OpSub && tame(t.a) && tame(t.b) && noWrapSub(t):
		l.collect(t.a, k, depth+1)
		l.collect(t.b, -k, depth+1)
		return
	case t.op == OpMul && t.b.op == OpConst && tame(t.a) && t.b.val < 1<<16 && t.w > 32 && k < 1<<20 && k > -(1<<20):
		l.collect(t.a, k*int64(t.b.val), depth+1)
		return
	case t.op == OpZExt && t.a.w > 0 && t.a.op != OpVar && tame(t.a) && t.a.slo >= 0:
		// same mathematical value
		l.collect(t.a, k, depth+1)
		return
	case t.op == OpSExt && tame(t.a):
		l.collect(t.a, k, depth+1)
		return
	}
	l.add(t, k)
}

func (m *TermMgr) diff(a, b *Term) (l linForm, lo, hi int64) {
	if !tame(a) || !tame(b) {
		return
	}
	l.ok = true
	l.collect(a, 1, 0)
	l.collect(b, -1, 0)
	if !l.ok {
		return
	}
	j := 0
	for _, e := range l.ts {
		if e.k != 0 {
			l.ts[j] = e
			j++
		}
	}
	l.ts = l.ts[:j]
	lo, hi = l.c, l.c
	for _, e := range l.ts {
		if !tame(e.t) || e.k > 1<<16 || e.k < -(1<<16) {
			l.ok = false
			return
		}
		x, y := e.k*e.t.slo, e.k*e.t.sup
		lo += min(x, y)
		hi += max(x, y)
	}
	return
}

func fitsS(c int64, w uint8) bool { return c >= smin(w) && c <= smax(w) }

// linCmp simplifies a < b (strict) or a <= b over signed values; nil if it
// has nothing to say.
func (m *TermMgr) linCmp(a, b *Term, strict bool) *Term {
	l, lo, hi := m.diff(a, b)
	if !l.ok {
		return nil
	}
	if strict {
		if hi < 0 {
			return m.True
		}
		if lo >= 0 {
			return m.False
		}
	} else {
		if hi <= 0 {
			return m.True
		}
		if lo > 0 {
			return m.False
		}
	}
	if len(l.ts) != 1 {
		return nil
	}
	e := l.ts[0]
	c := l.c
	if e.k != 1 && e.k != -1 {
		return nil
	}
	// k*t + c < 0  (or <= 0)
	if !strict {
		c-- // k*t + c - 1 < 0
	}
	if e.k == 1 { // t < -c
		return m.ltConst(e.t, -c)
	}
	// -t + c < 0  <=>  c < t  <=> !(t < c+1)
	return m.Not(m.ltConst(e.t, c+1))
}

// ltConst is t < c for the signed value of t (single canonical form).
func (m *TermMgr) ltConst(t *Term, c int64) *Term {
	for {
		if t.sup < c {
			return m.True
		}
		if t.slo >= c {
			return m.False
		}
		if t.op == OpSExt || t.op == OpZExt {
			// same value in the narrower width if the signed view agrees
			if t.op == OpSExt || t.a.slo >= 0 {
				t = t.a
				continue
			}
		}
		break
	}
	if c == t.slo+1 {
		return m.Eq(t, m.Const(uint64(t.slo), t.w))
	}
	if c == t.sup {
		return m.Not(m.Eq(t, m.Const(uint64(t.sup), t.w)))
	}
	if t.slo >= 0 {
		return m.ultRaw(t, m.Const(uint64(c), t.w))
	}
	if t.op == OpZExt { // value of the narrow term is unsigned
		return m.ultRaw(t.a, m.Const(uint64(c), t.a.w))
	}
	return m.mk(OpSlt, 0, t, m.Const(uint64(c), t.w), nil, 0, 0, 0)
}

func (m *TermMgr) ultRaw(a, b *Term) *Term {
	if a.op == OpZExt && b.op == OpConst && b.val <= mask(a.a.w) {
		return m.ultRaw(a.a, m.Const(b.val, a.a.w))
	}
	return m.mk(OpUlt, 0, a, b, nil, 0, 0, 0)
}

// linEq simplifies a == b; nil if it has nothing to say.
func (m *TermMgr) linEq(a, b *Term) *Term {
	l, lo, hi := m.diff(a, b)
	if !l.ok {
		return nil
	}
	if lo > 0 || hi < 0 {
		return m.False
	}
	if len(l.ts) == 0 {
		return m.Bool(l.c == 0)
	}
	if len(l.ts) == 1 {
		e := l.ts[0]
		if e.k == 1 || e.k == -1 {
			c := -l.c * e.k
			if !fitsS(c, e.t.w) {
				return m.False
			}
			if e.t == a && b.op == OpConst {
				return nil
			}
			return m.Eq(e.t, m.Const(uint64(c), e.t.w))
		}
		if l.c%e.k != 0 {
			return m.False
		}
	}
	return nil
}
