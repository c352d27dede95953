package main

// Hash-consed bit-vector/boolean terms with constant folding, light
// simplification and unsigned interval tracking.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpConcat
	OpExtract
	OpZExt
	OpSExt
)

var opSMT = [...]string{"", "", "not", "and", "or", "=", "bvult", "bvule", "bvslt", "bvsle", "ite", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "bvand", "bvor", "bvxor", "bvnot", "bvneg", "bvshl", "bvlshr", "bvashr", "concat", "", "", ""}

// Term is an immutable node. w == 0 means boolean.
type Term struct {
	op       Op
	w        uint8
	hi, lo8  uint8 // extract bounds
	a, b, c  *Term
	val      uint64
	id       int32
	lo, up   uint64 // unsigned interval (bit-vectors), or 0..1 for booleans
	slo, sup int64  // signed interval (bit-vectors)
	name     string
	emitted  int32 // solver generation in which the node was defined
	evalGen  int32
	evalVal  uint64
}

type termKey struct {
	op      Op
	w       uint8
	hi, lo8 uint8
	a, b, c int32
	val     uint64
}

type TermMgr struct {
	tab    map[termKey]*Term
	next   int32
	vars   []*Term
	varTab map[varKey]*Term
	gen    int32 // evaluation generation
	True   *Term
	False  *Term
	small  [65][257]*Term
}

func NewTermMgr() *TermMgr {
	m := &TermMgr{tab: make(map[termKey]*Term, 1<<12), varTab: map[varKey]*Term{}}
	m.False = m.mk(OpConst, 0, nil, nil, nil, 0, 0, 0)
	m.True = m.mk(OpConst, 0, nil, nil, nil, 1, 0, 0)
	return m
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (m *TermMgr) mk(op Op, w uint8, a, b, c *Term, val uint64, hi, lo8 uint8) *Term {
	k := termKey{op, w, hi, lo8, tid(a), tid(b), tid(c), val}
	if t, ok := m.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, hi: hi, lo8: lo8, a: a, b: b, c: c, val: val, id: m.next, emitted: -1, evalGen: -1}
	m.next++
	m.interval(t)
	m.sinterval(t)
	m.tab[k] = t
	return t
}

func (m *TermMgr) interval(t *Term) {
	mx := mask(t.w)
	if t.w == 0 {
		mx = 1
	}
	t.lo, t.up = 0, mx
	switch t.op {
	case OpConst:
		t.lo, t.up = t.val, t.val
	case OpAdd:
		s, c := bits.Add64(t.a.up, t.b.up, 0)
		if c == 0 && s <= mx {
			t.lo, t.up = t.a.lo+t.b.lo, s
		} else {
			// both always overflow exactly once?
			l, c2 := bits.Add64(t.a.lo, t.b.lo, 0)
			if t.w == 64 {
				if c2 == 1 && c == 1 {
					t.lo, t.up = l, s
				}
			} else if l > mx && s <= 2*mx+1 {
				t.lo, t.up = l-mx-1, s-mx-1
			}
		}
	case OpSub:
		if t.a.lo >= t.b.up {
			t.lo, t.up = t.a.lo-t.b.up, t.a.up-t.b.lo
		}
	case OpMul:
		h, l := bits.Mul64(t.a.up, t.b.up)
		if h == 0 && l <= mx {
			t.lo, t.up = t.a.lo*t.b.lo, l
		}
	case OpUDiv:
		if t.b.lo > 0 {
			t.lo, t.up = t.a.lo/t.b.up, t.a.up/t.b.lo
		}
	case OpURem:
		if t.b.lo > 0 {
			t.up = t.b.up - 1
			if t.a.up < t.up {
				t.up = t.a.up
			}
		}
	case OpBAnd:
		t.up = min(t.a.up, t.b.up)
	case OpBOr, OpBXor:
		n := bits.Len64(t.a.up | t.b.up)
		if n < 64 {
			t.up = (uint64(1) << n) - 1
		}
		if t.op == OpBOr {
			t.lo = max(t.a.lo, t.b.lo)
		}
	case OpShl:
		if t.b.op == OpConst && t.b.val < 64 {
			s := t.b.val
			if bits.Len64(t.a.up)+int(s) <= int(t.w) {
				t.lo, t.up = t.a.lo<<s, t.a.up<<s
			}
		}
	case OpLShr:
		if t.b.op == OpConst && t.b.val < 64 {
			t.lo, t.up = t.a.lo>>t.b.val, t.a.up>>t.b.val
		} else {
			t.up = t.a.up
		}
	case OpZExt:
		t.lo, t.up = t.a.lo, t.a.up
	case OpSExt:
		if t.a.up < uint64(1)<<(t.a.w-1) {
			t.lo, t.up = t.a.lo, t.a.up
		}
	case OpExtract:
		if t.lo8 == 0 && t.a.up <= mx {
			t.lo, t.up = t.a.lo, t.a.up
		}
	case OpConcat:
		t.lo, t.up = t.a.lo<<t.b.w|t.b.lo, t.a.up<<t.b.w|t.b.up
	case OpIte:
		t.lo, t.up = min(t.b.lo, t.c.lo), max(t.b.up, t.c.up)
	}
}

func (m *TermMgr) Const(v uint64, w uint8) *Term {
	v &= mask(w)
	if v <= 256 {
		if t := m.small[w][v]; t != nil {
			return t
		}
		t := m.mk(OpConst, w, nil, nil, nil, v, 0, 0)
		m.small[w][v] = t
		return t
	}
	return m.mk(OpConst, w, nil, nil, nil, v, 0, 0)
}

func (m *TermMgr) Bool(b bool) *Term {
	if b {
		return m.True
	}
	return m.False
}

// Var returns the idx-th variable of the given width and unsigned range.
// The same (name,w,lo,up) yields the same variable, so that re-execution of a
// path prefix finds the variables it used before.
func (m *TermMgr) Var(name string, w uint8, lo, up uint64) *Term {
	k := varKey{name, w, lo, up}
	if v, ok := m.varTab[k]; ok {
		return v
	}
	t := &Term{op: OpVar, w: w, id: m.next, emitted: -1, evalGen: -1, lo: lo, up: up, name: name}
	m.sinterval(t)
	m.next++
	m.varTab[k] = t
	m.vars = append(m.vars, t)
	return t
}

type varKey struct {
	name   string
	w      uint8
	lo, up uint64
}

func (t *Term) IsConst() bool { return t.op == OpConst }
func (t *Term) IsTrue() bool  { return t.op == OpConst && t.w == 0 && t.val == 1 }
func (t *Term) IsFalse() bool { return t.op == OpConst && t.w == 0 && t.val == 0 }

func sext(v uint64, w uint8) int64 {
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (m *TermMgr) Not(a *Term) *Term {
	if a.op == OpConst {
		return m.Bool(a.val == 0)
	}
	if a.op == OpNot {
		return a.a
	}
	switch a.op {
	case OpUlt: // raw: a is already simplified
		return m.mk(OpUle, 0, a.b, a.a, nil, 0, 0, 0)
	case OpUle: // raw: a is already simplified
		return m.mk(OpUlt, 0, a.b, a.a, nil, 0, 0, 0)
	case OpSlt: // raw: a is already simplified
		return m.mk(OpSle, 0, a.b, a.a, nil, 0, 0, 0)
	case OpSle: // raw: a is already simplified
		return m.mk(OpSlt, 0, a.b, a.a, nil, 0, 0, 0)
	}
	return m.mk(OpNot, 0, a, nil, nil, 0, 0, 0)
}

func (m *TermMgr) And(a, b *Term) *Term {
	if a.IsFalse() || b.IsFalse() {
		return m.False
	}
	if a.IsTrue() {
		return b
	}
	if b.IsTrue() || a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return m.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return m.mk(OpAnd, 0, a, b, nil, 0, 0, 0)
}

func (m *TermMgr) Or(a, b *Term) *Term {
	if a.IsTrue() || b.IsTrue() {
		return m.True
	}
	if a.IsFalse() {
		return b
	}
	if b.IsFalse() || a == b {
		return a
	}
	if (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a) {
		return m.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return m.mk(OpOr, 0, a, b, nil, 0, 0, 0)
}

func (m *TermMgr) Eq(a, b *Term) *Term {
	if a == b {
		return m.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.op == OpConst && b.op == OpConst {
		return m.Bool(a.val == b.val)
	}
	if a.up < b.lo || b.up < a.lo {
		return m.False
	}
	if a.w > 0 && (a.sup < b.slo || b.sup < a.slo) {
		return m.False
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return m.Not(a)
		}
	}
	if b.op == OpConst {
		switch a.op {
		case OpZExt:
			if b.val > mask(a.a.w) {
				return m.False
			}
			return m.Eq(a.a, m.Const(b.val, a.a.w))
		case OpIte:
			if a.b.op == OpConst && a.c.op == OpConst {
				if a.b.val == b.val {
					if a.c.val == b.val {
						return m.True
					}
					return a.a
				}
				if a.c.val == b.val {
					return m.Not(a.a)
				}
				return m.False
			}
			if a.b.op == OpConst {
				if a.b.val == b.val {
					return m.Or(a.a, m.Eq(a.c, b))
				}
				return m.And(m.Not(a.a), m.Eq(a.c, b))
			}
			if a.c.op == OpConst {
				if a.c.val == b.val {
					return m.Or(m.Not(a.a), m.Eq(a.b, b))
				}
				return m.And(a.a, m.Eq(a.b, b))
			}
		case OpAdd:
			if a.b.op == OpConst {
				return m.Eq(a.a, m.Const(b.val-a.b.val, a.w))
			}
		case OpConcat:
			return m.And(m.Eq(a.a, m.Const(b.val>>a.b.w, a.a.w)), m.Eq(a.b, m.Const(b.val, a.b.w)))
		case OpBXor:
			if a.b.op == OpConst {
				return m.Eq(a.a, m.Const(b.val^a.b.val, a.w))
			}
		}
	}
	if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return m.Eq(a.a, b.a)
	}
	if a.w > 0 {
		if r := m.linEq(a, b); r != nil {
			return r
		}
	}
	if b.op != OpConst && a.id > b.id {
		a, b = b, a
	}
	return m.mk(OpEq, 0, a, b, nil, 0, 0, 0)
}

func (m *TermMgr) Ult(a, b *Term) *Term {
	if a == b || a.lo >= b.up {
		return m.False
	}
	if a.up < b.lo {
		return m.True
	}
	if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return m.Ult(a.a, b.a)
	}
	if a.op == OpZExt && b.op == OpConst && b.val <= mask(a.a.w) {
		return m.Ult(a.a, m.Const(b.val, a.a.w))
	}
	if b.op == OpZExt && a.op == OpConst && a.val <= mask(b.a.w) {
		return m.Ult(m.Const(a.val, b.a.w), b.a)
	}
	if b.op == OpConst && b.val == 1 {
		return m.Eq(a, m.Const(0, a.w))
	}
	if b.op == OpConst && b.val == a.lo+1 {
		return m.Eq(a, m.Const(a.lo, a.w))
	}
	if a.op == OpConst && a.val == 0 {
		return m.Not(m.Eq(b, a))
	}
	if a.slo >= 0 && b.slo >= 0 {
		if r := m.linCmp(a, b, true); r != nil {
			return r
		}
	}
	return m.mk(OpUlt, 0, a, b, nil, 0, 0, 0)
}

func (m *TermMgr) Ule(a, b *Term) *Term {
	if a == b || a.up <= b.lo {
		return m.True
	}
	if a.lo > b.up {
		return m.False
	}
	if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return m.Ule(a.a, b.a)
	}
	if a.op == OpZExt && b.op == OpConst && b.val <= mask(a.a.w) {
		return m.Ule(a.a, m.Const(b.val, a.a.w))
	}
	if b.op == OpZExt && a.op == OpConst && a.val <= mask(b.a.w) {
		return m.Ule(m.Const(a.val, b.a.w), b.a)
	}
	if b.op == OpConst && b.val == 0 {
		return m.Eq(a, b)
	}
	if b.op == OpConst && b.val == a.lo {
		return m.Eq(a, b)
	}
	if a.op == OpConst && a.val == b.up {
		return m.Eq(b, a)
	}
	if a.op == OpConst && a.val == 1 {
		return m.Not(m.Eq(b, m.Const(0, b.w)))
	}
	if a.slo >= 0 && b.slo >= 0 {
		if r := m.linCmp(a, b, false); r != nil {
			return r
		}
	}
	return m.mk(OpUle, 0, a, b, nil, 0, 0, 0)
}

func (m *TermMgr) nonneg(a *Term) bool { return a.slo >= 0 }
func (m *TermMgr) isneg(a *Term) bool  { return a.sup < 0 }

func (m *TermMgr) Slt(a, b *Term) *Term {
	if a == b {
		return m.False
	}
	if a.op == OpConst && b.op == OpConst {
		return m.Bool(sext(a.val, a.w) < sext(b.val, b.w))
	}
	an, bn := m.nonneg(a), m.nonneg(b)
	ag, bg := m.isneg(a), m.isneg(b)
	if (an && bn) || (ag && bg) {
		return m.Ult(a, b)
	}
	if an && bg {
		return m.False
	}
	if ag && bn {
		return m.True
	}
	if a.op == OpSExt && b.op == OpSExt && a.a.w == b.a.w {
		return m.Slt(a.a, b.a)
	}
	if r := m.linCmp(a, b, true); r != nil {
		return r
	}
	return m.mk(OpSlt, 0, a, b, nil, 0, 0, 0)
}

func (m *TermMgr) Sle(a, b *Term) *Term {
	if a == b {
		return m.True
	}
	if a.op == OpConst && b.op == OpConst {
		return m.Bool(sext(a.val, a.w) <= sext(b.val, b.w))
	}
	an, bn := m.nonneg(a), m.nonneg(b)
	ag, bg := m.isneg(a), m.isneg(b)
	if (an && bn) || (ag && bg) {
		return m.Ule(a, b)
	}
	if an && bg {
		return m.False
	}
	if ag && bn {
		return m.True
	}
	if a.op == OpSExt && b.op == OpSExt && a.a.w == b.a.w {
		return m.Sle(a.a, b.a)
	}
	if r := m.linCmp(a, b, false); r != nil {
		return r
	}
	return m.mk(OpSle, 0, a, b, nil, 0, 0, 0)
}

func (m *TermMgr) Ite(c, a, b *Term) *Term {
	if c.IsTrue() || a == b {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if c.op == OpNot {
		return m.Ite(c.a, b, a)
	}
	if a.w == 0 {
		if a.IsTrue() {
			return m.Or(c, b)
		}
		if a.IsFalse() {
			return m.And(m.Not(c), b)
		}
		if b.IsTrue() {
			return m.Or(m.Not(c), a)
		}
		if b.IsFalse() {
			return m.And(c, a)
		}
	}
	if a.op == OpIte && a.a == c {
		a = a.b
	}
	if b.op == OpIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return m.ZExt(m.Ite(c, a.a, b.a), a.w)
	}
	if a.op == OpZExt && b.op == OpConst && b.val <= mask(a.a.w) {
		return m.ZExt(m.Ite(c, a.a, m.Const(b.val, a.a.w)), a.w)
	}
	if b.op == OpZExt && a.op == OpConst && a.val <= mask(b.a.w) {
		return m.ZExt(m.Ite(c, m.Const(a.val, b.a.w), b.a), a.w)
	}
	return m.mk(OpIte, a.w, c, a, b, 0, 0, 0)
}

func (m *TermMgr) Add(a, b *Term) *Term {
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		if a.op == OpConst {
			return m.Const(a.val+b.val, a.w)
		}
		if b.val == 0 {
			return a
		}
		if a.op == OpAdd && a.b.op == OpConst {
			return m.Add(a.a, m.Const(a.b.val+b.val, a.w))
		}
	} else {
		if a.op == OpAdd && a.b.op == OpConst {
			return m.Add(m.Add(a.a, b), a.b)
		}
		if b.op == OpAdd && b.b.op == OpConst {
			return m.Add(m.Add(a, b.a), b.b)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return m.mk(OpAdd, a.w, a, b, nil, 0, 0, 0)
}

func (m *TermMgr) Sub(a, b *Term) *Term {
	if b.op == OpConst {
		if a.lo >= b.val && a.op != OpConst && a.op != OpAdd {
			// keep the interval: a-b without wrap
			if b.val == 0 {
				return a
			}
			return m.mk(OpSub, a.w, a, b, nil, 0, 0, 0)
		}
		return m.Add(a, m.Const(-b.val, a.w))
	}
	if a == b {
		return m.Const(0, a.w)
	}
	if a.op == OpAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
		if a.b.op == OpConst {
			return m.Add(m.Sub(a.a, b), a.b)
		}
	}
	return m.mk(OpSub, a.w, a, b, nil, 0, 0, 0)
}

func (m *TermMgr) Mul(a, b *Term) *Term {
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		if a.op == OpConst {
			return m.Const(a.val*b.val, a.w)
		}
		if b.val == 0 {
			return b
		}
		if b.val == 1 {
			return a
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return m.mk(OpMul, a.w, a, b, nil, 0, 0, 0)
}

func (m *TermMgr) UDiv(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst && b.val != 0 {
		return m.Const(a.val/b.val, a.w)
	}
	if b.op == OpConst && b.val != 0 && b.val&(b.val-1) == 0 {
		return m.LShr(a, m.Const(uint64(bits.TrailingZeros64(b.val)), a.w))
	}
	return m.mk(OpUDiv, a.w, a, b, nil, 0, 0, 0)
}
func (m *TermMgr) URem(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst && b.val != 0 {
		return m.Const(a.val%b.val, a.w)
	}
	if b.op == OpConst && b.val != 0 && b.val&(b.val-1) == 0 {
		return m.BAnd(a, m.Const(b.val-1, a.w))
	}
	if b.lo > a.up {
		return a
	}
	return m.mk(OpURem, a.w, a, b, nil, 0, 0, 0)
}
func (m *TermMgr) SDiv(a, b *Term) *Term {
	if m.nonneg(a) && m.nonneg(b) && b.lo > 0 {
		return m.UDiv(a, b)
	}
	if a.op == OpConst && b.op == OpConst && b.val != 0 {
		x, y := sext(a.val, a.w), sext(b.val, b.w)
		if y == -1 {
			return m.Const(uint64(-x), a.w)
		}
		return m.Const(uint64(x/y), a.w)
	}
	return m.mk(OpSDiv, a.w, a, b, nil, 0, 0, 0)
}
func (m *TermMgr) SRem(a, b *Term) *Term {
	if m.nonneg(a) && m.nonneg(b) && b.lo > 0 {
		return m.URem(a, b)
	}
	if a.op == OpConst && b.op == OpConst && b.val != 0 {
		x, y := sext(a.val, a.w), sext(b.val, b.w)
		if y == -1 {
			return m.Const(0, a.w)
		}
		return m.Const(uint64(x%y), a.w)
	}
	return m.mk(OpSRem, a.w, a, b, nil, 0, 0, 0)
}

func (m *TermMgr) BAnd(a, b *Term) *Term {
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		if a.op == OpConst {
			return m.Const(a.val&b.val, a.w)
		}
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.w) {
			return a
		}
		// mask 2^k-1: zext(extract)
		if b.val&(b.val+1) == 0 {
			if a.up <= b.val {
				return a
			}
			k := uint8(bits.Len64(b.val))
			return m.ZExt(m.Extract(a, k-1, 0), a.w)
		}
		// single bit
		if a.op == OpBAnd && a.b.op == OpConst {
			return m.BAnd(a.a, m.Const(a.b.val&b.val, a.w))
		}
		if a.op == OpZExt {
			return m.ZExt(m.BAnd(a.a, m.Const(b.val, a.a.w)), a.w)
		}
	} else if a == b {
		return a
	} else if a.id > b.id {
		a, b = b, a
	}
	return m.mk(OpBAnd, a.w, a, b, nil, 0, 0, 0)
}

func (m *TermMgr) BOr(a, b *Term) *Term {
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		if a.op == OpConst {
			return m.Const(a.val|b.val, a.w)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return b
		}
	} else if a == b {
		return a
	}
	// disjoint byte assembly: zext(x) | (y << k) with x < 2^k
	if t := m.orConcat(a, b); t != nil {
		return t
	}
	if t := m.orConcat(b, a); t != nil {
		return t
	}
	if b.op != OpConst && a.id > b.id {
		a, b = b, a
	}
	return m.mk(OpBOr, a.w, a, b, nil, 0, 0, 0)
}

// orConcat recognises lo | (hi << k) where lo < 2^k and rewrites it to a
// concat, which keeps little endian decoding transparent.
func (m *TermMgr) orConcat(lo, hi *Term) *Term {
	if hi.op != OpShl || hi.b.op != OpConst {
		return nil
	}
	k := uint8(hi.b.val)
	if hi.b.val == 0 || hi.b.val >= uint64(hi.w) || lo.up > mask(k) {
		return nil
	}
	h := m.Extract(hi.a, hi.w-k-1, 0)
	l := m.Extract(lo, k-1, 0)
	return m.Concat(h, l)
}

func (m *TermMgr) BXor(a, b *Term) *Term {
	if a.op == OpConst {
		a, b = b, a
	}
	if a == b {
		return m.Const(0, a.w)
	}
	if b.op == OpConst {
		if a.op == OpConst {
			return m.Const(a.val^b.val, a.w)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return m.BNot(a)
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return m.mk(OpBXor, a.w, a, b, nil, 0, 0, 0)
}

func (m *TermMgr) BNot(a *Term) *Term {
	if a.op == OpConst {
		return m.Const(^a.val, a.w)
	}
	if a.op == OpBNot {
		return a.a
	}
	return m.mk(OpBNot, a.w, a, nil, nil, 0, 0, 0)
}

func (m *TermMgr) Neg(a *Term) *Term {
	if a.op == OpConst {
		return m.Const(-a.val, a.w)
	}
	return m.mk(OpNeg, a.w, a, nil, nil, 0, 0, 0)
}

// Shifts: b has the same width as a; counts >= w give 0 (or sign fill), as in Go.
func (m *TermMgr) Shl(a, b *Term) *Term {
	if b.op == OpConst {
		if b.val >= uint64(a.w) {
			return m.Const(0, a.w)
		}
		if b.val == 0 {
			return a
		}
		if a.op == OpConst {
			return m.Const(a.val<<b.val, a.w)
		}
	} else if a.op == OpConst && a.val == 0 {
		return a
	}
	return m.mk(OpShl, a.w, a, b, nil, 0, 0, 0)
}
func (m *TermMgr) LShr(a, b *Term) *Term {
	if b.op == OpConst {
		if b.val >= uint64(a.w) {
			return m.Const(0, a.w)
		}
		if b.val == 0 {
			return a
		}
		if a.op == OpConst {
			return m.Const(a.val>>b.val, a.w)
		}
		return m.ZExt(m.Extract(a, a.w-1, uint8(b.val)), a.w)
	} else if a.op == OpConst && a.val == 0 {
		return a
	}
	return m.mk(OpLShr, a.w, a, b, nil, 0, 0, 0)
}
func (m *TermMgr) AShr(a, b *Term) *Term {
	if m.nonneg(a) {
		return m.LShr(a, b)
	}
	if b.op == OpConst {
		n := b.val
		if n >= uint64(a.w) {
			n = uint64(a.w) - 1
		}
		if n == 0 {
			return a
		}
		if a.op == OpConst {
			return m.Const(uint64(sext(a.val, a.w)>>n), a.w)
		}
		return m.SExt(m.Extract(a, a.w-1, uint8(n)), a.w)
	}
	return m.mk(OpAShr, a.w, a, b, nil, 0, 0, 0)
}

func (m *TermMgr) Concat(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return m.Const(a.val<<b.w|b.val, a.w+b.w)
	}
	if a.op == OpConst && a.val == 0 {
		return m.ZExt(b, a.w+b.w)
	}
	if a.op == OpZExt {
		return m.ZExt(m.Concat(a.a, b), a.w+b.w)
	}
	if a.op == OpExtract && b.op == OpExtract && a.a == b.a && a.lo8 == b.hi+1 {
		return m.Extract(a.a, a.hi, b.lo8)
	}
	// concat(extract(x), concat(extract(x), y)) -> concat(extract(x), y)
	if a.op == OpExtract && b.op == OpConcat && b.a.op == OpExtract && b.a.a == a.a && a.lo8 == b.a.hi+1 {
		return m.Concat(m.Extract(a.a, a.hi, b.a.lo8), b.b)
	}
	return m.mk(OpConcat, a.w+b.w, a, b, nil, 0, 0, 0)
}

func (m *TermMgr) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OpConst:
		return m.Const(a.val>>lo, w)
	case OpExtract:
		return m.Extract(a.a, a.lo8+hi, a.lo8+lo)
	case OpZExt:
		if lo >= a.a.w {
			return m.Const(0, w)
		}
		if hi < a.a.w {
			return m.Extract(a.a, hi, lo)
		}
		return m.ZExt(m.Extract(a.a, a.a.w-1, lo), w)
	case OpSExt:
		if hi < a.a.w {
			return m.Extract(a.a, hi, lo)
		}
		if lo == 0 {
			return m.SExt(a.a, w)
		}
	case OpConcat:
		if hi < a.b.w {
			return m.Extract(a.b, hi, lo)
		}
		if lo >= a.b.w {
			return m.Extract(a.a, hi-a.b.w, lo-a.b.w)
		}
		return m.Concat(m.Extract(a.a, hi-a.b.w, 0), m.Extract(a.b, a.b.w-1, lo))
	case OpShl:
		if a.b.op == OpConst {
			s := uint8(a.b.val)
			if lo >= s {
				return m.Extract(a.a, hi-s, lo-s)
			}
			if hi < s {
				return m.Const(0, w)
			}
		}
	case OpIte:
		if a.b.op == OpConst || a.c.op == OpConst {
			return m.Ite(a.a, m.Extract(a.b, hi, lo), m.Extract(a.c, hi, lo))
		}
	case OpAdd, OpSub, OpMul:
		if lo == 0 {
			x, y := m.Extract(a.a, hi, 0), m.Extract(a.b, hi, 0)
			if (x.op != OpExtract || a.a.op == OpExtract) || (y.op != OpExtract) {
				switch a.op {
				case OpAdd:
					return m.Add(x, y)
				case OpSub:
					return m.Sub(x, y)
				case OpMul:
					return m.Mul(x, y)
				}
			}
		}
	case OpBAnd, OpBOr, OpBXor:
		x, y := m.Extract(a.a, hi, lo), m.Extract(a.b, hi, lo)
		switch a.op {
		case OpBAnd:
			return m.BAnd(x, y)
		case OpBOr:
			return m.BOr(x, y)
		default:
			return m.BXor(x, y)
		}
	}
	if a.up <= mask(lo) && lo > 0 {
		return m.Const(0, w)
	}
	return m.mk(OpExtract, w, a, nil, nil, 0, hi, lo)
}

func (m *TermMgr) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return m.Const(a.val, w)
	}
	if a.op == OpZExt {
		return m.ZExt(a.a, w)
	}
	return m.mk(OpZExt, w, a, nil, nil, 0, 0, 0)
}

func (m *TermMgr) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		return m.Const(uint64(sext(a.val, a.w)), w)
	}
	if m.nonneg(a) {
		return m.ZExt(a, w)
	}
	if a.op == OpSExt {
		return m.SExt(a.a, w)
	}
	return m.mk(OpSExt, w, a, nil, nil, 0, 0, 0)
}

// Eval evaluates t under the model: variable id -> value (default: the
// variable's lower bound). Memoised per generation.
func (m *TermMgr) Eval(t *Term, model map[int32]uint64) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if t.evalGen == m.gen {
		return t.evalVal
	}
	var v uint64
	mk := mask(t.w)
	switch t.op {
	case OpVar:
		if x, ok := model[t.id]; ok {
			v = x
		} else {
			v = t.lo
		}
	case OpNot:
		v = 1 - m.Eval(t.a, model)
	case OpAnd:
		v = m.Eval(t.a, model)
		if v != 0 {
			v = m.Eval(t.b, model)
		}
	case OpOr:
		v = m.Eval(t.a, model)
		if v == 0 {
			v = m.Eval(t.b, model)
		}
	case OpIte:
		if m.Eval(t.a, model) != 0 {
			v = m.Eval(t.b, model)
		} else {
			v = m.Eval(t.c, model)
		}
	default:
		a := m.Eval(t.a, model)
		var b uint64
		if t.b != nil {
			b = m.Eval(t.b, model)
		}
		bo := func(x bool) uint64 {
			if x {
				return 1
			}
			return 0
		}
		switch t.op {
		case OpEq:
			v = bo(a == b)
		case OpUlt:
			v = bo(a < b)
		case OpUle:
			v = bo(a <= b)
		case OpSlt:
			v = bo(sext(a, t.a.w) < sext(b, t.b.w))
		case OpSle:
			v = bo(sext(a, t.a.w) <= sext(b, t.b.w))
		case OpAdd:
			v = (a + b) & mk
		case OpSub:
			v = (a - b) & mk
		case OpMul:
			v = (a * b) & mk
		case OpUDiv:
			if b == 0 {
				v = mk
			} else {
				v = a / b
			}
		case OpURem:
			if b == 0 {
				v = a
			} else {
				v = a % b
			}
		case OpSDiv:
			x, y := sext(a, t.w), sext(b, t.w)
			switch {
			case y == 0:
				if x >= 0 {
					v = mk
				} else {
					v = 1
				}
			case y == -1:
				v = uint64(-x) & mk
			default:
				v = uint64(x/y) & mk
			}
		case OpSRem:
			x, y := sext(a, t.w), sext(b, t.w)
			switch {
			case y == 0:
				v = a
			case y == -1:
				v = 0
			default:
				v = uint64(x%y) & mk
			}
		case OpBAnd:
			v = a & b
		case OpBOr:
			v = a | b
		case OpBXor:
			v = a ^ b
		case OpBNot:
			v = ^a & mk
		case OpNeg:
			v = -a & mk
		case OpShl:
			if b >= uint64(t.w) {
				v = 0
			} else {
				v = a << b & mk
			}
		case OpLShr:
			if b >= uint64(t.w) {
				v = 0
			} else {
				v = a >> b
			}
		case OpAShr:
			s := b
			if s >= uint64(t.w) {
				s = uint64(t.w) - 1
			}
			v = uint64(sext(a, t.w)>>s) & mk
		case OpConcat:
			v = a<<t.b.w | b
		case OpExtract:
			v = a >> t.lo8 & mk
		case OpZExt:
			v = a
		case OpSExt:
			v = uint64(sext(a, t.a.w)) & mk
		default:
			panic("eval op")
		}
	}
	t.evalGen, t.evalVal = m.gen, v
	return v
}

func (t *Term) ref() string {
	if t.op == OpConst {
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	}
	if t.op == OpVar {
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) body() string {
	switch t.op {
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo8, t.a.ref())
	case OpZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opSMT[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(x.ref())
		}
	}
	sb.WriteByte(')')
	return sb.String()
}
