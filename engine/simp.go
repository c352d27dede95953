package main

import "fmt"

// simp rewrites t under the facts known on the current path: conditions that
// are decided and terms that are pinned to a constant. It is a pure function
// of the facts, so re-execution of a path prefix sees the same results.
func (m *Machine) simp(t *Term) *Term {
	if t.IsConst() || (len(m.known) == 0) {
		return t
	}
	if m.simpGen != m.kgen || m.simpMemo == nil {
		m.simpMemo = map[int32]*Term{}
		m.simpGen = m.kgen
	}
	budget := 3000
	r := m.simpRec(t, &budget, 0)
	if r == nil {
		return t
	}
	return r
}

func (m *Machine) simpRec(t *Term, budget *int, depth int) *Term {
	if t.op == OpConst {
		return t
	}
	if c, ok := m.pins[t.id]; ok {
		return c
	}
	if t.w == 0 {
		if v, ok := m.knownVal(t); ok {
			return m.tm.Bool(v)
		}
	}
	if t.op == OpVar {
		return t
	}
	if r, ok := m.simpMemo[t.id]; ok {
		return r
	}
	*budget--
	if *budget < 0 || depth > 400 {
		return nil
	}
	var a, b, c *Term
	if t.op == OpIte {
		cond := m.simpRec(t.a, budget, depth+1)
		if cond == nil {
			return nil
		}
		if cond.IsConst() {
			x := t.c
			if cond.val == 1 {
				x = t.b
			}
			r := m.simpRec(x, budget, depth+1)
			if r != nil {
				m.simpMemo[t.id] = r
			}
			return r
		}
		a = cond
	} else if t.a != nil {
		if a = m.simpRec(t.a, budget, depth+1); a == nil {
			return nil
		}
	}
	if t.b != nil {
		if b = m.simpRec(t.b, budget, depth+1); b == nil {
			return nil
		}
	}
	if t.c != nil {
		if c = m.simpRec(t.c, budget, depth+1); c == nil {
			return nil
		}
	}
	r := t
	if a != t.a || b != t.b || c != t.c {
		r = m.tm.rebuild(t, a, b, c)
		if r.w == 0 && !r.IsConst() {
			if v, ok := m.knownVal(r); ok {
				r = m.tm.Bool(v)
			}
		} else if c, ok := m.pins[r.id]; ok {
			r = c
		}
	}
	m.simpMemo[t.id] = r
	return r
}

func (m *TermMgr) rebuild(t, a, b, c *Term) *Term {
	switch t.op {
	case OpNot:
		return m.Not(a)
	case OpAnd:
		return m.And(a, b)
	case OpOr:
		return m.Or(a, b)
	case OpEq:
		return m.Eq(a, b)
	case OpUlt:
		return m.Ult(a, b)
	case OpUle:
		return m.Ule(a, b)
	case OpSlt:
		return m.Slt(a, b)
	case OpSle:
		return m.Sle(a, b)
	case OpIte:
		return m.Ite(a, b, c)
	case OpAdd:
		return m.Add(a, b)
	case OpSub:
		return m.Sub(a, b)
	case OpMul:
		return m.Mul(a, b)
	case OpUDiv:
		return m.UDiv(a, b)
	case OpURem:
		return m.URem(a, b)
	case OpSDiv:
		return m.SDiv(a, b)
	case OpSRem:
		return m.SRem(a, b)
	case OpBAnd:
		return m.BAnd(a, b)
	case OpBOr:
		return m.BOr(a, b)
	case OpBXor:
		return m.BXor(a, b)
	case OpBNot:
		return m.BNot(a)
	case OpNeg:
		return m.Neg(a)
	case OpShl:
		return m.Shl(a, b)
	case OpLShr:
		return m.LShr(a, b)
	case OpAShr:
		return m.AShr(a, b)
	case OpConcat:
		return m.Concat(a, b)
	case OpExtract:
		return m.Extract(a, t.hi, t.lo8)
	case OpZExt:
		return m.ZExt(a, t.w)
	case OpSExt:
		return m.SExt(a, t.w)
	}
	return t
}

func (t *Term) dump(depth int) string {
	if t == nil {
		return ""
	}
	switch t.op {
	case OpConst:
		return fmt.Sprintf("%d:%d", sext64(t.val, t.w), t.w)
	case OpVar:
		return fmt.Sprintf("%s[%d..%d]", t.name, t.lo, t.up)
	}
	if depth == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	names := map[Op]string{OpExtract: fmt.Sprintf("ext%d-%d", t.hi, t.lo8), OpZExt: fmt.Sprintf("zext%d", t.w), OpSExt: fmt.Sprintf("sext%d", t.w)}
	n := opSMT[t.op]
	if x, ok := names[t.op]; ok {
		n = x
	}
	s := "(" + n
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.dump(depth-1)
		}
	}
	return s + ")"
}

func sext64(v uint64, w uint8) int64 {
	if w == 0 {
		return int64(v)
	}
	return sext(v, w)
}
