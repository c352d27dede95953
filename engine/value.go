package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term (bool, integers), float64, complex128, *Str, *Slice,
// Ptr, *Agg (struct or array value), *MapV, Iface, *Closure, Tuple, *MapIter.
type Value interface{}

// Agg is a struct or array; as a memory object its slots are mutable.
type Agg struct {
	elems  []Value
	shared bool // elems is referenced by string snapshots: copy before write
}

// Str is an immutable string view over elems[off:off+length].
type Str struct {
	elems []Value
	off   *Term
	len   *Term
}

type Slice struct {
	arr           *Agg // nil for nil slices
	off, len, cap *Term
}

// Ptr addresses slot idx of agg (and, when idx is symbolic, the sub-path of
// nested slots below it). agg == nil is the nil pointer.
type Ptr struct {
	agg *Agg
	idx *Term
	sub string // encoded sub path (only with symbolic idx): bytes of indices as runes
}

type MapV struct {
	keys, vals []Value
	alive      []bool
	n          int
	index      map[uint64]int // the last entry of each constant scalar key
	other      int            // entries with other keys
}

type MapIter struct {
	m     *MapV
	order []int
	pos   int
	str   *Str // string iteration
	spos  *Term
}

type Iface struct {
	typ types.Type // nil: nil interface
	val Value
}

type Closure struct {
	fn   *ssa.Function
	env  []Value
	bltn *ssa.Builtin
	nat  func(m *Machine, args []Value) Value
}

type Tuple []Value

type UnsafePtr struct{ v Value }

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic("deref of " + t.String())
}

func intWidth(b *types.Basic) (w uint8, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func typeWidth(t types.Type) (w uint8, signed bool, ok bool) {
	if b, isB := t.Underlying().(*types.Basic); isB {
		return intWidth(b)
	}
	return 0, false, false
}

func (m *Machine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(u); ok {
			return m.tm.Const(0, w)
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return m.tm.False
		case types.String, types.UntypedString:
			return m.emptyStr()
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.Complex64, types.Complex128:
			return complex128(0)
		case types.UnsafePointer:
			return UnsafePtr{}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return m.nilSlice()
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return nil
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		a := &Agg{elems: make([]Value, u.NumFields())}
		for i := range a.elems {
			a.elems[i] = m.zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		n := int(u.Len())
		a := &Agg{elems: make([]Value, n)}
		if n > 0 {
			z := m.zero(u.Elem())
			_, agg := z.(*Agg)
			for i := range a.elems {
				if agg && i > 0 {
					a.elems[i] = m.zero(u.Elem())
				} else {
					a.elems[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = m.zero(u.At(i).Type())
		}
		return tp
	}
	panic(m.unsupported("zero value of %s", t))
}

func (m *Machine) i64(v int) *Term { return m.tm.Const(uint64(v), 64) }

func (m *Machine) nilSlice() *Slice {
	z := m.tm.Const(0, 64)
	return &Slice{nil, z, z, z}
}

func (m *Machine) emptyStr() *Str {
	z := m.tm.Const(0, 64)
	return &Str{nil, z, z}
}

func (m *Machine) str(s string) *Str {
	e := make([]Value, len(s))
	for i := 0; i < len(s); i++ {
		e[i] = m.tm.Const(uint64(s[i]), 8)
	}
	return &Str{e, m.tm.Const(0, 64), m.i64(len(s))}
}

// goStr returns the Go string if fully concrete.
func (s *Str) goStr() (string, bool) {
	if !s.off.IsConst() || !s.len.IsConst() {
		return "", false
	}
	b := make([]byte, s.len.val)
	for i := range b {
		t, ok := s.elems[int(s.off.val)+i].(*Term)
		if !ok || !t.IsConst() {
			return "", false
		}
		b[i] = byte(t.val)
	}
	return string(b), true
}

func copyVal(v Value) Value {
	if a, ok := v.(*Agg); ok {
		n := &Agg{elems: make([]Value, len(a.elems))}
		for i, e := range a.elems {
			if _, isAgg := e.(*Agg); isAgg {
				n.elems[i] = copyVal(e)
			} else {
				n.elems[i] = e
			}
		}
		return n
	}
	return v
}

type journalEntry struct {
	agg *Agg
	idx int
	old Value
}

func (m *Machine) setSlot(a *Agg, i int, v Value) {
	if a.shared {
		a.elems = append([]Value(nil), a.elems...)
		a.shared = false
	}
	if m.spec > 0 {
		m.journal = append(m.journal, journalEntry{a, i, a.elems[i]})
	}
	a.elems[i] = v
}

// assign stores v into slot i, keeping the identity of nested aggregates.
func (m *Machine) assign(a *Agg, i int, v Value) {
	if src, ok := v.(*Agg); ok {
		if dst, ok := a.elems[i].(*Agg); ok && len(dst.elems) == len(src.elems) {
			if dst == src {
				return
			}
			for j := range src.elems {
				m.assign(dst, j, src.elems[j])
			}
			return
		}
		v = copyVal(v)
	}
	m.setSlot(a, i, v)
}

func subPath(s string) []int {
	var r []int
	for _, c := range s {
		r = append(r, int(c))
	}
	return r
}

func (m *Machine) load(p Ptr) Value {
	if p.agg == nil {
		m.goPanicRuntime("invalid memory address or nil pointer dereference")
	}
	if !p.idx.IsConst() {
		p.idx = m.simp(p.idx)
	}
	if p.idx.IsConst() {
		if p.idx.val >= uint64(len(p.agg.elems)) {
			panic(m.unsupported("pointer past the end"))
		}
		v := p.agg.elems[p.idx.val]
		for _, f := range subPath(p.sub) {
			v = v.(*Agg).elems[f]
		}
		return copyVal(v)
	}
	get := func(i int) Value {
		v := p.agg.elems[i]
		for _, f := range subPath(p.sub) {
			v = v.(*Agg).elems[f]
		}
		return v
	}
	v, ok := m.symSelect(p.idx, len(p.agg.elems), get)
	if !ok {
		i := m.concretize(p.idx)
		return copyVal(get(int(i)))
	}
	return copyVal(v)
}

// symSelect builds the value at symbolic index idx (known to be < n).
func (m *Machine) symSelect(idx *Term, n int, get func(int) Value) (Value, bool) {
	lo, up := idx.lo, idx.up
	if up >= uint64(n) {
		up = uint64(n) - 1
	}
	if lo > up {
		return nil, false
	}
	var rec func(lo, up uint64) (Value, bool)
	rec = func(lo, up uint64) (Value, bool) {
		if lo == up {
			return get(int(lo)), true
		}
		mid := lo + (up-lo)/2 // lower half: lo..mid
		a, ok := rec(lo, mid)
		if !ok {
			return nil, false
		}
		b, ok := rec(mid+1, up)
		if !ok {
			return nil, false
		}
		var c *Term
		if mid == lo && lo == idx.lo {
			c = m.tm.Eq(idx, m.tm.Const(lo, idx.w))
		} else {
			c = m.tm.Ule(idx, m.tm.Const(mid, idx.w))
		}
		return m.mergeValue(c, a, b, true)
	}
	return rec(lo, up)
}

func (m *Machine) store(p Ptr, v Value) {
	if p.agg == nil {
		m.goPanicRuntime("invalid memory address or nil pointer dereference")
	}
	if p.idx.IsConst() {
		a, j := p.agg, int(p.idx.val)
		for _, f := range subPath(p.sub) {
			a, j = a.elems[j].(*Agg), f
		}
		m.assign(a, j, v)
		return
	}
	lo, up := p.idx.lo, p.idx.up
	if up >= uint64(len(p.agg.elems)) {
		up = uint64(len(p.agg.elems)) - 1
	}
	path := subPath(p.sub)
	type upd struct {
		a *Agg
		i int
		v Value
	}
	var ups []upd
	for i := lo; i <= up; i++ {
		a, j := p.agg, int(i)
		for _, f := range path {
			a, j = a.elems[j].(*Agg), f
		}
		c := m.tm.Eq(p.idx, m.tm.Const(i, p.idx.w))
		if c.IsFalse() {
			continue
		}
		nv, ok := m.mergeValue(c, v, a.elems[j], true)
		if !ok {
			k := m.concretize(p.idx)
			a, j := p.agg, int(k)
			for _, f := range path {
				a, j = a.elems[j].(*Agg), f
			}
			m.assign(a, j, v)
			return
		}
		ups = append(ups, upd{a, j, nv})
	}
	for _, u := range ups {
		m.assign(u.a, u.i, u.v)
	}
}

func (m *Machine) fieldPtr(p Ptr, f int) Ptr {
	if p.agg == nil {
		m.goPanicRuntime("invalid memory address or nil pointer dereference")
	}
	if p.idx.IsConst() {
		in, ok := p.agg.elems[p.idx.val].(*Agg)
		if !ok {
			panic(m.unsupported("field of non aggregate %T", p.agg.elems[p.idx.val]))
		}
		return Ptr{agg: in, idx: m.i64(f)}
	}
	return Ptr{agg: p.agg, idx: p.idx, sub: p.sub + string(rune(f))}
}

// target returns the aggregate a pointer-to-array points to.
func (m *Machine) targetAgg(p Ptr) *Agg {
	if p.agg == nil {
		m.goPanicRuntime("invalid memory address or nil pointer dereference")
	}
	if !p.idx.IsConst() {
		i := m.concretize(p.idx)
		a := p.agg.elems[i].(*Agg)
		for _, f := range subPath(p.sub) {
			a = a.elems[f].(*Agg)
		}
		return a
	}
	return p.agg.elems[p.idx.val].(*Agg)
}

func (m *Machine) newCell(v Value) Ptr {
	return Ptr{agg: &Agg{elems: []Value{v}}, idx: m.tm.Const(0, 64)}
}

// mergeValue returns ite(c, a, b). force allows merging of distinct concrete
// machine ints (otherwise refused, to keep positions and lengths concrete).
func (m *Machine) mergeValue(c *Term, a, b Value, force bool) (Value, bool) {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok || x.w != y.w {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if !force && !m.mergeInts && x.w == 64 && x.IsConst() && y.IsConst() {
			return nil, false
		}
		return m.tm.Ite(c, x, y), true
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		same := len(x.elems) == len(y.elems)
		if same {
			for i := range x.elems {
				if x.elems[i] != y.elems[i] {
					same = false
					break
				}
			}
		}
		if same {
			return &Str{x.elems, m.tm.Ite(c, x.off, y.off), m.tm.Ite(c, x.len, y.len)}, true
		}
		if x.len.IsConst() && y.len == x.len && x.off.IsConst() && y.off.IsConst() && x.len.val <= 512 {
			e := make([]Value, x.len.val)
			for i := range e {
				e[i] = m.tm.Ite(c, x.elems[int(x.off.val)+i].(*Term), y.elems[int(y.off.val)+i].(*Term))
			}
			return &Str{e, m.tm.Const(0, 64), x.len}, true
		}
		return nil, false
	case *Slice:
		y, ok := b.(*Slice)
		if !ok || x.arr != y.arr {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if !force && !m.mergeInts && ((x.len != y.len && x.len.IsConst() && y.len.IsConst()) || (x.off != y.off && x.off.IsConst() && y.off.IsConst())) {
			return nil, false
		}
		return &Slice{x.arr, m.tm.Ite(c, x.off, y.off), m.tm.Ite(c, x.len, y.len), m.tm.Ite(c, x.cap, y.cap)}, true
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return nil, false
		}
		if x == y {
			return x, true
		}
		if x.agg != nil && x.agg == y.agg && x.sub == y.sub {
			return Ptr{x.agg, m.tm.Ite(c, x.idx, y.idx), x.sub}, true
		}
		return nil, false
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.elems) != len(y.elems) {
			return nil, false
		}
		n := &Agg{elems: make([]Value, len(x.elems))}
		for i := range x.elems {
			v, ok := m.mergeValue(c, x.elems[i], y.elems[i], force)
			if !ok {
				return nil, false
			}
			n.elems[i] = v
		}
		return n, true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return nil, false
		}
		n := make(Tuple, len(x))
		for i := range x {
			v, ok := m.mergeValue(c, x[i], y[i], force)
			if !ok {
				return nil, false
			}
			n[i] = v
		}
		return n, true
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return nil, false
		}
		if x.typ == nil && y.typ == nil {
			return x, true
		}
		if x.typ == nil || y.typ == nil || !types.Identical(x.typ, y.typ) {
			return nil, false
		}
		v, ok := m.mergeValue(c, x.val, y.val, force)
		if !ok {
			return nil, false
		}
		return Iface{x.typ, v}, true
	case nil:
		return nil, b == nil
	case *MapV:
		y, ok := b.(*MapV)
		return x, ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		return x, ok && x == y
	case *MapIter:
		y, ok := b.(*MapIter)
		return x, ok && x == y
	case float64:
		y, ok := b.(float64)
		return x, ok && x == y
	case UnsafePtr:
		y, ok := b.(UnsafePtr)
		return x, ok && x == y
	}
	return nil, false
}

func (m *Machine) strAt(s *Str, i *Term) *Term {
	idx := m.tm.Add(s.off, i)
	if idx.IsConst() {
		return s.elems[idx.val].(*Term)
	}
	v, ok := m.symSelect(idx, len(s.elems), func(i int) Value { return s.elems[i] })
	if !ok {
		panic(m.unsupported("string select"))
	}
	return v.(*Term)
}

func (m *Machine) strEq(a, b *Str) *Term {
	r := m.tm.Eq(a.len, b.len)
	if r.IsFalse() {
		return r
	}
	mx := min(a.len.up, b.len.up)
	if mx > 1<<20 {
		panic(m.unsupported("string comparison too long"))
	}
	for i := uint64(0); i < mx; i++ {
		ti := m.tm.Const(i, 64)
		in := m.tm.Ult(ti, a.len)
		if in.IsFalse() {
			break
		}
		// reading past the end of the other (when lengths differ) is
		// guarded: clamp by evaluating only positions valid in the backing
		x, y := m.strAtSafe(a, ti), m.strAtSafe(b, ti)
		r = m.tm.And(r, m.tm.Or(m.tm.Not(in), m.tm.Eq(x, y)))
		if r.IsFalse() {
			return r
		}
	}
	return r
}

func (m *Machine) strAtSafe(s *Str, i *Term) *Term {
	idx := m.tm.Add(s.off, i)
	if idx.lo >= uint64(len(s.elems)) {
		return m.tm.Const(0, 8)
	}
	return m.strAt(s, i)
}

// strLess builds a < b for strings of concrete lengths.
func (m *Machine) strLess(a, b *Str, orEq bool) *Term {
	a, b = m.concStr(a), m.concStr(b)
	la, lb := int(a.len.val), int(b.len.val)
	n := min(la, lb)
	var r *Term
	if orEq {
		r = m.tm.Bool(la <= lb)
	} else {
		r = m.tm.Bool(la < lb)
	}
	for i := n - 1; i >= 0; i-- {
		x, y := m.strAt(a, m.i64(i)), m.strAt(b, m.i64(i))
		r = m.tm.Ite(m.tm.Eq(x, y), r, m.tm.Ult(x, y))
	}
	return r
}

func (m *Machine) concStr(s *Str) *Str {
	if s.len.IsConst() && s.off.IsConst() {
		return s
	}
	l := m.concretize(s.len)
	if s.off.IsConst() {
		return &Str{s.elems, s.off, m.tm.Const(l, 64)}
	}
	e := make([]Value, l)
	for i := range e {
		e[i] = m.strAt(s, m.i64(i))
	}
	return &Str{e, m.i64(0), m.tm.Const(l, 64)}
}

func (m *Machine) concat(a, b *Str) *Str {
	a, b = m.concStr(a), m.concStr(b)
	if a.len.val == 0 {
		return b
	}
	if b.len.val == 0 {
		return a
	}
	e := make([]Value, 0, a.len.val+b.len.val)
	e = append(e, a.elems[a.off.val:a.off.val+a.len.val]...)
	e = append(e, b.elems[b.off.val:b.off.val+b.len.val]...)
	return &Str{e, m.i64(0), m.i64(len(e))}
}

// bytesToStr snapshots a byte slice as a string.
func (m *Machine) bytesToStr(s *Slice) *Str {
	if s.arr == nil {
		return m.emptyStr()
	}
	s.arr.shared = true
	return &Str{s.arr.elems, s.off, s.len}
}

// sliceElems returns the elements of a slice after concretizing its shape.
func (m *Machine) sliceElems(s *Slice) []Value {
	s = m.concSlice(s)
	if s.arr == nil {
		return nil
	}
	return s.arr.elems[s.off.val : s.off.val+s.len.val]
}

// concSlice makes off and len concrete (forking as needed); cap follows.
func (m *Machine) concSlice(s *Slice) *Slice {
	if s.off.IsConst() && s.len.IsConst() && s.cap.IsConst() {
		return s
	}
	off := m.tm.Const(m.concretize(s.off), 64)
	ln := m.tm.Const(m.concretize(s.len), 64)
	cp := m.tm.Const(m.concretize(s.cap), 64)
	return &Slice{s.arr, off, ln, cp}
}

// eqValue builds the Go == of two values of the same static type.
func (m *Machine) eqValue(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return m.tm.Eq(x, b.(*Term))
	case *Str:
		return m.strEq(x, b.(*Str))
	case Ptr:
		y := b.(Ptr)
		if x.agg != y.agg || x.sub != y.sub {
			return m.tm.False
		}
		if x.agg == nil {
			return m.tm.True
		}
		return m.tm.Eq(x.idx, y.idx)
	case *Agg:
		y := b.(*Agg)
		r := m.tm.True
		for i := range x.elems {
			r = m.tm.And(r, m.eqValue(x.elems[i], y.elems[i]))
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(m.unsupported("iface compare with %T", b))
		}
		if x.typ == nil || y.typ == nil {
			return m.tm.Bool(x.typ == nil && y.typ == nil)
		}
		if !types.Identical(x.typ, y.typ) {
			return m.tm.False
		}
		return m.eqValue(x.val, y.val)
	case *Slice:
		y := b.(*Slice) // only comparison with nil is legal
		return m.tm.Bool((x.arr == nil) == (y.arr == nil) && (x.arr == nil || y.arr == nil))
	case *MapV:
		return m.tm.Bool(x == b.(*MapV))
	case *Closure:
		return m.tm.Bool(x == b.(*Closure))
	case float64:
		return m.tm.Bool(x == b.(float64))
	case UnsafePtr:
		y := b.(UnsafePtr)
		if x.v == nil || y.v == nil {
			return m.tm.Bool(x.v == nil && y.v == nil)
		}
		return m.eqValue(x.v, y.v)
	case nil:
		return m.tm.Bool(b == nil)
	}
	panic(m.unsupported("comparison of %T", a))
}

func (m *Machine) describe(v Value) string {
	switch x := v.(type) {
	case *Str:
		if s, ok := x.goStr(); ok {
			return s
		}
		return "<symbolic string>"
	case Iface:
		if x.typ == nil {
			return "nil"
		}
		if p, ok := x.val.(Ptr); ok && p.agg != nil {
			return x.typ.String() + ": " + m.describe(p.agg.elems[0])
		}
		return x.typ.String() + ": " + m.describe(x.val)
	case *Agg:
		s := "{"
		for i, e := range x.elems {
			if i > 4 {
				break
			}
			s += m.describe(e) + " "
		}
		return s + "}"
	case *Term:
		if x.IsConst() {
			return fmt.Sprint(x.val)
		}
		return "<sym>"
	}
	return fmt.Sprintf("%T", v)
}
