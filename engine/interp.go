package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxDepth = 400

func (m *Machine) constVal(c *ssa.Const) Value {
	t := c.Type().Underlying()
	if c.Value == nil {
		return m.zero(c.Type())
	}
	if b, ok := t.(*types.Basic); ok {
		if w, _, ok := intWidth(b); ok {
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return m.tm.Const(uint64(i), w)
			}
			u, _ := constant.Uint64Val(v)
			return m.tm.Const(u, w)
		}
		switch b.Kind() {
		case types.Bool, types.UntypedBool:
			return m.tm.Bool(constant.BoolVal(c.Value))
		case types.String, types.UntypedString:
			if c.Value.Kind() == constant.String {
				return m.str(constant.StringVal(c.Value))
			}
			i, _ := constant.Int64Val(c.Value)
			return m.str(string(rune(i)))
		case types.Float32, types.Float64, types.UntypedFloat:
			f, _ := constant.Float64Val(c.Value)
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		}
	}
	panic(m.unsupported("constant %s", c))
}

func (m *Machine) get(fr *frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return m.constVal(x)
	case *ssa.Function:
		return m.funcValue(x)
	case *ssa.Global:
		return Ptr{agg: m.global(x), idx: m.tm.Const(0, 64)}
	case *ssa.Builtin:
		return &Closure{bltn: x}
	}
	i, ok := fr.fi.idx[v]
	if !ok {
		panic(m.unsupported("unknown value %s", v))
	}
	r := fr.regs[i]
	if r == nil {
		if _, isChan := v.Type().Underlying().(*types.Chan); isChan {
			return nil
		}
		panic(m.unsupported("register %s of %s is undefined", v.Name(), fr.fn))
	}
	return r
}

func (m *Machine) funcValue(f *ssa.Function) *Closure {
	if m.fnVals == nil {
		m.fnVals = map[*ssa.Function]*Closure{}
	}
	c := m.fnVals[f]
	if c == nil {
		c = &Closure{fn: f}
		m.fnVals[f] = c
	}
	return c
}

// callFn runs fn to completion.
func (m *Machine) callFn(fn *ssa.Function, args []Value, clo *Closure) Value {
	if in, ok := m.intrinsic(fn); ok {
		return in(m, args)
	}
	if fn.Synthetic == "package initializer" && fn.Pkg != m.initing {
		return Tuple{}
	}
	if len(fn.Blocks) == 0 {
		panic(m.unsupported("call of external function %s", fn))
	}
	if m.depth > maxDepth {
		panic(pathEnd{endLimit, "recursion depth limit at " + m.where()})
	}
	fi := infoOf(fn)
	fr := &frame{fn: fn, fi: fi, regs: make([]Value, fi.nregs), closure: clo, caller: m.cur}
	for i, p := range fn.Params {
		fr.regs[fi.idx[p]] = args[i]
	}
	if clo != nil {
		for i, p := range fn.FreeVars {
			fr.regs[fi.idx[p]] = clo.env[i]
		}
	}
	m.eng.noteFn(m, fn)
	saved := m.cur
	m.cur = fr
	m.depth++
	defer func() { // restores on any unwinding
		m.cur = saved
		m.depth--
	}()
	if fi.canSpec {
		m.runBlocks(fr, fn.Blocks[0], nil, nil)
		return fr.result
	}
	m.runWithDefers(fr)
	return fr.result
}

// runWithDefers executes a function that uses defer, catching Go panics.
func (m *Machine) runWithDefers(fr *frame) {
	func() {
		depth, spec := m.depth, m.spec
		defer func() {
			if r := recover(); r != nil {
				gp, ok := r.(*goPanic)
				if !ok {
					panic(r)
				}
				m.depth, m.spec = depth, spec
				m.cur = fr
				fr.panic = gp
			}
		}()
		m.runBlocks(fr, fr.fn.Blocks[0], nil, nil)
	}()
	if fr.panic == nil {
		return
	}
	m.unwindDefers(fr)
	if fr.panic != nil {
		panic(fr.panic)
	}
	// recovered: run the recover block to load named results
	if fr.fn.Recover != nil {
		m.runBlocks(fr, fr.fn.Recover, nil, nil)
	} else {
		fr.result = m.zero(fr.fn.Signature.Results())
		if tp, ok := fr.result.(Tuple); ok && len(tp) == 1 {
			fr.result = tp[0]
		}
	}
}

func (m *Machine) unwindDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			depth := m.depth
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(*goPanic)
					if !ok {
						panic(r)
					}
					m.depth = depth
					m.cur = fr
					fr.panic = gp
				}
			}()
			m.cur = fr
			m.deferring = append(m.deferring, fr)
			defer func() { m.deferring = m.deferring[:len(m.deferring)-1] }()
			m.callClosure(d.fn, d.args)
		}()
	}
}

func (m *Machine) callClosure(c *Closure, args []Value) Value {
	if c == nil {
		m.goPanicRuntime("invalid memory address or nil pointer dereference")
	}
	if c.nat != nil {
		return c.nat(m, args)
	}
	if c.bltn != nil {
		panic(m.unsupported("builtin %s as value", c.bltn.Name()))
	}
	if c.env == nil {
		return m.callFn(c.fn, args, nil)
	}
	return m.callFn(c.fn, args, c)
}

// runBlocks executes from block b (entered from prev) until a return (nil) or
// until block stop is about to be entered (returned together with its pred; a
// nil pred means that a nested merge has already computed stop's phis).
func (m *Machine) runBlocks(fr *frame, b, prev, stop *ssa.BasicBlock) (*ssa.BasicBlock, *ssa.BasicBlock) {
	skipPhis := false
	var nextB *ssa.BasicBlock
	for {
		if b == stop && stop != nil {
			return b, prev
		}
		if !skipPhis {
			// parallel phi evaluation
			nphi := 0
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Phi); !ok {
					break
				}
				nphi++
			}
			if nphi > 0 {
				pi := -1
				for k, p := range b.Preds {
					if p == prev {
						pi = k
						break
					}
				}
				vals := make([]Value, nphi)
				for i := 0; i < nphi; i++ {
					vals[i] = m.get(fr, b.Instrs[i].(*ssa.Phi).Edges[pi])
				}
				for i := 0; i < nphi; i++ {
					fr.regs[fr.fi.idx[b.Instrs[i].(*ssa.Phi)]] = vals[i]
				}
			}
		}
		skipPhis = false
		m.eng.noteBlock(m, b)
		nextB = nil
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			m.steps++
			if m.steps > m.stepLimit {
				panic(pathEnd{endLimit, "step limit (unwinding bound) reached at " + m.where()})
			}
			if m.spec > 0 {
				m.specSteps++
				if m.specSteps > m.eng.specBudget {
					panic(specAbort{"budget"})
				}
			}
			fr.instr = in
			switch x := in.(type) {
			case *ssa.If:
				c := m.get(fr, x.Cond).(*Term)
				dir, merged, join, returned := m.doIf(fr, b, x, c)
				if merged {
					if returned {
						return nil, nil
					}
					prev, b = nil, join
					skipPhis = true
					goto continueOuter
				}
				if dir {
					nextB = b.Succs[0]
				} else {
					nextB = b.Succs[1]
				}
			case *ssa.Jump:
				nextB = b.Succs[0]
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
					fr.result = Tuple{}
				case 1:
					fr.result = m.get(fr, x.Results[0])
				default:
					tp := make(Tuple, len(x.Results))
					for i, r := range x.Results {
						tp[i] = m.get(fr, r)
					}
					fr.result = tp
				}
				return nil, nil
			case *ssa.Panic:
				v := m.get(fr, x.X)
				panic(&goPanic{val: v, msg: m.describe(v), pos: m.posRepo(), stack: m.stackStr()})
			case *ssa.RunDefers:
				if m.spec > 0 && false {
					panic(specAbort{"defers"})
				}
				m.unwindDefers(fr)
				if fr.panic != nil {
					p := fr.panic
					panic(p)
				}
			default:
				m.exec(fr, in)
			}
		}
		prev, b = b, nextB
		continue
	continueOuter:
		_ = nextB
	}
}

// doIf decides a conditional branch, merging both sides when possible.
func (m *Machine) doIf(fr *frame, b *ssa.BasicBlock, x *ssa.If, c *Term) (dir, merged bool, join *ssa.BasicBlock, returned bool) {
	if c.IsConst() {
		return c.val == 1, false, nil, false
	}
	if v, ok := m.knownVal(c); ok {
		return v, false, nil, false
	}
	if c = m.simp(c); c.IsConst() {
		return c.val == 1, false, nil, false
	}
	if m.replaying() {
		if k := m.prefix[m.pos].kind; k == eMerge || k == eSoft {
			m.next()
			ok, j, ret := m.tryMerge(fr, b, x, c, nil, nil, k == eSoft)
			if !ok {
				panic(pathEnd{endUnsupported, "replay mismatch (merge) at " + m.where()})
			}
			return false, true, j, ret
		}
		return m.branch(c), false, nil, false
	}
	d := m.decide(c)
	if !d.forced && m.mergeOn && fr.fi.canSpec && m.initing == nil && m.specDepthOK() &&
		m.joinInside(fr, b) && m.specWorth(x) {
		var mt, mf map[int32]uint64
		if d.val {
			mt, mf = m.model, d.other
		} else {
			mt, mf = d.other, m.model
		}
		if !m.hasMod {
			mt, mf = nil, nil
		}
		tl := len(m.trace)
		soft, k := fr.fi.soft[b.Index] >= 0, eMerge
		if soft {
			k = eSoft
		}
		m.trace = append(m.trace, traceEntry{kind: k})
		ok, j, ret := m.tryMerge(fr, b, x, c, mt, mf, soft)
		if ok {
			m.specOK[specKey{x, m.spec > 0}]++
			m.run.stat(&m.run.Merges)
			return false, true, j, ret
		}
		m.trace = m.trace[:tl]
		m.specFail[specKey{x, m.spec > 0}]++
	}
	if n := len(m.open); n > 0 && !d.forced && m.open[n-1].fr == fr {
		// inside of a region that is being merged: a way out of it is forked off
		r := &m.open[n-1]
		s0, s1 := r.reach[b.Succs[0].Index], r.reach[b.Succs[1].Index]
		if s0 != s1 && d.other != nil && m.hasMod {
			if d.val != s0 {
				// stay
				old := m.model
				m.setModel(d.other)
				d = decision{val: s0, other: old}
			}
			m.escaping = true
			v := m.commit(c, d)
			m.escaping = false
			return v, false, nil, false
		}
	}
	if specDbg && !d.forced {
		fmt.Fprintf(os.Stderr, "FORK at %s spec=%d fail=%d ok=%d\n", posOf(m, x.Cond.Pos()), m.spec, m.specFail[specKey{x, m.spec > 0}], m.specOK[specKey{x, m.spec > 0}])
	}
	return m.commit(c, d), false, nil, false
}

// specKey counts merges apart at the top level and inside of other merges,
// where they may fail for reasons of the outer ones.
type specKey struct {
	x      *ssa.If
	nested bool
}

func (m *Machine) specWorth(x *ssa.If) bool {
	k := specKey{x, m.spec > 0}
	return m.specFail[k] < 4 || m.specOK[k] > m.specFail[k]
}

// joinInside tells if the sides of the branch at the end of b join inside of
// the region that is being merged.
func (m *Machine) joinInside(fr *frame, b *ssa.BasicBlock) bool {
	n := len(m.open)
	if n == 0 || m.open[n-1].fr != fr || fr.fi.soft[b.Index] >= 0 || !m.open[n-1].soft {
		return true
	}
	j := fr.fi.pdom[b.Index]
	return j >= 0 && m.open[n-1].reach[j]
}

func (m *Machine) specDepthOK() bool { return m.spec < m.eng.specDepth }

func (m *Machine) set(fr *frame, v ssa.Value, x Value) {
	fr.regs[fr.fi.idx[v]] = x
}

func (m *Machine) check2(cond *Term, msg string) {
	if cond.IsTrue() {
		return
	}
	if !m.branch(cond) {
		m.goPanicRuntime(msg)
	}
}

// toInt64 widens an index of the given type to 64 bits.
func (m *Machine) idx64(t *Term, typ types.Type) *Term {
	w, signed, ok := typeWidth(typ)
	if !ok {
		panic(m.unsupported("index type %s", typ))
	}
	if w == 64 {
		return t
	}
	if signed {
		return m.tm.SExt(t, 64)
	}
	return m.tm.ZExt(t, 64)
}

func (m *Machine) exec(fr *frame, in ssa.Instruction) {
	tm := m.tm
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		m.set(fr, x, m.newCell(m.zero(deref(x.Type()))))
	case *ssa.Store:
		m.store(m.ptr(m.get(fr, x.Addr)), m.get(fr, x.Val))
	case *ssa.UnOp:
		m.set(fr, x, m.unop(fr, x))
	case *ssa.BinOp:
		m.set(fr, x, m.binop(x.Op, m.get(fr, x.X), m.get(fr, x.Y), x.X.Type(), x.Y.Type()))
	case *ssa.Call:
		m.set(fr, x, m.call(fr, &x.Call, x.Type()))
	case *ssa.Defer:
		if m.spec > 0 && !fr.fi.canSpec && false {
			panic(specAbort{"defer"})
		}
		fn, args := m.prepCall(fr, &x.Call)
		fr.defers = append(fr.defers, deferred{fn: fn, args: args})
	case *ssa.Go:
		panic(m.unsupported("goroutine"))
	case *ssa.FieldAddr:
		m.set(fr, x, m.fieldPtr(m.ptr(m.get(fr, x.X)), x.Field))
	case *ssa.Field:
		m.set(fr, x, m.get(fr, x.X).(*Agg).elems[x.Field])
	case *ssa.IndexAddr:
		m.set(fr, x, m.indexAddr(m.get(fr, x.X), m.idx64(m.get(fr, x.Index).(*Term), x.Index.Type()), x.X.Type()))
	case *ssa.Index:
		i := m.idx64(m.get(fr, x.Index).(*Term), x.Index.Type())
		switch c := m.get(fr, x.X).(type) {
		case *Agg:
			m.check2(tm.Ult(i, m.i64(len(c.elems))), "index out of range")
			if i.IsConst() {
				m.set(fr, x, c.elems[i.val])
			} else {
				v, ok := m.symSelect(i, len(c.elems), func(k int) Value { return c.elems[k] })
				if !ok {
					v = c.elems[m.concretize(i)]
				}
				m.set(fr, x, v)
			}
		case *Str:
			m.check2(tm.Ult(i, c.len), "index out of range")
			m.set(fr, x, m.strAt(c, i))
		default:
			panic(m.unsupported("index of %T", c))
		}
	case *ssa.Lookup:
		c := m.get(fr, x.X)
		if s, ok := c.(*Str); ok {
			i := m.idx64(m.get(fr, x.Index).(*Term), x.Index.Type())
			m.check2(tm.Ult(i, s.len), "index out of range")
			m.set(fr, x, m.strAt(s, i))
			return
		}
		mp := c.(*MapV)
		key := m.get(fr, x.Index)
		i := m.mapFind(mp, key)
		var v Value
		if i >= 0 {
			v = copyVal(mp.vals[i])
		} else {
			v = m.zero(x.X.Type().Underlying().(*types.Map).Elem())
		}
		if x.CommaOk {
			m.set(fr, x, Tuple{v, tm.Bool(i >= 0)})
		} else {
			m.set(fr, x, v)
		}
	case *ssa.MapUpdate:
		mp := m.get(fr, x.Map).(*MapV)
		if mp == nil {
			panic(&goPanic{val: Iface{m.eng.runtimeErrType, m.str("assignment to entry in nil map")}, msg: "assignment to entry in nil map", pos: m.posRepo(), stack: m.stackStr()})
		}
		m.noSpec("map update")
		key, val := m.get(fr, x.Key), m.get(fr, x.Value)
		m.mapSet(mp, key, copyVal(val))
	case *ssa.MakeMap:
		m.set(fr, x, &MapV{})
	case *ssa.MakeSlice:
		l := m.idx64(m.get(fr, x.Len).(*Term), x.Len.Type())
		c := m.idx64(m.get(fr, x.Cap).(*Term), x.Cap.Type())
		if !l.IsConst() {
			m.check2(tm.Sle(m.i64(0), l), "makeslice: len out of range")
			l = tm.Const(m.concretize(l), 64)
		}
		if !c.IsConst() {
			m.check2(tm.Sle(l, c), "makeslice: cap out of range")
			c = tm.Const(m.concretize(c), 64)
		}
		if int64(l.val) < 0 || l.val > 1<<40 {
			m.goPanicRuntime("makeslice: len out of range")
		}
		if int64(c.val) < int64(l.val) {
			m.goPanicRuntime("makeslice: cap out of range")
		}
		if c.val > 1<<24 {
			panic(m.unsupported("make of %d elements", c.val))
		}
		m.set(fr, x, m.makeSlice(x.Type().Underlying().(*types.Slice).Elem(), int(l.val), int(c.val)))
	case *ssa.MakeInterface:
		m.set(fr, x, Iface{x.X.Type(), copyVal(m.get(fr, x.X))})
	case *ssa.MakeClosure:
		env := make([]Value, len(x.Bindings))
		for i, b := range x.Bindings {
			env[i] = m.get(fr, b)
		}
		m.set(fr, x, &Closure{fn: x.Fn.(*ssa.Function), env: env})
	case *ssa.ChangeType:
		m.set(fr, x, m.get(fr, x.X))
	case *ssa.ChangeInterface:
		m.set(fr, x, m.get(fr, x.X))
	case *ssa.Convert:
		m.set(fr, x, m.convert(m.get(fr, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		m.set(fr, x, m.convert(m.get(fr, x.X), x.X.Type(), x.Type()))
	case *ssa.SliceToArrayPointer:
		s := m.concSlice(m.get(fr, x.X).(*Slice))
		n := deref(x.Type()).Underlying().(*types.Array).Len()
		if int64(s.len.val) < n {
			m.goPanicRuntime("cannot convert slice to array pointer: length mismatch")
		}
		panic(m.unsupported("slice to array pointer"))
	case *ssa.Slice:
		m.set(fr, x, m.sliceOp(fr, x))
	case *ssa.Extract:
		m.set(fr, x, m.get(fr, x.Tuple).(Tuple)[x.Index])
	case *ssa.TypeAssert:
		m.set(fr, x, m.typeAssert(fr, x))
	case *ssa.Range:
		switch c := m.get(fr, x.X).(type) {
		case *MapV:
			m.set(fr, x, m.mapRange(c))
		case *Str:
			m.set(fr, x, &MapIter{str: c, spos: m.i64(0)})
		default:
			panic(m.unsupported("range over %T", c))
		}
	case *ssa.Next:
		m.set(fr, x, m.iterNext(fr, x))
	case *ssa.MakeChan, *ssa.Send, *ssa.Select:
		panic(m.unsupported("channel operation"))
	default:
		panic(m.unsupported("instruction %T", in))
	}
}

func (m *Machine) noSpec(why string) {
	if m.spec > 0 {
		panic(specAbort{why})
	}
}

func (m *Machine) ptr(v Value) Ptr {
	switch p := v.(type) {
	case Ptr:
		return p
	case UnsafePtr:
		if p.v == nil {
			return Ptr{}
		}
		return m.ptr(p.v)
	}
	panic(m.unsupported("pointer expected, got %T", v))
}

func (m *Machine) makeSlice(elem types.Type, l, c int) *Slice {
	a := &Agg{elems: make([]Value, c)}
	if c > 0 {
		z := m.zero(elem)
		_, agg := z.(*Agg)
		for i := range a.elems {
			if agg && i > 0 {
				a.elems[i] = m.zero(elem)
			} else {
				a.elems[i] = z
			}
		}
	}
	return &Slice{a, m.i64(0), m.i64(l), m.i64(c)}
}

func (m *Machine) indexAddr(c Value, i *Term, typ types.Type) Value {
	switch s := c.(type) {
	case *Slice:
		m.check2(m.tm.Ult(i, s.len), "index out of range")
		if s.arr == nil {
			m.goPanicRuntime("index out of range")
		}
		return Ptr{agg: s.arr, idx: m.tm.Add(s.off, i)}
	case Ptr:
		n := deref(typ).Underlying().(*types.Array).Len()
		if s.agg == nil {
			m.goPanicRuntime("invalid memory address or nil pointer dereference")
		}
		m.check2(m.tm.Ult(i, m.tm.Const(uint64(n), 64)), "index out of range")
		return Ptr{agg: m.targetAgg(s), idx: i}
	}
	panic(m.unsupported("IndexAddr of %T", c))
}

func (m *Machine) sliceOp(fr *frame, x *ssa.Slice) Value {
	tm := m.tm
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return m.idx64(m.get(fr, v).(*Term), v.Type())
	}
	lo, hi, mx := opt(x.Low), opt(x.High), opt(x.Max)
	if lo == nil {
		lo = m.i64(0)
	}
	switch c := m.get(fr, x.X).(type) {
	case *Str:
		if hi == nil {
			hi = c.len
		}
		m.check2(tm.Ule(hi, c.len), "slice bounds out of range")
		m.check2(tm.Ule(lo, hi), "slice bounds out of range")
		return &Str{c.elems, tm.Add(c.off, lo), tm.Sub(hi, lo)}
	case *Slice:
		if hi == nil {
			hi = c.len
		}
		cp := c.cap
		if mx != nil {
			m.check2(tm.Ule(mx, c.cap), "slice bounds out of range")
			cp = mx
		}
		m.check2(tm.Ule(hi, cp), "slice bounds out of range")
		m.check2(tm.Ule(lo, hi), "slice bounds out of range")
		if c.arr == nil {
			return c
		}
		return &Slice{c.arr, tm.Add(c.off, lo), tm.Sub(hi, lo), tm.Sub(cp, lo)}
	case Ptr:
		a := m.targetAgg(c)
		n := m.i64(len(a.elems))
		if hi == nil {
			hi = n
		}
		cp := n
		if mx != nil {
			m.check2(tm.Ule(mx, n), "slice bounds out of range")
			cp = mx
		}
		m.check2(tm.Ule(hi, cp), "slice bounds out of range")
		m.check2(tm.Ule(lo, hi), "slice bounds out of range")
		return &Slice{a, lo, tm.Sub(hi, lo), tm.Sub(cp, lo)}
	default:
		panic(m.unsupported("slice of %T", c))
	}
}

func (m *Machine) unop(fr *frame, x *ssa.UnOp) Value {
	v := m.get(fr, x.X)
	switch x.Op {
	case token.MUL:
		p := m.ptr(v)
		r := m.load(p)
		// reinterpretation through unsafe.Pointer
		if sl, ok := r.(*Slice); ok {
			if b, isB := x.Type().Underlying().(*types.Basic); isB && b.Info()&types.IsString != 0 {
				return m.bytesToStr(sl)
			}
		}
		return r
	case token.NOT:
		return m.tm.Not(v.(*Term))
	case token.SUB:
		switch t := v.(type) {
		case *Term:
			return m.tm.Neg(t)
		case float64:
			return -t
		}
	case token.XOR:
		return m.tm.BNot(v.(*Term))
	case token.ARROW:
		panic(m.unsupported("channel receive"))
	}
	panic(m.unsupported("unop %s on %T", x.Op, v))
}

func (m *Machine) binop(op token.Token, a, b Value, ta, tb types.Type) Value {
	tm := m.tm
	switch op {
	case token.EQL, token.NEQ:
		_, ai := a.(Iface)
		_, bi := b.(Iface)
		if ai && !bi {
			b = Iface{tb, b}
		} else if bi && !ai {
			a = Iface{ta, a}
		}
		r := m.eqValue(a, b)
		if op == token.NEQ {
			r = tm.Not(r)
		}
		return r
	}
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.w == 0 {
			switch op {
			case token.AND, token.LAND:
				return tm.And(x, y)
			case token.OR, token.LOR:
				return tm.Or(x, y)
			case token.XOR:
				return tm.Not(tm.Eq(x, y))
			}
			panic(m.unsupported("bool binop %s", op))
		}
		_, signed, _ := typeWidth(ta)
		switch op {
		case token.ADD:
			return tm.Add(x, y)
		case token.SUB:
			return tm.Sub(x, y)
		case token.MUL:
			return tm.Mul(x, y)
		case token.QUO, token.REM:
			m.check2(tm.Not(tm.Eq(y, tm.Const(0, y.w))), "integer divide by zero")
			switch {
			case op == token.QUO && signed:
				return tm.SDiv(x, y)
			case op == token.QUO:
				return tm.UDiv(x, y)
			case signed:
				return tm.SRem(x, y)
			default:
				return tm.URem(x, y)
			}
		case token.AND:
			return tm.BAnd(x, y)
		case token.OR:
			return tm.BOr(x, y)
		case token.XOR:
			return tm.BXor(x, y)
		case token.AND_NOT:
			return tm.BAnd(x, tm.BNot(y))
		case token.SHL, token.SHR:
			_, ysigned, _ := typeWidth(tb)
			if ysigned {
				m.check2(tm.Sle(tm.Const(0, y.w), y), "negative shift amount")
			}
			// bring the count to x's width, saturating
			var cnt *Term
			if y.w == x.w {
				cnt = y
			} else if y.w < x.w {
				cnt = tm.ZExt(y, x.w)
			} else {
				big := tm.Not(tm.Ult(y, tm.Const(uint64(x.w), y.w)))
				cnt = tm.Ite(big, tm.Const(uint64(x.w), x.w), tm.Extract(y, x.w-1, 0))
			}
			if op == token.SHL {
				return tm.Shl(x, cnt)
			}
			if signed {
				return tm.AShr(x, cnt)
			}
			return tm.LShr(x, cnt)
		case token.LSS:
			if signed {
				return tm.Slt(x, y)
			}
			return tm.Ult(x, y)
		case token.LEQ:
			if signed {
				return tm.Sle(x, y)
			}
			return tm.Ule(x, y)
		case token.GTR:
			if signed {
				return tm.Slt(y, x)
			}
			return tm.Ult(y, x)
		case token.GEQ:
			if signed {
				return tm.Sle(y, x)
			}
			return tm.Ule(y, x)
		}
	case *Str:
		y := b.(*Str)
		switch op {
		case token.ADD:
			return m.concat(x, y)
		case token.LSS:
			return m.strLess(x, y, false)
		case token.LEQ:
			return m.strLess(x, y, true)
		case token.GTR:
			return m.strLess(y, x, false)
		case token.GEQ:
			return m.strLess(y, x, true)
		}
	case float64:
		y := b.(float64)
		f32 := false
		if bt, ok := ta.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			f32 = true
		}
		r := func(f float64) Value {
			if f32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return r(x + y)
		case token.SUB:
			return r(x - y)
		case token.MUL:
			return r(x * y)
		case token.QUO:
			return r(x / y)
		case token.LSS:
			return tm.Bool(x < y)
		case token.LEQ:
			return tm.Bool(x <= y)
		case token.GTR:
			return tm.Bool(x > y)
		case token.GEQ:
			return tm.Bool(x >= y)
		}
	}
	panic(m.unsupported("binop %s on %T", op, a))
}

func (m *Machine) convert(v Value, from, to types.Type) Value {
	tm := m.tm
	fu, tu := from.Underlying(), to.Underlying()
	if _, ok := tu.(*types.TypeParam); ok {
		panic(m.unsupported("type param conversion"))
	}
	if wt, _, ok := typeWidth(tu); ok {
		switch x := v.(type) {
		case *Term:
			wf, signed, ok := typeWidth(fu)
			if !ok {
				panic(m.unsupported("conversion from %s", from))
			}
			if wt == wf {
				return x
			}
			if wt < wf {
				return tm.Extract(x, wt-1, 0)
			}
			if signed {
				return tm.SExt(x, wt)
			}
			return tm.ZExt(x, wt)
		case float64:
			return tm.Const(uint64(int64(x)), wt)
		case UnsafePtr:
			panic(m.unsupported("pointer to integer conversion"))
		}
	}
	if b, ok := tu.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsFloat != 0:
			switch x := v.(type) {
			case float64:
				if b.Kind() == types.Float32 {
					return float64(float32(x))
				}
				return x
			case *Term:
				_, signed, _ := typeWidth(fu)
				var val uint64
				if x.IsConst() {
					val = x.val
				} else {
					val = m.concretize(x)
				}
				if signed {
					return float64(sext(val, x.w))
				}
				return float64(val)
			}
		case b.Kind() == types.UnsafePointer:
			return UnsafePtr{v}
		case b.Info()&types.IsString != 0:
			switch x := v.(type) {
			case *Str:
				return x
			case *Slice:
				if ew, _, _ := typeWidth(fu.(*types.Slice).Elem()); ew == 8 {
					return m.bytesToStr(x)
				}
				// []rune
				r := m.emptyStr()
				for _, e := range m.sliceElems(x) {
					r = m.concat(r, m.runeToStr(e.(*Term)))
				}
				return r
			case *Term:
				_, signed, _ := typeWidth(fu)
				r := x
				if x.w < 32 {
					if signed {
						r = tm.SExt(x, 32)
					} else {
						r = tm.ZExt(x, 32)
					}
				} else if x.w > 32 {
					r = tm.Ite(tm.Ule(x, tm.Const(0x10FFFF, x.w)), tm.Extract(x, 31, 0), tm.Const(0xFFFD, 32))
				}
				return m.runeToStr(r)
			}
		}
	}
	if s, ok := tu.(*types.Slice); ok {
		switch x := v.(type) {
		case *Str:
			if ew, _, _ := typeWidth(s.Elem()); ew == 8 {
				c := m.concStr(x)
				e := append([]Value(nil), c.elems[c.off.val:c.off.val+c.len.val]...)
				if len(e) == 0 {
					return &Slice{&Agg{}, m.i64(0), m.i64(0), m.i64(0)}
				}
				return &Slice{&Agg{elems: e}, m.i64(0), m.i64(len(e)), m.i64(len(e))}
			}
			// []rune(string)
			var e []Value
			pos := m.i64(0)
			c := m.concStr(x)
			for pos.val < c.len.val {
				r, n := m.decodeRune(c, pos)
				e = append(e, r)
				pos = tm.Add(pos, tm.Const(m.concretize(n), 64))
			}
			return &Slice{&Agg{elems: e}, m.i64(0), m.i64(len(e)), m.i64(len(e))}
		case *Slice:
			return x
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		if u, ok := v.(UnsafePtr); ok {
			if u.v == nil {
				return Ptr{}
			}
			return u.v
		}
		return v
	}
	panic(m.unsupported("conversion %s -> %s of %T", from, to, v))
}

// runeToStr encodes a rune using unicode/utf8's own code.
func (m *Machine) runeToStr(r *Term) *Str {
	fn := m.eng.stdFunc("unicode/utf8", "AppendRune")
	s := m.callFn(fn, []Value{m.nilSlice(), r}, nil).(*Slice)
	return m.bytesToStr(s)
}

func (m *Machine) decodeRune(s *Str, pos *Term) (r, n *Term) {
	fn := m.eng.stdFunc("unicode/utf8", "DecodeRuneInString")
	t := m.callFn(fn, []Value{&Str{s.elems, m.tm.Add(s.off, pos), m.tm.Sub(s.len, pos)}}, nil).(Tuple)
	return t[0].(*Term), t[1].(*Term)
}

func (m *Machine) typeAssert(fr *frame, x *ssa.TypeAssert) Value {
	v := m.get(fr, x.X).(Iface)
	ok := false
	if v.typ != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = types.Implements(v.typ, it)
		} else {
			ok = types.Identical(v.typ, x.AssertedType)
		}
	}
	var r Value
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	if ok {
		if toIface {
			r = v
		} else {
			r = v.val
		}
	} else {
		if !x.CommaOk {
			m.goPanicRuntime("interface conversion failed")
		}
		r = m.zero(x.AssertedType)
	}
	if x.CommaOk {
		return Tuple{r, m.tm.Bool(ok)}
	}
	return r
}

// ---- maps -----------------------------------------------------------------

func (m *Machine) mapFind(mp *MapV, key Value) int {
	if mp == nil {
		return -1
	}
	if k, ok := constKey(key); ok && mp.other == 0 {
		if i, ok := mp.index[k]; ok && mp.alive[i] {
			return i
		}
		return -1
	}
	var sym []int
	for i := range mp.keys {
		if !mp.alive[i] {
			continue
		}
		c := m.eqValue(mp.keys[i], key)
		if c.IsTrue() {
			return i
		}
		if !c.IsFalse() {
			sym = append(sym, i)
		}
	}
	for _, i := range sym {
		if m.branch(m.eqValue(mp.keys[i], key)) {
			return i
		}
	}
	return -1
}

// constKey gives the value of a constant scalar key.
func constKey(key Value) (uint64, bool) {
	if t, ok := key.(*Term); ok && t.IsConst() {
		return t.val, true
	}
	return 0, false
}

func (m *Machine) mapSet(mp *MapV, key, val Value) {
	if i := m.mapFind(mp, key); i >= 0 {
		mp.vals[i] = val
		return
	}
	if k, ok := constKey(key); ok {
		if mp.index == nil {
			mp.index = map[uint64]int{}
		}
		mp.index[k] = len(mp.keys)
	} else {
		mp.other++
	}
	mp.keys = append(mp.keys, copyVal(key))
	mp.vals = append(mp.vals, val)
	mp.alive = append(mp.alive, true)
	mp.n++
}

func (m *Machine) mapDelete(mp *MapV, key Value) {
	m.noSpec("map delete")
	if i := m.mapFind(mp, key); i >= 0 {
		mp.alive[i] = false
		mp.n--
	}
}

func (m *Machine) mapRange(mp *MapV) *MapIter {
	m.noSpec("map range")
	it := &MapIter{m: mp}
	if mp == nil {
		return it
	}
	var live []int
	for i := range mp.keys {
		if mp.alive[i] {
			live = append(live, i)
		}
	}
	if m.mapOrderMax > 1 && len(live) > 1 && m.initing == nil {
		// unspecified iteration order: explore every order for small maps,
		// rotations and the reversal for larger ones
		if len(live) <= m.mapOrderMax {
			for len(live) > 0 {
				k := m.choose(len(live))
				it.order = append(it.order, live[k])
				live = append(live[:k:k], live[k+1:]...)
			}
			return it
		}
		if m.choose(2) == 1 {
			for i := len(live) - 1; i >= 0; i-- {
				it.order = append(it.order, live[i])
			}
			return it
		}
	}
	it.order = live
	return it
}

func (m *Machine) iterNext(fr *frame, x *ssa.Next) Value {
	it := m.get(fr, x.Iter).(*MapIter)
	tm := m.tm
	if x.IsString {
		if !m.branch(tm.Ult(it.spos, it.str.len)) {
			return Tuple{tm.False, m.i64(0), tm.Const(0, 32)}
		}
		r, n := m.decodeRune(it.str, it.spos)
		pos := it.spos
		m.noSpec("string iteration")
		it.spos = tm.Add(pos, tm.Const(m.concretize(n), 64))
		return Tuple{tm.True, pos, r}
	}
	m.noSpec("map iteration")
	for it.pos < len(it.order) {
		i := it.order[it.pos]
		it.pos++
		if it.m.alive[i] {
			return Tuple{tm.True, it.m.keys[i], copyVal(it.m.vals[i])}
		}
	}
	tt := x.Type().(*types.Tuple)
	z := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return tm.False
		}
		return m.zero(t)
	}
	return Tuple{tm.False, z(tt.At(1).Type()), z(tt.At(2).Type())}
}

// ---- calls ----------------------------------------------------------------

func (m *Machine) prepCall(fr *frame, c *ssa.CallCommon) (*Closure, []Value) {
	var args []Value
	if c.IsInvoke() {
		recv := m.get(fr, c.Value).(Iface)
		if recv.typ == nil {
			m.goPanicRuntime("invalid memory address or nil pointer dereference")
		}
		fn := m.lookup(recv.typ, c.Method)
		args = append(args, recv.val)
		for _, a := range c.Args {
			args = append(args, m.get(fr, a))
		}
		return m.funcValue(fn), args
	}
	for _, a := range c.Args {
		args = append(args, m.get(fr, a))
	}
	switch f := c.Value.(type) {
	case *ssa.Function:
		return m.funcValue(f), args
	case *ssa.Builtin:
		ct := c
		return &Closure{nat: func(m *Machine, args []Value) Value { return m.builtin(f.Name(), args, ct, nil) }}, args
	}
	cl := m.get(fr, c.Value).(*Closure)
	return cl, args
}

func (m *Machine) lookup(t types.Type, meth *types.Func) *ssa.Function {
	k := methodKey{t, meth.Id()}
	if f, ok := m.methodCache[k]; ok {
		return f
	}
	f := m.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	if f == nil {
		panic(m.unsupported("no method %s on %s", meth.Name(), t))
	}
	m.methodCache[k] = f
	return f
}

func (m *Machine) call(fr *frame, c *ssa.CallCommon, rt types.Type) Value {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		args := make([]Value, len(c.Args))
		for i, a := range c.Args {
			args[i] = m.get(fr, a)
		}
		return m.builtin(b.Name(), args, c, rt)
	}
	fn, args := m.prepCall(fr, c)
	return m.callClosure(fn, args)
}

func (m *Machine) builtin(name string, args []Value, c *ssa.CallCommon, rt types.Type) Value {
	tm := m.tm
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *Slice:
			return x.len
		case *Str:
			return x.len
		case *MapV:
			if x == nil {
				return m.i64(0)
			}
			return m.i64(x.n)
		case *Agg:
			return m.i64(len(x.elems))
		case Ptr:
			return tm.Const(uint64(deref(c.Args[0].Type()).Underlying().(*types.Array).Len()), 64)
		}
	case "cap":
		switch x := args[0].(type) {
		case *Slice:
			return x.cap
		case *Agg:
			return m.i64(len(x.elems))
		case Ptr:
			return tm.Const(uint64(deref(c.Args[0].Type()).Underlying().(*types.Array).Len()), 64)
		}
	case "append":
		return m.appendOp(args, c)
	case "copy":
		dst := args[0].(*Slice)
		var src []Value
		var srcLen *Term
		switch s := args[1].(type) {
		case *Slice:
			srcLen = s.len
		case *Str:
			srcLen = s.len
		}
		n := tm.Ite(tm.Ult(srcLen, dst.len), srcLen, dst.len)
		nn := m.concretize(n)
		if nn == 0 {
			return m.i64(0)
		}
		src = make([]Value, nn)
		switch s := args[1].(type) {
		case *Slice:
			for i := range src {
				src[i] = m.load(Ptr{agg: s.arr, idx: tm.Add(s.off, m.i64(i))})
			}
		case *Str:
			for i := range src {
				src[i] = m.strAt(s, m.i64(i))
			}
		}
		for i, v := range src {
			m.store(Ptr{agg: dst.arr, idx: tm.Add(dst.off, m.i64(i))}, v)
		}
		return tm.Const(nn, 64)
	case "delete":
		if mp := args[0].(*MapV); mp != nil {
			m.mapDelete(mp, args[1])
		}
		return Tuple{}
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			m.noSpec("map clear")
			if x != nil {
				for i := range x.alive {
					x.alive[i] = false
				}
				x.n = 0
			}
		case *Slice:
			x = m.concSlice(x)
			if x.arr != nil {
				et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
				for i := uint64(0); i < x.len.val; i++ {
					m.assign(x.arr, int(x.off.val+i), m.zero(et))
				}
			}
		}
		return Tuple{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			lt := m.binop(token.LSS, a, r, c.Args[0].Type(), c.Args[0].Type()).(*Term)
			if name == "max" {
				lt = m.binop(token.LSS, r, a, c.Args[0].Type(), c.Args[0].Type()).(*Term)
			}
			v, ok := m.mergeValue(lt, a, r, true)
			if !ok {
				if m.branch(lt) {
					v = a
				} else {
					v = r
				}
			}
			r = v
		}
		return r
	case "print", "println":
		return Tuple{}
	case "recover":
		// valid when called directly by a deferred function
		if n := len(m.deferring); n > 0 {
			df := m.deferring[n-1]
			if m.cur != nil && m.cur.caller == df && df.panic != nil {
				v := df.panic.val
				df.panic = nil
				if f, ok := v.(Iface); ok {
					return f
				}
				return Iface{m.eng.runtimeErrType, v}
			}
		}
		return Iface{}
	case "ssa:wrapnilchk":
		p := m.ptr(args[0])
		if p.agg == nil {
			m.goPanicRuntime("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		p := m.ptr(args[0])
		n := m.idx64(args[1].(*Term), c.Args[1].Type())
		if p.agg == nil {
			m.check2(tm.Eq(n, m.i64(0)), "unsafe.String: ptr is nil and len is not zero")
			return m.emptyStr()
		}
		if p.sub != "" {
			panic(m.unsupported("unsafe.String of nested pointer"))
		}
		m.check2(tm.Sle(m.i64(0), n), "unsafe.String: len out of range")
		end := tm.Add(p.idx, n)
		m.unsafeCheck(tm.Ule(end, m.i64(len(p.agg.elems))), "unsafe.String reads past the end of its object")
		p.agg.shared = true
		return &Str{p.agg.elems, p.idx, n}
	case "StringData":
		s := m.concStr(args[0].(*Str))
		if s.len.val == 0 {
			return Ptr{}
		}
		return Ptr{agg: &Agg{elems: append([]Value(nil), s.elems...)}, idx: s.off}
	case "SliceData":
		s := args[0].(*Slice)
		if s.arr == nil {
			return Ptr{}
		}
		return Ptr{agg: s.arr, idx: s.off}
	case "Slice": // unsafe.Slice
		p := m.ptr(args[0])
		n := m.idx64(args[1].(*Term), c.Args[1].Type())
		if p.agg == nil {
			return m.nilSlice()
		}
		m.unsafeCheck(tm.Ule(tm.Add(p.idx, n), m.i64(len(p.agg.elems))), "unsafe.Slice reads past the end of its object")
		return &Slice{p.agg, p.idx, n, n}
	}
	panic(m.unsupported("builtin %s on %T", name, args))
}

// unsafeCheck reports an out-of-object access that Go itself does not detect.
func (m *Machine) unsafeCheck(c *Term, msg string) {
	if c.IsTrue() {
		return
	}
	if !m.branch(c) {
		panic(&goPanic{val: Iface{m.eng.runtimeErrType, m.str(msg)}, msg: "memory safety: " + msg, pos: m.posRepo(), stack: m.stackStr()})
	}
}

func (m *Machine) appendOp(args []Value, c *ssa.CallCommon) Value {
	dst := args[0].(*Slice)
	var add []Value
	if len(args) > 1 {
		switch s := args[1].(type) {
		case *Slice:
			for _, e := range m.sliceElems(s) {
				add = append(add, copyVal(e))
			}
		case *Str:
			s = m.concStr(s)
			add = append(add, s.elems[s.off.val:s.off.val+s.len.val]...)
		}
	}
	if len(add) == 0 {
		return dst
	}
	dst = m.concSlice(dst)
	l, cp, off := int(dst.len.val), int(dst.cap.val), int(dst.off.val)
	n := l + len(add)
	if n <= cp {
		for i, v := range add {
			m.assign(dst.arr, off+l+i, v)
		}
		return &Slice{dst.arr, dst.off, m.i64(n), dst.cap}
	}
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	nc := growCap(cp, n, int(m.eng.sizes.Sizeof(et)))
	a := &Agg{elems: make([]Value, nc)}
	for i := 0; i < l; i++ {
		a.elems[i] = copyVal(dst.arr.elems[off+i])
	}
	for i, v := range add {
		a.elems[l+i] = v
	}
	if nc > n {
		z := m.zero(et)
		_, agg := z.(*Agg)
		for i := n; i < nc; i++ {
			if agg {
				a.elems[i] = m.zero(et)
			} else {
				a.elems[i] = z
			}
		}
	}
	return &Slice{a, m.i64(0), m.i64(n), m.i64(nc)}
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap mimics runtime.growslice.
func growCap(oldCap, newLen, size int) int {
	nc := oldCap
	if d := 2 * oldCap; newLen > d {
		nc = newLen
	} else if oldCap < 256 {
		nc = d
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if size == 0 {
		return nc
	}
	mem := nc * size
	if mem <= 32768-8 {
		for _, s := range sizeClasses {
			if s >= mem {
				mem = s
				break
			}
		}
	} else {
		mem = (mem + 8191) &^ 8191
	}
	return mem / size
}

var _ = math.MaxInt
var _ = strings.HasPrefix
var _ = fmt.Sprint
