package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsicFn func(m *Machine, args []Value) Value

// Harness vocabulary. Everything else that is intercepted is listed in
// libIntrinsics and is part of the trusted base (see DESIGN.md).
var harnessIntrinsics, libIntrinsics map[string]intrinsicFn

func init() {
	harnessIntrinsics = map[string]intrinsicFn{
		"vBool": func(m *Machine, a []Value) Value {
			v := m.newVar("b", 8, 0, 1)
			t := m.tm.Eq(v, m.tm.Const(1, 8))
			m.nondets = append(m.nondets, nondetRec{m.tm.ZExt(v, 64), v, "bool"})
			return t
		},
		"vU8":  func(m *Machine, a []Value) Value { return m.nondetInt(8, 0, 0xFF) },
		"vU16": func(m *Machine, a []Value) Value { return m.nondetInt(16, 0, 0xFFFF) },
		"vU32": func(m *Machine, a []Value) Value { return m.nondetInt(32, 0, 0xFFFFFFFF) },
		"vU64": func(m *Machine, a []Value) Value { return m.nondetInt(64, 0, ^uint64(0)) },
		"vInt": func(m *Machine, a []Value) Value {
			lo, hi := a[0].(*Term), a[1].(*Term)
			if !lo.IsConst() || !hi.IsConst() {
				panic(m.unsupported("vInt with symbolic limits"))
			}
			l, h := int64(lo.val), int64(hi.val)
			if l > h {
				panic(pathEnd{endInfeasible, "empty vInt range"})
			}
			n := uint64(h - l)
			w := uint8(1)
			for w < 64 && n > mask(w) {
				w++
			}
			v := m.newVar("i", w, 0, n)
			var t *Term
			if l >= 0 {
				t = m.tm.Add(m.tm.ZExt(v, 64), m.tm.Const(uint64(l), 64))
			} else {
				t = m.tm.Add(m.tm.ZExt(v, 64), m.tm.Const(uint64(l), 64))
			}
			m.nondets = append(m.nondets, nondetRec{t, v, "int"})
			return t
		},
		// vPick: like vInt, but always concrete (forks over every value).
		"vPick": func(m *Machine, a []Value) Value {
			lo, hi := a[0].(*Term), a[1].(*Term)
			l, h := int64(m.concretize(lo)), int64(m.concretize(hi))
			if l > h {
				panic(pathEnd{endInfeasible, "empty vPick range"})
			}
			v := m.newVar("p", 32, 0, uint64(h-l))
			k := m.concretize(v)
			t := m.tm.Const(uint64(l+int64(k)), 64)
			m.nondets = append(m.nondets, nondetRec{t, v, "pick"})
			return t
		},
		"vConc": func(m *Machine, a []Value) Value {
			return m.tm.Const(m.concretize(a[0].(*Term)), 64)
		},
		"vAssume": func(m *Machine, a []Value) Value {
			m.assume(a[0].(*Term))
			return Tuple{}
		},
		"vAssert": func(m *Machine, a []Value) Value {
			label, _ := a[1].(*Str).goStr()
			m.assertProp(a[0].(*Term), label)
			return Tuple{}
		},
		"vReach": func(m *Machine, a []Value) Value {
			label, _ := a[0].(*Str).goStr()
			m.run.reach(label)
			return Tuple{}
		},
		"vObs": func(m *Machine, a []Value) Value {
			m.noSpec("observation")
			label, _ := a[0].(*Str).goStr()
			m.obs = append(m.obs, obsRec{label, a[1].(*Term)})
			return Tuple{}
		},
		"vBound": func(m *Machine, a []Value) Value {
			if m.eng.thorough {
				return a[1]
			}
			return a[0]
		},
		"vMerge":     func(m *Machine, a []Value) Value { m.mergeOn = a[0].(*Term).val == 1; return Tuple{} },
		"vMergeInts": func(m *Machine, a []Value) Value { m.mergeInts = a[0].(*Term).val == 1; return Tuple{} },
		"vMapOrder":  func(m *Machine, a []Value) Value { m.mapOrderMax = int(a[0].(*Term).val); return Tuple{} },
		"vSymRand": func(m *Machine, a []Value) Value {
			m.randBytes, m.randReads = a[0].(*Term).val, int(a[1].(*Term).val)
			return Tuple{}
		},
		"vStop": func(m *Machine, a []Value) Value { m.noSpec("stop"); panic(pathEnd{endOK, "stop"}) },
		"vB2I": func(m *Machine, a []Value) Value {
			return m.tm.Ite(a[0].(*Term), m.tm.Const(1, 64), m.tm.Const(0, 64))
		},
		"vSymbolic": func(m *Machine, a []Value) Value { return m.tm.True },
	}
}

func (m *Machine) nondetInt(w uint8, lo, up uint64) Value {
	v := m.newVar("u", w, lo, up)
	m.nondets = append(m.nondets, nondetRec{m.tm.ZExt(v, 64), v, "u"})
	return v
}

func (m *Machine) assume(c *Term) {
	if c.IsTrue() {
		return
	}
	m.noSpec("assume")
	if !m.branchQuiet(c) {
		panic(pathEnd{endInfeasible, "assumption"})
	}
}

// branchQuiet follows only the true side of c (assumptions).
func (m *Machine) branchQuiet(c *Term) bool {
	if c.IsConst() {
		return c.val == 1
	}
	if v, ok := m.knownVal(c); ok {
		return v
	}
	if c = m.simp(c); c.IsConst() {
		return c.val == 1
	}
	if m.replaying() {
		e := m.next()
		if e.kind == eForcedF {
			return false
		}
		m.addPC(c)
		m.activatePending()
		return true
	}
	if m.hasMod && m.evalBool(c) {
		m.trace = append(m.trace, traceEntry{kind: eForcedT})
		m.addPC(c)
		return true
	}
	r, mod := m.check(c)
	if r == Unsat {
		m.trace = append(m.trace, traceEntry{kind: eForcedF})
		return false
	}
	m.trace = append(m.trace, traceEntry{kind: eForcedT})
	m.addPC(c)
	if r == Sat {
		m.setModel(mod)
	} else {
		m.hasMod = false
	}
	return true
}

// assertProp decides an assertion over every value of the current path.
func (m *Machine) assertProp(c *Term, label string) {
	m.run.assertion(label)
	if c.IsTrue() {
		m.run.stat(&m.run.TrivialAsserts)
		return
	}
	if v, ok := m.knownVal(c); ok && v {
		m.run.stat(&m.run.TrivialAsserts)
		return
	}
	if c = m.simp(c); c.IsTrue() {
		m.run.stat(&m.run.TrivialAsserts)
		return
	}
	if m.replaying() {
		// already decided on the path that created this prefix
		e := m.next()
		if e.kind != eForcedT {
			panic(pathEnd{endInfeasible, "after a violated assertion"})
		}
		m.addPC(c)
		m.activatePending()
		return
	}
	nc := m.tm.Not(c)
	r, mod := m.check(nc)
	switch r {
	case Unsat:
		m.run.stat(&m.run.Discharged)
		m.trace = append(m.trace, traceEntry{kind: eForcedT})
		m.learn(c, true)
		return
	case Unknown:
		m.run.undecided(label, m.where())
		m.trace = append(m.trace, traceEntry{kind: eForcedT})
		m.addPC(c)
		m.hasMod = false
		return
	}
	m.run.violation(m, "assert", label, m.posRepo(), mod, m.stackStr())
	// continue with the values for which it holds
	m.noSpec("violated assertion")
	r, mod = m.check(c)
	if r == Sat {
		m.trace = append(m.trace, traceEntry{kind: eForcedT})
		m.addPC(c)
		m.setModel(mod)
		return
	}
	panic(pathEnd{endInfeasible, "after a violated assertion"})
}

func nop(m *Machine, a []Value) Value { return Tuple{} }

func init() {
	libIntrinsics = map[string]intrinsicFn{
		"(*sync.Mutex).Lock":      nop,
		"(*sync.Mutex).Unlock":    nop,
		"(*sync.RWMutex).Lock":    nop,
		"(*sync.RWMutex).Unlock":  nop,
		"(*sync.RWMutex).RLock":   nop,
		"(*sync.RWMutex).RUnlock": nop,
		"sync/atomic.CompareAndSwapUint32": func(m *Machine, a []Value) Value {
			p := a[0].(Ptr)
			if m.branch(m.eqValue(m.load(p), a[1])) {
				m.store(p, a[2])
				return m.tm.True
			}
			return m.tm.False
		},
		"(*sync.Once).Do": func(m *Machine, a []Value) Value {
			st := m.ptr(a[0]).agg.elems[m.ptr(a[0]).idx.val].(*Agg)
			// first field that is an integer serves as done flag
			key := st
			if m.onceDone == nil {
				m.onceDone = map[*Agg]bool{}
			}
			if m.onceDone[key] {
				return Tuple{}
			}
			m.noSpec("once")
			m.onceDone[key] = true
			m.callClosure(a[1].(*Closure), nil)
			return Tuple{}
		},
		"fmt.Errorf": func(m *Machine, a []Value) Value {
			return m.newError(m.fmtStr(a))
		},
		"fmt.Sprintf":   func(m *Machine, a []Value) Value { return m.fmtStr(a) },
		"fmt.Sprint":    func(m *Machine, a []Value) Value { return m.str("<fmt>") },
		"fmt.Sprintln":  func(m *Machine, a []Value) Value { return m.str("<fmt>") },
		"fmt.Printf":    func(m *Machine, a []Value) Value { return Tuple{m.i64(0), Iface{}} },
		"fmt.Println":   func(m *Machine, a []Value) Value { return Tuple{m.i64(0), Iface{}} },
		"fmt.Print":     func(m *Machine, a []Value) Value { return Tuple{m.i64(0), Iface{}} },
		"strings.Clone": func(m *Machine, a []Value) Value { return a[0] },
		"internal/bytealg.MakeNoZero": func(m *Machine, a []Value) Value {
			n := int(m.concretize(a[0].(*Term)))
			return m.makeSlice(types.Typ[types.Uint8], n, n)
		},
		"internal/bytealg.IndexByteString": func(m *Machine, a []Value) Value {
			s := m.concStr(a[0].(*Str))
			for i := uint64(0); i < s.len.val; i++ {
				if m.branch(m.tm.Eq(m.strAt(s, m.tm.Const(i, 64)), a[1].(*Term))) {
					return m.tm.Const(i, 64)
				}
			}
			return m.tm.Const(^uint64(0), 64)
		},
		"internal/bytealg.IndexByte": func(m *Machine, a []Value) Value {
			for i, e := range m.sliceElems(a[0].(*Slice)) {
				if m.branch(m.tm.Eq(e.(*Term), a[1].(*Term))) {
					return m.i64(i)
				}
			}
			return m.tm.Const(^uint64(0), 64)
		},
		"internal/bytealg.CountString": func(m *Machine, a []Value) Value {
			s := m.concStr(a[0].(*Str))
			n := m.i64(0)
			for i := uint64(0); i < s.len.val; i++ {
				n = m.tm.Add(n, m.tm.Ite(m.tm.Eq(m.strAt(s, m.tm.Const(i, 64)), a[1].(*Term)), m.i64(1), m.i64(0)))
			}
			return n
		},
		"internal/bytealg.Equal":         bytesEqual,
		"bytes.Equal":                    bytesEqual,
		"internal/bytealg.Compare":       bytesCompare,
		"bytes.Compare":                  bytesCompare,
		"internal/bytealg.CompareString": stringCompare,
		"strings.Compare":                stringCompare,
		"internal/stringslite.Clone":     func(m *Machine, a []Value) Value { return a[0] },
		"internal/abi.NoEscape":          func(m *Machine, a []Value) Value { return a[0] },
		"internal/race.ReadRange":        nop,
		"internal/race.WriteRange":       nop,
		"runtime.GC":                     nop,
		"runtime.KeepAlive":              nop,
		"sort.Slice":                     sortSlice,
		"sort.SliceStable":               sortSlice,
		"crypto/rand.Read": func(m *Machine, a []Value) Value {
			s := a[0].(*Slice)
			n := m.concretize(s.len)
			for i := uint64(0); i < n; i++ {
				var b *Term
				if m.randReads > 0 && i >= m.randBytes {
					b = m.tm.Const(0, 8)
				} else if m.randReads > 0 {
					b = m.nondetInt(8, 0, 255).(*Term)
				} else {
					// distinct well-mixed values (splitmix64)
					if m.spec > 0 {
						panic(specAbort{"rand"})
					}
					m.randCtr++
					z := m.randCtr * 0x9E3779B97F4A7C15
					z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
					z = (z ^ (z >> 27)) * 0x94D049BB133111EB
					b = m.tm.Const((z^(z>>31))&255, 8)
				}
				m.store(Ptr{agg: s.arr, idx: m.tm.Add(s.off, m.tm.Const(i, 64))}, b)
			}
			if m.randReads > 0 {
				m.randReads--
			}
			return Tuple{s.len, Iface{}}
		},
		"time.Now": func(m *Machine, a []Value) Value {
			// an arbitrary instant, exposed through the intrinsics below
			fn := m.eng.stdFunc("time", "Now")
			return m.zero(fn.Signature.Results().At(0).Type())
		},
		"(time.Time).Date": func(m *Machine, a []Value) Value {
			y := m.tm.ZExt(m.newVar("year", 16, 1970, 9999), 64)
			mo := m.tm.ZExt(m.newVar("month", 8, 1, 12), 64)
			d := m.tm.ZExt(m.newVar("day", 8, 1, 31), 64)
			leap := m.tm.And(m.tm.Eq(m.tm.URem(y, m.i64(4)), m.i64(0)), m.tm.Or(m.tm.Not(m.tm.Eq(m.tm.URem(y, m.i64(100)), m.i64(0))), m.tm.Eq(m.tm.URem(y, m.i64(400)), m.i64(0))))
			var isShort *Term = m.tm.False
			for _, k := range []int{4, 6, 9, 11} {
				isShort = m.tm.Or(isShort, m.tm.Eq(mo, m.i64(k)))
			}
			feb := m.tm.Eq(mo, m.i64(2))
			lim := m.tm.Ite(feb, m.tm.Ite(leap, m.i64(29), m.i64(28)), m.tm.Ite(isShort, m.i64(30), m.i64(31)))
			m.assume(m.tm.Ule(d, lim))
			return Tuple{y, mo, d}
		},
		"(time.Time).UTC":      func(m *Machine, a []Value) Value { return a[0] },
		"(time.Time).Unix":     func(m *Machine, a []Value) Value { return m.newVar("unix", 64, 0, ^uint64(0)) },
		"(time.Time).UnixNano": func(m *Machine, a []Value) Value { return m.newVar("unixnano", 64, 0, ^uint64(0)) },
	}
}

// fmtExact models the verbs %d, %0Nd, %s, %v and %% over integers and strings.
func (m *Machine) fmtExact(a []Value) (*Str, bool) {
	f, ok := a[0].(*Str).goStr()
	if !ok {
		return nil, false
	}
	args := m.concSlice(a[1].(*Slice))
	next := 0
	var out []Value
	lit := func(s string) {
		for i := 0; i < len(s); i++ {
			out = append(out, m.tm.Const(uint64(s[i]), 8))
		}
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit(f[i : i+1])
			continue
		}
		i++
		zero, width := false, 0
		for ; i < len(f) && f[i] >= '0' && f[i] <= '9'; i++ {
			if f[i] == '0' && width == 0 {
				zero = true
			}
			width = width*10 + int(f[i]-'0')
		}
		if i >= len(f) {
			return nil, false
		}
		if f[i] == '%' {
			lit("%")
			continue
		}
		if args.arr == nil || uint64(next) >= args.len.val {
			return nil, false
		}
		arg := args.arr.elems[args.off.val+uint64(next)].(Iface)
		next++
		switch v := arg.val.(type) {
		case *Str:
			if (f[i] != 's' && f[i] != 'v') || width != 0 {
				return nil, false
			}
			v = m.concStr(v)
			out = append(out, v.elems[v.off.val:v.off.val+v.len.val]...)
		case *Term:
			b, isB := arg.typ.Underlying().(*types.Basic)
			if (f[i] != 'd' && f[i] != 'v') || v.w == 0 || !isB || (width != 0 && !zero) {
				return nil, false
			}
			if _, named := arg.typ.(*types.Named); named && f[i] == 'v' {
				return nil, false
			}
			x := m.tm.ZExt(v, 64)
			if b.Info()&types.IsUnsigned == 0 {
				x = m.tm.SExt(v, 64)
				if m.branch(m.tm.Slt(x, m.i64(0))) {
					return nil, false
				}
			}
			n, p := 1, uint64(10)
			for n < 20 && !m.branch(m.tm.Ult(x, m.tm.Const(p, 64))) {
				n, p = n+1, p*10
			}
			if n < width {
				n = width
			}
			digits := make([]Value, n)
			q := m.tm.Extract(x, 31, 0)
			if x.up >= 1<<32 {
				return nil, false
			}
			for k := n - 1; k >= 0; k-- {
				ten := m.tm.Const(10, 32)
				digits[k] = m.tm.Add(m.tm.Extract(m.tm.URem(q, ten), 7, 0), m.tm.Const('0', 8))
				q = m.tm.UDiv(q, ten)
			}
			out = append(out, digits...)
		default:
			return nil, false
		}
	}
	return &Str{out, m.tm.Const(0, 64), m.i64(len(out))}, true
}

func (m *Machine) fmtStr(a []Value) *Str {
	if m.run != nil && m.run.Cfg.Fmt && len(a) == 2 {
		if s, ok := m.fmtExact(a); ok {
			return s
		}
		panic(m.unsupported("formatting"))
	}
	// formatting is not the subject of any property: keep the format string,
	// and make the text depend on nothing symbolic
	if s, ok := a[0].(*Str); ok {
		return s
	}
	return m.str("<fmt>")
}

func (m *Machine) newError(s *Str) Value {
	fn := m.eng.stdFunc("errors", "New")
	return m.callFn(fn, []Value{s}, nil)
}

func bytesEqual(m *Machine, a []Value) Value {
	x, y := a[0].(*Slice), a[1].(*Slice)
	return m.strEq(m.bytesToStr(x), m.bytesToStr(y))
}

func bytesCompare(m *Machine, a []Value) Value {
	return stringCompare(m, []Value{m.bytesToStr(a[0].(*Slice)), m.bytesToStr(a[1].(*Slice))})
}

func stringCompare(m *Machine, a []Value) Value {
	x, y := m.concStr(a[0].(*Str)), m.concStr(a[1].(*Str))
	lt, eq := m.strLess(x, y, false), m.strEq(x, y)
	return m.tm.Ite(lt, m.tm.Const(^uint64(0), 64), m.tm.Ite(eq, m.i64(0), m.i64(1)))
}

// sortSlice sorts by insertion through the given less function. The result of
// the library sort for elements that compare equal is unspecified; insertion
// gives the stable order.
func sortSlice(m *Machine, a []Value) Value {
	m.noSpec("sort")
	s := m.concSlice(a[0].(Iface).val.(*Slice))
	less := a[1].(*Closure)
	n := int(s.len.val)
	if s.arr == nil {
		return Tuple{}
	}
	off := int(s.off.val)
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			r := m.callClosure(less, []Value{m.i64(j), m.i64(j - 1)}).(*Term)
			if !m.branch(r) {
				break
			}
			x, y := copyVal(s.arr.elems[off+j]), copyVal(s.arr.elems[off+j-1])
			m.assign(s.arr, off+j, y)
			m.assign(s.arr, off+j-1, x)
		}
	}
	return Tuple{}
}

func (m *Machine) intrinsic(fn *ssa.Function) (intrinsicFn, bool) {
	k, ok := m.eng.intrKind(fn)
	if !ok {
		return nil, false
	}
	return k, true
}

func (e *Engine) intrKind(fn *ssa.Function) (intrinsicFn, bool) {
	if v, ok := e.intrCache.Load(fn); ok {
		if v == nil {
			return nil, false
		}
		f, _ := v.(intrinsicFn)
		return f, f != nil
	}
	var f intrinsicFn
	if fn.Pkg != nil && fn.Parent() == nil && fn.Signature.Recv() == nil {
		if e.repoPkgs[fn.Pkg] {
			f = harnessIntrinsics[fn.Name()]
			if e.stubFor != nil && f == nil {
				f = e.stubFor(fn)
			}
		}
	}
	if f == nil {
		name := fn.String()
		if fn.Origin() != nil {
			name = fn.Origin().String()
		}
		f = libIntrinsics[name]
		if f == nil {
			switch {
			case strings.HasPrefix(name, "fmt.Fprint"):
				f = func(m *Machine, a []Value) Value { return Tuple{m.i64(0), Iface{}} }
			}
		}
		// redirections to harness functions: vStub_<pkg>_<recv>_<name>
		if f == nil && !e.repoPkgs[fn.Pkg] {
			if target := e.redirect(fn); target != nil {
				f = func(m *Machine, a []Value) Value { return m.callFn(target, a, nil) }
			}
		}
	}
	e.intrCache.Store(fn, f)
	return f, f != nil
}
