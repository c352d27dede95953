package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- path control -------------------------------------------------------

type entryKind uint8

const (
	eForcedT entryKind = iota
	eForcedF
	eForkT
	eForkF
	eMerge
	eSoft // merge at a soft join (inside of a loop)
	eVal
)

type traceEntry struct {
	kind entryKind
	val  uint64
}

type pathEndKind int

const (
	endOK pathEndKind = iota
	endInfeasible
	endPanic
	endUnsupported
	endLimit
	endUnknown
)

func (k pathEndKind) String() string {
	return [...]string{"completed", "infeasible", "panicked", "unsupported", "limit", "unknown"}[k]
}

type pathEnd struct {
	kind pathEndKind
	msg  string
}

type specAbort struct{ why string }

// goPanic is a Go-level panic of the interpreted program.
type goPanic struct {
	val   Value // Iface
	msg   string
	pos   string
	stack string
}

type frame struct {
	fn        *ssa.Function
	fi        *funcInfo
	regs      []Value
	defers    []deferred
	closure   *Closure
	result    Value
	panic     *goPanic // panic being unwound through this frame
	recovered bool
	caller    *frame
	instr     ssa.Instruction
	isDefer   *frame // frame whose deferred call this is
}

type deferred struct {
	fn   *Closure
	inv  func()
	args []Value
}

type funcInfo struct {
	idx     map[ssa.Value]int
	nregs   int
	pdom    []int          // immediate postdominator block index, -1 = exit
	soft    []int          // join inside of the innermost loop, ignoring the ways out; -1 = none
	regions map[int][]bool // blocks from which a join can be reached, by region
	canSpec bool
	mu      sync.Mutex
}

var funcInfos sync.Map

func infoOf(fn *ssa.Function) *funcInfo {
	if v, ok := funcInfos.Load(fn); ok {
		return v.(*funcInfo)
	}
	fi := &funcInfo{idx: map[ssa.Value]int{}, canSpec: true}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.nregs
		fi.nregs++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			switch in.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				fi.canSpec = false
			}
		}
	}
	fi.pdom = postDominators(fn)
	fi.softJoins(fn)
	funcInfos.Store(fn, fi)
	return fi
}

// reach tells from which blocks the join of the region that starts at b can be
// reached (without leaving the innermost loop of b when the join is soft).
func (fi *funcInfo) reach(fn *ssa.Function, b *ssa.BasicBlock, join int, soft bool) []bool {
	key := -1 - join
	var body []bool
	if soft {
		key = b.Index + 1
		_, body = innerLoop(fn, b)
	}
	fi.mu.Lock()
	defer fi.mu.Unlock()
	if r, ok := fi.regions[key]; ok {
		return r
	}
	r := make([]bool, len(fn.Blocks))
	if join >= 0 {
		r[join] = true
	}
	for changed := true; changed; {
		changed = false
		for i, x := range fn.Blocks {
			if r[i] || (soft && !body[i]) {
				continue
			}
			ok := false
			if join < 0 && len(x.Succs) == 0 {
				_, isPanic := x.Instrs[len(x.Instrs)-1].(*ssa.Panic)
				ok = !isPanic
			}
			for _, s := range x.Succs {
				ok = ok || r[s.Index]
			}
			if ok {
				r[i], changed = true, true
			}
		}
	}
	if fi.regions == nil {
		fi.regions = map[int][]bool{}
	}
	fi.regions[key] = r
	return r
}

// innerLoop returns the header and the blocks of the innermost natural loop
// that contains b.
func innerLoop(fn *ssa.Function, b *ssa.BasicBlock) (*ssa.BasicBlock, []bool) {
	var head *ssa.BasicBlock
	var best []bool
	size := 0
	for _, h := range fn.Blocks {
		if !h.Dominates(b) {
			continue
		}
		body := make([]bool, len(fn.Blocks))
		n := 0
		var visit func(x *ssa.BasicBlock)
		visit = func(x *ssa.BasicBlock) {
			if body[x.Index] {
				return
			}
			body[x.Index] = true
			n++
			for _, p := range x.Preds {
				if x != h {
					visit(p)
				}
			}
		}
		for _, p := range h.Preds {
			if h.Dominates(p) {
				body[h.Index] = true
				visit(p)
			}
		}
		if body[h.Index] && n == 0 {
			n = 1
		}
		if n > 0 && body[b.Index] && (head == nil || n < size) {
			head, best, size = h, body, n
		}
	}
	return head, best
}

// softJoins computes, for branches inside of loops whose sides don't join
// inside of the loop because of ways out of it (breaks, returns), where the
// sides that stay in the loop join.
func (fi *funcInfo) softJoins(fn *ssa.Function) {
	n := len(fn.Blocks)
	fi.soft = make([]int, n)
	for i := range fi.soft {
		fi.soft[i] = -1
	}
	for bi, b := range fn.Blocks {
		if len(b.Succs) != 2 {
			continue
		}
		head, body := innerLoop(fn, b)
		if head == nil {
			continue
		}
		if pd := fi.pdom[bi]; pd >= 0 && body[pd] && pd != head.Index {
			continue
		}
		// postdominators towards the header, ignoring the ways out
		const end = -1
		sets := make([]map[int]bool, n)
		for changed := true; changed; {
			changed = false
			for i := n - 1; i >= 0; i-- {
				if !body[i] {
					continue
				}
				var s map[int]bool
				for _, x := range fn.Blocks[i].Succs {
					var t map[int]bool
					if x == head {
						t = map[int]bool{end: true}
					} else if body[x.Index] {
						t = sets[x.Index]
					}
					if t == nil {
						continue
					}
					if s == nil {
						s = t
						continue
					}
					r := map[int]bool{}
					for k := range s {
						if t[k] {
							r[k] = true
						}
					}
					s = r
				}
				if s == nil {
					continue
				}
				ns := map[int]bool{i: true}
				for k := range s {
					ns[k] = true
				}
				if sets[i] == nil || len(ns) != len(sets[i]) {
					sets[i] = ns
					changed = true
				}
			}
		}
		both := true
		for _, x := range b.Succs {
			both = both && (x == head || (body[x.Index] && sets[x.Index] != nil))
		}
		if !both || sets[bi] == nil {
			continue
		}
		join, best := head.Index, -1
		for k := range sets[bi] {
			if k != bi && k != end && len(sets[k]) > best {
				best, join = len(sets[k]), k
			}
		}
		if join == fi.pdom[bi] {
			continue
		}
		fi.soft[bi] = join
	}
}

// postDominators returns the immediate postdominators, treating blocks that
// end in panic as not constraining (they have no path to the exit).
func postDominators(fn *ssa.Function) []int {
	n := len(fn.Blocks)
	const exit = -1
	// iterative set-based computation (functions are small)
	full := make([]map[int]bool, n)
	isPanic := make([]bool, n)
	for i, b := range fn.Blocks {
		if len(b.Succs) == 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); ok {
				isPanic[i] = true
			}
		}
		full[i] = nil // nil = all
	}
	inter := func(a, b map[int]bool) map[int]bool {
		if a == nil {
			return b
		}
		if b == nil {
			return a
		}
		r := map[int]bool{}
		for k := range a {
			if b[k] {
				r[k] = true
			}
		}
		return r
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			var s map[int]bool
			if len(b.Succs) == 0 {
				if isPanic[i] {
					continue
				}
				s = map[int]bool{exit: true}
			} else {
				for _, x := range b.Succs {
					s = inter(s, full[x.Index])
				}
				if s == nil {
					continue
				}
			}
			ns := map[int]bool{i: true}
			for k := range s {
				ns[k] = true
			}
			if full[i] == nil || len(ns) != len(full[i]) {
				full[i] = ns
				changed = true
			}
		}
	}
	res := make([]int, n)
	for i := range res {
		res[i] = exit
		// the immediate postdominator is the strict postdominator with the
		// largest postdominator set
		best := -1
		for k := range full[i] {
			if k == i || k == exit {
				continue
			}
			if len(full[k]) > best {
				best = len(full[k])
				res[i] = k
			}
		}
	}
	return res
}

// ---- machine --------------------------------------------------------------

type nondetRec struct {
	t    *Term // value as handed to the program
	v    *Term // underlying variable
	kind string
}

type WorkItem struct {
	prefix []traceEntry
	model  []uint64 // values of variables by sequence number (optional)
}

type Machine struct {
	eng      *Engine
	prog     *ssa.Program
	tm       *TermMgr
	sol      *Solver
	pc       []pcItem
	known    map[int32]bool
	klog     []int32
	pins     map[int32]*Term
	pinLog   []int32
	kgen     int
	simpGen  int
	simpMemo map[int32]*Term
	model    map[int32]uint64
	hasMod   bool

	prefix       []traceEntry
	pos          int
	trace        []traceEntry
	newItems     []WorkItem
	pendingModel map[int32]uint64
	knownConst   map[int32]uint64

	spec      int
	specSteps int
	open      []openRegion
	escaping  bool
	kcLog     []int32
	journal   []journalEntry
	specFail  map[specKey]int
	specOK    map[specKey]int

	mergeOn     bool
	mergeInts   bool
	mapOrderMax int
	randBytes   uint64 // of each of the next randReads reads of crypto/rand, the arbitrary ones
	randReads   int
	randCtr     uint64

	nondets   []nondetRec
	pathVars  []*Term
	obs       []obsRec
	steps     int
	stepLimit int
	depth     int
	cur       *frame

	globals    map[*ssa.Global]*Agg
	stdGlobals map[*ssa.Global]*Agg
	inited     map[*ssa.Package]bool
	stdInited  map[*ssa.Package]bool
	initing    *ssa.Package

	reached     map[string]bool
	run         *HarnessRun
	methodCache map[methodKey]*ssa.Function
	natSlots    map[string]Value
	fnVals      map[*ssa.Function]*Closure
	deferring   []*frame
	item        *WorkItem
	lastPanic   *goPanic
	fnNoted     map[*ssa.Function]bool
	blkNoted    map[*ssa.BasicBlock]bool
	onceDone    map[*Agg]bool
}

type obsRec struct {
	label string
	t     *Term
}

type methodKey struct {
	t    types.Type
	name string
}

func NewMachine(eng *Engine) *Machine {
	m := &Machine{eng: eng, prog: eng.prog}
	m.methodCache = map[methodKey]*ssa.Function{}
	m.resetTerms()
	return m
}

func (m *Machine) resetTerms() {
	m.tm = NewTermMgr()
	m.stdGlobals = map[*ssa.Global]*Agg{}
	m.stdInited = map[*ssa.Package]bool{}
	m.specFail = map[specKey]int{}
	m.specOK = map[specKey]int{}
	if m.sol != nil {
		m.sol.Reset(m.tm)
	} else {
		m.sol = NewSolver(m.tm, m.eng.queryTimeout)
		m.sol.deadline = m.eng.deadline
	}
}

func (m *Machine) unsupported(f string, a ...interface{}) pathEnd {
	return pathEnd{endUnsupported, fmt.Sprintf(f, a...) + " at " + m.where()}
}

func (m *Machine) where() string {
	f := m.cur
	for f != nil {
		if f.instr != nil && f.instr.Pos().IsValid() {
			p := m.prog.Fset.Position(f.instr.Pos())
			return fmt.Sprintf("%s:%d (%s)", p.Filename, p.Line, f.fn.Name())
		}
		f = f.caller
	}
	return "?"
}

func (m *Machine) posRepo() string {
	// innermost frame that belongs to the repository
	for f := m.cur; f != nil; f = f.caller {
		if f.instr == nil || !f.instr.Pos().IsValid() {
			continue
		}
		p := m.prog.Fset.Position(f.instr.Pos())
		if m.eng.isRepoFile(p.Filename) {
			return fmt.Sprintf("%s:%d (%s)", strings.TrimPrefix(p.Filename, m.eng.repo+"/"), p.Line, f.fn.Name())
		}
	}
	return m.where()
}

func (m *Machine) stackStr() string {
	var sb strings.Builder
	n := 0
	for f := m.cur; f != nil && n < 12; f = f.caller {
		if f.instr != nil {
			p := m.prog.Fset.Position(f.instr.Pos())
			fmt.Fprintf(&sb, "%s(%s:%d) < ", f.fn.Name(), p.Filename[strings.LastIndexByte(p.Filename, '/')+1:], p.Line)
		}
		n++
	}
	return sb.String()
}

func (m *Machine) goPanicRuntime(msg string) {
	panic(&goPanic{val: Iface{m.eng.runtimeErrType, m.str("runtime error: " + msg)}, msg: "runtime error: " + msg, pos: m.posRepo(), stack: m.stackStr()})
}

// ---- path condition ---------------------------------------------------------

func (m *Machine) learn(c *Term, v bool) {
	for c.op == OpNot {
		c, v = c.a, !v
	}
	if _, ok := m.known[c.id]; ok {
		return
	}
	m.known[c.id] = v
	m.klog = append(m.klog, c.id)
	m.kgen++
	if c.op == OpEq && v && c.b.op == OpConst && c.a.op != OpConst {
		if _, ok := m.pins[c.a.id]; !ok {
			m.pins[c.a.id] = c.b
			m.pinLog = append(m.pinLog, c.a.id)
		}
	}
	if c.op == OpAnd && v {
		m.learn(c.a, true)
		m.learn(c.b, true)
	}
	if c.op == OpOr && !v {
		m.learn(c.a, false)
		m.learn(c.b, false)
	}
}

func (m *Machine) addPC(c *Term) {
	if c.IsTrue() {
		return
	}
	m.pc = append(m.pc, pcItem{t: c})
	m.learn(c, true)
}

func (m *Machine) knownVal(c *Term) (bool, bool) {
	neg := false
	for c.op == OpNot {
		c, neg = c.a, !neg
	}
	v, ok := m.known[c.id]
	if ok {
		return v != neg, true
	}
	// negated comparisons are distinct nodes: !(a<b) is b<=a
	switch c.op {
	case OpUlt, OpUle, OpSlt, OpSle:
		n := m.tm.Not(c)
		if v, ok := m.known[n.id]; ok {
			return v == neg, true
		}
	}
	return false, false
}

func (m *Machine) setModel(mod map[int32]uint64) {
	m.model, m.hasMod = mod, mod != nil
	m.tm.gen++
}

func (m *Machine) evalBool(c *Term) bool { return m.tm.Eval(c, m.model) != 0 }

var specDbg = os.Getenv("VERIF_SPECDBG") != ""

var dumpAt = os.Getenv("VERIF_DUMPQ")

func (m *Machine) check(extra *Term) (SatResult, map[int32]uint64) {
	if m.eng.expired() {
		panic(pathEnd{endUnknown, "time budget exhausted"})
	}
	if !m.eng.profile {
		r, mod := m.sol.Check(m.pc, extra, m.pathVars)
		if r == Unknown {
			r, mod = m.sol.Fallback(m.pc, extra, m.pathVars, time.Minute)
		}
		return r, mod
	}
	if dumpAt != "" && extra != nil && strings.Contains(m.where(), dumpAt) {
		fmt.Fprintf(os.Stderr, "QUERY at %s: %s\n", m.where(), extra.dump(8))
	}
	d0 := m.sol.dur
	r, mod := m.sol.Check(m.pc, extra, m.pathVars)
	if r == Unknown {
		r, mod = m.sol.Fallback(m.pc, extra, m.pathVars, time.Minute)
	}
	m.eng.noteQuery(m, m.sol.dur-d0, r)
	return r, mod
}

// ensureModel makes the current model satisfy the path condition.
func (m *Machine) ensureModel() bool {
	if m.hasMod {
		return true
	}
	r, mod := m.check(nil)
	if r == Sat {
		m.setModel(mod)
		return true
	}
	if r == Unsat {
		panic(pathEnd{endInfeasible, "path condition unsatisfiable"})
	}
	return false
}

type decision struct {
	forced bool
	val    bool
	other  map[int32]uint64 // model of the side that is not val (when both feasible)
}

// decide finds which sides of c are feasible under pc (not in replay).
func (m *Machine) decide(c *Term) decision {
	if m.ensureModel() {
		side := m.evalBool(c)
		oc := c
		if side {
			oc = m.tm.Not(c)
		}
		r, mod := m.check(oc)
		if r == Unsat {
			return decision{forced: true, val: side}
		}
		if r == Unknown {
			m.run.stat(&m.run.Unknowns)
		}
		return decision{val: side, other: mod}
	}
	m.run.stat(&m.run.Unknowns)
	r1, m1 := m.check(c)
	r2, m2 := m.check(m.tm.Not(c))
	if r1 == Unsat && r2 == Unsat {
		panic(pathEnd{endInfeasible, "path condition unsatisfiable"})
	}
	if r1 == Unsat {
		if r2 == Sat {
			m.setModel(m2)
		}
		return decision{forced: true, val: false}
	}
	if r2 == Unsat {
		if r1 == Sat {
			m.setModel(m1)
		}
		return decision{forced: true, val: true}
	}
	if r1 == Sat {
		m.setModel(m1)
	}
	return decision{val: true, other: m2}
}

func (m *Machine) replaying() bool { return m.pos < len(m.prefix) }

func (m *Machine) next() traceEntry {
	e := m.prefix[m.pos]
	m.pos++
	m.trace = append(m.trace, e)
	if m.pos == len(m.prefix) {
		// leaving the prefix
		if m.item.model != nil {
			mod := map[int32]uint64{}
			for i, v := range m.pathVars {
				if i < len(m.item.model) {
					mod[v.id] = m.item.model[i]
				}
			}
			m.pendingModel = mod
		}
	}
	return e
}

// branch returns the direction taken on c, forking when both are feasible.
func (m *Machine) branch(c *Term) bool {
	if c.IsConst() {
		return c.val == 1
	}
	if v, ok := m.knownVal(c); ok {
		return v
	}
	if c = m.simp(c); c.IsConst() {
		return c.val == 1
	}
	if m.replaying() {
		e := m.next()
		switch e.kind {
		case eForcedT, eForcedF:
			m.learn(c, e.kind == eForcedT)
			m.activatePending()
			return e.kind == eForcedT
		case eForkT:
			m.addPC(c)
			m.activatePending()
			return true
		case eForkF:
			m.addPC(m.tm.Not(c))
			m.activatePending()
			return false
		}
		panic(pathEnd{endUnsupported, fmt.Sprintf("replay mismatch (branch, entry %d) at %s", e.kind, m.where())})
	}
	d := m.decide(c)
	return m.commit(c, d)
}

func (m *Machine) activatePending() {
	if m.pendingModel != nil && m.pos == len(m.prefix) {
		m.setModel(m.pendingModel)
		m.pendingModel = nil
	}
}

// commit applies a decision, forking if needed.
func (m *Machine) commit(c *Term, d decision) bool {
	if d.forced {
		k := eForcedT
		if !d.val {
			k = eForcedF
		}
		m.trace = append(m.trace, traceEntry{kind: k})
		m.learn(c, d.val)
		return d.val
	}
	if m.spec > 0 && !m.escaping {
		panic(specAbort{"fork"})
	}
	m.run.stat(&m.run.Forks)
	m.eng.noteFork(m)
	ek, ok := eForkF, eForkT
	if !d.val {
		ek, ok = eForkT, eForkF
	}
	pre := m.openPrefix()
	pre = append(pre, traceEntry{kind: ek})
	it := WorkItem{prefix: pre}
	if d.other != nil {
		it.model = m.modelVec(d.other)
	}
	m.newItems = append(m.newItems, it)
	m.trace = append(m.trace, traceEntry{kind: ok})
	if d.val {
		m.addPC(c)
	} else {
		m.addPC(m.tm.Not(c))
	}
	return d.val
}

func (m *Machine) modelVec(mod map[int32]uint64) []uint64 {
	r := make([]uint64, len(m.pathVars))
	for i, v := range m.pathVars {
		if x, ok := mod[v.id]; ok {
			r[i] = x
		} else {
			r[i] = v.lo
		}
	}
	return r
}

// concretize forks over all feasible values of t and returns the chosen one.
func (m *Machine) concretize(t *Term) uint64 {
	if t.IsConst() {
		return t.val
	}
	if v, ok := m.knownConst[t.id]; ok {
		return v
	}
	if t = m.simp(t); t.IsConst() {
		return t.val
	}
	for n := 0; ; n++ {
		var v uint64
		if m.replaying() {
			e := m.next()
			if e.kind != eVal {
				panic(pathEnd{endUnsupported, "replay mismatch (value) at " + m.where()})
			}
			v = e.val
			m.activatePending()
		} else {
			if !m.ensureModel() {
				panic(pathEnd{endUnknown, "no model for concretization at " + m.where()})
			}
			v = m.tm.Eval(t, m.model)
			m.trace = append(m.trace, traceEntry{eVal, v})
		}
		if m.branch(m.tm.Eq(t, m.tm.Const(v, t.w))) {
			m.knownConst[t.id] = v
			if m.spec > 0 {
				m.kcLog = append(m.kcLog, t.id)
			}
			return v
		}
		if n > 70000 {
			panic(pathEnd{endLimit, "concretization of too many values at " + m.where()})
		}
	}
}

// choose forks over n alternatives without a program-visible variable.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	t := m.newVar("ch", 16, 0, uint64(n-1))
	return int(m.concretize(t))
}

func (m *Machine) newVar(kind string, w uint8, lo, up uint64) *Term {
	if m.spec > 0 {
		panic(specAbort{"nondet"})
	}
	v := m.tm.Var(fmt.Sprintf("n%d", len(m.pathVars)), w, lo, up)
	m.pathVars = append(m.pathVars, v)
	if lo > 0 || up < mask(w) && w > 0 {
		m.pc = append(m.pc, pcItem{t: v, rng: true})
	}
	return v
}

// ---- speculation / merging -------------------------------------------------

type specOutcome struct {
	returned bool
	cond     *Term // what the side assumed to stay in the region
	model    map[int32]uint64
	val      Value
	regs     []Value
	phis     []Value
	writes   map[slotKey]Value
	keys     []slotKey
}

type slotKey struct {
	agg *Agg
	idx int
}

// openRegion is a side of a region being merged.
type openRegion struct {
	fr        *frame
	reach     []bool
	mergePos  int
	dir       int
	sideStart int
	soft      bool
}

// openPrefix is the trace of the current position, with the regions that are
// being merged turned into the decisions that lead here.
func (m *Machine) openPrefix() []traceEntry {
	pre := make([]traceEntry, 0, len(m.trace)+1)
	last := 0
	for _, r := range m.open {
		pre = append(pre, m.trace[last:r.mergePos]...)
		k := eForkT
		if r.dir == 1 {
			k = eForkF
		}
		pre = append(pre, traceEntry{kind: k})
		last = r.sideStart
	}
	return append(pre, m.trace[last:]...)
}

// trySpec attempts to execute both sides of the If at the end of b up to their
// join and merge them. ok=false means nothing happened.
func (m *Machine) tryMerge(fr *frame, b *ssa.BasicBlock, iff *ssa.If, c *Term, modT, modF map[int32]uint64, soft bool) (ok bool, join *ssa.BasicBlock, returned bool) {
	startTrace := len(m.trace)
	startPos := m.pos
	pcLen, kLen, pinLen, kcLen := len(m.pc), len(m.klog), len(m.pinLog), len(m.kcLog)
	openLen := len(m.open)
	savedModel, savedHas := m.model, m.hasMod
	savedNew := len(m.newItems)
	savedCur := m.cur
	savedDepth := m.depth
	savedInstr := fr.instr
	regs0 := append([]Value(nil), fr.regs...)
	top := m.spec == 0
	if top {
		m.specSteps = 0
	}
	m.spec++
	restorePC := func() {
		m.pc = m.pc[:pcLen]
		for _, id := range m.klog[kLen:] {
			delete(m.known, id)
		}
		m.klog = m.klog[:kLen]
		for _, id := range m.pinLog[pinLen:] {
			delete(m.pins, id)
		}
		m.pinLog = m.pinLog[:pinLen]
		for _, id := range m.kcLog[kcLen:] {
			delete(m.knownConst, id)
		}
		m.kcLog = m.kcLog[:kcLen]
		m.open = m.open[:openLen]
		m.kgen++
	}
	var joinB *ssa.BasicBlock
	pi := fr.fi.pdom[b.Index]
	if soft {
		pi = fr.fi.soft[b.Index]
	}
	if pi >= 0 {
		joinB = fr.fn.Blocks[pi]
	}
	reach := fr.fi.reach(fr.fn, b, pi, soft)
	side := func(i int, g *Term, mod map[int32]uint64) (out *specOutcome) {
		jStart := len(m.journal)
		m.pc = append(m.pc, pcItem{t: g})
		m.learn(g, true)
		if mod != nil {
			m.setModel(mod)
		} else {
			m.hasMod = false
		}
		out = &specOutcome{writes: map[slotKey]Value{}}
		m.open = append(m.open, openRegion{fr, reach, startTrace - 1, i, len(m.trace), soft})
		endBlock, prev := m.runBlocks(fr, b.Succs[i], b, joinB)
		if endBlock == nil {
			out.returned = true
			out.val = fr.result
		} else {
			for _, in := range endBlock.Instrs {
				phi, isPhi := in.(*ssa.Phi)
				if !isPhi {
					break
				}
				if prev == nil {
					out.phis = append(out.phis, fr.regs[fr.fi.idx[phi]])
					continue
				}
				for k, p := range endBlock.Preds {
					if p == prev {
						out.phis = append(out.phis, m.get(fr, phi.Edges[k]))
						break
					}
				}
			}
		}
		out.regs = append([]Value(nil), fr.regs...)
		// collect writes and undo
		for k := len(m.journal) - 1; k >= jStart; k-- {
			j := m.journal[k]
			key := slotKey{j.agg, j.idx}
			if _, seen := out.writes[key]; !seen {
				out.writes[key] = j.agg.elems[j.idx]
				out.keys = append(out.keys, key)
			}
			j.agg.elems[j.idx] = j.old
		}
		m.journal = m.journal[:jStart]
		copy(fr.regs, regs0)
		out.cond = m.tm.Bool(true)
		for _, p := range m.pc[pcLen+1:] {
			if !p.rng {
				out.cond = m.tm.And(out.cond, p.t)
			}
		}
		if m.hasMod {
			out.model = m.model
		}
		restorePC()
		return out
	}
	jBase := len(m.journal)
	abort := func() {
		for k := len(m.journal) - 1; k >= jBase; k-- {
			j := m.journal[k]
			j.agg.elems[j.idx] = j.old
		}
		m.journal = m.journal[:jBase]
		restorePC()
		copy(fr.regs, regs0)
		m.trace = m.trace[:startTrace]
		m.pos = startPos
		m.newItems = m.newItems[:savedNew]
		m.model, m.hasMod = savedModel, savedHas
		m.tm.gen++
		m.cur, m.depth = savedCur, savedDepth
		fr.instr = savedInstr
	}
	var oT, oF *specOutcome
	aborted := func() (ab bool) {
		defer func() {
			if r := recover(); r != nil {
				if specDbg {
					fmt.Fprintf(os.Stderr, "SPEC %s: %v at %s\n", posOf(m, iff.Cond.Pos()), r, m.where())
				}
				switch x := r.(type) {
				case specAbort:
					ab = true
				case *goPanic:
					ab = true
				case pathEnd:
					if x.kind == endUnknown || m.prefixMustMerge(startPos) {
						panic(r)
					}
					ab = true
				default:
					panic(r)
				}
			}
		}()
		oT = side(0, c, modT)
		oF = side(1, m.tm.Not(c), modF)
		return false
	}()
	m.spec--
	m.model, m.hasMod = savedModel, savedHas
	m.tm.gen++
	m.cur, m.depth = savedCur, savedDepth
	fr.instr = savedInstr
	if aborted || oT.returned != oF.returned {
		m.spec++
		abort()
		m.spec--
		return false, nil, false
	}
	// compute merged values before applying anything
	type upd struct {
		k slotKey
		v Value
	}
	var ups []upd
	seen := map[slotKey]bool{}
	fail := false
	for _, o := range []*specOutcome{oT, oF} {
		for _, k := range o.keys {
			if seen[k] {
				continue
			}
			seen[k] = true
			vt, ok1 := oT.writes[k]
			if !ok1 {
				vt = k.agg.elems[k.idx]
			}
			vf, ok2 := oF.writes[k]
			if !ok2 {
				vf = k.agg.elems[k.idx]
			}
			v, ok := m.mergeValue(c, vt, vf, false)
			if !ok {
				fail = true
				break
			}
			ups = append(ups, upd{k, v})
		}
		if fail {
			break
		}
	}
	var phis []Value
	var ret Value
	if !fail {
		if oT.returned {
			v, ok := m.mergeValue(c, oT.val, oF.val, false)
			if !ok {
				fail = true
			}
			ret = v
		} else {
			for i := range oT.phis {
				v, ok := m.mergeValue(c, oT.phis[i], oF.phis[i], false)
				if !ok {
					fail = true
					break
				}
				phis = append(phis, v)
			}
			if !fail {
				// other registers that may be live at the join
				for v, i := range fr.fi.idx {
					x, y := oT.regs[i], oF.regs[i]
					if x == nil && y == nil || sameVal(x, y) {
						fr.regs[i] = x
						continue
					}
					in, isIn := v.(ssa.Instruction)
					if !isIn || in.Block() == joinB || !in.Block().Dominates(joinB) {
						fr.regs[i] = nil
						continue
					}
					if x == nil || y == nil {
						fr.regs[i] = nil
						continue
					}
					mv, ok := m.mergeValue(c, x, y, false)
					if !ok {
						fail = true
						break
					}
					fr.regs[i] = mv
				}
			}
		}
	}
	if fail {
		if specDbg {
			fmt.Fprintf(os.Stderr, "SPEC %s: values don't merge at %s\n", posOf(m, iff.Cond.Pos()), m.where())
		}
		m.spec++
		abort()
		m.spec--
		return false, nil, false
	}
	for _, u := range ups {
		m.setSlot(u.k.agg, u.k.idx, u.v)
	}
	if !oT.cond.IsTrue() || !oF.cond.IsTrue() {
		x := m.tm.Or(m.tm.And(c, oT.cond), m.tm.And(m.tm.Not(c), oF.cond))
		if !x.IsTrue() {
			m.addPC(x)
			if m.hasMod && !m.evalBool(x) {
				if m.setModel(oT.model); !m.hasMod {
					m.setModel(oF.model)
				}
			}
		}
	}
	if oT.returned {
		fr.result = ret
		return true, nil, true
	}
	i := 0
	for _, in := range joinB.Instrs {
		phi, isPhi := in.(*ssa.Phi)
		if !isPhi {
			break
		}
		fr.regs[fr.fi.idx[phi]] = phis[i]
		i++
	}
	return true, joinB, false
}

func (m *Machine) prefixMustMerge(pos int) bool { return pos < len(m.prefix) }

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Slice:
		y, ok := b.(*Slice)
		return ok && x == y
	case *Str:
		y, ok := b.(*Str)
		return ok && x == y
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case *Agg:
		y, ok := b.(*Agg)
		return ok && x == y
	case *Closure:
		y, ok := b.(*Closure)
		return ok && x == y
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x == y
	}
	return false
}

// ---- globals ---------------------------------------------------------------

func (m *Machine) isStd(p *ssa.Package) bool { return !m.eng.repoPkgs[p] }

var skipInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "reflect": true, "internal/poll": true,
	"internal/godebug": true, "internal/cpu": true, "sync": true, "testing": true,
	"unicode": false,
}

func (m *Machine) global(g *ssa.Global) *Agg {
	pkg := g.Pkg
	tab, ini := m.globals, m.inited
	std := m.isStd(pkg)
	if std {
		tab, ini = m.stdGlobals, m.stdInited
	}
	if !ini[pkg] {
		ini[pkg] = true
		m.initPackage(pkg, std)
	}
	if a, ok := tab[g]; ok {
		return a
	}
	a := &Agg{elems: []Value{m.zero(deref(g.Type()))}}
	tab[g] = a
	return a
}

func (m *Machine) initPackage(pkg *ssa.Package, std bool) {
	if skipInit[pkg.Pkg.Path()] || strings.HasPrefix(pkg.Pkg.Path(), "internal/") && std || strings.HasPrefix(pkg.Pkg.Path(), "vendor/") {
		return
	}
	fn := pkg.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		return
	}
	savedInit, savedCur, savedSpec := m.initing, m.cur, m.spec
	savedSteps, savedDepth := m.steps, m.depth
	m.initing = pkg
	m.spec = 0
	defer func() {
		m.initing, m.cur, m.spec = savedInit, savedCur, savedSpec
		m.steps, m.depth = savedSteps, savedDepth
		if r := recover(); r != nil {
			if pe, ok := r.(pathEnd); ok && pe.kind == endUnsupported && std {
				if os.Getenv("VERIF_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "init of %s incomplete: %s\n", pkg.Pkg.Path(), pe.msg)
				}
				return
			}
			panic(r)
		}
	}()
	m.callFn(fn, nil, nil)
}

func posOf(m *Machine, p token.Pos) string {
	q := m.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func sortedKeys(mp map[string]int) []string {
	var r []string
	for k := range mp {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
