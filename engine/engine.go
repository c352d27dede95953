package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	repo     string
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	repoPkgs map[*ssa.Package]bool
	sizes    types.Sizes
	thorough bool
	deadline time.Time

	runtimeErrType types.Type
	queryTimeout   int
	specBudget     int
	specDepth      int
	intrCache      sync.Map
	stubFor        func(fn *ssa.Function) intrinsicFn
	stdFns         sync.Map

	fnMu    sync.Mutex
	fnSeen  map[*ssa.Function]bool
	blkSeen sync.Map
	forkMu  sync.Mutex
	forkAt  map[string]int
	profile bool
	qstats  map[string]*qstat
	workers int
	debug   bool
}

func (e *Engine) isRepoFile(f string) bool {
	return strings.HasPrefix(f, e.repo+"/") && !strings.Contains(f, "zz_verif")
}

func (e *Engine) expired() bool { return time.Now().After(e.deadline) }

func (e *Engine) noteFn(m *Machine, fn *ssa.Function) {
	if _, ok := m.fnNoted[fn]; ok {
		return
	}
	if m.fnNoted == nil {
		m.fnNoted = map[*ssa.Function]bool{}
	}
	m.fnNoted[fn] = true
	e.fnMu.Lock()
	e.fnSeen[fn] = true
	e.fnMu.Unlock()
}

func (e *Engine) noteBlock(m *Machine, b *ssa.BasicBlock) {
	if m.blkNoted == nil {
		m.blkNoted = map[*ssa.BasicBlock]bool{}
	}
	if !m.blkNoted[b] {
		m.blkNoted[b] = true
		e.blkSeen.Store(b, true)
	}
}

func (e *Engine) noteFork(m *Machine) {
	if !e.profile {
		return
	}
	w := m.where()
	e.forkMu.Lock()
	e.forkAt[w]++
	e.forkMu.Unlock()
}

type qstat struct {
	n        int
	dur, max time.Duration
}

func (e *Engine) noteQuery(m *Machine, d time.Duration, r SatResult) {
	w := fmt.Sprintf("%s [%d]", m.where(), r)
	e.forkMu.Lock()
	if e.qstats == nil {
		e.qstats = map[string]*qstat{}
	}
	q := e.qstats[w]
	if q == nil {
		q = &qstat{}
		e.qstats[w] = q
	}
	q.n++
	q.dur += d
	q.max = max(q.max, d)
	e.forkMu.Unlock()
}

func (e *Engine) stdFunc(pkg, name string) *ssa.Function {
	k := pkg + "." + name
	if f, ok := e.stdFns.Load(k); ok {
		return f.(*ssa.Function)
	}
	for _, p := range e.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if f := p.Func(name); f != nil {
				e.stdFns.Store(k, f)
				return f
			}
		}
	}
	panic(pathEnd{endUnsupported, "missing library function " + k})
}

var redirects = map[string]string{
	"compress/gzip.NewReader":             "vStubGzipNewReader",
	"(*compress/gzip.Reader).Read":        "vStubGzipRead",
	"(*compress/gzip.Reader).Close":       "vStubGzipReaderClose",
	"(*compress/gzip.Reader).Multistream": "vStubGzipMultistream",
	"(*compress/gzip.Reader).Reset":       "vStubGzipReset",
	"compress/gzip.NewWriter":             "vStubGzipNewWriter",
	"compress/gzip.NewWriterLevel":        "vStubGzipNewWriterLevel",
	"(*compress/gzip.Writer).Write":       "vStubGzipWrite",
	"(*compress/gzip.Writer).Flush":       "vStubGzipFlush",
	"(*compress/gzip.Writer).Close":       "vStubGzipWriterClose",
}

func (e *Engine) redirect(fn *ssa.Function) *ssa.Function {
	n, ok := redirects[fn.String()]
	if !ok {
		return nil
	}
	var best *ssa.Function
	for p := range e.repoPkgs {
		if f := p.Func(n); f != nil && (best == nil || p.Pkg.Path() < best.Pkg.Pkg.Path()) {
			best = f
		}
	}
	return best
}

// overlayFor places the harness files (and the vocabulary) into the packages.
func overlayFor(verif, repo string, files []string, test bool) (map[string]string, []string, error) {
	ov := map[string]string{}
	dirs := map[string]bool{}
	for _, f := range files {
		// f is relative to /verif/harness: <pkgdir>/<file>.go, "root" = top level
		dir := filepath.Dir(f)
		pdir := dir
		if dir == "root" {
			pdir = "."
		}
		suffix := ".go"
		if test {
			suffix = "_test.go"
		}
		base := strings.TrimSuffix(filepath.Base(f), ".go")
		ov[filepath.Join(repo, pdir, "zz_verif_"+base+suffix)] = filepath.Join(verif, "harness", f)
		dirs[pdir] = true
	}
	var ds []string
	for d := range dirs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	return ov, ds, nil
}

func pkgNameOf(dir string) string {
	if dir == "." {
		return "ggfnt"
	}
	return filepath.Base(dir)
}

func Load(verif, repo string, files []string) (*Engine, error) {
	e := &Engine{repo: repo, fnSeen: map[*ssa.Function]bool{}, forkAt: map[string]int{}, repoPkgs: map[*ssa.Package]bool{}, pkgs: map[string]*ssa.Package{}}
	ov, dirs, err := overlayFor(verif, repo, files, false)
	if err != nil {
		return nil, err
	}
	content := map[string][]byte{}
	for k, f := range ov {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		content[k] = b
	}
	lib, err := os.ReadFile(filepath.Join(verif, "harness", "vlib_sym.go.txt"))
	if err != nil {
		return nil, err
	}
	var pats []string
	for _, d := range dirs {
		content[filepath.Join(repo, d, "zz_verif_vlib.go")] = []byte(strings.Replace(string(lib), "package PKG", "package "+pkgNameOf(d), 1))
		pats = append(pats, "./"+d)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: content,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, x := range p.Errors {
			if len(errs) < 10 {
				errs = append(errs, x.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("cannot load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e.prog = prog
	e.sizes = types.SizesFor("gc", "amd64")
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
		if strings.HasPrefix(p.Pkg.Path(), "github.com/tinne26/ggfnt") {
			e.repoPkgs[p] = true
		}
	}
	e.runtimeErrType = types.Typ[types.String]
	for _, p := range prog.AllPackages() {
		if p.Pkg.Path() == "runtime" {
			if t := p.Type("errorString"); t != nil {
				e.runtimeErrType = t.Type()
			}
		}
	}
	return e, nil
}

// ---- harness runs -----------------------------------------------------------

type Violation struct {
	Kind      string   `json:"kind"` // assert | panic | limit
	Label     string   `json:"label"`
	Pos       string   `json:"pos"`
	Harness   string   `json:"harness"`
	Vals      []uint64 `json:"vals"`
	Kinds     []string `json:"kinds"`
	Stack     string   `json:"stack"`
	Confirmed bool     `json:"confirmed"`
	Native    string   `json:"native"`
	Known     string   `json:"known,omitempty"`
}

type Sample struct {
	Vals []uint64 `json:"vals"`
	Obs  []uint64 `json:"obs"`
	ObsL []string `json:"obs_labels"`
	Exit string   `json:"exit"`
}

type HarnessRun struct {
	Cfg    HarnessCfg
	eng    *Engine
	fn     *ssa.Function
	mu     sync.Mutex
	stack  []WorkItem
	active int

	Paths, Infeasible, Panics, Unsupported, Limits, UnknownPaths int
	Forks, Merges, Unknowns, Discharged, TrivialAsserts          int64
	Steps                                                        int64
	Asserts                                                      map[string]int
	Reached                                                      map[string]int
	Undecided                                                    map[string]int
	Violations                                                   []*Violation
	vioKeys                                                      map[string]int
	UnsupMsg                                                     map[string]int
	Samples                                                      []Sample
	truncated                                                    bool
	MaxPC                                                        int
	start, end                                                   time.Time
}

func (h *HarnessRun) stat(p *int64)         { h.mu.Lock(); *p++; h.mu.Unlock() }
func (h *HarnessRun) reach(l string)        { h.mu.Lock(); h.Reached[l]++; h.mu.Unlock() }
func (h *HarnessRun) assertion(l string)    { h.mu.Lock(); h.Asserts[l]++; h.mu.Unlock() }
func (h *HarnessRun) undecided(l, w string) { h.mu.Lock(); h.Undecided[l+" at "+w]++; h.mu.Unlock() }

const maxPerKey = 3

func (h *HarnessRun) violation(m *Machine, kind, label, pos string, mod map[int32]uint64, stack string) {
	key := kind + "|" + label
	if kind == "panic" {
		key += "|" + pos
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	h.vioKeys[key]++
	if h.vioKeys[key] > maxPerKey {
		return
	}
	v := &Violation{Kind: kind, Label: label, Pos: pos, Harness: h.Cfg.Func, Stack: stack}
	m.tm.gen++
	for _, n := range m.nondets {
		v.Vals = append(v.Vals, m.tm.Eval(n.t, mod))
		v.Kinds = append(v.Kinds, n.kind)
	}
	m.tm.gen++
	h.Violations = append(h.Violations, v)
}

type Runner struct {
	eng     *Engine
	mu      sync.Mutex
	cond    *sync.Cond
	runs    []*HarnessRun
	live    int // items queued or in execution
	stopAll bool

	queries, sats, unsats, unknown, errors, fallbacks int
	solverDur                                         time.Duration
	errText                                           string
}

func (r *Runner) next(prefer *HarnessRun) (*HarnessRun, WorkItem, bool) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.stopAll {
			return nil, WorkItem{}, false
		}
		pick := func(h *HarnessRun) (WorkItem, bool) {
			if len(h.stack) == 0 {
				return WorkItem{}, false
			}
			it := h.stack[len(h.stack)-1]
			h.stack = h.stack[:len(h.stack)-1]
			return it, true
		}
		if prefer != nil {
			if it, ok := pick(prefer); ok {
				return prefer, it, true
			}
		}
		var best *HarnessRun
		for _, h := range r.runs {
			if len(h.stack) > 0 && (best == nil || h.active < best.active) {
				best = h
			}
		}
		if best != nil {
			it, _ := pick(best)
			return best, it, true
		}
		if r.live == 0 {
			r.cond.Broadcast()
			return nil, WorkItem{}, false
		}
		r.cond.Wait()
	}
}

func (r *Runner) finish(h *HarnessRun, items []WorkItem) {
	r.mu.Lock()
	if h.truncated {
		items = nil
	}
	h.stack = append(h.stack, items...)
	r.live += len(items) - 1
	if h.end = time.Now(); r.live == 0 || len(items) > 0 {
		r.cond.Broadcast()
	}
	r.mu.Unlock()
}

func (r *Runner) Run() {
	r.cond = sync.NewCond(&r.mu)
	for _, h := range r.runs {
		h.stack = []WorkItem{{}}
		h.start = time.Now()
		r.live++
	}
	var wg sync.WaitGroup
	for w := 0; w < r.eng.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := NewMachine(r.eng)
			var cur *HarnessRun
			paths := 0
			for {
				h, it, ok := r.next(cur)
				if !ok {
					break
				}
				if h != cur || m.tm.next > 400000 {
					if cur != nil {
						m.resetTerms()
					}
					cur = h
					paths = 0
				}
				r.mu.Lock()
				h.active++
				r.mu.Unlock()
				m.runPath(h, it)
				paths++
				r.mu.Lock()
				h.active--
				if h.Cfg.MaxPaths > 0 && h.Paths >= h.Cfg.MaxPaths && !h.truncated {
					h.truncated = true
					r.live -= len(h.stack)
					h.stack = nil
				}
				if r.eng.expired() {
					r.stopAll = true
					r.cond.Broadcast()
				}
				r.mu.Unlock()
				r.finish(h, m.newItems)
			}
			r.mu.Lock()
			s := m.sol
			r.queries += s.queries
			r.sats += s.sats
			r.unsats += s.unsats
			r.unknown += s.unknown
			r.fallbacks += s.fallbacks
			r.errors += s.errors
			r.solverDur += s.dur
			if s.errText != "" {
				r.errText = s.errText
			}
			r.mu.Unlock()
			s.Close()
		}()
	}
	wg.Wait()
}

// runPath executes one path of h from a work item.
func (m *Machine) runPath(h *HarnessRun, it WorkItem) {
	m.run = h
	m.item = &it
	m.pc = m.pc[:0]
	m.known = map[int32]bool{}
	m.klog = nil
	m.pins, m.pinLog, m.simpMemo = map[int32]*Term{}, nil, nil
	m.knownConst = map[int32]uint64{}
	m.hasMod, m.model = false, nil
	m.pendingModel = nil
	m.prefix, m.pos = it.prefix, 0
	m.trace = make([]traceEntry, 0, len(it.prefix)+64)
	m.newItems = nil
	m.spec, m.journal, m.open, m.kcLog, m.escaping = 0, nil, nil, nil, false
	m.mergeOn, m.mergeInts, m.mapOrderMax = !h.Cfg.NoMerge, h.Cfg.MergeInts, 4
	m.randBytes, m.randReads, m.randCtr = 0, 0, 0
	m.nondets, m.pathVars, m.obs = nil, nil, nil
	m.steps, m.depth, m.cur = 0, 0, nil
	m.stepLimit = h.Cfg.Steps
	if m.stepLimit == 0 {
		m.stepLimit = 3000000
	}
	m.globals = map[*ssa.Global]*Agg{}
	m.inited = map[*ssa.Package]bool{}
	m.initing = nil
	m.deferring = nil
	m.onceDone = nil
	end := pathEnd{kind: endOK}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case pathEnd:
				end = x
			case *goPanic:
				end = pathEnd{endPanic, x.msg}
				m.lastPanic = x
			case specAbort:
				end = pathEnd{endUnsupported, "stray speculation abort " + x.why}
			default:
				if m.eng.debug {
					panic(r)
				}
				end = pathEnd{endUnsupported, fmt.Sprintf("internal error: %v at %s", r, m.where())}
			}
		}()
		m.callFn(h.fn, nil, nil)
	}()
	m.spec = 0
	h.mu.Lock()
	h.Steps += int64(m.steps)
	if len(m.pc) > h.MaxPC {
		h.MaxPC = len(m.pc)
	}
	switch end.kind {
	case endOK:
		h.Paths++
	case endInfeasible:
		h.Infeasible++
	case endPanic:
		h.Panics++
	case endUnsupported:
		h.Unsupported++
		h.UnsupMsg[end.msg]++
	case endLimit:
		h.Limits++
		h.UnsupMsg[end.msg]++
	case endUnknown:
		h.UnknownPaths++
		h.UnsupMsg[end.msg]++
	}
	n := h.Paths
	h.mu.Unlock()
	switch end.kind {
	case endPanic, endLimit:
		ok := m.hasMod
		if !ok {
			func() {
				defer func() { recover() }()
				r, mod := m.check(nil)
				if r == Sat {
					m.setModel(mod)
					ok = true
				}
			}()
		}
		if ok {
			if end.kind == endPanic {
				h.violation(m, "panic", end.msg, m.lastPanic.pos, m.model, m.lastPanic.stack)
			} else {
				h.violation(m, "limit", end.msg, "", m.model, "")
			}
		}
	case endOK:
		// sample some completed paths for the differential validation
		if n <= 6 || n&(n-1) == 0 || (n%97 == 0 && n < 4000) {
			func() {
				defer func() { recover() }()
				if m.ensureModel() {
					s := Sample{Exit: "ok"}
					m.tm.gen++
					for _, x := range m.nondets {
						s.Vals = append(s.Vals, m.tm.Eval(x.t, m.model))
					}
					for _, o := range m.obs {
						s.Obs = append(s.Obs, m.tm.Eval(o.t, m.model))
						s.ObsL = append(s.ObsL, o.label)
					}
					h.mu.Lock()
					h.Samples = append(h.Samples, s)
					h.mu.Unlock()
				}
			}()
		}
	}
}
