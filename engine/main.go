package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type HarnessCfg struct {
	File      string // relative to harness/
	Func      string
	Doc       string
	Steps     int
	MaxPaths  int
	NoMerge   bool
	MergeInts bool
	Fmt       bool // format text exactly
	Reach     []string
	Thorough  bool // only in the thorough tier
	NoNative  bool // environment stubs make native replay of samples meaningless
}

// scanHarness finds the harness functions of a property: functions named
// vh<ID>_... in files c<NN>*.go; helper files h_*.go of the same directory are
// loaded along.
func scanHarness(verif, prop string) (files []string, hs []HarnessCfg, err error) {
	root := filepath.Join(verif, "harness")
	dirs := map[string]bool{}
	var helpers = map[string][]string{}
	low := strings.ToLower(prop)
	err = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		base := filepath.Base(p)
		if strings.HasPrefix(base, "h_") {
			helpers[filepath.Dir(rel)] = append(helpers[filepath.Dir(rel)], rel)
			return nil
		}
		if base != low+".go" && !strings.HasPrefix(base, low+"_") {
			return nil
		}
		dirs[filepath.Dir(rel)] = true
		files = append(files, rel)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "vh"+prop+"_") {
				continue
			}
			h := HarnessCfg{File: rel, Func: fd.Name.Name}
			if fd.Doc != nil {
				var doc []string
				for _, c := range fd.Doc.List {
					t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
					if !strings.HasPrefix(t, "verif:") {
						doc = append(doc, t)
						continue
					}
					fl := strings.Fields(strings.TrimPrefix(t, "verif:"))
					switch fl[0] {
					case "steps":
						h.Steps, _ = strconv.Atoi(fl[1])
					case "maxpaths":
						h.MaxPaths, _ = strconv.Atoi(fl[1])
					case "nomerge":
						h.NoMerge = true
					case "mergeints":
						h.MergeInts = true
					case "fmt":
						h.Fmt = true
					case "reach":
						h.Reach = append(h.Reach, fl[1:]...)
					case "thorough":
						h.Thorough = true
					case "nonative":
						h.NoNative = true
					}
				}
				h.Doc = strings.Join(doc, " ")
			}
			hs = append(hs, h)
		}
		return nil
	})
	for d := range dirs {
		files = append(files, helpers[d]...)
	}
	sort.Strings(files)
	return files, hs, err
}

type knownFinding struct {
	prop, harness, label, pos, text string
}

func loadKnown(verif string) []knownFinding {
	b, err := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=C01 harness=vhX label="..." pos=file.go :: text
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "known: "), " :: ")
		k := knownFinding{text: text}
		for head != "" {
			key, rest, ok := strings.Cut(strings.TrimSpace(head), "=")
			if !ok {
				break
			}
			var val string
			if strings.HasPrefix(rest, "\"") {
				q, err := strconv.QuotedPrefix(rest)
				if err != nil {
					break
				}
				val, _ = strconv.Unquote(q)
				head = rest[len(q):]
			} else {
				val, head, _ = strings.Cut(rest, " ")
			}
			switch key {
			case "property":
				k.prop = val
			case "harness":
				k.harness = val
			case "label":
				k.label = val
			case "pos":
				k.pos = val
			}
		}
		r = append(r, k)
	}
	return r
}

func (k knownFinding) matches(prop string, v *Violation) bool {
	return k.prop == prop && k.harness == v.Harness && k.label == v.Label && (k.pos == "" || strings.Contains(v.Pos, k.pos))
}

func main() {
	debug.SetGCPercent(200)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verif run -prop ID [flags]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(runCmd(os.Args[2:]))
	case "replay":
		os.Exit(replayCmd(os.Args[2:]))
	case "selftest":
		os.Exit(selftestCmd(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}

func runCmd(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	only := fs.String("only", "", "run only harnesses whose name contains this")
	tier := fs.String("tier", "", "quick or thorough")
	verif := fs.String("verif", "/verif", "verif directory")
	repo := fs.String("repo", "/repo", "repository")
	budget := fs.Int("budget", 0, "time budget in seconds")
	workers := fs.Int("workers", runtime.NumCPU(), "workers")
	profile := fs.Bool("profile", false, "print fork sites and coverage")
	cover := fs.Bool("cover", false, "print uncovered lines of repo functions reached")
	dbg := fs.Bool("debug", false, "crash on internal errors")
	nonative := fs.Bool("nonative", false, "skip native validation")
	qt := fs.Int("qtimeout", 10000, "per query timeout (ms)")
	fs.Parse(args)
	t0 := time.Now()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *budget == 0 {
		*budget = 560
		if *tier == "thorough" {
			*budget = 7200
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	files, hs, err := scanHarness(*verif, *prop)
	if err != nil || len(hs) == 0 {
		fmt.Fprintf(os.Stderr, "no harness for %s (%v)\n", *prop, err)
		return 2
	}
	e, err := Load(*verif, *repo, files)
	if err != nil {
		fmt.Fprintf(os.Stderr, "ERROR: %v\n", err)
		return 2
	}
	tLoad := time.Since(t0)
	e.thorough = *tier == "thorough"
	e.deadline = t0.Add(time.Duration(*budget) * time.Second)
	e.queryTimeout = *qt
	e.specBudget = 20000
	e.specDepth = 40
	e.workers = *workers
	e.profile = *profile
	e.debug = *dbg
	r := &Runner{eng: e}
	for _, h := range hs {
		if *only != "" && !strings.Contains(h.Func, *only) || h.Thorough && !e.thorough {
			continue
		}
		dir := filepath.Dir(h.File)
		path := "github.com/tinne26/ggfnt"
		if dir != "root" {
			path += "/" + dir
		}
		p := e.pkgs[path]
		if p == nil || p.Func(h.Func) == nil {
			fmt.Fprintf(os.Stderr, "ERROR: harness %s not found in %s\n", h.Func, path)
			return 2
		}
		r.runs = append(r.runs, &HarnessRun{Cfg: h, eng: e, fn: p.Func(h.Func), Asserts: map[string]int{}, Reached: map[string]int{}, Undecided: map[string]int{}, vioKeys: map[string]int{}, UnsupMsg: map[string]int{}})
	}
	r.Run()
	tSym := time.Since(t0)

	// native confirmation and differential validation
	nat := &Native{verif: *verif, repo: *repo, files: files, thorough: e.thorough}
	validated, mismatches := 0, []string{}
	if !*nonative {
		validated, mismatches = nat.validate(r)
		nat.confirm(r)
		nat.cleanup()
	}
	known := loadKnown(*verif)
	exit := 0
	var confirmed, knownHits int
	seenKnown := map[string]bool{}
	reported := map[string]bool{}
	outDir := filepath.Join(*verif, "evidence", "replay")
	var unconfirmed []string
	for _, h := range r.runs {
		for _, v := range h.Violations {
			for _, k := range known {
				if k.matches(*prop, v) {
					v.Known = k.text
				}
			}
			if v.Known != "" {
				if v.Confirmed || h.Cfg.NoNative {
					knownHits++
					if !seenKnown[v.Known] {
						seenKnown[v.Known] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, v.Known)
					}
				}
				continue
			}
			if !v.Confirmed {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s %s %q at %s (%s) vals=%v", v.Harness, v.Kind, v.Label, v.Pos, v.Native, v.Vals))
				continue
			}
			confirmed++
			key := v.Harness + v.Kind + v.Label + v.Pos
			if reported[key] {
				continue
			}
			reported[key] = true
			os.MkdirAll(outDir, 0o755)
			fn := filepath.Join(outDir, fmt.Sprintf("%s-%s-%d.json", *prop, v.Harness, len(reported)))
			b, _ := json.MarshalIndent(map[string]interface{}{"property": *prop, "violation": v, "files": files, "dir": filepath.Dir(h.Cfg.File),
				"how": "values of the nondeterministic inputs in order of consumption; replay natively with: /verif/run.sh replay " + fn}, "", " ")
			os.WriteFile(fn, b, 0o644)
			fmt.Printf("  %s: %s %q at %s\n    inputs=%v\n    native: %s\n    %s\n", v.Harness, v.Kind, v.Label, v.Pos, v.Vals, v.Native, v.Stack)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, fn)
			exit = 1
		}
	}
	ev := r.evidence(*prop, *tier, seed, tLoad, tSym, t0, validated, mismatches, unconfirmed, confirmed, knownHits)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	if *only == "" {
		os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(b, '\n'), 0o644)
	}
	// summary
	vac := false
	for _, h := range r.runs {
		fmt.Printf("%-44s paths=%d infeasible=%d panics=%d unsup=%d limit=%d unk=%d forks=%d merges=%d discharged=%d trivial=%d steps=%d maxpc=%d %.1fs\n", h.Cfg.Func, h.Paths, h.Infeasible, h.Panics, h.Unsupported, h.Limits, h.UnknownPaths, h.Forks, h.Merges, h.Discharged, h.TrivialAsserts, h.Steps, h.MaxPC, h.end.Sub(h.start).Seconds())
		for msg, n := range h.UnsupMsg {
			fmt.Printf("    INCOMPLETE %dx %s\n", n, msg)
		}
		for u, n := range h.Undecided {
			fmt.Printf("    UNDECIDED %dx %s\n", n, u)
		}
		if h.truncated {
			fmt.Printf("    INCOMPLETE path limit\n")
		}
		for _, want := range h.Cfg.Reach {
			if h.Reached[want] == 0 {
				fmt.Printf("    VACUOUS: %s never reached %q\n", h.Cfg.Func, want)
				vac = true
			}
		}
		if len(h.Asserts) == 0 && h.Panics == 0 {
			fmt.Printf("    VACUOUS: %s evaluated no assertion\n", h.Cfg.Func)
			vac = true
		}
	}
	for _, u := range unconfirmed {
		fmt.Printf("UNCONFIRMED (not reproduced natively, not reported): %s\n", u)
	}
	for _, x := range mismatches {
		fmt.Printf("ENGINE-MISMATCH: %s\n", x)
	}
	fmt.Printf("%s %s: load %.1fs symbolic %.1fs total %.1fs; solver queries=%d sat=%d unsat=%d unknown=%d fallback=%d errors=%d %s solver time %.1fs; native traces agreeing=%d\n", *prop, *tier, tLoad.Seconds(), (tSym - tLoad).Seconds(), time.Since(t0).Seconds(), r.queries, r.sats, r.unsats, r.unknown, r.fallbacks, r.errors, r.errText, r.solverDur.Seconds(), validated)
	if *profile {
		e.printForks()
		e.printQueries()
	}
	if *cover {
		e.printCover()
	}
	if exit == 0 && (vac || len(mismatches) > 0) && !e.expired() {
		return 3
	}
	return exit
}

// replayCmd runs a recorded violation against the real code.
func replayCmd(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	verif := fs.String("verif", "/verif", "verif directory")
	repo := fs.String("repo", "/repo", "repository")
	file := fs.String("file", "", "replay file")
	fs.Parse(args)
	b, err := os.ReadFile(*file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rec struct {
		Violation Violation
		Files     []string
		Dir       string
	}
	if err := json.Unmarshal(b, &rec); err != nil {
		fmt.Println(err)
		return 2
	}
	n := &Native{verif: *verif, repo: *repo, files: rec.Files}
	defer n.cleanup()
	res, txt := n.exec(rec.Dir, []natCase{{rec.Violation.Harness, rec.Violation.Vals}})
	fmt.Printf("%+v\n%s\n", res, txt)
	if len(res) == 1 && res[0].Status == "ok" {
		return 0
	}
	return 1
}

func (e *Engine) printForks() {
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, n := range e.forkAt {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i, x := range l {
		if i > 25 {
			break
		}
		fmt.Printf("  fork %6d %s\n", x.n, x.k)
	}
}

func (e *Engine) printQueries() {
	var l []string
	for k := range e.qstats {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return e.qstats[l[i]].dur > e.qstats[l[j]].dur })
	for i, k := range l {
		if i > 25 {
			break
		}
		q := e.qstats[k]
		fmt.Printf("  query %6d total %.1fs max %.2fs %s\n", q.n, q.dur.Seconds(), q.max.Seconds(), k)
	}
}

// printCover lists source lines of blocks never executed in functions entered.
func (e *Engine) printCover() {
	var fns []*ssa.Function
	for fn := range e.fnSeen {
		p := e.prog.Fset.Position(fn.Pos())
		if e.isRepoFile(p.Filename) {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for _, fn := range fns {
		var miss []string
		for _, b := range fn.Blocks {
			if _, ok := e.blkSeen.Load(b); ok {
				continue
			}
			for _, in := range b.Instrs {
				if in.Pos().IsValid() {
					miss = append(miss, fmt.Sprint(e.prog.Fset.Position(in.Pos()).Line))
					break
				}
			}
		}
		p := e.prog.Fset.Position(fn.Pos())
		fmt.Printf("  cover %s %s: %d blocks, missing lines %s\n", filepath.Base(p.Filename), fn.Name(), len(fn.Blocks), strings.Join(miss, ","))
	}
}

func (r *Runner) evidence(prop, tier string, seed int, tLoad, tSym time.Duration, t0 time.Time, validated int, mism, unconf []string, confirmed, knownHits int) map[string]interface{} {
	var states, trans int64
	var samples []interface{}
	var fns []string
	for fn := range r.eng.fnSeen {
		p := r.eng.prog.Fset.Position(fn.Pos())
		if r.eng.isRepoFile(p.Filename) {
			fns = append(fns, fn.String())
		}
	}
	sort.Strings(fns)
	var hl []interface{}
	complete := true
	var assumptions []string
	for _, h := range r.runs {
		states += int64(h.Paths + h.Panics + h.Infeasible)
		trans += h.Steps
		if len(h.Samples) > 0 && len(samples) < 8 {
			samples = append(samples, map[string]interface{}{"harness": h.Cfg.Func, "inputs": h.Samples[len(h.Samples)-1].Vals})
		}
		c := h.Unsupported+h.Limits+h.UnknownPaths == 0 && !h.truncated && len(h.Undecided) == 0
		complete = complete && c
		hl = append(hl, map[string]interface{}{"harness": h.Cfg.Func, "bounds": h.Cfg.Doc, "paths_completed": h.Paths, "paths_infeasible": h.Infeasible, "paths_panicked": h.Panics,
			"paths_unsupported": h.Unsupported, "paths_over_step_limit": h.Limits, "paths_unknown": h.UnknownPaths, "forks": h.Forks, "merges": h.Merges,
			"assertions_discharged_by_solver": h.Discharged, "assertions_discharged_by_rewriting_or_path_condition": h.TrivialAsserts, "undecided": h.Undecided,
			"reached": h.Reached, "incomplete": h.UnsupMsg, "truncated": h.truncated, "fully_explored_within_bounds": c, "wall_s": h.end.Sub(h.start).Seconds()})
	}
	if r.eng.expired() {
		complete = false
	}
	assumptions = append(assumptions, "bounds and environment stubs as written in the harness comments; nothing is claimed outside of them",
		"trusted: the go/ssa translation, this engine's semantics (validated by native replay of sampled paths), the SMT solver")
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	return map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
			"explanation":       "states = symbolic paths, each standing for all inputs that follow it; transitions = SSA instructions executed symbolically",
			"functions_encoded": fns, "harnesses": hl, "solver": solverBin(), "queries": r.queries, "queries_sat": r.sats, "queries_unsat": r.unsats, "queries_unknown": r.unknown, "queries_decided_by_fallback_solvers": r.fallbacks,
			"solver_errors": r.errors, "solver_time_s": r.solverDur.Seconds(), "load_s": tLoad.Seconds(), "symbolic_s": (tSym - tLoad).Seconds(),
			"complete_within_bounds": complete, "unconfirmed_counterexamples": unconf, "engine_mismatches": mism, "known_findings_seen": knownHits,
		},
		"assumptions": assumptions, "wall_s": time.Since(t0).Seconds(), "violations": confirmed,
	}
}

// ---- native replay ----------------------------------------------------------

type Native struct {
	verif, repo string
	files       []string
	thorough    bool
	tmp         string
	bins        map[string]string // dir -> test binary
	errs        map[string]string
}

type natCase struct {
	Harness string   `json:"harness"`
	Vals    []uint64 `json:"vals"`
}

type natResult struct {
	Status string   `json:"status"`
	Label  string   `json:"label"`
	Obs    []uint64 `json:"obs"`
}

func (n *Native) bin(dir string) (string, error) {
	if n.bins == nil {
		n.bins, n.errs = map[string]string{}, map[string]string{}
	}
	if b, ok := n.bins[dir]; ok {
		if b == "" {
			return "", fmt.Errorf("%s", n.errs[dir])
		}
		return b, nil
	}
	if n.tmp == "" {
		d, err := os.MkdirTemp("", "verif-native-")
		if err != nil {
			return "", err
		}
		n.tmp = d
	}
	var fl []string
	for _, f := range n.files {
		if filepath.Dir(f) == dir {
			fl = append(fl, f)
		}
	}
	ov, ds, _ := overlayFor(n.verif, n.repo, fl, true)
	pdir := ds[0]
	lib, err := os.ReadFile(filepath.Join(n.verif, "harness", "vlib_native.go.txt"))
	if err != nil {
		return "", err
	}
	name := strings.ReplaceAll(dir, "/", "_")
	libf := filepath.Join(n.tmp, name+"_vlib.go")
	os.WriteFile(libf, []byte(strings.Replace(string(lib), "package PKG", "package "+pkgNameOf(pdir), 1)), 0o644)
	ov[filepath.Join(n.repo, pdir, "zz_verif_vlib_test.go")] = libf
	// registry
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nvar vRegistry = map[string]func(){\n", pkgNameOf(pdir))
	for _, f := range fl {
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, filepath.Join(n.verif, "harness", f), nil, 0)
		if err != nil {
			return "", err
		}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "vhC") {
				fmt.Fprintf(&sb, "\t%q: %s,\n", fd.Name.Name, fd.Name.Name)
			}
		}
	}
	sb.WriteString("}\n")
	regf := filepath.Join(n.tmp, name+"_reg.go")
	os.WriteFile(regf, []byte(sb.String()), 0o644)
	ov[filepath.Join(n.repo, pdir, "zz_verif_reg_test.go")] = regf
	// hide the package's own tests: they may not compile against a changed tree
	ents, _ := os.ReadDir(filepath.Join(n.repo, pdir))
	for _, en := range ents {
		if strings.HasSuffix(en.Name(), "_test.go") {
			ov[filepath.Join(n.repo, pdir, en.Name())] = ""
		}
	}
	ovf := filepath.Join(n.tmp, name+"_overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	os.WriteFile(ovf, b, 0o644)
	out := filepath.Join(n.tmp, name+".test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-gcflags=all=-d=checkptr", "-overlay", ovf, "-o", out, "./"+pdir)
	cmd.Dir = n.repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	txt, err := cmd.CombinedOutput()
	if err != nil {
		n.bins[dir] = ""
		n.errs[dir] = fmt.Sprintf("native build failed: %v %s", err, txt)
		return "", fmt.Errorf("%s", n.errs[dir])
	}
	n.bins[dir] = out
	return out, nil
}

func (n *Native) cleanup() {
	if n.tmp != "" {
		os.RemoveAll(n.tmp)
	}
}

// exec runs cases in one process; missing results mean the process died.
func (n *Native) exec(dir string, cases []natCase) ([]natResult, string) {
	bin, err := n.bin(dir)
	if err != nil {
		return nil, err.Error()
	}
	in, _ := os.CreateTemp(n.tmp, "in")
	outf := in.Name() + ".out"
	json.NewEncoder(in).Encode(cases)
	in.Close()
	cmd := exec.Command(bin, "-test.run", "^TestVerifReplay$", "-test.timeout", "300s")
	cmd.Dir = n.tmp
	tier := "quick"
	if n.thorough {
		tier = "thorough"
	}
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+in.Name(), "VERIF_OUT="+outf, "VERIF_TIER="+tier)
	txt, _ := cmd.CombinedOutput()
	b, _ := os.ReadFile(outf)
	var res []natResult
	dec := json.NewDecoder(strings.NewReader(string(b)))
	for dec.More() {
		var r natResult
		if dec.Decode(&r) != nil {
			break
		}
		res = append(res, r)
	}
	t := string(txt)
	if len(t) > 600 {
		t = t[:600]
	}
	return res, t
}

func (n *Native) validate(r *Runner) (int, []string) {
	total := 0
	var mism []string
	for _, h := range r.runs {
		if h.Cfg.NoNative || len(h.Samples) == 0 {
			continue
		}
		dir := filepath.Dir(h.Cfg.File)
		var cs []natCase
		for _, s := range h.Samples {
			cs = append(cs, natCase{h.Cfg.Func, s.Vals})
		}
		res, txt := n.exec(dir, cs)
		for i, s := range h.Samples {
			if i >= len(res) {
				mism = append(mism, fmt.Sprintf("%s: native run ended early: %s", h.Cfg.Func, txt))
				break
			}
			if res[i].Status != "ok" {
				// a path that the engine saw complete fails natively: report
				mism = append(mism, fmt.Sprintf("%s: engine completed, native %s %q for %v", h.Cfg.Func, res[i].Status, res[i].Label, s.Vals))
				continue
			}
			same := len(s.Obs) == len(res[i].Obs)
			if same {
				for k := range s.Obs {
					if s.Obs[k] != res[i].Obs[k] {
						same = false
						mism = append(mism, fmt.Sprintf("%s: observation %s: engine %d native %d for %v", h.Cfg.Func, s.ObsL[k], s.Obs[k], res[i].Obs[k], s.Vals))
						break
					}
				}
			} else {
				mism = append(mism, fmt.Sprintf("%s: %d observations, native %d", h.Cfg.Func, len(s.Obs), len(res[i].Obs)))
			}
			if same {
				total++
			}
		}
	}
	if len(mism) > 10 {
		mism = mism[:10]
	}
	return total, mism
}

func (n *Native) confirm(r *Runner) {
	for _, h := range r.runs {
		for _, v := range h.Violations {
			dir := filepath.Dir(h.Cfg.File)
			tries := 1
			for t := 0; t < tries; t++ {
				var cs []natCase
				k := 1
				if t > 0 {
					k = 60 // unspecified map iteration order: repeat
				}
				for i := 0; i < k; i++ {
					cs = append(cs, natCase{h.Cfg.Func, v.Vals})
				}
				res, txt := n.exec(dir, cs)
				for _, x := range res {
					if x.Status == "assert" || x.Status == "panic" || x.Status == "timeout" {
						v.Confirmed = true
						v.Native = x.Status + " " + x.Label
						break
					}
				}
				if len(res) < len(cs) && !v.Confirmed {
					if strings.Contains(txt, "native build failed") {
						v.Native = txt
						return
					}
					v.Confirmed = true
					v.Native = "native process crashed: " + txt
				}
				if v.Confirmed {
					break
				}
				if len(res) > 0 {
					v.Native = "not reproduced: " + res[0].Status + " " + res[0].Label
				}
				tries = 2
			}
		}
	}
}
