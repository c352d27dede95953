package main

// A persistent SMT solver process driven through SMT-LIB2 text, with a stack
// of assertions that follows the path condition of the current path.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type stackItem struct {
	key int64 // term id, or -(var id)-1 for a range axiom
}

type Solver struct {
	cmd       *exec.Cmd
	in        *bufio.Writer
	out       *bufio.Reader
	stdin     io.WriteCloser
	tm        *TermMgr
	gen       int32
	stack     []stackItem // assertions currently pushed in the process
	queries   int
	sats      int
	unsats    int
	unknown   int
	fallbacks int
	errors    int
	errText   string
	dur       time.Duration
	bin       string
	timeout   int
	deadline  time.Time
	nterms    int
	buf       bytes.Buffer
	tee       *os.File
}

func solverBin() string {
	if b := os.Getenv("VERIF_SOLVER"); b != "" {
		return b
	}
	return "z3"
}

func NewSolver(tm *TermMgr, timeoutMs int) *Solver {
	s := &Solver{tm: tm, bin: solverBin(), timeout: timeoutMs, gen: 0}
	s.start()
	return s
}

func (s *Solver) start() {
	var cmd *exec.Cmd
	if strings.Contains(s.bin, "cvc5") {
		cmd = exec.Command(s.bin, "--incremental", "--lang=smt2", "--produce-models", "--global-declarations", fmt.Sprintf("--tlimit-per=%d", s.timeout))
	} else {
		cmd = exec.Command(s.bin, "-in", "-smt2")
	}
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	cmd.Stderr = nil
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	s.cmd, s.stdin = cmd, in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = s.stack[:0]
	s.gen++
	s.nterms = 0
	if strings.Contains(s.bin, "cvc5") {
		s.write("(set-logic QF_BV)\n")
	} else {
		s.write("(set-option :global-declarations true)\n(set-option :produce-models true)\n")
		s.write(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
		logic := os.Getenv("VERIF_LOGIC")
		if logic == "" {
			logic = "QF_FD"
		}
		s.write("(set-logic " + logic + ")\n")
	}
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.stdin.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) Reset(tm *TermMgr) {
	s.Close()
	s.tm = tm
	s.start()
}

func (s *Solver) write(x string) {
	s.in.WriteString(x)
	if s.tee != nil {
		s.tee.WriteString(x)
	}
}

// define emits definitions for every node below t that the process lacks.
func (s *Solver) define(t *Term) {
	if t.op == OpConst || t.emitted == s.gen {
		return
	}
	type fr struct {
		t *Term
		d bool
	}
	st := []fr{{t, false}}
	for len(st) > 0 {
		f := st[len(st)-1]
		st = st[:len(st)-1]
		x := f.t
		if x.op == OpConst || x.emitted == s.gen {
			continue
		}
		if x.op == OpVar {
			s.write(fmt.Sprintf("(declare-const v%d %s)\n", x.id, sortOf(x.w)))
			x.emitted = s.gen
			continue
		}
		if f.d {
			s.write(fmt.Sprintf("(define-fun t%d () %s %s)\n", x.id, sortOf(x.w), x.body()))
			x.emitted = s.gen
			s.nterms++
			continue
		}
		st = append(st, fr{x, true})
		for _, y := range []*Term{x.a, x.b, x.c} {
			if y != nil && y.op != OpConst && y.emitted != s.gen {
				st = append(st, fr{y, false})
			}
		}
	}
}

// SetStack makes the process' assertion stack equal to items.
func (s *Solver) SetStack(items []pcItem) {
	n := 0
	for n < len(s.stack) && n < len(items) && s.stack[n].key == items[n].key() {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		s.write(fmt.Sprintf("(pop %d)\n", d))
		s.stack = s.stack[:n]
	}
	for ; n < len(items); n++ {
		it := items[n]
		s.define(it.t)
		s.write("(push 1)\n(assert ")
		if it.rng {
			s.write(fmt.Sprintf("(and (bvule (_ bv%d %d) v%d) (bvule v%d (_ bv%d %d)))", it.t.lo, it.t.w, it.t.id, it.t.id, it.t.up, it.t.w))
		} else {
			s.write(it.t.ref())
		}
		s.write(")\n")
		s.stack = append(s.stack, stackItem{it.key()})
	}
}

type pcItem struct {
	t   *Term
	rng bool
}

func (p pcItem) key() int64 {
	if p.rng {
		return -int64(p.t.id) - 1
	}
	return int64(p.t.id)
}

// Check decides pc /\ extra. On Sat it returns a model over all declared vars.
func (s *Solver) Check(pc []pcItem, extra *Term, vars []*Term) (SatResult, map[int32]uint64) {
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	s.queries++
	s.SetStack(pc)
	if extra != nil {
		s.define(extra)
	}
	for _, v := range vars {
		s.define(v)
	}
	if extra != nil {
		s.write("(push 1)\n(assert " + extra.ref() + ")\n")
	}
	s.write("(check-sat)\n")
	// the solver's own limit is not always respected
	limit := time.Duration(s.timeout)*time.Millisecond + 5*time.Second
	if !s.deadline.IsZero() {
		if l := time.Until(s.deadline) + 2*time.Second; l < limit {
			limit = l
		}
	}
	proc := s.cmd.Process
	dog := time.AfterFunc(limit, func() { proc.Kill() })
	defer dog.Stop()
	res, err := s.readLine()
	var model map[int32]uint64
	r := Unknown
	if err != nil {
		if time.Since(t0) >= limit {
			s.unknown++
			s.Close()
			s.start()
			return Unknown, nil
		}
		s.fail(err.Error())
		return Unknown, nil
	}
	switch res {
	case "sat":
		r = Sat
		model = map[int32]uint64{}
		if len(vars) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, v := range vars {
				sb.WriteString(v.ref())
				sb.WriteByte(' ')
			}
			sb.WriteString("))\n")
			s.write(sb.String())
			txt, err := s.readSexp()
			if err != nil {
				s.fail(err.Error())
				return Unknown, nil
			}
			if !parseModel(txt, model) {
				s.fail("bad model: " + txt)
				return Unknown, nil
			}
		}
	case "unsat":
		r = Unsat
	case "unknown", "timeout":
		// an interrupted process may have lost assertions
		s.unknown++
		s.Close()
		s.start()
		return Unknown, nil
	default:
		s.fail(res)
		return Unknown, nil
	}
	if extra != nil {
		s.write("(pop 1)\n")
	}
	switch r {
	case Sat:
		s.sats++
	case Unsat:
		s.unsats++
	default:
		s.unknown++
	}
	return r, model
}

// Fallback decides a query that Check could not, with other solvers started
// just for it.
func (s *Solver) Fallback(pc []pcItem, extra *Term, vars []*Term, limit time.Duration) (SatResult, map[int32]uint64) {
	if !s.deadline.IsZero() {
		if l := time.Until(s.deadline); l < limit {
			limit = l
		}
	}
	if limit < time.Second {
		return Unknown, nil
	}
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	text := s.script(pc, extra, vars)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	type answer struct {
		r   SatResult
		mod map[int32]uint64
	}
	bins := [][]string{{"z3-new", "-in", "-smt2"}, {"cvc5", "--lang=smt2", "--produce-models"}}
	ch := make(chan answer, len(bins))
	for _, b := range bins {
		go func() {
			cmd := exec.CommandContext(ctx, b[0], b[1:]...)
			cmd.Stdin = strings.NewReader(text)
			out, _ := cmd.Output()
			res, rest, _ := strings.Cut(string(out), "\n")
			switch strings.TrimSpace(res) {
			case "unsat":
				ch <- answer{r: Unsat}
				return
			case "sat":
				mod := map[int32]uint64{}
				if parseModel(rest, mod) {
					ch <- answer{Sat, mod}
					return
				}
			}
			ch <- answer{r: Unknown}
		}()
	}
	for range bins {
		if a := <-ch; a.r != Unknown {
			s.unknown--
			s.fallbacks++
			if a.r == Sat {
				s.sats++
			} else {
				s.unsats++
			}
			return a.r, a.mod
		}
	}
	return Unknown, nil
}

// script writes a query on its own.
func (s *Solver) script(pc []pcItem, extra *Term, vars []*Term) string {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	seen := map[int32]bool{}
	var def func(t *Term)
	def = func(t *Term) {
		if t == nil || t.op == OpConst || seen[t.id] {
			return
		}
		seen[t.id] = true
		if t.op == OpVar {
			fmt.Fprintf(&sb, "(declare-const v%d %s)\n", t.id, sortOf(t.w))
			return
		}
		def(t.a)
		def(t.b)
		def(t.c)
		fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", t.id, sortOf(t.w), t.body())
	}
	for _, it := range pc {
		def(it.t)
	}
	def(extra)
	for _, v := range vars {
		def(v)
	}
	for _, it := range pc {
		if it.rng {
			fmt.Fprintf(&sb, "(assert (and (bvule (_ bv%d %d) v%d) (bvule v%d (_ bv%d %d))))\n", it.t.lo, it.t.w, it.t.id, it.t.id, it.t.up, it.t.w)
		} else {
			sb.WriteString("(assert " + it.t.ref() + ")\n")
		}
	}
	if extra != nil {
		sb.WriteString("(assert " + extra.ref() + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if len(vars) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vars {
			sb.WriteString(v.ref() + " ")
		}
		sb.WriteString("))\n")
	}
	return sb.String()
}

func (s *Solver) fail(msg string) {
	s.errors++
	s.unknown++
	if s.errText == "" {
		s.errText = msg
	}
	s.Close()
	s.start()
}

func (s *Solver) readLine() (string, error) {
	s.in.Flush()
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

func (s *Solver) readSexp() (string, error) {
	s.in.Flush()
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		sb.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 {
			return sb.String(), nil
		}
	}
}

func parseModel(txt string, m map[int32]uint64) bool {
	toks := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for i := 0; i < len(toks); {
		t := toks[i]
		if t == "error" {
			return false
		}
		if len(t) < 2 || t[0] != 'v' {
			return false
		}
		id, err := strconv.Atoi(t[1:])
		if err != nil || i+1 >= len(toks) {
			return false
		}
		v := toks[i+1]
		i += 2
		switch {
		case v == "true":
			m[int32(id)] = 1
		case v == "false":
			m[int32(id)] = 0
		case strings.HasPrefix(v, "#x"):
			x, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return false
			}
			m[int32(id)] = x
		case strings.HasPrefix(v, "#b"):
			x, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return false
			}
			m[int32(id)] = x
		case v == "_": // (_ bvN w)
			if i+1 >= len(toks) {
				return false
			}
			x, err := strconv.ParseUint(strings.TrimPrefix(toks[i], "bv"), 10, 64)
			if err != nil {
				return false
			}
			m[int32(id)] = x
			i += 2
		default:
			return false
		}
	}
	return true
}
