package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

type SolverStats struct {
	Queries, SatN, UnsatN, UnknownN, Fallbacks int
	Time                                       time.Duration
}

func (s *SolverStats) add(o SolverStats) {
	s.Queries += o.Queries
	s.SatN += o.SatN
	s.UnsatN += o.UnsatN
	s.UnknownN += o.UnknownN
	s.Fallbacks += o.Fallbacks
	s.Time += o.Time
}

// Solver: one incremental SMT process with a stack of assertion levels.
type Solver struct {
	bin       string
	timeoutMs int
	cmd       *exec.Cmd
	in        *bufio.Writer
	out       *bufio.Reader
	lines     chan string
	named     map[int]bool
	namedAt   [][]int
	levels    [][]*Term
	stats     SolverStats
	dead      bool
}

var liveMu sync.Mutex
var liveProcs = map[*os.Process]bool{}

func killAll() {
	liveMu.Lock()
	defer liveMu.Unlock()
	for p := range liveProcs {
		p.Kill()
	}
}

func NewSolver(bin string, timeoutMs int) *Solver {
	s := &Solver{bin: bin, timeoutMs: timeoutMs}
	s.levels = [][]*Term{nil}
	s.start()
	return s
}

func (s *Solver) start() {
	args := append(strings.Fields(s.bin), "-in", "-smt2")
	s.cmd = exec.Command(args[0], args[1:]...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	liveMu.Lock()
	liveProcs[s.cmd.Process] = true
	liveMu.Unlock()
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReader(r)
	lines := make(chan string, 16)
	s.lines = lines
	rd := s.out
	go func() {
		for {
			l, err := rd.ReadString('\n')
			if l != "" {
				lines <- strings.TrimSpace(l)
			}
			if err != nil {
				close(lines)
				return
			}
		}
	}()
	s.named = map[int]bool{}
	s.namedAt = [][]int{nil}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n", s.timeoutMs)
	lv := s.levels
	s.levels = [][]*Term{nil}
	for i, l := range lv {
		if i > 0 {
			s.Push()
		}
		for _, t := range l {
			s.Assert(t)
		}
	}
}

func (s *Solver) Close() {
	if s.cmd == nil {
		return
	}
	s.cmd.Process.Kill()
	s.cmd.Wait()
	liveMu.Lock()
	delete(liveProcs, s.cmd.Process)
	liveMu.Unlock()
	s.cmd = nil
}

func (s *Solver) Level() int { return len(s.levels) - 1 }

func (s *Solver) Push() {
	s.in.WriteString("(push 1)\n")
	s.levels = append(s.levels, nil)
	s.namedAt = append(s.namedAt, nil)
}

func (s *Solver) PopTo(n int) {
	k := s.Level() - n
	if k <= 0 {
		return
	}
	fmt.Fprintf(s.in, "(pop %d)\n", k)
	for len(s.levels)-1 > n {
		for _, id := range s.namedAt[len(s.namedAt)-1] {
			delete(s.named, id)
		}
		s.namedAt = s.namedAt[:len(s.namedAt)-1]
		s.levels = s.levels[:len(s.levels)-1]
	}
}

func bigSMT(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OIntConst:
		return bigSMT(t.k)
	case OBoolConst:
		if t.b {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("t%d", t.id)
}

func printTerm(t *Term, ref func(*Term) string) string {
	var sb strings.Builder
	nary := func(op string) {
		sb.WriteString("(" + op)
		for _, a := range t.args {
			sb.WriteString(" " + ref(a))
		}
		sb.WriteString(")")
	}
	switch t.op {
	case OLin:
		sb.WriteString("(+")
		for i, a := range t.args {
			c := t.coefs[i]
			if c.Cmp(bigOne) == 0 {
				sb.WriteString(" " + ref(a))
			} else {
				sb.WriteString(" (* " + bigSMT(c) + " " + ref(a) + ")")
			}
		}
		if t.k.Sign() != 0 || len(t.args) == 1 {
			sb.WriteString(" " + bigSMT(t.k))
		}
		sb.WriteString(")")
	case OMul:
		nary("*")
	case OGcd:
		sb.WriteString(gcdFormula(t.args[0].k, ref(t.args[1])))
	case ODiv:
		nary("div")
	case OMod:
		nary("mod")
	case OIte:
		nary("ite")
	case OLe0:
		sb.WriteString("(<= " + ref(t.args[0]) + " 0)")
	case OEq0:
		sb.WriteString("(= " + ref(t.args[0]) + " 0)")
	case ONot:
		nary("not")
	case OAnd:
		nary("and")
	case OOr:
		nary("or")
	case OBV:
		fmt.Fprintf(&sb, "(bv2nat (%s ((_ int2bv %d) %s) ((_ int2bv %d) %s)))", t.name, t.width, ref(t.args[0]), t.width, ref(t.args[1]))
	case OBitLen:
		panic(unsupported("BitLen outside a comparison"))
	default:
		panic("print")
	}
	return sb.String()
}

func sortName(t *Term) string {
	if t.isBool {
		return "Bool"
	}
	return "Int"
}

// define makes sure every compound subterm of t has a name in the current scope.
func (s *Solver) define(t *Term) {
	if t.isConst() || s.named[t.id] {
		return
	}
	for _, a := range t.args {
		s.define(a)
	}
	if t.op == OVar {
		fmt.Fprintf(s.in, "(declare-const t%d %s)\n", t.id, sortName(t))
		if t.lo != nil && !t.isBool {
			fmt.Fprintf(s.in, "(assert (<= %s t%d))\n", bigSMT(t.lo), t.id)
		}
		if t.hi != nil && !t.isBool {
			fmt.Fprintf(s.in, "(assert (<= t%d %s))\n", t.id, bigSMT(t.hi))
		}
	} else {
		fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, sortName(t), printTerm(t, s.ref))
	}
	s.named[t.id] = true
	n := len(s.namedAt) - 1
	s.namedAt[n] = append(s.namedAt[n], t.id)
}

func (s *Solver) Assert(t *Term) {
	s.define(t)
	fmt.Fprintf(s.in, "(assert %s)\n", s.ref(t))
	s.levels[len(s.levels)-1] = append(s.levels[len(s.levels)-1], t)
}

func (s *Solver) readLine(d time.Duration) (string, bool) {
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case l, ok := <-s.lines:
		return l, ok
	case <-tm.C:
		return "", false
	}
}

// Check decides the current stack plus extra; the model of the given variables is returned when satisfiable.
func (s *Solver) Check(extra *Term, vars []*Term) (SatResult, Model) {
	t0 := time.Now()
	defer func() { s.stats.Time += time.Since(t0) }()
	s.stats.Queries++
	base := s.Level()
	if extra != nil {
		s.Push()
		s.Assert(extra)
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	res := Unknown
	var m Model
	l, ok := s.readLine(time.Duration(s.timeoutMs)*time.Millisecond*2 + 5*time.Second)
	switch {
	case !ok:
		s.Close()
		s.levelsRestart()
	case l == "sat":
		res = Sat
		m, ok = s.model(vars)
		if !ok {
			res = Unknown
		}
	case l == "unsat":
		res = Unsat
	case l == "unknown", l == "timeout":
	default:
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "solver:", l)
		}
		// resynchronise by restarting
		s.Close()
		s.levelsRestart()
	}
	if res == Unknown {
		s.stats.Fallbacks++
		res, m = s.fallback(vars)
	}
	if d := time.Since(t0); slowDump != "" && d > 2*time.Second {
		slowN++
		os.WriteFile(fmt.Sprintf("%s/slow-%d.smt2", slowDump, slowN), []byte(fmt.Sprintf("; %v %v\n%s", res, d, s.Script(vars))), 0644)
	}
	switch res {
	case Sat:
		s.stats.SatN++
	case Unsat:
		s.stats.UnsatN++
	default:
		s.stats.UnknownN++
	}
	s.PopTo(base)
	return res, m
}

func (s *Solver) levelsRestart() { s.start() }

func (s *Solver) model(vars []*Term) (Model, bool) {
	m := Model{}
	var ask []*Term
	for _, v := range vars {
		if s.named[v.id] {
			ask = append(ask, v)
		}
	}
	if len(ask) == 0 {
		return m, true
	}
	s.in.WriteString("(get-value (")
	for _, v := range ask {
		s.in.WriteString(s.ref(v) + " ")
	}
	s.in.WriteString("))\n")
	s.in.Flush()
	var sb strings.Builder
	depth := 0
	for {
		l, ok := s.readLine(20 * time.Second)
		if !ok {
			return nil, false
		}
		sb.WriteString(l + " ")
		for _, c := range l {
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		if depth <= 0 {
			break
		}
	}
	return parseModel(sb.String(), m)
}

func parseModel(txt string, m Model) (Model, bool) {
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(txt))
	for i := 0; i < len(toks); i++ {
		if len(toks[i]) > 1 && toks[i][0] == 't' && toks[i] != "true" {
			var id int
			if _, err := fmt.Sscanf(toks[i], "t%d", &id); err != nil {
				return nil, false
			}
			i++
			neg := false
			for i < len(toks) && (toks[i] == "(" || toks[i] == "-") {
				if toks[i] == "-" {
					neg = true
				}
				i++
			}
			if i >= len(toks) {
				return nil, false
			}
			switch toks[i] {
			case "true":
				m[id] = bigOne
			case "false":
				m[id] = bigZero
			default:
				v, ok := new(big.Int).SetString(toks[i], 10)
				if !ok {
					return nil, false
				}
				if neg {
					v.Neg(v)
				}
				m[id] = v
			}
		}
	}
	return m, true
}

// Script renders the current stack as a standalone SMT-LIB problem.
func (s *Solver) Script(vars []*Term) string {
	var sb strings.Builder
	named := map[int]bool{}
	var def func(t *Term)
	def = func(t *Term) {
		if t.isConst() || named[t.id] {
			return
		}
		for _, a := range t.args {
			def(a)
		}
		named[t.id] = true
		if t.op == OVar {
			fmt.Fprintf(&sb, "(declare-const t%d %s)\n", t.id, sortName(t))
			if t.lo != nil && !t.isBool {
				fmt.Fprintf(&sb, "(assert (<= %s t%d))\n", bigSMT(t.lo), t.id)
			}
			if t.hi != nil && !t.isBool {
				fmt.Fprintf(&sb, "(assert (<= t%d %s))\n", t.id, bigSMT(t.hi))
			}
			return
		}
		fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", t.id, sortName(t), printTerm(t, s.ref))
	}
	for _, l := range s.levels {
		for _, t := range l {
			def(t)
			fmt.Fprintf(&sb, "(assert %s)\n", s.ref(t))
		}
	}
	sb.WriteString("(check-sat)\n(get-value (t_dummy")
	for _, v := range vars {
		if named[v.id] {
			sb.WriteString(" " + s.ref(v))
		}
	}
	sb.WriteString("))\n")
	return "(set-option :produce-models true)\n(set-logic ALL)\n(declare-const t_dummy Bool)\n" + sb.String()
}

// fallback races other solver configurations on the current stack.
func (s *Solver) fallback(vars []*Term) (SatResult, Model) {
	script := s.Script(vars)
	type ans struct {
		r SatResult
		m Model
	}
	ctx, cancel := context.WithTimeout(context.Background(), fallbackTimeout)
	defer cancel()
	cfgs := [][]string{
		{"z3-new", "-in", "-smt2"},
		{"cvc5", "--lang=smt2", "--produce-models", "--nl-ext-tplanes", "--nl-cov"},
		{"z3", "-in", "-smt2"},
		{"z3", "smt.arith.solver=2", "-in", "-smt2"},
	}
	ch := make(chan ans, len(cfgs))
	for _, c := range cfgs {
		go func(c []string) {
			var out bytes.Buffer
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(script)
			cmd.Stdout = &out
			cmd.Stderr = io.Discard
			cmd.Run()
			txt := out.String()
			i := strings.IndexByte(txt, '\n')
			first := strings.TrimSpace(txt)
			rest := ""
			if i >= 0 {
				first, rest = strings.TrimSpace(txt[:i]), txt[i:]
			}
			switch first {
			case "unsat":
				ch <- ans{Unsat, nil}
			case "sat":
				rest = strings.ReplaceAll(rest, "t_dummy", "dummy")
				if m, ok := parseModel(rest, Model{}); ok {
					ch <- ans{Sat, m}
				} else {
					ch <- ans{Unknown, nil}
				}
			default:
				ch <- ans{Unknown, nil}
			}
		}(c)
	}
	for range cfgs {
		if a := <-ch; a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}

// VERIF_SLOW: directory where slow queries are written.
var slowDump = os.Getenv("VERIF_SLOW")
var slowN int

var fallbackTimeout = 20 * time.Second
