package main

// SMT-LIB pipe to z3, with an assertion stack that is aligned lazily with the
// path being executed.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type satResult int

const (
	Unsat satResult = iota
	Sat
	Unknown
)

type solver struct {
	tc      *termCtx
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	epoch   uint32
	stack   []*Term // asserted terms, one push level each
	buf     strings.Builder
	queries int
	sats    int
	unsats  int
	unk     int
	wall    time.Duration
	timeout int // ms
	errs    int
	lastErr string
	bin     string
}

func newSolver(tc *termCtx) *solver {
	bin := os.Getenv("ZKV_Z3")
	if bin == "" {
		bin = "z3"
	}
	s := &solver{tc: tc, bin: bin, timeout: 20000}
	s.start()
	return s
}

func (s *solver) start() {
	s.epoch++
	s.stack = nil
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.w("(set-option :global-declarations true)\n(set-option :model.completion true)\n(set-option :timeout " + strconv.Itoa(s.timeout) + ")\n")
}

func (s *solver) close() {
	s.inPipe.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *solver) w(x string) { s.in.WriteString(x) }

func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.c == 1 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(t.c, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	}
	return "t" + strconv.Itoa(int(t.id))
}

func sortOf(t *Term) string {
	if t.w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(t.w)) + ")"
}

// emit makes sure that t and everything below it is defined in the solver.
func (s *solver) emit(t *Term) {
	if t.op == OpConst || t.emitted == s.epoch {
		return
	}
	// iterative post-order
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if x.op == OpConst || x.emitted == s.epoch {
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, y := range x.a {
			if y != nil && y.op != OpConst && y.emitted != s.epoch {
				stack = append(stack, y)
				ready = false
			}
		}
		if !ready {
			continue
		}
		stack = stack[:len(stack)-1]
		x.emitted = s.epoch
		if x.op == OpVar {
			s.w("(declare-const " + x.ref() + " " + sortOf(x) + ")\n")
			continue
		}
		s.w("(define-fun " + x.ref() + " () " + sortOf(x) + " (")
		switch x.op {
		case OpZext:
			s.w("(_ zero_extend " + strconv.Itoa(int(x.w-x.a[0].w)) + ") " + x.a[0].ref())
		case OpSext:
			s.w("(_ sign_extend " + strconv.Itoa(int(x.w-x.a[0].w)) + ") " + x.a[0].ref())
		case OpExtract:
			s.w("(_ extract " + strconv.Itoa(int(x.c>>32)) + " " + strconv.Itoa(int(uint32(x.c))) + ") " + x.a[0].ref())
		default:
			s.w(opNames[x.op])
			for _, y := range x.a {
				if y != nil {
					s.w(" " + y.ref())
				}
			}
		}
		s.w("))\n")
	}
}

// align makes the solver's assertion stack a prefix of want.
func (s *solver) align(want []*Term) {
	n := 0
	for n < len(s.stack) && n < len(want) && s.stack[n] == want[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		s.w("(pop " + strconv.Itoa(d) + ")\n")
		s.stack = s.stack[:n]
	}
	for ; n < len(want); n++ {
		s.emit(want[n])
		s.w("(push 1)\n(assert " + want[n].ref() + ")\n")
		s.stack = append(s.stack, want[n])
	}
}

func (s *solver) readLine() string {
	s.in.Flush()
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "(error \"solver died: " + err.Error() + "\")"
	}
	return strings.TrimRight(l, "\r\n")
}

// check decides pc /\ extra; with model set, a Sat answer carries a model of vars.
func (s *solver) check(pc []*Term, extra *Term, vars []*Term, wantModel bool) (satResult, *Model) {
	st := time.Now()
	defer func() { s.wall += time.Since(st) }()
	s.queries++
	s.align(pc)
	if extra != nil {
		s.emit(extra)
		s.w("(push 1)\n(assert " + extra.ref() + ")\n")
	}
	s.w("(check-sat)\n")
	var res satResult
	l := s.readLine()
	switch l {
	case "sat":
		res = Sat
		s.sats++
	case "unsat":
		res = Unsat
		s.unsats++
	case "unknown", "timeout":
		res = Unknown
		s.unk++
	default:
		s.errs++
		s.lastErr = l
		s.unk++
		if os.Getenv("ZKV_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver:", l)
		}
		s.close()
		s.start()
		return Unknown, nil
	}
	var m *Model
	if res == Sat && wantModel {
		m = s.getModel(vars)
	}
	if extra != nil {
		s.w("(pop 1)\n")
	}
	return res, m
}

func (s *solver) getModel(vars []*Term) *Model {
	m := &Model{m: make(map[*Term]uint64, len(vars)), wide: map[*Term]*big.Int{}}
	var q []*Term
	for _, v := range vars {
		if v.emitted == s.epoch {
			q = append(q, v)
		}
	}
	if len(q) == 0 {
		return m
	}
	for i := 0; i < len(q); i += 500 {
		j := i + 500
		if j > len(q) {
			j = len(q)
		}
		s.getValues(m, q[i:j])
	}
	return m
}

func (s *solver) getValues(m *Model, q []*Term) {
	s.w("(get-value (")
	for _, v := range q {
		s.w(v.ref() + " ")
	}
	s.w("))\n")
	s.in.Flush()
	// parse balanced s-expression
	depth := 0
	var tok []byte
	var toks []string
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			panic("solver died in get-value")
		}
		if b == '(' || b == ')' || b == ' ' || b == '\n' || b == '\r' {
			if len(tok) > 0 {
				toks = append(toks, string(tok))
				tok = tok[:0]
			}
			if b == '(' {
				depth++
			}
			if b == ')' {
				depth--
				if depth == 0 {
					break
				}
			}
			continue
		}
		tok = append(tok, b)
	}
	s.out.ReadString('\n')
	// toks: name value name value...
	if len(toks) != 2*len(q) {
		panic(fmt.Sprintf("get-value: %d tokens for %d vars: %v", len(toks), len(q), toks))
	}
	for i, v := range q {
		val := toks[2*i+1]
		switch {
		case val == "true":
			m.m[v] = 1
		case val == "false":
			m.m[v] = 0
		case strings.HasPrefix(val, "#x"):
			if v.w > 64 {
				b, _ := new(big.Int).SetString(val[2:], 16)
				m.wide[v] = b
			} else {
				x, _ := strconv.ParseUint(val[2:], 16, 64)
				m.m[v] = x
			}
		case strings.HasPrefix(val, "#b"):
			if v.w > 64 {
				b, _ := new(big.Int).SetString(val[2:], 2)
				m.wide[v] = b
			} else {
				x, _ := strconv.ParseUint(val[2:], 2, 64)
				m.m[v] = x
			}
		default:
			panic("get-value: " + val)
		}
	}
}
