package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

// Solver drives one z3 process over SMT-LIB2 text.
type Solver struct {
	bin        string
	cmd        *exec.Cmd
	in         *bufio.Writer
	out        *bufio.Reader
	stack      []*Term // asserted path condition literals, one push level each
	tt         *TermTab
	vars       []*Term
	Queries    int64
	SatN       int64
	UnsatN     int64
	UnkN       int64
	Errors     int64
	Time       time.Duration
	MaxQ       time.Duration
	timeout    int // ms
	trace      io.Writer
	def        strings.Builder
	sinceStart int
}

func NewSolver(bin string, tt *TermTab, timeoutMS int) *Solver {
	s := &Solver{bin: bin, tt: tt, timeout: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2", "memory_max_size=3000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.stack = nil
	s.vars = nil
	s.sinceStart = 0
	for _, t := range s.tt.byID {
		t.sent = false
	}
	s.w("(set-option :global-declarations true)\n(set-option :print-success false)\n")
	s.w(fmt.Sprintf("(set-option :timeout %d)\n", s.timeout))
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) w(str string) {
	if s.trace != nil {
		io.WriteString(s.trace, str)
	}
	s.in.WriteString(str)
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", int(t.w/4), t.val)
		}
		return fmt.Sprintf("#b%0*b", int(t.w), t.val)
	case OpVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

// define makes sure t and everything below it is known to the solver.
func (s *Solver) define(t *Term) {
	if t.op == OpConst || t.sent {
		return
	}
	for i := 0; i < int(t.n); i++ {
		s.define(t.a[i])
	}
	t.sent = true
	if t.op == OpVar {
		s.vars = append(s.vars, t)
		s.w("(declare-const |" + t.name + "| " + sortOf(t.w) + ")\n")
		return
	}
	r := func(i int) string { return s.ref(t.a[i]) }
	tofp := func(i int) string { return "((_ to_fp " + fpSort(t.a[i].w) + ") " + r(i) + ")" }
	name := s.ref(t)
	var body string
	switch t.op {
	case OpExtract:
		body = fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, r(0))
	case OpSext:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, r(0))
	case OpFEq:
		body = "(fp.eq " + tofp(0) + " " + tofp(1) + ")"
	case OpFLt:
		body = "(fp.lt " + tofp(0) + " " + tofp(1) + ")"
	case OpFLe:
		body = "(fp.leq " + tofp(0) + " " + tofp(1) + ")"
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		n := map[Op]string{OpFAdd: "fp.add", OpFSub: "fp.sub", OpFMul: "fp.mul", OpFDiv: "fp.div"}[t.op]
		s.fresh(name, t.w)
		e := "(" + n + " RNE " + tofp(0) + " " + tofp(1) + ")"
		s.axiom(fmt.Sprintf("(ite (fp.isNaN %s) (= %s %s) (= ((_ to_fp %s) %s) %s))", e, name, s.ref(s.tt.Const(t.w, canonNaN(t.w))), fpSort(t.w), name, e))
		return
	case OpFCvt:
		if t.w == 64 {
			body = bvWiden(r(0))
		} else {
			body = bvNarrow(r(0))
		}
	case OpFFromS, OpFFromU:
		x := r(0)
		if d := 64 - int(t.a[0].w); d > 0 {
			if t.op == OpFFromS {
				x = fmt.Sprintf("((_ sign_extend %d) %s)", d, x)
			} else {
				x = fmt.Sprintf("((_ zero_extend %d) %s)", d, x)
			}
		}
		body = bvFFrom(x, t.op == OpFFromS, int(t.w))
	case OpFToS, OpFToU:
		x := r(0)
		if t.a[0].w == 32 {
			x = bvWiden(x)
		}
		nan := bvc(64, 0)
		if t.w == 64 {
			nan = bvc(64, 1<<63)
		}
		body = "(let ((fx " + x + ")) " + bvFTo("fx", t.op == OpFToS, nan) + ")"
		if t.w != 64 {
			body = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, body)
		}
	default:
		var sb strings.Builder
		sb.WriteString("(" + opNames[t.op])
		for i := 0; i < int(t.n); i++ {
			sb.WriteByte(' ')
			sb.WriteString(r(i))
		}
		sb.WriteByte(')')
		body = sb.String()
	}
	s.w("(define-fun " + name + " () " + sortOf(t.w) + " " + body + ")\n")
}

func evalBits(f float64) uint64 { return f64bits(f) }

func (s *Solver) fresh(name string, w uint8) {
	s.w("(declare-const " + name + " " + sortOf(w) + ")\n")
}

// axiom asserts a definitional constraint. It must survive pops, so it is asserted at level 0:
// the stack is popped, the axiom added, and the stack re-asserted on the next sync.
func (s *Solver) axiom(e string) {
	s.popTo(0)
	s.w("(assert " + e + ")\n")
}

func (s *Solver) popTo(n int) {
	if d := len(s.stack) - n; d > 0 {
		s.w(fmt.Sprintf("(pop %d)\n", d))
		s.stack = s.stack[:n]
	}
}

func (s *Solver) sync(pc []*Term) {
	for _, c := range pc {
		s.define(c)
	}
	k := 0
	for k < len(pc) && k < len(s.stack) && pc[k] == s.stack[k] {
		k++
	}
	s.popTo(k)
	for _, c := range pc[k:] {
		s.w("(push 1)\n(assert " + s.ref(c) + ")\n")
		s.stack = append(s.stack, c)
	}
}

// Check decides pc ∧ extra; on Sat it returns values of all known variables.
func (s *Solver) Check(pc []*Term, extra *Term, want []*Term) (SatRes, map[string]uint64) {
	t0 := time.Now()
	s.Queries++
	s.sinceStart++
	if extra != nil {
		s.define(extra)
	}
	s.sync(pc)
	if extra != nil {
		s.w("(push 1)\n(assert " + s.ref(extra) + ")\n")
	}
	s.w("(check-sat)\n")
	s.in.Flush()
	res := s.readRes()
	var m map[string]uint64
	if res == Sat {
		s.SatN++
		m = s.getModel(want)
		if m == nil {
			res = Unknown
		}
	} else if res == Unsat {
		s.UnsatN++
	} else {
		s.UnkN++
	}
	if extra != nil {
		s.w("(pop 1)\n")
	}
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxQ {
		s.MaxQ = d
	}
	if res == Unknown && s.Errors > 0 {
		s.restart()
	}
	return res, m
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "(error \"solver died: " + err.Error() + "\")"
	}
	return strings.TrimSpace(l)
}

func (s *Solver) readRes() SatRes {
	for {
		l := s.readLine()
		switch {
		case l == "sat":
			return Sat
		case l == "unsat":
			return Unsat
		case l == "unknown", l == "timeout":
			return Unknown
		case strings.HasPrefix(l, "(error"):
			s.Errors++
			fmt.Fprintln(os.Stderr, "solver:", l)
			s.restart()
			return Unknown
		}
	}
}

func (s *Solver) getModel(vars []*Term) map[string]uint64 {
	m := make(map[string]uint64, len(vars))
	if len(vars) == 0 {
		return m
	}
	const chunk = 200
	for i := 0; i < len(vars); i += chunk {
		j := i + chunk
		if j > len(vars) {
			j = len(vars)
		}
		var sb strings.Builder
		sb.WriteString("(get-value (")
		for _, v := range vars[i:j] {
			sb.WriteString(s.ref(v))
			sb.WriteByte(' ')
		}
		sb.WriteString("))\n")
		s.w(sb.String())
		s.in.Flush()
		if !s.parseValues(m) {
			return nil
		}
	}
	return m
}

// parseValues reads ((|a| #x..) (|b| true) ...)
func (s *Solver) parseValues(m map[string]uint64) bool {
	depth := 0
	var tok []byte
	var name string
	have := false
	inBar := false
	flush := func() {
		if len(tok) == 0 {
			return
		}
		t := string(tok)
		tok = tok[:0]
		if !have {
			name = strings.Trim(t, "|")
			have = true
			return
		}
		have = false
		switch {
		case t == "true":
			m[name] = 1
		case t == "false":
			m[name] = 0
		case strings.HasPrefix(t, "#x"):
			v, _ := strconv.ParseUint(t[2:], 16, 64)
			m[name] = v
		case strings.HasPrefix(t, "#b"):
			v, _ := strconv.ParseUint(t[2:], 2, 64)
			m[name] = v
		}
	}
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			s.Errors++
			s.restart()
			return false
		}
		if inBar {
			tok = append(tok, c)
			if c == '|' {
				inBar = false
			}
			continue
		}
		switch c {
		case '|':
			inBar = true
			tok = append(tok, c)
		case '(':
			flush()
			depth++
		case ')':
			flush()
			depth--
			if depth == 0 {
				return true
			}
		case ' ', '\n', '\t', '\r':
			flush()
		default:
			tok = append(tok, c)
		}
	}
}
