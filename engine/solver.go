package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// Solver drives one incremental SMT solver process.
type Solver struct {
	bin       []string
	cmd       *exec.Cmd
	in        io.WriteCloser
	out       *bufio.Reader
	buf       strings.Builder
	gen       int
	asserted  []*Term
	tt        *TermTable
	Queries   int
	NSat      int
	NUnsat    int
	NUnknown  int
	Time      time.Duration
	MaxQuery  time.Duration
	TimeoutMS int
	errLines  []string
	Restarts  int
}

func newSolver(tt *TermTable, bin []string, timeoutMS int) *Solver {
	s := &Solver{bin: bin, tt: tt, TimeoutMS: timeoutMS}
	s.start()
	return s
}

func (s *Solver) start() {
	s.gen++
	cmd := exec.Command(s.bin[0], s.bin[1:]...)
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	cmd.Stderr = cmd.Stdout
	if err := cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver %v: %v", s.bin, err))
	}
	s.cmd, s.in, s.out = cmd, in, bufio.NewReaderSize(out, 1<<16)
	s.asserted = s.asserted[:0]
	s.buf.Reset()
	s.buf.WriteString("(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n")
	if strings.Contains(s.bin[0], "z3") {
		fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n", s.TimeoutMS)
	}
	s.buf.WriteString("(set-logic QF_BV)\n")
}

func (s *Solver) close() {
	if s.cmd == nil {
		return
	}
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.cmd = nil
}

func (s *Solver) restart() {
	s.close()
	s.Restarts++
	s.start()
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	case OVar:
		return "v" + strconv.Itoa(t.id)
	}
	return "t" + strconv.Itoa(t.id)
}

func (s *Solver) define(t *Term) {
	if t.defd == s.gen || t.op == OConst {
		return
	}
	t.defd = s.gen
	if t.op == OVar {
		fmt.Fprintf(&s.buf, "(declare-const v%d %s)\n", t.id, sortName(t.w))
		return
	}
	for i := 0; i < int(t.n); i++ {
		s.define(t.args[i])
	}
	fmt.Fprintf(&s.buf, "(define-fun t%d () %s ", t.id, sortName(t.w))
	a := func(i int) string { return s.ref(t.args[i]) }
	switch t.op {
	case OZext:
		fmt.Fprintf(&s.buf, "((_ zero_extend %d) %s)", t.w-t.args[0].w, a(0))
	case OSext:
		fmt.Fprintf(&s.buf, "((_ sign_extend %d) %s)", t.w-t.args[0].w, a(0))
	case OExtract:
		fmt.Fprintf(&s.buf, "((_ extract %d 0) %s)", t.w-1, a(0))
	default:
		s.buf.WriteString("(" + opNames[t.op])
		for i := 0; i < int(t.n); i++ {
			s.buf.WriteString(" " + a(i))
		}
		s.buf.WriteString(")")
	}
	s.buf.WriteString(")\n")
}

func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.asserted) && pc[n] == s.asserted[n] {
		n++
	}
	if k := len(s.asserted) - n; k > 0 {
		fmt.Fprintf(&s.buf, "(pop %d)\n", k)
		s.asserted = s.asserted[:n]
	}
	for ; n < len(pc); n++ {
		s.define(pc[n])
		fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n", s.ref(pc[n]))
		s.asserted = append(s.asserted, pc[n])
	}
}

func (s *Solver) flush() error {
	_, err := io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
	return err
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			s.errLines = append(s.errLines, l)
			return "error", nil
		}
		return l, nil
	}
}

// Check decides pc ∧ extra. If wantModel is non-nil and the result is sat, the
// values of those variables are returned.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (SatResult, map[*Term]uint64) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxQuery {
			s.MaxQuery = d
		}
	}()
	s.Queries++
	if s.tt.next > 3_000_000 && false {
		s.restart()
	}
	s.sync(pc)
	if extra != nil {
		s.define(extra)
	}
	for _, v := range vars {
		s.define(v)
	}
	s.buf.WriteString("(push 1)\n")
	if extra != nil {
		fmt.Fprintf(&s.buf, "(assert %s)\n", s.ref(extra))
	}
	s.buf.WriteString("(check-sat)\n")
	if err := s.flush(); err != nil {
		s.restart()
		s.NUnknown++
		return Unknown, nil
	}
	l, err := s.readLine()
	if err != nil {
		s.restart()
		s.NUnknown++
		return Unknown, nil
	}
	var res SatResult
	var model map[*Term]uint64
	switch l {
	case "sat":
		res = Sat
		s.NSat++
		if len(vars) > 0 {
			s.buf.WriteString("(get-value (")
			for _, v := range vars {
				s.buf.WriteString(s.ref(v) + " ")
			}
			s.buf.WriteString("))\n")
			s.flush()
			model = s.readModel(vars)
		}
	case "unsat":
		res = Unsat
		s.NUnsat++
	default:
		res = Unknown
		s.NUnknown++
		if l == "error" {
			// drain by restarting: never trust a process that reported an error
			s.restart()
			return Unknown, nil
		}
	}
	s.buf.WriteString("(pop 1)\n")
	return res, model
}

func (s *Solver) readModel(vars []*Term) map[*Term]uint64 {
	depth := 0
	var sb strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return nil
		}
		for _, c := range l {
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		sb.WriteString(l)
		if depth == 0 && strings.TrimSpace(sb.String()) != "" {
			break
		}
	}
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		s.errLines = append(s.errLines, txt)
		return nil
	}
	byName := map[string]*Term{}
	for _, v := range vars {
		byName[s.ref(v)] = v
	}
	m := map[*Term]uint64{}
	toks := tokenize(txt)
	for i := 0; i+1 < len(toks); i++ {
		v, ok := byName[toks[i]]
		if !ok {
			continue
		}
		nx := toks[i+1]
		switch {
		case nx == "true":
			m[v] = 1
		case nx == "false":
			m[v] = 0
		case strings.HasPrefix(nx, "#x"):
			x, _ := strconv.ParseUint(nx[2:], 16, 64)
			m[v] = x
		case strings.HasPrefix(nx, "#b"):
			x, _ := strconv.ParseUint(nx[2:], 2, 64)
			m[v] = x
		case nx == "(" && i+4 < len(toks) && toks[i+2] == "_":
			x, _ := strconv.ParseUint(strings.TrimPrefix(toks[i+3], "bv"), 10, 64)
			m[v] = x
		}
	}
	return m
}

func tokenize(s string) []string {
	var out []string
	cur := ""
	fl := func() {
		if cur != "" {
			out = append(out, cur)
			cur = ""
		}
	}
	for _, c := range s {
		switch c {
		case '(', ')':
			fl()
			out = append(out, string(c))
		case ' ', '\n', '\t', '\r':
			fl()
		default:
			cur += string(c)
		}
	}
	fl()
	return out
}
