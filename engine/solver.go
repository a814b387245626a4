package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unknown SatResult = iota
	Sat
	Unsat
)

// Solver drives one SMT solver process over a pipe.
type Solver struct {
	bin     []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	defined map[int]bool // node ids defined in this process
	vars    map[string]bool
	ndef    int
	timeout time.Duration

	queries  int
	sat      int
	unsat    int
	unknown  int
	errors   int
	restarts int
	dur      time.Duration
	maxDur   time.Duration
}

func NewSolver(timeout time.Duration, bin ...string) *Solver {
	return &Solver{bin: bin, timeout: timeout}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inRaw = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.defined = map[int]bool{}
	s.vars = map[string]bool{}
	s.ndef = 0
	fmt.Fprintf(s.in, "(set-option :print-success false)\n")
	if s.bin[0] == "cvc5" {
		fmt.Fprintf(s.in, "(set-option :tlimit-per %d)\n(set-logic QF_BV)\n", s.timeout.Milliseconds())
	} else {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeout.Milliseconds())
	}
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) define(e *Expr) string {
	switch e.op {
	case OpConst:
		return constSMT(e.w, e.k)
	case OpVar:
		n := varName(e)
		if !s.vars[n] {
			s.vars[n] = true
			fmt.Fprintf(s.in, "(declare-const %s %s)\n", n, sortSMT(e.w))
		}
		return n
	}
	name := "n" + strconv.Itoa(e.id)
	if !s.defined[e.id] {
		for _, x := range [3]*Expr{e.a, e.b, e.c} {
			if x != nil {
				s.define(x)
			}
		}
		txt := nodeSMT(e, s.ref)
		fmt.Fprintf(s.in, "(define-fun %s () %s %s)\n", name, sortSMT(e.w), txt)
		s.defined[e.id] = true
		s.ndef++
	}
	return name
}

func (s *Solver) ref(e *Expr) string {
	switch e.op {
	case OpConst:
		return constSMT(e.w, e.k)
	case OpVar:
		return varName(e)
	}
	return "n" + strconv.Itoa(e.id)
}

// Check decides the conjunction; on Sat it returns values for the listed variables.
func (s *Solver) Check(cs []*Expr, vars []*Expr) (SatResult, []uint64) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.dur += d
		if d > s.maxDur {
			s.maxDur = d
		}
	}()
	s.queries++
	if s.cmd != nil && s.ndef > 200000 {
		s.Close()
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.errors++
			return Unknown, nil
		}
	}
	names := make([]string, len(cs))
	for i, c := range cs {
		names[i] = s.define(c)
	}
	vn := make([]string, len(vars))
	for i, v := range vars {
		vn[i] = s.define(v)
	}
	s.in.WriteString("(push 1)\n")
	for _, n := range names {
		s.in.WriteString("(assert ")
		s.in.WriteString(n)
		s.in.WriteString(")\n")
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		return s.fail()
	}
	// watchdog: the process is killed when it overruns its own timeout badly
	cmd := s.cmd
	wd := time.AfterFunc(s.timeout+5*time.Second, func() { cmd.Process.Kill() })
	defer wd.Stop()
	line, err := s.out.ReadString('\n')
	if err != nil {
		return s.fail()
	}
	line = strings.TrimSpace(line)
	var res SatResult
	var vals []uint64
	switch line {
	case "sat":
		res = Sat
		s.sat++
		if len(vn) > 0 {
			s.in.WriteString("(get-value (")
			for _, n := range vn {
				s.in.WriteString(n)
				s.in.WriteByte(' ')
			}
			s.in.WriteString("))\n")
			s.in.Flush()
			txt, err := readSexp(s.out)
			if err != nil {
				return s.fail()
			}
			vals, err = parseValues(txt, len(vn))
			if err != nil {
				return s.fail()
			}
		}
	case "unsat":
		res = Unsat
		s.unsat++
	case "unknown":
		res = Unknown
		s.unknown++
	default: // (error ...)
		fmt.Fprintln(os.Stderr, "solver:", line)
		return s.fail()
	}
	s.in.WriteString("(pop 1)\n")
	return res, vals
}

func (s *Solver) fail() (SatResult, []uint64) {
	s.errors++
	s.unknown++
	s.restarts++
	s.Close()
	return Unknown, nil
}

func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		b, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				// consume rest of the line
				r.ReadString('\n')
				return sb.String(), nil
			}
		}
	}
}

// parseValues parses ((name value) (name value) ...)
func parseValues(t string, n int) ([]uint64, error) {
	var out []uint64
	t = strings.TrimSpace(t)
	t = strings.TrimPrefix(t, "(")
	for len(out) < n {
		i := strings.IndexByte(t, '(')
		if i < 0 {
			return nil, fmt.Errorf("bad model")
		}
		t = t[i+1:]
		sp := strings.IndexByte(t, ' ')
		t = strings.TrimLeft(t[sp+1:], " \n")
		var v uint64
		var err error
		switch {
		case strings.HasPrefix(t, "#x"):
			e := strings.IndexByte(t, ')')
			v, err = strconv.ParseUint(t[2:e], 16, 64)
			t = t[e+1:]
		case strings.HasPrefix(t, "#b"):
			e := strings.IndexByte(t, ')')
			v, err = strconv.ParseUint(t[2:e], 2, 64)
			t = t[e+1:]
		case strings.HasPrefix(t, "true"):
			v = 1
			t = t[strings.IndexByte(t, ')')+1:]
		case strings.HasPrefix(t, "false"):
			v = 0
			t = t[strings.IndexByte(t, ')')+1:]
		case strings.HasPrefix(t, "(_ bv"):
			t = t[5:]
			e := strings.IndexByte(t, ' ')
			v, err = strconv.ParseUint(t[:e], 10, 64)
			t = t[strings.IndexByte(t, ')')+1:]
			t = t[strings.IndexByte(t, ')')+1:]
		default:
			return nil, fmt.Errorf("bad value %q", t)
		}
		if err != nil {
			return nil, err
		}
		out = append(out, v)
	}
	return out, nil
}
