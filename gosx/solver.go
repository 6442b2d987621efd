package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	tb      *TB
	stack   []*Term
	Queries int
	Sat     int
	Unsat   int
	Unknown int
	Time    time.Duration
	log     io.Writer
	timeout int
	cur     int       // the timeout set in the solver
	dl      time.Time // when the harness has to be done
	bin     string
	dead    bool
}

const (
	resSat = iota
	resUnsat
	resUnknown
)

func newSolver(tb *TB, bin string, timeoutMs int) (*Solver, error) {
	s := &Solver{tb: tb, timeout: timeoutMs, bin: bin}
	if err := s.start(); err != nil {
		return nil, err
	}
	return s, nil
}

func (s *Solver) start() error {
	c := exec.Command(s.bin, "-in")
	in, err := c.StdinPipe()
	if err != nil {
		return err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return err
	}
	if err := c.Start(); err != nil {
		return err
	}
	s.cmd, s.in, s.out = c, in, bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-option :produce-models true)\n", s.timeout)
	s.stack = nil
	s.dead = false
	s.cur = s.timeout
	return nil
}

// limit shortens the time of a query near the end of the budget.
func (s *Solver) limit() string {
	ms := s.timeout
	if !s.dl.IsZero() {
		if left := int(time.Until(s.dl).Milliseconds()); left < ms {
			ms = left
			if ms < 1000 {
				ms = 1000
			}
		}
	}
	if d := ms - s.cur; d > -500 && d < 500 {
		return ""
	}
	s.cur = ms
	return fmt.Sprintf("(set-option :timeout %d)\n", ms)
}

// restart replaces a dead solver; every term must be emitted again.
func (s *Solver) restart() error {
	s.Close()
	for _, t := range s.tb.m {
		t.emitted = false
	}
	for _, t := range s.tb.all {
		t.emitted = false
	}
	return s.start()
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// Check decides pc ∧ extra. On sat returns a model.
// solverLog: debugging aid, everything sent to solvers (use with GOSX_JOBS=1).
var solverLog = func() *os.File {
	if p := os.Getenv("GOSX_SMTLOG"); p != "" {
		f, _ := os.Create(p)
		return f
	}
	return nil
}()

func (s *Solver) Check(pc []*Term, extra *Term) (int, []uint64) {
	if s.dead {
		if err := s.restart(); err != nil {
			s.Unknown++
			return resUnknown, nil
		}
	}
	t0 := time.Now()
	var sb strings.Builder
	sb.WriteString(s.limit())
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if len(s.stack) > n {
		fmt.Fprintf(&sb, "(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		t.emit(&sb)
		fmt.Fprintf(&sb, "(push)(assert %s)\n", t.ref())
		s.stack = append(s.stack, t)
	}
	extra.emit(&sb)
	fmt.Fprintf(&sb, "(push)(assert %s)(check-sat)\n", extra.ref())
	io.WriteString(s.in, sb.String())
	if solverLog != nil {
		solverLog.WriteString(sb.String())
	}
	s.Queries++
	r, err := s.readLine()
	res := resUnknown
	var model []uint64
	switch {
	case err != nil:
		s.dead = true
	case r == "sat":
		res = resSat
		model, err = s.model()
		if err != nil {
			s.dead = true
			res = resUnknown
		}
	case r == "unsat":
		res = resUnsat
	case strings.HasPrefix(r, "(error"):
		s.dead = true
		fmt.Println("gosx: solver error:", r)
	}
	if !s.dead {
		io.WriteString(s.in, "(pop)\n")
	}
	s.Time += time.Since(t0)
	switch res {
	case resSat:
		s.Sat++
	case resUnsat:
		s.Unsat++
	default:
		s.Unknown++
	}
	return res, model
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

func (s *Solver) model() ([]uint64, error) {
	var vs []*Term
	for _, v := range s.tb.all {
		if v.emitted {
			vs = append(vs, v)
		}
	}
	model := make([]uint64, len(s.tb.all))
	if len(vs) == 0 {
		return model, nil
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vs {
		sb.WriteString(v.ref())
		sb.WriteString(" ")
	}
	sb.WriteString("))\n")
	io.WriteString(s.in, sb.String())
	// read balanced parens
	depth := 0
	var txt strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return nil, err
		}
		txt.WriteString(l)
		for i := 0; i < len(l); i++ {
			if l[i] == '(' {
				depth++
			} else if l[i] == ')' {
				depth--
			}
		}
		if depth == 0 {
			break
		}
	}
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt.String()))
	if len(f) > 0 && f[0] == "error" {
		return nil, fmt.Errorf("%s", txt.String())
	}
	for i := 0; i+1 < len(f); i += 2 {
		idx, err := strconv.Atoi(f[i][1:])
		if err != nil {
			return nil, fmt.Errorf("bad model: %s", txt.String())
		}
		val := f[i+1]
		var u uint64
		switch {
		case val == "true":
			u = 1
		case val == "false":
		case strings.HasPrefix(val, "#x"):
			u, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			u, err = strconv.ParseUint(val[2:], 2, 64)
		default:
			err = fmt.Errorf("bad value %s", val)
		}
		if err != nil {
			return nil, err
		}
		model[idx] = u
	}
	return model, nil
}

// CheckRaw decides an assertion given as text, by itself.
func (s *Solver) CheckRaw(text string) int {
	if s.dead && s.restart() != nil {
		return resUnknown
	}
	t0 := time.Now()
	var sb strings.Builder
	sb.WriteString(s.limit())
	if len(s.stack) > 0 {
		fmt.Fprintf(&sb, "(pop %d)\n", len(s.stack))
		s.stack = nil
	}
	sb.WriteString("(push)" + text + "(check-sat)(pop)\n")
	io.WriteString(s.in, sb.String())
	if solverLog != nil {
		solverLog.WriteString(sb.String())
	}
	s.Queries++
	r, err := s.readLine()
	s.Time += time.Since(t0)
	switch {
	case err == nil && r == "sat":
		s.Sat++
		return resSat
	case err == nil && r == "unsat":
		s.Unsat++
		return resUnsat
	}
	if err != nil || strings.HasPrefix(r, "(error") {
		s.dead = true
		fmt.Println("gosx: solver error:", r, err)
	}
	s.Unknown++
	return resUnknown
}
