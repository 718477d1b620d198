package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one long-lived SMT process over a pipe.
type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	sb      strings.Builder
	queries int
	sat     int
	unsat   int
	unknown int
	nanos   int64
	maxNs   int64
	ndef    int
	tmoMs   int
}

func NewSolver(bin string, tmoMs int) (*Solver, error) {
	s := &Solver{bin: bin, tmoMs: tmoMs}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.sb.Reset()
	fmt.Fprintf(&s.sb, "(set-option :print-success false)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.tmoMs)
	return nil
}

func (s *Solver) Close() {
	if s.in != nil {
		s.in.Close()
	}
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) emit(str string) { s.sb.WriteString(str) }

func (s *Solver) flush() error {
	_, err := io.WriteString(s.in, s.sb.String())
	s.sb.Reset()
	return err
}

// check flushes the pending commands followed by the given check command.
// It returns "sat", "unsat" or "unknown".
func (s *Solver) check(cmd string) string {
	t0 := time.Now()
	s.sb.WriteString(cmd)
	s.sb.WriteByte('\n')
	if err := s.flush(); err != nil {
		s.unknown++
		return "unknown"
	}
	line, err := s.out.ReadString('\n')
	d := time.Since(t0).Nanoseconds()
	s.nanos += d
	if d > s.maxNs {
		s.maxNs = d
	}
	s.queries++
	line = strings.TrimSpace(line)
	if err != nil {
		s.unknown++
		return "unknown"
	}
	switch line {
	case "sat":
		s.sat++
	case "unsat":
		s.unsat++
	default:
		// "unknown", "timeout" or "(error ...": never taken as an answer
		s.unknown++
		if strings.HasPrefix(line, "(error") {
			solverErr(line)
		}
		return "unknown"
	}
	return line
}

var solverErrHook func(string)

func solverErr(l string) {
	if solverErrHook != nil {
		solverErrHook(l)
	}
}

// values reads the model of the given variables after a sat answer.
func (s *Solver) values(vars []*Var) ([]uint64, error) {
	res := make([]uint64, len(vars))
	if len(vars) == 0 {
		return res, nil
	}
	t0 := time.Now()
	s.sb.WriteString("(get-value (")
	for i, v := range vars {
		if i > 0 {
			s.sb.WriteByte(' ')
		}
		s.sb.WriteString(v.name)
	}
	s.sb.WriteString("))\n")
	if err := s.flush(); err != nil {
		return nil, err
	}
	var sb strings.Builder
	depth := 0
	started := false
	for !started || depth > 0 {
		b, err := s.out.ReadByte()
		if err != nil {
			return nil, err
		}
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		sb.WriteByte(b)
	}
	s.out.ReadString('\n')
	s.nanos += time.Since(t0).Nanoseconds()
	txt := sb.String()
	if strings.HasPrefix(txt, "(error") {
		return nil, fmt.Errorf("%s", txt)
	}
	idx := map[string]int{}
	for i, v := range vars {
		idx[v.name] = i
	}
	fields := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt))
	for i := 0; i+1 < len(fields); i++ {
		k, ok := idx[fields[i]]
		if !ok {
			continue
		}
		f := fields[i+1]
		var v uint64
		var err error
		switch {
		case f == "true":
			v = 1
		case f == "false":
			v = 0
		case strings.HasPrefix(f, "#x"):
			v, err = strconv.ParseUint(f[2:], 16, 64)
		case strings.HasPrefix(f, "#b"):
			v, err = strconv.ParseUint(f[2:], 2, 64)
		case f == "_" && i+2 < len(fields) && strings.HasPrefix(fields[i+2], "bv"):
			v, err = strconv.ParseUint(fields[i+2][2:], 10, 64)
		default:
			err = fmt.Errorf("bad value %q", f)
		}
		if err != nil {
			return nil, err
		}
		res[k] = v
	}
	return res, nil
}
