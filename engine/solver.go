package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// A Solver is one SMT solver process kept alive and fed through push/pop.
type Solver struct {
	name    string
	args    []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	Queries int
	Time    time.Duration
	Errors  int
	Unknown int
	killer  *time.Timer
}

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

func NewSolver(name string, args ...string) *Solver {
	return &Solver{name: name, args: args}
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.name, s.args...)
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	if strings.Contains(s.name, "z3") {
		io.WriteString(s.in, "(set-option :timeout 20000)\n")
	} else {
		io.WriteString(s.in, "(set-logic QF_BV)\n")
	}
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// slowDir keeps queries that took long, for debugging.
var slowDir = os.Getenv("ZZ_SLOW")

// Check decides the conjunction of ts; on Sat it returns values for all their variables.
func (s *Solver) Check(x *Ctx, ts []*Term, wantModel bool) (SatRes, Model) {
	t0 := time.Now()
	var sb strings.Builder
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if slowDir != "" && d > 2*time.Second {
			os.WriteFile(fmt.Sprintf("%s/q%d.smt2", slowDir, time.Now().UnixNano()), []byte(sb.String()), 0o644)
		}
	}()
	s.Queries++
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.Errors++
			return Unknown, nil
		}
	}
	sb.WriteString("(push 1)\n")
	var vars []*Term
	for _, t := range ts {
		vars = mergeVars(vars, t.vars)
	}
	for _, v := range vars {
		fmt.Fprintf(&sb, "(declare-const %s %s)\n", v.name, sortName(v.w))
	}
	for _, a := range x.printSMT(&sb, ts) {
		sb.WriteString("(assert ")
		sb.WriteString(a)
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		return s.fail()
	}
	line, ok := s.readLine()
	if !ok {
		return s.fail()
	}
	res := Unknown
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown":
		s.Unknown++
	default: // an (error line or anything else: inconclusive, restart
		return s.fail()
	}
	var m Model
	if res == Sat && wantModel {
		m = Model{}
		if len(vars) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range vars {
				q.WriteString(v.name)
				q.WriteByte(' ')
			}
			q.WriteString("))\n")
			if _, err := io.WriteString(s.in, q.String()); err != nil {
				return s.fail()
			}
			txt, ok := s.readSexp()
			if !ok || strings.HasPrefix(txt, "(error") {
				return s.fail()
			}
			if !parseValues(txt, m) {
				return s.fail()
			}
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	return res, m
}

func (s *Solver) fail() (SatRes, Model) {
	s.Errors++
	s.Close()
	return Unknown, nil
}

func (s *Solver) readLine() (string, bool) {
	type r struct {
		l string
		e error
	}
	done := time.AfterFunc(40*time.Second, func() {
		if s.cmd != nil {
			s.cmd.Process.Kill()
		}
	})
	defer done.Stop()
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", false
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, true
		}
	}
}

func (s *Solver) readSexp() (string, bool) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", false
		}
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
		if started {
			sb.WriteByte(c)
			if depth == 0 {
				return sb.String(), true
			}
		}
	}
}

// parseValues parses ((name value) ...).
func parseValues(txt string, m Model) bool {
	toks := tokenize(txt)
	i := 1
	for i < len(toks)-1 {
		if toks[i] != "(" {
			return false
		}
		name := toks[i+1]
		i += 2
		var v uint64
		switch {
		case toks[i] == "true":
			v = 1
			i++
		case toks[i] == "false":
			i++
		case strings.HasPrefix(toks[i], "#x"):
			n, err := strconv.ParseUint(toks[i][2:], 16, 64)
			if err != nil {
				return false
			}
			v = n
			i++
		case strings.HasPrefix(toks[i], "#b"):
			n, err := strconv.ParseUint(toks[i][2:], 2, 64)
			if err != nil {
				return false
			}
			v = n
			i++
		case toks[i] == "(": // (_ bvN w)
			n, err := strconv.ParseUint(strings.TrimPrefix(toks[i+2], "bv"), 10, 64)
			if err != nil {
				return false
			}
			v = n
			i += 5
		default:
			return false
		}
		m[name] = v
		if toks[i] != ")" {
			return false
		}
		i++
	}
	return true
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}
