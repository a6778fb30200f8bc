package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type Solver struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	tc  *TermCtx
	buf strings.Builder

	Queries, Sat, Unsat, Unknown, Errors int
	Time                                 time.Duration
	PoolHits, Light                      int
	dead                                 bool
	timeoutMs                            int
}

var solverBin = "z3-new"
var solverName = ""

func NewSolver(tc *TermCtx, timeoutMs int) *Solver {
	s := &Solver{tc: tc, timeoutMs: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	args := []string{"-in", "-smt2"}
	s.cmd = exec.Command(solverBin, args...)
	var err error
	s.in, err = s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

var dumpDir = os.Getenv("GOSYM_DUMP")
var dumpN int64

// text writes one stand-alone query.
func (s *Solver) text(sb *strings.Builder, pcs []*Term, extra *Term) {
	s.tc.emitGen++
	g := s.tc.emitGen
	for _, t := range pcs {
		define(sb, t, g)
		fmt.Fprintf(sb, "(assert %s)\n", bref(t))
	}
	define(sb, extra, g)
	fmt.Fprintf(sb, "(assert %s)\n(check-sat)\n", bref(extra))
}

func (s *Solver) dump(pcs []*Term, extra *Term, d time.Duration) {
	var sb strings.Builder
	fmt.Fprintf(&sb, "; %v\n(set-logic QF_BV)\n", d)
	s.text(&sb, pcs, extra)
	os.WriteFile(fmt.Sprintf("%s/q%04d.smt2", dumpDir, atomic.AddInt64(&dumpN, 1)), []byte(sb.String()), 0o644)
}

type Res int

const (
	RUnsat Res = iota
	RSat
	RUnknown
)

func (s *Solver) Check(pcs []*Term, extra *Term, vars []*Term) (Res, Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if dumpDir != "" && d > 40*time.Millisecond {
			s.dump(pcs, extra, d)
		}
	}()
	s.Queries++
	s.buf.Reset()
	fmt.Fprintf(&s.buf, "(reset)\n(set-option :produce-models true)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeoutMs)
	s.text(&s.buf, pcs, extra)
	io.WriteString(s.in, s.buf.String())
	line, err := s.line()
	var r = RUnknown
	var m Model
	switch {
	case err != nil:
		s.Errors++
		s.restart()
		return RUnknown, nil
	case line == "sat":
		r = RSat
		s.Sat++
		m, err = s.model(vars)
		if err != nil {
			s.Errors++
			s.restart()
			return RUnknown, nil
		}
	case line == "unsat":
		r = RUnsat
		s.Unsat++
	case strings.HasPrefix(line, "(error"):
		s.Errors++
		s.restart()
		return RUnknown, nil
	default:
		s.Unknown++
	}
	return r, m
}

func (s *Solver) line() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

func (s *Solver) model(vars []*Term) (Model, error) {
	var vs []*Term
	for _, v := range vars {
		if v.emitted == s.tc.emitGen {
			vs = append(vs, v)
		}
	}
	m := Model{}
	if len(vs) == 0 {
		return m, nil
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vs {
		fmt.Fprintf(&sb, "t%d ", v.id)
	}
	sb.WriteString("))\n")
	io.WriteString(s.in, sb.String())
	depth := 0
	var txt strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return nil, err
		}
		if txt.Len() == 0 && strings.HasPrefix(l, "(error") {
			return nil, fmt.Errorf("solver: %s", l)
		}
		txt.WriteString(l)
		for i := 0; i < len(l); i++ {
			if l[i] == '(' {
				depth++
			} else if l[i] == ')' {
				depth--
			}
		}
		if depth == 0 {
			break
		}
	}
	byID := map[string]*Term{}
	for _, v := range vs {
		byID[fmt.Sprintf("t%d", v.id)] = v
	}
	f := strings.FieldsFunc(txt.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(f); i += 2 {
		v := byID[f[i]]
		if v == nil {
			return nil, fmt.Errorf("bad model %q", f[i])
		}
		val := f[i+1]
		switch {
		case val == "true":
			m[v.name] = 1
		case val == "false":
			m[v.name] = 0
		case strings.HasPrefix(val, "#x"), strings.HasPrefix(val, "#b"):
			base := 16
			if val[1] == 'b' {
				base = 2
			}
			u, err := strconv.ParseUint(val[2:], base, 64)
			if err != nil {
				return nil, err
			}
			w := v.w()
			x := int64(u)
			if w < 64 && u>>(w-1)&1 == 1 {
				x = int64(u) - (int64(1) << w)
			}
			m[v.name] = x
		default:
			return nil, fmt.Errorf("bad value %q", val)
		}
	}
	return m, nil
}
