package main

// One incremental SMT solver process per worker.

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Sat int

const (
	SatNo Sat = iota
	SatYes
	SatUnknown
)

type Solver struct {
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	stamp   int // session stamp: terms defined in this session carry it
	defined []*Term
	decl    map[string]bool
	vars    []*Term
	Queries int
	Sats    int
	Unsats  int
	Unknown int
	Errors  int
	Time    time.Duration
	sb      strings.Builder
}

func newSolver(bin string, args ...string) (*Solver, error) {
	s := &Solver{bin: bin, args: args}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, s.args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.raw("(set-option :print-success false)\n(set-option :produce-models true)\n")
	if strings.Contains(s.bin, "z3") {
		s.raw("(set-option :timeout 20000)\n")
	} else {
		s.raw("(set-logic ALL)\n")
	}
	s.raw("(push 1)\n")
	s.decl = map[string]bool{}
	return nil
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) raw(x string) { s.in.WriteString(x) }

// reset starts a new path.
func (s *Solver) reset() {
	for _, t := range s.defined {
		t.smt = 0
	}
	s.defined = s.defined[:0]
	s.decl = map[string]bool{}
	s.vars = nil
	if s.cmd == nil {
		s.start()
		return
	}
	s.raw("(pop 1)\n(push 1)\n")
}

// ref returns the name of t, sending its definition first when needed.
func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constStr(t)
	case OVar:
		if !s.decl[t.name] {
			s.decl[t.name] = true
			s.vars = append(s.vars, t)
			s.raw("(declare-const " + t.name + " " + sortName(t.w) + ")\n")
		}
		return t.name
	}
	if t.smt != 0 {
		return "t" + strconv.Itoa(t.smt)
	}
	refs := make([]string, len(t.a))
	for i, x := range t.a {
		refs[i] = s.ref(x)
	}
	if t.op == OFeq || t.op == OFlt || t.op == OFle {
		for i := range refs {
			refs[i] = "((_ to_fp 11 53) " + refs[i] + ")"
		}
	}
	s.stamp++
	t.smt = s.stamp
	s.defined = append(s.defined, t)
	if t.op >= OFadd && t.op <= OU2F {
		s.raw("(define-fun t" + strconv.Itoa(t.smt) + " () " + sortName(t.w) + " " + t.farithStr(refs) + ")\n")
		return "t" + strconv.Itoa(t.smt)
	}
	s.raw("(define-fun t" + strconv.Itoa(t.smt) + " () " + sortName(t.w) + " (" + t.opStr() + " " + strings.Join(refs, " ") + "))\n")
	return "t" + strconv.Itoa(t.smt)
}

func (s *Solver) assert(t *Term) {
	if t.isTrue() {
		return
	}
	r := s.ref(t)
	s.raw("(assert " + r + ")\n")
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// check asks whether the asserted facts together with extra are satisfiable.
func (s *Solver) check(extra *Term, wantModel bool) (Sat, Model) {
	s.Queries++
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	r := s.ref(extra)
	s.raw("(push 1)\n(assert " + r + ")\n(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.Errors++
		s.close()
		return SatUnknown, nil
	}
	line, err := s.readLine()
	if err != nil {
		s.Errors++
		s.close()
		return SatUnknown, nil
	}
	var res Sat
	var m Model
	switch line {
	case "unsat":
		res = SatNo
		s.Unsats++
	case "sat":
		res = SatYes
		s.Sats++
		if wantModel {
			m = s.model()
			if m == nil {
				res = SatUnknown
			}
		}
	default:
		res = SatUnknown
		s.Unknown++
		if strings.Contains(line, "error") {
			s.Errors++
			// resynchronise by restarting: caller must treat the path as inconclusive
			s.close()
			return SatUnknown, nil
		}
	}
	s.raw("(pop 1)\n")
	return res, m
}

func (s *Solver) model() Model {
	m := Model{}
	if len(s.vars) == 0 {
		return m
	}
	s.sb.Reset()
	s.sb.WriteString("(get-value (")
	for i, v := range s.vars {
		if i > 0 {
			s.sb.WriteByte(' ')
		}
		s.sb.WriteString(v.name)
	}
	s.sb.WriteString("))\n")
	s.raw(s.sb.String())
	if err := s.in.Flush(); err != nil {
		s.Errors++
		return nil
	}
	depth := 0
	var text strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.Errors++
			return nil
		}
		text.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 {
			break
		}
	}
	str := text.String()
	if strings.Contains(str, "error") {
		s.Errors++
		return nil
	}
	toks := strings.Fields(strings.NewReplacer("(", " ( ", ")", " ) ").Replace(str))
	for i := 0; i+2 < len(toks); i++ {
		if toks[i] == "(" && toks[i+1] != "(" && toks[i+1] != "_" {
			name, v := toks[i+1], toks[i+2]
			switch {
			case v == "true":
				m[name] = 1
			case v == "false":
				m[name] = 0
			case strings.HasPrefix(v, "#x"):
				u, _ := strconv.ParseUint(v[2:], 16, 64)
				m[name] = u
			case strings.HasPrefix(v, "#b"):
				u, _ := strconv.ParseUint(v[2:], 2, 64)
				m[name] = u
			case v == "(" && i+4 < len(toks) && toks[i+3] == "_":
				u, _ := strconv.ParseUint(strings.TrimPrefix(toks[i+4], "bv"), 10, 64)
				m[name] = u
			default:
				panic(fmt.Sprintf("cannot read model value %q in %s", v, str))
			}
		}
	}
	return m
}
