package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type satRes int

const (
	unsat satRes = iota
	sat
	unknown
)

// Solver drives one z3 process incrementally. levels[i] is the i-th asserted
// path constraint (each in its own scope).
type Solver struct {
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	levels   []*Term
	defs     map[*Term]int // term -> level it is defined at
	defOrder [][]*Term
	declared map[*Term]bool
	varList  []*Term
	Queries  int
	Sat      int
	Unsat    int
	Unknown  int
	Time     time.Duration
	buf      strings.Builder
	dead     error
}

func newSolver() (*Solver, error) {
	s := &Solver{defs: map[*Term]int{}, declared: map[*Term]bool{}, defOrder: make([][]*Term, 1)}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command("z3", "-in", "-smt2", "-memory:2500")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReader(out)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.levels = nil
	s.defs, s.declared = map[*Term]int{}, map[*Term]bool{}
	s.defOrder = make([][]*Term, 1)
	s.varList = nil
	_, err = io.WriteString(s.in, "(set-option :global-declarations false)\n(set-option :timeout 20000)\n(set-logic QF_BV)\n")
	return err
}

func (s *Solver) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return strconv.FormatBool(t.val == 1)
		}
		return "(_ bv" + strconv.FormatUint(t.val, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	case OVar:
		return "v" + strconv.Itoa(t.id)
	}
	return "t" + strconv.Itoa(t.id)
}

// define emits definitions for t and its subterms at the current level.
func (s *Solver) define(t *Term) {
	if t.op == OConst {
		return
	}
	if _, ok := s.defs[t]; ok {
		return
	}
	for _, x := range t.a {
		s.define(x)
	}
	lvl := len(s.defOrder) - 1
	if t.op == OVar {
		fmt.Fprintf(&s.buf, "(declare-const %s %s)\n", s.ref(t), sortStr(t.w))
		s.varList = append(s.varList, t)
	} else {
		fmt.Fprintf(&s.buf, "(define-fun %s () %s ", s.ref(t), sortStr(t.w))
		switch t.op {
		case OZext:
			fmt.Fprintf(&s.buf, "((_ zero_extend %d) %s)", t.w-t.a[0].w, s.ref(t.a[0]))
		case OSext:
			fmt.Fprintf(&s.buf, "((_ sign_extend %d) %s)", t.w-t.a[0].w, s.ref(t.a[0]))
		case OExtract:
			fmt.Fprintf(&s.buf, "((_ extract %d %d) %s)", uint64(t.w)+t.val-1, t.val, s.ref(t.a[0]))
		default:
			s.buf.WriteString("(" + opNames[t.op])
			for _, x := range t.a {
				s.buf.WriteString(" " + s.ref(x))
			}
			s.buf.WriteString(")")
		}
		s.buf.WriteString(")\n")
	}
	s.defs[t] = lvl
	s.defOrder[lvl] = append(s.defOrder[lvl], t)
}

func (s *Solver) push() {
	s.buf.WriteString("(push 1)\n")
	s.defOrder = append(s.defOrder, nil)
}

func (s *Solver) popTo(n int) {
	k := len(s.defOrder) - 1 - n
	if k <= 0 {
		return
	}
	fmt.Fprintf(&s.buf, "(pop %d)\n", k)
	for i := 0; i < k; i++ {
		l := len(s.defOrder) - 1
		for _, t := range s.defOrder[l] {
			delete(s.defs, t)
			if t.op == OVar {
				s.varList = s.varList[:len(s.varList)-1]
			}
		}
		s.defOrder = s.defOrder[:l]
	}
	if len(s.levels) > n {
		s.levels = s.levels[:n]
	}
}

// check decides pc ∧ extra. On sat the model covers every declared variable.
func (s *Solver) check(pc []*Term, extra *Term, model bool) (satRes, *Model) {
	if extra != nil && extra.isFalse() {
		return unsat, nil
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	common := 0
	for common < len(pc) && common < len(s.levels) && pc[common] == s.levels[common] {
		common++
	}
	s.popTo(common)
	for _, t := range pc[common:] {
		s.push()
		s.define(t)
		s.buf.WriteString("(assert " + s.ref(t) + ")\n")
		s.levels = append(s.levels, t)
	}
	base := len(s.levels)
	s.push()
	if extra != nil {
		s.define(extra)
		s.buf.WriteString("(assert " + s.ref(extra) + ")\n")
	}
	s.buf.WriteString("(check-sat)\n")
	r, err := s.roundtrip()
	if err != nil {
		s.close()
		s.start()
		s.buf.Reset()
		s.Unknown++
		return unknown, nil
	}
	var m *Model
	res := unknown
	switch r {
	case "sat":
		res = sat
		s.Sat++
		if model {
			m = &Model{vals: map[string]uint64{}}
			if len(s.varList) > 0 {
				s.buf.WriteString("(get-value (")
				for _, v := range s.varList {
					s.buf.WriteString(" " + s.ref(v))
				}
				s.buf.WriteString("))\n")
				if err := s.readModel(m); err != nil {
					s.dead = err
					res = unknown
				}
			}
		}
	case "unsat":
		res = unsat
		s.Unsat++
	default:
		s.Unknown++
	}
	s.popTo(base)
	return res, m
}

func (s *Solver) flush() error {
	_, err := io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
	return err
}

func (s *Solver) roundtrip() (string, error) {
	if err := s.flush(); err != nil {
		return "", err
	}
	l, err := s.out.ReadString('\n')
	l = strings.TrimSpace(l)
	if strings.HasPrefix(l, "(error") {
		return "", fmt.Errorf("z3: %s", l)
	}
	return l, err
}

func (s *Solver) readModel(m *Model) error {
	if err := s.flush(); err != nil {
		return err
	}
	depth := 0
	var sb strings.Builder
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return err
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	byRef := map[string]*Term{}
	for _, v := range s.varList {
		byRef[s.ref(v)] = v
	}
	f := strings.FieldsFunc(sb.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(f); i += 2 {
		v := byRef[f[i]]
		if v == nil {
			return fmt.Errorf("bad model token %q in %s", f[i], sb.String())
		}
		x := f[i+1]
		switch {
		case x == "true":
			m.vals[v.name] = 1
		case x == "false":
			m.vals[v.name] = 0
		case strings.HasPrefix(x, "#x"):
			n, _ := strconv.ParseUint(x[2:], 16, 64)
			m.vals[v.name] = n
		case strings.HasPrefix(x, "#b"):
			n, _ := strconv.ParseUint(x[2:], 2, 64)
			m.vals[v.name] = n
		default:
			return fmt.Errorf("bad model value %q", x)
		}
	}
	return nil
}
