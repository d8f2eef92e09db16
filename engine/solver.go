package main

// A z3 process driven over SMT-LIB2 with push/pop.

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"os/exec"
	"sort"
	"strings"
	"time"
)

type Solver struct {
	bin      string
	args     []string
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	declared map[string]bool
	emitted  map[int]bool
	buf      strings.Builder

	cache   map[[32]byte]cached
	Queries int
	Hits    int
	Sat     int
	Unsat   int
	Unknown int
	Time    time.Duration
	// every query text, kept only when a second solver cross-checks
	keep    bool
	Kept    []keptQuery
	timeout time.Duration
}

type keptQuery struct {
	text string
	res  string
}

type cached struct {
	res   string
	model map[*Var]uint64
}

func newSolver(timeout time.Duration) *Solver {
	s := &Solver{bin: "z3", args: []string{"-in", "-smt2"}, cache: map[[32]byte]cached{}, timeout: timeout}
	return s
}

func (s *Solver) start() error {
	if s.cmd != nil {
		return nil
	}
	s.declared = map[string]bool{}
	s.emitted = map[int]bool{}
	s.cmd = exec.Command(s.bin, s.args...)
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		return err
	}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeout.Milliseconds())
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// emit returns the SMT-LIB name of t, defining it if necessary.
func (s *Solver) emit(t *Term) string {
	switch t.op {
	case OConst:
		return bvlit(t.w, t.k)
	}
	name := fmt.Sprintf("t%d", t.id)
	if s.emitted[t.id] {
		return name
	}
	for _, v := range t.vars {
		if !s.declared[v.name] {
			s.declared[v.name] = true
			fmt.Fprintf(&s.buf, "(declare-const %s (_ BitVec 8))\n", v.name)
		}
	}
	var e string
	switch t.op {
	case OTab:
		if t == t.v.id {
			e = fmt.Sprintf("((_ zero_extend 56) %s)", t.v.name)
		} else {
			e = tabExpr(t.w, t.v.name, 8, t.tab)
		}
	case OLook:
		e = tabExpr(t.w, s.emit(t.args[0]), t.args[0].w, t.tab)
	default:
		as := make([]string, len(t.args))
		for i, a := range t.args {
			as[i] = s.emit(a)
		}
		switch t.op {
		case ONot:
			e = "(not " + as[0] + ")"
		case OAnd:
			e = "(and " + strings.Join(as, " ") + ")"
		case OOr:
			e = "(or " + strings.Join(as, " ") + ")"
		case OIte:
			e = "(ite " + strings.Join(as, " ") + ")"
		case OEq:
			e = "(= " + strings.Join(as, " ") + ")"
		case OUlt:
			e = "(bvult " + strings.Join(as, " ") + ")"
		case OSlt:
			e = "(bvslt " + strings.Join(as, " ") + ")"
		case OTrunc:
			e = as[0]
			if t.args[0].w > t.w {
				e = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, as[0])
			}
		case OZext:
			e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, as[0])
		case OSext:
			e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, as[0])
		default:
			e = "(" + opNames[t.op] + " " + strings.Join(as, " ") + ")"
		}
	}
	sort := "Bool"
	if t.w > 0 {
		sort = fmt.Sprintf("(_ BitVec %d)", t.w)
	}
	fmt.Fprintf(&s.buf, "(define-fun %s () %s %s)\n", name, sort, e)
	s.emitted[t.id] = true
	return name
}

type domVar struct {
	v *Var
	d Dom
}

// check decides the conjunction of cs with every listed variable in its domain.
func (s *Solver) check(doms []domVar, cs []*Term) (string, map[*Var]uint64) {
	h := sha256.New()
	for _, d := range doms {
		fmt.Fprintf(h, "%s:%x:%x:%x:%x;", d.v.name, d.d[0], d.d[1], d.d[2], d.d[3])
	}
	ids := make([]int, len(cs))
	for i, c := range cs {
		ids[i] = c.id
	}
	sort.Ints(ids)
	fmt.Fprint(h, ids)
	var key [32]byte
	h.Sum(key[:0])
	if c, ok := s.cache[key]; ok {
		s.Hits++
		return c.res, c.model
	}
	t0 := time.Now()
	res, model, err := s.query(doms, cs)
	if err != nil {
		// restart once
		s.stop()
		res, model, err = s.query(doms, cs)
		if err != nil {
			s.stop()
			res = "unknown"
		}
	}
	s.Time += time.Since(t0)
	s.Queries++
	switch res {
	case "sat":
		s.Sat++
	case "unsat":
		s.Unsat++
	default:
		s.Unknown++
	}
	s.cache[key] = cached{res, model}
	return res, model
}

func (s *Solver) query(doms []domVar, cs []*Term) (string, map[*Var]uint64, error) {
	if err := s.start(); err != nil {
		return "", nil, err
	}
	s.buf.Reset()
	names := make([]string, len(cs))
	for i, c := range cs {
		names[i] = s.emit(c)
	}
	for _, d := range doms {
		if !s.declared[d.v.name] {
			s.declared[d.v.name] = true
			fmt.Fprintf(&s.buf, "(declare-const %s (_ BitVec 8))\n", d.v.name)
		}
	}
	s.buf.WriteString("(push 1)\n")
	for _, d := range doms {
		var idx []int
		d.d.each(func(i int) bool { idx = append(idx, i); return true })
		fmt.Fprintf(&s.buf, "(assert %s)\n", rangesCond(8, d.v.name, idx))
	}
	for _, n := range names {
		fmt.Fprintf(&s.buf, "(assert %s)\n", n)
	}
	s.buf.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, s.buf.String()); err != nil {
		return "", nil, err
	}
	res, err := s.line()
	if err != nil {
		return "", nil, err
	}
	var model map[*Var]uint64
	if res == "sat" {
		model = map[*Var]uint64{}
		if len(doms) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, d := range doms {
				q.WriteString(d.v.name + " ")
			}
			q.WriteString("))\n")
			io.WriteString(s.in, q.String())
			txt, err := s.sexpr()
			if err != nil {
				return "", nil, err
			}
			f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
			byName := map[string]*Var{}
			for _, d := range doms {
				byName[d.v.name] = d.v
			}
			for i := 0; i+1 < len(f); i += 2 {
				var x uint64
				val := f[i+1]
				if strings.HasPrefix(val, "#x") {
					fmt.Sscanf(val[2:], "%x", &x)
				} else if strings.HasPrefix(val, "#b") {
					fmt.Sscanf(val[2:], "%b", &x)
				} else {
					return "", nil, fmt.Errorf("value %q", txt)
				}
				model[byName[f[i]]] = x
			}
		}
	} else if res != "unsat" && res != "unknown" {
		return "", nil, fmt.Errorf("solver said %q", res)
	}
	if _, err := io.WriteString(s.in, "(pop 1)\n"); err != nil {
		return "", nil, err
	}
	return res, model, nil
}

func (s *Solver) line() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) sexpr() (string, error) {
	var sb strings.Builder
	depth := 0
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		if strings.HasPrefix(l, "(error") {
			return "", fmt.Errorf("%s", l)
		}
		sb.WriteString(l)
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 && strings.TrimSpace(l) != "" {
			return sb.String(), nil
		}
	}
}

// standalone renders one query as a self-contained SMT-LIB script.
func standalone(doms []domVar, cs []*Term) string {
	s := &Solver{declared: map[string]bool{}, emitted: map[int]bool{}}
	names := make([]string, len(cs))
	s.buf.WriteString("(set-logic QF_BV)\n")
	for i, c := range cs {
		names[i] = s.emit(c)
	}
	for _, d := range doms {
		if !s.declared[d.v.name] {
			s.declared[d.v.name] = true
			fmt.Fprintf(&s.buf, "(declare-const %s (_ BitVec 8))\n", d.v.name)
		}
		var idx []int
		d.d.each(func(i int) bool { idx = append(idx, i); return true })
		fmt.Fprintf(&s.buf, "(assert %s)\n", rangesCond(8, d.v.name, idx))
	}
	for _, n := range names {
		fmt.Fprintf(&s.buf, "(assert %s)\n", n)
	}
	s.buf.WriteString("(check-sat)\n")
	return s.buf.String()
}
