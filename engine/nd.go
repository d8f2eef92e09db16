package main

// Intrinsics behind the harness package nd.

import (
	"fmt"
	"strings"
	"time"
)

func (m *Machine) strArg(v Value) string {
	s, ok := m.normStr(v).(string)
	if !ok {
		m.unsupported("symbolic label")
	}
	return s
}

func (m *Machine) addVar(size int, label string, show func(i int) string) *Var {
	m.noSpec()
	v := m.newVar(size, label)
	n := len(m.labels)
	m.labels = append(m.labels, show)
	if n != len(m.vars)-1 {
		m.labels = append(m.labels[:0:0], m.labels...)
		for len(m.labels) < len(m.vars)-1 {
			m.labels = append(m.labels, nil)
		}
		m.labels = append(m.labels[:len(m.vars)-1], show)
	}
	return v
}

func registerND() {
	reg := func(n string, f intrF) { intrinsics[ndPath+n] = f }
	reg("Symbolic", func(m *Machine, fr *Frame, a []Value) Value { return true })
	reg("Bool", func(m *Machine, fr *Frame, a []Value) Value {
		v := m.addVar(2, m.strArg(a[0]), func(i int) string { return fmt.Sprint(i == 1) })
		return termBool(m.tc.mkTab(0, v, []uint64{0, 1}))
	})
	reg("Int", func(m *Machine, fr *Frame, a []Value) Value {
		lo, hi := a[1].(int64), a[2].(int64)
		if hi == lo {
			return mkInt(lo)
		}
		v := m.addVar(int(hi-lo+1), m.strArg(a[0]), func(i int) string { return fmt.Sprint(lo + int64(i)) })
		tab := make([]uint64, v.size)
		for i := range tab {
			tab[i] = uint64(lo + int64(i))
		}
		return m.fromTerm(m.tc.mkTab(64, v, tab), intInfo{64, true})
	})
	reg("OneOf", func(m *Machine, fr *Frame, a []Value) Value {
		opts := goStrs(a[1])
		if len(opts) == 1 {
			return opts[0]
		}
		v := m.addVar(len(opts), m.strArg(a[0]), func(i int) string { return opts[i] })
		return m.normStr(mkStr([]SPart{{idx: v.id, tab: mkStrTab(opts)}}))
	})
	reg("Bytes", func(m *Machine, fr *Frame, a []Value) Value {
		label := m.strArg(a[0])
		n := int(m.concInt(a[1]))
		set := a[2].(string)
		var cs []Value
		for i := 0; i < n; i++ {
			v := m.addVar(len(set), fmt.Sprintf("%s[%d]", label, i), func(i int) string { return fmt.Sprintf("%q", set[i]) })
			tab := make([]uint64, len(set))
			for j := range tab {
				tab[j] = uint64(set[j])
			}
			t := m.tc.mkTab(8, v, tab)
			if t.op == OConst {
				cs = append(cs, mkInt(int64(t.k)))
			} else {
				cs = append(cs, m.byteVal(t))
			}
		}
		return m.cellsToStr(cs)
	})
	reg("Concrete", func(m *Machine, fr *Frame, a []Value) Value { return mkInt(m.concInt(a[0])) })
	reg("ConcreteBool", func(m *Machine, fr *Frame, a []Value) Value { return m.truth(a[0]) })
	reg("ConcreteStr", func(m *Machine, fr *Frame, a []Value) Value { return m.concStr(a[0]) })
	reg("ConcreteAll", func(m *Machine, fr *Frame, a []Value) Value {
		m.noSpec()

		for _, v := range m.vars {
			m.concK(v.id)
		}
		return nil
	})
	reg("Assume", func(m *Machine, fr *Frame, a []Value) Value {
		m.noSpec()

		t := m.boolTerm(a[0])
		switch m.eval3(t) {
		case 1:
			return nil
		case 0:
			m.stopPath("assumed-away", "")
		}
		if !m.feasible(t) {
			m.stopPath("assumed-away", "")
		}
		m.assume(t)
		return nil
	})
	reg("Assert", func(m *Machine, fr *Frame, a []Value) Value {
		m.assertTerm(m.boolTerm(a[0]), m.describe(m.normStr(a[1])))
		return nil
	})
	reg("Reach", func(m *Machine, fr *Frame, a []Value) Value {
		m.noSpec()

		m.res.Reached[m.strArg(a[0])]++
		return nil
	})
	reg("Stop", func(m *Machine, fr *Frame, a []Value) Value {
		m.noSpec()
		m.stopPath("stop", "")
		return nil
	})
	reg("Cut", func(m *Machine, fr *Frame, a []Value) Value {
		m.noSpec()

		s := m.strArg(a[0])
		m.res.Cuts[s]++
		m.stopPath("cut", s)
		return nil
	})
	reg("And", func(m *Machine, fr *Frame, a []Value) Value {
		var ts []*Term
		for _, e := range a[0].(Slice) {
			ts = append(ts, m.boolTerm(e))
		}
		return termBool(m.tc.And(ts...))
	})
	reg("Or", func(m *Machine, fr *Frame, a []Value) Value {
		var ts []*Term
		for _, e := range a[0].(Slice) {
			ts = append(ts, m.boolTerm(e))
		}
		return termBool(m.tc.Or(ts...))
	})
	reg("Not", func(m *Machine, fr *Frame, a []Value) Value { return termBool(m.tc.Not(m.boolTerm(a[0]))) })
	reg("Implies", func(m *Machine, fr *Frame, a []Value) Value {
		return termBool(m.tc.Or(m.tc.Not(m.boolTerm(a[0])), m.boolTerm(a[1])))
	})
	reg("Iff", func(m *Machine, fr *Frame, a []Value) Value {
		return termBool(m.tc.Eq(m.boolTerm(a[0]), m.boolTerm(a[1])))
	})
	reg("IteInt", func(m *Machine, fr *Frame, a []Value) Value {
		t := m.tc.Ite(m.boolTerm(a[0]), m.asTerm(a[1], 64), m.asTerm(a[2], 64))
		return m.fromTerm(t, intInfo{64, true})
	})
	reg("IteStr", func(m *Machine, fr *Frame, a []Value) Value {
		c := m.boolTerm(a[0])
		if r, ok := m.iteStr(c, a[1], a[2]); ok {
			return r
		}
		if m.decide(c) {
			return a[1]
		}
		return a[2]
	})
	reg("Try", func(m *Machine, fr *Frame, a []Value) Value { return tryCall{a[0].(*Closure)} })
	reg("Param", func(m *Machine, fr *Frame, a []Value) Value {
		k, ok := m.params[m.strArg(a[0])]
		if !ok {
			m.unsupported("no parameter %v", a[0])
		}
		return mkInt(k)
	})
	reg("Lone", func(m *Machine, fr *Frame, a []Value) Value {
		t := m.concStr(a[0])
		r, err := m.job.native.alone(t)
		if err != nil {
			m.unsupported("a process of its own: %v", err)
		}
		return r
	})
	reg("Stdout", func(m *Machine, fr *Frame, a []Value) Value { return m.side["stdout"] })
	reg("Stderr", func(m *Machine, fr *Frame, a []Value) Value { return m.side["stderr"] })
	reg("Observe", func(m *Machine, fr *Frame, a []Value) Value {
		n := len(m.obs)
		m.obs = append(m.obs, obsRec{m.strArg(a[0]), a[1]})
		m.logFn(func() { m.obs = m.obs[:n] })
		return nil
	})
	reg("Quote", func(m *Machine, fr *Frame, a []Value) Value {
		return concatStr(concatStr("\"", m.eachPart(a[0], jsonEscape)), "\"")
	})
	reg("Known", func(m *Machine, fr *Frame, a []Value) Value {
		return m.eval3(m.boolTerm(a[0])) == 1
	})
	reg("IsConcrete", func(m *Machine, fr *Frame, a []Value) Value {
		_, ok := m.normStr(a[0]).(string)
		return ok
	})
}

// recheck gives an assertion that value sets decided to the solver as well, as
// long as the solver takes less than its share of the time.
func (m *Machine) recheck(t *Term, msg string) {
	s := m.solver
	if m.job == nil || float64(m.rechecking) > m.job.share*float64(time.Since(m.began)) {
		return
	}
	dvs, cs := m.slice([]*Term{m.tc.Not(t)})
	for _, d := range dvs {
		if d.d.empty() {
			return
		}
	}
	t0 := time.Now()
	r, _ := s.check(dvs, cs)
	m.rechecking += time.Since(t0)
	switch r {
	case "unsat":
		m.res.Rechecked++
	case "unknown":
		m.res.Unknown++
	default:
		m.unsupported("the solver refutes an assertion decided by value sets: %s", msg)
	}
}

// assertTerm decides whether t holds for every value on the current path.
func (m *Machine) assertTerm(t *Term, msg string) {
	m.noSpec()
	m.res.Asserts++
	switch m.eval3(t) {
	case 1:
		if t.op == OConst {
			m.res.Const++
			return
		}
		m.res.Trivial++
		m.recheck(t, msg)
		return
	}
	nt := m.tc.Not(t)
	// an independent query over the whole path condition, with a full model
	q := append([]*Term{nt}, m.pc...)
	var dv []domVar
	for _, v := range m.vars {
		dv = append(dv, domVar{v, m.doms[v.seq]})
	}
	dvs, cs := m.slice([]*Term{nt})
	empty := false
	for _, d := range dvs {
		if d.d.empty() {
			empty = true
		}
	}
	r := "unsat"
	if !empty && !(nt.op == OConst && nt.k == 0) {
		r, _ = m.solver.check(dvs, cs)
		m.res.Queries++
	}
	switch r {
	case "unsat":
		m.assume(t)
		return
	case "unknown":
		m.res.Unknown++
		m.stopPath("solver-unknown", msg)
	}
	if nt.op == OConst {
		q = m.pc
	}
	r, model := m.solver.check(dv, q)
	if r != "sat" {
		m.stopPath("infeasible", "")
	}
	v := &Violation{Msg: msg}
	for i, vr := range m.vars {
		k := model[vr]
		v.Model = append(v.Model, k)
		d := fmt.Sprint(k)
		if i < len(m.labels) && m.labels[i] != nil {
			d = m.labels[i](int(k))
		}
		v.Kinds = append(v.Kinds, m.kinds[i])
		v.Desc = append(v.Desc, m.kinds[i]+"="+d)
	}
	for _, o := range m.obs {
		v.Obs = append(v.Obs, o.label+"="+m.evalStr(o.v, model))
	}
	v.Trace = strings.Split(m.where(), " < ")
	m.res.Violations = append(m.res.Violations, v)
	m.stopPath("violation", msg)
}

// evalTerm is the value of t under a model.
func evalTerm(t *Term, model map[*Var]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OTab:
		return t.tab[model[t.v]]
	}
	a := make([]uint64, len(t.args))
	for i, x := range t.args {
		a[i] = evalTerm(x, model)
	}
	return evalOp(t.op, t.w, t.tab, t.args, a)
}

// evalStr is the text of v under a model.
func (m *Machine) evalStr(v Value, model map[*Var]uint64) string {
	switch x := v.(type) {
	case string:
		return x
	case *Str:
		var sb strings.Builder
		for _, p := range x.parts {
			switch {
			case p.concrete():
				sb.WriteString(p.c)
			case p.idx != nil:
				if k := evalTerm(p.idx, model); int(k) < len(p.tab.strs) {
					sb.WriteString(p.tab.strs[k])
				} else {
					sb.WriteString("?")
				}
			default:
				sb.WriteByte(byte(evalTerm(p.b, model)))
			}
		}
		return sb.String()
	}
	return fmt.Sprintf("%v", v)
}
