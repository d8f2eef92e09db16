package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- control transfers thrown as Go panics inside the machine ----

type forkReq struct{ conds []*Term } // exhaustive alternatives; the instruction is re-executed
type goPanic struct{ v Value }       // a Go panic of the program under test
type pathEnd struct {
	kind string // "done", "stop", "infeasible", "unsupported", "limit", "exit", "violation"
	msg  string
}

// ---- frames ----

type deferNode struct {
	next *deferNode
	fn   *Closure
	args []Value
}

type Frame struct {
	fn        *Fn
	regs      []Value
	pc        int
	parent    *Frame
	retDst    int
	defers    *deferNode
	panicking bool
	unwinding bool
	pv        Value
	isDefer   bool
	isGo      bool
	barrier   bool // nd.Try: a panic or block ends here
	shared    bool
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = append([]Value(nil), f.regs...)
	n.shared = false
	return &n
}

func (f *Frame) get(o int32) Value {
	if o >= 0 {
		return f.regs[o]
	}
	return f.fn.consts[^o]
}

// ---- undo trail ----

type undo struct {
	p   *Value
	old Value
	fn  func()
}

type choicePoint struct {
	frame  *Frame
	trail  int
	alts   []*Term
	altIdx int // index of alts[0] in the full list
	decLen int
	pcLen  int
	varLen int
	atomLn int
}

// eqFact: a condition that says t has the value k
type eqFact struct {
	t *Term
	k uint64
}

type Machine struct {
	eqOf map[*Term][]eqFact
	eqk  map[*Term]uint64
	idle int // forks decided without progress

	spec int // > 0 while arms of a branch are evaluated

	w          *World
	tc         *TermCtx
	solver     *Solver
	began      time.Time
	rechecking time.Duration
	globals    map[*ssa.Global]*Value
	evalLeft   int
	evalDepth  int
	fns        map[*ssa.Function]*Fn
	clos       map[*ssa.Function]*Closure
	top        *Frame

	trail   []undo
	logging bool
	cps     []*choicePoint

	// path state
	vars      []*Var
	doms      []Dom
	kinds     []string
	pc        []*Term
	multi     map[*Var]int // number of multi-variable constraints a variable occurs in
	facts     map[*Term]bool
	atoms     []SPart
	atomIx    map[[2]int]int // (idx term id, table ptr hash) is resolved linearly
	stdout    Value
	stderr    Value
	decisions []int
	forced    []int
	steps     int64
	stepLimit int64
	once      map[*Value]bool
	side      map[string]Value // per-path engine-side state (file system, hooks)

	params map[string]int64

	// results
	res      *Result
	deadline time.Time
	job      *Explorer
	obsOn    bool
	obs      []obsRec
	concrete []uint64 // forced variable values (concrete execution)
	// statistics
	totalSteps int64
	encoded    map[*ssa.Function]bool
	lexCache   map[string]int64
	pools      map[*Value][]Value
	labels     []func(i int) string
	curTask    int
	curPos     token.Pos
	warm       bool
	ticks      int64
	mark       int // trail length at the start of the current instruction
	hooks      map[string]*Closure
	mergeC     map[string]bool
}

type Result struct {
	Paths       int
	Done        int
	Stopped     int
	Infeasible  int
	Unsupported map[string]int
	Limit       int
	Asserts     int // assertion sites reached (per path)
	Const       int // became the constant true
	Trivial     int // decided by the value sets of its variables
	Rechecked   int // of these also decided by the solver
	Queries     int // decided by the solver
	Unknown     int
	Reached     map[string]int
	Violations  []*Violation
	Samples     []string
	Forks       int
	Cuts        map[string]int
}

type obsRec struct {
	label string
	v     Value
}

type Violation struct {
	Obs   []string
	Msg   string
	Model []uint64
	Kinds []string
	Desc  []string
	Trace []string
}

func newResult() *Result {
	return &Result{Unsupported: map[string]int{}, Reached: map[string]int{}, Cuts: map[string]int{}}
}

func newMachine(w *World) *Machine {
	m := &Machine{w: w, tc: newTermCtx(), solver: newSolver(20 * time.Second), globals: map[*ssa.Global]*Value{}, fns: map[*ssa.Function]*Fn{}, clos: map[*ssa.Function]*Closure{},
		multi: map[*Var]int{}, facts: map[*Term]bool{}, once: map[*Value]bool{}, side: map[string]Value{}, params: map[string]int64{}, res: newResult(), encoded: map[*ssa.Function]bool{}, stdout: "", stderr: "", stepLimit: 400_000_000, lexCache: map[string]int64{}, pools: map[*Value][]Value{}}
	return m
}

func (m *Machine) unsupported(format string, a ...any) {
	panic(pathEnd{"unsupported", fmt.Sprintf(format, a...)})
}

func (m *Machine) store(p *Value, v Value) {
	if m.logging {
		m.trail = append(m.trail, undo{p: p, old: *p})
	}
	*p = v
}

func (m *Machine) logFn(f func()) {
	if m.logging {
		m.trail = append(m.trail, undo{fn: f})
	}
}

func (m *Machine) undoTo(n int) {
	for i := len(m.trail) - 1; i >= n; i-- {
		u := &m.trail[i]
		if u.fn != nil {
			u.fn()
		} else {
			*u.p = u.old
		}
		*u = undo{}
	}
	m.trail = m.trail[:n]
}

// storeVal assigns v to *p; aggregates are written field by field so that
// pointers into them stay valid.
func (m *Machine) storeVal(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(x) {
			if len(x) > 0 && &old[0] == &x[0] {
				return
			}
			for i := range x {
				m.storeVal(&old[i], x[i])
			}
			return
		}
		m.store(p, copyVal(v))
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(x) {
			if len(x) > 0 && &old[0] == &x[0] {
				return
			}
			for i := range x {
				m.storeVal(&old[i], x[i])
			}
			return
		}
		m.store(p, copyVal(v))
	default:
		m.store(p, v)
	}
}

func (m *Machine) throwRuntime(msg string) {
	panic(goPanic{m.runtimeError(msg)})
}

// throwPlain: a run-time error whose text has no prefix
func (m *Machine) throwPlain(msg string) { panic(goPanic{m.errorText(msg)}) }

func (m *Machine) runtimeError(msg string) Value { return m.errorText("runtime error: " + msg) }

func (m *Machine) errorText(msg string) Value {
	t := m.w.rtErrType
	if t == nil {
		return Iface{m.w.rtype(types.Typ[types.String]), msg}
	}
	var cell Value = Struct{Value(msg)}
	return Iface{t, &cell}
}

// ---- domains and constraints ----

func (m *Machine) newVar(size int, kind string) *Var {
	if size > maxDom || size <= 0 {
		m.unsupported("variable of domain size %d", size)
	}
	seq := len(m.vars)
	v := m.tc.Var(seq, size)
	m.vars = append(m.vars, v)
	m.kinds = append(m.kinds, kind)
	d := fullDom(size)
	if m.concrete != nil {
		d = Dom{}
		if seq < len(m.concrete) && m.concrete[seq] < uint64(size) {
			d.set(int(m.concrete[seq]))
		} else {
			d.set(0)
		}
	}
	m.doms = append(m.doms, d)
	m.logFn(func() {
		m.vars = m.vars[:seq]
		m.doms = m.doms[:seq]
		m.kinds = m.kinds[:seq]
	})
	return v
}

func (m *Machine) setDom(v *Var, d Dom) {
	old := m.doms[v.seq]
	m.doms[v.seq] = d
	m.logFn(func() { m.doms[v.seq] = old })
}

// eval3: 0 false, 1 true, -1 undecided (by domains and recorded facts)
func (m *Machine) eval3(t *Term) int {
	switch t.op {
	case OConst:
		return int(t.k)
	case OTab:
		d := &m.doms[t.v.seq]
		s0, s1 := false, false
		d.each(func(i int) bool {
			if t.tab[i] != 0 {
				s1 = true
			} else {
				s0 = true
			}
			return !(s0 && s1)
		})
		if s1 && !s0 {
			return 1
		}
		if s0 && !s1 {
			return 0
		}
		return -1
	}
	if b, ok := m.facts[t]; ok {
		if b {
			return 1
		}
		return 0
	}
	if !m.spend() {
		return -1
	}
	defer m.spent()
	switch t.op {
	case ONot:
		r := m.eval3(t.args[0])
		if r >= 0 {
			return 1 - r
		}
	case OAnd:
		all := true
		for _, a := range t.args {
			r := m.eval3(a)
			if r == 0 {
				return 0
			}
			if r < 0 {
				all = false
			}
		}
		if all {
			return 1
		}
	case OOr:
		all := true
		for _, a := range t.args {
			r := m.eval3(a)
			if r == 1 {
				return 1
			}
			if r < 0 {
				all = false
			}
		}
		if all {
			return 0
		}
	case OEq:
		a, b := m.valueSet(t.args[0]), m.valueSet(t.args[1])
		if a != nil && b != nil {
			if len(a) == 1 && len(b) == 1 {
				for k := range a {
					if _, ok := b[k]; ok {
						return 1
					}
				}
				return 0
			}
			if len(a) > len(b) {
				a, b = b, a
			}
			for k := range a {
				if _, ok := b[k]; ok {
					return -1
				}
			}
			return 0
		}
	case OUlt, OSlt:
		a, b := m.valueSet(t.args[0]), m.valueSet(t.args[1])
		if a != nil && b != nil && len(a)*len(b) <= 4096 {
			s0, s1 := false, false
			for x := range a {
				for y := range b {
					if evalOp(t.op, 0, nil, t.args, []uint64{x, y}) != 0 {
						s1 = true
					} else {
						s0 = true
					}
				}
			}
			if !s0 {
				return 1
			}
			if !s1 {
				return 0
			}
		}
	case OIte:
		c := m.eval3(t.args[0])
		if c == 1 {
			return m.eval3(t.args[1])
		}
		if c == 0 {
			return m.eval3(t.args[2])
		}
	case OLook:
		vs := m.valueSet(t)
		if len(vs) == 1 {
			for k := range vs {
				return int(k)
			}
		}
	}
	return -1
}

// spend bounds the work of one evaluation by domains: terms are graphs with
// sharing and are walked as trees.
func (m *Machine) spend() bool {
	if m.evalDepth == 0 {
		m.evalLeft = 20000
	}
	m.evalLeft--
	if m.evalLeft < 0 {
		return false
	}
	m.evalDepth++
	return true
}

func (m *Machine) spent() { m.evalDepth-- }

// valueSet over-approximates the values of t under the current domains; nil
// means unknown.
func (m *Machine) valueSet(t *Term) map[uint64]struct{} {
	if k, ok := m.eqk[t]; ok {
		return map[uint64]struct{}{k: {}}
	}
	switch t.op {
	case OConst:
		return map[uint64]struct{}{t.k: {}}
	case OTab:
		s := map[uint64]struct{}{}
		m.doms[t.v.seq].each(func(i int) bool { s[t.tab[i]] = struct{}{}; return true })
		return s
	}
	if !m.spend() {
		return nil
	}
	defer m.spent()
	switch t.op {
	case OIte:
		c := m.eval3(t.args[0])
		if c == 1 {
			return m.valueSet(t.args[1])
		}
		if c == 0 {
			return m.valueSet(t.args[2])
		}
		a, b := m.valueSet(t.args[1]), m.valueSet(t.args[2])
		if a == nil || b == nil {
			return nil
		}
		s := map[uint64]struct{}{}
		for k := range a {
			s[k] = struct{}{}
		}
		for k := range b {
			s[k] = struct{}{}
		}
		return s
	case OLook, OTrunc, OZext, OSext:
		a := m.valueSet(t.args[0])
		if a == nil {
			return nil
		}
		s := map[uint64]struct{}{}
		for k := range a {
			s[evalOp(t.op, t.w, t.tab, t.args, []uint64{k})] = struct{}{}
		}
		return s
	case OAdd, OSub, OMul, OBAnd, OBOr, OBXor, OShl, OLshr, OAshr:
		a, b := m.valueSet(t.args[0]), m.valueSet(t.args[1])
		if a == nil || b == nil || len(a)*len(b) > 4096 {
			return nil
		}
		s := map[uint64]struct{}{}
		for x := range a {
			for y := range b {
				s[evalOp(t.op, t.w, t.tab, t.args, []uint64{x, y})] = struct{}{}
			}
		}
		return s
	}
	if t.w == 0 {
		switch m.eval3(t) {
		case 0:
			return map[uint64]struct{}{0: {}}
		case 1:
			return map[uint64]struct{}{1: {}}
		}
		return map[uint64]struct{}{0: {}, 1: {}}
	}
	return nil
}

// knownK returns the value of t when it is determined on this path.
func (m *Machine) knownK(t *Term) (uint64, bool) {
	if t.op == OConst {
		return t.k, true
	}
	if t.op == OTab {
		d := &m.doms[t.v.seq]
		f := d.first()
		if f < 0 {
			return 0, false
		}
		k := t.tab[f]
		same := true
		d.each(func(i int) bool {
			if t.tab[i] != k {
				same = false
				return false
			}
			return true
		})
		return k, same
	}
	if t.w == 0 {
		r := m.eval3(t)
		return uint64(r), r >= 0
	}
	if k, ok := m.eqk[t]; ok {
		return k, true
	}
	vs := m.valueSet(t)
	if len(vs) == 1 {
		for k := range vs {
			return k, true
		}
	}
	return 0, false
}

func kToValue(t *Term, k uint64) Value {
	if t.w == 0 {
		return k != 0
	}
	if t.w == 32 {
		return mkInt(int64(int32(uint32(k))))
	}
	return mkInt(int64(k))
}

func (m *Machine) known(t *Term) (Value, bool) {
	k, ok := m.knownK(t)
	if !ok {
		return nil, false
	}
	return kToValue(t, k), true
}

// relevant constraints: the connected component of the given terms
func (m *Machine) slice(ts []*Term) ([]domVar, []*Term) {
	inV := map[*Var]bool{}
	var work []*Var
	add := func(t *Term) {
		for _, v := range t.vars {
			if !inV[v] {
				inV[v] = true
				work = append(work, v)
			}
		}
	}
	cs := []*Term{}
	inC := map[*Term]bool{}
	for _, t := range ts {
		if t.op == OConst && t.k == 1 {
			continue
		}
		if !inC[t] {
			inC[t] = true
			cs = append(cs, t)
		}
		add(t)
	}
	changed := true
	for changed {
		changed = false
		for _, c := range m.pc {
			if inC[c] {
				continue
			}
			for _, v := range c.vars {
				if inV[v] {
					inC[c] = true
					cs = append(cs, c)
					add(c)
					changed = true
					break
				}
			}
		}
	}
	var dv []domVar
	for v := range inV {
		dv = append(dv, domVar{v, m.doms[v.seq]})
	}
	sort.Slice(dv, func(i, j int) bool { return dv[i].v.seq < dv[j].v.seq })
	return dv, cs
}

// sat asks the solver about the path condition (component) and ts.
func (m *Machine) sat(ts ...*Term) (string, map[*Var]uint64) {
	dv, cs := m.slice(ts)
	for _, d := range dv {
		if d.d.empty() {
			return "unsat", nil
		}
	}
	return m.solver.check(dv, cs)
}

// feasible: can t hold on the current path?
func (m *Machine) feasible(t *Term) bool {
	switch m.eval3(t) {
	case 0:
		return false
	case 1:
		return true
	}
	if t.op == OTab && m.multi[t.v] == 0 {
		return true // domain check was exact
	}
	r, _ := m.sat(t)
	return r != "unsat"
}

// assume adds t to the path condition.
func (m *Machine) assume(t *Term) {
	m.assume1(t)
	// after t itself is on record: known values make it look redundant
	for _, f := range m.eqOf[t] {
		if _, ok := m.eqk[f.t]; ok {
			continue
		}
		if m.eqk == nil {
			m.eqk = map[*Term]uint64{}
		}
		x := f.t
		m.eqk[x] = f.k
		m.logFn(func() { delete(m.eqk, x) })
	}
}

func (m *Machine) assume1(t *Term) {
	switch t.op {
	case OConst:
		return
	case OTab:
		d := m.doms[t.v.seq]
		var n Dom
		d.each(func(i int) bool {
			if t.tab[i] != 0 {
				n.set(i)
			}
			return true
		})
		if n != d {
			m.setDom(t.v, n)
		}
		return
	case OAnd:
		for _, a := range t.args {
			m.assume(a)
		}
		return
	case ONot:
		if t.args[0].op == OOr {
			for _, a := range t.args[0].args {
				m.assume(m.tc.Not(a))
			}
			return
		}
	}
	if m.eval3(t) == 1 {
		return
	}
	n := len(m.pc)
	m.pc = append(m.pc, t)
	base, val := t, true
	if t.op == ONot {
		base, val = t.args[0], false
	}
	m.facts[base] = val
	for _, v := range t.vars {
		m.multi[v]++
	}
	m.logFn(func() {
		m.pc = m.pc[:n]
		delete(m.facts, base)
		for _, v := range t.vars {
			m.multi[v]--
		}
	})
}

// decide branches on t.
func (m *Machine) decide(t *Term) bool {
	switch m.eval3(t) {
	case 0:
		return false
	case 1:
		return true
	}
	panic(&forkReq{[]*Term{t, m.tc.Not(t)}})
}

func (m *Machine) truth(v Value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return m.decide(x)
	}
	panic(fmt.Sprintf("truth of %T", v))
}

func (m *Machine) boolTerm(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return m.tc.Bool(x)
	case *Term:
		return x
	}
	panic(fmt.Sprintf("boolTerm of %T", v))
}

// concInt forces an integer value to be concrete, forking over its values.
func (m *Machine) concInt(v Value) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case *Term:
		k := m.concK(x)
		return kToValue(x, k).(int64)
	}
	panic(fmt.Sprintf("concInt of %T", v))
}

func (m *Machine) concK(t *Term) uint64 {
	if k, ok := m.knownK(t); ok {
		return k
	}
	vs := m.valueSet(t)
	if vs != nil && len(vs) <= 300 {
		ks := make([]uint64, 0, len(vs))
		for k := range vs {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
		conds := make([]*Term, len(ks))
		for i, k := range ks {
			conds[i] = m.tc.Eq(t, m.tc.Const(t.w, k))
			if t.op != OTab && conds[i].op != OConst {
				if m.eqOf == nil {
					m.eqOf = map[*Term][]eqFact{}
				}
				seen := false
				for _, f := range m.eqOf[conds[i]] {
					seen = seen || f.t == t
				}
				if !seen {
					m.eqOf[conds[i]] = append(m.eqOf[conds[i]], eqFact{t, k})
				}
			}
		}
		panic(&forkReq{conds})
	}
	m.unsupported("cannot enumerate the values of a term")
	return 0
}

func termValue(t *Term) Value {
	if t.op == OConst {
		return kToValue(t, t.k)
	}
	return t
}

// ---- fork handling and search ----

func (m *Machine) markShared(f *Frame) {
	for ; f != nil && !f.shared; f = f.parent {
		f.shared = true
	}
}

func (m *Machine) writable(f *Frame) *Frame {
	if f != nil && f.shared {
		return f.clone()
	}
	return f
}

func (m *Machine) handleFork(r *forkReq) {
	var alts []*Term
	for i, c := range r.conds {
		// the last alternative of an exhaustive set is feasible if no other is
		if i == len(r.conds)-1 && len(alts) == 0 {
			alts = append(alts, c)
			break
		}
		if m.feasible(c) {
			alts = append(alts, c)
		}
	}
	if m.eval3(alts[len(alts)-1]) == 0 {
		panic(pathEnd{"infeasible", ""})
	}
	if len(alts) == 1 {
		if m.idle++; m.idle > 100000 {
			m.idle = 0
			panic(pathEnd{"unsupported", "no progress after a decided branch"})
		}
		m.assume(alts[0])
		return
	}
	m.idle = 0
	if !m.logging {
		panic(pathEnd{"unsupported", "fork during warm-up"})
	}
	d := len(m.decisions)
	if d < len(m.forced) {
		c := m.forced[d]
		m.decisions = append(m.decisions, c)
		if c >= len(alts) {
			panic(pathEnd{"unsupported", "replayed prefix diverged"})
		}
		m.assume(alts[c])
		return
	}
	m.res.Forks++
	if forkHist != nil {
		forkMu.Lock()
		forkHist[m.where()]++
		forkMu.Unlock()
	}
	m.maybeDonate()
	m.markShared(m.top)
	cp := &choicePoint{frame: m.top, trail: len(m.trail), alts: alts[1:], altIdx: 1, decLen: d}
	m.cps = append(m.cps, cp)
	m.top = m.top.clone()
	m.decisions = append(m.decisions, 0)
	m.assume(alts[0])
}

func (m *Machine) backtrack() bool {
	for len(m.cps) > 0 {
		cp := m.cps[len(m.cps)-1]
		if len(cp.alts) == 0 {
			m.cps = m.cps[:len(m.cps)-1]
			continue
		}
		m.undoTo(cp.trail)
		c := cp.alts[0]
		m.decisions = append(m.decisions[:cp.decLen], cp.altIdx)
		cp.alts = cp.alts[1:]
		cp.altIdx++
		if len(cp.alts) == 0 {
			m.cps = m.cps[:len(m.cps)-1]
		}
		m.top = cp.frame.clone()
		m.assume(c)
		return true
	}
	return false
}

// run executes from m.top until the path ends.
func (m *Machine) runPath() (end pathEnd) {
	for {
		e, again := m.runSome()
		if !again {
			return e
		}
	}
}

var debugTrace = os.Getenv("GOSYM_TRACE") != ""

func (m *Machine) runSome() (end pathEnd, again bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *forkReq:
				m.undoTo(m.mark) // partial effects of the instruction
				m.top.pc--
				end, again = m.afterThrow(func() { m.handleFork(x) })
			case goPanic:
				end, again = m.afterThrow(func() { m.startPanic(x.v) })
			case resume:
				again = true
			case pathEnd:
				if x.kind == "unsupported" && m.top != nil {
					x.msg += " in " + m.where()
				}
				end, again = x, false
			default:
				msg := fmt.Sprint(r)
				if debugTrace {
					debug.PrintStack()
				}
				end, again = pathEnd{"unsupported", "engine: " + msg + " in " + m.where()}, false
			}
		}
	}()
	for {
		f := m.top
		if f == nil {
			return pathEnd{"done", ""}, false
		}
		code := f.fn.code
		for i := 0; i < 256 && m.top == f; i++ {
			ins := code[f.pc]
			f.pc++
			m.mark = len(m.trail)
			ins(m, f)
			m.steps++
		}
		if m.steps > m.stepLimit {
			panic(pathEnd{"limit", "step limit"})
		}
		if m.ticks++; m.ticks&4095 == 0 && !m.deadline.IsZero() && time.Now().After(m.deadline) {
			panic(pathEnd{"limit", "time limit"})
		}
	}
}

func (m *Machine) afterThrow(f func()) (end pathEnd, again bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				end, again = x, false
			case goPanic:
				end, again = m.afterThrow(func() { m.startPanic(x.v) })
			case *forkReq:
				end, again = pathEnd{"unsupported", "fork inside unwinding"}, false
			default:
				end, again = pathEnd{"unsupported", "engine: " + fmt.Sprint(r)}, false
			}
		}
	}()
	f()
	return pathEnd{}, true
}

func (m *Machine) where() string {
	var sb strings.Builder
	n := 0
	for f := m.top; f != nil && n < 6; f = f.parent {
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(f.fn.name)
		if f.pc > 0 && f.pc-1 < len(f.fn.pos) {
			p := m.w.prog.Fset.Position(f.fn.pos[f.pc-1])
			if p.IsValid() {
				fmt.Fprintf(&sb, ":%d", p.Line)
			}
		}
		n++
	}
	return sb.String()
}

// ---- calls, panics ----

func (m *Machine) pushCall(c *Closure, args []Value, dst int) {
	fn := c.fn
	m.compileBody(fn)
	f := &Frame{fn: fn, regs: make([]Value, fn.nregs), parent: m.top, retDst: dst}
	copy(f.regs, args)
	copy(f.regs[fn.nparams:], c.env)
	m.top = f
}

// call invokes c; an intrinsic completes immediately.
func (m *Machine) call(fr *Frame, c *Closure, args []Value, dst int) {
	if c == nil {
		m.throwRuntime("invalid memory address or nil pointer dereference")
	}
	if c.intr != nil {
		r := c.intr.f(m, fr, args)
		if tc, ok := r.(tailCall); ok {
			m.call(fr, tc.fn, tc.args, dst)
			return
		}
		if tc, ok := r.(tryCall); ok {
			m.pushCall(tc.fn, nil, dst)
			m.top.barrier = true
			return
		}
		if dst >= 0 {
			fr.regs[dst] = r
		}
		return
	}
	m.pushCall(c, args, dst)
}

type tailCall struct {
	fn   *Closure
	args []Value
}

func (m *Machine) doReturn(v Value) {
	f := m.top
	p := m.writable(f.parent)
	m.top = p
	if p == nil {
		return
	}
	if f.isDefer {
		if p.unwinding {
			m.unwindStep(p)
		}
		return
	}
	if f.barrier {
		v = Iface{}
	}
	if f.retDst >= 0 {
		p.regs[f.retDst] = v
	}
}

func (m *Machine) startPanic(v Value) {
	f := m.writable(m.top)
	m.top = f
	if f == nil {
		panic(pathEnd{"panic", m.describe(v)})
	}
	f.panicking = true
	f.unwinding = true
	f.pv = v
	m.unwindStep(f)
}

func (m *Machine) unwindStep(f *Frame) {
	for {
		m.top = f
		if f.defers != nil {
			d := f.defers
			f.defers = d.next
			if d.fn.intr != nil {
				tc, ok := d.fn.intr.f(m, f, d.args).(tailCall)
				if !ok || tc.fn == nil {
					continue
				}
				d = &deferNode{nil, tc.fn, tc.args}
				if d.fn.intr != nil {
					d.fn.intr.f(m, f, d.args)
					continue
				}
			}
			m.pushCall(d.fn, d.args, -1)
			m.top.isDefer = true
			return
		}
		if !f.panicking {
			f.unwinding = false
			if f.fn.recoverPC >= 0 {
				f.pc = f.fn.recoverPC
				return
			}
			m.doReturn(f.fn.zeroRes())
			return
		}
		v := f.pv
		p := m.writable(f.parent)
		if f.barrier {
			m.top = p
			if f.retDst >= 0 {
				p.regs[f.retDst] = v // nd.Try result
			}
			return
		}
		if p == nil {
			m.top = nil
			panic(pathEnd{"panic", m.describe(v)})
		}
		if f.isGo {
			m.unsupported("panic in a goroutine: %s", m.describe(v))
		}
		p.panicking = true
		p.unwinding = true
		p.pv = v
		f = p
	}
}

// describe renders a value for messages.
func (m *Machine) describe(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "<nil>"
		}
		if p, ok := x.v.(*Value); ok && p != nil {
			if s, ok := (*p).(Struct); ok && len(s) > 0 {
				return x.t.name + ":" + m.describe(s[0])
			}
		}
		return x.t.name + ":" + m.describe(x.v)
	case string:
		return x
	case *Str:
		return m.showStr(x)
	}
	return fmt.Sprintf("%v", v)
}

func (m *Machine) showStr(s *Str) string {
	var sb strings.Builder
	for _, p := range s.parts {
		switch {
		case p.concrete():
			sb.WriteString(p.c)
		case p.idx != nil:
			fmt.Fprintf(&sb, "⟨%d choices⟩", len(p.tab.strs))
		default:
			sb.WriteString("⟨byte⟩")
		}
	}
	return sb.String()
}

var (
	forkHist map[string]int // where forks happen, for tuning
	forkMu   sync.Mutex
)
