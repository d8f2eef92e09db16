package main

// Merging of branches: a branch on an undecided condition whose arms compute
// values without effects becomes if-then-else terms instead of two paths, and
// a condition written as a chain of && and || becomes one condition.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

const (
	maxRegion    = 24
	maxSpecSteps = 400
)

type ifBlock struct {
	b          *ssa.BasicBlock
	start, end int   // code without the terminator
	cond       int32 // condition of the If at the end
	isIf       bool
	ret        []int32 // results, when it ends in a return
	isRet      bool
}

type ifPhi struct {
	dst  int32
	typ  types.Type
	from []*ssa.BasicBlock
	src  []int32
}

type ifInfo struct {
	ready  bool
	ok     bool
	blocks []ifBlock
	join   *ssa.BasicBlock
	pc     int // of the join
	phis   map[*ssa.BasicBlock][]ifPhi
	retT   []types.Type
	// chain: the second condition of a short-circuit expression
	chain bool
	next  ifBlock
	onT   bool // the next block is the true successor
	nextI *ifInfo
	nt    Code
	ne    Code
}

func pureInstr(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.Phi, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Lookup, *ssa.Extract, *ssa.Index, *ssa.IndexAddr,
		*ssa.FieldAddr, *ssa.Field, *ssa.Slice, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.TypeAssert, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.DebugRef:
		return true
	case *ssa.UnOp:
		return x.Op != token.ARROW
	case *ssa.Call:
		return true // watched while it runs
	}
	return false
}

func pureBlock(b *ssa.BasicBlock) bool {
	if len(b.Instrs) > 24 {
		return false
	}
	for _, in := range b.Instrs {
		if !pureInstr(in) {
			return false
		}
	}
	return true
}

func boolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (c *compiler) blockInfo(b *ssa.BasicBlock) ifBlock {
	r := ifBlock{b: b, start: c.starts[b], end: c.ends[b] - 1}
	switch x := b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.If:
		r.isIf, r.cond = true, c.op(x.Cond)
	case *ssa.Return:
		r.isRet = true
		for _, v := range x.Results {
			r.ret = append(r.ret, c.op(v))
		}
	}
	return r
}

// analyse finds the region between the branch at the end of b and the place
// where its arms meet.
func (c *compiler) analyse(b *ssa.BasicBlock, info *ifInfo) {
	info.ready = true
	in := map[*ssa.BasicBlock]bool{b: true}
	var order []*ssa.BasicBlock
	var front []*ssa.BasicBlock
	push := func(s *ssa.BasicBlock) bool {
		if in[s] {
			return false
		}
		for _, x := range front {
			if x == s {
				return true
			}
		}
		front = append(front, s)
		return true
	}
	fail := !push(b.Succs[0]) || !push(b.Succs[1])
	rets := 0
	for !fail {
		if len(front) == 0 {
			break
		}
		if len(front) == 1 && rets == 0 {
			info.join = front[0]
			break
		}
		found := -1
		for i, x := range front {
			all := true
			for _, p := range x.Preds {
				if !in[p] {
					all = false
				}
			}
			if all && pureBlock(x) {
				found = i
				break
			}
		}
		if found < 0 || len(order) >= maxRegion {
			fail = true
			break
		}
		x := front[found]
		front = append(front[:found:found], front[found+1:]...)
		in[x] = true
		order = append(order, x)
		if len(x.Succs) == 0 {
			if _, ok := x.Instrs[len(x.Instrs)-1].(*ssa.Return); !ok {
				fail = true
			}
			rets++
		}
		for _, s := range x.Succs {
			if !push(s) {
				fail = true
			}
		}
	}
	if fail || info.join == nil && rets == 0 {
		c.analyseChain(b, info)
		return
	}
	info.phis = map[*ssa.BasicBlock][]ifPhi{}
	addPhis := func(x *ssa.BasicBlock) {
		for _, i := range x.Instrs {
			p, ok := i.(*ssa.Phi)
			if !ok {
				break
			}
			r := ifPhi{dst: c.reg[p], typ: p.Type()}
			for k, e := range p.Edges {
				r.from = append(r.from, x.Preds[k])
				r.src = append(r.src, c.op(e))
			}
			info.phis[x] = append(info.phis[x], r)
		}
	}
	for _, x := range order {
		info.blocks = append(info.blocks, c.blockInfo(x))
		addPhis(x)
	}
	if info.join != nil {
		addPhis(info.join)
		info.pc = c.starts[info.join]
		for _, p := range info.phis[info.join] {
			if !boolType(p.typ) {
				c.analyseChain(b, info)
				return
			}
		}
	} else {
		res := c.fn.ssa.Signature.Results()
		if res.Len() != 1 || !boolType(res.At(0).Type()) {
			c.analyseChain(b, info)
			return
		}
	}
	info.ok = true
}

// analyseChain: the branch and the one in a successor share a target.
func (c *compiler) analyseChain(b *ssa.BasicBlock, info *ifInfo) {
	for i := 0; i < 2; i++ {
		s, o := b.Succs[i], b.Succs[1-i]
		if len(s.Preds) != 1 || !pureBlock(s) || len(s.Succs) != 2 || s == b {
			continue
		}
		j := -1
		for k := 0; k < 2; k++ {
			if s.Succs[k] == o {
				j = k
			}
		}
		// b: if c goto s else o;  s: if d goto x else o   (i == 0: and)
		// b: if c goto o else s;  s: if d goto o else x   (i == 1: or)
		if j < 0 || s.Succs[0] == s.Succs[1] || i == 0 && j != 1 || i == 1 && j != 0 {
			continue
		}
		// the common target must not tell the two edges apart
		same := true
		for _, in := range o.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			var a, d ssa.Value
			for k, q := range o.Preds {
				if q == b {
					a = p.Edges[k]
				}
				if q == s {
					d = p.Edges[k]
				}
			}
			if a != d {
				same = false
			}
		}
		if !same {
			continue
		}
		info.chain = true
		info.onT = i == 0
		info.next = c.blockInfo(s)
		info.nextI = c.ifs[s]
		info.nt, info.ne = c.edge(s, s.Succs[0]), c.edge(s, s.Succs[1])
		return
	}
}

type specAbort struct{}

// branch handles an If whose condition is a term.
func (m *Machine) branch(c *compiler, b *ssa.BasicBlock, info *ifInfo, f *Frame, t *Term, et, ee Code) {
	for {
		switch m.eval3(t) {
		case 1:
			et(m, f)
			return
		case 0:
			ee(m, f)
			return
		}
		if !info.ready {
			c.analyse(b, info)
		}
		if info.ok && m.convert(f, b, info, t) {
			return
		}
		if !info.chain {
			break
		}
		d, ok := m.specCond(f, &info.next)
		if !ok {
			break
		}
		if info.onT {
			t = m.tc.And(t, d)
		} else {
			t = m.tc.Or(t, d)
		}
		et, ee = info.nt, info.ne
		b, info = info.next.b, info.nextI
	}
	if m.decide(t) {
		et(m, f)
	} else {
		ee(m, f)
	}
}

// guard runs g and undoes everything when it has effects or gets stuck.
func (m *Machine) guarded(f *Frame, g func()) (ok bool) {
	mark, pc := len(m.trail), f.pc
	m.spec++
	defer func() {
		m.spec--
		if r := recover(); r != nil {
			if pe, isEnd := r.(pathEnd); isEnd && pe.kind == "limit" {
				panic(r)
			}
			m.undoTo(mark)
			m.top, f.pc = f, pc
			ok = false
		}
	}()
	g()
	if len(m.trail) != mark {
		panic(specAbort{})
	}
	f.pc = pc // a fork runs the branch again from where it stands
	return true
}

func (m *Machine) specRun(f *Frame, b *ifBlock) {
	left := maxSpecSteps
	for pc := b.start; pc < b.end; pc++ {
		f.pc = pc + 1
		f.fn.code[pc](m, f)
		for m.top != f {
			t := m.top
			if t == nil {
				panic(specAbort{})
			}
			ins := t.fn.code[t.pc]
			t.pc++
			ins(m, t)
			m.steps++
			if left--; left < 0 {
				panic(specAbort{})
			}
		}
		m.steps++
	}
}

func (m *Machine) specCond(f *Frame, b *ifBlock) (t *Term, ok bool) {
	ok = m.guarded(f, func() {
		m.specRun(f, b)
		t = m.boolTerm(f.get(b.cond))
	})
	return
}

type edgeGuard struct {
	from *ssa.BasicBlock
	g    *Term
}

func (m *Machine) convert(f *Frame, b *ssa.BasicBlock, info *ifInfo, cond *Term) bool {
	var result Value
	var joins []Value
	ok := m.guarded(f, func() {
		edges := map[*ssa.BasicBlock][]edgeGuard{}
		add := func(from, to *ssa.BasicBlock, g *Term) {
			edges[to] = append(edges[to], edgeGuard{from, g})
		}
		add(b, b.Succs[0], cond)
		add(b, b.Succs[1], m.tc.Not(cond))
		phi := func(x *ssa.BasicBlock) []Value {
			var out []Value
			for _, p := range info.phis[x] {
				var vs []Value
				var gs []*Term
				for _, e := range edges[x] {
					for k, from := range p.from {
						if from == e.from {
							vs = append(vs, f.get(p.src[k]))
							gs = append(gs, e.g)
							break
						}
					}
				}
				out = append(out, m.mergeVals(p.typ, gs, vs))
			}
			return out
		}
		var rg []*Term
		var rv []Value
		for i := range info.blocks {
			x := &info.blocks[i]
			var gs []*Term
			for _, e := range edges[x.b] {
				gs = append(gs, e.g)
			}
			g := m.tc.Or(gs...)
			for k, v := range phi(x.b) {
				f.regs[info.phis[x.b][k].dst] = v
			}
			m.specRun(f, x)
			switch {
			case x.isRet:
				rg = append(rg, g)
				rv = append(rv, f.get(x.ret[0]))
			case x.isIf:
				t := m.boolTerm(f.get(x.cond))
				add(x.b, x.b.Succs[0], m.tc.And(g, t))
				add(x.b, x.b.Succs[1], m.tc.And(g, m.tc.Not(t)))
			default:
				add(x.b, x.b.Succs[0], g)
			}
		}
		if info.join != nil {
			joins = phi(info.join)
		} else {
			result = m.mergeVals(nil, rg, rv)
		}
	})
	if !ok {
		return false
	}
	if info.join == nil {
		m.doReturn(result)
		return true
	}
	for k, v := range joins {
		f.regs[info.phis[info.join][k].dst] = v
	}
	f.pc = info.pc
	return true
}

// mergeVals: exactly one guard holds.
func (m *Machine) mergeVals(t types.Type, gs []*Term, vs []Value) Value {
	if len(vs) == 0 {
		panic(specAbort{})
	}
	same := true
	for _, v := range vs[1:] {
		if !identical(v, vs[0]) {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	acc := m.boolTerm(vs[len(vs)-1])
	for i := len(vs) - 2; i >= 0; i-- {
		acc = m.tc.Ite(gs[i], m.boolTerm(vs[i]), acc)
	}
	return termBool(acc)
}

func identical(a, b Value) bool {
	switch x := a.(type) {
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *Value:
		y, ok := b.(*Value)
		return ok && x == y
	}
	return false
}

// noSpec: an effect that is not logged must not happen while speculating.
func (m *Machine) noSpec() {
	if m.spec > 0 {
		panic(specAbort{})
	}
}
