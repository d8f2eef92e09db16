package main

// Terms: bit-vector / boolean expressions over finite-domain variables.
//
// Every variable ranges over 0..size-1 (size <= 256) and carries, per path, a
// domain bitset. A term that depends on one variable only is always kept as a
// table over that variable (OTab), so unary constraints are decided on the
// bitset; terms over several variables are kept as hash-consed operator nodes
// and decided by the SMT solver.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

const maxDom = 256

type Dom [4]uint64

func fullDom(n int) Dom {
	var d Dom
	for i := 0; i < n; i++ {
		d[i>>6] |= 1 << (uint(i) & 63)
	}
	return d
}
func (d *Dom) has(i int) bool { return d[i>>6]&(1<<(uint(i)&63)) != 0 }
func (d *Dom) set(i int)      { d[i>>6] |= 1 << (uint(i) & 63) }
func (d Dom) count() int {
	return bits.OnesCount64(d[0]) + bits.OnesCount64(d[1]) + bits.OnesCount64(d[2]) + bits.OnesCount64(d[3])
}
func (d Dom) and(e Dom) Dom { return Dom{d[0] & e[0], d[1] & e[1], d[2] & e[2], d[3] & e[3]} }
func (d Dom) empty() bool   { return d[0]|d[1]|d[2]|d[3] == 0 }
func (d Dom) first() int {
	for w := 0; w < 4; w++ {
		if d[w] != 0 {
			return w*64 + bits.TrailingZeros64(d[w])
		}
	}
	return -1
}
func (d Dom) each(f func(i int) bool) {
	for w := 0; w < 4; w++ {
		x := d[w]
		for x != 0 {
			i := w*64 + bits.TrailingZeros64(x)
			x &= x - 1
			if !f(i) {
				return
			}
		}
	}
}

type Var struct {
	seq   int // position on the path: the order of creation
	size  int
	name  string
	id    *Term // identity table, width 64
	label func(i int) string
}

type Op uint8

const (
	OConst Op = iota
	OTab      // unary: tab[v]
	OLook     // tab[args[0]]
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OSlt
	OAdd
	OSub
	OMul
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OTrunc // to width w (also masks)
	OSext  // from args[0].w to w
	OZext
)

var opNames = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr"}

type Term struct {
	op   Op
	w    int // 0 = bool, else bit width
	k    uint64
	v    *Var
	tab  []uint64
	args []*Term
	vars []*Var // variables the term depends on, sorted by seq then size
	id   int
}

// TermCtx hash-conses terms; one per machine.
type TermCtx struct {
	tabs  map[string]*Term
	nodes map[string]*Term
	vars  map[[2]int]*Var
	next  int
	True  *Term
	False *Term
}

func newTermCtx() *TermCtx {
	c := &TermCtx{tabs: map[string]*Term{}, nodes: map[string]*Term{}, vars: map[[2]int]*Var{}, next: 1}
	c.True = c.Const(0, 1)
	c.False = c.Const(0, 0)
	return c
}

func mask(w int, k uint64) uint64 {
	if w == 0 {
		return k & 1
	}
	if w >= 64 {
		return k
	}
	return k & (1<<uint(w) - 1)
}

func sext(w int, k uint64) int64 {
	if w == 0 || w >= 64 {
		return int64(k)
	}
	s := uint(64 - w)
	return int64(k<<s) >> s
}

func (c *TermCtx) Const(w int, k uint64) *Term {
	k = mask(w, k)
	key := fmt.Sprintf("c%d:%d", w, k)
	if t, ok := c.nodes[key]; ok {
		return t
	}
	t := &Term{op: OConst, w: w, k: k, id: c.next}
	c.next++
	c.nodes[key] = t
	return t
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

func (c *TermCtx) Var(seq, size int) *Var {
	if v, ok := c.vars[[2]int{seq, size}]; ok {
		return v
	}
	v := &Var{seq: seq, size: size, name: fmt.Sprintf("v%d_%d", seq, size)}
	c.vars[[2]int{seq, size}] = v
	tab := make([]uint64, size)
	for i := range tab {
		tab[i] = uint64(i)
	}
	v.id = c.mkTab(64, v, tab)
	return v
}

func (c *TermCtx) mkTab(w int, v *Var, tab []uint64) *Term {
	same := true
	for _, x := range tab {
		if x != tab[0] {
			same = false
			break
		}
	}
	if same {
		return c.Const(w, tab[0])
	}
	b := make([]byte, 0, 8+len(tab)*2)
	b = append(b, byte(w), byte(v.seq), byte(v.seq>>8), byte(v.size), byte(v.size>>8))
	for _, x := range tab {
		for x >= 0x80 {
			b = append(b, byte(x)|0x80)
			x >>= 7
		}
		b = append(b, byte(x))
	}
	key := string(b)
	if t, ok := c.tabs[key]; ok {
		return t
	}
	t := &Term{op: OTab, w: w, v: v, tab: tab, vars: []*Var{v}, id: c.next}
	c.next++
	c.tabs[key] = t
	return t
}

func evalOp(op Op, w int, tab []uint64, args []*Term, a []uint64) uint64 {
	switch op {
	case OLook:
		i := a[0]
		if i >= uint64(len(tab)) {
			return 0
		}
		return tab[i]
	case ONot:
		return a[0] ^ 1
	case OAnd:
		for _, x := range a {
			if x == 0 {
				return 0
			}
		}
		return 1
	case OOr:
		for _, x := range a {
			if x != 0 {
				return 1
			}
		}
		return 0
	case OIte:
		if a[0] != 0 {
			return a[1]
		}
		return a[2]
	case OEq:
		if a[0] == a[1] {
			return 1
		}
		return 0
	case OUlt:
		if a[0] < a[1] {
			return 1
		}
		return 0
	case OSlt:
		if sext(args[0].w, a[0]) < sext(args[0].w, a[1]) {
			return 1
		}
		return 0
	case OAdd:
		return mask(w, a[0]+a[1])
	case OSub:
		return mask(w, a[0]-a[1])
	case OMul:
		return mask(w, a[0]*a[1])
	case OBAnd:
		return a[0] & a[1]
	case OBOr:
		return a[0] | a[1]
	case OBXor:
		return a[0] ^ a[1]
	case OShl:
		if a[1] >= uint64(w) {
			return 0
		}
		return mask(w, a[0]<<a[1])
	case OLshr:
		if a[1] >= uint64(w) {
			return 0
		}
		return a[0] >> a[1]
	case OAshr:
		s := a[1]
		if s >= uint64(w) {
			s = uint64(w) - 1
		}
		return mask(w, uint64(sext(w, a[0])>>s))
	case OTrunc, OZext:
		return mask(w, a[0])
	case OSext:
		return mask(w, uint64(sext(args[0].w, a[0])))
	}
	panic("evalOp")
}

func mergeVars(args []*Term) []*Var {
	var out []*Var
	for _, a := range args {
		for _, v := range a.vars {
			found := false
			for _, o := range out {
				if o == v {
					found = true
					break
				}
			}
			if !found {
				out = append(out, v)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].seq != out[j].seq {
			return out[i].seq < out[j].seq
		}
		return out[i].size < out[j].size
	})
	return out
}

// mk builds a term, folding constants and single-variable terms to tables.
func (c *TermCtx) mk(op Op, w int, tab []uint64, args ...*Term) *Term {
	vars := mergeVars(args)
	if len(vars) == 0 {
		a := make([]uint64, len(args))
		for i, x := range args {
			a[i] = x.k
		}
		return c.Const(w, evalOp(op, w, tab, args, a))
	}
	if len(vars) == 1 {
		v := vars[0]
		ok := true
		for _, x := range args {
			if x.op != OConst && x.op != OTab {
				ok = false
			}
		}
		if ok {
			nt := make([]uint64, v.size)
			a := make([]uint64, len(args))
			for i := 0; i < v.size; i++ {
				for j, x := range args {
					if x.op == OConst {
						a[j] = x.k
					} else {
						a[j] = x.tab[i]
					}
				}
				nt[i] = evalOp(op, w, tab, args, a)
			}
			return c.mkTab(w, v, nt)
		}
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d,%d", op, w)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	if op == OLook {
		fmt.Fprintf(&sb, ";%v", tab)
	}
	key := sb.String()
	if t, ok := c.nodes[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, tab: tab, args: args, vars: vars, id: c.next}
	c.next++
	c.nodes[key] = t
	return t
}

func (c *TermCtx) Not(a *Term) *Term {
	if a.op == OConst {
		return c.Const(0, a.k^1)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return c.mk(ONot, 0, nil, a)
}

func (c *TermCtx) andor(op Op, unit, zero *Term, in []*Term) *Term {
	// flatten, merge tables per variable
	var flat []*Term
	var add func(t *Term) bool
	seen := map[*Term]bool{}
	byVar := map[*Var]int{}
	add = func(t *Term) bool {
		if t == unit || seen[t] {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		if t.op == OTab {
			if j, ok := byVar[t.v]; ok {
				m := c.mk(op, 0, nil, flat[j], t)
				if m == zero {
					return false
				}
				flat[j] = m
				return true
			}
			byVar[t.v] = len(flat)
		}
		flat = append(flat, t)
		return true
	}
	for _, t := range in {
		if !add(t) {
			return zero
		}
	}
	out := flat[:0]
	for _, t := range flat {
		if t != unit {
			out = append(out, t)
		}
	}
	set := map[*Term]bool{}
	for _, t := range out {
		if t == zero {
			return zero
		}
		set[t] = true
	}
	for _, t := range out {
		if set[c.Not(t)] {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	cp := append([]*Term(nil), out...)
	sort.Slice(cp, func(i, j int) bool { return cp[i].id < cp[j].id })
	return c.mk(op, 0, nil, cp...)
}

func (c *TermCtx) And(in ...*Term) *Term { return c.andor(OAnd, c.True, c.False, in) }
func (c *TermCtx) Or(in ...*Term) *Term  { return c.andor(OOr, c.False, c.True, in) }

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond.op == OConst {
		if cond.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a == c.True && b == c.False {
			return cond
		}
		if a == c.False && b == c.True {
			return c.Not(cond)
		}
		return c.Or(c.And(cond, a), c.And(c.Not(cond), b))
	}
	return c.mk(OIte, a.w, nil, cond, a, b)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w == 0 {
		return c.Or(c.And(a, b), c.And(c.Not(a), c.Not(b)))
	}
	if a.id > b.id {
		a, b = b, a
	}
	// push equality with a constant into ite
	if a.op == OConst && b.op == OIte {
		return c.Ite(b.args[0], c.Eq(b.args[1], a), c.Eq(b.args[2], a))
	}
	if b.op == OConst && a.op == OIte {
		return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
	}
	if a.op == OTab && b.op == OTab {
		// disjoint ranges
		set := map[uint64]bool{}
		for _, x := range a.tab {
			set[x] = true
		}
		dis := true
		for _, x := range b.tab {
			if set[x] {
				dis = false
				break
			}
		}
		if dis {
			return c.False
		}
	}
	return c.mk(OEq, 0, nil, a, b)
}

// Look is tab[t], w bits wide.
func (c *TermCtx) Look(w int, tab []uint64, t *Term) *Term {
	if t.op == OIte {
		return c.Ite(t.args[0], c.Look(w, tab, t.args[1]), c.Look(w, tab, t.args[2]))
	}
	return c.mk(OLook, w, tab, t)
}

// ---- SMT-LIB text ----

func bvlit(w int, k uint64) string {
	if w == 0 {
		if k != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

func rangesCond(w int, v string, idx []int) string {
	if len(idx) == 0 {
		return "false"
	}
	var parts []string
	for i := 0; i < len(idx); {
		j := i
		for j+1 < len(idx) && idx[j+1] == idx[j]+1 {
			j++
		}
		lo, hi := idx[i], idx[j]
		switch {
		case lo == hi:
			parts = append(parts, fmt.Sprintf("(= %s %s)", v, bvlit(w, uint64(lo))))
		case lo == 0 && w == 8 && hi == 255:
			parts = append(parts, "true")
		case lo == 0:
			parts = append(parts, fmt.Sprintf("(bvule %s %s)", v, bvlit(w, uint64(hi))))
		default:
			parts = append(parts, fmt.Sprintf("(and (bvuge %s %s) (bvule %s %s))", v, bvlit(w, uint64(lo)), v, bvlit(w, uint64(hi))))
		}
		i = j + 1
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}

// tabExpr renders tab applied to the vw-bit expression v (indices outside the
// table are don't-care: domains are asserted separately).
func tabExpr(w int, v string, vw int, tab []uint64) string {
	groups := map[uint64][]int{}
	var order []uint64
	for i := 0; i < len(tab); i++ {
		if _, ok := groups[tab[i]]; !ok {
			order = append(order, tab[i])
		}
		groups[tab[i]] = append(groups[tab[i]], i)
	}
	if w == 0 {
		return rangesCond(vw, v, groups[1])
	}
	def := order[0]
	for _, x := range order {
		if len(groups[x]) > len(groups[def]) {
			def = x
		}
	}
	out := bvlit(w, def)
	for _, x := range order {
		if x == def {
			continue
		}
		out = fmt.Sprintf("(ite %s %s %s)", rangesCond(vw, v, groups[x]), bvlit(w, x), out)
	}
	return out
}
