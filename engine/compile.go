package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Code func(m *Machine, f *Frame)

// Fn is a compiled function.
type Fn struct {
	ssa       *ssa.Function
	name      string
	nparams   int
	nregs     int
	consts    []Value
	code      []Code
	pos       []token.Pos
	recoverPC int
	compiled  bool
	resT      *types.Tuple
}

func (fn *Fn) zeroRes() Value {
	switch fn.resT.Len() {
	case 0:
		return nil
	case 1:
		return zeroValue(fn.resT.At(0).Type())
	}
	return zeroValue(fn.resT)
}

type intInfo struct {
	w      int
	signed bool
}

func basicInt(t types.Type) (intInfo, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intInfo{64, true}, true
	case types.Int32, types.UntypedRune:
		return intInfo{32, true}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Int8:
		return intInfo{8, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{64, false}, true
	case types.Uint32:
		return intInfo{32, false}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Uint8:
		return intInfo{8, false}, true
	}
	return intInfo{}, false
}

func (ii intInfo) wrap(x int64) int64 {
	switch {
	case ii.w == 64:
		return x
	case ii.signed:
		s := uint(64 - ii.w)
		return x << s >> s
	default:
		return int64(uint64(x) & (1<<uint(ii.w) - 1))
	}
}

func (m *Machine) fnFor(f *ssa.Function) *Fn {
	if fn, ok := m.fns[f]; ok {
		return fn
	}
	fn := &Fn{ssa: f, name: f.String(), recoverPC: -1, resT: f.Signature.Results()}
	fn.nparams = len(f.Params)
	m.fns[f] = fn
	return fn
}

// closureFor resolves a function operand, applying models and replacements.
func (m *Machine) closureFor(f *ssa.Function, from *ssa.Function) *Closure {
	if r := m.w.replacement(f); r != nil && r != from {
		f = r
	}
	if c, ok := m.clos[f]; ok {
		return c
	}
	var c *Closure
	if in := m.w.intrinsic(f); in != nil {
		c = &Closure{intr: in}
	} else {
		c = &Closure{fn: m.fnFor(f)}
		if wr := wrapped[f.String()]; wr != nil {
			c = &Closure{intr: &Intrinsic{f.String(), wr(c)}}
		}
	}
	m.clos[f] = c
	return c
}

// wrapped functions run as they are, except for some arguments.
var wrapped = map[string]func(orig *Closure) intrF{
	// The DFA of the parser is a cache: with a symbolic token it is neither
	// consulted nor extended, the prediction then works on the ATN.
	"(*github.com/antlr4-go/antlr/v4.ParserATNSimulator).getExistingTargetState": func(orig *Closure) intrF {
		return func(m *Machine, fr *Frame, a []Value) Value {
			if _, ok := a[2].(*Term); ok {
				return (*Value)(nil)
			}
			return tailCall{orig, a}
		}
	},
	"(*github.com/antlr4-go/antlr/v4.LexerATNSimulator).getExistingTargetState": func(orig *Closure) intrF {
		return func(m *Machine, fr *Frame, a []Value) Value {
			if _, ok := a[2].(*Term); ok {
				return (*Value)(nil)
			}
			return tailCall{orig, a}
		}
	},
	"(*github.com/antlr4-go/antlr/v4.LexerATNSimulator).addDFAEdge": func(orig *Closure) intrF {
		return func(m *Machine, fr *Frame, a []Value) Value {
			if _, ok := a[2].(*Term); ok {
				b := append([]Value(nil), a...)
				b[2] = mkInt(-2) // no edge
				return tailCall{orig, b}
			}
			return tailCall{orig, a}
		}
	},
	"(*github.com/antlr4-go/antlr/v4.ParserATNSimulator).addDFAEdge": func(orig *Closure) intrF {
		return func(m *Machine, fr *Frame, a []Value) Value {
			if _, ok := a[3].(*Term); ok {
				b := append([]Value(nil), a...)
				b[3] = mkInt(-2) // no edge
				return tailCall{orig, b}
			}
			return tailCall{orig, a}
		}
	},
}

type compiler struct {
	m      *Machine
	fn     *Fn
	reg    map[ssa.Value]int32
	cix    map[any]int32
	starts map[*ssa.BasicBlock]int
	ends   map[*ssa.BasicBlock]int
	ifs    map[*ssa.BasicBlock]*ifInfo
	fixups []func()
}

func (m *Machine) compileBody(fn *Fn) {
	if fn.compiled {
		return
	}
	f := fn.ssa
	if f.Blocks == nil {
		m.unsupported("call of %s, which has no Go body", fn.name)
	}
	fn.compiled = true
	m.encoded[f] = true
	c := &compiler{m: m, fn: fn, reg: map[ssa.Value]int32{}, cix: map[any]int32{}, starts: map[*ssa.BasicBlock]int{}, ends: map[*ssa.BasicBlock]int{}, ifs: map[*ssa.BasicBlock]*ifInfo{}}
	n := int32(0)
	for _, p := range f.Params {
		c.reg[p] = n
		n++
	}
	for _, p := range f.FreeVars {
		c.reg[p] = n
		n++
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.reg[v] = n
				n++
			}
		}
	}
	fn.nregs = int(n) + 1 // one scratch
	for _, b := range f.Blocks {
		c.starts[b] = len(fn.code)
		for _, in := range b.Instrs {
			c.instr(b, in)
		}
		c.ends[b] = len(fn.code)
	}
	if f.Recover != nil {
		fn.recoverPC = c.starts[f.Recover]
	}
}

func (c *compiler) emit(pos token.Pos, code Code) {
	c.fn.code = append(c.fn.code, code)
	c.fn.pos = append(c.fn.pos, pos)
}

func (c *compiler) konst(v Value) int32 {
	c.fn.consts = append(c.fn.consts, v)
	return ^int32(len(c.fn.consts) - 1)
}

func (c *compiler) op(v ssa.Value) int32 {
	if r, ok := c.reg[v]; ok {
		return r
	}
	if r, ok := c.cix[v]; ok {
		return r
	}
	var val Value
	switch x := v.(type) {
	case *ssa.Const:
		val = constValue(x)
	case *ssa.Global:
		val = c.m.global(x)
	case *ssa.Function:
		val = c.m.closureFor(x, c.fn.ssa)
	case *ssa.Builtin:
		val = &Closure{intr: &Intrinsic{name: x.Name()}}
	default:
		panic(fmt.Sprintf("operand %T", v))
	}
	r := c.konst(val)
	c.cix[v] = r
	return r
}

func (m *Machine) global(g *ssa.Global) *Value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = zeroValue(g.Type().(*types.Pointer).Elem())
	m.globals[g] = p
	if g.Pkg != nil && !m.w.initOK(g.Pkg.Pkg.Path()) {
		m.lateInit(g, p)
	}
	return p
}

// lateInit gives a variable of a package whose initialiser is not executed its
// value where that can be read off the initialiser: constants, other variables,
// errors, composite literals. Any other initialised variable may not be used.
func (m *Machine) lateInit(g *ssa.Global, p *Value) {
	in := g.Pkg.Func("init")
	if in == nil || strings.HasPrefix(g.Name(), "init$") {
		return
	}
	ev := &initEval{m: m, in: in, cells: map[ssa.Value]*Value{g: p}}
	if !ev.fill(g, p) && !ignoredInit(g) {
		*p = Poison{g.String()}
	}
}

// Poison is the value of a variable that could not be initialised.
type Poison struct{ name string }

func ignoredInit(g *ssa.Global) bool {
	switch g.Pkg.Pkg.Path() {
	case "os", "syscall", "internal/poll", "internal/godebug", "runtime", "time", "log", "syscall/js":
		return true
	}
	return false
}

type initEval struct {
	m     *Machine
	in    *ssa.Function
	cells map[ssa.Value]*Value
}

// addr is the cell of an address within the variables and allocations known.
func (ev *initEval) addr(v ssa.Value) *Value {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if p := ev.addr(x.X); p != nil {
			if st, ok := (*p).(Struct); ok {
				return &st[x.Field]
			}
		}
	case *ssa.IndexAddr:
		p := ev.addr(x.X)
		k, ok := x.Index.(*ssa.Const)
		if p != nil && ok {
			if ar, ok := (*p).(Array); ok && k.Int64() < int64(len(ar)) {
				return &ar[k.Int64()]
			}
		}
	default:
		return ev.cells[v]
	}
	return nil
}

func rootOf(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return v
		}
	}
}

// fill performs every store of the initialiser into the variable.
func (ev *initEval) fill(root ssa.Value, p *Value) bool {
	for _, b := range ev.in.Blocks {
		for _, i := range b.Instrs {
			st, ok := i.(*ssa.Store)
			if !ok || rootOf(st.Addr) != root {
				continue
			}
			c := ev.addr(st.Addr)
			v, ok := ev.eval(st.Val)
			if c == nil || !ok {
				return false
			}
			*c = copyVal(v)
		}
	}
	return true
}

func (ev *initEval) eval(v ssa.Value) (Value, bool) {
	m := ev.m
	switch x := v.(type) {
	case *ssa.Const:
		return constValue(x), true
	case *ssa.Function:
		return m.closureFor(x, ev.in), true
	case *ssa.Global:
		return m.global(x), true
	case *ssa.Alloc:
		if p, ok := ev.cells[x]; ok {
			return p, true
		}
		p := new(Value)
		*p = zeroValue(x.Type().Underlying().(*types.Pointer).Elem())
		ev.cells[x] = p
		return p, ev.fill(x, p)
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil, false
		}
		if o, ok := x.X.(*ssa.Global); ok {
			o := *m.global(o)
			_, bad := o.(Poison)
			return copyVal(o), !bad
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			p, ok := ev.eval(al)
			if !ok {
				return nil, false
			}
			return copyVal(*p.(*Value)), true
		}
	case *ssa.Slice:
		if x.Low != nil || x.High != nil || x.Max != nil {
			return nil, false
		}
		p, ok := ev.eval(x.X)
		if c, isP := p.(*Value); ok && isP {
			if ar, ok := (*c).(Array); ok {
				return Slice(ar), true
			}
		}
	case *ssa.ChangeType:
		return ev.eval(x.X)
	case *ssa.MakeInterface:
		o, ok := ev.eval(x.X)
		if !ok {
			return nil, false
		}
		return Iface{m.w.rtype(x.X.Type()), copyVal(o)}, true
	case *ssa.MakeMap:
		mp := newMap(x.Type().Underlying().(*types.Map).Key())
		for _, b := range ev.in.Blocks {
			for _, i := range b.Instrs {
				u, ok := i.(*ssa.MapUpdate)
				if !ok || u.Map != x {
					continue
				}
				k, ok1 := ev.eval(u.Key)
				w, ok2 := ev.eval(u.Value)
				if !ok1 || !ok2 {
					return nil, false
				}
				was := m.logging
				m.logging = false
				m.mapUpdate(mp, k, w)
				m.logging = was
			}
		}
		return mp, true
	case *ssa.Call:
		f, ok := x.Call.Value.(*ssa.Function)
		if !ok || f.String() != "errors.New" {
			return nil, false
		}
		if c, ok := x.Call.Args[0].(*ssa.Const); ok {
			cell := new(Value)
			*cell = Struct{constValue(c)}
			return Iface{m.w.rtype(types.NewPointer(f.Pkg.Type("errorString").Type())), cell}, true
		}
	}
	return nil, false
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zeroValue(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		// type parameter constants and such
		panic(fmt.Sprintf("const of type %v", c.Type()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return mkInt(i)
		}
		u, _ := constant.Uint64Val(v)
		return mkInt(int64(u))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	}
	panic(fmt.Sprintf("const %v", c))
}

// edge returns code performing the phi moves of from->to and the jump.
func (c *compiler) edge(from, to *ssa.BasicBlock) Code {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
			break
		}
	}
	var dst []int32
	var src []int32
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		dst = append(dst, c.reg[phi])
		src = append(src, c.op(phi.Edges[pi]))
	}
	starts := c.starts
	nph := len(dst)
	target := -1
	switch nph {
	case 0:
		return func(m *Machine, f *Frame) {
			if target < 0 {
				target = starts[to]
			}
			f.pc = target
		}
	case 1:
		d, s := dst[0], src[0]
		return func(m *Machine, f *Frame) {
			if target < 0 {
				target = starts[to]
			}
			f.regs[d] = f.get(s)
			f.pc = target
		}
	}
	return func(m *Machine, f *Frame) {
		if target < 0 {
			target = starts[to]
		}
		var tmp [8]Value
		t := tmp[:0]
		for _, s := range src {
			t = append(t, f.get(s))
		}
		for i, d := range dst {
			f.regs[d] = t[i]
		}
		f.pc = target
	}
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

const nilDeref = "invalid memory address or nil pointer dereference"

func (c *compiler) instr(b *ssa.BasicBlock, in ssa.Instruction) {
	var dst int32 = -1
	if v, ok := in.(ssa.Value); ok {
		dst = c.reg[v]
	}
	pos := in.Pos()
	switch x := in.(type) {
	case *ssa.DebugRef:
		return
	case *ssa.Phi:
		return // moved by the edges
	case *ssa.Alloc:
		t := deref(x.Type())
		switch t.Underlying().(type) {
		case *types.Struct, *types.Array:
			c.emit(pos, func(m *Machine, f *Frame) {
				p := new(Value)
				*p = zeroValue(t)
				f.regs[dst] = p
			})
		default:
			z := zeroValue(t)
			c.emit(pos, func(m *Machine, f *Frame) {
				p := new(Value)
				*p = z
				f.regs[dst] = p
			})
		}
	case *ssa.BinOp:
		c.binop(x, dst)
	case *ssa.UnOp:
		c.unop(x, dst)
	case *ssa.ChangeInterface:
		a := c.op(x.X)
		c.emit(pos, func(m *Machine, f *Frame) { f.regs[dst] = f.get(a) })
	case *ssa.ChangeType:
		a := c.op(x.X)
		c.emit(pos, func(m *Machine, f *Frame) { f.regs[dst] = f.get(a) })
	case *ssa.Convert:
		c.convert(x, dst)
	case *ssa.MultiConvert:
		c.emit(pos, func(m *Machine, f *Frame) { m.unsupported("MultiConvert") })
	case *ssa.MakeInterface:
		a := c.op(x.X)
		rt := c.m.w.rtype(x.X.Type())
		agg := false
		switch x.X.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			agg = true
		}
		c.emit(pos, func(m *Machine, f *Frame) {
			v := f.get(a)
			if agg {
				v = copyVal(v)
			}
			f.regs[dst] = Iface{rt, v}
		})
	case *ssa.MakeClosure:
		bs := make([]int32, len(x.Bindings))
		for i, v := range x.Bindings {
			bs[i] = c.op(v)
		}
		target := c.m.closureFor(x.Fn.(*ssa.Function), c.fn.ssa)
		c.emit(pos, func(m *Machine, f *Frame) {
			env := make([]Value, len(bs))
			for i, o := range bs {
				env[i] = f.get(o)
			}
			if target.fn == nil {
				f.regs[dst] = &Closure{intr: &Intrinsic{name: target.intr.name, f: func(m *Machine, fr *Frame, args []Value) Value {
					return target.intr.f(m, fr, append(append([]Value(nil), env...), args...))
				}}}
				return
			}
			f.regs[dst] = &Closure{fn: target.fn, env: env}
		})
	case *ssa.MakeMap:
		kt := x.Type().Underlying().(*types.Map).Key()
		c.emit(pos, func(m *Machine, f *Frame) { f.regs[dst] = newMap(kt) })
	case *ssa.MakeChan:
		n := c.op(x.Size)
		et := x.Type().Underlying().(*types.Chan).Elem()
		c.emit(pos, func(m *Machine, f *Frame) { f.regs[dst] = &Chan{cap: int(m.concInt(f.get(n))), elem: et} })
	case *ssa.MakeSlice:
		et := x.Type().Underlying().(*types.Slice).Elem()
		l, cp := c.op(x.Len), c.op(x.Cap)
		c.emit(pos, func(m *Machine, f *Frame) {
			n := m.concInt(f.get(l))
			k := m.concInt(f.get(cp))
			if n < 0 || k < n || k > 1<<28 {
				m.throwRuntime("makeslice: len out of range")
			}
			s := make(Slice, k)
			z := zeroValue(et)
			switch z.(type) {
			case Struct, Array:
				for i := range s {
					s[i] = zeroValue(et)
				}
			default:
				for i := range s {
					s[i] = z
				}
			}
			f.regs[dst] = s[:n]
		})
	case *ssa.Slice:
		c.slice(x, dst)
	case *ssa.SliceToArrayPointer:
		c.emit(pos, func(m *Machine, f *Frame) { m.unsupported("SliceToArrayPointer") })
	case *ssa.Field:
		a := c.op(x.X)
		n := x.Field
		c.emit(pos, func(m *Machine, f *Frame) { f.regs[dst] = copyVal(f.get(a).(Struct)[n]) })
	case *ssa.FieldAddr:
		a := c.op(x.X)
		n := x.Field
		c.emit(pos, func(m *Machine, f *Frame) {
			p := f.get(a).(*Value)
			if p == nil {
				m.throwRuntime(nilDeref)
			}
			f.regs[dst] = &(*p).(Struct)[n]
		})
	case *ssa.IndexAddr:
		c.indexAddr(x, dst)
	case *ssa.Index:
		a, i := c.op(x.X), c.op(x.Index)
		if isString(x.X.Type()) {
			c.emit(pos, func(m *Machine, f *Frame) { f.regs[dst] = m.strIndex(f.get(a), f.get(i)) })
		} else {
			c.emit(pos, func(m *Machine, f *Frame) {
				arr := f.get(a).(Array)
				f.regs[dst] = copyVal(m.loadIndex([]Value(arr), f.get(i)))
			})
		}
	case *ssa.Lookup:
		a, i := c.op(x.X), c.op(x.Index)
		if isString(x.X.Type()) {
			c.emit(pos, func(m *Machine, f *Frame) { f.regs[dst] = m.strIndex(f.get(a), f.get(i)) })
			return
		}
		vt := x.X.Type().Underlying().(*types.Map).Elem()
		commaOk := x.CommaOk
		onlyOk := false
		if commaOk && x.Referrers() != nil {
			onlyOk = true
			for _, r := range *x.Referrers() {
				if e, ok := r.(*ssa.Extract); ok && (e.Index == 1 || len(*e.Referrers()) == 0) {
					continue
				}
				onlyOk = false
			}
		}
		c.emit(pos, func(m *Machine, f *Frame) {
			mp := f.get(a).(*Map)
			f.regs[dst] = m.mapLookup(mp, f.get(i), vt, commaOk, onlyOk)
		})
	case *ssa.MapUpdate:
		a, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		c.emit(pos, func(m *Machine, f *Frame) {
			mp := f.get(a).(*Map)
			if mp == nil {
				m.throwPlain("assignment to entry in nil map")
			}
			m.mapUpdate(mp, f.get(k), f.get(v))
		})
	case *ssa.Range:
		a := c.op(x.X)
		inRepo := c.m.w.inRepo(c.fn.ssa)
		c.emit(pos, func(m *Machine, f *Frame) { f.regs[dst] = m.rangeIter(f, f.get(a), inRepo) })
	case *ssa.Next:
		a := c.op(x.Iter)
		str := x.IsString
		c.emit(pos, func(m *Machine, f *Frame) { f.regs[dst] = m.iterNext(f.get(a).(*Iter), str) })
	case *ssa.Extract:
		a := c.op(x.Tuple)
		n := x.Index
		c.emit(pos, func(m *Machine, f *Frame) { f.regs[dst] = f.get(a).(Tuple)[n] })
	case *ssa.TypeAssert:
		c.typeAssert(x, dst)
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		c.emit(pos, func(m *Machine, f *Frame) {
			p := f.get(a).(*Value)
			if p == nil {
				m.throwRuntime(nilDeref)
			}
			m.storeVal(p, f.get(v))
		})
	case *ssa.If:
		cond := c.op(x.Cond)
		t, e := c.edge(b, b.Succs[0]), c.edge(b, b.Succs[1])
		info := &ifInfo{}
		c.ifs[b] = info
		c.emit(pos, func(m *Machine, f *Frame) {
			var r bool
			switch v := f.get(cond).(type) {
			case bool:
				r = v
			case *Term:
				m.branch(c, b, info, f, v, t, e)
				return
			}
			if r {
				t(m, f)
			} else {
				e(m, f)
			}
		})
	case *ssa.Jump:
		c.emit(pos, c.edge(b, b.Succs[0]))
	case *ssa.Return:
		rs := make([]int32, len(x.Results))
		for i, v := range x.Results {
			rs[i] = c.op(v)
		}
		switch len(rs) {
		case 0:
			c.emit(pos, func(m *Machine, f *Frame) { m.doReturn(nil) })
		case 1:
			o := rs[0]
			c.emit(pos, func(m *Machine, f *Frame) { m.doReturn(copyVal(f.get(o))) })
		default:
			c.emit(pos, func(m *Machine, f *Frame) {
				t := make(Tuple, len(rs))
				for i, o := range rs {
					t[i] = copyVal(f.get(o))
				}
				m.doReturn(t)
			})
		}
	case *ssa.RunDefers:
		c.emit(pos, func(m *Machine, f *Frame) {
			for f.defers != nil {
				d := f.defers
				f.defers = d.next
				if d.fn.intr != nil {
					d.fn.intr.f(m, f, d.args)
					continue
				}
				f.pc-- // come back here
				m.pushCall(d.fn, d.args, -1)
				m.top.isDefer = true
				return
			}
		})
	case *ssa.Panic:
		a := c.op(x.X)
		c.emit(pos, func(m *Machine, f *Frame) { panic(goPanic{f.get(a)}) })
	case *ssa.Call:
		c.call(x, &x.Call, dst, 0)
	case *ssa.Defer:
		c.call(x, &x.Call, -1, 1)
	case *ssa.Go:
		// the new goroutine runs at once, to its end
		c.call(x, &x.Call, -1, 2)
	case *ssa.Select:
		c.selectStmt(x, dst)
	case *ssa.Send:
		a, v := c.op(x.Chan), c.op(x.X)
		c.emit(pos, func(m *Machine, f *Frame) { m.send(f.get(a), f.get(v)) })
	default:
		c.emit(pos, func(m *Machine, f *Frame) { m.unsupported("instruction %T", in) })
	}
}

func (c *compiler) call(in ssa.Instruction, call *ssa.CallCommon, dst int32, mode int) {
	pos := in.Pos()
	args := make([]int32, len(call.Args))
	for i, a := range call.Args {
		args[i] = c.op(a)
	}
	d := int(dst)
	if call.IsInvoke() {
		recv := c.op(call.Value)
		meth := call.Method
		id := methID(meth)
		var cacheT *RType
		var cacheC *Closure
		c.emit(pos, func(m *Machine, f *Frame) {
			iv, ok := f.get(recv).(Iface)
			if !ok || iv.t == nil {
				m.throwRuntime(nilDeref)
			}
			var cl *Closure
			if cacheT == iv.t {
				cl = cacheC
			} else {
				cl = m.findMethod(iv.t, meth, id, f.fn.ssa)
				cacheT, cacheC = iv.t, cl
			}
			vs := make([]Value, len(args)+1)
			vs[0] = iv.v
			for i, o := range args {
				vs[i+1] = copyVal(f.get(o))
			}
			switch mode {
			case 1:
				f.defers = &deferNode{f.defers, cl, vs}
			case 2:
				m.goCall(f, cl, vs)
			default:
				m.call(f, cl, vs, d)
			}
		})
		return
	}
	if bi, ok := call.Value.(*ssa.Builtin); ok {
		c.builtin(in, bi, call, args, dst, mode)
		return
	}
	target := c.op(call.Value)
	c.emit(pos, func(m *Machine, f *Frame) {
		cl := f.get(target).(*Closure)
		vs := make([]Value, len(args))
		for i, o := range args {
			vs[i] = copyVal(f.get(o))
		}
		if mode == 1 {
			if cl == nil {
				m.throwRuntime(nilDeref)
			}
			f.defers = &deferNode{f.defers, cl, vs}
			return
		}
		if mode == 2 {
			m.goCall(f, cl, vs)
			return
		}
		m.call(f, cl, vs, d)
	})
}

func (c *compiler) builtin(in ssa.Instruction, bi *ssa.Builtin, call *ssa.CallCommon, args []int32, dst int32, mode int) {
	pos := in.Pos()
	name := bi.Name()
	ts := make([]types.Type, len(call.Args))
	for i, a := range call.Args {
		ts[i] = a.Type()
	}
	var resT types.Type
	if v, ok := in.(ssa.Value); ok {
		resT = v.Type()
	}
	f := builtinFn(c.m, name, ts, resT)
	if mode == 1 {
		cl := &Closure{intr: &Intrinsic{name: name, f: f}}
		c.emit(pos, func(m *Machine, fr *Frame) {
			vs := make([]Value, len(args))
			for i, o := range args {
				vs[i] = fr.get(o)
			}
			fr.defers = &deferNode{fr.defers, cl, vs}
		})
		return
	}
	c.emit(pos, func(m *Machine, fr *Frame) {
		var tmp [4]Value
		vs := tmp[:0]
		for _, o := range args {
			vs = append(vs, fr.get(o))
		}
		fr.regs[dst] = f(m, fr, vs)
	})
}

func (c *compiler) unop(x *ssa.UnOp, dst int32) {
	a := c.op(x.X)
	pos := x.Pos()
	switch x.Op {
	case token.MUL:
		// load; fused with a preceding IndexAddr when that is its only use
		if ia, ok := x.X.(*ssa.IndexAddr); ok && fusable(ia) {
			base, ix := c.op(ia.X), c.op(ia.Index)
			_, isPtr := ia.X.Type().Underlying().(*types.Pointer)
			c.emit(ia.Pos(), func(m *Machine, f *Frame) {
				var s []Value
				switch b := m.thawed(f.get(base)).(type) {
				case Slice:
					s = b
				case *Value:
					if b == nil {
						m.throwRuntime(nilDeref)
					}
					s = []Value((*b).(Array))
				case *BytesRope:
					f.regs[dst] = m.strIndex(b.s, f.get(ix))
					return
				default:
					m.unsupported("index of %T", b)
				}
				_ = isPtr
				if i, ok := f.get(ix).(int64); ok {
					if uint64(i) >= uint64(len(s)) {
						m.throwRuntime(outOfRange(i, len(s)))
					}
					f.regs[dst] = copyVal(s[i])
					return
				}
				f.regs[dst] = copyVal(m.loadIndex(s, f.get(ix)))
			})
			return
		}
		c.emit(pos, func(m *Machine, f *Frame) {
			p, ok := f.get(a).(*Value)
			if !ok {
				m.unsupported("load through %T", f.get(a))
			}
			if p == nil {
				m.throwRuntime(nilDeref)
			}
			f.regs[dst] = copyVal(*p)
		})
	case token.NOT:
		c.emit(pos, func(m *Machine, f *Frame) {
			switch v := f.get(a).(type) {
			case bool:
				f.regs[dst] = !v
			case *Term:
				f.regs[dst] = termBool(m.tc.Not(v))
			}
		})
	case token.SUB:
		if ii, ok := basicInt(x.Type()); ok {
			c.emit(pos, func(m *Machine, f *Frame) {
				switch v := f.get(a).(type) {
				case int64:
					f.regs[dst] = mkInt(ii.wrap(-v))
				case *Term:
					f.regs[dst] = m.fromTerm(m.tc.mk(OSub, ii.w, nil, m.tc.Const(ii.w, 0), v), ii)
				}
			})
			return
		}
		c.emit(pos, func(m *Machine, f *Frame) {
			switch v := f.get(a).(type) {
			case float64:
				f.regs[dst] = -v
			default:
				m.unsupported("negation of %T", v)
			}
		})
	case token.XOR:
		ii, _ := basicInt(x.Type())
		c.emit(pos, func(m *Machine, f *Frame) {
			switch v := f.get(a).(type) {
			case int64:
				f.regs[dst] = mkInt(ii.wrap(^v))
			case *Term:
				f.regs[dst] = m.fromTerm(m.tc.mk(OBXor, ii.w, nil, v, m.tc.Const(ii.w, ^uint64(0))), ii)
			}
		})
	case token.ARROW:
		commaOk := x.CommaOk
		c.emit(pos, func(m *Machine, f *Frame) {
			v, ok, ready := m.receive(f.get(a))
			switch {
			case !ready:
				m.block()
			case commaOk:
				f.regs[dst] = Tuple{v, ok}
			default:
				f.regs[dst] = v
			}
		})
	default:
		c.emit(pos, func(m *Machine, f *Frame) { m.unsupported("unop %v", x.Op) })
	}
}

func termBool(t *Term) Value {
	if t.op == OConst {
		return t.k != 0
	}
	return t
}

func fusable(ia *ssa.IndexAddr) bool {
	refs := ia.Referrers()
	if refs == nil || len(*refs) != 1 {
		return false
	}
	u, ok := (*refs)[0].(*ssa.UnOp)
	if !ok || u.Op != token.MUL || u.Block() != ia.Block() {
		return false
	}
	// nothing that could write memory in between
	seen := false
	for _, in := range ia.Block().Instrs {
		if in == ssa.Instruction(ia) {
			seen = true
			continue
		}
		if in == ssa.Instruction(u) {
			return seen
		}
		if seen {
			switch in.(type) {
			case *ssa.Store, *ssa.Call, *ssa.MapUpdate, *ssa.Defer, *ssa.RunDefers, *ssa.Send, *ssa.Go:
				return false
			}
		}
	}
	return false
}

func (c *compiler) indexAddr(x *ssa.IndexAddr, dst int32) {
	if fusable(x) {
		return // done by the load
	}
	a, ix := c.op(x.X), c.op(x.Index)
	c.emit(x.Pos(), func(m *Machine, f *Frame) {
		var s []Value
		bv := f.get(a)
		if br, ok := bv.(*BytesRope); ok {
			bv = m.materialise(br)
		}
		switch b := bv.(type) {
		case Slice:
			s = b
		case *Value:
			if b == nil {
				m.throwRuntime(nilDeref)
			}
			s = []Value((*b).(Array))
		default:
			m.unsupported("index of %T", b)
		}
		iv := f.get(ix)
		var i int64
		if k, ok := iv.(int64); ok {
			i = k
		} else {
			t := iv.(*Term)
			inr := m.tc.And(m.below(t, len(s)))
			if !m.decide(inr) {
				m.throwRuntime("index out of range")
			}
			i = m.concInt(iv)
		}
		if uint64(i) >= uint64(len(s)) {
			m.throwRuntime(outOfRange(i, len(s)))
		}
		f.regs[dst] = &s[i]
	})
}

// loadIndex reads s[i] for a possibly symbolic i.
func (m *Machine) loadIndex(s []Value, iv Value) Value {
	if i, ok := iv.(int64); ok {
		if uint64(i) >= uint64(len(s)) {
			m.throwRuntime(outOfRange(i, len(s)))
		}
		return s[i]
	}
	t := iv.(*Term)
	if !m.decide(m.below(t, len(s))) {
		m.throwRuntime("index out of range")
	}
	vs := m.valueSet(t)
	if vs == nil {
		return s[m.concInt(iv)]
	}
	// all integers (or booleans)?
	allInt, allBool, allStr := true, true, true
	for k := range vs {
		if k >= uint64(len(s)) {
			continue
		}
		switch s[k].(type) {
		case int64:
			allBool, allStr = false, false
		case bool:
			allInt, allStr = false, false
		case string:
			allInt, allBool = false, false
		default:
			allInt, allBool, allStr = false, false, false
		}
	}
	if allInt && len(vs) > 0 {
		tab := make([]uint64, len(s))
		for i, e := range s {
			if k, ok := e.(int64); ok {
				tab[i] = uint64(k)
			}
		}
		// width is fixed up by the caller through 64-bit values
		return m.fromTerm(m.tc.Look(64, tab, t), intInfo{64, true})
	}
	if allBool && len(vs) > 0 {
		tab := make([]uint64, len(s))
		for i, e := range s {
			if e == true {
				tab[i] = 1
			}
		}
		return termBool(m.tc.Look(0, tab, t))
	}
	if allStr && len(vs) > 0 {
		tab := make([]string, len(s))
		for i, e := range s {
			if k, ok := e.(string); ok {
				tab[i] = k
			}
		}
		return mkStr([]SPart{{idx: t, tab: mkStrTab(tab)}})
	}
	// group indices by identical content and fork over the groups
	type grp struct {
		v  Value
		ks []uint64
	}
	var groups []*grp
	keys := make([]uint64, 0, len(vs))
	for k := range vs {
		keys = append(keys, k)
	}
	sortU64(keys)
	for _, k := range keys {
		if k >= uint64(len(s)) {
			continue
		}
		found := false
		for _, g := range groups {
			if sameRef(g.v, s[k]) {
				g.ks = append(g.ks, k)
				found = true
				break
			}
		}
		if !found {
			groups = append(groups, &grp{s[k], []uint64{k}})
		}
	}
	if len(groups) == 1 {
		return groups[0].v
	}
	conds := make([]*Term, len(groups))
	for i, g := range groups {
		or := make([]*Term, len(g.ks))
		for j, k := range g.ks {
			or[j] = m.tc.Eq(t, m.tc.Const(t.w, k))
		}
		conds[i] = m.tc.Or(or...)
	}
	panic(&forkReq{conds})
}

func sameRef(a, b Value) bool {
	switch x := a.(type) {
	case *Value:
		y, ok := b.(*Value)
		return ok && x == y
	case int64, string, bool, float64:
		return a == b
	case *Closure:
		y, ok := b.(*Closure)
		return ok && x == y
	case *Map:
		y, ok := b.(*Map)
		return ok && x == y
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case Iface:
		y, ok := b.(Iface)
		return ok && x.t == y.t && (x.t == nil || sameRef(x.v, y.v))
	}
	return false
}

func (m *Machine) fromTerm(t *Term, ii intInfo) Value {
	if t.op == OConst {
		if ii.signed {
			return mkInt(sext(t.w, t.k))
		}
		return mkInt(int64(t.k))
	}
	return t
}

// asTerm converts an integer value of width w.
func (m *Machine) asTerm(v Value, w int) *Term {
	switch x := v.(type) {
	case int64:
		return m.tc.Const(w, uint64(x))
	case bool:
		return m.tc.Bool(x)
	case *Term:
		if x.w == w || w == 0 {
			return x
		}
		if x.w > w {
			return m.tc.mk(OTrunc, w, nil, x)
		}
		return m.tc.mk(OZext, w, nil, x)
	}
	panic(fmt.Sprintf("asTerm of %T", v))
}

func (c *compiler) slice(x *ssa.Slice, dst int32) {
	a := c.op(x.X)
	var lo, hi, mx int32
	zero := c.konst(nil)
	lo, hi, mx = zero, zero, zero
	if x.Low != nil {
		lo = c.op(x.Low)
	}
	if x.High != nil {
		hi = c.op(x.High)
	}
	if x.Max != nil {
		mx = c.op(x.Max)
	}
	str := isString(x.X.Type())
	c.emit(x.Pos(), func(m *Machine, f *Frame) {
		base := f.get(a)
		if str {
			f.regs[dst] = m.strSlice(base, f.get(lo), f.get(hi))
			return
		}
		base = m.thawed(base)
		if br, ok := base.(*BytesRope); ok {
			f.regs[dst] = &BytesRope{s: m.strSlice(br.s, f.get(lo), f.get(hi)), from: br, lo: f.get(lo), hi: f.get(hi)}
			return
		}
		var s []Value
		isNil := false
		switch b := base.(type) {
		case Slice:
			s = b
			isNil = b == nil
		case *Value:
			if b == nil {
				m.throwRuntime(nilDeref)
			}
			s = []Value((*b).(Array))
		default:
			m.unsupported("slice of %T", b)
		}
		l, h, k := int64(0), int64(len(s)), int64(cap(s))
		if v := f.get(lo); v != nil {
			l = m.concInt(v)
		}
		if v := f.get(hi); v != nil {
			h = m.concInt(v)
		}
		if v := f.get(mx); v != nil {
			k = m.concInt(v)
		}
		if l < 0 || h < l || k < h || k > int64(cap(s)) {
			m.throwRuntime(badSlice(l, h, cap(s), "capacity"))
		}
		if isNil {
			f.regs[dst] = Slice(nil)
			return
		}
		f.regs[dst] = Slice(s[l:h:k])
	})
}

func (c *compiler) typeAssert(x *ssa.TypeAssert, dst int32) {
	a := c.op(x.X)
	at := x.AssertedType
	commaOk := x.CommaOk
	it, isIface := at.Underlying().(*types.Interface)
	var rt *RType
	if !isIface {
		rt = c.m.w.rtype(at)
	}
	short := func(p *types.Package) string { return p.Name() }
	from := types.TypeString(x.X.Type(), short)
	if it, ok := x.X.Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
		from = "interface {}"
	} else if _, ok := types.Unalias(x.X.Type()).(*types.Named); !ok {
		from = "interface"
	}
	to := types.TypeString(at, short)
	c.emit(x.Pos(), func(m *Machine, f *Frame) {
		iv, _ := f.get(a).(Iface)
		ok := false
		var v Value
		if isIface {
			ok = iv.t != nil && m.w.implements(iv.t, it)
			v = iv
		} else {
			ok = iv.t == rt
			if ok {
				v = copyVal(iv.v)
			}
		}
		if commaOk {
			if !ok {
				v = zeroValue(at)
			}
			f.regs[dst] = Tuple{v, ok}
			return
		}
		if !ok {
			n := "nil"
			if iv.t != nil {
				n = iv.t.name
			}
			m.throwPlain(fmt.Sprintf("interface conversion: %s is %s, not %s", from, n, to))
		}
		f.regs[dst] = v
	})
}

func (c *compiler) convert(x *ssa.Convert, dst int32) {
	a := c.op(x.X)
	ft, tt := x.X.Type(), x.Type()
	pos := x.Pos()
	fi, fInt := basicInt(ft)
	ti, tInt := basicInt(tt)
	switch {
	case fInt && tInt:
		c.emit(pos, func(m *Machine, f *Frame) {
			switch v := f.get(a).(type) {
			case int64:
				f.regs[dst] = mkInt(ti.wrap(v))
			case *Term:
				f.regs[dst] = m.convTerm(v, fi, ti)
			}
		})
	case fInt && isFloat(tt):
		c.emit(pos, func(m *Machine, f *Frame) {
			v := m.concInt(f.get(a))
			if fi.signed {
				f.regs[dst] = float64(v)
			} else {
				f.regs[dst] = float64(uint64(v))
			}
		})
	case isFloat(ft) && tInt:
		c.emit(pos, func(m *Machine, f *Frame) { f.regs[dst] = mkInt(ti.wrap(int64(f.get(a).(float64)))) })
	case isFloat(ft) && isFloat(tt):
		c.emit(pos, func(m *Machine, f *Frame) {
			v := f.get(a).(float64)
			if tt.Underlying().(*types.Basic).Kind() == types.Float32 {
				v = float64(float32(v))
			}
			f.regs[dst] = v
		})
	case isString(tt) && fInt:
		c.emit(pos, func(m *Machine, f *Frame) { f.regs[dst] = m.runeToString(f.get(a)) })
	case isString(tt) && isString(ft):
		c.emit(pos, func(m *Machine, f *Frame) { f.regs[dst] = f.get(a) })
	case isString(tt):
		et := ft.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic)
		if et.Kind() == types.Uint8 {
			c.emit(pos, func(m *Machine, f *Frame) { f.regs[dst] = m.bytesToString(f.get(a)) })
		} else {
			c.emit(pos, func(m *Machine, f *Frame) { f.regs[dst] = m.runesToString(f.get(a)) })
		}
	case isString(ft):
		sl, ok := tt.Underlying().(*types.Slice)
		if !ok {
			c.emit(pos, func(m *Machine, f *Frame) { m.unsupported("convert %v to %v", ft, tt) })
			return
		}
		et := sl.Elem().Underlying().(*types.Basic)
		if et.Kind() == types.Uint8 {
			c.emit(pos, func(m *Machine, f *Frame) { f.regs[dst] = m.stringToBytes(f.get(a)) })
		} else {
			// only the lexers know what to do with a rune that stands for a lexeme
			exact := strings.HasPrefix(pkgPathOf(c.fn.ssa), repoMod) && !strings.HasPrefix(pkgPathOf(c.fn.ssa), repoMod+"/zzverif/rt")
			c.emit(pos, func(m *Machine, f *Frame) { f.regs[dst] = m.stringToRunes(f.get(a), exact) })
		}
	default:
		// pointers, unsafe.Pointer and identical underlying types
		c.emit(pos, func(m *Machine, f *Frame) { f.regs[dst] = f.get(a) })
	}
}

func (m *Machine) convTerm(v *Term, fi, ti intInfo) Value {
	t := v
	if t.w != fi.w && t.w != 0 {
		// values loaded through tables are 64 bits wide
		if t.w > fi.w {
			t = m.tc.mk(OTrunc, fi.w, nil, t)
		}
	}
	switch {
	case ti.w < t.w:
		t = m.tc.mk(OTrunc, ti.w, nil, t)
	case ti.w > t.w && fi.signed:
		t = m.tc.mk(OSext, ti.w, nil, t)
	case ti.w > t.w:
		t = m.tc.mk(OZext, ti.w, nil, t)
	}
	return m.fromTerm(t, ti)
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (c *compiler) binop(x *ssa.BinOp, dst int32) {
	a, b := c.op(x.X), c.op(x.Y)
	pos := x.Pos()
	t := x.X.Type()
	ii, isInt := basicInt(t)
	op := x.Op
	if isInt {
		c.intBinop(x, dst, a, b, ii)
		return
	}
	switch {
	case isString(t):
		c.emit(pos, func(m *Machine, f *Frame) {
			l, r := f.get(a), f.get(b)
			ls, ok1 := l.(string)
			rs, ok2 := r.(string)
			if ok1 && ok2 {
				switch op {
				case token.ADD:
					f.regs[dst] = ls + rs
				case token.EQL:
					f.regs[dst] = ls == rs
				case token.NEQ:
					f.regs[dst] = ls != rs
				case token.LSS:
					f.regs[dst] = ls < rs
				case token.LEQ:
					f.regs[dst] = ls <= rs
				case token.GTR:
					f.regs[dst] = ls > rs
				case token.GEQ:
					f.regs[dst] = ls >= rs
				}
				return
			}
			switch op {
			case token.ADD:
				f.regs[dst] = concatStr(l, r)
			case token.EQL:
				f.regs[dst] = termBool(m.strEq(l, r))
			case token.NEQ:
				f.regs[dst] = termBool(m.tc.Not(m.strEq(l, r)))
			default:
				f.regs[dst] = m.strOrder(op, l, r)
			}
		})
	case isFloat(t):
		c.emit(pos, func(m *Machine, f *Frame) {
			l, r := f.get(a).(float64), f.get(b).(float64)
			switch op {
			case token.ADD:
				f.regs[dst] = l + r
			case token.SUB:
				f.regs[dst] = l - r
			case token.MUL:
				f.regs[dst] = l * r
			case token.QUO:
				f.regs[dst] = l / r
			case token.EQL:
				f.regs[dst] = l == r
			case token.NEQ:
				f.regs[dst] = l != r
			case token.LSS:
				f.regs[dst] = l < r
			case token.LEQ:
				f.regs[dst] = l <= r
			case token.GTR:
				f.regs[dst] = l > r
			case token.GEQ:
				f.regs[dst] = l >= r
			}
		})
	case op == token.EQL || op == token.NEQ:
		c.emit(pos, func(m *Machine, f *Frame) {
			e := m.equal(f.get(a), f.get(b))
			if op == token.NEQ {
				e = m.tc.Not(e)
			}
			f.regs[dst] = termBool(e)
		})
	case op == token.AND || op == token.OR || op == token.LAND || op == token.LOR:
		c.emit(pos, func(m *Machine, f *Frame) {
			l, r := m.boolTerm(f.get(a)), m.boolTerm(f.get(b))
			if op == token.AND || op == token.LAND {
				f.regs[dst] = termBool(m.tc.And(l, r))
			} else {
				f.regs[dst] = termBool(m.tc.Or(l, r))
			}
		})
	default:
		c.emit(pos, func(m *Machine, f *Frame) { m.unsupported("binop %v on %v", op, t) })
	}
}

func (c *compiler) intBinop(x *ssa.BinOp, dst, a, b int32, ii intInfo) {
	pos := x.Pos()
	op := x.Op
	unsigned := !ii.signed
	shift := op == token.SHL || op == token.SHR
	yi, _ := basicInt(x.Y.Type())
	var fast func(l, r int64) Value
	switch op {
	case token.ADD:
		fast = func(l, r int64) Value { return mkInt(ii.wrap(l + r)) }
	case token.SUB:
		fast = func(l, r int64) Value { return mkInt(ii.wrap(l - r)) }
	case token.MUL:
		fast = func(l, r int64) Value { return mkInt(ii.wrap(l * r)) }
	case token.AND:
		fast = func(l, r int64) Value { return mkInt(l & r) }
	case token.OR:
		fast = func(l, r int64) Value { return mkInt(ii.wrap(l | r)) }
	case token.XOR:
		fast = func(l, r int64) Value { return mkInt(ii.wrap(l ^ r)) }
	case token.AND_NOT:
		fast = func(l, r int64) Value { return mkInt(ii.wrap(l &^ r)) }
	case token.EQL:
		fast = func(l, r int64) Value { return l == r }
	case token.NEQ:
		fast = func(l, r int64) Value { return l != r }
	case token.LSS:
		if unsigned {
			fast = func(l, r int64) Value { return uint64(l) < uint64(r) }
		} else {
			fast = func(l, r int64) Value { return l < r }
		}
	case token.LEQ:
		if unsigned {
			fast = func(l, r int64) Value { return uint64(l) <= uint64(r) }
		} else {
			fast = func(l, r int64) Value { return l <= r }
		}
	case token.GTR:
		if unsigned {
			fast = func(l, r int64) Value { return uint64(l) > uint64(r) }
		} else {
			fast = func(l, r int64) Value { return l > r }
		}
	case token.GEQ:
		if unsigned {
			fast = func(l, r int64) Value { return uint64(l) >= uint64(r) }
		} else {
			fast = func(l, r int64) Value { return l >= r }
		}
	case token.SHL:
		fast = func(l, r int64) Value {
			if uint64(r) >= 64 {
				return mkInt(0)
			}
			return mkInt(ii.wrap(l << uint64(r)))
		}
	case token.SHR:
		fast = func(l, r int64) Value {
			if unsigned {
				if uint64(r) >= 64 {
					return mkInt(0)
				}
				return mkInt(int64(uint64(l) >> uint64(r)))
			}
			if uint64(r) >= 64 {
				r = 63
			}
			return mkInt(l >> uint64(r))
		}
	}
	if op == token.QUO || op == token.REM {
		c.emit(pos, func(m *Machine, f *Frame) {
			l, r := m.concInt(f.get(a)), m.concInt(f.get(b))
			if r == 0 {
				m.throwRuntime("integer divide by zero")
			}
			if unsigned {
				if op == token.QUO {
					f.regs[dst] = mkInt(int64(uint64(l) / uint64(r)))
				} else {
					f.regs[dst] = mkInt(int64(uint64(l) % uint64(r)))
				}
				return
			}
			if r == -1 && l == math.MinInt64 {
				if op == token.QUO {
					f.regs[dst] = mkInt(l)
				} else {
					f.regs[dst] = mkInt(0)
				}
				return
			}
			if op == token.QUO {
				f.regs[dst] = mkInt(ii.wrap(l / r))
			} else {
				f.regs[dst] = mkInt(ii.wrap(l % r))
			}
		})
		return
	}
	if fast == nil {
		c.emit(pos, func(m *Machine, f *Frame) { m.unsupported("integer op %v", op) })
		return
	}
	c.emit(pos, func(m *Machine, f *Frame) {
		lv, rv := f.get(a), f.get(b)
		l, ok1 := lv.(int64)
		r, ok2 := rv.(int64)
		if ok1 && ok2 {
			if shift && yi.signed && r < 0 {
				m.throwRuntime("negative shift amount")
			}
			f.regs[dst] = fast(l, r)
			return
		}
		lt := m.asTerm(lv, ii.w)
		rt := lt
		if shift {
			rt = m.asTerm(rv, yi.w)
			if rt.w != ii.w {
				rt = m.resize(rt, ii.w)
			}
		} else {
			rt = m.asTerm(rv, ii.w)
		}
		tc := m.tc
		less := OSlt
		if unsigned {
			less = OUlt
		}
		switch op {
		case token.ADD:
			f.regs[dst] = m.fromTerm(tc.mk(OAdd, ii.w, nil, lt, rt), ii)
		case token.SUB:
			f.regs[dst] = m.fromTerm(tc.mk(OSub, ii.w, nil, lt, rt), ii)
		case token.MUL:
			f.regs[dst] = m.fromTerm(tc.mk(OMul, ii.w, nil, lt, rt), ii)
		case token.AND:
			f.regs[dst] = m.fromTerm(tc.mk(OBAnd, ii.w, nil, lt, rt), ii)
		case token.OR:
			f.regs[dst] = m.fromTerm(tc.mk(OBOr, ii.w, nil, lt, rt), ii)
		case token.XOR:
			f.regs[dst] = m.fromTerm(tc.mk(OBXor, ii.w, nil, lt, rt), ii)
		case token.AND_NOT:
			f.regs[dst] = m.fromTerm(tc.mk(OBAnd, ii.w, nil, lt, tc.mk(OBXor, ii.w, nil, rt, tc.Const(ii.w, ^uint64(0)))), ii)
		case token.SHL:
			f.regs[dst] = m.fromTerm(tc.mk(OShl, ii.w, nil, lt, rt), ii)
		case token.SHR:
			if unsigned {
				f.regs[dst] = m.fromTerm(tc.mk(OLshr, ii.w, nil, lt, rt), ii)
			} else {
				f.regs[dst] = m.fromTerm(tc.mk(OAshr, ii.w, nil, lt, rt), ii)
			}
		case token.EQL:
			f.regs[dst] = termBool(tc.Eq(lt, rt))
		case token.NEQ:
			f.regs[dst] = termBool(tc.Not(tc.Eq(lt, rt)))
		case token.LSS:
			f.regs[dst] = termBool(tc.mk(less, 0, nil, lt, rt))
		case token.GEQ:
			f.regs[dst] = termBool(tc.Not(tc.mk(less, 0, nil, lt, rt)))
		case token.GTR:
			f.regs[dst] = termBool(tc.mk(less, 0, nil, rt, lt))
		case token.LEQ:
			f.regs[dst] = termBool(tc.Not(tc.mk(less, 0, nil, rt, lt)))
		}
	})
}

// resize changes a shift count to width w; counts too large for w saturate.
func (m *Machine) resize(t *Term, w int) *Term {
	if t.w == w {
		return t
	}
	if t.w < w {
		return m.tc.mk(OZext, w, nil, t)
	}
	big := m.tc.Not(m.tc.mk(OUlt, 0, nil, t, m.tc.Const(t.w, uint64(w))))
	return m.tc.Ite(big, m.tc.Const(w, uint64(w)), m.tc.mk(OTrunc, w, nil, t))
}
