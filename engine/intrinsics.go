package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type intrF = func(m *Machine, fr *Frame, a []Value) Value

var intrinsics = map[string]intrF{}

const ndPath = repoMod + "/zzverif/nd."
const rtPath = repoMod + "/zzverif/rt."

func (w *World) intrinsic(f *ssa.Function) *Intrinsic {
	name := f.String()
	if in, ok := intrinsics[name]; ok {
		return &Intrinsic{name, in}
	}
	o := f.Origin()
	if o == nil {
		o = f
	}
	on := o.String()
	if o != f {
		if in, ok := intrinsics[on]; ok {
			return &Intrinsic{name, in}
		}
	}
	// synchronisation: the machine is sequential
	for _, p := range []string{"(*sync.Mutex).", "(*sync.RWMutex).", "(*internal/sync.Mutex)."} {
		if mth, ok := strings.CutPrefix(name, p); ok {
			r := strings.HasPrefix(mth, "Try")
			return &Intrinsic{name, func(m *Machine, fr *Frame, a []Value) Value {
				if r {
					return true
				}
				return nil
			}}
		}
	}
	if strings.HasPrefix(on, "(*sync/atomic.") {
		if in := atomicIntrinsic(o.Name()); in != nil {
			return &Intrinsic{name, in}
		}
	}
	if o.Name() == "init" && o.Pkg != nil && o.Signature.Recv() == nil && o.Parent() == nil && o.Synthetic != "" {
		p := o.Pkg.Pkg.Path()
		if !w.initOK(p) {
			return &Intrinsic{name, func(m *Machine, fr *Frame, a []Value) Value { return nil }}
		}
	}
	return nil
}

// atomics hold their value in the last field of the struct
func atomicIntrinsic(name string) intrF {
	cell := func(m *Machine, v Value) *Value {
		p := v.(*Value)
		if p == nil {
			m.throwRuntime(nilDeref)
		}
		s := (*p).(Struct)
		return &s[len(s)-1]
	}
	switch name {
	case "Load":
		return func(m *Machine, fr *Frame, a []Value) Value {
			c := *cell(m, a[0])
			if _, ok := c.(int64); ok && fr != nil {
				return atomicOut(m, fr, c)
			}
			return c
		}
	case "Store":
		return func(m *Machine, fr *Frame, a []Value) Value {
			m.store(cell(m, a[0]), atomicIn(a[1]))
			return nil
		}
	case "Add":
		return func(m *Machine, fr *Frame, a []Value) Value {
			c := cell(m, a[0])
			v := mkInt((*c).(int64) + a[1].(int64))
			m.store(c, v)
			return v
		}
	case "Swap":
		return func(m *Machine, fr *Frame, a []Value) Value {
			c := cell(m, a[0])
			o := *c
			m.store(c, atomicIn(a[1]))
			return o
		}
	case "CompareAndSwap":
		return func(m *Machine, fr *Frame, a []Value) Value {
			c := cell(m, a[0])
			if m.truth(termBool(m.equal(*c, atomicIn(a[1])))) {
				m.store(c, atomicIn(a[2]))
				return true
			}
			return false
		}
	}
	return nil
}

func atomicIn(v Value) Value {
	if b, ok := v.(bool); ok {
		if b {
			return mkInt(1)
		}
		return mkInt(0)
	}
	return v
}

func atomicOut(m *Machine, fr *Frame, v Value) Value { return v }

func (m *Machine) block() { m.abortTo("blocked", 0) }

// abortTo leaves all frames up to the nearest nd.Try without running deferred
// calls; the result of that Try is an nd.Aborted value.
func (m *Machine) abortTo(kind string, code int64) {
	f := m.top
	for f != nil && !f.barrier {
		f = f.parent
	}
	if f == nil {
		panic(pathEnd{"exit", fmt.Sprintf("%s %d", kind, code)})
	}
	p := m.writable(f.parent)
	t := m.w.rtype(m.w.pkgs[strings.TrimSuffix(ndPath, ".")].Type("Aborted").Type())
	if f.retDst >= 0 {
		p.regs[f.retDst] = Iface{t, Struct{kind, mkInt(code)}}
	}
	m.top = p
	panic(resume{})
}

type resume struct{}

type tryCall struct{ fn *Closure }

// ---- lifting pure functions over symbolic arguments ----

func symVarsOf(v Value, acc map[*Var]bool) bool { // false: not single-variable parts
	switch x := v.(type) {
	case *Term:
		for _, vr := range x.vars {
			acc[vr] = true
		}
		return x.op == OTab || x.op == OConst
	case *Str:
		ok := true
		for i := range x.parts {
			t := x.parts[i].idx
			if t == nil {
				t = x.parts[i].b
			}
			if t == nil {
				continue
			}
			for _, vr := range t.vars {
				acc[vr] = true
			}
			if t.op != OTab && t.op != OConst {
				ok = false
			}
		}
		return ok
	case *BytesRope:
		return symVarsOf(x.s, acc)
	case Slice:
		ok := true
		for _, e := range x {
			if !symVarsOf(e, acc) {
				ok = false
			}
		}
		return ok
	}
	return true
}

// atPoint evaluates v with variable vr = i.
func atPoint(v Value, i int) Value {
	switch x := v.(type) {
	case *Term:
		if x.op == OTab {
			return kToValue(x, x.tab[i])
		}
		return kToValue(x, x.k)
	case *Str:
		var sb strings.Builder
		for j := range x.parts {
			p := &x.parts[j]
			switch {
			case p.idx != nil:
				k := p.idx.k
				if p.idx.op == OTab {
					k = p.idx.tab[i]
				}
				if k < uint64(len(p.tab.strs)) {
					sb.WriteString(p.tab.strs[k])
				}
			case p.b != nil:
				k := p.b.k
				if p.b.op == OTab {
					k = p.b.tab[i]
				}
				sb.WriteByte(byte(k))
			default:
				sb.WriteString(p.c)
			}
		}
		return sb.String()
	case *BytesRope:
		return atPoint(x.s, i)
	case Slice:
		out := make(Slice, len(x))
		for j, e := range x {
			out[j] = atPoint(e, i)
		}
		return out
	}
	return v
}

func (m *Machine) normArg(v Value) Value {
	switch x := v.(type) {
	case *Str:
		return m.normStr(x)
	case *Term:
		if k, ok := m.known(x); ok {
			return k
		}
	case *BytesRope:
		if f := m.thawed(x); f != Value(x) {
			return m.normArg(f)
		}
		n := m.normStr(x.s)
		if s, ok := n.(string); ok {
			return m.stringToBytes(s)
		}
		return &BytesRope{s: n}
	case Slice:
		for i, e := range x {
			switch e.(type) {
			case *Str, *Term:
				out := append(Slice(nil), x...)
				for j := i; j < len(out); j++ {
					out[j] = m.normArg(out[j])
				}
				return out
			}
		}
	}
	return v
}

func (m *Machine) liftPure(args []Value, f func(a []Value) Value) Value {
	as := make([]Value, len(args))
	vars := map[*Var]bool{}
	ok := true
	for i, a := range args {
		as[i] = m.normArg(a)
		if !symVarsOf(as[i], vars) {
			ok = false
		}
	}
	if len(vars) == 0 && ok {
		return f(as)
	}
	if len(vars) == 1 && ok {
		var vr *Var
		for v := range vars {
			vr = v
		}
		res := make([]Value, vr.size)
		any := false
		var sample Value
		m.doms[vr.seq].each(func(i int) bool {
			pa := make([]Value, len(as))
			for j, a := range as {
				pa[j] = atPoint(a, i)
			}
			res[i] = f(pa)
			if !any {
				sample = res[i]
			}
			any = true
			return true
		})
		switch sample.(type) {
		case bool:
			tab := make([]uint64, vr.size)
			for i, r := range res {
				if r == true {
					tab[i] = 1
				}
			}
			return termBool(m.tc.mkTab(0, vr, tab))
		case int64:
			tab := make([]uint64, vr.size)
			for i, r := range res {
				if k, ok := r.(int64); ok {
					tab[i] = uint64(k)
				} else {
					tab[i] = uint64(sample.(int64))
				}
			}
			return m.fromTerm(m.tc.mkTab(64, vr, tab), intInfo{64, true})
		case string:
			tab := make([]string, vr.size)
			for i, r := range res {
				if s, ok := r.(string); ok {
					tab[i] = s
				} else {
					tab[i] = sample.(string)
				}
			}
			return m.normStr(mkStr([]SPart{{idx: vr.id, tab: mkStrTab(tab)}}))
		}
		// group equal results and fork over the groups
		groups := map[string][]*Term{}
		vals := map[string]Value{}
		var order []string
		for i, r := range res {
			if r == nil && !m.doms[vr.seq].has(i) {
				continue
			}
			k := fmt.Sprintf("%#v", r)
			if _, ok := groups[k]; !ok {
				order = append(order, k)
				vals[k] = r
			}
			groups[k] = append(groups[k], m.tc.Eq(vr.id, m.tc.Const(64, uint64(i))))
		}
		if len(order) == 1 {
			return vals[order[0]]
		}
		conds := make([]*Term, len(order))
		for i, k := range order {
			conds[i] = m.tc.Or(groups[k]...)
		}
		panic(&forkReq{conds})
	}
	// several variables: make one argument concrete
	for _, a := range as {
		m.concAny(a)
	}
	return f(as)
}

func (m *Machine) concAny(a Value) {
	switch x := m.thawed(a).(type) {
	case *Str:
		m.concStr(x)
	case *BytesRope:
		m.concStr(x.s)
	case *Term:
		m.concK(x)
	case Slice:
		for _, e := range x {
			m.concAny(e)
		}
	}
}

func strSliceVal(ss []string) Slice {
	if ss == nil {
		return nil
	}
	out := make(Slice, len(ss))
	for i, s := range ss {
		out[i] = s
	}
	return out
}

func goStrs(v Value) []string {
	s, _ := v.(Slice)
	out := make([]string, len(s))
	for i, e := range s {
		out[i] = e.(string)
	}
	return out
}

func pure(name string, f func(a []Value) Value) {
	intrinsics[name] = func(m *Machine, fr *Frame, a []Value) Value { return m.liftPure(a, f) }
}

func boolInt(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// eachPart applies a function that maps every part on its own (f(ab) = f(a)f(b)).
func (m *Machine) eachPart(v Value, f func(string) string) Value {
	v = m.normStr(v)
	if s, ok := v.(string); ok {
		return f(s)
	}
	parts := append([]SPart(nil), strParts(v)...)
	for i := range parts {
		p := &parts[i]
		switch {
		case p.idx != nil:
			tab := make([]string, len(p.tab.strs))
			for j, s := range p.tab.strs {
				tab[j] = f(s)
			}
			p.tab = mkStrTab(tab)
		case p.b != nil:
			tab := make([]string, 256)
			for j := range tab {
				tab[j] = f(string([]byte{byte(j)}))
			}
			*p = SPart{idx: p.b, tab: mkStrTab(tab)}
		default:
			p.c = f(p.c)
		}
	}
	return mkStr(parts)
}

// builderCell is where a strings.Builder keeps its text.
func builderCell(m *Machine, v Value) *Value {
	p := v.(*Value)
	if p == nil {
		m.throwRuntime(nilDeref)
	}
	return &(*p).(Struct)[1]
}

func builderStr(c *Value) Value {
	switch x := (*c).(type) {
	case string, *Str:
		return x
	}
	return ""
}

func (m *Machine) stopPath(kind, msg string) { panic(pathEnd{kind, msg}) }

func init() {
	s := func(v Value) string { return v.(string) }
	i := func(v Value) int { return int(v.(int64)) }
	pure("strings.ToLower", func(a []Value) Value { return strings.ToLower(s(a[0])) })
	pure("strings.ToUpper", func(a []Value) Value { return strings.ToUpper(s(a[0])) })
	intrinsics["strings.ToLower"] = func(m *Machine, fr *Frame, a []Value) Value { return m.eachPart(a[0], strings.ToLower) }
	intrinsics["strings.ToUpper"] = func(m *Machine, fr *Frame, a []Value) Value { return m.eachPart(a[0], strings.ToUpper) }
	pure("strings.TrimSpace", func(a []Value) Value { return strings.TrimSpace(s(a[0])) })
	trim := intrinsics["strings.TrimSpace"]
	intrinsics["strings.TrimSpace"] = func(m *Machine, fr *Frame, a []Value) Value {
		v := m.normStr(a[0])
		if x, ok := v.(*Str); ok {
			// nothing to trim when both ends are certainly not blank
			if m.notBlank(&x.parts[0], true) && m.notBlank(&x.parts[len(x.parts)-1], false) {
				return x
			}
		}
		return trim(m, fr, []Value{v})
	}
	pure("strings.Trim", func(a []Value) Value { return strings.Trim(s(a[0]), s(a[1])) })
	pure("strings.TrimLeft", func(a []Value) Value { return strings.TrimLeft(s(a[0]), s(a[1])) })
	pure("strings.TrimRight", func(a []Value) Value { return strings.TrimRight(s(a[0]), s(a[1])) })
	pure("strings.TrimSuffix", func(a []Value) Value { return strings.TrimSuffix(s(a[0]), s(a[1])) })
	pure("strings.TrimPrefix", func(a []Value) Value { return strings.TrimPrefix(s(a[0]), s(a[1])) })
	pure("strings.HasPrefix", func(a []Value) Value { return strings.HasPrefix(s(a[0]), s(a[1])) })
	pure("strings.HasSuffix", func(a []Value) Value { return strings.HasSuffix(s(a[0]), s(a[1])) })
	hp := intrinsics["strings.HasPrefix"]
	intrinsics["strings.HasPrefix"] = func(m *Machine, fr *Frame, a []Value) Value {
		v := m.normStr(a[0])
		if x, ok := v.(*Str); ok {
			if pre, ok := a[1].(string); ok {
				p := x.parts[0]
				long := true
				switch {
				case p.idx != nil:
					m.eachChoice(&p, func(_ uint64, s string) bool {
						if len(s) < len(pre) {
							long = false
						}
						return long
					})
				case p.concrete():
					long = len(p.c) >= len(pre)
				default:
					long = len(pre) <= 1
				}
				if long {
					return hp(m, fr, []Value{mkStr([]SPart{p}), pre})
				}
			}
		}
		return hp(m, fr, []Value{v, a[1]})
	}
	intrinsics["strings.Contains"] = func(m *Machine, fr *Frame, a []Value) Value { return m.strContains(a[0], a[1]) }
	pure("strings.ContainsAny", func(a []Value) Value { return strings.ContainsAny(s(a[0]), s(a[1])) })
	pure("strings.ContainsRune", func(a []Value) Value { return strings.ContainsRune(s(a[0]), rune(i(a[1]))) })
	pure("strings.Index", func(a []Value) Value { return mkInt(int64(strings.Index(s(a[0]), s(a[1])))) })
	pure("strings.IndexByte", func(a []Value) Value { return mkInt(int64(strings.IndexByte(s(a[0]), byte(i(a[1]))))) })
	pure("internal/bytealg.IndexByteString", func(a []Value) Value { return mkInt(int64(strings.IndexByte(s(a[0]), byte(i(a[1]))))) })
	pure("internal/stringslite.IndexByte", func(a []Value) Value { return mkInt(int64(strings.IndexByte(s(a[0]), byte(i(a[1]))))) })
	pure("internal/stringslite.Index", func(a []Value) Value { return mkInt(int64(strings.Index(s(a[0]), s(a[1])))) })
	pure("internal/bytealg.CountString", func(a []Value) Value { return mkInt(int64(strings.Count(s(a[0]), string([]byte{byte(i(a[1]))})))) })
	pure("strings.IndexRune", func(a []Value) Value { return mkInt(int64(strings.IndexRune(s(a[0]), rune(i(a[1]))))) })
	pure("strings.IndexAny", func(a []Value) Value { return mkInt(int64(strings.IndexAny(s(a[0]), s(a[1])))) })
	pure("strings.LastIndex", func(a []Value) Value { return mkInt(int64(strings.LastIndex(s(a[0]), s(a[1])))) })
	pure("strings.LastIndexByte", func(a []Value) Value { return mkInt(int64(strings.LastIndexByte(s(a[0]), byte(i(a[1]))))) })
	pure("internal/bytealg.LastIndexByteString", func(a []Value) Value { return mkInt(int64(strings.LastIndexByte(s(a[0]), byte(i(a[1]))))) })
	pure("strings.Count", func(a []Value) Value { return mkInt(int64(strings.Count(s(a[0]), s(a[1])))) })
	pure("strings.EqualFold", func(a []Value) Value { return strings.EqualFold(s(a[0]), s(a[1])) })
	pure("strings.Compare", func(a []Value) Value { return mkInt(int64(strings.Compare(s(a[0]), s(a[1])))) })
	pure("strings.Repeat", func(a []Value) Value { return strings.Repeat(s(a[0]), i(a[1])) })
	pure("strings.Replace", func(a []Value) Value { return strings.Replace(s(a[0]), s(a[1]), s(a[2]), i(a[3])) })
	pure("strings.ReplaceAll", func(a []Value) Value { return strings.ReplaceAll(s(a[0]), s(a[1]), s(a[2])) })
	intrinsics["strings.ReplaceAll"] = replaceAll
	intrinsics["strings.Replace"] = func(m *Machine, fr *Frame, a []Value) Value {
		if n, ok := a[3].(int64); ok && n < 0 {
			return replaceAll(m, fr, a[:3])
		}
		return m.liftPure(a, func(a []Value) Value { return strings.Replace(s(a[0]), s(a[1]), s(a[2]), i(a[3])) })
	}
	pure("strings.Fields", func(a []Value) Value { return strSliceVal(strings.Fields(s(a[0]))) })
	pure("strings.Split", func(a []Value) Value { return strSliceVal(strings.Split(s(a[0]), s(a[1]))) })
	split := intrinsics["strings.Split"]
	intrinsics["strings.Split"] = func(m *Machine, fr *Frame, a []Value) Value {
		if r, ok := m.splitParts(a[0], a[1]); ok {
			return r
		}
		return split(m, fr, a)
	}
	pure("strings.Title", func(a []Value) Value { return strings.Title(s(a[0])) })
	intrinsics["strings.SplitN"] = func(m *Machine, fr *Frame, a []Value) Value {
		v := m.normStr(a[0])
		sep, ok1 := a[1].(string)
		n, ok2 := a[2].(int64)
		if x, ok := v.(*Str); ok && ok1 && ok2 && n == 2 && len(sep) == 1 {
			// find the first separator part by part
			for j := range x.parts {
				p := &x.parts[j]
				k := -1
				switch {
				case p.concrete():
					k = strings.Index(p.c, sep)
				case p.idx != nil:
					k = m.forkBy(p, func(s string) int { return strings.Index(s, sep) })
				default:
					if m.decide(m.tc.Eq(p.b, m.tc.Const(8, uint64(sep[0])))) {
						k = 0
					}
				}
				if k >= 0 {
					left := mkStr(append([]SPart(nil), x.parts[:j]...))
					pv := mkStr([]SPart{*p})
					l2 := m.takePrefix(pv, int64(k))
					r2 := m.dropPrefix(pv, int64(k)+1)
					return Slice{m.normStr(concatStr(left, l2)), m.normStr(concatStr(r2, mkStr(append([]SPart(nil), x.parts[j+1:]...))))}
				}
			}
			return Slice{x}
		}
		return m.liftPure([]Value{v, a[1], a[2]}, func(a []Value) Value { return strSliceVal(strings.SplitN(s(a[0]), s(a[1]), i(a[2]))) })
	}
	intrinsics["strings.Join"] = func(m *Machine, fr *Frame, a []Value) Value {
		var out Value = ""
		for k, e := range a[0].(Slice) {
			if k > 0 {
				out = concatStr(out, a[1])
			}
			out = concatStr(out, e)
		}
		return out
	}
	intrinsics["internal/stringslite.Clone"] = func(m *Machine, fr *Frame, a []Value) Value { return a[0] }
	intrinsics["strings.Clone"] = func(m *Machine, fr *Frame, a []Value) Value { return a[0] }

	// strings.Builder keeps a rope in its buf field
	intrinsics["(*strings.Builder).WriteString"] = func(m *Machine, fr *Frame, a []Value) Value {
		c := builderCell(m, a[0])
		m.store(c, concatStr(builderStr(c), a[1]))
		return Tuple{termInt(m.lenOf(a[1])), Iface{}}
	}
	intrinsics["(*strings.Builder).Write"] = func(m *Machine, fr *Frame, a []Value) Value {
		c := builderCell(m, a[0])
		m.store(c, concatStr(builderStr(c), m.bytesToString(a[1])))
		return Tuple{termInt(m.lenOf(a[1])), Iface{}}
	}
	intrinsics["(*strings.Builder).WriteByte"] = func(m *Machine, fr *Frame, a []Value) Value {
		c := builderCell(m, a[0])
		m.store(c, concatStr(builderStr(c), m.cellsToStr([]Value{a[1]})))
		return Iface{}
	}
	intrinsics["(*strings.Builder).WriteRune"] = func(m *Machine, fr *Frame, a []Value) Value {
		c := builderCell(m, a[0])
		r := m.runeToString(a[1])
		m.store(c, concatStr(builderStr(c), r))
		return Tuple{m.lenOf(r), Iface{}}
	}
	intrinsics["(*strings.Builder).String"] = func(m *Machine, fr *Frame, a []Value) Value {
		return builderStr(builderCell(m, a[0]))
	}
	intrinsics["(*strings.Builder).Len"] = func(m *Machine, fr *Frame, a []Value) Value {
		return m.lenOf(builderStr(builderCell(m, a[0])))
	}
	intrinsics["(*strings.Builder).Cap"] = intrinsics["(*strings.Builder).Len"]
	intrinsics["(*strings.Builder).Reset"] = func(m *Machine, fr *Frame, a []Value) Value {
		m.store(builderCell(m, a[0]), "")
		return nil
	}
	intrinsics["(*strings.Builder).Grow"] = func(m *Machine, fr *Frame, a []Value) Value { return nil }

	// strconv
	pure("strconv.Itoa", func(a []Value) Value { return strconv.Itoa(i(a[0])) })
	pure("strconv.FormatInt", func(a []Value) Value { return strconv.FormatInt(a[0].(int64), i(a[1])) })
	pure("strconv.FormatUint", func(a []Value) Value { return strconv.FormatUint(uint64(a[0].(int64)), i(a[1])) })
	pure("strconv.Quote", func(a []Value) Value { return strconv.Quote(s(a[0])) })
	pure("strconv.FormatBool", func(a []Value) Value { return strconv.FormatBool(a[0].(bool)) })
	pure("strconv.FormatFloat", func(a []Value) Value {
		return strconv.FormatFloat(a[0].(float64), byte(i(a[1])), i(a[2]), i(a[3]))
	})

	// unicode
	for n, f := range map[string]func(rune) bool{"IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsSpace": unicode.IsSpace, "IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsPunct": unicode.IsPunct, "IsControl": unicode.IsControl, "IsPrint": unicode.IsPrint, "IsNumber": unicode.IsNumber, "IsGraphic": unicode.IsGraphic} {
		f := f
		pure("unicode."+n, func(a []Value) Value { return f(rune(i(a[0]))) })
	}
	for n, f := range map[string]func(rune) rune{"ToLower": unicode.ToLower, "ToUpper": unicode.ToUpper, "SimpleFold": unicode.SimpleFold, "ToTitle": unicode.ToTitle} {
		f := f
		pure("unicode."+n, func(a []Value) Value { return mkInt(int64(f(rune(i(a[0]))))) })
	}

	// math
	pure("math.Floor", func(a []Value) Value { return math.Floor(a[0].(float64)) })
	pure("math.Ceil", func(a []Value) Value { return math.Ceil(a[0].(float64)) })
	pure("math.Log", func(a []Value) Value { return math.Log(a[0].(float64)) })
	pure("math.Sqrt", func(a []Value) Value { return math.Sqrt(a[0].(float64)) })
	pure("math.Abs", func(a []Value) Value { return math.Abs(a[0].(float64)) })
	pure("math.Float64bits", func(a []Value) Value { return mkInt(int64(math.Float64bits(a[0].(float64)))) })
	pure("math.Float64frombits", func(a []Value) Value { return math.Float64frombits(uint64(a[0].(int64))) })
	pure("math/bits.TrailingZeros64", func(a []Value) Value { return mkInt(int64(bits.TrailingZeros64(uint64(a[0].(int64))))) })
	pure("math/bits.LeadingZeros64", func(a []Value) Value { return mkInt(int64(bits.LeadingZeros64(uint64(a[0].(int64))))) })
	pure("math/bits.OnesCount64", func(a []Value) Value { return mkInt(int64(bits.OnesCount64(uint64(a[0].(int64))))) })
	pure("math/bits.Len64", func(a []Value) Value { return mkInt(int64(bits.Len64(uint64(a[0].(int64))))) })

	// path/filepath (lexical)
	pure("path/filepath.Base", func(a []Value) Value { return filepath.Base(s(a[0])) })
	pure("path/filepath.Ext", func(a []Value) Value { return filepath.Ext(s(a[0])) })
	pure("path/filepath.Dir", func(a []Value) Value { return filepath.Dir(s(a[0])) })
	pure("path/filepath.Clean", func(a []Value) Value { return filepath.Clean(s(a[0])) })
	pure("path/filepath.IsAbs", func(a []Value) Value { return filepath.IsAbs(s(a[0])) })
	intrinsics["path/filepath.Join"] = func(m *Machine, fr *Frame, a []Value) Value {
		return m.liftPure(a, func(a []Value) Value { return filepath.Join(goStrs(a[0])...) })
	}

	// bytealg
	intrinsics["internal/bytealg.MakeNoZero"] = func(m *Machine, fr *Frame, a []Value) Value {
		out := make(Slice, m.concInt(a[0]))
		for j := range out {
			out[j] = mkInt(0)
		}
		return out
	}
	intrinsics["internal/bytealg.IndexByte"] = func(m *Machine, fr *Frame, a []Value) Value {
		for j, e := range m.concreteSlice(a[0]) {
			if m.truth(termBool(m.equal(e, a[1]))) {
				return mkInt(int64(j))
			}
		}
		return mkInt(-1)
	}
	intrinsics["internal/bytealg.Equal"] = func(m *Machine, fr *Frame, a []Value) Value {
		return termBool(m.strEq(m.bytesToString(a[0]), m.bytesToString(a[1])))
	}
	intrinsics["bytes.Equal"] = intrinsics["internal/bytealg.Equal"]
	// the functions of bytes work on the texts of their arguments
	for _, n := range []string{"Contains", "Index", "LastIndex", "Count", "Compare", "HasPrefix", "HasSuffix", "EqualFold"} {
		f := intrinsics["strings."+n]
		if f == nil {
			continue
		}
		intrinsics["bytes."+n] = func(m *Machine, fr *Frame, a []Value) Value {
			return f(m, fr, []Value{m.bytesToString(a[0]), m.bytesToString(a[1])})
		}
	}
	for _, n := range []string{"TrimSpace", "ToLower", "ToUpper"} {
		f := intrinsics["strings."+n]
		if f == nil {
			continue
		}
		intrinsics["bytes."+n] = func(m *Machine, fr *Frame, a []Value) Value {
			return m.stringToBytes(f(m, fr, []Value{m.bytesToString(a[0])}))
		}
	}
	for _, n := range []string{"TrimPrefix", "TrimSuffix"} {
		f := intrinsics["strings."+n]
		if f == nil {
			continue
		}
		intrinsics["bytes."+n] = func(m *Machine, fr *Frame, a []Value) Value {
			return m.stringToBytes(f(m, fr, []Value{m.bytesToString(a[0]), m.bytesToString(a[1])}))
		}
	}
	intrinsics["bytes.ReplaceAll"] = func(m *Machine, fr *Frame, a []Value) Value {
		return m.stringToBytes(intrinsics["strings.ReplaceAll"](m, fr, []Value{m.bytesToString(a[0]), m.bytesToString(a[1]), m.bytesToString(a[2])}))
	}
	intrinsics["bytes.Replace"] = func(m *Machine, fr *Frame, a []Value) Value {
		return m.stringToBytes(intrinsics["strings.Replace"](m, fr, []Value{m.bytesToString(a[0]), m.bytesToString(a[1]), m.bytesToString(a[2]), a[3]}))
	}
	intrinsics["internal/bytealg.Index"] = intrinsics["bytes.Index"]
	intrinsics["internal/bytealg.Compare"] = intrinsics["bytes.Compare"]
	intrinsics["internal/bytealg.IndexString"] = intrinsics["strings.Index"]
	intrinsics["internal/bytealg.Count"] = func(m *Machine, fr *Frame, a []Value) Value {
		n := int64(0)
		for _, e := range m.concreteSlice(a[0]) {
			if m.truth(termBool(m.equal(e, a[1]))) {
				n++
			}
		}
		return mkInt(n)
	}
	intrinsics["internal/abi.NoEscape"] = func(m *Machine, fr *Frame, a []Value) Value { return a[0] }
	intrinsics["internal/abi.Escape"] = func(m *Machine, fr *Frame, a []Value) Value { return a[0] }
	nop := func(m *Machine, fr *Frame, a []Value) Value { return nil }
	for _, n := range []string{"internal/race.Acquire", "internal/race.Release", "internal/race.Read", "internal/race.Write", "internal/race.Enable", "internal/race.Disable", "runtime.SetFinalizer", "runtime.KeepAlive", "runtime.GC", "os/signal.Notify", "internal/runtime/sys.GetCallerPC"} {
		intrinsics[n] = nop
	}
	intrinsics["internal/godebug.New"] = func(m *Machine, fr *Frame, a []Value) Value { return (*Value)(nil) }
	intrinsics["(*internal/godebug.Setting).Value"] = func(m *Machine, fr *Frame, a []Value) Value { return "" }
	intrinsics["(*internal/godebug.Setting).IncNonDefault"] = nop
	intrinsics["reflect.TypeOf"] = func(m *Machine, fr *Frame, a []Value) Value { return Iface{} }
	intrinsics["os.Exit"] = func(m *Machine, fr *Frame, a []Value) Value {
		m.abortTo("exit", m.concInt(a[0]))
		return nil
	}
	intrinsics["runtime.Goexit"] = func(m *Machine, fr *Frame, a []Value) Value { m.unsupported("Goexit"); return nil }

	// sync/atomic functions
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		intrinsics["sync/atomic.Load"+ty] = func(m *Machine, fr *Frame, a []Value) Value { return *a[0].(*Value) }
		intrinsics["sync/atomic.Store"+ty] = func(m *Machine, fr *Frame, a []Value) Value { m.store(a[0].(*Value), a[1]); return nil }
		intrinsics["sync/atomic.Add"+ty] = func(m *Machine, fr *Frame, a []Value) Value {
			p := a[0].(*Value)
			v := mkInt((*p).(int64) + a[1].(int64))
			m.store(p, v)
			return v
		}
		intrinsics["sync/atomic.CompareAndSwap"+ty] = func(m *Machine, fr *Frame, a []Value) Value {
			p := a[0].(*Value)
			if m.truth(termBool(m.equal(*p, a[1]))) {
				m.store(p, a[2])
				return true
			}
			return false
		}
	}
	intrinsics["(*sync/atomic.Bool).Load"] = func(m *Machine, fr *Frame, a []Value) Value {
		s := (*a[0].(*Value)).(Struct)
		return s[len(s)-1] == Value(int64(1))
	}
	for _, n := range []string{"Add", "Done", "Wait"} {
		intrinsics["(*sync.WaitGroup)."+n] = nop
	}
	intrinsics["(*sync.WaitGroup).Go"] = func(m *Machine, fr *Frame, a []Value) Value {
		return tailCall{a[1].(*Closure), nil}
	}
	ticks := func(m *Machine) int64 {
		n, _ := m.side["clock"].(int64)
		old := m.side["clock"]
		m.side["clock"] = mkInt(n + 1)
		m.logFn(func() { m.side["clock"] = old })
		return n + 1
	}
	for _, n := range []string{"reflect.ValueOf", "internal/abi.TypeOf"} {
		n := n
		intrinsics[n] = func(m *Machine, fr *Frame, a []Value) Value {
			m.unsupported("%s", n)
			return nil
		}
	}
	intrinsics["time.runtimeIsBubbled"] = func(m *Machine, fr *Frame, a []Value) Value { return false }
	intrinsics["time.runtimeNow"] = func(m *Machine, fr *Frame, a []Value) Value {
		n := ticks(m)
		return Tuple{mkInt(1700000000 + n), mkInt(0), mkInt(1000000000 * n)}
	}
	intrinsics["time.runtimeNano"] = func(m *Machine, fr *Frame, a []Value) Value { return mkInt(1000000000 * ticks(m)) }
	intrinsics["time.now"] = intrinsics["time.runtimeNow"]
	intrinsics["maps.clone"] = func(m *Machine, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		mp, _ := i.v.(*Map)
		if mp == nil {
			return i
		}
		return Iface{i.t, m.mapClone(mp)}
	}
	intrinsics["math.Float64bits"] = func(m *Machine, fr *Frame, a []Value) Value {
		return mkInt(int64(math.Float64bits(a[0].(float64))))
	}
	intrinsics["math.Float64frombits"] = func(m *Machine, fr *Frame, a []Value) Value {
		return math.Float64frombits(uint64(m.concInt(a[0])))
	}
	intrinsics["math.Float32bits"] = func(m *Machine, fr *Frame, a []Value) Value {
		return mkInt(int64(math.Float32bits(float32(a[0].(float64)))))
	}
	intrinsics["math.Float32frombits"] = func(m *Machine, fr *Frame, a []Value) Value {
		return float64(math.Float32frombits(uint32(m.concInt(a[0]))))
	}
	digest := func(f func(b []byte) []byte) intrF {
		return func(m *Machine, fr *Frame, a []Value) Value {
			return m.liftPure([]Value{m.bytesToString(a[0])}, func(a []Value) Value {
				var out Array
				for _, b := range f([]byte(a[0].(string))) {
					out = append(out, mkInt(int64(b)))
				}
				return out
			})
		}
	}
	intrinsics["crypto/sha256.Sum256"] = digest(func(b []byte) []byte { s := sha256.Sum256(b); return s[:] })
	intrinsics["crypto/sha1.Sum"] = digest(func(b []byte) []byte { s := sha1.Sum(b); return s[:] })
	intrinsics["crypto/md5.Sum"] = digest(func(b []byte) []byte { s := md5.Sum(b); return s[:] })
	intrinsics["(*sync.Pool).Put"] = func(m *Machine, fr *Frame, a []Value) Value {
		p := a[0].(*Value)
		old := m.pools[p]
		m.pools[p] = append(append([]Value(nil), old...), a[1])
		m.logFn(func() { m.pools[p] = old })
		return nil
	}
	intrinsics["(*sync.Once).Do"] = func(m *Machine, fr *Frame, a []Value) Value {
		st := (*a[0].(*Value)).(Struct)
		if len(st) > 0 {
			// field 0 or 1 holds "done" (an atomic); use the last int cell found
			c := onceCell(m, a[0].(*Value))
			if *c == Value(int64(1)) {
				return nil
			}
			m.store(c, mkInt(1))
		}
		return tailCall{a[1].(*Closure), nil}
	}

	// the interval sets of the ANTLR runtime: one term instead of a search
	intrinsics["(*github.com/antlr4-go/antlr/v4.IntervalSet).contains"] = func(m *Machine, fr *Frame, a []Value) Value {
		p := a[0].(*Value)
		if p == nil {
			m.throwRuntime(nilDeref)
		}
		ivs, _ := (*p).(Struct)[0].(Slice)
		if k, ok := a[1].(int64); ok {
			for _, iv := range ivs {
				st := iv.(Struct)
				if st[0].(int64) <= k && k < st[1].(int64) {
					return true
				}
			}
			return false
		}
		t := m.asTerm(a[1], 64)
		var or []*Term
		for _, iv := range ivs {
			st := iv.(Struct)
			lo, hi := m.tc.Const(64, uint64(st[0].(int64))), m.tc.Const(64, uint64(st[1].(int64)))
			or = append(or, m.tc.And(m.tc.Not(m.tc.mk(OSlt, 0, nil, t, lo)), m.tc.mk(OSlt, 0, nil, t, hi)))
		}
		return termBool(m.tc.Or(or...))
	}
	registerND()
	registerRT()
}

func onceCell(m *Machine, p *Value) *Value {
	// struct{ _ noCopy; done atomic.Uint32; m Mutex } (or done first)
	var find func(c *Value) *Value
	find = func(c *Value) *Value {
		switch x := (*c).(type) {
		case int64:
			return c
		case Struct:
			for i := range x {
				if r := find(&x[i]); r != nil {
					return r
				}
			}
		}
		return nil
	}
	r := find(p)
	if r == nil {
		m.unsupported("sync.Once layout")
	}
	return r
}

func replaceAll(m *Machine, fr *Frame, a []Value) Value {
	old, ok1 := a[1].(string)
	nw, ok2 := a[2].(string)
	v := m.normStr(a[0])
	if ok1 && ok2 && len(old) == 1 {
		return m.eachPart(v, func(s string) string { return strings.ReplaceAll(s, old, nw) })
	}
	return m.liftPure([]Value{v, a[1], a[2]}, func(a []Value) Value {
		return strings.ReplaceAll(a[0].(string), a[1].(string), a[2].(string))
	})
}

func termInt(v Value) Value { return v }

func (m *Machine) notBlank(p *SPart, first bool) bool {
	chk := func(s string) bool {
		if s == "" {
			return false
		}
		b := s[len(s)-1]
		if first {
			b = s[0]
		}
		return b > ' ' && b < 0x80
	}
	switch {
	case p.idx != nil:
		ok := true
		m.eachChoice(p, func(_ uint64, s string) bool {
			ok = chk(s)
			return ok
		})
		return ok
	case p.b != nil:
		vs := m.valueSet(p.b)
		if vs == nil {
			return false
		}
		for k := range vs {
			if k <= ' ' || k >= 0x80 {
				return false
			}
		}
		return true
	}
	return chk(p.c)
}

// strContains: exact for one-byte needles, otherwise by lifting.
func (m *Machine) strContains(a, b Value) Value {
	a = m.normStr(a)
	x, ok := a.(*Str)
	n, ok2 := b.(string)
	if ok && ok2 && len(n) == 1 {
		var or []*Term
		for i := range x.parts {
			p := &x.parts[i]
			switch {
			case p.idx != nil:
				tab := make([]uint64, len(p.tab.strs))
				for j, s := range p.tab.strs {
					if strings.Contains(s, n) {
						tab[j] = 1
					}
				}
				or = append(or, m.tc.Look(0, tab, p.idx))
			case p.b != nil:
				or = append(or, m.tc.Eq(p.b, m.tc.Const(8, uint64(n[0]))))
			default:
				or = append(or, m.tc.Bool(strings.Contains(p.c, n)))
			}
		}
		return termBool(m.tc.Or(or...))
	}
	return m.liftPure([]Value{a, b}, func(a []Value) Value { return strings.Contains(a[0].(string), a[1].(string)) })
}

var _ = sort.Strings
var _ = types.Typ

// splitParts splits at a single character that stands only in the concrete
// parts of the text.
func (m *Machine) splitParts(v, sepv Value) (Value, bool) {
	v = m.normStr(v)
	x, ok := v.(*Str)
	sep, ok2 := sepv.(string)
	if !ok || !ok2 || len(sep) != 1 {
		return nil, false
	}
	var out Slice
	var cur []SPart
	end := func() {
		out = append(out, m.normStr(mkStr(cur)))
		cur = nil
	}
	for _, p := range x.parts {
		switch {
		case p.concrete():
			fs := strings.Split(p.c, sep)
			for i, f := range fs {
				if i > 0 {
					end()
				}
				if f != "" {
					cur = append(cur, SPart{c: f})
				}
			}
		case p.idx != nil:
			for _, s := range p.tab.strs {
				if strings.Contains(s, sep) {
					return nil, false
				}
			}
			cur = append(cur, p)
		default:
			return nil, false
		}
	}
	end()
	return out, true
}
