package main

// Intrinsics behind the run-time support package rt (fmt, json, lexer atoms).

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

const (
	rkInvalid = iota
	rkBool
	rkInt
	rkUint
	rkFloat
	rkString
	rkPtr
	rkStruct
	rkSlice
	rkArray
	rkMap
	rkFunc
	rkInterface
	rkOther
)

func kindOfType(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return rkBool
		case u.Info()&types.IsUnsigned != 0:
			return rkUint
		case u.Info()&types.IsInteger != 0:
			return rkInt
		case u.Info()&types.IsFloat != 0:
			return rkFloat
		case u.Info()&types.IsString != 0:
			return rkString
		}
	case *types.Pointer:
		return rkPtr
	case *types.Struct:
		return rkStruct
	case *types.Slice:
		return rkSlice
	case *types.Array:
		return rkArray
	case *types.Map:
		return rkMap
	case *types.Signature:
		return rkFunc
	case *types.Interface:
		return rkInterface
	}
	return rkOther
}

// asIface wraps a component of static type t as an interface value.
func (m *Machine) asIface(t types.Type, v Value) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return Iface{m.w.rtype(t), copyVal(v)}
}

func registerRT() {
	reg := func(n string, f intrF) { intrinsics[rtPath+n] = f }
	reg("kindOf", func(m *Machine, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return mkInt(rkInvalid)
		}
		return mkInt(kindOfType(i.t.t))
	})
	reg("typeName", func(m *Machine, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return "<nil>"
		}
		return i.t.name
	})
	reg("isNil", func(m *Machine, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		switch x := i.v.(type) {
		case *Value:
			return x == nil
		case Slice:
			return x == nil
		case *Map:
			return x == nil
		case *Closure:
			return x == nil
		case nil:
			return true
		}
		return false
	})
	// basic views of values of named basic types
	reg("asString", func(m *Machine, fr *Frame, a []Value) Value { return a[0].(Iface).v })
	reg("asInt", func(m *Machine, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		if t, ok := i.v.(*Term); ok {
			if from, ok := basicInt(i.t.t); ok && t.w != 64 {
				return m.convTerm(t, from, intInfo{64, true})
			}
		}
		return i.v
	})
	reg("asBool", func(m *Machine, fr *Frame, a []Value) Value { return a[0].(Iface).v })
	reg("asFloat", func(m *Machine, fr *Frame, a []Value) Value { return a[0].(Iface).v })
	reg("elem", func(m *Machine, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		p := i.v.(*Value)
		return m.asIface(i.t.t.Underlying().(*types.Pointer).Elem(), *p)
	})
	reg("isBytes", func(m *Machine, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		return i.t != nil && isByteSlice(i.t.t)
	})
	reg("bytesString", func(m *Machine, fr *Frame, a []Value) Value { return m.bytesToString(a[0].(Iface).v) })
	reg("elems", func(m *Machine, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		var et types.Type
		var vs []Value
		switch u := i.t.t.Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
			vs = m.concreteSlice(i.v)
		case *types.Array:
			et = u.Elem()
			vs = i.v.(Array)
		}
		out := make(Slice, len(vs))
		for k, v := range vs {
			out[k] = m.asIface(et, v)
		}
		return out
	})
	reg("mapKeys", func(m *Machine, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		kt := i.t.t.Underlying().(*types.Map).Key()
		out := Slice{}
		if mp := i.v.(*Map); mp != nil {
			m.settle(mp)
			for _, e := range mp.entries {
				if !e.dead {
					out = append(out, m.asIface(kt, e.key))
				}
			}
		}
		return out
	})
	reg("mapVals", func(m *Machine, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		vt := i.t.t.Underlying().(*types.Map).Elem()
		out := Slice{}
		if mp := i.v.(*Map); mp != nil {
			m.settle(mp)
			for _, e := range mp.entries {
				if !e.dead {
					out = append(out, m.asIface(vt, e.val))
				}
			}
		}
		return out
	})
	reg("numField", func(m *Machine, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		return mkInt(int64(i.t.t.Underlying().(*types.Struct).NumFields()))
	})
	reg("fieldName", func(m *Machine, fr *Frame, a []Value) Value {
		return a[0].(Iface).t.t.Underlying().(*types.Struct).Field(int(a[1].(int64))).Name()
	})
	reg("fieldExported", func(m *Machine, fr *Frame, a []Value) Value {
		return a[0].(Iface).t.t.Underlying().(*types.Struct).Field(int(a[1].(int64))).Exported()
	})
	reg("fieldEmbedded", func(m *Machine, fr *Frame, a []Value) Value {
		return a[0].(Iface).t.t.Underlying().(*types.Struct).Field(int(a[1].(int64))).Embedded()
	})
	reg("fieldIface", func(m *Machine, fr *Frame, a []Value) Value {
		return types.IsInterface(a[0].(Iface).t.t.Underlying().(*types.Struct).Field(int(a[1].(int64))).Type())
	})
	reg("fieldTag", func(m *Machine, fr *Frame, a []Value) Value {
		return reflect.StructTag(a[0].(Iface).t.t.Underlying().(*types.Struct).Tag(int(a[1].(int64)))).Get(a[2].(string))
	})
	reg("field", func(m *Machine, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		k := int(a[1].(int64))
		return m.asIface(i.t.t.Underlying().(*types.Struct).Field(k).Type(), i.v.(Struct)[k])
	})
	// fieldOf(p, "name"): the field of the struct p points to, as any
	reg("fieldOf", func(m *Machine, fr *Frame, a []Value) Value {
		c, t := m.fieldCell(a[0].(Iface), a[1].(string))
		return m.asIface(t, *c)
	})
	reg("setField", func(m *Machine, fr *Frame, a []Value) Value {
		c, t := m.fieldCell(a[0].(Iface), a[1].(string))
		v := a[2]
		if _, ok := t.Underlying().(*types.Interface); !ok {
			v = v.(Iface).v
		}
		m.storeVal(c, v)
		return nil
	})
	reg("poolPop", func(m *Machine, fr *Frame, a []Value) Value {
		p := a[0].(Iface).v.(*Value)
		old := m.pools[p]
		if len(old) == 0 {
			return Tuple{Iface{}, false}
		}
		m.pools[p] = old[:len(old)-1]
		m.logFn(func() { m.pools[p] = old })
		return Tuple{old[len(old)-1], true}
	})
	reg("deepEqual", func(m *Machine, fr *Frame, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t != y.t {
			return false
		}
		if x.t == nil {
			return true
		}
		return termBool(m.deepEqual(x.t.t, x.v, y.v, 0))
	})
	reg("swap", func(m *Machine, fr *Frame, a []Value) Value {
		s := a[0].(Iface).v.(Slice)
		i, j := m.concInt(a[1]), m.concInt(a[2])
		x, y := copyVal(s[i]), copyVal(s[j])
		m.store(&s[i], y)
		m.store(&s[j], x)
		return nil
	})
	// asTarget(err, target): errors.As for one error
	reg("asTarget", func(m *Machine, fr *Frame, a []Value) Value {
		e := a[0].(Iface)
		t := a[1].(Iface)
		p := t.v.(*Value)
		et := t.t.t.Underlying().(*types.Pointer).Elem()
		if it, ok := et.Underlying().(*types.Interface); ok {
			if m.w.implements(e.t, it) {
				m.storeVal(p, e)
				return true
			}
			return false
		}
		if m.w.rtype(et) == e.t {
			m.storeVal(p, e.v)
			return true
		}
		return false
	})
	reg("comparable_", func(m *Machine, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		return i.t == nil || types.Comparable(i.t.t)
	})
	// engine-side caches that survive backtracking
	reg("cacheInt", func(m *Machine, fr *Frame, a []Value) Value {
		if v, ok := m.lexCache[a[0].(string)]; ok {
			return Tuple{mkInt(v), true}
		}
		return Tuple{mkInt(0), false}
	})
	reg("setCacheInt", func(m *Machine, fr *Frame, a []Value) Value {
		m.lexCache[a[0].(string)] = a[1].(int64)
		return nil
	})
	reg("isAtom", func(m *Machine, fr *Frame, a []Value) Value {
		k, ok := a[0].(int64)
		return ok && isAtomRune(k) && int(k-atomBase) < len(m.atoms)
	})
	reg("atomChoices", func(m *Machine, fr *Frame, a []Value) Value {
		p := m.atoms[a[0].(int64)-atomBase]
		out := Slice{}
		m.eachChoice(&p, func(_ uint64, s string) bool { out = append(out, s); return true })
		return out
	})
	// atomMap(rune, keys, vals): the int table value of the atom
	reg("atomMap", func(m *Machine, fr *Frame, a []Value) Value {
		p := m.atoms[a[0].(int64)-atomBase]
		keys := goStrs(a[1])
		vals := a[2].(Slice)
		tab := make([]uint64, len(p.tab.strs))
		for i, s := range p.tab.strs {
			for j, k := range keys {
				if k == s {
					tab[i] = uint64(vals[j].(int64))
				}
			}
		}
		t := m.tc.Look(64, tab, p.idx)
		if k, ok := m.knownK(t); ok {
			return mkInt(int64(k))
		}
		return t
	})
	// atomText forks on the text of the atom
	reg("atomText", func(m *Machine, fr *Frame, a []Value) Value {
		return m.concStr(&Str{parts: []SPart{m.atoms[a[0].(int64)-atomBase]}})
	})
	reg("atomKnown", func(m *Machine, fr *Frame, a []Value) Value {
		p := m.atoms[a[0].(int64)-atomBase]
		if c := m.partConst(&p); c != nil {
			return Tuple{*c, true}
		}
		return Tuple{"", false}
	})
	reg("write", func(m *Machine, fr *Frame, a []Value) Value {
		n := a[0].(string)
		old := m.side[n]
		if old == nil {
			old = ""
		}
		m.side[n] = concatStr(old, a[1])
		m.logFn(func() { m.side[n] = old })
		return nil
	})
	// pure functions run natively on every possible text
	reg("jsonEscape", func(m *Machine, fr *Frame, a []Value) Value {
		return m.eachPart(a[0], jsonEscape)
	})
	reg("jsonEscapePlain", func(m *Machine, fr *Frame, a []Value) Value {
		return m.eachPart(a[0], jsonEscapePlain)
	})
	reg("jsonHTML", func(m *Machine, fr *Frame, a []Value) Value {
		return m.eachPart(a[0], func(s string) string {
			return strings.NewReplacer("<", "\\u003c", ">", "\\u003e", "&", "\\u0026", "\u2028", "\\u2028", "\u2029", "\\u2029").Replace(s)
		})
	})
	reg("isConc", func(m *Machine, fr *Frame, a []Value) Value {
		_, ok := m.normStr(a[0]).(string)
		return ok
	})
	reg("concStr", func(m *Machine, fr *Frame, a []Value) Value { return m.concStr(a[0]) })
	// ropePieces: the parts of a text, each one concrete or one choice
	reg("ropePieces", func(m *Machine, fr *Frame, a []Value) Value {
		var out Slice
		for _, p := range strParts(m.normStr(a[0])) {
			out = append(out, mkStr([]SPart{p}))
		}
		return out
	})
	// jsonInside: whether the text, read inside a JSON string, leaves the reader there
	reg("jsonInside", func(m *Machine, fr *Frame, a []Value) Value {
		all := true
		for _, p := range strParts(m.normStr(a[0])) {
			switch {
			case p.idx != nil:
				m.eachChoice(&p, func(k uint64, s string) bool {
					all = all && jsonInside(s)
					return all
				})
			case p.b != nil:
				all = false
			default:
				all = all && jsonInside(p.c)
			}
		}
		return all
	})
	reg("fieldAddr", func(m *Machine, fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		st := i.t.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		k := int(a[1].(int64))
		return Iface{m.w.rtype(types.NewPointer(st.Field(k).Type())), &(*i.v.(*Value)).(Struct)[k]}
	})
	reg("nativeSQLText", func(m *Machine, fr *Frame, a []Value) Value {
		return m.liftPure(a, func(a []Value) Value { return nativeSQLText(a[0].(string)) })
	})
	reg("nativeSQL", func(m *Machine, fr *Frame, a []Value) Value {
		return m.liftPure(a, func(a []Value) Value { return mkInt(nativeSQL(a[0].(string))) })
	})
	reg("quote", func(m *Machine, fr *Frame, a []Value) Value {
		return m.liftPure(a, func(a []Value) Value { return strconv.Quote(a[0].(string)) })
	})
	reg("fmtFloat", func(m *Machine, fr *Frame, a []Value) Value { return fmt.Sprint(a[0].(float64)) })
	// fmtNative(spec, v): the text of a value of a basic type by the real fmt
	reg("fmtNative", func(m *Machine, fr *Frame, a []Value) Value {
		i := a[1].(Iface)
		spec, ok := m.normStr(a[0]).(string)
		if !ok || i.t == nil {
			return Tuple{"", false}
		}
		b, ok := i.t.t.Underlying().(*types.Basic)
		if !ok {
			return Tuple{"", false}
		}
		var g any
		switch v := i.v.(type) {
		case int64:
			switch b.Kind() {
			case types.Int:
				g = int(v)
			case types.Int8:
				g = int8(v)
			case types.Int16:
				g = int16(v)
			case types.Int32:
				g = int32(v)
			case types.Int64:
				g = v
			case types.Uint:
				g = uint(v)
			case types.Uint8:
				g = uint8(v)
			case types.Uint16:
				g = uint16(v)
			case types.Uint32:
				g = uint32(v)
			case types.Uint64:
				g = uint64(v)
			case types.Uintptr:
				g = uintptr(v)
			}
		case float64:
			if g = v; b.Kind() == types.Float32 {
				g = float32(v)
			}
		case bool:
			g = v
		case string, *Str:
			s := m.liftPure([]Value{a[0], v}, func(a []Value) Value {
				return fmt.Sprintf(a[0].(string), a[1].(string))
			})
			if r, ok := s.(string); ok && strings.Contains(r, "%!") {
				return Tuple{"", false}
			}
			return Tuple{s, true}
		}
		if g == nil {
			return Tuple{"", false}
		}
		r := fmt.Sprintf(spec, g)
		if strings.Contains(r, "%!") {
			return Tuple{"", false}
		}
		return Tuple{r, true}
	})
	reg("unsupported", func(m *Machine, fr *Frame, a []Value) Value {
		m.unsupported("%s", m.describe(m.normStr(a[0])))
		return nil
	})
	reg("ptrString", func(m *Machine, fr *Frame, a []Value) Value { return "0xc000000000" })
	reg("mergeDFA", func(m *Machine, fr *Frame, a []Value) Value { return nil })
}

func (m *Machine) fieldCell(i Iface, name string) (*Value, types.Type) {
	p, ok := i.v.(*Value)
	if !ok || p == nil {
		m.throwRuntime(nilDeref)
	}
	st := i.t.t.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for k := 0; k < st.NumFields(); k++ {
		if st.Field(k).Name() == name {
			return &(*p).(Struct)[k], st.Field(k).Type()
		}
	}
	m.unsupported("no field %s in %s", name, i.t.name)
	return nil, nil
}

// deepEqual is reflect.DeepEqual of two values of one type.
func (m *Machine) deepEqual(t types.Type, x, y Value, depth int) *Term {
	if depth > 50 {
		m.unsupported("deep comparison of deep values")
	}
	all := func(f func(i int) *Term, n int) *Term {
		r := m.tc.True
		for i := 0; i < n; i++ {
			if r = m.tc.And(r, f(i)); r == m.tc.False {
				break
			}
		}
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if isByteSlice(t) {
			if nx, ny := isNilSlice(x), isNilSlice(y); nx || ny {
				return m.tc.Bool(nx && ny)
			}
			return m.equal(m.bytesToString(x), m.bytesToString(y))
		}
		a, b := x.(Slice), y.(Slice)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return m.tc.False
		}
		return all(func(i int) *Term { return m.deepEqual(u.Elem(), a[i], b[i], depth+1) }, len(a))
	case *types.Array:
		a, b := x.(Array), y.(Array)
		return all(func(i int) *Term { return m.deepEqual(u.Elem(), a[i], b[i], depth+1) }, len(a))
	case *types.Struct:
		a, b := x.(Struct), y.(Struct)
		return all(func(i int) *Term { return m.deepEqual(u.Field(i).Type(), a[i], b[i], depth+1) }, len(a))
	case *types.Pointer:
		a, b := x.(*Value), y.(*Value)
		if a == b {
			return m.tc.True
		}
		if a == nil || b == nil {
			return m.tc.False
		}
		return m.deepEqual(u.Elem(), *a, *b, depth+1)
	case *types.Interface:
		a, b := x.(Iface), y.(Iface)
		if a.t != b.t {
			return m.tc.False
		}
		if a.t == nil {
			return m.tc.True
		}
		return m.deepEqual(a.t.t, a.v, b.v, depth+1)
	case *types.Map:
		a, b := x.(*Map), y.(*Map)
		if (a == nil) != (b == nil) {
			return m.tc.False
		}
		if a == b {
			return m.tc.True
		}
		m.settle(a)
		m.settle(b)
		if a.n != b.n {
			return m.tc.False
		}
		r := m.tc.True
		for _, e := range a.entries {
			if e.dead {
				continue
			}
			t := m.mapLookup(b, e.key, u.Elem(), true, false).(Tuple)
			if r = m.tc.And(r, m.boolTerm(t[1])); r == m.tc.False {
				return r
			}
			r = m.tc.And(r, m.deepEqual(u.Elem(), e.val, t[0], depth+1))
		}
		return r
	case *types.Signature:
		a, b := x.(*Closure), y.(*Closure)
		return m.tc.Bool(a == nil && b == nil)
	}
	return m.equal(x, y)
}

func isNilSlice(v Value) bool {
	s, ok := v.(Slice)
	return ok && s == nil
}

func jsonInside(s string) bool {
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '"':
			return false
		case '\\':
			i++
			if i == len(s) {
				return false
			}
		}
	}
	return true
}
