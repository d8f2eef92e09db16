package main

import (
	"fmt"
	"go/types"
)

type Intrinsic struct {
	name string
	f    func(m *Machine, fr *Frame, args []Value) Value
}

// thawed is the slice a rope has become by being written to.
func (m *Machine) thawed(v Value) Value {
	br, ok := v.(*BytesRope)
	if !ok {
		return v
	}
	if br.done {
		return br.cells
	}
	for r := br.from; r != nil; r = r.from {
		if r.done {
			return m.materialise(br)
		}
	}
	return v
}

// materialise gives a rope one cell per byte, shared by everything that refers
// to the rope or to a slice of it.
func (m *Machine) materialise(br *BytesRope) Slice {
	if br.done {
		return br.cells
	}
	var c Slice
	if br.from != nil {
		p := m.materialise(br.from)
		lo, hi := 0, len(p)
		if br.lo != nil {
			lo = int(m.concInt(br.lo))
		}
		if br.hi != nil {
			hi = int(m.concInt(br.hi))
		}
		c = p[lo:hi]
	} else {
		c = m.bytesOf(br.s)
	}
	br.done, br.cells = true, c
	m.logFn(func() { br.done, br.cells = false, nil })
	return c
}

func (m *Machine) lenOf(v Value) Value {
	v = m.thawed(v)
	switch x := v.(type) {
	case string, *Str:
		return m.strLen(m.normStr(x))
	case Slice:
		return mkInt(int64(len(x)))
	case *BytesRope:
		return m.strLen(m.normStr(x.s))
	case *Map:
		if x == nil {
			return mkInt(0)
		}
		m.settle(x)
		return mkInt(int64(x.n))
	case Array:
		return mkInt(int64(len(x)))
	case *Value:
		return mkInt(int64(len((*x).(Array))))
	case *Chan:
		if x == nil {
			return mkInt(0)
		}
		return mkInt(int64(len(x.buf)))
	}
	m.unsupported("len of %T", v)
	return nil
}

// concreteSlice turns a symbolic []byte into one with a cell per byte.
func (m *Machine) concreteSlice(v Value) Slice {
	switch x := m.thawed(v).(type) {
	case Slice:
		return x
	case *BytesRope:
		return m.bytesOf(x.s)
	case string, *Str:
		return m.bytesOf(x)
	case nil:
		return nil
	}
	m.unsupported("slice operand %T", v)
	return nil
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func hasChoice(v Value) bool {
	s, ok := v.(*Str)
	if !ok {
		return false
	}
	for i := range s.parts {
		if s.parts[i].idx != nil {
			return true
		}
	}
	return false
}

func (m *Machine) appendVals(dst, src Value) Value {
	dst, src = m.thawed(dst), m.thawed(src)
	_, dr := dst.(*BytesRope)
	sr := false
	switch x := src.(type) {
	case *BytesRope:
		sr = true
	case *Str:
		sr = hasChoice(m.normStr(x))
	}
	if dr || sr {
		toS := func(v Value) Value {
			switch x := v.(type) {
			case string, *Str:
				return x
			}
			return m.bytesToString(v)
		}
		return &BytesRope{s: m.normStr(concatStr(toS(dst), toS(src)))}
	}
	d := m.concreteSlice(dst)
	s := m.concreteSlice(src)
	if len(s) == 0 {
		return d
	}
	n := len(d)
	if n+len(s) <= cap(d) {
		full := d[:n+len(s)]
		for i, e := range s {
			m.store(&full[n+i], copyVal(e))
		}
		return full
	}
	c := cap(d) * 2
	if c < n+len(s) {
		c = n + len(s)
	}
	if c < 4 {
		c = 4
	}
	out := make(Slice, n+len(s), c)
	copy(out, d)
	for i := 0; i < n; i++ {
		switch d[i].(type) {
		case Struct, Array:
			out[i] = copyVal(d[i])
		}
	}
	for i, e := range s {
		out[n+i] = copyVal(e)
	}
	return out
}

func builtinFn(_ *Machine, name string, ts []types.Type, resT types.Type) func(m *Machine, fr *Frame, args []Value) Value {
	switch name {
	case "len":
		return func(m *Machine, fr *Frame, a []Value) Value { return m.lenOf(a[0]) }
	case "cap":
		return func(m *Machine, fr *Frame, a []Value) Value {
			switch x := a[0].(type) {
			case Slice:
				return mkInt(int64(cap(x)))
			case *BytesRope:
				return m.lenOf(x)
			case *Chan:
				if x == nil {
					return mkInt(0)
				}
				return mkInt(int64(x.cap))
			case Array:
				return mkInt(int64(len(x)))
			case *Value:
				return mkInt(int64(len((*x).(Array))))
			}
			return m.lenOf(a[0])
		}
	case "append":
		var z Value
		if len(ts) > 0 {
			z = zeroValue(ts[0].Underlying().(*types.Slice).Elem())
		}
		agg := false
		switch z.(type) {
		case Struct, Array:
			agg = true
		}
		et := ts[0].Underlying().(*types.Slice).Elem()
		return func(m *Machine, fr *Frame, a []Value) Value {
			if len(a) == 1 {
				return a[0]
			}
			r := m.appendVals(a[0], a[1])
			if s, ok := r.(Slice); ok {
				// spare capacity must hold zero values
				full := s[:cap(s)]
				for i := len(s); i < len(full); i++ {
					if full[i] == nil {
						if agg {
							full[i] = zeroValue(et)
						} else {
							full[i] = z
						}
					} else {
						break
					}
				}
			}
			return r
		}
	case "copy":
		return func(m *Machine, fr *Frame, a []Value) Value {
			dv := a[0]
			if br, ok := dv.(*BytesRope); ok {
				dv = m.materialise(br)
			}
			d, ok := dv.(Slice)
			if !ok {
				m.unsupported("copy into %T", a[0])
			}
			s := m.concreteSlice(a[1])
			n := len(d)
			if len(s) < n {
				n = len(s)
			}
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(s[i])
			}
			for i := 0; i < n; i++ {
				m.storeVal(&d[i], tmp[i])
			}
			return mkInt(int64(n))
		}
	case "delete":
		return func(m *Machine, fr *Frame, a []Value) Value { m.mapDelete(a[0].(*Map), a[1]); return nil }
	case "clear":
		return func(m *Machine, fr *Frame, a []Value) Value {
			switch x := a[0].(type) {
			case *Map:
				if x != nil {
					for _, e := range x.entries {
						if !e.dead {
							m.mapDelete(x, e.key)
						}
					}
				}
			case Slice:
				z := ts[0].Underlying().(*types.Slice).Elem()
				for i := range x {
					m.storeVal(&x[i], zeroValue(z))
				}
			}
			return nil
		}
	case "print", "println":
		return func(m *Machine, fr *Frame, a []Value) Value { return nil }
	case "recover":
		return func(m *Machine, fr *Frame, a []Value) Value {
			p := fr.parent
			if !fr.isDefer || p == nil || !p.panicking {
				return Iface{}
			}
			p = m.writable(p)
			fr.parent = p
			p.panicking = false
			v := p.pv
			if i, ok := v.(Iface); ok {
				return i
			}
			m.unsupported("recover of %T", v)
			return nil
		}
	case "min", "max":
		return func(m *Machine, fr *Frame, a []Value) Value {
			switch a[0].(type) {
			case int64, *Term:
				best := m.concInt(a[0])
				for _, x := range a[1:] {
					k := m.concInt(x)
					if name == "min" && k < best || name == "max" && k > best {
						best = k
					}
				}
				return mkInt(best)
			}
			m.unsupported("%s of %T", name, a[0])
			return nil
		}
	case "ssa:wrapnilchk":
		return func(m *Machine, fr *Frame, a []Value) Value {
			if p, ok := a[0].(*Value); ok && p == nil {
				m.throwRuntime(fmt.Sprintf("value method %v.%v called using nil pointer", a[1], a[2]))
			}
			return a[0]
		}
	case "close":
		return func(m *Machine, fr *Frame, a []Value) Value {
			ch, _ := a[0].(*Chan)
			if ch == nil {
				m.throwPlain("close of nil channel")
			}
			if ch.closed {
				m.throwPlain("close of closed channel")
			}
			ch.closed = true
			m.logFn(func() { ch.closed = false })
			return nil
		}
	case "ssa:deferstack":
		return func(m *Machine, fr *Frame, a []Value) Value { return nil }
	case "String": // unsafe.String(ptr, len): used on *byte into a []byte only
		return func(m *Machine, fr *Frame, a []Value) Value {
			m.unsupported("unsafe.String")
			return nil
		}
	}
	return func(m *Machine, fr *Frame, a []Value) Value {
		m.unsupported("builtin %s", name)
		return nil
	}
}
