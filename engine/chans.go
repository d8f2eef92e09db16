package main

// Goroutines and channels: a go statement runs its function at once, to its
// end; what it sends waits in the channel.

import "golang.org/x/tools/go/ssa"

func (m *Machine) goCall(f *Frame, cl *Closure, args []Value) {
	if cl == nil {
		m.unsupported("go of a nil function")
	}
	m.call(f, cl, args, -1)
	if m.top != f {
		m.top.isGo = true
	}
}

func (m *Machine) inGo() bool {
	for f := m.top; f != nil; f = f.parent {
		if f.isGo {
			return true
		}
	}
	return false
}

func (m *Machine) canSend(ch *Chan) bool {
	return ch != nil && (ch.closed || len(ch.buf) < ch.cap || m.inGo())
}

func (m *Machine) send(c, v Value) {
	ch, _ := c.(*Chan)
	if ch != nil && ch.closed {
		m.throwPlain("send on closed channel")
	}
	if !m.canSend(ch) {
		m.block()
		return
	}
	old := ch.buf
	ch.buf = append(append([]Value(nil), old...), copyVal(v))
	m.logFn(func() { ch.buf = old })
}

func (m *Machine) receive(c Value) (v Value, ok, ready bool) {
	ch, _ := c.(*Chan)
	switch {
	case ch == nil:
		return nil, false, false
	case len(ch.buf) > 0:
		old := ch.buf
		ch.buf = old[1:]
		m.logFn(func() { ch.buf = old })
		return old[0], true, true
	case ch.closed:
		return zeroValue(ch.elem), false, true
	}
	return nil, false, false
}

func (c *compiler) selectStmt(x *ssa.Select, dst int32) {
	type state struct {
		send     bool
		ch, v    int32
		hasValue bool
	}
	var sts []state
	for _, s := range x.States {
		st := state{send: s.Send != nil, ch: c.op(s.Chan)}
		if st.send {
			st.v = c.op(s.Send)
		}
		sts = append(sts, st)
	}
	blocking := x.Blocking
	zero := zeroValue(x.Type()).(Tuple)
	c.emit(x.Pos(), func(m *Machine, f *Frame) {
		pick := -1
		for i, s := range sts {
			ch, _ := f.get(s.ch).(*Chan)
			ready := ch != nil && (s.send && m.canSend(ch) || !s.send && (len(ch.buf) > 0 || ch.closed))
			if ready && pick >= 0 {
				m.unsupported("select with two ready cases")
			}
			if ready {
				pick = i
			}
		}
		if pick < 0 && blocking {
			m.block()
			return
		}
		out := append(Tuple(nil), zero...)
		out[0] = mkInt(int64(pick))
		out[1] = false
		if pick >= 0 {
			if sts[pick].send {
				m.send(f.get(sts[pick].ch), f.get(sts[pick].v))
			} else {
				v, ok, _ := m.receive(f.get(sts[pick].ch))
				k := 2
				for _, s := range sts[:pick] {
					if !s.send {
						k++
					}
				}
				out[k], out[1] = v, ok
			}
		}
		f.regs[dst] = out
	})
}
