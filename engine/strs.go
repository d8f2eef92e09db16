package main

// Operations on symbolic strings, slices of bytes and runes, maps and
// iteration.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"
)

func sortU64(a []uint64) { sort.Slice(a, func(i, j int) bool { return a[i] < a[j] }) }

// normStr resolves the parts that are determined on this path.
func (m *Machine) normStr(v Value) Value {
	s, ok := v.(*Str)
	if !ok {
		return v
	}
	changed := false
	for i := range s.parts {
		p := &s.parts[i]
		if p.idx != nil {
			if m.partConst(p) != nil {
				changed = true
				break
			}
		} else if p.b != nil {
			if _, ok := m.knownK(p.b); ok {
				changed = true
				break
			}
		}
	}
	if !changed {
		return v
	}
	out := make([]SPart, 0, len(s.parts))
	for i := range s.parts {
		p := s.parts[i]
		if p.idx != nil {
			if c := m.partConst(&p); c != nil {
				p = SPart{c: *c}
			}
		} else if p.b != nil {
			if k, ok := m.knownK(p.b); ok {
				p = SPart{c: string([]byte{byte(k)})}
			}
		}
		out = append(out, p)
	}
	return mkStr(out)
}

// partConst: the only string the choice can still be, or nil.
func (m *Machine) partConst(p *SPart) *string {
	if k, ok := m.knownK(p.idx); ok {
		if k < uint64(len(p.tab.strs)) {
			return &p.tab.strs[k]
		}
		e := ""
		return &e
	}
	var res *string
	ok := true
	m.eachChoice(p, func(k uint64, s string) bool {
		if res == nil {
			c := s
			res = &c
			return true
		}
		if *res != s {
			ok = false
		}
		return ok
	})
	if ok {
		return res
	}
	return nil
}

// eachChoice enumerates the strings a choice part can still be.
func (m *Machine) eachChoice(p *SPart, f func(k uint64, s string) bool) {
	if p.idx.op == OTab {
		seen := [4]uint64{}
		stop := false
		m.doms[p.idx.v.seq].each(func(i int) bool {
			k := p.idx.tab[i]
			if k < 256 {
				if seen[k>>6]&(1<<(k&63)) != 0 {
					return true
				}
				seen[k>>6] |= 1 << (k & 63)
			}
			if k < uint64(len(p.tab.strs)) {
				if !f(k, p.tab.strs[k]) {
					stop = true
					return false
				}
			}
			return true
		})
		_ = stop
		return
	}
	vs := m.valueSet(p.idx)
	if vs == nil {
		for k, s := range p.tab.strs {
			if !f(uint64(k), s) {
				return
			}
		}
		return
	}
	ks := make([]uint64, 0, len(vs))
	for k := range vs {
		ks = append(ks, k)
	}
	sortU64(ks)
	for _, k := range ks {
		if k < uint64(len(p.tab.strs)) {
			if !f(k, p.tab.strs[k]) {
				return
			}
		}
	}
}

// concPart forks over the strings of a choice part.
func (m *Machine) concPart(p *SPart) string {
	if c := m.partConst(p); c != nil {
		return *c
	}
	groups := map[string][]*Term{}
	var order []string
	m.eachChoice(p, func(k uint64, s string) bool {
		if _, ok := groups[s]; !ok {
			order = append(order, s)
		}
		groups[s] = append(groups[s], m.tc.Eq(p.idx, m.tc.Const(p.idx.w, k)))
		return true
	})
	conds := make([]*Term, len(order))
	for i, s := range order {
		conds[i] = m.tc.Or(groups[s]...)
	}
	panic(&forkReq{conds})
}

// forkBy splits a choice part into classes given by key.
func (m *Machine) forkBy(p *SPart, key func(s string) int) int {
	groups := map[int][]*Term{}
	var order []int
	m.eachChoice(p, func(k uint64, s string) bool {
		c := key(s)
		if _, ok := groups[c]; !ok {
			order = append(order, c)
		}
		groups[c] = append(groups[c], m.tc.Eq(p.idx, m.tc.Const(p.idx.w, k)))
		return true
	})
	if len(order) == 1 {
		return order[0]
	}
	conds := make([]*Term, len(order))
	for i, c := range order {
		conds[i] = m.tc.Or(groups[c]...)
	}
	panic(&forkReq{conds})
}

func (m *Machine) concStr(v Value) string {
	v = m.normStr(v)
	if s, ok := v.(string); ok {
		return s
	}
	s := v.(*Str)
	for i := range s.parts {
		p := &s.parts[i]
		if p.idx != nil {
			m.concPart(p)
		} else if p.b != nil {
			m.concK(p.b)
		}
	}
	panic("concStr")
}

// lift applies a total pure function to a single-choice string.
func (m *Machine) lift(v Value, f func(string) string) (Value, bool) {
	v = m.normStr(v)
	switch s := v.(type) {
	case string:
		return f(s), true
	case *Str:
		if len(s.parts) == 1 && s.parts[0].idx != nil {
			p := s.parts[0]
			tab := make([]string, len(p.tab.strs))
			for i, x := range p.tab.strs {
				tab[i] = f(x)
			}
			return mkStr([]SPart{{idx: p.idx, tab: mkStrTab(tab)}}), true
		}
	}
	return nil, false
}

// single merges a rope depending on one variable into one choice part.
func (m *Machine) single(v Value) (SPart, bool) {
	v = m.normStr(v)
	s, ok := v.(*Str)
	if !ok {
		return SPart{}, false
	}
	if len(s.parts) == 1 && s.parts[0].idx != nil {
		return s.parts[0], true
	}
	var vr *Var
	for i := range s.parts {
		p := &s.parts[i]
		t := p.idx
		if t == nil {
			t = p.b
		}
		if t == nil {
			continue
		}
		if t.op != OTab || (vr != nil && t.v != vr) {
			return SPart{}, false
		}
		vr = t.v
	}
	if vr == nil {
		return SPart{}, false
	}
	tab := make([]string, vr.size)
	for i := range tab {
		var sb strings.Builder
		for j := range s.parts {
			p := &s.parts[j]
			switch {
			case p.idx != nil:
				if k := p.idx.tab[i]; k < uint64(len(p.tab.strs)) {
					sb.WriteString(p.tab.strs[k])
				}
			case p.b != nil:
				sb.WriteByte(byte(p.b.tab[i]))
			default:
				sb.WriteString(p.c)
			}
		}
		tab[i] = sb.String()
	}
	return SPart{idx: vr.id, tab: mkStrTab(tab)}, true
}

func (m *Machine) partLen(p *SPart) Value {
	switch {
	case p.idx != nil:
		n := -1
		same := true
		m.eachChoice(p, func(_ uint64, s string) bool {
			if n < 0 {
				n = len(s)
			} else if n != len(s) {
				same = false
			}
			return same
		})
		if same {
			return mkInt(int64(n))
		}
		return termValue(m.tc.Look(64, p.tab.lens, p.idx))
	case p.b != nil:
		return mkInt(1)
	}
	return mkInt(int64(len(p.c)))
}

func (m *Machine) strLen(v Value) Value {
	switch s := v.(type) {
	case string:
		return mkInt(int64(len(s)))
	case *Str:
		n := int64(0)
		var t *Term
		for i := range s.parts {
			l := m.partLen(&s.parts[i])
			if k, ok := l.(int64); ok {
				n += k
			} else if t == nil {
				t = l.(*Term)
			} else {
				t = m.tc.mk(OAdd, 64, nil, t, l.(*Term))
			}
		}
		if t == nil {
			return mkInt(n)
		}
		if n != 0 {
			t = m.tc.mk(OAdd, 64, nil, t, m.tc.Const(64, uint64(n)))
		}
		return termValue(t)
	}
	panic("strLen")
}

// cells expands a string into one element per byte (int64 or 8-bit *Term),
// forking on the lengths of choice parts.
func (m *Machine) cells(v Value) []Value {
	switch s := v.(type) {
	case string:
		out := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = mkInt(int64(s[i]))
		}
		return out
	case *Str:
		var out []Value
		for i := range s.parts {
			p := &s.parts[i]
			switch {
			case p.idx != nil:
				n := m.forkBy(p, func(s string) int { return len(s) })
				for j := 0; j < n; j++ {
					out = append(out, m.choiceByte(p, j))
				}
			case p.b != nil:
				out = append(out, m.byteVal(p.b))
			default:
				for j := 0; j < len(p.c); j++ {
					out = append(out, mkInt(int64(p.c[j])))
				}
			}
		}
		return out
	}
	panic("cells")
}

func (m *Machine) byteVal(t *Term) Value {
	if k, ok := m.knownK(t); ok {
		return mkInt(int64(k))
	}
	return t
}

func (m *Machine) choiceByte(p *SPart, j int) Value {
	tab := make([]uint64, len(p.tab.strs))
	for i, s := range p.tab.strs {
		if j < len(s) {
			tab[i] = uint64(s[j])
		}
	}
	return m.byteVal(m.tc.Look(8, tab, p.idx))
}

func (m *Machine) cellsToStr(cs []Value) Value {
	parts := make([]SPart, 0, len(cs))
	for _, c := range cs {
		switch x := c.(type) {
		case int64:
			parts = append(parts, SPart{c: string([]byte{byte(x)})})
		case *Term:
			t := x
			if t.w != 8 {
				t = m.tc.mk(OTrunc, 8, nil, t)
			}
			if t.op == OConst {
				parts = append(parts, SPart{c: string([]byte{byte(t.k)})})
			} else {
				parts = append(parts, SPart{b: t})
			}
		default:
			m.unsupported("byte of type %T", c)
		}
	}
	return mkStr(parts)
}

func outOfRange(i int64, n int) string {
	if i < 0 {
		return fmt.Sprintf("index out of range [%d]", i)
	}
	return fmt.Sprintf("index out of range [%d] with length %d", i, n)
}

func badSlice(l, h int64, n int, what string) string {
	if h < 0 {
		return fmt.Sprintf("slice bounds out of range [:%d]", h)
	}
	if h > int64(n) {
		return fmt.Sprintf("slice bounds out of range [:%d] with %s %d", h, what, n)
	}
	if l < 0 {
		return fmt.Sprintf("slice bounds out of range [%d:]", l)
	}
	return fmt.Sprintf("slice bounds out of range [%d:%d]", l, h)
}

func (m *Machine) strIndex(v, iv Value) Value {
	if s, ok := v.(string); ok {
		if i, ok := iv.(int64); ok {
			if uint64(i) >= uint64(len(s)) {
				m.throwRuntime(outOfRange(i, len(s)))
			}
			return mkInt(int64(s[i]))
		}
		t := iv.(*Term)
		if !m.decide(m.below(t, len(s))) {
			m.throwRuntime(outOfRange(m.concInt(t), len(s)))
		}
		tab := make([]uint64, len(s))
		for i := range tab {
			tab[i] = uint64(s[i])
		}
		return termValue(m.tc.Look(8, tab, t))
	}
	v = m.normStr(v)
	if s, ok := v.(string); ok {
		return m.strIndex(s, iv)
	}
	if t, ok := iv.(*Term); ok && t.op == OTab {
		if p, ok := m.single(v); ok && p.idx != nil && p.idx.op == OTab && p.idx.v == t.v {
			fits := true
			r := m.liftPure([]Value{v, iv}, func(a []Value) Value {
				x, ok1 := a[0].(string)
				k, ok2 := a[1].(int64)
				if !ok1 || !ok2 || uint64(k) >= uint64(len(x)) {
					fits = false
					return mkInt(0)
				}
				return mkInt(int64(x[k]))
			})
			if fits {
				if t, ok := r.(*Term); ok && t.w != 8 {
					r = m.tc.mk(OTrunc, 8, nil, t)
				}
				return r
			}
		}
	}
	i := m.concInt(iv)
	if i < 0 {
		m.throwRuntime("index out of range")
	}
	s := v.(*Str)
	pos := int64(0)
	for j := range s.parts {
		p := &s.parts[j]
		l, ok := m.partLen(p).(int64)
		if !ok {
			// only the length class matters
			n := m.forkBy(p, func(s string) int {
				if int64(len(s)) > i-pos {
					return -1
				}
				return len(s)
			})
			if n < 0 {
				return m.choiceByte(p, int(i-pos))
			}
			l = int64(n)
		}
		if i < pos+l {
			switch {
			case p.idx != nil:
				return m.choiceByte(p, int(i-pos))
			case p.b != nil:
				return m.byteVal(p.b)
			default:
				return mkInt(int64(p.c[i-pos]))
			}
		}
		pos += l
	}
	m.throwRuntime("index out of range")
	return nil
}

func (m *Machine) strSlice(v, lv, hv Value) Value {
	v = m.normStr(v)
	if s, ok := v.(string); ok {
		l, h := int64(0), int64(len(s))
		if lv != nil {
			l = m.concInt(lv)
		}
		if hv != nil {
			h = m.concInt(hv)
		}
		if l < 0 || h < l || h > int64(len(s)) {
			m.throwRuntime(badSlice(l, h, len(s), "length"))
		}
		return s[l:h]
	}
	s := v.(*Str)
	// s[k:] and s[:len-k] on a single choice: map the table
	l := int64(0)
	if lv != nil {
		l = m.concInt(lv)
	}
	if l < 0 {
		m.throwRuntime("slice bounds out of range")
	}
	if hv == nil {
		return m.dropPrefix(s, l)
	}
	if ht, ok := hv.(*Term); ok {
		// s[:len(s)-k]?
		if n, ok := m.strLen(s).(*Term); ok {
			d := m.tc.mk(OSub, 64, nil, n, ht)
			if k, ok := m.knownK(d); ok {
				if int64(k) < 0 {
					m.throwRuntime("slice bounds out of range")
				}
				return m.dropPrefix(m.dropSuffix(s, int64(k)), l)
			}
		}
	}
	h := m.concInt(hv)
	if h < l {
		m.throwRuntime("slice bounds out of range")
	}
	return m.takePrefix(m.dropPrefix(s, l), h-l)
}

func (m *Machine) dropPrefix(v Value, n int64) Value {
	if n == 0 {
		return v
	}
	parts := strParts(v)
	for len(parts) > 0 && n > 0 {
		p := parts[0]
		l, ok := m.partLen(&p).(int64)
		if !ok {
			c := m.forkBy(&p, func(s string) int {
				if int64(len(s)) > n {
					return -1
				}
				return len(s)
			})
			if c >= 0 {
				l = int64(c)
			} else {
				l = n + 1
			}
		}
		if l <= n {
			n -= l
			parts = parts[1:]
			continue
		}
		switch {
		case p.idx != nil:
			tab := make([]string, len(p.tab.strs))
			for i, s := range p.tab.strs {
				if int64(len(s)) >= n {
					tab[i] = s[n:]
				}
			}
			p = SPart{idx: p.idx, tab: mkStrTab(tab)}
		default:
			p = SPart{c: p.c[n:]}
		}
		n = 0
		np := append([]SPart{p}, parts[1:]...)
		return mkStr(np)
	}
	if n > 0 {
		m.throwRuntime("slice bounds out of range")
	}
	return mkStr(parts)
}

func (m *Machine) dropSuffix(v Value, n int64) Value {
	if n == 0 {
		return v
	}
	parts := append([]SPart(nil), strParts(v)...)
	for len(parts) > 0 && n > 0 {
		k := len(parts) - 1
		p := parts[k]
		l, ok := m.partLen(&p).(int64)
		if !ok {
			c := m.forkBy(&p, func(s string) int {
				if int64(len(s)) > n {
					return -1
				}
				return len(s)
			})
			if c >= 0 {
				l = int64(c)
			} else {
				l = n + 1
			}
		}
		if l <= n {
			n -= l
			parts = parts[:k]
			continue
		}
		switch {
		case p.idx != nil:
			tab := make([]string, len(p.tab.strs))
			for i, s := range p.tab.strs {
				if int64(len(s)) >= n {
					tab[i] = s[:int64(len(s))-n]
				}
			}
			p = SPart{idx: p.idx, tab: mkStrTab(tab)}
		default:
			p = SPart{c: p.c[:int64(len(p.c))-n]}
		}
		parts[k] = p
		n = 0
	}
	if n > 0 {
		m.throwRuntime("slice bounds out of range")
	}
	return mkStr(parts)
}

func (m *Machine) takePrefix(v Value, n int64) Value {
	parts := strParts(v)
	var out []SPart
	for len(parts) > 0 && n > 0 {
		p := parts[0]
		l, ok := m.partLen(&p).(int64)
		if !ok {
			c := m.forkBy(&p, func(s string) int {
				if int64(len(s)) > n {
					return -1
				}
				return len(s)
			})
			if c >= 0 {
				l = int64(c)
			} else {
				l = n + 1
			}
		}
		if l <= n {
			out = append(out, p)
			n -= l
			parts = parts[1:]
			continue
		}
		switch {
		case p.idx != nil:
			tab := make([]string, len(p.tab.strs))
			for i, s := range p.tab.strs {
				if int64(len(s)) >= n {
					tab[i] = s[:n]
				}
			}
			out = append(out, SPart{idx: p.idx, tab: mkStrTab(tab)})
		default:
			out = append(out, SPart{c: p.c[:n]})
		}
		n = 0
	}
	if n > 0 {
		m.throwRuntime("slice bounds out of range")
	}
	return mkStr(out)
}

// ---- equality ----

func (m *Machine) partEqConst(p *SPart, s string) *Term {
	ks := []*Term{}
	tab := make([]uint64, len(p.tab.strs))
	any := false
	for i, x := range p.tab.strs {
		if x == s {
			tab[i] = 1
			any = true
		}
	}
	_ = ks
	if !any {
		return m.tc.False
	}
	return m.tc.Look(0, tab, p.idx)
}

func (m *Machine) strEq(a, b Value) *Term {
	if x, ok := a.(*Str); ok {
		if y, ok := b.(*Str); ok && x == y {
			return m.tc.True
		}
	}
	a, b = m.normStr(a), m.normStr(b)
	as, ok1 := a.(string)
	bs, ok2 := b.(string)
	if ok1 && ok2 {
		return m.tc.Bool(as == bs)
	}
	if pa, ok := m.single(a); ok {
		if ok2 {
			return m.partEqConst(&pa, bs)
		}
		if pb, ok := m.single(b); ok {
			ia := m.tc.Look(32, pa.tab.ids, pa.idx)
			ib := m.tc.Look(32, pb.tab.ids, pb.idx)
			return m.tc.Eq(ia, ib)
		}
	} else if ok1 {
		if pb, ok := m.single(b); ok {
			return m.partEqConst(&pb, as)
		}
	}
	return m.ropeEq(append([]SPart(nil), strParts(a)...), append([]SPart(nil), strParts(b)...))
}

// ropeEq compares two ropes part by part. It is exact: when parts cannot be
// aligned it forks on a choice part.
func (m *Machine) ropeEq(a, b []SPart) *Term {
	var conj []*Term
	for {
		// strip what is aligned at the front
		if len(a) == 0 && len(b) == 0 {
			return m.tc.And(conj...)
		}
		if len(a) == 0 || len(b) == 0 {
			rest := a
			if len(a) == 0 {
				rest = b
			}
			for i := range rest {
				p := &rest[i]
				if p.idx == nil {
					return m.tc.False
				}
				conj = append(conj, m.partEqConst(p, ""))
			}
			return m.tc.And(conj...)
		}
		pa, pb := a[0], b[0]
		switch {
		case pa.concrete() && pb.concrete():
			n := len(pa.c)
			if len(pb.c) < n {
				n = len(pb.c)
			}
			if pa.c[:n] != pb.c[:n] {
				return m.tc.False
			}
			a, b = advance(a, n), advance(b, n)
			continue
		case pa.b != nil && pb.b != nil:
			conj = append(conj, m.tc.Eq(pa.b, pb.b))
			a, b = a[1:], b[1:]
			continue
		case pa.b != nil && pb.concrete():
			conj = append(conj, m.tc.Eq(pa.b, m.tc.Const(8, uint64(pb.c[0]))))
			a, b = a[1:], advance(b, 1)
			continue
		case pb.b != nil && pa.concrete():
			conj = append(conj, m.tc.Eq(pb.b, m.tc.Const(8, uint64(pa.c[0]))))
			b, a = b[1:], advance(a, 1)
			continue
		}
		// at least one choice part at the front
		if pa.idx != nil && pb.idx != nil && pa.idx == pb.idx && pa.tab == pb.tab {
			a, b = a[1:], b[1:]
			continue
		}
		if pa.idx != nil && pb.idx != nil {
			la, ok1 := m.partLen(&pa).(int64)
			lb, ok2 := m.partLen(&pb).(int64)
			if ok1 && ok2 && la == lb || (m.delimited(&pa, a[1:], &pb, b[1:])) {
				conj = append(conj, m.tc.Eq(m.tc.Look(32, pa.tab.ids, pa.idx), m.tc.Look(32, pb.tab.ids, pb.idx)))
				a, b = a[1:], b[1:]
				continue
			}
			if len(a) == 1 && len(b) == 1 {
				conj = append(conj, m.tc.Eq(m.tc.Look(32, pa.tab.ids, pa.idx), m.tc.Look(32, pb.tab.ids, pb.idx)))
				a, b = a[1:], b[1:]
				continue
			}
			m.concPart(&pa) // forks
		}
		if pa.idx == nil {
			a, b = b, a
			pa, pb = pb, pa
		}
		// pa is a choice, pb concrete or a byte
		if len(a) == 1 && len(b) == 1 && pb.concrete() {
			conj = append(conj, m.partEqConst(&pa, pb.c))
			return m.tc.And(conj...)
		}
		if l, ok := m.partLen(&pa).(int64); ok {
			// fixed length: compare byte by byte
			exp := make([]SPart, 0, int(l)+len(a))
			for j := 0; j < int(l); j++ {
				switch x := m.choiceByte(&pa, j).(type) {
				case int64:
					exp = append(exp, SPart{c: string([]byte{byte(x)})})
				case *Term:
					exp = append(exp, SPart{b: x})
				}
			}
			a = append(exp, a[1:]...)
			continue
		}
		// varying length: the concrete side decides which strings are possible
		if pb.concrete() {
			c := m.forkBy(&pa, func(s string) int {
				if strings.HasPrefix(pb.c, s) {
					return len(s)
				}
				if strings.HasPrefix(s, pb.c) {
					return 1 << 20
				}
				return -1
			})
			if c == -1 {
				return m.tc.False
			}
			if c == 1<<20 {
				m.concPart(&pa)
			}
			s := pb.c[:c]
			if k := m.partConst(&pa); k != nil {
				s = *k
			} else {
				// all remaining strings are equal to this prefix
				a = append([]SPart{{c: s}}, a[1:]...)
				continue
			}
			a = append([]SPart{{c: s}}, a[1:]...)
			a = strParts(mkStr(a))
			continue
		}
		m.concPart(&pa)
	}
}

// delimited: both choices are followed by the same concrete byte which no
// string of either contains, so equality of the ropes implies equality of the
// choices.
func (m *Machine) delimited(pa *SPart, ra []SPart, pb *SPart, rb []SPart) bool {
	if len(ra) == 0 && len(rb) == 0 {
		return true
	}
	if len(ra) == 0 || len(rb) == 0 || !ra[0].concrete() || !rb[0].concrete() || ra[0].c[0] != rb[0].c[0] {
		return false
	}
	d := ra[0].c[0]
	ok := true
	chk := func(_ uint64, s string) bool {
		if strings.IndexByte(s, d) >= 0 {
			ok = false
		}
		return ok
	}
	m.eachChoice(pa, chk)
	m.eachChoice(pb, chk)
	return ok
}

func advance(a []SPart, n int) []SPart {
	p := a[0]
	if len(p.c) == n {
		return a[1:]
	}
	out := append([]SPart{{c: p.c[n:]}}, a[1:]...)
	return out
}

func (m *Machine) strOrder(op token.Token, l, r Value) Value {
	l, r = m.normStr(l), m.normStr(r)
	cmp := func(a, b string) bool {
		switch op {
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		}
		return a >= b
	}
	if b, ok := r.(string); ok {
		if p, ok := m.single(l); ok {
			tab := make([]uint64, len(p.tab.strs))
			for i, s := range p.tab.strs {
				if cmp(s, b) {
					tab[i] = 1
				}
			}
			return termBool(m.tc.Look(0, tab, p.idx))
		}
	}
	if a, ok := l.(string); ok {
		if p, ok := m.single(r); ok {
			tab := make([]uint64, len(p.tab.strs))
			for i, s := range p.tab.strs {
				if cmp(a, s) {
					tab[i] = 1
				}
			}
			return termBool(m.tc.Look(0, tab, p.idx))
		}
	}
	return cmp(m.concStr(l), m.concStr(r))
}

// equal compares two values of the same static type.
func (m *Machine) equal(a, b Value) *Term {
	tc := m.tc
	switch x := a.(type) {
	case bool:
		switch y := b.(type) {
		case bool:
			return tc.Bool(x == y)
		case *Term:
			return tc.Eq(tc.Bool(x), y)
		}
	case int64:
		switch y := b.(type) {
		case int64:
			return tc.Bool(x == y)
		case *Term:
			return tc.Eq(tc.Const(y.w, uint64(x)), y)
		}
	case *Term:
		switch y := b.(type) {
		case *Term:
			if x.w != y.w && x.w != 0 && y.w != 0 {
				w := x.w
				if y.w < w {
					w = y.w
				}
				return tc.Eq(m.asTerm(x, w), m.asTerm(y, w))
			}
			return tc.Eq(x, y)
		case int64:
			return tc.Eq(x, tc.Const(x.w, uint64(y)))
		case bool:
			return tc.Eq(x, tc.Bool(y))
		}
	case float64:
		return tc.Bool(x == b.(float64))
	case string, *Str:
		return m.strEq(a, b)
	case *Value:
		y, ok := b.(*Value)
		return tc.Bool(ok && x == y)
	case *Map:
		y, ok := b.(*Map)
		return tc.Bool(ok && x == y)
	case *Chan:
		y, ok := b.(*Chan)
		return tc.Bool(ok && x == y)
	case *Closure:
		y, ok := b.(*Closure)
		return tc.Bool(ok && x == y)
	case Slice:
		// only comparison with nil is legal
		if x == nil {
			switch y := b.(type) {
			case Slice:
				return tc.Bool(y == nil)
			case *BytesRope:
				return tc.False
			}
		}
		return tc.Bool(false)
	case *BytesRope:
		return tc.False
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return tc.False
		}
		if x.t != y.t {
			return tc.False
		}
		if x.t == nil {
			return tc.True
		}
		switch x.v.(type) {
		case Slice, *Map:
			m.throwRuntime("comparing uncomparable type " + x.t.name)
		}
		return m.equal(x.v, y.v)
	case Struct:
		y := b.(Struct)
		ts := make([]*Term, len(x))
		for i := range x {
			ts[i] = m.equal(x[i], y[i])
		}
		return tc.And(ts...)
	case Array:
		y := b.(Array)
		ts := make([]*Term, len(x))
		for i := range x {
			ts[i] = m.equal(x[i], y[i])
		}
		return tc.And(ts...)
	case *RType:
		return tc.Bool(a == b)
	case nil:
		return tc.Bool(b == nil)
	}
	m.unsupported("comparison of %T and %T", a, b)
	return nil
}

// ---- bytes and runes ----

func (m *Machine) stringToBytes(v Value) Value {
	v = m.normStr(v)
	switch s := v.(type) {
	case string:
		out := make(Slice, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = smallInts[1024+int(s[i])]
		}
		return out
	case *Str:
		for i := range s.parts {
			if s.parts[i].idx != nil {
				return &BytesRope{s: s}
			}
		}
		return Slice(m.cells(s))
	}
	panic("stringToBytes")
}

func (m *Machine) bytesOf(v Value) Slice { return Slice(m.cells(m.normStr(v))) }

func (m *Machine) bytesToString(v Value) Value {
	switch b := m.thawed(v).(type) {
	case Slice:
		allc := true
		for _, e := range b {
			if _, ok := e.(int64); !ok {
				allc = false
				break
			}
		}
		if allc {
			bs := make([]byte, len(b))
			for i, e := range b {
				bs[i] = byte(e.(int64))
			}
			return string(bs)
		}
		return m.cellsToStr(b)
	case *BytesRope:
		return b.s
	}
	m.unsupported("bytesToString of %T", v)
	return nil
}

// stringToRunes: a choice part becomes one private-use rune when it cannot
// merge with its neighbours, otherwise it is expanded.
func (m *Machine) stringToRunes(v Value, exact bool) Value {
	v = m.normStr(v)
	s, ok := v.(*Str)
	if !ok {
		rs := runesOf(v.(string))
		out := make(Slice, len(rs))
		for i, r := range rs {
			out[i] = mkInt(int64(r))
		}
		return out
	}
	// decide the treatment of every choice part first (may fork)
	lens := make([]int, len(s.parts))
	for i := range s.parts {
		p := &s.parts[i]
		if p.idx == nil {
			continue
		}
		if !exact && m.isolated(s.parts, i) {
			continue
		}
		ascii := exact
		m.eachChoice(p, func(_ uint64, s string) bool {
			for j := 0; j < len(s); j++ {
				ascii = ascii && s[j] < utf8.RuneSelf
			}
			return ascii
		})
		if ascii {
			lens[i] = m.forkBy(p, func(s string) int { return len(s) })
		} else {
			m.concPart(p) // forks until the text is concrete
		}
	}
	var out Slice
	for i := range s.parts {
		p := &s.parts[i]
		switch {
		case p.idx != nil && exact:
			for j := 0; j < lens[i]; j++ {
				switch b := m.choiceByte(p, j).(type) {
				case *Term:
					out = append(out, m.fromTerm(m.tc.mk(OZext, 32, nil, b), intInfo{32, true}))
				default:
					out = append(out, b)
				}
			}
		case p.idx != nil:
			out = append(out, mkInt(m.atomRune(*p)))
		case p.b != nil:
			// symbolic bytes are ASCII by construction
			t := m.tc.mk(OZext, 32, nil, p.b)
			out = append(out, m.fromTerm(t, intInfo{32, true}))
		default:
			for _, r := range runesOf(p.c) {
				out = append(out, mkInt(int64(r)))
			}
		}
	}
	return out
}

func (m *Machine) atomRune(p SPart) int64 {
	for i := range m.atoms {
		if m.atoms[i].idx == p.idx && m.atoms[i].tab == p.tab {
			return atomBase + int64(i)
		}
	}
	n := len(m.atoms)
	if n > 2000 {
		m.unsupported("too many atoms")
	}
	m.atoms = append(m.atoms, p)
	m.logFn(func() { m.atoms = m.atoms[:n] })
	return atomBase + int64(n)
}

const separators = " \t\r\n,;(){}:"

// isolated: no string of this choice can merge with its neighbours when the
// rope is split into tokens.
func (m *Machine) isolated(parts []SPart, i int) bool {
	p := &parts[i]
	if i > 0 && !m.cannotMerge(&parts[i-1], p) {
		return false
	}
	if i+1 < len(parts) && !m.cannotMerge(p, &parts[i+1]) {
		return false
	}
	return true
}

func isWordByte(b byte) bool {
	return b == '_' || '0' <= b && b <= '9' || 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z'
}

// mergeable: could the last token of a and the first of b be read as one?
func mergeable(a, b string) bool {
	if a == "" || b == "" {
		return true
	}
	x, y := a[len(a)-1], b[0]
	if strings.IndexByte(separators, x) >= 0 || strings.IndexByte(separators, y) >= 0 {
		return false
	}
	if isWordByte(x) && isWordByte(y) {
		return true
	}
	if isWordByte(x) || isWordByte(y) || x == '\'' || y == '\'' || y == '$' || y == '@' {
		// a word next to an operator, quote or sigil; $ and @ start new tokens
		return x == '$' || x == '@' || x == '#' || (x == '\'' && y == '\'')
	}
	return true // two operator characters
}

func (m *Machine) cannotMerge(a, b *SPart) bool {
	if a.b != nil || b.b != nil {
		return false
	}
	each := func(p *SPart, f func(s string) bool) {
		if p.idx == nil {
			f(p.c)
			return
		}
		m.eachChoice(p, func(_ uint64, s string) bool { return f(s) })
	}
	ok := true
	each(a, func(x string) bool {
		each(b, func(y string) bool {
			if mergeable(x, y) {
				ok = false
			}
			return ok
		})
		return ok
	})
	return ok
}

func (m *Machine) runesToString(v Value) Value {
	sl, ok := v.(Slice)
	if !ok {
		m.unsupported("runesToString of %T", v)
	}
	parts := make([]SPart, 0, 4)
	var sb strings.Builder
	flush := func() {
		if sb.Len() > 0 {
			parts = append(parts, SPart{c: sb.String()})
			sb.Reset()
		}
	}
	for _, e := range sl {
		switch r := e.(type) {
		case int64:
			if isAtomRune(r) && int(r-atomBase) < len(m.atoms) {
				flush()
				parts = append(parts, m.atoms[r-atomBase])
				continue
			}
			sb.WriteRune(rune(r))
		case *Term:
			flush()
			t := r
			if t.w != 8 {
				t = m.tc.mk(OTrunc, 8, nil, r)
			}
			parts = append(parts, SPart{b: t})
		}
	}
	flush()
	return mkStr(parts)
}

func (m *Machine) runeToString(v Value) Value {
	switch r := v.(type) {
	case int64:
		if isAtomRune(r) && int(r-atomBase) < len(m.atoms) {
			return mkStr([]SPart{m.atoms[r-atomBase]})
		}
		return string(rune(r))
	case *Term:
		if m.decide(m.tc.mk(OUlt, 0, nil, r, m.tc.Const(r.w, 0x80))) {
			return m.cellsToStr([]Value{m.tc.mk(OTrunc, 8, nil, r)})
		}
		return string(rune(m.concInt(r)))
	}
	panic("runeToString")
}

// ---- maps ----

// candidates: live entries that may have key k, with the equality term
func (m *Machine) mapCands(mp *Map, k Value) (ents []*mapEntry, conds []*Term, exact bool) {
	h, conc := m.hashKey(k)
	if conc && mp.nsym == 0 {
		if i, ok := mp.index[h]; ok {
			return []*mapEntry{mp.entries[i]}, []*Term{m.tc.True}, true
		}
		return nil, nil, true
	}
	for _, e := range mp.entries {
		if e.dead {
			continue
		}
		t := m.equal(k, e.key)
		if e.guard != nil {
			t = m.tc.And(e.guard, t)
		}
		if m.eval3(t) == 0 {
			continue
		}
		ents = append(ents, e)
		conds = append(conds, t)
	}
	return ents, conds, false
}

func (m *Machine) mapLookup(mp *Map, k Value, vt types.Type, commaOk, onlyOk bool) Value {
	zero := func() Value { return zeroValue(vt) }
	ret := func(v Value, ok Value) Value {
		if commaOk {
			return Tuple{v, ok}
		}
		return v
	}
	if mp == nil {
		return ret(zero(), false)
	}
	ents, conds, exact := m.mapCands(mp, k)
	if exact {
		if len(ents) == 0 {
			return ret(zero(), false)
		}
		return ret(copyVal(ents[0].val), true)
	}
	ok := termBool(m.tc.Or(conds...))
	if len(ents) == 0 {
		return ret(zero(), false)
	}
	if onlyOk {
		return Tuple{nil, ok}
	}
	// scalar and string results: if-then-else chain
	if v, done := m.iteChain(conds, ents, zero()); done {
		return ret(v, ok)
	}
	// same value everywhere
	alts := append([]*Term(nil), conds...)
	var none *Term
	nots := make([]*Term, len(conds))
	for i, c := range conds {
		nots[i] = m.tc.Not(c)
	}
	none = m.tc.And(nots...)
	for i, c := range conds {
		if m.eval3(c) == 1 {
			return ret(copyVal(ents[i].val), true)
		}
	}
	if m.eval3(none) == 1 {
		return ret(zero(), false)
	}
	panic(&forkReq{append(alts, none)})
}

func (m *Machine) iteChain(conds []*Term, ents []*mapEntry, zero Value) (Value, bool) {
	switch zero.(type) {
	case bool:
		t := m.tc.False
		for i, e := range ents {
			t = m.tc.Ite(conds[i], m.boolTerm(e.val), t)
		}
		return termBool(t), true
	case string:
		acc := zero
		for i, e := range ents {
			r, ok := m.iteStr(conds[i], e.val, acc)
			if !ok {
				return nil, false
			}
			acc = r
		}
		return acc, true
	}
	return nil, false
}

// iteStr is the string (if c then a else b).
func (m *Machine) iteStr(c *Term, a, b Value) (Value, bool) {
	switch m.eval3(c) {
	case 1:
		return a, true
	case 0:
		return b, true
	}
	conv := func(v Value) (SPart, bool) {
		v = m.normStr(v)
		if s, ok := v.(string); ok {
			return SPart{idx: m.tc.Const(64, 0), tab: mkStrTab([]string{s})}, true
		}
		p, ok := m.single(v)
		return p, ok
	}
	pa, ok := conv(a)
	if !ok {
		return nil, false
	}
	pb, ok := conv(b)
	if !ok {
		return nil, false
	}
	if pa.tab == pb.tab && pa.idx == pb.idx {
		return a, true
	}
	tab := append(append([]string(nil), pa.tab.strs...), pb.tab.strs...)
	ib := m.tc.mk(OAdd, 64, nil, m.asTerm(pb.idx, 64), m.tc.Const(64, uint64(len(pa.tab.strs))))
	idx := m.tc.Ite(c, m.asTerm(pa.idx, 64), ib)
	return m.normStr(mkStr([]SPart{{idx: idx, tab: mkStrTab(tab)}})), true
}

// mapClone is a copy of a map.
func (m *Machine) mapClone(mp *Map) *Map {
	m.settle(mp)
	out := newMap(mp.kt)
	for _, e := range mp.entries {
		if e.dead {
			continue
		}
		if h, conc := m.hashKey(e.key); conc {
			out.index[h] = len(out.entries)
		} else {
			out.nsym++
		}
		out.entries = append(out.entries, &mapEntry{key: copyVal(e.key), val: copyVal(e.val)})
		out.n++
	}
	return out
}

func (m *Machine) mapUpdate(mp *Map, k, v Value) {
	if s, ok := k.(*Str); ok {
		k = m.normStr(s)
	}
	v = copyVal(v)
	k = copyVal(k)
	ents, conds, exact := m.mapCands(mp, k)
	if exact && len(ents) == 1 {
		e := ents[0]
		m.store(&e.val, v)
		return
	}
	var guard *Term
	if !exact && len(ents) > 0 {
		if g, ok := m.mapMerge(ents, conds, v); ok {
			if g == m.tc.False {
				return
			}
			guard = g
		} else {
			for i, c := range conds {
				if m.decide(c) {
					m.store(&ents[i].val, v)
					return
				}
			}
		}
	}
	h, conc := m.hashKey(k)
	e := &mapEntry{key: k, val: v, guard: guard}
	n := len(mp.entries)
	mp.entries = append(mp.entries, e)
	mp.n++
	if guard != nil {
		conc = false // not found by its hash
		mp.nguard++
	}
	if conc {
		mp.index[h] = n
	} else {
		mp.nsym++
	}
	m.logFn(func() {
		mp.entries = mp.entries[:n]
		mp.n--
		if conc {
			delete(mp.index, h)
		} else {
			mp.nsym--
		}
		if guard != nil {
			mp.nguard--
		}
	})
}

// mapMerge stores v under a key that may be that of some entries: their values
// become if-then-else terms. It returns where a new entry is needed.
func (m *Machine) mapMerge(ents []*mapEntry, conds []*Term, v Value) (*Term, bool) {
	nv := make([]Value, len(ents))
	for i, e := range ents {
		switch x := v.(type) {
		case bool, *Term:
			if identical(x, e.val) {
				nv[i] = e.val
				continue
			}
			if _, isb := x.(bool); !isb {
				if x.(*Term).w != 0 {
					return nil, false
				}
			}
			switch y := e.val.(type) {
			case bool:
			case *Term:
				if y.w != 0 {
					return nil, false
				}
			default:
				return nil, false
			}
			nv[i] = termBool(m.tc.Ite(conds[i], m.boolTerm(x), m.boolTerm(e.val)))
		case string, *Str:
			if identical(x, e.val) {
				nv[i] = e.val
				continue
			}
			r, ok := m.iteStr(conds[i], x, e.val)
			if !ok {
				return nil, false
			}
			nv[i] = r
		case Struct:
			if len(x) > 0 {
				return nil, false
			}
			nv[i] = e.val
		case int64:
			if !identical(x, e.val) {
				return nil, false
			}
			nv[i] = e.val
		default:
			return nil, false
		}
	}
	none := m.tc.Not(m.tc.Or(conds...))
	switch m.eval3(none) {
	case 0:
		none = m.tc.False
	case 1:
		return nil, false
	}
	for i, e := range ents {
		m.store(&e.val, nv[i])
	}
	return none, true
}

// settle decides which entries exist.
func (m *Machine) settle(mp *Map) {
	if mp == nil || mp.nguard == 0 {
		return
	}
	for _, e := range mp.entries {
		if e.dead || e.guard == nil {
			continue
		}
		is := m.decide(e.guard)
		e, g := e, e.guard
		e.guard = nil
		mp.nguard--
		if !is {
			e.dead = true
			mp.n--
			mp.nsym--
		}
		m.logFn(func() {
			e.guard = g
			mp.nguard++
			if !is {
				e.dead = false
				mp.n++
				mp.nsym++
			}
		})
	}
}

func (m *Machine) mapDelete(mp *Map, k Value) {
	if mp == nil {
		return
	}
	m.settle(mp)
	ents, conds, _ := m.mapCands(mp, k)
	for i, c := range conds {
		if m.decide(c) {
			e := ents[i]
			h, conc := m.hashKey(e.key)
			// find how the entry was indexed
			var ix any
			found := false
			if conc {
				if j, ok := mp.index[h]; ok && mp.entries[j] == e {
					ix, found = h, true
				}
			}
			e.dead = true
			mp.n--
			pos := 0
			if found {
				pos = mp.index[ix]
				delete(mp.index, ix)
			} else {
				mp.nsym--
			}
			m.logFn(func() {
				e.dead = false
				mp.n++
				if found {
					mp.index[ix] = pos
				} else {
					mp.nsym++
				}
			})
			return
		}
	}
}

// ---- iteration ----

type Iter struct {
	pos   Value // int64 cell (logged)
	str   Value
	ents  []*mapEntry
	cells []Value // runes for string iteration
	offs  []int64
}

func (m *Machine) rangeIter(f *Frame, v Value, repo bool) Value {
	switch x := v.(type) {
	case *Map:
		it := &Iter{pos: mkInt(0)}
		if x != nil {
			m.settle(x)
			for _, e := range x.entries {
				if !e.dead {
					it.ents = append(it.ents, e)
				}
			}
		}
		if repo && len(it.ents) >= 2 && m.logging {
			// Go randomises the order: try the insertion order and its reverse
			// the variable is created before the instruction forks and is kept in
			// the frame's scratch register while the instruction is re-executed
			sc := f.fn.nregs - 1
			vr, _ := f.regs[sc].(*Var)
			if vr == nil {
				vr = m.newVar(2, "maporder")
				f.regs[sc] = vr
				m.mark = len(m.trail)
			}
			rev := m.decide(m.tc.Eq(vr.id, m.tc.Const(64, 1)))
			f.regs[sc] = nil
			if rev {
				for i, j := 0, len(it.ents)-1; i < j; i, j = i+1, j-1 {
					it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
				}
			}
		}
		return it
	case string, *Str:
		it := &Iter{pos: mkInt(0)}
		off := int64(0)
		add := func(r Value, n int) {
			it.cells = append(it.cells, r)
			it.offs = append(it.offs, off)
			off += int64(n)
		}
		nv := m.normStr(x)
		for _, p := range strParts(nv) {
			switch {
			case p.concrete():
				s := p.c
				for len(s) > 0 {
					r, n := utf8.DecodeRuneInString(s)
					add(mkInt(int64(r)), n)
					s = s[n:]
				}
			case p.b != nil:
				add(m.fromTerm(m.tc.mk(OZext, 32, nil, p.b), intInfo{32, true}), 1)
			default:
				n := m.forkBy(&p, func(s string) int { return len(s) })
				ascii := true
				m.eachChoice(&p, func(_ uint64, s string) bool {
					for i := 0; i < len(s); i++ {
						if s[i] >= 0x80 {
							ascii = false
						}
					}
					return ascii
				})
				if !ascii {
					m.concPart(&p)
				}
				for j := 0; j < n; j++ {
					switch b := m.choiceByte(&p, j).(type) {
					case int64:
						add(mkInt(b), 1)
					case *Term:
						add(m.fromTerm(m.tc.mk(OZext, 32, nil, b), intInfo{32, true}), 1)
					}
				}
			}
		}
		return it
	}
	m.unsupported("range over %T", v)
	return nil
}

func (m *Machine) iterNext(it *Iter, str bool) Value {
	i := it.pos.(int64)
	if str {
		if int(i) >= len(it.cells) {
			return Tuple{false, mkInt(0), mkInt(0)}
		}
		m.store(&it.pos, mkInt(i+1))
		return Tuple{true, mkInt(it.offs[i]), it.cells[i]}
	}
	for int(i) < len(it.ents) && it.ents[i].dead {
		i++
	}
	if int(i) >= len(it.ents) {
		return Tuple{false, nil, nil}
	}
	m.store(&it.pos, mkInt(i+1))
	e := it.ents[i]
	return Tuple{true, copyVal(e.key), copyVal(e.val)}
}

// below is t < n for an index t of any width.
func (m *Machine) below(t *Term, n int) *Term {
	if t.w < 64 && uint64(n) >= 1<<uint(t.w) {
		return m.tc.True
	}
	return m.tc.mk(OUlt, 0, nil, t, m.tc.Const(t.w, uint64(n)))
}
