package main

// Run-time values of the symbolic machine.
//
//	bool          bool or *Term (w=0)
//	integers      int64 (sign-/zero-extended from the Go type) or *Term
//	float         float64
//	string        string or *Str (symbolic rope)
//	pointer       *Value (nil pointer = (*Value)(nil))
//	struct/array  Struct / Array (mutable in place, copied on load)
//	slice         Slice, or *BytesRope for an immutable symbolic []byte
//	map           *Map
//	chan          *Chan
//	func          *Closure (nil func = (*Closure)(nil))
//	interface     Iface
//	tuple         Tuple

import (
	"fmt"
	"go/types"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type Value = any

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type Iface struct {
	t *RType
	v Value
}

type Closure struct {
	fn   *Fn
	env  []Value
	intr *Intrinsic // builtin or modelled function
}

type RType struct {
	t     types.Type
	id    int
	name  string
	meths map[string]*Fn
	iface *types.Interface
	impl  map[*RType]bool
}

type BytesRope struct {
	s      Value      // string or *Str
	from   *BytesRope // what this is a slice of
	lo, hi Value
	done   bool // written to: the cells count
	cells  Slice
}

type Chan struct {
	cap    int
	elem   types.Type
	buf    []Value
	closed bool
}

// ---- small int boxing ----

var smallInts [4096]Value

func init() {
	for i := range smallInts {
		smallInts[i] = int64(i - 1024)
	}
}

func mkInt(x int64) Value {
	if uint64(x+1024) < 4096 {
		return smallInts[x+1024]
	}
	return x
}

// ---- symbolic strings ----

// StrTab is an interned table of strings.
type StrTab struct {
	strs []string
	ids  []uint64 // global intern ids
	lens []uint64
}

var internMu sync.Mutex
var internIDs = map[string]uint64{}
var tabIntern = map[string]*StrTab{}

func internStr(s string) uint64 {
	if id, ok := internIDs[s]; ok {
		return id
	}
	id := uint64(len(internIDs) + 1)
	internIDs[s] = id
	return id
}

func mkStrTab(strs []string) *StrTab {
	internMu.Lock()
	defer internMu.Unlock()
	var sb strings.Builder
	for _, s := range strs {
		fmt.Fprintf(&sb, "%d:%s", len(s), s)
	}
	if t, ok := tabIntern[sb.String()]; ok {
		return t
	}
	t := &StrTab{strs: append([]string(nil), strs...)}
	for _, s := range strs {
		t.ids = append(t.ids, internStr(s))
		t.lens = append(t.lens, uint64(len(s)))
	}
	tabIntern[sb.String()] = t
	return t
}

// SPart is one part of a rope: a concrete string (idx and b nil), a choice
// tab[idx], or one byte b (8-bit term).
type SPart struct {
	c   string
	idx *Term
	tab *StrTab
	b   *Term
}

type Str struct{ parts []SPart }

func (p *SPart) concrete() bool { return p.idx == nil && p.b == nil }

func mkStr(parts []SPart) Value {
	var out []SPart
	for _, p := range parts {
		if p.concrete() {
			if p.c == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].concrete() {
				out[n-1].c += p.c
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return ""
	}
	if len(out) == 1 && out[0].concrete() {
		return out[0].c
	}
	return &Str{out}
}

func strParts(v Value) []SPart {
	switch s := v.(type) {
	case string:
		if s == "" {
			return nil
		}
		return []SPart{{c: s}}
	case *Str:
		return s.parts
	}
	panic(fmt.Sprintf("not a string: %T", v))
}

func concatStr(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	pa, pb := strParts(a), strParts(b)
	out := make([]SPart, 0, len(pa)+len(pb))
	out = append(out, pa...)
	out = append(out, pb...)
	return mkStr(out)
}

// ---- maps ----

type mapEntry struct {
	key  Value
	val  Value
	dead bool
	// guard: the entry exists only where this holds (nil: everywhere)
	guard *Term
}

type Map struct {
	kt      types.Type
	entries []*mapEntry
	index   map[any]int // concrete keys
	nsym    int         // number of live entries with a symbolic key
	n       int
	nguard  int // entries with a guard
}

func newMap(kt types.Type) *Map { return &Map{kt: kt, index: map[any]int{}} }

type hStr struct{ s string } // composite key encodings

// hashKey gives a comparable Go value for a concrete key; ok is false when the
// key contains a symbolic part.
func (m *Machine) hashKey(v Value) (any, bool) {
	switch x := v.(type) {
	case nil:
		return nil, true
	case bool, int64, float64, string, *Value, *Map, *Chan:
		return x, true
	case *Closure:
		return x, true
	case *Term:
		if c, ok := m.known(x); ok {
			return c, true
		}
		return nil, false
	case *Str:
		n := m.normStr(x)
		if s, ok := n.(string); ok {
			return s, true
		}
		return nil, false
	case Iface:
		if x.t == nil {
			return nil, true
		}
		k, ok := m.hashKey(x.v)
		if !ok {
			return nil, false
		}
		return [2]any{x.t, k}, true
	case Struct:
		return m.hashSeq([]Value(x))
	case Array:
		return m.hashSeq([]Value(x))
	case *RType:
		return x, true
	}
	return nil, false
}

func (m *Machine) hashSeq(xs []Value) (any, bool) {
	var k any = len(xs)
	for _, e := range xs {
		h, ok := m.hashKey(e)
		if !ok {
			return nil, false
		}
		k = [2]any{k, h}
	}
	return k, true
}

// ---- zero values ----

func zeroValue(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zeroValue(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = zeroValue(u.Elem())
		}
		return a
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zeroValue(u.At(i).Type())
		}
		return tp
	}
	panic(fmt.Sprintf("zeroValue %v", t))
}

// copyVal copies structs and arrays.
func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i, e := range x {
			switch e.(type) {
			case Struct, Array:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i, e := range x {
			switch e.(type) {
			case Struct, Array:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	}
	return v
}

// runes placed in []rune slices to stand for one choice part of a rope
const atomBase = 0x10F000

func isAtomRune(r int64) bool { return r >= atomBase && r <= 0x10FFFD }

func runesOf(s string) []rune {
	out := make([]rune, 0, len(s))
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		out = append(out, r)
		s = s[n:]
	}
	return out
}

var _ = ssa.NaiveForm
