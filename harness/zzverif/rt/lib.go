package rt

// Parts of the standard library whose own code cannot be run by the machine.

import (
	"bytes"
	"errors"
	"reflect"
	"strings"
	"sync"
)

func poolPop(p any) (any, bool) { panic("engine") }
func deepEqual(a, b any) bool   { panic("engine") }

//gosym:replace (*sync.Pool).Get
func poolGet(p *sync.Pool) any {
	if v, ok := poolPop(p); ok {
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//gosym:replace reflect.DeepEqual
func reflectDeepEqual(a, b any) bool { return deepEqual(a, b) }

type rtype struct {
	reflect.Type
	name string
}

func (t *rtype) String() string { return t.name }
func (t *rtype) Name() string {
	if i := strings.LastIndexByte(t.name, '.'); i >= 0 && !strings.ContainsAny(t.name, "*[]{}(") {
		return t.name[i+1:]
	}
	if strings.ContainsAny(t.name, "*[]{}(") {
		return ""
	}
	return t.name
}

//gosym:replace reflect.TypeOf
func reflectTypeOf(v any) reflect.Type {
	if v == nil {
		return nil
	}
	return &rtype{name: typeName(v)}
}

type joined struct{ errs []error }

func (j *joined) Error() string {
	out := ""
	for i, e := range j.errs {
		if i > 0 {
			out += "\n"
		}
		out += e.Error()
	}
	return out
}

func (j *joined) Unwrap() []error { return j.errs }

//gosym:replace errors.Join
func errorsJoin(errs ...error) error {
	j := &joined{}
	for _, e := range errs {
		if e != nil {
			j.errs = append(j.errs, e)
		}
	}
	if len(j.errs) == 0 {
		return nil
	}
	return j
}

type syncMap struct {
	keys []any
	vals map[any]any
}

var syncMaps map[*sync.Map]*syncMap

func syncMapOf(m *sync.Map) *syncMap {
	if syncMaps == nil {
		syncMaps = map[*sync.Map]*syncMap{}
	}
	s := syncMaps[m]
	if s == nil {
		s = &syncMap{vals: map[any]any{}}
		syncMaps[m] = s
	}
	return s
}

//gosym:replace (*sync.Map).Load
func syncMapLoad(m *sync.Map, k any) (any, bool) {
	v, ok := syncMapOf(m).vals[k]
	return v, ok
}

//gosym:replace (*sync.Map).Store
func syncMapStore(m *sync.Map, k, v any) { syncMapOf(m).vals[k] = v }

//gosym:replace (*sync.Map).Swap
func syncMapSwap(m *sync.Map, k, v any) (any, bool) {
	s := syncMapOf(m)
	old, ok := s.vals[k]
	s.vals[k] = v
	return old, ok
}

//gosym:replace (*sync.Map).LoadOrStore
func syncMapLoadOrStore(m *sync.Map, k, v any) (any, bool) {
	s := syncMapOf(m)
	if old, ok := s.vals[k]; ok {
		return old, true
	}
	s.vals[k] = v
	return v, false
}

//gosym:replace (*sync.Map).LoadAndDelete
func syncMapLoadAndDelete(m *sync.Map, k any) (any, bool) {
	s := syncMapOf(m)
	old, ok := s.vals[k]
	delete(s.vals, k)
	return old, ok
}

//gosym:replace (*sync.Map).Delete
func syncMapDelete(m *sync.Map, k any) { delete(syncMapOf(m).vals, k) }

//gosym:replace (*sync.Map).Clear
func syncMapClear(m *sync.Map) { syncMapOf(m).vals = map[any]any{} }

//gosym:replace (*sync.Map).Range
func syncMapRange(m *sync.Map, f func(k, v any) bool) {
	for k, v := range syncMapOf(m).vals {
		if !f(k, v) {
			return
		}
	}
}

func jsonCheck(src []byte) error {
	if s := string(src); isConc(s) && !jsonValid(src) {
		return errors.New("invalid JSON")
	}
	return nil
}

//gosym:replace encoding/json.Indent
func jsonIndentInto(dst *bytes.Buffer, src []byte, prefix, indent string) error {
	if err := jsonCheck(src); err != nil {
		return err
	}
	dst.WriteString(jsonReindent(string(src), prefix, indent, true, 0))
	return nil
}

//gosym:replace encoding/json.Compact
func jsonCompactInto(dst *bytes.Buffer, src []byte) error {
	if err := jsonCheck(src); err != nil {
		return err
	}
	dst.WriteString(jsonReindent(string(src), "", "", false, 0))
	return nil
}
