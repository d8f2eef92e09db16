//go:build js

package rt

import (
	"strconv"
	"syscall/js"
)

// The JavaScript values a program can reach: what js.Value refers to is the
// element of jsVals with that number.

type jsval struct {
	kind  js.Type
	s     string
	n     float64
	b     bool
	keys  []string
	props []js.Value
	fn    func(this js.Value, args []js.Value) any
	list  bool
	elems []js.Value
	build string // a constructor: Object or Array
}

var (
	jsVals   []*jsval
	jsGlobal *js.Value
)

func newJS(v *jsval) js.Value {
	if jsVals == nil {
		jsVals = append(jsVals, &jsval{kind: js.TypeUndefined})
	}
	jsVals = append(jsVals, v)
	var out js.Value
	setField(&out, "ref", len(jsVals)-1)
	return out
}

func val(v js.Value) *jsval {
	i := asInt(fieldOf(&v, "ref"))
	if i == 0 {
		return &jsval{kind: js.TypeUndefined}
	}
	return jsVals[i]
}

//gosym:replace syscall/js.Undefined
func jsUndefined() js.Value { return js.Value{} }

//gosym:replace syscall/js.Null
func jsNull() js.Value { return newJS(&jsval{kind: js.TypeNull}) }

//gosym:replace syscall/js.Global
func jsGlobalOf() js.Value {
	if jsGlobal == nil {
		g := newJS(&jsval{kind: js.TypeObject})
		c := newJS(&jsval{kind: js.TypeObject})
		for _, n := range []string{"log", "error", "warn", "info", "debug"} {
			setProp(c, n, newJS(&jsval{kind: js.TypeFunction, fn: func(this js.Value, args []js.Value) any { return nil }}))
		}
		setProp(g, "console", c)
		setProp(g, "Object", newJS(&jsval{kind: js.TypeFunction, build: "Object"}))
		setProp(g, "Array", newJS(&jsval{kind: js.TypeFunction, build: "Array"}))
		setProp(g, "globalThis", g)
		jsGlobal = &g
	}
	return *jsGlobal
}

func setProp(v js.Value, name string, x js.Value) {
	o := val(v)
	for i, k := range o.keys {
		if k == name {
			o.props[i] = x
			return
		}
	}
	o.keys = append(o.keys, name)
	o.props = append(o.props, x)
}

func number(f float64) js.Value { return newJS(&jsval{kind: js.TypeNumber, n: f}) }

//gosym:replace syscall/js.ValueOf
func jsValueOf(x any) js.Value {
	switch x := x.(type) {
	case js.Value:
		return x
	case js.Func:
		return x.Value
	case js.Error:
		return x.Value
	case nil:
		return jsNull()
	case bool:
		return newJS(&jsval{kind: js.TypeBoolean, b: x})
	case int:
		return number(float64(x))
	case int8:
		return number(float64(x))
	case int16:
		return number(float64(x))
	case int32:
		return number(float64(x))
	case int64:
		return number(float64(x))
	case uint:
		return number(float64(x))
	case uint8:
		return number(float64(x))
	case uint16:
		return number(float64(x))
	case uint32:
		return number(float64(x))
	case uint64:
		return number(float64(x))
	case float32:
		return number(float64(x))
	case float64:
		return number(x)
	case string:
		return newJS(&jsval{kind: js.TypeString, s: x})
	case []any:
		o := &jsval{kind: js.TypeObject, list: true}
		for _, e := range x {
			o.elems = append(o.elems, jsValueOf(e))
		}
		return newJS(o)
	case map[string]any:
		o := newJS(&jsval{kind: js.TypeObject})
		for k, e := range x {
			setProp(o, k, jsValueOf(e))
		}
		return o
	}
	panic("ValueOf: invalid value")
}

//gosym:replace syscall/js.FuncOf
func jsFuncOf(fn func(this js.Value, args []js.Value) any) js.Func {
	return js.Func{Value: newJS(&jsval{kind: js.TypeFunction, fn: fn})}
}

//gosym:replace (syscall/js.Func).Release
func jsRelease(f js.Func) { val(f.Value).fn = nil }

func isObject(v *jsval) bool { return v.kind == js.TypeObject || v.kind == js.TypeFunction }

//gosym:replace (syscall/js.Value).Get
func jsGet(v js.Value, p string) js.Value {
	o := val(v)
	if !isObject(o) {
		panic(&js.ValueError{Method: "Value.Get", Type: o.kind})
	}
	for i, k := range o.keys {
		if k == p {
			return o.props[i]
		}
	}
	if o.list && p == "length" {
		return number(float64(len(o.elems)))
	}
	return js.Value{}
}

//gosym:replace (syscall/js.Value).Set
func jsSet(v js.Value, p string, x any) {
	if o := val(v); !isObject(o) {
		panic(&js.ValueError{Method: "Value.Set", Type: o.kind})
	}
	setProp(v, p, jsValueOf(x))
}

//gosym:replace (syscall/js.Value).Delete
func jsDelete(v js.Value, p string) {
	o := val(v)
	if !isObject(o) {
		panic(&js.ValueError{Method: "Value.Delete", Type: o.kind})
	}
	for i, k := range o.keys {
		if k == p {
			o.keys = append(o.keys[:i:i], o.keys[i+1:]...)
			o.props = append(o.props[:i:i], o.props[i+1:]...)
			return
		}
	}
}

//gosym:replace (syscall/js.Value).Index
func jsIndex(v js.Value, i int) js.Value {
	o := val(v)
	if !isObject(o) {
		panic(&js.ValueError{Method: "Value.Index", Type: o.kind})
	}
	if o.list && i >= 0 && i < len(o.elems) {
		return o.elems[i]
	}
	return jsGet(v, strconv.Itoa(i))
}

//gosym:replace (syscall/js.Value).SetIndex
func jsSetIndex(v js.Value, i int, x any) {
	o := val(v)
	if !isObject(o) {
		panic(&js.ValueError{Method: "Value.SetIndex", Type: o.kind})
	}
	if !o.list {
		setProp(v, strconv.Itoa(i), jsValueOf(x))
		return
	}
	for len(o.elems) <= i {
		o.elems = append(o.elems, js.Value{})
	}
	o.elems[i] = jsValueOf(x)
}

//gosym:replace (syscall/js.Value).Length
func jsLength(v js.Value) int {
	o := val(v)
	if !isObject(o) {
		panic(&js.ValueError{Method: "Value.SetIndex", Type: o.kind})
	}
	return len(o.elems)
}

func jsArgs(args []any) []js.Value {
	var out []js.Value
	for _, a := range args {
		out = append(out, jsValueOf(a))
	}
	return out
}

//gosym:replace (syscall/js.Value).Invoke
func jsInvoke(v js.Value, args ...any) js.Value {
	o := val(v)
	if o.kind != js.TypeFunction {
		panic(&js.ValueError{Method: "Value.Invoke", Type: o.kind})
	}
	if o.fn == nil {
		unsupported("a built-in function of JavaScript")
	}
	return jsValueOf(o.fn(jsNull(), jsArgs(args)))
}

//gosym:replace (syscall/js.Value).Call
func jsCall(v js.Value, m string, args ...any) js.Value {
	f := jsGet(v, m)
	o := val(f)
	if o.kind != js.TypeFunction {
		panic("syscall/js: Value.Call: property " + m + " is not a function, got " + jsTypeString(o.kind))
	}
	if o.fn == nil {
		unsupported("a built-in function of JavaScript")
	}
	return jsValueOf(o.fn(v, jsArgs(args)))
}

//gosym:replace (syscall/js.Value).New
func jsNew(v js.Value, args ...any) js.Value {
	o := val(v)
	if o.build == "" || len(args) > 0 {
		unsupported("a constructor of JavaScript")
	}
	return newJS(&jsval{kind: js.TypeObject, list: o.build == "Array"})
}

//gosym:replace (syscall/js.Value).Type
func jsType(v js.Value) js.Type { return val(v).kind }

//gosym:replace (syscall/js.Type).String
func jsTypeString(t js.Type) string {
	switch t {
	case js.TypeUndefined:
		return "undefined"
	case js.TypeNull:
		return "null"
	case js.TypeBoolean:
		return "boolean"
	case js.TypeNumber:
		return "number"
	case js.TypeString:
		return "string"
	case js.TypeSymbol:
		return "symbol"
	case js.TypeObject:
		return "object"
	case js.TypeFunction:
		return "function"
	}
	panic("bad type")
}

//gosym:replace (syscall/js.Value).IsUndefined
func jsIsUndefined(v js.Value) bool { return val(v).kind == js.TypeUndefined }

//gosym:replace (syscall/js.Value).IsNull
func jsIsNull(v js.Value) bool { return val(v).kind == js.TypeNull }

//gosym:replace (syscall/js.Value).IsNaN
func jsIsNaN(v js.Value) bool { x := val(v); return x.kind == js.TypeNumber && x.n != x.n }

//gosym:replace (syscall/js.Value).Equal
func jsEqual(v, w js.Value) bool {
	a, b := val(v), val(w)
	if a == b {
		return true
	}
	if a.kind != b.kind {
		return false
	}
	switch a.kind {
	case js.TypeUndefined, js.TypeNull:
		return true
	case js.TypeBoolean:
		return a.b == b.b
	case js.TypeNumber:
		return a.n == b.n
	case js.TypeString:
		return a.s == b.s
	}
	return false
}

//gosym:replace (syscall/js.Value).Truthy
func jsTruthy(v js.Value) bool {
	o := val(v)
	switch o.kind {
	case js.TypeUndefined, js.TypeNull:
		return false
	case js.TypeBoolean:
		return o.b
	case js.TypeNumber:
		return o.n == o.n && o.n != 0
	case js.TypeString:
		return o.s != ""
	}
	return true
}

//gosym:replace (syscall/js.Value).Bool
func jsBool(v js.Value) bool {
	o := val(v)
	if o.kind != js.TypeBoolean {
		panic(&js.ValueError{Method: "Value.Bool", Type: o.kind})
	}
	return o.b
}

//gosym:replace (syscall/js.Value).Int
func jsInt(v js.Value) int {
	o := val(v)
	if o.kind != js.TypeNumber {
		panic(&js.ValueError{Method: "Value.Int", Type: o.kind})
	}
	return int(o.n)
}

//gosym:replace (syscall/js.Value).Float
func jsFloat(v js.Value) float64 {
	o := val(v)
	if o.kind != js.TypeNumber {
		panic(&js.ValueError{Method: "Value.Float", Type: o.kind})
	}
	return o.n
}

//gosym:replace (syscall/js.Value).String
func jsString(v js.Value) string {
	o := val(v)
	switch o.kind {
	case js.TypeString:
		return o.s
	case js.TypeUndefined, js.TypeNull, js.TypeSymbol, js.TypeObject, js.TypeFunction:
		return "<" + jsTypeString(o.kind) + ">"
	case js.TypeBoolean:
		return "<boolean: " + strconv.FormatBool(o.b) + ">"
	}
	return "<number: " + strconv.FormatFloat(o.n, 'f', -1, 64) + ">"
}

//gosym:replace (syscall/js.Value).InstanceOf
func jsInstanceOf(v, t js.Value) bool {
	c := val(t).build
	o := val(v)
	return c == "Object" && isObject(o) || c == "Array" && o.list
}
