// Package rt holds Go models that the symbolic machine runs instead of the
// reflective or environment-dependent parts of the standard library.
package rt

import (
	"errors"
	"io"
	"os"
	"sort"
	"strconv"
	"strings"
)

// engine primitives
func kindOf(v any) int                             { panic("engine") }
func typeName(v any) string                        { panic("engine") }
func isNil(v any) bool                             { panic("engine") }
func asString(v any) string                        { panic("engine") }
func asInt(v any) int                              { panic("engine") }
func asBool(v any) bool                            { panic("engine") }
func asFloat(v any) float64                        { panic("engine") }
func elem(v any) any                               { panic("engine") }
func isBytes(v any) bool                           { panic("engine") }
func bytesString(v any) string                     { panic("engine") }
func elems(v any) []any                            { panic("engine") }
func mapKeys(v any) []any                          { panic("engine") }
func mapVals(v any) []any                          { panic("engine") }
func numField(v any) int                           { panic("engine") }
func fieldName(v any, i int) string                { panic("engine") }
func fieldExported(v any, i int) bool              { panic("engine") }
func fieldIface(v any, i int) bool                 { panic("engine") }
func fieldEmbedded(v any, i int) bool              { panic("engine") }
func fieldTag(v any, i int, key string) string     { panic("engine") }
func field(v any, i int) any                       { panic("engine") }
func fieldOf(p any, name string) any               { panic("engine") }
func setField(p any, name string, v any)           { panic("engine") }
func swap(s any, i, j int)                         { panic("engine") }
func asTarget(err error, target any) bool          { panic("engine") }
func comparable_(v any) bool                       { panic("engine") }
func cacheInt(k string) (int, bool)                { panic("engine") }
func setCacheInt(k string, v int)                  { panic("engine") }
func isAtom(r int) bool                            { panic("engine") }
func atomChoices(r int) []string                   { panic("engine") }
func atomMap(r int, keys []string, vals []int) int { panic("engine") }
func atomKnown(r int) (string, bool)               { panic("engine") }
func atomText(r int) string                        { panic("engine") }
func write(stream string, s string)                { panic("engine") }
func jsonEscape(s string) string                   { panic("engine") }
func ropePieces(s string) []string                 { panic("engine") }
func jsonInside(s string) bool                     { panic("engine") }
func jsonHTML(s string) string                     { panic("engine") }
func isConc(s string) bool                         { panic("engine") }
func concStr(s string) string                      { panic("engine") }
func jsonEscapePlain(s string) string              { panic("engine") }
func fieldAddr(p any, i int) any                   { panic("engine") }
func nativeSQL(s string) int                       { panic("engine") }
func nativeSQLText(s string) string                { panic("engine") }
func unsupported(msg string)                       { panic("engine") }
func quote(s string) string                        { panic("engine") }
func fmtFloat(f float64) string                    { panic("engine") }
func fmtNative(spec string, v any) (string, bool)  { panic("engine") }
func ptrString(v any) string                       { panic("engine") }

const (
	rkInvalid = iota
	rkBool
	rkInt
	rkUint
	rkFloat
	rkString
	rkPtr
	rkStruct
	rkSlice
	rkArray
	rkMap
	rkFunc
	rkInterface
	rkOther
)

// RuntimeError is what the machine panics with.
type RuntimeError struct{ msg string }

func (e *RuntimeError) Error() string { return e.msg }
func (e *RuntimeError) RuntimeError() {}

type stringer interface{ String() string }
type goStringer interface{ GoString() string }

func format(v any, verb byte, plus, sharp bool, top bool) string {
	if v == nil {
		if top && (verb == 'd' || verb == 's' || verb == 'q') {
			return "%!" + string(verb) + "(<nil>)"
		}
		return "<nil>"
	}
	k := kindOf(v)
	if !sharp && (verb == 'v' || verb == 's' || verb == 'q') {
		if e, ok := v.(error); ok {
			if k == rkPtr && isNil(v) {
				return "<nil>"
			}
			return quoteIf(e.Error(), verb)
		}
		if e, ok := v.(stringer); ok {
			if k == rkPtr && isNil(v) {
				return "<nil>"
			}
			return quoteIf(e.String(), verb)
		}
	}
	switch k {
	case rkBool:
		out := "false"
		if asBool(v) {
			out = "true"
		}
		if verb != 'v' && verb != 't' {
			return "%!" + string(rune(verb)) + "(" + typeName(v) + "=" + out + ")"
		}
		return out
	case rkInt, rkUint:
		if s, ok := fmtNative("%"+string(rune(verb)), v); ok {
			return s
		}
		n := asInt(v)
		switch verb {
		case 'c':
			return string(rune(n))
		case 'x':
			return strconv.FormatInt(int64(n), 16)
		case 'X':
			return strings.ToUpper(strconv.FormatInt(int64(n), 16))
		case 'q':
			return strconv.QuoteRune(rune(n))
		case 'U':
			return "U+" + strings.ToUpper(strconv.FormatInt(int64(n), 16))
		case 's':
			return "%!s(" + typeName(v) + "=" + strconv.Itoa(n) + ")"
		}
		return strconv.Itoa(n)
	case rkFloat:
		if s, ok := fmtNative("%"+string(rune(verb)), v); ok {
			return s
		}
		if verb == 's' || verb == 'd' || verb == 'q' {
			return "%!" + string(rune(verb)) + "(" + typeName(v) + "=" + fmtFloat(asFloat(v)) + ")"
		}
		return fmtFloat(asFloat(v))
	case rkString:
		s := asString(v)
		if verb == 'd' {
			return "%!d(" + typeName(v) + "=" + s + ")"
		}
		if verb == 'x' || verb == 'X' {
			if s, ok := fmtNative("%"+string(rune(verb)), s); ok {
				return s
			}
		}
		if sharp {
			return quote(s)
		}
		return quoteIf(s, verb)
	case rkPtr:
		if verb == 's' || verb == 'q' {
			if !top || isNil(v) {
				return "%!" + string(rune(verb)) + "(" + typeName(v) + "=" + format(v, 'v', plus, sharp, true) + ")"
			}
		}
		if isNil(v) {
			return "<nil>"
		}
		e := elem(v)
		if ek := kindOf(e); top && (ek == rkStruct || ek == rkSlice || ek == rkMap || ek == rkArray) {
			return "&" + format(e, verb, plus, sharp, false)
		}
		return ptrString(v)
	case rkStruct:
		out := "{"
		for i := 0; i < numField(v); i++ {
			if i > 0 {
				out += " "
			}
			if plus {
				out += fieldName(v, i) + ":"
			}
			out += format(field(v, i), verb, plus, sharp, false)
		}
		return out + "}"
	case rkSlice, rkArray:
		if isBytes(v) && (verb == 's' || verb == 'q') {
			return quoteIf(bytesString(v), verb)
		}
		out := "["
		for i, e := range elems(v) {
			if i > 0 {
				out += " "
			}
			out += format(e, verb, plus, sharp, false)
		}
		return out + "]"
	case rkMap:
		ks, vs := mapKeys(v), mapVals(v)
		var ss []string
		for i, e := range ks {
			ss = append(ss, format(e, verb, plus, sharp, false)+":"+format(vs[i], verb, plus, sharp, false))
		}
		sort.Strings(ss)
		return "map[" + strings.Join(ss, " ") + "]"
	}
	return ptrString(v)
}

func quoteIf(s string, verb byte) string {
	if verb == 'q' {
		return quote(s)
	}
	return s
}

func pad(s string, width int, minus, zero bool) string {
	if width == 0 {
		return s
	}
	for len(s) < width {
		if minus {
			s += " "
		} else if zero {
			s = "0" + s
		} else {
			s = " " + s
		}
	}
	return s
}

func sprintf(f string, a []any, wrapped *[]error) string {
	out := ""
	n := 0
	i := 0
	indexed := false
	for i < len(f) {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out += f[i:]
			break
		}
		out += f[i : i+j]
		i += j + 1
		spec := "%"
		at := i
		plus, minus, sharp, zero := false, false, false, false
		for i < len(f) {
			switch f[i] {
			case '+':
				plus = true
			case '-':
				minus = true
			case '#':
				sharp = true
			case '0':
				zero = true
			case ' ':
			default:
				goto flagsDone
			}
			i++
		}
	flagsDone:
		width := 0
		prec := false
		for i < len(f) && (f[i] >= '0' && f[i] <= '9' || f[i] == '*' || f[i] == '.') {
			switch {
			case f[i] == '*':
				if n < len(a) {
					width = asInt(a[n])
					n++
				}
				spec += f[at:i] + strconv.Itoa(width)
				at = i + 1
			case f[i] == '.':
				i++
				prec = true
				for i < len(f) && f[i] >= '0' && f[i] <= '9' {
					i++
				}
				continue
			default:
				width = width*10 + int(f[i]-'0')
			}
			i++
		}
		if i < len(f) && f[i] == '[' {
			k := 0
			spec += f[at:i]
			for i++; i < len(f) && f[i] >= '0' && f[i] <= '9'; i++ {
				k = k*10 + int(f[i]-'0')
			}
			i++
			at = i
			if k >= 1 && k <= len(a) {
				n = k - 1
				indexed = true
			}
		}
		if i >= len(f) {
			out += "%!(NOVERB)"
			break
		}
		verb := f[i]
		i++
		if verb == '%' {
			out += "%"
			continue
		}
		if n >= len(a) {
			out += "%!" + string(verb) + "(MISSING)"
			continue
		}
		spec += f[at:i]
		v := a[n]
		n++
		if len(spec) > 2 && v != nil && verb != 'T' && verb != 'p' && verb != 'w' {
			k := kindOf(v)
			_, isErr := v.(error)
			_, isStr := v.(stringer)
			if k >= rkBool && k <= rkFloat && !isErr && !isStr || k == rkString && !isErr && !isStr && (prec || sharp || verb == 'x' || verb == 'X') {
				if s, ok := fmtNative(spec, v); ok {
					out += s
					continue
				}
			}
		}
		switch verb {
		case 'T':
			out += typeName(v)
			continue
		case 'w':
			if wrapped != nil {
				if e, ok := v.(error); ok && e != nil {
					*wrapped = append(*wrapped, e)
				}
			}
			verb = 'v'
		case 'p':
			out += ptrString(v)
			continue
		}
		s := format(v, verb, plus, sharp, true)
		if width > 0 {
			s = pad(s, width, minus, zero)
		}
		out += s
	}
	if n < len(a) && !indexed {
		out += "%!(EXTRA "
		for k := n; k < len(a); k++ {
			if k > n {
				out += ", "
			}
			out += typeName(a[k]) + "=" + format(a[k], 'v', false, false, true)
		}
		out += ")"
	}
	return out
}

//gosym:replace fmt.Sprintf
func Sprintf(f string, a ...any) string { return sprintf(f, a, nil) }

//gosym:replace fmt.Sprint
func Sprint(a ...any) string {
	out := ""
	prevString := true
	for i, v := range a {
		isStr := v != nil && kindOf(v) == rkString
		if i > 0 && !isStr && !prevString {
			out += " "
		}
		out += format(v, 'v', false, false, true)
		prevString = isStr
	}
	return out
}

//gosym:replace fmt.Sprintln
func Sprintln(a ...any) string {
	out := ""
	for i, v := range a {
		if i > 0 {
			out += " "
		}
		out += format(v, 'v', false, false, true)
	}
	return out + "\n"
}

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

type wrapErrors struct {
	msg  string
	errs []error
}

func (e *wrapErrors) Error() string   { return e.msg }
func (e *wrapErrors) Unwrap() []error { return e.errs }

//gosym:replace fmt.Errorf
func Errorf(f string, a ...any) error {
	var w []error
	s := sprintf(f, a, &w)
	switch len(w) {
	case 0:
		return errors.New(s)
	case 1:
		return &wrapError{s, w[0]}
	}
	return &wrapErrors{s, w}
}

//gosym:replace fmt.Fprintf
func Fprintf(w io.Writer, f string, a ...any) (int, error) {
	return io.WriteString(w, sprintf(f, a, nil))
}

//gosym:replace fmt.Fprint
func Fprint(w io.Writer, a ...any) (int, error) { return io.WriteString(w, Sprint(a...)) }

//gosym:replace fmt.Fprintln
func Fprintln(w io.Writer, a ...any) (int, error) { return io.WriteString(w, Sprintln(a...)) }

//gosym:replace fmt.Printf
func Printf(f string, a ...any) (int, error) { write("stdout", sprintf(f, a, nil)); return 0, nil }

//gosym:replace fmt.Print
func Print(a ...any) (int, error) { write("stdout", Sprint(a...)); return 0, nil }

//gosym:replace fmt.Println
func Println(a ...any) (int, error) { write("stdout", Sprintln(a...)); return 0, nil }

//gosym:replace log.Fatal
func logFatal(a ...any) { write("stderr", Sprint(a...)+"\n"); os.Exit(1) }

//gosym:replace log.Fatalf
func logFatalf(f string, a ...any) { write("stderr", sprintf(f, a, nil)+"\n"); os.Exit(1) }

//gosym:replace log.Println
func logPrintln(a ...any) { write("stderr", Sprintln(a...)) }

//gosym:replace log.Printf
func logPrintf(f string, a ...any) { write("stderr", sprintf(f, a, nil)+"\n") }

//gosym:replace io.WriteString
func writeString(w io.Writer, s string) (int, error) {
	if f, ok := w.(*os.File); ok {
		return f.Write([]byte(s))
	}
	if sw, ok := w.(io.StringWriter); ok {
		return sw.WriteString(s)
	}
	return w.Write([]byte(s))
}

//gosym:replace errors.Is
func errorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return is(err, target, comparable_(target))
}

func is(err, target error, cmp bool) bool {
	for {
		if cmp && comparable_(err) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && is(e, target, cmp) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

//gosym:replace errors.As
func errorsAs(err error, target any) bool {
	if err == nil {
		return false
	}
	for {
		if asTarget(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && errorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

//gosym:replace sort.Slice sort.SliceStable
func sortSlice(x any, less func(i, j int) bool) {
	n := len(elems(x))
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(x, j, j-1)
		}
	}
}
