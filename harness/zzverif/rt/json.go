package rt

import (
	"encoding/json"
	"errors"
	"io"
	"sort"
	"strconv"
)

// A model of encoding/json's encoder.

type textMarshaler interface{ MarshalText() ([]byte, error) }

type jsonOpts struct {
	html           bool
	indent         bool
	prefix, indstr string
}

type jsonState struct {
	o   jsonOpts
	err error
	n   int
}

func (s *jsonState) nl(depth int) string {
	if !s.o.indent {
		return ""
	}
	out := "\n" + s.o.prefix
	for i := 0; i < depth; i++ {
		out += s.o.indstr
	}
	return out
}

func (s *jsonState) str(x string) string {
	if s.o.html {
		return "\"" + jsonEscape(x) + "\""
	}
	return "\"" + jsonEscapePlain(x) + "\""
}

func (s *jsonState) embed(raw string, depth int) string {
	if s.o.html {
		raw = jsonHTML(raw)
	}
	if !s.o.indent {
		return jsonReindent(raw, "", "", false, 0)
	}
	return jsonReindent(raw, s.o.prefix, s.o.indstr, true, depth)
}

func (s *jsonState) value(v any, depth int) string {
	if s.err != nil {
		return ""
	}
	if s.n++; s.n > 100000 {
		unsupported("json: nesting")
	}
	if v == nil {
		return "null"
	}
	k := kindOf(v)
	if m, ok := v.(json.Marshaler); ok {
		if (k == rkPtr || k == rkInterface) && isNil(v) {
			return "null"
		}
		b, err := m.MarshalJSON()
		if err != nil {
			s.err = Errorf("json: error calling MarshalJSON for type %s: %w", typeName(v), err)
			return ""
		}
		return s.embed(string(b), depth)
	}
	if m, ok := v.(textMarshaler); ok {
		if k == rkPtr && isNil(v) {
			return "null"
		}
		b, err := m.MarshalText()
		if err != nil {
			s.err = Errorf("json: error calling MarshalText for type %s: %w", typeName(v), err)
			return ""
		}
		return s.str(string(b))
	}
	switch k {
	case rkBool:
		if asBool(v) {
			return "true"
		}
		return "false"
	case rkInt, rkUint:
		return strconv.Itoa(asInt(v))
	case rkFloat:
		return fmtFloat(asFloat(v))
	case rkString:
		if _, ok := v.(json.Number); ok {
			x := asString(v)
			if x == "" {
				return "0"
			}
			if i, ok := jsonNumber(x, 0); !ok || i != len(x) {
				s.err = errors.New("json: invalid number literal " + strconv.Quote(x))
			}
			return x
		}
		return s.str(asString(v))
	case rkPtr:
		if isNil(v) {
			return "null"
		}
		return s.ptr(v, depth)
	case rkStruct:
		return s.strct(v, depth)
	case rkSlice:
		if isNil(v) {
			return "null"
		}
		if isBytes(v) {
			unsupported("json: []byte")
		}
		return s.seq(elems(v), depth)
	case rkArray:
		return s.seq(elems(v), depth)
	case rkMap:
		if isNil(v) {
			return "null"
		}
		return s.mp(v, depth)
	}
	s.err = errors.New("json: unsupported type: " + typeName(v))
	return ""
}

// ptr: methods of the pointer type were tried already; a value reached through
// a pointer is addressable, so pointer methods of its fields count too.
func (s *jsonState) ptr(v any, depth int) string {
	e := elem(v)
	if kindOf(e) == rkStruct {
		return s.fields(v, true, depth)
	}
	return s.value(e, depth)
}

func (s *jsonState) strct(v any, depth int) string { return s.fields(v, false, depth) }

type jsonField struct {
	name string
	v    any
	addr any
	omit bool
	zero bool
	quot bool
}

func (s *jsonState) collect(v any, isPtr bool, out []jsonField) []jsonField {
	st := v
	if isPtr {
		st = elem(v)
	}
	n := numField(st)
	for i := 0; i < n; i++ {
		tag := fieldTag(st, i, "json")
		if tag == "-" {
			continue
		}
		name, opts := tag, ""
		for j := 0; j < len(tag); j++ {
			if tag[j] == ',' {
				name, opts = tag[:j], tag[j:]+","
				break
			}
		}
		if fieldEmbedded(st, i) && name == "" {
			f := field(st, i)
			k := rkInvalid
			if f != nil {
				k = kindOf(f)
			}
			if k == rkPtr && !isNil(f) && kindOf(elem(f)) == rkStruct {
				out = s.collect(f, true, out)
				continue
			}
			if k == rkPtr {
				continue
			}
			if k == rkStruct {
				out = s.collect(f, false, out)
				continue
			}
		}
		if !fieldExported(st, i) {
			continue
		}
		if name == "" {
			name = fieldName(st, i)
		}
		f := jsonField{name: name, v: field(st, i), omit: hasOpt(opts, "omitempty"), zero: hasOpt(opts, "omitzero"), quot: hasOpt(opts, "string")}
		if fieldIface(st, i) { // empty when nil only, and never quoted
			f.omit, f.zero, f.quot = (f.omit || f.zero) && f.v == nil, false, false
		}
		if isPtr {
			f.addr = fieldAddr(v, i)
		}
		out = append(out, f)
	}
	return out
}

func hasOpt(opts, o string) bool {
	x := "," + o + ","
	for i := 0; i+len(x) <= len(opts); i++ {
		if opts[i:i+len(x)] == x {
			return true
		}
	}
	return false
}

func isEmptyValue(v any) bool {
	if v == nil {
		return true
	}
	switch kindOf(v) {
	case rkBool:
		return !asBool(v)
	case rkInt, rkUint:
		return asInt(v) == 0
	case rkFloat:
		return asFloat(v) == 0
	case rkString:
		return asString(v) == ""
	case rkPtr, rkInterface:
		return isNil(v)
	case rkSlice, rkArray:
		return len(elems(v)) == 0
	case rkMap:
		return len(mapKeys(v)) == 0
	}
	return false
}

func isZeroValue(v any) bool {
	if v == nil {
		return true
	}
	switch kindOf(v) {
	case rkSlice, rkMap:
		return isNil(v)
	case rkStruct:
		for i := 0; i < numField(v); i++ {
			if !isZeroValue(field(v, i)) {
				return false
			}
		}
		return true
	}
	return isEmptyValue(v)
}

func (s *jsonState) fields(v any, isPtr bool, depth int) string {
	fs := s.collect(v, isPtr, nil)
	for i := range fs {
		for j := range fs {
			if i != j && fs[i].name == fs[j].name {
				unsupported("json: two fields of one name")
			}
		}
	}
	out := "{"
	n := 0
	for _, f := range fs {
		if f.omit && isEmptyValue(f.v) || f.zero && isZeroValue(f.v) {
			continue
		}
		if n > 0 {
			out += ","
		}
		n++
		out += s.nl(depth+1) + s.str(f.name) + ":"
		if s.o.indent {
			out += " "
		}
		x := ""
		if f.addr != nil && f.v != nil {
			// pointer methods count for addressable fields
			_, isM := f.addr.(json.Marshaler)
			_, isT := f.addr.(textMarshaler)
			if isM || isT || kindOf(f.v) == rkStruct {
				x = s.value(f.addr, depth+1)
			} else {
				x = s.value(f.v, depth+1)
			}
		} else {
			x = s.value(f.v, depth+1)
		}
		if f.quot {
			switch kindOf(f.v) {
			case rkBool, rkInt, rkUint, rkFloat:
				x = "\"" + x + "\""
			case rkString:
				x = s.str(x)
			}
		}
		out += x
	}
	if n > 0 {
		out += s.nl(depth)
	}
	return out + "}"
}

func (s *jsonState) seq(xs []any, depth int) string {
	out := "["
	for i, x := range xs {
		if i > 0 {
			out += ","
		}
		out += s.nl(depth+1) + s.value(x, depth+1)
	}
	if len(xs) > 0 {
		out += s.nl(depth)
	}
	return out + "]"
}

func (s *jsonState) mp(v any, depth int) string {
	ks, vs := mapKeys(v), mapVals(v)
	type kv struct {
		k string
		v any
	}
	var es []kv
	for i := range ks {
		k := ""
		switch kindOf(ks[i]) {
		case rkString:
			k = asString(ks[i])
		case rkInt, rkUint:
			k = strconv.Itoa(asInt(ks[i]))
		default:
			s.err = errors.New("json: unsupported type: " + typeName(v))
			return ""
		}
		es = append(es, kv{k, vs[i]})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].k < es[j].k })
	out := "{"
	for i, e := range es {
		if i > 0 {
			out += ","
		}
		out += s.nl(depth+1) + s.str(e.k) + ":"
		if s.o.indent {
			out += " "
		}
		out += s.value(e.v, depth+1)
	}
	if len(es) > 0 {
		out += s.nl(depth)
	}
	return out + "}"
}

// jsonReindent lays out a valid JSON text again (or compacts it).
func jsonReindent(raw, prefix, indent string, pretty bool, depth int) string {
	out := ""
	inStr, esc, need := false, false, false
	nl := func() {
		if !pretty {
			return
		}
		out += "\n" + prefix
		for i := 0; i < depth; i++ {
			out += indent
		}
	}
	step := func(c byte) {
		if inStr {
			out += string([]byte{c})
			if esc {
				esc = false
			} else if c == '\\' {
				esc = true
			} else if c == '"' {
				inStr = false
			}
			return
		}
		if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
			return
		}
		if need && c != ']' && c != '}' {
			need = false
			depth++
			nl()
		}
		switch c {
		case '"':
			inStr = true
			out += "\""
		case '{', '[':
			need = true
			out += string([]byte{c})
		case ',':
			out += ","
			nl()
		case ':':
			out += ":"
			if pretty {
				out += " "
			}
		case '}', ']':
			if need {
				need = false
			} else {
				depth--
				nl()
			}
			out += string([]byte{c})
		default:
			out += string([]byte{c})
		}
	}
	for _, x := range ropePieces(raw) {
		if inStr && !esc && !isConc(x) && jsonInside(x) {
			out += x
			continue
		}
		x = concStr(x)
		for i := 0; i < len(x); i++ {
			step(x[i])
		}
	}
	return out
}

func jsonEncode(v any, o jsonOpts) (string, error) {
	s := &jsonState{o: o}
	x := s.value(v, 0)
	if s.err != nil {
		return "", s.err
	}
	return x, nil
}

//gosym:replace encoding/json.Marshal
func jsonMarshal(v any) ([]byte, error) {
	s, err := jsonEncode(v, jsonOpts{html: true})
	if err != nil {
		return nil, err
	}
	return []byte(s), nil
}

//gosym:replace encoding/json.MarshalIndent
func jsonMarshalIndent(v any, prefix, indent string) ([]byte, error) {
	s, err := jsonEncode(v, jsonOpts{html: true, indent: true, prefix: prefix, indstr: indent})
	if err != nil {
		return nil, err
	}
	return []byte(s), nil
}

type encState struct {
	w io.Writer
	o jsonOpts
}

var encoders map[*json.Encoder]*encState // package variables are not initialized in the machine

//gosym:replace encoding/json.NewEncoder
func jsonNewEncoder(w io.Writer) *json.Encoder {
	e := new(json.Encoder)
	if encoders == nil {
		encoders = map[*json.Encoder]*encState{}
	}
	encoders[e] = &encState{w: w, o: jsonOpts{html: true}}
	return e
}

//gosym:replace (*encoding/json.Encoder).SetIndent
func jsonSetIndent(e *json.Encoder, prefix, indent string) {
	s := encoders[e]
	s.o.indent = prefix != "" || indent != ""
	s.o.prefix, s.o.indstr = prefix, indent
}

//gosym:replace (*encoding/json.Encoder).SetEscapeHTML
func jsonSetEscapeHTML(e *json.Encoder, on bool) { encoders[e].o.html = on }

//gosym:replace (*encoding/json.Encoder).Encode
func jsonEncoderEncode(e *json.Encoder, v any) error {
	st := encoders[e]
	s, err := jsonEncode(v, st.o)
	if err != nil {
		return err
	}
	_, err = writeString(st.w, s+"\n")
	return err
}

func jsonSpace(x string, i int) int {
	for i < len(x) && (x[i] == ' ' || x[i] == '\t' || x[i] == '\n' || x[i] == '\r') {
		i++
	}
	return i
}

func jsonDigits(x string, i int) int {
	for i < len(x) && x[i] >= '0' && x[i] <= '9' {
		i++
	}
	return i
}

// jsonNumber: the end of the number that begins at i.
func jsonNumber(x string, i int) (int, bool) {
	if i < len(x) && x[i] == '-' {
		i++
	}
	j := jsonDigits(x, i)
	if j == i {
		return i, false
	}
	if x[i] == '0' {
		j = i + 1
	}
	if j < len(x) && x[j] == '.' {
		k := jsonDigits(x, j+1)
		if k == j+1 {
			return k, false
		}
		j = k
	}
	if j < len(x) && (x[j] == 'e' || x[j] == 'E') {
		j++
		if j < len(x) && (x[j] == '+' || x[j] == '-') {
			j++
		}
		k := jsonDigits(x, j)
		if k == j {
			return k, false
		}
		j = k
	}
	return j, true
}

func jsonHas(x string, i int, w string) bool { return len(x)-i >= len(w) && x[i:i+len(w)] == w }

func jsonStr(x string, i int) (int, bool) {
	for i++; i < len(x); i++ {
		switch c := x[i]; {
		case c == '"':
			return i + 1, true
		case c < ' ':
			return i, false
		case c == '\\':
			i++
			if i == len(x) {
				return i, false
			}
			if x[i] == 'u' {
				for k := 0; k < 4; k++ {
					i++
					if i == len(x) || !(x[i] >= '0' && x[i] <= '9' || x[i] >= 'a' && x[i] <= 'f' || x[i] >= 'A' && x[i] <= 'F') {
						return i, false
					}
				}
				continue
			}
			switch x[i] {
			case '"', '\\', '/', 'b', 'f', 'n', 'r', 't':
			default:
				return i, false
			}
		}
	}
	return i, false
}

// jsonVal: the end of the value that begins at i.
func jsonVal(x string, i int) (int, bool) {
	i = jsonSpace(x, i)
	if i == len(x) {
		return i, false
	}
	switch c := x[i]; {
	case jsonHas(x, i, "true"), jsonHas(x, i, "null"):
		return i + 4, true
	case jsonHas(x, i, "false"):
		return i + 5, true
	case c == '"':
		return jsonStr(x, i)
	case c == '[' || c == '{':
		end := byte(']')
		if c == '{' {
			end = '}'
		}
		i = jsonSpace(x, i+1)
		if i < len(x) && x[i] == end {
			return i + 1, true
		}
		for {
			ok := true
			if c == '{' {
				i = jsonSpace(x, i)
				if i == len(x) || x[i] != '"' {
					return i, false
				}
				if i, ok = jsonStr(x, i); !ok {
					return i, false
				}
				i = jsonSpace(x, i)
				if i == len(x) || x[i] != ':' {
					return i, false
				}
				i++
			}
			if i, ok = jsonVal(x, i); !ok {
				return i, false
			}
			i = jsonSpace(x, i)
			if i == len(x) || x[i] != ',' && x[i] != end {
				return i, false
			}
			i++
			if x[i-1] == end {
				return i, true
			}
		}
	}
	return jsonNumber(x, i)
}

//gosym:replace encoding/json.Valid
func jsonValid(b []byte) bool {
	x := string(b)
	i, ok := jsonVal(x, 0)
	return ok && jsonSpace(x, i) == len(x)
}
