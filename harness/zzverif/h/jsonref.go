package h

import "github.com/kwilteam/kuneiform/zzverif/nd"

// jv is a JSON value of the reference encoder.
type jv struct {
	lit  string // string (quoted), number, true, false, null
	keys []string
	vals []*jv
	kind byte // 'l' literal, 'o' object, 'a' array
}

func jstr(x string) *jv { return &jv{kind: 'l', lit: nd.Quote(x)} }
func jlit(x string) *jv { return &jv{kind: 'l', lit: x} }
func jobj() *jv         { return &jv{kind: 'o'} }
func jarr() *jv         { return &jv{kind: 'a'} }

func (j *jv) set(k string, v *jv) *jv {
	j.keys = append(j.keys, k)
	j.vals = append(j.vals, v)
	return j
}

func (j *jv) add(v *jv) { j.vals = append(j.vals, v) }

func (j *jv) text(indent string) string {
	switch {
	case j.kind == 'l':
		return j.lit
	case len(j.vals) == 0 && j.kind == 'o':
		return "{}"
	case len(j.vals) == 0:
		return "[]"
	}
	open, end := "{", "}"
	if j.kind == 'a' {
		open, end = "[", "]"
	}
	out := open
	for i, v := range j.vals {
		if i > 0 {
			out += ","
		}
		out += "\n" + indent + "  "
		if j.kind == 'o' {
			out += "\"" + j.keys[i] + "\": "
		}
		out += v.text(indent + "  ")
	}
	return out + "\n" + indent + end
}

// ---- decoding ----

type jdec struct {
	s  string
	at int
	ok bool
}

// decodeJSON is the value of a JSON text, nil if it is none. The literals of
// strings are their decoded characters behind a quote.
func decodeJSON(s string) *jv {
	d := &jdec{s: s, ok: true}
	v := d.value(0)
	d.blank()
	if !d.ok || d.at != len(s) {
		return nil
	}
	return v
}

func (d *jdec) blank() {
	for d.at < len(d.s) && (d.s[d.at] == ' ' || d.s[d.at] == '\n' || d.s[d.at] == '\t' || d.s[d.at] == '\r') {
		d.at++
	}
}

func (d *jdec) take(c byte) bool {
	d.blank()
	if d.at < len(d.s) && d.s[d.at] == c {
		d.at++
		return true
	}
	return false
}

func (d *jdec) need(c byte) {
	if !d.take(c) {
		d.ok = false
	}
}

func (d *jdec) value(depth int) *jv {
	d.blank()
	if !d.ok || d.at >= len(d.s) || depth > 50 {
		d.ok = false
		return nil
	}
	switch d.s[d.at] {
	case '{':
		d.at++
		o := jobj()
		if d.take('}') {
			return o
		}
		for d.ok {
			d.blank()
			k := d.str()
			for _, x := range o.keys {
				if x == k {
					d.ok = false
				}
			}
			d.need(':')
			o.set(k, d.value(depth+1))
			if d.take('}') {
				break
			}
			d.need(',')
		}
		return o
	case '[':
		d.at++
		a := jarr()
		if d.take(']') {
			return a
		}
		for d.ok {
			a.add(d.value(depth + 1))
			if d.take(']') {
				break
			}
			d.need(',')
		}
		return a
	case '"':
		return jlit("\"" + d.str())
	}
	i := d.at
	for d.at < len(d.s) {
		c := d.s[d.at]
		if !(c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '-' || c == '+' || c == '.' || c == 'E') {
			break
		}
		d.at++
	}
	if i == d.at {
		d.ok = false
	}
	return jlit(d.s[i:d.at])
}

func (d *jdec) hex4() int {
	x := 0
	for i := 0; i < 4; i++ {
		if d.at >= len(d.s) {
			d.ok = false
			return 0
		}
		c := d.s[d.at]
		d.at++
		switch {
		case c >= '0' && c <= '9':
			x = x*16 + int(c-'0')
		case c >= 'a' && c <= 'f':
			x = x*16 + int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			x = x*16 + int(c-'A') + 10
		default:
			d.ok = false
		}
	}
	return x
}

func (d *jdec) str() string {
	if d.at >= len(d.s) || d.s[d.at] != '"' {
		d.ok = false
		return ""
	}
	d.at++
	var out []byte
	for d.at < len(d.s) {
		c := d.s[d.at]
		d.at++
		switch {
		case c == '"':
			return string(out)
		case c < 0x20:
			d.ok = false
			return ""
		case c != '\\':
			out = append(out, c)
		case d.at >= len(d.s):
			d.ok = false
			return ""
		default:
			e := d.s[d.at]
			d.at++
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'b':
				out = append(out, 8)
			case 'f':
				out = append(out, 12)
			case 'n':
				out = append(out, 10)
			case 'r':
				out = append(out, 13)
			case 't':
				out = append(out, 9)
			case 'u':
				r := d.hex4()
				if r >= 0xd800 && r < 0xdc00 && d.at+1 < len(d.s) && d.s[d.at] == '\\' && d.s[d.at+1] == 'u' {
					d.at += 2
					r = 0x10000 + (r-0xd800)*0x400 + (d.hex4() - 0xdc00)
				}
				out = append(out, string(rune(r))...)
			default:
				d.ok = false
				return ""
			}
		}
	}
	d.ok = false
	return ""
}

// same: equal values; the members of an object may be in any order.
func (j *jv) same(o *jv) bool {
	if j == nil || o == nil || j.kind != o.kind || len(j.vals) != len(o.vals) {
		return false
	}
	if j.kind == 'l' {
		return j.lit == o.lit
	}
	for i, v := range j.vals {
		w := (*jv)(nil)
		if j.kind == 'a' {
			w = o.vals[i]
		} else {
			for k, n := range o.keys {
				if n == j.keys[i] {
					w = o.vals[k]
				}
			}
		}
		if !v.same(w) {
			return false
		}
	}
	return true
}

// compareJSON: the text is the JSON of the reference value.
func compareJSON(got string, want *jv) {
	w := want.text("")
	if got == w {
		return
	}
	a, b := nd.ConcreteStr(got), nd.ConcreteStr(w)
	nd.Observe("~json", a)
	nd.Observe("~expected", b)
	x, y := decodeJSON(a), decodeJSON(b)
	nd.Assert(x != nil, "no JSON text")
	nd.Assert(x.same(y), "JSON text")
}

func jstrs(xs []string) *jv {
	if len(xs) == 0 {
		return jlit("null")
	}
	a := jarr()
	for _, x := range xs {
		a.add(jstr(x))
	}
	return a
}

func jTable(t *rTable) *jv {
	o := jobj().set("name", jstr(t.name))
	cols := jarr()
	for _, c := range t.cols {
		oc := jobj().set("name", jstr(c.name)).set("type", jstr(c.typ))
		as := jarr()
		for _, a := range c.attrs {
			oa := jobj().set("type", jstr(mapStr(a.kind, attrTable)))
			if a.val != "" {
				oa.set("value", jstr(a.val))
			}
			as.add(oa)
		}
		if len(c.attrs) > 0 {
			oc.set("attributes", as)
		}
		cols.add(oc)
	}
	o.set("columns", cols)
	idx, fks := jarr(), jarr()
	for _, it := range t.items {
		if !it.isFK {
			idx.add(jobj().set("name", jstr(it.idx.name)).set("columns", jstrs(it.idx.cols)).set("type", jstr(mapStr(it.idx.kind, idxTable))))
			continue
		}
		acts := jarr()
		for _, a := range it.fk.acts {
			acts.add(jobj().set("on", jstr(mapStr(a.on, onTable))).set("do", jstr(mapStr(a.do, doTable))))
		}
		if len(it.fk.acts) == 0 {
			acts = jlit("null")
		}
		fks.add(jobj().set("child_keys", jstrs(it.fk.child)).set("parent_keys", jstrs(it.fk.pcols)).set("parent_table", jstr(it.fk.parent)).set("actions", acts))
	}
	if len(idx.vals) > 0 {
		o.set("indexes", idx)
	}
	if len(fks.vals) > 0 {
		o.set("foreign_keys", fks)
	}
	return o
}

func jAction(a *rAction) *jv {
	o := jobj().set("name", jstr(a.name))
	if len(a.anns) > 0 {
		x := jarr()
		for _, n := range a.anns {
			x.add(jstr(annText(n)))
		}
		o.set("annotations", x)
	}
	o.set("inputs", jstrs(a.parms))
	var pub, view []bool
	own := false
	for _, m := range a.mods {
		pub = append(pub, m == "public")
		view = append(view, m == "view")
		own = own || m == "owner"
	}
	p, v := nd.Or(pub...), nd.Or(view...)
	o.set("public", jlit(nd.IteStr(p, "true", "false")))
	o.set("mutability", jlit(nd.IteStr(v, "\"view\"", "\"update\"")))
	if own {
		o.set("auxiliaries", jstrs([]string{"owner"}))
	} else {
		o.set("auxiliaries", jlit("null"))
	}
	x := jarr()
	for _, s := range a.stmts {
		x.add(jstr(stmtText(s)))
	}
	if len(a.stmts) > 0 {
		o.set("statements", x)
	}
	return o
}

func jDoc(d *rDoc) *jv {
	o := jobj().set("owner", jstr("")).set("name", jstr(d.db))
	ts, as, es := jarr(), jarr(), jarr()
	var ini *rAction
	for _, x := range d.decls {
		switch {
		case x.table != nil:
			ts.add(jTable(x.table))
		case x.action != nil:
			as.add(jAction(x.action))
		case x.init != nil:
			ini = x.init
		}
	}
	if ini != nil {
		as.add(jAction(&rAction{name: "init", stmts: ini.stmts}))
	}
	for _, e := range d.exts {
		c := jarr()
		for _, x := range e.conf {
			c.add(jobj().set("argument", jstr(x[0])).set("value", jstr(x[1])))
		}
		if len(e.conf) == 0 {
			c = jlit("null")
		}
		es.add(jobj().set("name", jstr(e.name)).set("config", c).set("alias", jstr(e.alias)))
	}
	if len(ts.vals) > 0 {
		o.set("tables", ts)
	}
	if len(as.vals) > 0 {
		o.set("actions", as)
	}
	if len(es.vals) > 0 {
		o.set("extensions", es)
	}
	return o
}
