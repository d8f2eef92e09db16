package h

import (
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/zzverif/nd"
)

// texts that are easily encoded wrongly
var jsonTexts = []string{
	"x", "", "a\"b", "back\\slash", "\\", "\"", "<a>&b", "nl\nx", "\r\n\t", "\x00\x1f\x7f", "\b\f", "\u2028\u2029", "\u00e9\u6f22", "\U0001f600", "\ufffd", "',', \"type\": \"int\"", "\\u0041", "\\n", "{}", "null", "/", "  ",
	"12", "0012", "12345678901234567890123", "-1.5e3", "true", "\\u003c\\u003e\\u0026", "'12'", "'a'", "init", "@a(b=1)", "$a",
}

// texts builds the strings of a schema: all different, except one that is any of
// the pool (or every one, free mode).
type texts struct {
	n, at int
	e     int
	free  bool
}

func (t *texts) next(label string) string {
	t.n++
	if t.free {
		return nd.OneOf(lab(label, t.n), jsonTexts...)
	}
	if t.n-1 == t.at {
		return nd.OneOf("text", jsonTexts...)
	}
	return lab(label, t.n)
}

// enum: one of the values, any of them in free mode.
func (t *texts) enum(label string, opts ...string) string {
	t.e++
	if t.free {
		return nd.OneOf(label, opts...)
	}
	return opts[t.e%len(opts)]
}

func (t *texts) list(label string, n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, t.next(label))
	}
	return l
}

func upto(label string) int { return nd.Concrete(nd.Int(label, 0, nd.Param(label))) }

// jsonSchema is a schema with any number of parts up to the parameters.
func jsonSchema(t *texts) *schema.Schema {
	s := &schema.Schema{Owner: t.next("owner"), Name: t.next("name")}
	nt := upto("tables")
	nc, na, ni, nic, nf, nk, nfa := 0, 0, 0, 0, 0, 0, 0
	if nt > 0 {
		nc, ni, nf = upto("cols"), upto("idxs"), upto("fks")
	}
	if nc > 0 {
		na = upto("attrs")
	}
	if ni > 0 {
		nic = upto("icols")
	}
	if nf > 0 {
		nk, nfa = upto("keys"), upto("facts")
	}
	for i := 0; i < nt; i++ {
		tb := schema.Table{Name: t.next("t")}
		for j := 0; j < nc; j++ {
			c := schema.Column{Name: t.next("c"), Type: schema.ColumnType(t.enum(lab("ct", i, "_", j), "int", "text", "blob", "null"))}
			for k := 0; k < na; k++ {
				a := schema.Attribute{Type: schema.AttributeType(t.enum(lab("at", i, "_", j, "_", k), "primary_key", "unique", "not_null", "default", "min", "max", "min_length", "max_length"))}
				if (k+j)%2 == 0 {
					a.Value = t.next("v")
				}
				c.Attributes = append(c.Attributes, a)
			}
			tb.Columns = append(tb.Columns, c)
		}
		for j := 0; j < ni; j++ {
			x := schema.Index{Name: t.next("i"), Columns: t.list("ic", nic)}
			if (i+j)%3 != 1 {
				x.Type = schema.IndexType(t.enum(lab("it", i, "_", j), "btree", "unique_btree", "primary"))
			}
			tb.Indexes = append(tb.Indexes, x)
		}
		for j := 0; j < nf; j++ {
			f := schema.ForeignKey{ChildKeys: t.list("ck", nk), ParentKeys: t.list("pk", nk), ParentTable: t.next("pt")}
			for k := 0; k < nfa; k++ {
				f.Actions = append(f.Actions, schema.ForeignKeyAction{On: schema.ForeignKeyActionOn(t.enum(lab("on", i, "_", j, "_", k), "UPDATE", "DELETE")),
					Do: schema.ForeignKeyActionDo(t.enum(lab("do", i, "_", j, "_", k), "NO ACTION", "RESTRICT", "SET NULL", "SET DEFAULT", "CASCADE"))})
			}
			tb.ForeignKeys = append(tb.ForeignKeys, f)
		}
		s.Tables = append(s.Tables, tb)
	}
	n := upto("actions")
	nn, np, nx, ns := 0, 0, 0, 0
	if n > 0 {
		nn, np, nx, ns = upto("anns"), upto("inputs"), upto("auxs"), upto("stmts")
	}
	for i := 0; i < n; i++ {
		a := schema.Action{Name: t.next("a"), Annotations: t.list("an", nn), Inputs: t.list("in", np), Public: t.enum(lab("public", i), "yes", "no") == "yes",
			Mutability: schema.MutabilityType(t.enum(lab("mut", i), "update", "view", "")), Statements: t.list("s", ns)}
		for k := 0; k < nx; k++ {
			a.Auxiliaries = append(a.Auxiliaries, schema.AuxiliaryType(t.next("x")))
		}
		s.Actions = append(s.Actions, a)
	}
	ne, ng := upto("exts"), 0
	if ne > 0 {
		ng = upto("conf")
	}
	for i := 0; i < ne; i++ {
		e := schema.Extension{Name: t.next("e"), Alias: t.next("l")}
		for k := 0; k < ng; k++ {
			e.Config = append(e.Config, schema.ExtensionConfig{Argument: t.next("g"), Value: t.next("gv")})
		}
		s.Extensions = append(s.Extensions, e)
	}
	return s
}

func jsOpt(o *jv, key string, l *jv) {
	if len(l.vals) > 0 {
		o.set(key, l)
	}
}

func jsTable(t *schema.Table) *jv {
	o := jobj().set("name", jstr(t.Name))
	cs, is, fs := jarr(), jarr(), jarr()
	for i := range t.Columns {
		cs.add(jsColumn(&t.Columns[i]))
	}
	for i := range t.Indexes {
		is.add(jsIndex(&t.Indexes[i]))
	}
	for i := range t.ForeignKeys {
		fs.add(jsKey(&t.ForeignKeys[i]))
	}
	jsOpt(o, "columns", cs)
	jsOpt(o, "indexes", is)
	jsOpt(o, "foreign_keys", fs)
	return o
}

func jsColumn(c *schema.Column) *jv {
	o, as := jobj().set("name", jstr(c.Name)).set("type", jstr(string(c.Type))), jarr()
	for i := range c.Attributes {
		as.add(jsAttr(&c.Attributes[i]))
	}
	jsOpt(o, "attributes", as)
	return o
}

func jsAttr(a *schema.Attribute) *jv {
	o := jobj().set("type", jstr(string(a.Type)))
	if a.Value != nil {
		o.set("value", jstr(a.Value.(string)))
	}
	return o
}

func jsIndex(x *schema.Index) *jv {
	o := jobj().set("name", jstr(x.Name)).set("columns", jstrs(x.Columns))
	if x.Type != "" {
		o.set("type", jstr(string(x.Type)))
	}
	return o
}

func jsKey(f *schema.ForeignKey) *jv {
	as := jarr()
	for _, a := range f.Actions {
		as.add(jobj().set("on", jstr(string(a.On))).set("do", jstr(string(a.Do))))
	}
	if len(f.Actions) == 0 {
		as = jlit("null")
	}
	return jobj().set("child_keys", jstrs(f.ChildKeys)).set("parent_keys", jstrs(f.ParentKeys)).set("parent_table", jstr(f.ParentTable)).set("actions", as)
}

func jsAction(a *schema.Action) *jv {
	o := jobj().set("name", jstr(a.Name))
	if len(a.Annotations) > 0 {
		o.set("annotations", jstrs(a.Annotations))
	}
	var xs []string
	for _, x := range a.Auxiliaries {
		xs = append(xs, string(x))
	}
	pub := "false"
	if a.Public {
		pub = "true"
	}
	o.set("inputs", jstrs(a.Inputs)).set("public", jlit(pub)).set("mutability", jstr(string(a.Mutability))).set("auxiliaries", jstrs(xs))
	if len(a.Statements) > 0 {
		o.set("statements", jstrs(a.Statements))
	}
	return o
}

func jsExt(e *schema.Extension) *jv {
	c := jarr()
	for _, x := range e.Config {
		c.add(jobj().set("argument", jstr(x.Argument)).set("value", jstr(x.Value)))
	}
	if len(e.Config) == 0 {
		c = jlit("null")
	}
	return jobj().set("name", jstr(e.Name)).set("config", c).set("alias", jstr(e.Alias))
}

func jsSchema(s *schema.Schema) *jv {
	o := jobj().set("owner", jstr(s.Owner)).set("name", jstr(s.Name))
	ts, as, es := jarr(), jarr(), jarr()
	for i := range s.Tables {
		ts.add(jsTable(&s.Tables[i]))
	}
	for i := range s.Actions {
		as.add(jsAction(&s.Actions[i]))
	}
	for i := range s.Extensions {
		es.add(jsExt(&s.Extensions[i]))
	}
	jsOpt(o, "tables", ts)
	jsOpt(o, "actions", as)
	jsOpt(o, "extensions", es)
	return o
}

func encoded(what string, f func() ([]byte, error), want *jv, full bool) {
	var b []byte
	var err error
	p := nd.Try(func() { b, err = f() })
	nd.Assert(p == nil, "encoding panics")
	nd.Assert(err == nil, "encoding fails")
	got := string(b)
	nd.Observe(what, got)
	again, err := f()
	nd.Assert(err == nil && string(again) == got, "encoding again gives another text")
	if !full {
		compareJSON(got, want)
		return
	}
	// the text again decoded, with the strings it stands for
	got = nd.ConcreteStr(got)
	d := decodeJSON(got)
	nd.Assert(d != nil, "no JSON text")
	w := decodeJSON(nd.ConcreteStr(want.text("")))
	nd.Assert(d.same(w), "JSON text")
	nd.Reach("decoded")
}

// Encode (C17): schemas with any number of parts; every string free.
func Encode() {
	s := jsonSchema(&texts{free: true})
	encoded("json", s.ToJSON, jsSchema(s), false)
	for i := range s.Tables {
		t := &s.Tables[i]
		encoded("table", t.ToJSON, jsTable(t), false)
		for j := range t.Columns {
			encoded("column", t.Columns[j].ToJSON, jsColumn(&t.Columns[j]), false)
			for k := range t.Columns[j].Attributes {
				encoded("attribute", t.Columns[j].Attributes[k].ToJSON, jsAttr(&t.Columns[j].Attributes[k]), false)
			}
		}
		for j := range t.Indexes {
			encoded("index", t.Indexes[j].ToJSON, jsIndex(&t.Indexes[j]), false)
		}
		for j := range t.ForeignKeys {
			encoded("key", t.ForeignKeys[j].ToJSON, jsKey(&t.ForeignKeys[j]), false)
		}
	}
	for i := range s.Actions {
		encoded("action", s.Actions[i].ToJSON, jsAction(&s.Actions[i]), false)
	}
	for i := range s.Extensions {
		encoded("extension", s.Extensions[i].ToJSON, jsExt(&s.Extensions[i]), false)
	}
	nd.Reach("encoded")
}

// DecodeSelf: the reference encoder and the decoder are inverse on the pool.
func DecodeSelf() {
	for _, x := range jsonTexts {
		d := decodeJSON("{ \"" + "k\" : [" + nd.Quote(x) + " ] }")
		nd.Assert(d != nil && d.keys[0] == "k" && d.vals[0].vals[0].lit == "\""+x, "the reference decoder")
	}
	nd.Assert(decodeJSON("[1,]") == nil && decodeJSON("{\"a\":1") == nil && decodeJSON("\"\n\"") == nil && decodeJSON("{} x") == nil, "the reference decoder accepts too much")
	nd.Reach("decoded")
}

// Decode (C17): one string at any place is any of the pool; the decoded text is
// the schema.
func Decode() {
	s := jsonSchema(&texts{at: nd.Concrete(nd.Int("at", 0, nd.Param("places")-1))})
	nd.ConcreteAll()
	encoded("json", s.ToJSON, jsSchema(s), true)
}
