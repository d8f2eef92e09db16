package h

import (
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/zzverif/nd"
)

// rDoc is the reference model of a source text.
type rDoc struct {
	db    string
	exts  []rExt
	decls []rDecl
}

type rExt struct {
	name, alias string
	braces      bool // a configuration list is written
	conf        [][2]string
}

type rDecl struct {
	table  *rTable
	action *rAction
	init   *rAction
}

type rAction struct {
	anns  []rAnn
	name  string
	parms []string
	mods  []string
	stmts []rStmt
}

type rAnn struct {
	at    string // as written, with the @
	name  string // without the @
	attrs [][2]string
}

// rStmt is a SQL statement (sql set, without the semicolon) or the tokens of
// a call.
type rStmt struct {
	sql  string
	toks []string
}

// ---- layout ----

// layout decides what stands between two tokens.
//
//	0 a blank, 1 nothing where possible, 2 newlines and tabs, 3 block comments,
//	4 line comments, 5 carriage returns and comments that contain source text
type lay struct {
	s    string
	mode int
	prev string
	n    int
}

func punct(x string) bool {
	switch x {
	case "(", ")", "{", "}", ",", ";", ":", "=", ".", "+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "<>", "<<", ">>", "&", "|", "||", "~":
		return true
	}
	return false
}

func (l *lay) tok(x string) {
	l.n++
	cp := nd.IsConcrete(x) && punct(x)
	switch l.mode {
	case 0:
		l.s += " "
	case 1:
		// two operators need a separator only if they could be one token
		if !(cp || punct(l.prev)) || cp && punct(l.prev) && !single(x) && !single(l.prev) {
			l.s += " "
		}
	case 2:
		l.s += "\n\t"
	case 3:
		if l.prev == "/" {
			l.s += " " // a / in front would make it a line comment
		}
		l.s += "/*c*/"
	case 4:
		l.s += " // x\n"
	case 5:
		if l.n%2 == 0 {
			l.s += "\r\n"
		} else {
			l.s += " /* ' } ; #x\n table */ "
		}
	}
	l.s += x
	if nd.IsConcrete(x) {
		l.prev = x
	} else {
		l.prev = "?"
	}
}

func single(x string) bool {
	switch x {
	case "(", ")", "{", "}", ",", ";", ":":
		return true
	}
	return false
}

func (l *lay) toks(xs ...string) {
	for _, x := range xs {
		l.tok(x)
	}
}

func (l *lay) list(xs []string) {
	for i, x := range xs {
		if i > 0 {
			l.tok(",")
		}
		l.tok(x)
	}
}

// raw text right behind the last token
func (l *lay) glue(x string) { l.s += x; l.prev = x }

func (l *lay) table(t *rTable) {
	l.toks("table", t.name, "{")
	for i, c := range t.cols {
		if i > 0 {
			l.tok(",")
		}
		l.toks(c.name, c.typ)
		for _, a := range c.attrs {
			l.tok(a.kind)
			if a.val != "" {
				l.toks("(", a.val, ")")
			}
		}
	}
	for _, it := range t.items {
		l.tok(",")
		if it.isFK {
			l.toks(orDefault(it.fk.kw, "foreign_key"), "(")
			l.list(it.fk.child)
			l.toks(")", orDefault(it.fk.ref, "references"), it.fk.parent, "(")
			l.list(it.fk.pcols)
			l.tok(")")
			for _, a := range it.fk.acts {
				l.tok(a.on)
				if a.kw {
					l.tok("do")
				}
				l.tok(a.do)
			}
		} else {
			l.toks(it.idx.hash, it.idx.kind, "(")
			l.list(it.idx.cols)
			l.tok(")")
		}
	}
	if t.comma {
		l.tok(",")
	}
	l.tok("}")
}

func orDefault(x, d string) string {
	if nd.IsConcrete(x) && x == "" {
		return d
	}
	return x
}

func (l *lay) stmts(ss []rStmt) {
	l.tok("{")
	for _, s := range ss {
		if s.toks == nil {
			l.tok(s.sql)
			l.glue(";")
			continue
		}
		l.toks(s.toks...)
		l.tok(";")
	}
	l.tok("}")
}

func (l *lay) doc(d *rDoc) {
	l.toks("database", d.db, ";")
	for _, e := range d.exts {
		l.toks("use", e.name)
		if e.braces {
			l.tok("{")
			for i, c := range e.conf {
				if i > 0 {
					l.tok(",")
				}
				l.toks(c[0], ":", c[1])
			}
			l.tok("}")
		}
		l.toks("as", e.alias, ";")
	}
	for _, x := range d.decls {
		switch {
		case x.table != nil:
			l.table(x.table)
		case x.action != nil:
			a := x.action
			for _, n := range a.anns {
				l.toks(n.at, "(")
				for i, t := range n.attrs {
					if i > 0 {
						l.tok(",")
					}
					l.toks(t[0], "=", t[1])
				}
				l.tok(")")
			}
			l.toks("action", a.name, "(")
			l.list(a.parms)
			l.tok(")")
			l.toks(a.mods...)
			l.stmts(a.stmts)
		case x.init != nil:
			l.toks("init", "(", ")")
			l.stmts(x.init.stmts)
		}
	}
}

func render(d *rDoc, mode int) string {
	l := &lay{mode: mode, prev: ";"}
	l.doc(d)
	if mode == 4 {
		l.s += " // the end"
	}
	return l.s
}

// ---- expected schema ----

var attrKind = map[string]string{"primary": "primary_key", "unique": "unique", "notnull": "not_null", "default": "default", "min": "min", "max": "max", "minlen": "min_length", "maxlen": "max_length"}

// mapStr applies a table to a symbolic word.
func mapStr(x string, m [][2]string) string {
	out := ""
	for i := len(m) - 1; i >= 0; i-- {
		if i == len(m)-1 {
			out = m[i][1]
			continue
		}
		out = nd.IteStr(x == m[i][0], m[i][1], out)
	}
	return out
}

var attrTable = [][2]string{{"primary", "primary_key"}, {"unique", "unique"}, {"notnull", "not_null"}, {"default", "default"}, {"min", "min"}, {"max", "max"}, {"minlen", "min_length"}, {"maxlen", "max_length"}}
var idxTable = [][2]string{{"index", "btree"}, {"unique", "unique_btree"}, {"primary", "primary"}}
var onTable = [][2]string{{"on_update", "UPDATE"}, {"on_delete", "DELETE"}}
var doTable = [][2]string{{"no_action", "NO ACTION"}, {"cascade", "CASCADE"}, {"set_null", "SET NULL"}, {"set_default", "SET DEFAULT"}, {"restrict", "RESTRICT"}}

func words(t [][2]string) []string {
	var r []string
	for _, x := range t {
		r = append(r, x[0])
	}
	return r
}

// stmtText: a SQL statement is kept as it is; the tokens of a call are written
// one after another, with a blank only where two words would become one.
func stmtText(s rStmt) string {
	if s.toks == nil {
		return s.sql + ";"
	}
	out, prev := "", ""
	for _, x := range append(append([]string(nil), s.toks...), ";") {
		if prev != "" && wordEnd(prev) && wordStart(x) {
			out += " "
		}
		out += x
		prev = x
	}
	return out
}

func wordChar(c byte) bool {
	return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// wordEnd: the token is a word (not a number) or a $variable
func wordEnd(x string) bool {
	c := x[0]
	return c == '_' || c == '$' || c == '@' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func wordStart(x string) bool { return wordChar(x[0]) }

// sameCall: text consists of the tokens, with separators where they are needed.
func sameCall(text string, toks []string) bool {
	pos := 0
	for i, t := range append(append([]string(nil), toks...), ";") {
		sep := false
		for pos < len(text) && (text[pos] == ' ' || text[pos] == '\n' || text[pos] == '\t' || text[pos] == '\r') {
			pos++
			sep = true
		}
		if i > 0 && !sep && wordEnd(toks[i-1]) && wordStart(t) {
			return false
		}
		if len(text) < pos+len(t) || text[pos:pos+len(t)] != t {
			return false
		}
		pos += len(t)
	}
	return pos == len(text)
}

// checkStmt: the usual spelling needs no further look; any other one is
// compared token by token.
func checkStmt(e *eqs, got string, s rStmt) {
	if s.toks == nil {
		e.str("SQL statement", got, s.sql+";")
		return
	}
	if got == stmtText(s) {
		return
	}
	var toks []string
	for _, t := range s.toks {
		toks = append(toks, nd.ConcreteStr(t))
	}
	nd.Assert(sameCall(nd.ConcreteStr(got), toks), "tokens of a call statement")
}

func annText(a rAnn) string {
	out := a.name + "("
	for i, t := range a.attrs {
		if i > 0 {
			out += ","
		}
		out += t[0] + "=" + t[1]
	}
	return out + ")"
}

// eqs collects equations between what was extracted and what was written.
type eqs struct{ bad string }

func (e *eqs) str(what, got, want string) { nd.Assert(got == want, what) }
func (e *eqs) num(what string, got, want int) {
	nd.Assert(got == want, what)
}

func (e *eqs) strs(what string, got, want []string) {
	e.num(what+": count", len(got), len(want))
	for i := range want {
		e.str(what, got[i], want[i])
	}
}

func checkTables(s *schema.Schema, d *rDoc) {
	e := &eqs{}
	var ts []*rTable
	for _, x := range d.decls {
		if x.table != nil {
			ts = append(ts, x.table)
		}
	}
	e.num("number of tables", len(s.Tables), len(ts))
	for i, t := range ts {
		g := s.Tables[i]
		e.str("table name", g.Name, t.name)
		e.num("number of columns", len(g.Columns), len(t.cols))
		for j, c := range t.cols {
			gc := g.Columns[j]
			e.str("column name", gc.Name, c.name)
			e.str("column type", string(gc.Type), c.typ)
			e.num("number of constraints", len(gc.Attributes), len(c.attrs))
			for k, a := range c.attrs {
				ga := gc.Attributes[k]
				e.str("constraint type", string(ga.Type), mapStr(a.kind, attrTable))
				if a.val == "" {
					nd.Assert(ga.Value == nil, "constraint without a value has none")
					continue
				}
				v, ok := ga.Value.(string)
				nd.Assert(ok, "constraint value is present")
				e.str("constraint value", v, a.val)
			}
		}
		ni, nf := 0, 0
		for _, it := range t.items {
			if it.isFK {
				nf++
			} else {
				ni++
			}
		}
		e.num("number of indexes", len(g.Indexes), ni)
		e.num("number of foreign keys", len(g.ForeignKeys), nf)
		ni, nf = 0, 0
		for _, it := range t.items {
			if !it.isFK {
				gi := g.Indexes[ni]
				ni++
				e.str("index name", gi.Name, it.idx.name)
				e.str("index type", string(gi.Type), mapStr(it.idx.kind, idxTable))
				e.strs("index columns", gi.Columns, it.idx.cols)
				continue
			}
			gf := g.ForeignKeys[nf]
			nf++
			e.strs("child keys", gf.ChildKeys, it.fk.child)
			e.str("parent table", gf.ParentTable, it.fk.parent)
			e.strs("parent keys", gf.ParentKeys, it.fk.pcols)
			e.num("number of foreign key actions", len(gf.Actions), len(it.fk.acts))
			for k, a := range it.fk.acts {
				e.str("foreign key event", string(gf.Actions[k].On), mapStr(a.on, onTable))
				e.str("foreign key reaction", string(gf.Actions[k].Do), mapStr(a.do, doTable))
			}
		}
	}
}

func checkActions(s *schema.Schema, d *rDoc, heads, bodies bool) {
	e := &eqs{}
	var as []*rAction
	var ini *rAction
	for _, x := range d.decls {
		if x.action != nil {
			as = append(as, x.action)
		}
		if x.init != nil {
			ini = x.init
		}
	}
	n := len(as)
	if ini != nil {
		n++
	}
	e.num("number of actions", len(s.Actions), n)
	for i, a := range as {
		g := s.Actions[i]
		if heads {
			e.str("action name", g.Name, a.name)
			e.strs("parameters", g.Inputs, a.parms)
			e.num("number of annotations", len(g.Annotations), len(a.anns))
			for k, n := range a.anns {
				e.str("annotation", g.Annotations[k], annText(n))
			}
			var pub, view, owner []bool
			for _, m := range a.mods {
				pub = append(pub, m == "public")
				view = append(view, m == "view")
				owner = append(owner, m == "owner")
			}
			nd.Assert(nd.Iff(g.Public, nd.Or(pub...)), "public exactly if declared public")
			nd.Assert(g.Mutability == "view" || g.Mutability == "update", "mutability is view or update")
			nd.Assert(nd.Iff(g.Mutability == "view", nd.Or(view...)), "view exactly if declared view")
			nd.Assert(nd.Iff(len(g.Auxiliaries) == 1, nd.Or(owner...)), "auxiliaries are the declared ones")
			nd.Assert(len(g.Auxiliaries) <= 1, "one auxiliary at most")
			if len(g.Auxiliaries) == 1 {
				nd.Assert(g.Auxiliaries[0] == "owner", "the auxiliary is owner")
			}
		}
		if bodies {
			e.num("number of statements", len(g.Statements), len(a.stmts))
			for k, st := range a.stmts {
				checkStmt(e, g.Statements[k], st)
			}
		}
	}
	if ini != nil {
		g := s.Actions[n-1]
		if heads {
			e.str("init name", g.Name, "init")
			e.num("init parameters", len(g.Inputs), 0)
			e.num("init annotations", len(g.Annotations), 0)
			nd.Assert(!g.Public, "init is private")
			e.str("init mutability", string(g.Mutability), "update")
			e.num("init auxiliaries", len(g.Auxiliaries), 0)
		}
		if bodies {
			e.num("number of init statements", len(g.Statements), len(ini.stmts))
			for k, st := range ini.stmts {
				checkStmt(e, g.Statements[k], st)
			}
		}
	}
}

func checkExts(s *schema.Schema, d *rDoc) {
	e := &eqs{}
	e.num("number of extensions", len(s.Extensions), len(d.exts))
	for i, x := range d.exts {
		g := s.Extensions[i]
		e.str("extension name", g.Name, x.name)
		e.str("extension alias", g.Alias, x.alias)
		e.num("number of configuration entries", len(g.Config), len(x.conf))
		for k, c := range x.conf {
			e.str("configuration key", g.Config[k].Argument, c[0])
			e.str("configuration value", g.Config[k].Value, c[1])
		}
	}
}

// faithful parses the document and compares what the property speaks about.
func faithful(d *rDoc, mode int) {
	text := render(d, mode)
	o := parse(text)
	if o.err != nil {
		nd.Observe("~error", o.err.Error())
		nd.Reach("rejected")
		return
	}
	nd.Reach("accepted")
	nd.Assert(o.s.Name == d.db, "database name")
	p := nd.Param("prop")
	checkSection(o.s, d, p)
	b, err := o.a.ToJSON()
	nd.Assert(err == nil, "the schema can be encoded")
	compareJSON(string(b), jDoc(d))
	// what was extracted stays the same when it is encoded
	checkSection(o.s, d, p)
}

func checkSection(s *schema.Schema, d *rDoc, p int) {
	switch p {
	case 7, 8:
		checkTables(s, d)
	case 9:
		checkActions(s, d, true, false)
	case 10:
		checkActions(s, d, false, true)
	case 11:
		checkExts(s, d)
	}
}
