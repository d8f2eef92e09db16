package h

import (
	sqlparser "github.com/kwilteam/kwil-db/parse/sql"

	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/zzverif/nd"
)

// reference model of actions and calls

// cStmt is one statement with what the rules speak about.
type cStmt struct {
	text   rStmt
	sql    string   // SQL statement
	ext    string   // called extension
	action string   // called action
	kind   int      // 0 SQL, 1 extension call, 2 action call
	recv   []string // receivers
	vars   []string // $variables in the arguments
	blocks []string // @variables in the arguments
	fns    []string // scalar functions in the arguments
}

type cAction struct {
	name  string
	parms []string
	mods  []string
	init  bool
	stmts []cStmt
}

type cDoc struct {
	exts    []rExt
	actions []cAction
}

const (
	ruleFn   = "scalar functions are known"
	ruleInit = "one init block at most"
	ruleVis  = "visibility is given once"
	ruleMut  = "mutability is given once"
	ruleAux  = "an auxiliary modifier is given once"
)

var knownFns = []string{"abs", "ABS", "lower", "upper", "length", "error", "format", "sum", "count"}

func callRules(d *cDoc) []rule {
	var aliases, names []string
	for _, e := range d.exts {
		aliases = append(aliases, e.alias)
	}
	inits := 0
	for _, a := range d.actions {
		if a.init {
			inits++
		}
		names = append(names, a.name)
	}
	var dupParam, noAction, noExt, noVar, noBlock, dupRecv, badSQL, badFn, vis, mut, aux []bool
	for _, a := range d.actions {
		dupParam = append(dupParam, dup(a.parms))
		scope := append([]string(nil), a.parms...)
		for _, s := range a.stmts {
			switch s.kind {
			case 0:
				badSQL = append(badSQL, in(s.sql, sqlBad))
				continue
			case 1:
				noExt = append(noExt, nd.Not(in(s.ext, aliases)))
			case 2:
				noAction = append(noAction, nd.Not(in(s.action, names)))
			}
			for _, v := range s.vars {
				noVar = append(noVar, nd.Not(in(v, scope)))
			}
			for _, v := range s.blocks {
				noBlock = append(noBlock, nd.Not(v == "@caller"))
			}
			for _, f := range s.fns {
				badFn = append(badFn, nd.Not(in(f, knownFns)))
			}
			if s.kind == 1 {
				dupRecv = append(dupRecv, dup(s.recv))
				scope = append(scope, s.recv...)
			}
		}
		for i, x := range a.mods {
			for j := 0; j < i; j++ {
				y := a.mods[j]
				vis = append(vis, nd.And(nd.Or(x == "public", x == "private"), nd.Or(y == "public", y == "private")))
				mut = append(mut, nd.And(x == "view", y == "view"))
				aux = append(aux, nd.And(x == "owner", y == "owner"))
			}
		}
	}
	return []rule{
		{ruleExt, schema.ErrDuplicateExtension, dup(aliases)},
		{ruleAction, schema.ErrDuplicateAction, dup(names)},
		{ruleParam, schema.ErrDuplicateParam, nd.Or(dupParam...)},
		{ruleCallee, schema.ErrActionNotFound, nd.Or(noAction...)},
		{ruleExtension, schema.ErrExtensionNotFound, nd.Or(noExt...)},
		{ruleVar, schema.ErrVariableNotFound, nd.Or(noVar...)},
		{ruleBlockVar, schema.ErrVariableNotFound, nd.Or(noBlock...)},
		{ruleRecv, schema.ErrDuplicateVariable, nd.Or(dupRecv...)},
		{ruleSQL, nil, nd.Or(badSQL...)},
		{ruleFn, nil, nd.Or(badFn...)},
		{ruleInit, schema.ErrMultiInit, inits > 1},
		{ruleVis, schema.ErrActionVisibilityAlreadySet, nd.Or(vis...)},
		{ruleMut, schema.ErrActionMutabilityAlreadySet, nd.Or(mut...)},
		{ruleAux, schema.ErrActionAuxiliaryAlreadySet, nd.Or(aux...)},
	}
}

func (d *cDoc) doc() *rDoc {
	r := &rDoc{db: "db", exts: d.exts}
	for _, a := range d.actions {
		x := &rAction{name: a.name, parms: a.parms, mods: a.mods}
		for _, s := range a.stmts {
			x.stmts = append(x.stmts, s.text)
		}
		if a.init {
			r.decls = append(r.decls, rDecl{init: x})
		} else {
			r.decls = append(r.decls, rDecl{action: x})
		}
	}
	return r
}

func (d *cDoc) check(extra ...rDecl) {
	r := d.doc()
	r.decls = append(r.decls, extra...)
	prop(parse(render(r, nd.Param("layout"))), callRules(d))
}

// SQL statements by verdict of the SQL parser (SQLPool checks the lists).
var (
	sqlGood = []string{"select 1", "SELECT $a FROM t", "sElEcT id from t where id = $zz", "with x as (select 1) select * from x", "DELETE\tfrom t", "uPDATE\n t set id = 1", "Insert into t values ('a')", "WITH y as (select 2) delete from t", "delete from t", "insert into t values (1)", "update t set id = 2"}
	sqlBad  = []string{"select from", "SELECT * FROM", "SeLeCT 1 1", "insert t", "INSERT into", "update where", "UPDATE t id = 1", "delete t", "Delete from", "with x", "WITH x as (select) select 1", "select 1.5", "select random()", "select a from t join u on 1", "select ~1"}
)

// SQLPool: the two lists are what they claim to be.
func SQLPool() {
	all := append(append([]string(nil), sqlGood...), sqlBad...)
	for i, x := range all {
		ok := false
		nd.Try(func() {
			t, err := sqlparser.ParseSql(x+";", 1, nil, false)
			if err == nil {
				_, err = t.ToSQL()
			}
			ok = err == nil
		})
		nd.Assert(ok == (i < len(sqlGood)), "the SQL parser decides otherwise: "+x)
	}
	nd.Reach("accepted")
	nd.Reach("rejected")
}

// gram generates expressions and remembers the names in them.
type cgen struct {
	k      int
	vars   []string
	blocks []string
	fns    []string
	st     *cStmt
	free   bool // the next leaf may be of any kind
}

func (c *cgen) leaf(l string) string {
	c.k++
	n := c.k % 5
	if c.free {
		n = nd.Concrete(nd.Int(l+"type", 0, 3))
	}
	switch n {
	case 1:
		v := pick(l, c.blocks)
		c.st.blocks = append(c.st.blocks, v)
		return v
	case 3:
		return pick(l, []string{"1", "42"})
	case 2:
		if c.free || c.k%2 == 0 {
			return pick(l, []string{"'$zz'", "'@x'", "'x'"})
		}
	}
	v := pick(l, c.vars)
	c.st.vars = append(c.st.vars, v)
	return v
}

func (c *cgen) op(l string) string {
	c.k++
	if c.free {
		return pick(l, binOps)
	}
	return binOps[c.k%len(binOps)]
}

// expr: shapes nest the expression kinds in turn.
func (c *cgen) expr(l string, shape, depth int) []string {
	if depth <= 0 {
		return []string{c.leaf(l)}
	}
	sub := func(n int) []string { return c.expr(lab(l, "_", n), shape+n*3+1, depth-1) }
	switch shape % 8 {
	case 0:
		a := sub(1)
		o := c.op(l + "op")
		return append(append(a, o), sub(2)...)
	case 1:
		return append(append([]string{"("}, sub(1)...), ")")
	case 2:
		un := []string{"-", "+"}[c.k%2]
		return append([]string{un}, sub(1)...)
	case 3:
		return append([]string{"not"}, sub(1)...)
	case 4:
		f := pick(l+"fn", c.fns)
		c.st.fns = append(c.st.fns, f)
		r := append([]string{f, "("}, sub(1)...)
		return append(r, ")")
	case 5:
		r := append([]string{"format", "("}, sub(1)...)
		r = append(r, ",")
		r = append(r, sub(2)...)
		r = append(r, ",")
		r = append(r, sub(3)...)
		return append(r, ")")
	case 6:
		r := append([]string{"("}, sub(1)...)
		r = append(r, ")", c.op(l+"op"))
		r = append(r, "(")
		r = append(r, sub(2)...)
		return append(r, ")")
	}
	r := append([]string{"count", "(", "*", ")", c.op(l + "op"), "("}, sub(1)...)
	return append(r, ")")
}

// Calls (C05, C06, C02, C03): actions with statements of every kind, all names
// free. kinds: the statement kinds are read off this number, base 3.
func Calls() {
	ne, na, np, ns := nd.Param("exts"), nd.Param("actions"), nd.Param("params"), nd.Param("stmts")
	nr, nargs, depth, shape := nd.Param("recv"), nd.Param("args"), nd.Param("depth"), nd.Param("shape")
	loose := nd.Param("loose") == 1 // declared names may repeat
	d := &cDoc{}
	var aliases, names []string
	for i := 0; i < ne; i++ {
		a := pick(lab("alias", i), []string{lab("f", i), lab("F", i)})
		if loose {
			a = pick(lab("alias", i), []string{"f0", "F0", "e", "q0"})
		}
		aliases = append(aliases, lab("f", i))
		d.exts = append(d.exts, rExt{name: pick(lab("ext", i), []string{"e", "f0"}), alias: a})
	}
	for i := 0; i < na; i++ {
		n := pick(lab("name", i), []string{lab("q", i), lab("Q", i)})
		if loose {
			n = pick(lab("name", i), []string{"q0", "Q0", "f0", "abs"})
		}
		names = append(names, lab("q", i))
		d.actions = append(d.actions, cAction{name: n})
	}
	if at := nd.Param("init"); at < 9 {
		ini := cAction{name: "init", init: true}
		d.actions = append(d.actions[:at:at], append([]cAction{ini}, d.actions[at:]...)...)
	}
	c := &cgen{k: nd.Param("shift"), blocks: []string{"@caller", "@Caller", "@callers", "@x"}, fns: []string{"abs", "ABS", "length", "upper"}}
	if nd.Param("badfn") == 1 {
		c.fns = append(c.fns, "absx", "q0", "f0")
	}
	callees := append([]string{"e", "Q0", "f0", "t", "abs", "initx"}, names...)
	extens := append([]string{"e", "F0", "q0", "t"}, aliases...)
	kinds := nd.Param("kinds")
	freeAt := nd.Param("free")
	for i := range d.actions {
		a := &d.actions[i]
		l := lab("a", i)
		if !a.init {
			for j := 0; j < np; j++ {
				if loose {
					a.parms = append(a.parms, pick(lab(l, "p", j), []string{"$a", "$A", "$b", "$x0"}))
				} else {
					a.parms = append(a.parms, pick(lab(l, "p", j), []string{lab("$p", j), lab("$P", j), lab("$x", j)}))
				}
			}
		}
		c.vars = []string{"$a", "$b", "$A", "$x0", "$x1", "$X0", "$y", "$p0", "$P0", "$p1", "$caller"}
		for j := 0; j < ns; j++ {
			sl := lab(l, "s", j)
			st := cStmt{kind: kinds % 3}
			kinds = kinds/3 + kinds%3*729
			c.st = &st
			c.free = i*ns+j == freeAt
			var toks []string
			switch st.kind {
			case 0:
				pool := append(append([]string(nil), sqlGood...), sqlBad...)
				if nd.Param("goodsql") == 1 {
					pool = sqlGood
				}
				st.sql = pick(sl+"sql", pool)
				st.text = rStmt{sql: st.sql}
				a.stmts = append(a.stmts, st)
				continue
			case 1:
				for x := 0; x < (j+nr)%(nr+1) || x == 0 && nr == 1; x++ {
					if x > 0 {
						toks = append(toks, ",")
					}
					r := pick(lab(sl, "r", x), []string{"$x0", "$x1", "$X0", "$y", "$p0"})
					st.recv = append(st.recv, r)
					toks = append(toks, r)
				}
				if len(toks) > 0 {
					toks = append(toks, "=")
				}
				st.ext = pick(sl+"ext", extens)
				toks = append(toks, st.ext, ".", pick(sl+"m", []string{"m", "q0", "f0"}), "(")
			case 2:
				st.action = pick(sl+"callee", callees)
				toks = append(toks, st.action, "(")
			}
			for x := 0; x < nargs; x++ {
				if x > 0 {
					toks = append(toks, ",")
				}
				toks = append(toks, c.expr(lab(sl, "arg", x), shape+x+j*2, depth)...)
			}
			st.text = rStmt{toks: append(toks, ")")}
			a.stmts = append(a.stmts, st)
		}
	}
	tab := rDecl{table: &rTable{name: "t", cols: []rCol{{name: "id", typ: "int"}}}}
	d.check(tab)
}

// Receivers (C05): one action with n extension calls, each with up to m
// receivers and one bare variable, every name free.
func Receivers() {
	n, m := nd.Param("stmts"), nd.Param("recv")
	d := &cDoc{exts: []rExt{{name: "e", alias: "f"}}}
	pool := []string{"$a", "$b", "$A", "$ab"}
	for i := 0; i < nd.Param("actions"); i++ {
		a := cAction{name: lab("q", i), parms: picks(lab("p", i, "_"), nd.Param("params"), pool)}
		for j := 0; j < n; j++ {
			l := lab("a", i, "s", j)
			st := cStmt{kind: 1, ext: "f"}
			for x := 0; x < m; x++ {
				st.recv = append(st.recv, pick(lab(l, "r", x), pool))
				if x > 0 {
					st.text.toks = append(st.text.toks, ",")
				}
				st.text.toks = append(st.text.toks, st.recv[x])
			}
			if m > 0 {
				st.text.toks = append(st.text.toks, "=")
			}
			v := pick(l+"v", pool)
			st.vars = []string{v}
			st.text.toks = append(st.text.toks, "f", ".", "m", "(", v, ")")
			a.stmts = append(a.stmts, st)
		}
		d.actions = append(d.actions, a)
	}
	d.check()
}

// Heads (C02, C03): names, parameters and modifiers of actions, up to two init
// blocks, aliases.
func Heads() {
	d := &cDoc{}
	for i := 0; i < nd.Param("exts"); i++ {
		d.exts = append(d.exts, rExt{name: pick(lab("ext", i), []string{"e", "a", "f"}), alias: pick(lab("alias", i), []string{"a", "A", "f", long60 + "x", long60 + "y", "init_"})})
	}
	for i := 0; i < nd.Param("actions"); i++ {
		a := cAction{name: pick(lab("name", i), []string{"a", "A", "f", "initx", long60 + "x", long60 + "y"}), parms: picks(lab("p", i, "_"), nd.Param("params"), []string{"$a", "$A", "$b", "$" + long60 + "x", "$" + long60 + "y", "$aa"})}
		if i == nd.Param("modat") {
			n := nd.Concrete(nd.Int(lab("mods", i), 0, nd.Param("mods")))
			for j := 0; j < n; j++ {
				a.mods = append(a.mods, pick(lab("a", i, "mod", j), []string{"public", "private", "view", "owner"}))
			}
		}
		a.stmts = []cStmt{{sql: "select 1", text: rStmt{sql: "select 1"}}}
		d.actions = append(d.actions, a)
	}
	nth := nd.Param("inits")
	for i := 0; i < nth; i++ {
		at := nd.Concrete(nd.Int(lab("init", i), 0, len(d.actions)))
		ini := cAction{name: "init", init: true, stmts: []cStmt{{sql: "select 1", text: rStmt{sql: "select 1"}}}}
		d.actions = append(d.actions[:at:at], append([]cAction{ini}, d.actions[at:]...)...)
	}
	d.check()
}
