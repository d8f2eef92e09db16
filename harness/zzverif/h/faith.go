package h

import "github.com/kwilteam/kuneiform/zzverif/nd"

// ---- pools ----

// names: n different pools, so that names of one scope never collide.
var nameKinds = []string{"a", "b", "B", "table_", "int2", "primary_key", "databases", "init_", "select_", "usex", "as1", "z_9", "minl", "on_", "fk1", "i", "actions", "notnull_", "ref0", "view2", long60, "Table", "INIT", "A", "Primary", "default_", "a1B2", "zz_y_x", "INT", "Database", "d__", "n64_" + long60}

// word is a choice of names that differ from those of every other number.
func word(label string, i int) string {
	n := len(nameKinds)
	sfx := lab(i)
	// the names of two neighbours may be the start of each other
	near := []string{"x" + sfx, "y" + sfx + "s"}
	if i%2 == 1 {
		near = []string{"x" + lab(i-1) + "s", "y" + lab(i-1)}
	}
	return pick(lab(label, i), append(near, nameKinds[i%n]+"_"+sfx, nameKinds[(i+7)%n]+sfx+"Q", nameKinds[(i+13)%n]+"__"+sfx+"_"))
}

var digits = []string{"1", "0", "007", "123456789012345678901234567890"}

var literals = append(append([]string(nil), digits...), stringLits...)

// lit: literals of one token type (the parser treats the two types alike but
// looks at them separately)
func lit(label string, k int) string {
	if k%2 == 0 {
		return pick(label, stringLits)
	}
	return pick(label, digits)
}

var stringLits = []string{"'x'", "''", "'it\\'s'", "'a;b}'", "'/* no */ // x'", "'<&>\"'", "' é '", "'\\\\'", "'a,b) #c $d @e'", "'\\n'", "'SELECT 1;'", "'\t'"}
var numbers = []string{"0", "1", "00", "42", "9223372036854775808"}

var plainKinds = []string{"primary", "notnull", "unique"}
var numKinds = []string{"min", "max", "minlen", "maxlen"}

// attrs: n constraints in turn: without value, default, a number
func attrs(l string, n int, used *int) []rAttr {
	var r []rAttr
	for i := 0; i < n; i++ {
		k := *used
		*used++
		switch k % 3 {
		case 0:
			r = append(r, rAttr{kind: plainKinds[(k/3)%3]})
		case 1:
			r = append(r, rAttr{"default", lit(lab(l, "val", i), k/3)})
		case 2:
			r = append(r, rAttr{numKinds[(k/3)%4], pick(lab(l, "val", i), numbers)})
		}
	}
	return r
}

var types = []string{"int", "text", "blob"}

// FaithTables (C07): names, types, constraints and literals are free.
func FaithTables() {
	d := &rDoc{db: pick("db", []string{"db", "database1", "use_x"})}
	nt, nc, na := nd.Param("tables"), nd.Param("cols"), nd.Param("attrs")
	used := nd.Param("shift")
	for i := 0; i < nt; i++ {
		t := &rTable{name: word("table", i), comma: nd.Param("comma") == 1}
		for j := 0; j < nc; j++ {
			l := lab("t", i, "c", j)
			c := rCol{name: word(l, j), attrs: attrs(l, na, &used)}
			// a type the constraints fit
			c.typ = types[(used+j)%3]
			for _, a := range c.attrs {
				switch a.kind {
				case "min", "max":
					c.typ = []string{"int", "blob"}[j%2]
				case "minlen", "maxlen":
					c.typ = []string{"text", "blob"}[j%2]
				}
			}
			t.cols = append(t.cols, c)
		}
		d.decls = append(d.decls, rDecl{table: t})
		if i == 0 && nd.Param("mix") == 1 {
			// other declarations between the tables
			d.exts = append(d.exts, rExt{name: "e", alias: "f"})
			d.decls = append(d.decls, rDecl{action: &rAction{name: "act", stmts: []rStmt{{sql: "select 1"}}}})
			d.decls = append(d.decls, rDecl{init: &rAction{stmts: []rStmt{{sql: "select 2"}}}})
		}
	}
	faithful(d, nd.Param("layout"))
}

// FaithAttrs (C07): one column, n constraints, each of any kind (a constraint
// that repeats or does not fit is rejected and left to other checks).
func FaithAttrs() {
	n := nd.Param("attrs")
	t := &rTable{name: "t"}
	c := rCol{name: "c", typ: pick("type", types)}
	for i := 0; i < n; i++ {
		switch nd.Concrete(nd.Int(lab("shape", i), 0, 2)) {
		case 0:
			c.attrs = append(c.attrs, rAttr{kind: pick(lab("attr", i), plainKinds)})
		case 1:
			c.attrs = append(c.attrs, rAttr{"default", pick(lab("val", i), literals)})
		case 2:
			c.attrs = append(c.attrs, rAttr{pick(lab("attr", i), numKinds), pick(lab("val", i), numbers)})
		}
	}
	t.cols = []rCol{{name: "id", typ: "int"}, c}
	faithful(&rDoc{db: "db", decls: []rDecl{{table: t}}}, nd.Param("layout"))
}

// FaithOrder (C07): a column with every constraint that fits its type once, in
// an order that differs from the given or the reverse one by moving one
// (moves: number of constraints moved).
func FaithOrder() {
	typ := nd.Param("type")
	kinds := []string{"primary", "notnull", "unique", "default", "min", "max", "minlen", "maxlen"}
	switch typ {
	case 0:
		kinds = kinds[:6]
	case 1:
		kinds = []string{"maxlen", "default", "primary", "minlen", "unique", "notnull"}
	}
	if nd.ConcreteBool(nd.Bool("reverse")) {
		for i, j := 0, len(kinds)-1; i < j; i, j = i+1, j-1 {
			kinds[i], kinds[j] = kinds[j], kinds[i]
		}
	}
	for m := 0; m < nd.Param("moves"); m++ {
		from := nd.Concrete(nd.Int(lab("from", m), 0, len(kinds)-1))
		to := nd.Concrete(nd.Int(lab("to", m), 0, len(kinds)-1))
		x := kinds[from]
		rest := append(append([]string(nil), kinds[:from]...), kinds[from+1:]...)
		kinds = append(append(append([]string(nil), rest[:to]...), x), rest[to:]...)
	}
	c := rCol{name: "c", typ: types[typ]}
	for i, k := range kinds {
		switch {
		case k == "default":
			c.attrs = append(c.attrs, rAttr{k, lit("val", i)})
		case hasValue(k):
			c.attrs = append(c.attrs, rAttr{k, pick(lab("val", i), numbers)})
		default:
			c.attrs = append(c.attrs, rAttr{kind: k})
		}
	}
	t := &rTable{name: "t", cols: []rCol{{name: "id", typ: "int"}, c, {name: "e", typ: "int"}}}
	faithful(&rDoc{db: "db", decls: []rDecl{{table: t}}}, nd.Param("layout"))
}

// FaithKeys (C08): indexes and foreign keys in any order.
func FaithKeys() {
	d := &rDoc{db: "db"}
	nt, nc, ni, ncol, na := nd.Param("tables"), nd.Param("cols"), nd.Param("items"), nd.Param("icols"), nd.Param("acts")
	var tn []string
	for i := 0; i < nt; i++ {
		tn = append(tn, lab("t", i))
	}
	var cs []string
	for j := 0; j < nc; j++ {
		cs = append(cs, lab("c", j))
	}
	at, free := nd.Param("at"), nd.Param("free")
	n := nd.Param("shift")
	// choose: words of different token types, free for the item number free
	choose := func(label string, k int, ws []string) string {
		n++
		if k == free {
			return pick(label, ws)
		}
		return ws[n%len(ws)]
	}
	for i := 0; i < nt; i++ {
		if i > 0 && at >= nt {
			free = 99 // only in the first table
		}
		t := &rTable{name: tn[i], comma: nd.Param("comma") == 1}
		for j := 0; j < nc; j++ {
			t.cols = append(t.cols, rCol{name: cs[j], typ: "int"})
		}
		for k := 0; k < ni && (at == i || at >= nt); k++ {
			l := lab("t", i, "item", k)
			fk := (k+i+nd.Param("shift"))%3 != 0
			if k == free || nd.Param("order") == 1 {
				fk = nd.ConcreteBool(nd.Bool(l + "fk"))
			}
			if !fk {
				w := nameKinds[(k*3)%len(nameKinds)]
				hash := pick(l+"name", []string{"#i" + lab(k), "#" + w + "_" + lab(k)})
				name := hash[1:]
				t.items = append(t.items, rItem{idx: rIdx{hash, name, choose(l+"kind", k, []string{"index", "unique", "primary"}), picks(l+"col", ncol, cs)}})
				continue
			}
			f := rFK{child: picks(l+"child", ncol, cs), parent: choose(l+"parent", k, tn), pcols: picks(l+"pcol", ncol, cs),
				kw: choose(l+"kw", k, []string{"foreign_key", "fk"}), ref: choose(l+"ref", k, []string{"references", "ref"})}
			ev := choose(l+"on", k, []string{"on_update", "on_delete"})
			for a := 0; a < na; a++ {
				on := ev
				if a == 1 {
					on = nd.IteStr(ev == "on_update", "on_delete", "on_update")
				}
				f.acts = append(f.acts, rFKAct{on: on, do: choose(lab(l, "do", a), k, words(doTable)), kw: (a+k+nd.Param("shift"))%2 == 1})
			}
			t.items = append(t.items, rItem{isFK: true, fk: f})
		}
		d.decls = append(d.decls, rDecl{table: t})
	}
	faithful(d, nd.Param("layout"))
}

var ats = []string{"@a", "@A1", "@table", "@init", "@caller", "@" + long60}

func ann(l string, n int) rAnn {
	at := pick(l+"name", ats)
	a := rAnn{at: at, name: at[1:]}
	for i := 0; i < n; i++ {
		a.attrs = append(a.attrs, [2]string{pick(lab(l, "key", i), []string{"k", "K_1", "intx", "viewer"}), lit(lab(l, "val", i), i+len(l))})
	}
	return a
}

// FaithHeads (C09): names, parameters, modifiers and annotations.
func FaithHeads() {
	d := &rDoc{db: "db"}
	na, np, nm, nn, nk := nd.Param("actions"), nd.Param("params"), nd.Param("mods"), nd.Param("anns"), nd.Param("keys")
	ini := nd.Param("init") // position of the init block, 99: none
	for i := 0; i < na; i++ {
		if ini == i {
			d.decls = append(d.decls, rDecl{init: &rAction{stmts: []rStmt{{sql: "select 0"}}}})
		}
		l := lab("a", i)
		a := &rAction{name: word("action", i), stmts: []rStmt{{sql: "select 1"}}}
		for j := 0; j < np; j++ {
			a.parms = append(a.parms, pick(lab(l, "param", j), []string{lab("$p", j), lab("$P", j), lab("$view", j), lab("$x_", j)}))
		}
		for j := 0; j < nn; j++ {
			a.anns = append(a.anns, ann(lab(l, "ann", j), nk))
		}
		n := nd.Concrete(nd.Int(l+"mods", 0, nm))
		for j := 0; j < n; j++ {
			m := nd.Concrete(nd.Int(lab(l, "mod", j), 0, 2))
			switch m {
			case 0:
				a.mods = append(a.mods, pick(lab(l, "vis", j), []string{"public", "private"}))
			case 1:
				a.mods = append(a.mods, "view")
			case 2:
				a.mods = append(a.mods, "owner")
			}
		}
		d.decls = append(d.decls, rDecl{action: a})
	}
	if ini == na {
		d.decls = append(d.decls, rDecl{init: &rAction{stmts: []rStmt{{sql: "select 0"}}}})
	}
	if nd.Param("mix") == 1 {
		d.decls = append(d.decls, rDecl{table: &rTable{name: "t", cols: []rCol{{name: "id", typ: "int"}}}})
		d.exts = append(d.exts, rExt{name: "e", alias: "f"})
	}
	faithful(d, nd.Param("layout"))
}

// texts of statements, by their last character (a word or not)
var sqls = [][]string{
	{"select 1", "SELECT id FROM t", "update t set id=1 where id = 2", "delete from t", "WITH x as (select 1)\n  select * from x", "select  1  -- x", "select 'a // b', '/* c */' from t"},
	{"Insert into t (id) values ($a)", "select\t'it', \"id\" from t /* c */", "insert into t values(1)", "select $a, @caller, 'x'"},
}

var (
	leafVars = []string{"$a", "$b", "$a_", "$b1", "$A"}
	leafs    = [][]string{leafVars, {"1", "0", "007"}, {"'x'", "'a,b'", "'it\\'s'", "'$z + (1)'", "''"}, {"@caller"}}
	binOps   = []string{"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "=", "!=", "<>", "and", "or"}
	fns      = []string{"abs", "lower", "length", "sum", "ABS", "upper", "error"}
)

// expr writes an argument expression. k counts the places; with free set
// every leaf and operator may have any token type, otherwise the types go in
// turn and only the spelling is free.
func expr(l string, k *int, shape, depth int, free bool) []string {
	leaf := func(sfx string) []string {
		*k++
		if free {
			n := nd.Concrete(nd.Int(l+sfx+"type", 0, len(leafs)-1))
			return []string{pick(l+sfx, leafs[n])}
		}
		return []string{pick(l+sfx, leafs[*k%len(leafs)])}
	}
	op := func() string {
		*k++
		if free {
			return pick(l+"op", binOps)
		}
		return binOps[*k%len(binOps)]
	}
	if depth <= 0 {
		return leaf("leaf")
	}
	sub := func(n int) []string { return expr(lab(l, n), k, shape+n*3, depth-1, free) }
	switch shape % 9 {
	case 0, 5:
		a := sub(1)
		o := op()
		b := sub(2)
		return append(append(a, o), b...)
	case 1:
		return append(append([]string{"("}, sub(1)...), ")")
	case 2:
		un := []string{"-", "+"}[*k%2]
		return append([]string{un}, sub(1)...)
	case 3:
		return append([]string{"not"}, sub(1)...)
	case 4:
		r := []string{pick(l+"fn", []string{fns[*k%len(fns)]}), "("}
		r = append(r, sub(1)...)
		return append(r, ")")
	case 6:
		r := []string{"format", "("}
		for i := 1; i <= 3; i++ {
			if i > 1 {
				r = append(r, ",")
			}
			r = append(r, sub(i)...)
		}
		return append(r, ")")
	case 7:
		return []string{"count", "(", "*", ")"}
	case 8:
		return []string{"format", "(", ")"}
	}
	return leaf("leaf")
}

// FaithExpr (C10): one call with one argument, every leaf and operator free.
func FaithExpr() {
	k := 0
	l := "e"
	toks := append([]string{"q", "("}, expr(l, &k, nd.Param("shape"), nd.Param("depth"), true)...)
	toks = append(toks, ")")
	d := &rDoc{db: "db", decls: []rDecl{{action: &rAction{name: "q", parms: leafVars, stmts: []rStmt{{toks: toks}}}}}}
	faithful(d, nd.Param("layout"))
}

// FaithBodies (C10): statements of actions and the init block.
func FaithBodies() {
	d := &rDoc{db: "db", exts: []rExt{{name: "e", alias: "f"}, {name: "e", alias: "ff"}}}
	na, ns, depth, nargs := nd.Param("actions"), nd.Param("stmts"), nd.Param("depth"), nd.Param("args")
	k := nd.Param("shift")
	ek := nd.Param("shape")
	body := func(l string, names []string, init bool) []rStmt {
		var r []rStmt
		for j := 0; j < ns; j++ {
			sl := lab(l, "s", j)
			k++
			if k%3 == 0 {
				r = append(r, rStmt{sql: pick(sl+"sql", sqls[k/3%2])})
				continue
			}
			var toks []string
			if k%3 == 1 {
				for x := 0; x < j%3; x++ {
					if x > 0 {
						toks = append(toks, ",")
					}
					toks = append(toks, pick(lab(sl, "recv", x), []string{lab("$r", x), lab("$R", x)}))
				}
				if len(toks) > 0 {
					toks = append(toks, "=")
				}
				toks = append(toks, pick(sl+"ext", []string{"f", "ff"}), ".", pick(sl+"method", []string{"m", "M2", "tables"}), "(")
			} else {
				toks = append(toks, pick(sl+"callee", names), "(")
			}
			for x := 0; x < nargs; x++ {
				if x > 0 {
					toks = append(toks, ",")
				}
				if init {
					toks = append(toks, pick(lab(sl, "arg", x), []string{"'1'", "'a b'"}))
				} else {
					toks = append(toks, expr(lab(sl, "arg", x), &ek, nd.Param("shape")+x+j, depth, false)...)
				}
			}
			r = append(r, rStmt{toks: append(toks, ")")})
		}
		return r
	}
	var names []string
	for i := 0; i < na; i++ {
		names = append(names, lab("act", i))
	}
	d.decls = append(d.decls, rDecl{table: &rTable{name: "t", cols: []rCol{{name: "id", typ: "int"}}}})
	if nd.Param("init") == 1 {
		d.decls = append(d.decls, rDecl{init: &rAction{stmts: body("init", names, true)}})
	}
	for i := 0; i < na; i++ {
		d.decls = append(d.decls, rDecl{action: &rAction{name: names[i], parms: leafVars, stmts: body(lab("a", i), names, false)}})
	}
	faithful(d, nd.Param("layout"))
}

// FaithExts (C11)
func FaithExts() {
	d := &rDoc{db: "db"}
	ne, nc := nd.Param("exts"), nd.Param("conf")
	for i := 0; i < ne; i++ {
		l := lab("e", i)
		e := rExt{name: pick(l+"name", []string{"e", "E", "ext_1", "use_", "as_", "Use", "e1"}), alias: word("alias", i)}
		n := (nc + i*nd.Param("vary")) % (nc + 1)
		if n > 0 {
			e.braces = true
		}
		for j := 0; j < n; j++ {
			e.conf = append(e.conf, [2]string{pick(lab(l, "key", j), []string{"k", "K", "key_1", "asx"}), lit(lab(l, "val", j), i+j/2+nd.Param("shift"))})
		}
		d.exts = append(d.exts, e)
	}
	if nd.Param("mix") == 1 {
		d.decls = append(d.decls, rDecl{table: &rTable{name: "t", cols: []rCol{{name: "id", typ: "int"}}}}, rDecl{init: &rAction{stmts: []rStmt{{sql: "select 0"}}}})
	}
	faithful(d, nd.Param("layout"))
}
