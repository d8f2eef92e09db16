package main

import "sort"

func hTask(f string, p P) Task { return Task{Pkg: "zzverif/h", Func: f, Warm: "Warm", Params: p} }

func with(p P, kv ...any) P {
	n := P{}
	for k, v := range p {
		n[k] = v
	}
	for i := 0; i+1 < len(kv); i += 2 {
		n[kv[i].(string)] = int64(kv[i+1].(int))
	}
	return n
}

var checks = map[string]*Check{}

func addCheck(c *Check) { checks[c.ID] = c }

func checkByID(id string) *Check { return checks[id] }

func checkIDs() []string {
	var ids []string
	for k := range checks {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	return ids
}

func columns(prop, cols, idx, icols int) Task {
	return hTask("Columns", with(P{}, "prop", prop, "cols", cols, "idx", idx, "icols", icols))
}

func tables(prop, tables, cols, idx, at, fks, fkcols int, kv ...any) Task {
	p := with(P{}, "prop", prop, "tables", tables, "cols", cols, "idx", idx, "at", at, "fks", fks, "fkcols", fkcols, "icols", 1, "pextra", 0)
	return hTask("Tables", with(p, kv...))
}

func constraints(prop, tables, cols, attrs, at, free, shift int) Task {
	return hTask("Constraints", with(P{}, "prop", prop, "tables", tables, "cols", cols, "attrs", attrs, "at", at, "freeattrs", free, "shift", shift))
}

func fkActions(prop, tables, fks, acts, at, shift int) Task {
	return hTask("FKActions", with(P{}, "prop", prop, "tables", tables, "fks", fks, "acts", acts, "at", at, "shift", shift))
}

func heads(prop, exts, actions, params, mods, modat, inits, layout int) Task {
	return hTask("Heads", with(P{}, "prop", prop, "exts", exts, "actions", actions, "params", params, "mods", mods, "modat", modat, "inits", inits, "layout", layout))
}

func receivers(prop, actions, stmts, recv, params, layout int) Task {
	return hTask("Receivers", with(P{}, "prop", prop, "actions", actions, "stmts", stmts, "recv", recv, "params", params, "layout", layout))
}

// calls: kv overrides the usual values
func calls(prop, actions, stmts, args, depth, shape, kinds int, kv ...any) Task {
	p := with(P{}, "prop", prop, "actions", actions, "stmts", stmts, "args", args, "depth", depth, "shape", shape, "kinds", kinds,
		"exts", 2, "params", 2, "recv", 2, "loose", 0, "badfn", 0, "goodsql", 1, "init", 9, "free", 99, "shift", shape, "layout", shape%6)
	return hTask("Calls", with(p, kv...))
}

const (
	outTables = "more declarations than stated, names outside the pools (6 names: prefixes, letter case, 61 characters)"
	outCalls  = "longer bodies, deeper expressions, statement kinds other than the rotations listed, names outside the pools, SQL outside the 26 pool statements"
)

func init() {
	need := []string{"accepted", "rejected"}

	addCheck(&Check{ID: "C01", Need: need, Outside: []string{outTables},
		Bounds: "one table with 14 columns and 5 indexes of 3 columns; 4 tables (6 thorough) with 3 columns, an index and 6 foreign keys of 3 column pairs over them; every name of a table, column, index, reference free in a pool of 5 to 17",
		Quick: []Task{columns(1, 4, 2, 2), columns(1, 8, 3, 3), columns(1, 14, 2, 2), columns(1, 3, 5, 1), tables(1, 3, 2, 1, 1, 1, 2),
			tables(1, 3, 2, 1, 0, 2, 2), tables(1, 3, 2, 1, 2, 2, 2), tables(1, 4, 3, 1, 9, 4, 1), tables(1, 1, 3, 1, 0, 2, 3), tables(1, 2, 2, 1, 9, 3, 1),
			tables(1, 2, 2, 1, 1, 1, 1, "pextra", 1), tables(1, 3, 2, 0, 0, 2, 1, "pextra", 2), tables(1, 2, 3, 1, 1, 2, 3, "pextra", -1), tables(1, 3, 2, 1, 2, 1, 1, "icols", 3)},
		Thorough: []Task{columns(1, 20, 8, 4), columns(1, 6, 12, 2), tables(1, 5, 2, 1, 9, 5, 1), tables(1, 6, 1, 0, 9, 6, 1), tables(1, 3, 4, 1, 9, 3, 4), tables(1, 2, 3, 1, 9, 6, 2)}})

	addCheck(&Check{ID: "C02", Need: need, Outside: []string{outTables},
		Bounds: "14 columns and 5 indexes in a table, 4 tables (6 thorough), 6 actions (10 thorough) of 6 parameters, 6 aliases, an init block; every name free in a pool of 5 to 17",
		Quick: []Task{columns(2, 4, 2, 2), columns(2, 8, 3, 3), columns(2, 14, 2, 1), columns(2, 3, 5, 1), tables(2, 3, 2, 1, 1, 1, 2), tables(2, 4, 3, 1, 9, 4, 1),
			heads(2, 4, 4, 1, 0, 9, 1, 1), heads(2, 6, 6, 6, 0, 9, 0, 1), heads(2, 1, 1, 4, 2, 0, 1, 2), heads(2, 3, 5, 2, 0, 9, 0, 4),
			calls(2, 2, 2, 1, 1, 4, 4, "loose", 1), calls(2, 3, 1, 1, 0, 1, 5, "loose", 1, "exts", 3)},
		Thorough: []Task{columns(2, 20, 8, 2), columns(2, 10, 12, 1), tables(2, 6, 1, 1, 9, 1, 1), tables(2, 5, 3, 1, 9, 2, 1), heads(2, 10, 10, 3, 0, 9, 1, 0), heads(2, 8, 3, 10, 1, 1, 1, 3), calls(2, 3, 2, 1, 1, 5, 88, "loose", 1, "exts", 3)}})

	var q3 []Task
	for i := 0; i < 6; i++ {
		q3 = append(q3, calls(3, 2, 3, 1, 1+i%2, i, 100+i*301, "goodsql", 0))
	}
	ruleNeed := append([]string(nil), need...)
	for _, r := range []string{"table names are unique", "column names are unique in a table", "index names are unique in a table", "index columns are declared",
		"foreign key parent table is declared", "one foreign key action per event", "a constraint occurs once", "constraints fit the column type",
		"extension aliases are unique", "action names are unique", "parameters are unique in an action", "called actions are declared", "called extensions are declared",
		"variables are in scope", "receivers are unique in a call", "one init block at most", "visibility is given once", "mutability is given once", "an auxiliary modifier is given once"} {
		ruleNeed = append(ruleNeed, "rule "+r)
	}
	addCheck(&Check{ID: "C03", Need: ruleNeed, Outside: []string{outTables, outCalls},
		Bounds: "the generators of C01, C02, C04, C05 and C06 with sizes up to 8 columns, 4 tables, 4 foreign keys, 6 actions, 3 modifiers, 2 init blocks, 6 statements; every name, type and literal free in its pool",
		Quick: append(q3, columns(3, 8, 3, 3), columns(3, 3, 5, 1), tables(3, 3, 2, 1, 1, 1, 2), tables(3, 4, 3, 1, 9, 4, 1),
			constraints(3, 1, 1, 0, 0, 3, 0), constraints(3, 2, 2, 1, 3, 2, 1), fkActions(3, 1, 1, 3, 0, 0), fkActions(3, 2, 2, 2, 3, 1),
			heads(3, 2, 2, 2, 2, 1, 1, 0), heads(3, 2, 1, 3, 3, 0, 2, 1), heads(3, 1, 2, 2, 3, 0, 0, 2), heads(3, 6, 6, 6, 0, 9, 1, 3), heads(3, 0, 1, 0, 1, 0, 3, 4),
			receivers(3, 2, 2, 2, 2, 0), receivers(3, 1, 4, 3, 2, 1), calls(3, 2, 2, 1, 1, 4, 4, "loose", 1),
			calls(3, 3, 2, 3, 0, 0, 8, "params", 1), calls(3, 2, 2, 3, 0, 0, 8, "params", 0, "init", 1), calls(3, 3, 1, 0, 0, 0, 26, "params", 3), calls(3, 3, 1, 2, 1, 3, 26, "params", 1, "exts", 6)),
		Thorough: []Task{columns(3, 20, 8, 3), tables(3, 5, 2, 1, 9, 5, 1), constraints(3, 3, 3, 2, 4, 3, 0), fkActions(3, 2, 3, 4, 2, 0), heads(3, 3, 3, 2, 4, 1, 2, 0), heads(3, 8, 8, 4, 1, 2, 1, 5),
			receivers(3, 3, 4, 3, 3, 2), calls(3, 2, 2, 2, 2, 7, 899, "goodsql", 0, "free", 0), calls(3, 3, 4, 1, 2, 2, 640, "goodsql", 0), calls(3, 3, 4, 1, 2, 5, 1999, "goodsql", 0, "init", 1)}})

	var q4, t4 []Task
	for i := 0; i < 8; i++ {
		q4 = append(q4, constraints(4, 2, 2, 1+i%3, i%4, 2, i))
		t4 = append(t4, constraints(4, 3, 3, 2, i, 3, i), constraints(4, 1, 2, 5, i%2, 2, i))
	}
	for i := 0; i < 4; i++ {
		q4 = append(q4, fkActions(4, 2, 2, 2+i%2, i, i))
		t4 = append(t4, fkActions(4, 3, 3, 4, i*2, i))
	}
	addCheck(&Check{ID: "C04", Need: need,
		Bounds:  "tables of up to 4 columns (9 thorough); one column at any place with up to 3 constraints of any kind and value, preceded by up to 3 fixed ones of every kind in turn (5+2 thorough), every type; one foreign key at any place of 4 (9 thorough) with up to 4 actions of any event and reaction, with and without the word do",
		Outside: []string{"longer constraint lists and wider tables than stated"},
		Quick:   append(q4, constraints(4, 1, 1, 0, 0, 3, 0), fkActions(4, 1, 1, 3, 0, 0), columns(4, 3, 1, 1), constraints(4, 1, 8, 2, 7, 1, 3)), Thorough: append(t4, constraints(4, 1, 1, 0, 0, 5, 0), fkActions(4, 1, 1, 5, 0, 0))})

	var q5, t5 []Task
	for i := 0; i < 8; i++ {
		// every expression shape, every statement kind first
		q5 = append(q5, calls(5, 2, 3, 2, 1+i%2, i, 475+i*131))
		q5 = append(q5, calls(5, 1, 1, 1, 1, i, 1+i%2, "free", 0, "exts", 1, "badfn", 1))
		t5 = append(t5, calls(5, 3, 4, 2, 2, i, 475+i*377, "init", i%4), calls(5, 1, 1, 1, 2, i, 1+i%2, "free", 0, "exts", 1))
	}
	q5 = append(q5, receivers(5, 2, 2, 2, 2, 0), receivers(5, 3, 3, 3, 3, 1), receivers(5, 1, 8, 2, 2, 2), receivers(5, 2, 3, 0, 1, 3), receivers(5, 2, 2, 1, 0, 4),
		calls(5, 3, 2, 1, 1, 0, 5, "init", 1, "loose", 0), calls(5, 2, 2, 1, 1, 4, 4, "badfn", 1, "loose", 1), calls(5, 2, 3, 3, 1, 5, 1100))
	t5 = append(t5, receivers(5, 3, 6, 3, 3, 0), receivers(5, 6, 3, 4, 2, 1), receivers(5, 1, 16, 2, 4, 5), calls(5, 1, 3, 2, 3, 5, 1100, "free", 0), calls(5, 5, 5, 1, 2, 6, 1200))
	addCheck(&Check{ID: "C05", Need: need, Outside: []string{outCalls},
		Bounds: "3 actions (6 thorough) of 8 statements (16 thorough) of every kind in rotations, up to 3 receivers, 3 arguments, expressions of every shape nested 2 deep (3 thorough); every action, alias, parameter, receiver, variable, function and literal free in its pool",
		Quick:  q5, Thorough: t5})

	var q6, t6 []Task
	for i := 0; i < 6; i++ {
		q6 = append(q6, calls(6, 2, 2, 1, 0, i, []int{0, 1, 3, 27, 12, 30}[i], "goodsql", 0, "init", []int{0, 1, 2, 9, 9, 1}[i], "exts", 1, "layout", i))
		t6 = append(t6, calls(6, 3, 2, 1, 1, i, []int{0, 1, 3, 27, 12, 30}[i], "goodsql", 0, "init", []int{0, 1, 2, 3, 9, 1}[i], "exts", 1, "layout", i))
	}
	q6 = append(q6, hTask("SQLPool", nil), calls(6, 1, 4, 1, 0, 0, 0, "goodsql", 0, "exts", 0), calls(6, 4, 1, 1, 0, 0, 0, "goodsql", 0, "exts", 0), calls(6, 1, 2, 1, 0, 0, 0, "goodsql", 0, "exts", 0, "init", 1))
	t6 = append(t6, calls(6, 1, 8, 1, 0, 0, 0, "goodsql", 0, "exts", 0), calls(6, 7, 1, 1, 0, 0, 0, "goodsql", 0, "exts", 0, "init", 4))
	addCheck(&Check{ID: "C06", Need: need, Outside: []string{outCalls},
		Bounds: "4 actions and an init block, up to 4 statements each (8 thorough), SQL and calls in rotations; every SQL statement one of 26 (11 valid, 15 invalid, each leading keyword in several letter cases) whose verdict the real SQL parser gives in the same run",
		Quick:  q6, Thorough: t6})
}

func init() {
	acc := []string{"accepted"}
	// fidelity: every layout of the source text
	var q, t []Task
	p := P{"prop": 7}
	for l := 0; l < 6; l++ {
		q = append(q, hTask("FaithTables", with(p, "tables", 3, "cols", 6, "attrs", 2, "shift", l, "comma", l%2, "mix", 1, "layout", l)))
		t = append(t, hTask("FaithTables", with(p, "tables", 6, "cols", 8, "attrs", 3, "shift", l+2, "comma", l%2, "mix", 0, "layout", l)))
		t = append(t, hTask("FaithAttrs", with(p, "attrs", 3, "layout", l)))
	}
	q = append(q,
		hTask("FaithTables", with(p, "tables", 1, "cols", 24, "attrs", 1, "shift", 0, "comma", 0, "mix", 0, "layout", 0)),
		hTask("FaithTables", with(p, "tables", 12, "cols", 2, "attrs", 0, "shift", 0, "comma", 1, "mix", 1, "layout", 1)),
		hTask("FaithTables", with(p, "tables", 2, "cols", 3, "attrs", 3, "shift", 4, "comma", 0, "mix", 1, "layout", 2)),
		hTask("FaithAttrs", with(p, "attrs", 3, "layout", 1)),
	)
	for i := 0; i < 3; i++ {
		q = append(q, hTask("FaithOrder", with(p, "type", i, "moves", 1, "layout", i)))
		t = append(t, hTask("FaithOrder", with(p, "type", i, "moves", 2, "layout", i+3)))
	}
	// n of the eight kinds in every order, with any type
	t = append(t, hTask("FaithAttrs", with(p, "attrs", 4, "layout", 0)), hTask("FaithAttrs", with(p, "attrs", 5, "layout", 1)))
	addCheck(&Check{ID: "C07", Quick: q, Thorough: t, Need: acc,
		Bounds: "up to 12 tables (6 thorough with 8 columns each), 24 columns, 3 constraints per column with every type and kind of constraint (4 or 5 thorough for one column); table and column names each from 3 texts per position (keyword prefixes, 60 characters, case), literals from 20 texts with quotes, escapes, comments, digits; 6 layouts of blanks, newlines and comments"})

	q, t = nil, nil
	p = P{"prop": 8}
	for l := 0; l < 6; l++ {
		q = append(q, hTask("FaithKeys", with(p, "tables", 2, "cols", 3, "items", 3, "icols", 2, "acts", l%3, "at", l%3, "comma", l%2, "shift", l, "free", l%3, "order", 0, "layout", l)))
		t = append(t, hTask("FaithKeys", with(p, "tables", 3, "cols", 4, "items", 5, "icols", 3, "acts", 2, "at", l%4, "comma", l%2, "shift", l, "free", l%5, "order", 0, "layout", l)))
	}
	q = append(q,
		hTask("FaithKeys", with(p, "tables", 3, "cols", 6, "items", 8, "icols", 5, "acts", 2, "at", 9, "comma", 1, "shift", 0, "free", 9, "order", 0, "layout", 1)),
		hTask("FaithKeys", with(p, "tables", 2, "cols", 2, "items", 5, "icols", 1, "acts", 1, "at", 1, "comma", 0, "shift", 1, "free", 9, "order", 1, "layout", 0)),
	)
	t = append(t,
		hTask("FaithKeys", with(p, "tables", 2, "cols", 2, "items", 9, "icols", 1, "acts", 0, "at", 0, "comma", 0, "shift", 2, "free", 9, "order", 1, "layout", 0)),
		hTask("FaithKeys", with(p, "tables", 10, "cols", 10, "items", 10, "icols", 8, "acts", 2, "at", 99, "comma", 1, "shift", 3, "free", 99, "order", 0, "layout", 5)),
	)
	addCheck(&Check{ID: "C08", Quick: q, Thorough: t, Need: acc, Bounds: "up to 3 tables (10 thorough) of 6 columns (10) with up to 8 indexes and foreign keys (10) in every interleaving of up to 5 (9), lists of up to 5 columns (8), every kind, event, reaction and spelling at any one place, 2 actions per foreign key; 6 layouts", Outside: []string{"more declarations than stated; names outside the pools"}})

	q, t = nil, nil
	p = P{"prop": 9}
	for l := 0; l < 6; l++ {
		q = append(q, hTask("FaithHeads", with(p, "actions", 2, "params", 2, "mods", 1+l%2, "anns", 1, "keys", 2, "init", []int{0, 1, 2, 99, 1, 0}[l], "mix", l%2, "layout", l)))
	}
	q = append(q,
		hTask("FaithHeads", with(p, "actions", 1, "params", 3, "mods", 3, "anns", 2, "keys", 2, "init", 99, "mix", 0, "layout", 1)),
		hTask("FaithHeads", with(p, "actions", 8, "params", 8, "mods", 0, "anns", 3, "keys", 3, "init", 3, "mix", 1, "layout", 2)),
		hTask("FaithHeads", with(p, "actions", 9, "params", 1, "mods", 0, "anns", 1, "keys", 1, "init", 0, "mix", 1, "layout", 3)),
		hTask("FaithHeads", with(p, "actions", 1, "params", 0, "mods", 2, "anns", 0, "keys", 0, "init", 0, "mix", 0, "layout", 0)),
	)
	t = append(t, hTask("FaithHeads", with(p, "actions", 3, "params", 2, "mods", 2, "anns", 1, "keys", 1, "init", 1, "mix", 1, "layout", 1)),
		hTask("FaithHeads", with(p, "actions", 2, "params", 12, "mods", 3, "anns", 4, "keys", 4, "init", 2, "mix", 1, "layout", 5)))
	addCheck(&Check{ID: "C09", Quick: q, Thorough: t, Need: acc, Bounds: "up to 8 actions of 8 parameters (12 thorough), 3 annotations of 3 attributes (4), every sequence of up to 3 modifiers (also on two or three actions at once, thorough), the init block absent or at any place among tables and actions; 6 layouts", Outside: []string{"more declarations than stated; names and literals outside the pools"}})

	q, t = nil, nil
	p = P{"prop": 10}
	for l := 0; l < 6; l++ {
		q = append(q, hTask("FaithBodies", with(p, "actions", 2, "stmts", 5, "args", 2, "depth", 1, "shape", l, "shift", l, "init", l%2, "layout", l)))
		t = append(t, hTask("FaithBodies", with(p, "actions", 4, "stmts", 9, "args", 3, "depth", 2, "shape", l+3, "shift", l, "init", 1, "layout", l)))
	}
	for s := 0; s < 9; s++ {
		if s != 5 {
			q = append(q, hTask("FaithExpr", with(p, "depth", 1, "shape", s, "layout", s%6)))
		}
		t = append(t, hTask("FaithExpr", with(p, "depth", 2, "shape", s, "layout", (s+1)%6)))
	}
	addCheck(&Check{ID: "C10", Quick: q, Thorough: t, Need: acc, Bounds: "2 actions and an init block (4 thorough) of 5 statements (9), up to 2 arguments (3) of every expression shape nested 1 deep (2); one call with every leaf kind and operator free, nested 1 deep (2); 11 SQL texts with blanks, quotes, comments; 6 layouts", Outside: []string{"longer bodies, deeper expressions, other SQL texts"}})

	q, t = nil, nil
	p = P{"prop": 11}
	for l := 0; l < 6; l++ {
		q = append(q, hTask("FaithExts", with(p, "exts", 3, "conf", 2, "vary", 1, "mix", l%2, "shift", l, "layout", l)))
		q = append(q, hTask("FaithExts", with(p, "exts", 1+l%2, "conf", 5, "vary", 0, "mix", l%2, "shift", l, "layout", l)))
		t = append(t, hTask("FaithExts", with(p, "exts", 9, "conf", 5, "vary", 1, "mix", l%2, "shift", l, "layout", l)))
	}
	addCheck(&Check{ID: "C11", Quick: q, Thorough: t, Need: acc, Bounds: "up to 3 directives (9 thorough) with up to 5 entries; names, keys, aliases and literals free in their pools; 6 layouts", Outside: []string{"more directives than stated; names and literals outside the pools"}})
}

func tokens(prop, doc, del, ins, sql, trunc, lines int) Task {
	return hTask("Tokens", with(P{}, "prop", prop, "doc", doc, "del", del, "ins", ins, "sql", sql, "trunc", trunc, "lines", lines, "from", 0, "to", 999))
}

func init() {
	both := []string{"syntax error", "grammatical"}
	const docs = 11
	var q, t []Task
	for d := 0; d < docs; d++ {
		q = append(q, tokens(12, d, 1, 1, 0, 0, 0), tokens(12, d, 0, 1, 0, 0, 0), tokens(12, d, 1, 0, 0, 0, 0), tokens(12, d, d%2, 0, 1, d%3/2, 0), tokens(12, d, 2+d%3, 1, 0, 0, 0))
		if d != 6 && d != 7 {
			q = append(q, tokens(12, d, 2, 2, 0, 0, 0))
		}
		t = append(t, tokens(12, d, 2, 2, 0, 0, 0), tokens(12, d, 0, 2, 0, 0, 0), tokens(12, d, 1, 2, 0, 0, 0), tokens(12, d, 3, 2, 0, 0, 0), tokens(12, d, 0, 3, 0, 1, 0), tokens(12, d, 1, 1, 1, 0, 0), tokens(12, d, 0, 2, 1, 0, 0), tokens(12, d, 2, 0, 0, 0, 0), tokens(12, d, 6, 1, 0, 0, 0))
	}
	list := func(l, n, edit int) Task {
		x := hTask("Lists", P{"prop": 12, "lines": 0, "list": int64(l), "n": int64(n), "edit": int64(edit)})
		x.Steps = 2_000_000_000
		return x
	}
	for l := 0; l < 22; l++ {
		if l == 21 {
			q = append(q, list(l, 30, 0), list(l, 9, 2))
		} else {
			q = append(q, list(l, 70, 0), list(l, 7+l, l%2+1))
		}
		t = append(t, list(l, 300, 0), list(l, 40, 2), list(l, 3, 3))
	}
	addCheck(&Check{ID: "C12", Quick: q, Thorough: t, Need: both, Outside: []string{"sources that differ from the 11 base sources in more than a window of the stated size; names and literals spelled otherwise than in the token list"},
		Bounds: "11 base sources of 3 to 41 tokens that use every rule of the grammar; at any place a window of 0 to 4 tokens replaced by 0 to 2 tokens of any of the 78 types (0 to 6 by 0 to 3 thorough), or everything from there on (thorough); also by a SQL statement and its end"})

	q, t = nil, nil
	run := func(doc, n, line int) Task {
		return hTask("GarbageRun", P{"doc": int64(doc), "bad": int64(n), "line": int64(line)})
	}
	for d := 0; d < docs; d++ {
		q = append(q, tokens(14, d, 1, 1, 0, 0, 1), tokens(14, d, 0, 1, 0, d%2, d%3/2), tokens(14, d, 0, 0, 1, 1, 1), hTask("Garbage", P{"prop": 14, "doc": int64(d), "bad": 1}))
		t = append(t, tokens(14, d, 0, 2, 0, 0, 1), tokens(14, d, 2, 2, 0, 0, 1), tokens(14, d, 0, 2, 0, 1, 1), tokens(14, d, 0, 1, 1, 0, 1), hTask("Garbage", P{"prop": 14, "doc": int64(d), "bad": 2}), run(d, 6, d%2))
	}
	q = append(q, hTask("Garbage", P{"prop": 14, "doc": 9, "bad": 2}), run(9, 6, 0), run(3, 2, 0), run(5, 2, 1), run(8, 3, 1), heads(14, 2, 2, 2, 2, 1, 1, 0), heads(14, 2, 1, 3, 3, 0, 2, 1), heads(14, 0, 1, 0, 1, 0, 3, 4), calls(14, 2, 2, 1, 1, 4, 4, "loose", 1, "goodsql", 0), columns(14, 4, 2, 2), tables(14, 3, 2, 1, 1, 1, 2), receivers(14, 1, 4, 3, 2, 1))
	addCheck(&Check{ID: "C14", Quick: q, Thorough: t, Need: append([]string{"bad character", "bad run", "accepted", "rejected"}, both...), Outside: []string{"sources that differ from the base sources in more than a window of the stated size; other bad characters than the 14 listed"},
		Bounds: "the base sources of C12 with one token replaced, inserted or everything behind cut off (2 thorough), each token on its own line; one or two of 14 texts that start no token, at any place; the semantic errors of the generators of C01 to C06"})
}

func init() {
	var q, t []Task
	q = append(q, hTask("LexFree", P{"n": 1}), hTask("LexFree", P{"n": 2}))
	t = append(t, hTask("LexFree", P{"n": 3}))
	for i := int64(0); i < 8; i++ {
		p := P{"first": i, "step": 8}
		q = append(q, hTask("LexWindow", with(p, "del", 0, "n", 1)), hTask("LexWindow", with(p, "del", 1, "n", 1)), hTask("LexWide", with(p, "del", 0)))
		t = append(t, hTask("LexWindow", with(p, "del", 2, "n", 1)), hTask("LexWindow", with(p, "del", 1, "n", 2)), hTask("LexWide", with(p, "del", 1)))
	}
	q = append(q, hTask("LexWindow", P{"first": 0, "step": 1, "del": 1, "n": 0}))
	source := func(src, del, n, wide, ends int64) Task {
		return hTask("LexSource", P{"src": src, "del": del, "n": n, "wide": wide, "from": ends})
	}
	q = append(q, source(0, 0, 2, 0, 1), source(0, 0, 1, 0, 0), source(0, 0, 1, 1, 0), source(1, 0, 1, 0, 0), source(1, 1, 1, 1, 0), source(2, 0, 1, 1, 0), source(3, 1, 1, 0, 0), source(3, 0, 1, 1, 0))
	t = append(t, source(0, 0, 2, 0, 0), source(0, 0, 3, 0, 1), source(1, 0, 2, 0, 1), source(1, 1, 1, 0, 0), source(2, 0, 1, 0, 0), source(2, 1, 1, 0, 0), source(3, 0, 1, 0, 0), source(3, 0, 2, 0, 1), source(0, 1, 2, 0, 0))
	for l := 0; l < 6; l++ {
		q = append(q, hTask("FaithTables", P{"prop": 7, "tables": 2, "cols": 2, "attrs": 1, "shift": int64(l), "comma": 0, "mix": 1, "layout": int64(l)}),
			hTask("Garbage", P{"prop": 14, "doc": int64(l), "bad": 1}))
	}
	addCheck(&Check{ID: "C13", Quick: q, Thorough: t, Need: []string{"tokens", "error", "source"},
		Bounds:  "every text of 1 or 2 ASCII characters (3 thorough); 103 texts with every keyword, punctuation, literal, comment and SQL form in which at any place one ASCII character is inserted, replaced or removed (two thorough), or one of 11 other characters inserted; through the whole parser: 2 tables in 6 layouts and 14 texts that start no token at any place; 4 whole sources parsed with one ASCII character inserted or replaced, or one of 13 other characters inserted, at any place, and 2 at either end",
		Outside: []string{"longer texts with more free characters; other characters beyond ASCII than the 11"}})
}

func init() {
	var q, t []Task
	chars := func(attrs, at, kind, n, blanks, shift int) Task {
		return hTask("AnnChars", with(P{}, "attrs", attrs, "at", at, "kind", kind, "n", n, "blanks", blanks, "shift", shift))
	}
	for n := int64(0); n < 6; n++ {
		q = append(q, hTask("AnnRefused", P{"n": n}))
	}
	t = append(t, hTask("AnnRefused", P{"n": 6}), hTask("AnnRefused", P{"n": 7}))
	for i := 0; i < 9; i++ {
		q = append(q, chars(1+i%4, i%(1+i%4), 2, 2+i%2, 5, i), chars(1+i%5, i%(1+i%5), 0, 1+i%3, 5, i), chars(1+i%5, i%(1+i%5), 1, 1+i%4, 5, i))
		t = append(t, chars(1+i%4, i%(1+i%4), 2, 4+i%2, 5, i), chars(1+i%5, i%(1+i%5), 0, 4, 5, i), chars(8, i%8, 2, 3, 5, i))
	}
	q = append(q, chars(0, 0, 0, 0, 5, 0), chars(1, 0, 2, 5, 1, 0), chars(2, 0, 2, 4, 1, 1), chars(2, 1, 2, 4, 1, 1),
		hTask("AnnPool", P{"attrs": 1, "blanks": 5, "target": 3}), hTask("AnnPool", P{"attrs": 2, "blanks": 5, "target": 1}),
		hTask("AnnSource", P{"anns": 1, "attrs": 1}), hTask("AnnSource", P{"anns": 0, "attrs": 0}), hTask("AnnSource", P{"anns": 2, "attrs": 1}))
	q = append(q, hTask("AnnRepeat", P{"attrs": 3}), chars(40, 39, 2, 1, 1, 0), chars(17, 8, 1, 2, 1, 1), chars(300, 299, 0, 1, 1, 2))
	t = append(t, hTask("AnnRepeat", P{"attrs": 4}))
	t = append(t, chars(1, 0, 2, 6, 1, 0), chars(1, 0, 2, 7, 1, 0), hTask("AnnPool", P{"attrs": 3, "blanks": 2, "target": 1}), hTask("AnnSource", P{"anns": 1, "attrs": 2}))
	addCheck(&Check{ID: "C15", Quick: q, Thorough: t, Need: []string{"parsed", "refused"},
		Bounds:  "every text of up to 5 ASCII characters is refused or not (7 thorough); annotations of up to 5 attributes, one of which has any string of up to 5 ASCII characters (7 thorough), any name of up to 3 characters (4) or any number of up to 4 digits; any two of 32 literals full of commas, parentheses, quotes, escapes and attribute-like text (three thorough); 5 kinds of blanks between the tokens; what the compiler stores for 2 annotations with blanks and comments in the source",
		Outside: []string{"longer strings with more free characters than stated", "names and numbers longer than stated"}})
}

func init() {
	var q []Task
	for k := int64(0); k < 3; k++ {
		q = append(q, hTask("TypeCase", P{"kind": k}), hTask("TypeNear", P{"kind": k}))
	}
	for n := int64(0); n <= 10; n++ {
		q = append(q, hTask("TypeChars", P{"n": n}))
	}
	t := []Task{hTask("TypeChars", P{"n": 16}), hTask("TypeChars", P{"n": 64})}
	q = append(q, columns(4, 3, 1, 1), constraints(4, 1, 8, 2, 7, 1, 3), hTask("FaithKeys", P{"prop": 8, "tables": 1, "cols": 3, "items": 3, "icols": 2, "acts": 0, "at": 0, "comma": 0, "shift": 0, "free": 1, "order": 0, "layout": 0}))
	addCheck(&Check{ID: "C18", Quick: q, Thorough: t, Need: []string{"known", "unknown"},
		Bounds:  "every text of up to 10 ASCII characters (64 thorough); every keyword with each letter in either case; every keyword with one of 16 other texts (letters and marks beyond ASCII, blanks, control characters, an invalid byte, digits, the keyword again) inserted or in place of a letter; the keywords through the whole parser",
		Outside: []string{"letters beyond ASCII whose lower case is an ASCII letter (the capital i with dot, the kelvin sign) count as that letter or not"}})
}

func init() {
	enc := func(f string, places, tables, cols, attrs, idxs, icols, fks, keys, facts, actions, anns, inputs, auxs, stmts, exts, conf int) Task {
		p := P{"tables": int64(tables), "cols": int64(cols), "attrs": int64(attrs), "idxs": int64(idxs), "icols": int64(icols), "fks": int64(fks), "keys": int64(keys), "facts": int64(facts),
			"actions": int64(actions), "anns": int64(anns), "inputs": int64(inputs), "auxs": int64(auxs), "stmts": int64(stmts), "exts": int64(exts), "conf": int64(conf)}
		if places > 0 {
			p["places"] = int64(places)
		}
		return hTask(f, p)
	}
	q := []Task{hTask("DecodeSelf", nil),
		enc("Decode", 7, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0),
		enc("Decode", 7, 1, 0, 0, 0, 0, 1, 2, 1, 0, 0, 0, 0, 0, 0, 0),
		enc("Decode", 7, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 0, 0),
		enc("Decode", 7, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2),
		enc("Encode", 0, 2, 2, 2, 2, 2, 2, 2, 2, 0, 0, 0, 0, 0, 0, 0),
		enc("Encode", 0, 0, 0, 0, 0, 0, 0, 0, 0, 3, 2, 2, 2, 2, 0, 0),
		enc("Encode", 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 4, 4),
		enc("Encode", 0, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1),
		enc("Encode", 0, 1, 4, 4, 4, 4, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0),
	}
	t := []Task{enc("Encode", 0, 3, 3, 3, 2, 3, 3, 3, 3, 0, 0, 0, 0, 0, 0, 0), enc("Encode", 0, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1),
		enc("Decode", 22, 2, 2, 2, 2, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0), enc("Decode", 22, 2, 0, 0, 0, 0, 2, 2, 2, 0, 0, 0, 0, 0, 0, 0), enc("Decode", 16, 0, 0, 0, 0, 0, 0, 0, 0, 2, 2, 2, 2, 2, 0, 0)}
	for l := 0; l < 6; l += 2 {
		q = append(q, hTask("FaithTables", P{"prop": 7, "tables": 2, "cols": 2, "attrs": 1, "shift": int64(l), "comma": 0, "mix": 1, "layout": int64(l)}),
			hTask("FaithExts", P{"prop": 11, "exts": 2, "conf": 2, "vary": 1, "mix": 0, "shift": int64(l), "layout": int64(l)}))
	}
	addCheck(&Check{ID: "C17", Quick: q, Thorough: t, Need: []string{"encoded", "decoded", "accepted"},
		Bounds:  "schemas with every combination of list lengths up to 2 (4 for columns, attributes and indexes, 3 thorough for all parts of tables), every string any of 33 texts with quotes, backslashes, control characters, line separators, markup and wide characters, every enumerated field any of its values; the text of a schema with one such string at any of the first 7 places (22 thorough) decoded again; the JSON of every node type; schemas the compiler makes",
		Outside: []string{"strings that are not valid UTF-8, which no source text can put into a schema", "longer lists than stated", "lists that are empty but not nil"}})
}

func init() {
	hist := func(n, modes, lo, hi, third int) Task {
		if hi > 45 {
			hi = 45
		}
		return hTask("History", with(P{}, "n", n, "modes", modes, "lo", lo, "hi", hi, "third", third))
	}
	seq := func(a, b int, t ...Task) Task {
		p := P{"first": int64(a), "second": int64(b)}
		for _, x := range t {
			for k, v := range x.Params {
				p[k] = v
			}
		}
		return hTask("Sequence", p)
	}
	var q, t []Task
	for i := 0; i < 46; i += 5 {
		q = append(q, hist(2, 4, min(i+i/5%5, 45), i+i/5%5, 0), hist(3, 0, i, i+4, 5))
		t = append(t, hist(2, 4, i, i+4, 0), hist(3, 0, i, i+4, 0), hist(3, 2, i, i+4, 0), hist(3, 4, i, i, 0), hist(3, 4, min(i+2, 45), i+2, 0))
	}
	q = append(q, hist(1, 4, 0, 0, 0))
	t = append(t, hist(4, 0, 8, 8, 5), hist(4, 0, 16, 16, 5))
	for l := 0; l < 4; l++ {
		tb := hTask("", with(P{}, "prop", 7, "tables", 2, "cols", 2+l%2, "attrs", 1, "shift", l, "comma", l%2, "mix", 1, "layout", l))
		hd := hTask("", with(P{}, "prop", 9, "actions", 2, "params", 2, "mods", 1, "anns", 1, "keys", 1, "init", l, "mix", 1, "layout", l))
		ks := hTask("", with(P{}, "prop", 8, "tables", 2, "cols", 3, "items", 2, "icols", 2, "acts", 1, "at", 1, "comma", 0, "shift", l, "free", 1, "order", 0, "layout", l))
		ex := hTask("", with(P{}, "prop", 11, "exts", 3, "conf", 2, "vary", 1, "mix", 1, "shift", l, "layout", l))
		bd := hTask("", with(P{}, "prop", 10, "actions", 2, "stmts", 3, "args", 1, "depth", 1, "shape", l, "shift", l, "init", 1, "layout", l))
		tk := tokens(12, l*2+1, 1, 1, 0, 0, 0)
		hs := heads(2, 2, 2, 2, 1, 1, 1, l)
		cs := columns(2, 3, 1, 1)
		rs := receivers(5, 1, 2, 1, 1, l)
		ca := calls(5, 2, 1, 1, 0, l, 2*l+1, "exts", 1, "params", 1, "recv", 1)
		cb := calls(5, 2, 1, 1, 0, l, 2*l+2, "exts", 1, "params", 1, "recv", 1)
		q = append(q, seq(9, 9, ca), seq(9, 9, cb), seq(10, 10, tables(1, 2, 2, 1, l%2, 1, 1)))
		if l == 0 {
			q = append(q, seq(1, 1, ks))
		}
		q = append(q, seq(0, 0, tb), seq(2, 2, hd), seq(3, 3, bd), seq(4, 4, ex), seq(5, 0, tb, tk), seq(6, 4, ex, hs), seq(7, 4, ex, cs), seq(8, 0, tb, rs))
		t = append(t, seq(5, 2, hd, tk), seq(5, 3, bd, tk), seq(6, 2, hd, hs), seq(7, 0, tb, cs), seq(2, 3, hd, bd), seq(3, 2, bd, hd), seq(5, 5, tk), seq(6, 6, hs), seq(8, 8, rs))
	}
	addCheck(&Check{ID: "C19", Quick: q, Thorough: t, Need: []string{"accepted", "rejected", "sequence", "syntax error"},
		Bounds:  "every sequence of 2 of 46 texts of every outcome, followed by either again or one of 3 (every sequence of 3, many of 4, thorough), of 2 (3 thorough), the first one of 9 (any), in each of 4 ways to call the parser (own or no listener, trace or not), each compared with the compiled parser in a process of its own; two parses of sources with free names, literals, tokens and modifiers one after the other, the second compared with the reference; the schemas of the first parses encoded again after each",
		Outside: []string{"longer histories; error listeners used for several parses"}})
}

func init() {
	cli := func(kv ...any) Task {
		p := P{}
		for _, k := range []string{"source", "dir", "input", "tr", "version", "out", "form", "swap", "at", "dashes", "cut", "old", "fault"} {
			p[k] = 0
		}
		p["chars"], p["count"] = -1, 1
		return Task{Pkg: "zzverif/c", Func: "Cli", Warm: "Warm", Params: with(p, kv...)}
	}
	q := []Task{
		cli("source", -1, "chars", 0, "dir", -1, "input", -1),
		cli("source", -1, "tr", -1, "version", -1, "swap", -1),
		cli("source", 1, "out", -1, "form", -1, "old", -1),
		cli("source", 0, "fault", -1, "out", -1, "old", 1), cli("source", 0, "fault", -1, "old", -1),
		cli("source", 1, "fault", -1, "out", -1, "old", 2), cli("source", 1, "fault", -1, "old", -1),
		cli("source", -1, "fault", -1, "out", -1, "input", -1),
		cli("count", -1, "at", -1, "dashes", -1, "cut", -1, "out", 1, "tr", -1),
		cli("count", -1, "at", -1, "out", -1, "source", -1, "input", -1),
		cli("at", -1, "swap", -1, "form", -1, "tr", -1, "version", -1, "out", 11),
		cli("chars", 2, "out", -1, "old", 3), cli("chars", 2, "old", -1), cli("chars", 2, "input", -1, "source", -1), cli("chars", 3, "out", 8, "dir", 1),
	}
	t := []Task{
		cli("source", -1, "chars", 0, "dir", -1, "input", -1, "fault", -1, "old", -1),
		cli("source", -1, "out", -1, "old", -1, "fault", -1, "input", -1),
		cli("source", -1, "out", -1, "old", -1, "fault", -1, "tr", -1, "form", -1),
		cli("count", -1, "at", -1, "dashes", -1, "cut", -1, "out", -1, "tr", -1, "version", -1, "swap", -1),
		cli("chars", 4, "dir", -1, "old", -1), cli("chars", 5, "dir", 1), cli("chars", 6, "dir", 1),
	}
	for i := 6; i < 17; i++ {
		q = append(q, cli("source", i, "tr", (i+i/7)%2))
		t = append(t, cli("source", i, "old", -1, "out", 1))
	}
	for d := 0; d < 5; d++ {
		q = append(q, cli("chars", 1, "dir", d, "out", -1), cli("chars", 3, "dir", d))
	}
	need := []string{"success", "version", "bad option"}
	for _, c := range "23457" {
		need = append(need, "status "+string(c))
	}
	addCheck(&Check{ID: "C16", Quick: q, Thorough: t, Need: need, Native: "zzverif/replayc",
		Bounds:  "one invocation: up to 3 files named, 7 forms each of the trace, version and unknown options, 12 output directories in 5 forms, in any order, with -- and an option without its value; the input in 5 places present, missing, a directory or unreachable, named by every text of up to 3 of the characters a.B _- (6 thorough) or 6 endings; the output missing, shorter or longer than the new one, a directory or a full device; creating directories, opening for writing or closing fails; 27 sources, 6 of them with every choice of the rest, with free names and literals; 5 or more of these choices at once",
		Outside: []string{"two invocations at once", "other faults of the file system than those listed, links, permissions", "errors of the JSON encoding (no schema has one, see C17)", "the text of usage messages"}})
}

func init() {
	bridge := func(calls, args, chars int) Task {
		return Task{Pkg: "zzverif/w", Func: "Bridge", Warm: "Warm", Params: with(P{}, "calls", calls, "args", args, "chars", chars)}
	}
	addCheck(&Check{ID: "C20", Need: []string{"accepted", "rejected", "wrong number"}, Native: "zzverif/replayw", GOOS: "js",
		Quick:    []Task{bridge(1, 5, 0), bridge(2, 2, 0), bridge(1, 1, 1), bridge(1, 1, 2), bridge(1, 1, 3)},
		Thorough: []Task{bridge(3, 1, 0), bridge(2, 1, 2), bridge(1, 1, 4)},
		Bounds:   "2 calls (3 thorough) one after the other of the exported function with 0 to 2 (5) arguments: every text of up to 3 (4) of the characters blank ; ' $ # @ { a d 0 / line end, 27 sources of every outcome with free names, literals and columns",
		Outside:  []string{"arguments that are not texts, texts that are not well-formed UTF-16", "what the page does with the result"}})
}

func init() {
	// checks of the machine itself
	var lib []Task
	for i := 0; i < 114; i++ {
		lib = append(lib, Task{Pkg: "zzverif/s", Func: "SelfLib", Params: P{"use": int64(i)}})
	}
	addCheck(&Check{ID: "SELFLIB", Native: "zzverif/replays", MaxSamples: 2000, SampleEvery: 1, Quick: lib})
	addCheck(&Check{ID: "SELF", MaxSamples: 1000, SampleEvery: 1, Quick: []Task{hTask("SmokeJSON", nil), hTask("SelfMaps", nil), hTask("SelfBranches", nil)}})
}
