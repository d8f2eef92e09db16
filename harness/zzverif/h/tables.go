package h

import (
	"errors"

	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/kfparser/ast"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"
	"github.com/kwilteam/kuneiform/zzverif/nd"
)

// reference model of a table section

type rCol struct {
	name, typ string
	attrs     []rAttr
}

type rAttr struct{ kind, val string }

type rIdx struct {
	hash string // as written
	name string // without the leading #
	kind string
	cols []string
}

func index(hash, kind string, cols []string) rItem {
	return rItem{idx: rIdx{hash, hash[1:], kind, cols}}
}

func hashed(pool []string) []string {
	var r []string
	for _, x := range pool {
		r = append(r, "#"+x)
	}
	return r
}

type rFKAct struct {
	on, do string
	kw     bool // with the word do
}

type rFK struct {
	child  []string
	parent string
	pcols  []string
	acts   []rFKAct
	kw     string // spelling of foreign_key
	ref    string // spelling of references
}

type rItem struct {
	isFK bool
	idx  rIdx
	fk   rFK
}

type rTable struct {
	name  string
	cols  []rCol
	items []rItem
	comma bool // a comma after the last item
}

func (t *rTable) colNames() []string {
	var r []string
	for _, c := range t.cols {
		r = append(r, c.name)
	}
	return r
}

func (t *rTable) idxNames() []string {
	var r []string
	for _, i := range t.items {
		if !i.isFK {
			r = append(r, i.idx.name)
		}
	}
	return r
}

func hasValue(kind string) bool {
	switch kind {
	case "default", "min", "max", "minlen", "maxlen":
		return true
	}
	return false
}

func (t *rTable) write(g *gen) {
	g.w("table", t.name, "{")
	for i, c := range t.cols {
		if i > 0 {
			g.w(",")
		}
		g.w(c.name, c.typ)
		for _, a := range c.attrs {
			g.w(a.kind)
			if a.val != "" {
				g.w("(", a.val, ")")
			}
		}
	}
	for _, it := range t.items {
		g.w(",")
		if it.isFK {
			g.w("foreign_key", "(")
			g.list(it.fk.child)
			g.w(")", "references", it.fk.parent, "(")
			g.list(it.fk.pcols)
			g.w(")")
			for _, a := range it.fk.acts {
				g.w(a.on)
				if a.kw {
					g.w("do")
				}
				g.w(a.do)
			}
		} else {
			g.w(it.idx.hash, it.idx.kind, "(")
			g.list(it.idx.cols)
			g.w(")")
		}
	}
	g.w("}")
}

// tableRules evaluates the semantic rules about tables.
func tableRules(ts []*rTable) []rule {
	var names []string
	for _, t := range ts {
		names = append(names, t.name)
	}
	var dupCol, dupIdx, idxCol, fkTable, fkChild, fkParent, dupAct, dupAttr, attrType []bool
	for _, t := range ts {
		cols := t.colNames()
		dupCol = append(dupCol, dup(cols))
		dupIdx = append(dupIdx, dup(t.idxNames()), common(t.idxNames(), cols))
		for _, c := range t.cols {
			var kinds []string
			for _, a := range c.attrs {
				kinds = append(kinds, a.kind)
				attrType = append(attrType,
					nd.And(c.typ == "int", nd.Or(a.kind == "minlen", a.kind == "maxlen")),
					nd.And(c.typ == "text", nd.Or(a.kind == "min", a.kind == "max")))
			}
			dupAttr = append(dupAttr, dup(kinds))
		}
		for _, it := range t.items {
			if !it.isFK {
				for _, c := range it.idx.cols {
					idxCol = append(idxCol, nd.Not(in(c, cols)))
				}
				continue
			}
			for _, c := range it.fk.child {
				fkChild = append(fkChild, nd.Not(in(c, cols)))
			}
			fkTable = append(fkTable, nd.Not(in(it.fk.parent, names)))
			for _, p := range ts {
				for _, c := range it.fk.pcols {
					fkParent = append(fkParent, nd.And(it.fk.parent == p.name, nd.Not(in(c, p.colNames()))))
				}
			}
			var ev []string
			for _, a := range it.fk.acts {
				ev = append(ev, event(a.on))
			}
			dupAct = append(dupAct, dup(ev))
		}
	}
	return []rule{
		{"table names are unique", schema.ErrDuplicateTable, dup(names)},
		{"column names are unique in a table", schema.ErrDuplicateColumn, nd.Or(dupCol...)},
		{"index names are unique in a table", schema.ErrDuplicateIndex, nd.Or(dupIdx...)},
		{"index columns are declared", schema.ErrColumnNotFound, nd.Or(idxCol...)},
		{"foreign key child columns are declared", schema.ErrColumnNotFound, nd.Or(fkChild...)},
		{"foreign key parent columns are declared", schema.ErrColumnNotFound, nd.Or(fkParent...)},
		{"foreign key parent table is declared", schema.ErrTableNotFound, nd.Or(fkTable...)},
		{"one foreign key action per event", schema.ErrDupFKAction, nd.Or(dupAct...)},
		{"a constraint occurs once", schema.ErrDuplicateAttribute, nd.Or(dupAttr...)},
		{"constraints fit the column type", schema.ErrAttributeNotAllow, nd.Or(attrType...)},
	}
}

func event(on string) string {
	return nd.IteStr(on == "on_update", "UPDATE", "DELETE")
}

const (
	ruleTable   = "table names are unique"
	ruleCol     = "column names are unique in a table"
	ruleIdx     = "index names are unique in a table"
	ruleIdxCol  = "index columns are declared"
	ruleChild   = "foreign key child columns are declared"
	ruleParent  = "foreign key parent columns are declared"
	ruleFKTable = "foreign key parent table is declared"
	ruleFKAct   = "one foreign key action per event"
	ruleDupAttr = "a constraint occurs once"
	ruleFit     = "constraints fit the column type"
)

func sema(ts []*rTable) {
	g := &gen{}
	g.w("database", "db", ";")
	for _, t := range ts {
		t.write(g)
	}
	o := parse(g.s)
	rs := tableRules(ts)
	prop(o, rs)
}

// prop selects what is asserted by the property under check.
func prop(o outcome, rs []rule) {
	switch nd.Param("prop") {
	case 1:
		judge(o, rs, map[string]bool{ruleIdxCol: true, ruleChild: true, ruleParent: true, ruleFKTable: true}, true, false, false)
	case 2:
		judge(o, rs, map[string]bool{ruleTable: true, ruleCol: true, ruleIdx: true, ruleExt: true, ruleAction: true, ruleParam: true}, true, true, false)
	case 3:
		judge(o, rs, nil, true, true, true)
	case 4:
		judge(o, rs, map[string]bool{ruleFKAct: true, ruleDupAttr: true, ruleFit: true}, true, true, false)
	case 5:
		judge(o, rs, map[string]bool{ruleCallee: true, ruleExtension: true, ruleVar: true, ruleBlockVar: true, ruleRecv: true}, true, true, false)
	case 6:
		judge(o, rs, map[string]bool{ruleSQL: true}, true, true, false)
	case 14:
		once(o, rs)
	}
}

const (
	ruleExt       = "extension aliases are unique"
	ruleAction    = "action names are unique"
	ruleParam     = "parameters are unique in an action"
	ruleCallee    = "called actions are declared"
	ruleExtension = "called extensions are declared"
	ruleVar       = "variables are in scope"
	ruleBlockVar  = "block variables are known"
	ruleRecv      = "receivers are unique in a call"
	ruleSQL       = "SQL statements are valid"
)

var colPool = []string{"a", "A", "b", "c_1", long60 + "x", long60 + "y"}

func pick(label string, pool []string) string { return nd.OneOf(label, pool...) }

func picks(label string, n int, pool []string) []string {
	r := make([]string, n)
	for i := range r {
		r[i] = pick(lab(label, i), pool)
	}
	return r
}

// Columns: one table with n columns and two indexes, all names free.
func Columns() {
	n, ni := nd.Param("cols"), nd.Param("idx")
	colPool := append([]string(nil), colPool...)
	for len(colPool) < n+3 {
		colPool = append(colPool, lab("n", len(colPool)))
	}
	t := &rTable{name: pick("table", []string{"t", "a"})}
	for i := 0; i < n; i++ {
		t.cols = append(t.cols, rCol{name: pick(lab("col", i), colPool), typ: "int"})
	}
	for i := 0; i < ni; i++ {
		t.items = append(t.items, index(pick(lab("idx", i), hashed(colPool)), "index", picks(lab("idx", i, "col"), nd.Param("icols"), colPool)))
	}
	sema([]*rTable{t})
}

// Tables: several tables with two columns each and an index; one of the
// tables has foreign keys. All names are free.
func Tables() {
	nt, at, nf := nd.Param("tables"), nd.Param("at"), nd.Param("fks")
	nc, nk := nd.Param("cols"), nd.Param("fkcols")
	var ts []*rTable
	tpool := []string{"a", "t", "T", "u", long60 + "x", long60 + "y"}
	cpool := []string{"a", "A", "b", "t", "i"}
	for i := 0; i < nt; i++ {
		t := &rTable{name: pick(lab("table", i), tpool)}
		for j := 0; j < nc; j++ {
			t.cols = append(t.cols, rCol{name: pick(lab("table", i, "col", j), cpool), typ: "int"})
		}
		if nd.Param("idx") > 0 {
			t.items = append(t.items, index(pick(lab("table", i, "idx"), hashed(cpool)), "unique", picks(lab("table", i, "idxcol"), nd.Param("icols"), cpool)))
		}
		ts = append(ts, t)
	}
	for f := 0; f < nf; f++ {
		l := lab("fk", f)
		it := rItem{isFK: true, fk: rFK{child: picks(l+"child", nk, cpool), parent: pick(l+"parent", tpool), pcols: picks(l+"pcol", nk+nd.Param("pextra"), cpool)}}
		k := at
		if k >= nt { // spread over the tables
			k = f % nt
		}
		ts[k].items = append(ts[k].items, it)
	}
	sema(ts)
}

var allKinds = []string{"primary", "notnull", "unique", "default", "min", "max", "minlen", "maxlen"}

// Constraints (C04): a table of ncols columns with nattrs constraints each.
// The constraints of the column number at are free (of any kind), those of the
// others go in turn; the types are free everywhere.
func Constraints() {
	nt, nc, na, at, extra := nd.Param("tables"), nd.Param("cols"), nd.Param("attrs"), nd.Param("at"), nd.Param("freeattrs")
	var ts []*rTable
	k := nd.Param("shift")
	for i := 0; i < nt; i++ {
		t := &rTable{name: lab("t", i)}
		for j := 0; j < nc; j++ {
			n := i*nc + j
			c := rCol{name: lab("c", j)}
			add := func(l string, kind string) {
				a := rAttr{kind: kind}
				if hasValue(kind) {
					a.val = pick(l+"val", numbers)
				}
				c.attrs = append(c.attrs, a)
			}
			if n == at {
				c.typ = pick(lab("type", n), types)
				for x := 0; x < na; x++ {
					add(lab("fixed", x), allKinds[(k+x*3)%8])
				}
				for x := 0; x < extra; x++ {
					l := lab("free", x)
					add(l, allKinds[nd.Concrete(nd.Int(l, 0, 7))])
				}
			} else {
				// kinds that differ and fit
				c.typ = types[(n+k)%3]
				for x := 0; x < na && x < 4; x++ {
					add(lab("c", n, "_", x), []string{"primary", "notnull", "unique", "default"}[(x+k)%4])
				}
				k++
			}
			t.cols = append(t.cols, c)
		}
		ts = append(ts, t)
	}
	sema(ts)
}

// FKActions (C04): foreign keys with actions of any event and reaction.
func FKActions() {
	nt, nf, na, at := nd.Param("tables"), nd.Param("fks"), nd.Param("acts"), nd.Param("at")
	var ts []*rTable
	k := nd.Param("shift")
	ev := []string{"on_update", "on_delete"}
	for i := 0; i < nt; i++ {
		t := &rTable{name: lab("t", i), cols: []rCol{{name: "a", typ: "int"}, {name: "b", typ: "int"}}}
		for f := 0; f < nf; f++ {
			fk := rFK{child: []string{"a"}, parent: lab("t", (i+f)%nt), pcols: []string{"b"}}
			if i*nf+f == at {
				for x := 0; x < na; x++ {
					l := lab("act", x)
					fk.acts = append(fk.acts, rFKAct{on: ev[nd.Concrete(nd.Int(l+"on", 0, 1))], do: pick(l+"do", words(doTable)), kw: (x+k)%2 == 0})
				}
			} else {
				for x := 0; x < (i+f+k)%3; x++ {
					fk.acts = append(fk.acts, rFKAct{on: ev[(x+k)%2], do: words(doTable)[(x+k+f)%5]})
				}
			}
			t.items = append(t.items, rItem{isFK: true, fk: fk})
		}
		ts = append(ts, t)
	}
	sema(ts)
}

// once (C14): with a listener of the caller the outcome is the same, and the
// listener holds exactly one error in the failing case.
func once(o outcome, rs []rule) {
	l := utils.NewErrorListener()
	var a ast.Ast
	var err error
	p := nd.Try(func() { a, err = kfparser.ParseKF(o.text, l, kfparser.Default) })
	nd.Assert(p == nil, "parsing panics")
	nd.Assert((err == nil) == (o.err == nil), "the verdict depends on the listener")
	if err == nil {
		nd.Reach("accepted")
		s, ok := a.(*schema.Schema)
		nd.Assert(ok && s != nil, "no error and no schema")
		nd.Assert(len(l.ErrorList) == 0, "an accepted source leaves no error in the listener")
		nd.Assert(l.Err() == nil, "an accepted source leaves no error in the listener")
		return
	}
	nd.Reach("rejected")
	nd.Observe("~error", err.Error())
	nd.Assert(err.Error() == o.err.Error(), "the error depends on the listener")
	nd.Assert(len(l.ErrorList) == 1, "one mistake is one error")
	nd.Assert(l.Err() != nil, "the listener has the error")
	nd.Assert(!errors.Is(err, utils.ErrInvalidSyntax), "a grammatical source is reported as a syntax error")
	for _, r := range rs {
		if r.err != nil && errors.Is(err, r.err) {
			return
		}
	}
	var b []bool
	for _, r := range rs {
		if r.err == nil {
			b = append(b, r.broken)
		}
	}
	nd.Assert(nd.Or(b...), "the error is none of the documented ones")
}
