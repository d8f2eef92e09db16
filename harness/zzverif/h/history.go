package h

import (
	"fmt"

	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/kfparser/ast"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"
	"github.com/kwilteam/kuneiform/zzverif/nd"
)

// texts of every outcome; neighbours are easily taken for each other
var histTexts = []string{
	"database d;",
	"database D;",
	" database d; ",
	"database d; table t { id int primary }",
	"database d; table t { id int primary, }",
	"database d; table T { id int primary }",
	"database d; table u { id int unique, n text minlen(2), #i unique(id), fk (id) references u(id) on_update cascade }",
	"database d; action a() public { select 1; } action b($x) private view { select 2; } init() { insert into t values (1); }",
	"database d; @t(a=1, b='x') action a($x, $y) public owner { $z = e.f($x, 1 + 2 * 3); } use e as e;",
	"database d; use e { k: 1, l: 'v' } as x; action a($x) public { $z = x.f($x, 1 + 2 * 3); }",
	"database d; use e { k: 2 } as x; action a($x) public { $z = x.f($x, 1 + 2 * 3); }",
	"database d; action a($x) public { x.f($x); }",
	"database d; action a($x) public { select * from t where id = $y; }",
	"database d; action a() public { selec t; }",
	"database d; action a() public { select from; }",
	"database d; table t { id int } table t { id int }",
	"database d; table t { id int, id text }",
	"database d; table t { id int primary primary }",
	"database d; action a() public private { select 1; }",
	"database d; action a() public { b(); } action b() private { a(); }",
	"database d; action a() public { nosuch(1, 2); }",
	"database d; action a() public { x.f(nofn(1)); } use e as x;",
	"database d; use e as x; action a($a) public { $b = x.f(nofn($a)); }",
	"database d; table t { id int, fk (id) ref v(id) }",
	"database d; table t { id \u00e9 int }",
	"database d; table t { id int } }",
	"database",
	"",
	"database d; init() { select 1; } init() { select 2; }",
	"database d; table select { id int }",
	"database d; use e as e; @t(a=1, b='x') @u(c='y') action a($x, $y) public owner { $z = e.f($x, 1 + 2 * 3); }",
	// alike but for blanks, case, comments or the middle of a long text
	"database d; use e { k: 'a  b' } as x;",
	"database d; use e { k: 'a b' } as x;",
	"database d; use e { k: 'A b' } as x;",
	"database d; // use e as x;\n use f as y;",
	"database d; // use e as x;  use f as y;",
	long('a'),
	long('b'),
	// wrong with parts that are right in a neighbour
	"database d; action a() public { b(); }",
	"database d; use e as x; action a($x) public { x.f($x); } action c() public { select * from t where id = 1; }",
	"database d; use e as x; action a() public { $z = x.h(); x.g($z); }",
	"database d; use e as x; action a() public { x.g($z); }",
	"database d; table v { id int } table t { id int, fk (id) ref v(id) }",
	"database d; table t { id int, n int, #i unique(n) }",
	"database d; table t { id int, #i unique(n) }",
	"database d; table n { id int primary, fk (n) ref n(id) }",
}

// long is a text of some length with one letter in its middle.
func long(c rune) string {
	pad := ""
	for i := 0; i < 12; i++ {
		pad += "use extension { key: 'value' } as alias" + string(rune('a'+i)) + "; "
	}
	return "database d; " + pad + "use " + string(c) + " as middle; table t { id int primary, name text notnull minlen(2) maxlen(40), #name_index unique(name, id) } action get($id) public view { select id, name from t where id = $id; } action put($id, $name) public { insert into t (id, name) values ($id, $name); }"
}

// result is the outcome of one parse as a text.
func result(a ast.Ast, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	s, ok := a.(*schema.Schema)
	if !ok || s == nil {
		return "no schema"
	}
	b, err := s.ToJSON()
	if err != nil {
		return "encoding: " + err.Error()
	}
	return "schema: " + string(b)
}

// Lone prints the outcome of one parse in a fresh process.
func Lone(text string) {
	defer func() {
		if r := recover(); r != nil {
			fmt.Print("panic")
		}
	}()
	fmt.Print(result(kfparser.Parse(text)))
}

// History (C19): n parses of any texts in any mode one after another; each gives
// what a process of its own gives, and the schemas stay as they were.
func History() {
	n := nd.Param("n")
	var done []*schema.Schema
	var was, seen []string
	for i := 0; i < n; i++ {
		lo, hi := 0, len(histTexts)-1
		if i == 0 && n > 1 {
			lo, hi = nd.Param("lo"), nd.Param("hi")
		}
		text := ""
		if i == 2 && nd.Param("third") > 0 {
			text = append([]string{seen[0], seen[1], "database d;", "database d; table t { id int", "database d; action a($x) public { b($x); }"},
				histTexts...)[nd.Concrete(nd.Int("text2", 0, nd.Param("third")-1))]
		} else {
			text = histTexts[nd.Concrete(nd.Int(lab("text", i), lo, hi))]
		}
		seen = append(seen, text)
		how := 0
		if nd.Param("modes") > 0 {
			how = nd.Concrete(nd.Int(lab("how", i), 0, nd.Param("modes")-1))
		}
		nd.Observe("source", text)
		var a ast.Ast
		var err error
		p := nd.Try(func() {
			switch how {
			case 0:
				a, err = kfparser.Parse(text)
			case 1:
				a, err = kfparser.ParseKF(text, utils.NewErrorListener(), kfparser.Default|kfparser.Trace)
			case 2:
				a, err = kfparser.ParseKF(text, nil, kfparser.Trace)
			default:
				a, err = kfparser.ParseKF(text, utils.NewErrorListener(), kfparser.Default)
			}
		})
		nd.Assert(p == nil, "parsing panics")
		got := result(a, err)
		nd.Observe("result", got)
		nd.Assert(got == nd.Lone(text), "the result of a parse depends on earlier parses, the mode or the listener")
		if err == nil {
			nd.Reach("accepted")
			done, was = append(done, a.(*schema.Schema)), append(was, got)
		} else {
			nd.Reach("rejected")
		}
		for j, s := range done {
			nd.Assert(result(s, nil) == was[j], "a parse changes the schema of an earlier one")
		}
	}
}

// Sequence (C19): two harnesses one after the other, each with values of its
// own: what the second asserts holds after any parse of the first, and the
// schemas of the first stay as they were.
func Sequence() {
	fs := []func(){FaithTables, FaithKeys, FaithHeads, FaithBodies, FaithExts, Tokens, Heads, Columns, Receivers, Calls, Tables}
	keepSchemas = true
	fs[nd.Param("first")]()
	fs[nd.Param("second")]()
	for i, s := range keptSchemas {
		nd.Assert(result(s, nil) == keptTexts[i], "a parse changes the schema of an earlier one")
	}
	nd.Reach("sequence")
}
