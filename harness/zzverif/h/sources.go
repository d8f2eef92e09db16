package h

import (
	"strings"

	"github.com/kwilteam/kuneiform/zzverif/nd"
)

// Sources are source texts of every outcome: %n stands for a name, %s for a
// literal, %c for a column.
var Sources = []string{
	"database %n;",
	"database %n; use e { k: %s } as f; table t { id int primary, %c text minlen(3) default(%s), #i unique(id) } @k(a = %s) action q($a) public view { select 1 \n ; }",
	"database %n; table t { id int } table t { id int }",
	"database %n; table { }",
	"", "?database %n;",
	"database %n; action %c($a) private { insert into t (a) values ($a, '<é&>\u2028\t%%d') \n; delete from t; $x = f.g(%s, abs($a)); f.h($x); } use e as f;",
	"database %n; use e as f; init() { insert into t(a) values(%s); f.g(%s, 1 + 2 * (3)); } table %c { %c blob unique notnull, foreign_key (%c) references %c (%c) on_delete do set_null }",
	"database %n; action a() public { select from; }",
	"database %n; action a() public { b(%%v); }",
	"database %n; table t { id text max(%s), x %c }",
	"database %n; action a() public { nothing(); }",
	"database %n; use e as f; action a($a) public { f.g(nofunc($a)); }",
	"database %n; %%s%%d%%",
	"DATABASE %n;", "database %n", "\n\n database %n; // %%\n /* %c",
	"database %n; %s", "database %n; \U0001f389 é", "\ufeffdatabase %n;", "database %n;\r\ntable %c\r\n{ id int }\r\n", "<undefined>", " ", "\u00a0database %n;",
	"database %n; init() { delete from t; } init() { delete from t; }", "database %n; table %c { id int, #id unique(%c), #id index(id) }",
	"database %n; table t { id int not }\ntable u { }\n?",
}

// Fill puts texts made from choices in place of the marks of a source.
func Fill(src, label string) string {
	name := nd.OneOf(label+"name", "d", "Shop_1", "database_x", "a", "tables", "Z9")
	out := ""
	n := 0
	for {
		i := strings.IndexByte(src, '%')
		if i < 0 {
			return out + src
		}
		out += src[:i]
		switch src[i+1] {
		case 'n':
			out += name
		case 's':
			out += nd.OneOf(lab(label, "literal", n), "'x'", "'\"<&>'", "42", "'\\n é\u2028'", "'it\\'s'")
		case 'c':
			out += nd.OneOf(lab(label, "column", n), "c", "cc", "Id_2", "primary_", "x0")
		}
		if src[i+1] == '%' {
			out += "%"
		}
		n++
		src = src[i+2:]
	}
}
