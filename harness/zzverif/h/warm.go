package h

import "github.com/kwilteam/kuneiform/kfparser"

// Warm fills the prediction caches of the parsers before the exploration.
func Warm() {
	for _, s := range warmTexts {
		kfparser.Parse(s)
	}
}

var warmTexts = []string{
	"database a;",
	"database a; use e as f; use e { a: 1, b: 'x' } as g; table t { id int primary notnull unique default(1) min(1) max(2), n text minlen(2) maxlen(3), b blob, #i unique(id), #j index(id, n), #k primary(n), fk (id) references t(id) on_update cascade on_delete do set_null, foreign_key (id, n) ref t(id, n), } @x(a=1) action q($a, $b) public view owner { select 1; f.go($a, 1+2*3); $x, $y = f.run(); $z = f.o($a, @caller, -1, ~2, not 3, abs(4), (5)); q(1, 'x'); } init() { insert into t values(1); }",
}
