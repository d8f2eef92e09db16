package h

import (
	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/zzverif/nd"
)

func Smoke() {
	s, err := kfparser.Parse("database a; use e as f; table t { id int primary notnull, n text minlen(2), #i unique(id), fk (id) references t(id) on_update cascade } @x(a=1) action q($a, $b) public { select 1; f.go($a, 1+2*3); } init() { insert into t values(1); }")
	nd.Assert(err == nil, "no error")
	if err != nil {
		nd.Observe("err", err.Error())
		return
	}
	_ = s
	nd.Reach("ok")
}

// SmokeJSON observes the JSON of a source that uses every construct.
func SmokeJSON() {
	for i := range warmTexts {
		o := parse(warmTexts[i])
		if o.err != nil {
			nd.Observe("~err", o.err.Error())
			continue
		}
		b, err := o.a.ToJSON()
		nd.Assert(err == nil, "json")
		nd.Observe("json", string(b))
	}
}
