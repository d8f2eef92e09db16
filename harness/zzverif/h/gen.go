// Package h holds the harnesses of the checks: each builds a source text from
// symbolic choices, runs the real compiler on it and compares what comes out
// with a reference model that is computed from the same choices.
package h

import (
	"errors"
	"fmt"
	"strconv"

	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/kfparser/ast"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"
	"github.com/kwilteam/kuneiform/zzverif/nd"
)

const long60 = "n234567890123456789012345678901234567890123456789012345678901"

// gen collects the text of a source, a blank before every word.
type gen struct{ s string }

func (g *gen) w(words ...string) {
	for _, x := range words {
		g.s += " " + x
	}
}

// raw appends without a separator.
func (g *gen) raw(x string) { g.s += x }

// list writes the words separated by commas.
func (g *gen) list(words []string) {
	for i, x := range words {
		if i > 0 {
			g.w(",")
		}
		g.w(x)
	}
}

func lab(parts ...any) string {
	s := ""
	for _, p := range parts {
		switch x := p.(type) {
		case string:
			s += x
		case int:
			s += strconv.Itoa(x)
		}
	}
	return s
}

// ---- sets of names ----

func dup(xs []string) bool {
	var r []bool
	for i := range xs {
		for j := 0; j < i; j++ {
			r = append(r, xs[i] == xs[j])
		}
	}
	return nd.Or(r...)
}

func in(x string, xs []string) bool {
	var r []bool
	for _, y := range xs {
		r = append(r, x == y)
	}
	return nd.Or(r...)
}

// common: is some element of a in b
func common(a, b []string) bool {
	var r []bool
	for _, x := range a {
		r = append(r, in(x, b))
	}
	return nd.Or(r...)
}

// ---- outcome of a parse ----

type outcome struct {
	text     string
	s        *schema.Schema
	a        ast.Ast
	err      error
	listener *utils.ErrorListener
}

func parse(text string) outcome {
	nd.Observe("source", text)
	o := outcome{text: text}
	p := nd.Try(func() {
		o.a, o.err = kfparser.Parse(text)
	})
	nd.Assert(p == nil, "parsing panics")
	if o.err == nil {
		nd.Observe("verdict", "accepted")
	} else {
		nd.Observe("verdict", "rejected")
	}
	if o.err == nil {
		s, ok := o.a.(*schema.Schema)
		nd.Assert(ok, "no error but the result is not a schema")
		nd.Assert(s != nil, "no error but the schema is nil")
		o.s = s
		if keepSchemas {
			keptSchemas, keptTexts = append(keptSchemas, s), append(keptTexts, result(s, nil))
		}
	}
	return o
}

// the schemas of the parses so far and their JSON
var (
	keepSchemas bool
	keptSchemas []*schema.Schema
	keptTexts   []string
)

// rule is a documented semantic rule: its error and whether the source
// breaks it.
type rule struct {
	name   string
	err    error
	broken bool
}

func anyBroken(rs []rule) bool {
	var b []bool
	for _, r := range rs {
		b = append(b, r.broken)
	}
	return nd.Or(b...)
}

// judge compares the outcome with the rules.
//
// sound: nothing that breaks a rule is accepted (of the rules named by only)
// complete: nothing that breaks no rule is rejected, and a rejection names a
// rule that is broken
func judge(o outcome, rs []rule, only map[string]bool, sound, complete, names bool) {
	if o.err == nil {
		nd.Reach("accepted")
		if sound {
			for _, r := range rs {
				if only == nil || only[r.name] {
					nd.Assert(nd.Not(r.broken), "accepted although this rule is broken: "+r.name)
				}
			}
		}
		return
	}
	nd.Reach("rejected")
	nd.Observe("~error", o.err.Error())
	if complete {
		nd.Assert(anyBroken(rs), "rejected although no rule is broken")
	}
	if names {
		nd.Assert(anyBroken(rs), "rejected although no rule is broken")
		if errors.Is(o.err, utils.ErrInvalidSyntax) {
			nd.Assert(false, "a grammatical source is reported as a syntax error")
		}
		known := false
		for _, r := range rs {
			if r.err != nil && errors.Is(o.err, r.err) {
				known = true
				var b []bool
				for _, q := range rs {
					if q.err == r.err {
						b = append(b, q.broken)
					}
				}
				nd.Assert(nd.Or(b...), "the reported rule is not broken: "+r.name)
				nd.Reach("rule " + r.name)
				break
			}
		}
		if !known {
			// errors of the SQL parser carry no documented value of their own
			var b []bool
			for _, r := range rs {
				if r.err == nil {
					b = append(b, r.broken)
				}
			}
			nd.Assert(nd.Or(b...), "the error is none of the documented ones")
			nd.Reach("rule without a value")
		}
	}
}

var _ = fmt.Sprint
