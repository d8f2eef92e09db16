package h

import (
	"errors"
	"strings"

	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/utils"
	"github.com/kwilteam/kuneiform/zzverif/nd"
)

// ---- reference recognizer ----

// recog decides whether a sequence of tokens is a source of the grammar. A
// parser maps the conditions under which each position is reached before it to
// those after it; seen collects where a next token was expected.
type recog struct {
	toks []string
	seen []bool
}

type pos []bool

func (r *recog) none(a pos) bool {
	for _, x := range a {
		if !nd.Known(nd.Not(x)) {
			return false
		}
	}
	return true
}

func (r *recog) or(as ...pos) pos {
	o := make(pos, len(r.toks)+1)
	for _, a := range as {
		for i := range a {
			o[i] = nd.Or(o[i], a[i])
		}
	}
	return o
}

type prs func(in pos) pos

// set: a token with one of the texts, or of the class (first character)
func (r *recog) token(is func(x string) bool) prs {
	return func(in pos) pos {
		o := make(pos, len(r.toks)+1)
		for i, x := range r.toks {
			if nd.Known(nd.Not(in[i])) {
				continue
			}
			o[i+1] = nd.And(in[i], is(x))
		}
		for i := range in {
			r.seen[i] = nd.Or(r.seen[i], in[i])
		}
		return o
	}
}

func (r *recog) t(texts ...string) prs {
	return r.token(func(x string) bool { return in(x, texts) })
}

func (r *recog) seq(ps ...prs) prs {
	return func(in pos) pos {
		for _, p := range ps {
			if r.none(in) {
				break
			}
			in = p(in)
		}
		return in
	}
}

func (r *recog) alt(ps ...prs) prs {
	return func(in pos) pos {
		var as []pos
		for _, p := range ps {
			as = append(as, p(in))
		}
		return r.or(as...)
	}
}

func (r *recog) star(p prs) prs {
	return func(in pos) pos {
		acc := in
		for cur := p(in); !r.none(cur); cur = p(cur) {
			acc = r.or(acc, cur)
		}
		return acc
	}
}

func (r *recog) opt(p prs) prs {
	return func(in pos) pos { return r.or(in, p(in)) }
}

// p (sep p)*
func (r *recog) list(p, sep prs) prs { return r.seq(p, r.star(r.seq(sep, p))) }

// The classes of the tokens below that are not spelled by the grammar.
var (
	ctNames = []string{"nm", "Table1", "init2"}
	ctIndex = []string{"#i"}
	ctVars  = []string{"$v"}
	ctAts   = []string{"@caller"}
	ctNums  = []string{"7"}
	ctStrs  = []string{"'s'"}
	ctSQL   = []string{"select 1", "DELETE t"}
)

func (r *recog) source() prs {
	name, num := r.t(ctNames...), r.t(ctNums...)
	lit := r.t(append(append([]string(nil), ctNums...), ctStrs...)...)
	comma := r.t(",")
	t := r.t
	names := r.list(name, comma)
	database := r.seq(t("database"), name, t(";"))
	conf := r.seq(name, t(":"), lit)
	ext := r.seq(t("use"), name, r.opt(r.seq(t("{"), r.list(conf, comma), t("}"))), t("as"), name, t(";"))
	constraint := r.alt(t("primary", "notnull", "unique"), r.seq(t("default"), t("("), lit, t(")")), r.seq(t("min", "max", "minlen", "maxlen"), t("("), num, t(")")))
	column := r.seq(name, t("int", "text", "blob"), r.star(constraint))
	idx := r.seq(t(ctIndex...), t("unique", "index", "primary"), t("("), names, t(")"))
	fkact := r.seq(t("on_update", "on_delete"), r.opt(t("do")), t("no_action", "cascade", "set_null", "set_default", "restrict"))
	fk := r.seq(t("foreign_key", "fk"), t("("), names, t(")"), t("references", "ref"), name, t("("), names, t(")"), r.star(fkact))
	// columns come first: after an index or a foreign key no column follows
	table := r.seq(t("table"), name, t("{"), r.list(column, comma), r.star(r.seq(comma, r.alt(idx, fk))), r.opt(comma), t("}"))
	attr := r.seq(name, t("="), lit)
	ann := r.seq(t(ctAts...), t("("), r.list(attr, comma), t(")"))
	v := t(ctVars...)
	var expr prs
	exprs := func(in pos) pos {
		e := func(in pos) pos { return expr(in) }
		return r.seq(r.opt(e), r.star(r.seq(comma, e)))(in)
	}
	expr = func(in pos) pos {
		e := func(in pos) pos { return expr(in) }
		prefix := r.star(t("+", "-", "~", "not"))
		primary := r.alt(lit, v, t(ctAts...), r.seq(t("("), e, t(")")), r.seq(name, t("("), r.alt(t("*"), r.opt(r.list(e, comma))), t(")")))
		op := t("+", "-", "*", "/", "%", "<<", ">>", "&", "|", "||", "<", "<=", ">", ">=", "=", "==", "!=", "<>", "and", "or")
		// a tail: operators and closing parentheses may follow in any number
		return r.list(r.seq(prefix, primary), op)(in)
	}
	call := r.seq(r.opt(r.seq(r.list(v, comma), t("="))), r.alt(r.seq(name, t("."), name), name), t("("), exprs, t(")"))
	stmt := r.seq(r.alt(t(ctSQL...), call), t(";"))
	body := r.seq(t("{"), stmt, r.star(stmt), t("}"))
	params := r.seq(r.opt(v), r.star(r.seq(comma, v)))
	action := r.seq(r.star(ann), t("action"), name, t("("), params, t(")"), r.star(t("public", "private", "view", "owner")), body)
	init := r.seq(t("init"), t("("), t(")"), body)
	return r.seq(database, r.star(ext), r.star(r.alt(table, action, init)))
}

// match: is it a source, and where is the first token no source can have there
func recognize(toks []string) (bool, []bool) {
	r := &recog{toks: toks, seen: make([]bool, len(toks)+1)}
	in := make(pos, len(toks)+1)
	in[0] = true
	out := r.source()(in)
	for i := range in {
		// after a complete source only the end may follow
		r.seen[i] = nd.Or(r.seen[i], out[i])
	}
	// the first offending token is the last one that was looked at
	first := make([]bool, len(toks)+1)
	later := false
	for i := len(toks); i >= 0; i-- {
		first[i] = nd.And(r.seen[i], nd.Not(later))
		later = nd.Or(later, r.seen[i])
	}
	return out[len(toks)], first
}

// ---- sources ----

// every token the grammar knows
var ctAll = []string{"nm", "Table1", "#i", "$v", "@caller", "7", "'s'", ":", ";", "(", "{", ")", "}", ",", ".", "=", "+", "-", "*", "/", "%", "~",
	"||", "<<", ">>", "&", "|", "==", "<", "<=", ">", ">=", "!=", "<>", "not", "and", "or", "$", "#", "@",
	"database", "use", "table", "as", "action", "init", "public", "private", "view", "owner", "int", "text", "blob",
	"min", "max", "minlen", "maxlen", "notnull", "primary", "default", "unique", "index", "foreign_key", "fk", "references", "ref",
	"on_update", "on_delete", "do", "no_action", "cascade", "set_null", "set_default", "restrict"}

// texts whose tokens are replaced; together they use every rule
var ctDocs = []string{
	"database nm ; use nm { nm : 7 , Table1 : 's' } as nm ; use nm as init2 ; table nm { nm int }",
	"database nm ; table nm { nm int primary default ( 7 ) , Table1 text minlen ( 7 ) notnull unique , }",
	"database nm ; table nm { nm int , Table1 blob , #i unique ( nm , Table1 ) , fk ( nm ) references nm ( nm ) on_update do cascade on_delete set_null }",
	"database nm ; table nm { nm blob max ( 7 ) , foreign_key ( nm , nm ) ref nm ( nm , nm ) , #i index ( nm ) } table init2 { nm text }",
	"database nm ; use nm as nm ; action nm ( $v , $v ) public view { nm . nm ( $v ) ; } init ( ) { nm ( ) ; }",
	"database nm ; @caller ( nm = 's' , nm = 7 ) @caller ( nm = 7 ) action nm ( ) private owner { nm ( ) ; nm ( 7 , 's' ) ; }",
	"database nm ; action nm ( $v ) { $v = nm . nm ( $v + ( 7 * - $v ) , not nm ( $v , 's' ) ) ; }",
	"database nm ; action nm ( $v ) { $v , $v = nm . nm ( nm ( * ) == @caller or ~ $v <= 7 ) ; nm ( nm ( ) , nm ( 7 , 7 ) ) ; }",
	"database nm ; init ( ) { nm ( ) ; } table nm { nm int } action nm ( , $v ) { nm ( , 7 ) ; }",
	"database nm ;",
	"database nm ; action nm ( ) { select 1 ; DELETE t ; } table nm { nm int }",
}

// ctFree: tokens of any type
func ctFree(n int) []string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, pick(lab("tok", i), ctAll))
	}
	return r
}

func ctSplit(doc string) []string {
	var r []string
	for _, x := range strings.Fields(doc) {
		n := len(r)
		if n > 0 && (r[n-1] == "select" || r[n-1] == "DELETE") {
			r[n-1] += " " + x
			continue
		}
		r = append(r, x)
	}
	return r
}

// Tokens (C12, C14): a document of which del tokens at some place are replaced
// by ins free ones.
func Tokens() {
	toks := ctSplit(ctDocs[nd.Param("doc")])
	del, ins := nd.Param("del"), nd.Param("ins")
	lo, hi := 0, len(toks)-del
	if p := nd.Param("to"); p < hi {
		hi = p
	}
	if p := nd.Param("from"); p > lo {
		lo = p
	}
	if lo > hi {
		lo = hi
	}
	at := nd.Concrete(nd.Int("at", lo, hi))
	free := ctFree(ins)
	if nd.Param("sql") == 1 {
		// a SQL statement extends to the next semicolon or brace
		ends := []string{";", "}"}
		free = append([]string{pick("sql", ctSQL[:2]), ends[nd.Concrete(nd.Int("end", 0, 1))]}, free...)
	}
	all := append(append(append([]string(nil), toks[:at]...), free...), toks[at+del:]...)
	if nd.Param("trunc") == 1 {
		all = append(append([]string(nil), toks[:at]...), free...)
	}
	for i, x := range all {
		if nd.IsConcrete(x) && (strings.HasPrefix(x, "select") || strings.HasPrefix(x, "DELETE")) {
			if i+1 < len(all) && (!nd.IsConcrete(all[i+1]) || all[i+1] != ";" && all[i+1] != "}") {
				return // would be part of the statement
			}
		}
	}
	judgeTokens(all)
}

func judgeTokens(toks []string) {
	// every token on a line of its own, or all on one; a SQL statement would
	// include a separator behind it
	oneLine := nd.Param("lines") == 0
	text := ""
	at := make([]string, len(toks)+1)
	line, sql := 1, false
	for i, x := range toks {
		at[i] = lab("line ", line, ":8 ")
		if !sql {
			if oneLine {
				text += " "
			} else {
				text += "\n"
				line++
			}
			at[i] = lab("line ", line, ":0 ")
		}
		text += x
		sql = nd.Known(nd.Or(x == ctSQL[0], x == ctSQL[1]))
	}
	if n := len(toks); n > 0 && nd.IsConcrete(toks[n-1]) && !sql {
		// the end of the text
		at[n] = lab("line ", line, ":", len(toks[n-1]))
		if strings.HasSuffix(at[n-1], ":8 ") {
			at[n] = lab("line ", line, ":", 8+len(toks[n-1]))
		}
	}
	isSrc, first := recognize(toks)
	l := utils.NewErrorListener()
	nd.Observe("source", text)
	var err error
	p := nd.Try(func() { _, err = kfparser.ParseKF(text, l, kfparser.Default) })
	nd.Assert(p == nil, "parsing panics")
	syntax := err != nil && errors.Is(err, utils.ErrInvalidSyntax)
	if syntax {
		nd.Observe("verdict", "syntax error")
		nd.Observe("~error", err.Error())
		nd.Reach("syntax error")
		nd.Assert(nd.Not(isSrc), "a source of the grammar is reported as a syntax error")
	} else {
		nd.Observe("verdict", "no syntax error")
		nd.Reach("grammatical")
		nd.Assert(isSrc, "a text that is no source of the grammar is not reported as a syntax error")
	}
	if nd.Param("prop") == 14 {
		judgeErrors(at, l, err, syntax, first, oneLine)
	}
}

// judgeErrors: what the listener holds and where the first error is.
func judgeErrors(at []string, l *utils.ErrorListener, err error, syntax bool, first []bool, oneLine bool) {
	nd.Assert((err == nil) == (len(l.ErrorList) == 0), "the listener holds errors exactly if parsing fails")
	if err != nil && !syntax {
		nd.Assert(len(l.ErrorList) == 1, "one semantic error")
	}
	for i, a := range l.ErrorList {
		if syntax {
			nd.Assert(errors.Is(a, utils.ErrInvalidSyntax), "every error of a malformed source is a syntax error")
		}
		for _, b := range l.ErrorList[:i] {
			nd.Assert(a.Error() != b.Error(), "an error is reported twice")
		}
	}
	if !syntax || oneLine {
		return
	}
	for i, x := range at {
		nd.Assert(nd.Implies(first[i], strings.Contains(err.Error(), x)), "the first offending token is at another place")
	}
}

// texts that are no token and no part of one, alone on a line
var ctBad = []string{"?", "!", "\"", "^", "`", "[", "]", "\\", "é", "\x00", "\x7f", "'", "\u2003", "_", "\v"}

// Garbage (C14): characters that start no token, between the tokens of a
// source. Each of them is one error, in the order of the text.
func Garbage() {
	toks := ctSplit(ctDocs[nd.Param("doc")])
	n := nd.Param("bad")
	text, line, lo, kind := "", 0, 0, 0
	var want []string
	for i := 0; i < n; i++ {
		at := nd.Concrete(nd.Int(lab("at", i), lo, len(toks)))
		for ; lo < at; lo++ {
			line++
			text += toks[lo] + "\n"
		}
		if i == 0 {
			kind = nd.Concrete(nd.Int("bad", 0, len(ctBad)-1))
		} else {
			kind += 1 + at
		}
		b := ctBad[kind%len(ctBad)]
		line++
		text += b + "\n"
		want = append(want, lab("line ", line, ":0 "))
	}
	for ; lo < len(toks); lo++ {
		text += toks[lo] + "\n"
	}
	for i := 0; i < len(toks); i++ {
		if strings.HasPrefix(toks[i], "select") || strings.HasPrefix(toks[i], "DELETE") {
			return
		}
	}
	l := utils.NewErrorListener()
	nd.Observe("source", text)
	var err error
	p := nd.Try(func() { _, err = kfparser.ParseKF(text, l, kfparser.Default) })
	nd.Assert(p == nil, "parsing panics")
	nd.Assert(err != nil, "a character that starts no token is accepted")
	nd.Assert(errors.Is(err, utils.ErrInvalidSyntax), "a bad character is a syntax error")
	nd.Reach("bad character")
	nd.Assert(len(l.ErrorList) == len(want), "one error for each bad character")
	for i, w := range want {
		nd.Assert(strings.Contains(l.ErrorList[i].Error(), w), "the error is at the bad character")
	}
}

// GarbageRun (C14): a run of characters that start no token, all on the line of
// the other tokens. Each of them is one error at its own column, however alike.
func GarbageRun() {
	toks := ctSplit(ctDocs[nd.Param("doc")])
	at := nd.Concrete(nd.Int("at", 0, len(toks)))
	n := nd.Concrete(nd.Int("run", 1, nd.Param("bad")))
	same := nd.Concrete(nd.Int("same", 0, 1)) == 1
	kind := nd.Concrete(nd.Int("bad", 0, len(ctNever)-1))
	text, line, col := "", 1, 0
	if nd.Param("line") > 0 {
		text, line = "\n\n", 3
	}
	var want []string
	for i := 0; i <= len(toks); i++ {
		if i == at {
			for k := 0; k < n; k++ {
				text += ctNever[kind%len(ctNever)]
				want = append(want, lab("line ", line, ":", col, " "))
				col++
				if !same {
					kind++
				}
			}
			text += " "
			col++
		}
		if i < len(toks) {
			if strings.HasPrefix(toks[i], "select") || strings.HasPrefix(toks[i], "DELETE") {
				return
			}
			text += toks[i] + " "
			col += len(toks[i]) + 1
		}
	}
	l := utils.NewErrorListener()
	nd.Observe("source", text)
	var err error
	p := nd.Try(func() { _, err = kfparser.ParseKF(text, l, kfparser.Default) })
	nd.Assert(p == nil, "parsing panics")
	nd.Assert(err != nil, "a character that starts no token is accepted")
	nd.Assert(errors.Is(err, utils.ErrInvalidSyntax), "a bad character is a syntax error")
	nd.Reach("bad run")
	nd.Assert(len(l.ErrorList) == len(want), "one error for each bad character")
	for i, w := range want {
		nd.Assert(strings.Contains(l.ErrorList[i].Error(), w), "the error is at the bad character")
	}
}

// characters that are in no token outside strings, comments and SQL
var ctNever = []string{"^", "?", "[", "\\", "\x00", "\u00e9", "`"}

// every list of the grammar: what comes before it, the separator, an element,
// and what comes behind
var ctLists = [][4]string{
	{"database nm ;", "", "use nm as nm ;", ""},
	{"database nm ; use nm {", ",", "nm : 7", "} as nm ;"},
	{"database nm ;", "", "table nm { nm int }", "init ( ) { nm ( ) ; }"},
	{"database nm ; table nm {", ",", "nm int", "}"},
	{"database nm ; table nm { nm int", "", "notnull unique min ( 7 ) default ( 's' )", ", #i unique ( nm ) }"},
	{"database nm ; table nm { nm int", "", ", #i unique ( nm ) , fk ( nm ) ref nm ( nm )", ", }"},
	{"database nm ; table nm { nm int , #i index (", ",", "nm", ") }"},
	{"database nm ; table nm { nm int , fk (", ",", "nm", ") ref nm ( nm ) }"},
	{"database nm ; table nm { nm int , fk ( nm ) ref nm (", ",", "nm", ") on_update cascade }"},
	{"database nm ; table nm { nm int , fk ( nm ) ref nm ( nm )", "", "on_update do set_null on_delete cascade", "}"},
	{"database nm ;", "", "action nm ( ) { nm ( ) ; }", "table nm { nm int }"},
	{"database nm ; action nm (", ",", "$v", ") public { nm ( ) ; }"},
	{"database nm ; action nm ( )", "", "public view owner", "{ nm ( ) ; }"},
	{"database nm ;", "", "@caller ( nm = 7 )", "action nm ( ) { nm ( ) ; }"},
	{"database nm ; @caller (", ",", "nm = 's'", ") action nm ( ) { nm ( ) ; }"},
	{"database nm ; action nm ( ) {", "", "nm ( 7 ) ;", "}"},
	{"database nm ; action nm ( ) {", "", "select 1 ;", "}"},
	{"database nm ; init ( ) {", ",", "$v", "= nm . nm ( ) ; }"},
	{"database nm ; init ( ) { nm (", ",", "$v + 7", ") ; }"},
	{"database nm ; init ( ) { nm (", "", "( ( - ~ not", "7 ) ) ; }"},
	{"database nm ; init ( ) { nm ( $v", "", "+ 7 || 's' and @caller", ") ; }"},
	{"database nm ;", "", "init ( ) { nm ( ) ; } table nm { nm int } action nm ( ) { nm ( ) ; }", ""},
}

// Lists (C12): lists with many elements, and with one token less or other than
// that near the end.
func Lists() {
	l := ctLists[nd.Param("list")]
	n, edit := nd.Param("n"), nd.Param("edit")
	toks := ctSplit(l[0])
	opens := 0
	for i := 0; i < n; i++ {
		if i > 0 && l[1] != "" {
			toks = append(toks, l[1])
		}
		toks = append(toks, ctSplit(l[2])...)
		if strings.HasPrefix(l[2], "(") {
			opens++
		}
	}
	end := len(toks)
	toks = append(toks, ctSplit(l[3])...)
	if opens > 0 {
		toks = append(toks[:end], "7")
		for i := 0; i < 2*opens; i++ {
			toks = append(toks, ")")
		}
		toks = append(toks, ")", ";", "}")
		end = len(toks) - 3
	}
	if edit > 0 {
		lo := end - 4
		if lo < 0 {
			lo = 0
		}
		at := nd.Concrete(nd.Int("at", lo, end-1))
		rest := append([]string(nil), toks[at+1:]...)
		toks = append(toks[:at], ctFree(edit-1)...)
		toks = append(toks, rest...)
		for i, x := range toks {
			if nd.IsConcrete(x) && strings.HasPrefix(x, "select") && i+1 < len(toks) && (!nd.IsConcrete(toks[i+1]) || toks[i+1] != ";") {
				return // would be part of the statement
			}
		}
	}
	judgeTokens(toks)
}
