package h

import (
	"github.com/antlr4-go/antlr/v4"

	"github.com/kwilteam/kuneiform/kfgrammar"
	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/utils"
	"github.com/kwilteam/kuneiform/zzverif/nd"
)

// ---- reference of the lexical structure ----
//
// m(class, i, j): the characters i..j-1 are a lexeme of the class, a condition
// over the characters.

type lexRef struct{ c []int }

func (r *lexRef) is(i int, x byte) bool { return r.c[i] == int(x) }

func (r *lexRef) oneOf(i int, set string) bool {
	var b []bool
	for k := 0; k < len(set); k++ {
		b = append(b, r.c[i] == int(set[k]))
	}
	return nd.Or(b...)
}

func (r *lexRef) alpha(i int) bool {
	return nd.Or(nd.And(r.c[i] >= 'a', r.c[i] <= 'z'), nd.And(r.c[i] >= 'A', r.c[i] <= 'Z'))
}

func (r *lexRef) digit(i int) bool { return nd.And(r.c[i] >= '0', r.c[i] <= '9') }

func (r *lexRef) blank(i int) bool { return r.oneOf(i, " \t") }

// text: exactly these characters, fold: in any letter case
func (r *lexRef) text(s string, fold bool, i, j int) bool {
	if j-i != len(s) {
		return false
	}
	var b []bool
	for k := 0; k < len(s); k++ {
		eq := r.is(i+k, s[k])
		if fold && s[k] >= 'a' && s[k] <= 'z' {
			eq = nd.Or(eq, r.is(i+k, s[k]-32))
		}
		b = append(b, eq)
	}
	return nd.And(b...)
}

func (r *lexRef) word(i, j int) bool {
	if i >= j {
		return false
	}
	b := []bool{r.alpha(i)}
	for k := i + 1; k < j; k++ {
		b = append(b, nd.Or(r.alpha(k), r.digit(k), r.is(k, '_')))
	}
	return nd.And(b...)
}

func (r *lexRef) number(i, j int) bool {
	var b []bool
	for k := i; k < j; k++ {
		b = append(b, r.digit(k))
	}
	return nd.And(b...)
}

// str: a quote, then characters other than quote, backslash and line end or a
// backslash and any character, then a quote
func (r *lexRef) str(i, j int) bool {
	if j-i < 2 {
		return false
	}
	plain, esc := r.is(i, '\''), false
	for k := i + 1; k < j-1; k++ {
		ordinary := nd.And(plain, nd.Not(r.oneOf(k, "'\\\r\n")))
		slash := nd.And(plain, r.is(k, '\\'))
		plain, esc = nd.Or(ordinary, esc), slash
	}
	return nd.And(plain, r.is(j-1, '\''))
}

var sqlWords = []string{"select", "insert", "update", "delete", "with"}

// sql: a keyword, blanks or line ends, then everything but ; and }
func (r *lexRef) sql(i, j int) bool {
	var alts []bool
	for _, w := range sqlWords {
		n := i + len(w)
		if j < n+2 {
			continue
		}
		b := []bool{r.text(w, true, i, n), r.oneOf(n, " \t\r\n")}
		for k := n + 1; k < j; k++ {
			b = append(b, nd.Not(r.oneOf(k, ";}")))
		}
		alts = append(alts, nd.And(b...))
	}
	return nd.Or(alts...)
}

func (r *lexRef) blockComment(i, j int) bool {
	if j-i < 4 {
		return false
	}
	b := []bool{r.text("/*", false, i, i+2), r.text("*/", false, j-2, j)}
	for k := i + 2; k+2 < j; k++ {
		b = append(b, nd.Not(r.text("*/", false, k, k+2)))
	}
	return nd.And(b...)
}

func (r *lexRef) lineComment(i, j int) bool {
	if j-i < 2 {
		return false
	}
	b := []bool{r.text("//", false, i, i+2)}
	for k := i + 2; k < j; k++ {
		b = append(b, nd.Not(r.oneOf(k, "\r\n")))
	}
	return nd.And(b...)
}

func (r *lexRef) blanks(set string, i, j int) bool {
	if i >= j {
		return false
	}
	var b []bool
	for k := i; k < j; k++ {
		b = append(b, r.oneOf(k, set))
	}
	return nd.And(b...)
}

type spelled struct {
	typ  int
	text string
	fold bool
}

var lexSpelled = []spelled{
	{kfgrammar.KuneiformLexerCOL, ":", false}, {kfgrammar.KuneiformLexerSCOL, ";", false}, {kfgrammar.KuneiformLexerL_PAREN, "(", false},
	{kfgrammar.KuneiformLexerL_BRACE, "{", false}, {kfgrammar.KuneiformLexerR_PAREN, ")", false}, {kfgrammar.KuneiformLexerR_BRACE, "}", false},
	{kfgrammar.KuneiformLexerCOMMA, ",", false}, {kfgrammar.KuneiformLexerDOLLAR, "$", false}, {kfgrammar.KuneiformLexerHASH, "#", false},
	{kfgrammar.KuneiformLexerAT, "@", false}, {kfgrammar.KuneiformLexerPERIOD, ".", false}, {kfgrammar.KuneiformLexerASSIGN, "=", false},
	{kfgrammar.KuneiformLexerPLUS, "+", false}, {kfgrammar.KuneiformLexerMINUS, "-", false}, {kfgrammar.KuneiformLexerSTAR, "*", false},
	{kfgrammar.KuneiformLexerDIV, "/", false}, {kfgrammar.KuneiformLexerMOD, "%", false}, {kfgrammar.KuneiformLexerTILDE, "~", false},
	{kfgrammar.KuneiformLexerPIPE2, "||", false}, {kfgrammar.KuneiformLexerLT2, "<<", false}, {kfgrammar.KuneiformLexerGT2, ">>", false},
	{kfgrammar.KuneiformLexerAMP, "&", false}, {kfgrammar.KuneiformLexerPIPE, "|", false}, {kfgrammar.KuneiformLexerEQ, "==", false},
	{kfgrammar.KuneiformLexerLT, "<", false}, {kfgrammar.KuneiformLexerLT_EQ, "<=", false}, {kfgrammar.KuneiformLexerGT, ">", false},
	{kfgrammar.KuneiformLexerGT_EQ, ">=", false}, {kfgrammar.KuneiformLexerSQL_NOT_EQ1, "!=", false}, {kfgrammar.KuneiformLexerSQL_NOT_EQ2, "<>", false},
	{kfgrammar.KuneiformLexerDATABASE_, "database", false}, {kfgrammar.KuneiformLexerUSE_, "use", false}, {kfgrammar.KuneiformLexerAS_, "as", false},
	{kfgrammar.KuneiformLexerTABLE_, "table", false}, {kfgrammar.KuneiformLexerACTION_, "action", false}, {kfgrammar.KuneiformLexerINIT_, "init", false},
	{kfgrammar.KuneiformLexerPUBLIC_, "public", false}, {kfgrammar.KuneiformLexerPRIVATE_, "private", false}, {kfgrammar.KuneiformLexerVIEW_, "view", false},
	{kfgrammar.KuneiformLexerOWNER_, "owner", false}, {kfgrammar.KuneiformLexerINT_, "int", false}, {kfgrammar.KuneiformLexerTEXT_, "text", false},
	{kfgrammar.KuneiformLexerBLOB_, "blob", false}, {kfgrammar.KuneiformLexerMIN_, "min", false}, {kfgrammar.KuneiformLexerMAX_, "max", false},
	{kfgrammar.KuneiformLexerMIN_LEN_, "minlen", false}, {kfgrammar.KuneiformLexerMAX_LEN_, "maxlen", false}, {kfgrammar.KuneiformLexerNOT_NULL_, "notnull", false},
	{kfgrammar.KuneiformLexerPRIMARY_, "primary", false}, {kfgrammar.KuneiformLexerDEFAULT_, "default", false}, {kfgrammar.KuneiformLexerUNIQUE_, "unique", false},
	{kfgrammar.KuneiformLexerINDEX_, "index", false}, {kfgrammar.KuneiformLexerFOREIGN_KEY_, "foreign_key", false}, {kfgrammar.KuneiformLexerFOREIGN_KEY_ABBR_, "fk", false},
	{kfgrammar.KuneiformLexerREFERENCES_, "references", false}, {kfgrammar.KuneiformLexerREFERENCES_ABBR_, "ref", false},
	{kfgrammar.KuneiformLexerACTION_ON_UPDATE_, "on_update", false}, {kfgrammar.KuneiformLexerACTION_ON_DELETE_, "on_delete", false}, {kfgrammar.KuneiformLexerACTION_DO_, "do", false},
	{kfgrammar.KuneiformLexerACTION_DO_NO_ACTION_, "no_action", false}, {kfgrammar.KuneiformLexerACTION_DO_CASCADE_, "cascade", false},
	{kfgrammar.KuneiformLexerACTION_DO_SET_NULL_, "set_null", false}, {kfgrammar.KuneiformLexerACTION_DO_SET_DEFAULT_, "set_default", false},
	{kfgrammar.KuneiformLexerACTION_DO_RESTRICT_, "restrict", false},
	{kfgrammar.KuneiformLexerSELECT_, "select", true}, {kfgrammar.KuneiformLexerINSERT_, "insert", true}, {kfgrammar.KuneiformLexerUPDATE_, "update", true},
	{kfgrammar.KuneiformLexerDELETE_, "delete", true}, {kfgrammar.KuneiformLexerWITH_, "with", true},
	{kfgrammar.KuneiformLexerNOT_, "not", false}, {kfgrammar.KuneiformLexerAND_, "and", false}, {kfgrammar.KuneiformLexerOR_, "or", false},
}

// match: the characters i..j-1 are a lexeme of the type
func (r *lexRef) match(typ, i, j int) bool {
	var keyword []bool
	for _, s := range lexSpelled {
		if s.typ == typ {
			return r.text(s.text, s.fold, i, j)
		}
		if len(s.text) == j-i {
			keyword = append(keyword, r.text(s.text, s.fold, i, j))
		}
	}
	switch typ {
	case kfgrammar.KuneiformLexerIDENTIFIER:
		return nd.And(r.word(i, j), nd.Not(nd.Or(keyword...)))
	case kfgrammar.KuneiformLexerINDEX_NAME:
		return nd.And(r.is(i, '#'), r.word(i+1, j))
	case kfgrammar.KuneiformLexerPARAM_OR_VAR:
		return nd.And(r.is(i, '$'), r.word(i+1, j))
	case kfgrammar.KuneiformLexerBLOCK_VAR_OR_ANNOTATION:
		return nd.And(r.is(i, '@'), r.word(i+1, j))
	case kfgrammar.KuneiformLexerUNSIGNED_NUMBER_LITERAL:
		return r.number(i, j)
	case kfgrammar.KuneiformLexerSTRING_LITERAL:
		return r.str(i, j)
	case kfgrammar.KuneiformLexerSQL_STMT:
		return r.sql(i, j)
	case kfgrammar.KuneiformLexerWS:
		return r.blanks(" \t", i, j)
	case kfgrammar.KuneiformLexerTERMINATOR:
		return r.blanks("\r\n", i, j)
	case kfgrammar.KuneiformLexerBLOCK_COMMENT:
		return r.blockComment(i, j)
	case kfgrammar.KuneiformLexerLINE_COMMENT:
		return r.lineComment(i, j)
	}
	return false
}

// anything: the characters i..j-1 are a lexeme of some kind (of blanks only the
// shortest)
func (r *lexRef) anything(i, j int) bool {
	b := []bool{r.word(i, j), r.number(i, j), r.str(i, j), r.sql(i, j), r.blockComment(i, j), r.lineComment(i, j),
		nd.And(r.oneOf(i, "#$@"), r.word(i+1, j))}
	if j == i+1 {
		// blanks only separate: a run of them may be one token or several
		b = append(b, r.oneOf(i, ":;({)},$#@.=+-*/%~&|<> \t\r\n"))
	}
	if j == i+2 {
		for _, s := range []string{"||", "<<", ">>", "==", "<=", ">=", "!=", "<>"} {
			b = append(b, r.text(s, false, i, j))
		}
	}
	return nd.Or(b...)
}

func hiddenType(t int) bool {
	switch t {
	case kfgrammar.KuneiformLexerWS, kfgrammar.KuneiformLexerTERMINATOR, kfgrammar.KuneiformLexerBLOCK_COMMENT, kfgrammar.KuneiformLexerLINE_COMMENT:
		return true
	}
	return false
}

// lexed compares the tokens of a text with the reference.
func lexed(text string) {
	nd.Observe("text", text)
	l := utils.NewErrorListener()
	var toks []antlr.Token
	p := nd.Try(func() { toks = lexTokens(text, l) })
	nd.Assert(p == nil, "the lexer panics")
	r := &lexRef{}
	chars := []rune(text)
	for _, c := range chars {
		r.c = append(r.c, int(c))
	}
	n := len(chars)
	at, gaps := 0, 0
	for _, t := range toks {
		s, e := t.GetStart(), t.GetStop()+1
		nd.Assert(at <= s && s < e && e <= n, "tokens are pieces of the text one after another")
		if s > at {
			gaps += r.gap(at, s)
		}
		nd.Assert(r.match(t.GetTokenType(), s, e), "the token has another type than its text")
		for k := e + 1; k <= n; k++ {
			nd.Assert(nd.Not(r.anything(s, k)), "the token is not the longest one")
		}
		nd.Assert((t.GetChannel() != antlr.TokenDefaultChannel) == hiddenType(t.GetTokenType()), "exactly blanks, line ends and comments are hidden")
		nd.Assert(t.GetText() == string(chars[s:e]), "the text of the token")
		line, col := 1, 0
		for k := 0; k < s; k++ {
			nl := r.is(k, '\n')
			line = nd.IteInt(nl, line+1, line)
			col = nd.IteInt(nl, 0, col+1)
		}
		nd.Assert(t.GetLine() == line, "the line of the token")
		nd.Assert(t.GetColumn() == col, "the column of the token")
		at = e
	}
	if at < n {
		gaps += r.gap(at, n)
	}
	nd.Assert((gaps == 0) == (len(l.ErrorList) == 0), "errors exactly if something is no token")
	nd.Assert(len(l.ErrorList) >= gaps, "an error for every text that is no token")
	if gaps == 0 {
		nd.Reach("tokens")
	} else {
		nd.Reach("error")
	}
}

// lexTokens are the tokens the lexer makes of a text.
func lexTokens(text string, l *utils.ErrorListener) (toks []antlr.Token) {
	lx := kfgrammar.NewKuneiformLexer(antlr.NewInputStream(text))
	lx.RemoveErrorListeners()
	lx.AddErrorListener(l)
	for {
		t := lx.NextToken()
		if t.GetTokenType() == antlr.TokenEOF {
			return toks
		}
		toks = append(toks, t)
		if len(toks) > len(text)+1 {
			panic("tokens without end")
		}
	}
}

// gap: no token starts at the beginning of what was dropped.
func (r *lexRef) gap(from, to int) int {
	for k := from + 1; k <= len(r.c); k++ {
		nd.Assert(nd.Not(r.anything(from, k)), "a token is dropped")
	}
	return 1
}

// every character of interest, and all others that are one byte
var lexSet = func() string {
	s := ""
	for c := 0; c < 128; c++ {
		s += string(rune(c))
	}
	return s
}()

// LexFree (C13): n characters of any kind.
func LexFree() {
	lexed(nd.Bytes("c", nd.Param("n"), lexSet))
}

// texts in which one place is free
var lexTexts = func() []string {
	var s []string
	for _, x := range lexSpelled {
		s = append(s, x.text)
	}
	return append(s,
		"Insert into a values (1)", "select\n*\r\n from t; x", "WITH\tx {'a}'", "delete  ", "update", "Select\r*}",
		"'a\\'b'", "'it''s'", "'\\\\'", "'a;b'c", "'//x'", "'a\nb'",
		"// a b\nc", "//\r\nx", "/* a\n * b */c", "/**//***/", "/* // */ x", "// /* x\n*/", "a/b*c",
		"#idx_1", "$va_1", "@block_h", "$$a", "##", "@ a", "# x", "$1",
		"0123a", "9_1", "a_1b", "_a", "a.b", "x-1", "Table Ab", "tables", "a<=>=!=<>", "<<<>>>", "|||&", "===!", "!!",
		"no_action1", "on_updates", "min_len", "selects x", "selec t", "int_", "a\n\nb\r\n\tc  d", "x\n'y'\nz")
}()

// LexWindow (C13): the texts first, first+step, .. of the list, and in each at
// any place del characters replaced by n characters of any kind.
func LexWindow() {
	first, step, del, n := nd.Param("first"), nd.Param("step"), nd.Param("del"), nd.Param("n")
	var of []string
	for i := first; i < len(lexTexts); i += step {
		of = append(of, lexTexts[i])
	}
	s := of[nd.Concrete(nd.Int("text", 0, len(of)-1))]
	if len(s) < del {
		return
	}
	at := nd.Concrete(nd.Int("place", 0, len(s)-del))
	lexed(s[:at] + nd.Bytes("c", n, lexSet) + s[at+del:])
}

// LexWide (C13): as LexWindow, with characters of several bytes.
func LexWide() {
	first, step, del := nd.Param("first"), nd.Param("step"), nd.Param("del")
	var of []string
	for i := first; i < len(lexTexts); i += step {
		of = append(of, lexTexts[i])
	}
	s := of[nd.Concrete(nd.Int("text", 0, len(of)-1))]
	if len(s) < del {
		return
	}
	at := nd.Concrete(nd.Int("place", 0, len(s)-del))
	c := nd.ConcreteStr(nd.OneOf("c", "\u00e9", "\u6f22", "\U0001f600", "\u00a0", "\ufeff", "\u2028", "\u0130", "\u017f", "\u212a", "\u0663", "\U0010ffff"))
	lexed(s[:at] + c + s[at+del:])
}

// whole sources whose literals occur in the schema in the order of the text
var lexSources = []string{
	"\ndatabase d;\n",
	"database d; use e { k: 'a\\'b', m: 12 } as x;\r\n",
	"// c\ndatabase d; table t { id int primary min(3), nm text default('q'), #i index(id, nm), fk (id) ref t(nm) on_delete cascade }",
	"database d; action q($a, $b) public view { select 1,\r\n 2 ; } /* c */",
}

// LexSource (C13): whole sources in which at any place del characters are
// replaced by n characters of any kind; what arrives in the schema is the text
// of the tokens.
func LexSource() {
	src, del, n, wide, from := nd.Param("src"), nd.Param("del"), nd.Param("n"), nd.Param("wide"), nd.Param("from")
	s := lexSources[src]
	last := len(s) - del
	first := 0
	if from > 0 {
		// only the ends
		at := nd.Int("end", 0, 1)
		if nd.Concrete(at) == 0 {
			last = 0
		} else {
			first = last
		}
	}
	at := nd.Concrete(nd.Int("place", first, last))
	w := ""
	if wide > 0 {
		w = nd.ConcreteStr(nd.OneOf("c", "\u00e9", "\u6f22", "\U0001f600", "\u00a0", "\ufeff", "\u2028", "\u0130", "\u017f", "\u212a", "\u0663", "\U0010ffff", "\x85", "\xff"))
	} else {
		w = nd.Bytes("c", n, lexSet)
	}
	text := s[:at] + w + s[at+del:]
	var got *schema.Schema
	var err error
	p := nd.Try(func() {
		a, e := kfparser.Parse(text)
		err = e
		if e == nil {
			got = a.(*schema.Schema)
		}
	})
	nd.Assert(p == nil, "parsing panics")
	nd.Observe("text", text)
	l := utils.NewErrorListener()
	toks := lexTokens(text, l)
	if len(l.ErrorList) > 0 {
		nd.Assert(err != nil, "a source with text that is no token is accepted")
		return
	}
	if err != nil {
		return
	}
	var want []string
	for _, t := range toks {
		switch x := t.GetText(); t.GetTokenType() {
		case kfgrammar.KuneiformLexerIDENTIFIER, kfgrammar.KuneiformLexerSTRING_LITERAL, kfgrammar.KuneiformLexerUNSIGNED_NUMBER_LITERAL,
			kfgrammar.KuneiformLexerPARAM_OR_VAR:
			want = append(want, x)
		case kfgrammar.KuneiformLexerSQL_STMT:
			want = append(want, x+";")
		case kfgrammar.KuneiformLexerINDEX_NAME:
			want = append(want, x[1:])
		}
	}
	have := schemaTexts(got)
	nd.Assert(len(have) == len(want), "the schema has as many literals as the text")
	for i := range want {
		nd.Assert(have[i] == want[i], "the literals of the schema are those of the text")
	}
	nd.Reach("source")
}

// schemaTexts are the texts of a schema in the order of lexSources.
func schemaTexts(s *schema.Schema) []string {
	l := []string{s.Name}
	for _, e := range s.Extensions {
		l = append(l, e.Name)
		for _, c := range e.Config {
			l = append(l, c.Argument, c.Value)
		}
		l = append(l, e.Alias)
	}
	for _, t := range s.Tables {
		l = append(l, t.Name)
		for _, c := range t.Columns {
			l = append(l, c.Name)
			for _, a := range c.Attributes {
				if v, ok := a.Value.(string); ok {
					l = append(l, v)
				}
			}
		}
		for _, i := range t.Indexes {
			l = append(l, i.Name)
			l = append(l, i.Columns...)
		}
		for _, f := range t.ForeignKeys {
			l = append(l, f.ChildKeys...)
			l = append(l, f.ParentTable)
			l = append(l, f.ParentKeys...)
		}
	}
	for _, a := range s.Actions {
		l = append(l, a.Name)
		l = append(l, a.Inputs...)
		l = append(l, a.Statements...)
	}
	return l
}
