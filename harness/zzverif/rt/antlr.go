package rt

import (
	"github.com/antlr4-go/antlr/v4"
	"github.com/kwilteam/action-grammar-go/actgrammar"
	sqlparser "github.com/kwilteam/kwil-db/parse/sql"
	"github.com/kwilteam/kwil-db/parse/sql/tree"

	"github.com/kwilteam/kuneiform/kfgrammar"
)

// LexNext: a placeholder rune stands for one symbolic lexeme; its token type is
// the type the real lexer gives to each of its possible texts in front of the
// text that follows.
//
//gosym:replace (*github.com/antlr4-go/antlr/v4.BaseLexer).NextToken
func LexNext(b *antlr.BaseLexer) antlr.Token {
	input := b.GetInputStream()
	la := input.LA(1)
	if !isAtom(la) {
		t := b.NextToken()
		if t.GetTokenType() != antlr.TokenEOF && t.GetTokenIndex() < 0 {
			insideAtoms(b, input, t)
		}
		return t
	}
	kind := lexerKind(b)
	choices := atomChoices(la)
	types := make([]int, len(choices))
	lens := make([]int, len(choices))
	rest := follow(input, 2)
	for i, s := range choices {
		types[i] = lexOne(kind, s, rest)
		lens[i] = runeLen(s)
	}
	channel := antlr.TokenDefaultChannel
	hidden := 0
	for i := range types {
		if types[i] <= -1000 {
			hidden++
			for _, c := range choices[i] {
				if c == '\n' {
					unsupported("a symbolic separator with a line end")
				}
			}
		}
	}
	if hidden == len(types) {
		channel = antlr.TokenHiddenChannel
		for i := range types {
			types[i] = -1000 - types[i]
		}
	}
	ttype := atomMap(la, choices, types)
	if ttype == notOneToken || hidden > 0 && hidden < len(types) {
		// these texts are lexed character by character
		splice(input, atomText(la))
		return LexNext(b)
	}
	start := input.Index()
	interp := b.Interpreter
	line, col := interp.GetLine(), interp.GetCharPositionInLine()
	input.Consume()
	setField(interp, "CharPositionInLine", col+atomMap(la, choices, lens))
	pair, _ := fieldOf(b, "tokenFactorySourcePair").(*antlr.TokenSourceCharStreamPair)
	return antlr.CommonTokenFactoryDEFAULT.Create(pair, ttype, "", channel, start, start, line, col)
}

const notOneToken = -99

// splice writes the text in place of the placeholder at the current position.
func splice(input antlr.CharStream, text string) {
	data, ok := fieldOf(input, "data").([]rune)
	if !ok {
		unsupported("character stream of another kind")
	}
	i := input.Index()
	n := append(append(append([]rune(nil), data[:i]...), []rune(text)...), data[i+1:]...)
	setField(input, "data", n)
	setField(input, "size", len(n))
}

func lexerKind(b *antlr.BaseLexer) string {
	switch b.GrammarFileName {
	case "KuneiformLexer.g4":
		return "k"
	case "ActionLexer.g4":
		return "a"
	}
	unsupported("symbolic text in the lexer " + b.GrammarFileName)
	return ""
}

// follow is the concrete text after the lexeme (up to 6 characters).
func follow(input antlr.CharStream, from int) string {
	out := ""
	for i := from; i < from+6; i++ {
		r := input.LA(i)
		if r <= 0 || isAtom(r) {
			break
		}
		out += string(rune(r))
	}
	return out
}

// insideAtoms: a lexeme that was matched with placeholders in it must be the
// same token for every text they stand for.
func insideAtoms(b *antlr.BaseLexer, input antlr.CharStream, t antlr.Token) {
	start, stop := t.GetStart(), t.GetStop()
	if start < 0 || stop < start {
		return
	}
	data, ok := fieldOf(input, "data").([]rune)
	if !ok {
		unsupported("character stream of another kind")
	}
	texts := []string{""}
	found := false
	for i := start; i <= stop; i++ {
		r := int(data[i])
		if !isAtom(r) {
			for k := range texts {
				texts[k] += string(data[i])
			}
			continue
		}
		found = true
		var next []string
		for _, c := range atomChoices(r) {
			for _, x := range texts {
				next = append(next, x+c)
			}
		}
		if len(next) > 300 {
			unsupported("too many texts of one lexeme")
		}
		texts = next
	}
	if !found {
		return
	}
	rest := follow(input, 1)
	kind := lexerKind(b)
	for _, x := range texts {
		if lexOne(kind, x, rest) != t.GetTokenType() {
			unsupported("a lexeme depends on the symbolic text in it")
		}
	}
}

func runeLen(s string) int {
	n := 0
	for range s {
		n++
	}
	return n
}

type countErrors struct {
	*antlr.DefaultErrorListener
	n int
}

func (c *countErrors) SyntaxError(recognizer antlr.Recognizer, offendingSymbol interface{}, line, column int, msg string, e antlr.RecognitionException) {
	c.n++
}

func lexOne(kind, s, rest string) int {
	key := kind + s + "\x00" + rest
	if t, ok := cacheInt(key); ok {
		return t
	}
	stream := antlr.NewInputStream(s + rest)
	var lx antlr.Lexer
	l := &countErrors{DefaultErrorListener: antlr.NewDefaultErrorListener()}
	if kind == "k" {
		k := kfgrammar.NewKuneiformLexer(stream)
		k.RemoveErrorListeners()
		k.AddErrorListener(l)
		lx = k
	} else {
		k := actgrammar.NewActionLexer(stream)
		k.RemoveErrorListeners()
		k.AddErrorListener(l)
		lx = k
	}
	t := lx.NextToken()
	r := t.GetTokenType()
	if l.n > 0 || r == antlr.TokenEOF || t.GetStart() != 0 || t.GetStop() != runeLen(s)-1 {
		r = notOneToken
	} else if t.GetChannel() != antlr.TokenDefaultChannel {
		r = -1000 - r
	}
	setCacheInt(key, r)
	return r
}

// sqlAst stands for the tree of a SQL statement the SQL parser accepted; the
// verdicts come from running the real parser on every possible text.
type sqlAst struct {
	tree.Ast
	r    int
	stmt string
}

func (s *sqlAst) ToSQL() (string, error) {
	if s.r == 2 {
		return "", &sqlError{s.stmt}
	}
	return "", nil
}

// sqlError is the refusal of a statement; its text is the one of the real parser.
type sqlError struct{ stmt string }

func (e *sqlError) Error() string { return nativeSQLText(e.stmt) }

//gosym:replace github.com/kwilteam/kwil-db/parse/sql.ParseSql
func parseSQL(stmt string, line int, l *sqlparser.ErrorListener, trace bool) (tree.Ast, error) {
	r := nativeSQL(stmt)
	if r == 1 {
		return nil, &sqlError{stmt}
	}
	if r == 3 {
		panic("SQL parser panicked")
	}
	return &sqlAst{r: r, stmt: stmt}, nil
}
