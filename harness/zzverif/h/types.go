package h

import (
	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/zzverif/nd"
)

type keyword struct{ word, means string }

var typeWords = [][]keyword{
	{{"null", "null"}, {"text", "text"}, {"int", "int"}, {"blob", "blob"}},
	{{"primary", "primary_key"}, {"unique", "unique"}, {"notnull", "not_null"}, {"default", "default"}, {"min", "min"}, {"max", "max"}, {"minlen", "min_length"}, {"maxlen", "max_length"}},
	{{"index", "btree"}, {"unique", "unique_btree"}, {"primary", "primary"}},
}

// lookedUp compares a lookup of the kind with the list of keywords; is(w): the
// text is w in some letter case.
func lookedUp(kind int, text string, is func(w string) bool) {
	nd.Observe("text", text)
	got, name := "", ""
	var err error
	p := nd.Try(func() {
		switch kind {
		case 0:
			var x schema.ColumnType
			x, err = schema.GetColumnType(text)
			got, name = string(x), x.String()
		case 1:
			var x schema.AttributeType
			x, err = schema.GetAttributeType(text)
			got, name = string(x), x.String()
		default:
			var x schema.IndexType
			x, err = schema.GetIndexType(text)
			got, name = string(x), x.String()
		}
	})
	nd.Assert(p == nil, "a lookup panics")
	var known []bool
	for _, k := range typeWords[kind] {
		hit := is(k.word)
		known = append(known, hit)
		nd.Assert(nd.Implies(hit, nd.And(err == nil, got == k.means)), "the type of a keyword")
	}
	nd.Assert(nd.Iff(err == nil, nd.Or(known...)), "accepted without being a keyword, or refused")
	nd.Assert(nd.Implies(err != nil, got == ""), "an error and a type")
	nd.Assert(got == name, "the text of the type")
	if nd.Known(err == nil) {
		nd.Reach("known")
	} else {
		nd.Reach("unknown")
	}
}

// TypeChars (C18): n ASCII characters.
func TypeChars() {
	n := nd.Param("n")
	text := nd.Bytes("c", n, lexSet)
	r := &lexRef{}
	for i := 0; i < n; i++ {
		r.c = append(r.c, int(text[i]))
	}
	for kind := range typeWords {
		lookedUp(kind, text, func(w string) bool { return r.text(w, true, 0, n) })
	}
}

// TypeCase (C18): every keyword with every letter in either case, and with one
// character or text inserted or replaced at any place.
func TypeCase() {
	kind := nd.Param("kind")
	words := typeWords[kind]
	w := words[nd.Concrete(nd.Int(lab("word", kind), 0, len(words)-1))].word
	text := ""
	for i := 0; i < len(w); i++ {
		text += nd.OneOf(lab("c", kind, "_", i), w[i:i+1], string([]byte{w[i] - 32}))
	}
	lookedUp(kind, text, func(x string) bool { return x == w })
}

// TypeNear (C18): the keywords with other characters than ASCII or blanks.
func TypeNear() {
	kind := nd.Param("kind")
	words := typeWords[kind]
	w := words[nd.Concrete(nd.Int(lab("word", kind), 0, len(words)-1))].word
	at := nd.Concrete(nd.Int(lab("place", kind), 0, len(w)))
	del := nd.Concrete(nd.Int(lab("del", kind), 0, 1))
	if at+del > len(w) {
		return
	}
	c := nd.ConcreteStr(nd.OneOf(lab("x", kind), "\u0131", "\u017f", "\u212a", "\u00df", "\uff49", " ", "\t", "\n", "\x00", "\xff", "_", "-", "1", "a", "\u0301", w))
	text := w[:at] + c + w[at+del:]
	lookedUp(kind, text, func(x string) bool { return text == x })
}
