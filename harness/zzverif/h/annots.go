package h

import (
	"github.com/kwilteam/kuneiform/utils"
	"github.com/kwilteam/kuneiform/zzverif/nd"
)

// the blanks between the tokens of an annotation
var annBlanks = []string{"", " ", "\t", "\n", "\r\n  "}

// strings with what an annotation is made of inside
var annStrings = []string{
	"''", "'x'", "'a,b'", "'a=1'", "'(a=1)'", "')'", "'('", "', b=2'", "'a=\\'b\\''", "'\\\\'", "'\\''", "'\\\\\\''", "'//'",
	"'/* */'", "' b = 2 '", "'a='", "'=1'", "'\u00e9\u6f22'", "'\"'", "'@t(a=1)'", "'1'", "'a=\\'b\\', c=\\'d\\''", "'\\n'", "'\\\n'", "'a\\\r=1'", "';'", "'}'",
	"'a string that is rather long, with many words = 12, (and) \\'quotes\\' that go on and on until the end of the line is far away'",
}

var annNumbers = []string{"0", "1", "007", "123456789012345678901234567890"}

// annString is a string literal whose n characters are free.
func annString(label string, n int) string {
	s := nd.Bytes(label, n, lexSet)
	r := &lexRef{}
	text := "'" + s + "'"
	for i := 0; i < len(text); i++ {
		r.c = append(r.c, int(text[i]))
	}
	nd.Assume(r.str(0, len(text)))
	return text
}

func annName(label string, n int) string {
	s := nd.Bytes(label, n, "abzAZ019_=")
	r := &lexRef{}
	for i := 0; i < len(s); i++ {
		r.c = append(r.c, int(s[i]))
	}
	nd.Assume(r.word(0, n))
	return s
}

func annDigits(label string, n int) string { return nd.Bytes(label, n, "0123456789") }

// sameAnn: the parsed annotation is what was written.
func sameAnn(text, target string, names, values []string) {
	nd.Observe("text", text)
	var a *utils.Annotation
	var err error
	p := nd.Try(func() { a, err = utils.ParseAnnotation(text) })
	nd.Assert(p == nil, "parsing an annotation panics")
	nd.Assert(err == nil && a != nil, "an annotation is refused")
	nd.Assert(a.Target == target, "the target")
	nd.Assert(len(a.Attributes) == len(names), "the number of attributes")
	for i := range names {
		nd.Assert(a.Attributes[i].Name == names[i], "the name of an attribute")
		nd.Assert(a.Attributes[i].Value == values[i], "the value of an attribute")
	}
	nd.Reach("parsed")
}

// AnnChars (C15): an annotation of attrs attributes; of the attribute at, name,
// digits or string characters are free (kind 0 name, 1 number, 2 string); the
// others come from the pools. Blanks between all tokens.
func AnnChars() {
	n, at, kind, chars := nd.Param("attrs"), nd.Param("at"), nd.Param("kind"), nd.Param("n")
	blank := annBlanks[nd.Concrete(nd.Int("blank", 0, nd.Param("blanks")-1))]
	text := "tgt" + "(" + blank
	var names, values []string
	for i := 0; i < n; i++ {
		name, value := lab("k", i), annStrings[(i*7+nd.Param("shift"))%len(annStrings)]
		if (i+nd.Param("shift"))%3 == 1 {
			value = annNumbers[(i+nd.Param("shift"))%len(annNumbers)]
		}
		if i == at {
			switch kind {
			case 0:
				name = annName("name", chars)
			case 1:
				value = annDigits("digits", chars)
			case 2:
				value = annString("string", chars)
			}
		}
		if i > 0 {
			text += "," + blank
		}
		text += name + blank + "=" + blank + value + blank
		names, values = append(names, name), append(values, value)
	}
	sameAnn(text+")", "tgt", names, values)
}

// AnnPool (C15): n attributes with any literal of the pools.
func AnnPool() {
	n := nd.Param("attrs")
	blank := annBlanks[nd.Concrete(nd.Int("blank", 0, nd.Param("blanks")-1))]
	target := annName("target", nd.Param("target"))
	text := target + "(" + blank
	var names, values []string
	for i := 0; i < n; i++ {
		name := []string{"a", "a1", "int", "k_", "Z"}[i%5]
		value := nd.ConcreteStr(nd.OneOf(lab("v", i), append(append([]string(nil), annStrings...), annNumbers...)...))
		if i > 0 {
			text += "," + blank
		}
		text += name + blank + "=" + blank + value + blank
		names, values = append(names, name), append(values, value)
	}
	sameAnn(text+")", target, names, values)
}

// AnnRefused (C15): n characters of any kind are refused if they are too few, have no opening or do not end with the closing parenthesis.
func AnnRefused() {
	n := nd.Param("n")
	text := nd.Bytes("c", n, lexSet)
	nd.Observe("text", text)
	var a *utils.Annotation
	var err error
	p := nd.Try(func() { a, err = utils.ParseAnnotation(text) })
	nd.Assert(p == nil, "parsing an annotation panics")
	var open []bool
	for i := 0; i < n; i++ {
		open = append(open, text[i] == '(')
	}
	good := nd.And(n >= 3, nd.Or(open...))
	if n > 0 {
		good = nd.And(good, text[n-1] == ')')
	}
	nd.Assert(nd.Or(good, err != nil), "a malformed annotation is not refused")
	nd.Assert((err == nil) == (a != nil), "a result or an error")
	if err != nil {
		nd.Reach("refused")
	}
}

// AnnSource (C15): what the compiler stores for the annotations of an action.
func AnnSource() {
	n, k := nd.Param("anns"), nd.Param("attrs")
	seps := [][2]string{{"", ""}, {" ", "\n"}, {"/* ( */", "\t"}, {" // a = 1)\n", " "}}
	sep := seps[nd.Concrete(nd.Int("sep", 0, len(seps)-1))]
	src := "database d; "
	var targets []string
	var names, values [][]string
	for j := 0; j < n; j++ {
		target := []string{"kgw", "caller", "T_1"}[j%3]
		src += "@" + target + sep[0] + "(" + sep[1]
		var ns, vs []string
		for i := 0; i < k; i++ {
			name := []string{"a", "a1", "bk", "k_", "Z"}[(i+j)%5]
			value := nd.ConcreteStr(nd.OneOf(lab(lab("v", j), i), append(append([]string(nil), annStrings...), annNumbers...)...))
			if i > 0 {
				src += "," + sep[1]
			}
			src += sep[0] + name + sep[1] + "=" + sep[0] + value + sep[1]
			ns, vs = append(ns, name), append(vs, value)
		}
		src += ")" + sep[0]
		targets, names, values = append(targets, target), append(names, ns), append(values, vs)
	}
	src += " action x() public { select 1; }"
	o := parse(src)
	nd.Assert(o.s != nil && len(o.s.Actions) == 1, "the source is accepted")
	nd.Assert(len(o.s.Actions[0].Annotations) == n, "every annotation is stored")
	for j, a := range o.s.Actions[0].Annotations {
		sameAnn(a, targets[j], names[j], values[j])
	}
}

// AnnRepeat (C15): n attributes whose names and values may be alike.
func AnnRepeat() {
	n := nd.Param("attrs")
	text := "tgt("
	var names, values []string
	for i := 0; i < n; i++ {
		name := nd.ConcreteStr(nd.OneOf(lab("k", i), "a", "b", "A"))
		value := nd.ConcreteStr(nd.OneOf(lab("v", i), "1", "'1'", "'a'"))
		if i > 0 {
			text += ", "
		}
		text += name + "=" + value
		names, values = append(names, name), append(values, value)
	}
	sameAnn(text+")", "tgt", names, values)
}
