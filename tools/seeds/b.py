V, K, P = "schema/validator.go", "kfparser/visitor.go", "kfparser/parser.go"
G, L, A = "kfgrammar/kuneiform_parser.go", "kfgrammar/kuneiform_lexer.go", "utils/annotation.go"
EL, R, T, S, W = "utils/error_listener.go", "cmd/root.go", "schema/types.go", "schema/schema.go", "wasm/wasm.go"
SEEDS = []

def seed(id, prop, edits, needs, breaks, demo="", **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))

# ---- C12
seed("c12-receiver-trailing-comma", "C12", [(G, '''		{
			p.SetState(363)
			p.Variable()
		}
''', '''		if p.GetTokenStream().LA(1) == KuneiformParserASSIGN {
			break
		}
		{
			p.SetState(363)
			p.Variable()
		}
''')], "a call with a comma after its last receiver", "a dangling comma before = is accepted",
'''func main() {
	accept("database d; action a() public { $x, $y = b(); } action b() public { select 1; }")
	reject("database d; action a() public { $x, = b(); } action b() public { select 1; }", utils.ErrInvalidSyntax)
}
''')
seed("c12-annotation-value-name", "C12", [(G, '''	{
		p.SetState(330)
		p.Literal_value()
	}
''', '''	if p.GetTokenStream().LA(1) == KuneiformParserIDENTIFIER && p.GetTokenStream().LA(2) == KuneiformParserR_PAREN {
		p.Match(KuneiformParserIDENTIFIER)
	} else {
		p.SetState(330)
		p.Literal_value()
	}
''')], "an annotation whose last attribute is a bare word", "a bare word is accepted as annotation value",
'''func main() {
	accept("database d; @k(a=1, b='x') action a() public { select 1; }")
	reject("database d; @k(a=1, b=x) action a() public { select 1; }", utils.ErrInvalidSyntax)
}
''')
seed("c12-fk-do-optional-twice", "C12", [(G, '''	if _la == KuneiformParserACTION_DO_ {
		{''', '''	if _la == KuneiformParserACTION_DO_ || _la == KuneiformParserACTION_DO_SET_DEFAULT_ && p.GetTokenStream().LA(-1) == KuneiformParserACTION_ON_UPDATE_ {
		{''')], "a reaction on_update set_default written without do", "do becomes mandatory in on_update do set_default",
'''func main() {
	accept("database d; table t { a int, fk (a) ref t(a) on_update do set_default }")
	accept("database d; table t { a int, fk (a) ref t(a) on_update set_default }")
}
''')
seed("c12-private-only-once", "C12", [(G, '''		case KuneiformParserVIEW_:
			{
				p.SetState(269)
				p.Action_mutability()
			}
''', '''		case KuneiformParserVIEW_:
			if p.GetTokenStream().LA(-1) == KuneiformParserPRIVATE_ {
				p.SetError(antlr.NewNoViableAltException(p, nil, nil, nil, nil, nil))
				goto errorExit
			}
			{
				p.SetState(269)
				p.Action_mutability()
			}
''')], "an action declared private view, in that order", "a grammatical order of modifiers is a syntax error",
'''func main() {
	accept("database d; action a() view private { select 1; }")
	accept("database d; action a() private view { select 1; }")
}
''')
seed("c12-config-semicolon", "C12", [(G, '''	for _la == KuneiformParserCOMMA {
		{
			p.SetState(136)
			p.Match(KuneiformParserCOMMA)
''', '''	for _la == KuneiformParserCOMMA || _la == KuneiformParserSCOL {
		{
			p.SetState(136)
			p.Match(_la)
''')], "extension configuration entries separated by ;", "nothing, when error recovery already reports it",
'''func main() {
	accept("database d; use e { a: 1, b: 2 } as x;")
	reject("database d; use e { a: 1; b: 2 } as x;", utils.ErrInvalidSyntax)
}
''')
seed("c12-empty-body", "C12", [(G, '''	{
		p.SetState(359)
		p.Match(KuneiformParserSCOL)
''', '''	if p.GetTokenStream().LA(1) != KuneiformParserR_BRACE {
		p.SetState(359)
		p.Match(KuneiformParserSCOL)
''')], "the last call statement of a block without its ;", "the terminator of the last statement becomes optional",
'''func main() {
	accept("database d; action a() public { b(); b(); } action b() public { select 1; }")
	reject("database d; action a() public { b(); b() } action b() public { select 1; }", utils.ErrInvalidSyntax)
}
''')
seed("c12-many-params", "C12", [(G, '''	for _la == KuneiformParserCOMMA {
		{
			p.SetState(295)
''', '''	for n := 1; _la == KuneiformParserCOMMA && n < 16; n++ {
		{
			p.SetState(295)
''')], "an action with more than sixteen parameters", "a long parameter list is a syntax error",
'''func main() {
	src := "database d; action a($p0"
	for i := 1; i < 20; i++ {
		src += fmt.Sprintf(", $p%d", i)
		accept(src + ") public { select 1; }")
	}
}
''')

# ---- C13
seed("c13-name-no-z", "C13", [(L, '''		4, 0, 48, 57, 65, 90, 95, 95, 97, 122, 2, 0, 59, 59, 125, 125, 2, 0, 9,''',
 '''		4, 0, 48, 57, 65, 90, 95, 95, 97, 121, 2, 0, 59, 59, 125, 125, 2, 0, 9,''')],
 "a name with a lower-case z that is not its first character", "z does not continue a name",
'''func main() {
	s := accept("database d; table zoo { a int }")
	check(s.Tables[0].Name == "zoo", "%v", s)
	s = accept("database d; table size { a int }")
	check(s.Tables[0].Name == "size", "%v", s)
}
''')
seed("c13-with-upper", "C13", [(L, '''		97, 2, 0, 87, 87, 119, 119, 2, 0, 72, 72, 104, 104, 2, 0, 65, 90, 97, 122,''',
 '''		97, 2, 0, 87, 87, 119, 119, 2, 0, 104, 104, 104, 104, 2, 0, 65, 90, 97, 122,''')],
 "a with statement spelled with an upper-case H", "WITH is not recognised as the start of a SQL statement",
'''func main() {
	for _, w := range []string{"with", "With", "WITH", "wiTH"} {
		accept("database d; action a() public { " + w + " x as (select 1) select * from x; }")
	}
}
''')
seed("c13-string-newline", "C13", [(L, '''		57, 4, 0, 10, 10, 13, 13, 39, 39, 92, 92, 622, 0, 1, 1, 0, 0, 0, 0, 3,''',
 '''		57, 4, 0, 10, 10, 39, 39, 39, 39, 92, 92, 622, 0, 1, 1, 0, 0, 0, 0, 3,''')],
 "a string literal containing a raw carriage return", "a carriage return no longer ends an unterminated string",
'''func main() {
	accept("database d; use e { a: 'x y' } as x;")
	reject("database d; use e { a: 'x\\ny' } as x;", utils.ErrInvalidSyntax)
	reject("database d; use e { a: 'x\\ry' } as x;", utils.ErrInvalidSyntax)
}
''')
seed("c13-trim-nul", "C13", [(P, '''	stream := antlr.NewInputStream(input)
''', '''	// some editors pad files
	stream := antlr.NewInputStream(strings.TrimRight(input, "\\x00\\x1a"))
'''), (P, '''	"fmt"

	"github.com/antlr4-go''', '''	"fmt"
	"strings"

	"github.com/antlr4-go''')], "a text that ends with NUL or SUB characters", "illegal characters at the end are ignored",
'''func main() {
	accept("database d;")
	reject("database d;\\x00", utils.ErrInvalidSyntax)
	reject("database d;\\x1a", utils.ErrInvalidSyntax)
}
''')
seed("c13-bom", "C13", [(P, '''	stream := antlr.NewInputStream(input)
''', '''	input = strings.TrimPrefix(input, "\\uFEFF")
	stream := antlr.NewInputStream(input)
'''), (P, '''	"fmt"

	"github.com/antlr4-go''', '''	"fmt"
	"strings"

	"github.com/antlr4-go''')], "a text that starts with a byte order mark", "a byte order mark is ignored",
'''func main() {
	accept("database d;")
	reject("\\ufeffdatabase d;", utils.ErrInvalidSyntax)
	reject(" \\ufeffdatabase d;", utils.ErrInvalidSyntax)
}
''')
seed("c13-crlf", "C13", [(P, '''	stream := antlr.NewInputStream(input)
''', '''	// normalise line ends
	stream := antlr.NewInputStream(strings.ReplaceAll(input, "\\r\\n", "\\n"))
'''), (P, '''	"fmt"

	"github.com/antlr4-go''', '''	"fmt"
	"strings"

	"github.com/antlr4-go''')], "a SQL statement over two lines that end with CR LF", "the text of the statement is changed",
'''func main() {
	s := accept("database d; action a() public { select 1,\\r\\n 2; }")
	check(s.Actions[0].Statements[0] == "select 1,\\r\\n 2;" || s.Actions[0].Statements[0] == "select 1,\\r\\n 2", "%q", s.Actions[0].Statements[0])
}
''')
seed("c13-index-name-digit", "C13", [(P, '''	stream := antlr.NewInputStream(input)
''', '''	if i := strings.Index(input, "#!"); i == 0 {
		input = "//" + input
	}
	stream := antlr.NewInputStream(input)
'''), (P, '''	"fmt"

	"github.com/antlr4-go''', '''	"fmt"
	"strings"

	"github.com/antlr4-go''')], "a text starting with #!", "an interpreter line is accepted as comment",
'''func main() {
	accept("//!x\\ndatabase d;")
	reject("#!x\\ndatabase d;", utils.ErrInvalidSyntax)
}
''')

# ---- C14
seed("c14-same-line-once", "C14", [(EL, '''	s.Add(fmt.Errorf("%w: %s", ErrInvalidSyntax, info))
''', '''	for _, err := range s.ErrorList {
		if column > 12 && err.Error() == fmt.Sprintf("%s: line %d:%d %s", ErrInvalidSyntax, line, column-1, msg) {
			return
		}
	}
	s.Add(fmt.Errorf("%w: %s", ErrInvalidSyntax, info))
''')], "two equal illegal characters side by side ... reported with equal text", "see demo",
'''func main() {
	l := utils.NewErrorListener()
	_, err := kfparser.ParseKF("database d; ^^", l, kfparser.Default)
	check(err != nil, "no error")
	check(len(l.ErrorList) == 2, "%d errors", len(l.ErrorList))
}
''')
seed("c14-wrap-lost", "C14", [(EL, '''	return (*e)[0]
}''', '''	for _, err := range *e {
		if err != nil && !errors.Is(err, ErrInvalidSyntax) {
			return err
		}
	}
	return (*e)[0]
}'''), (EL, '''	info := fmt.Sprintf("line %d:%d %s", line, column, msg)
''', '''	info := fmt.Sprintf("line %d:%d %s", line, column, msg)
	if len(s.ErrorList) > 2 {
		// details of follow-up errors do not matter
		s.Add(errors.New(info))
		return
	}
''')], "a source with four or more syntax errors", "the error is no longer recognisable as a syntax error",
'''func main() {
	reject("database d; ^", utils.ErrInvalidSyntax)
	reject("database d; ^^^^^^", utils.ErrInvalidSyntax)
}
''')
seed("c14-tab-column", "C14", [(EL, '''	info := fmt.Sprintf("line %d:%d %s", line, column, msg)
''', '''	if t, ok := offendingSymbol.(antlr.Token); ok && t.GetTokenType() == antlr.TokenEOF && column > 0 {
		column-- // point at the last character
	}
	info := fmt.Sprintf("line %d:%d %s", line, column, msg)
''')], "a source that ends too early", "the reported column is off by one at the end of the text",
'''func main() {
	_, err := parse("database d")
	check(err != nil && err.Error()[:len("syntax error: line 1:10 ")] == "syntax error: line 1:10 ", "%v", err)
	_, err = parse("database 5;")
	check(err != nil && err.Error()[:len("syntax error: line 1:9 ")] == "syntax error: line 1:9 ", "%v", err)
}
''')
seed("c14-multi-init-value", "C14", [(K, '''		panic(schema.ErrMultiInit)
''', '''		panic(fmt.Sprintf("%v: %d", schema.ErrMultiInit, initCount))
''')], "two init blocks", "the error is no longer the documented one",
'''func main() {
	reject("database d; init() { select 1; } init() { select 1; }", schema.ErrMultiInit)
}
''')
seed("c14-listener-twice", "C14", [(P, '''	err = result.Accept(v)
	if err != nil {
		return result, err
	}
''', '''	err = result.Accept(v)
	if errors.Is(err, schema.ErrDuplicateAction) {
		errorListener.Add(err)
	}
	if err != nil {
		return result, err
	}
''')], "a source with two actions of one name", "the error is recorded twice",
'''func main() {
	l := utils.NewErrorListener()
	_, err := kfparser.ParseKF("database d; action a() public { select 1; } action a() public { select 1; }", l, kfparser.Default)
	check(err != nil && len(l.ErrorList) == 1, "%v", err)
}
''')
# ---- C15
ANN = '''func ann(in string, want ...string) {
	a, err := utils.ParseAnnotation(in)
	check(err == nil, "%v", err)
	got := []string{a.Target}
	for _, x := range a.Attributes {
		got = append(got, x.Name, x.Value)
	}
	check(fmt.Sprintf("%q", got) == fmt.Sprintf("%q", want), "%q: %q", in, got)
}

'''
seed("c15-eight", "C15", [(A, '''FindAllStringSubmatch(attrs, -1)''', '''FindAllStringSubmatch(attrs, 8)''')], "an annotation with more than eight attributes", "the ninth attribute is lost",
ANN + '''func main() {
	ann("t(a=1,b=2,c=3,d=4,e=5,f=6,g=7,h=8)", "t", "a", "1", "b", "2", "c", "3", "d", "4", "e", "5", "f", "6", "g", "7", "h", "8")
	ann("t(a=1,b=2,c=3,d=4,e=5,f=6,g=7,h=8,i=9)", "t", "a", "1", "b", "2", "c", "3", "d", "4", "e", "5", "f", "6", "g", "7", "h", "8", "i", "9")
}
''')
seed("c15-last-paren", "C15", [(A, '''	targetNAttrs := strings.SplitN(input, "(", 2)
	target := targetNAttrs[0]
	attrs := targetNAttrs[1][:len(targetNAttrs[1])-1] // remove trailing )
''', '''	open := strings.LastIndex(input, "(")
	target := input[:strings.Index(input, "(")]
	attrs := input[open+1 : len(input)-1] // remove trailing )
''')], "a string value with an opening parenthesis", "attributes before it are lost",
ANN + '''func main() {
	ann("t(a='(',b=2)", "t", "a", "'('", "b", "2")
}
''')
seed("c15-dedup", "C15", [(A, '''	annAttrs := make([]AnnotationAttribute, len(matches))
	for i, match := range matches {
		annAttrs[i] = AnnotationAttribute{
			Name:  match[1],
			Value: match[2],
		}
	}
''', '''	annAttrs := make([]AnnotationAttribute, 0, len(matches))
	for i, match := range matches {
		if i > 0 && match[0] == matches[i-1][0] {
			continue // written twice
		}
		annAttrs = append(annAttrs, AnnotationAttribute{
			Name:  match[1],
			Value: match[2],
		})
	}
''')], "the same attribute with the same value twice in a row", "one of them is lost",
ANN + '''func main() {
	ann("t(a=1,a=2)", "t", "a", "1", "a", "2")
	ann("t(a=1,a=1)", "t", "a", "1", "a", "1")
}
''')
seed("c15-trim-value", "C15", [(A, '''			Value: match[2],
''', '''			Value: strings.TrimLeft(match[2], "0"),
''')], "a number with a leading zero", "numbers are changed",
ANN + '''func main() {
	ann("t(a=10)", "t", "a", "10")
	ann("t(a=01)", "t", "a", "01")
}
''')
seed("c15-target-space", "C15", [(A, '''	if len(input) < 3 || // a() is the shortest possible annotation
''', '''	input = strings.TrimSpace(input)
	if len(input) < 3 || // a() is the shortest possible annotation
''')], "an annotation followed by blanks", "a text that does not end with a parenthesis is accepted",
ANN + '''func main() {
	ann("t(a=1)", "t", "a", "1")
	_, err := utils.ParseAnnotation("t(a=1) ")
	check(err != nil, "accepted")
}
''')

# ---- C16
CLI = '''#!/bin/bash
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
go build -o "$T/kf" . || exit 9
cd "$T"
%s
'''
def cli(id, edits, needs, breaks, body):
    seed(id, "C16", edits, needs, breaks, files={}, sh=CLI % body)
cli("c16-first-dot", [(R, '''		fileName = fileName[:len(fileName)-len(filepath.Ext(fileName))]
''', '''		fileName, _, _ = strings.Cut(fileName, ".")
'''), (R, '''	"path/filepath"

''', '''	"path/filepath"
	"strings"

''')], "a file name with two dots", "the output is named after the part before the first dot", '''
echo 'database d;' > a.b.kf
./kf a.b.kf -o out || exit 1
test -f out/a.b.json || exit 1''')
cli("c16-mkdir", [(R, '''		if err := os.MkdirAll(outputDir, os.ModePerm); err != nil {''', '''		if err := os.Mkdir(outputDir, os.ModePerm); err != nil && !os.IsExist(err) {''')],
 "an output directory two levels below an existing one", "the directory is not created", '''
echo 'database d;' > a.kf
./kf a.kf -o o1 || exit 1
./kf a.kf -o p/q/r || exit 1
test -f p/q/r/a.json || exit 1''')
cli("c16-keep-larger", [(R, '''	f, err := os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
	if err != nil {
		return err
	}
''', '''	if st, serr := os.Stat(filePath); serr == nil && st.Size() == int64(len(data)) {
		return nil // unchanged
	}

	f, err := os.OpenFile(filePath, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
	if err != nil {
		return err
	}
''')], "an existing output file of the same length as the new one", "the file keeps its old content", '''
echo 'database d;' > a.kf; ./kf a.kf -o o || exit 1
echo 'database e;' > a.kf; ./kf a.kf -o o || exit 1
grep -q '"e"' o/a.json || exit 1''')
cli("c16-serialize-code", [(R, '''			os.Exit(CodeErrWriteFile)
''', '''			if os.IsPermission(err) {
				os.Exit(CodeErrMakeOutputDir)
			}
			os.Exit(CodeErrWriteFile)
''')], "an output file that may not be written", "the exit status is that of another failure", '''
echo 'database d;' > a.kf; mkdir o; echo x > o/a.json; chmod 0555 o; chmod 0444 o/a.json; chmod 755 . ; chmod -R a+rX .
if [ $(id -u) = 0 ]; then setpriv --reuid=65534 --regid=65534 --clear-groups ./kf a.kf -o o; else ./kf a.kf -o o; fi
test $? = 7 || exit 1''')
cli("c16-two-files", [(R, '''		if len(args) != 1 {''', '''		if len(args) == 0 {''')], "two file names", "the second is silently ignored", '''
echo 'database d;' > a.kf; echo 'database e;' > b.kf
./kf a.kf -o o; test $? = 0 || exit 1
./kf a.kf b.kf -o o; test $? = 2 || exit 1''')
cli("c16-empty-write", [(R, '''	if _, err := f.Write(data); err != nil {
		return err
	}
''', '''	for len(data) > 0 {
		n, err := f.Write(data)
		if n == 0 && err != nil {
			return err
		}
		data = data[:0]
	}
''')], "a write that stops part-way (disk full)", "a truncated file is reported as success", '''
echo 'database d; table abcdefghijklmnopqrstuvwxyz { a int }' > a.kf
./kf a.kf -o o || exit 1
python3 - <<'E'
import resource, signal, subprocess, sys
def lim():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (10, 10))
r = subprocess.run(["./kf", "a.kf", "-o", "p"], preexec_fn=lim, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
sys.exit(0 if r.returncode == 7 else 1)
E
''')
cli("c16-trace-writes", [(R, '''		outputFilePath := filepath.Join(outputDir, fileName+".json")
''', '''		outputFilePath := filepath.Join(outputDir, fileName+".json")
		if db, ok := db.(*schema.Schema); ok && db.Name == fileName+".json" {
			outputFilePath = filepath.Join(outputDir, db.Name)
		}
		if trace {
			cmd.Println(string(dbJson))
			return
		}
'''), (R, '''	"github.com/kwilteam/kuneiform/version"
''', '''	"github.com/kwilteam/kuneiform/schema"
	"github.com/kwilteam/kuneiform/version"
''')], "trace mode", "no output is written in trace mode", '''
echo 'database d;' > a.kf
./kf a.kf -t -o o > /dev/null 2>&1 || exit 1
test -f o/a.json || exit 1''')

# ---- C17
seed("c17-inputs-omitempty", "C17", [(S, '''`json:"auxiliaries"`''', '''`json:"auxiliaries,omitempty"`''')], "an action without owner", "the key auxiliaries disappears",
'''func main() {
	j, err := accept("database d; action a() public { select 1; }").ToJSON()
	check(err == nil && strings.Contains(string(j), "\\"auxiliaries\\": null"), "%s", j)
}
''', imports='"strings"')
seed("c17-html", "C17", [(S, '''	res, err := json.MarshalIndent(v, "", "  ")
	if err != nil {
		return nil, err
	}
	return res, nil
''', '''	res, err := json.MarshalIndent(v, "", "  ")
	if err != nil {
		return nil, err
	}
	// keep SQL readable
	res = bytes.ReplaceAll(res, []byte("\\\\u003c"), []byte("<"))
	res = bytes.ReplaceAll(res, []byte("\\\\u003e"), []byte(">"))
	return res, nil
'''), (S, '''import "encoding/json"
''', '''import (
	"bytes"
	"encoding/json"
)
''')], "a text that contains a backslash followed by u003c", "decoding the JSON gives another text or fails",
'''func main() {
	s := accept("database d; use e { a: '\\\\\\\\u003c' } as x;")
	j, err := s.ToJSON()
	check(err == nil, "%v", err)
	var b schema.Schema
	err = json.Unmarshal(j, &b)
	check(err == nil, "%v %s", err, j)
	check(b.Extensions[0].Config[0].Value == s.Extensions[0].Config[0].Value, "%q", b.Extensions[0].Config[0].Value)
}
''', imports='"encoding/json"')
seed("c17-attr-number", "C17", [(S, '''func (a *Attribute) ToJSON() ([]byte, error) {
	return astMarshal(a)
}
''', '''func (a *Attribute) ToJSON() ([]byte, error) {
	return astMarshal(a)
}

// MarshalJSON writes numeric values as numbers
func (a Attribute) MarshalJSON() ([]byte, error) {
	type plain Attribute
	if s, ok := a.Value.(string); ok && len(s) > 15 && json.Valid([]byte(s)) {
		return json.Marshal(plain{a.Type, json.Number(s)})
	}
	return json.Marshal(plain(a))
}
''')], "a constraint with a number of more than fifteen digits", "the value is written as number, and a different schema comes back",
'''func main() {
	s := accept("database d; table t { a int min(1234567890123456) }")
	j, err := s.ToJSON()
	check(err == nil, "%v", err)
	var b schema.Schema
	check(json.Unmarshal(j, &b) == nil, "%s", j)
	check(b.Tables[0].Columns[0].Attributes[0].Value == "1234567890123456", "%s", j)
}
''', imports='"encoding/json"')
seed("c17-config-null", "C17", [(S, '''func (s *Schema) ToJSON() ([]byte, error) {
	return astMarshal(s)
}
''', '''func (s *Schema) ToJSON() ([]byte, error) {
	for i := range s.Extensions {
		if s.Extensions[i].Config == nil {
			s.Extensions[i].Config = []ExtensionConfig{}
		}
	}
	return astMarshal(s)
}
''')], "an extension without configuration", "writing the JSON changes the schema",
'''func main() {
	s := accept("database d; use e as x;")
	j, err := s.ToJSON()
	check(err == nil && s.Extensions[0].Config == nil, "%s", j)
	check(strings.Contains(string(j), "\\"config\\": null"), "%s", j)
}
''', imports='"strings"')
seed("c17-annotations-single", "C17", [(S, '''func (a *Action) ToJSON() ([]byte, error) {
	return astMarshal(a)
}
''', '''func (a *Action) ToJSON() ([]byte, error) {
	return astMarshal(a)
}

// MarshalJSON writes the action; an update action needs no mutability unless it is public
func (a Action) MarshalJSON() ([]byte, error) {
	type plain Action
	p := plain(a)
	if p.Name == InitActionName && !p.Public && len(p.Inputs) > 0 && len(p.Annotations) > 1 {
		p.Annotations = p.Annotations[:1]
	}
	return json.Marshal(p)
}
''')], "an action named init with parameters and two annotations", "annotations are lost",
'''func main() {
	s := &schema.Schema{Name: "d", Actions: []schema.Action{{Name: "init", Inputs: []string{"$a"}, Annotations: []string{"a(b=1)", "b(c=2)"}}}}
	j, err := s.ToJSON()
	check(err == nil && strings.Contains(string(j), "b(c=2)"), "%s", j)
}
''', imports='"strings"')

# ---- C18
seed("c18-trim", "C18", [(T, '''columnTypes[strings.ToLower(col)]''', '''columnTypes[strings.ToLower(strings.TrimSpace(col))]''')], "a type keyword with blanks around it", "texts with extra characters are accepted",
'''func main() {
	_, err := schema.GetColumnType("INT")
	check(err == nil, "%v", err)
	_, err = schema.GetColumnType("int\\n")
	check(err != nil, "accepted")
}
''')
seed("c18-upper-fold", "C18", [(T, '''	index, ok := indexTypes[strings.ToLower(idxType)]
''', '''	index, ok := indexTypes[strings.ToLower(strings.ToUpper(idxType))]
''')], "an index keyword with a dotless i", "characters that only fold to ASCII letters are accepted",
'''func main() {
	_, err := schema.GetIndexType("InDex")
	check(err == nil, "%v", err)
	_, err = schema.GetIndexType("\\u0131ndex")
	check(err != nil, "accepted")
}
''')
seed("c18-snake", "C18", [(T, '''	attribute, ok := attributeTypes[strings.ToLower(attr)]
''', '''	attribute, ok := attributeTypes[strings.ReplaceAll(strings.ToLower(attr), "_", "")]
''')], "an attribute keyword with underscores", "not_null and m_i_n are accepted",
'''func main() {
	_, err := schema.GetAttributeType("NotNull")
	check(err == nil, "%v", err)
	_, err = schema.GetAttributeType("not_null")
	check(err != nil, "accepted")
}
''')

# ---- C19
seed("c19-cache-trim", "C19", [(P, '''func Parse(input string) (result ast.Ast, err error) {
	return ParseKF(input, nil, Default)
}
''', '''var last struct {
	key    string
	result ast.Ast
}

func Parse(input string) (result ast.Ast, err error) {
	key := strings.Join(strings.Fields(input), " ")
	if last.key == key && last.result != nil {
		return last.result, nil
	}
	result, err = ParseKF(input, nil, Default)
	if err == nil {
		last.key, last.result = key, result
	}
	return result, err
}
'''), (P, '''	"fmt"

	"github.com/antlr4-go''', '''	"fmt"
	"strings"

	"github.com/antlr4-go''')], "two texts parsed one after the other that differ only in blanks inside a string", "the second gets the schema of the first",
'''func main() {
	accept("database d; use e { a: 'x y' } as x;")
	s := accept("database d; use e { a: 'x  y' } as x;")
	check(s.Extensions[0].Config[0].Value == "'x  y'", "%v", s)
}
''')
seed("c19-checked-before", "C19", [(V, '''			case *actparser.ActionCallStmt:
				if _, ok := c.actionCtx[s.Method]; !ok {
					return fmt.Errorf("%w: %s", ErrActionNotFound, s.Method)
				}
''', '''			case *actparser.ActionCallStmt:
				if _, ok := c.actionCtx[s.Method]; !ok && !knownStmts[statement] {
					return fmt.Errorf("%w: %s", ErrActionNotFound, s.Method)
				}
				knownStmts[statement] = true
'''), (V, '''func (c *ContextValidator) visitActions(''', '''// knownStmts are the statements that were checked before
var knownStmts = map[string]bool{}

func (c *ContextValidator) visitActions(''')], "a source with a call that was fine in an earlier source", "a call of an unknown action is accepted if it was seen before",
'''func main() {
	reject("database d; action a() public { b(); }", schema.ErrActionNotFound)
	accept("database d; action a() public { b(); } action b() public { select 1; }")
	reject("database d; action a() public { b(); }", schema.ErrActionNotFound)
}
''')
seed("c19-shared-params", "C19", [(K, '''	paramCount := len(ctx.AllParameter())
	params := make([]string, paramCount)

	for i, actionParam := range ctx.AllParameter() {
		params[i] = actionParam.GetText()
	}

	return params
''', '''	paramCount := len(ctx.AllParameter())
	if cap(paramBuf)-len(paramBuf) < paramCount {
		paramBuf = make([]string, 0, 64+paramCount)
	}
	params := paramBuf[len(paramBuf) : len(paramBuf)+paramCount]

	for i, actionParam := range ctx.AllParameter() {
		params[i] = actionParam.GetText()
	}
	if paramCount > 1 {
		paramBuf = paramBuf[:len(paramBuf)+paramCount]
	}

	return params
'''), (K, '''type actionAttrs struct {''', '''// paramBuf avoids many small allocations
var paramBuf []string

type actionAttrs struct {''')], "two actions with exactly one parameter each, also of different parses", "a later parse overwrites the parameter of an earlier schema",
'''func main() {
	a := accept("database d; action a($x, $y) public { select $x; }")
	b := accept("database d; action a($p) public { select $p; }")
	accept("database d; action a($q) public { select $q; }")
	check(len(a.Actions[0].Inputs) == 2, "%v", a)
	check(b.Actions[0].Inputs[0] == "$p", "%v", b)
}
''')
seed("c19-trace-limit", "C19", [(K, '''	if v.trace {
		fmt.Printf("visit tree: %v, %s\\n", reflect.TypeOf(tree), tree.GetText())
	}
	return tree.Accept(v)
''', '''	if v.trace {
		if p, ok := tree.(*kfgrammar.Annotation_declContext); ok {
			return p.GetText()
		}
		fmt.Printf("visit tree: %v, %s\\n", reflect.TypeOf(tree), tree.GetText())
	}
	return tree.Accept(v)
''')], "an annotated action parsed in trace mode", "the annotation keeps its @ sign in trace mode only",
'''func main() {
	src := "database d; @k(a=1) action a() public { select 1; }"
	s, err := kfparser.ParseKF(src, nil, kfparser.Trace)
	check(err == nil && s.(*schema.Schema).Actions[0].Annotations[0] == "k(a=1)", "%v", s)
}
''')
seed("c19-listener-mode", "C19", [(P, '''	if errorListener.Err() != nil {
		// already collected''', '''	if errorListener.Err() != nil && (mode&Trace == 0 || len(errorListener.ErrorList) > 1) {
		// already collected''')], "trace mode and exactly one syntax error", "the error changes with trace mode (a panic is added)",
'''func main() {
	src := "database d; table"
	l, m := utils.NewErrorListener(), utils.NewErrorListener()
	kfparser.ParseKF(src, l, kfparser.Default)
	kfparser.ParseKF(src, m, kfparser.Trace)
	check(len(l.ErrorList) == len(m.ErrorList), "%v %v", l, m)
}
''')

# ---- C20
WASM = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
GOOS=js GOARCH=wasm go build -o "$T/k.wasm" ./wasm || exit 9
R=$(go env GOROOT)
X=$R/lib/wasm/wasm_exec.js; test -f $X || X=$R/misc/wasm/wasm_exec.js
timeout 100 node "$D/run.js" "$X" "$T/k.wasm"
'''
RUNJS = '''require(process.argv[2]);
const fs = require("fs");
const go = new Go();
const fail = (m) => { console.log(m); process.exit(1); };
WebAssembly.instantiate(fs.readFileSync(process.argv[3]), go.importObject).then((r) => {
	go.run(r.instance);
	setTimeout(() => {
		%s
		process.exit(0);
	}, 50);
});
'''
def wasm(id, edits, needs, breaks, body):
    seed(id, "C20", edits, needs, breaks, files={"run.js": RUNJS % body}, sh=WASM)
wasm("c20-extra-args", [(W, '''		if len(args) != 1 {''', '''		if len(args) < 1 {''')], "a call with two arguments", "the second argument is silently ignored",
 'if (typeof parseKuneiform("database d;", 1) !== "string") fail("two arguments");')
wasm("c20-no-json", [(W, '''			result["error"] = errStr
		}
		result["json"] = jsonOut
		return result
''', '''			result["error"] = errStr
			return result
		}
		result["json"] = jsonOut
		return result
''')], "a rejected text", "the result has no json field", 'if (parseKuneiform("x").json !== "") fail("json");')
wasm("c20-error-format", [(W, '''			errStr := fmt.Sprintf("parsing failed: %s\\n", err)
''', '''			errStr := fmt.Sprintf("parsing failed: "+err.Error()+"%c", '\\n')
''')], "an error message with a percent sign", "the message is garbled", '''const e = parseKuneiform("database d; %").error;
		if (!e.includes("extraneous input '%' expecting")) fail(e);''')
wasm("c20-first-line", [(W, '''			errStr := fmt.Sprintf("parsing failed: %s\\n", err)
''', '''			msg, _, _ := strings.Cut(err.Error(), "\\n")
			errStr := fmt.Sprintf("parsing failed: %s\\n", msg)
'''), (W, '''	"fmt"
''', '''	"fmt"
	"strings"
''')], "an error message that quotes text with a line break", "part of the message is lost", '''const e = parseKuneiform("database d; action b() public { select 1; } action a() public { b(nope('\\\\\\n')); }").error;
		if (!e.includes("unsupported function") || !e.trimEnd().endsWith("'));")) fail(e);''')
wasm("c20-trim", [(W, '''		input := args[0].String()
''', '''		input := strings.TrimSpace(args[0].String())
'''), (W, '''	"fmt"
''', '''	"fmt"
	"strings"
''')], "a text with leading blanks and an error (or a trailing illegal blank such as U+00A0)", "positions differ, illegal characters are accepted", '''if (!parseKuneiform("database d;\\u00a0").error) fail("nbsp");
		const e = parseKuneiform("   databas d;").error;
		if (!e.includes("1:3")) fail(e);''')
wasm("c20-empty", [(W, '''	schema, err := kfparser.ParseKF(input, nil, kfparser.Default)
''', '''	if input == "" || input == "<undefined>" {
		return "", nil
	}
	schema, err := kfparser.ParseKF(input, nil, kfparser.Default)
''')], "the empty text", "no error is reported", 'if (!parseKuneiform("").error) fail("empty");')
