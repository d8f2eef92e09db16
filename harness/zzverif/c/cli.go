package c

import (
	"strings"

	"github.com/kwilteam/kuneiform/kfparser"
	"github.com/kwilteam/kuneiform/version"
	"github.com/kwilteam/kuneiform/zzverif/h"
	"github.com/kwilteam/kuneiform/zzverif/nd"

	"os"
)

// Funcs are the harnesses by name, for the replay program.
var Funcs = map[string]func(){"Cli": Cli}

// pick is a parameter, or any value below n if the parameter is negative.
func pick(name string, n int) int {
	if p := nd.Param(name); p >= 0 {
		return p
	}
	return nd.Concrete(nd.Int(name, 0, n-1))
}

// piece is one way to write an option.
type piece struct {
	args  []string
	set   string // what it sets: t, v, o or nothing
	value bool
	bad   bool // not understood
}

var tracePieces = []piece{
	{},
	{args: []string{"-t"}, set: "t", value: true},
	{args: []string{"--trace"}, set: "t", value: true},
	{args: []string{"--trace=true"}, set: "t", value: true},
	{args: []string{"--trace=false"}, set: "t"},
	{args: []string{"-t=0"}, set: "t"},
	{args: []string{"--trace=maybe"}, bad: true},
}

var versionPieces = []piece{
	{},
	{args: []string{"-v"}, set: "v", value: true},
	{args: []string{"--version"}, set: "v", value: true},
	{args: []string{"--version=false"}, set: "v"},
	{args: []string{"-x"}, bad: true},
	{args: []string{"--verbose"}, bad: true},
	{args: []string{"-vz"}, bad: true},
}

// outputs are output directories; place is the cleaned name.
var outputs = []struct{ arg, place string }{
	{"", "build"}, // no option
	{"out", "out"}, {"a/b/c", "a/b/c"}, {"occupied", "occupied"}, {"occupied/sub", "occupied/sub"},
	{".", "."}, {"", ""}, {"out/", "out"}, {"in", "in"}, {"./y", "y"}, {"build", "build"}, {"out two", "out two"},
}

func outputPiece(form, dir int) []string {
	d := outputs[dir].arg
	if dir == 0 {
		return nil
	}
	switch form {
	case 1:
		return []string{"--output", d}
	case 2:
		return []string{"--output=" + d}
	case 3:
		if d != "" {
			return []string{"-o" + d}
		}
	case 4:
		if d != "" {
			return []string{"-o=" + d}
		}
	}
	return []string{"-o", d}
}

// Cli is one invocation with a choice of arguments, files and faults.
func Cli() {
	// the source
	src := h.Fill(h.Sources[pick("source", 6)], "")
	want := ""
	db, err := kfparser.ParseKF(src, nil, kfparser.Default)
	compiles := err == nil
	if compiles {
		b, err := db.ToJSON()
		nd.Assert(err == nil, "the schema has a JSON text")
		want = string(b)
	}

	// the input
	base, ext := "shop", ".kf"
	switch n := nd.Param("chars"); {
	case n > 0:
		base, ext = nd.Bytes("base", n, "a.B _-"), ""
	case n == 0:
		ext = nd.ConcreteStr(nd.OneOf("ext", ".kf", "", ".", ".tar.kf", ".json", ".KF x"))
	}
	dirs := []string{"", "in/", "./", "in/../in/", "./in//"}
	dir := dirs[pick("dir", len(dirs))]
	if nd.Param("chars") > 0 && dir != "in/" && dir != "in/../in/" && dir != "./in//" {
		nd.Assume(base[0] != '-')
	}
	inputKind := pick("input", 6)
	input := dir + base + ext
	readable := inputKind == 0
	switch inputKind {
	case 3:
		input = "nowhere/" + input
	case 4:
		input = "occupied/" + base + ext
	case 5:
		input = ""
	}
	must(os.Mkdir("in", 0o755))
	must(os.Mkdir("out", 0o755))
	put("occupied", "a file")
	put("in/other.json", "{}")
	if special(base + ext) {
		readable = false
	} else if inputKind == 0 {
		put(input, src)
	} else if inputKind == 2 {
		must(os.Mkdir(input, 0o755))
	}

	// the arguments
	traces, versions := tracePieces[pick("tr", len(tracePieces))], versionPieces[pick("version", len(versionPieces))]
	out := pick("out", len(outputs))
	opts := [][]string{traces.args, versions.args, outputPiece(pick("form", 5), out)}
	if pick("swap", 2) == 1 {
		opts[0], opts[2] = opts[2], opts[0]
	}
	count := pick("count", 4)
	at := pick("at", 4)
	dashes := at == 3 && pick("dashes", 2) == 1
	var args []string
	for i := 0; i <= 3; i++ {
		if i == at {
			if dashes {
				args = append(args, "--")
			}
			for j := 0; j < count; j++ {
				if j == 0 {
					args = append(args, input)
				} else {
					args = append(args, "in/other.json")
				}
			}
		}
		if i < 3 {
			args = append(args, opts[i]...)
		}
	}
	bad := traces.bad || versions.bad
	if !dashes && pick("cut", 2) == 1 {
		args = append(args, "-o") // without its value
		bad = true
	}
	trace := traces.set == "t" && traces.value
	show := versions.set == "v" && versions.value

	// the output
	place := outputs[out].place
	if out == 10 {
		must(os.Mkdir("build", 0o755))
	}
	makeable := place != "" && place != "occupied" && place != "occupied/sub"
	if readable && input != "" && strings.HasPrefix(place+"/", clean(input)+"/") {
		makeable = false // the input is in the way
	}
	target := stem(base+ext) + ".json"
	if input == "" {
		target = ".json"
	}
	if place != "." {
		target = place + "/" + target
	}
	olds := 9
	if nd.Param("source") != 0 {
		olds = 5 // the others depend on the whole text
	}
	old := pick("old", olds)
	full, blocked := false, false
	if old > 0 && makeable && readable {
		must(os.MkdirAll(place, 0o755))
		if target != clean(input) {
			switch old {
			case 1:
				put(target, "{")
			case 2:
				put(target, "{"+strings.Repeat("\"old\": 1, ", 400)+"}")
			case 3:
				must(os.Mkdir(target, 0o755))
				blocked = true
			case 4:
				must(os.Symlink("/dev/full", target))
				full = true
			case 5: // of the same length
				put(target, strings.Repeat("x", len(nd.ConcreteStr(want))))
			case 6:
				put(target, want+"\n")
			case 7:
				put(target, want)
			case 8: // cut off
				w := nd.ConcreteStr(want)
				put(target, w[:len(w)/2])
			}
		}
	}

	// the faults
	f := pick("fault", 5)
	before := snapshot(".")
	hasPlace := place == "."
	for _, e := range before {
		if e.path == place {
			hasPlace = true
		}
	}
	nd.Faults(f == 1, f == 2, f == 3)
	nd.ShortWrites(f == 4)
	o := run(args)
	nd.Faults(false, false, false)
	after := snapshot(".")

	// what may happen
	var fails []int
	one := count == 1
	if !one {
		fails = append(fails, 2)
	}
	if !makeable || f == 1 && !hasPlace {
		fails = append(fails, 3)
	}
	if one && (!readable || f == 3) {
		fails = append(fails, 4)
	}
	if one && readable && !compiles {
		fails = append(fails, 5)
	}
	if one && (blocked || f == 2 || f == 3 || f == 4) {
		fails = append(fails, 7)
	}
	if f == 3 && one && readable && !full && !blocked && makeable && compiles {
		fails = []int{7}
	}

	ok := o.code == 0
	said := strings.Contains(o.stdout+o.stderr, "Successfully")
	nd.Observe("code", digits(o.code))
	nd.Observe("said", onoff(said))
	if !trace {
		nd.Observe("stdout", o.stdout)
		if !bad {
			nd.Observe("stderr", o.stderr)
		}
	}
	for _, e := range after {
		nd.Observe(e.kind, e.path+" "+e.data)
	}
	nd.Assert(!o.panicked, "the tool does not crash")
	nd.Assert(strings.TrimSpace(o.stdout+o.stderr) != "", "the tool prints something")
	ran := !bad && !show
	unchanged(before, after, target, place, ran)
	done := find(after, target)
	switch {
	case bad:
		nd.Reach("bad option")
		nd.Assert(o.code == 1, "an option that is not understood fails with status 1")
		nd.Assert(!said, "no success is reported")
	case show:
		nd.Reach("version")
		nd.Assert(ok, "the version option succeeds")
		nd.Assert(strings.TrimSpace(o.stdout+o.stderr) == version.Version, "the version option prints the version")
	case len(fails) == 0:
		if full && !ok {
			nd.Reach("status 7")
			nd.Assert(o.code == 7, "a failing write has status 7")
			nd.Assert(!said, "no success is reported")
			break
		}
		nd.Reach("success")
		nd.Assert(ok, "the tool succeeds when nothing is wrong")
		nd.Assert(said, "the tool reports success")
		nd.Assert(done >= 0, "the output file exists")
		if done >= 0 {
			nd.Assert(after[done].kind == "file" && after[done].data == want, "the output file is exactly the JSON of the schema")
		}
	default:
		nd.Reach("status " + digits(o.code))
		listed := false
		for _, x := range fails {
			if x == o.code {
				listed = true
			}
		}
		nd.Assert(listed, "the status is that of something that failed")
		nd.Assert(!said, "no success is reported")
	}
	if ran && one && readable && makeable && f != 1 {
		traced := o.stdout != ""
		nd.Assert(traced == trace, "the trace option and nothing else prints a trace")
	}
}

// special are names of directories.
func special(name string) bool { return name == "." || name == ".." || name == "" }

// stem is a name without its last extension.
func stem(name string) string {
	for i := len(name) - 1; i >= 0; i-- {
		if name[i] == '.' {
			return name[:i]
		}
	}
	return name
}

// clean is a path of the harness in the form of the snapshot.
func clean(p string) string {
	p = strings.ReplaceAll(p, "//", "/")
	p = strings.TrimPrefix(p, "./")
	return strings.TrimPrefix(p, "in/../")
}

func find(es []entry, path string) int {
	for i, e := range es {
		if e.path == path {
			return i
		}
	}
	return -1
}

// unchanged: only the output file and the directories that lead to it differ.
func unchanged(before, after []entry, target, place string, ran bool) {
	for _, e := range before {
		i := find(after, e.path)
		if e.path == target && ran {
			nd.Assert(i >= 0, "the output file is not removed")
			continue
		}
		nd.Assert(i >= 0, "no other file is removed")
		if i >= 0 {
			nd.Assert(after[i].kind == e.kind && after[i].data == e.data, "no other file is changed")
		}
	}
	for _, e := range after {
		if find(before, e.path) >= 0 || ran && (e.path == target || e.kind == "dir" && (e.path == place || strings.HasPrefix(place, e.path+"/"))) {
			continue
		}
		nd.Assert(false, "nothing else is created")
	}
}

func digits(n int) string {
	if n < 0 {
		return "-" + digits(-n)
	}
	if n < 10 {
		return string(rune('0' + n))
	}
	return digits(n/10) + digits(n%10)
}

func onoff(b bool) string {
	if b {
		return "yes"
	}
	return "no"
}

// Warm fills the caches of the parser.
func Warm() { h.Warm() }
