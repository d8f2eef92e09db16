// Package nd is the interface between a harness and the symbolic machine. The
// bodies below are only used when a harness is compiled natively to replay a
// counterexample: they read the recorded values in the order of creation.
package nd

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
)

// Aborted is the result of Try when the call ended the process or blocked.
type Aborted struct {
	Kind string
	Code int
}

type replay struct {
	Model  []uint64         `json:"model"`
	Kinds  []string         `json:"kinds"`
	Params map[string]int64 `json:"params"`
}

var (
	rec    replay
	pos    int
	loaded bool
	Failed string
)

func load() {
	if loaded {
		return
	}
	loaded = true
	b, err := os.ReadFile(os.Getenv("ND_REPLAY"))
	if err != nil {
		fmt.Println("no replay file:", err)
		os.Exit(4)
	}
	if err := json.Unmarshal(b, &rec); err != nil {
		fmt.Println("bad replay file:", err)
		os.Exit(4)
	}
}

func next(size int) int {
	load()
	for pos < len(rec.Model) && pos < len(rec.Kinds) && rec.Kinds[pos] == "maporder" {
		pos++
	}
	if pos >= len(rec.Model) {
		return 0
	}
	v := int(rec.Model[pos])
	pos++
	if v >= size {
		fmt.Println("replay diverged: value out of range")
		os.Exit(4)
	}
	return v
}

func Symbolic() bool { return false }

func Bool(label string) bool { return next(2) == 1 }

func Int(label string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	return lo + next(hi-lo+1)
}

func OneOf(label string, opts ...string) string {
	if len(opts) == 1 {
		return opts[0]
	}
	return opts[next(len(opts))]
}

// Bytes is a string of exactly n bytes, each an element of set.
func Bytes(label string, n int, set string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = set[next(len(set))]
	}
	return string(b)
}

func Concrete(x int) int          { return x }
func ConcreteBool(b bool) bool    { return b }
func ConcreteStr(s string) string { return s }
func ConcreteAll()                {}
func Known(b bool) bool           { return b }
func IsConcrete(s string) bool    { return true }
func Reach(label string)          {}
func Observe(label, value string) { fmt.Println("OBS " + strconv.Quote(label+"="+value)) }

// Lone is what the replay program prints for the text in a process of its own.
func Lone(text string) string {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "ND_LONE=1")
	cmd.Stdin = strings.NewReader(text)
	out, err := cmd.Output()
	if err != nil {
		panic(err)
	}
	return string(out)
}

// FaultSpec is what Faults asked for: m, c, x.
var FaultSpec string

// Faults makes creating directories, opening files that may be created and
// closing files fail in the invocations that follow.
func Faults(mkdir, create, closing bool) {
	FaultSpec = ""
	if mkdir {
		FaultSpec += "m"
	}
	if create {
		FaultSpec += "c"
	}
	if closing {
		FaultSpec += "x"
	}
}

// ShortWrites makes files that the invocations that follow write end after five
// bytes: what is beyond is not written.
func ShortWrites(on bool) {
	if on {
		FaultSpec += "l"
	}
}

func Stdout() string        { return "" }
func Stderr() string        { return "" }
func Param(name string) int { load(); return int(rec.Params[name]) }
func Stop()                 { finish() }
func Cut(label string)      { finish() }

func Assume(b bool) {
	if !b {
		fmt.Println("replay diverged: an assumption does not hold")
		os.Exit(4)
	}
}

func Assert(b bool, msg string) {
	if !b {
		Failed = msg
		fmt.Println("ASSERTION FAILED:", msg)
		os.Exit(3)
	}
}

func finish() {
	fmt.Println("REPLAY OK")
	os.Exit(0)
}

func And(a ...bool) bool {
	for _, x := range a {
		if !x {
			return false
		}
	}
	return true
}

func Or(a ...bool) bool {
	for _, x := range a {
		if x {
			return true
		}
	}
	return false
}

func Not(a bool) bool        { return !a }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}
func IteStr(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

// Quote is x as a JSON string.
func Quote(x string) string {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// Try runs f and returns what it panicked with (nil: it returned).
func Try(f func()) (r any) {
	defer func() { r = recover() }()
	f()
	return nil
}
