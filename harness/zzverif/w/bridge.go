//go:build js

// Package w holds the harness of the WebAssembly bridge: it runs its main
// function and then calls what it exported as a page would.
package w

import (
	"strings"
	"syscall/js"
	"time"

	"github.com/kwilteam/kuneiform/kfparser"
	tool "github.com/kwilteam/kuneiform/zzverif/gen/wasm"
	"github.com/kwilteam/kuneiform/zzverif/h"
	"github.com/kwilteam/kuneiform/zzverif/nd"
)

// Funcs are the harnesses by name, for the replay program.
var Funcs = map[string]func(){"Bridge": Bridge}

// Warm fills the caches of the parser.
func Warm() { h.Warm() }

func start() {
	if nd.Symbolic() {
		r := nd.Try(tool.Main)
		a, ok := r.(nd.Aborted)
		nd.Assert(ok && a.Kind == "blocked", "the bridge keeps running")
		return
	}
	go tool.Main()
	for i := 0; i < 2000 && js.Global().Get("parseKuneiform").IsUndefined(); i++ {
		time.Sleep(time.Millisecond)
	}
}

// Bridge is a number of calls of the exported function.
func Bridge() {
	start()
	f := js.Global().Get("parseKuneiform")
	nd.Assert(f.Type() == js.TypeFunction, "parseKuneiform is a function")
	var kept []js.Value
	var texts []string
	for i := 0; i < nd.Param("calls"); i++ {
		name := "call" + string(rune('0'+i))
		n := 1
		if nd.Param("args") > 1 {
			n = nd.Concrete(nd.Int(name+" args", 0, nd.Param("args")))
		}
		src := ""
		if k := nd.Param("chars"); k > 0 {
			src = nd.Bytes(name, k, " ;'$#@{ad0/\n")
		} else {
			kinds := len(h.Sources)
			src = h.Fill(h.Sources[nd.Concrete(nd.Int(name+" source", 0, kinds-1))], name)
		}
		args := make([]any, n)
		for j := range args {
			args[j] = src
		}
		r := f.Invoke(args...)
		if n != 1 {
			nd.Reach("wrong number")
			nd.Assert(r.Type() == js.TypeString, "a call without exactly one argument returns a text")
			nd.Assert(r.String() != "", "the text explains")
			nd.Observe("text", r.String())
			continue
		}
		db, err := kfparser.ParseKF(src, nil, kfparser.Default)
		nd.Assert(r.Type() == js.TypeObject, "the result is an object")
		got, msg := r.Get("json"), r.Get("error")
		nd.Assert(got.Type() == js.TypeString, "the json field is a text")
		nd.Observe("json", got.String())
		if err == nil {
			nd.Reach("accepted")
			b, err := db.ToJSON()
			nd.Assert(err == nil, "the schema has a JSON text")
			nd.Assert(got.String() == string(b), "the json field is exactly the JSON of the schema")
			nd.Assert(msg.IsUndefined(), "there is no error field when the text is accepted")
		} else {
			nd.Reach("rejected")
			nd.Assert(got.String() == "", "the json field is empty when the text is rejected")
			nd.Assert(msg.Type() == js.TypeString, "the error field is a text")
			nd.Observe("error", msg.String())
			nd.Assert(strings.Contains(msg.String(), err.Error()), "the error field contains the message of the parser")
			nd.Assert(err.Error() != "" && msg.String() != "", "the error field is not empty")
		}
		// earlier results stay as they were
		kept = append(kept, r)
		texts = append(texts, got.String())
		for j, k := range kept {
			nd.Assert(k.Get("json").String() == texts[j], "an earlier result stays as it was")
		}
	}
}
