//go:build js

// Command replayw runs one harness of the WebAssembly bridge with recorded values.
package main

import (
	"fmt"
	"os"

	"github.com/kwilteam/kuneiform/zzverif/nd"
	"github.com/kwilteam/kuneiform/zzverif/w"
)

func main() {
	f := w.Funcs[os.Getenv("ND_FUNC")]
	if f == nil {
		fmt.Println("no harness", os.Getenv("ND_FUNC"))
		os.Exit(4)
	}
	f()
	nd.Stop()
}
