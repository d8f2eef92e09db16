// Command replay runs one harness with recorded values against the real code.
package main

import (
	"fmt"
	"io"
	"os"

	"github.com/kwilteam/kuneiform/zzverif/h"
	"github.com/kwilteam/kuneiform/zzverif/nd"
)

func main() {
	if os.Getenv("ND_LONE") != "" {
		text, _ := io.ReadAll(os.Stdin)
		h.Lone(string(text))
		return
	}
	f := h.Funcs[os.Getenv("ND_FUNC")]
	if f == nil {
		fmt.Println("no harness", os.Getenv("ND_FUNC"))
		os.Exit(4)
	}
	f()
	nd.Stop()
}
