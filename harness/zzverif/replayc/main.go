// Command replayc runs one harness of the command line tool with recorded values.
package main

import (
	"fmt"
	"os"

	"github.com/kwilteam/kuneiform/zzverif/c"
	"github.com/kwilteam/kuneiform/zzverif/nd"
)

func main() {
	if s := os.Getenv("ND_CLI"); s != "" {
		c.Child(s)
	}
	f := c.Funcs[os.Getenv("ND_FUNC")]
	if f == nil {
		fmt.Println("no harness", os.Getenv("ND_FUNC"))
		os.Exit(4)
	}
	f()
	nd.Stop()
}
