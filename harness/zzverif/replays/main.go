// Command replays runs one harness about the machine itself with recorded values.
package main

import (
	"fmt"
	"os"

	"github.com/kwilteam/kuneiform/zzverif/nd"
	"github.com/kwilteam/kuneiform/zzverif/s"
)

func main() {
	f := s.Funcs[os.Getenv("ND_FUNC")]
	if f == nil {
		fmt.Println("no harness", os.Getenv("ND_FUNC"))
		os.Exit(4)
	}
	f()
	nd.Stop()
}
