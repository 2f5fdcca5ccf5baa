// Command vmc explores the properties that are decided at the level of the
// library packages.
package main

import (
	"fmt"
	"os"

	_ "github.com/si-co/vpir-code/aa_verif/detrand"
	"github.com/si-co/vpir-code/zz_verif/eng"
)

var checks = map[string]*eng.Check{}

func register(c *eng.Check) { checks[c.ID] = c }

func main() {
	runDump()
	if len(os.Args) < 2 || checks[os.Args[1]] == nil {
		fmt.Println("usage: vmc PROPERTY")
		os.Exit(2)
	}
	eng.Main(checks[os.Args[1]])
}
