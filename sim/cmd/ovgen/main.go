// Command ovgen writes the overlay for a repository (ovgen DIR ROOT...) or
// the copy of the core module (ovgen core SRC DST).
package main

import (
	"fmt"
	"os"
	"runtime"

	"verif/sim/overlay"
)

func main() {
	if len(os.Args) == 4 && os.Args[1] == "core" {
		if err := overlay.CopyCore(os.Args[2], os.Args[3]); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		return
	}
	of, n, err := overlay.Generate(runtime.GOROOT(), os.Args[1], os.Args[2:], nil)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	fmt.Println(of, n)
}
