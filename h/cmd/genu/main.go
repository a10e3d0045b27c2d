// Command genu writes the Go source of invented box declarations.
package main

import (
	"fmt"
	"os"
	"strconv"

	"verif/udecl"
)

func main() {
	seed, err1 := strconv.ParseUint(os.Args[1], 10, 64)
	n, err2 := strconv.Atoi(os.Args[2])
	if err1 != nil || err2 != nil {
		os.Exit(2)
	}
	fmt.Print(udecl.Source(seed, n))
}
