// limit runs a command that may write files of at most so many bytes:
// a write beyond that fails, as on a full disk.
package main

import (
	"os"
	"os/signal"
	"strconv"
	"syscall"
)

func main() {
	n, err := strconv.ParseUint(os.Args[1], 10, 63)
	if err != nil {
		panic(err)
	}
	signal.Ignore(syscall.SIGXFSZ)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
		panic(err)
	}
	panic(syscall.Exec(os.Args[2], os.Args[2:], os.Environ()))
}
