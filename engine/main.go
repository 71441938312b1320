package main

import (
	"os"
	"runtime/debug"
)

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(16 << 30)
	os.Exit(checkCmd(os.Args[1:]))
}
