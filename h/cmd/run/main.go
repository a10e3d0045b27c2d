package main

import (
	"verif/core"
	_ "verif/props"
)

func main() { core.Main() }
