// vfz runs the checks: vfz check ID TIER [filter] | replay FILE | one ID TIER CASE | list ID TIER | worker ID TIER
package main

import (
	_ "verif/checks"
	"verif/fw"
)

func main() { fw.Main() }
