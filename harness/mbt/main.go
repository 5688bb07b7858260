// vfzmbt runs check C24: the Go client library for model-based testing.
package main

import (
	"os"

	"verif/fw"
)

func main() {
	if os.Getenv("VERIF_MBT_RUNNER") != "" {
		runner()
		return
	}
	fw.Main()
}
