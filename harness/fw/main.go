package fw

import (
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"sort"
	"time"
)

// Main: check ID TIER [filter] | replay FILE | one ID TIER CASE | list ID TIER | worker ID TIER
func Main() {
	log.SetOutput(io.Discard)
	a := os.Args[1:]
	if len(a) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vfz check ID TIER [filter] | replay FILE | one ID TIER CASE | list ID TIER")
		os.Exit(2)
	}
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		exe, _ := os.Executable()
		dir = filepath.Dir(filepath.Dir(filepath.Dir(exe)))
	}
	switch a[0] {
	case "worker":
		Worker(a[1], a[2])
	case "check":
		tier, filter := "quick", ""
		if len(a) > 2 {
			tier = a[2]
		}
		if len(a) > 3 {
			filter = a[3]
		}
		budget := 240 * time.Second
		if tier == "thorough" {
			budget = 780 * time.Second
		}
		os.Exit(Supervise(dir, a[1], tier, filter, budget))
	case "replay":
		os.Exit(Replay(a[1]))
	case "one":
		os.Exit(RunOne(a[1], a[2], a[3]))
	case "list":
		if a[1] == "checks" {
			var ids []string
			for id := range Registry {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			for _, id := range ids {
				fmt.Println(id)
			}
			return
		}
		for _, c := range Registry[a[1]].Cases(a[2]) {
			fmt.Println(c.Name)
		}
	}
}
