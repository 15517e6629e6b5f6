// Command mon runs the monitors.
package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"

	"phoenixverif/fw"
)

func main() {
	if len(os.Args) < 3 {
		var ids []string
		for id := range fw.Props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println("usage: mon check|replay ID [case];", ids)
		os.Exit(2)
	}
	root := os.Getenv("MON_ROOT")
	if root == "" {
		root = "/verif"
	}
	switch os.Args[1] {
	case "check":
		os.Exit(fw.Main(root, os.Args[2]))
	case "worker":
		seed, _ := strconv.ParseInt(os.Args[3], 10, 64)
		lo, _ := strconv.Atoi(os.Args[5])
		hi, _ := strconv.Atoi(os.Args[6])
		mul, _ := strconv.Atoi(os.Args[8])
		os.Exit(fw.Worker(os.Args[2], seed, os.Args[4], lo, hi, os.Args[7], mul))
	case "replay":
		os.Exit(fw.Replay(os.Args[2], os.Args[3:]))
	case "clip":
		clipHelper(os.Args[2], os.Args[3])
	case "tty":
		os.Exit(ttyHelper(os.Args[2], os.Args[3]))
	case "race":
		if p := fw.Props[os.Args[2]]; p != nil && p.Race {
			fmt.Println("race")
		}
	}
}
