// The checker: explores the executions of the code under test for one property.
package main

import (
	"encoding/json"
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		logf("usage: checker check ID TIER VERIFDIR | worker | replay FILE | list")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "worker":
		workerMain()
	case "check":
		os.Exit(ctlMain(os.Args[2], os.Args[3], os.Args[4]))
	case "list":
		for _, p := range props {
			fmt.Println(p.id)
		}
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			logf("%v", err)
			os.Exit(3)
		}
		var f struct{ Case *Case }
		if err := json.Unmarshal(b, &f); err != nil || f.Case == nil {
			logf("bad replay file: %v", err)
			os.Exit(3)
		}
		fmt.Println(f.Case)
		if m := runOnce(f.Case, os.TempDir()); m != "" {
			fmt.Println("FAILS:", m)
			os.Exit(1)
		}
		fmt.Println("passes")
	}
}
