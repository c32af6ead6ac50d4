// Command node executes one simulated run in a fresh process.
//
//	node run PROP SEED        generate the scenario of a seed and execute it
//	node dump PROP SEED       print that scenario
//	node exec FILE            execute a scenario file
//
// The last line of standard output is the result.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"

	"verif/sim/scn"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: node run|dump PROP SEED | exec FILE")
		os.Exit(3)
	}
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	out := os.Stdout
	var s *scn.Scenario
	var err error
	switch os.Args[1] {
	case "run", "dump":
		seed, e := strconv.ParseUint(os.Args[3], 10, 64)
		if e != nil {
			fmt.Fprintln(os.Stderr, e)
			os.Exit(3)
		}
		s, err = scn.Generate(os.Args[2], seed, thorough)
	case "exec":
		s, err = scn.Load(os.Args[2])
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if os.Args[1] == "dump" {
		b, _ := json.MarshalIndent(s, "", " ")
		if f := os.Getenv("SIM_DUMP"); f != "" {
			if err := os.WriteFile(f, b, 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			return
		}
		fmt.Println(string(b))
		return
	}
	scratch := os.Getenv("SIM_SCRATCH")
	if scratch == "" {
		fmt.Fprintln(os.Stderr, "SIM_SCRATCH is not set")
		os.Exit(3)
	}
	scn.Execute(s, scratch, os.Getenv("SIM_TRACE") != "", os.Getenv("SIM_LOG") != "", func(r *scn.Result) {
		b, err := json.Marshal(r)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			scn.Exit(3)
		}
		fmt.Fprintf(out, "%s\n", b)
		scn.Exit(0)
	})
}
