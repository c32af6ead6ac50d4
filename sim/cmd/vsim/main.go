// Command vsim is the supervisor of the simulator.
//
//	vsim check PROP quick|thorough   search seeds, report, write evidence
//	vsim replay FILE                 execute a replay file once
//	vsim overlay GOROOT REPO DIR     only generate the build overlay
//
// It builds the simulated process (cmd/node) from the current tree of /repo
// with an overlay, then executes one process per seed.
package main

import (
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"

	"verif/sim/overlay"
)

const repo = "/repo"

func fail(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "vsim: "+format+"\n", a...)
	cleanup()
	os.Exit(2)
}

var tmp string

func cleanup() {
	if tmp != "" && filepath.IsAbs(tmp) {
		os.RemoveAll(tmp)
	}
}

func scratch() string {
	d, err := os.MkdirTemp("", "vsim-")
	if err != nil {
		fail("%v", err)
	}
	tmp = d
	ch := make(chan os.Signal, 1)
	signal.Notify(ch, os.Interrupt, syscall.SIGTERM)
	go func() {
		<-ch
		cleanup()
		os.Exit(2)
	}()
	return d
}

func main() {
	a := os.Args[1:]
	switch {
	case len(a) == 4 && a[0] == "overlay":
		p, err := overlay.Gen(a[1], a[2], repo, a[3])
		if err != nil {
			fail("%v", err)
		}
		fmt.Println(p)
	case len(a) == 3 && a[0] == "check" && (a[2] == "quick" || a[2] == "thorough"):
		code := check(a[1], a[2])
		cleanup()
		os.Exit(code)
	case len(a) == 2 && a[0] == "replay":
		code := replay(a[1])
		cleanup()
		os.Exit(code)
	default:
		fail("usage: vsim check PROP quick|thorough | replay FILE | overlay GOROOT REPO DIR")
	}
}
